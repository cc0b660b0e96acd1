// serverw runs the server as its users do: as processes, with settings, on disk.
package main

import (
	"flag"
	"fmt"
	"os"
	"time"

	"doqverif/core"
	"doqverif/netns"

	"google.golang.org/grpc/grpclog"
)

var mode = flag.String("mode", "settings", "what to run")

type nowhere struct{}

func (nowhere) Write(p []byte) (int, error) { return len(p), nil }

func main() {
	if os.Getenv("SERVERW_CHILD") == "settings" {
		settingsChild()
		return
	}
	a := core.ParseArgs()
	hosts := *mode == "cluster" && netns.Enter()
	core.Quiet()
	grpclog.SetLoggerV2(grpclog.NewLoggerV2(nowhere{}, nowhere{}, nowhere{}))
	core.Watchdog(240 * time.Second)
	rep := core.NewReport()
	switch *mode {
	case "cluster":
		clusters(a, rep, hosts)
	case "kill":
		kills(a, rep)
	case "compat":
		compat(a, rep)
	case "fixture":
		makeFixture(a)
		return
	case "effects":
		effects(a, rep)
	case "settings":
		settings(a, rep)
	default:
		panic(fmt.Sprintf("harness: unknown mode %s", *mode))
	}
	rep.Write(a)
	os.Exit(0)
}

func pick(a *core.Args, quick, thorough int) int {
	if a.N > 0 {
		return a.N
	}
	if a.Tier == "thorough" {
		return thorough
	}
	return quick
}
