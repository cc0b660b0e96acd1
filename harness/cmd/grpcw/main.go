// grpcw drives the gRPC service of nodes.
package main

import (
	"flag"
	"fmt"
	"os"
	"time"

	"doqverif/core"

	"google.golang.org/grpc/grpclog"
)

var mode = flag.String("mode", "unary", "what to run")

func main() {
	a := core.ParseArgs()
	core.Quiet()
	grpclog.SetLoggerV2(grpclog.NewLoggerV2(nowhere{}, nowhere{}, nowhere{}))
	core.CaseLimit = 120 * time.Second
	core.Watchdog(120 * time.Second)
	rep := core.NewReport()
	switch *mode {
	case "unary":
		unary(a, rep)
	case "cluster":
		clusters(a, rep)
	case "streams":
		core.Bubble(func() {
			streams(a, rep)
			rep.Write(a)
			os.Exit(0)
		})
	default:
		fmt.Fprintln(os.Stderr, "unknown mode", *mode)
		os.Exit(2)
	}
	rep.Write(a)
	os.Exit(0)
}

type nowhere struct{}

func (nowhere) Write(p []byte) (int, error) { return len(p), nil }

func pick(a *core.Args, quick, thorough int) int {
	if a.Tier == "thorough" {
		return thorough
	}
	return quick
}
