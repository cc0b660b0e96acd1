// httpw drives the HTTP service of nodes.
package main

import (
	"flag"
	"fmt"
	"os"
	"time"

	"doqverif/core"

	"github.com/gofiber/fiber/v2/middleware/monitor"
)

var mode = flag.String("mode", "api", "what to run")

func main() {
	a := core.ParseArgs()
	core.Quiet()
	loud := silence()
	core.CaseLimit = 120 * time.Second
	core.Watchdog(120 * time.Second)
	// the first one starts a goroutine for the whole process
	monitor.New(monitor.Config{Refresh: time.Hour})
	rep := core.NewReport()
	switch *mode {
	case "api":
		core.Bubble(func() {
			api(a, rep)
			loud()
			rep.Write(a)
			os.Exit(0)
		})
	case "forward":
		forward(a, rep)
	case "cluster":
		core.Bubble(func() {
			clusters(a, rep)
			loud()
			rep.Write(a)
			os.Exit(0)
		})
	default:
		fmt.Fprintln(os.Stderr, "unknown mode", *mode)
		os.Exit(2)
	}
	loud()
	rep.Write(a)
	os.Exit(0)
}

// silence sends what the service prints nowhere until loud is called
func silence() (loud func()) {
	out := os.Stdout
	null, err := os.OpenFile(os.DevNull, os.O_WRONLY, 0)
	if err != nil {
		panic(err)
	}
	os.Stdout = null
	return func() { os.Stdout = out }
}

func pick(a *core.Args, quick, thorough int) int {
	if a.Tier == "thorough" {
		return thorough
	}
	return quick
}
