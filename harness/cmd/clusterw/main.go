// clusterw drives nodes with raft, in virtual time, over a simulated network.
package main

import (
	"flag"
	"fmt"
	"os"
	"time"

	"doqverif/core"
	"doqverif/profiles"
	"doqverif/seq"
	"doqverif/sim"
)

var mode = flag.String("mode", "node", "what to run")

func main() {
	a := core.ParseArgs()
	core.Quiet()
	core.CaseLimit = 240 * time.Second
	core.Watchdog(120 * time.Second)
	rep := core.NewReport()
	if *mode == "bursts" {
		bursts(a, rep)
		rep.Write(a)
		os.Exit(0)
	}
	core.Bubble(func() {
		switch *mode {
		case "node":
			node(a, rep)
		case "crash":
			crash(a, rep)
		case "lin":
			lin(a, rep)
		case "storm":
			storm(a, rep)
		case "replicas":
			replicas(a, rep)
		case "giant":
			giant(a, rep)
		case "bounds":
			bounds(a, rep)
		case "ids":
			ids(a, rep)
		case "join":
			join(a, rep)
		default:
			fmt.Fprintln(os.Stderr, "unknown mode", *mode)
			os.Exit(2)
		}
		rep.Write(a)
		os.Exit(0)
	})
}

// align makes cases independent of when they run
func align() {
	now := time.Now()
	time.Sleep(time.Unix((now.Unix()/20+1)*20, 0).Sub(now))
}

func pick(a *core.Args, quick, thorough int) int {
	if a.Tier == "thorough" {
		return thorough
	}
	return quick
}

// node: one operation at a time on a single node, compared with the model
func node(a *core.Args, rep *core.Report) {
	pl := profiles.Plans()[a.Prop]
	p := *pl.P
	if p.Steps[1] > 120 && a.Prop != "C11" {
		p.Steps = [2]int{40, 120}
	}
	p.SharedIDs = false
	p.FarRate = 20
	rep.Rule = pl.Rule + " (on a node with raft)"
	n := pick(a, 240, 4000)
	if a.Prop == "C11" {
		n = pick(a, 960, 12000)
		for k, v := range pl.Floors {
			rep.Floor(k, v)
		}
	}
	core.Cases(a, n, func(ci int) {
		align()
		r := core.Rand(a, "node", ci)
		c := seq.New(r, &p, rep)
		cl := sim.NewCluster(r.Uint64(), c.T, c.I)
		cl.Window, cl.Metrics = c.Window, p.Stats
		cl.Form(1)
		time.Sleep(time.Duration(r.IntN(1000)) * time.Millisecond)
		b := &sim.Backend{C: cl, N: cl.Nodes[0], Rep: func(s string) { rep.Count("node-"+s, 1) }}
		c.Start(b)
		c.Stop = func() bool { return b.Dead != "" }
		c.Run()
		for k, v := range c.M.N {
			rep.Count(k, v)
		}
		rep.Count("operations", int64(len(c.Trace)))
		rep.Done(pl.Nontrivial == nil || pl.Nontrivial(c.M.N), c.Signature(), func() any {
			return map[string]any{"case": ci, "timeout": c.T, "interval": c.I, "trace": head(c.Trace, 60)}
		})
		if d := pl.Judge(c.Devs); d != nil {
			rep.Violate(core.Violation{Case: ci, Kind: d.Kind, Msg: d.Msg, Trace: c.Trace})
		} else if len(c.Devs) > 0 {
			rep.Count("deviation-of-another-property", 1)
		} else if b.Dead != "" {
			if a.Prop == "C11" {
				rep.Violate(core.Violation{Case: ci, Kind: "dead", Msg: b.Dead, Trace: c.Trace})
			} else {
				rep.Inconc("case %d: %s", ci, b.Dead)
			}
		}
		cl.Close()
	})
}

func head(s []string, n int) []string {
	if len(s) > n {
		return s[:n]
	}
	return s
}
