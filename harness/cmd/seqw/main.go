// seqw drives the queue manager with one operation at a time (see package seq).
package main

import (
	"fmt"
	"os"
	"time"

	"doqverif/core"
	"doqverif/profiles"
	"doqverif/seq"
)

func main() {
	a := core.ParseArgs()
	core.Quiet()
	core.CaseLimit = 60 * time.Second
	core.Watchdog(60 * time.Second)
	pl := profiles.Plans()[a.Prop]
	if pl == nil {
		fmt.Fprintln(os.Stderr, "unknown property", a.Prop)
		os.Exit(2)
	}
	rep := core.NewReport()
	pl.P.FarRate = 25
	rep.Rule = pl.Rule
	for k, v := range pl.Floors {
		rep.Floor(k, v)
	}
	rep.Floor("far-cases", 50)
	n := pl.Quick
	if a.Tier == "thorough" {
		n = pl.Thorough
	}
	core.Bubble(func() {
		core.Cases(a, n, func(ci int) {
			core.AlignClock()
			r := core.Rand(a, "seq", ci)
			time.Sleep(time.Duration(r.IntN(1000)) * time.Millisecond)
			c := seq.New(r, pl.P, rep)
			b := seq.NewQM(c.T, c.I, c.Window, nil)
			if pl.P.Stats {
				b.DB.Close()
				b = seq.Metered(c.T, c.I, c.Window)
			}
			c.Start(b)
			c.Run()
			finish(rep, pl, c, ci)
			b.Close()
		})
		rep.Write(a)
		os.Exit(0)
	})
}

func finish(rep *core.Report, pl *profiles.Plan, c *seq.Case, ci int) {
	for k, v := range c.M.N {
		rep.Count(k, v)
	}
	rep.Count("operations", int64(len(c.Trace)))
	nontrivial := pl.Nontrivial == nil || pl.Nontrivial(c.M.N)
	rep.Done(nontrivial, c.Signature(), func() any {
		return map[string]any{"case": ci, "timeout": c.T, "interval": c.I, "trace": tail(c.Trace, 60)}
	})
	if d := pl.Judge(c.Devs); d != nil {
		rep.Violate(core.Violation{Case: ci, Kind: d.Kind, Msg: d.Msg, Trace: c.Trace})
	} else if len(c.Devs) > 0 {
		rep.Count("deviation-of-another-property", 1)
	}
}

func tail(s []string, n int) []string {
	if len(s) > n {
		return s[:n]
	}
	return s
}
