// leakw counts what is left running after queues, streams and requests have
// come and gone.
package main

import (
	"flag"
	"fmt"
	"math/rand/v2"
	"os"
	"sort"
	"strings"
	"sync"
	"testing/synctest"
	"time"

	"doqverif/core"
	"doqverif/seq"
	"doqverif/sim"

	hraft "github.com/hashicorp/raft"
	"github.com/kgantsov/doq/pkg/queue"
	"google.golang.org/grpc/grpclog"
)

var mode = flag.String("mode", "queues", "what to run")

type nowhere struct{}

func (nowhere) Write(p []byte) (int, error) { return len(p), nil }

func main() {
	a := core.ParseArgs()
	core.Quiet()
	grpclog.SetLoggerV2(grpclog.NewLoggerV2(nowhere{}, nowhere{}, nowhere{}))
	core.Watchdog(120 * time.Second)
	rep := core.NewReport()
	bubble := func(f func()) {
		core.Bubble(func() {
			f()
			rep.Write(a)
			os.Exit(0)
		})
	}
	switch *mode {
	case "queues":
		bubble(func() {
			rep.Rule = "random creations, look-ups, uses, deletions, reloads and restores of queues; after each few operations the running goroutines of the code under test are counted and compared with what the existing queues account for; non-trivial: a queue was deleted and created again"
			for k, v := range map[string]int64{"counts": 3000, "deletes": 2000, "recreated": 1000, "reloads": 100, "restores": 100, "node-cases": 50} {
				rep.Floor(k, v)
			}
			core.Cases(a, pick(a, 720, 15000), func(ci int) {
				core.AlignClock()
				r := core.Rand(a, "leak", ci)
				if ci/8%6 == 5 {
					onNode(a, rep, r, ci)
				} else {
					onManager(a, rep, r, ci)
				}
			})
		})
	case "streams":
		bubble(func() { streams(a, rep) })
	case "clients":
		bubble(func() { clients(a, rep) })
	case "proxy":
		proxies(a, rep)
	default:
		fmt.Fprintln(os.Stderr, "unknown mode", *mode)
		os.Exit(2)
	}
	rep.Write(a)
	os.Exit(0)
}

func pick(a *core.Args, quick, thorough int) int {
	if a.Tier == "thorough" {
		return thorough
	}
	return quick
}

const doq = "github.com/kgantsov/doq/"

// running returns the goroutines of the code under test
func running() []string {
	return core.DoqStacks(func(s string) bool { return strings.Contains(s, doq) })
}

// rest waits until everything that is under way has come to an end, in
// virtual time, but not so long that timers of a second expire twice
func rest() {
	time.Sleep(200 * time.Millisecond)
	synctest.Wait()
}

// kinds tells stacks by the function that they began with
func kinds(stacks []string) string {
	n := map[string]int{}
	for _, s := range stacks {
		lines := strings.Split(s, "\n")
		first := ""
		for _, l := range lines {
			if strings.HasPrefix(l, doq) {
				first = l
			}
		}
		if i := strings.LastIndex(first, "("); i > 0 {
			first = first[:i]
		}
		n[strings.TrimPrefix(first, doq)]++
	}
	var out []string
	for k, v := range n {
		out = append(out, fmt.Sprintf("%d x %s", v, k))
	}
	sort.Strings(out)
	return strings.Join(out, ", ")
}

type history struct {
	rep     *core.Report
	a       *core.Args
	ci      int
	r       *rand.Rand
	b       seq.Backend
	base    int
	per     map[string]int
	live    map[string]string
	was     map[string]bool
	trace   []string
	again   int
	failed  bool
	restore func() string
	reload  func() string
}

func (h *history) note(format string, args ...any) {
	h.trace = append(h.trace, fmt.Sprintf(format, args...))
	core.Touch()
}

// measure finds out what a queue of each type accounts for
func (h *history) measure() bool {
	rest()
	h.base = len(running())
	h.per = map[string]int{}
	for _, typ := range []string{"delayed", "fair"} {
		if err := h.b.Create(typ, "measure"); err != nil {
			h.rep.Inconc("case %d: create: %v", h.ci, err)
			return false
		}
		rest()
		h.per[typ] = len(running()) - h.base
		if err := h.b.Delete("measure"); err != nil {
			h.rep.Inconc("case %d: delete: %v", h.ci, err)
			return false
		}
		rest()
		if !h.count("after the creation and deletion of one " + typ + " queue") {
			return false
		}
	}
	h.note("a delayed queue has %d goroutines, a fair one %d, before there were %d", h.per["delayed"], h.per["fair"], h.base)
	return true
}

func (h *history) count(when string) bool {
	want := h.base
	for _, typ := range h.live {
		want += h.per[typ]
	}
	got := running()
	h.rep.Count("counts", 1)
	h.note("%d goroutines, %d queues", len(got), len(h.live))
	if len(got) == want {
		return true
	}
	h.failed = true
	h.rep.Violate(core.Violation{Case: h.ci, Kind: "leak", Trace: append(h.trace, got...),
		Msg: fmt.Sprintf("%s there are %d goroutines (%s) where %d queues account for %d", when, len(got), kinds(got), len(h.live), want)})
	return false
}

func (h *history) run(steps int) {
	names := seq.Names(h.r, "hostile", 4)
	var ids []uint64
	for i := 0; i < steps && !h.failed; i++ {
		q := names[h.r.IntN(len(names))]
		switch k := h.r.IntN(24); {
		case k < 6:
			typ := []string{"delayed", "fair"}[h.r.IntN(2)]
			err := h.b.Create(typ, q)
			h.note("create %s %q: %v", typ, q, err)
			if err == nil {
				if _, ok := h.live[q]; !ok {
					h.live[q] = typ
					if h.was[q] {
						h.again++
						h.rep.Count("recreated", 1)
					}
				}
			}
		case k < 11:
			err := h.b.Delete(q)
			h.note("delete %q: %v", q, err)
			if err == nil {
				h.rep.Count("deletes", 1)
				delete(h.live, q)
				h.was[q] = true
			}
		case k < 14:
			m, err := h.b.Enqueue(q, "g", int64(h.r.IntN(4)), "x", h.r.Uint64N(1<<60))
			h.note("enqueue %q: %v", q, err)
			if err == nil {
				ids = append(ids, m.ID)
			}
		case k < 17:
			_, err := h.b.Dequeue(q, h.r.IntN(2) == 0)
			h.note("dequeue %q: %v", q, err)
		case k < 18:
			if len(ids) > 0 {
				id := ids[h.r.IntN(len(ids))]
				switch h.r.IntN(3) {
				case 0:
					h.note("ack %q %d: %v", q, id, h.b.Ack(q, id))
				case 1:
					h.note("nack %q %d: %v", q, id, h.b.Nack(q, id))
				default:
					h.note("priority %q %d: %v", q, id, h.b.UpdatePriority(q, id, 3))
				}
			}
		case k < 20:
			_, err := h.b.Info(q)
			h.note("info %q: %v", q, err)
		case k < 21:
			h.b.List()
			h.note("list")
		case k < 22:
			if h.r.IntN(2) == 0 && h.reload != nil {
				h.note("reload: %s", h.reload())
				h.rep.Count("reloads", 1)
			} else if h.restore != nil {
				h.note("restore: %s", h.restore())
				h.rep.Count("restores", 1)
			}
		default:
			d := time.Duration(h.r.IntN(4000)) * time.Millisecond
			time.Sleep(d)
			h.note("%s pass", d)
		}
		if h.r.IntN(4) == 0 {
			rest()
			h.count("after the last operation")
		}
	}
	rest()
	if !h.failed {
		h.count("at the end")
	}
	for q := range h.live {
		if err := h.b.Delete(q); err != nil {
			h.rep.Inconc("case %d: delete: %v", h.ci, err)
			return
		}
		delete(h.live, q)
		h.note("delete %q", q)
	}
	rest()
	if !h.failed {
		h.count("after the deletion of all queues")
	}
	h.rep.Done(h.again > 0, strings.Join(h.trace, ";"), func() any {
		return map[string]any{"case": h.ci, "trace": h.trace[:min(40, len(h.trace))]}
	})
}

func onManager(a *core.Args, rep *core.Report, r *rand.Rand, ci int) {
	b := seq.NewQM(5, 1+int64(r.IntN(2)), 10, nil)
	defer func() { b.DB.Close() }()
	h := &history{rep: rep, a: a, ci: ci, r: r, b: b, live: map[string]string{}, was: map[string]bool{}}
	if !h.measure() {
		return
	}
	h.reload = func() string {
		// what a new process finds: nobody has asked for any queue yet
		db := seq.CopyDB(b.DB)
		for q := range h.live {
			if err := b.M.Delete(q); err != nil {
				rep.Inconc("case %d: delete: %v", ci, err)
			}
		}
		b.DB.Close()
		rest()
		live := h.live
		h.live = map[string]string{}
		if !h.count("after a queue manager has been emptied") {
			return ""
		}
		b.DB, b.M = db, queue.NewQueueManager(db, b.Cfg, nil)
		h.live = live
		// concurrent look-ups find the queues
		var wg sync.WaitGroup
		k := 1 + r.IntN(6)
		if r.IntN(3) == 0 {
			b.M.LoadQueues()
		}
		for i := 0; i < k; i++ {
			wg.Add(1)
			go func() {
				defer wg.Done()
				for q := range live {
					b.M.GetQueue(q)
				}
			}()
		}
		wg.Wait()
		return fmt.Sprintf("%d queues, found %d times", len(live), k)
	}
	h.run(40 + r.IntN(60))
}

func onNode(a *core.Args, rep *core.Report, r *rand.Rand, ci int) {
	rep.Count("node-cases", 1)
	cl := sim.NewCluster(r.Uint64(), 5, 1)
	defer cl.Close()
	cl.Form(1)
	n := cl.Nodes[0]
	h := &history{rep: rep, a: a, ci: ci, r: r, b: &sim.Backend{C: cl, N: n}, live: map[string]string{}, was: map[string]bool{}}
	if !h.measure() {
		return
	}
	h.restore = func() string {
		time.Sleep(5 * time.Millisecond)
		f := n.N.Raft.Snapshot()
		if err := f.Error(); err != nil {
			if err == hraft.ErrNothingNewToSnapshot {
				return "nothing new"
			}
			rep.Inconc("case %d: snapshot: %v", ci, err)
			return ""
		}
		meta, rc, err := f.Open()
		if err != nil {
			rep.Inconc("case %d: open: %v", ci, err)
			return ""
		}
		defer rc.Close()
		kept := map[string]string{}
		for q, t := range h.live {
			kept[q] = t
		}
		// what happens after the snapshot is undone
		for i := r.IntN(4); i > 0; i-- {
			q := fmt.Sprint("later-", r.IntN(2))
			h.b.Create("fair", q)
			h.b.Enqueue(q, "g", 1, "x", 0)
		}
		if r.IntN(2) == 0 {
			for q := range kept {
				h.b.Delete(q)
				break
			}
		}
		time.Sleep(time.Duration(r.IntN(3)) * time.Second)
		if err := n.N.Raft.Restore(meta, rc, 10*time.Second); err != nil {
			rep.Inconc("case %d: restore: %v", ci, err)
		}
		h.live = kept
		for q := range kept {
			h.b.Info(q)
		}
		return fmt.Sprintf("%d queues", len(kept))
	}
	h.run(40 + r.IntN(40))
}
