// concw drives the queue manager with concurrent clients, in virtual time. The
// clients wake up exactly when acknowledgement timeouts are checked, so that
// their requests race the monitor and each other. The histories are checked
// offline.
package main

import (
	"fmt"
	"math/rand/v2"
	"os"
	"sort"
	"strings"
	"sync"
	"time"

	"doqverif/conc"
	"doqverif/core"
	"doqverif/seq"
	"github.com/anishathalye/porcupine"
)

var accept = map[string]map[string]bool{
	"C01": set(seq.KOrder, seq.KNotDue),
	"C03": set(seq.KFairOrder, seq.KFairEmpty),
	"C04": set(seq.KLost, seq.KInvented, seq.KContent, seq.KGroup, seq.KGoneBack, seq.KDouble, seq.KNotDue, seq.KFairEmpty, seq.KStats, seq.KEnqueue, "linearizability"),
	"C05": set(seq.KDouble, seq.KGoneBack, seq.KAck, "linearizability"),
	"C06": set(seq.KDouble, seq.KLost, seq.KStats),
	"C07": set(seq.KAck, seq.KNack, seq.KGoneBack, seq.KLost, seq.KStats, "linearizability"),
	"C08": set(seq.KUpdate, seq.KPrio, seq.KOrder, seq.KFairOrder, seq.KLost, "linearizability"),
	"C19": set(seq.KStats, seq.KList, seq.KMetric),
	"C10": set(seq.KLife, seq.KLost, seq.KStats, seq.KList),
}

func set(ks ...string) map[string]bool {
	m := map[string]bool{}
	for _, k := range ks {
		m[k] = true
	}
	return m
}

func main() {
	a := core.ParseArgs()
	core.Quiet()
	core.CaseLimit = 90 * time.Second
	core.Watchdog(90 * time.Second)
	rep := core.NewReport()
	rep.Rule = "two to eight clients operate on one or two queues at the same virtual instants, most of them aligned to the checks of acknowledgement timeouts; histories are checked against per-message axioms, small ones also for linearizability; non-trivial: deliveries by at least two clients"
	n := 1600
	if a.Tier == "thorough" {
		n = 40000
	}
	rep.Floor("conc-deliveries", 10000)
	rep.Floor("overlapping-operations", 5000)
	core.Bubble(func() {
		core.Cases(a, n, func(ci int) {
			core.AlignClock()
			r := core.Rand(a, "conc", ci)
			if ci%4 == 0 {
				small(a, rep, r, ci)
			} else {
				large(a, rep, r, ci)
			}
		})
		rep.Write(a)
		os.Exit(0)
	})
}

type client struct {
	id    int
	r     *rand.Rand
	b     seq.Backend
	h     *conc.History
	held  []held
	seen  []held
	begin time.Time
}

type held struct {
	q  string
	id uint64
	at time.Time
}

func judge(a *core.Args, rep *core.Report, h *conc.History, ci int, fs []conc.Finding, n map[string]int64, extra []string) {
	for k, v := range n {
		rep.Count("conc-"+k, v)
	}
	by := map[int]int{}
	overlap := int64(0)
	var sig strings.Builder
	maxRet := int64(0)
	for _, o := range h.Ops {
		if o.Call < maxRet {
			overlap++
		}
		maxRet = max(maxRet, o.Ret)
		if o.Kind == "dequeue" && o.OK {
			by[o.Client]++
		}
		fmt.Fprintf(&sig, "%d%s%v%d;", o.Client, o.Kind, o.OK, o.ID)
	}
	rep.Count("overlapping-operations", overlap)
	rep.Count("conc-operations", int64(len(h.Ops)))
	rep.Done(len(by) >= 2, sig.String(), func() any {
		tr := []string{}
		for i, o := range h.Ops {
			if i < 40 {
				tr = append(tr, o.String())
			}
		}
		return map[string]any{"case": ci, "timeout": h.T, "interval": h.I, "history": tr}
	})
	for _, f := range fs {
		if accept[a.Prop][f.Kind] {
			tr := append([]string{fmt.Sprintf("timeout %d s, interval %d s, types %v", h.T, h.I, h.Types)}, extra...)
			for _, o := range f.Ops {
				tr = append(tr, o.String())
			}
			tr = append(tr, "--- the whole history:")
			for _, o := range h.Ops {
				tr = append(tr, o.String())
			}
			if len(tr) > 390 {
				tr = tr[:390]
			}
			rep.Violate(core.Violation{Case: ci, Kind: f.Kind, Msg: f.Msg, Trace: tr})
			return
		}
		rep.Count("deviation-of-another-property", 1)
	}
}

// small makes short histories for the linearizability checker
func small(a *core.Args, rep *core.Report, r *rand.Rand, ci int) {
	b := seq.NewQM(1000, 1+int64(r.IntN(3)), 10, nil)
	h := &conc.History{T: 1000, I: 1, Types: map[string]string{}}
	typ := []string{"delayed", "fair"}[r.IntN(2)]
	h.Types["q"] = typ
	b.Create(typ, "q")
	clients := 2 + r.IntN(4)
	var ids sync.Map
	var next uint64 = 1
	var mu sync.Mutex
	newID := func() uint64 { mu.Lock(); defer mu.Unlock(); next++; return next }
	for i, k := 0, r.IntN(5); i < k; i++ {
		id := newID()
		h.Enqueue(b, 99, "q", fmt.Sprint("g", r.IntN(2)), int64(r.IntN(3)), fmt.Sprint("c", id), id)
		ids.Store(id, true)
	}
	at := time.Now().Truncate(time.Second).Add(2 * time.Second)
	var wg sync.WaitGroup
	seeds := make([]uint64, clients)
	for i := range seeds {
		seeds[i] = r.Uint64()
	}
	for c := 0; c < clients; c++ {
		wg.Add(1)
		go func() {
			defer wg.Done()
			r := rand.New(rand.NewPCG(seeds[c], 1))
			time.Sleep(time.Until(at))
			var got []uint64
			for i := 0; i < 2+r.IntN(5); i++ {
				any := func() uint64 {
					if len(got) > 0 && r.IntN(3) > 0 {
						return got[r.IntN(len(got))]
					}
					return uint64(2 + r.IntN(8))
				}
				switch r.IntN(9) {
				case 0, 1:
					id := newID()
					h.Enqueue(b, c, "q", fmt.Sprint("g", r.IntN(2)), int64(r.IntN(3)), fmt.Sprint("c", id), id)
				case 2, 3, 4:
					o := h.Dequeue(b, c, "q", r.IntN(4) == 0)
					if o.OK {
						got = append(got, o.ID)
					}
				case 5, 6:
					h.AckNack(b, c, "ack", "q", any())
				case 7:
					h.AckNack(b, c, "nack", "q", any())
				case 8:
					h.Update(b, c, "q", any(), int64(r.IntN(4)))
				}
			}
		}()
	}
	wg.Wait()
	fs, n := h.Check()
	res, ops := h.Linearizable(20 * time.Second)
	switch res {
	case porcupine.Ok:
		rep.Count("linearizable-histories", 1)
	case porcupine.Illegal:
		fs = append(fs, conc.Finding{Kind: "linearizability", Msg: fmt.Sprintf("history of %d operations is not linearizable", ops)})
	default:
		rep.Inconc("case %d: the checker ran out of time", ci)
	}
	judge(a, rep, h, ci, fs, n, nil)
	b.Close()
}

func large(a *core.Args, rep *core.Report, r *rand.Rand, ci int) {
	T := []int64{0, 1, 2, 3, 5, 10}[r.IntN(6)]
	I := []int64{1, 1, 2, 3}[r.IntN(4)]
	var b *seq.QM
	if a.Prop == "C19" {
		b = seq.Metered(T, I, 5)
	} else {
		b = seq.NewQM(T, I, 5, nil)
	}
	h := &conc.History{T: T, I: I, Types: map[string]string{}}
	queues := []string{"q"}
	if r.IntN(3) == 0 {
		queues = append(queues, "q:")
	}
	created := time.Now()
	var wg sync.WaitGroup
	for _, q := range queues {
		typ := []string{"delayed", "fair"}[r.IntN(2)]
		h.Types[q] = typ
		// several clients create it at the same time
		for i := 0; i < 3; i++ {
			wg.Add(1)
			go func() {
				defer wg.Done()
				if err := b.Create(typ, q); err != nil {
					rep.Inconc("case %d: create failed: %v", ci, err)
				}
			}()
		}
	}
	wg.Wait()
	var mu sync.Mutex
	var next uint64 = 1
	newID := func() uint64 { mu.Lock(); defer mu.Unlock(); next++; return next }
	content := func(id uint64) string { return fmt.Sprint("content-", id) }

	clients := 2 + r.IntN(7)
	rounds := 4 + r.IntN(10)
	groups := 1 + r.IntN(4)
	updates := r.IntN(3) == 0
	var stop sync.WaitGroup
	done := make(chan struct{})
	// readers of numbers
	stop.Add(1)
	go func() {
		defer stop.Done()
		for {
			select {
			case <-done:
				return
			case <-time.After(time.Duration(I) * time.Second):
				for _, i := range b.M.GetQueues() {
					if accept[a.Prop][seq.KStats] && (i.Ready+i.Unacked != i.Total || i.Ready < 0 || i.Unacked < 0) {
						rep.Violate(core.Violation{Case: ci, Kind: seq.KStats, Msg: fmt.Sprintf("numbers do not add up: %+v", *i)})
					}
				}
			}
		}
	}()
	seeds := make([]uint64, clients)
	for i := range seeds {
		seeds[i] = r.Uint64()
	}
	for c := 0; c < clients; c++ {
		wg.Add(1)
		go func() {
			defer wg.Done()
			cl := &client{id: c, r: rand.New(rand.NewPCG(seeds[c], 2)), b: b, h: h}
			for i := 0; i < rounds; i++ {
				// most rounds begin when a monitor wakes up
				k := int64(1 + i)
				if T > 0 && cl.r.IntN(3) == 0 {
					k += T / I
				}
				at := created.Add(time.Duration(k*I) * time.Second)
				if cl.r.IntN(5) == 0 {
					at = at.Add(time.Duration(cl.r.IntN(1000)) * time.Millisecond)
				}
				time.Sleep(time.Until(at))
				cl.round(queues, groups, updates, newID, content)
			}
		}()
	}
	wg.Wait()
	close(done)
	stop.Wait()
	// everything that is left comes back
	time.Sleep(time.Duration(T+I+2) * time.Second)
	heldNow := h.Held()
	infos, _ := b.List()
	var fs0 []conc.Finding
	for _, i := range infos {
		if i.Total != int64(len(heldNow[i.Name])) || i.Ready != i.Total || i.Unacked != 0 {
			fs0 = append(fs0, conc.Finding{Kind: seq.KStats, Msg: fmt.Sprintf("queue %q reports %+v, %d messages are left and ready", i.Name, i, len(heldNow[i.Name]))})
		}
	}
	if len(infos) != len(queues) {
		fs0 = append(fs0, conc.Finding{Kind: seq.KList, Msg: fmt.Sprintf("%d queues are listed instead of %d", len(infos), len(queues))})
	}
	for _, q := range queues {
		for k := len(heldNow[q]) + 3; k > 0; k-- {
			if o := h.Dequeue(b, 99, q, true); !o.OK {
				break
			}
		}
	}
	left := h.Held()
	fs, n := h.Check()
	fs = append(fs, fs0...)
	if a.Prop == "C19" {
		fs = append(fs, metrics(b, h, queues, n)...)
	}
	for q, ids := range left {
		if len(ids) > 0 {
			l := []uint64{}
			for id := range ids {
				l = append(l, id)
			}
			sort.Slice(l, func(i, j int) bool { return l[i] < l[j] })
			var ops []*conc.Op
			for _, o := range h.Ops {
				if o.Queue == q && o.ID == l[0] {
					ops = append(ops, o)
				}
			}
			fs = append(fs, conc.Finding{Kind: seq.KLost, Msg: fmt.Sprintf("messages %v of queue %q are lost", l, q), Ops: ops})
		}
	}
	judge(a, rep, h, ci, fs, n, nil)
	b.Close()
}

// metrics compares counters and gauges with the history of drained queues
func metrics(b *seq.QM, h *conc.History, queues []string, n map[string]int64) (out []conc.Finding) {
	got, err := b.Metrics()
	if err != nil {
		return []conc.Finding{{Kind: seq.KMetric, Msg: fmt.Sprintf("metrics failed: %v", err)}}
	}
	want := map[string]map[string]int64{}
	for _, o := range h.Ops {
		if o.OK && o.Kind != "update" {
			name := "doq_queues_" + o.Kind + "_total"
			if want[name] == nil {
				want[name] = map[string]int64{}
			}
			want[name][o.Queue]++
		}
	}
	infos, _ := b.List()
	for _, name := range []string{"doq_queues_messages", "doq_queues_unacked_messages", "doq_queues_ready_messages"} {
		want[name] = map[string]int64{}
	}
	for _, i := range infos {
		want["doq_queues_messages"][i.Name] = i.Total
		want["doq_queues_unacked_messages"][i.Name] = i.Unacked
		want["doq_queues_ready_messages"][i.Name] = i.Ready
	}
	for name, by := range want {
		for _, q := range queues {
			n["metrics"]++
			if got[name][q] != float64(by[q]) {
				out = append(out, conc.Finding{Kind: seq.KMetric, Msg: fmt.Sprintf("metric %s of queue %q is %v instead of %d", name, q, got[name][q], by[q])})
			}
		}
	}
	return
}

func (c *client) round(queues []string, groups int, updates bool, newID func() uint64, content func(uint64) string) {
	r := c.r
	q := queues[r.IntN(len(queues))]
	for i, n := 0, 1+r.IntN(5); i < n; i++ {
		switch r.IntN(10) {
		case 0, 1, 2:
			id := newID()
			c.h.Enqueue(c.b, c.id, q, fmt.Sprint("g", r.IntN(groups)), int64(r.IntN(3)), content(id), id)
		case 3, 4, 5:
			ack := r.IntN(5) == 0
			o := c.h.Dequeue(c.b, c.id, q, ack)
			if o.OK {
				x := held{q, o.ID, o.VRet}
				if !ack {
					c.held = append(c.held, x)
				}
				c.seen = append(c.seen, x)
			}
		default:
			var x held
			if len(c.held) > 0 && r.IntN(6) > 0 {
				k := r.IntN(len(c.held))
				x = c.held[k]
				c.held = append(c.held[:k], c.held[k+1:]...)
			} else if len(c.seen) > 0 {
				x = c.seen[r.IntN(len(c.seen))]
			} else {
				continue
			}
			switch {
			case updates && r.IntN(3) == 0:
				c.h.Update(c.b, c.id, x.q, x.id, int64(r.IntN(4)))
				c.held = append(c.held, x)
			case r.IntN(2) == 0:
				c.h.AckNack(c.b, c.id, "ack", x.q, x.id)
			default:
				c.h.AckNack(c.b, c.id, "nack", x.q, x.id)
			}
		}
	}
}
