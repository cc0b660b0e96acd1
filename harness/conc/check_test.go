package conc

import (
	"errors"
	"fmt"
	"math/rand/v2"
	"os"
	"sort"
	"strconv"
	"testing"
	"time"

	"github.com/anishathalye/porcupine"
)

// The checkers must accept whatever a correct queue can produce: histories are made
// from a queue whose operations take effect at random instants between call and
// return, or at any time later if their results are not known.
func TestCorrectHistories(t *testing.T) {
	n, _ := strconv.Atoi(os.Getenv("HISTORIES"))
	if n == 0 {
		n = 20000
	}
	seed, _ := strconv.Atoi(os.Getenv("SEED"))
	fails := map[string]int{}
	counts := map[string]int64{}
	for i := 0; i < n; i++ {
		r := rand.New(rand.NewPCG(uint64(seed), uint64(i)))
		h, q := simulate(r)
		fs, c := h.Check()
		for k, v := range c {
			counts[k] += v
		}
		for _, f := range fs {
			if fails[f.Kind] == 0 {
				t.Errorf("history %d: %s: %s", i, f.Kind, f.Msg)
				for _, o := range f.Ops {
					t.Log(o)
				}
				t.Log("---", q.kind)
				for _, o := range h.Ops {
					t.Log(o)
				}
			}
			fails[f.Kind]++
		}
		if lost := h.Lost(); q.drained && len(lost) > 0 {
			t.Errorf("history %d: lost %v", i, lost)
		}
		if q.lin {
			if res, _ := h.Linearizable(20 * time.Second); res == porcupine.Illegal {
				t.Errorf("history %d is said not to be linearizable", i)
				for _, o := range h.Ops {
					t.Log(o)
				}
			} else if res == porcupine.Ok {
				counts["linearizable"]++
			}
		}
		if t.Failed() {
			break
		}
	}
	t.Log(fails, counts)
}

type simQueue struct {
	kind    string
	drained bool
	lin     bool
	items   map[uint64]*simItem
	next    uint64
}

type simItem struct {
	op    *Op
	prio  int64
	until int64 // leased until that time, in ticks; 0 if ready
}

var errSim = errors.New("failed")

func simulate(r *rand.Rand) (*History, *simQueue) {
	const T = 5
	base := time.Unix(946684800, 0)
	q := &simQueue{kind: []string{"delayed", "fair"}[r.IntN(2)], items: map[uint64]*simItem{}}
	tick := []time.Duration{time.Nanosecond, 20 * time.Millisecond, 300 * time.Millisecond}[r.IntN(3)]
	q.lin = tick == time.Nanosecond && r.IntN(3) == 0
	unknowns := r.IntN(2) * 8
	h := &History{T: T, I: 1, Types: map[string]string{"q": q.kind}}
	at := func(x int64) time.Time { return base.Add(time.Duration(x) * tick) }
	type event struct {
		at int64
		f  func()
	}
	var events []event
	clients, ops, span := 2+r.IntN(4), 4+r.IntN(20), 2+r.IntN(60)
	if q.lin {
		ops = 3 + r.IntN(4)
	}
	duration := int64(0)
	type plan struct{ call, eff, ret int64 }
	var plans [][]plan
	for c := 0; c < clients; c++ {
		x := int64(r.IntN(50))
		var l []plan
		for i := 0; i < ops; i++ {
			p := plan{call: x}
			p.ret = x + 2 + int64(r.IntN(span))
			p.eff = x + 1 + int64(r.IntN(int(p.ret-x-1)))
			x = p.ret + 1 + int64(r.IntN(1+span/4))
			l = append(l, p)
		}
		duration = max(duration, x)
		plans = append(plans, l)
	}
	// ticks are made unique: client in the low part
	u := func(x int64, c, k int) int64 { return x*int64(64) + int64(c)*3 + int64(k) }
	var ids []uint64
	seq := 0
	run := func(c int, p plan, force string) {
		o := &Op{Client: c, Queue: "q", Call: u(p.call, c, 0), Ret: u(p.ret, c, 2), VCall: at(p.call), VRet: at(p.ret)}
		unknown := unknowns > 0 && force == "" && r.IntN(unknowns) == 0
		takes := true
		eff := u(p.eff, c, 1)
		if unknown {
			takes = r.IntN(2) == 0
			if r.IntN(2) == 0 {
				eff = u(p.eff+int64(r.IntN(int(duration+1))), c, 1)
			}
		}
		o.Kind = []string{"enqueue", "enqueue", "dequeue", "dequeue", "dequeue", "ack", "nack", "nack", "update"}[r.IntN(9)]
		if force != "" {
			o.Kind = force
		}
		o.Prio = int64(r.IntN(3))
		if tick > time.Nanosecond && r.IntN(3) == 0 {
			o.Prio = base.Unix() + int64(r.IntN(10))
		}
		o.Group = fmt.Sprint("g", r.IntN(2))
		seq++
		o.Content = fmt.Sprint("c", seq)
		o.Ack = r.IntN(4) == 0 || force != ""
		pick := r.IntN(1000)
		pickGroup := r.IntN(1000)
		lease := int64(time.Duration(T)*time.Second/tick) + int64(r.IntN(3))*int64(time.Second/tick)
		if tick == time.Nanosecond {
			lease = 1 << 40
		}
		if o.Kind == "dequeue" {
			o.Prio, o.Group, o.Content = 0, "", ""
		}
		h.Ops = append(h.Ops, o)
		do := func() error {
			now := eff / 64
			for _, it := range q.items {
				if it.until != 0 && it.until <= now {
					it.until = 0
				}
			}
			target := func() *simItem {
				if len(ids) == 0 {
					return nil
				}
				// mostly recent ones
				k := len(ids) - 1 - pick%min(len(ids), 6)
				o.ID = ids[k]
				return q.items[o.ID]
			}
			switch o.Kind {
			case "enqueue":
				q.next++
				q.items[q.next] = &simItem{op: o, prio: o.Prio}
				if !unknown {
					ids = append(ids, q.next)
				}
				o.ID = q.next
			case "dequeue":
				var best uint64
				groups := map[string]bool{}
				ready := func(id uint64, it *simItem) bool {
					return it.until == 0 && (q.kind == "fair" || it.prio <= at(now).Unix())
				}
				for id, it := range q.items {
					if ready(id, it) {
						groups[it.op.Group] = true
					}
				}
				var names []string
				for g := range groups {
					names = append(names, g)
				}
				if len(names) == 0 {
					return errSim
				}
				sort.Strings(names)
				g := names[pickGroup%len(names)]
				for id, it := range q.items {
					if !ready(id, it) || q.kind == "fair" && it.op.Group != g {
						continue
					}
					if b := q.items[best]; b == nil || it.prio < b.prio || it.prio == b.prio && id < best {
						best = id
					}
				}
				it := q.items[best]
				if !unknown {
					ids = append(ids, best)
				}
				o.ID, o.Prio, o.Content, o.Group = best, it.prio, it.op.Content, "default"
				if q.kind == "fair" {
					o.Group = it.op.Group
				}
				if o.Ack {
					delete(q.items, best)
				} else {
					it.until = now + lease
				}
			case "ack", "nack":
				it := target()
				if it == nil || it.until == 0 {
					return errSim
				}
				if o.Kind == "ack" {
					delete(q.items, o.ID)
				} else {
					it.until = 0
				}
			case "update":
				it := target()
				if it == nil {
					return errSim
				}
				it.prio = o.Prio
			}
			return nil
		}
		events = append(events, event{eff, func() {
			if !unknown {
				if err := do(); err != nil {
					o.Err = err.Error()
				} else {
					o.OK = true
				}
				return
			}
			o.Unknown, o.Err = true, "unknown"
			keep := *o
			if takes {
				do()
			} else if o.Kind == "ack" || o.Kind == "nack" || o.Kind == "update" {
				if len(ids) > 0 {
					o.ID = ids[len(ids)-1-pick%min(len(ids), 6)]
				}
			}
			if o.Kind == "dequeue" {
				o.ID, o.Prio, o.Content, o.Group = keep.ID, keep.Prio, keep.Content, keep.Group
			}
			if o.Kind == "enqueue" {
				o.ID = 0
			}
		}})
	}
	for c, l := range plans {
		for _, p := range l {
			run(c, p, "")
		}
	}
	if q.drained = !q.lin && unknowns == 0; q.drained {
		x := duration*2 + 10 + int64(20*time.Second/tick)
		if tick == time.Nanosecond {
			x = 1<<40 + 1<<39
		}
		for i := 0; i < clients*ops+5; i++ {
			run(9, plan{x, x + 1, x + 2}, "dequeue")
			x += 4
		}
	}
	sort.SliceStable(events, func(i, j int) bool { return events[i].at < events[j].at })
	for _, e := range events {
		e.f()
	}
	return h, q
}
