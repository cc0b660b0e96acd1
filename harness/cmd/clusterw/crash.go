package main

import (
	"fmt"
	"math/rand/v2"
	"sync"
	"sync/atomic"
	"time"

	"doqverif/conc"
	"doqverif/core"
	"doqverif/seq"
	"doqverif/sim"
)

// life is what is known of a queue that is created and deleted again and again
type life struct {
	call, ret int64
	create    bool
	ok        bool
}

// crash: a node under concurrent load is killed, at any moment, and comes back
func crash(a *core.Args, rep *core.Report) {
	rep.Rule = "three to eight concurrent clients on one node that is killed at any moment, also within operations, and started again with what it had stored, several times; histories across the kills satisfy the axioms of queues and everything that was not acknowledged is delivered in the end; non-trivial: at least ten deliveries and one operation under way when the node was killed"
	rep.Floor("kills", 100)
	rep.Floor("under-way", 100)
	rep.Floor("axioms-deliveries", 5000)
	rep.Floor("axioms-acks", 1000)
	core.Cases(a, pick(a, 160, 4000), func(ci int) {
		align()
		r := core.Rand(a, "crash", ci)
		T := []int64{3, 5, 10, 30, 60}[r.IntN(5)]
		I := []int64{1, 1, 2, 3}[r.IntN(4)]
		c := sim.NewCluster(r.Uint64(), T, I)
		defer c.Close()
		c.Form(1)
		n := c.Nodes[0]
		h := &conc.History{T: T, I: I, Types: map[string]string{}, Maybe: maybe}
		queues := seq.Names(r, "hostile", 2+r.IntN(2))
		for _, q := range queues[1:] {
			h.Types[q] = []string{"delayed", "fair"}[r.IntN(2)]
			if err := n.N.CreateQueue(h.Types[q], q); err != nil {
				rep.Inconc("case %d: create: %v", ci, err)
				return
			}
		}
		come, queues := queues[0], queues[1:]
		var lives []life
		var serial atomic.Int64
		updates := r.IntN(3) == 0
		type held struct {
			q  string
			id uint64
		}
		clients := 3 + r.IntN(6)
		mine := make([][]held, clients)
		quantum := []int{1, 5, 50}[r.IntN(3)]
		var under int64
		var dead string
		rounds := 1 + r.IntN(4)
		for round := 0; round <= rounds && dead == ""; round++ {
			b := n.Front()
			stop := make(chan struct{})
			var wg sync.WaitGroup
			for k := 0; k < clients; k++ {
				wg.Add(1)
				go func(seed uint64) {
					defer wg.Done()
					r := rand.New(rand.NewPCG(seed, 6))
					for {
						select {
						case <-stop:
							return
						default:
						}
						// many wake up at the same moment
						time.Sleep(time.Duration(1+r.IntN(8)) * time.Duration(quantum) * time.Millisecond)
						q := queues[r.IntN(len(queues))]
						switch r.IntN(9) {
						case 0, 1, 2:
							h.Enqueue(b, k, q, fmt.Sprint("g", r.IntN(3)), int64(r.IntN(3)), fmt.Sprintf("content-%d", serial.Add(1)), 0)
						case 3, 4, 5:
							if o := h.Dequeue(b, k, q, r.IntN(6) == 0); o.OK && !o.Ack {
								mine[k] = append(mine[k], held{q, o.ID})
							}
						default:
							if len(mine[k]) == 0 {
								continue
							}
							i := r.IntN(len(mine[k]))
							x := mine[k][i]
							if updates && r.IntN(3) == 0 {
								h.Update(b, k, x.q, x.id, int64(r.IntN(4)))
								continue
							}
							if r.IntN(3) > 0 {
								mine[k] = append(mine[k][:i], mine[k][i+1:]...)
							}
							h.AckNack(b, k, []string{"ack", "ack", "nack"}[r.IntN(3)], x.q, x.id)
						}
					}
				}(r.Uint64())
			}
			wg.Add(1)
			go func(seed uint64) {
				defer wg.Done()
				r := rand.New(rand.NewPCG(seed, 7))
				for create := true; ; create = !create {
					select {
					case <-stop:
						return
					default:
					}
					time.Sleep(time.Duration(1+r.IntN(20)) * time.Duration(quantum) * time.Millisecond)
					l := life{call: h.Now(), create: create}
					if create {
						l.ok = b.Create([]string{"delayed", "fair"}[r.IntN(2)], come) == nil
					} else {
						for i := r.IntN(3); i > 0; i-- {
							b.Enqueue(come, "", 1, "x", 0)
						}
						l.ok = b.Delete(come) == nil
					}
					l.ret = h.Now()
					lives = append(lives, l)
				}
			}(r.Uint64())
			quiet := func() {
				close(stop)
				wg.Wait()
			}
			steps := 20 + r.IntN(400)
			for s := 0; s < steps; s++ {
				time.Sleep(time.Duration(quantum) * time.Millisecond)
				if s == steps/2 && r.IntN(3) == 0 {
					n.SetTrailing([]int{0, 1, 20, 10240}[r.IntN(4)])
					if n.Snapshot() == nil {
						rep.Count("snapshots", 1)
					}
				}
			}
			if round == rounds {
				quiet()
				break
			}
			rep.Count("kills", 1)
			begin := h.Now()
			image := n.Photograph()
			end := h.Now()
			quiet()
			u, d := h.Forget(begin, end)
			under += int64(u)
			c.Note("killed: %d operations under way, %d forgotten", u, d)
			n.EndWith(image)
			if r.IntN(2) == 0 {
				time.Sleep(time.Duration(r.Int64N(2*T*1000)) * time.Millisecond)
			}
			n.Start()
			if !n.WaitLeader(60 * time.Second) {
				dead = "the node does not lead within 60 s after it was killed"
				break
			}
			if err := n.N.InitIDGenerator(); err != nil {
				panic(fmt.Sprintf("harness: %v", err))
			}
			// the queue that comes and goes
			last, unsure := life{}, false
			for _, l := range lives {
				if l.ret < begin {
					if l.ok {
						last = l
					}
				} else if l.call <= end {
					unsure = true
				}
			}
			there := false
			for _, i := range n.N.GetQueues() {
				if i.Name == come {
					there = true
				}
			}
			if !unsure {
				rep.Count("lives", 1)
				if there != last.create {
					verdict(a, rep, ci, c, conc.Finding{Kind: "queue", Msg: fmt.Sprintf("the existence of queue %q after a restart is %v, before it was %v", come, there, last.create)}, h)
					return
				}
			}
			lives = lives[:0]
			if there {
				n.N.DeleteQueue(come)
			}
		}
		rep.Count("under-way", under)
		if dead != "" {
			verdict(a, rep, ci, c, conc.Finding{Kind: "dead", Msg: dead}, h)
			return
		}
		time.Sleep(time.Duration(T+I+3) * time.Second)
		for _, q := range queues {
			for k := 0; k < 20000; k++ {
				if o := h.Dequeue(full{&front{c: c, lead: true}}, 999, q, true); !o.OK {
					if o.Unknown || refused(o) {
						rep.Inconc("case %d: the final drain was disturbed: %s", ci, o.Err)
						return
					}
					break
				}
			}
		}
		fs, cnt := h.Check()
		for q, l := range h.Lost() {
			fs = append(fs, conc.Finding{Kind: seq.KLost, Msg: fmt.Sprintf("%d messages of queue %q are lost, the first is %d", len(l), q, l[0].ID), Ops: l[:1]})
		}
		sig, _ := countHistory(rep, c, h, cnt)
		rep.Done(cnt["deliveries"] >= 10 && under > 0, sig, sample(c, h, ci))
		if len(fs) > 0 {
			verdict(a, rep, ci, c, fs[0], h)
		}
	})
}
