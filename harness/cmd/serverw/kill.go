package main

import (
	"fmt"
	"math/rand/v2"
	"os"
	"path/filepath"
	"sort"
	"strings"
	"sync/atomic"
	"time"

	"doqverif/conc"
	"doqverif/core"
	"doqverif/proc"
	"doqverif/seq"

	"google.golang.org/grpc/codes"
	"google.golang.org/grpc/status"
)

// killer kills the server as soon as it has answered a number of requests
type killer struct {
	seq.Backend
	left *atomic.Int64
	kill func()
}

func (k *killer) after(err error) {
	if err == nil && k.left.Add(-1) == 0 {
		k.kill()
	}
}

func (k *killer) Enqueue(q, group string, prio int64, content string, id uint64) (m seq.Msg, err error) {
	m, err = k.Backend.Enqueue(q, group, prio, content, id)
	k.after(err)
	return
}

func (k *killer) Dequeue(q string, ack bool) (m seq.Msg, err error) {
	m, err = k.Backend.Dequeue(q, ack)
	k.after(err)
	return
}

func (k *killer) Ack(q string, id uint64) (err error) {
	err = k.Backend.Ack(q, id)
	k.after(err)
	return
}

func (k *killer) Nack(q string, id uint64) (err error) {
	err = k.Backend.Nack(q, id)
	k.after(err)
	return
}

func (k *killer) UpdatePriority(q string, id uint64, prio int64) (err error) {
	err = k.Backend.UpdatePriority(q, id, prio)
	k.after(err)
	return
}

// unanswered tells if an operation may have taken effect: those that the only
// node answered with a refusal have not
func unanswered(err error) bool {
	if r, ok := err.(*proc.Refusal); ok {
		return r.Status >= 500
	}
	st, ok := status.FromError(err)
	return !ok || st.Code() == codes.Unavailable || st.Code() == codes.DeadlineExceeded || st.Code() == codes.Canceled
}

// kills: a server process is killed and started again, over and over
func kills(a *core.Args, rep *core.Report) {
	rep.Rule = "concurrent clients of a server process, over HTTP and gRPC, which is killed when it has just answered or at any other time and started again on its data; the history of all clients, with a final drain, must account for every operation that was acknowledged; non-trivial: messages were delivered that were enqueued before a kill"
	for k, v := range map[string]int64{"killed": 40, "deliveries": 500, "delivered-after-kill": 200, "unknown": 20, "acks": 150} {
		rep.Floor(k, v)
	}
	core.Cases(a, pick(a, 24, 800), func(ci int) { oneKill(a, rep, core.Rand(a, "kill", ci), ci) })
}

func oneKill(a *core.Args, rep *core.Report, r *rand.Rand, ci int) {
	dir := filepath.Join(core.ScratchDir(), "k")
	defer os.RemoveAll(dir)
	base := ports(a, ci)
	T := []int64{2, 3600}[r.IntN(2)]
	flags := []string{"--queue.acknowledgement_timeout", fmt.Sprint(T)}
	if r.IntN(2) == 0 {
		flags = append(flags, "--prometheus.enabled", "true")
	}
	for k, v := range storage(r) {
		flags = append(flags, "--"+k+"="+fmt.Sprint(v))
	}
	s := &proc.Server{ID: "n0", Host: fmt.Sprintf("127.%d.1.%d", 150+a.Shard, 1+ci%200), HTTP: base, GRPC: base + 1, Raft: base + 2, Dir: dir, Flags: flags}
	s.Start()
	defer func() { s.Kill() }()
	if !s.Listening(90 * time.Second) {
		_, why := s.Dead()
		rep.Violate(core.Violation{Case: ci, Kind: "start", Msg: "the server does not start: " + why + "\n" + s.Log()})
		return
	}
	h := &conc.History{T: T, I: 1, Types: map[string]string{}, Maybe: unanswered}
	grpc := &proc.Backend{C: s.Client, Timeout: 20 * time.Second}
	queues := seq.Names(r, "hostile", 1+r.IntN(3))
	for i := range queues {
		queues[i] = strings.ToValidUTF8(queues[i], "?")
		h.Types[queues[i]] = []string{"delayed", "fair"}[r.IntN(2)]
	}
	for _, q := range queues {
		if err := grpc.Create(h.Types[q], q); err != nil {
			rep.Inconc("case %d: create %q: %v", ci, q, err)
			return
		}
	}
	var trace []string
	var fs []conc.Finding
	rounds := 1 + r.IntN(3)
	seed := r.Uint64()
	var lastKill int64
	big := r.IntN(3) == 0
	load := &conc.Load{
		Queues: queues, Groups: 4, Updates: r.IntN(2) == 0, AutoAck: []int{4, 1 << 30}[r.IntN(2)],
		Pad: func(r *rand.Rand) string {
			if big && r.IntN(10) == 0 {
				return strings.Repeat("y", r.IntN(600<<10))
			}
			return ""
		},
	}
	for k := 0; k < rounds && len(fs) == 0; k++ {
		web := proc.NewWeb(func() string { return s.URL("") }, 20*time.Second)
		var left atomic.Int64
		left.Store(1 << 60)
		if r.IntN(3) > 0 {
			left.Store(20 + r.Int64N(300))
		}
		var dead atomic.Bool
		kill := func() {
			if !dead.Swap(true) {
				s.Kill()
			}
		}
		load.Clients = 1 + r.IntN(6)
		load.Backend = func(c int) seq.Backend {
			if c%3 == 2 {
				return &killer{web, &left, kill}
			}
			return &killer{grpc, &left, kill}
		}
		limit := time.Now().Add(time.Duration(1000+r.IntN(1500)) * time.Millisecond)
		pause := time.Duration(1+r.IntN(20)) * time.Millisecond
		load.Pause = func(r *rand.Rand, round int) bool {
			time.Sleep(time.Duration(r.Int64N(int64(pause))))
			if time.Now().After(limit) {
				kill()
			}
			return !dead.Load()
		}
		load.Run(h, seed+uint64(k))
		kill()
		rep.Count("killed", 1)
		lastKill = h.Now()
		trace = append(trace, fmt.Sprintf("killed at %d", lastKill))
		s.Hangup()
		time.Sleep(time.Duration(r.IntN(3)) * 500 * time.Millisecond)
		s.Start()
		if !s.Listening(90 * time.Second) {
			_, why := s.Dead()
			fs = append(fs, conc.Finding{Kind: "start", Msg: "the server does not start after a kill: " + why + "\n" + s.Log()})
		}
	}
	if len(fs) == 0 {
		// what was received by clients that did not learn of it comes back after the timeout, if that is short
		if T < 60 {
			time.Sleep(time.Duration(T+3) * time.Second)
		}
		for q, ids := range h.Held() {
			for id := range ids {
				h.AckNack(grpc, 99, "nack", q, id)
			}
		}
		for _, q := range queues {
			for k := len(h.Ops) + 10; k > 0; k-- {
				if o := h.Dequeue(grpc, 99, q, true); !o.OK {
					break
				}
			}
		}
		var fs2 []conc.Finding
		var n map[string]int64
		fs2, n = h.Check()
		fs = append(fs, fs2...)
		for k, v := range n {
			rep.Count(k, v)
		}
		unsure := map[string]int{}
		enq := map[uint64]int64{}
		for _, o := range h.Ops {
			if o.Unknown && o.Kind == "dequeue" && (o.Ack || T > 60) {
				unsure[o.Queue]++
			}
			if o.Kind == "enqueue" && o.OK {
				enq[o.ID] = o.Ret
			}
		}
		for _, o := range h.Ops {
			if o.Kind == "dequeue" && o.OK && o.Call > lastKill && enq[o.ID] > 0 && enq[o.ID] < lastKill {
				rep.Count("delivered-after-kill", 1)
			}
		}
		for q, ops := range h.Lost() {
			if len(ops) > unsure[q] {
				fs = append(fs, conc.Finding{Kind: seq.KLost, Msg: fmt.Sprintf("%d messages of queue %q are lost, as message %d (%d dequeues have no known result)", len(ops), q, ops[0].ID, unsure[q])})
			}
		}
	}
	sort.Slice(h.Ops, func(i, j int) bool { return h.Ops[i].Call < h.Ops[j].Call })
	var sig strings.Builder
	for _, o := range h.Ops {
		fmt.Fprintf(&sig, "%d%s%v%d;", o.Client, o.Kind, o.OK, o.ID)
		trace = append(trace, o.String())
	}
	rep.Done(len(h.Ops) > 20, sig.String(), func() any {
		return map[string]any{"case": ci, "timeout": T, "history": trace[:min(len(trace), 40)]}
	})
	if len(fs) > 0 {
		rep.Violate(core.Violation{Case: ci, Kind: fs[0].Kind, Msg: fs[0].Msg, Trace: trace})
	}
}
