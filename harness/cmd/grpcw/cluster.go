package main

import (
	"context"
	"errors"
	"fmt"
	"math/rand/v2"
	"sort"
	"strings"
	"sync"
	"time"

	"doqverif/conc"
	"doqverif/core"
	"doqverif/seq"
	"doqverif/sim"

	hraft "github.com/hashicorp/raft"
	pb "github.com/kgantsov/doq/pkg/proto"
)

// changes are the times at which something happened to the leadership
type changes struct {
	mu sync.Mutex
	at []time.Time
}

func (c *changes) now() {
	c.mu.Lock()
	c.at = append(c.at, time.Now())
	c.mu.Unlock()
}

// near tells if something happened at about that time
func (c *changes) near(from, to time.Time) bool {
	const about = 3 * time.Second
	c.mu.Lock()
	defer c.mu.Unlock()
	for _, t := range c.at {
		if t.After(from.Add(-about)) && t.Before(to.Add(about)) {
			return true
		}
	}
	return false
}

// clusters: clients of all nodes of a cluster whose leader changes, in real time
func clusters(a *core.Args, rep *core.Report) {
	rep.Rule = "concurrent clients send requests to all nodes of a cluster of three while leadership is transferred and nodes are cut off; the history of all clients is checked; non-trivial: messages were delivered"
	for k, v := range map[string]int64{"deliveries": 500, "via-follower": 1500, "via-leader": 500, "fault-transfer": 8, "fault-leader-cut": 5, "unknown": 10, "calm-enqueues": 300} {
		rep.Floor(k, v)
	}
	core.Cases(a, pick(a, 16, 400), func(ci int) {
		oneCluster(a, rep, core.Rand(a, "cluster", ci), ci)
	})
}

func oneCluster(a *core.Args, rep *core.Report, r *rand.Rand, ci int) {
	T := int64(60)
	cl := sim.NewCluster(r.Uint64(), T, 1)
	defer cl.Close()
	host := func(i int) string { return address(a.Shard, 400+i) }
	cl.AddrOf = func(i int) string { return host(i) + ":12000" }
	cl.Form(3)
	ls, port := listen(host(0), host(1), host(2))
	var ch changes
	var clients []pb.DOQClient
	for i, n := range cl.Nodes {
		s := serveGRPC(n.N, port, ls[i])
		defer s.Stop()
		clients = append(clients, dial(host(i), port))
		events := make(chan hraft.Observation, 1000)
		o := hraft.NewObserver(events, true, func(o *hraft.Observation) bool {
			switch o.Data.(type) {
			case hraft.RaftState, hraft.LeaderObservation, hraft.FailedHeartbeatObservation:
				return true
			}
			return false
		})
		n.N.Raft.RegisterObserver(o)
		go func() {
			for range events {
				ch.now()
			}
		}()
		defer func() { n.N.Raft.DeregisterObserver(o); close(events) }()
	}
	calm := func() bool {
		until := time.Now().Add(60 * time.Second)
		for time.Now().Before(until) {
			time.Sleep(50 * time.Millisecond)
			core.Touch()
			l := cl.Leader()
			if l == nil || l.N.Raft.VerifyLeader().Error() != nil {
				continue
			}
			same := true
			for _, n := range cl.Nodes {
				h, _, _ := strings.Cut(l.Addr, ":")
				same = same && n.N.Leader() == h && n.N.IsLeader() == (n == l)
			}
			if same {
				return true
			}
		}
		return false
	}
	if !calm() {
		rep.Inconc("case %d: the nodes do not agree on a leader", ci)
		return
	}
	h := &conc.History{T: T, I: 1, Types: map[string]string{}}
	queues := seq.Names(r, "hostile", 1+r.IntN(3))
	seed := r.Uint64()
	connect := func(k int) *wanderer {
		return &wanderer{rep: rep, cl: cl, clients: clients, r: rand.New(rand.NewPCG(seed, uint64(k)))}
	}
	var fs []conc.Finding
	for _, q := range queues {
		h.Types[q] = []string{"delayed", "fair"}[r.IntN(2)]
		began := time.Now()
		if err := connect(100).Create(h.Types[q], q); err != nil {
			if ch.near(began, time.Now()) {
				rep.Inconc("case %d: create failed: %v", ci, err)
				return
			}
			fs = append(fs, conc.Finding{Kind: seq.KLife, Msg: fmt.Sprintf("create of queue %q failed: %v", q, err)})
		}
	}
	// wait out the changes from before
	time.Sleep(3 * time.Second)
	done := make(chan bool)
	go func() {
		defer close(done)
		for k := 0; k < 1+ci%2; k++ {
			time.Sleep(time.Duration(500+r.IntN(1000)) * time.Millisecond)
			l := cl.Leader()
			if l == nil {
				continue
			}
			ch.now()
			if r.IntN(2) == 0 {
				rep.Count("fault-transfer", 1)
				cl.Note("transfer from %s", l.ID)
				l.N.Raft.LeadershipTransfer().Error()
			} else {
				rep.Count("fault-leader-cut", 1)
				cl.Note("leader %s cut off", l.ID)
				for _, o := range cl.Nodes {
					if o != l {
						cl.Net.Cut(l.Addr, o.Addr, true)
						cl.Net.Cut(o.Addr, l.Addr, true)
					}
				}
				for k := r.IntN(20); k > 0; k-- {
					time.Sleep(100 * time.Millisecond)
					ch.now()
				}
				cl.Net.Heal()
			}
			ch.now()
			ok := calm()
			ch.now()
			if !ok {
				rep.Inconc("case %d: the nodes do not agree on a leader again", ci)
				return
			}
			cl.Note("calm")
		}
	}()
	end := time.Now().Add(6 * time.Second)
	l := &conc.Load{
		Queues: queues, Clients: 2 + r.IntN(5), Groups: 3, Updates: r.IntN(3) == 0, AutoAck: 5,
		Backend: func(k int) seq.Backend { return connect(k) },
		Pause:   conc.Until(end, 40*time.Millisecond),
	}
	l.Run(h, seed)
	<-done
	for i := 0; i < 200 && ch.near(time.Now(), time.Now()); i++ {
		time.Sleep(100 * time.Millisecond)
		core.Touch()
	}
	// give back what is held, then empty the queues
	last := connect(101)
	for q, ids := range h.Held() {
		for id := range ids {
			h.AckNack(last, 99, "nack", q, id)
		}
	}
	for _, q := range queues {
		for k := len(h.Ops) + 10; k > 0; k-- {
			if o := h.Dequeue(last, 99, q, true); !o.OK {
				break
			}
		}
	}
	// failures while the leadership changed mean nothing
	sure := int64(0)
	for _, o := range h.Ops {
		if o.OK {
			continue
		}
		if ch.near(o.VCall, o.VRet) {
			o.Unknown = true
		} else if o.Kind == "enqueue" {
			fs = append(fs, conc.Finding{Kind: seq.KEnqueue, Msg: "an enqueue failed although all nodes work: " + o.String()})
		}
	}
	for _, o := range h.Ops {
		if o.OK && o.Kind == "enqueue" && !ch.near(o.VCall, o.VRet) {
			sure++
		}
	}
	rep.Count("calm-enqueues", sure)
	fs2, n := h.Check()
	fs = append(fs, fs2...)
	if n["unknown"] == 0 || len(h.Lost()) > 0 {
		unsure := false
		for _, o := range h.Ops {
			unsure = unsure || o.Unknown && o.Kind == "dequeue"
		}
		if !unsure {
			// otherwise a message may still be leased
			for q, ops := range h.Lost() {
				fs = append(fs, conc.Finding{Kind: seq.KLost, Msg: fmt.Sprintf("%d messages of queue %q are lost, as message %d", len(ops), q, ops[0].ID)})
			}
		}
	}
	for k, v := range n {
		rep.Count(k, v)
	}
	sort.Slice(h.Ops, func(i, j int) bool { return h.Ops[i].Call < h.Ops[j].Call })
	var sig strings.Builder
	tr := append([]string{}, cl.Tr...)
	for _, o := range h.Ops {
		fmt.Fprintf(&sig, "%d%s%v%d;", o.Client, o.Kind, o.OK, o.ID)
		tr = append(tr, o.String())
	}
	rep.Done(n["deliveries"] > 0, sig.String(), func() any {
		return map[string]any{"case": ci, "timeout": T, "history": tr[:min(len(tr), 40)]}
	})
	if len(fs) > 0 {
		rep.Violate(core.Violation{Case: ci, Kind: fs[0].Kind, Msg: fs[0].Msg, Trace: tr})
	}
}

// wanderer sends each request to another node
type wanderer struct {
	rep     *core.Report
	cl      *sim.Cluster
	clients []pb.DOQClient
	r       *rand.Rand
}

func (w *wanderer) client() (pb.DOQClient, context.Context, func()) {
	k := w.r.IntN(len(w.clients))
	if w.cl.Nodes[k].N.IsLeader() {
		w.rep.Count("via-leader", 1)
	} else {
		w.rep.Count("via-follower", 1)
	}
	ctx, cancel := context.WithTimeout(context.Background(), 60*time.Second)
	return w.clients[k], ctx, cancel
}

var errNotDone = errors.New("the answer says that it was not done")

func (w *wanderer) Create(typ, name string) error {
	c, ctx, cancel := w.client()
	defer cancel()
	out, err := c.CreateQueue(ctx, &pb.CreateQueueRequest{Name: name, Type: typ})
	if err == nil && !out.Success {
		err = errNotDone
	}
	return err
}

func (w *wanderer) Delete(name string) error {
	c, ctx, cancel := w.client()
	defer cancel()
	_, err := c.DeleteQueue(ctx, &pb.DeleteQueueRequest{Name: name})
	return err
}

func (w *wanderer) Enqueue(q, group string, prio int64, content string, id uint64) (seq.Msg, error) {
	c, ctx, cancel := w.client()
	defer cancel()
	m, err := c.Enqueue(ctx, &pb.EnqueueRequest{QueueName: q, Group: group, Priority: prio, Content: content})
	if err != nil {
		return seq.Msg{}, err
	}
	return seq.Msg{ID: m.Id, Group: m.Group, Priority: m.Priority, Content: m.Content}, nil
}

func (w *wanderer) Dequeue(q string, ack bool) (seq.Msg, error) {
	c, ctx, cancel := w.client()
	defer cancel()
	m, err := c.Dequeue(ctx, &pb.DequeueRequest{QueueName: q, Ack: ack})
	if err != nil {
		return seq.Msg{}, err
	}
	return seq.Msg{ID: m.Id, Group: m.Group, Priority: m.Priority, Content: m.Content}, nil
}

func (w *wanderer) Ack(q string, id uint64) error {
	c, ctx, cancel := w.client()
	defer cancel()
	_, err := c.Ack(ctx, &pb.AckRequest{QueueName: q, Id: id})
	return err
}

func (w *wanderer) Nack(q string, id uint64) error {
	c, ctx, cancel := w.client()
	defer cancel()
	_, err := c.Nack(ctx, &pb.NackRequest{QueueName: q, Id: id})
	return err
}

func (w *wanderer) UpdatePriority(q string, id uint64, prio int64) error {
	c, ctx, cancel := w.client()
	defer cancel()
	_, err := c.UpdatePriority(ctx, &pb.UpdatePriorityRequest{QueueName: q, Id: id, Priority: prio})
	return err
}

func (w *wanderer) Info(q string) (seq.Info, error) { return seq.Info{}, errNotDone }
func (w *wanderer) List() ([]seq.Info, error)       { return nil, errNotDone }
func (w *wanderer) Restart(kind int) (string, bool) { return "none", true }
func (w *wanderer) ReturnsGroup() bool              { return false }
func (w *wanderer) Slack() time.Duration            { return 0 }
func (w *wanderer) NewIDs() bool                    { return true }
