package main

import (
	"context"
	"embed"
	"errors"
	"fmt"
	"math/rand/v2"
	"net"
	"net/http"
	"strings"
	"sync"
	"sync/atomic"
	"time"

	"doqverif/conc"
	"doqverif/core"
	"doqverif/seq"
	"doqverif/sim"

	doqhttp "github.com/kgantsov/doq/pkg/http"
)

// web is where the HTTP services of a cluster are reached, by the names of hosts
type web struct {
	mu    sync.Mutex
	hosts map[string]*pipes
}

func (w *web) transport() *http.Transport {
	return &http.Transport{
		// the services close idle connections
		DisableKeepAlives: true,
		DialContext: func(ctx context.Context, network, addr string) (net.Conn, error) {
			host, _, _ := net.SplitHostPort(addr)
			w.mu.Lock()
			p := w.hosts[host]
			w.mu.Unlock()
			if p == nil {
				return nil, errors.New("connection refused")
			}
			return p.dial(ctx)
		},
	}
}

func host(n *sim.Node) string { h, _, _ := strings.Cut(n.Addr, ":"); return h }

func others(cl *sim.Cluster, n *sim.Node) (out []*sim.Node) {
	for _, o := range cl.Nodes {
		if o != n {
			out = append(out, o)
		}
	}
	return
}

// calm waits until all nodes agree on a leader that works
func calm(cl *sim.Cluster, limit time.Duration) bool {
	until := time.Now().Add(limit)
	for time.Now().Before(until) {
		time.Sleep(200 * time.Millisecond)
		l := cl.Leader()
		if l == nil || l.N.Raft.VerifyLeader().Error() != nil || l.N.Raft.Barrier(5*time.Second).Error() != nil {
			continue
		}
		same := true
		for _, n := range cl.Nodes {
			same = same && n.N.Leader() == host(l) && n.N.IsLeader() == (n == l)
		}
		if same {
			return true
		}
	}
	return false
}

// clusters: clients of all nodes of a cluster whose leader changes
func clusters(a *core.Args, rep *core.Report) {
	rep.Rule = "concurrent clients send requests to all nodes of a cluster of three in virtual time, while leadership is transferred and the leader or another node is cut off; the history of all clients is checked; non-trivial: messages were delivered through nodes that do not lead"
	for k, v := range map[string]int64{"deliveries": 1500, "via-follower": 3000, "via-leader": 1000, "fault-transfer": 60, "fault-leader-cut": 30, "fault-follower-cut": 30, "unknown": 50} {
		rep.Floor(k, v)
	}
	time.Sleep(time.Until(time.Date(2024, 1, 1, 0, 0, 0, 0, time.UTC)))
	core.Cases(a, pick(a, 160, 4000), func(ci int) {
		now := time.Now()
		time.Sleep(time.Unix((now.Unix()/20+1)*20, 0).Sub(now))
		oneCluster(rep, core.Rand(a, "cluster", ci), ci)
	})
}

func oneCluster(rep *core.Report, r *rand.Rand, ci int) {
	T := []int64{5, 30}[r.IntN(2)]
	cl := sim.NewCluster(r.Uint64(), T, 1)
	defer cl.Close()
	cl.Form(3)
	w := &web{hosts: map[string]*pipes{}}
	for _, n := range cl.Nodes {
		p := newPipes()
		w.hosts[host(n)] = p
		s := doqhttp.NewHttpService(n.Cfg, n.N, embed.FS{}, embed.FS{})
		s.ForwardThroughForVerification(w.transport())
		app := s.RouterForVerification()
		app.Handler()
		go app.Server().Serve(p)
		defer func() { p.Close(); core.Shutdown(app.Server()) }()
	}
	if !calm(cl, 30*time.Second) {
		rep.Inconc("case %d: the nodes do not agree on a leader", ci)
		return
	}
	var mu sync.Mutex
	var fs []conc.Finding
	found := func(kind, format string, args ...any) {
		mu.Lock()
		defer mu.Unlock()
		if len(fs) < 20 {
			fs = append(fs, conc.Finding{Kind: kind, Msg: fmt.Sprintf(format, args...)})
		}
	}
	var epoch atomic.Int64 // odd while something is wrong
	tr := w.transport()
	connect := func(seed uint64) *wanderer {
		x := &wanderer{rep: rep, cl: cl, epoch: &epoch, r: rand.New(rand.NewPCG(seed, 3)), found: found}
		for _, n := range cl.Nodes {
			x.clients = append(x.clients, &client{
				base: "http://" + host(n) + ":8000", hc: &http.Client{Transport: tr, Timeout: 60 * time.Second}, r: rand.New(rand.NewPCG(seed, 4)),
				odd: func(format string, args ...any) { found(kAnswer, format, args...) }, rep: rep,
			})
		}
		return x
	}
	h := &conc.History{T: T, I: 1, Types: map[string]string{}, Slack: time.Second, Maybe: func(err error) bool { return errors.Is(err, errUnsure) }}
	queues := seq.Names(r, "http", 1+r.IntN(3))
	first := connect(r.Uint64())
	for _, q := range queues {
		h.Types[q] = []string{"delayed", "fair"}[r.IntN(2)]
		if err := first.Create(h.Types[q], q); err != nil {
			found(seq.KLife, "create of queue %q failed: %v", q, err)
		}
	}
	done := make(chan bool)
	go func() {
		defer close(done)
		for k, n := 0, 1+r.IntN(3); k < n; k++ {
			time.Sleep(time.Duration(500+r.IntN(3000)) * time.Millisecond)
			epoch.Add(1)
			l := cl.Leader()
			if l == nil {
				continue
			}
			switch r.IntN(3) {
			case 0:
				rep.Count("fault-transfer", 1)
				cl.Note("transfer from %s", l.ID)
				l.N.Raft.LeadershipTransfer().Error()
			default:
				victim := l
				if others := others(cl, l); r.IntN(2) == 0 {
					victim = others[r.IntN(len(others))]
				}
				kind := "follower"
				if victim == l {
					kind = "leader"
				}
				rep.Count("fault-"+kind+"-cut", 1)
				cl.Note("%s %s cut off", kind, victim.ID)
				way := r.IntN(4)
				for _, o := range cl.Nodes {
					if o != victim {
						if way != 1 {
							cl.Net.Cut(victim.Addr, o.Addr, true)
						}
						if way != 2 {
							cl.Net.Cut(o.Addr, victim.Addr, true)
						}
					}
				}
				time.Sleep(time.Duration(r.IntN(6000)) * time.Millisecond)
				cl.Net.Heal()
			}
			if !calm(cl, 120*time.Second) {
				rep.Inconc("case %d: the nodes do not agree on a leader again", ci)
				return
			}
			// what was under way
			time.Sleep(100 * time.Millisecond)
			epoch.Add(1)
			cl.Note("calm, %s leads", cl.Leader().ID)
		}
	}()
	seed := r.Uint64()
	end := time.Now().Add(time.Duration(8+r.IntN(8)) * time.Second)
	l := &conc.Load{
		Queues: queues, Clients: 2 + r.IntN(5), Groups: 3, Updates: r.IntN(3) == 0, AutoAck: 5,
		Backend: func(k int) seq.Backend { return connect(seed + uint64(k)) },
		Pause:   conc.Until(end, 400*time.Millisecond),
	}
	l.Run(h, seed)
	<-done
	if epoch.Load()%2 == 1 {
		return
	}
	time.Sleep(time.Duration(T+3) * time.Second)
	for _, q := range queues {
		for k := len(h.Ops) + 10; k > 0; k-- {
			if o := h.Dequeue(first, 99, q, true); !o.OK {
				break
			}
		}
	}
	fs2, n := h.Check()
	fs = append(fs, fs2...)
	for q, ops := range h.Lost() {
		fs = append(fs, conc.Finding{Kind: seq.KLost, Msg: fmt.Sprintf("%d messages of queue %q are lost, as message %d", len(ops), q, ops[0].ID)})
	}
	for k, v := range n {
		rep.Count(k, v)
	}
	var sig strings.Builder
	tr2 := append([]string{}, cl.Tr...)
	for _, o := range h.Ops {
		fmt.Fprintf(&sig, "%d%s%v%d;", o.Client, o.Kind, o.OK, o.ID)
		tr2 = append(tr2, o.String())
	}
	rep.Done(n["deliveries"] > 0, sig.String(), func() any {
		return map[string]any{"case": ci, "timeout": T, "history": tr2[:min(len(tr2), 40)]}
	})
	if len(fs) > 0 {
		rep.Violate(core.Violation{Case: ci, Kind: fs[0].Kind, Msg: fs[0].Msg, Trace: tr2})
	}
}

var errUnsure = errors.New("something was wrong meanwhile")

// wanderer sends each request to another node
type wanderer struct {
	rep     *core.Report
	cl      *sim.Cluster
	clients []*client
	epoch   *atomic.Int64
	r       *rand.Rand
	found   func(kind, format string, args ...any)
}

func (w *wanderer) ask(f func(c *client) error) error {
	k := w.r.IntN(len(w.clients))
	if w.cl.Nodes[k].N.IsLeader() {
		w.rep.Count("via-leader", 1)
	} else {
		w.rep.Count("via-follower", 1)
	}
	before, began := w.epoch.Load(), time.Now()
	err := f(w.clients[k])
	if took := time.Since(began); took > bound {
		w.found(kAnswer, "a request to %s took %s: %v", w.cl.Nodes[k].ID, took, err)
	}
	if err != nil && (before%2 == 1 || w.epoch.Load() != before) {
		return fmt.Errorf("%w: %w", errUnsure, err)
	}
	return err
}

func (w *wanderer) Create(typ, name string) error {
	return w.ask(func(c *client) error { return c.Create(typ, name) })
}

func (w *wanderer) Delete(name string) error {
	return w.ask(func(c *client) error { return c.Delete(name) })
}

func (w *wanderer) Enqueue(q, group string, prio int64, content string, id uint64) (m seq.Msg, err error) {
	err = w.ask(func(c *client) error { m, err = c.Enqueue(q, group, prio, content, id); return err })
	if err != nil && !errors.Is(err, errUnsure) {
		w.found(seq.KEnqueue, "an enqueue failed although all nodes work: %v", err)
	}
	return m, err
}

func (w *wanderer) Dequeue(q string, ack bool) (m seq.Msg, err error) {
	err = w.ask(func(c *client) error { m, err = c.Dequeue(q, ack); return err })
	return m, err
}

func (w *wanderer) Ack(q string, id uint64) error {
	return w.ask(func(c *client) error { return c.Ack(q, id) })
}

func (w *wanderer) Nack(q string, id uint64) error {
	return w.ask(func(c *client) error { return c.Nack(q, id) })
}

func (w *wanderer) UpdatePriority(q string, id uint64, prio int64) error {
	return w.ask(func(c *client) error { return c.UpdatePriority(q, id, prio) })
}

func (w *wanderer) Info(q string) (seq.Info, error) { return w.clients[0].Info(q) }
func (w *wanderer) List() ([]seq.Info, error)       { return w.clients[0].List() }
func (w *wanderer) Restart(kind int) (string, bool) { return "none", true }
func (w *wanderer) ReturnsGroup() bool              { return false }
func (w *wanderer) Slack() time.Duration            { return 0 }
func (w *wanderer) NewIDs() bool                    { return true }
