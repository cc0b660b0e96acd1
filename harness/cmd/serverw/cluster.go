package main

import (
	"fmt"
	"math/rand/v2"
	"os"
	"path/filepath"
	"slices"
	"sort"
	"strings"
	"sync"
	"sync/atomic"
	"time"

	"doqverif/conc"
	"doqverif/core"
	"doqverif/netns"
	"doqverif/proc"
	"doqverif/seq"
)

// member is a node of a cluster of processes
type member struct {
	*proc.Server
	host *netns.Host
	web  *proc.Web
	grpc *proc.Backend
	off  atomic.Bool // it is meant not to answer
}

// clusters: clusters of server processes on hosts of their own
func clusters(a *core.Args, rep *core.Report, hosts bool) {
	rep.Rule = "three server processes, started as documented, each on a host of its own, join each other and serve clients at all of them over HTTP and gRPC while processes are killed, stopped for a while, cut off and started again, one, several or all of them; no process may end by itself, all must answer again within a minute when a majority is there, and the history of all clients, with a final drain, must account for every acknowledged operation; non-trivial: messages were delivered"
	for k, v := range map[string]int64{"formed": 12, "deliveries": 800, "acks": 300, "restarted": 12, "via-0": 200, "via-1": 200, "via-2": 200, "unknown": 5} {
		rep.Floor(k, v)
	}
	if hosts {
		rep.Count("with-hosts", 1)
	}
	core.Cases(a, pick(a, 16, 500), func(ci int) { oneCluster(a, rep, core.Rand(a, "servers", ci), ci, hosts) })
}

func oneCluster(a *core.Args, rep *core.Report, r *rand.Rand, ci int, hosts bool) {
	dir := filepath.Join(core.ScratchDir(), "c")
	defer os.RemoveAll(dir)
	base := ports(a, ci)
	const T = 6
	var tmu sync.Mutex
	var trace []string
	began := time.Now()
	note := func(format string, args ...any) {
		tmu.Lock()
		trace = append(trace, fmt.Sprintf("%6.2f ", time.Since(began).Seconds())+fmt.Sprintf(format, args...))
		tmu.Unlock()
		core.Touch()
	}
	var fs []conc.Finding
	fail := func(kind, format string, args ...any) {
		tmu.Lock()
		fs = append(fs, conc.Finding{Kind: kind, Msg: fmt.Sprintf(format, args...)})
		tmu.Unlock()
	}
	bad := func() bool { tmu.Lock(); defer tmu.Unlock(); return len(fs) > 0 }
	var ms []*member
	style := r.IntN(3)
	for i := 0; i < 3; i++ {
		m := &member{}
		s := &proc.Server{ID: fmt.Sprint("node-", i+1), HTTP: 8000, GRPC: 10000, Raft: 9000, Dir: filepath.Join(dir, fmt.Sprint(i))}
		if hosts {
			h, err := netns.NewHost()
			if err != nil {
				rep.Inconc("case %d: %v", ci, err)
				return
			}
			defer h.Close()
			m.host, s.Host, s.Prefix = h, h.Addr, h.Prefix()
		} else {
			s.Host, s.HTTP, s.GRPC, s.Raft = fmt.Sprintf("127.%d.%d.%d", 150+a.Shard, 2+i, 1+ci%200), base+i, base+3, base+4
		}
		s.Flags = []string{"--queue.acknowledgement_timeout", fmt.Sprint(T)}
		if style == 0 {
			s.Flags = append(s.Flags, "--prometheus.enabled", "true")
		}
		if i > 0 {
			s.Join = fmt.Sprintf("%s:%d", ms[0].Host, ms[0].HTTP)
			if style == 1 { // one after the other
				s.Join = fmt.Sprintf("%s:%d", ms[0].Host, ms[0].HTTP)
			}
		}
		m.Server = s
		m.web = proc.NewWeb(func() string { return m.URL("") }, 15*time.Second)
		m.grpc = &proc.Backend{C: m.Client, Timeout: 15 * time.Second}
		ms = append(ms, m)
	}
	defer func() {
		for _, m := range ms {
			if !m.Stopped() {
				m.Kill()
			}
			m.Hangup()
		}
	}()
	alive := func() bool {
		for _, m := range ms {
			if m.Server.Stopped() && !m.off.Load() {
				_, why := m.Dead()
				fail("dead", "the process of %s, which was not killed, ended: %s\n%s", m.ID, why, m.Log())
				return false
			}
		}
		return true
	}
	up := func(m *member, what string) bool {
		if m.Listening(90 * time.Second) {
			return true
		}
		_, why := m.Dead()
		fail("start", "%s: %s does not serve: %s\n%s", what, m.ID, why, m.Log())
		return false
	}
	// as documented, the first one is there before the others
	ms[0].Start()
	if !up(ms[0], "first start") {
		ms[1].off.Store(true)
	}
	for i, m := range ms[1:] {
		if bad() {
			break
		}
		m.Start()
		if style == 1 || i == 1 {
			up(m, "first start")
		}
	}
	if !bad() {
		up(ms[1], "first start")
	}
	// serves tells if all members that should serve do so, through all their services
	probes := 0
	serves := func(limit time.Duration, which []*member) string {
		why := ""
		for until := time.Now().Add(limit); time.Now().Before(until); time.Sleep(200 * time.Millisecond) {
			core.Touch()
			why = ""
			for _, m := range which {
				probes++
				var bs []seq.Backend
				if hosts {
					bs = []seq.Backend{m.web, m.grpc}
				} else {
					bs = []seq.Backend{m.grpc}
				}
				for _, b := range bs {
					if _, err := b.Enqueue("probes", "g", 1, fmt.Sprint("probe ", probes), 0); err != nil {
						why = fmt.Sprintf("%s: %v (%T)", m.ID, err, b)
					}
				}
			}
			if why == "" {
				return ""
			}
			if !alive() {
				return ""
			}
		}
		return why
	}
	h := &conc.History{T: T, I: 1, Types: map[string]string{}, Maybe: func(err error) bool { return true }}
	queues := []string{"jobs", "a b/c"}[:1+r.IntN(2)]
	if !bad() {
		done := false
		var err error
		for until := time.Now().Add(60 * time.Second); !done && time.Now().Before(until); time.Sleep(200 * time.Millisecond) {
			err = ms[0].grpc.Create("delayed", "probes")
			for _, q := range queues {
				h.Types[q] = []string{"delayed", "fair"}[len(q)%2]
				if err == nil {
					err = ms[0].grpc.Create(h.Types[q], q)
				}
			}
			done = err == nil
			core.Touch()
		}
		if !done {
			fail("start", "queues cannot be created within a minute after the start: %v", err)
		} else if why := serves(60*time.Second, ms); why != "" {
			fail("start", "not all nodes serve within a minute after the start: %s", why)
		}
	}
	seed := r.Uint64()
	var total map[string]int64
	if !bad() {
		rep.Count("formed", 1)
		note("formed")
		var stop atomic.Bool
		load := &conc.Load{Queues: queues, Groups: 3, AutoAck: 1 << 30, Clients: 3 + r.IntN(3), Updates: r.IntN(3) == 0}
		load.Backend = func(k int) seq.Backend {
			return &roamer{rep: rep, ms: ms, r: rand.New(rand.NewPCG(seed, uint64(k))), hosts: hosts}
		}
		load.Pause = func(r *rand.Rand, round int) bool {
			time.Sleep(time.Duration(r.Int64N(int64(60 * time.Millisecond))))
			return !stop.Load()
		}
		finished := make(chan bool)
		go func() { load.Run(h, seed); close(finished) }()
		wait := func(ms int) { time.Sleep(time.Duration(r.IntN(ms)) * time.Millisecond); core.Touch() }
		kill := func(m *member) { m.off.Store(true); note("kill %s", m.ID); m.Kill(); m.Hangup() }
		start := func(m *member) {
			note("start %s", m.ID)
			if !hosts {
				m.Join = "" // others cannot forward the request
			}
			m.Start()
			m.off.Store(false)
			rep.Count("restarted", 1)
		}
		rounds := 1 + r.IntN(2)
		for k := 0; k < rounds && !bad(); k++ {
			wait(1500)
			victim := ms[r.IntN(3)]
			fault := r.IntN(7)
			rep.Count(fmt.Sprint("fault-", []string{"kill", "pause", "cut", "all", "majority", "rolling", "one-stays-away"}[fault]), 1)
			switch fault {
			case 0:
				kill(victim)
				wait(6000)
				start(victim)
			case 1:
				note("pause %s", victim.ID)
				victim.Pause(time.Duration(500+r.IntN(6000)) * time.Millisecond)
				note("continued")
			case 2:
				if hosts {
					note("cut %s", victim.ID)
					victim.host.Cut(true)
					wait(6000)
					victim.host.Cut(false)
					note("connected")
				}
			case 3:
				for _, j := range r.Perm(3) {
					kill(ms[j])
				}
				for _, j := range r.Perm(3) {
					wait(1000)
					start(ms[j])
				}
			case 4:
				kill(ms[(r.IntN(3))])
				wait(3000)
				for _, m := range ms {
					if !m.off.Load() {
						kill(m)
						break
					}
				}
				wait(3000)
				for _, j := range r.Perm(3) {
					if ms[j].off.Load() {
						start(ms[j])
						wait(3000)
					}
				}
			case 5:
				for _, j := range r.Perm(3) {
					kill(ms[j])
					wait(1500)
					start(ms[j])
					up(ms[j], "rolling restart")
				}
			case 6:
				// two of three come back after all went away, which is a majority
				for _, j := range r.Perm(3) {
					kill(ms[j])
				}
				var two []*member
				for _, j := range r.Perm(3)[:2] {
					start(ms[j])
					two = append(two, ms[j])
				}
				for _, m := range two {
					up(m, "start of a majority")
				}
				if !bad() {
					if why := serves(60*time.Second, two); why != "" {
						fail("unavailable", "two of three nodes were started again and do not serve within a minute: %s", why)
					}
				}
				for _, m := range ms {
					if m.off.Load() {
						start(m)
					}
				}
			}
			for _, m := range ms {
				if !bad() {
					up(m, "after faults")
				}
			}
			if bad() {
				break
			}
			if why := serves(60*time.Second, ms); why != "" && !bad() {
				fail("unavailable", "all nodes are there again and do not all serve within a minute: %s", why)
			}
			note("all serve")
		}
		stop.Store(true)
		<-finished
		if !bad() {
			time.Sleep((T + 3) * time.Second)
			last := &roamer{rep: rep, ms: ms, r: r, hosts: hosts}
			for _, q := range queues {
				for misses := 0; misses < 12; {
					if o := h.Dequeue(last, 99, q, false); !o.OK {
						misses++
						time.Sleep(100 * time.Millisecond)
					} else {
						misses = 0
						if a := h.AckNack(last, 99, "ack", q, o.ID); !a.OK {
							time.Sleep(100 * time.Millisecond)
						}
					}
				}
			}
			var fs2 []conc.Finding
			held := map[string]map[uint64]bool{}
			for _, o := range h.Ops {
				if held[o.Queue] == nil {
					held[o.Queue] = map[uint64]bool{}
				}
				if o.Kind == "enqueue" && o.OK {
					held[o.Queue][o.ID] = true
				}
			}
			for _, o := range h.Ops {
				// what was acknowledged, perhaps, or received in the end, is accounted for
				if o.Kind == "ack" || o.Kind == "dequeue" && o.OK && o.Client == 99 {
					delete(held[o.Queue], o.ID)
				}
			}
			for q, ids := range held {
				for id := range ids {
					fs2 = append(fs2, conc.Finding{Kind: seq.KLost, Msg: fmt.Sprintf("%d messages of queue %q are lost, as message %d", len(ids), q, id)})
					break
				}
			}
			fs3, n := h.Check()
			fs2 = append(fs2, fs3...)
			total = n
			for k, v := range n {
				rep.Count(k, v)
			}
			tmu.Lock()
			fs = append(fs, fs2...)
			tmu.Unlock()
		}
	}
	sort.Slice(h.Ops, func(i, j int) bool { return h.Ops[i].Call < h.Ops[j].Call })
	var sig strings.Builder
	for _, o := range h.Ops {
		fmt.Fprintf(&sig, "%d%s%v%d;", o.Client, o.Kind, o.OK, o.ID)
	}
	full := append([]string{}, trace...)
	for _, o := range h.Ops {
		full = append(full, o.String())
	}
	rep.Done(total["deliveries"] > 0, sig.String(), func() any {
		return map[string]any{"case": ci, "trace": full[:min(len(full), 60)]}
	})
	if a.Prop == "C23" { // which is about the members and not about what they hold
		fs = slices.DeleteFunc(fs, func(f conc.Finding) bool { return !slices.Contains([]string{"dead", "start", "unavailable"}, f.Kind) })
	}
	if len(fs) > 0 {
		rep.Violate(core.Violation{Case: ci, Kind: fs[0].Kind, Msg: fs[0].Msg, Trace: full})
	}
}

// roamer sends each request to another node, over HTTP or gRPC
type roamer struct {
	rep   *core.Report
	ms    []*member
	r     *rand.Rand
	hosts bool
}

func (w *roamer) b() seq.Backend {
	k := w.r.IntN(len(w.ms))
	for j := 0; j < 2 && w.ms[k].off.Load(); j++ {
		k = w.r.IntN(len(w.ms))
	}
	w.rep.Count(fmt.Sprint("via-", k), 1)
	if w.hosts && w.r.IntN(2) == 0 {
		w.rep.Count("http", 1)
		return w.ms[k].web
	}
	return w.ms[k].grpc
}

// slow keeps clients of nodes that are down from asking all the time
func slow(err error) error {
	if err != nil {
		time.Sleep(50 * time.Millisecond)
	}
	return err
}

func (w *roamer) Create(typ, name string) error { return slow(w.b().Create(typ, name)) }
func (w *roamer) Delete(name string) error      { return slow(w.b().Delete(name)) }
func (w *roamer) Enqueue(q, group string, prio int64, content string, id uint64) (seq.Msg, error) {
	m, err := w.b().Enqueue(q, group, prio, content, id)
	return m, slow(err)
}
func (w *roamer) Dequeue(q string, ack bool) (seq.Msg, error) {
	m, err := w.b().Dequeue(q, ack)
	return m, slow(err)
}
func (w *roamer) Ack(q string, id uint64) error  { return slow(w.b().Ack(q, id)) }
func (w *roamer) Nack(q string, id uint64) error { return slow(w.b().Nack(q, id)) }
func (w *roamer) UpdatePriority(q string, id uint64, prio int64) error {
	return slow(w.b().UpdatePriority(q, id, prio))
}
func (w *roamer) Info(q string) (seq.Info, error) {
	i, err := w.b().Info(q)
	return i, slow(err)
}
func (w *roamer) List() ([]seq.Info, error)       { return nil, nil }
func (w *roamer) Restart(kind int) (string, bool) { return "none", true }
func (w *roamer) ReturnsGroup() bool              { return false }
func (w *roamer) Slack() time.Duration            { return 0 }
func (w *roamer) NewIDs() bool                    { return true }
