package main

import (
	"errors"
	"fmt"
	"hash/crc32"
	"math/rand/v2"
	"slices"
	"sort"
	"strings"
	"sync"
	"sync/atomic"
	"time"

	"doqverif/conc"
	"doqverif/core"
	"doqverif/seq"
	"doqverif/sim"

	"github.com/anishathalye/porcupine"
	hraft "github.com/hashicorp/raft"
)

var errNoNode = errors.New("no node to ask")

// maybe tells from an error if the operation may have taken place
func maybe(err error) bool {
	return errors.Is(err, hraft.ErrLeadershipLost) || errors.Is(err, hraft.ErrRaftShutdown) || errors.Is(err, hraft.ErrAbortedByRestore)
}

// front is what one client sees of the cluster
type front struct {
	c    *sim.Cluster
	r    *rand.Rand
	lead bool // always ask the leader
}

func (f *front) node() *sim.Backend {
	var up []*sim.Node
	for _, n := range f.c.Nodes {
		if n.IsUp() {
			up = append(up, n)
		}
	}
	if len(up) == 0 {
		return nil
	}
	if f.lead || f.r.IntN(8) > 0 {
		if l := f.c.Leader(); l != nil {
			return l.Front()
		}
	}
	if f.lead {
		return nil
	}
	return up[f.r.IntN(len(up))].Front()
}

func (f *front) Enqueue(q, group string, prio int64, content string, id uint64) (seq.Msg, error) {
	if b := f.node(); b != nil {
		return b.Enqueue(q, group, prio, content, id)
	}
	return seq.Msg{}, errNoNode
}

func (f *front) Dequeue(q string, ack bool) (seq.Msg, error) {
	if b := f.node(); b != nil {
		return b.Dequeue(q, ack)
	}
	return seq.Msg{}, errNoNode
}

func (f *front) Ack(q string, id uint64) error {
	if b := f.node(); b != nil {
		return b.Ack(q, id)
	}
	return errNoNode
}

func (f *front) Nack(q string, id uint64) error {
	if b := f.node(); b != nil {
		return b.Nack(q, id)
	}
	return errNoNode
}

func (f *front) UpdatePriority(q string, id uint64, prio int64) error {
	if b := f.node(); b != nil {
		return b.UpdatePriority(q, id, prio)
	}
	return errNoNode
}

// trailing is how many entries at least stay in the log, by default 10240. The
// raft library does not get over a follower whose log goes further beyond the
// snapshot that it is sent than that, because of entries that are not committed
// or of an answer that was lost. One message has at most 64 entries.
const trailing = 80

// faults disturbs the cluster, never more than a minority of it at a time
type faults struct {
	c     *sim.Cluster
	r     *rand.Rand
	rep   *core.Report
	probe string // a queue that exists
	// Down is set if operations do not succeed again in time
	down string
}

func (f *faults) note(kind, format string, args ...any) {
	f.rep.Count("fault-"+kind, 1)
	f.c.Note("FAULT "+kind+" "+format, args...)
}

// works waits until operations succeed
func (f *faults) works(limit time.Duration) bool {
	until := time.Now().Add(limit)
	var last error
	for time.Now().Before(until) {
		if l := f.c.Leader(); l != nil {
			if b := l.Front(); b != nil {
				if last = b.Create("delayed", f.probe); last == nil {
					return true
				}
			}
		}
		time.Sleep(100 * time.Millisecond)
	}
	f.down = fmt.Sprintf("no operation succeeded for %s, last error %v", limit, last)
	f.c.Note("%s", f.down)
	return false
}

func (f *faults) isolate(set map[*sim.Node]bool, in, out bool) {
	for _, a := range f.c.Nodes {
		for _, b := range f.c.Nodes {
			if set[a] != set[b] {
				if set[a] && out || set[b] && in {
					f.c.Net.Cut(a.Addr, b.Addr, true)
				}
			}
		}
	}
}

// one runs one fault
func (f *faults) one() bool {
	c, r := f.c, f.r
	minority := (len(c.Nodes) - 1) / 2
	set := map[*sim.Node]bool{}
	var list []*sim.Node
	pickSet := func() string {
		names := []string{}
		for k := 1 + r.IntN(max(1, minority)); k > 0 && minority > 0; k-- {
			n := c.Nodes[r.IntN(len(c.Nodes))]
			if l := c.Leader(); l != nil && r.IntN(2) == 0 {
				n = l
			}
			if !set[n] {
				set[n] = true
				list = append(list, n)
				names = append(names, n.ID)
			}
		}
		return strings.Join(names, ",")
	}
	hold := func() bool {
		d := time.Duration(r.IntN(15000)) * time.Millisecond
		if r.IntN(4) == 0 {
			// the rest must go on meanwhile
			if !f.works(60 * time.Second) {
				f.rep.Count("stuck-in-fault", 1)
			}
		}
		time.Sleep(d)
		if r.IntN(3) == 0 {
			time.Sleep(time.Duration(r.IntN(15000)) * time.Millisecond)
			// those who were away need the snapshot
			if l := c.Leader(); l != nil && !set[l] {
				l.SetTrailing(trailing)
				f.note("snapshot", "%s: %v while others are away", l.ID, l.Snapshot())
			}
		}
		return true
	}
	switch k := r.IntN(12); {
	case k < 3 && minority > 0:
		f.note("partition", "%s", pickSet())
		f.isolate(set, true, true)
		if !hold() {
			return false
		}
		c.Net.Heal()
	case k == 3 && minority > 0:
		in := r.IntN(2) == 0
		f.note("one-way", "%s in=%v", pickSet(), in)
		f.isolate(set, in, !in)
		time.Sleep(time.Duration(r.IntN(15000)) * time.Millisecond)
		c.Net.Heal()
	case k < 7 && minority > 0:
		f.note("kill", "%s", pickSet())
		for _, n := range list {
			if r.IntN(3) == 0 {
				n.Stop()
			} else {
				n.Crash()
			}
		}
		if !hold() {
			return false
		}
		for _, n := range list {
			n.Start()
		}
	case k == 7:
		f.note("kill-all", "")
		for _, n := range c.Nodes {
			n.Detach()
		}
		for _, n := range c.Nodes {
			n.Crash()
		}
		time.Sleep(time.Duration(r.IntN(5000)) * time.Millisecond)
		for _, n := range c.Nodes {
			n.Start()
		}
	case k == 8:
		f.note("loss", "")
		c.Net.SetLoss(20+r.IntN(150), time.Duration(1+r.IntN(60))*time.Millisecond)
		time.Sleep(time.Duration(r.IntN(15000)) * time.Millisecond)
		c.Net.SetLoss(0, 2*time.Millisecond)
	case k == 9 && minority > 0:
		if l := c.Leader(); l != nil {
			f.note("transfer", "from %s", l.ID)
			l.N.Raft.LeadershipTransfer().Error()
		}
	default:
		n := c.Nodes[r.IntN(len(c.Nodes))]
		n.SetTrailing([]int{trailing, trailing, 2 * trailing, 10240}[r.IntN(4)])
		err := n.Snapshot()
		f.note("snapshot", "%s: %v", n.ID, err)
		return true
	}
	return f.works(60 * time.Second)
}

// run disturbs until the time is over, and then sees to it that everything works
func (f *faults) run(until time.Time) bool {
	for time.Now().Before(until) {
		core.Touch()
		time.Sleep(time.Duration(f.r.IntN(6000)) * time.Millisecond)
		if !f.one() {
			return false
		}
	}
	return f.heal()
}

func (f *faults) heal() bool {
	f.c.Net.Heal()
	f.c.Net.SetLoss(0, 2*time.Millisecond)
	for _, n := range f.c.Nodes {
		if !n.IsUp() {
			n.Start()
		}
	}
	if !f.works(60 * time.Second) {
		return false
	}
	// everybody catches up
	until := time.Now().Add(120 * time.Second)
	for {
		l := f.c.Leader()
		behind := ""
		if l != nil {
			last := l.N.Raft.LastIndex()
			for _, n := range f.c.Nodes {
				if i := n.N.Raft.AppliedIndex(); i < last {
					behind = fmt.Sprintf("%s has applied %d of %d entries", n.ID, i, last)
				}
			}
			if behind == "" {
				return true
			}
		}
		if time.Now().After(until) {
			f.down = "after 120 s " + behind
			for _, n := range f.c.Nodes {
				s := n.N.Raft.Stats()
				f.c.Note("%s: %s term %s last %s commit %s applied %s snapshot %s", n.ID, s["state"], s["term"], s["last_log_index"], s["commit_index"], s["applied_index"], s["last_snapshot_index"])
			}
			return false
		}
		time.Sleep(50 * time.Millisecond)
	}
}

var stucks int

// stuck is called if a cluster does not get going again. It happens, rarely, that
// two of three nodes in hashicorp/raft refuse each other's pre-votes for good
// (one is a candidate and remembers a leader). One case in a process is taken for that.
func stuck(a *core.Args, rep *core.Report, ci int, c *sim.Cluster, kind, msg string, h *conc.History) {
	if !judged(a.Prop, kind) {
		rep.Inconc("case %d: %s", ci, msg)
		return
	}
	stucks++
	rep.Count("stuck", 1)
	if stucks > 1 || a.Only >= 0 {
		verdict(a, rep, ci, c, conc.Finding{Kind: kind, Msg: msg}, h)
		return
	}
	rep.Inconc("case %d: %s", ci, msg)
}

func verdict(a *core.Args, rep *core.Report, ci int, c *sim.Cluster, f conc.Finding, h *conc.History) {
	tr := append([]string{}, c.Tr...)
	if h != nil {
		tr = append(tr, fmt.Sprintf("timeout %d s, interval %d s, types %v", h.T, h.I, h.Types))
		for _, o := range f.Ops {
			tr = append(tr, o.String())
		}
		tr = append(tr, "--- the whole history:")
		for _, o := range h.Ops {
			tr = append(tr, o.String())
		}
	}
	if len(tr) > 390 {
		tr = tr[:390]
	}
	rep.Violate(core.Violation{Case: ci, Kind: f.Kind, Msg: f.Msg, Trace: tr})
}

func sample(c *sim.Cluster, h *conc.History, ci int) func() any {
	return func() any {
		tr := []string{}
		if h != nil {
			for _, o := range h.Ops {
				if len(tr) < 30 {
					tr = append(tr, o.String())
				}
			}
		}
		return map[string]any{"case": ci, "nodes": len(c.Nodes), "faults": head(c.Tr, 30), "history": tr}
	}
}

func countHistory(rep *core.Report, c *sim.Cluster, h *conc.History, n map[string]int64) (sig string, leaders int) {
	var sb strings.Builder
	for _, o := range h.Ops {
		fmt.Fprintf(&sb, "%d%s%v%v;", o.Client, o.Kind, o.OK, o.Unknown)
		if o.Unknown {
			rep.Count("unknown-"+o.Kind, 1)
		} else if o.OK {
			rep.Count("ok-"+o.Kind, 1)
		} else {
			rep.Count("failed-"+o.Kind, 1)
		}
	}
	for k, v := range n {
		rep.Count("axioms-"+k, v)
	}
	rep.Count("rpcs", c.Net.RPCs)
	rep.Count("installed-snapshots", c.Net.Snapshots)
	return sb.String(), 0
}

// lin: short histories under faults, checked for linearizability
func lin(a *core.Args, rep *core.Report) {
	rep.Rule = "two to four clients on three or five nodes under partitions, kills, restarts, message loss, snapshots and leadership transfers; the history, including a final count of what is left, is linearizable; non-trivial: at least one operation with an unknown result or a change of the leader"
	rep.Floor("linearizable-histories", 100)
	rep.Floor("unknown-results", 50)
	core.Cases(a, pick(a, 240, 6000), func(ci int) {
		align()
		r := core.Rand(a, "lin", ci)
		const T = 150
		c := sim.NewCluster(r.Uint64(), T, 1)
		defer c.Close()
		size := []int{3, 3, 3, 5}[r.IntN(4)]
		c.Form(size)
		typ := []string{"delayed", "fair"}[r.IntN(2)]
		h := &conc.History{T: T, I: 1, Types: map[string]string{"q": typ}, Maybe: maybe}
		if err := c.Nodes[0].N.CreateQueue(typ, "q"); err != nil {
			rep.Inconc("case %d: create: %v", ci, err)
			return
		}
		var wg sync.WaitGroup
		begin := time.Now()
		clients := 2 + r.IntN(3)
		ops := 6 + r.IntN(10)
		var serial atomic.Int64
		for k := 0; k < clients; k++ {
			wg.Add(1)
			go func(seed uint64) {
				defer wg.Done()
				r := rand.New(rand.NewPCG(seed, 3))
				f := &front{c: c, r: r}
				b := full{f}
				var got []uint64
				for i := 0; i < ops && time.Since(begin) < 50*time.Second; i++ {
					time.Sleep(time.Duration(r.IntN(2500)) * time.Millisecond)
					id := func() uint64 {
						if len(got) > 0 {
							return got[r.IntN(len(got))]
						}
						return 12345
					}
					var o *conc.Op
					switch r.IntN(9) {
					case 0, 1, 2:
						o = h.Enqueue(b, k, "q", fmt.Sprint("g", r.IntN(2)), int64(r.IntN(3)), fmt.Sprintf("c%03d", serial.Add(1)), 0)
					case 3, 4, 5:
						o = h.Dequeue(b, k, "q", r.IntN(4) == 0)
						if o.OK {
							got = append(got, o.ID)
						}
					case 6:
						o = h.AckNack(b, k, "ack", "q", id())
					case 7:
						o = h.AckNack(b, k, "nack", "q", id())
					case 8:
						o = h.Update(b, k, "q", id(), int64(r.IntN(4)))
					}
				}
			}(r.Uint64())
		}
		fl := &faults{c: c, r: r, rep: rep, probe: "q"}
		ok := fl.run(begin.Add(time.Duration(ops) * 1200 * time.Millisecond))
		wg.Wait()
		if ok {
			ok = fl.heal()
		}
		if !ok {
			stuck(a, rep, ci, c, "unavailable", fl.down, h)
			return
		}
		dropped := dropRefused(h)
		// what is left
		left := map[string]bool{}
		var fs []conc.Finding
		for round := 0; round < 2; round++ {
			if round == 1 {
				time.Sleep((T + 5) * time.Second)
				if !fl.works(60 * time.Second) {
					stuck(a, rep, ci, c, "unavailable", fl.down, h)
					return
				}
			}
			for k := 0; k < 500; k++ {
				m, err := c.Leader().Front().Dequeue("q", true)
				if err != nil {
					if maybe(err) || errors.Is(err, hraft.ErrNotLeader) {
						rep.Inconc("case %d: the final count was disturbed: %v", ci, err)
						return
					}
					break
				}
				if left[m.Content] {
					fs = append(fs, conc.Finding{Kind: seq.KDouble, Msg: fmt.Sprintf("%s was delivered twice in the end", m.Content)})
				}
				left[m.Content] = true
			}
		}
		h.Final("q", left)
		unknown := int64(0)
		for _, o := range h.Ops {
			if o.Unknown {
				unknown++
			}
		}
		rep.Count("unknown-results", unknown)
		rep.Count("refused-by-followers", int64(dropped))
		sig, _ := countHistory(rep, c, h, nil)
		rep.Done(unknown > 0 || strings.Contains(strings.Join(c.Tr, " "), "FAULT"), sig, sample(c, h, ci))
		if len(fs) == 0 {
			if unknown > 9 {
				rep.Count("too-many-unknown", 1)
				return
			}
			res, n := h.Linearizable(60 * time.Second)
			switch res {
			case porcupine.Ok:
				rep.Count("linearizable-histories", 1)
			case porcupine.Illegal:
				fs = append(fs, conc.Finding{Kind: "linearizability", Msg: fmt.Sprintf("a history of %d operations on a %s queue is not linearizable; left in the end: %v", n, typ, sorted(left))})
			default:
				rep.Inconc("case %d: the checker ran out of time", ci)
			}
		}
		if len(fs) > 0 {
			verdict(a, rep, ci, c, fs[0], h)
		}
	})
}

func sorted(m map[string]bool) []string {
	out := []string{}
	for k := range m {
		out = append(out, k)
	}
	sort.Strings(out)
	return out
}

// refused tells if the operation certainly did not take place because of the node
func refused(o *conc.Op) bool {
	return !o.OK && !o.Unknown && (o.Err == hraft.ErrNotLeader.Error() || o.Err == errNoNode.Error() ||
		o.Err == hraft.ErrEnqueueTimeout.Error() || o.Err == hraft.ErrLeadershipTransferInProgress.Error())
}

// dropRefused removes operations that certainly did not take place
func dropRefused(h *conc.History) int {
	n := 0
	var ops []*conc.Op
	for _, o := range h.Ops {
		if refused(o) {
			n++
			continue
		}
		ops = append(ops, o)
	}
	h.Ops = ops
	return n
}

// full is a front with all methods of a backend
type full struct{ *front }

func (full) Create(typ, name string) error   { panic("harness: not used") }
func (full) Delete(name string) error        { panic("harness: not used") }
func (full) Info(q string) (seq.Info, error) { panic("harness: not used") }
func (full) List() ([]seq.Info, error)       { panic("harness: not used") }
func (full) Restart(kind int) (string, bool) { panic("harness: not used") }
func (full) ReturnsGroup() bool              { return false }
func (full) Slack() time.Duration            { return 0 }
func (full) NewIDs() bool                    { return true }

// stormKinds are the findings that break a property; all of them break C13
var stormKinds = map[string][]string{
	"C01": {seq.KOrder, seq.KNotDue},
	"C03": {seq.KFairOrder, seq.KFairEmpty},
	"C04": {seq.KLost, seq.KInvented, seq.KContent, seq.KGroup, seq.KEnqueue},
	"C05": {seq.KDouble, seq.KGoneBack},
	"C06": {seq.KDouble, seq.KLost},
	"C07": {seq.KGoneBack, seq.KAck, seq.KNack},
	"C08": {seq.KUpdate, seq.KPrio, seq.KOrder, seq.KFairOrder},
}

func judged(prop, kind string) bool {
	ks, ok := stormKinds[prop]
	return !ok || slices.Contains(ks, kind)
}

// storm: long histories with timeouts under faults, checked by axioms
func storm(a *core.Args, rep *core.Report) {
	rep.Rule = "three to eight clients on three or five nodes for one to four minutes of virtual time, with acknowledgement timeouts, under the same faults; histories satisfy the axioms of queues and the final drain delivers everything that was not acknowledged; non-trivial: at least ten deliveries and one fault"
	rep.Floor("axioms-deliveries", 2000)
	rep.Floor("axioms-redelivered-after-timeout", 50)
	rep.Floor("axioms-priorities", 2000)
	core.Cases(a, pick(a, 128, 3000), func(ci int) {
		align()
		r := core.Rand(a, "storm", ci)
		T := []int64{2, 3, 5, 10, 20}[r.IntN(5)]
		I := []int64{1, 1, 2, 3}[r.IntN(4)]
		c := sim.NewCluster(r.Uint64(), T, I)
		defer c.Close()
		c.Form([]int{3, 3, 3, 5}[r.IntN(4)])
		h := &conc.History{T: T, I: I, Types: map[string]string{}, Maybe: maybe}
		queues := seq.Names(r, "hostile", 1+r.IntN(2))
		for _, q := range queues {
			h.Types[q] = []string{"delayed", "fair"}[r.IntN(2)]
			if err := c.Nodes[0].N.CreateQueue(h.Types[q], q); err != nil {
				rep.Inconc("case %d: create: %v", ci, err)
				return
			}
		}
		var wg sync.WaitGroup
		stop := make(chan struct{})
		var serial atomic.Int64
		updates := r.IntN(3) == 0 || a.Prop == "C08"
		for k, n := 0, 3+r.IntN(6); k < n; k++ {
			wg.Add(1)
			go func(seed uint64) {
				defer wg.Done()
				r := rand.New(rand.NewPCG(seed, 4))
				b := full{&front{c: c, r: r}}
				type held struct {
					q  string
					id uint64
				}
				var mine []held
				for {
					select {
					case <-stop:
						return
					case <-time.After(time.Duration(r.IntN(1500)) * time.Millisecond):
					}
					q := queues[r.IntN(len(queues))]
					switch r.IntN(9) {
					case 0, 1, 2:
						h.Enqueue(b, k, q, fmt.Sprint("g", r.IntN(3)), int64(r.IntN(3)), fmt.Sprintf("content-%d", serial.Add(1)), 0)
					case 3, 4, 5:
						o := h.Dequeue(b, k, q, r.IntN(6) == 0)
						if o.OK && !o.Ack {
							mine = append(mine, held{q, o.ID})
						}
					default:
						if len(mine) == 0 {
							continue
						}
						i := r.IntN(len(mine))
						x := mine[i]
						if updates && r.IntN(3) == 0 {
							h.Update(b, k, x.q, x.id, int64(r.IntN(4)))
							continue
						}
						if r.IntN(3) > 0 {
							mine = append(mine[:i], mine[i+1:]...)
						}
						h.AckNack(b, k, []string{"ack", "ack", "nack"}[r.IntN(3)], x.q, x.id)
					}
				}
			}(r.Uint64())
		}
		fl := &faults{c: c, r: r, rep: rep, probe: queues[0]}
		ok := fl.run(time.Now().Add(time.Duration(40+r.IntN(120)) * time.Second))
		close(stop)
		wg.Wait()
		if ok {
			ok = fl.heal()
		}
		if ok {
			time.Sleep(time.Duration(T+I+2)*time.Second + 3*time.Second)
			ok = fl.works(60 * time.Second)
		}
		if !ok {
			stuck(a, rep, ci, c, "unavailable", fl.down, h)
			return
		}
		dropRefused(h)
		for _, q := range queues {
			for k, fails := 0, 0; k < 5000; k++ {
				o := h.Dequeue(full{&front{c: c, lead: true}}, 999, q, true)
				if o.Unknown || refused(o) {
					if fails++; fails > 100 {
						rep.Inconc("case %d: the final drain was disturbed: %s", ci, o.Err)
						return
					}
					time.Sleep(100 * time.Millisecond)
					continue
				}
				if !o.OK {
					break
				}
			}
		}
		fs, n := h.Check()
		for q, l := range h.Lost() {
			fs = append(fs, conc.Finding{Kind: seq.KLost, Msg: fmt.Sprintf("%d messages of queue %q are lost, the first is %d", len(l), q, l[0].ID), Ops: l[:1]})
		}
		dropRefused(h)
		sig, _ := countHistory(rep, c, h, n)
		rep.Done(n["deliveries"] >= 10 && len(c.Tr) > 0, sig, sample(c, h, ci))
		for _, f := range fs {
			if judged(a.Prop, f.Kind) {
				verdict(a, rep, ci, c, f, h)
				return
			}
			rep.Count("deviation-of-another-property", 1)
		}
	})
}

// replicas: after random commands under faults all nodes hold the same
func replicas(a *core.Args, rep *core.Report) {
	rep.Rule = "random operations on three nodes that fall behind, restart, replay, are brought up to date by snapshots; in the end everything that the nodes hold is read from each of them and compared: queues, ready messages in order of delivery, rotation of groups, unacknowledged messages and the second of their timeouts; non-trivial: at least five messages are compared"
	rep.Floor("compared-messages", 2000)
	rep.Floor("compared-unacked", 300)
	rep.Floor("filled", 4000)
	rep.Floor("installed-snapshots", 10)
	rep.Floor("snapshots-in-use", 100)
	core.Cases(a, pick(a, 400, 6000), func(ci int) {
		align()
		r := core.Rand(a, "replicas", ci)
		T := []int64{2, 5, 10, 30, 60, 120}[r.IntN(6)]
		I := []int64{1, 1, 2, 5}[r.IntN(4)]
		c := sim.NewCluster(r.Uint64(), T, I)
		defer c.Close()
		late := r.IntN(3) == 0
		// the others join a node that takes snapshots while it is used
		solo := ci%4 == 1
		if solo {
			c.Form(1)
		} else {
			c.Form(3)
		}
		queues := seq.Names(r, "hostile", 1+r.IntN(3))
		groups := seq.Groups(r, 1+r.IntN(6))
		types := []string{"delayed", "fair", "fair"}
		for _, q := range queues {
			c.Nodes[0].N.CreateQueue(types[r.IntN(3)], q)
		}
		if solo && !alone(r, rep, c, queues, groups) {
			rep.Inconc("case %d: the others could not join", ci)
			return
		}
		filled := ci%15 == 7
		if filled {
			// a node that falls behind or joins gets thousands of messages at once
			late = true
			fill(r, rep, c, queues, groups)
		}
		stop := make(chan struct{})
		var wg sync.WaitGroup
		var done atomic.Int64
		for k := 0; k < 2; k++ {
			wg.Add(1)
			go func(seed uint64) {
				defer wg.Done()
				r := rand.New(rand.NewPCG(seed, 5))
				f := &front{c: c, r: r}
				var ids []uint64
				for {
					select {
					case <-stop:
						return
					case <-time.After(time.Duration(r.IntN(600)) * time.Millisecond):
					}
					b := f.node()
					if b == nil {
						continue
					}
					q := queues[r.IntN(len(queues))]
					id := func() uint64 {
						if len(ids) == 0 {
							return 1
						}
						return ids[len(ids)-1-r.IntN(min(len(ids), 12))]
					}
					now := time.Now().Unix()
					prio := []int64{int64(r.IntN(4)), int64(r.IntN(4)), now + int64(r.IntN(20)) - 5, now + 1000}[r.IntN(4)]
					var err error
					switch x := r.IntN(40); {
					case x < 14:
						for i, n := 0, 1+r.IntN(3); i < n; i++ {
							_, err = b.Enqueue(q, groups[r.IntN(len(groups))], prio, seq.Content(r, "hostile", uint64(r.IntN(1000))), 0)
						}
					case x < 26:
						var m seq.Msg
						m, err = b.Dequeue(q, r.IntN(4) == 0)
						if err == nil {
							ids = append(ids, m.ID)
						}
					case x < 30:
						err = b.Ack(q, id())
					case x < 34:
						err = b.Nack(q, id())
					case x < 38:
						err = b.UpdatePriority(q, id(), prio)
					case x < 39:
						err = b.Create(types[r.IntN(3)], q)
					default:
						if r.IntN(3) == 0 && !filled {
							err = b.Delete(q)
						}
					}
					if err == nil {
						done.Add(1)
					}
				}
			}(r.Uint64())
		}
		fl := &faults{c: c, r: r, rep: rep, probe: "probe"}
		ok := fl.run(time.Now().Add(time.Duration(20+r.IntN(60)) * time.Second))
		if ok && late {
			// one more node, that gets everything at once
			n := c.Add()
			n.Peers = []string{"x"}
			n.Start()
			l := c.Leader()
			err := errNoNode
			if l != nil {
				err = l.N.Join(n.ID, n.Addr)
			}
			c.Note("%s joins: %v", n.ID, err)
			if err != nil {
				rep.Inconc("case %d: join: %v", ci, err)
				close(stop)
				wg.Wait()
				return
			}
			rep.Count("late-joins", 1)
			time.Sleep(3 * time.Second)
		}
		close(stop)
		wg.Wait()
		if ok && r.IntN(2) == 0 {
			// one of them replays everything
			n := c.Nodes[r.IntN(len(c.Nodes))]
			c.Note("%s is killed and replays", n.ID)
			n.Crash()
			n.Start()
			rep.Count("replays", 1)
		}
		if ok {
			ok = fl.heal()
		}
		if !ok {
			stuck(a, rep, ci, c, "stuck", fl.down, nil)
			return
		}
		compare(a, rep, ci, c, T, done.Load())
	})
}

// alone uses the first node from several goroutines while it takes snapshots, at
// the very same moments, and has two others join
func alone(r *rand.Rand, rep *core.Report, c *sim.Cluster, queues, groups []string) bool {
	n := c.Nodes[0]
	for i, k := 0, r.IntN(300); i < k; i++ {
		n.N.Enqueue(queues[r.IntN(len(queues))], groups[r.IntN(len(groups))], int64(r.IntN(9)), strings.Repeat("c", r.IntN(300)))
	}
	n.SetTrailing(trailing)
	var wg sync.WaitGroup
	var left atomic.Int64
	for k := 0; k < 4; k++ {
		wg.Add(1)
		left.Add(1)
		go func(seed uint64) {
			defer wg.Done()
			defer left.Add(-1)
			r := rand.New(rand.NewPCG(seed, 6))
			var ids []uint64
			for i := 0; i < 200; i++ {
				if i%10 == 0 {
					time.Sleep(time.Millisecond)
				}
				q := queues[r.IntN(len(queues))]
				switch x := r.IntN(10); {
				case x < 4:
					n.N.Enqueue(q, groups[r.IntN(len(groups))], int64(r.IntN(9)), fmt.Sprint("content-", i))
				case x < 7 || len(ids) == 0:
					if m, err := n.N.Dequeue(q, r.IntN(5) == 0); err == nil {
						ids = append(ids, m.ID)
					}
				case x < 8:
					n.N.Ack(q, ids[r.IntN(len(ids))])
				case x < 9:
					n.N.Nack(q, ids[r.IntN(len(ids))])
				default:
					n.N.UpdatePriority(q, ids[r.IntN(len(ids))], int64(r.IntN(9)))
				}
				core.Touch()
			}
		}(r.Uint64())
	}
	for left.Load() > 0 {
		if n.Snapshot() == nil {
			rep.Count("snapshots-in-use", 1)
		}
	}
	wg.Wait()
	for k := 0; k < 2; k++ {
		m := c.Add()
		m.Peers = []string{n.Addr}
		m.Start()
		if err := n.N.Join(m.ID, m.Addr); err != nil {
			c.Note("%s joins: %v", m.ID, err)
			return false
		}
		if err := m.N.InitIDGenerator(); err != nil {
			return false
		}
	}
	return true
}

// fill enqueues thousands of messages, some of them large, and takes many
func fill(r *rand.Rand, rep *core.Report, c *sim.Cluster, queues, groups []string) {
	n, now := 2000+r.IntN(5000), time.Now().Unix()
	for i := 0; i < n; i++ {
		time.Sleep(time.Millisecond)
		content := fmt.Sprint("content-", i)
		switch {
		case i%700 == 100:
			content += strings.Repeat("L", 500000+r.IntN(200000))
		case i%50 == 10:
			content += strings.Repeat("l", 1000+r.IntN(70000))
		}
		q := queues[r.IntN(len(queues))]
		c.Nodes[0].N.Enqueue(q, groups[r.IntN(len(groups))], []int64{int64(r.IntN(9)), now + int64(r.IntN(60))}[r.IntN(2)], content)
		if r.IntN(3) == 0 {
			c.Nodes[0].N.Dequeue(q, r.IntN(9) == 0)
		}
		core.Touch()
	}
	rep.Count("filled", int64(n))
}

// compare stops all nodes at the same point and compares what they hold
func compare(a *core.Args, rep *core.Report, ci int, c *sim.Cluster, T int64, done int64) {
	// stop at the same point
	var nodes []*sim.Node
	for _, n := range c.Nodes {
		if n.IsUp() {
			nodes = append(nodes, n)
			n.Detach()
		}
	}
	var index []uint64
	for _, n := range nodes {
		n.N.Raft.Shutdown().Error()
		index = append(index, n.N.Raft.AppliedIndex())
	}
	for _, i := range index {
		if i != index[0] {
			rep.Inconc("case %d: the nodes stopped at different points %v", ci, index)
			return
		}
	}
	var digests [][]string
	var msgs, unacked int64
	for _, n := range nodes {
		d, m, u := digest(n, T)
		digests = append(digests, d)
		msgs, unacked = m, u
	}
	rep.Count("compared-messages", msgs)
	rep.Count("compared-unacked", unacked)
	rep.Count("operations", done)
	rep.Count("installed-snapshots", c.Net.Snapshots)
	rep.Count("rpcs", c.Net.RPCs)
	rep.Done(msgs >= 5, strings.Join(digests[0], "\n"), func() any {
		return map[string]any{"case": ci, "faults": head(c.Tr, 30), "state": head(digests[0], 30)}
	})
	for i, d := range digests[1:] {
		if s := diff(digests[0], d); s != "" {
			c.Note("state of %s:", nodes[0].ID)
			for _, l := range head(digests[0], 120) {
				c.Note("   %s", l)
			}
			c.Note("state of %s:", nodes[i+1].ID)
			for _, l := range head(d, 120) {
				c.Note("   %s", l)
			}
			verdict(a, rep, ci, c, conc.Finding{Kind: "divergence", Msg: fmt.Sprintf("%s and %s differ: %s", nodes[0].ID, nodes[i+1].ID, s)}, nil)
			return
		}
	}
}

func diff(a, b []string) string {
	for i := 0; i < len(a) || i < len(b); i++ {
		x, y := "(end)", "(end)"
		if i < len(a) {
			x = a[i]
		}
		if i < len(b) {
			y = b[i]
		}
		if x != y {
			return x + " / " + y
		}
	}
	return ""
}

// digest reads everything that a node holds, and thereby empties it
func digest(n *sim.Node, T int64) (out []string, msgs, unacked int64) {
	now := time.Now()
	far := now.Add(100 * 365 * 24 * time.Hour)
	infos := n.N.QueueManager.GetQueues()
	for _, i := range infos {
		out = append(out, fmt.Sprintf("queue %q %s ready %d unacked %d total %d", i.Name, i.Type, i.Ready, i.Unacked, i.Total))
		msgs += i.Total
		unacked += i.Unacked
	}
	for _, i := range infos {
		q, err := n.N.QueueManager.GetQueue(i.Name)
		if err != nil {
			out = append(out, err.Error())
			continue
		}
		drain := func(when string, at time.Time) {
			for {
				m, err := q.DequeueAt(true, at)
				if err != nil {
					return
				}
				out = append(out, fmt.Sprintf("%s %q: %d group %q priority %d content %d %08x %.60q", when, i.Name, m.ID, m.Group, m.Priority, len(m.Content), crc32.ChecksumIEEE([]byte(m.Content)), m.Content))
			}
		}
		drain("now", now)
		drain("later", far)
		base := now.Unix()
		for s := int64(-2); s <= T+3; s++ {
			q.RequeueExpired(time.Unix(base+s, 0))
			drain(fmt.Sprintf("timeout %d", base+s), far)
		}
		s := q.GetStats()
		out = append(out, fmt.Sprintf("rest %q: %d %d", i.Name, s.Ready, s.Unacked))
	}
	return
}
