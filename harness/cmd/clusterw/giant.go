package main

import (
	"container/heap"
	"errors"
	"fmt"
	"math/rand/v2"
	"slices"
	"strings"
	"time"

	"doqverif/core"
	"doqverif/seq"
	"doqverif/sim"

	hraft "github.com/hashicorp/raft"
)

// giantKinds are the findings that break a property
var giantKinds = map[string][]string{
	"C01": {seq.KOrder, seq.KNotDue},
	"C03": {seq.KFairOrder, seq.KFairEmpty, seq.KFairTwice},
	"C04": {seq.KLost, seq.KInvented, seq.KContent, seq.KGroup, seq.KEnqueue, seq.KDouble, seq.KGoneBack, seq.KPrio},
	"C06": {seq.KStats, seq.KDouble, seq.KLost},
	"C09": {seq.KList, seq.KInvented, seq.KContent, seq.KLost},
	"C10": {seq.KLife, seq.KList},
	"C11": {seq.KLost, seq.KInvented, seq.KContent, seq.KGroup, seq.KDouble, seq.KGoneBack, seq.KPrio, seq.KStats, seq.KLife, seq.KList, seq.KOrder, seq.KFairOrder, seq.KFairTwice, seq.KAck, seq.KNack},
	"C19": {seq.KStats, seq.KList},
}

// gm is a message of a giant queue
type gm struct {
	id      uint64
	group   string
	prio    int64
	content string
	state   byte // r(eady) u(nacked) g(one)
	pos     int
}

// gheap is a group of a giant queue
type gheap struct {
	items []*gm
	since int // when it became non-empty
	last  int // when it was served
}

func (h *gheap) Len() int { return len(h.items) }
func (h *gheap) Less(i, j int) bool {
	a, b := h.items[i], h.items[j]
	return a.prio < b.prio || a.prio == b.prio && a.id < b.id
}
func (h *gheap) Swap(i, j int) {
	h.items[i], h.items[j] = h.items[j], h.items[i]
	h.items[i].pos, h.items[j].pos = i, j
}
func (h *gheap) Push(x any) { m := x.(*gm); m.pos = len(h.items); h.items = append(h.items, m) }
func (h *gheap) Pop() any {
	m := h.items[len(h.items)-1]
	h.items = h.items[:len(h.items)-1]
	return m
}

// gqueue is the model of a giant queue
type gqueue struct {
	name   string
	fair   bool
	msgs   map[uint64]*gm
	order  []*gm
	groups map[string]*gheap
	ready  int
	out    int
	clock  int
	bad    func(kind, format string, args ...any)
}

func (q *gqueue) group(m *gm) *gheap {
	g := ""
	if q.fair {
		g = m.group
	}
	if q.groups[g] == nil {
		q.groups[g] = &gheap{}
	}
	return q.groups[g]
}

func (q *gqueue) put(m *gm) {
	g := q.group(m)
	q.clock++
	if g.Len() == 0 {
		g.since, g.last = q.clock, 0
	}
	m.state = 'r'
	heap.Push(g, m)
	q.ready++
}

// took judges what was delivered
func (q *gqueue) took(d seq.Msg, ack bool) bool {
	q.clock++
	m := q.msgs[d.ID]
	if m == nil {
		q.bad(seq.KInvented, "message %d, which was never enqueued to %q, was delivered", d.ID, q.name)
		return false
	}
	switch {
	case m.state == 'u':
		q.bad(seq.KDouble, "message %d was delivered while it awaits acknowledgement", d.ID)
		return false
	case m.state == 'g':
		q.bad(seq.KGoneBack, "message %d was delivered after it was gone", d.ID)
		return false
	}
	want := m.group
	if !q.fair {
		want = "default"
	}
	if d.Content != m.content {
		q.bad(seq.KContent, "content of message %d altered: %.60q", d.ID, d.Content)
	}
	if d.Group != want {
		q.bad(seq.KGroup, "group of message %d altered: %q", d.ID, d.Group)
	}
	if d.Priority != m.prio {
		q.bad(seq.KPrio, "message %d was delivered with priority %d instead of %d", d.ID, d.Priority, m.prio)
	}
	g := q.group(m)
	if first := g.items[0]; first != m {
		kind := seq.KOrder
		if q.fair {
			kind = seq.KFairOrder
		}
		q.bad(kind, "message %d (priority %d) was delivered before %d (priority %d)", m.id, m.prio, first.id, first.prio)
	}
	if q.fair {
		for name, h := range q.groups {
			if h != g && h.Len() > 0 && g.last > 0 && h.since < g.last && h.last < g.last {
				q.bad(seq.KFairTwice, "group %q was served twice while %q was waiting", m.group, name)
				break
			}
		}
	}
	g.last = q.clock
	heap.Remove(g, m.pos)
	q.ready--
	if ack {
		m.state = 'g'
	} else {
		m.state = 'u'
		q.out++
	}
	return true
}

// giant: as many messages, groups and queues as no test has
func giant(a *core.Args, rep *core.Report) {
	rep.Rule = "a node with raft gets thousands of messages (up to megabytes of content, up to 1500 groups), most of them are taken, many acknowledged, returned, changed; it is restarted in one of several ways, all timeouts pass at once, and everything is taken again; or it gets hundreds of queues; a model of one queue judges each result; the queue is deleted and created again; non-trivial: at least 1000 messages or 200 queues"
	if a.Prop == "C09" {
		rep.Floor("giant-queues", 1500)
		rep.Floor("giant-deliveries", 4000)
	} else {
		rep.Floor("giant-messages", 20000)
		rep.Floor("giant-deliveries", 20000)
		rep.Floor("giant-returned-at-once", 4000)
	}
	core.Cases(a, pick(a, 24, 400), func(ci int) {
		align()
		r := core.Rand(a, "giant", ci)
		T, I := int64(60+r.IntN(60)), 1+int64(r.IntN(3))
		c := sim.NewCluster(r.Uint64(), T, I)
		defer c.Close()
		c.Form(1)
		b := &sim.Backend{C: c, N: c.Nodes[0], Rep: func(s string) { rep.Count("giant-"+s, 1) }}
		var kinds []string
		var found, msg string
		bad := func(kind, format string, args ...any) {
			c.Note(kind+": "+format, args...)
			kinds = append(kinds, kind)
			if found == "" && slices.Contains(giantKinds[a.Prop], kind) {
				found, msg = kind, fmt.Sprintf(format, args...)
			}
		}
		dead := ""
		func() {
			defer func() {
				if s, ok := recover().(giveUp); ok {
					dead = string(s)
				} else if !ok && s != "" {
					panic(s)
				}
			}()
			if ci%8 == 7 && a.Prop != "C01" && a.Prop != "C03" || a.Prop == "C09" {
				giantList(r, rep, c, b, bad)
			} else {
				giantQueue(a, r, rep, c, b, bad)
			}
		}()
		rep.Done(true, strings.Join(c.Tr, "\n"), func() any { return map[string]any{"case": ci, "steps": head(c.Tr, 40)} })
		switch {
		case found != "":
			rep.Violate(core.Violation{Case: ci, Kind: found, Msg: msg, Trace: head(c.Tr, 390)})
		case len(kinds) > 0:
			rep.Count("deviation-of-another-property", 1)
		case dead != "" && a.Prop == "C11" && b.Dead != "":
			rep.Violate(core.Violation{Case: ci, Kind: "dead", Msg: b.Dead, Trace: head(c.Tr, 390)})
		case dead != "":
			rep.Inconc("case %d: %s", ci, dead)
		}
	})
}

type giveUp string

// must gives the case up if an operation failed because of raft
func must(what string, err error) {
	if maybe(err) || errors.Is(err, hraft.ErrNotLeader) {
		panic(giveUp(what + ": " + err.Error()))
	}
}

func giantQueue(a *core.Args, r *rand.Rand, rep *core.Report, c *sim.Cluster, b *sim.Backend, bad func(kind, format string, args ...any)) {
	q := &gqueue{name: seq.Names(r, "hostile", 1)[0], msgs: map[uint64]*gm{}, groups: map[string]*gheap{}, bad: bad}
	typ := "delayed"
	switch {
	case a.Prop == "C03" || a.Prop != "C01" && r.IntN(2) == 0:
		typ, q.fair = "fair", true
	}
	N := []int{3000, 5000, 11000, 18000}[r.IntN(4)] + r.IntN(2000)
	G := []int{1, 2, 7, 100, 1500}[r.IntN(5)]
	spread := []int64{1, 5, 1000, 900000000}[r.IntN(4)]
	large := r.IntN(2) == 0
	must("create", b.Create(typ, q.name))
	c.Note("%s queue %q, %d messages, %d groups, %d priorities, timeout %d s, interval %d s", typ, q.name, N, G, spread, c.T, c.I)
	enqueue := func(i int) {
		m := &gm{group: fmt.Sprint("g", r.IntN(G)), prio: r.Int64N(spread) - spread/3, content: fmt.Sprint("content-", i)}
		switch {
		case i%1000 == 500 && large:
			m.content += strings.Repeat("L", 500000+r.IntN(300000))
		case i%60 == 30:
			m.content += strings.Repeat("l", 1000+r.IntN(70000))
		}
		got, err := b.Enqueue(q.name, m.group, m.prio, m.content, 0)
		if err != nil {
			must("enqueue", err)
			bad(seq.KEnqueue, "enqueue failed: %v", err)
			panic(giveUp("enqueue"))
		}
		m.id = got.ID
		if q.msgs[m.id] != nil {
			bad(seq.KIDs, "id %d was given twice", m.id)
			panic(giveUp("ids"))
		}
		q.msgs[m.id] = m
		q.order = append(q.order, m)
		q.put(m)
		core.Touch()
	}
	info := func(when string) {
		i, err := b.Info(q.name)
		must("info", err)
		if err != nil {
			bad(seq.KLife, "%s: info: %v", when, err)
			return
		}
		if i.Ready != int64(q.ready) || i.Unacked != int64(q.out) || i.Total != int64(q.ready+q.out) {
			bad(seq.KStats, "%s: %d ready, %d unacknowledged and %d in all are reported instead of %d, %d and %d", when, i.Ready, i.Unacked, i.Total, q.ready, q.out, q.ready+q.out)
		}
	}
	take := func(ack bool) *gm {
		d, err := b.Dequeue(q.name, ack)
		core.Touch()
		if err != nil {
			must("dequeue", err)
			if q.ready > 0 {
				kind := seq.KNotDue
				if q.fair {
					kind = seq.KFairEmpty
				}
				bad(kind, "the queue was reported empty with %d messages ready: %v", q.ready, err)
				bad(seq.KLost, "%d messages are not delivered", q.ready)
			}
			return nil
		}
		rep.Count("giant-deliveries", 1)
		if !q.took(d, ack) {
			panic(giveUp("the model does not apply any more"))
		}
		return q.msgs[d.ID]
	}
	for i := 0; i < N; i++ {
		enqueue(i)
	}
	rep.Count("giant-messages", int64(N))
	info("after all were enqueued")
	leased := time.Now()
	var held []*gm
	for i, k := 0, N/3+r.IntN(2*N/3); i < k; i++ {
		m := take(false)
		if m == nil {
			return
		}
		held = append(held, m)
	}
	c.Note("%d were taken", len(held))
	info("after most were taken")
	r.Shuffle(len(held), func(i, j int) { held[i], held[j] = held[j], held[i] })
	for i, m := range held {
		var err error
		switch {
		case i%5 == 0:
			if err = b.Ack(q.name, m.id); err == nil {
				m.state = 'g'
				q.out--
			} else {
				must("ack", err)
				bad(seq.KAck, "ack of message %d failed: %v", m.id, err)
			}
		case i%11 == 1:
			if err = b.Nack(q.name, m.id); err == nil {
				q.out--
				q.put(m)
			} else {
				must("nack", err)
				bad(seq.KNack, "nack of message %d failed: %v", m.id, err)
			}
		case i%13 == 2:
			p := r.Int64N(spread)
			if err = b.UpdatePriority(q.name, m.id, p); err == nil {
				m.prio = p
			} else {
				must("update", err)
				bad(seq.KUpdate, "changing the priority of message %d failed: %v", m.id, err)
			}
		}
		core.Touch()
	}
	for i := 0; i < N/20; i++ {
		m := q.order[r.IntN(len(q.order))]
		if m.state != 'r' {
			continue
		}
		p := r.Int64N(spread) - 5
		if err := b.UpdatePriority(q.name, m.id, p); err != nil {
			must("update", err)
			bad(seq.KUpdate, "changing the priority of message %d failed: %v", m.id, err)
			continue
		}
		g := q.group(m)
		m.prio = p
		if q.fair && g.Len() == 1 {
			// whether the group keeps its turn is left open
			q.clock++
			g.since, g.last = q.clock, 0
		}
		heap.Fix(g, m.pos)
	}
	info("after acknowledgements")
	kind := r.IntN(4) // crash, snapshot and crash, stop, snapshot and stop
	if r.IntN(2) == 0 {
		kind &= 1
	}
	if kind&1 == 1 && r.IntN(4) > 0 {
		b.N.SetTrailing(0)
		if err := b.N.Snapshot(); err != nil {
			panic(fmt.Sprintf("harness: snapshot: %v", err))
		}
		kind &^= 1
	}
	what, _ := b.Restart(kind)
	c.Note("restart: %s", what)
	if b.Dead != "" {
		panic(giveUp(b.Dead))
	}
	if time.Since(leased) < time.Duration(c.T-1)*time.Second {
		info("after the restart")
		rep.Count("giant-restarted-with-leases", 1)
	}
	// half of the time some are taken before the timeouts pass
	if r.IntN(2) == 0 && time.Since(leased) < time.Duration(c.T-1)*time.Second {
		for i := 0; i < 500 && q.ready > 0; i++ {
			if take(true) == nil {
				return
			}
		}
	}
	time.Sleep(time.Duration(c.T+c.I+1)*time.Second + 100*time.Millisecond)
	back := 0
	// the order in which they come back is that of timeouts, and then of ids
	for _, m := range q.order {
		if m.state == 'u' {
			q.out--
			q.put(m)
			back++
		}
	}
	c.Note("%d come back", back)
	rep.Count("giant-returned-at-once", int64(back))
	// the rotation may begin anew with groups that came back at the same time
	for _, g := range q.groups {
		if q.fair {
			g.since, g.last = q.clock, 0
		}
	}
	info("after all timeouts")
	if len(q.order)%3 == 0 || a.Prop == "C10" {
		// gone at once
		for i := r.IntN(100); i > 0 && take(i%2 == 0) != nil; i-- {
		}
		if err := b.Delete(q.name); err != nil {
			must("delete", err)
			bad(seq.KLife, "the queue cannot be deleted: %v", err)
			return
		}
		if r.IntN(2) == 0 {
			what, _ := b.Restart(r.IntN(4))
			c.Note("deleted, restart: %s", what)
			if b.Dead != "" {
				panic(giveUp(b.Dead))
			}
		}
		if l, _ := b.List(); len(l) != 0 {
			bad(seq.KLife, "the deleted queue is still there: %v", l)
		}
		must("create", b.Create(typ, q.name))
		for i := 0; i < 2; i++ {
			if d, err := b.Dequeue(q.name, true); err == nil {
				bad(seq.KLife, "the new queue delivered message %d of the deleted one", d.ID)
				return
			}
			if i == 0 {
				what, _ := b.Restart(r.IntN(4))
				c.Note("created again, restart: %s", what)
				if b.Dead != "" {
					panic(giveUp(b.Dead))
				}
			}
		}
		q.msgs, q.order, q.groups, q.ready, q.out = map[uint64]*gm{}, nil, map[string]*gheap{}, 0, 0
		info("after it was created again")
		for i := 0; i < 300; i++ {
			enqueue(i)
		}
		rep.Count("giant-deleted", 1)
	}
	for q.ready > 0 {
		if take(true) == nil {
			return
		}
	}
	if d, err := b.Dequeue(q.name, true); err == nil {
		q.took(d, true)
	}
	info("in the end")
}

func giantList(r *rand.Rand, rep *core.Report, c *sim.Cluster, b *sim.Backend, bad func(kind, format string, args ...any)) {
	M := 200 + r.IntN(1000)
	type lq struct {
		typ     string
		content map[string]bool
	}
	queues := map[string]*lq{}
	var names []string
	style := r.IntN(3)
	for i := 0; i < M; i++ {
		name := []string{fmt.Sprint("queue-", i), strings.Repeat("q", i%200+1) + fmt.Sprint(":", i/200), fmt.Sprintf("%x/%d", i, i%7)}[style]
		typ := []string{"delayed", "fair"}[r.IntN(2)]
		if err := b.Create(typ, name); err != nil {
			must("create", err)
			bad(seq.KLife, "queue %q cannot be created: %v", name, err)
			return
		}
		x := &lq{typ, map[string]bool{}}
		queues[name] = x
		names = append(names, name)
		for k := r.IntN(4); k > 0; k-- {
			content := fmt.Sprintf("%s/%d", name, k)
			if _, err := b.Enqueue(name, fmt.Sprint(k%2), int64(k), content, 0); err != nil {
				must("enqueue", err)
				bad(seq.KEnqueue, "enqueue failed: %v", err)
				return
			}
			x.content[content] = true
		}
		core.Touch()
	}
	c.Note("%d queues", M)
	rep.Count("giant-queues", int64(M))
	list := func(when string) {
		l, err := b.List()
		if err != nil {
			bad(seq.KList, "%s: %v", when, err)
			return
		}
		seen := map[string]bool{}
		for _, i := range l {
			x := queues[i.Name]
			switch {
			case x == nil:
				bad(seq.KList, "%s: queue %q is listed and does not exist", when, i.Name)
			case seen[i.Name]:
				bad(seq.KList, "%s: queue %q is listed twice", when, i.Name)
			case i.Type != x.typ || i.Total != int64(len(x.content)) || i.Ready != i.Total:
				bad(seq.KList, "%s: queue %q is listed as %s with %d/%d messages, it is %s with %d", when, i.Name, i.Type, i.Ready, i.Total, x.typ, len(x.content))
			}
			seen[i.Name] = true
		}
		if len(seen) < len(queues) {
			for n := range queues {
				if !seen[n] {
					bad(seq.KList, "%s: %d of %d queues are listed, %q is missing", when, len(seen), len(queues), n)
					return
				}
			}
		}
	}
	list("after the creation")
	restart := func() {
		what, _ := b.Restart(r.IntN(4))
		c.Note("restart: %s", what)
		if b.Dead != "" {
			panic(giveUp(b.Dead))
		}
	}
	restart()
	list("after the restart")
	r.Shuffle(M, func(i, j int) { names[i], names[j] = names[j], names[i] })
	for _, n := range names[:M/2] {
		if err := b.Delete(n); err != nil {
			must("delete", err)
			bad(seq.KLife, "queue %q cannot be deleted: %v", n, err)
		}
		delete(queues, n)
		core.Touch()
	}
	list("after deletions")
	restart()
	list("after deletions and a restart")
	for _, n := range names {
		x := queues[n]
		if x == nil {
			if r.IntN(10) == 0 {
				if _, err := b.Dequeue(n, true); err == nil {
					bad(seq.KLife, "the deleted queue %q delivers", n)
				}
			}
			continue
		}
		for {
			d, err := b.Dequeue(n, true)
			core.Touch()
			if err != nil {
				must("dequeue", err)
				break
			}
			if !x.content[d.Content] {
				bad(seq.KInvented, "queue %q delivered %.60q", n, d.Content)
				return
			}
			delete(x.content, d.Content)
			rep.Count("giant-deliveries", 1)
		}
		if len(x.content) > 0 {
			bad(seq.KLost, "queue %q lost %d messages", n, len(x.content))
			return
		}
	}
	list("in the end")
}
