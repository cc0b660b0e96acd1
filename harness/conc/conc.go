// Package conc records histories of concurrent clients and checks them offline.
package conc

import (
	"fmt"
	"hash/fnv"
	"sort"
	"strings"
	"sync"
	"sync/atomic"
	"time"

	"doqverif/core"
	"doqverif/seq"
	"github.com/anishathalye/porcupine"
)

// Op is one recorded operation, at the boundary of the client.
type Op struct {
	Client   int
	Kind     string // enqueue dequeue ack nack update
	Queue    string
	ID       uint64
	Group    string
	Prio     int64
	Content  string
	Ack      bool // of a dequeue
	Contents []string
	OK       bool
	Unknown  bool // the operation may or may not have taken effect, at any later time
	Err      string
	Call     int64 // logical times
	Ret      int64
	VCall    time.Time // virtual times
	VRet     time.Time
}

func (o *Op) String() string {
	res := "ok"
	if !o.OK {
		res = "failed: " + o.Err
	}
	if o.Unknown {
		res = "unknown: " + o.Err
	}
	return fmt.Sprintf("client %d [%d,%d] %s..%s %s %q id=%d group=%q prio=%d ack=%v %s",
		o.Client, o.Call, o.Ret, o.VCall.Format("04:05.000"), o.VRet.Format("04:05.000"), o.Kind, o.Queue, o.ID, o.Group, o.Prio, o.Ack, res)
}

// History is a recorded history.
type History struct {
	mu    sync.Mutex
	clock atomic.Int64
	Ops   []*Op
	T, I  int64
	Slack time.Duration
	Types map[string]string
	// Maybe tells from an error if the operation may have taken effect
	Maybe func(err error) bool
}

// Begin records the call of an operation.
func (h *History) Begin(client int, kind, queue string) *Op {
	core.Touch()
	return &Op{Client: client, Kind: kind, Queue: queue, Call: h.clock.Add(1), VCall: time.Now()}
}

// End records its return.
func (h *History) End(o *Op, err error) {
	o.VRet = time.Now()
	o.Ret = h.clock.Add(1)
	o.OK = err == nil
	if err != nil {
		o.Err = err.Error()
		if h.Maybe != nil && h.Maybe(err) {
			o.Unknown = true
		}
		if o.Kind == "enqueue" {
			o.ID = 0
		}
	}
	h.mu.Lock()
	h.Ops = append(h.Ops, o)
	h.mu.Unlock()
}

func (h *History) Enqueue(b seq.Backend, client int, q, group string, prio int64, content string, id uint64) *Op {
	o := h.Begin(client, "enqueue", q)
	o.Group, o.Prio, o.Content = group, prio, content
	m, err := b.Enqueue(q, group, prio, content, id)
	o.ID = m.ID
	if err == nil && (m.Content != content || m.Priority != prio) {
		o.Err = fmt.Sprintf("altered: %+v", m)
	}
	h.End(o, err)
	return o
}

func (h *History) Dequeue(b seq.Backend, client int, q string, ack bool) *Op {
	o := h.Begin(client, "dequeue", q)
	o.Ack = ack
	m, err := b.Dequeue(q, ack)
	o.ID, o.Group, o.Prio, o.Content = m.ID, m.Group, m.Priority, m.Content
	h.End(o, err)
	return o
}

func (h *History) AckNack(b seq.Backend, client int, kind, q string, id uint64) *Op {
	o := h.Begin(client, kind, q)
	o.ID = id
	var err error
	if kind == "ack" {
		err = b.Ack(q, id)
	} else {
		err = b.Nack(q, id)
	}
	h.End(o, err)
	return o
}

func (h *History) Update(b seq.Backend, client int, q string, id uint64, prio int64) *Op {
	o := h.Begin(client, "update", q)
	o.ID, o.Prio = id, prio
	err := b.UpdatePriority(q, id, prio)
	h.End(o, err)
	return o
}

// Now returns the current logical time.
func (h *History) Now() int64 { return h.clock.Add(1) }

// Forget makes of the operations since a logical time what they are for a node
// that was killed then and restarted: those that were called later did not take
// place, those that were under way may have, with the result that was given.
func (h *History) Forget(begin, end int64) (unknown, dropped int) {
	var ops []*Op
	for _, o := range h.Ops {
		switch {
		case o.Ret < begin:
		case o.Call > end || o.Kind == "dequeue" && !o.OK:
			dropped++
			continue
		case !o.OK:
			dropped++
			continue
		default:
			o.OK, o.Unknown, o.Err = false, true, "under way"
			unknown++
		}
		ops = append(ops, o)
	}
	h.Ops = ops
	return
}

// Finding is a refutation found in a history.
type Finding struct {
	Kind, Msg string
	Ops       []*Op
}

type msgHist struct {
	enq        *Op
	deliveries []*Op
	acks       []*Op
	nacks      []*Op
	updates    []*Op
}

// Check checks the axioms of queues on a history without unknown operations.
func (h *History) Check() (out []Finding, n map[string]int64) {
	n = map[string]int64{}
	sort.Slice(h.Ops, func(i, j int) bool { return h.Ops[i].Call < h.Ops[j].Call })
	type key struct {
		q  string
		id uint64
	}
	msgs := map[key]*msgHist{}
	bad := func(kind string, ops []*Op, format string, args ...any) {
		if len(out) < 20 {
			out = append(out, Finding{kind, fmt.Sprintf(format, args...), ops})
		}
	}
	h.resolve(bad)
	unknownDeq := map[string][]*Op{}
	for _, o := range h.Ops {
		if o.Unknown {
			n["unknown"]++
			if o.Kind == "dequeue" {
				unknownDeq[o.Queue] = append(unknownDeq[o.Queue], o)
			}
		}
	}
	for _, o := range h.Ops {
		if o.Kind == "enqueue" && (o.OK || o.Unknown && o.ID != 0) {
			k := key{o.Queue, o.ID}
			if msgs[k] != nil {
				bad(seq.KIDs, []*Op{msgs[k].enq, o}, "id %d was given out twice", o.ID)
			}
			if o.Err != "" && !o.Unknown {
				bad(seq.KEnqueue, []*Op{o}, "result of an enqueue: %s", o.Err)
			}
			msgs[k] = &msgHist{enq: o}
			n["enqueues"]++
		}
	}
	for _, o := range h.Ops {
		m := msgs[key{o.Queue, o.ID}]
		switch o.Kind {
		case "dequeue":
			if !o.OK {
				n["empty"]++
				continue
			}
			n["deliveries"]++
			if m == nil {
				bad(seq.KInvented, []*Op{o}, "delivered %d was never enqueued to %q", o.ID, o.Queue)
				continue
			}
			if m.enq.Call > o.Ret {
				bad(seq.KInvented, []*Op{m.enq, o}, "delivered before it was enqueued")
			}
			if o.Content != m.enq.Content {
				bad(seq.KContent, []*Op{m.enq, o}, "content altered: %.80q", o.Content)
			}
			want := m.enq.Group
			if h.Types[o.Queue] != "fair" {
				want = "default"
			}
			if o.Group != want {
				bad(seq.KGroup, []*Op{m.enq, o}, "group altered: %q", o.Group)
			}
			m.deliveries = append(m.deliveries, o)
		case "ack":
			if m != nil {
				m.acks = append(m.acks, o)
			} else if o.OK {
				bad(seq.KAck, []*Op{o}, "ack of an unknown message succeeded")
			}
		case "nack":
			if m != nil {
				m.nacks = append(m.nacks, o)
			} else if o.OK {
				bad(seq.KNack, []*Op{o}, "nack of an unknown message succeeded")
			}
		case "update":
			if m != nil {
				m.updates = append(m.updates, o)
			} else if o.OK {
				bad(seq.KUpdate, []*Op{o}, "priority change of an unknown message succeeded")
			}
		}
	}
	minLease := time.Duration(h.T-1) * time.Second
	for _, m := range msgs {
		sort.Slice(m.deliveries, func(i, j int) bool { return m.deliveries[i].Ret < m.deliveries[j].Ret })
		all := func() []*Op {
			ops := []*Op{m.enq}
			ops = append(ops, m.deliveries...)
			ops = append(ops, m.acks...)
			ops = append(ops, m.nacks...)
			ops = append(ops, m.updates...)
			sort.Slice(ops, func(i, j int) bool { return ops[i].Call < ops[j].Call })
			return ops
		}
		var ends []*Op // what ended the message for good
		ok := 0
		for _, a := range m.acks {
			if a.OK {
				ends = append(ends, a)
				ok++
				n["acks"]++
			} else if !a.Unknown {
				n["refused-acks"]++
			}
		}
		var unknownMine []*Op
		for _, x := range unknownDeq[m.enq.Queue] {
			if x.ID == 0 || x.ID == m.enq.ID {
				unknownMine = append(unknownMine, x)
			}
		}
		leases := len(unknownMine)
		for _, d := range m.deliveries {
			if d.Ack {
				ends = append(ends, d)
			} else {
				leases++
			}
		}
		// nacks that took place, or may have
		var nacks, unknown []*Op
		for _, a := range m.nacks {
			if a.OK {
				nacks = append(nacks, a)
				ok++
				n["nacks"]++
			} else if a.Unknown {
				nacks = append(nacks, a)
			}
		}
		for _, a := range m.acks {
			if a.Unknown {
				unknown = append(unknown, a)
			}
		}
		unknown = append(unknown, unknownMine...)
		if len(ends) > 1 {
			bad(seq.KGoneBack, all(), "message %d was acknowledged or taken %d times", m.enq.ID, len(ends))
		}
		if ok > leases {
			bad(seq.KAck, all(), "message %d: %d acks and nacks succeeded for %d hand-outs", m.enq.ID, ok, leases)
		}
		for _, e := range ends {
			for _, d := range m.deliveries {
				if d != e && d.Call > e.Ret {
					bad(seq.KGoneBack, all(), "message %d was delivered after it was gone", m.enq.ID)
				}
			}
			for _, a := range append(append([]*Op{}, nacks...), m.updates...) {
				if a.OK && a.Call > e.Ret {
					bad(seq.KNack, all(), "%s of message %d succeeded after it was gone", a.Kind, m.enq.ID)
				}
			}
		}
		for i := 1; i < len(m.deliveries); i++ {
			a, b := m.deliveries[i-1], m.deliveries[i]
			if a.Ack {
				continue // reported above
			}
			// when they overlap, either may be the first
			call, vcall := min(a.Call, b.Call), a.VCall
			if b.VCall.Before(vcall) {
				vcall = b.VCall
			}
			released := !b.VRet.Before(vcall.Add(minLease))
			if released {
				n["redelivered-after-timeout"]++
			}
			for _, x := range nacks {
				if x.Call < b.Ret && (x.Unknown || x.Ret > call) {
					released = true
					n["redelivered-after-nack"]++
				}
			}
			if !released {
				bad(seq.KDouble, all(), "message %d was handed out twice within its timeout of %d s", m.enq.ID, h.T)
			}
		}
		// the priority is the one of the last change
		writes := append([]*Op{m.enq}, m.updates...)
		for _, d := range m.deliveries {
			if m.enq.Unknown {
				break
			}
			n["priorities"]++
			if !lastWrite(writes, d) {
				bad(seq.KPrio, all(), "message %d was delivered with priority %d", m.enq.ID, d.Prio)
			}
		}
		// the priority of what is in the queue can be changed
		for _, u := range m.updates {
			if u.OK || u.Unknown || m.enq.Unknown || m.enq.Ret > u.Call {
				continue
			}
			n["refused-updates"]++
			gone := false
			for _, x := range append(append([]*Op{}, ends...), unknown...) {
				gone = gone || x.Call < u.Ret
			}
			if !gone {
				bad(seq.KUpdate, all(), "changing the priority of message %d failed: %s", m.enq.ID, u.Err)
			}
		}
		// a holder can ack and nack
		for _, a := range append(append([]*Op{}, m.acks...), m.nacks...) {
			if a.OK || a.Unknown {
				continue
			}
			for _, d := range m.deliveries {
				if d.Ack || d.Ret > a.Call || !a.VRet.Before(d.VCall.Add(minLease)) {
					continue
				}
				disturbed := false
				for _, x := range append(append(append(append([]*Op{}, ends...), nacks...), m.deliveries...), unknown...) {
					if x != d && (x.Unknown || x.Ret > d.Call) && x.Call < a.Ret {
						disturbed = true
					}
				}
				if !disturbed {
					bad(a.Kind, all(), "%s of message %d by its holder failed", a.Kind, m.enq.ID)
				}
			}
		}
	}
	// what is ready all the time is not passed over
	type span struct {
		m        *msgHist
		from, to int64
		group    string
		prio     int64
	}
	const never = int64(1) << 62
	spans := map[string][]span{}
	for k, m := range msgs {
		if m.enq.Unknown {
			continue // its order is not known exactly
		}
		group := m.enq.Group
		add := func(from, to int64) {
			for _, v := range versions(m.enq, m.updates) {
				if f, t := max(from, v.from), min(to, v.to); f < t {
					spans[k.q] = append(spans[k.q], span{m, f, t, group, v.prio})
				}
			}
		}
		// from the enqueue to the first hand-out
		to := never
		for _, d := range m.deliveries {
			to = min(to, d.Call)
		}
		add(m.enq.Ret, to)
		// from a nack to the next hand-out
		for _, x := range m.nacks {
			if !x.OK {
				continue
			}
			for _, y := range m.nacks {
				if y.Unknown && y.Call < x.Ret {
					x = nil
					break
				}
			}
			if x == nil {
				continue
			}
			to, certain := never, true
			for _, d := range m.deliveries {
				if d.Call > x.Ret {
					to = min(to, d.Call)
				} else if d.Ret > x.Call {
					certain = false
				}
			}
			if certain {
				add(x.Ret, to)
			}
		}
	}
	for _, d := range h.Ops {
		if d.Kind != "dequeue" || d.Unknown {
			continue
		}
		fair := h.Types[d.Queue] == "fair"
		for _, s := range spans[d.Queue] {
			if s.from >= d.Call || s.to <= d.Ret {
				continue
			}
			taken := false
			for _, x := range unknownDeq[d.Queue] {
				taken = taken || x.Call < d.Ret && (x.ID == 0 || x.ID == s.m.enq.ID)
			}
			if taken {
				continue
			}
			if !d.OK {
				if fair || s.prio <= d.VCall.Unix() {
					kind := seq.KNotDue
					if fair {
						kind = seq.KFairEmpty
					}
					bad(kind, []*Op{s.m.enq, d}, "queue %q was reported empty while message %d was ready", d.Queue, s.m.enq.ID)
				}
				continue
			}
			o := msgs[key{d.Queue, d.ID}]
			if o == nil || o == s.m || o.enq.Unknown {
				continue
			}
			smaller := s.prio < d.Prio || s.prio == d.Prio && s.m.enq.ID < d.ID
			if smaller && !fair {
				bad(seq.KOrder, []*Op{s.m.enq, d}, "message %d (priority %d) was delivered while %d (priority %d) was ready", d.ID, d.Prio, s.m.enq.ID, s.prio)
			}
			if smaller && fair && s.group == d.Group {
				bad(seq.KFairOrder, []*Op{s.m.enq, d}, "message %d (priority %d) was delivered while %d (priority %d) of the same group was ready", d.ID, d.Prio, s.m.enq.ID, s.prio)
			}
			n["order-comparisons"]++
			if s.prio != s.m.enq.Prio || len(o.updates) > 0 {
				n["order-comparisons-after-updates"]++
			}
		}
	}
	return out, n
}

// lastWrite tells if a delivery may show the last of the writes of a priority.
func lastWrite(writes []*Op, d *Op) bool {
	for _, w := range writes {
		if !w.OK && !w.Unknown || w.Prio != d.Prio || w.Call > d.Ret {
			continue
		}
		over := false
		for _, x := range writes {
			over = over || !w.Unknown && x.OK && x.Call > w.Ret && x.Ret < d.Call
		}
		if !over {
			return true
		}
	}
	return false
}

type version struct {
	prio     int64
	from, to int64
}

// versions tells when a message certainly had which priority.
func versions(enq *Op, updates []*Op) (out []version) {
	const never = int64(1) << 62
	for _, w := range append([]*Op{enq}, updates...) {
		if !w.OK {
			continue
		}
		v := version{w.Prio, w.Ret, never}
		for _, x := range updates {
			switch {
			case x == w || !x.OK && !x.Unknown:
			case x.Unknown && x.Call < w.Ret:
				v.to = 0 // it may take place at any time
			case x.Call > w.Ret:
				v.to = min(v.to, x.Call)
			case x.Ret > w.Call:
				v.to = 0 // either may be the last
			}
		}
		if v.to > v.from {
			out = append(out, v)
		}
	}
	return
}

// resolve finds the ids of unknown enqueues from what was delivered.
func (h *History) resolve(bad func(kind string, ops []*Op, format string, args ...any)) {
	type ck struct{ q, content string }
	unknown := map[ck]*Op{}
	known := map[ck]*Op{}
	for _, o := range h.Ops {
		if o.Kind == "enqueue" {
			if o.Unknown {
				unknown[ck{o.Queue, o.Content}] = o
			} else if o.OK {
				known[ck{o.Queue, o.Content}] = o
			}
		}
	}
	for _, o := range h.Ops {
		if o.Kind != "dequeue" || !o.OK {
			continue
		}
		k := ck{o.Queue, o.Content}
		if e := unknown[k]; e != nil {
			if e.ID == 0 {
				e.ID = o.ID
			} else if e.ID != o.ID {
				bad(seq.KDouble, []*Op{e, o}, "one enqueue was executed twice, as messages %d and %d", e.ID, o.ID)
			}
		} else if e := known[k]; e != nil && e.ID != o.ID {
			bad(seq.KDouble, []*Op{e, o}, "one enqueue was executed twice, as messages %d and %d", e.ID, o.ID)
		}
	}
}

// Lost returns what must be in a queue in the end and was not delivered, although
// the queue was emptied.
func (h *History) Lost() map[string][]*Op {
	out := map[string][]*Op{}
	type key struct {
		q  string
		id uint64
	}
	gone := map[key]bool{}
	spare := map[string]int{}
	for _, o := range h.Ops {
		switch {
		case (o.OK || o.Unknown) && o.Kind == "ack":
			gone[key{o.Queue, o.ID}] = true
		case o.OK && o.Kind == "dequeue" && o.Ack:
			gone[key{o.Queue, o.ID}] = true
		case o.Unknown && o.Kind == "dequeue" && o.Ack && o.ID != 0:
			gone[key{o.Queue, o.ID}] = true
		case o.Unknown && o.Kind == "dequeue" && o.Ack:
			spare[o.Queue]++
		}
	}
	for _, o := range h.Ops {
		if o.Kind == "enqueue" && o.OK && !gone[key{o.Queue, o.ID}] {
			out[o.Queue] = append(out[o.Queue], o)
		}
	}
	for q, l := range out {
		if len(l) <= spare[q] {
			delete(out, q)
		}
	}
	return out
}

// Held returns what must be in the queues at the end of a history
func (h *History) Held() map[string]map[uint64]bool {
	held := map[string]map[uint64]bool{}
	for _, o := range h.Ops {
		if held[o.Queue] == nil {
			held[o.Queue] = map[uint64]bool{}
		}
		if o.Kind == "enqueue" && o.OK {
			held[o.Queue][o.ID] = true
		}
	}
	for _, o := range h.Ops {
		if o.OK && (o.Kind == "ack" || o.Kind == "dequeue" && o.Ack) {
			delete(held[o.Queue], o.ID)
		}
	}
	return held
}

type item struct {
	Content string
	ID      uint64 // 0 if unknown
	Group   string
	Prio    int64
	Leased  bool
}

// Final is a pseudo-operation: the queue holds exactly the given contents.
func (h *History) Final(queue string, contents map[string]bool) {
	o := h.Begin(1000, "final", queue)
	for c := range contents {
		o.Contents = append(o.Contents, c)
	}
	sort.Strings(o.Contents)
	h.End(o, nil)
}

func enc(items []item) string {
	var sb strings.Builder
	for _, it := range items {
		fmt.Fprintf(&sb, "%s|%d|%s|%d|%v;", it.Content, it.ID, it.Group, it.Prio, it.Leased)
	}
	return sb.String()
}

// put returns items with it added or replaced, sorted by content
func put(items []item, it item) []item {
	out := make([]item, 0, len(items)+1)
	done := false
	for _, x := range items {
		if x.Content == it.Content {
			out = append(out, it)
			done = true
			continue
		}
		if !done && x.Content > it.Content {
			out = append(out, it)
			done = true
		}
		out = append(out, x)
	}
	if !done {
		out = append(out, it)
	}
	return out
}

func without(items []item, i int) []item {
	out := append([]item{}, items[:i]...)
	return append(out, items[i+1:]...)
}

// Linearizable checks a history against a sequential queue. There must be no
// timeouts and no due times in it. Operations with unknown results take effect
// once, at any time after their call, or never. Fair queues are only held to
// the order within groups.
func (h *History) Linearizable(limit time.Duration) (porcupine.CheckResult, int) {
	types := h.Types
	h.resolve(func(kind string, ops []*Op, format string, args ...any) {})
	// first reports whether items[i] may be the next one to be delivered
	first := func(items []item, i int, fair bool) bool {
		if items[i].Leased {
			return false
		}
		for _, it := range items {
			if it.Leased || fair && it.Group != items[i].Group {
				continue
			}
			if it.Prio < items[i].Prio || it.Prio == items[i].Prio && it.ID != 0 && items[i].ID != 0 && it.ID < items[i].ID {
				return false
			}
		}
		return true
	}
	model := porcupine.NondeterministicModel{
		Partition: func(ops []porcupine.Operation) [][]porcupine.Operation {
			by := map[string][]porcupine.Operation{}
			for _, o := range ops {
				q := o.Input.(*Op).Queue
				by[q] = append(by[q], o)
			}
			names := []string{}
			for q := range by {
				names = append(names, q)
			}
			sort.Strings(names)
			out := [][]porcupine.Operation{}
			for _, q := range names {
				out = append(out, by[q])
			}
			return out
		},
		Init:  func() []any { return []any{[]item{}} },
		Equal: func(a, b any) bool { return enc(a.([]item)) == enc(b.([]item)) },
		Hash: func(a any) uint64 {
			f := fnv.New64a()
			f.Write([]byte(enc(a.([]item))))
			return f.Sum64()
		},
		Step: func(st, in, out any) []any {
			o := in.(*Op)
			items := st.([]item)
			find := func() int {
				for i, it := range items {
					if it.ID == o.ID && o.ID != 0 {
						return i
					}
				}
				return -1
			}
			fair := types[o.Queue] == "fair"
			same := []any{st}
			switch o.Kind {
			case "enqueue":
				if !o.OK && !o.Unknown {
					return same
				}
				g := o.Group
				if !fair {
					g = "default"
				}
				next := put(items, item{o.Content, o.ID, g, o.Prio, false})
				if o.Unknown {
					return []any{st, next}
				}
				return []any{next}
			case "dequeue":
				take := func(i int) []item {
					if o.Ack {
						return without(items, i)
					}
					it := items[i]
					it.Leased = true
					return put(items, it)
				}
				if o.Unknown {
					res := same
					for i := range items {
						if first(items, i, fair) {
							res = append(res, take(i))
						}
					}
					return res
				}
				if !o.OK {
					for _, it := range items {
						if !it.Leased {
							return nil
						}
					}
					return same
				}
				i := find()
				if i < 0 || !first(items, i, fair) || items[i].Prio != o.Prio || items[i].Content != o.Content || items[i].Group != o.Group {
					return nil
				}
				return []any{take(i)}
			case "ack", "nack":
				i := find()
				can := i >= 0 && items[i].Leased
				if !o.Unknown && can != o.OK {
					return nil
				}
				if !can {
					return same
				}
				var next []item
				if o.Kind == "ack" {
					next = without(items, i)
				} else {
					it := items[i]
					it.Leased = false
					next = put(items, it)
				}
				if o.Unknown {
					return []any{st, next}
				}
				return []any{next}
			case "update":
				i := find()
				if !o.Unknown && (i >= 0) != o.OK {
					return nil
				}
				if i < 0 {
					return same
				}
				it := items[i]
				it.Prio = o.Prio
				next := put(items, it)
				if o.Unknown {
					return []any{st, next}
				}
				return []any{next}
			case "final":
				if len(o.Contents) != len(items) {
					return nil
				}
				for i, it := range items {
					if it.Content != o.Contents[i] {
						return nil
					}
				}
				return same
			}
			return same
		},
	}
	var ops []porcupine.Operation
	for _, o := range h.Ops {
		ret := o.Ret
		if o.Unknown {
			ret = 1 << 60
		}
		ops = append(ops, porcupine.Operation{ClientId: o.Client, Input: o, Call: o.Call, Output: o, Return: ret})
	}
	return porcupine.CheckOperationsTimeout(model.ToModel(), ops, limit), len(ops)
}
