// Package seq drives a queue server with one operation at a time, in virtual
// time, and compares every result with an executable model of the documented
// behaviour. Where the documentation leaves room (acknowledgement timeouts are
// exact to a window), the model accepts whatever is observed in that window.
package seq

import (
	"fmt"
	"sort"
	"time"
)

// Msg is a message as reported by the server.
type Msg struct {
	ID       uint64
	Group    string
	Priority int64
	Content  string
}

// Info is what the server says about a queue.
type Info struct {
	Name, Type            string
	Ready, Unacked, Total int64
	RPS                   [4]float64
}

// Backend is the server under test.
type Backend interface {
	Create(typ, name string) error
	Delete(name string) error
	// Enqueue may use the given id or not
	Enqueue(q, group string, prio int64, content string, id uint64) (Msg, error)
	Dequeue(q string, ack bool) (Msg, error)
	Ack(q string, id uint64) error
	Nack(q string, id uint64) error
	UpdatePriority(q string, id uint64, prio int64) error
	Info(q string) (Info, error)
	List() ([]Info, error)
	// Restart restarts the server in one of several ways. It returns how
	// leases fare: true if they are kept.
	Restart(kind int) (string, bool)
	// ReturnsGroup tells if Enqueue returns the group of the stored message
	ReturnsGroup() bool
	// Slack is how much longer than documented timeouts may take
	Slack() time.Duration
	// NewIDs tells that the backend chooses the ids, in increasing order
	NewIDs() bool
}

// Kinds of deviations from the model.
const (
	KOrder      = "order"       // delayed queue: a smaller ready message was passed over
	KEarly      = "early"       // delivered before it was due
	KNotDue     = "not-due"     // delayed queue: reported empty although a ready message is due
	KFairTwice  = "fair-twice"  // a waiting group was passed over twice for the same group
	KFairOrder  = "fair-order"  // order in a group
	KFairEmpty  = "fair-empty"  // fair queue: reported empty although a message is ready
	KDouble     = "double"      // delivered while awaiting acknowledgement
	KGoneBack   = "gone-back"   // delivered after it was acknowledged
	KInvented   = "invented"    // delivered but never enqueued to this queue
	KContent    = "content"     // content altered
	KGroup      = "group"       // group altered
	KPrio       = "priority"    // not the current priority
	KAck        = "ack"         // result of an ack
	KNack       = "nack"        // result of a nack
	KUpdate     = "update"      // result of a priority change
	KEnqueue    = "enqueue"     // result of an enqueue
	KLost       = "lost"        // missing at the end
	KStats      = "stats"       // numbers of messages
	KList       = "list"        // list of queues
	KLife       = "lifecycle"   // result of an operation on an unknown queue, of create or delete
	KRate       = "rate"        // rates
	KIDs        = "ids"         // ids not increasing
	KRestart    = "restart"     // deviation caused by a restart
	TagUpdated  = "updated"     // involves a message whose priority was changed
	TagUpdLease = "upd-unacked" // its priority was changed while it was unacked
	TagNacked   = "nacked"
	TagTimedOut = "timed-out"
	TagRestart  = "restarted"
	TagReborn   = "reborn" // the queue was deleted and created again
	TagDue      = "due"    // involves due times
)

type state int

const (
	stReady state = iota
	stLeased
	stGone
)

type message struct {
	Msg
	st      state
	leaseLo time.Time // the lease began at or after
	leaseHi time.Time // the lease began at or before
	weak    bool      // may be ready already (restart that forgets leases)
	notYet  time.Time // may be unacked until then (restart)
	tags    map[string]bool
	wasDue  bool // its priority was a due time in the future at some time
}

func (m *message) tag(t string) { m.tags[t] = true }

type group struct {
	passed map[string]int
}

type qmodel struct {
	name, typ string
	msgs      map[uint64]*message
	waiting   map[string]*group
	reborn    bool
	restarted bool
	// times of successful operations, for rates: enqueue, dequeue, ack, nack
	ops     [4][]time.Time
	created time.Time
	lastID  uint64
}

// Model is the executable model.
type Model struct {
	T, I   int64
	queues map[string]*qmodel
	dead   map[string]bool // names of queues that were deleted
	slack  time.Duration
	// Window is the window of rates in seconds, 0 if they are not compared
	Window int
	totals map[string]*[4]int64

	// Deviate is called for every deviation.
	Deviate func(kind string, tags map[string]bool, format string, args ...any)

	// counters of what was observed
	N map[string]int64
}

// NewModel makes a model of an empty server.
func NewModel(T, I int64, slack time.Duration) *Model {
	return &Model{
		T: T, I: I, queues: map[string]*qmodel{}, dead: map[string]bool{}, slack: slack,
		N: map[string]int64{}, totals: map[string]*[4]int64{},
	}
}

type status int

const (
	ready status = iota
	leased
	maybe
	gone
)

// status returns what is known of a message between t0 and t1
func (md *Model) status(m *message, t0, t1 time.Time) status {
	switch m.st {
	case stReady:
		return ready
	case stGone:
		return gone
	}
	lo := m.leaseLo.Add(time.Duration(md.T-1) * time.Second)
	hi := m.leaseHi.Add(time.Duration(md.T+md.I+1)*time.Second + md.slack)
	if t0.After(hi) && t0.After(m.notYet) {
		return ready
	}
	if m.weak || !t1.Before(lo) {
		return maybe
	}
	return leased
}

// settle turns what is certain by now into state
func (md *Model) settle(q *qmodel, t0, t1 time.Time) {
	for _, m := range q.msgs {
		if m.st == stLeased && md.status(m, t0, t1) == ready {
			m.st = stReady
			m.tag(TagTimedOut)
			md.N["timeouts"]++
		}
	}
	if q.typ == "fair" {
		q.track()
	}
}

// track begins or ends to count how often waiting groups are passed over
func (q *qmodel) track() {
	has := map[string]bool{}
	for _, m := range q.msgs {
		if m.st == stReady {
			has[m.Group] = true
		}
	}
	for g := range has {
		if q.waiting[g] == nil {
			q.waiting[g] = &group{passed: map[string]int{}}
		}
	}
	for g := range q.waiting {
		if !has[g] {
			delete(q.waiting, g)
		}
	}
}

func less(a, b *message) bool {
	if a.Priority != b.Priority {
		return a.Priority < b.Priority
	}
	return a.ID < b.ID
}

func (md *Model) dev(kind string, q *qmodel, ms []*message, format string, args ...any) {
	tags := map[string]bool{}
	for _, m := range ms {
		for t := range m.tags {
			tags[t] = true
		}
		if m.wasDue {
			tags[TagDue] = true
		}
	}
	if q != nil {
		if q.reborn {
			tags[TagReborn] = true
		}
		if q.restarted {
			tags[TagRestart] = true
		}
	}
	md.Deviate(kind, tags, format, args...)
}

// Create

func (md *Model) create(typ, name string, err error) {
	q := md.queues[name]
	if err != nil {
		md.dev(KLife, q, nil, "create of queue %q failed: %v", name, err)
		return
	}
	if q != nil {
		md.N["creates-existing"]++
		return
	}
	q = &qmodel{
		name: name, typ: typ, msgs: map[uint64]*message{}, waiting: map[string]*group{},
		reborn: md.dead[name], created: time.Now(),
	}
	if q.reborn {
		md.N["recreated"]++
	}
	md.queues[name] = q
}

func (md *Model) delete(name string, err error) {
	q := md.queues[name]
	if q == nil {
		if err == nil {
			md.dev(KLife, nil, nil, "delete of unknown queue %q succeeded", name)
		}
		return
	}
	if err != nil {
		md.dev(KLife, q, nil, "delete of queue %q failed: %v", name, err)
		return
	}
	md.N["deletes"]++
	for _, m := range q.msgs {
		if m.st != stGone {
			md.N["deleted-messages"]++
		}
	}
	md.dead[name] = true
	delete(md.queues, name)
}

func (md *Model) unknown(op, name string, err error) {
	if err == nil {
		md.dev(KLife, nil, nil, "%s on unknown queue %q succeeded", op, name)
	}
	md.N["unknown-queue-ops"]++
}

func (md *Model) enqueue(name, grp string, prio int64, content string, res Msg, err error, b Backend, t0, t1 time.Time) {
	q := md.queues[name]
	if q == nil {
		md.unknown("enqueue", name, err)
		return
	}
	md.settle(q, t0, t1)
	if err != nil {
		md.dev(KEnqueue, q, nil, "enqueue to %q failed: %v", name, err)
		return
	}
	stored := grp
	if q.typ != "fair" {
		stored = "default"
	}
	if res.Priority != prio || res.Content != content {
		md.dev(KEnqueue, q, nil, "enqueue of (%d,%.40q) returned (%d,%.40q)", prio, content, res.Priority, res.Content)
	}
	if res.Group != stored && (b.ReturnsGroup() || res.Group != grp) {
		md.dev(KGroup, q, nil, "enqueue with group %q returned %q", grp, res.Group)
	}
	if old := q.msgs[res.ID]; old != nil {
		md.dev(KIDs, q, nil, "id %d was used before in queue %q", res.ID, name)
	}
	if b.NewIDs() && res.ID <= q.lastID {
		md.dev(KIDs, q, nil, "id %d is not greater than the previous one %d", res.ID, q.lastID)
	}
	q.lastID = res.ID
	m := &message{Msg: Msg{res.ID, stored, prio, content}, tags: map[string]bool{}, wasDue: prio > t0.Unix()}
	q.msgs[res.ID] = m
	md.count(q, 0, t1)
	md.N["enqueues"]++
	if q.typ == "fair" {
		q.track()
	}
}

func (md *Model) dequeue(name string, ack bool, res Msg, err error, t0, t1 time.Time) {
	q := md.queues[name]
	if q == nil {
		md.unknown("dequeue", name, err)
		return
	}
	md.settle(q, t0, t1)

	var certain []*message
	for _, m := range q.msgs {
		if m.st == stReady {
			certain = append(certain, m)
		}
	}
	sort.Slice(certain, func(i, j int) bool { return less(certain[i], certain[j]) })

	if err != nil {
		md.N["empty"]++
		if len(certain) > 0 {
			if q.typ == "fair" {
				md.dev(KFairEmpty, q, certain[:1], "fair queue %q: dequeue failed (%v) although message %s is ready", name, err, certain[0])
			} else if certain[0].Priority <= t0.Unix() {
				md.dev(KNotDue, q, certain[:1], "queue %q: dequeue failed (%v) at %d although message %s is ready and due", name, err, t0.Unix(), certain[0])
			} else {
				md.N["empty-not-due"]++
			}
		}
		return
	}

	m := q.msgs[res.ID]
	if m == nil {
		where := ""
		for _, o := range md.queues {
			if o.msgs[res.ID] != nil {
				where = fmt.Sprintf(" (it belongs to %q)", o.name)
			}
		}
		md.dev(KInvented, q, nil, "queue %q delivered message %d %.40q that it does not hold%s", name, res.ID, res.Content, where)
		return
	}
	if len(certain) >= 2 {
		md.N["choices"]++
	}
	md.N["deliveries"]++

	switch md.status(m, t0, t1) {
	case leased:
		md.dev(KDouble, q, []*message{m}, "queue %q delivered message %s again after %s, timeout %d s", name, m, t0.Sub(m.leaseHi), md.T)
	case gone:
		md.dev(KGoneBack, q, []*message{m}, "queue %q delivered message %s that is gone", name, m)
	case maybe:
		m.tag(TagTimedOut)
		md.N["timeouts"]++
	case ready:
		if m.tags[TagTimedOut] {
			md.N["redelivered-after-timeout"]++
		}
		if m.tags[TagNacked] {
			md.N["redelivered-after-nack"]++
		}
		if m.tags[TagUpdated] {
			md.N["delivered-updated"]++
		}
		if m.tags[TagUpdLease] {
			md.N["delivered-updated-while-unacked"]++
		}
		if m.tags[TagRestart] {
			md.N["delivered-after-restart"]++
		}
	}
	if res.Content != m.Content {
		md.dev(KContent, q, []*message{m}, "message %s was delivered with content %.60q", m, res.Content)
	}
	if res.Group != m.Group {
		md.dev(KGroup, q, []*message{m}, "message %s was delivered with group %q", m, res.Group)
	}
	if res.Priority != m.Priority {
		md.dev(KPrio, q, []*message{m}, "message %s was delivered with priority %d", m, res.Priority)
	}

	if q.typ == "fair" {
		for _, o := range certain {
			if o != m && o.Group == m.Group && less(o, m) {
				md.dev(KFairOrder, q, []*message{m, o}, "fair queue %q delivered %s before %s of the same group", name, m, o)
				break
			}
		}
		for g, w := range q.waiting {
			if g == m.Group {
				continue
			}
			w.passed[m.Group]++
			if w.passed[m.Group] >= 2 {
				md.dev(KFairTwice, q, []*message{m}, "fair queue %q delivered to group %q twice while group %q was waiting", name, m.Group, g)
			}
			md.N["passed"]++
		}
		if w := q.waiting[m.Group]; w != nil {
			w.passed = map[string]int{}
		}
	} else {
		if m.Priority > t1.Unix() {
			md.dev(KEarly, q, []*message{m}, "queue %q delivered message %s at %d", name, m, t1.Unix())
		}
		if len(certain) > 0 && certain[0] != m && less(certain[0], m) {
			md.dev(KOrder, q, []*message{m, certain[0]}, "queue %q delivered %s before %s", name, m, certain[0])
		}
		if m.wasDue {
			md.N["delivered-scheduled"]++
		}
	}

	md.count(q, 1, t1)
	m.weak = false
	m.notYet = time.Time{}
	if ack {
		m.st = stGone
	} else {
		m.st = stLeased
		m.leaseLo, m.leaseHi = t0, t1
		md.N["leases"]++
	}
	if q.typ == "fair" {
		q.track()
	}
}

func (m *message) String() string {
	return fmt.Sprintf("%d(group %.20q, priority %d)", m.ID, m.Group, m.Priority)
}

// find returns what is known of a message named in a request
func (md *Model) find(q *qmodel, id uint64, t0, t1 time.Time) (*message, status) {
	m := q.msgs[id]
	if m == nil {
		return nil, gone
	}
	return m, md.status(m, t0, t1)
}

func (md *Model) ackNack(kind, name string, id uint64, err error, t0, t1 time.Time) {
	q := md.queues[name]
	if q == nil {
		md.unknown(kind, name, err)
		return
	}
	md.settle(q, t0, t1)
	m, st := md.find(q, id, t0, t1)
	var ms []*message
	if m != nil {
		ms = []*message{m}
	}
	if err == nil {
		if st == ready || st == gone {
			what := "unknown"
			if m != nil {
				what = map[status]string{ready: "ready", gone: "gone"}[st]
			}
			md.dev(kind, q, ms, "%s of message %d in queue %q succeeded although it is %s", kind, id, name, what)
		}
		if m == nil {
			return
		}
		if kind == KAck {
			m.st = stGone
			md.count(q, 2, t1)
			md.N["acks"]++
		} else {
			m.st = stReady
			m.tag(TagNacked)
			md.count(q, 3, t1)
			md.N["nacks"]++
		}
	} else {
		switch st {
		case leased:
			md.dev(kind, q, ms, "%s of message %s in queue %q failed (%v) %s after it was delivered, timeout %d s", kind, m, name, err, t0.Sub(m.leaseHi), md.T)
			// as if it had been requeued
			m.st = stReady
		case maybe:
			m.st = stReady
			m.tag(TagTimedOut)
			md.N["timeouts"]++
		default:
			md.N["refused-"+kind]++
		}
	}
	if q.typ == "fair" {
		q.track()
	}
}

func (md *Model) update(name string, id uint64, prio int64, err error, t0, t1 time.Time) {
	q := md.queues[name]
	if q == nil {
		md.unknown("priority change", name, err)
		return
	}
	md.settle(q, t0, t1)
	m, st := md.find(q, id, t0, t1)
	if err == nil {
		if st == gone {
			md.dev(KUpdate, q, nil, "priority change of message %d in queue %q succeeded although the queue does not hold it", id, name)
			return
		}
		m.Priority = prio
		m.tag(TagUpdated)
		if prio > t0.Unix() {
			m.wasDue = true
		}
		md.N["updates"]++
		if st != ready {
			m.tag(TagUpdLease)
			md.N["updates-unacked"]++
		}
	} else if st != gone {
		md.dev(KUpdate, q, []*message{m}, "priority change of message %s in queue %q failed: %v", m, name, err)
	} else {
		md.N["refused-update"]++
	}
}

func (md *Model) counts(q *qmodel, t0, t1 time.Time) (nready, nleased, nmaybe int64) {
	for _, m := range q.msgs {
		switch md.status(m, t0, t1) {
		case ready:
			nready++
		case leased:
			nleased++
		case maybe:
			nmaybe++
		}
	}
	return
}

func (md *Model) checkInfo(q *qmodel, info Info, t0, t1 time.Time) {
	md.settle(q, t0, t1)
	r, l, mb := md.counts(q, t0, t1)
	if info.Name != q.name || info.Type != q.typ {
		md.dev(KStats, q, nil, "queue %q of type %s is reported as %q of type %s", q.name, q.typ, info.Name, info.Type)
	}
	var ms []*message
	for _, m := range q.msgs {
		if m.st != stGone {
			ms = append(ms, m)
		}
	}
	if info.Total != r+l+mb || info.Ready < r || info.Ready > r+mb || info.Unacked < l || info.Unacked > l+mb ||
		info.Ready+info.Unacked != info.Total {
		md.dev(KStats, q, ms, "queue %q reports ready %d, unacked %d, total %d, but it holds %d ready, %d unacked and %d that are about to time out",
			q.name, info.Ready, info.Unacked, info.Total, r, l, mb)
	}
	md.checkRates(q, info, t0, t1)
	md.N["infos"]++
}

func (md *Model) info(name string, info Info, err error, t0, t1 time.Time) {
	q := md.queues[name]
	if q == nil {
		md.unknown("info", name, err)
		return
	}
	if err != nil {
		md.dev(KLife, q, nil, "info of queue %q failed: %v", name, err)
		return
	}
	md.checkInfo(q, info, t0, t1)
}

func (md *Model) list(infos []Info, err error, t0, t1 time.Time) {
	if err != nil {
		md.dev(KList, nil, nil, "list failed: %v", err)
		return
	}
	seen := map[string]bool{}
	for i, info := range infos {
		if i > 0 && infos[i-1].Name >= info.Name {
			md.dev(KList, nil, nil, "list is not sorted: %q, %q", infos[i-1].Name, info.Name)
		}
		q := md.queues[info.Name]
		if q == nil {
			tags := &qmodel{reborn: md.dead[info.Name]}
			md.dev(KList, tags, nil, "list has queue %q that does not exist", info.Name)
			continue
		}
		seen[info.Name] = true
		md.checkInfo(q, info, t0, t1)
	}
	for name, q := range md.queues {
		if !seen[name] {
			md.dev(KList, q, nil, "list lacks queue %q", name)
		}
	}
	md.N["lists"]++
}

// restart tells that the server was restarted
func (md *Model) restart(keepsLeases bool, t0, t1 time.Time) {
	md.N["restarts"]++
	for _, q := range md.queues {
		md.settle(q, t0, t1)
		q.restarted = true
		q.ops = [4][]time.Time{}
		for _, m := range q.msgs {
			m.tag(TagRestart)
			if m.st == stLeased && !keepsLeases {
				m.weak = true
				m.leaseHi = t1
			} else if m.st == stLeased {
				m.notYet = t1.Add(time.Duration(md.I+1) * time.Second)
			}
		}
		if !keepsLeases {
			q.waiting = map[string]*group{}
			q.created = t1
		}
	}
}
