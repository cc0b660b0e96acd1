package seq

import (
	"fmt"
	"hash/fnv"
	"math"
	"math/rand/v2"
	"sort"
	"strings"
	"time"

	"doqverif/core"
)

// Profile says what kind of cases to generate.
type Profile struct {
	Types     []string // types of queues
	MaxQueues int
	Names     string // plain, hostile
	Groups    int    // upper bound of groups
	Steps     [2]int
	T, I      []int64
	Prios     []string // modes
	Content   string   // small, hostile, big
	W         map[string]int
	Restarts  bool
	// Lifecycle: operations on unknown queues, creation and deletion
	Lifecycle bool
	// SharedIDs lets queues use the same ids
	SharedIDs bool
	WildIDs   bool
	Calm      bool // advance the clock rarely
	Window    int  // of the statistics, 0 for any
	// BulkRate makes one of so many cases handle hundreds of messages at once
	BulkRate int
	// FarRate makes one of so many cases use sizes far from the usual: long
	// timeouts, intervals and windows, many groups, long names and contents
	FarRate int
	// Stats makes cases look at rates and metrics
	Stats bool
}

// Case is a generated case.
type Case struct {
	R       *rand.Rand
	P       *Profile
	T, I    int64
	Window  int
	B       Backend
	M       *Model
	Rep     *core.Report
	Trace   []string
	Devs    []Dev
	sig     strings.Builder
	prioM   []string
	names   []string
	groups  []string
	nextID  uint64
	ids     []uint64 // recent ids, for requests
	maxDue  int64
	dead    bool
	bulk    int // 0, or number of messages handled at once
	far     bool
	long    bool // contents
	started time.Time
	// OnStep is called after every operation
	OnStep func(op string)
	// Extra is another operation
	Extra func()
	// Stop tells that the case cannot go on
	Stop func() bool
}

// Dev is a deviation from the model.
type Dev struct {
	Kind string
	Tags map[string]bool
	Msg  string
}

// New makes a case; the backend is set afterwards.
func New(r *rand.Rand, p *Profile, rep *core.Report) *Case {
	c := &Case{R: r, P: p, Rep: rep, started: time.Now()}
	c.T = p.T[r.IntN(len(p.T))]
	c.I = p.I[r.IntN(len(p.I))]
	c.Window = p.Window
	if c.Window == 0 {
		c.Window = []int{1, 2, 5, 10, 60}[r.IntN(5)]
	}
	nm := 1 + r.IntN(2)
	for i := 0; i < nm; i++ {
		c.prioM = append(c.prioM, p.Prios[r.IntN(len(p.Prios))])
	}
	nq := 1 + r.IntN(max(1, p.MaxQueues))
	c.names = Names(r, p.Names, nq)
	ng := 1 + r.IntN(max(1, p.Groups))
	c.groups = Groups(r, ng)
	if p.FarRate > 0 && r.IntN(p.FarRate) == 0 {
		c.farAway()
	}
	c.nextID = uint64(r.IntN(1000) + 1)
	if p.WildIDs && r.IntN(2) == 0 {
		c.nextID = []uint64{0, 255, 0x3a3a3a3a3a3a3a3a, math.MaxInt64 - 500, 1 << 62, 0x3a00}[r.IntN(6)]
	}
	if p.BulkRate > 0 && r.IntN(p.BulkRate) == 0 {
		c.bulk = []int{150, 300, 600, 1200}[r.IntN(4)]
	}
	return c
}

// farAway chooses sizes that are far from those of other cases.
func (c *Case) farAway() {
	r := c.R
	c.far = true
	if r.IntN(2) == 0 {
		c.T = []int64{300, 600, 1800, 3600, 7200, 86400, 604800, 2592000, 315360000}[r.IntN(9)]
	}
	if r.IntN(3) == 0 {
		c.I = []int64{15, 30, 60, 90}[r.IntN(4)]
	}
	if c.P.Window == 0 && r.IntN(3) == 0 {
		c.Window = []int{30, 120, 300, 600}[r.IntN(4)]
	}
	if r.IntN(2) == 0 {
		c.groups = Groups(r, 1+r.IntN(80))
	}
	if r.IntN(2) == 0 {
		for i := range c.groups {
			if r.IntN(2) == 0 {
				c.groups[i] += strings.Repeat(string(rune('a'+r.IntN(26))), []int{40, 255, 256, 1000, 5000}[r.IntN(5)])
			}
		}
	}
	if c.P.Names == "hostile" && r.IntN(2) == 0 {
		for i := range c.names {
			if r.IntN(2) == 0 {
				c.names[i] += strings.Repeat("é", []int{20, 64, 128, 500, 5000}[r.IntN(5)]) + fmt.Sprint(i)
			}
		}
	}
	c.long = r.IntN(3) == 0
}

// span is the timeout, or what stands for one that is too long to wait for.
func (c *Case) span() int64 {
	if c.T > maxWait {
		return 600
	}
	return c.T
}

// maxWait is the longest timeout that cases wait for
const maxWait = 7200

// Start sets the backend.
func (c *Case) Start(b Backend) {
	c.B = b
	c.M = NewModel(c.T, c.I, b.Slack())
	if c.far {
		c.M.N["far-cases"]++
	}
	if c.P.Stats {
		c.M.Window = c.Window
	}
	c.M.Deviate = func(kind string, tags map[string]bool, format string, args ...any) {
		msg := fmt.Sprintf(format, args...)
		c.tracef("    DEVIATION %s: %s", kind, msg)
		if len(c.Devs) < 20 {
			c.Devs = append(c.Devs, Dev{kind, tags, msg})
		}
	}
	c.started = time.Now()
}

func (c *Case) tracef(format string, args ...any) {
	c.Trace = append(c.Trace, fmt.Sprintf("%8.3f ", time.Since(c.started).Seconds())+fmt.Sprintf(format, args...))
}

// Note adds to the trace.
func (c *Case) Note(format string, args ...any) { c.tracef(format, args...) }

// Names makes distinct names of queues.
func Names(r *rand.Rand, mode string, n int) []string {
	if mode != "hostile" && mode != "http" {
		out := []string{}
		for i := 0; i < n; i++ {
			out = append(out, fmt.Sprintf("queue-%d", i))
		}
		return out
	}
	bases := []string{"a", "q", "queue", "orders", "messages:", "queues:", "", ":", "messages:a", "a b", "ü", "日本", "a/b", "a%2Fb", "x:y", "log", "dbLogs", "\x00", "..", "a\nb", strings.Repeat("n", 200)}
	base := bases[r.IntN(len(bases))]
	seen := map[string]bool{}
	out := []string{}
	add := func(s string) {
		if !seen[s] && len(out) < n && (s != "" || mode != "http") {
			seen[s] = true
			out = append(out, s)
		}
	}
	ext := []string{
		":", "::", ":a", ":12345678", ":\x00\x00\x00\x00\x00\x00\x00\x01", ":abcdefgh", " ", "a", "0", ":queues", ":messages:", "\x00", "é", "/", "%3A",
		":\x00\x00\x00\x00\x00\x00\x00:", ":1234567:",
	}
	if r.IntN(4) > 0 {
		add(base)
	}
	for len(out) < n {
		switch r.IntN(6) {
		case 0:
			add(bases[r.IntN(len(bases))])
		case 1:
			if len(out) > 0 {
				add(out[r.IntN(len(out))] + ext[r.IntN(len(ext))])
			}
		case 2:
			add("messages:" + base + ":")
		case 3:
			add(strings.ToUpper(base) + "X")
		default:
			add(base + ext[r.IntN(len(ext))])
		}
	}
	return out
}

// Groups makes distinct names of groups.
func Groups(r *rand.Rand, n int) []string {
	pool := []string{"default", "", "customer-1", "customer-10", "a", "b", "ü", "a:b", " ", "x\"y\\z", "日本", "<&>", "\u2028"}
	r.Shuffle(len(pool), func(i, j int) { pool[i], pool[j] = pool[j], pool[i] })
	for len(pool) < n {
		pool = append(pool, fmt.Sprintf("g%d", len(pool)))
	}
	return pool[:n]
}

// Content makes the content of a message.
func Content(r *rand.Rand, mode string, id uint64) string {
	switch mode {
	case "hostile":
		pool := []string{"", "\x00", "\"", "\\u0000", "<script>&amp;", "{\"id\":1}", "\u2028\u2029", "日本語 ü", "\n\r\t", "'", "null", "\x7f", "👍", "%s%d%!", "[]", strings.Repeat("x", 5000)}
		return pool[r.IntN(len(pool))] + fmt.Sprint(id) + pool[r.IntN(len(pool))]
	case "big":
		return fmt.Sprint(id) + strings.Repeat(string(rune('a'+r.IntN(26))), 1000+r.IntN(60000))
	}
	return fmt.Sprintf("content-%d", id)
}

func (c *Case) prio() int64 {
	now := time.Now().Unix()
	r := c.R
	var p int64
	switch c.prioM[r.IntN(len(c.prioM))] {
	case "ties":
		p = int64(r.IntN(3))
	case "small":
		p = int64(r.IntN(100))
	case "due":
		p = now + int64(r.IntN(int(2*c.span()+3*c.I+20))) - 5
	case "soon":
		p = now + int64(r.IntN(5)) - 1
	case "lease":
		p = now + c.T + int64(r.IntN(5)) - 2
	case "far":
		p = now + 100000 + int64(r.IntN(5))
	case "extreme":
		p = []int64{math.MaxInt64, math.MinInt64, -1, 0, 1 << 40, math.MaxInt32, math.MaxInt64 - 1, -1 << 31}[r.IntN(8)]
	case "big":
		p = []int64{math.MaxInt64, 1<<53 + 1, 1<<62 + 3, 0, 1 << 31, 123456789012345678, math.MaxInt64 - 1, math.MaxInt32}[r.IntN(8)]
	case "negative":
		p = -int64(r.IntN(4))
	default:
		p = int64(r.IntN(10))
	}
	if p > now && p < now+50000 && p > c.maxDue {
		c.maxDue = p
	}
	return p
}

func (c *Case) newID(q string) uint64 {
	if c.P.SharedIDs {
		// the next id this queue has not had
		id := c.nextID
		if qm := c.M.queues[q]; qm != nil {
			for qm.msgs[id] != nil {
				id++
			}
		}
		return id
	}
	switch c.R.IntN(10) {
	case 0:
		c.nextID += uint64(1 + c.R.IntN(300))
	default:
		c.nextID++
	}
	return c.nextID
}

func (c *Case) queue() string {
	if c.P.Lifecycle && c.R.IntN(12) == 0 {
		return c.names[c.R.IntN(len(c.names))] + []string{"?", "", ":", "x"}[c.R.IntN(4)]
	}
	return c.names[c.R.IntN(len(c.names))]
}

// pickID picks an id for an operation on a queue
func (c *Case) pickID(q string, want state) uint64 {
	r := c.R
	qm := c.M.queues[q]
	if qm != nil && r.IntN(8) > 0 {
		var ids []uint64
		for id, m := range qm.msgs {
			if m.st == want {
				ids = append(ids, id)
			}
		}
		if len(ids) > 0 {
			sort.Slice(ids, func(i, j int) bool { return ids[i] < ids[j] })
			return ids[r.IntN(len(ids))]
		}
	}
	switch r.IntN(8) {
	case 0:
		return []uint64{0, 1, math.MaxUint64, c.nextID + 1, 1 << 63}[r.IntN(5)]
	default:
		if len(c.ids) > 0 {
			return c.ids[r.IntN(len(c.ids))]
		}
		return c.nextID
	}
}

var errStr = map[bool]string{true: "ok", false: "failed"}

func (c *Case) note(op string, ok bool, extra any) {
	fmt.Fprintf(&c.sig, "%s%v%v;", op, ok, extra)
	core.Touch()
	if c.OnStep != nil {
		c.OnStep(op)
	}
}

// Create and the other operations call the backend and the model

func (c *Case) Create(typ, name string) {
	err := c.B.Create(typ, name)
	c.tracef("create %s %q: %v", typ, name, errStr[err == nil])
	c.M.create(typ, name, err)
	c.note("C", err == nil, "")
}

func (c *Case) Delete(name string) {
	err := c.B.Delete(name)
	c.tracef("delete %q: %v", name, errStr[err == nil])
	c.M.delete(name, err)
	c.note("X", err == nil, "")
}

func (c *Case) Enqueue(name, group string, prio int64, mode string) {
	id := c.newID(name)
	content := Content(c.R, mode, id)
	if c.long && c.bulk == 0 && c.R.IntN(6) == 0 {
		content += strings.Repeat(string(rune('a'+c.R.IntN(26))), []int{4096, 65530, 65536, 200000, 500000, 900000}[c.R.IntN(6)])
	}
	t0 := time.Now()
	res, err := c.B.Enqueue(name, group, prio, content, id)
	t1 := time.Now()
	c.tracef("enqueue %q group %q priority %d: %d %v", name, group, prio, res.ID, errStr[err == nil])
	if err == nil {
		c.ids = append(c.ids, res.ID)
		if len(c.ids) > 30 {
			c.ids = c.ids[1:]
		}
	}
	c.M.enqueue(name, group, prio, content, res, err, c.B, t0, t1)
	c.note("E", err == nil, group)
}

func (c *Case) Dequeue(name string, ack bool) bool {
	t0 := time.Now()
	res, err := c.B.Dequeue(name, ack)
	t1 := time.Now()
	if err == nil {
		c.tracef("dequeue %q ack=%v: %d group %q priority %d", name, ack, res.ID, res.Group, res.Priority)
	} else {
		c.tracef("dequeue %q ack=%v: %v", name, ack, err)
	}
	c.M.dequeue(name, ack, res, err, t0, t1)
	c.note("D", err == nil, res.ID-c.nextID)
	return err == nil
}

func (c *Case) Ack(name string, id uint64) {
	t0 := time.Now()
	err := c.B.Ack(name, id)
	t1 := time.Now()
	c.tracef("ack %q %d: %v", name, id, errStr[err == nil])
	c.M.ackNack(KAck, name, id, err, t0, t1)
	c.note("A", err == nil, "")
}

func (c *Case) Nack(name string, id uint64) {
	t0 := time.Now()
	err := c.B.Nack(name, id)
	t1 := time.Now()
	c.tracef("nack %q %d: %v", name, id, errStr[err == nil])
	c.M.ackNack(KNack, name, id, err, t0, t1)
	c.note("N", err == nil, "")
}

func (c *Case) Update(name string, id uint64, prio int64) {
	t0 := time.Now()
	err := c.B.UpdatePriority(name, id, prio)
	t1 := time.Now()
	c.tracef("priority %q %d to %d: %v", name, id, prio, errStr[err == nil])
	c.M.update(name, id, prio, err, t0, t1)
	c.note("U", err == nil, "")
}

func (c *Case) Info(name string) {
	t0 := time.Now()
	info, err := c.B.Info(name)
	t1 := time.Now()
	c.tracef("info %q: %+v %v", name, info, errStr[err == nil])
	c.M.info(name, info, err, t0, t1)
	c.note("I", err == nil, fmt.Sprint(info.Ready, info.Unacked))
}

func (c *Case) List() {
	t0 := time.Now()
	infos, err := c.B.List()
	t1 := time.Now()
	c.tracef("list: %d queues", len(infos))
	c.M.list(infos, err, t0, t1)
	c.note("L", err == nil, len(infos))
}

func (c *Case) Advance(d time.Duration) {
	time.Sleep(d)
	c.tracef("advanced %s", d)
	c.note("T", true, d)
}

func (c *Case) Restart(kind int) {
	t0 := time.Now()
	what, keeps := c.B.Restart(kind)
	t1 := time.Now()
	c.tracef("restart: %s", what)
	c.M.restart(keeps, t0, t1)
	c.note("R", true, what)
}

func (c *Case) advanceBy() time.Duration {
	r := c.R
	s := time.Second
	switch r.IntN(8) {
	case 0:
		return time.Duration(r.IntN(1000)) * time.Millisecond
	case 1:
		return s
	case 2:
		return time.Duration(1+r.IntN(5)) * s
	case 3:
		return time.Duration(c.span())*s/2 + time.Duration(r.IntN(1000))*time.Millisecond
	case 4:
		return time.Duration(c.span())*s - time.Duration(r.IntN(1200))*time.Millisecond + 1
	case 5:
		return time.Duration(c.span())*s + time.Duration(r.IntN(1000*int(c.I)+1000))*time.Millisecond
	case 6:
		return time.Duration(c.span()+c.I+2) * s
	}
	return time.Duration(r.IntN(3000)) * time.Millisecond
}

// Step does one random operation.
func (c *Case) Step() {
	r, w := c.R, c.P.W
	total := 0
	ops := []string{"enqueue", "dequeue", "ack", "nack", "update", "updunacked", "advance", "info", "list", "create", "delete", "restart", "burst", "extra"}
	for _, op := range ops {
		total += w[op]
	}
	x := r.IntN(total)
	op := ""
	for _, op = range ops {
		x -= w[op]
		if x < 0 {
			break
		}
	}
	q := c.queue()
	switch op {
	case "enqueue":
		c.Enqueue(q, c.groups[r.IntN(len(c.groups))], c.prio(), c.P.Content)
	case "burst":
		n := 2 + r.IntN(8)
		if c.bulk > 0 {
			n = c.bulk/2 + r.IntN(c.bulk)
		}
		for i := 0; i < n; i++ {
			c.Enqueue(q, c.groups[r.IntN(len(c.groups))], c.prio(), c.P.Content)
		}
	case "dequeue":
		n := 1
		if c.bulk > 0 && r.IntN(3) == 0 {
			n = c.bulk
		}
		for ack := r.IntN(4) == 0; n > 0; n-- {
			if !c.Dequeue(q, ack) {
				break
			}
		}
	case "ack":
		c.Ack(q, c.pickID(q, stLeased))
	case "nack":
		c.Nack(q, c.pickID(q, stLeased))
	case "update":
		c.Update(q, c.pickID(q, stReady), c.prio())
	case "updunacked":
		c.Update(q, c.pickID(q, stLeased), c.prio())
	case "advance":
		d := c.advanceBy()
		if d > 0 {
			c.Advance(d)
		}
	case "info":
		c.Info(q)
		if c.P.Stats {
			c.Metrics()
		}
	case "list":
		c.List()
	case "create":
		c.Create(c.P.Types[r.IntN(len(c.P.Types))], q)
	case "delete":
		c.Delete(q)
	case "extra":
		if c.Extra != nil {
			c.Extra()
		}
	case "restart":
		c.Restart(r.IntN(1 << 20))
	}
}

// Run runs the whole case.
func (c *Case) Run() {
	r := c.R
	for _, name := range c.names {
		if c.P.Lifecycle && r.IntN(4) == 0 {
			continue
		}
		c.Create(c.P.Types[r.IntN(len(c.P.Types))], name)
	}
	steps := c.P.Steps[0] + r.IntN(c.P.Steps[1]-c.P.Steps[0]+1)
	if c.bulk > 0 {
		// a queue full of messages to begin with, many of them handed out
		c.M.N["bulk-cases"]++
		steps = 15 + r.IntN(20)
		name := c.names[0]
		for i := 0; i < c.bulk; i++ {
			c.Enqueue(name, c.groups[r.IntN(len(c.groups))], c.prio(), c.P.Content)
		}
		for i := r.IntN(c.bulk + 1); i > 0 && c.Dequeue(name, false); i-- {
		}
	}
	for i := 0; i < steps && len(c.Devs) < 5 && !c.stopped(); i++ {
		c.Step()
	}
	c.Finish()
}

func (c *Case) stopped() bool { return c.Stop != nil && c.Stop() }

// Finish checks that everything is still there and can be had.
func (c *Case) Finish() {
	if len(c.Devs) > 0 || c.stopped() {
		return
	}
	c.Note("final phase")
	c.List()
	if c.T > maxWait {
		c.release()
	}
	c.Advance(time.Duration(c.span()+c.I+2)*time.Second + c.B.Slack())
	c.List()
	names := []string{}
	for name := range c.M.queues {
		names = append(names, name)
	}
	sort.Strings(names)
	drain := func() {
		for _, name := range names {
			q := c.M.queues[name]
			for n := len(q.msgs) + 5; n > 0 && len(c.Devs) == 0; n-- {
				if !c.Dequeue(name, true) {
					break
				}
			}
		}
	}
	drain()
	if now := time.Now().Unix(); c.maxDue >= now && len(c.Devs) == 0 {
		c.Advance(time.Duration(c.maxDue-now+1) * time.Second)
		drain()
	}
	// what is due too late is brought forward
	for _, name := range names {
		q := c.M.queues[name]
		var rest []uint64
		for id, m := range q.msgs {
			if m.st == stReady {
				rest = append(rest, id)
			}
		}
		sort.Slice(rest, func(i, j int) bool { return rest[i] < rest[j] })
		for _, id := range rest {
			if len(c.Devs) > 0 {
				return
			}
			c.Update(name, id, int64(c.R.IntN(5)))
		}
	}
	drain()
	if len(c.Devs) > 0 {
		return
	}
	c.List()
	if c.P.Stats {
		c.Metrics()
	}
	for _, name := range names {
		for _, m := range c.M.queues[name].msgs {
			if m.st != stGone {
				c.M.dev(KLost, c.M.queues[name], []*message{m}, "message %s of queue %q was not delivered in the end", m, name)
			}
		}
	}
}

// release gives all messages back.
func (c *Case) release() {
	var names []string
	for name := range c.M.queues {
		names = append(names, name)
	}
	sort.Strings(names)
	for _, name := range names {
		var held []uint64
		for id, m := range c.M.queues[name].msgs {
			if m.st == stLeased {
				held = append(held, id)
			}
		}
		sort.Slice(held, func(i, j int) bool { return held[i] < held[j] })
		for _, id := range held {
			c.M.N["released"]++
			c.Nack(name, id)
		}
	}
}

// Leave deletes all queues that the model knows.
func (c *Case) Leave() {
	for name := range c.M.queues {
		c.B.Delete(name)
	}
}

// Signature identifies the observed behaviour.
func (c *Case) Signature() string {
	h := fnv.New64a()
	h.Write([]byte(c.sig.String()))
	return fmt.Sprintf("%x", h.Sum64())
}

// QueueNames returns the names that the case uses.
func (c *Case) QueueNames() []string { return c.names }

// RecentIDs returns ids of messages.
func (c *Case) RecentIDs() []uint64 { return c.ids }

// Deviate reports a deviation.
func (c *Case) Deviate(kind, format string, args ...any) {
	c.M.dev(kind, nil, nil, format, args...)
}

// Groups returns the groups that the case uses.
func (c *Case) Groups() []string { return c.groups }
