package sim

import (
	"fmt"
	"math/rand/v2"
	"os"
	"os/exec"
	"path/filepath"
	"strconv"
	"strings"
	"sync"
	"time"

	"doqverif/core"
	"doqverif/seq"

	"github.com/dgraph-io/badger/v4"
	hraft "github.com/hashicorp/raft"
	"github.com/kgantsov/doq/pkg/config"
	doqraft "github.com/kgantsov/doq/pkg/raft"
	"github.com/prometheus/client_golang/prometheus"
)

// Cluster is a set of simulated nodes.
type Cluster struct {
	Net   *Net
	Nodes []*Node
	T, I  int64
	Dir   string
	Tr    []string
	began time.Time
	mu    sync.Mutex
	// OnLeader is told what nodes tell their leader change function
	OnLeader func(n *Node, leads bool)
	// Window is the window of statistics
	Window int
	// Metrics makes nodes export metrics
	Metrics bool
	// AddrOf gives the raft addresses of nodes
	AddrOf func(i int) string
	// IDOf gives the ids of nodes
	IDOf func(i int) string
	made int
}

// IDs returns ids of nodes in one of many styles, as deployments have them and
// as they are hard to tell apart.
func IDs(r *rand.Rand) func(i int) string {
	letters := func() string {
		b := make([]byte, 1+r.IntN(12))
		for i := range b {
			b[i] = "abcdefghijklmnopqrstuvwxyz0123456789-."[r.IntN(38)]
		}
		return string(b)
	}
	stem := letters()
	perm := r.Perm(10)
	used := map[string]bool{}
	style := r.IntN(9)
	return func(i int) string {
		id := ""
		switch style {
		case 0:
			id = fmt.Sprint("n", i)
		case 1:
			id = fmt.Sprintf("doq-%d.doq-internal.default.svc.cluster.local.:8000", i)
		case 2: // the same letters in another order
			id = strings.Repeat("a", i) + "b" + strings.Repeat("a", 30-i)
		case 3: // the same sum of letters, 19 28 37 ...
			id = fmt.Sprintf("%s-%d%d", stem, 1+i%9, 9-i%9)
		case 4:
			id = fmt.Sprintf("%s-%d", stem, perm[i%10])
		case 5: // ids that are beginnings of each other
			id = stem + strings.Repeat("1", i)
		case 6:
			id = fmt.Sprintf("10.0.%d.1:12000", i)
		case 7: // numbers that are equal modulo 1024
			id = fmt.Sprint(7 + 1024*i)
		default:
			id = letters()
		}
		for used[id] {
			id += fmt.Sprint("-", len(used))
		}
		used[id] = true
		return id
	}
}

// Node is a simulated node. Its data outlive it.
type Node struct {
	C     *Cluster
	ID    string
	Addr  string
	Peers []string
	DB    *badger.DB
	Dir   string
	N     *doqraft.Node
	Cfg   *config.Config
	tr    *Transport
	Up    bool
	gen   int
	home  string
	back  *Backend
	// TrailingLogs is set when the node starts, if it is not negative
	TrailingLogs int
}

var (
	tmu      sync.Mutex
	attached = map[string]*Net{}
)

func init() {
	doqraft.TransportForVerification = func(addr string) (hraft.Transport, error) {
		tmu.Lock()
		defer tmu.Unlock()
		n := attached[addr]
		if n == nil {
			return nil, fmt.Errorf("harness: no network for %s", addr)
		}
		return n.New(addr), nil
	}
}

var clusters int

// NewCluster makes an empty cluster.
func NewCluster(seed uint64, T, I int64) *Cluster {
	clusters++
	c := &Cluster{Nodes: make([]*Node, 0, 32), Net: NewNet(seed), T: T, I: I, Dir: core.ScratchDir(), began: time.Now(), Window: 10}
	return c
}

// Note adds to the trace.
func (c *Cluster) Note(format string, args ...any) {
	c.mu.Lock()
	defer c.mu.Unlock()
	c.Tr = append(c.Tr, fmt.Sprintf("%8.3f ", time.Since(c.began).Seconds())+fmt.Sprintf(format, args...))
	core.Touch()
}

// Add makes a node that is not started. With bootstrapped members the node
// starts as a member of them instead of on its own.
func (c *Cluster) Add() *Node {
	i := len(c.Nodes)
	host := fmt.Sprintf("n%d", i)
	c.made++
	home := fmt.Sprintf("d%d", c.made)
	n := &Node{
		home: home,
		C:    c, ID: host, Addr: fmt.Sprintf("%s-c%d:12000", host, clusters), DB: seq.OpenMem(),
		Dir: filepath.Join(c.Dir, home), TrailingLogs: -1,
	}
	if c.IDOf != nil {
		n.ID = c.IDOf(c.made - 1)
	}
	if c.AddrOf != nil {
		n.Addr = c.AddrOf(i)
	}
	c.Nodes = append(c.Nodes, n)
	return n
}

// Start starts the node and returns when it is initialised.
func (n *Node) Start() {
	tmu.Lock()
	attached[n.Addr] = n.C.Net
	tmu.Unlock()
	cfg := &config.Config{}
	cfg.Cluster.NodeID = n.ID
	cfg.Http.Port = "8000"
	cfg.Raft.Address = n.Addr
	cfg.Queue = config.QueueConfig{
		AcknowledgementCheckInterval: n.C.I,
		AcknowledgementTimeout:       n.C.T,
		QueueStats:                   config.QueueStatsConfig{WindowSide: n.C.Window},
	}
	if cfg.Prometheus.Enabled = n.C.Metrics; n.C.Metrics {
		// metrics are also registered with the default registry
		prometheus.DefaultRegisterer = prometheus.NewRegistry()
	}
	n.Cfg = cfg
	n.N = doqraft.NewNode(n.DB, n.Dir, cfg, n.Peers)
	if f := n.C.OnLeader; f != nil {
		n.N.SetLeaderChangeFunc(func(leads bool) { f(n, leads) })
	}
	n.N.Initialize()
	n.C.Net.mu.Lock()
	n.tr = n.C.Net.hosts[hraft.ServerAddress(n.Addr)]
	n.C.Net.mu.Unlock()
	if n.TrailingLogs >= 0 {
		n.setTrailing()
	}
	n.setUp(true)
	core.Touch()
}

func (n *Node) setTrailing() {
	rc := n.N.Raft.ReloadableConfig()
	rc.TrailingLogs = uint64(n.TrailingLogs)
	if err := n.N.Raft.ReloadConfig(rc); err != nil {
		panic(fmt.Sprintf("harness: %v", err))
	}
}

// SetTrailing sets how many entries a snapshot leaves in the log.
func (n *Node) SetTrailing(k int) {
	n.TrailingLogs = k
	n.setTrailing()
}

// stop ends a node, its data are kept. Queues of the ended node must not touch
// the data that the next one uses, so these are copied first.
func (n *Node) end(db *badger.DB, dir string) {
	old, oldDB := n.N, n.DB
	n.setUp(false)
	n.tr.Close()
	if err := old.Raft.Shutdown().Error(); err != nil {
		panic(fmt.Sprintf("harness: shutdown: %v", err))
	}
	for _, q := range old.QueueManager.GetQueues() {
		old.QueueManager.Delete(q.Name)
	}
	oldDB.Close()
	n.DB, n.Dir = db, dir
	n.N = nil
	core.Touch()
}

func (n *Node) nextDir() string {
	n.gen++
	return filepath.Join(n.C.Dir, fmt.Sprintf("%s-%d", n.home, n.gen))
}

func copyDir(from, to string) {
	if _, err := os.Stat(from); os.IsNotExist(err) {
		return
	}
	if out, err := exec.Command("cp", "-a", from, to).CombinedOutput(); err != nil {
		panic(fmt.Sprintf("harness: cannot copy: %v %s", err, out))
	}
}

// Crash ends a node as if it was killed now. There must be no snapshot under way.
func (n *Node) Crash() {
	dir := n.nextDir()
	n.tr.Close()
	db := seq.CopyDB(n.DB)
	copyDir(n.Dir, dir)
	n.end(db, dir)
}

// Image is what a killed node leaves behind.
type Image struct {
	db  *badger.DB
	dir string
}

// Photograph takes an image of a running node. There must be no snapshot under way.
func (n *Node) Photograph() Image {
	dir := n.nextDir()
	db := seq.CopyDB(n.DB)
	copyDir(n.Dir, dir)
	return Image{db, dir}
}

// EndWith ends the node and puts the image in its place.
func (n *Node) EndWith(i Image) { n.end(i.db, i.dir) }

// Stop shuts a node down in order.
func (n *Node) Stop() {
	dir := n.nextDir()
	n.tr.Close()
	if err := n.N.Raft.Shutdown().Error(); err != nil {
		panic(fmt.Sprintf("harness: shutdown: %v", err))
	}
	db := seq.CopyDB(n.DB)
	copyDir(n.Dir, dir)
	n.end(db, dir)
}

// Snapshot makes the node take a snapshot.
func (n *Node) Snapshot() error {
	// the names of snapshots are made from the time
	time.Sleep(5 * time.Millisecond)
	err := n.N.Raft.Snapshot().Error()
	core.Touch()
	return err
}

// WaitLeader waits until the node leads, or until the limit has passed.
func (n *Node) WaitLeader(limit time.Duration) bool {
	until := time.Now().Add(limit)
	for time.Now().Before(until) {
		if n.IsUp() && n.N.Raft.State() == hraft.Leader && n.N.Raft.VerifyLeader().Error() == nil && n.N.Raft.Barrier(5*time.Second).Error() == nil {
			return true
		}
		time.Sleep(10 * time.Millisecond)
	}
	return false
}

// Leader returns the running node that leads in the highest term, or nil.
func (c *Cluster) Leader() *Node {
	var best *Node
	var term uint64
	c.mu.Lock()
	defer c.mu.Unlock()
	for _, n := range c.Nodes {
		if n.Up && n.N.Raft.State() == hraft.Leader {
			if t, _ := strconv.ParseUint(n.N.Raft.Stats()["term"], 10, 64); best == nil || t > term {
				best, term = n, t
			}
		}
	}
	return best
}

// Form starts k nodes and joins them.
func (c *Cluster) Form(k int) {
	for i := 0; i < k; i++ {
		n := c.Add()
		if i > 0 {
			n.Peers = []string{c.Nodes[0].Addr}
		}
		n.Start()
		if i == 0 {
			if !n.WaitLeader(60 * time.Second) {
				panic("harness: the first node does not lead")
			}
		} else if err := c.Nodes[0].N.Join(n.ID, n.Addr); err != nil {
			panic(fmt.Sprintf("harness: join: %v", err))
		}
		if err := n.N.InitIDGenerator(); err != nil {
			panic(fmt.Sprintf("harness: %v", err))
		}
	}
}

// Close ends everything.
func (c *Cluster) Close() {
	for _, n := range c.Nodes {
		if n.Up {
			n.tr.Close()
			n.N.Raft.Shutdown().Error()
			for _, q := range n.N.QueueManager.GetQueues() {
				n.N.QueueManager.Delete(q.Name)
			}
			n.setUp(false)
		}
		n.DB.Close()
		tmu.Lock()
		delete(attached, n.Addr)
		tmu.Unlock()
	}
	os.RemoveAll(c.Dir)
}

// Backend is a single node, as a server for package seq.
type Backend struct {
	C *Cluster
	N *Node
	// Lag is the slack
	Lag       time.Duration
	Truncates bool
	Rep       func(what string)
	node      *doqraft.Node // if set, the instance that clients use
	// Dead says that the node did not come back
	Dead string
}

func (b *Backend) inst() *doqraft.Node {
	if b.node != nil {
		return b.node
	}
	return b.N.N
}

func (b *Backend) Create(typ, name string) error { return b.inst().CreateQueue(typ, name) }
func (b *Backend) Delete(name string) error      { return b.inst().DeleteQueue(name) }

func (b *Backend) Enqueue(q, group string, prio int64, content string, id uint64) (seq.Msg, error) {
	// ids are made from the time
	time.Sleep(time.Millisecond)
	m, err := b.inst().Enqueue(q, group, prio, content)
	if err != nil {
		return seq.Msg{}, err
	}
	return seq.Msg{ID: m.ID, Group: m.Group, Priority: m.Priority, Content: m.Content}, nil
}

func (b *Backend) Dequeue(q string, ack bool) (seq.Msg, error) {
	m, err := b.inst().Dequeue(q, ack)
	if err != nil {
		return seq.Msg{}, err
	}
	return seq.Msg{ID: m.ID, Group: m.Group, Priority: m.Priority, Content: m.Content}, nil
}

func (b *Backend) Ack(q string, id uint64) error  { return b.inst().Ack(q, id) }
func (b *Backend) Nack(q string, id uint64) error { return b.inst().Nack(q, id) }
func (b *Backend) UpdatePriority(q string, id uint64, prio int64) error {
	return b.inst().UpdatePriority(q, id, prio)
}

func (b *Backend) Info(q string) (seq.Info, error) {
	i, err := b.inst().GetQueueInfo(q)
	if err != nil {
		return seq.Info{}, err
	}
	return seq.ToInfo(i), nil
}

func (b *Backend) List() ([]seq.Info, error) { return seq.ToInfos(b.inst().GetQueues()), nil }

// Restart ends the node in one way or another, perhaps after a snapshot.
func (b *Backend) Restart(kind int) (string, bool) {
	what := ""
	note := func(s string) {
		what += s
		if b.Rep != nil {
			b.Rep(s)
		}
	}
	if kind%8 == 7 {
		// only a snapshot
		b.N.SetTrailing(kind / 8 % 5)
		if err := b.N.Snapshot(); err != nil && err != hraft.ErrNothingNewToSnapshot {
			panic(fmt.Sprintf("harness: snapshot: %v", err))
		}
		note("snapshot, no restart")
		return what, true
	}
	if kind&1 == 1 {
		b.N.SetTrailing([]int{0, 1, 3, 10240}[kind/8%4])
		if err := b.N.Snapshot(); err == nil {
			note("snapshot ")
		} else if err != hraft.ErrNothingNewToSnapshot {
			panic(fmt.Sprintf("harness: snapshot: %v", err))
		}
	}
	if kind&2 == 2 {
		b.N.Stop()
		note("stop")
	} else {
		b.N.Crash()
		note("crash")
	}
	if kind&4 == 4 {
		time.Sleep(time.Duration(kind/64%8) * time.Second)
	}
	b.N.Start()
	if !b.N.WaitLeader(60 * time.Second) {
		b.Dead = "the node does not lead within 60 s after " + what
		return what, true
	}
	if err := b.N.N.InitIDGenerator(); err != nil {
		panic(fmt.Sprintf("harness: %v", err))
	}
	return what, true
}

// Metrics reads the metrics of the node.
func (b *Backend) Metrics() (map[string]map[string]float64, error) {
	g, ok := b.inst().PrometheusRegistry().(prometheus.Gatherer)
	if !ok {
		return nil, fmt.Errorf("the registry of the node cannot be read")
	}
	return seq.Gather(g)
}

func (b *Backend) ReturnsGroup() bool   { return false }
func (b *Backend) Slack() time.Duration { return b.Lag }
func (b *Backend) NewIDs() bool         { return true }

// IsUp tells if the node is running.
func (n *Node) IsUp() bool {
	n.C.mu.Lock()
	defer n.C.mu.Unlock()
	return n.Up
}

func (n *Node) setUp(up bool) {
	n.C.mu.Lock()
	defer n.C.mu.Unlock()
	n.Up = up
	if up {
		n.back = &Backend{C: n.C, N: n, node: n.N}
	} else {
		n.back = nil
	}
}

// Front returns what clients of the running node use, or nil.
func (n *Node) Front() *Backend {
	n.C.mu.Lock()
	defer n.C.mu.Unlock()
	return n.back
}

// Detach ends all communication of the node.
func (n *Node) Detach() { n.tr.Close() }

// SetLoss sets the probability of losing a message, in per mille, and the
// upper bound of the delay of messages.
func (n *Net) SetLoss(permille int, delay time.Duration) {
	n.mu.Lock()
	defer n.mu.Unlock()
	n.Loss, n.Delay = permille, delay
}
