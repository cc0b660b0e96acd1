// Package fake has stand-ins for nodes.
package fake

import (
	"errors"
	"fmt"
	"hash/fnv"
	"math"
	"math/rand/v2"
	"sync"
	"sync/atomic"
	"time"

	"doqverif/seq"

	"github.com/kgantsov/doq/pkg/queue"
	"github.com/prometheus/client_golang/prometheus"
)

// Node is a node that only records what it is asked to do. What it answers
// depends on the arguments alone.
type Node struct {
	Name     string
	Leads    atomic.Bool
	LeaderIs atomic.Value // string
	// Asked counts how often the node was asked who leads
	Asked atomic.Int64
	// Flips, if set, says who leads, depending on how often it was asked
	Flips func(n int64) bool
	// Where, if set, says who leads
	Where func(n int64) string
	mu    sync.Mutex
	calls map[string]int
	slow  time.Duration
}

func New(name string) *Node {
	f := &Node{Name: name, calls: map[string]int{}}
	f.LeaderIs.Store("")
	return f
}

func (f *Node) call(format string, args ...any) error {
	s := fmt.Sprintf(format, args...)
	f.mu.Lock()
	f.calls[s]++
	slow := f.slow
	f.mu.Unlock()
	if slow > 0 {
		time.Sleep(slow)
	}
	h := fnv.New32a()
	h.Write([]byte(s))
	if h.Sum32()%5 == 0 {
		return errors.New("scripted refusal of " + s)
	}
	return nil
}

// Slow makes everything that the node is asked to do take a while
func (f *Node) Slow(d time.Duration) {
	f.mu.Lock()
	defer f.mu.Unlock()
	f.slow = d
}

// Reset makes the node forget everything
func (f *Node) Reset(leads bool, leader string) {
	f.Leads.Store(leads)
	f.LeaderIs.Store(leader)
	f.Flips, f.Where = nil, nil
	f.Asked.Store(0)
	f.Slow(0)
	f.Take()
}

// Take returns the recorded calls and forgets them
func (f *Node) Take() map[string]int {
	f.mu.Lock()
	defer f.mu.Unlock()
	c := f.calls
	f.calls = map[string]int{}
	return c
}

func (f *Node) Join(nodeID string, addr string) error {
	return f.call("join %q %q", nodeID, addr)
}
func (f *Node) PrometheusRegistry() prometheus.Registerer { return nil }
func (f *Node) Leader() string {
	n := f.Asked.Add(1)
	if f.Where != nil {
		return f.Where(n)
	}
	return f.LeaderIs.Load().(string)
}

func (f *Node) IsLeader() bool {
	n := f.Asked.Add(1)
	if f.Flips != nil {
		return f.Flips(n)
	}
	return f.Leads.Load()
}
func (f *Node) GenerateID() uint64 { return 7 }
func (f *Node) CreateQueue(queueType, queueName string) error {
	return f.call("create %q %q", queueType, queueName)
}
func (f *Node) DeleteQueue(queueName string) error { return f.call("delete %q", queueName) }
func (f *Node) GetQueues() []*queue.QueueInfo      { return nil }
func (f *Node) GetQueueInfo(queueName string) (*queue.QueueInfo, error) {
	return nil, errors.New("not scripted")
}

// made makes a message from the arguments
func made(id uint64, group string, prio int64, content string) *queue.Message {
	return &queue.Message{ID: id, Group: group, Priority: prio, Content: content}
}

func (f *Node) Enqueue(queueName string, group string, priority int64, content string) (*queue.Message, error) {
	err := f.call("enqueue %q %q %d %q", queueName, group, priority, content)
	if err != nil {
		return nil, err
	}
	h := fnv.New64a()
	fmt.Fprint(h, queueName, group, priority, content)
	return made(h.Sum64()>>1, group, priority, content), nil
}

func (f *Node) Dequeue(queueName string, ack bool) (*queue.Message, error) {
	err := f.call("dequeue %q %v", queueName, ack)
	if err != nil {
		return nil, err
	}
	h := fnv.New64a()
	fmt.Fprint(h, queueName, ack)
	r := rand.New(rand.NewPCG(h.Sum64(), 1))
	group := seq.Groups(r, 5)[r.IntN(5)]
	if group == "" {
		group = "default"
	}
	prio := []int64{0, 1, math.MaxInt64, 1<<53 + 1, int64(r.IntN(1000))}[r.IntN(5)]
	return made(r.Uint64()>>uint(1+r.IntN(60)), group, prio, seq.Content(r, "hostile", 1)), nil
}

func (f *Node) Ack(queueName string, id uint64) error  { return f.call("ack %q %d", queueName, id) }
func (f *Node) Nack(queueName string, id uint64) error { return f.call("nack %q %d", queueName, id) }
func (f *Node) GetByID(id uint64) (*queue.Message, error) {
	return nil, errors.New("not scripted")
}
func (f *Node) UpdatePriority(queueName string, id uint64, priority int64) error {
	return f.call("update %q %d %d", queueName, id, priority)
}
