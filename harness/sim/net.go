// Package sim runs several nodes in one process, in virtual time, connected by
// a network that can lose and delay messages and be partitioned.
package sim

import (
	"bytes"
	"errors"
	"fmt"
	"io"
	"math/rand/v2"
	"sync"
	"time"

	"github.com/hashicorp/go-msgpack/v2/codec"
	"github.com/hashicorp/raft"
)

// Net is a network.
type Net struct {
	mu    sync.Mutex
	r     *rand.Rand
	hosts map[raft.ServerAddress]*Transport
	cut   map[[2]raft.ServerAddress]bool // one direction each
	// Delay is the upper bound of the delay of a message
	Delay time.Duration
	// Loss is the probability that a message is lost, in per mille
	Loss int
	// RPCs counts the requests that were answered
	RPCs      int64
	Snapshots int64
}

// NewNet makes a network.
func NewNet(seed uint64) *Net {
	return &Net{
		r: rand.New(rand.NewPCG(seed, 77)), hosts: map[raft.ServerAddress]*Transport{},
		cut: map[[2]raft.ServerAddress]bool{}, Delay: 2 * time.Millisecond,
	}
}

// Cut cuts or mends the link from a to b.
func (n *Net) Cut(a, b string, cut bool) {
	n.mu.Lock()
	defer n.mu.Unlock()
	k := [2]raft.ServerAddress{raft.ServerAddress(a), raft.ServerAddress(b)}
	if cut {
		n.cut[k] = true
	} else {
		delete(n.cut, k)
	}
}

// Heal mends all links.
func (n *Net) Heal() {
	n.mu.Lock()
	defer n.mu.Unlock()
	n.cut = map[[2]raft.ServerAddress]bool{}
	n.Loss = 0
}

// Transport is the transport of one node.
type Transport struct {
	net       *Net
	addr      raft.ServerAddress
	consumer  chan raft.RPC
	mu        sync.Mutex
	heartbeat func(raft.RPC)
	closed    chan struct{}
	once      sync.Once
}

// New attaches a node to the network, in place of an earlier one.
func (n *Net) New(addr string) *Transport {
	t := &Transport{
		net: n, addr: raft.ServerAddress(addr), consumer: make(chan raft.RPC), closed: make(chan struct{}),
	}
	n.mu.Lock()
	defer n.mu.Unlock()
	n.hosts[t.addr] = t
	return t
}

// Close detaches the node.
func (t *Transport) Close() error {
	t.once.Do(func() {
		close(t.closed)
		t.net.mu.Lock()
		defer t.net.mu.Unlock()
		if t.net.hosts[t.addr] == t {
			delete(t.net.hosts, t.addr)
		}
	})
	return nil
}

var errUnreachable = errors.New("unreachable")
var errTimeout = errors.New("i/o timeout")

// pass lets a message pass from a to b, or fails after a while
func (n *Net) pass(a, b raft.ServerAddress) (*Transport, error) {
	n.mu.Lock()
	var d time.Duration
	if n.Delay > 0 {
		d = time.Duration(n.r.Int64N(int64(n.Delay)))
	}
	lost := n.r.IntN(1000) < n.Loss
	n.mu.Unlock()
	time.Sleep(d)
	n.mu.Lock()
	defer n.mu.Unlock()
	t := n.hosts[b]
	if t == nil {
		return nil, errUnreachable
	}
	if lost || n.cut[[2]raft.ServerAddress{a, b}] {
		return nil, errTimeout
	}
	return t, nil
}

func copyMsg(in, out any) error {
	var buf bytes.Buffer
	enc := codec.NewEncoder(&buf, &codec.MsgpackHandle{BasicHandle: codec.BasicHandle{TimeNotBuiltin: true}})
	if err := enc.Encode(in); err != nil {
		return err
	}
	return codec.NewDecoder(&buf, &codec.MsgpackHandle{}).Decode(out)
}

func (t *Transport) call(target raft.ServerAddress, args, argsCopy any, data io.Reader, resp any) error {
	select {
	case <-t.closed:
		return raft.ErrTransportShutdown
	default:
	}
	if err := copyMsg(args, argsCopy); err != nil {
		panic(fmt.Sprintf("harness: %v", err))
	}
	fail := func(err error) error {
		if err == errTimeout {
			time.Sleep(500 * time.Millisecond)
		}
		return err
	}
	peer, err := t.net.pass(t.addr, target)
	if err != nil {
		return fail(err)
	}
	ch := make(chan raft.RPCResponse, 1)
	rpc := raft.RPC{Command: argsCopy, RespChan: ch}
	if data != nil {
		all, err := io.ReadAll(data)
		if err != nil {
			return err
		}
		rpc.Reader = bytes.NewReader(all)
	}
	handled := false
	if a, ok := argsCopy.(*raft.AppendEntriesRequest); ok {
		if a.Term != 0 && a.PrevLogEntry == 0 && a.PrevLogTerm == 0 && len(a.Entries) == 0 && a.LeaderCommitIndex == 0 {
			peer.mu.Lock()
			h := peer.heartbeat
			peer.mu.Unlock()
			if h != nil {
				h(rpc)
				handled = true
			}
		}
	}
	timeout := time.NewTimer(10 * time.Second)
	defer timeout.Stop()
	if !handled {
		select {
		case peer.consumer <- rpc:
		case <-peer.closed:
			return errUnreachable
		case <-t.closed:
			return raft.ErrTransportShutdown
		case <-timeout.C:
			return errTimeout
		}
	}
	var r raft.RPCResponse
	select {
	case r = <-ch:
	case <-peer.closed:
		// an answer that was given just before
		select {
		case r = <-ch:
		default:
			return errUnreachable
		}
	case <-t.closed:
		return raft.ErrTransportShutdown
	case <-timeout.C:
		return errTimeout
	}
	if _, err := t.net.pass(target, t.addr); err != nil {
		return fail(err)
	}
	if r.Error != nil {
		return errors.New(r.Error.Error())
	}
	t.net.mu.Lock()
	t.net.RPCs++
	if data != nil {
		t.net.Snapshots++
	}
	t.net.mu.Unlock()
	return copyMsg(r.Response, resp)
}

func (t *Transport) Consumer() <-chan raft.RPC     { return t.consumer }
func (t *Transport) LocalAddr() raft.ServerAddress { return t.addr }

func (t *Transport) AppendEntriesPipeline(id raft.ServerID, target raft.ServerAddress) (raft.AppendPipeline, error) {
	return nil, raft.ErrPipelineReplicationNotSupported
}

func (t *Transport) AppendEntries(id raft.ServerID, target raft.ServerAddress, args *raft.AppendEntriesRequest, resp *raft.AppendEntriesResponse) error {
	return t.call(target, args, &raft.AppendEntriesRequest{}, nil, resp)
}

func (t *Transport) RequestVote(id raft.ServerID, target raft.ServerAddress, args *raft.RequestVoteRequest, resp *raft.RequestVoteResponse) error {
	return t.call(target, args, &raft.RequestVoteRequest{}, nil, resp)
}

func (t *Transport) RequestPreVote(id raft.ServerID, target raft.ServerAddress, args *raft.RequestPreVoteRequest, resp *raft.RequestPreVoteResponse) error {
	return t.call(target, args, &raft.RequestPreVoteRequest{}, nil, resp)
}

func (t *Transport) InstallSnapshot(id raft.ServerID, target raft.ServerAddress, args *raft.InstallSnapshotRequest, resp *raft.InstallSnapshotResponse, data io.Reader) error {
	return t.call(target, args, &raft.InstallSnapshotRequest{}, data, resp)
}

func (t *Transport) TimeoutNow(id raft.ServerID, target raft.ServerAddress, args *raft.TimeoutNowRequest, resp *raft.TimeoutNowResponse) error {
	return t.call(target, args, &raft.TimeoutNowRequest{}, nil, resp)
}

func (t *Transport) EncodePeer(id raft.ServerID, addr raft.ServerAddress) []byte { return []byte(addr) }
func (t *Transport) DecodePeer(b []byte) raft.ServerAddress                      { return raft.ServerAddress(b) }
func (t *Transport) SetHeartbeatHandler(cb func(raft.RPC)) {
	t.mu.Lock()
	defer t.mu.Unlock()
	t.heartbeat = cb
}
