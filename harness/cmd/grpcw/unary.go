package main

import (
	"context"
	"fmt"
	"io"
	"math"
	"math/rand/v2"
	"net"
	"reflect"
	"strings"
	"sync"
	"sync/atomic"
	"time"

	"doqverif/core"
	"doqverif/fake"
	"doqverif/seq"

	doqgrpc "github.com/kgantsov/doq/pkg/grpc"
	doqhttp "github.com/kgantsov/doq/pkg/http"
	pb "github.com/kgantsov/doq/pkg/proto"
	"google.golang.org/grpc"
	"google.golang.org/grpc/credentials/insecure"
	"google.golang.org/grpc/status"
	"google.golang.org/protobuf/encoding/protojson"
	"google.golang.org/protobuf/proto"
)

// relay passes connections on to another host; on demand it cuts one when the
// answer to a request arrives
type relay struct {
	to  string
	cut atomic.Bool
}

func (y *relay) run(l net.Listener) {
	for {
		c, err := l.Accept()
		if err != nil {
			return
		}
		go func() {
			defer c.Close()
			s, err := net.Dial("tcp", y.to)
			if err != nil {
				return
			}
			defer s.Close()
			go func() { io.Copy(s, c); s.(*net.TCPConn).CloseWrite() }()
			buf := make([]byte, 1<<20)
			for {
				n, err := s.Read(buf)
				if n > 0 {
					if hasData(buf[:n]) && y.cut.CompareAndSwap(true, false) {
						c.(*net.TCPConn).SetLinger(0)
						return
					}
					if _, err := c.Write(buf[:n]); err != nil {
						return
					}
				}
				if err != nil {
					return
				}
			}
		}()
	}
}

// hasData tells if there is a frame of headers or data, which begin an answer
func hasData(b []byte) bool {
	for len(b) >= 9 {
		n := int(b[0])<<16 | int(b[1])<<8 | int(b[2])
		if b[3] <= 1 {
			return true
		}
		if len(b) < 9+n {
			return false
		}
		b = b[9+n:]
	}
	return false
}

func serveGRPC(node doqhttp.Node, port int, l net.Listener) *grpc.Server {
	s, err := doqgrpc.NewGRPCServer(node, port)
	if err != nil {
		panic(fmt.Sprintf("harness: %v", err))
	}
	go s.Serve(l)
	return s
}

func dial(host string, port int) pb.DOQClient {
	c, err := grpc.Dial(fmt.Sprintf("passthrough:///%s:%d", host, port), grpc.WithTransportCredentials(insecure.NewCredentials()))
	if err != nil {
		panic(fmt.Sprintf("harness: %v", err))
	}
	return pb.NewDOQClient(c)
}

// listen listens on one port of many hosts
func listen(hosts ...string) ([]net.Listener, int) {
	for try := 0; try < 100; try++ {
		l, err := net.Listen("tcp", hosts[0]+":0")
		if err != nil {
			panic(fmt.Sprintf("harness: %v", err))
		}
		port := l.Addr().(*net.TCPAddr).Port
		ls := []net.Listener{l}
		for _, x := range hosts[1:] {
			l, err := net.Listen("tcp", fmt.Sprintf("%s:%d", x, port))
			if err != nil {
				break
			}
			ls = append(ls, l)
		}
		if len(ls) == len(hosts) {
			return ls, port
		}
		for _, l := range ls {
			l.Close()
		}
	}
	panic("harness: no port")
}

func address(shard, k int) string { return fmt.Sprintf("127.%d.%d.%d", 30+shard, 1+k/200, 1+k%200) }

// hosts is a set of nodes on loopback addresses with one port
type hosts struct {
	port               int
	l1, l2, f1, f2, f3 *fake.Node
	h                  [5]string
	c                  [5]pb.DOQClient
	hrelay, hang, dead string
	relay              *relay
}

func newHosts(shard int) *hosts {
	h := &hosts{}
	host := func(k int) string { return address(shard, k) }
	names := []string{}
	for i := range h.h {
		h.h[i] = host(i + 1)
		names = append(names, h.h[i])
	}
	h.hrelay, h.hang, h.dead = host(6), host(7), host(8)
	ls, port := listen(append(names, h.hrelay, h.hang)...)
	h.port = port
	h.l1, h.l2, h.f1, h.f2, h.f3 = fake.New("l1"), fake.New("l2"), fake.New("f1"), fake.New("f2"), fake.New("f3")
	for i, n := range h.nodes() {
		serveGRPC(n, port, ls[i])
		h.c[i] = dial(h.h[i], port)
	}
	h.relay = &relay{to: fmt.Sprintf("%s:%d", h.h[0], port)}
	go h.relay.run(ls[5])
	go func() {
		// accepts and never answers
		for {
			c, err := ls[6].Accept()
			if err != nil {
				return
			}
			go io.Copy(io.Discard, c)
		}
	}()
	h.reset()
	return h
}

func (h *hosts) nodes() []*fake.Node { return []*fake.Node{h.l1, h.l2, h.f1, h.f2, h.f3} }

// reset makes everything healthy, except for the last node
func (h *hosts) reset() {
	h.l1.Reset(true, h.h[0])
	h.l2.Reset(true, h.h[1])
	h.f1.Reset(false, h.h[0])
	h.f2.Reset(false, h.h[0])
	h.relay.cut.Store(false)
}

// request is a request that can be sent several times
type request struct {
	what string
	in   proto.Message
}

func (q request) String() string {
	b, _ := protojson.Marshal(q.in)
	return fmt.Sprintf("%s %.400s", q.what, b)
}

func (q request) send(c pb.DOQClient) (proto.Message, error) {
	ctx, cancel := context.WithTimeout(context.Background(), 60*time.Second)
	defer cancel()
	switch in := q.in.(type) {
	case *pb.CreateQueueRequest:
		return c.CreateQueue(ctx, in)
	case *pb.DeleteQueueRequest:
		return c.DeleteQueue(ctx, in)
	case *pb.EnqueueRequest:
		return c.Enqueue(ctx, in)
	case *pb.DequeueRequest:
		return c.Dequeue(ctx, in)
	case *pb.AckRequest:
		return c.Ack(ctx, in)
	case *pb.NackRequest:
		return c.Nack(ctx, in)
	case *pb.UpdatePriorityRequest:
		return c.UpdatePriority(ctx, in)
	}
	panic("harness: unknown request")
}

var longPool = []string{"<", "&", "\"", "\\", "ü", "日", "\u2028", "x", "\x00", "👍"}

func generate(r *rand.Rand, uniq string, big bool) request {
	q := seq.Names(r, "hostile", 1)[0]
	if uniq != "" {
		q += uniq
	} else if r.IntN(6) == 0 {
		q = strings.Repeat(longPool[r.IntN(len(longPool))], 1+r.IntN(3000))
	}
	id := []uint64{0, 1, uint64(r.IntN(1000)), r.Uint64(), math.MaxInt64, math.MaxUint64, r.Uint64() >> 20}[r.IntN(7)]
	prio := []int64{0, 1, int64(r.IntN(100)), math.MaxInt64, math.MinInt64, -1, 1<<53 + 1, r.Int64(), -r.Int64()}[r.IntN(9)]
	switch r.IntN(8) {
	case 0:
		return request{"create", &pb.CreateQueueRequest{Name: q, Type: []string{"delayed", "fair", "", "other"}[r.IntN(4)]}}
	case 1:
		return request{"delete", &pb.DeleteQueueRequest{Name: q}}
	case 2, 3:
		content := seq.Content(r, "hostile", r.Uint64N(1000))
		if big {
			s := longPool[r.IntN(len(longPool))]
			content = strings.Repeat(s, r.IntN(3000000)/len(s))
		}
		return request{"enqueue", &pb.EnqueueRequest{QueueName: q, Group: seq.Groups(r, 13)[r.IntN(13)], Priority: prio, Content: content}}
	case 4:
		return request{"dequeue", &pb.DequeueRequest{QueueName: q, Ack: r.IntN(2) == 0}}
	case 5:
		return request{"ack", &pb.AckRequest{QueueName: q, Id: id}}
	case 6:
		return request{"nack", &pb.NackRequest{QueueName: q, Id: id}}
	}
	return request{"update", &pb.UpdatePriorityRequest{QueueName: q, Id: id, Priority: prio}}
}

// outcome is what a client sees of an answer
func outcome(m proto.Message, err error) (ok bool, what string) {
	if err != nil {
		return false, "error " + status.Code(err).String()
	}
	b, _ := proto.MarshalOptions{Deterministic: true}.Marshal(m)
	j, _ := protojson.Marshal(m)
	if len(j) > 300 {
		j = j[:300]
	}
	return true, fmt.Sprintf("%s %x", j, hash(b))
}

func hash(b []byte) (h uint64) {
	for _, c := range b {
		h = (h ^ uint64(c)) * 1099511628211
	}
	return
}

func total(cs ...map[string]int) (n int) {
	for _, c := range cs {
		for _, k := range c {
			n += k
		}
	}
	return
}

func short(c map[string]int) string { return fmt.Sprintf("%.300v", c) }

const bound = 40 * time.Second

// unary: requests to nodes that do not lead, with recording stand-ins for the nodes
func unary(a *core.Args, rep *core.Report) {
	rep.Rule = "the same generated request is sent to the leader and to another node, with stand-ins for the nodes that record what they are asked to do; many at the same time while the believed leader changes; and without a leader, with leaders that are none, are not there, do not answer or break the connection; non-trivial: the leader was asked to do something"
	for k, v := range map[string]int64{"same": 10000, "same-executed": 8000, "same-refused-by-leader": 1000, "concurrent": 10000, "while-leader-changes": 5000, "leader-changes": 2000, "no-leader": 60, "circle": 120, "not-a-leader": 60, "not-there": 50, "cut": 100, "hanging": 20, "flips": 100} {
		rep.Floor(k, v)
	}
	h := newHosts(a.Shard)
	n := pick(a, 1600, 40000)
	var mu sync.Mutex
	violate := func(ci int, kind, format string, args ...any) {
		mu.Lock()
		defer mu.Unlock()
		rep.Violate(core.Violation{Case: ci, Kind: kind, Msg: fmt.Sprintf(format, args...)})
	}
	var wg sync.WaitGroup
	if a.Only < 0 {
		h.f3.Reset(false, h.hang)
		hanging(a, rep, h, &wg, violate)
	}
	core.Cases(a, n, func(ci int) {
		r := core.Rand(a, "unary", ci)
		h.reset()
		switch {
		case ci/8%4 == 3:
			concurrently(rep, h, r, ci, violate)
		case ci/8%4 == 2:
			failing(rep, h, r, ci, violate)
		default:
			for k := 0; k < 20; k++ {
				compare(rep, h, r, ci, violate)
			}
		}
	})
	wg.Wait()
}

// compare sends a request to the leader and to another node
func compare(rep *core.Report, h *hosts, r *rand.Rand, ci int, violate func(int, string, string, ...any)) {
	h.reset()
	q := generate(r, "", r.IntN(16) == 0)
	core.Touch()
	ok1, w1 := outcome(q.send(h.c[0]))
	c1 := h.l1.Take()
	ok2, w2 := outcome(q.send(h.c[2]))
	c2, c3 := h.l1.Take(), h.f1.Take()
	rep.Count("same", 1)
	if len(c1) > 0 {
		rep.Count("same-executed", 1)
		if !ok1 {
			rep.Count("same-refused-by-leader", 1)
		}
	}
	rep.Done(len(c1) > 0, fmt.Sprint(q.what, w1, hash([]byte(fmt.Sprint(c1)))), func() any {
		return map[string]any{"case": ci, "request": q.String(), "leader": w1, "other node": w2, "calls": short(c1)}
	})
	switch {
	case total(c1) != 1:
		violate(ci, "calls", "%s\n sent to the leader was executed %d times: %s", q, total(c1), w1)
	case len(c3) > 0:
		violate(ci, "executed", "%s\n was executed by a node that does not lead: %s", q, short(c3))
	case !reflect.DeepEqual(c1, c2):
		violate(ci, "calls", "%s\n sent to the leader: %s\n sent to another node: %s\n leader: %s\n other node: %s", q, short(c1), short(c2), w1, w2)
	case ok1 != ok2 || w1 != w2:
		violate(ci, "result", "%s\n the leader answers %s\n another node answers %s", q, w1, w2)
	}
}

// concurrently sends many requests at the same time
func concurrently(rep *core.Report, h *hosts, r *rand.Rand, ci int, violate func(int, string, string, ...any)) {
	n := 20 + r.IntN(100)
	type result struct {
		q    request
		what string
	}
	res := make([]result, n)
	seed := r.Uint64()
	if r.IntN(2) == 0 {
		h.l1.Slow(time.Duration(r.IntN(5)) * time.Millisecond)
		h.l2.Slow(time.Duration(r.IntN(5)) * time.Millisecond)
	}
	changing := r.IntN(3) > 0
	var changes atomic.Int64
	if changing {
		// the believed leader changes all the time
		f := func(k int64) string {
			x := (uint64(k) * 0x9e3779b97f4a7c15) >> 60
			if x < 5 {
				changes.Add(1)
				return h.h[1]
			}
			return h.h[0]
		}
		h.f1.Where, h.f2.Where = f, f
	}
	var wg sync.WaitGroup
	for i := range res {
		wg.Add(1)
		go func() {
			defer wg.Done()
			r := rand.New(rand.NewPCG(seed, uint64(i)))
			x := &res[i]
			x.q = generate(r, fmt.Sprintf("-%d-%d", ci, i), r.IntN(64) == 0)
			_, x.what = outcome(x.q.send(h.c[2+i%2]))
		}()
	}
	wg.Wait()
	core.Touch()
	rep.Count("leader-changes", changes.Load())
	got := h.l1.Take()
	for k, v := range h.l2.Take() {
		got[k] += v
	}
	if c, d := h.f1.Take(), h.f2.Take(); len(c)+len(d) > 0 {
		violate(ci, "executed", "executed by a node that does not lead: %s %s", short(c), short(d))
	}
	// what the leader does if it is asked directly, one after the other
	h.reset()
	want := map[string]int{}
	for i := range res {
		x := &res[i]
		_, what := outcome(x.q.send(h.c[0]))
		for k, v := range h.l1.Take() {
			want[k] += v
		}
		if what != x.what {
			violate(ci, "result", "%s\n the leader answers %s\n another node answered %s, with %d others at the same time", x.q, what, x.what, n-1)
			return
		}
		rep.Count("concurrent", 1)
		if changing {
			rep.Count("while-leader-changes", 1)
		}
	}
	if !reflect.DeepEqual(got, want) {
		var diff []string
		for k, v := range want {
			if got[k] != v {
				diff = append(diff, fmt.Sprintf("%.100s: %d times instead of %d", k, got[k], v))
			}
		}
		for k, v := range got {
			if want[k] == 0 {
				diff = append(diff, fmt.Sprintf("%.100s: %d times instead of 0", k, v))
			}
		}
		violate(ci, "calls", "%d requests at the same time: %v", n, diff)
	}
	rep.Done(len(got) > 0, fmt.Sprint(hash([]byte(fmt.Sprint(want)))), nil)
}

// failing sends requests while something is wrong with the leader
func failing(rep *core.Report, h *hosts, r *rand.Rand, ci int, violate func(int, string, string, ...any)) {
	for k := 0; k < 3; k++ {
		h.reset()
		q := generate(r, "", false)
		kind := []string{"no-leader", "circle", "circle", "not-a-leader", "not-there", "cut", "cut", "flips", "flips"}[r.IntN(9)]
		lenient := false
		switch kind {
		case "no-leader":
			h.f1.LeaderIs.Store("")
		case "circle":
			if r.IntN(3) == 0 {
				h.f1.LeaderIs.Store(h.h[2])
			} else {
				h.f1.LeaderIs.Store(h.h[3])
				h.f2.LeaderIs.Store(h.h[2])
			}
		case "not-a-leader":
			h.f1.LeaderIs.Store(h.h[3])
			lenient = true
		case "not-there":
			h.f1.LeaderIs.Store(h.dead)
		case "cut":
			h.f1.LeaderIs.Store(h.hrelay)
			// the connection works and may have been used before
			if !comesBack(h) {
				violate(ci, kind, "requests do not reach the leader again within a minute after a broken connection")
				return
			}
			h.relay.cut.Store(true)
		case "flips":
			// the node begins to lead, or ceases to, while it handles the request
			at, to := int64(1+r.IntN(5)), r.IntN(2) == 0
			h.f1.Flips = func(n int64) bool { return (n >= at) == to }
			lenient = true
		}
		core.Touch()
		begin := time.Now()
		ok, what := outcome(q.send(h.c[2]))
		took := time.Since(begin)
		calls := []map[string]int{h.l1.Take(), h.l2.Take(), h.f1.Take(), h.f2.Take()}
		n := total(calls...)
		asked := h.f1.Asked.Load() + h.f2.Asked.Load()
		rep.Count(kind, 1)
		rep.Done(true, fmt.Sprint(kind, q.what, what, n), nil)
		switch {
		case took > bound:
			violate(ci, kind, "%s: %s\n was answered after %s: %s", kind, q, took, what)
		case n > 1:
			violate(ci, kind, "%s: %s\n was executed %d times: %.1000v", kind, q, n, calls)
		case ok && !lenient:
			violate(ci, kind, "%s: %s\n succeeded: %s", kind, q, what)
		case ok && n != 1:
			violate(ci, kind, "%s: %s\n succeeded without being executed: %s", kind, q, what)
		case (kind == "no-leader" || kind == "circle" || kind == "not-there") && n > 0:
			violate(ci, kind, "%s: %s\n was executed: %.1000v", kind, q, calls)
		case asked > 300:
			violate(ci, kind, "%s: %s\n went in circles: nodes were asked %d times who leads", kind, q, asked)
		}
	}
	// the leader is found again
	h.reset()
	q := request{"ack", &pb.AckRequest{QueueName: fmt.Sprint("after-", ci), Id: 1}}
	_, w1 := outcome(q.send(h.c[0]))
	_, w2 := outcome(q.send(h.c[2]))
	if w1 != w2 {
		violate(ci, "again", "after a failure %s\n the leader answers %s\n another node answers %s", q, w1, w2)
	}
}

// comesBack waits until requests reach the leader
func comesBack(h *hosts) bool {
	until := time.Now().Add(60 * time.Second)
	for i := 0; time.Now().Before(until); i++ {
		h.l1.Take()
		request{"ack", &pb.AckRequest{QueueName: "other", Id: uint64(i)}}.send(h.c[2])
		if len(h.l1.Take()) > 0 {
			return true
		}
		core.Touch()
		time.Sleep(20 * time.Millisecond)
	}
	return false
}

// hanging sends requests while the believed leader does not answer
func hanging(a *core.Args, rep *core.Report, h *hosts, wg *sync.WaitGroup, violate func(int, string, string, ...any)) {
	for i := 0; i < 8; i++ {
		wg.Add(1)
		go func() {
			defer wg.Done()
			q := generate(core.Rand(a, "hanging", i*100+a.Shard), "", false)
			begin := time.Now()
			ok, what := outcome(q.send(h.c[4]))
			took := time.Since(begin)
			core.Touch()
			rep.Count("hanging", 1)
			if ok {
				violate(-1, "hanging", "%s\n succeeded although the believed leader does not answer: %s", q, what)
			}
			if took > bound {
				violate(-1, "hanging", "%s\n was answered after %s", q, took)
			}
		}()
	}
}
