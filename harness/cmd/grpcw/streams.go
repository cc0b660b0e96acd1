package main

import (
	"context"
	"fmt"
	"io"
	"math/rand/v2"
	"net"
	"sort"
	"strings"
	"sync"
	"time"

	"doqverif/core"
	"doqverif/sim"

	pb "github.com/kgantsov/doq/pkg/proto"
	"google.golang.org/grpc"
	"google.golang.org/grpc/credentials/insecure"
)

// pipes is a listener of connections within the process
type pipes struct {
	ch   chan net.Conn
	done chan struct{}
	once sync.Once
}

func newPipes() *pipes { return &pipes{ch: make(chan net.Conn), done: make(chan struct{})} }

func (p *pipes) Accept() (net.Conn, error) {
	select {
	case c := <-p.ch:
		return c, nil
	case <-p.done:
		return nil, net.ErrClosed
	}
}

func (p *pipes) Close() error   { p.once.Do(func() { close(p.done) }); return nil }
func (p *pipes) Addr() net.Addr { return &net.TCPAddr{IP: net.IPv4(127, 0, 0, 1), Port: 9000} }

func (p *pipes) dial(ctx context.Context, _ string) (net.Conn, error) {
	a, b := net.Pipe()
	select {
	case p.ch <- b:
		return a, nil
	case <-p.done:
		return nil, net.ErrClosed
	case <-ctx.Done():
		return nil, ctx.Err()
	}
}

// what happened to a message, as clients saw it
type life struct {
	id         uint64
	queue      string
	group      string
	prio       int64
	content    string
	enqueued   time.Time // of the answer
	called     time.Time
	deliveries []delivery
	nacks      []span // that succeeded
	acks       []span
	failed     []span // acks and nacks that failed
}

type delivery struct {
	at       time.Time
	consumer int
	ack      bool
	n        int // in the order of all events
}

type span struct{ from, to time.Time }

// consumer is an open stream
type consumer struct {
	k       int
	queue   string
	ack     bool
	kind    string // healthy stuck slow
	opened  time.Time
	closing time.Time // from then on it may not see what it is sent
	cancel  context.CancelFunc
	got     int
	ended   error
}

type world struct {
	mu     sync.Mutex
	rep    *core.Report
	T, I   int64
	types  map[string]string
	lives  map[uint64]*life
	cons   []*consumer
	odd    []string
	kinds  map[string]bool
	trace  []string
	began  time.Time
	events int
	n      map[string]int64
	end    time.Time
}

func (w *world) note(format string, args ...any) {
	w.trace = append(w.trace, fmt.Sprintf("%8.3f ", time.Since(w.began).Seconds())+fmt.Sprintf(format, args...))
	core.Touch()
}

func (w *world) wrong(format string, args ...any) {
	if len(w.odd) < 20 {
		w.odd = append(w.odd, fmt.Sprintf(format, args...))
	}
	w.note("WRONG "+format, args...)
}

// enqueued records the answer to an enqueue
func (w *world) enqueued(called time.Time, in *pb.EnqueueRequest, out *pb.EnqueueResponse, how string) {
	w.mu.Lock()
	defer w.mu.Unlock()
	w.n["enqueued-"+how]++
	w.note("%s %q group %q priority %d (%d bytes): %d", how, in.QueueName, in.Group, in.Priority, len(in.Content), out.Id)
	if !out.Success || out.Content != in.Content || out.Priority != in.Priority || w.types[in.QueueName] == "fair" && out.Group != in.Group {
		w.wrong("the answer to an enqueue of %.60v is %.100v", in, out)
	}
	if took := time.Since(called); took > 2*time.Second {
		w.wrong("%s took %s", how, took)
	}
	l := w.lives[out.Id]
	if l == nil {
		l = &life{id: out.Id}
		w.lives[out.Id] = l
	} else if !l.enqueued.IsZero() {
		w.wrong("id %d was given twice", out.Id)
	} else if l.content != in.Content || l.prio != in.Priority || l.queue != in.QueueName {
		w.wrong("message %d was delivered as %.100v instead of %.100v", out.Id, l, in)
	}
	l.queue, l.group, l.prio, l.content, l.enqueued, l.called = in.QueueName, in.Group, in.Priority, in.Content, time.Now(), called
	if w.types[in.QueueName] != "fair" {
		// such queues have no groups
		l.group = "default"
	}
}

// consume opens a stream and reads it
func (w *world) consume(c pb.DOQClient, q string, ack bool, kind string, pause func() time.Duration) *consumer {
	ctx, cancel := context.WithCancel(context.Background())
	w.mu.Lock()
	k := &consumer{k: len(w.cons), queue: q, ack: ack, kind: kind, opened: time.Now(), cancel: cancel}
	w.cons = append(w.cons, k)
	w.n["consumers-"+kind]++
	w.note("consumer %d (%s) opens %q ack=%v", k.k, kind, q, ack)
	w.mu.Unlock()
	s, err := c.DequeueStream(ctx, &pb.DequeueRequest{QueueName: q, Ack: ack})
	if err != nil {
		w.mu.Lock()
		w.wrong("a stream cannot be opened: %v", err)
		w.mu.Unlock()
		return k
	}
	go func() {
		if kind == "stuck" {
			<-ctx.Done()
			return
		}
		for {
			if pause != nil {
				select {
				case <-time.After(pause()):
				case <-ctx.Done():
				}
			}
			m, err := s.Recv()
			w.mu.Lock()
			if err != nil {
				k.ended = err
				if k.closing.IsZero() {
					w.wrong("the stream of consumer %d ended: %v", k.k, err)
				}
				w.mu.Unlock()
				return
			}
			w.events++
			k.got++
			w.n["delivered"]++
			w.note("consumer %d gets %d", k.k, m.Id)
			l := w.lives[m.Id]
			if l == nil {
				// its enqueue is not answered yet
				l = &life{id: m.Id, queue: q, content: m.Content, prio: m.Priority, group: m.Group}
				w.lives[m.Id] = l
			}
			want := l.group
			if !m.Success || m.Content != l.content || m.Priority != l.prio || m.Group != want {
				w.wrong("consumer %d got %.100v instead of %.100v", k.k, m, l)
			}
			if l.queue != q {
				w.wrong("consumer %d of %q got message %d of %q", k.k, q, m.Id, l.queue)
			}
			l.deliveries = append(l.deliveries, delivery{time.Now(), k.k, ack, w.events})
			w.mu.Unlock()
		}
	}()
	return k
}

// closes ends a stream
func (w *world) closes(k *consumer) {
	w.mu.Lock()
	k.closing = time.Now()
	w.note("consumer %d closes", k.k)
	w.mu.Unlock()
	k.cancel()
}

// settle acknowledges messages, or not
func (w *world) settle(c pb.DOQClient, r *rand.Rand) {
	w.mu.Lock()
	var held []*life
	for _, l := range w.lives {
		if n := len(l.deliveries); n > 0 && !l.deliveries[n-1].ack && len(l.acks) == 0 && len(l.nacks) < n {
			held = append(held, l)
		}
	}
	w.mu.Unlock()
	if len(held) == 0 {
		return
	}
	sort.Slice(held, func(i, j int) bool { return held[i].id < held[j].id })
	for k := 1 + r.IntN(4); k > 0 && len(held) > 0; k-- {
		i := r.IntN(len(held))
		l := held[i]
		held = append(held[:i], held[i+1:]...)
		ack := r.IntN(3) > 0
		from := time.Now()
		var err error
		if ack {
			_, err = c.Ack(soon(), &pb.AckRequest{QueueName: l.queue, Id: l.id})
		} else {
			_, err = c.Nack(soon(), &pb.NackRequest{QueueName: l.queue, Id: l.id})
		}
		w.mu.Lock()
		s := span{from, time.Now()}
		if took := s.to.Sub(from); took > 2*time.Second {
			w.wrong("an acknowledgement took %s", took)
		}
		w.note("ack=%v of %d: %v", ack, l.id, err)
		switch {
		case err != nil:
			l.failed = append(l.failed, s)
		case ack:
			w.n["acks"]++
			l.acks = append(l.acks, s)
		default:
			w.n["nacks"]++
			l.nacks = append(l.nacks, s)
		}
		w.mu.Unlock()
	}
}

// soon bounds how long a request may take
func soon() context.Context {
	ctx, _ := context.WithTimeout(context.Background(), time.Minute)
	return ctx
}

// moment is what is between two events at the same virtual time
const moment = 50 * time.Millisecond

// latest is how long a message may be ready while a consumer waits
const latest = 1500 * time.Millisecond

// ready returns the times from which on the message was certainly ready, with
// what ended that, as clients can tell
func (w *world) ready(l *life) (out []span) {
	if l.enqueued.IsZero() {
		return nil
	}
	due := func(t time.Time) time.Time {
		if w.types[l.queue] != "fair" {
			if d := time.Unix(l.prio, 0); d.After(t) {
				return d
			}
		}
		return t
	}
	type start struct {
		at    time.Time
		since time.Time // deliveries from then on end it
		after int       // and deliveries from this one on
		lease bool
	}
	starts := []start{{at: due(l.enqueued), since: l.called}}
	for _, x := range l.nacks {
		starts = append(starts, start{at: due(x.to), since: x.from})
	}
	for i, d := range l.deliveries {
		if !d.ack {
			starts = append(starts, start{at: due(d.at.Add(time.Duration(w.T+w.I+1) * time.Second)), after: i + 1, since: d.at, lease: true})
		}
	}
	for _, s := range starts {
		if s.lease {
			// unless it was settled before
			settled := false
			for _, x := range append(append([]span{}, l.nacks...), l.acks...) {
				settled = settled || !x.to.Before(s.since) && !x.from.After(s.at)
			}
			if settled {
				continue
			}
		}
		end := w.end
		for i, d := range l.deliveries {
			if i >= s.after && !d.at.Before(s.since) && d.at.Before(end) {
				end = d.at
			}
		}
		for _, x := range l.acks {
			if x.from.Before(end) {
				end = x.from
			}
		}
		if end.Before(s.at) {
			end = s.at
		}
		out = append(out, span{s.at, end})
	}
	return out
}

// check judges everything that was recorded
func (w *world) check() {
	minLease := time.Duration(w.T-1) * time.Second
	// consumers that may have been handed a message without anybody seeing it
	blind := func(q string, from, to time.Time) (n int) {
		for _, k := range w.cons {
			if k.queue != q {
				continue
			}
			if k.kind == "stuck" || k.kind == "slow" || !k.closing.IsZero() && !k.closing.After(to) && k.closing.After(from.Add(-latest)) {
				if k.closing.IsZero() || k.closing.Add(time.Second).After(from.Add(-time.Duration(w.T+w.I+2)*time.Second)) {
					n++
				}
			}
		}
		return
	}
	// consumers that wait all the time
	waiting := func(q string, from, to time.Time) bool {
		for _, k := range w.cons {
			if k.queue == q && k.kind == "healthy" && !k.opened.After(from) && (k.closing.IsZero() || k.closing.After(to)) {
				return true
			}
		}
		return false
	}
	late := map[string]int{}
	blinds := map[string]int{}
	var order []*life
	for _, l := range w.lives {
		order = append(order, l)
	}
	sort.Slice(order, func(i, j int) bool { return order[i].id < order[j].id })
	for _, l := range order {
		if l.enqueued.IsZero() {
			w.wrong("message %d was delivered, but no enqueue of it was answered", l.id)
			continue
		}
		for i, d := range l.deliveries {
			if w.types[l.queue] != "fair" && l.prio > d.at.Unix() {
				w.wrong("message %d was delivered %d s too early", l.id, l.prio-d.at.Unix())
			}
			if d.at.Before(l.called) {
				w.wrong("message %d was delivered before it was enqueued", l.id)
			}
			for _, x := range l.acks {
				if d.at.After(x.to.Add(moment)) && w.cons[d.consumer].kind == "healthy" {
					w.wrong("message %d was delivered after it was acknowledged", l.id)
				}
			}
			if i == 0 {
				continue
			}
			p := l.deliveries[i-1]
			if p.ack {
				w.wrong("message %d was delivered again to consumer %d after it was handed to consumer %d for good", l.id, d.consumer, p.consumer)
				continue
			}
			released := !d.at.Before(p.at.Add(minLease)) || w.cons[p.consumer].kind == "slow" || w.cons[d.consumer].kind == "slow"
			for _, x := range l.nacks {
				released = released || !x.to.Before(p.at) && !x.from.After(d.at)
			}
			if !released {
				w.wrong("message %d was handed to consumers %d and %d within %s", l.id, p.consumer, d.consumer, d.at.Sub(p.at))
			} else {
				w.n["redelivered"]++
			}
		}
		var spans []span
		for _, s := range w.ready(l) {
			spans = append(spans, s)
			for _, k := range w.cons {
				// a consumer that opens finds what is there
				if k.queue == l.queue && k.kind == "healthy" && k.opened.After(s.from) && k.opened.Before(s.to) {
					w.n["found"]++
					spans = append(spans, span{k.opened, s.to})
				}
			}
		}
		for _, s := range spans {
			if !waiting(l.queue, s.from, s.from.Add(latest)) || s.from.Add(latest).After(w.end) {
				continue
			}
			w.n["waits"]++
			if took := s.to.Sub(s.from); took > latest {
				if b := blind(l.queue, s.from, s.from.Add(latest)); b > 0 {
					w.n["taken-by-others"]++
					late[l.queue]++
					blinds[l.queue] = max(blinds[l.queue], b)
					if s.to.Sub(s.from) > time.Duration(1+3*b)*time.Duration(w.T+w.I+2)*time.Second+latest && w.kinds["big"] {
						w.wrong("message %d was ready at %.3f s and delivered only after %s", l.id, s.from.Sub(w.began).Seconds(), took)
					}
					continue
				}
				w.wrong("message %d was ready at %.3f s and delivered only after %s, although a consumer waited", l.id, s.from.Sub(w.began).Seconds(), took)
			} else if took < 10*time.Millisecond {
				w.n["at-once"]++
			} else {
				w.n["within-a-second"]++
			}
		}
	}
	w.order(order)
}

// order: a single consumer gets messages in the order of the queue
func (w *world) order(lives []*life) {
	for q := range w.types {
		var only *consumer
		n := 0
		for _, k := range w.cons {
			if k.queue == q {
				only = k
				n++
			}
		}
		if n == 0 || only.kind != "healthy" {
			continue
		}
		single := n == 1
		type ev struct {
			l *life
			d delivery
		}
		var evs []ev
		for _, l := range lives {
			if l.queue == q {
				for _, d := range l.deliveries {
					evs = append(evs, ev{l, d})
				}
			}
		}
		if !single {
			continue
		}
		sort.Slice(evs, func(i, j int) bool { return evs[i].d.n < evs[j].d.n })
		spans := map[*life][]span{}
		for _, l := range lives {
			if l.queue == q {
				spans[l] = w.ready(l)
			}
		}
		for _, e := range evs {
			for _, l := range lives {
				if l == e.l || l.queue != q || w.types[q] == "fair" && l.group != e.l.group {
					continue
				}
				if !(l.prio < e.l.prio || l.prio == e.l.prio && l.id < e.l.id) {
					continue
				}
				for _, s := range spans[l] {
					w.n["order"]++
					if s.from.Add(moment).Before(e.d.at) && s.to.After(e.d.at.Add(moment)) {
						w.wrong("message %d (priority %d) was delivered at %.3f s while %d (priority %d) was ready", e.l.id, e.l.prio, e.d.at.Sub(w.began).Seconds(), l.id, l.prio)
					}
				}
			}
		}
	}
}

// streams: consumers and producers on streams of one node, in virtual time
func streams(a *core.Args, rep *core.Report) {
	rep.Rule = "producers and consumers on gRPC streams of one node in virtual time, with acknowledgements, timeouts, due times, and consumers that close, are cancelled, read slowly or not at all; every delivery and the time it took is checked; non-trivial: at least five messages were delivered on streams"
	for k, v := range map[string]int64{
		"delivered": 5000, "enqueued-stream": 2000, "enqueued-unary": 2000, "waits": 4000, "at-once": 1000, "within-a-second": 500, "order": 1000,
		"redelivered": 500, "nacks": 300, "consumers-stuck": 40, "consumers-slow": 15, "closed": 60, "late-queues": 20, "disconnects": 15, "refused-in-stream": 100, "bulks": 40, "found": 2000,
	} {
		rep.Floor(k, v)
	}
	time.Sleep(time.Until(time.Date(2024, 1, 1, 0, 0, 0, 0, time.UTC)))
	core.Cases(a, pick(a, 1000, 12000), func(ci int) {
		core.AlignClock()
		oneStream(rep, core.Rand(a, "streams", ci), ci)
	})
}

func oneStream(rep *core.Report, r *rand.Rand, ci int) {
	T := []int64{2, 3, 5, 10}[r.IntN(4)]
	I := []int64{1, 1, 2}[r.IntN(3)]
	cl := sim.NewCluster(r.Uint64(), T, I)
	defer cl.Close()
	cl.Form(1)
	p := newPipes()
	srv := serveGRPC(cl.Nodes[0].N, 9000, p)
	defer srv.Stop()
	time.Sleep(time.Duration(r.IntN(1000)) * time.Millisecond)
	w := &world{rep: rep, T: T, I: I, types: map[string]string{}, lives: map[uint64]*life{}, kinds: map[string]bool{}, began: time.Now(), n: map[string]int64{}}
	var conns []*grpc.ClientConn
	connect := func() (pb.DOQClient, *grpc.ClientConn) {
		c, err := grpc.Dial("passthrough:///doq", grpc.WithContextDialer(p.dial), grpc.WithTransportCredentials(insecure.NewCredentials()))
		if err != nil {
			panic(fmt.Sprintf("harness: %v", err))
		}
		conns = append(conns, c)
		return pb.NewDOQClient(c), c
	}
	defer func() {
		for _, c := range conns {
			c.Close()
		}
	}()
	main, _ := connect()
	create := func(q string) {
		if _, err := main.CreateQueue(soon(), &pb.CreateQueueRequest{Name: q, Type: w.types[q]}); err != nil {
			w.wrong("create failed: %v", err)
		}
	}
	var queues []string
	scenario := []string{"single", "single", "many", "many", "closing", "stuck", "slow"}[r.IntN(7)]
	rep.Count("scenario-"+scenario, 1)
	for k := 1 + r.IntN(2); k > 0; k-- {
		q := fmt.Sprint("queue-", k)
		queues = append(queues, q)
		w.types[q] = []string{"delayed", "fair"}[r.IntN(2)]
	}
	lateQueue := r.IntN(6) == 0
	if !lateQueue {
		for _, q := range queues {
			create(q)
		}
	}
	big := scenario == "stuck"
	w.kinds["big"] = big
	content := func() string {
		s := fmt.Sprintf("content-%d", r.Uint64())
		if big {
			s += strings.Repeat("x", 70000+r.IntN(100000))
		} else if r.IntN(10) == 0 {
			s += strings.Repeat("y", r.IntN(200000))
		}
		return s
	}
	var dueAt int64
	request := func() *pb.EnqueueRequest {
		q := queues[r.IntN(len(queues))]
		in := &pb.EnqueueRequest{QueueName: q, Group: fmt.Sprint("g", r.IntN(3)), Priority: int64(r.IntN(4)), Content: content()}
		if r.IntN(4) == 0 {
			in.Priority = time.Now().Unix() + int64(r.IntN(6))
		}
		if dueAt > 0 && r.IntN(2) == 0 {
			in.Priority = dueAt
		}
		if dueAt > 0 {
			in.Content = fmt.Sprintf("content-%d", r.Uint64())
		}
		return in
	}
	enqueue := func() {
		in := request()
		called := time.Now()
		time.Sleep(time.Millisecond)
		out, err := main.Enqueue(soon(), in)
		if err != nil {
			w.mu.Lock()
			w.wrong("an enqueue failed: %v", err)
			w.mu.Unlock()
			return
		}
		w.enqueued(called, in, out, "unary")
	}
	// producers on streams
	enqueueStream := func() {
		ctx, cancel := context.WithTimeout(context.Background(), time.Minute)
		defer cancel()
		s, err := main.EnqueueStream(ctx)
		if err != nil {
			w.wrong("an enqueue stream cannot be opened: %v", err)
			return
		}
		var ins []*pb.EnqueueRequest
		var calls []time.Time
		n := 1 + r.IntN(8)
		window := 1 + r.IntN(4)
		answered := 0
		take := func() bool {
			out, err := s.Recv()
			if err != nil {
				w.mu.Lock()
				w.wrong("an enqueue stream ended after %d answers to %d requests: %v", answered, len(ins), err)
				w.mu.Unlock()
				return false
			}
			w.enqueued(calls[answered], ins[answered], out, "stream")
			answered++
			return true
		}
		for i := 0; i < n; i++ {
			in := request()
			time.Sleep(time.Millisecond)
			ins = append(ins, in)
			calls = append(calls, time.Now())
			if err := s.Send(in); err != nil {
				w.wrong("a request cannot be sent: %v", err)
				return
			}
			for len(ins)-answered >= window {
				if !take() {
					return
				}
			}
		}
		if r.IntN(6) == 0 {
			// one that is refused, after those before it are answered
			if err := s.Send(&pb.EnqueueRequest{QueueName: "no-such-queue", Content: "x"}); err != nil {
				w.wrong("a request cannot be sent: %v", err)
				return
			}
			for answered < len(ins) {
				if !take() {
					return
				}
			}
			if out, err := s.Recv(); err == nil || ctx.Err() != nil {
				w.mu.Lock()
				if err == nil {
					w.wrong("an enqueue to a queue that does not exist is answered %.100v", out)
				} else {
					w.wrong("an enqueue to a queue that does not exist is not answered within a minute")
				}
				w.mu.Unlock()
			}
			rep.Count("refused-in-stream", 1)
			return
		}
		s.CloseSend()
		for answered < len(ins) {
			if !take() {
				return
			}
		}
		if _, err := s.Recv(); err != io.EOF {
			w.mu.Lock()
			w.wrong("an enqueue stream ended with %v", err)
			w.mu.Unlock()
		}
	}
	var open []*consumer
	var connOf = map[*consumer]*grpc.ClientConn{}
	add := func(kind string, ack bool) {
		q := queues[r.IntN(len(queues))]
		c, conn := connect()
		var pause func() time.Duration
		if kind == "slow" {
			r2 := rand.New(rand.NewPCG(r.Uint64(), 9))
			pause = func() time.Duration { return time.Duration(r2.IntN(3000)) * time.Millisecond }
		}
		k := w.consume(c, q, ack, kind, pause)
		connOf[k] = conn
		open = append(open, k)
	}
	ack := func() bool { return r.IntN(4) == 0 }
	// hundreds of messages that are ready at the same time
	bulk := r.IntN(8) == 0 && !lateQueue && !big
	if bulk {
		rep.Count("bulks", 1)
		dueAt = time.Now().Unix() + int64(1+r.IntN(8))
		for k := 80 + r.IntN(250); k > 0; k-- {
			enqueue()
		}
		dueAt = 0
	} else if r.IntN(2) == 0 && !lateQueue {
		for k := r.IntN(12); k > 0; k-- {
			enqueue()
		}
	}
	switch scenario {
	case "single":
		a := ack()
		for _, q := range queues {
			c, conn := connect()
			k := w.consume(c, q, a, "healthy", nil)
			connOf[k] = conn
			open = append(open, k)
		}
	case "many", "closing":
		for k := 2 + r.IntN(4); k > 0; k-- {
			add("healthy", scenario == "many" && ack())
		}
	case "stuck":
		for k := 1 + r.IntN(5); k > 0; k-- {
			add("stuck", false)
		}
		add("healthy", false)
	case "slow":
		add("slow", false)
		add("healthy", false)
	}
	if lateQueue {
		time.Sleep(time.Duration(r.IntN(2500)) * time.Millisecond)
		for _, q := range queues {
			create(q)
		}
		rep.Count("late-queues", 1)
	}
	for k, n := 0, 10+r.IntN(25); k < n; k++ {
		switch r.IntN(12) {
		case 0, 1, 2:
			enqueue()
		case 3:
			k := 2 + r.IntN(10)
			if bulk && r.IntN(3) == 0 {
				k = 80 + r.IntN(100)
				dueAt = time.Now().Unix() + int64(2+r.IntN(6))
			}
			for ; k > 0; k-- {
				enqueue()
			}
			dueAt = 0
		case 4, 5:
			enqueueStream()
		case 6, 7:
			w.settle(main, r)
		case 8, 9:
			time.Sleep(time.Duration(r.IntN(3000)) * time.Millisecond)
		case 10:
			time.Sleep(time.Duration(r.IntN(int(T+I+2)*1000)) * time.Millisecond)
		case 11:
			if scenario == "closing" || scenario == "stuck" && r.IntN(2) == 0 {
				// one goes, another one comes
				if len(open) > 0 {
					i := r.IntN(len(open))
					k := open[i]
					if scenario == "stuck" && k.kind == "healthy" {
						break
					}
					open = append(open[:i], open[i+1:]...)
					if r.IntN(3) == 0 {
						w.mu.Lock()
						k.closing = time.Now()
						w.note("consumer %d disconnects", k.k)
						w.mu.Unlock()
						connOf[k].Close()
						rep.Count("disconnects", 1)
					} else {
						w.closes(k)
					}
					rep.Count("closed", 1)
				}
				if scenario == "closing" && r.IntN(2) == 0 {
					add("healthy", false)
				}
			}
		}
		time.Sleep(time.Duration(r.IntN(200)) * time.Millisecond)
	}
	// in the end everything arrives at healthy consumers
	for _, k := range open {
		if k.kind != "healthy" {
			w.closes(k)
		}
	}
	for _, q := range queues {
		if scenario == "single" {
			break
		}
		c, conn := connect()
		k := w.consume(c, q, false, "healthy", nil)
		connOf[k] = conn
	}
	time.Sleep(time.Duration(2*(T+I)+10) * time.Second)
	w.mu.Lock()
	w.end = time.Now()
	for _, l := range w.lives {
		if len(l.deliveries) == 0 {
			w.wrong("message %d was never delivered", l.id)
		}
	}
	w.check()
	for k, v := range w.n {
		rep.Count(k, v)
	}
	w.mu.Unlock()
	for _, k := range w.cons {
		if k.closing.IsZero() {
			w.closes(k)
		}
	}
	var sig strings.Builder
	for _, s := range w.trace {
		sig.WriteString(s)
	}
	rep.Done(w.n["delivered"] >= 5, sig.String(), func() any {
		return map[string]any{"case": ci, "scenario": scenario, "timeout": T, "interval": I, "trace": w.trace[:min(len(w.trace), 60)]}
	})
	if len(w.odd) > 0 {
		rep.Violate(core.Violation{Case: ci, Kind: scenario, Msg: w.odd[0], Trace: w.trace})
	}
}
