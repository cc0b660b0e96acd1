package main

import (
	"context"
	"fmt"
	"io"
	"math/rand/v2"
	"net"
	"runtime"
	"strings"
	"sync"
	"time"

	"doqverif/core"
	"doqverif/sim"

	doqgrpc "github.com/kgantsov/doq/pkg/grpc"
	pb "github.com/kgantsov/doq/pkg/proto"
	"google.golang.org/grpc"
	"google.golang.org/grpc/credentials/insecure"
)

// pipes is a listener of connections within the process
type pipes struct {
	ch   chan net.Conn
	done chan struct{}
	once sync.Once
}

func newPipes() *pipes { return &pipes{ch: make(chan net.Conn), done: make(chan struct{})} }

func (p *pipes) Accept() (net.Conn, error) {
	select {
	case c := <-p.ch:
		return c, nil
	case <-p.done:
		return nil, net.ErrClosed
	}
}

func (p *pipes) Close() error   { p.once.Do(func() { close(p.done) }); return nil }
func (p *pipes) Addr() net.Addr { return &net.TCPAddr{IP: net.IPv4(127, 0, 0, 1), Port: 9000} }

func (p *pipes) dial(ctx context.Context, _ string) (net.Conn, error) {
	a, b := net.Pipe()
	select {
	case p.ch <- b:
		return a, nil
	case <-p.done:
		return nil, net.ErrClosed
	case <-ctx.Done():
		return nil, ctx.Err()
	}
}

// streams come and go
func streams(a *core.Args, rep *core.Report) {
	rep.Rule = "streams of a node are opened, used and ended in many ways: closed, cancelled, timed out, refused, with the connection, idle, busy or stuck; afterwards no goroutine may remain for them; non-trivial: at least three ways"
	for k, v := range map[string]int64{"streams": 8000, "counts": 500, "how-cancelled": 200, "how-timeout": 200, "how-connection": 200, "how-refused": 100, "how-closed": 100, "how-stuck": 100, "received": 500} {
		rep.Floor(k, v)
	}
	core.Cases(a, pick(a, 160, 3000), func(ci int) {
		core.AlignClock()
		if time.Now().Year() < 2024 {
			time.Sleep(time.Until(time.Date(2024, 3, 1, 0, 0, 0, 0, time.UTC)))
		}
		oneStreams(a, rep, core.Rand(a, "streams", ci), ci)
	})
}

func oneStreams(a *core.Args, rep *core.Report, r *rand.Rand, ci int) {
	cl := sim.NewCluster(r.Uint64(), 2, 1)
	defer cl.Close()
	cl.Form(1)
	n := cl.Nodes[0]
	for i := 0; i < 2; i++ {
		if err := n.N.CreateQueue([]string{"delayed", "fair"}[i], fmt.Sprint("q", i)); err != nil {
			rep.Inconc("case %d: %v", ci, err)
			return
		}
	}
	ps := newPipes()
	srv, err := doqgrpc.NewGRPCServer(n.N, 9000)
	if err != nil {
		panic(fmt.Sprintf("harness: %v", err))
	}
	go srv.Serve(ps)
	defer srv.Stop()
	dial := func() *grpc.ClientConn {
		c, err := grpc.Dial("passthrough:///x", grpc.WithTransportCredentials(insecure.NewCredentials()), grpc.WithContextDialer(ps.dial))
		if err != nil {
			panic(fmt.Sprintf("harness: %v", err))
		}
		return c
	}
	var trace []string
	var mu sync.Mutex
	note := func(format string, args ...any) {
		mu.Lock()
		trace = append(trace, fmt.Sprintf(format, args...))
		mu.Unlock()
		core.Touch()
	}
	ways := map[string]bool{}
	one := func(conn *grpc.ClientConn, r *rand.Rand, how string) {
		rep.Count("streams", 1)
		rep.Count("how-"+how, 1)
		mu.Lock()
		ways[how] = true
		mu.Unlock()
		ctx, cancel := context.WithCancel(context.Background())
		if how == "timeout" {
			ctx, cancel = context.WithTimeout(context.Background(), time.Duration(1+r.IntN(2500))*time.Millisecond)
		}
		defer cancel()
		if how == "connection" {
			conn = dial()
			defer conn.Close()
		}
		c := pb.NewDOQClient(conn)
		q := fmt.Sprint("q", r.IntN(2))
		producer := r.IntN(2) == 0 || how == "refused" || how == "closed"
		if how == "stuck" {
			producer = false
		}
		note("%s %s %s", how, q, map[bool]string{true: "producer", false: "consumer"}[producer])
		if producer {
			s, err := c.EnqueueStream(ctx)
			if err != nil {
				return
			}
			for i := r.IntN(5); i >= 0; i-- {
				req := &pb.EnqueueRequest{QueueName: q, Group: "g", Priority: int64(r.IntN(3)), Content: "x"}
				if how == "refused" && i == 0 {
					req.QueueName = "unknown"
				}
				if s.Send(req) != nil {
					break
				}
				if r.IntN(4) > 0 || how == "refused" {
					if _, err := s.Recv(); err != nil {
						break
					}
				}
				time.Sleep(time.Millisecond)
			}
			switch how {
			case "closed":
				s.CloseSend()
				for {
					if _, err := s.Recv(); err != nil {
						if err != io.EOF {
							note("closed stream: %v", err)
						}
						break
					}
				}
			case "timeout":
				<-ctx.Done()
			}
			return
		}
		s, err := c.DequeueStream(ctx, &pb.DequeueRequest{QueueName: q, Ack: r.IntN(2) == 0})
		if err != nil {
			return
		}
		if how == "stuck" {
			for i := 0; i < 40; i++ {
				if _, err := c.Enqueue(ctx, &pb.EnqueueRequest{QueueName: q, Group: "g", Content: strings.Repeat("x", 8000)}); err != nil {
					note("enqueue: %v", err)
				}
				time.Sleep(time.Millisecond)
			}
			time.Sleep(time.Duration(r.IntN(1500)) * time.Millisecond)
			return
		}
		got := make(chan bool)
		go func() {
			defer close(got)
			for {
				if _, err := s.Recv(); err != nil {
					return
				}
				rep.Count("received", 1)
			}
		}()
		if how != "timeout" {
			time.Sleep(time.Duration(r.IntN(2200)) * time.Millisecond)
			if how == "connection" {
				conn.Close()
			} else {
				cancel()
			}
		}
		<-got
	}
	conn := dial()
	defer conn.Close()
	// everything that is there once, and the caches of libraries, is there now
	for i := 0; i < 3; i++ {
		for _, how := range []string{"cancelled", "timeout", "connection", "refused", "closed", "stuck"} {
			one(conn, r, how)
		}
	}
	quiet := func() { time.Sleep(4*time.Second + 200*time.Millisecond); rest() }
	drain := func() {
		for i := 0; i < 2; i++ {
			for {
				if _, err := n.N.Dequeue(fmt.Sprint("q", i), true); err != nil {
					break
				}
			}
		}
		quiet()
	}
	drain()
	drain()
	base := running()
	all := runtime.NumGoroutine()
	for round := 0; round < 4; round++ {
		var wg sync.WaitGroup
		for k := 3 + r.IntN(6); k > 0; k-- {
			seed := r.Uint64()
			wg.Add(1)
			go func() {
				defer wg.Done()
				r := rand.New(rand.NewPCG(seed, 1))
				for i := 1 + r.IntN(6); i > 0; i-- {
					one(conn, r, []string{"cancelled", "timeout", "connection", "refused", "closed", "stuck"}[r.IntN(6)])
				}
			}()
		}
		wg.Wait()
		drain()
		drain()
		now := running()
		rep.Count("counts", 1)
		note("%d goroutines", len(now))
		if len(now) > len(base) {
			rep.Violate(core.Violation{Case: ci, Kind: "leak", Trace: append(trace, now...),
				Msg: fmt.Sprintf("after all streams have ended there are %d goroutines (%s) instead of %d (%s)", len(now), kinds(now), len(base), kinds(base))})
			return
		}
		if k := runtime.NumGoroutine(); k > all+3 {
			rep.Violate(core.Violation{Case: ci, Kind: "leak", Trace: trace,
				Msg: fmt.Sprintf("after all streams have ended there are %d goroutines instead of %d", k, all)})
			return
		}
	}
	rep.Done(len(ways) >= 3, strings.Join(trace, ";"), func() any {
		return map[string]any{"case": ci, "trace": trace[:min(40, len(trace))]}
	})
}
