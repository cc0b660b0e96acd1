package main

import (
	"bytes"
	"context"
	"embed"
	"fmt"
	"io"
	"math/rand/v2"
	"net"
	"net/http"
	"runtime"
	"strings"
	"sync"
	"time"

	"doqverif/core"
	"doqverif/sim"

	doqgrpc "github.com/kgantsov/doq/pkg/grpc"
	doqhttp "github.com/kgantsov/doq/pkg/http"
	pb "github.com/kgantsov/doq/pkg/proto"
	"google.golang.org/grpc"
	"google.golang.org/grpc/credentials/insecure"
)

// clients come and go, and ask for queues that are new each time
func clients(a *core.Args, rep *core.Report) {
	rep.Rule = "rounds of requests and streams over gRPC and HTTP to one node, each for queues of new names, there or not, most of them with errors; after each round, when all clients have gone and the queues are deleted, the objects on the heap that the code under test allocated are counted: later rounds do not add any; non-trivial: at least 100 streams and 100 requests"
	for k, v := range map[string]int64{"rounds": 50, "streams": 1500, "grpc-requests": 1500, "http-requests": 1500, "deliveries": 300, "measured": 50} {
		rep.Floor(k, v)
	}
	core.Cases(a, pick(a, 8, 200), func(ci int) {
		core.AlignClock()
		if time.Now().Year() < 2024 {
			time.Sleep(time.Until(time.Date(2024, 3, 1, 0, 0, 0, 0, time.UTC)))
		}
		runtime.MemProfileRate = 1
		oneClients(a, rep, core.Rand(a, "clients", ci), ci)
		runtime.MemProfileRate = 0
	})
}

func oneClients(a *core.Args, rep *core.Report, r *rand.Rand, ci int) {
	cl := sim.NewCluster(r.Uint64(), 2, 1)
	defer cl.Close()
	cl.Form(1)
	n := cl.Nodes[0]
	gs, hs := newPipes(), newPipes()
	srv, err := doqgrpc.NewGRPCServer(n.N, 9000)
	if err != nil {
		panic(fmt.Sprintf("harness: %v", err))
	}
	go srv.Serve(gs)
	defer srv.Stop()
	app := doqhttp.NewHttpService(n.Cfg, n.N, embed.FS{}, embed.FS{}).RouterForVerification()
	app.Handler()
	go app.Server().Serve(hs)
	defer core.Shutdown(app.Server())
	var trace []string
	const K, first = 7, 2
	var before map[string]int64
	all := 0
	for k := 0; k < K; k++ {
		conn, err := grpc.Dial("passthrough:///x", grpc.WithTransportCredentials(insecure.NewCredentials()), grpc.WithContextDialer(gs.dial))
		if err != nil {
			panic(fmt.Sprintf("harness: %v", err))
		}
		gc := pb.NewDOQClient(conn)
		tr := &http.Transport{DialContext: func(ctx context.Context, _, addr string) (net.Conn, error) { return hs.dial(ctx, addr) }}
		hc := &http.Client{Transport: tr, Timeout: 30 * time.Second}
		var mu sync.Mutex
		made := map[string]bool{}
		var wg sync.WaitGroup
		const streams, requests = 40, 60
		for i := 0; i < streams; i++ {
			wg.Add(1)
			seed := r.Uint64()
			go func() {
				defer wg.Done()
				r := rand.New(rand.NewPCG(seed, 1))
				core.Touch()
				ctx, cancel := context.WithTimeout(context.Background(), time.Duration(100+r.IntN(5000))*time.Millisecond)
				defer cancel()
				q := fmt.Sprintf("stream-%d-%d-%d", ci, k, i)
				rep.Count("streams", 1)
				if r.IntN(3) > 0 {
					if res, err := gc.CreateQueue(ctx, &pb.CreateQueueRequest{Name: q, Type: []string{"delayed", "fair"}[r.IntN(2)]}); err == nil && res.Success {
						mu.Lock()
						made[q] = true
						mu.Unlock()
					}
				}
				if r.IntN(3) == 0 {
					s, err := gc.EnqueueStream(ctx)
					if err != nil {
						return
					}
					for x := 0; x < 3; x++ {
						if s.Send(&pb.EnqueueRequest{QueueName: q, Group: fmt.Sprint("g", x), Content: "content"}) != nil {
							return
						}
						if _, err := s.Recv(); err != nil {
							return
						}
					}
					s.CloseSend()
					return
				}
				s, err := gc.DequeueStream(ctx, &pb.DequeueRequest{QueueName: q, Ack: r.IntN(2) == 0})
				if err != nil {
					return
				}
				for x := 0; x < 4; x++ {
					gc.Enqueue(ctx, &pb.EnqueueRequest{QueueName: q, Group: fmt.Sprint("g", x), Content: "content"})
					m, err := s.Recv()
					if err != nil {
						return
					}
					rep.Count("deliveries", 1)
					gc.Ack(ctx, &pb.AckRequest{QueueName: q, Id: m.Id})
				}
			}()
		}
		for i := 0; i < requests; i++ {
			core.Touch()
			q := fmt.Sprintf("request-%d-%d-%d", ci, k, i)
			ctx, cancel := context.WithTimeout(context.Background(), 20*time.Second)
			rep.Count("grpc-requests", 1)
			switch r.IntN(7) {
			case 0:
				if res, err := gc.CreateQueue(ctx, &pb.CreateQueueRequest{Name: q, Type: []string{"delayed", "fair", "what"}[r.IntN(3)]}); err == nil && res.Success {
					mu.Lock()
					made[q] = true
					mu.Unlock()
				}
			case 1:
				gc.DeleteQueue(ctx, &pb.DeleteQueueRequest{Name: q})
			case 2:
				gc.Enqueue(ctx, &pb.EnqueueRequest{QueueName: q, Group: q, Content: q})
			case 3:
				gc.Dequeue(ctx, &pb.DequeueRequest{QueueName: q, Ack: true})
			case 4:
				gc.Ack(ctx, &pb.AckRequest{QueueName: q, Id: r.Uint64()})
			case 5:
				gc.Nack(ctx, &pb.NackRequest{QueueName: q, Id: r.Uint64()})
			case 6:
				gc.UpdatePriority(ctx, &pb.UpdatePriorityRequest{QueueName: q, Id: r.Uint64(), Priority: 1})
			}
			cancel()
			ask := func(method, path, body string) (int, string) {
				rep.Count("http-requests", 1)
				req, err := http.NewRequest(method, "http://node:8000"+path, bytes.NewReader([]byte(body)))
				if err != nil {
					return 0, ""
				}
				req.Header.Set("Content-Type", "application/json")
				req.Header.Set("X-Request-Id", q)
				res, err := hc.Do(req)
				if err != nil {
					return 0, ""
				}
				defer res.Body.Close()
				data, _ := io.ReadAll(res.Body)
				return res.StatusCode, string(data)
			}
			q = fmt.Sprintf("http-%d-%d-%d", ci, k, i)
			switch r.IntN(9) {
			case 0, 1:
				if st, _ := ask("POST", "/API/v1/queues", fmt.Sprintf(`{"name": %q, "type": "delayed"}`, q)); st == 200 || st == 201 {
					mu.Lock()
					made[q] = true
					mu.Unlock()
					for x := 0; x < 3; x++ {
						ask("POST", "/API/v1/queues/"+q+"/messages", `{"content": "x", "group": "g", "priority": 1}`)
						ask("GET", "/API/v1/queues/"+q+"/messages?ack="+[]string{"true", "false"}[r.IntN(2)], "")
					}
				}
			case 2:
				ask("POST", "/API/v1/queues/"+q+"/messages", `{"content": "x", "group": "g", "priority": 1}`)
			case 3:
				ask("GET", "/API/v1/queues/"+q, "")
			case 4:
				ask("GET", "/"+q+"/"+q, "")
			case 5:
				ask("DELETE", "/API/v1/queues/"+q, "")
			case 6:
				ask("POST", "/API/v1/queues/"+q+"/messages", `{"content": `+strings.Repeat("[", r.IntN(40)))
			case 7:
				ask("POST", "/API/v1/queues/"+q+"/messages/"+fmt.Sprint(r.Uint64())+"/ack", "")
			case 8:
				ask("GET", "/API/v1/queues", "")
			}
		}
		wg.Wait()
		for q := range made {
			if err := n.N.DeleteQueue(q); err != nil {
				rep.Inconc("case %d: delete: %v", ci, err)
				return
			}
		}
		all += len(made)
		conn.Close()
		tr.CloseIdleConnections()
		rep.Count("rounds", 1)
		// idle connections are closed
		time.Sleep(2 * time.Minute)
		// and the log is compacted
		n.SetTrailing(0)
		time.Sleep(5 * time.Millisecond)
		n.N.Raft.Snapshot().Error()
		rest()
		now := core.Objects()
		total := int64(0)
		for _, v := range now {
			total += v
		}
		trace = append(trace, fmt.Sprintf("round %d: %d queues came and went, %d objects", k, len(made), total))
		rep.Count("measured", 1)
		if k == first {
			before = now
		}
		if k == K-1 {
			if g := core.Grown(before, now, 12, "objects"); len(g) > 0 {
				rep.Violate(core.Violation{Case: ci, Kind: "memory", Msg: fmt.Sprintf("objects are kept for what is gone: %s (after rounds %d and %d)", g[0], k, first), Trace: append(trace, g...)})
				return
			}
		}
	}
	rep.Done(true, fmt.Sprint(ci, all, trace), func() any { return map[string]any{"case": ci, "rounds": trace} })
}
