package main

import (
	"bytes"
	"context"
	"embed"
	"fmt"
	"io"
	"math/rand/v2"
	"net"
	"net/http"
	"os"
	"runtime"
	"strings"
	"time"

	"doqverif/core"
	"doqverif/fake"

	"github.com/kgantsov/doq/pkg/config"
	doqgrpc "github.com/kgantsov/doq/pkg/grpc"
	doqhttp "github.com/kgantsov/doq/pkg/http"
	pb "github.com/kgantsov/doq/pkg/proto"
	"google.golang.org/grpc"
	"google.golang.org/grpc/credentials/insecure"
)

// listen listens on one port of many hosts
func listen(hosts ...string) ([]net.Listener, int) {
	for try := 0; try < 100; try++ {
		l, err := net.Listen("tcp", hosts[0]+":0")
		if err != nil {
			panic(fmt.Sprintf("harness: %v", err))
		}
		port := l.Addr().(*net.TCPAddr).Port
		ls := []net.Listener{l}
		for _, x := range hosts[1:] {
			l, err := net.Listen("tcp", fmt.Sprintf("%s:%d", x, port))
			if err != nil {
				break
			}
			ls = append(ls, l)
		}
		if len(ls) == len(hosts) {
			return ls, port
		}
		for _, l := range ls {
			l.Close()
		}
	}
	panic("harness: no port")
}

// proxies forward many requests to changing leaders, in real time
func proxies(a *core.Args, rep *core.Report) {
	rep.Rule = "hundreds of requests over HTTP and gRPC are forwarded to leaders that change, refuse and are not there; the number of goroutines of the process does not grow with the number of requests; non-trivial: all"
	rep.Floor("requests", 1000)
	rep.Floor("leader-changes", 200)
	rep.Floor("answers", 500)
	rep.Floor("refusals", 100)
	// the service prints requests
	out := os.Stdout
	os.Stdout, _ = os.OpenFile(os.DevNull, os.O_WRONLY, 0)
	defer func() { os.Stdout = out }()
	core.Cases(a, pick(a, 8, 80), func(ci int) { oneProxy(a, rep, core.Rand(a, "proxy", ci), ci) })
}

func oneProxy(a *core.Args, rep *core.Report, r *rand.Rand, ci int) {
	host := func(k int) string { return fmt.Sprintf("127.%d.%d.%d", 60+a.Shard, 1+ci%200, k) }
	hosts := []string{host(1), host(2), host(3)}
	hl, hport := listen(hosts...)
	gl, gport := listen(hosts...)
	var nodes []*fake.Node
	for i := range hosts {
		n := fake.New(hosts[i])
		n.Leads.Store(i > 0)
		nodes = append(nodes, n)
		cfg := &config.Config{}
		cfg.Http.Port = fmt.Sprint(hport)
		app := doqhttp.NewHttpService(cfg, n, embed.FS{}, embed.FS{}).RouterForVerification()
		app.Handler()
		go app.Server().Serve(hl[i])
		defer core.Shutdown(app.Server())
		s, err := doqgrpc.NewGRPCServer(n, gport)
		if err != nil {
			panic(fmt.Sprintf("harness: %v", err))
		}
		go s.Serve(gl[i])
		defer s.Stop()
	}
	conn, err := grpc.Dial(fmt.Sprintf("passthrough:///%s:%d", hosts[0], gport), grpc.WithTransportCredentials(insecure.NewCredentials()))
	if err != nil {
		panic(fmt.Sprintf("harness: %v", err))
	}
	defer conn.Close()
	gc := pb.NewDOQClient(conn)
	tr := &http.Transport{}
	hc := &http.Client{Transport: tr, Timeout: 30 * time.Second}
	defer tr.CloseIdleConnections()
	var trace []string
	count := func() int {
		tr.CloseIdleConnections()
		best := 1 << 30
		for i := 0; i < 40; i++ {
			time.Sleep(50 * time.Millisecond)
			best = min(best, runtime.NumGoroutine())
		}
		core.Touch()
		return best
	}
	burst := func(k int) {
		for i := 0; i < k; i++ {
			core.Touch()
			leader := hosts[1+r.IntN(2)]
			if r.IntN(10) == 0 {
				leader = ""
			} else if r.IntN(10) == 0 {
				leader = host(9)
			}
			nodes[0].LeaderIs.Store(leader)
			rep.Count("leader-changes", 1)
			for j := 0; j < 4; j++ {
				rep.Count("requests", 1)
				q := fmt.Sprint("q", r.IntN(40))
				if r.IntN(2) == 0 {
					ctx, cancel := context.WithTimeout(context.Background(), 300*time.Millisecond)
					var err error
					switch r.IntN(3) {
					case 0:
						_, err = gc.Enqueue(ctx, &pb.EnqueueRequest{QueueName: q, Group: "g", Content: "x"})
					case 1:
						_, err = gc.Dequeue(ctx, &pb.DequeueRequest{QueueName: q})
					default:
						_, err = gc.Ack(ctx, &pb.AckRequest{QueueName: q, Id: uint64(i)})
					}
					cancel()
					rep.Count(map[bool]string{true: "answers", false: "refusals"}[err == nil], 1)
					continue
				}
				var req *http.Request
				base := fmt.Sprintf("http://%s:%d/API/v1/queues", hosts[0], hport)
				switch r.IntN(5) {
				case 0:
					req, _ = http.NewRequest("POST", base, bytes.NewReader([]byte(`{"name":"`+q+`","type":"delayed"}`)))
				case 1:
					req, _ = http.NewRequest("DELETE", base+"/"+q, nil)
				case 2:
					req, _ = http.NewRequest("POST", base+"/"+q+"/messages", bytes.NewReader([]byte(`{"content":"x","group":"g","priority":1}`)))
				case 3:
					req, _ = http.NewRequest("GET", base+"/"+q+"/messages", nil)
				default:
					req, _ = http.NewRequest("POST", fmt.Sprintf("%s/%s/messages/%d/ack", base, q, 1+i), nil)
				}
				req.Header.Set("Content-Type", "application/json")
				res, err := hc.Do(req)
				if err != nil {
					rep.Inconc("case %d: %v", ci, err)
					return
				}
				io.Copy(io.Discard, res.Body)
				res.Body.Close()
				rep.Count(map[bool]string{true: "answers", false: "refusals"}[res.StatusCode < 300], 1)
			}
		}
	}
	burst(15)
	before := count()
	trace = append(trace, fmt.Sprintf("%d goroutines after 60 requests", before))
	burst(75)
	after := count()
	trace = append(trace, fmt.Sprintf("%d goroutines after 360 requests", after))
	rep.Count("goroutines-after-60", int64(before))
	rep.Count("goroutines-after-360", int64(after))
	if after > before+20 {
		buf := make([]byte, 4<<20)
		n := runtime.Stack(buf, true)
		rep.Violate(core.Violation{Case: ci, Kind: "leak", Trace: append(trace, strings.Split(string(buf[:n]), "\n\n")...),
			Msg: fmt.Sprintf("the number of goroutines grew from %d to %d with 300 forwarded requests", before, after)})
		return
	}
	rep.Done(true, fmt.Sprint(ci, trace), func() any { return map[string]any{"case": ci, "trace": trace} })
}
