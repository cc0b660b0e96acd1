// racew uses everything at the same time, in real time. It is built with the
// race detector, whose reports are the verdict.
package main

import (
	"bytes"
	"context"
	"embed"
	"encoding/json"
	"errors"
	"fmt"
	"io"
	"math/rand/v2"
	"net"
	"net/http"
	"net/url"
	"os"
	"strings"
	"sync"
	"sync/atomic"
	"time"

	"doqverif/core"
	"doqverif/seq"
	"doqverif/sim"

	hraft "github.com/hashicorp/raft"
	store "github.com/kgantsov/doq/pkg/badger-store"
	doqgrpc "github.com/kgantsov/doq/pkg/grpc"
	doqhttp "github.com/kgantsov/doq/pkg/http"
	pb "github.com/kgantsov/doq/pkg/proto"
	"github.com/rs/zerolog"
	"github.com/rs/zerolog/log"
	"google.golang.org/grpc"
	"google.golang.org/grpc/credentials/insecure"
	"google.golang.org/grpc/grpclog"
)

type nowhere struct{}

func (nowhere) Write(p []byte) (int, error) { return len(p), nil }

func main() {
	a := core.ParseArgs()
	// log messages are formatted and thrown away
	log.Logger = zerolog.New(nowhere{}).Hook(zerolog.HookFunc(func(e *zerolog.Event, level zerolog.Level, msg string) {
		if level >= zerolog.FatalLevel {
			fmt.Fprintf(os.Stderr, "{\"level\":\"fatal\",\"message\":%q}\n", msg)
		}
	}))
	zerolog.SetGlobalLevel(zerolog.DebugLevel)
	grpclog.SetLoggerV2(grpclog.NewLoggerV2(nowhere{}, nowhere{}, nowhere{}))
	os.Stdout, _ = os.OpenFile(os.DevNull, os.O_WRONLY, 0)
	core.Watchdog(180 * time.Second)
	rep := core.NewReport()
	rep.Rule = "many goroutines use all operations of a queue manager, of the log store, of the nodes of a cluster and of its HTTP and gRPC services at the same time, with timers, metrics, snapshots, leadership transfers, creation and deletion of queues; the race detector watches all memory accesses; non-trivial: at least two goroutines succeeded with operations"
	for k, v := range map[string]int64{"manager-operations": 20000, "store-operations": 2000, "http-requests": 1000, "grpc-requests": 1000, "stream-messages": 200, "transfers": 4, "snapshots": 4, "requeued": 10, "metrics-read": 50, "forwarded": 200} {
		rep.Floor(k, v)
	}
	n := 16
	if a.Tier == "thorough" {
		n = 400
	}
	core.Cases(a, n, func(ci int) {
		r := core.Rand(a, "race", ci)
		switch ci / 8 % 2 {
		case 0:
			services(a, rep, r, ci)
		default:
			var wg sync.WaitGroup
			wg.Add(2)
			s1, s2 := r.Uint64(), r.Uint64()
			go func() { defer wg.Done(); manager(a, rep, rand.New(rand.NewPCG(s1, 1)), ci) }()
			go func() { defer wg.Done(); logs(a, rep, rand.New(rand.NewPCG(s2, 1)), ci) }()
			wg.Wait()
		}
	})
	rep.Write(a)
	os.Exit(0)
}

// crowd runs k goroutines until a time
func crowd(r *rand.Rand, k int, d time.Duration, f func(r *rand.Rand, i int)) {
	end := time.Now().Add(d)
	var wg sync.WaitGroup
	for i := 0; i < k; i++ {
		seed := r.Uint64()
		wg.Add(1)
		go func() {
			defer wg.Done()
			r := rand.New(rand.NewPCG(seed, 2))
			for time.Now().Before(end) {
				f(r, i)
				core.Touch()
			}
		}()
	}
	wg.Wait()
}

// ids are ids that were seen, of all queues
type ids struct {
	mu sync.Mutex
	v  []uint64
}

func (x *ids) add(id uint64) {
	x.mu.Lock()
	defer x.mu.Unlock()
	if len(x.v) < 200 {
		x.v = append(x.v, id)
	} else {
		x.v[id%200] = id
	}
}

func (x *ids) get(r *rand.Rand) uint64 {
	x.mu.Lock()
	defer x.mu.Unlock()
	if len(x.v) == 0 {
		return 1
	}
	return x.v[r.IntN(len(x.v))]
}

// manager: a queue manager, without raft
func manager(a *core.Args, rep *core.Report, r *rand.Rand, ci int) {
	b := seq.Metered(1, 1, 2)
	names := []string{"a", "b", "c", "a:b"}
	for i, q := range names {
		b.Create([]string{"delayed", "fair"}[i%2], q)
	}
	var seen ids
	var next atomic.Uint64
	var ops, requeued, by, reads int64
	crowd(r, 12, 6*time.Second, func(r *rand.Rand, i int) {
		q := names[r.IntN(len(names))]
		ok := false
		switch r.IntN(12) {
		case 0, 1, 2:
			// extreme due times and present ones
			prio := []int64{0, 1, -5, time.Now().Unix() + int64(r.IntN(3))}[r.IntN(4)]
			m, err := b.Enqueue(q, fmt.Sprint("g", r.IntN(3)), prio, "x", next.Add(1))
			if ok = err == nil; ok {
				seen.add(m.ID)
			}
		case 3, 4, 5:
			m, err := b.Dequeue(q, r.IntN(3) == 0)
			if ok = err == nil; ok {
				seen.add(m.ID)
			}
		case 6:
			ok = b.Ack(q, seen.get(r)) == nil
		case 7:
			ok = b.Nack(q, seen.get(r)) == nil
		case 8:
			ok = b.UpdatePriority(q, seen.get(r), int64(r.IntN(4))) == nil
		case 9:
			if info, err := b.Info(q); err == nil && info.Unacked > 0 {
				atomic.AddInt64(&requeued, 1)
			}
			b.List()
		case 10:
			if x, err := b.M.GetQueue(q); err == nil {
				x.GetStats()
				x.Len()
				x.GetByID(seen.get(r))
			}
			if r.IntN(20) == 0 {
				b.Metrics()
				atomic.AddInt64(&reads, 1)
			}
		default:
			if r.IntN(300) == 0 {
				b.Delete(q)
			} else if r.IntN(20) == 0 {
				b.Create([]string{"delayed", "fair"}[r.IntN(2)], q)
			}
		}
		atomic.AddInt64(&ops, 1)
		if ok {
			atomic.AddInt64(&by, 1)
		}
	})
	rep.Count("manager-operations", ops)
	rep.Count("requeued", requeued)
	rep.Count("metrics-read", reads)
	rep.Done(by > 100, fmt.Sprint("manager", ci, ops), func() any { return map[string]any{"case": ci, "operations": ops, "successes": by} })
	for _, q := range b.M.GetQueues() {
		b.Delete(q.Name)
	}
	b.DB.Close()
}

// logs: the log store as raft uses it
func logs(a *core.Args, rep *core.Report, r *rand.Rand, ci int) {
	db := seq.OpenMem()
	defer db.Close()
	s, err := store.New(db, store.Options{})
	if err != nil {
		rep.Inconc("case %d: %v", ci, err)
		return
	}
	var last, ops atomic.Uint64
	crowd(r, 6, 6*time.Second, func(r *rand.Rand, i int) {
		ops.Add(1)
		switch i {
		case 0:
			var ls []*hraft.Log
			for k := 1 + r.IntN(5); k > 0; k-- {
				ls = append(ls, &hraft.Log{Index: last.Load() + uint64(len(ls)) + 1, Term: 1, Data: make([]byte, r.IntN(100))})
			}
			if s.StoreLogs(ls) == nil {
				last.Add(uint64(len(ls)))
			}
			time.Sleep(time.Millisecond)
		case 1:
			if f, err := s.FirstIndex(); err == nil && last.Load() > f+300 {
				s.DeleteRange(f, f+100)
			}
			time.Sleep(time.Millisecond)
		case 2:
			s.SetUint64([]byte("CurrentTerm"), r.Uint64())
			s.Set([]byte("LastVoteCand"), []byte("x"))
			time.Sleep(time.Millisecond)
		default:
			var l hraft.Log
			s.GetLog(1+r.Uint64N(last.Load()+1), &l)
			s.FirstIndex()
			s.LastIndex()
			s.GetUint64([]byte("CurrentTerm"))
			s.Get([]byte("LastVoteCand"))
			time.Sleep(100 * time.Microsecond)
		}
	})
	rep.Count("store-operations", int64(ops.Load()))
}

// listen listens on one port of many hosts
func listen(hosts ...string) ([]net.Listener, int) {
	for try := 0; try < 100; try++ {
		l, err := net.Listen("tcp", hosts[0]+":0")
		if err != nil {
			panic(fmt.Sprintf("harness: %v", err))
		}
		port := l.Addr().(*net.TCPAddr).Port
		ls := []net.Listener{l}
		for _, x := range hosts[1:] {
			l, err := net.Listen("tcp", fmt.Sprintf("%s:%d", x, port))
			if err != nil {
				break
			}
			ls = append(ls, l)
		}
		if len(ls) == len(hosts) {
			return ls, port
		}
		for _, l := range ls {
			l.Close()
		}
	}
	panic("harness: no port")
}

// services: clients of the HTTP and gRPC services of three nodes
func services(a *core.Args, rep *core.Report, r *rand.Rand, ci int) {
	cl := sim.NewCluster(r.Uint64(), 1, 1)
	cl.Window = 2
	cl.Metrics = true
	defer cl.Close()
	host := func(i int) string { return fmt.Sprintf("127.%d.%d.%d", 90+a.Shard, 1+ci%200, 1+i) }
	cl.AddrOf = func(i int) string { return host(i) + ":12000" }
	cl.Form(3)
	hl, hport := listen(host(0), host(1), host(2))
	gl, gport := listen(host(0), host(1), host(2))
	var clients []pb.DOQClient
	for i, n := range cl.Nodes {
		cfg := *n.Cfg
		cfg.Http.Port = fmt.Sprint(hport)
		app := doqhttp.NewHttpService(&cfg, n.N, embed.FS{}, embed.FS{}).RouterForVerification()
		app.Handler()
		go app.Server().Serve(hl[i])
		defer core.Shutdown(app.Server())
		s, err := doqgrpc.NewGRPCServer(n.N, gport)
		if err != nil {
			panic(fmt.Sprintf("harness: %v", err))
		}
		go s.Serve(gl[i])
		defer s.Stop()
		conn, err := grpc.Dial(fmt.Sprintf("passthrough:///%s:%d", host(i), gport), grpc.WithTransportCredentials(insecure.NewCredentials()))
		if err != nil {
			panic(fmt.Sprintf("harness: %v", err))
		}
		defer conn.Close()
		clients = append(clients, pb.NewDOQClient(conn))
	}
	tr := &http.Transport{MaxIdleConnsPerHost: 20, IdleConnTimeout: time.Second}
	defer tr.CloseIdleConnections()
	hc := &http.Client{Transport: tr, Timeout: 20 * time.Second}
	do := func(method string, i int, path string, in any) (map[string]any, error) {
		var body io.Reader
		if in != nil {
			data, _ := json.Marshal(in)
			body = bytes.NewReader(data)
		}
		req, _ := http.NewRequest(method, fmt.Sprintf("http://%s:%d%s", host(i), hport, path), body)
		req.Header.Set("Content-Type", "application/json")
		res, err := hc.Do(req)
		if err != nil {
			return nil, err
		}
		defer res.Body.Close()
		data, err := io.ReadAll(res.Body)
		if err != nil {
			return nil, err
		}
		rep.Count("http-requests", 1)
		if res.StatusCode >= 300 {
			return nil, errors.New(string(data))
		}
		out := map[string]any{}
		d := json.NewDecoder(bytes.NewReader(data))
		d.UseNumber()
		d.Decode(&out)
		return out, nil
	}
	names := []string{"a", "b", "c d"}
	create := func(i int) {
		do("POST", i, "/API/v1/queues", map[string]any{"name": names[i%3], "type": []string{"delayed", "fair"}[i%2]})
	}
	for i := range names {
		create(i)
	}
	var seen ids
	var good, transfers, snapshots, messages, reads, requeued, forwarded, calls atomic.Int64
	stop := make(chan bool)
	var bg sync.WaitGroup
	// consumers and producers on streams
	for k := 0; k < 4; k++ {
		bg.Add(1)
		seed := r.Uint64()
		go func() {
			defer bg.Done()
			r := rand.New(rand.NewPCG(seed, 3))
			for {
				select {
				case <-stop:
					return
				default:
				}
				ctx, cancel := context.WithTimeout(context.Background(), time.Duration(300+r.IntN(2000))*time.Millisecond)
				c := clients[r.IntN(3)]
				q := names[r.IntN(3)]
				if k%2 == 0 {
					if s, err := c.DequeueStream(ctx, &pb.DequeueRequest{QueueName: q, Ack: r.IntN(2) == 0}); err == nil {
						for {
							m, err := s.Recv()
							if err != nil {
								break
							}
							messages.Add(1)
							seen.add(m.Id)
						}
					}
				} else if s, err := c.EnqueueStream(ctx); err == nil {
					for {
						if s.Send(&pb.EnqueueRequest{QueueName: q, Group: fmt.Sprint("g", r.IntN(3)), Content: "stream"}) != nil {
							break
						}
						m, err := s.Recv()
						if err != nil {
							break
						}
						messages.Add(1)
						seen.add(m.Id)
						time.Sleep(5 * time.Millisecond)
					}
				}
				cancel()
				core.Touch()
			}
		}()
	}
	// what happens in the background
	bg.Add(1)
	seed := r.Uint64()
	go func() {
		defer bg.Done()
		r := rand.New(rand.NewPCG(seed, 4))
		for {
			select {
			case <-stop:
				return
			case <-time.After(time.Duration(300+r.IntN(1200)) * time.Millisecond):
			}
			core.Touch()
			if r.IntN(2) == 0 {
				if l := cl.Leader(); l != nil && l.N.Raft.LeadershipTransfer().Error() == nil {
					transfers.Add(1)
				}
			} else if cl.Nodes[r.IntN(3)].Snapshot() == nil {
				snapshots.Add(1)
			}
		}
	}()
	crowd(r, 10, 7*time.Second, func(r *rand.Rand, k int) {
		i := r.IntN(3)
		q := names[r.IntN(3)]
		p := "/API/v1/queues/" + url.PathEscape(q)
		leads := cl.Nodes[i].N.IsLeader()
		cl.Nodes[i].N.Leader()
		var err error
		ctx, cancel := context.WithTimeout(context.Background(), 5*time.Second)
		defer cancel()
		if k%2 == 0 {
			switch r.IntN(12) {
			case 0, 1, 2:
				var out map[string]any
				if out, err = do("POST", i, p+"/messages", map[string]any{"content": "x" + strings.Repeat("y", r.IntN(3000)), "group": fmt.Sprint("g", r.IntN(3)), "priority": r.IntN(3)}); err == nil {
					id := uint64(0)
					fmt.Sscan(fmt.Sprint(out["id"]), &id)
					seen.add(id)
				}
			case 3, 4, 5:
				var out map[string]any
				if out, err = do("GET", i, fmt.Sprintf("%s/messages?ack=%v", p, r.IntN(3) == 0), nil); err == nil {
					id := uint64(0)
					fmt.Sscan(fmt.Sprint(out["id"]), &id)
					seen.add(id)
				}
			case 6:
				_, err = do("POST", i, fmt.Sprintf("%s/messages/%d/ack", p, seen.get(r)), map[string]any{})
			case 7:
				_, err = do("POST", i, fmt.Sprintf("%s/messages/%d/nack", p, seen.get(r)), map[string]any{})
			case 8:
				_, err = do("PUT", i, fmt.Sprintf("%s/messages/%d/priority", p, seen.get(r)), map[string]any{"priority": r.IntN(4)})
			case 9:
				var out map[string]any
				if out, err = do("GET", i, p, nil); err == nil && fmt.Sprint(out["unacked"]) != "0" {
					requeued.Add(1)
				}
				do("GET", i, "/API/v1/queues", nil)
			case 10:
				if r.IntN(3) == 0 {
					do("GET", i, "/metrics", nil)
					reads.Add(1)
				}
			default:
				if r.IntN(20) == 0 {
					do("DELETE", i, p, nil)
				} else {
					create(i)
				}
			}
		} else {
			c := clients[i]
			calls.Add(1)
			switch r.IntN(12) {
			case 0, 1, 2:
				var m *pb.EnqueueResponse
				if m, err = c.Enqueue(ctx, &pb.EnqueueRequest{QueueName: q, Group: fmt.Sprint("g", r.IntN(3)), Priority: int64(r.IntN(3)), Content: "x"}); err == nil {
					seen.add(m.Id)
				}
			case 3, 4, 5:
				var m *pb.DequeueResponse
				if m, err = c.Dequeue(ctx, &pb.DequeueRequest{QueueName: q, Ack: r.IntN(3) == 0}); err == nil {
					seen.add(m.Id)
				}
			case 6, 7:
				_, err = c.Ack(ctx, &pb.AckRequest{QueueName: q, Id: seen.get(r)})
			case 8:
				_, err = c.Nack(ctx, &pb.NackRequest{QueueName: q, Id: seen.get(r)})
			case 9:
				_, err = c.UpdatePriority(ctx, &pb.UpdatePriorityRequest{QueueName: q, Id: seen.get(r), Priority: int64(r.IntN(4))})
			case 10:
				_, err = c.CreateQueue(ctx, &pb.CreateQueueRequest{Name: q, Type: "fair"})
			default:
				if r.IntN(20) == 0 {
					_, err = c.DeleteQueue(ctx, &pb.DeleteQueueRequest{Name: q})
				}
				cl.Nodes[i].N.GenerateID()
			}
		}
		if err == nil {
			good.Add(1)
			if !leads {
				forwarded.Add(1)
			}
		}
	})
	close(stop)
	bg.Wait()
	rep.Count("grpc-requests", calls.Load())
	rep.Count("stream-messages", messages.Load())
	rep.Count("transfers", transfers.Load())
	rep.Count("snapshots", snapshots.Load())
	rep.Count("requeued", requeued.Load())
	rep.Count("metrics-read", reads.Load())
	rep.Count("forwarded", forwarded.Load())
	rep.Count("successes", good.Load())
	rep.Done(good.Load() > 50, fmt.Sprint("services", ci, good.Load(), messages.Load()), func() any {
		return map[string]any{"case": ci, "successes": good.Load(), "transfers": transfers.Load()}
	})
}
