// hostilew sends hostile input to server processes.
package main

import (
	"bufio"
	"encoding/json"
	"flag"
	"fmt"
	"math/rand/v2"
	"net/http"
	"os"
	"os/exec"
	"path/filepath"
	"strings"
	"sync"
	"syscall"
	"time"

	"doqverif/core"
	"doqverif/proc"
	"doqverif/seq"

	pb "github.com/kgantsov/doq/pkg/proto"
	"google.golang.org/grpc"
	"google.golang.org/grpc/credentials/insecure"
	"google.golang.org/grpc/grpclog"
)

var mode = flag.String("mode", "hostile", "what to run")

type nowhere struct{}

func (nowhere) Write(p []byte) (int, error) { return len(p), nil }

func main() {
	a := core.ParseArgs()
	core.Quiet()
	grpclog.SetLoggerV2(grpclog.NewLoggerV2(nowhere{}, nowhere{}, nowhere{}))
	if *mode == "victim" {
		victim()
		return
	}
	core.Watchdog(240 * time.Second)
	rep := core.NewReport()
	rep.Rule = "a server process, or three nodes in one process, get generated hostile input over HTTP, gRPC and the replicated log: bytes that are no requests, requests that are not complete, fields of all types and sizes, names and contents with all characters, large payloads at the same time; every complete request is answered, the process goes on, all its services work afterwards, and other queues are as they were; non-trivial: at least 50 inputs"
	for k, v := range map[string]int64{"http-raw": 300, "http-json": 300, "grpc-raw": 300, "grpc-fields": 200, "command": 300, "command-mutated": 100, "large": 50, "halfopen": 20, "streams": 40, "probes": 300, "controls": 16, "accepted": 60, "restarts": 8, "answered": 1000} {
		rep.Floor(k, v)
	}
	n := 32
	if a.Tier == "thorough" {
		n = 600
	}
	core.Cases(a, n, func(ci int) { one(a, rep, core.Rand(a, "hostile", ci), ci) })
	rep.Write(a)
	os.Exit(0)
}

// target is what is attacked
type target struct {
	http  []string
	grpc  []string
	conns []*grpc.ClientConn
	apply string // URL
	dead  func() (bool, string)
	log   func() string
	stop  func()
	again func() string // starts it again on its data
	hc    *http.Client
}

func (t *target) client(i int) pb.DOQClient { return pb.NewDOQClient(t.conns[i]) }

func (t *target) dial() {
	for _, g := range t.grpc {
		c, err := grpc.Dial("passthrough:///"+g, grpc.WithTransportCredentials(insecure.NewCredentials()))
		if err != nil {
			panic(fmt.Sprintf("harness: %v", err))
		}
		t.conns = append(t.conns, c)
	}
	t.hc = &http.Client{Timeout: 60 * time.Second, Transport: &http.Transport{DisableKeepAlives: true}}
}

func real(a *core.Args, ci int, dir string) (*target, string) {
	base := 20000 + a.Shard*600 + ci%150*4
	s := &proc.Server{
		ID: "n0", Host: "127.0.0.1", HTTP: base, GRPC: base + 1, Raft: base + 2, Dir: dir,
		Flags: []string{"--prometheus.enabled", "true", "--storage.value_log_file_size", "67108864", "--queue.acknowledgement_timeout", "600"},
	}
	s.Start()
	t := &target{
		http: []string{fmt.Sprintf("127.0.0.1:%d", s.HTTP)}, grpc: []string{fmt.Sprintf("127.0.0.1:%d", s.GRPC)},
		dead: s.Dead, log: s.Log, stop: func() { s.Kill() },
	}
	if !s.Listening(60 * time.Second) {
		d, why := s.Dead()
		s.Kill()
		return nil, fmt.Sprintf("the server does not start: %v %s\n%s", d, why, s.Log())
	}
	t.dial()
	t.again = func() string {
		s.Kill()
		s.Start()
		if !s.Listening(90 * time.Second) {
			d, why := s.Dead()
			return fmt.Sprintf("after hostile input the server does not start again: %v %s", d, why)
		}
		for _, c := range t.conns {
			c.Close()
		}
		t.conns = nil
		t.dial()
		return ""
	}
	return t, ""
}

// child starts three nodes in a process
func child(a *core.Args, ci int, dir string) (*target, string) {
	cmd := exec.Command(os.Args[0], "-mode", "victim", "-shard", fmt.Sprint(a.Shard), "-case", fmt.Sprint(ci))
	cmd.Env = append(os.Environ(), "VICTIM_DIR="+dir, "GOTRACEBACK=all", "GOMAXPROCS=4")
	cmd.Dir = dir
	cmd.SysProcAttr = &syscall.SysProcAttr{Pdeathsig: syscall.SIGKILL}
	f, err := os.Create(filepath.Join(dir, "stderr"))
	if err != nil {
		panic(fmt.Sprintf("harness: %v", err))
	}
	defer f.Close()
	cmd.Stderr = f
	out, err := cmd.StdoutPipe()
	if err != nil {
		panic(fmt.Sprintf("harness: %v", err))
	}
	if err := cmd.Start(); err != nil {
		panic(fmt.Sprintf("harness: %v", err))
	}
	done := make(chan error, 1)
	ended := make(chan struct{})
	var ready struct {
		HTTP, GRPC []string
		Apply      string
	}
	line := make(chan string, 1)
	go func() {
		s, _ := bufio.NewReader(out).ReadString('\n')
		line <- s
		done <- cmd.Wait()
		close(ended)
	}()
	var mu sync.Mutex
	meant := false
	t := &target{}
	t.log = func() string {
		data, _ := os.ReadFile(filepath.Join(dir, "stderr"))
		if i := strings.Index(string(data), "panic:"); i >= 0 {
			data = data[i:]
			return string(data[:min(len(data), 8000)])
		}
		return string(data[max(0, len(data)-4000):])
	}
	t.dead = func() (bool, string) {
		mu.Lock()
		defer mu.Unlock()
		select {
		case <-ended:
			return !meant, "the process ended"
		default:
			return false, ""
		}
	}
	t.stop = func() {
		mu.Lock()
		meant = true
		mu.Unlock()
		cmd.Process.Kill()
		<-ended
	}
	select {
	case s := <-line:
		if err := json.Unmarshal([]byte(s), &ready); err != nil {
			t.stop()
			return nil, "no cluster: " + t.log()
		}
	case <-time.After(100 * time.Second):
		t.stop()
		return nil, "no cluster in time: " + t.log()
	}
	t.http, t.grpc, t.apply = ready.HTTP, ready.GRPC, ready.Apply
	t.dial()
	core.Touch()
	return t, ""
}

type attack struct {
	a     *core.Args
	rep   *core.Report
	t     *target
	r     *rand.Rand
	ci    int
	mu    sync.Mutex
	trace []string
	bad   string
	ids   []uint64
}

func (x *attack) note(format string, args ...any) {
	x.mu.Lock()
	defer x.mu.Unlock()
	x.trace = append(x.trace, time.Now().Format("05.000 ")+fmt.Sprintf(format, args...))
	core.Touch()
}

func (x *attack) wrong(format string, args ...any) {
	x.note("WRONG "+format, args...)
	x.mu.Lock()
	defer x.mu.Unlock()
	if x.bad == "" {
		x.bad = fmt.Sprintf(format, args...)
	}
}

type kept struct {
	id      uint64
	prio    int64
	group   string
	content string
	held    bool
}

func one(a *core.Args, rep *core.Report, r *rand.Rand, ci int) {
	dir := core.ScratchDir()
	defer os.RemoveAll(dir)
	var t *target
	var why string
	single := ci/8%2 == 0
	if single {
		t, why = real(a, ci, dir)
		rep.Count("server-processes", 1)
	} else {
		t, why = child(a, ci, dir)
		rep.Count("clusters", 1)
	}
	if t == nil {
		rep.Inconc("case %d: %s", ci, why)
		return
	}
	defer t.stop()
	x := &attack{a: a, rep: rep, t: t, r: r, ci: ci}
	// queues that must stay as they are
	var leader *proc.Backend
	leader = &proc.Backend{C: func() pb.DOQClient { return t.client(0) }, Timeout: 30 * time.Second}
	types := map[string]string{"control": "delayed", "control:fair": "fair", "probe": "delayed"}
	for q, typ := range types {
		ok := false
		for until := time.Now().Add(60 * time.Second); !ok && time.Now().Before(until); time.Sleep(50 * time.Millisecond) {
			core.Touch()
			ok = leader.Create(typ, q) == nil
		}
		if !ok {
			rep.Inconc("case %d: the queue %q cannot be created\n%s", ci, q, t.log())
			return
		}
	}
	control := map[string][]*kept{}
	for q, typ := range types {
		if q == "probe" {
			continue
		}
		for i := 0; i < 12; i++ {
			k := &kept{prio: int64(r.IntN(3)), group: "default", content: fmt.Sprintf("content %d of %s é\x00", i, q)}
			if typ == "fair" {
				k.group = fmt.Sprint("g", i%3)
			}
			m, err := leader.Enqueue(q, k.group, k.prio, k.content, 0)
			if err != nil {
				rep.Inconc("case %d: enqueue: %v", ci, err)
				return
			}
			k.id = m.ID
			control[q] = append(control[q], k)
			time.Sleep(2 * time.Millisecond)
		}
		for i := 0; i < 3; i++ {
			m, err := leader.Dequeue(q, false)
			if err != nil {
				rep.Inconc("case %d: dequeue: %v", ci, err)
				return
			}
			for _, k := range control[q] {
				if k.id == m.ID {
					k.held = true
				}
			}
		}
	}
	for i := 0; i < 4; i++ {
		q := fmt.Sprint("hostile-", i)
		leader.Create([]string{"delayed", "fair"}[i%2], q)
		for k := 0; k < 5; k++ {
			if m, err := leader.Enqueue(q, fmt.Sprint("g", k), int64(k), "x", 0); err == nil {
				x.ids = append(x.ids, m.ID)
			}
		}
	}
	x.note("the control queues are ready")
	kinds := []func(){x.httpRaw, x.httpJSON, x.grpcRaw, x.grpcFields, x.halfOpen, x.streams, x.large}
	if t.apply != "" {
		kinds = append(kinds, x.commands, x.commands)
	}
	r.Shuffle(len(kinds), func(i, j int) { kinds[i], kinds[j] = kinds[j], kinds[i] })
	inputs := 0
	for _, k := range kinds {
		k()
		inputs += 12
		if !x.alive() {
			break
		}
	}
	if x.bad == "" && t.again != nil {
		x.rep.Count("restarts", 1)
		x.note("restart")
		if why := t.again(); why != "" {
			x.wrong("%s", why)
		} else {
			x.alive()
		}
	}
	if x.bad == "" {
		x.check(leader, control)
	}
	if d, why := t.dead(); d && x.bad == "" {
		x.wrong("%s", why)
	}
	if x.bad != "" {
		rep.Violate(core.Violation{Case: ci, Kind: "hostile", Msg: x.bad, Trace: append(x.trace, append([]string{"--- the process:"}, strings.Split(t.log(), "\n")...)...)})
		return
	}
	rep.Done(inputs >= 50, strings.Join(x.trace, ";"), func() any {
		return map[string]any{"case": ci, "trace": x.trace[:min(60, len(x.trace))]}
	})
}

// alive tells if all services of all nodes work
func (x *attack) alive() bool {
	if x.bad != "" {
		return false
	}
	for i := range x.t.http {
		i := i
		for _, p := range []struct {
			name string
			f    func() error
		}{
			{"HTTP", func() error { return x.probeHTTP(i) }},
			{"gRPC", func() error {
				b := &proc.Backend{C: func() pb.DOQClient { return x.t.client(i) }, Timeout: 10 * time.Second}
				m, err := b.Enqueue("probe", "default", 0, "probe", 0)
				if err != nil {
					return err
				}
				got, err := b.Dequeue("probe", true)
				if err == nil && (got.Content != "probe") {
					return fmt.Errorf("%v was enqueued, %v was dequeued", m, got)
				}
				return err
			}},
		} {
			x.rep.Count("probes", 1)
			var err error
			until := time.Now().Add(90 * time.Second)
			for {
				if err = p.f(); err == nil {
					break
				}
				core.Touch()
				if d, why := x.t.dead(); d {
					x.wrong("%s", why)
					return false
				}
				if time.Now().After(until) {
					x.wrong("the %s service of node %d does not work any more: %v", p.name, i, err)
					return false
				}
				x.rep.Count("probes-again", 1)
				time.Sleep(100 * time.Millisecond)
			}
		}
	}
	return true
}

// check compares the control queues with what they must hold
func (x *attack) check(b *proc.Backend, control map[string][]*kept) {
	for q, ks := range control {
		left := map[uint64]*kept{}
		for _, k := range ks {
			left[k.id] = k
		}
		for {
			m, err := b.Dequeue(q, true)
			if err != nil {
				break
			}
			k := left[m.ID]
			switch {
			case k == nil:
				x.wrong("queue %q has a message %v that was never put there, or twice", q, m)
				return
			case k.held:
				x.wrong("message %d of queue %q was handed out again before its timeout", m.ID, q)
				return
			case k.content != m.Content || k.prio != m.Priority || k.group != m.Group:
				x.wrong("message %v of queue %q was %v", m, q, *k)
				return
			}
			delete(left, m.ID)
		}
		for id, k := range left {
			if !k.held {
				x.wrong("message %d of queue %q is lost", id, q)
				return
			}
			if err := b.Ack(q, id); err != nil {
				x.wrong("message %d of queue %q is not awaiting acknowledgement any more: %v", id, q, err)
				return
			}
		}
	}
	x.rep.Count("controls", 1)
	x.note("the control queues are as they were")
}

var _ = seq.Msg{}
