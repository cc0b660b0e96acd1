package main

import (
	"bytes"
	"encoding/json"
	"fmt"
	"io"
	"math"
	"math/rand/v2"
	"net"
	"net/http"
	"reflect"
	"strings"
	"sync"
	"sync/atomic"
	"time"

	"doqverif/core"
	"doqverif/fake"
	"doqverif/seq"

	"github.com/kgantsov/doq/pkg/config"
)

// relay passes connections on to another host; on demand it cuts one when the
// answer to a request arrives
type relay struct {
	to    string
	cut   atomic.Int32 // answers to pass before the next one is cut, negative: never
	cuts  atomic.Int64
	mu    sync.Mutex
	conns map[net.Conn]bool
}

func (y *relay) run(l net.Listener) {
	for {
		c, err := l.Accept()
		if err != nil {
			return
		}
		go func() {
			defer c.Close()
			s, err := net.Dial("tcp", y.to)
			if err != nil {
				return
			}
			defer s.Close()
			go func() { io.Copy(s, c); s.(*net.TCPConn).CloseWrite() }()
			buf := make([]byte, 1<<20)
			for {
				n, err := s.Read(buf)
				if n > 0 {
					if k := y.cut.Add(-1) + 1; k == 0 {
						y.cuts.Add(1)
						c.(*net.TCPConn).SetLinger(0)
						return
					} else if k < 0 {
						y.cut.Store(-1)
					}
					if _, err := c.Write(buf[:n]); err != nil {
						return
					}
				}
				if err != nil {
					return
				}
			}
		}()
	}
}

// hosts is a set of nodes on loopback addresses with one port
type hosts struct {
	port               string
	leader, f1, f2     *fake.Node
	hl, h1, h2         string // hosts
	hrelay, hang, dead string
	relay              *relay
	hc                 *http.Client
}

func newHosts(shard int) *hosts {
	h := &hosts{}
	host := func(k int) string { return fmt.Sprintf("127.%d.%d.%d", 10+shard, 1+k/200, 1+k%200) }
	h.hl, h.h1, h.h2, h.hrelay, h.hang, h.dead = host(1), host(2), host(3), host(4), host(5), host(6)
	var ls []net.Listener
	for try := 0; ; try++ {
		l, err := net.Listen("tcp", h.hl+":0")
		if err != nil {
			panic(fmt.Sprintf("harness: %v", err))
		}
		_, h.port, _ = net.SplitHostPort(l.Addr().String())
		ls = []net.Listener{l}
		for _, x := range []string{h.h1, h.h2, h.hrelay, h.hang} {
			l, err := net.Listen("tcp", x+":"+h.port)
			if err != nil {
				break
			}
			ls = append(ls, l)
		}
		if len(ls) == 5 {
			break
		}
		for _, l := range ls {
			l.Close()
		}
		if try > 50 {
			panic("harness: no port")
		}
	}
	cfg := &config.Config{}
	cfg.Http.Port = h.port
	h.leader, h.f1, h.f2 = fake.New("leader"), fake.New("f1"), fake.New("f2")
	serve(cfg, h.leader, ls[0])
	serve(cfg, h.f1, ls[1])
	serve(cfg, h.f2, ls[2])
	h.relay = &relay{to: h.hl + ":" + h.port}
	h.relay.cut.Store(-1)
	go h.relay.run(ls[3])
	go func() {
		// accepts and never answers
		for {
			c, err := ls[4].Accept()
			if err != nil {
				return
			}
			go io.Copy(io.Discard, c)
		}
	}()
	h.hc = &http.Client{Timeout: 90 * time.Second, Transport: &http.Transport{MaxIdleConnsPerHost: 200}}
	h.reset()
	return h
}

// reset makes everything healthy
func (h *hosts) reset() {
	h.leader.Reset(true, h.hl)
	h.f1.Reset(false, h.hl)
	h.f2.Reset(false, h.hl)
	h.relay.cut.Store(-1)
}

func (h *hosts) client(host string, r *rand.Rand) *client {
	return &client{base: "http://" + host + ":" + h.port, hc: h.hc, r: r}
}

// request is a request that can be sent several times
type request struct {
	what, method, path string
	body               []byte
	valid              bool
}

func (q request) String() string {
	return fmt.Sprintf("%s: %s %.300s %.300q", q.what, q.method, q.path, q.body)
}

var longPool = []string{"<", "&", ">", "\"", "\\", "ü", "日", "\u2028", "x", "\x00", "👍"}

// generate makes a request; most are valid
func generate(r *rand.Rand, uniq string, big bool) request {
	b := &client{r: r}
	q := seq.Names(r, "http", 1)[0]
	if uniq != "" {
		q += uniq
	} else if r.IntN(6) == 0 {
		q = strings.Repeat(longPool[r.IntN(len(longPool))], 1+r.IntN(300))
	}
	id := []uint64{0, 1, uint64(r.IntN(1000)), r.Uint64() >> 1, math.MaxInt64, r.Uint64() >> 20}[r.IntN(6)]
	prio := []int64{0, 1, int64(r.IntN(100)), math.MaxInt64, 1<<53 + 1, r.Int64()}[r.IntN(6)]
	if r.IntN(5) == 0 {
		x := invalid(r, b, q, id)
		if x.body != "" {
			return request{"invalid " + x.what, x.method, x.path, []byte(strings.TrimSpace(x.body)), false}
		}
		return request{"invalid " + x.what, x.method, x.path, nil, false}
	}
	path := "/API/v1/queues/" + b.name(q)
	switch r.IntN(8) {
	case 0:
		return request{"create", "POST", "/API/v1/queues", b.encode(map[string]any{"name": q, "type": []string{"delayed", "fair"}[r.IntN(2)]}), true}
	case 1:
		return request{"delete", "DELETE", path, nil, true}
	case 2, 3:
		in := map[string]any{"priority": prio, "content": seq.Content(r, "hostile", r.Uint64N(1000))}
		if big {
			k := r.IntN(len(longPool))
			s := longPool[k]
			in["content"] = strings.Repeat(s, r.IntN(200000)/len(s))
		}
		switch r.IntN(4) {
		case 0:
		case 1:
			in["group"] = ""
		default:
			in["group"] = seq.Groups(r, 13)[r.IntN(13)]
		}
		return request{"enqueue", "POST", path + "/messages", b.encode(in), true}
	case 4:
		return request{"dequeue", "GET", path + "/messages" + []string{"", "?ack=true", "?ack=false"}[r.IntN(3)], nil, true}
	case 5:
		return request{"ack", "POST", fmt.Sprintf("%s/messages/%d/ack", path, id), nil, true}
	case 6:
		return request{"nack", "POST", fmt.Sprintf("%s/messages/%d/nack", path, id), nil, true}
	}
	return request{"update", "PUT", fmt.Sprintf("%s/messages/%d/priority", path, id), b.encode(map[string]any{"priority": prio}), true}
}

// outcome is what a client sees of an answer
func outcome(a *answer, err error) (ok bool, fields map[string]any, what string) {
	if err != nil {
		return false, nil, err.Error()
	}
	if a.status >= 300 {
		return false, nil, fmt.Sprintf("status %d %.200s", a.status, a.body)
	}
	d := json.NewDecoder(bytes.NewReader(a.body))
	d.UseNumber()
	if err := d.Decode(&fields); err != nil {
		return true, nil, fmt.Sprintf("status %d with %.200q", a.status, a.body)
	}
	delete(fields, "$schema")
	return true, fields, fmt.Sprintf("status %d %.300v", a.status, fields)
}

func total(c map[string]int) (n int) {
	for _, k := range c {
		n += k
	}
	return
}

// forward: requests to nodes that do not lead, with recording stand-ins for the nodes
func forward(a *core.Args, rep *core.Report) {
	rep.Rule = "the same generated request is sent to the leader and to another node, with stand-ins for the nodes that record what they are asked to do; then without a leader, with leaders that are none, do not answer, are not there or break the connection; and many at the same time; non-trivial: the leader was asked to do something"
	for k, v := range map[string]int64{"same": 10000, "same-executed": 5000, "same-refused-by-leader": 500, "same-invalid": 1000, "concurrent": 10000, "no-leader": 60, "circle": 120, "not-a-leader": 60, "not-there": 50, "cut": 120, "hanging": 20, "flips": 200} {
		rep.Floor(k, v)
	}
	h := newHosts(a.Shard)
	n := pick(a, 1600, 40000)
	violate := func(ci int, kind, format string, args ...any) {
		rep.Violate(core.Violation{Case: ci, Kind: kind, Msg: fmt.Sprintf(format, args...)})
	}
	core.Cases(a, n, func(ci int) {
		r := core.Rand(a, "forward", ci)
		h.reset()
		switch {
		case ci/8%4 == 3:
			concurrently(rep, h, r, ci, violate)
		case ci/8%4 == 2:
			failing(rep, h, r, ci, violate)
		default:
			for k := 0; k < 20; k++ {
				compare(rep, h, r, ci, violate)
			}
		}
	})
	h.reset()
	if a.Only < 0 {
		hanging(a, rep, h, violate)
	}
}

// compare sends a request to the leader and to another node
func compare(rep *core.Report, h *hosts, r *rand.Rand, ci int, violate func(int, string, string, ...any)) {
	h.reset()
	q := generate(r, "", r.IntN(8) == 0)
	a, err := h.client(h.hl, r).raw(q.method, q.path, q.body, nil)
	ok1, f1, w1 := outcome(a, err)
	c1 := h.leader.Take()
	h.f1.Take()
	a, err = h.client(h.h1, r).raw(q.method, q.path, q.body, nil)
	ok2, f2, w2 := outcome(a, err)
	c2 := h.leader.Take()
	c3 := h.f1.Take()
	rep.Count("same", 1)
	if len(c1) > 0 {
		rep.Count("same-executed", 1)
		if !ok1 {
			rep.Count("same-refused-by-leader", 1)
		}
	}
	if !q.valid {
		rep.Count("same-invalid", 1)
		if ok1 || ok2 || len(c1)+len(c2)+len(c3) > 0 {
			violate(ci, "invalid", "%s\n leader: %s %v\n other node: %s %v %v", q, w1, c1, w2, c2, c3)
		}
	}
	rep.Done(len(c1) > 0, fmt.Sprint(q.what, w1, c1), func() any {
		return map[string]any{"case": ci, "request": q.String(), "leader": w1, "other node": w2, "calls": c1}
	})
	switch {
	case len(c3) > 0:
		violate(ci, "executed", "%s\n was executed by a node that does not lead: %v", q, c3)
	case !reflect.DeepEqual(c1, c2):
		violate(ci, "calls", "%s\n sent to the leader: %v\n sent to another node: %v\n leader: %s\n other node: %s", q, c1, c2, w1, w2)
	case ok1 != ok2 || !reflect.DeepEqual(f1, f2):
		violate(ci, "result", "%s\n the leader answers %s\n another node answers %s", q, w1, w2)
	}
}

// concurrently sends many requests at the same time
func concurrently(rep *core.Report, h *hosts, r *rand.Rand, ci int, violate func(int, string, string, ...any)) {
	n := 20 + r.IntN(100)
	type result struct {
		q    request
		ok   bool
		f    map[string]any
		what string
		direct,
		via string
	}
	res := make([]result, n)
	seed := r.Uint64()
	if r.IntN(2) == 0 {
		h.leader.Slow(time.Duration(r.IntN(5)) * time.Millisecond)
	}
	var wg sync.WaitGroup
	for i := range res {
		wg.Add(1)
		go func() {
			defer wg.Done()
			r := rand.New(rand.NewPCG(seed, uint64(i)))
			x := &res[i]
			x.q = generate(r, fmt.Sprintf("-%d-%d", ci, i), false)
			a, err := h.client([]string{h.h1, h.h2}[i%2], r).raw(x.q.method, x.q.path, x.q.body, nil)
			x.ok, x.f, x.what = outcome(a, err)
		}()
	}
	wg.Wait()
	got := h.leader.Take()
	if c := h.f1.Take(); len(c) > 0 {
		violate(ci, "executed", "executed by a node that does not lead: %v", c)
	}
	if c := h.f2.Take(); len(c) > 0 {
		violate(ci, "executed", "executed by a node that does not lead: %v", c)
	}
	// what the leader does if it is asked directly, one after the other
	want := map[string]int{}
	for i := range res {
		x := &res[i]
		a, err := h.client(h.hl, r).raw(x.q.method, x.q.path, x.q.body, nil)
		ok, f, what := outcome(a, err)
		c := h.leader.Take()
		for k, v := range c {
			want[k] += v
		}
		if ok != x.ok || !reflect.DeepEqual(f, x.f) {
			violate(ci, "result", "%s\n the leader answers %s\n another node answered %s, with %d others at the same time", x.q, what, x.what, n-1)
			return
		}
		rep.Count("concurrent", 1)
	}
	if !reflect.DeepEqual(got, want) {
		var diff []string
		for k, v := range want {
			if got[k] != v {
				diff = append(diff, fmt.Sprintf("%s: %d times instead of %d", k, got[k], v))
			}
		}
		for k, v := range got {
			if want[k] == 0 {
				diff = append(diff, fmt.Sprintf("%s: %d times instead of 0", k, v))
			}
		}
		violate(ci, "calls", "%d requests at the same time: %v", n, diff)
	}
	rep.Done(len(got) > 0, fmt.Sprint(want), nil)
}

const bound = 30 * time.Second

// failing sends requests while something is wrong with the leader
func failing(rep *core.Report, h *hosts, r *rand.Rand, ci int, violate func(int, string, string, ...any)) {
	for k := 0; k < 3; k++ {
		h.reset()
		q := generate(r, "", false)
		for !q.valid {
			q = generate(r, "", false)
		}
		kind := []string{"no-leader", "circle", "circle", "not-a-leader", "not-there", "cut", "cut", "flips", "flips"}[r.IntN(9)]
		refuse, lenient := true, false
		switch kind {
		case "no-leader":
			h.f1.LeaderIs.Store("")
		case "circle":
			if r.IntN(3) == 0 {
				h.f1.LeaderIs.Store(h.h1)
			} else {
				h.f1.LeaderIs.Store(h.h2)
				h.f2.LeaderIs.Store(h.h1)
			}
		case "not-a-leader":
			h.f1.LeaderIs.Store(h.h2)
			lenient = true
		case "not-there":
			h.f1.LeaderIs.Store(h.dead)
		case "cut":
			// the connection has been used before
			h.f1.LeaderIs.Store(h.hrelay)
			for i, n := 0, r.IntN(3); i < n; i++ {
				h.client(h.h1, r).raw("POST", fmt.Sprintf("/API/v1/queues/other/messages/%d/ack", i), nil, nil)
			}
			h.leader.Take()
			h.relay.cut.Store(0)
		case "flips":
			// the node begins to lead, or ceases to, while it handles the request
			at, to := int64(1+r.IntN(5)), r.IntN(2) == 0
			h.f1.Asked.Store(0)
			h.f1.Flips = func(n int64) bool { return (n >= at) == to }
			lenient = true
		}
		begin := time.Now()
		a, err := h.client(h.h1, r).raw(q.method, q.path, q.body, nil)
		took := time.Since(begin)
		ok, _, what := outcome(a, err)
		calls := [3]map[string]int{h.leader.Take(), h.f1.Take(), h.f2.Take()}
		n := total(calls[0]) + total(calls[1]) + total(calls[2])
		asked := h.f1.Asked.Load() + h.f2.Asked.Load()
		rep.Count(kind, 1)
		rep.Done(true, fmt.Sprint(kind, q.what, what, n), nil)
		switch {
		case took > bound:
			violate(ci, kind, "%s: %s\n was answered after %s: %s", kind, q, took, what)
		case n > 1:
			violate(ci, kind, "%s: %s\n was executed %d times: %v", kind, q, n, calls)
		case ok && refuse && !lenient:
			violate(ci, kind, "%s: %s\n succeeded: %s", kind, q, what)
		case ok && n != 1:
			violate(ci, kind, "%s: %s\n succeeded without being executed: %s", kind, q, what)
		case (kind == "no-leader" || kind == "circle" || kind == "not-there") && n > 0:
			violate(ci, kind, "%s: %s\n was executed: %v", kind, q, calls)
		case asked > 300:
			violate(ci, kind, "%s: %s\n went in circles: nodes were asked %d times who leads", kind, q, asked)
		}
	}
}

// hanging sends requests while the leader does not answer
func hanging(a *core.Args, rep *core.Report, h *hosts, violate func(int, string, string, ...any)) {
	h.f1.LeaderIs.Store(h.hang)
	h.f2.LeaderIs.Store(h.hang)
	var wg sync.WaitGroup
	for i := 0; i < 24; i++ {
		wg.Add(1)
		go func() {
			defer wg.Done()
			r := core.Rand(a, "hanging", i*100+a.Shard)
			q := generate(r, "", false)
			for !q.valid {
				q = generate(r, "", false)
			}
			begin := time.Now()
			ans, err := h.client([]string{h.h1, h.h2}[i%2], r).raw(q.method, q.path, q.body, nil)
			took := time.Since(begin)
			ok, _, what := outcome(ans, err)
			core.Touch()
			rep.Count("hanging", 1)
			if ok {
				violate(-1, "hanging", "%s\n succeeded although the leader does not answer: %s", q, what)
			}
			if took > bound {
				violate(-1, "hanging", "%s\n was answered after %s", q, took)
			}
		}()
	}
	wg.Wait()
}
