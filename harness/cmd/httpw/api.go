package main

import (
	"context"
	"fmt"
	"math"
	"math/rand/v2"
	"net"
	"net/http"
	"reflect"
	"strings"
	"time"

	"doqverif/conc"
	"doqverif/core"
	"doqverif/profiles"
	"doqverif/seq"
	"doqverif/sim"
)

const kAnswer = "answer"

// server is a node with its HTTP service, in virtual time
type server struct {
	cl   *sim.Cluster
	l    *pipes
	tr   *http.Transport
	stop func()
}

func newServer(r *rand.Rand, T, I int64, window int, metrics bool) *server {
	s := &server{cl: sim.NewCluster(r.Uint64(), T, I), l: newPipes()}
	s.cl.Window, s.cl.Metrics = window, metrics
	s.cl.Form(1)
	n := s.cl.Nodes[0]
	s.stop = serve(n.Cfg, n.N, s.l)
	s.tr = &http.Transport{
		DialContext:         func(ctx context.Context, network, addr string) (net.Conn, error) { return s.l.dial(ctx) },
		MaxIdleConnsPerHost: 20,
	}
	return s
}

func (s *server) client(r *rand.Rand, rep *core.Report, odd func(format string, args ...any)) *client {
	return &client{base: "http://doq", hc: &http.Client{Transport: s.tr, Timeout: 60 * time.Second}, r: r, odd: odd, rep: rep}
}

func (s *server) close() {
	s.tr.CloseIdleConnections()
	s.stop()
	s.cl.Close()
}

// api: requests to one node, compared with the model
func api(a *core.Args, rep *core.Report) {
	pl := profiles.Plans()[a.Prop]
	p := *pl.P
	p.Names = "http"
	p.SharedIDs = false
	p.BulkRate = 0
	rep.Rule = pl.Rule + " (through the HTTP API)"
	n := pick(a, 1600, 16000)
	if a.Prop == "C17" {
		for k, v := range pl.Floors {
			rep.Floor(k, v)
		}
	} else {
		n = pick(a, 120, 2000)
	}
	// ids are made from the time since 2010
	time.Sleep(time.Until(time.Date(2024, 1, 1, 0, 0, 0, 0, time.UTC)))
	core.Cases(a, n, func(ci int) {
		now := time.Now()
		time.Sleep(time.Unix((now.Unix()/20+1)*20, 0).Sub(now))
		r := core.Rand(a, "api", ci)
		if a.Prop == "C17" && ci/8%4 == 3 {
			concurrent(a, rep, r, ci)
			return
		}
		c := seq.New(r, &p, rep)
		for i, g := range c.Groups() {
			if g == "" {
				// an empty group is the same as none
				c.Groups()[i] = "nonempty"
			}
		}
		s := newServer(r, c.T, c.I, c.Window, p.Stats)
		defer s.close()
		time.Sleep(time.Duration(r.IntN(1000)) * time.Millisecond)
		b := s.client(rand.New(rand.NewPCG(r.Uint64(), 1)), rep, func(format string, args ...any) {
			c.Deviate(kAnswer, format, args...)
		})
		b.calm = true
		c.Start(b)
		c.Extra = func() { bad(c, b) }
		c.Run()
		for k, v := range c.M.N {
			rep.Count(k, v)
		}
		rep.Count("operations", int64(len(c.Trace)))
		rep.Done(pl.Nontrivial(c.M.N), c.Signature(), func() any {
			return map[string]any{"case": ci, "timeout": c.T, "interval": c.I, "trace": c.Trace[:min(len(c.Trace), 60)]}
		})
		if d := pl.Judge(c.Devs); d != nil {
			rep.Violate(core.Violation{Case: ci, Kind: d.Kind, Msg: d.Msg, Trace: c.Trace})
		} else if len(c.Devs) > 0 {
			rep.Count("deviation-of-another-property", 1)
		}
	})
}

// concurrent: several clients at the same time
func concurrent(a *core.Args, rep *core.Report, r *rand.Rand, ci int) {
	T := []int64{1, 2, 5, 30}[r.IntN(4)]
	I := []int64{1, 1, 2}[r.IntN(3)]
	s := newServer(r, T, I, 5, false)
	defer s.close()
	var fs []conc.Finding
	ch := make(chan string, 1000)
	odd := func(format string, args ...any) {
		select {
		case ch <- fmt.Sprintf(format, args...):
		default:
		}
	}
	h := &conc.History{T: T, I: I, Types: map[string]string{}}
	queues := seq.Names(r, "http", 1+r.IntN(3))
	first := s.client(rand.New(rand.NewPCG(r.Uint64(), 1)), rep, odd)
	for _, q := range queues {
		h.Types[q] = []string{"delayed", "fair"}[r.IntN(2)]
		if err := first.Create(h.Types[q], q); err != nil {
			fs = append(fs, conc.Finding{Kind: seq.KLife, Msg: fmt.Sprintf("create of queue %q failed: %v", q, err)})
		}
	}
	seed := r.Uint64()
	begin := time.Now().Truncate(time.Second)
	rounds := 3 + r.IntN(6)
	l := &conc.Load{
		Queues: queues, Clients: 2 + r.IntN(6), Groups: 3, Updates: r.IntN(3) == 0, AutoAck: 5,
		Backend: func(k int) seq.Backend {
			return s.client(rand.New(rand.NewPCG(seed, uint64(k))), rep, odd)
		},
		Pause: func(r *rand.Rand, round int) bool {
			if round >= rounds {
				return false
			}
			// the service closes a connection five seconds after a request, do not meet that moment
			time.Sleep(time.Until(begin.Add(time.Duration(round+1) * 1037 * time.Millisecond)))
			return true
		},
		Pad: func(r *rand.Rand) string { return strings.Repeat("p", r.IntN(300)) },
	}
	l.Run(h, seed)
	time.Sleep(time.Duration(T+I+2) * time.Second)
	first.calm = true
	held := h.Held()
	for _, q := range queues {
		for k := len(held[q]) + 3; k > 0; k-- {
			if o := h.Dequeue(first, 99, q, true); !o.OK {
				break
			}
		}
	}
	left := h.Held()
	fs2, n := h.Check()
	fs = append(fs, fs2...)
	for q, ids := range left {
		if len(ids) > 0 {
			fs = append(fs, conc.Finding{Kind: seq.KLost, Msg: fmt.Sprintf("%d messages of queue %q are lost", len(ids), q)})
		}
	}
	close(ch)
	for m := range ch {
		fs = append(fs, conc.Finding{Kind: kAnswer, Msg: m})
	}
	for k, v := range n {
		rep.Count("conc-"+k, v)
	}
	var sig strings.Builder
	tr := []string{}
	for _, o := range h.Ops {
		fmt.Fprintf(&sig, "%d%s%v%d;", o.Client, o.Kind, o.OK, o.ID)
		tr = append(tr, o.String())
	}
	rep.Done(n["deliveries"] > 0, sig.String(), func() any {
		return map[string]any{"case": ci, "timeout": T, "interval": I, "history": tr[:min(len(tr), 40)]}
	})
	if len(fs) > 0 {
		rep.Violate(core.Violation{Case: ci, Kind: fs[0].Kind, Msg: fs[0].Msg, Trace: tr})
	}
}

type badRequest struct {
	what, method, path string
	body               string
	header             map[string]string
}

// invalid makes a request that the documentation does not allow
func invalid(r *rand.Rand, b *client, q string, id uint64) badRequest {
	v := b.name(q)
	base := "/API/v1/queues"
	msgs := base + "/" + v + "/messages"
	one := func(s ...string) string { return s[r.IntN(len(s))] }
	notString := func() string { return one("1", "true", "null", "[]", "{}", `["delayed"]`, "1.5") }
	notInt := func() string {
		return one(`"1"`, "true", "[]", "{}", "1.5", `""`, `"high"`, "-1", "-9223372036854775808", "1e400", "-0.5", "9223372036854775808", "1e30", "99999999999999999999999")
	}
	long := strings.Repeat("n", 1025+r.IntN(500))
	badID := func() string {
		return one("abc", "-1", "1.5", "18446744073709551616", "0x10", "1e3", "%20", "1%20", "null", fmt.Sprint(id)+"a", "99999999999999999999999", "+1", "١٢")
	}
	switch r.IntN(22) {
	case 0:
		return badRequest{"create without a name", "POST", base, `{"type":"delayed"}`, nil}
	case 1:
		return badRequest{"create without a type", "POST", base, fmt.Sprintf(`{"name":%s}`, js(q+"-new")), nil}
	case 2:
		return badRequest{"create with an unknown type", "POST", base, fmt.Sprintf(`{"name":%s,"type":%s}`, js(q+"-new"), one(`"Delayed"`, `"FAIR"`, `"fifo"`, `""`, `"delayed "`, `"delayed,fair"`)), nil}
	case 3:
		return badRequest{"create with a mistyped type", "POST", base, fmt.Sprintf(`{"name":%s,"type":%s}`, js(q+"-new"), notString()), nil}
	case 4:
		return badRequest{"create with a mistyped name", "POST", base, fmt.Sprintf(`{"name":%s,"type":"fair"}`, notString()), nil}
	case 5:
		return badRequest{"create with an over-long name", "POST", base, fmt.Sprintf(`{"name":%s,"type":"fair"}`, js(long)), nil}
	case 6:
		return badRequest{"create with a malformed body", one("POST"), base, one(`{"name":"x-new","type":"fair"`, `{"name":"x-new" "type":"fair"}`, `[]`, `"x"`, `1`, `null`, `{name:"x-new",type:"fair"}`, `{"name":"x-new","type":"fair"}}`, " "), nil}
	case 7:
		return badRequest{"enqueue without a priority", "POST", msgs, `{"content":"x"}`, nil}
	case 8:
		return badRequest{"enqueue without content", "POST", msgs, `{"priority":1}`, nil}
	case 9:
		return badRequest{"enqueue with a bad priority", "POST", msgs, fmt.Sprintf(`{"priority":%s,"content":"x"}`, notInt()), nil}
	case 10:
		return badRequest{"enqueue with a negative priority", "POST", msgs, fmt.Sprintf(`{"priority":%d,"content":"x","group":"g"}`, -1-r.Int64N(math.MaxInt64)), nil}
	case 11:
		return badRequest{"enqueue with mistyped content", "POST", msgs, fmt.Sprintf(`{"priority":1,"content":%s}`, notString()), nil}
	case 12:
		return badRequest{"enqueue with a mistyped group", "POST", msgs, fmt.Sprintf(`{"priority":1,"content":"x","group":%s}`, one("1", "true", "[]", "{}", "1.5")), nil}
	case 13:
		return badRequest{"enqueue with a malformed body", "POST", msgs, one(`{"priority":1,"content":"x"`, `{"priority":1,,"content":"x"}`, `[]`, `"x"`, `null`, `{'priority':1,'content':'x'}`, " "), nil}
	case 14:
		return badRequest{"request for an over-long name", one("POST", "GET"), base + "/" + long + "/messages", `{"priority":1,"content":"x"}`, nil}
	case 15:
		return badRequest{"dequeue with a mistyped acknowledgement", "GET", msgs + "?ack=" + one("maybe", "2", "yes", "-1", "trueish", "%20true"), "", nil}
	case 16:
		return badRequest{"ack with a malformed id", "POST", msgs + "/" + badID() + "/" + one("ack", "nack"), "", nil}
	case 17:
		return badRequest{"priority change with a malformed id", "PUT", msgs + "/" + badID() + "/priority", `{"priority":1}`, nil}
	case 18:
		return badRequest{"priority change with a bad priority", "PUT", fmt.Sprintf("%s/%d/priority", msgs, id), fmt.Sprintf(`{"priority":%s}`, notInt()), nil}
	case 19:
		return badRequest{"priority change without a priority", "PUT", fmt.Sprintf("%s/%d/priority", msgs, id), one(`{}`, `{"Priorities":1}`, `[]`, `null`, " ", `{"priority":null}`, `{"priority":1`), nil}
	case 20:
		return badRequest{"method that is not served", one("PUT", "PATCH", "DELETE"), msgs, `{"priority":1,"content":"x"}`, nil}
	}
	return badRequest{"delete of an over-long name", "DELETE", base + "/" + long, "", nil}
}

func js(s string) string {
	b := &client{r: rand.New(rand.NewPCG(1, 1))}
	return strings.TrimSpace(string(b.encode(s)))
}

// bad sends an invalid request and sees that nothing happens
func bad(c *seq.Case, b *client) {
	r := c.R
	names := c.QueueNames()
	q := names[r.IntN(len(names))]
	id := uint64(r.IntN(1000))
	if ids := c.RecentIDs(); len(ids) > 0 {
		id = ids[r.IntN(len(ids))]
	}
	x := invalid(r, b, q, id)
	before, err1 := b.List()
	var body []byte
	if x.body != "" {
		body = []byte(strings.TrimSpace(x.body))
	}
	a, err := b.raw(x.method, x.path, body, x.header)
	if err != nil {
		c.Deviate(kAnswer, "%s: %s %.200s %.200s: %v", x.what, x.method, x.path, x.body, err)
		return
	}
	after, err2 := b.List()
	c.Note("%s: %s %.200s %.200s: %d", x.what, x.method, x.path, x.body, a.status)
	if a.status < 400 || a.status >= 500 {
		c.Deviate(kAnswer, "%s: %s %.200s %.200s has status %d", x.what, x.method, x.path, x.body, a.status)
	}
	if err1 != nil || err2 != nil {
		c.Deviate(kAnswer, "list failed: %v %v", err1, err2)
		return
	}
	for _, l := range [][]seq.Info{before, after} {
		for i := range l {
			l[i].RPS = [4]float64{}
		}
	}
	if !reflect.DeepEqual(before, after) {
		// an acknowledgement timeout may have passed just now
		changed := len(before) != len(after)
		for i := 0; !changed && i < len(before); i++ {
			changed = before[i].Name != after[i].Name || before[i].Type != after[i].Type || before[i].Total != after[i].Total
		}
		if changed {
			c.Deviate(kAnswer, "%s: %s %.200s %.200s had an effect: %+v became %+v", x.what, x.method, x.path, x.body, before, after)
		}
	}
	c.M.N["bad-requests"]++
	c.M.N[fmt.Sprintf("bad-status-%d", a.status)]++
}
