package main

import (
	"bytes"
	"context"
	"embed"
	"encoding/json"
	"errors"
	"fmt"
	"io"
	"math/rand/v2"
	"net"
	"net/http"
	"net/url"
	"regexp"
	"strconv"
	"strings"
	"sync"
	"testing/synctest"
	"time"

	"doqverif/core"
	"doqverif/seq"

	"github.com/kgantsov/doq/pkg/config"
	doqhttp "github.com/kgantsov/doq/pkg/http"
	"github.com/prometheus/common/expfmt"
)

// pipes is a listener of connections within the process
type pipes struct {
	ch   chan net.Conn
	done chan struct{}
	once sync.Once
}

func newPipes() *pipes { return &pipes{ch: make(chan net.Conn), done: make(chan struct{})} }

func (p *pipes) Accept() (net.Conn, error) {
	select {
	case c := <-p.ch:
		return c, nil
	case <-p.done:
		return nil, net.ErrClosed
	}
}

func (p *pipes) Close() error   { p.once.Do(func() { close(p.done) }); return nil }
func (p *pipes) Addr() net.Addr { return &net.TCPAddr{IP: net.IPv4(127, 0, 0, 1), Port: 8000} }

func (p *pipes) dial(ctx context.Context) (net.Conn, error) {
	a, b := net.Pipe()
	select {
	case p.ch <- b:
		return a, nil
	case <-p.done:
		return nil, errors.New("the server is closed")
	case <-ctx.Done():
		return nil, ctx.Err()
	}
}

// serve serves requests for the node that arrive at the listener
func serve(cfg *config.Config, node doqhttp.Node, l net.Listener) (stop func()) {
	s := doqhttp.NewHttpService(cfg, node, embed.FS{}, embed.FS{})
	app := s.RouterForVerification()
	app.Handler()
	go app.Server().Serve(l)
	return func() { l.Close(); core.Shutdown(app.Server()) }
}

// api is the HTTP API as a server for package seq
type client struct {
	base string
	hc   *http.Client
	r    *rand.Rand
	mu   sync.Mutex
	// odd is told of answers that make no sense
	odd func(format string, args ...any)
	rep *core.Report
	// calm makes the client wait until nothing else happens, in virtual time
	calm bool
}

type answer struct {
	status int
	header http.Header
	body   []byte
}

func (c *client) choose(n int) int {
	c.mu.Lock()
	defer c.mu.Unlock()
	return c.r.IntN(n)
}

// raw sends a request
func (c *client) raw(method, path string, body []byte, header map[string]string) (*answer, error) {
	core.Touch()
	if c.calm {
		// the service closes idle connections
		synctest.Wait()
	}
	var rd io.Reader
	if body != nil {
		rd = bytes.NewReader(body)
	}
	req, err := http.NewRequest(method, c.base+"/", rd)
	if err != nil {
		return nil, err
	}
	if rd == nil && method == "GET" {
		// never sent twice
		req.Body = io.NopCloser(strings.NewReader(""))
	}
	p, q, _ := strings.Cut(path, "?")
	req.URL.Opaque = "//" + req.URL.Host + p
	req.URL.RawQuery = q
	if body != nil {
		req.Header.Set("Content-Type", "application/json")
	}
	for k, v := range header {
		if v == "" {
			req.Header.Del(k)
		} else {
			req.Header.Set(k, v)
		}
	}
	res, err := c.hc.Do(req)
	if err != nil {
		return nil, err
	}
	defer res.Body.Close()
	data, err := io.ReadAll(res.Body)
	if err != nil {
		return nil, err
	}
	return &answer{res.StatusCode, res.Header, data}, nil
}

type refused struct {
	status int
	body   string
}

func (r *refused) Error() string { return fmt.Sprintf("status %d: %.200s", r.status, r.body) }

// do sends a request and returns the fields of the answer
func (c *client) do(method, path string, in any) (map[string]any, error) {
	var body []byte
	if in != nil {
		body = c.encode(in)
	}
	a, err := c.raw(method, path, body, nil)
	if err != nil {
		return nil, err
	}
	if a.status >= 300 || a.status < 200 {
		if a.status < 400 {
			c.odd("%s %s has status %d", method, path, a.status)
		}
		return nil, &refused{a.status, string(a.body)}
	}
	var out map[string]any
	d := json.NewDecoder(bytes.NewReader(a.body))
	d.UseNumber()
	if err := d.Decode(&out); err != nil {
		c.odd("%s %s succeeded with %.200q: %v", method, path, a.body, err)
		return map[string]any{}, nil
	}
	return out, nil
}

// encode encodes a body in one of the ways that mean the same
func (c *client) encode(in any) []byte {
	var b bytes.Buffer
	e := json.NewEncoder(&b)
	k := c.choose(4)
	e.SetEscapeHTML(k&1 == 1)
	if k&2 == 2 {
		e.SetIndent(" ", "\t")
	}
	if err := e.Encode(in); err != nil {
		panic(fmt.Sprintf("harness: %v", err))
	}
	return b.Bytes()
}

// name encodes the name of a queue for a path in one of the ways that mean the same
func (c *client) name(q string) string {
	switch c.choose(3) {
	case 0:
		var b strings.Builder
		f := []string{"%%%02x", "%%%02X"}[c.choose(2)]
		for i := 0; i < len(q); i++ {
			if ch := q[i]; ch >= 'a' && ch <= 'z' || ch >= '0' && ch <= '9' {
				b.WriteByte(ch)
			} else {
				fmt.Fprintf(&b, f, ch)
			}
		}
		return b.String()
	case 1:
		return strings.ReplaceAll(url.QueryEscape(q), "+", "%20")
	}
	return url.PathEscape(q)
}

var decimal = regexp.MustCompile(`^(0|[1-9][0-9]*)$`)

func (c *client) id(out map[string]any) uint64 {
	s, ok := out["id"].(string)
	if !ok || !decimal.MatchString(s) {
		c.odd("the id is %v (%T) instead of a decimal string", out["id"], out["id"])
	}
	id, err := strconv.ParseUint(s, 10, 64)
	if err != nil {
		c.odd("the id %q cannot be read: %v", s, err)
	}
	return id
}

func (c *client) str(out map[string]any, key string) string {
	s, ok := out[key].(string)
	if !ok {
		c.odd("%s is %v (%T) instead of a string", key, out[key], out[key])
	}
	return s
}

func (c *client) num(out map[string]any, key string) int64 {
	n, ok := out[key].(json.Number)
	if ok {
		if i, err := strconv.ParseInt(n.String(), 10, 64); err == nil {
			return i
		}
	}
	c.odd("%s is %v (%T) instead of a whole number", key, out[key], out[key])
	return -1
}

func (c *client) float(out map[string]any, key string) float64 {
	n, ok := out[key].(json.Number)
	if ok {
		if f, err := n.Float64(); err == nil {
			return f
		}
	}
	c.odd("%s is %v (%T) instead of a number", key, out[key], out[key])
	return -1
}

func (c *client) expect(out map[string]any, key string, want any) {
	if fmt.Sprint(out[key]) != fmt.Sprint(want) {
		c.odd("%s is %v instead of %v", key, out[key], want)
	}
}

func (c *client) Create(typ, name string) error {
	out, err := c.do("POST", "/API/v1/queues", map[string]any{"name": name, "type": typ})
	if err == nil {
		c.expect(out, "status", "CREATED")
		if c.str(out, "name") != name {
			c.odd("create of queue %q answers with name %q", name, out["name"])
		}
		// the type of a queue that existed before may be answered
		if t := c.str(out, "type"); t != "delayed" && t != "fair" {
			c.odd("create of a %s queue answers with type %q", typ, t)
		}
	}
	return err
}

func (c *client) Delete(name string) error {
	out, err := c.do("DELETE", "/API/v1/queues/"+c.name(name), nil)
	if err == nil {
		c.expect(out, "status", "DELETED")
	}
	return err
}

func (c *client) msg(out map[string]any) seq.Msg {
	return seq.Msg{ID: c.id(out), Group: c.str(out, "group"), Priority: c.num(out, "priority"), Content: c.str(out, "content")}
}

func (c *client) Enqueue(q, group string, prio int64, content string, id uint64) (seq.Msg, error) {
	time.Sleep(time.Millisecond)
	in := map[string]any{"priority": prio, "content": content}
	if group != "default" || c.choose(2) == 0 {
		in["group"] = group
	} else {
		c.rep.Count("group-omitted", 1)
	}
	out, err := c.do("POST", "/API/v1/queues/"+c.name(q)+"/messages", in)
	if err != nil {
		return seq.Msg{}, err
	}
	c.expect(out, "status", "ENQUEUED")
	return c.msg(out), nil
}

func (c *client) Dequeue(q string, ack bool) (seq.Msg, error) {
	path := "/API/v1/queues/" + c.name(q) + "/messages"
	if ack || c.choose(2) == 0 {
		path += "?ack=" + strconv.FormatBool(ack)
	}
	out, err := c.do("GET", path, nil)
	if err != nil {
		return seq.Msg{}, err
	}
	c.expect(out, "status", "DEQUEUED")
	return c.msg(out), nil
}

func (c *client) ackNack(op, q string, id uint64, status string) error {
	out, err := c.do("POST", fmt.Sprintf("/API/v1/queues/%s/messages/%d/%s", c.name(q), id, op), nil)
	if err == nil {
		c.expect(out, "status", status)
		if c.id(out) != id {
			c.odd("%s of %d answers with id %v", op, id, out["id"])
		}
	}
	return err
}

func (c *client) Ack(q string, id uint64) error  { return c.ackNack("ack", q, id, "ACKNOWLEDGED") }
func (c *client) Nack(q string, id uint64) error { return c.ackNack("nack", q, id, "UNACKNOWLEDGED") }

func (c *client) UpdatePriority(q string, id uint64, prio int64) error {
	out, err := c.do("PUT", fmt.Sprintf("/API/v1/queues/%s/messages/%d/priority", c.name(q), id), map[string]any{"priority": prio})
	if err == nil {
		c.expect(out, "status", "UPDATED")
		if c.id(out) != id || c.num(out, "priority") != prio {
			c.odd("priority change of %d to %d answers %v", id, prio, out)
		}
	}
	return err
}

func (c *client) info(out map[string]any) seq.Info {
	i := seq.Info{Name: c.str(out, "name"), Type: c.str(out, "type"), Ready: c.num(out, "ready"), Unacked: c.num(out, "unacked"), Total: c.num(out, "total")}
	for k, key := range []string{"enqueue_rps", "dequeue_rps", "ack_rps", "nack_rps"} {
		i.RPS[k] = c.float(out, key)
	}
	return i
}

func (c *client) Info(q string) (seq.Info, error) {
	out, err := c.do("GET", "/API/v1/queues/"+c.name(q), nil)
	if err != nil {
		return seq.Info{}, err
	}
	return c.info(out), nil
}

func (c *client) List() ([]seq.Info, error) {
	out, err := c.do("GET", "/API/v1/queues", nil)
	if err != nil {
		return nil, err
	}
	list, ok := out["queues"].([]any)
	if !ok {
		c.odd("the list of queues is %v", out["queues"])
	}
	infos := []seq.Info{}
	for _, x := range list {
		m, ok := x.(map[string]any)
		if !ok {
			c.odd("the list of queues has %v", x)
			continue
		}
		infos = append(infos, c.info(m))
	}
	return infos, nil
}

func (c *client) Metrics() (map[string]map[string]float64, error) {
	a, err := c.raw("GET", "/metrics", nil, nil)
	if err != nil {
		return nil, err
	}
	if a.status != 200 {
		return nil, fmt.Errorf("status %d", a.status)
	}
	var p expfmt.TextParser
	fams, err := p.TextToMetricFamilies(bytes.NewReader(a.body))
	if err != nil {
		return nil, err
	}
	out := map[string]map[string]float64{}
	for name, f := range fams {
		by := map[string]float64{}
		for _, m := range f.GetMetric() {
			for _, l := range m.GetLabel() {
				if l.GetName() == "queue_name" {
					by[l.GetValue()] += m.GetCounter().GetValue() + m.GetGauge().GetValue()
				}
			}
		}
		out[name] = by
	}
	return out, nil
}

func (c *client) Restart(kind int) (string, bool) { return "none", true }
func (c *client) ReturnsGroup() bool              { return false }
func (c *client) Slack() time.Duration            { return 0 }
func (c *client) NewIDs() bool                    { return true }
