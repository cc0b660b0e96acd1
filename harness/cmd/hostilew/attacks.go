package main

import (
	"bytes"
	"context"
	"encoding/json"
	"errors"
	"fmt"
	"io"
	"math"
	"math/rand/v2"
	"net"
	"net/http"
	"strings"
	"sync"
	"time"

	"doqverif/core"

	pb "github.com/kgantsov/doq/pkg/proto"
	"google.golang.org/grpc"
	"google.golang.org/grpc/codes"
	"google.golang.org/grpc/status"
)

func (x *attack) node() int { return x.r.IntN(len(x.t.http)) }

// text returns a hostile string
func text(r *rand.Rand, long int) string {
	switch r.IntN(14) {
	case 0:
		return ""
	case 1:
		return "\x00"
	case 2:
		return strings.Repeat("\x01", r.IntN(long))
	case 3:
		return strings.Repeat("<&>", r.IntN(long/3+1))
	case 4:
		return strings.Repeat("ü", r.IntN(600))
	case 5:
		return "probe:" + fmt.Sprint(r.IntN(3))
	case 6:
		return []string{"messages:", "queues:", "logs", "stable", "control:", ":", "::", "control:fair:", "messages:control:"}[r.IntN(9)]
	case 7:
		return strings.Repeat("%", r.IntN(200))
	case 8:
		return "../../" + strings.Repeat("a/", r.IntN(100))
	case 9:
		return "\u2028\U0001F600\ufffd\ufeff"
	case 10:
		b := make([]rune, r.IntN(60))
		for i := range b {
			b[i] = rune(r.IntN(0x3000))
		}
		return string(b)
	case 11:
		return strings.Repeat("x", r.IntN(long))
	case 12:
		return `"}],"op":"deleteQueue","payload":{"queue_name":"control"}}`
	}
	return fmt.Sprint("hostile-", r.IntN(5))
}

// name returns the name of a queue, often of one that exists
func name(r *rand.Rand, long int) string {
	if r.IntN(2) == 0 {
		return fmt.Sprint("hostile-", r.IntN(4))
	}
	for {
		if q := text(r, long); !protected(q) {
			return q
		}
	}
}

func number(r *rand.Rand) int64 {
	return []int64{0, 1, -1, math.MaxInt64, math.MinInt64, math.MaxInt64 - 1, time.Now().Unix(), time.Now().Unix() + 1, int64(r.Uint64()), 1 << 53}[r.IntN(10)]
}

func (x *attack) id(r *rand.Rand) uint64 {
	x.mu.Lock()
	defer x.mu.Unlock()
	if len(x.ids) > 0 && r.IntN(2) == 0 {
		return x.ids[r.IntN(len(x.ids))]
	}
	return []uint64{0, 1, math.MaxUint64, 1 << 63, r.Uint64(), 1<<63 - 1}[r.IntN(6)]
}

func garbage(r *rand.Rand, n int) []byte {
	b := make([]byte, r.IntN(n))
	for i := range b {
		b[i] = byte(r.Uint32())
	}
	return b
}

func mutate(r *rand.Rand, b []byte) []byte {
	b = append([]byte{}, b...)
	for k := 1 + r.IntN(6); k > 0 && len(b) > 0; k-- {
		i := r.IntN(len(b))
		switch r.IntN(4) {
		case 0:
			b[i] = byte(r.Uint32())
		case 1:
			b = append(b[:i], b[i+1:]...)
		case 2:
			b = append(b[:i:i], append(garbage(r, 8), b[i:]...)...)
		default:
			b = b[:i]
		}
	}
	return b
}

// httpRaw sends bytes that are no requests, or strange ones
func (x *attack) httpRaw() {
	r := x.r
	for k := 0; k < 24; k++ {
		x.rep.Count("http-raw", 1)
		addr := x.t.http[x.node()]
		var b []byte
		paths := []string{
			"/API/v1/queues/%ff", "/API/v1/queues/\xff\xfe/messages", "/%", "/%zz", "//", "/API/v1/queues//messages", "/metrics%00", "/\xc3(",
			"/API/v1/queues/" + strings.Repeat("%2F", 300), "*", "/API/v1/queues/a?ack=%ff", "/API/v1/queues/a/messages?ack=maybe&ack=true", "/assets/../../etc/passwd", "/assets/%2e%2e/%2e%2e/x", "/openapi.json", "/docs", "/schemas/x", "/service/metrics", "/livez", "/readyz", "/" + strings.Repeat("a", r.IntN(3000)),
		}
		methods := []string{"GET", "POST", "PUT", "DELETE", "HEAD", "OPTIONS", "TRACE", "CONNECT", "PATCH", "\xff", "get", "POSTPOST"}
		what := ""
		switch r.IntN(8) {
		case 0:
			b = garbage(r, 4000)
			what = "garbage"
		case 1, 2, 3:
			p := paths[r.IntN(len(paths))]
			b = []byte(fmt.Sprintf("%s %s HTTP/1.1\r\nHost: x\r\nConnection: close\r\n\r\n", methods[r.IntN(len(methods))], p))
			what = fmt.Sprintf("%.60q", b)
		case 4:
			b = []byte("POST /API/v1/queues HTTP/1.1\r\nHost: x\r\nContent-Type: application/json\r\nTransfer-Encoding: chunked\r\nConnection: close\r\n\r\n" + []string{"zz\r\n{}\r\n", "ffffffffffffffff\r\n", "5\r\n{\"a\"\r\n0\r\n\r\n", "-1\r\n\r\n"}[r.IntN(4)])
			what = "chunks"
		case 5:
			b = []byte(fmt.Sprintf("POST /API/v1/queues HTTP/1.1\r\nHost: x\r\nContent-Length: %s\r\nConnection: close\r\n\r\n{}", []string{"-1", "99999999999999999999", "2, 2", "x", "3"}[r.IntN(5)]))
			what = "length"
		case 6:
			b = []byte("GET /API/v1/queues HTTP/1.1\r\n" + strings.Repeat("X-A: "+strings.Repeat("b", 100)+"\r\n", r.IntN(300)) + "\r\n")
			what = "headers"
		default:
			b = mutate(r, []byte("POST /API/v1/queues/hostile-1/messages HTTP/1.1\r\nHost: x\r\nContent-Type: application/json\r\nContent-Length: 42\r\nConnection: close\r\n\r\n{\"content\":\"x\",\"group\":\"g\",\"priority\":1}  "))
			what = "mutated"
		}
		c, err := net.DialTimeout("tcp", addr, 20*time.Second)
		if err != nil {
			x.note("cannot connect to %s: %v", addr, err)
			return
		}
		c.SetDeadline(time.Now().Add(3 * time.Second))
		c.Write(b)
		c.(*net.TCPConn).CloseWrite()
		ans, _ := io.ReadAll(io.LimitReader(c, 1<<20))
		c.Close()
		line, _, _ := strings.Cut(string(ans), "\r\n")
		x.note("raw %s: %.60q", what, line)
		if len(ans) > 0 {
			x.rep.Count("answered", 1)
		}
	}
}

func (x *attack) request(method, addr, path string, body []byte, header map[string]string) (int, []byte, error) {
	req, err := http.NewRequest(method, "http://"+addr+"/", bytes.NewReader(body))
	if err != nil {
		return 0, nil, err
	}
	req.URL.Opaque = "//" + addr + path
	req.Header.Set("Content-Type", "application/json")
	for k, v := range header {
		req.Header.Set(k, v)
	}
	res, err := x.t.hc.Do(req)
	if err != nil {
		return 0, nil, err
	}
	defer res.Body.Close()
	data, err := io.ReadAll(res.Body)
	return res.StatusCode, data, err
}

func escape(s string) string {
	var b strings.Builder
	for i := 0; i < len(s); i++ {
		if ch := s[i]; ch >= 'a' && ch <= 'z' || ch == '-' || ch >= '0' && ch <= '9' {
			b.WriteByte(ch)
		} else {
			fmt.Fprintf(&b, "%%%02X", ch)
		}
	}
	return b.String()
}

func protected(q string) bool { return q == "control" || q == "control:fair" || q == "probe" }

// httpJSON sends requests with strange bodies and fields
func (x *attack) httpJSON() {
	r := x.r
	value := func() string {
		switch r.IntN(12) {
		case 0:
			return "null"
		case 1:
			return "1e999"
		case 2:
			return "-0.5"
		case 3:
			return "123456789012345678901234567890"
		case 4:
			return strings.Repeat("[", 100000)
		case 5:
			return `{"a":` + strings.Repeat(`{"a":`, 2000) + "1" + strings.Repeat("}", 2001)
		case 6:
			return "\"\xff\xfe\""
		case 7:
			return `"\ud800"`
		case 8:
			return "true"
		case 9:
			return fmt.Sprint(number(r))
		default:
			d, _ := json.Marshal(text(r, 300000))
			return string(d)
		}
	}
	for k := 0; k < 24; k++ {
		x.rep.Count("http-json", 1)
		q := name(r, 900)
		var body string
		method, path := "POST", "/API/v1/queues"
		switch r.IntN(8) {
		case 0, 1:
			body = fmt.Sprintf(`{"name":%s,"type":%s}`, value(), []string{`"delayed"`, `"fair"`, `"x"`, value()}[r.IntN(4)])
			if strings.Contains(body, `"control`) || strings.Contains(body, `"probe"`) {
				continue
			}
		case 2, 3:
			path += "/" + escape(q) + "/messages"
			body = fmt.Sprintf(`{"content":%s,"group":%s,"priority":%s}`, value(), value(), value())
		case 4:
			method = "GET"
			path += "/" + escape(q) + "/messages?ack=" + []string{"true", "false", "x", "", "%00"}[r.IntN(5)]
		case 5:
			path += fmt.Sprintf("/%s/messages/%s/%s", escape(q), []string{fmt.Sprint(x.id(r)), "-1", "x", "1e3", "99999999999999999999", "%00"}[r.IntN(6)], []string{"ack", "nack", "x"}[r.IntN(3)])
		case 6:
			method = "PUT"
			path += fmt.Sprintf("/%s/messages/%d/priority", escape(q), x.id(r))
			body = fmt.Sprintf(`{"priority":%s}`, value())
		default:
			// incomplete bodies only, a complete one makes a node join
			method, path = "POST", "/join"
			body = []string{"", "{}", `{"id":1}`, `{"id":"a"`, `[]`, "null", `{"addr":"x"}`, value()}[r.IntN(8)]
		}
		i := x.node()
		code, ans, err := x.request(method, x.t.http[i], path, []byte(body), nil)
		x.note("%s %.60q %.80q at node %d: %d %.60q %v", method, path, body, i, code, ans, err)
		if err != nil {
			x.unanswered(err, fmt.Sprintf("the request %s %.100q with body %.100q", method, path, body))
			return
		}
		x.rep.Count("answered", 1)
	}
}

func (x *attack) unanswered(err error, what string) {
	if d, why := x.t.dead(); d {
		x.wrong("%s: %s", what, why)
		return
	}
	time.Sleep(300 * time.Millisecond)
	if d, why := x.t.dead(); d {
		x.wrong("%s: %s", what, why)
		return
	}
	var ne net.Error
	if errors.As(err, &ne) && ne.Timeout() || errors.Is(err, context.DeadlineExceeded) || status.Code(err) == codes.DeadlineExceeded {
		x.wrong("%s was not answered within a minute: %v", what, err)
		return
	}
	x.note("%s: %v", what, err)
}

// raw is a codec that sends bytes as they are
type raw struct{}

func (raw) Marshal(v any) ([]byte, error)      { return *v.(*[]byte), nil }
func (raw) Unmarshal(data []byte, v any) error { *v.(*[]byte) = append([]byte{}, data...); return nil }
func (raw) Name() string                       { return "proto" }

// grpcRaw sends bytes that are no messages
func (x *attack) grpcRaw() {
	r := x.r
	methods := []string{"CreateQueue", "DeleteQueue", "Enqueue", "EnqueueStream", "Dequeue", "DequeueStream", "Ack", "Nack", "UpdatePriority", "Unknown"}
	samples := [][]byte{
		{0x0a, 9, 'h', 'o', 's', 't', 'i', 'l', 'e', '-', '1', 0x12, 1, 'g', 0x18, 5, 0x22, 1, 'x'},
		{0x0a, 9, 'h', 'o', 's', 't', 'i', 'l', 'e', '-', '1', 0x10, 1},
		{0x0a, 9, 'h', 'o', 's', 't', 'i', 'l', 'e', '-', '1', 0x10, 0xff, 0xff, 0xff, 0xff, 0xff, 0xff, 0xff, 0xff, 0xff, 1, 0x18, 1},
		{0x0a, 2, 0xff, 0xfe}, {0x0a, 0xff, 0xff, 0xff, 0xff, 0x0f}, {0xff}, {},
	}
	for k := 0; k < 24; k++ {
		x.rep.Count("grpc-raw", 1)
		m := methods[r.IntN(len(methods))]
		in := samples[r.IntN(len(samples))]
		switch r.IntN(4) {
		case 0:
			in = garbage(r, 200)
		case 1, 2:
			in = mutate(r, in)
		}
		if bytes.Contains(in, []byte("control")) || bytes.Contains(in, []byte("probe")) {
			continue
		}
		i := x.node()
		limit := 60 * time.Second
		if strings.HasSuffix(m, "Stream") {
			limit = 300 * time.Millisecond
		}
		ctx, cancel := context.WithTimeout(context.Background(), limit)
		var out []byte
		err := x.t.conns[i].Invoke(ctx, x.method()+m, &in, &out, grpc.ForceCodec(raw{}))
		cancel()
		x.note("gRPC %s %.40x at node %d: %.80v", m, in, i, err)
		if err != nil && !strings.HasSuffix(m, "Stream") && status.Code(err) == codes.DeadlineExceeded || status.Code(err) == codes.Unavailable {
			x.unanswered(err, fmt.Sprintf("gRPC %s with %.200x", m, in))
			continue
		}
		x.rep.Count("answered", 1)
	}
}

func (x *attack) method() string { return "/" + pb.DOQ_ServiceDesc.ServiceName + "/" }

// grpcFields sends messages with strange fields
func (x *attack) grpcFields() {
	r := x.r
	for k := 0; k < 24; k++ {
		x.rep.Count("grpc-fields", 1)
		q := name(r, 100000)
		i := x.node()
		c := x.t.client(i)
		ctx, cancel := context.WithTimeout(context.Background(), 60*time.Second)
		var err error
		what := ""
		switch r.IntN(8) {
		case 0, 1:
			what = "create"
			_, err = c.CreateQueue(ctx, &pb.CreateQueueRequest{Name: q, Type: []string{"delayed", "fair", "", "x\x00"}[r.IntN(4)]})
		case 2, 3:
			what = "enqueue"
			var m *pb.EnqueueResponse
			if m, err = c.Enqueue(ctx, &pb.EnqueueRequest{QueueName: q, Group: text(r, 1000000), Priority: number(r), Content: text(r, 1000000)}); err == nil {
				x.rep.Count("accepted", 1)
				x.mu.Lock()
				x.ids = append(x.ids, m.Id)
				x.mu.Unlock()
			}
		case 4:
			what = "dequeue"
			if _, err = c.Dequeue(ctx, &pb.DequeueRequest{QueueName: q, Ack: r.IntN(2) == 0}); err == nil {
				x.rep.Count("accepted", 1)
			}
		case 5:
			what = "ack"
			_, err = c.Ack(ctx, &pb.AckRequest{QueueName: q, Id: x.id(r)})
		case 6:
			what = "priority"
			_, err = c.UpdatePriority(ctx, &pb.UpdatePriorityRequest{QueueName: q, Id: x.id(r), Priority: number(r)})
		default:
			what = "delete"
			_, err = c.DeleteQueue(ctx, &pb.DeleteQueueRequest{Name: q})
		}
		cancel()
		x.note("gRPC %s %.40q at node %d: %.80v", what, q, i, err)
		if c := status.Code(err); c == codes.DeadlineExceeded || c == codes.Unavailable {
			x.unanswered(err, fmt.Sprintf("gRPC %s of queue %.100q", what, q))
			continue
		}
		x.rep.Count("answered", 1)
	}
}

// halfOpen opens connections and does nothing with them for a while
func (x *attack) halfOpen() {
	for k := 0; k < 12; k++ {
		addr := x.t.http[x.node()]
		if x.r.IntN(3) == 0 {
			addr = x.t.grpc[x.node()]
		}
		c, err := net.DialTimeout("tcp", addr, 20*time.Second)
		if err != nil {
			return
		}
		x.rep.Count("halfopen", 1)
		c.Write([]byte([]string{"", "POST /API/v1/queues HTTP/1.1\r\nHost: x\r\nContent-Length: 1000\r\n\r\n{", "GET /", "PRI * HTTP/2.0\r\n\r\nSM\r\n\r\n"}[x.r.IntN(4)]))
		go func() {
			time.Sleep(20 * time.Second)
			c.Close()
		}()
	}
	x.note("half open connections")
}

// streams are opened and left alone
func (x *attack) streams() {
	r := x.r
	for k := 0; k < 10; k++ {
		x.rep.Count("streams", 1)
		ctx, cancel := context.WithCancel(context.Background())
		c := x.t.client(x.node())
		q := name(r, 200)
		if r.IntN(2) == 0 {
			if s, err := c.DequeueStream(ctx, &pb.DequeueRequest{QueueName: q, Ack: true}); err == nil && r.IntN(2) == 0 {
				s.CloseSend()
			}
		} else if s, err := c.EnqueueStream(ctx); err == nil {
			for i := r.IntN(4); i > 0; i-- {
				s.Send(&pb.EnqueueRequest{QueueName: q, Group: text(r, 1000), Priority: number(r), Content: text(r, 1000)})
			}
		}
		d := time.Duration(r.IntN(1500)) * time.Millisecond
		go func() { time.Sleep(d); cancel() }()
	}
	x.note("streams")
}

// large sends large payloads at the same time
func (x *attack) large() {
	x.rep.Count("large-batches", 1)
	x.t.client(0).CreateQueue(context.Background(), &pb.CreateQueueRequest{Name: "large", Type: "fair"})
	var wg sync.WaitGroup
	for k := 0; k < 10; k++ {
		seed := x.r.Uint64()
		wg.Add(1)
		go func() {
			defer wg.Done()
			r := rand.New(rand.NewPCG(seed, 5))
			for n := 0; n < 2; n++ {
				x.rep.Count("large", 1)
				core.Touch()
				i := r.IntN(len(x.t.http))
				content := strings.Repeat(string(rune('a'+k)), 100000+r.IntN(800000))
				if k%2 == 0 {
					body, _ := json.Marshal(map[string]any{"content": content, "group": "g", "priority": 1})
					code, _, err := x.request("POST", x.t.http[i], "/API/v1/queues/large/messages", body, nil)
					x.note("large HTTP body of %d bytes at node %d: %d %v", len(body), i, code, err)
					if err != nil {
						x.unanswered(err, "a large HTTP request")
					} else {
						x.rep.Count("answered", 1)
					}
					continue
				}
				if r.IntN(3) == 0 {
					// what is more than the limit, or grows in other encodings
					content = strings.Repeat("\x01", 1000000+r.IntN(4<<20))
				}
				ctx, cancel := context.WithTimeout(context.Background(), 60*time.Second)
				_, err := x.t.client(i).Enqueue(ctx, &pb.EnqueueRequest{QueueName: "large", Group: "g", Content: content})
				cancel()
				x.note("large gRPC content of %d bytes at node %d: %.100v", len(content), i, err)
				if c := status.Code(err); c == codes.DeadlineExceeded || c == codes.Unavailable {
					x.unanswered(err, "a large gRPC request")
				} else {
					x.rep.Count("answered", 1)
				}
			}
		}()
	}
	wg.Wait()
	x.t.client(0).DeleteQueue(context.Background(), &pb.DeleteQueueRequest{Name: "large"})
}

// commands are put into the replicated log
func (x *attack) commands() {
	r := x.r
	ops := []string{"enqueue", "dequeue", "requeueExpired", "ack", "nack", "updatePriority", "createQueue", "deleteQueue", "unknown", ""}
	for k := 0; k < 30; k++ {
		var cmd []byte
		q := name(r, 5000)
		switch r.IntN(6) {
		case 0:
			x.rep.Count("command", 1)
			cmd = garbage(r, 300)
		case 1:
			x.rep.Count("command", 1)
			cmd = []byte([]string{"", "null", "{}", "[]", "1", `""`, `{"op":null}`, `{"op":"enqueue"}`, `{"op":"enqueue","payload":null}`, `{"op":"enqueue","payload":[]}`, `{"op":"ack","payload":{}}`, `{"op":"deleteQueue","payload":{}}`, `{"op":"createQueue","payload":{}}`, `{"op":"dequeue","payload":"x"}`, `{"op":"enqueue","payload":{"id":-1}}`, `{"op":"enqueue","payload":{"priority":1e99}}`, strings.Repeat("[", 20000), `{"op":"requeueExpired","payload":{}}`}[r.IntN(18)])
		default:
			p := map[string]any{"queue_name": q, "id": x.id(r), "priority": number(r), "group": text(r, 1000), "content": text(r, 3000), "ack": r.IntN(2) == 0, "queue_type": []string{"delayed", "fair", "", "x"}[r.IntN(4)]}
			cmd, _ = json.Marshal(map[string]any{"op": ops[r.IntN(len(ops))], "payload": p})
			if r.IntN(2) == 0 {
				x.rep.Count("command-mutated", 1)
				cmd = mutate(r, cmd)
				if bytes.Contains(cmd, []byte(`"control"`)) || bytes.Contains(cmd, []byte(`"control:fair"`)) || bytes.Contains(cmd, []byte(`"probe"`)) {
					continue
				}
			} else {
				x.rep.Count("command", 1)
			}
		}
		req, _ := http.NewRequest("POST", x.t.apply, bytes.NewReader(cmd))
		res, err := x.t.hc.Do(req)
		if err != nil {
			x.note("command %.80q: %v", cmd, err)
			x.unanswered(err, fmt.Sprintf("the command %.300q", cmd))
			return
		}
		ans, _ := io.ReadAll(res.Body)
		res.Body.Close()
		x.note("command %.80q: %d %s", cmd, res.StatusCode, ans)
		if res.StatusCode != 200 {
			x.wrong("the command %.300q is not applied: %s", cmd, ans)
			return
		}
		x.rep.Count("answered", 1)
	}
}

// probeHTTP uses the HTTP service of a node
func (x *attack) probeHTTP(i int) error {
	code, ans, err := x.request("POST", x.t.http[i], "/API/v1/queues/probe/messages", []byte(`{"content":"probe","priority":0}`), nil)
	if err != nil || code != 200 {
		return fmt.Errorf("enqueue: %d %.100s %v", code, ans, err)
	}
	code, ans, err = x.request("GET", x.t.http[i], "/API/v1/queues/probe/messages?ack=true", nil, nil)
	if err != nil || code != 200 || !strings.Contains(string(ans), `"content":"probe"`) {
		return fmt.Errorf("dequeue: %d %.100s %v", code, ans, err)
	}
	code, ans, err = x.request("GET", x.t.http[i], "/API/v1/queues/probe", nil, nil)
	if err != nil || code != 200 {
		return fmt.Errorf("info: %d %.100s %v", code, ans, err)
	}
	code, ans, err = x.request("GET", x.t.http[i], "/metrics", nil, nil)
	if err != nil || code != 200 {
		return fmt.Errorf("metrics: %d %.100s %v", code, ans, err)
	}
	return nil
}
