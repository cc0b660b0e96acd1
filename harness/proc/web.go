package proc

import (
	"bytes"
	"encoding/json"
	"fmt"
	"io"
	"net/http"
	"net/url"
	"strconv"
	"strings"
	"time"

	"doqverif/seq"
)

// Web uses the HTTP service of a server.
type Web struct {
	URL func() string // without a path
	C   *http.Client
}

// NewWeb returns one with a client of its own.
func NewWeb(url func() string, limit time.Duration) *Web {
	return &Web{URL: url, C: &http.Client{Timeout: limit, Transport: &http.Transport{DisableKeepAlives: true}}}
}

// Refusal is an answer with an error.
type Refusal struct {
	Status int
	Body   string
}

func (r *Refusal) Error() string { return fmt.Sprintf("status %d: %.300s", r.Status, r.Body) }

// Do sends a request.
func (w *Web) Do(method, path string, in any) (map[string]any, error) {
	var body io.Reader
	if in != nil {
		d, err := json.Marshal(in)
		if err != nil {
			panic(fmt.Sprintf("harness: %v", err))
		}
		body = bytes.NewReader(d)
	}
	req, err := http.NewRequest(method, w.URL()+path, body)
	if err != nil {
		panic(fmt.Sprintf("harness: %v", err))
	}
	if in != nil {
		req.Header.Set("Content-Type", "application/json")
	}
	res, err := w.C.Do(req)
	if err != nil {
		return nil, err
	}
	defer res.Body.Close()
	data, err := io.ReadAll(res.Body)
	if err != nil {
		return nil, err
	}
	if res.StatusCode != 200 {
		return nil, &Refusal{res.StatusCode, string(data)}
	}
	out := map[string]any{}
	d := json.NewDecoder(bytes.NewReader(data))
	d.UseNumber()
	if err := d.Decode(&out); err != nil {
		return nil, fmt.Errorf("the answer is no object: %.200q", data)
	}
	return out, nil
}

func num(x any) int64 {
	n, _ := strconv.ParseInt(fmt.Sprint(x), 10, 64)
	return n
}

func message(out map[string]any) seq.Msg {
	id, _ := strconv.ParseUint(fmt.Sprint(out["id"]), 10, 64)
	group, _ := out["group"].(string)
	content, _ := out["content"].(string)
	return seq.Msg{ID: id, Group: group, Priority: num(out["priority"]), Content: content}
}

func (w *Web) queue(q string) string { return "/API/v1/queues/" + url.PathEscape(q) }

func (w *Web) Create(typ, name string) error {
	_, err := w.Do("POST", "/API/v1/queues", map[string]any{"name": name, "type": typ})
	return err
}

func (w *Web) Delete(name string) error {
	_, err := w.Do("DELETE", w.queue(name), nil)
	return err
}

func (w *Web) Enqueue(q, group string, prio int64, content string, id uint64) (seq.Msg, error) {
	out, err := w.Do("POST", w.queue(q)+"/messages", map[string]any{"priority": prio, "content": content, "group": group})
	if err != nil {
		return seq.Msg{}, err
	}
	return message(out), nil
}

func (w *Web) Dequeue(q string, ack bool) (seq.Msg, error) {
	out, err := w.Do("GET", w.queue(q)+"/messages?ack="+strconv.FormatBool(ack), nil)
	if err != nil {
		return seq.Msg{}, err
	}
	return message(out), nil
}

func (w *Web) Ack(q string, id uint64) error {
	_, err := w.Do("POST", fmt.Sprintf("%s/messages/%d/ack", w.queue(q), id), nil)
	return err
}

func (w *Web) Nack(q string, id uint64) error {
	_, err := w.Do("POST", fmt.Sprintf("%s/messages/%d/nack", w.queue(q), id), nil)
	return err
}

func (w *Web) UpdatePriority(q string, id uint64, prio int64) error {
	_, err := w.Do("PUT", fmt.Sprintf("%s/messages/%d/priority", w.queue(q), id), map[string]any{"priority": prio})
	return err
}

func (w *Web) Info(q string) (seq.Info, error) {
	out, err := w.Do("GET", w.queue(q), nil)
	if err != nil {
		return seq.Info{}, err
	}
	i := seq.Info{Ready: num(out["ready"]), Unacked: num(out["unacked"]), Total: num(out["total"])}
	i.Name, _ = out["name"].(string)
	i.Type, _ = out["type"].(string)
	for k, key := range []string{"enqueue_rps", "dequeue_rps", "ack_rps", "nack_rps"} {
		i.RPS[k], _ = strconv.ParseFloat(fmt.Sprint(out[key]), 64)
	}
	return i, nil
}

func (w *Web) List() ([]seq.Info, error)       { return nil, fmt.Errorf("not here") }
func (w *Web) Restart(kind int) (string, bool) { return "", false }
func (w *Web) ReturnsGroup() bool              { return false }
func (w *Web) Slack() time.Duration            { return 0 }
func (w *Web) NewIDs() bool                    { return true }

// Empty tells from an answer that a queue has nothing to deliver.
func Empty(err error) bool {
	r, ok := err.(*Refusal)
	return ok && strings.Contains(r.Body, "empty")
}
