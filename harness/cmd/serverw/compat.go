package main

import (
	"bytes"
	"compress/gzip"
	"embed"
	"encoding/json"
	"fmt"
	"math/rand/v2"
	"os"
	"os/exec"
	"path/filepath"
	"sort"
	"strings"
	"time"

	"doqverif/core"
	"doqverif/proc"
	"doqverif/seq"
)

// fixtures are data directories that servers left behind, with what is in them. They were
// written by tools/make_fixtures.sh.
//
//go:embed fixtures
var fixtures embed.FS

// old is what a data directory of an earlier server has
type old struct {
	Version string
	NodeID  string
	Flags   []string
	Killed  bool
	Queues  []oldQueue
	LastID  uint64
	Written int64
}

type oldQueue struct {
	Name, Type string
	Messages   []oldMessage
	// Gone are the ids that must not be there
	Gone []uint64
}

type oldMessage struct {
	ID       uint64
	Group    string
	Priority int64
	Content  string
	Unacked  bool
}

// makeFixture fills a server, the binary of which may be of another version, and keeps its data
func makeFixture(a *core.Args) {
	name, seed := os.Getenv("FIXTURE"), a.Seed
	snapshots, kill := strings.Contains(name, "snapshot"), strings.Contains(name, "kill")
	// earlier versions rotated the groups of fair queues otherwise, and so a log of theirs with
	// messages that were acknowledged as they were received does not lead to the same now
	base := strings.HasPrefix(name, "base")
	dir := filepath.Join(core.ScratchDir(), "fixture")
	os.RemoveAll(dir)
	r := rand.New(rand.NewPCG(uint64(seed), 5))
	o := old{Version: name, NodeID: "node-1", Killed: kill, Flags: []string{"--storage.value_log_file_size", "2097152", "--storage.base_table_size", "1048576", "--storage.block_cache_size", "33554432"}}
	if strings.Contains(name, "zstd") {
		o.Flags = append(o.Flags, "--storage.compression", "zstd")
	}
	s := &proc.Server{ID: o.NodeID, Host: "127.0.0.1", HTTP: 25991, GRPC: 25992, Raft: 25993, Dir: dir, Flags: append([]string{"--queue.acknowledgement_timeout", "60"}, o.Flags...)}
	s.Start()
	defer func() { s.Kill() }()
	if !s.Listening(90 * time.Second) {
		panic("harness: the server does not start: " + s.Log())
	}
	b := &proc.Backend{C: s.Client, Timeout: 20 * time.Second}
	names := []string{"orders", "счёт №7", "a b/c?d=%20&e", "q.1-2_3", "temporary", "empty"}
	msgs := map[string]map[uint64]*oldMessage{}
	types := map[string]string{}
	gone := map[string][]uint64{}
	for i, q := range names {
		types[q] = []string{"delayed", "fair"}[i%2]
		must(b.Create(types[q], q))
		msgs[q] = map[uint64]*oldMessage{}
	}
	contents := func(i int) string {
		switch r.IntN(8) {
		case 0:
			return ""
		case 1:
			return fmt.Sprintf(`{"id": %d, "html": "<a href=\"x\">&amp;</a>", "n": null}`, i)
		case 2:
			return fmt.Sprintf("письмо %d \u2028 \U0001F600 \x00 \t\r\n", i)
		case 3:
			return strings.Repeat(fmt.Sprint("long ", i, " "), 1000+r.IntN(3000))
		}
		return fmt.Sprint("content of message ", i)
	}
	groups := []string{"default", "", "группа", "a:b", "g1"}
	n := 0
	enqueue := func(q string) {
		n++
		prio := []int64{0, 1, 2, 10, 100, 1 << 30}[r.IntN(6)]
		if types[q] == "delayed" && r.IntN(5) == 0 {
			prio = 4102444800 + r.Int64N(1000)
		}
		g := groups[r.IntN(len(groups))]
		c := contents(n)
		m, err := b.Enqueue(q, g, prio, c, 0)
		must(err)
		if types[q] == "delayed" {
			g = "default"
		}
		msgs[q][m.ID] = &oldMessage{ID: m.ID, Group: g, Priority: prio, Content: c}
		o.LastID = max(o.LastID, m.ID)
	}
	remove := func(q string, id uint64) {
		if msgs[q][id] == nil {
			panic("harness: dequeued what is not there")
		}
		delete(msgs[q], id)
		gone[q] = append(gone[q], id)
	}
	for i := 0; i < 400; i++ {
		q := names[r.IntN(5)]
		if base && types[q] == "fair" {
			enqueue(q)
			continue
		}
		switch r.IntN(9) {
		case 0:
			if d, err := b.Dequeue(q, true); err == nil {
				remove(q, d.ID)
			}
		case 1, 2:
			if d, err := b.Dequeue(q, false); err == nil {
				msgs[q][d.ID].Unacked = true
				switch r.IntN(4) {
				case 0:
					must(b.Nack(q, d.ID))
					msgs[q][d.ID].Unacked = false
				case 1:
				default:
					must(b.Ack(q, d.ID))
					remove(q, d.ID)
				}
			}
		case 3:
			for id, m := range msgs[q] {
				if !m.Unacked && types[q] == "delayed" {
					p := int64(r.IntN(50))
					must(b.UpdatePriority(q, id, p))
					m.Priority = p
				}
				break
			}
		default:
			enqueue(q)
		}
	}
	must(b.Delete("temporary"))
	if base {
		// the last message of a fair queue
		for _, q := range names[:4] {
			if types[q] == "fair" {
				if d, err := b.Dequeue(q, false); err == nil {
					msgs[q][d.ID].Unacked = true
				}
			}
		}
	}
	if snapshots {
		// servers of the first version have empty snapshots, and do what came after them again to
		// queues that it was done to before
		time.Sleep(15 * time.Second)
		found, _ := filepath.Glob(filepath.Join(dir, "data", o.NodeID, "raft", "snapshots", "*", "meta.json"))
		if len(found) == 0 {
			panic("harness: there is no snapshot")
		}
		for i := 0; i < 40 && !base; i++ {
			q := names[r.IntN(4)]
			if d, err := b.Dequeue(q, true); err == nil && i%2 == 0 {
				remove(q, d.ID)
			} else if err == nil {
				remove(q, d.ID)
				enqueue(q)
			}
			enqueue(names[r.IntN(4)])
		}
	}
	time.Sleep(time.Second)
	if kill {
		s.Kill()
	} else {
		s.Terminate(10 * time.Second)
	}
	for _, q := range names {
		if q == "temporary" {
			continue
		}
		oq := oldQueue{Name: q, Type: types[q], Gone: gone[q]}
		for _, m := range msgs[q] {
			oq.Messages = append(oq.Messages, *m)
		}
		sort.Slice(oq.Messages, func(i, j int) bool { return oq.Messages[i].ID < oq.Messages[j].ID })
		o.Queues = append(o.Queues, oq)
	}
	o.Written = time.Now().Unix()
	out := os.Getenv("FIXTURE_OUT")
	data, err := json.MarshalIndent(o, "", " ")
	must(err)
	var packed bytes.Buffer
	zip := gzip.NewWriter(&packed)
	zip.Write(data)
	must(zip.Close())
	must(os.WriteFile(filepath.Join(out, name+".json.gz"), packed.Bytes(), 0644))
	if text, err := exec.Command("tar", "-C", filepath.Join(dir, "data"), "-S", "-czf", filepath.Join(out, name+".tgz"), ".").CombinedOutput(); err != nil {
		panic(fmt.Sprintf("harness: %v %s", err, text))
	}
	os.RemoveAll(dir)
}

func must(err error) {
	if err != nil {
		panic(fmt.Sprintf("harness: %v", err))
	}
}

// compat: servers go on with what earlier ones left behind
func compat(a *core.Args, rep *core.Report) {
	rep.Rule = "data directories that servers of this and of the first version left behind, after a stop or a kill, with and without snapshots, with compression: a server that is started on them, under other addresses and settings, has all queues and messages of before with their ids, groups, priorities and contents and none that was gone, in the order of their priorities, new messages have new ids, and all that is still so after a kill and another start; non-trivial: at least 50 messages"
	names := []string{}
	list, err := fixtures.ReadDir("fixtures")
	must(err)
	for _, e := range list {
		if n, ok := strings.CutSuffix(e.Name(), ".json.gz"); ok {
			names = append(names, n)
		}
	}
	for k, v := range map[string]int64{"directories": int64(len(names)), "old-messages": 1000, "old-queues": 40, "old-unacked": 40, "with-snapshot": 3} {
		rep.Floor(k, v)
	}
	core.Cases(a, pick(a, 2*len(names), 600), func(ci int) {
		oneCompat(a, rep, core.Rand(a, "compat", ci), ci, names[ci%len(names)])
	})
}

func oneCompat(a *core.Args, rep *core.Report, r *rand.Rand, ci int, name string) {
	dir := filepath.Join(core.ScratchDir(), "compat")
	os.RemoveAll(dir)
	defer os.RemoveAll(dir)
	var o old
	data, err := fixtures.ReadFile("fixtures/" + name + ".json.gz")
	must(err)
	zip, err := gzip.NewReader(bytes.NewReader(data))
	must(err)
	must(json.NewDecoder(zip).Decode(&o))
	files, err := fixtures.ReadFile("fixtures/" + name + ".tgz")
	must(err)
	must(os.MkdirAll(filepath.Join(dir, "data"), 0700))
	tar := exec.Command("tar", "-C", filepath.Join(dir, "data"), "--no-same-owner", "-xzf", "-")
	tar.Stdin = bytes.NewReader(files)
	if text, err := tar.CombinedOutput(); err != nil {
		panic(fmt.Sprintf("harness: %v %s", err, text))
	}
	base := ports(a, ci)
	const T = 2
	flags := append([]string{"--queue.acknowledgement_timeout", fmt.Sprint(T)}, o.Flags...)
	s := &proc.Server{ID: o.NodeID, Host: fmt.Sprintf("127.%d.1.%d", 150+a.Shard, 1+ci%200), HTTP: base, GRPC: base + 1, Raft: base + 2, Dir: dir, Flags: flags}
	var trace []string
	fail := func(kind, format string, args ...any) {
		rep.Violate(core.Violation{Case: ci, Kind: kind, Msg: fmt.Sprintf("data of %s: ", name) + fmt.Sprintf(format, args...), Trace: append(trace, s.Log())})
	}
	start := func() bool {
		s.Start()
		if !s.Listening(90 * time.Second) {
			_, why := s.Dead()
			fail("start", "the server does not start: %s", why)
			return false
		}
		return true
	}
	defer func() { s.Kill() }()
	if !start() {
		return
	}
	again := r.IntN(2) == 0
	web := proc.NewWeb(func() string { return s.URL("") }, 20*time.Second)
	var b seq.Backend = &proc.Backend{C: s.Client, Timeout: 20 * time.Second}
	if again {
		// whatever it converts, it does so once
		time.Sleep(time.Duration(r.IntN(4)) * time.Second)
		s.Kill()
		s.Hangup()
		if !start() {
			return
		}
	}
	fresh := map[string]map[uint64]string{}
	for _, q := range o.Queues {
		fresh[q.Name] = map[uint64]string{}
		for i := 0; i < 3; i++ {
			content := fmt.Sprint("new ", i)
			m, err := b.Enqueue(q.Name, "default", 1<<30+1, content, 0)
			if err != nil {
				fail("unusable", "a message cannot be put into queue %q: %v", q.Name, err)
				return
			}
			// clocks that were set back are out of scope
			if m.ID <= o.LastID && time.Now().Unix() > o.Written {
				fail("ids", "the new message %d does not come after the old message %d", m.ID, o.LastID)
				return
			}
			fresh[q.Name][m.ID] = content
		}
	}
	time.Sleep((T + 3) * time.Second)
	total := 0
	for _, q := range o.Queues {
		rep.Count("old-queues", 1)
		i, err := web.Info(q.Name)
		if err != nil {
			fail("lost-queue", "queue %q: %v", q.Name, err)
			return
		}
		if i.Type != q.Type {
			fail("type", "queue %q was of type %s and is of type %s", q.Name, q.Type, i.Type)
			return
		}
		if i.Total != int64(len(q.Messages)+3) {
			fail("count", "queue %q has %d messages, and there must be %d and 3 new ones", q.Name, i.Total, len(q.Messages))
			return
		}
		want := map[uint64]oldMessage{}
		waiting := 0
		for _, m := range q.Messages {
			want[m.ID] = m
			rep.Count("old-messages", 1)
			total++
			if m.Unacked {
				rep.Count("old-unacked", 1)
			}
			if q.Type == "delayed" && m.Priority > 4e9 {
				waiting++
				if r.IntN(2) == 0 || again {
					// what is not due yet is there, and can be made due
					if err := b.UpdatePriority(q.Name, m.ID, 7); err != nil {
						fail("lost", "the priority of message %d of queue %q, which is not due yet, cannot be changed: %v", m.ID, q.Name, err)
						return
					}
					waiting--
					m.Priority = 7
					want[m.ID] = m
				}
			}
		}
		last := int64(-1 << 62)
		for k := 0; k < len(q.Messages)+10; k++ {
			d, err := b.Dequeue(q.Name, true)
			if err != nil {
				break
			}
			trace = append(trace, fmt.Sprintf("%q: %d %q %d %.40q", q.Name, d.ID, d.Group, d.Priority, d.Content))
			if content, ok := fresh[q.Name][d.ID]; ok {
				if d.Content != content {
					fail("content", "message %d of queue %q had content %q and has %.100q", d.ID, q.Name, content, d.Content)
					return
				}
				delete(fresh[q.Name], d.ID)
				continue
			}
			m, ok := want[d.ID]
			if !ok {
				fail("back", "message %d of queue %q is delivered, which was gone or delivered before", d.ID, q.Name)
				return
			}
			delete(want, d.ID)
			if d.Content != m.Content || d.Priority != m.Priority || d.Group != m.Group {
				fail("content", "message %d of queue %q had group %q, priority %d and content %.100q, and has %q, %d and %.100q", d.ID, q.Name, m.Group, m.Priority, m.Content, d.Group, d.Priority, d.Content)
				return
			}
			if q.Type == "delayed" && m.Priority < last {
				fail("order", "message %d of queue %q has priority %d and comes after one with %d", d.ID, q.Name, m.Priority, last)
				return
			}
			last = m.Priority
		}
		for id, m := range want {
			// snapshots have the deadline, a minute after the delivery
			if m.Unacked && time.Now().Unix() < o.Written+70 {
				delete(want, id)
			}
		}
		if len(want) != waiting || len(fresh[q.Name]) > 0 {
			for id, m := range want {
				trace = append(trace, fmt.Sprintf("missing: %d %+.200v", id, m))
			}
			fail("lost", "queue %q keeps back %d old messages and %d new ones, and %d are not due", q.Name, len(want), len(fresh[q.Name]), waiting)
			return
		}
	}
	if err := b.Create("delayed", "one more"); err != nil {
		fail("unusable", "another queue cannot be made: %v", err)
		return
	}
	rep.Count("directories", 1)
	if strings.Contains(name, "snapshot") {
		rep.Count("with-snapshot", 1)
	}
	rep.Done(total >= 50, fmt.Sprint(name, again, trace), func() any { return map[string]any{"case": ci, "directory": name, "deliveries": head(trace, 20)} })
}

func head(s []string, n int) []string { return s[:min(len(s), n)] }
