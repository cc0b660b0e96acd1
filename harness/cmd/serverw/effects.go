package main

import (
	"fmt"
	"io"
	"math/rand/v2"
	"net"
	"net/http"
	"os"
	"path/filepath"
	"regexp"
	"strings"
	"time"

	"doqverif/core"
	"doqverif/proc"
	"doqverif/seq"
)

// ports returns ports that no other case that runs at the same time uses
func ports(a *core.Args, ci int) int { return 26000 + a.Shard*600 + ci%60*8 }

func open(addr string) bool {
	c, err := net.DialTimeout("tcp", addr, 2*time.Second)
	if err == nil {
		c.Close()
	}
	return err == nil
}

// opens waits until something listens
func opens(addr string) bool {
	for k := 0; k < 100; k++ {
		if open(addr) {
			return true
		}
		time.Sleep(50 * time.Millisecond)
		core.Touch()
	}
	return false
}

func fetch(url string) (int, string) {
	hc := &http.Client{Timeout: 20 * time.Second, Transport: &http.Transport{DisableKeepAlives: true}}
	res, err := hc.Get(url)
	if err != nil {
		return 0, err.Error()
	}
	defer res.Body.Close()
	d, _ := io.ReadAll(res.Body)
	return res.StatusCode, string(d)
}

// effects: what a server does with its settings
func effects(a *core.Args, rep *core.Report) {
	rep.Rule = "server processes with generated settings, in files, in the environment and on the command line: the services are at the ports given and only there, metrics and profiling are there if they are switched on, data are where they must be, the log has what its level says, timeouts of acknowledgements and rates follow the settings; the server is started again with other settings of the storage and still has its data; non-trivial: a message came back after its timeout and the data were there after the restart"
	for k, v := range map[string]int64{"started": 30, "restarted": 20, "redelivered": 20, "rates": 20, "metrics-on": 5, "metrics-off": 5, "profiling-on": 5, "profiling-off": 5, "grpc-on": 5, "grpc-off": 3, "kept-messages": 300, "value-logs": 3} {
		rep.Floor(k, v)
	}
	core.Cases(a, pick(a, 32, 1200), func(ci int) { oneEffect(a, rep, core.Rand(a, "effects", ci), ci) })
}

func storage(r *rand.Rand) map[string]any {
	m := map[string]any{}
	opt := func(key string, vs ...any) {
		if r.IntN(3) == 0 {
			m["storage."+key] = vs[r.IntN(len(vs))]
		}
	}
	opt("gc_interval", 1, 5, 300)
	opt("gc_discard_ratio", 0.1, 0.5, 0.9)
	opt("compression", "none", "snappy", "zstd", "other")
	opt("zstd_compression_level", 1, 3)
	// compressed and encrypted tables need a cache
	m["storage.block_cache_size"] = []int{1 << 20, 32 << 20, 64 << 20}[r.IntN(3)]
	opt("index_cache_size", 1<<20, 16<<20)
	opt("base_table_size", 1<<20, 4<<20)
	opt("num_compactors", 2, 3, 6)
	opt("num_level_zero_tables", 2, 5)
	opt("num_level_zero_tables_stall", 10, 15)
	opt("num_memtables", 2, 5)
	opt("value_log_file_size", 2<<20, 64<<20)
	return m
}

func where(work, dataDir string) string {
	if filepath.IsAbs(dataDir) {
		return dataDir
	}
	return filepath.Join(work, dataDir)
}

// database compares the options of the database with the settings: those that the
// server logs, if it does, and the size of the value log
func database(rep *core.Report, want map[string]any, logged, dir string, fail func(kind, format string, args ...any)) {
	if i := strings.LastIndex(logged, "Badger options: {"); i >= 0 && want["logging.level"] == "debug" {
		logged = logged[i:]
		for key, field := range map[string]string{
			"zstd_compression_level": "ZSTDCompressionLevel", "block_cache_size": "BlockCacheSize", "index_cache_size": "IndexCacheSize",
			"base_table_size": "BaseTableSize", "num_compactors": "NumCompactors", "num_level_zero_tables": "NumLevelZeroTables",
			"num_level_zero_tables_stall": "NumLevelZeroTablesStall", "num_memtables": "NumMemtables", "value_log_file_size": "ValueLogFileSize", "compression": "Compression",
		} {
			v, given := want["storage."+key]
			m := regexp.MustCompile(`[{ ]` + field + `:(\d+)`).FindStringSubmatch(logged)
			if !given || m == nil {
				continue
			}
			text := fmt.Sprint(v)
			if key == "compression" {
				text = map[any]string{"none": "0", "snappy": "1", "zstd": "2", "other": "0"}[v]
			}
			rep.Count("options", 1)
			if m[1] != text {
				fail("option", "the setting storage.%s is %v and the database is opened with %s", key, v, m[0])
			}
		}
	}
	if size, ok := want["storage.value_log_file_size"].(int); ok && dir != "" {
		// the file in use has twice the size
		found, sizes := false, []int64{}
		filepath.Walk(dir, func(path string, i os.FileInfo, err error) error {
			if err == nil && strings.HasSuffix(path, ".vlog") {
				sizes = append(sizes, i.Size())
				found = found || i.Size() == 2*int64(size)
			}
			return nil
		})
		if len(sizes) > 0 {
			rep.Count("value-logs", 1)
			if !found {
				fail("option", "the setting storage.value_log_file_size is %d and the value logs have sizes %v", size, sizes)
			}
		}
	}
}

func oneEffect(a *core.Args, rep *core.Report, r *rand.Rand, ci int) {
	dir := filepath.Join(core.ScratchDir(), "e")
	work := filepath.Join(dir, "work")
	os.MkdirAll(work, 0700)
	defer os.RemoveAll(dir)
	base := ports(a, ci)
	var trace []string
	note := func(format string, args ...any) { trace = append(trace, fmt.Sprintf(format, args...)); core.Touch() }
	bad := false
	fail := func(kind, format string, args ...any) {
		if !bad {
			rep.Violate(core.Violation{Case: ci, Kind: kind, Msg: fmt.Sprintf(format, args...), Trace: trace})
		}
		bad = true
	}
	T := int64([]int{1, 3, 6}[r.IntN(3)])
	window := []int{5, 10, 20}[r.IntN(3)]
	id := []string{"node-1", "n", "doq-0", "node.with.dots", "N_1"}[r.IntN(5)]
	dataDir := []string{"data", "d", "sub/dir", filepath.Join(dir, "elsewhere"), filepath.Join(dir, "a b", "ü")}[r.IntN(5)]
	host := fmt.Sprintf("127.%d.0.%d", 150+a.Shard, 1+ci%200)
	want := map[string]any{
		"http.port": fmt.Sprint(base), "raft.address": fmt.Sprintf("%s:%d", host, base+2), "cluster.node_id": id, "storage.data_dir": dataDir,
		"queue.acknowledgement_timeout": T, "queue.acknowledgement_check_interval": 1, "queue.stats.window_side": window,
		"logging.level": []string{"debug", "debug", "info", "warn", "error", "disabled"}[r.IntN(6)],
	}
	grpcOn, metrics, profiling := r.IntN(4) > 0, r.IntN(2) == 0, r.IntN(2) == 0
	if grpcOn {
		want["grpc.address"] = fmt.Sprintf("%s:%d", host, base+1)
	}
	if metrics || r.IntN(2) == 0 {
		want["prometheus.enabled"] = metrics
	}
	if profiling || r.IntN(2) == 0 {
		want["profiling.enabled"] = profiling
	}
	if profiling || r.IntN(2) == 0 {
		want["profiling.port"] = base + 3
	}
	for k, v := range storage(r) {
		want[k] = v
	}
	configDir := map[string]bool{}
	start := func() *proc.Server {
		// where each setting comes from
		var args, env []string
		file := map[string]any{}
		os.Remove(filepath.Join(work, "config.yaml"))
		named := r.IntN(3) == 0
		keys := make([]string, 0, len(want))
		for _, s := range all {
			if _, ok := want[s.key]; ok {
				keys = append(keys, s.key)
			}
		}
		for _, k := range keys {
			switch r.IntN(5) {
			case 0:
				env = append(env, strings.ToUpper(k)+"="+fmt.Sprint(want[k]))
			case 1, 2:
				put(file, k, want[k])
			default:
				args = append(args, "--"+k+"="+fmt.Sprint(want[k]))
			}
		}
		name := filepath.Join(work, "config.yaml")
		if named {
			name = filepath.Join(dir, "named.yaml")
			args = append(args, "--config", name)
		}
		text := encode(r, ".yaml", file)
		if err := os.WriteFile(name, text, 0600); err != nil {
			panic(fmt.Sprintf("harness: %v", err))
		}
		configDir[filepath.Base(name)] = true
		note("start: arguments %q, environment %q, file %s:\n%s", args, env, filepath.Base(name), text)
		s := &proc.Server{Host: host, HTTP: base, GRPC: base + 1, Dir: work, Bare: true, Flags: args, Env: append(env, "TMPDIR="+dir, "HOME="+dir)}
		s.Start()
		return s
	}
	s := start()
	defer func() { s.Kill() }()
	up := func(what string) bool {
		if s.Listening(90 * time.Second) {
			return true
		}
		dead, why := s.Dead()
		if dead {
			fail("start", "%s: the server does not start: %s\n%s", what, why, s.Log())
		} else if open(fmt.Sprintf("127.0.0.1:%d", base)) {
			fail("start", "%s: the server listens and does not answer", what)
		} else {
			fail("start", "%s: the server does not listen at port %d\n%s", what, base, s.Log())
		}
		return false
	}
	if !up("first start") {
		return
	}
	rep.Count("started", 1)
	on := func(b bool) string { return map[bool]string{true: "on", false: "off"}[b] }
	surface := func() {
		if is := opens(want["raft.address"].(string)); !is {
			fail("port", "nothing listens at the raft address %v", want["raft.address"])
		}
		addr := fmt.Sprintf("%s:%d", host, base+1)
		rep.Count("grpc-"+on(grpcOn), 1)
		if grpcOn && !opens(addr) {
			fail("port", "nothing listens at the gRPC address %s", addr)
		} else if !grpcOn && open(addr) {
			fail("port", "something listens at %s, although no address was given", addr)
		}
		rep.Count("profiling-"+on(profiling), 1)
		prof := fmt.Sprintf("127.0.0.1:%d", base+3)
		if profiling {
			if !opens(prof) {
				fail("port", "profiling is enabled and nothing listens at port %d", base+3)
			} else if code, _ := fetch("http://" + prof + "/debug/pprof/"); code != 200 {
				fail("profiling", "profiling is enabled and answers with status %d", code)
			}
		} else if open(prof) {
			fail("port", "profiling is disabled and something listens at port %d", base+3)
		}
		code, body := fetch(s.URL("/metrics"))
		rep.Count("metrics-"+on(metrics), 1)
		if metrics && (code != 200 || !strings.Contains(body, "doq_queues_")) {
			fail("metrics", "metrics are enabled and /metrics answers with status %d and %.300q", code, body)
		} else if !metrics && code == 200 && strings.Contains(body, "doq_queues_") {
			fail("metrics", "metrics are disabled and /metrics has them")
		}
	}
	w := proc.NewWeb(func() string { return s.URL("") }, 30*time.Second)
	q := "jobs"
	if err := w.Create("delayed", q); err != nil {
		fail("create", "create of a queue failed: %v", err)
		return
	}
	if _, err := w.Enqueue(q, "default", 5, "first", 0); err != nil {
		fail("enqueue", "an enqueue failed: %v", err)
		return
	}
	if _, err := w.Dequeue(q, true); err != nil {
		fail("dequeue", "a dequeue failed: %v", err)
		return
	}
	surface()
	if bad {
		return
	}

	// rates
	k := window * (1 + r.IntN(3))
	began := time.Now()
	contents := map[string]bool{}
	for i := 0; i < k; i++ {
		c := fmt.Sprintf("message %d %s", i, strings.Repeat("x", r.IntN(3000)))
		contents[c] = true
		if _, err := w.Enqueue(q, "default", 10, c, 0); err != nil {
			fail("enqueue", "an enqueue failed: %v", err)
			return
		}
	}
	i, err := w.Info(q)
	if err != nil || i.Total != int64(k) {
		fail("info", "after %d enqueues the queue is %+v %v", k, i, err)
		return
	}
	if time.Since(began) < time.Second {
		rep.Count("rates", 1)
		// the second that has not ended does not count, and the first message may be in the same window
		lo, hi := float64(k)/float64(window), float64(k+1)/float64(window)
		for {
			i, err := w.Info(q)
			if err == nil && i.RPS[0] > lo-0.11 && i.RPS[0] < hi+0.11 {
				break
			}
			if time.Since(began) > time.Duration(window-1)*time.Second {
				if time.Since(began) < time.Duration(window)*time.Second {
					fail("rate", "%d messages were enqueued, the window has %d s, and before it ends the rate is %v", k, window, i.RPS[0])
					return
				}
				break
			}
			time.Sleep(100 * time.Millisecond)
			core.Touch()
		}
	}

	// the timeout
	m, err := w.Dequeue(q, false)
	taken := time.Now()
	if err != nil {
		fail("dequeue", "a dequeue failed: %v", err)
		return
	}
	for !bad {
		i, err := w.Info(q)
		passed := time.Since(taken)
		if err != nil {
			fail("info", "%v", err)
		} else if i.Unacked == 0 {
			if passed < time.Duration(T-1)*time.Second-100*time.Millisecond {
				fail("timeout", "message %d came back after %s, the timeout is %d s", m.ID, passed, T)
			}
			rep.Count("redelivered", 1)
			break
		} else if passed > time.Duration(T)*time.Second+15*time.Second {
			fail("timeout", "message %d did not come back within %s, the timeout is %d s", m.ID, passed, T)
		}
		time.Sleep(50 * time.Millisecond)
		core.Touch()
	}
	if bad {
		return
	}

	// what the log has
	level := want["logging.level"].(string)
	logged := s.FullLog()
	has := func(l string) bool { return regexp.MustCompile(`\b` + l + `\b`).MatchString(logged) }
	switch level {
	case "debug":
		if !has("DBG") {
			fail("log", "the level is debug and nothing of that level is logged: %.300q", logged)
		}
	case "error", "disabled":
		if has("DBG") || has("INF") || has("WRN") {
			fail("log", "the level is %s and the log has %.300q", level, logged)
		}
	case "warn":
		if has("DBG") || has("INF") {
			fail("log", "the level is %s and the log has %.300q", level, logged)
		}
	}

	database(rep, want, logged, where(work, dataDir), fail)

	// where the data are
	full := dataDir
	if !filepath.IsAbs(full) {
		full = filepath.Join(work, dataDir)
	}
	if list, err := os.ReadDir(full); err != nil || len(list) == 0 {
		fail("data", "there is nothing in the data directory %s (%v)", dataDir, err)
	}
	top, _, _ := strings.Cut(dataDir, "/")
	list, _ := os.ReadDir(work)
	for _, e := range list {
		if !configDir[e.Name()] && e.Name() != "stderr" && e.Name() != top {
			fail("data", "the server wrote %s beside its data directory %s", e.Name(), dataDir)
		}
	}
	if bad {
		return
	}

	// with other settings
	s.Kill()
	for key := range want {
		if strings.HasPrefix(key, "storage.") && key != "storage.data_dir" {
			delete(want, key)
		}
	}
	for k, v := range storage(r) {
		want[k] = v
	}
	grpcOn, metrics, profiling = r.IntN(4) > 0, r.IntN(2) == 0, r.IntN(2) == 0
	delete(want, "grpc.address")
	if grpcOn {
		want["grpc.address"] = fmt.Sprintf("%s:%d", host, base+1)
	}
	want["prometheus.enabled"], want["profiling.enabled"], want["profiling.port"] = metrics, profiling, base+3
	base2 := base
	if r.IntN(2) == 0 {
		base2 = base + 5
		want["http.port"] = fmt.Sprint(base2)
	}
	b := base
	base = base2
	s = start()
	if !up("start with other settings") {
		return
	}
	base = b
	rep.Count("restarted", 1)
	if want["logging.level"] == "debug" {
		database(rep, want, s.FullLog(), "", fail)
	}
	var left []string
	for range contents {
		m, err := w.Dequeue(q, true)
		if err != nil {
			break
		}
		left = append(left, m.Content)
		core.Touch()
	}
	for _, c := range left {
		if !contents[c] {
			fail(seq.KInvented, "after a restart with other settings %.40q is delivered, which was not there or twice", c)
		}
		delete(contents, c)
		rep.Count("kept-messages", 1)
	}
	if len(contents) > 0 {
		fail(seq.KLost, "after a restart with other settings %d of %d messages are not there", len(contents), k)
	}
	surface()
	if dead, why := s.Dead(); dead {
		fail("dead", "%s\n%s", why, s.Log())
	}
	rep.Done(true, fmt.Sprint(want), func() any { return map[string]any{"case": ci, "trace": trace} })
}
