package main

import (
	"bytes"
	"encoding/json"
	"fmt"
	"math/rand/v2"
	"os"
	"os/exec"
	"path/filepath"
	"sort"
	"strconv"
	"strings"
	"syscall"
	"time"

	"doqverif/core"

	"github.com/kgantsov/doq/pkg/config"
	"github.com/spf13/cobra"
)

// setting is a documented setting
type setting struct {
	key  string
	kind string // bool, flagbool (a flag that needs a value), int, float, string
	def  string
	of   func(c *config.Config) any
}

var all = []setting{
	{"profiling.enabled", "bool", "false", func(c *config.Config) any { return c.Profiling.Enabled }},
	{"profiling.port", "int32", "6060", func(c *config.Config) any { return c.Profiling.Port }},
	{"prometheus.enabled", "flagbool", "false", func(c *config.Config) any { return c.Prometheus.Enabled }},
	{"logging.level", "string", "warning", func(c *config.Config) any { return c.Logging.LogLevel }},
	{"http.port", "string", "8000", func(c *config.Config) any { return c.Http.Port }},
	{"grpc.address", "string", "", func(c *config.Config) any { return c.Grpc.Address }},
	{"raft.address", "string", "localhost:9000", func(c *config.Config) any { return c.Raft.Address }},
	{"storage.data_dir", "string", "data", func(c *config.Config) any { return c.Storage.DataDir }},
	{"storage.gc_interval", "int", "300", func(c *config.Config) any { return c.Storage.GCInterval }},
	{"storage.gc_discard_ratio", "float", "0.7", func(c *config.Config) any { return c.Storage.GCDiscardRatio }},
	{"storage.compression", "string", "", func(c *config.Config) any { return c.Storage.Compression }},
	{"storage.zstd_compression_level", "int", "0", func(c *config.Config) any { return c.Storage.ZSTDCompressionLevel }},
	{"storage.block_cache_size", "int", "0", func(c *config.Config) any { return c.Storage.BlockCacheSize }},
	{"storage.index_cache_size", "int", "0", func(c *config.Config) any { return c.Storage.IndexCacheSize }},
	{"storage.base_table_size", "int", "0", func(c *config.Config) any { return c.Storage.BaseTableSize }},
	{"storage.num_compactors", "int", "0", func(c *config.Config) any { return c.Storage.NumCompactors }},
	{"storage.num_level_zero_tables", "int", "0", func(c *config.Config) any { return c.Storage.NumLevelZeroTables }},
	{"storage.num_level_zero_tables_stall", "int", "0", func(c *config.Config) any { return c.Storage.NumLevelZeroTablesStall }},
	{"storage.num_memtables", "int", "0", func(c *config.Config) any { return c.Storage.NumMemtables }},
	{"storage.value_log_file_size", "int", "0", func(c *config.Config) any { return c.Storage.ValueLogFileSize }},
	{"cluster.node_id", "string", "node-1", func(c *config.Config) any { return c.Cluster.NodeID }},
	{"cluster.service_name", "string", "", func(c *config.Config) any { return c.Cluster.ServiceName }},
	{"cluster.join_addr", "string", "", func(c *config.Config) any { return c.Cluster.JoinAddr }},
	{"queue.acknowledgement_check_interval", "int", "1", func(c *config.Config) any { return c.Queue.AcknowledgementCheckInterval }},
	{"queue.acknowledgement_timeout", "int", "60", func(c *config.Config) any { return c.Queue.AcknowledgementTimeout }},
	{"queue.stats.window_side", "int", "10", func(c *config.Config) any { return c.Queue.QueueStats.WindowSide }},
}

// settingsChild is a process that reads the settings it is given and prints them
func settingsChild() {
	ran := false
	cmd := config.InitCobraCommand(func(cmd *cobra.Command, args []string) {
		ran = true
		c, err := config.LoadConfig()
		if err != nil {
			fmt.Println("refused:", err)
			return
		}
		out := map[string]string{}
		for _, s := range all {
			out[s.key] = fmt.Sprint(s.of(c))
		}
		data, _ := json.Marshal(out)
		fmt.Println("settings:" + string(data))
	})
	cmd.SetOut(nowhere{})
	cmd.SetErr(nowhere{})
	err := cmd.Execute()
	if !ran {
		fmt.Println("refused:", err)
	}
}

// value makes a value of a setting: as text, as it is in a file, and what it means
func (s *setting) value(r *rand.Rand) (text string, file any, want string) {
	switch s.kind {
	case "bool", "flagbool":
		b := r.IntN(2) == 0
		text = fmt.Sprint(b)
		if r.IntN(4) == 0 {
			text = map[bool]string{true: "1", false: "0"}[b]
		}
		return text, b, fmt.Sprint(b)
	case "int32":
		n := 1 + r.IntN(65535)
		return fmt.Sprint(n), n, fmt.Sprint(n)
	case "int":
		n := []int64{0, 1, 2, 5, 10, 60, 100, 300, 3600, 1 << 20, 1 << 26, 1 << 31, 1 << 40, r.Int64N(1 << 50)}[r.IntN(14)]
		return fmt.Sprint(n), n, fmt.Sprint(n)
	case "float":
		f := []float64{0.5, 0.1, 0.9, 0.25, 0.001, 1}[r.IntN(6)]
		return strconv.FormatFloat(f, 'g', -1, 64), f, fmt.Sprint(f)
	}
	v := []string{
		"", "a", "node-2", "info", "zstd", "snappy", "none", "9123", "localhost:9005", "127.0.0.1:0", "[::1]:10000", "doq-0.doq-internal:12000",
		"/var/lib/doq data", "with=equals", "with,comma", "with \"quotes\"", "ünïcode", "true", "007", "1e3", "-", "a:b#c", "~", "null",
	}[r.IntN(24)]
	return v, v, v
}

// settings: what a process takes for its settings
func settings(a *core.Args, rep *core.Report) {
	rep.Rule = "each setting is given on the command line, in the environment, in the default configuration file or one named by --config, in several formats, in none or in many of them; the settings that a process of its own loads are compared with those: the command line comes first, then the environment, the file, and the default; what is not a value of its type is refused; non-trivial: at least three settings differ from the default"
	for k, v := range map[string]int64{"from-flag": 1000, "from-file": 1000, "from-named-file": 300, "from-env": 300, "from-default": 3000, "flag-over-file": 300, "flag-over-env": 100, "env-over-file": 100, "refused": 60, "refused-file": 8} {
		rep.Floor(k, v)
	}
	core.Cases(a, pick(a, 960, 40000), func(ci int) {
		r := core.Rand(a, "settings", ci)
		dir := filepath.Join(core.ScratchDir(), "s")
		os.MkdirAll(filepath.Join(dir, "sub"), 0700)
		defer os.RemoveAll(dir)
		var trace []string
		var args, env []string
		want, from := map[string]string{}, map[string]string{}
		files := map[string]map[string]any{}
		named := ""
		format := []string{"yaml", "yaml", "yml", "json", "toml"}[r.IntN(5)]
		switch r.IntN(3) {
		case 0:
			files[filepath.Join(dir, "config."+format)] = map[string]any{}
		case 1:
			named = []string{"other." + format, "sub/config." + format, "sub/doq." + format, "config-1." + format}[r.IntN(4)]
			if r.IntN(2) == 0 {
				named = filepath.Join(dir, named)
			}
			full := named
			if !filepath.IsAbs(full) {
				full = filepath.Join(dir, full)
			}
			files[full] = map[string]any{}
			if r.IntN(2) == 0 { // the default one, which must not count
				files[filepath.Join(dir, "config."+format)] = nil
			}
			if r.IntN(2) == 0 {
				args = append(args, "--config", named)
			} else {
				args = append(args, "--config="+named)
			}
		}
		density := []float64{0.1, 0.3, 0.8}[r.IntN(3)]
		wrong := ""
		for _, s := range all {
			want[s.key], from[s.key] = s.def, "default"
			for name, content := range files {
				if content == nil || r.Float64() > density {
					continue
				}
				text, v, meaning := s.value(r)
				put(content, s.key, v)
				want[s.key], from[s.key] = meaning, "file"
				if named != "" {
					from[s.key] = "named-file"
				}
				trace = append(trace, fmt.Sprintf("%s: %s = %q", filepath.Base(name), s.key, text))
			}
			if r.Float64() < density/4 {
				text, _, meaning := s.value(r)
				if text != "" { // an empty variable is as one that is not set
					env = append(env, strings.ToUpper(s.key)+"="+text)
					if from[s.key] != "default" {
						rep.Count("env-over-file", 1)
					}
					want[s.key], from[s.key] = meaning, "env"
					trace = append(trace, "environment "+env[len(env)-1])
				}
			}
			if r.Float64() < density {
				text, _, meaning := s.value(r)
				switch {
				case s.kind == "bool" && text == "true" && r.IntN(2) == 0:
					args = append(args, "--"+s.key)
				case s.kind == "bool" || r.IntN(2) == 0:
					args = append(args, "--"+s.key+"="+text)
				default:
					args = append(args, "--"+s.key, text)
				}
				switch from[s.key] {
				case "env":
					rep.Count("flag-over-env", 1)
				case "file", "named-file":
					rep.Count("flag-over-file", 1)
				}
				want[s.key], from[s.key] = meaning, "flag"
			}
		}
		if r.IntN(8) == 0 {
			// something that is not a value
			var cand []setting
			for _, s := range all {
				if s.kind != "string" && from[s.key] == "default" {
					cand = append(cand, s)
				}
			}
			if len(cand) > 0 {
				s := cand[r.IntN(len(cand))]
				bad := []string{"abc", "1x", "--", "yes please"}[r.IntN(4)]
				wrong = s.key
				placed := false
				if r.IntN(2) == 0 {
					for name, content := range files {
						if content != nil {
							put(content, s.key, bad)
							placed = true
							trace = append(trace, fmt.Sprintf("%s: %s = %q", filepath.Base(name), s.key, bad))
						}
					}
				}
				if !placed {
					args = append(args, "--"+s.key+"="+bad)
				}
			}
		}
		r.Shuffle(len(args), func(i, j int) {
			// flags with separate values must stay together
			if strings.Contains(args[i], "=") && strings.Contains(args[j], "=") && strings.HasPrefix(args[i], "--") && strings.HasPrefix(args[j], "--") &&
				(i == 0 || strings.Contains(args[i-1], "=")) && (j == 0 || strings.Contains(args[j-1], "=")) {
				args[i], args[j] = args[j], args[i]
			}
		})
		for name, content := range files {
			if content == nil {
				content = map[string]any{}
				for _, s := range all {
					if s.kind == "string" {
						put(content, s.key, "decoy")
					} else if s.kind == "int" || s.kind == "int32" {
						put(content, s.key, 7777)
					}
				}
				trace = append(trace, "a decoy "+filepath.Base(name))
			}
			if err := os.WriteFile(name, encode(r, filepath.Ext(name), content), 0600); err != nil {
				panic(fmt.Sprintf("harness: %v", err))
			}
		}
		unreadable := ""
		if named != "" && wrong == "" && r.IntN(6) == 0 {
			full := named
			if !filepath.IsAbs(full) {
				full = filepath.Join(dir, full)
			}
			os.Remove(full)
			unreadable = "is missing"
			switch r.IntN(3) {
			case 0:
				unreadable = "is a directory"
				os.Mkdir(full, 0700)
			case 1:
				unreadable = "is not of its format"
				os.WriteFile(full, []byte("{ \"http\": [ }\n = = :\n"), 0600)
			}
			trace = append(trace, "the named file "+unreadable)
		}
		trace = append(trace, fmt.Sprintf("arguments %q", args))
		cmd := exec.Command(os.Args[0], args...)
		cmd.Dir = dir
		cmd.Env = append([]string{"SERVERW_CHILD=settings", "HOME=" + dir, "PATH=/usr/bin:/bin", "GOMAXPROCS=1"}, env...)
		cmd.SysProcAttr = &syscall.SysProcAttr{Pdeathsig: syscall.SIGKILL}
		var out, errs bytes.Buffer
		cmd.Stdout, cmd.Stderr = &out, &errs
		err := cmd.Run()
		core.Touch()
		if err != nil && strings.Contains(errs.String(), "panic:") && strings.Contains(errs.String(), "kgantsov/doq/pkg/") {
			rep.Violate(core.Violation{Case: ci, Kind: "crash", Msg: "reading the settings crashed: " + errs.String()[:min(errs.Len(), 500)], Trace: trace})
			return
		}
		text := out.String()
		differ := 0
		switch {
		case err != nil:
			rep.Inconc("case %d: %v %s", ci, err, errs.String()[:min(errs.Len(), 300)])
			return
		case wrong != "":
			rep.Count("refused", 1)
			if !strings.Contains(text, "refused:") {
				rep.Violate(core.Violation{Case: ci, Kind: "accepted", Msg: "a value of " + wrong + " that is not of its type is accepted: " + text, Trace: trace})
			}
			differ = 3
		case unreadable != "":
			rep.Count("refused-file", 1)
			if !strings.Contains(text, "refused:") {
				rep.Violate(core.Violation{Case: ci, Kind: "accepted", Msg: "the file that --config names " + unreadable + ", but the settings are accepted: " + text, Trace: trace})
			}
			differ = 3
		case !strings.Contains(text, "settings:"):
			rep.Violate(core.Violation{Case: ci, Kind: "refused", Msg: "valid settings are refused: " + text, Trace: trace})
		default:
			got := map[string]string{}
			_, text, _ = strings.Cut(text, "settings:")
			if err := json.Unmarshal([]byte(text), &got); err != nil {
				rep.Inconc("case %d: %v %q", ci, err, text)
				return
			}
			for _, s := range all {
				rep.Count("from-"+from[s.key], 1)
				if want[s.key] != s.def {
					differ++
				}
				if got[s.key] != want[s.key] {
					rep.Violate(core.Violation{Case: ci, Kind: "setting", Msg: fmt.Sprintf("%s is %q, but it was set to %q (%s)", s.key, got[s.key], want[s.key], from[s.key]), Trace: trace})
					break
				}
			}
		}
		rep.Done(differ >= 3, fmt.Sprint(args, env, trace), func() any { return map[string]any{"case": ci, "trace": trace} })
	})
}

// put puts a value into nested maps
func put(m map[string]any, key string, v any) {
	parts := strings.Split(key, ".")
	for _, p := range parts[:len(parts)-1] {
		sub, _ := m[p].(map[string]any)
		if sub == nil {
			sub = map[string]any{}
			m[p] = sub
		}
		m = sub
	}
	m[parts[len(parts)-1]] = v
}

// encode writes a configuration file
func encode(r *rand.Rand, ext string, m map[string]any) []byte {
	var b bytes.Buffer
	var yaml func(m map[string]any, indent string)
	var toml func(m map[string]any, prefix string)
	scalar := func(v any) string {
		d, _ := json.Marshal(v)
		if s, ok := v.(string); ok && ext != ".toml" && len(s) > 1 && s[0] >= 'a' && s[0] <= 'z' && strings.Trim(s, "abcdefghijklmnopqrstuvwxyz-") == "" && s != "true" && s != "null" && r.IntN(2) == 0 {
			return s
		}
		return string(d)
	}
	keys := func(m map[string]any) []string {
		var ks []string
		for k := range m {
			ks = append(ks, k)
		}
		sort.Strings(ks)
		r.Shuffle(len(ks), func(i, j int) { ks[i], ks[j] = ks[j], ks[i] })
		return ks
	}
	yaml = func(m map[string]any, indent string) {
		for _, k := range keys(m) {
			if sub, ok := m[k].(map[string]any); ok {
				fmt.Fprintf(&b, "%s%s:\n", indent, k)
				yaml(sub, indent+"  ")
			} else {
				fmt.Fprintf(&b, "%s%s: %s\n", indent, k, scalar(m[k]))
			}
		}
	}
	toml = func(m map[string]any, prefix string) {
		for _, k := range keys(m) {
			if _, ok := m[k].(map[string]any); !ok {
				fmt.Fprintf(&b, "%s = %s\n", k, scalar(m[k]))
			}
		}
		for _, k := range keys(m) {
			if sub, ok := m[k].(map[string]any); ok {
				name := strings.TrimPrefix(prefix+"."+k, ".")
				fmt.Fprintf(&b, "[%s]\n", name)
				toml(sub, name)
			}
		}
	}
	switch ext {
	case ".json":
		d, _ := json.Marshal(m)
		b.Write(d)
	case ".toml":
		toml(m, "")
	default:
		yaml(m, "")
	}
	return b.Bytes()
}

var _ = time.Now
