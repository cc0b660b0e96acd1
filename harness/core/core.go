// Package core is shared by all workers: deterministic case lists, the report
// of what was observed, and the watchdog.
package core

import (
	"context"
	"encoding/json"
	"flag"
	"fmt"
	"hash/fnv"
	"math/rand/v2"
	"os"
	"path/filepath"
	"regexp"
	"runtime"
	"runtime/pprof"
	"sort"
	"strconv"
	"strings"
	"sync"
	"sync/atomic"
	"testing"
	"testing/synctest"
	"time"

	"github.com/rs/zerolog"
	"github.com/rs/zerolog/log"
)

// Violation is a refutation of the property by an observed execution.
type Violation struct {
	Case  int      `json:"case"`
	Kind  string   `json:"kind"`
	Key   string   `json:"key,omitempty"` // identifies a known finding
	Msg   string   `json:"msg"`
	Trace []string `json:"trace,omitempty"`
}

// Report is what one shard of one check observed.
type Report struct {
	mu           sync.Mutex
	Evaluations  int              `json:"evaluations"`
	Nontrivial   int              `json:"nontrivial"`
	Hashes       map[string]bool  `json:"hashes"`
	Samples      []any            `json:"samples"`
	Counters     map[string]int64 `json:"counters"`
	Violations   []Violation      `json:"violations"`
	Inconclusive []string         `json:"inconclusive"`
	Rule         string           `json:"rule"`
	Assumptions  []string         `json:"assumptions"`
	Floors       map[string]int64 `json:"floors"`
}

// Args are the arguments of a worker.
type Args struct {
	Prop   string
	Seed   uint64
	Shard  int
	Shards int
	Tier   string
	Out    string
	Only   int // run only this case
	N      int // overrides the number of cases
}

var (
	progress atomic.Int64
	curCase  atomic.Int64
)

// Touch tells the watchdog that something happened.
func Touch() { progress.Add(1) }

// ParseArgs reads the command line.
func ParseArgs() *Args {
	a := &Args{}
	flag.StringVar(&a.Prop, "prop", "", "property")
	flag.Uint64Var(&a.Seed, "seed", 1, "seed")
	flag.IntVar(&a.Shard, "shard", 0, "shard")
	flag.IntVar(&a.Shards, "shards", 1, "number of shards")
	flag.StringVar(&a.Tier, "tier", "quick", "quick or thorough")
	flag.StringVar(&a.Out, "out", "", "report")
	flag.IntVar(&a.Only, "case", -1, "run only this case")
	flag.IntVar(&a.N, "n", 0, "number of cases")
	prof := flag.String("prof", "", "CPU profile")
	flag.Parse()
	if *prof != "" {
		f, err := os.Create(*prof)
		if err == nil {
			pprof.StartCPUProfile(f)
		}
	}
	return a
}

// NewReport makes an empty report.
func NewReport() *Report {
	return &Report{
		Hashes: map[string]bool{}, Counters: map[string]int64{}, Floors: map[string]int64{},
	}
}

// Count adds to a counter.
func (r *Report) Count(name string, n int64) {
	r.mu.Lock()
	defer r.mu.Unlock()
	r.Counters[name] += n
}

// Floor sets the value that a counter must reach over all shards, or else the
// run observed too little and is inconclusive.
func (r *Report) Floor(name string, n int64) {
	r.mu.Lock()
	defer r.mu.Unlock()
	r.Floors[name] = n
}

// Violate records a violation.
func (r *Report) Violate(v Violation) {
	r.mu.Lock()
	defer r.mu.Unlock()
	if len(r.Violations) < 40 {
		if len(v.Trace) > 400 {
			v.Trace = append([]string{"..."}, v.Trace[len(v.Trace)-400:]...)
		}
		r.Violations = append(r.Violations, v)
	}
}

// Inconc records that a case could not be decided.
func (r *Report) Inconc(format string, args ...any) {
	r.mu.Lock()
	defer r.mu.Unlock()
	if len(r.Inconclusive) < 20 {
		r.Inconclusive = append(r.Inconclusive, fmt.Sprintf(format, args...))
	}
	r.Counters["inconclusive"]++
}

// Done records an evaluated case. signature identifies what was observed.
func (r *Report) Done(nontrivial bool, signature string, sample func() any) {
	r.mu.Lock()
	defer r.mu.Unlock()
	r.Evaluations++
	if nontrivial {
		r.Nontrivial++
		h := fnv.New64a()
		h.Write([]byte(signature))
		r.Hashes[strconv.FormatUint(h.Sum64(), 36)] = true
		if len(r.Samples) < 1 && sample != nil {
			r.Samples = append(r.Samples, sample())
		}
	}
}

// Write writes the report.
func (r *Report) Write(a *Args) {
	pprof.StopCPUProfile()
	r.mu.Lock()
	defer r.mu.Unlock()
	data, err := json.Marshal(r)
	if err != nil {
		fmt.Fprintln(os.Stderr, "cannot encode the report:", err)
		os.Exit(2)
	}
	if a.Out == "" {
		r.print()
		return
	}
	tmp := a.Out + ".tmp"
	if err := os.WriteFile(tmp, data, 0600); err != nil {
		fmt.Fprintln(os.Stderr, err)
		os.Exit(2)
	}
	os.Rename(tmp, a.Out)
}

func (r *Report) print() {
	fmt.Printf("evaluations %d nontrivial %d distinct %d\n", r.Evaluations, r.Nontrivial, len(r.Hashes))
	keys := []string{}
	for k := range r.Counters {
		keys = append(keys, k)
	}
	sort.Strings(keys)
	for _, k := range keys {
		fmt.Printf("  %s=%d\n", k, r.Counters[k])
	}
	for _, s := range r.Inconclusive {
		fmt.Println("INCONCLUSIVE", s)
	}
	for i, v := range r.Violations {
		fmt.Printf("VIOLATION case %d %s: %s\n", v.Case, v.Kind, v.Msg)
		if i == 0 {
			for _, l := range v.Trace {
				fmt.Println("    ", l)
			}
		}
	}
}

// Rand is the source of all choices of a case.
func Rand(a *Args, salt string, c int) *rand.Rand {
	h := fnv.New64a()
	fmt.Fprintf(h, "%s/%s/%d", a.Prop, salt, c)
	return rand.New(rand.NewPCG(a.Seed, h.Sum64()))
}

// Cases calls fn for each case of this shard.
func Cases(a *Args, n int, fn func(c int)) {
	if a.N > 0 {
		n = a.N
	}
	if a.Only >= 0 {
		begin(a, a.Only)
		fn(a.Only)
		return
	}
	for c := a.Shard; c < n; c += a.Shards {
		begin(a, c)
		fn(c)
	}
}

func begin(a *Args, c int) {
	curCase.Store(int64(c))
	Touch()
	if a.Out != "" {
		os.WriteFile(a.Out+".case", []byte(strconv.Itoa(c)), 0600)
	}
}

// Quiet silences the log of the code under test.
func Quiet() {
	log.Logger = zerolog.New(os.Stderr)
	zerolog.SetGlobalLevel(zerolog.FatalLevel)
	if os.Getenv("VERIF_LOG") != "" {
		zerolog.SetGlobalLevel(zerolog.DebugLevel)
	}
}

// CaseLimit is how long a case may take, which must be set if cases run in virtual
// time: there operations that wait for ever do not keep the time from going on.
var CaseLimit time.Duration

// Watchdog ends the process with all stacks if nothing is touched for a while.
// It must be started outside of a bubble.
func Watchdog(limit time.Duration) {
	go func() {
		last, since := progress.Load(), time.Now()
		thisCase, began := int64(-1), time.Now()
		for {
			time.Sleep(500 * time.Millisecond)
			if c := curCase.Load(); c != thisCase {
				thisCase, began = c, time.Now()
			} else if CaseLimit > 0 && time.Since(began) > CaseLimit {
				buf := make([]byte, 64<<20)
				n := runtime.Stack(buf, true)
				fmt.Fprintf(os.Stderr, "WATCHDOG: no end within %s of case %d\n\n%s\n", CaseLimit, c, buf[:n])
				os.Exit(66)
			}
			if p := progress.Load(); p != last {
				last, since = p, time.Now()
			} else if time.Since(since) > limit {
				buf := make([]byte, 64<<20)
				n := runtime.Stack(buf, true)
				fmt.Fprintf(os.Stderr, "WATCHDOG: no progress for %s in case %d\n\n%s\n",
					limit, curCase.Load(), buf[:n])
				os.Exit(66)
			}
		}
	}()
}

// Bubble runs fn in virtual time. The process must end in fn.
func Bubble(fn func()) {
	testing.Init()
	testing.Main(
		func(pat, str string) (bool, error) { return true, nil },
		[]testing.InternalTest{{Name: "bubble", F: func(t *testing.T) {
			synctest.Test(t, func(t *testing.T) { fn() })
		}}}, nil, nil,
	)
}

// AlignClock sleeps until the virtual time is a multiple of 1000 s, so that a
// case sees the same sub-second phase whenever it runs.
func AlignClock() {
	now := time.Now()
	next := time.Unix((now.Unix()/1000+1)*1000, 0)
	time.Sleep(next.Sub(now))
}

// ScratchDir makes a directory for files of this process.
func ScratchDir() string {
	dir := os.Getenv("VERIF_SCRATCH")
	if dir == "" {
		dir = os.TempDir()
	}
	d, err := os.MkdirTemp(dir, "w")
	if err != nil {
		fmt.Fprintln(os.Stderr, err)
		os.Exit(2)
	}
	return d
}

// Overlay returns the directory of the files of the harness.
func Dir(elem ...string) string {
	_, file, _, _ := runtime.Caller(0)
	return filepath.Join(append([]string{filepath.Dir(filepath.Dir(file))}, elem...)...)
}

var (
	smu  sync.Mutex
	sbuf = make([]byte, 1<<20)
)

var goroutineID = regexp.MustCompile(`^goroutine \d+ `)

// DoqStacks returns the stacks of all goroutines with a frame of the code under test
func DoqStacks(match func(stack string) bool) []string {
	smu.Lock()
	defer smu.Unlock()
	n := runtime.Stack(sbuf, true)
	for n == len(sbuf) {
		sbuf = make([]byte, 4*len(sbuf))
		n = runtime.Stack(sbuf, true)
	}
	buf := sbuf
	var out []string
	for _, s := range strings.Split(string(buf[:n]), "\n\n") {
		if goroutineID.MatchString(s) && match(s) {
			out = append(out, s)
		}
	}
	return out
}

// Shutdown stops a server, and does not wait for connections that stay open
func Shutdown(s interface {
	ShutdownWithContext(context.Context) error
}) {
	ctx, cancel := context.WithTimeout(context.Background(), 5*time.Second)
	defer cancel()
	s.ShutdownWithContext(ctx)
}
