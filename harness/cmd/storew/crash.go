package main

import (
	"bytes"
	"encoding/json"
	"fmt"
	"math/rand/v2"
	"os"
	"os/exec"
	"path/filepath"
	"strings"
	"sync/atomic"
	"syscall"
	"time"

	"doqverif/core"

	"github.com/dgraph-io/badger/v4"
	hraft "github.com/hashicorp/raft"
	badgerstore "github.com/kgantsov/doq/pkg/badger-store"
)

// plan is what a process does that is going to be killed. Both sides generate
// the operations from it.
type plan struct {
	Dir   string
	Seed  uint64
	Skip  int // operations that were done by processes before
	Count int // operations until it kills itself, more than there will be if it is killed from outside
	Big   int // size of large entries
	Pre   uint64
}

// step is an operation on the store
type step struct {
	put      []*hraft.Log
	from, to uint64
	key      string
	val      []byte
}

func (s *step) String() string {
	switch {
	case s.put != nil:
		return fmt.Sprintf("StoreLogs %d..%d", s.put[0].Index, s.put[len(s.put)-1].Index)
	case s.key != "":
		return fmt.Sprintf("Set %q %x", s.key, s.val)
	default:
		return fmt.Sprintf("DeleteRange %d..%d", s.from, s.to)
	}
}

// script generates the operations
type script struct {
	r    *rand.Rand
	next uint64
	logs map[uint64]*hraft.Log
	conf map[string][]byte
	big  int
}

func newScript(p *plan) *script {
	return &script{r: rand.New(rand.NewPCG(p.Seed, 77)), next: p.Pre, logs: map[uint64]*hraft.Log{}, conf: map[string][]byte{}, big: p.Big}
}

func (s *script) bounds() (lo, hi uint64) {
	for i := range s.logs {
		if lo == 0 || i < lo {
			lo = i
		}
		hi = max(hi, i)
	}
	return
}

func (s *script) step() *step {
	r := s.r
	lo, hi := s.bounds()
	op := r.IntN(10)
	if len(s.logs) == 0 && op > 6 {
		op = 0
	}
	switch op {
	case 7: // prefix, as after a snapshot
		return &step{from: lo, to: lo + r.Uint64N(hi-lo+1)}
	case 8: // suffix, as after a conflict
		from := hi - min(hi-lo, r.Uint64N(4))
		s.next = from
		return &step{from: from, to: hi}
	case 9, 6:
		v := make([]byte, r.IntN(20))
		for i := range v {
			v[i] = byte(r.Uint32())
		}
		return &step{key: []string{"CurrentTerm", "LastVoteTerm", "LastVoteCand", "other"}[r.IntN(4)], val: v}
	default:
		st := &step{}
		for k := []int{1, 1, 1, 3, 20, 200}[r.IntN(6)]; k > 0; k-- {
			size := r.IntN(300)
			if r.IntN(20) == 0 {
				size = r.IntN(1 + s.big)
			}
			st.put = append(st.put, &hraft.Log{
				Index: s.next, Term: r.Uint64N(5), Type: hraft.LogCommand,
				Data: bytes.Repeat([]byte{byte(r.Uint32())}, size), AppendedAt: time.Unix(r.Int64N(1<<33), 0),
			})
			s.next++
		}
		return st
	}
}

func (s *script) apply(st *step) {
	switch {
	case st.put != nil:
		for _, l := range st.put {
			s.logs[l.Index] = l
		}
	case st.key != "":
		s.conf[st.key] = st.val
	default:
		for i := range s.logs {
			if i >= st.from && i <= st.to {
				delete(s.logs, i)
			}
		}
	}
}

func options(dir string) badger.Options {
	return badger.DefaultOptions(dir).WithLogger(nil).WithNumCompactors(2).WithMetricsEnabled(false).
		WithMemTableSize(8 << 20).WithBlockCacheSize(1 << 20).WithValueLogFileSize(16 << 20).WithValueThreshold(64 << 10)
}

// child does the operations and is killed
func child(p *plan) {
	db, err := badger.Open(options(p.Dir))
	if err != nil {
		fmt.Fprintln(os.Stderr, "open:", err)
		os.Exit(3)
	}
	s, err := badgerstore.New(db, badgerstore.Options{})
	if err != nil {
		fmt.Fprintln(os.Stderr, "open:", err)
		os.Exit(3)
	}
	sc := newScript(p)
	for i := 0; i < p.Skip; i++ {
		sc.apply(sc.step())
	}
	for i := 0; ; i++ {
		st := sc.step()
		switch {
		case st.put != nil && len(st.put) == 1:
			err = s.StoreLog(st.put[0])
		case st.put != nil:
			err = s.StoreLogs(st.put)
		case st.key != "":
			err = s.Set([]byte(st.key), st.val)
		default:
			err = s.DeleteRange(st.from, st.to)
		}
		if err != nil {
			fmt.Fprintln(os.Stderr, st, err)
			os.Exit(4)
		}
		sc.apply(st)
		os.Stdout.Write([]byte{'.'})
		if i+1 == p.Count {
			syscall.Kill(os.Getpid(), syscall.SIGKILL)
		}
	}
}

// crash: processes that use the store are killed, and what they did must be there
func (w *work) crash() {
	r := w.r
	w.n = map[string]int64{}
	p := &plan{Dir: filepath.Join(core.ScratchDir(), "db"), Seed: r.Uint64(), Big: []int{1000, 100000, 900000}[r.IntN(3)],
		Pre: []uint64{1, 1, 250, 1<<32 - 20}[r.IntN(4)]}
	w.dir = p.Dir
	rounds := 1 + r.IntN(4)
	for k := 0; k < rounds && !w.bad; k++ {
		outside := r.IntN(3) == 0
		p.Count = 1 + r.IntN(60)
		if outside {
			p.Count = 1 << 30
		}
		spec, _ := json.Marshal(p)
		cmd := exec.Command(os.Args[0])
		cmd.Env = append(os.Environ(), "STOREW_CHILD="+string(spec))
		cmd.SysProcAttr = &syscall.SysProcAttr{Pdeathsig: syscall.SIGKILL}
		var out counter
		var errs bytes.Buffer
		cmd.Stdout, cmd.Stderr = &out, &errs
		if err := cmd.Start(); err != nil {
			panic(fmt.Sprintf("harness: %v", err))
		}
		if outside {
			for began := time.Now(); out.Len() == 0 && time.Since(began) < 20*time.Second; {
				time.Sleep(time.Millisecond)
			}
			time.Sleep(time.Duration(r.IntN(60)) * time.Millisecond)
			cmd.Process.Kill()
		}
		err := cmd.Wait()
		core.Touch()
		if ee, ok := err.(*exec.ExitError); !ok || ee.Sys().(syscall.WaitStatus).Signal() != syscall.SIGKILL {
			msg := errs.String()
			if ok && (ee.ExitCode() == 3 || ee.ExitCode() == 4 || strings.Contains(msg, "panic:") && strings.Contains(msg, "kgantsov/doq/pkg/")) {
				w.fail("refused", "the store of a killed process: %v %s", err, msg[:min(len(msg), 1000)])
				return
			}
			panic(fmt.Sprintf("harness: %v %s", err, msg))
		}
		done := out.Len()
		w.note("process %d: killed from outside: %v, after %d operations of which it knew the result", k, outside, done)
		w.n["killed"]++
		w.n["operations-before-a-kill"] += int64(done)
		p.Skip += done
		sc := newScript(p)
		for i := 0; i < p.Skip; i++ {
			st := sc.step()
			if i >= p.Skip-5 {
				w.note("%v", st)
			}
			sc.apply(st)
		}
		// the operation that was under way may have had an effect, in part
		partly := sc.step()
		under := map[uint64]*hraft.Log{}
		for _, l := range partly.put {
			under[l.Index] = l
		}
		w.open()
		if w.bad {
			return
		}
		w.logs = map[uint64]*hraft.Log{}
		for i, l := range sc.logs {
			w.logs[i] = l
		}
		check := func(i uint64, want *hraft.Log) {
			var l hraft.Log
			err := w.s.GetLog(i, &l)
			also := under[i] != nil && err == nil && same(&l, under[i])
			gone := partly.put == nil && partly.key == "" && i >= partly.from && i <= partly.to && err == hraft.ErrLogNotFound
			w.n["read-after-kill"]++
			switch {
			case also:
				w.logs[i] = under[i]
				w.n["partly"]++
			case gone:
				delete(w.logs, i)
				w.n["partly"]++
			case want == nil && err != hraft.ErrLogNotFound:
				w.fail("ghost", "after a crash entry %d is there: %v %s", i, err, show(&l))
			case want != nil && err != nil:
				w.fail("lost", "after a crash entry %d is not there (%v), it was stored as %s", i, err, show(want))
			case want != nil && !same(&l, want):
				w.fail("altered", "after a crash entry %d is %s, it was stored as %s", i, show(&l), show(want))
			}
		}
		for i, l := range sc.logs {
			check(i, l)
		}
		for i := uint64(max(1, p.Pre) - 1); i < sc.next+3; i++ {
			if sc.logs[i] == nil {
				check(i, nil)
			}
		}
		w.bounds()
		for key, v := range sc.conf {
			got, err := w.s.Get([]byte(key))
			if err == nil && partly.key == key && bytes.Equal(got, partly.val) {
				continue
			}
			if err != nil || !bytes.Equal(got, v) {
				w.fail("stable", "after a crash %q is %x (%v), it was set to %x", key, got, err, v)
			}
		}
		// so that the next process begins with what both sides know, the operation is undone or done
		if !w.bad {
			switch {
			case partly.put != nil:
				err = w.s.StoreLogs(partly.put)
			case partly.key != "":
				err = w.s.Set([]byte(partly.key), partly.val)
			default:
				err = w.s.DeleteRange(partly.from, partly.to)
			}
			if err != nil {
				w.fail("refused", "%v after a crash: %v", partly, err)
			}
			p.Skip++
		}
		if err := w.s.Close(); err != nil {
			w.fail("close", "Close: %v", err)
		}
	}
	w.open()
	for k, v := range w.n {
		w.rep.Count(k, v)
	}
	w.rep.Done(w.n["operations-before-a-kill"] > 0, fmt.Sprint("crash", p.Seed), func() any {
		return map[string]any{"case": w.ci, "trace": w.trace[:min(len(w.trace), 40)]}
	})
}

// counter counts what it is given
type counter struct {
	n atomic.Int64
}

func (b *counter) Write(p []byte) (int, error) { b.n.Add(int64(len(p))); return len(p), nil }
func (b *counter) Len() int                    { return int(b.n.Load()) }
