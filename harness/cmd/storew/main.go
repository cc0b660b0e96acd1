// storew compares the log and stable store with maps.
package main

import (
	"bytes"
	"encoding/json"
	"fmt"
	"math"
	"math/rand/v2"
	"os"
	"path/filepath"
	"sort"
	"sync"
	"sync/atomic"
	"time"

	"doqverif/core"

	"github.com/dgraph-io/badger/v4"
	hraft "github.com/hashicorp/raft"
	badgerstore "github.com/kgantsov/doq/pkg/badger-store"
	"github.com/kgantsov/doq/pkg/config"
	"github.com/kgantsov/doq/pkg/queue"
)

func main() {
	if spec := os.Getenv("STOREW_CHILD"); spec != "" {
		p := &plan{}
		if err := json.Unmarshal([]byte(spec), p); err != nil {
			panic(fmt.Sprintf("harness: %v", err))
		}
		child(p)
	}
	a := core.ParseArgs()
	core.Quiet()
	core.Watchdog(120 * time.Second)
	rep := core.NewReport()
	rep.Rule = "random operations on a log and stable store, compared with maps after every operation; non-trivial: entries were stored, deleted by range and read; distinct by the sequence of operations"
	for k, v := range map[string]int64{"stored": 15000, "deleted": 6000, "read": 40000, "reopened": 40, "batches-over-a-transaction": 5, "ranges-over-a-batch": 60, "ranges-over-a-transaction": 60, "stable-writes": 2000, "queue-operations": 500, "concurrent-reads": 10000, "killed": 150, "operations-before-a-kill": 3000, "read-after-kill": 20000} {
		rep.Floor(k, v)
	}
	n := 800
	if a.Tier == "thorough" {
		n = 30000
	}
	core.Cases(a, n, func(ci int) {
		r := core.Rand(a, "store", ci)
		w := &work{r: r, rep: rep, ci: ci}
		switch ci % 16 {
		case 5:
			w.concurrent()
		case 7:
			w.long()
		case 3, 9, 14:
			w.crash()
		default:
			w.run()
		}
		w.close()
	})
	rep.Write(a)
	os.Exit(0)
}

type work struct {
	r     *rand.Rand
	rep   *core.Report
	ci    int
	dir   string
	big   bool
	tiny  bool
	db    *badger.DB
	s     *badgerstore.BadgerStore
	logs  map[uint64]*hraft.Log
	conf  map[string][]byte
	qm    *queue.QueueManager
	other map[string]string // what is in the database besides
	trace []string
	sig   string
	n     map[string]int64
	bad   bool
}

func (w *work) note(format string, args ...any) {
	w.trace = append(w.trace, fmt.Sprintf(format, args...))
	core.Touch()
}

func (w *work) fail(kind, format string, args ...any) {
	if w.bad {
		return
	}
	w.bad = true
	w.rep.Violate(core.Violation{Case: w.ci, Kind: kind, Msg: fmt.Sprintf(format, args...), Trace: w.trace})
}

func (w *work) open() {
	var opts badger.Options
	if w.dir == "" {
		opts = badger.DefaultOptions("").WithInMemory(true)
	} else {
		opts = badger.DefaultOptions(w.dir)
	}
	opts = opts.WithLogger(nil).WithNumCompactors(2).WithMetricsEnabled(false)
	if !w.big {
		// small tables: transactions are limited to about 1.2 MB
		opts = opts.WithMemTableSize(8 << 20).WithNumMemtables(2)
		opts = opts.WithBlockCacheSize(1 << 20).WithValueLogFileSize(16 << 20)
		if w.dir != "" {
			opts = opts.WithValueThreshold(64 << 10)
		}
	}
	if w.tiny {
		// transactions are limited to about 1700 keys
		opts = opts.WithMemTableSize(1 << 20).WithNumMemtables(4).WithValueThreshold(20 << 10)
	}
	db, err := badger.Open(opts)
	if err != nil {
		panic(fmt.Sprintf("harness: %v", err))
	}
	w.db = db
	s, err := badgerstore.New(db, badgerstore.Options{})
	if err != nil {
		w.fail("open", "New: %v", err)
		return
	}
	w.s = s
}

func (w *work) close() {
	if w.qm != nil {
		for _, q := range w.qm.GetQueues() {
			w.qm.Delete(q.Name)
		}
	}
	w.db.Close()
	if w.dir != "" {
		os.RemoveAll(w.dir)
	}
	core.Touch()
}

func (w *work) reopen() {
	if err := w.s.Close(); err != nil {
		w.fail("close", "Close: %v", err)
		return
	}
	w.open()
	w.n["reopened"]++
	w.note("reopened")
}

func (w *work) bytes(max int) []byte {
	r := w.r
	switch r.IntN(8) {
	case 0:
		return nil
	case 1:
		return []byte{}
	case 2:
		return []byte{0}
	}
	b := make([]byte, 1+r.IntN(max))
	for i := range b {
		b[i] = byte(r.Uint32())
	}
	return b
}

func (w *work) log(index uint64) *hraft.Log {
	r := w.r
	l := &hraft.Log{
		Index:      index,
		Term:       []uint64{0, 1, 7, math.MaxUint64, r.Uint64()}[r.IntN(5)],
		Type:       []hraft.LogType{hraft.LogCommand, hraft.LogNoop, hraft.LogBarrier, hraft.LogConfiguration}[r.IntN(4)],
		Data:       w.bytes([]int{10, 100, 1000, 20000}[r.IntN(4)]),
		Extensions: w.bytes(40),
	}
	switch r.IntN(4) {
	case 0:
	case 1:
		l.AppendedAt = time.Unix(r.Int64N(1<<34), r.Int64N(1e9))
	case 2:
		l.AppendedAt = time.Unix(r.Int64N(1<<34), r.Int64N(1e9)).UTC()
	case 3:
		l.AppendedAt = time.Now()
	}
	return l
}

func clone(l *hraft.Log) *hraft.Log {
	c := *l
	c.Data = append([]byte(nil), l.Data...)
	c.Extensions = append([]byte(nil), l.Extensions...)
	return &c
}

func same(a, b *hraft.Log) bool {
	return a.Index == b.Index && a.Term == b.Term && a.Type == b.Type && bytes.Equal(a.Data, b.Data) &&
		bytes.Equal(a.Extensions, b.Extensions) && a.AppendedAt.Equal(b.AppendedAt)
}

func show(l *hraft.Log) string {
	return fmt.Sprintf("{%d term %d type %d data %d bytes %.20x ext %.20x at %v}", l.Index, l.Term, l.Type, len(l.Data), l.Data, l.Extensions, l.AppendedAt)
}

func (w *work) indices() []uint64 {
	out := make([]uint64, 0, len(w.logs))
	for i := range w.logs {
		out = append(out, i)
	}
	sort.Slice(out, func(i, j int) bool { return out[i] < out[j] })
	return out
}

func (w *work) get(i uint64) {
	var l hraft.Log
	err := w.s.GetLog(i, &l)
	want := w.logs[i]
	w.n["read"]++
	if want == nil {
		if err != hraft.ErrLogNotFound {
			w.fail("ghost", "GetLog(%d) of an entry that is not there: %v %s", i, err, show(&l))
		}
	} else if err != nil {
		w.fail("missing", "GetLog(%d): %v, stored was %s", i, err, show(want))
	} else if !same(&l, want) {
		w.fail("altered", "GetLog(%d) returns %s, stored was %s", i, show(&l), show(want))
	}
}

func (w *work) bounds() {
	idx := w.indices()
	var lo, hi uint64
	if len(idx) > 0 {
		lo, hi = idx[0], idx[len(idx)-1]
	}
	if f, err := w.s.FirstIndex(); err != nil || f != lo {
		w.fail("bounds", "FirstIndex: %d %v, it is %d", f, err, lo)
	}
	if l, err := w.s.LastIndex(); err != nil || l != hi {
		w.fail("bounds", "LastIndex: %d %v, it is %d", l, err, hi)
	}
}

// verify reads everything
func (w *work) verify() {
	w.bounds()
	for _, i := range w.indices() {
		w.get(i)
		if w.logs[i+1] == nil {
			w.get(i + 1)
		}
		if w.logs[i-1] == nil {
			w.get(i - 1)
		}
	}
	for k, v := range w.conf {
		w.getConf(k, v)
	}
	w.checkOther()
}

func (w *work) getConf(k string, v []byte) {
	got, err := w.s.Get([]byte(k))
	if err != nil || !bytes.Equal(got, v) {
		w.fail("stable", "Get(%q): %.40x %v, it is %.40x", k, got, err, v)
	}
}

// dump returns everything in the database
func (w *work) dump() map[string]string {
	out := map[string]string{}
	err := w.db.View(func(txn *badger.Txn) error {
		it := txn.NewIterator(badger.DefaultIteratorOptions)
		defer it.Close()
		for it.Rewind(); it.Valid(); it.Next() {
			v, err := it.Item().ValueCopy(nil)
			if err != nil {
				return err
			}
			out[string(it.Item().KeyCopy(nil))] = string(v)
		}
		return nil
	})
	if err != nil {
		panic(fmt.Sprintf("harness: %v", err))
	}
	return out
}

func (w *work) checkOther() {
	if len(w.other) == 0 {
		return
	}
	now := w.dump()
	for k, v := range w.other {
		if got, ok := now[k]; !ok || got != v {
			w.fail("interference", "the store changed %q, which belongs to the queues (there: %v)", k, ok)
			return
		}
	}
}

var keys = []string{"CurrentTerm", "LastVoteTerm", "LastVoteCand", "a", "", "logs", "ab", "conf", "queues:", "messages:a:", "\x00", "\xff", "logs\x00\x00\x00\x00\x00\x00\x00\x01", "abcd", "abce"}

func (w *work) run() {
	r := w.r
	w.logs, w.conf, w.n, w.other = map[uint64]*hraft.Log{}, map[string][]byte{}, map[string]int64{}, map[string]string{}
	disk := r.IntN(5) == 0
	w.big = r.IntN(80) == 0
	if disk || w.big {
		disk = true
		w.dir = filepath.Join(core.ScratchDir(), "db")
	}
	w.open()
	if w.bad {
		return
	}
	if r.IntN(4) == 0 {
		w.queues()
	}
	next := []uint64{1, 1, 1, 0, 250, 65530, 1<<32 - 20, 1<<40 - 3, 1<<56 - 30, 1<<63 - 50, 0x6c6f6773, 255<<56 - 40, math.MaxUint64 - 100000}[r.IntN(13)]
	steps := 20 + r.IntN(60)
	for s := 0; s < steps && !w.bad; s++ {
		idx := w.indices()
		var lo, hi uint64
		if len(idx) > 0 {
			lo, hi = idx[0], idx[len(idx)-1]
		}
		op := r.IntN(13)
		w.sig += fmt.Sprintf("%d.%d;", op, len(idx))
		switch op {
		case 0, 1, 2: // append
			k := []int{1, 1, 2, 8, 64, 150, 400}[r.IntN(7)]
			batch := []*hraft.Log{}
			for i := 0; i < k; i++ {
				batch = append(batch, w.log(next))
				next++
			}
			w.store(batch)
		case 3: // a batch that exceeds a transaction
			if s%7 != 0 {
				continue
			}
			size, count := 400<<10, 6+r.IntN(10)
			if w.big {
				size, count = 4<<20, 4+r.IntN(5)
			}
			batch := []*hraft.Log{}
			for i := 0; i < count; i++ {
				l := w.log(next)
				l.Data = bytes.Repeat([]byte{byte(next), byte(i)}, size/2)
				batch = append(batch, l)
				next++
			}
			w.n["batches-over-a-transaction"]++
			w.store(batch)
		case 4: // overwrite or leave a gap, as after a snapshot was installed
			if len(idx) > 0 && r.IntN(2) == 0 {
				w.store([]*hraft.Log{w.log(idx[r.IntN(len(idx))])})
			} else if r.IntN(4) == 0 {
				next += r.Uint64N(1000)
			}
		case 5, 6: // delete
			if len(idx) == 0 {
				continue
			}
			var from, to uint64
			switch r.IntN(6) {
			case 0: // prefix
				from, to = lo, idx[r.IntN(len(idx))]
			case 1: // suffix
				from, to = idx[r.IntN(len(idx))], hi
			case 2: // all
				from, to = lo, hi
			case 3: // more than there is
				from, to = 0, math.MaxUint64
				if r.IntN(2) == 0 {
					from, to = idx[r.IntN(len(idx))], math.MaxUint64
				}
			case 4: // some
				from, to = idx[r.IntN(len(idx))], idx[r.IntN(len(idx))]
			case 5: // one
				from = idx[r.IntN(len(idx))]
				to = from
			}
			w.note("DeleteRange(%d, %d)", from, to)
			if err := w.s.DeleteRange(from, to); err != nil {
				w.fail("delete", "DeleteRange(%d, %d): %v", from, to, err)
				return
			}
			k := 0
			for _, i := range idx {
				if i >= from && i <= to {
					delete(w.logs, i)
					w.n["deleted"]++
					k++
				}
			}
			if k > 100 {
				w.n["ranges-over-a-batch"]++
			}
			if to == hi && r.IntN(2) == 0 && len(w.logs) > 0 {
				// continue where it was cut off
				j := w.indices()
				next = j[len(j)-1] + 1
			}
			w.verifySome(from, to)
		case 7, 8: // stable store
			k := keys[r.IntN(len(keys))]
			w.n["stable-writes"]++
			if r.IntN(2) == 0 {
				v := r.Uint64() >> r.IntN(64)
				w.note("SetUint64(%q, %d)", k, v)
				if err := w.s.SetUint64([]byte(k), v); err != nil {
					w.fail("stable", "SetUint64(%q): %v", k, err)
					return
				}
				if got, err := w.s.GetUint64([]byte(k)); err != nil || got != v {
					w.fail("stable", "GetUint64(%q): %d %v, it is %d", k, got, err, v)
				}
				w.conf[k] = binary(v)
			} else {
				v := w.bytes(50)
				w.note("Set(%q, %x)", k, v)
				if err := w.s.Set([]byte(k), v); err != nil {
					w.fail("stable", "Set(%q): %v", k, err)
					return
				}
				w.conf[k] = append([]byte(nil), v...)
				// the caller may use the buffer again
				for i := range v {
					v[i]++
				}
			}
			for k, v := range w.conf {
				w.getConf(k, v)
			}
			un := "unknown-" + fmt.Sprint(r.IntN(1000))
			if v, err := w.s.Get([]byte(un)); err == nil {
				w.fail("stable", "Get of an unknown key: %x", v)
			}
		case 9:
			if disk && r.IntN(3) == 0 && w.qm == nil {
				w.reopen()
				if !w.bad {
					w.verify()
				}
			}
		case 10: // random reads
			for i := 0; i < 20; i++ {
				if len(idx) > 0 && r.IntN(4) > 0 {
					w.get(idx[r.IntN(len(idx))])
				} else {
					w.get(next - 50 + r.Uint64N(100))
				}
			}
		case 11:
			if w.qm != nil {
				w.queueOps()
			}
		case 12:
			w.verify()
		}
		w.bounds()
	}
	w.verify()
	w.done(w.n["stored"] > 0 && w.n["deleted"] > 0 && w.n["read"] > 0)
}

// long makes logs and ranges of more keys than a transaction can take, as the
// compaction of a log has to remove after a storm
func (w *work) long() {
	r := w.r
	w.logs, w.conf, w.n, w.other = map[uint64]*hraft.Log{}, map[string][]byte{}, map[string]int64{}, map[string]string{}
	w.tiny = true
	if r.IntN(3) == 0 {
		w.dir = filepath.Join(core.ScratchDir(), "db")
	}
	w.open()
	if w.bad {
		return
	}
	next := 1 + r.Uint64N(3)*65000
	for k := 0; k < 2 && !w.bad; k++ {
		n := 3000 + r.IntN(6000)
		for n > 0 && !w.bad {
			var batch []*hraft.Log
			for i := min(n, []int{1, 64, 900, 2500, 5000}[r.IntN(5)]); i > 0; i-- {
				l := w.log(next)
				l.Data = l.Data[:min(len(l.Data), 60)]
				batch = append(batch, l)
				next++
				n--
			}
			w.store(batch)
		}
		idx := w.indices()
		from, to := idx[0], idx[len(idx)-1-r.IntN(100)]
		if r.IntN(4) == 0 {
			from = idx[r.IntN(100)]
		}
		w.note("DeleteRange(%d, %d) of %d", from, to, len(idx))
		if err := w.s.DeleteRange(from, to); err != nil {
			w.fail("delete", "DeleteRange(%d, %d): %v", from, to, err)
			return
		}
		w.n["ranges-over-a-transaction"]++
		for _, i := range idx {
			if i >= from && i <= to {
				delete(w.logs, i)
				w.n["deleted"]++
			}
		}
		w.verifySome(from, to)
		if w.dir != "" && r.IntN(2) == 0 {
			w.reopen()
		}
		if !w.bad {
			w.verify()
		}
		w.sig += fmt.Sprintf("long %d;", len(idx))
	}
	w.done(true)
}

func (w *work) done(nontrivial bool) {
	for k, v := range w.n {
		w.rep.Count(k, v)
	}
	w.rep.Done(nontrivial, w.sig, func() any {
		t := w.trace
		if len(t) > 40 {
			t = t[:40]
		}
		return map[string]any{"case": w.ci, "trace": t}
	})
}

// verifySome reads what is around the ends of a range
func (w *work) verifySome(from, to uint64) {
	for _, i := range []uint64{from - 2, from - 1, from, from + 1, to - 1, to, to + 1, to + 2} {
		w.get(i)
	}
	idx := w.indices()
	for k := 0; k < 20 && len(idx) > 0; k++ {
		w.get(idx[w.r.IntN(len(idx))])
	}
}

func binary(v uint64) []byte {
	b := make([]byte, 8)
	for i := range b {
		b[i] = byte(v >> (56 - 8*i))
	}
	return b
}

func (w *work) store(batch []*hraft.Log) {
	size := 0
	for _, l := range batch {
		size += len(l.Data)
	}
	w.note("StoreLogs %d..%d, %d bytes", batch[0].Index, batch[len(batch)-1].Index, size)
	keep := make([]*hraft.Log, len(batch))
	for i, l := range batch {
		keep[i] = clone(l)
	}
	var err error
	if len(batch) == 1 && w.r.IntN(2) == 0 {
		err = w.s.StoreLog(batch[0])
	} else {
		err = w.s.StoreLogs(batch)
	}
	if err != nil {
		w.fail("store", "StoreLogs of %d entries with %d bytes: %.300v", len(batch), size, err)
		return
	}
	for i, l := range keep {
		if !same(l, batch[i]) {
			w.fail("store", "StoreLogs altered its argument %s", show(l))
		}
		w.logs[l.Index] = l
		w.n["stored"]++
	}
	w.get(batch[0].Index)
	w.get(batch[len(batch)-1].Index)
	w.get(batch[w.r.IntN(len(batch))].Index)
}

// queues puts queues into the same database
func (w *work) queues() {
	cfg := &config.Config{}
	cfg.Queue = config.QueueConfig{AcknowledgementCheckInterval: 3600, AcknowledgementTimeout: 3600, QueueStats: config.QueueStatsConfig{WindowSide: 10}}
	w.qm = queue.NewQueueManager(w.db, cfg, nil)
	w.queueOps()
}

var qnames = []string{"logs", "conf", "q", "", "logs\x00", "\xff"}

func (w *work) queueOps() {
	before := w.indices()
	for i := 0; i < 10; i++ {
		name := qnames[w.r.IntN(len(qnames))]
		q, err := w.qm.Create([]string{"delayed", "fair"}[w.r.IntN(2)], name)
		if err != nil {
			w.fail("queues", "create %q: %v", name, err)
			return
		}
		w.n["queue-operations"]++
		switch w.r.IntN(6) {
		case 0:
			w.qm.Delete(name)
		case 1:
			q.Dequeue(true)
		default:
			if _, err := q.Enqueue(w.r.Uint64(), "g", 1, "content"); err != nil {
				w.fail("queues", "enqueue %q: %v", name, err)
				return
			}
		}
	}
	w.note("operations on queues")
	// what is in the database now and was not written by the store
	s2 := w.dump()
	w.other = map[string]string{}
	empty := w.storeKeys()
	for k, v := range s2 {
		if !empty[k] {
			w.other[k] = v
		}
	}
	for _, i := range before {
		w.get(i)
	}
	w.bounds()
}

// storeKeys returns the keys of the store: those that a store with the same
// content has in a database of its own
func (w *work) storeKeys() map[string]bool {
	db, err := badger.Open(badger.DefaultOptions("").WithInMemory(true).WithLogger(nil).WithMemTableSize(8 << 20))
	if err != nil {
		panic(fmt.Sprintf("harness: %v", err))
	}
	defer db.Close()
	s, err := badgerstore.New(db, badgerstore.Options{})
	if err != nil {
		panic(fmt.Sprintf("harness: %v", err))
	}
	for i := range w.logs {
		s.StoreLogs([]*hraft.Log{{Index: i}})
	}
	for k := range w.conf {
		s.Set([]byte(k), []byte("x"))
	}
	t := &work{db: db}
	out := map[string]bool{}
	for k := range t.dump() {
		out[k] = true
	}
	return out
}

// concurrent appends, compacts, reads and votes at the same time, as raft does
func (w *work) concurrent() {
	r := w.r
	w.n = map[string]int64{}
	if r.IntN(2) == 0 {
		w.dir = filepath.Join(core.ScratchDir(), "db")
	}
	w.open()
	if w.bad {
		return
	}
	var stored, deleted atomic.Uint64
	var reads, checks atomic.Int64
	var mu sync.Mutex
	fail := func(kind, format string, args ...any) {
		mu.Lock()
		defer mu.Unlock()
		w.fail(kind, format, args...)
	}
	end := make(chan struct{})
	var wg sync.WaitGroup
	entry := func(i uint64) *hraft.Log {
		return &hraft.Log{Index: i, Term: i / 7, Data: bytes.Repeat([]byte{byte(i), byte(i >> 8)}, int(i%97)), AppendedAt: time.Unix(int64(i), 5)}
	}
	for k := 0; k < 3; k++ {
		seed := r.Uint64()
		wg.Add(1)
		go func() {
			defer wg.Done()
			r := rand.New(rand.NewPCG(seed, uint64(k)))
			for {
				select {
				case <-end:
					return
				default:
				}
				hi := stored.Load()
				lo := deleted.Load()
				if hi <= lo {
					continue
				}
				i := lo + 1 + r.Uint64N(hi-lo)
				var l hraft.Log
				err := w.s.GetLog(i, &l)
				// it may have been deleted meanwhile
				if deleted.Load() >= i {
					continue
				}
				reads.Add(1)
				if err != nil || !same(&l, entry(i)) {
					if deleting.Load() >= i {
						continue
					}
					fail("concurrent", "GetLog(%d) with %d..%d stored: %v %s", i, lo+1, hi, err, show(&l))
					return
				}
				if last, err := w.s.LastIndex(); err != nil || last < hi {
					fail("concurrent", "LastIndex %d %v, %d was stored before", last, err, hi)
					return
				}
			}
		}()
	}
	deleting.Store(0)
	wg.Add(1)
	go func() {
		defer wg.Done()
		for {
			select {
			case <-end:
				return
			default:
			}
			hi, lo := stored.Load(), deleted.Load()
			if hi < lo+150 {
				time.Sleep(100 * time.Microsecond)
				continue
			}
			deleting.Store(hi - 40)
			if err := w.s.DeleteRange(lo+1, hi-40); err != nil {
				fail("concurrent", "DeleteRange(%d, %d): %v", lo+1, hi-40, err)
				return
			}
			deleted.Store(hi - 40)
			if first, err := w.s.FirstIndex(); err != nil || first != hi-39 {
				fail("concurrent", "FirstIndex %d %v after DeleteRange up to %d", first, err, hi-40)
			}
			checks.Add(1)
		}
	}()
	for k := 0; k < 2; k++ {
		key := []byte([]string{"CurrentTerm", "a"}[k])
		wg.Add(1)
		go func() {
			defer wg.Done()
			for v := uint64(1); ; v++ {
				select {
				case <-end:
					return
				default:
				}
				if err := w.s.SetUint64(key, v); err != nil {
					fail("concurrent", "SetUint64: %v", err)
					return
				}
				if got, err := w.s.GetUint64(key); err != nil || got != v {
					fail("concurrent", "GetUint64(%q): %d %v, it is %d", key, got, err, v)
					return
				}
			}
		}()
	}
	next := uint64(1)
	for b := 0; b < 150; b++ {
		batch := []*hraft.Log{}
		for i := 0; i < 1+r.IntN(64); i++ {
			batch = append(batch, entry(next))
			next++
		}
		if err := w.s.StoreLogs(batch); err != nil {
			fail("concurrent", "StoreLogs: %v", err)
			break
		}
		stored.Store(next - 1)
		core.Touch()
	}
	close(end)
	wg.Wait()
	w.n["concurrent-reads"] = reads.Load()
	w.n["concurrent-deletions"] = checks.Load()
	w.n["stored"] = int64(next - 1)
	w.sig = fmt.Sprintf("concurrent %d %d", next, checks.Load())
	w.done(checks.Load() > 0)
}

// deleting is up to where entries are being deleted
var deleting atomic.Uint64
