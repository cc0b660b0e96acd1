package main

import (
	"fmt"
	"math/rand/v2"
	"os"
	"path/filepath"
	"runtime"
	"strings"
	"time"

	"doqverif/core"
	"doqverif/seq"
	"doqverif/sim"

	"github.com/dgraph-io/badger/v4"
	hraft "github.com/hashicorp/raft"
)

// usage is what a node stores and keeps
type usage struct {
	keys, bytes         int64
	snapshots, snapsize int64
	objects             map[string]int64
}

func (u usage) String() string {
	n := int64(0)
	for _, v := range u.objects {
		n += v
	}
	return fmt.Sprintf("%d keys, %d bytes, %d snapshots, the last has %d bytes, %d objects", u.keys, u.bytes, u.snapshots, u.snapsize, n)
}

func stored(n *sim.Node) (u usage) {
	err := n.DB.View(func(txn *badger.Txn) error {
		it := txn.NewIterator(badger.DefaultIteratorOptions)
		defer it.Close()
		for it.Rewind(); it.Valid(); it.Next() {
			u.keys++
			u.bytes += int64(len(it.Item().Key())) + it.Item().ValueSize()
		}
		return nil
	})
	if err != nil {
		panic(fmt.Sprintf("harness: %v", err))
	}
	dirs, _ := os.ReadDir(filepath.Join(n.Dir, "snapshots"))
	for _, d := range dirs {
		u.snapshots++
		if i, err := os.Stat(filepath.Join(n.Dir, "snapshots", d.Name(), "state.bin")); err == nil {
			u.snapsize = i.Size()
		}
	}
	return
}

// bounds: what a node stores and keeps does not grow with its history
func bounds(a *core.Args, rep *core.Report) {
	rep.Rule = "rounds of operations of all kinds on one or three nodes, with queues and groups that come and go, after each of which the nodes hold the same; after each round the log is compacted, and the live keys and bytes of the database, the snapshots and the objects on the heap that the code under test allocated are counted: the later rounds do not add any; also thousands of messages that pass through two queues that stay, of which few are held at once, with the bytes of memory before and after; also tens of thousands of operations with the settings of the log as they are, after which the log has been compacted, and long rest, which writes nothing; non-trivial: at least 600 messages"
	for k, v := range map[string]int64{"rounds": 60, "bounds-messages": 8000, "deleted-queues": 150, "measured-nodes": 90, "compacted-logs": 1, "passed-messages": 5000, "rests": 8, "rests-with-messages": 5, "measured-memory": 5} {
		rep.Floor(k, v)
	}
	core.Cases(a, pick(a, 16, 600), func(ci int) {
		align()
		r := core.Rand(a, "bounds", ci)
		switch ci % 8 {
		case 7:
			autoCompact(a, r, rep, ci)
		case 3:
			passing(a, r, rep, ci)
		default:
			rounds(a, r, rep, ci)
		}
	})
}

func rounds(a *core.Args, r *rand.Rand, rep *core.Report, ci int) {
	// every allocation is recorded, while that is needed
	runtime.MemProfileRate = 1
	defer func() { runtime.MemProfileRate = 0 }()
	T, I := int64(2+r.IntN(9)), 1+int64(r.IntN(2))
	size := []int{1, 1, 3}[r.IntN(3)]
	if size == 1 && r.IntN(2) == 0 {
		T = 600
	}
	c := sim.NewCluster(r.Uint64(), T, I)
	defer c.Close()
	c.Metrics = r.IntN(3) == 0
	c.Form(size)
	b := &sim.Backend{C: c, N: c.Nodes[0]}
	queues := seq.Names(r, "hostile", 2)
	for i, q := range queues {
		if err := b.Create([]string{"delayed", "fair"}[i], q); err != nil {
			rep.Inconc("case %d: create: %v", ci, err)
			return
		}
	}
	const K, first = 7, 2
	per := 100 + r.IntN(100)
	c.Note("metrics %v, %d nodes, timeout %d s", c.Metrics, len(c.Nodes), T)
	var before []usage
	for k := 0; k < K; k++ {
		round(r, rep, c, b, queues, k, per)
		time.Sleep(time.Duration(T+I+2) * time.Second)
		for _, q := range queues {
			for {
				if _, err := b.Dequeue(q, true); err != nil {
					break
				}
				core.Touch()
			}
		}
		rep.Count("rounds", 1)
		// followers get to know that the last entry is committed
		time.Sleep(3 * time.Second)
		var now []usage
		for _, n := range c.Nodes {
			n.SetTrailing(0)
			time.Sleep(5 * time.Millisecond)
			if err := n.N.Raft.Snapshot().Error(); err != nil && err != hraft.ErrNothingNewToSnapshot {
				rep.Violate(core.Violation{Case: ci, Kind: "compaction", Msg: fmt.Sprintf("the log cannot be compacted: %v", err), Trace: c.Tr})
				return
			}
			now = append(now, stored(n))
			rep.Count("measured-nodes", 1)
		}
		now[0].objects = core.Objects()
		c.Note("round %d: %v", k, now)
		if k == first {
			before = now
		}
		if k <= first {
			continue
		}
		var bad []string
		for i, u := range now {
			v := before[i]
			if u.keys > v.keys+6 {
				bad = append(bad, fmt.Sprintf("node %d stores %d keys after round %d and stored %d after round %d", i, u.keys, k, v.keys, first))
			}
			if u.bytes > v.bytes+4000 {
				bad = append(bad, fmt.Sprintf("node %d stores %d bytes after round %d and stored %d after round %d", i, u.bytes, k, v.bytes, first))
			}
			if u.snapshots > 4 {
				bad = append(bad, fmt.Sprintf("node %d has %d snapshots", i, u.snapshots))
			}
			if u.snapsize > v.snapsize+2000 {
				bad = append(bad, fmt.Sprintf("the snapshot of node %d has %d bytes after round %d and had %d after round %d", i, u.snapsize, k, v.snapsize, first))
			}
		}
		if len(bad) > 0 {
			c.Note("%s", strings.Join(keysOf(c.Nodes[0], 60), "\n"))
			rep.Violate(core.Violation{Case: ci, Kind: "storage", Msg: bad[0], Trace: append(c.Tr, bad...)})
			return
		}
		// counters of deleted queues are kept
		if k == K-1 && !c.Metrics {
			rep.Count("measured-memory", 1)
			if g := core.Grown(before[0].objects, now[0].objects, int64(12*len(c.Nodes)), "objects"); len(g) > 0 {
				rep.Violate(core.Violation{Case: ci, Kind: "memory", Msg: fmt.Sprintf("objects are kept for what is gone: %s (after rounds %d and %d)", g[0], k, first), Trace: append(c.Tr, g...)})
				return
			}
		}
	}
	// a node at rest writes nothing, whatever it holds
	runtime.MemProfileRate = 0
	if r.IntN(4) > 0 {
		for i := 0; i < 30; i++ {
			q := queues[i%2]
			b.Enqueue(q, fmt.Sprint("g", i%3), []int64{1, 2, time.Now().Unix() + 100000}[r.IntN(3)], "rests", 0)
			if r.IntN(2) == 0 {
				b.Dequeue(q, false)
			}
		}
		time.Sleep(10 * time.Second)
		rep.Count("rests-with-messages", 1)
	}
	index := c.Nodes[0].N.Raft.LastIndex()
	time.Sleep(time.Duration(20/len(c.Nodes)/len(c.Nodes)) * time.Minute)
	if d := c.Nodes[0].N.Raft.LastIndex() - index; d > 20 {
		rep.Violate(core.Violation{Case: ci, Kind: "idle", Msg: fmt.Sprintf("%d entries were written to the log in minutes of rest", d), Trace: c.Tr})
		return
	}
	rep.Count("rests", 1)
	rep.Done(true, strings.Join(c.Tr, "\n"), func() any { return map[string]any{"case": ci, "rounds": head(c.Tr, 20)} })
}

func keysOf(n *sim.Node, limit int) (out []string) {
	n.DB.View(func(txn *badger.Txn) error {
		it := txn.NewIterator(badger.DefaultIteratorOptions)
		defer it.Close()
		for it.Rewind(); it.Valid() && len(out) < limit; it.Next() {
			out = append(out, fmt.Sprintf("   stored: %.100q (%d bytes)", it.Item().Key(), it.Item().ValueSize()))
		}
		return nil
	})
	return
}

// round does everything that can be done, and leaves nothing behind
func round(r *rand.Rand, rep *core.Report, c *sim.Cluster, b *sim.Backend, queues []string, k, per int) {
	temp := map[string]bool{}
	var own []string
	for i := 0; i < 6; i++ {
		q := fmt.Sprintf("temporary-%d-%d", k, i)
		if b.Create([]string{"delayed", "fair"}[r.IntN(2)], q) == nil {
			temp[q] = true
			own = append(own, q)
		}
	}
	var held []struct {
		q  string
		id uint64
	}
	for i := 0; i < per; i++ {
		q := queues[r.IntN(2)]
		if r.IntN(3) == 0 {
			q = own[r.IntN(len(own))]
		}
		group := fmt.Sprint("g", r.IntN(4))
		if r.IntN(2) == 0 {
			group = fmt.Sprintf("group-%d-%d", k, i)
		}
		m, err := b.Enqueue(q, group, int64(r.IntN(5)), fmt.Sprintf("content of message %d of round %d %s", i, k, strings.Repeat("x", r.IntN(300))), 0)
		if err == nil {
			rep.Count("bounds-messages", 1)
			if r.IntN(6) == 0 {
				b.UpdatePriority(q, m.ID, int64(r.IntN(5)))
			}
		}
		for x := r.IntN(3); x > 0; x-- {
			if d, err := b.Dequeue(q, r.IntN(4) == 0); err == nil {
				held = append(held, struct {
					q  string
					id uint64
				}{q, d.ID})
			}
		}
		if len(held) > 0 && r.IntN(3) > 0 {
			h := held[r.IntN(len(held))]
			switch r.IntN(4) {
			case 0:
				b.Nack(h.q, h.id)
			case 1:
				b.UpdatePriority(h.q, h.id, int64(r.IntN(5)))
			default:
				b.Ack(h.q, h.id)
			}
		}
		// what is not there
		switch missing := fmt.Sprintf("missing-%d-%d", k, i); r.IntN(12) {
		case 0:
			b.Dequeue(missing, true)
		case 1:
			b.Info(missing)
		case 2:
			b.Ack(q, r.Uint64())
		case 3:
			b.UpdatePriority(q, r.Uint64(), 1)
		case 4:
			b.Delete(missing)
		case 5:
			b.Enqueue(missing, "g", 1, "x", 0)
		case 6:
			b.Create("delayed", queues[r.IntN(2)])
		case 7:
			b.List()
		case 8:
			b.Info(q)
		}
		if r.IntN(40) == 0 {
			time.Sleep(time.Duration(c.T) * time.Second)
		}
		core.Touch()
	}
	for _, q := range own {
		if err := b.Delete(q); err == nil {
			rep.Count("deleted-queues", 1)
		}
	}
}

// autoCompact: with the settings as they are, the log is compacted in time
func autoCompact(a *core.Args, r *rand.Rand, rep *core.Report, ci int) {
	c := sim.NewCluster(r.Uint64(), 30, 1)
	defer c.Close()
	c.Form(1)
	b := &sim.Backend{C: c, N: c.Nodes[0]}
	must("create", b.Create("delayed", "q"))
	n := 0
	for k := 0; k < 3; k++ {
		for i := 0; i < 8000; i++ {
			_, err := b.Enqueue("q", "g", int64(r.IntN(9)), fmt.Sprint("content-", i), 0)
			must("enqueue", err)
			_, err = b.Dequeue("q", true)
			must("dequeue", err)
			n += 2
			core.Touch()
		}
		time.Sleep(10 * time.Minute)
		u := stored(c.Nodes[0])
		c.Note("%d operations: %v", n, u)
		// what hashicorp/raft keeps for others by default, and what may come until the next check
		if u.keys > 10240+8192+200 {
			rep.Violate(core.Violation{Case: ci, Kind: "compaction", Msg: fmt.Sprintf("ten minutes after %d operations %d keys are stored, for an empty queue", n, u.keys), Trace: c.Tr})
			return
		}
	}
	rep.Count("compacted-logs", 1)
	rep.Count("bounds-messages", int64(n/2))
	rep.Done(true, strings.Join(c.Tr, "\n"), nil)
}

// passing: messages that are gone take no memory, however many there were
func passing(a *core.Args, r *rand.Rand, rep *core.Report, ci int) {
	runtime.MemProfileRate = 1
	defer func() { runtime.MemProfileRate = 0 }()
	c := sim.NewCluster(r.Uint64(), []int64{2, 600}[r.IntN(2)], 1)
	defer c.Close()
	c.Form(1)
	b := &sim.Backend{C: c, N: c.Nodes[0]}
	queues := seq.Names(r, "hostile", 2)
	for i, q := range queues {
		if err := b.Create([]string{"delayed", "fair"}[i], q); err != nil {
			rep.Inconc("case %d: create: %v", ci, err)
			return
		}
	}
	missing := 0
	pass := func(n int) {
		var held [2][]uint64
		ack := func(i int) {
			id := held[i][0]
			held[i] = held[i][1:]
			if err := b.Ack(queues[i], id); err == nil {
				rep.Count("passed-messages", 1)
			}
		}
		for k := 0; k < n; k++ {
			i := r.IntN(2)
			q := queues[i]
			m, err := b.Enqueue(q, fmt.Sprint("group-", r.IntN(5)), int64(r.IntN(4)), "passes", 0)
			if err != nil {
				continue
			}
			switch r.IntN(8) {
			case 0:
				b.UpdatePriority(q, m.ID, int64(r.IntN(4)))
			case 1:
				missing++
				b.Dequeue(fmt.Sprint("a queue that is not there ", missing), true)
			case 2:
				b.Ack(q, m.ID)
			}
			if d, err := b.Dequeue(q, r.IntN(8) == 0); err == nil && !contains(held[i], d.ID) {
				held[i] = append(held[i], d.ID)
			}
			if len(held[i]) > 5 {
				if r.IntN(4) == 0 {
					b.Nack(q, held[i][0])
					held[i] = held[i][1:]
					if d, err := b.Dequeue(q, false); err == nil {
						b.Ack(q, d.ID)
					}
				} else {
					ack(i)
				}
			}
			if k%100 == 0 {
				core.Touch()
				time.Sleep(100 * time.Millisecond)
			}
		}
		time.Sleep(5 * time.Second)
		for i, q := range queues {
			for len(held[i]) > 0 {
				ack(i)
			}
			for {
				if _, err := b.Dequeue(q, true); err != nil {
					break
				}
			}
		}
		time.Sleep(5 * time.Second)
	}
	const some, many = 1000, 4000
	pass(some)
	objects, bytes := core.Objects(), core.Bytes()
	pass(many)
	o, by := core.Objects(), core.Bytes()
	g := append(core.Grown(objects, o, 100, "objects"), core.Grown(bytes, by, 12000, "bytes")...)
	c.Note("after %d and %d messages: %d and %d bytes", some, some+many, sum(bytes), sum(by))
	if len(g) > 0 {
		rep.Violate(core.Violation{Case: ci, Kind: "memory", Msg: fmt.Sprintf("memory is kept for messages that are gone: %s (%d messages later)", g[0], many), Trace: append(c.Tr, g...)})
		return
	}
	rep.Done(true, strings.Join(c.Tr, "\n"), func() any { return map[string]any{"case": ci, "memory": c.Tr} })
}

func contains(ids []uint64, id uint64) bool {
	for _, x := range ids {
		if x == id {
			return true
		}
	}
	return false
}

func sum(m map[string]int64) (n int64) {
	for _, v := range m {
		n += v
	}
	return
}
