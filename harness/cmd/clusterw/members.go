package main

import (
	"fmt"
	"math/rand/v2"
	"sort"
	"strings"
	"sync"
	"sync/atomic"
	"time"

	"doqverif/conc"
	"doqverif/core"
	"doqverif/seq"
	"doqverif/sim"

	hraft "github.com/hashicorp/raft"
)

// others returns the running nodes that do not lead
func others(c *sim.Cluster) []*sim.Node {
	l := c.Leader()
	var out []*sim.Node
	for _, n := range c.Nodes {
		if n != l && n.IsUp() {
			out = append(out, n)
		}
	}
	return out
}

// drop takes a node that is down out of the cluster
func drop(c *sim.Cluster, n *sim.Node) {
	for i := range c.Nodes {
		if c.Nodes[i] == n {
			c.Nodes = append(c.Nodes[:i:i], c.Nodes[i+1:]...)
			n.DB.Close()
			return
		}
	}
}

// members returns the configuration that a node knows
func members(n *sim.Node) (map[string]string, string) {
	f := n.N.Raft.GetConfiguration()
	if err := f.Error(); err != nil {
		return nil, err.Error()
	}
	out := map[string]string{}
	addrs := map[string]bool{}
	for _, s := range f.Configuration().Servers {
		if _, ok := out[string(s.ID)]; ok {
			return nil, fmt.Sprintf("%s is there twice: %v", s.ID, f.Configuration().Servers)
		}
		if addrs[string(s.Address)] {
			return nil, fmt.Sprintf("%s is there twice: %v", s.Address, f.Configuration().Servers)
		}
		if s.Suffrage != hraft.Voter {
			return nil, fmt.Sprintf("%s does not vote: %v", s.ID, f.Configuration().Servers)
		}
		out[string(s.ID)] = string(s.Address)
		addrs[string(s.Address)] = true
	}
	return out, ""
}

func showMembers(m map[string]string) string {
	out := []string{}
	for k, v := range m {
		out = append(out, k+"="+v)
	}
	sort.Strings(out)
	return strings.Join(out, " ")
}

// join: nodes join, join again, with new addresses and new ids
func join(a *core.Args, rep *core.Report) {
	rep.Rule = "nodes join a cluster under load: new ones, again, with another address, with another id, by asking nodes that do not lead; after each step the members that every node knows are compared with those that there must be, in the end also what they hold; the node that announced its leadership last must be the leader; non-trivial: at least five messages are compared; distinct by what the nodes hold"
	for k, v := range map[string]int64{"join-new": 150, "join-again": 60, "join-address": 40, "join-id": 40, "join-refused": 40, "announced": 300, "compared-messages": 500} {
		rep.Floor(k, v)
	}
	core.Cases(a, pick(a, 640, 12000), func(ci int) {
		align()
		r := core.Rand(a, "join", ci)
		c := sim.NewCluster(r.Uint64(), 30, 1)
		defer c.Close()
		c.IDOf = sim.IDs(r)
		var amu sync.Mutex
		announced, times := "", 0
		c.OnLeader = func(n *sim.Node, leads bool) {
			amu.Lock()
			defer amu.Unlock()
			c.Note("%s announces that it leads: %v", n.ID, leads)
			if leads {
				announced = n.ID
				times++
			}
		}
		fail := func(kind, format string, args ...any) bool {
			verdict(a, rep, ci, c, conc.Finding{Kind: kind, Msg: fmt.Sprintf(format, args...)}, nil)
			return false
		}
		c.Form(1)
		want := map[string]string{c.Nodes[0].ID: c.Nodes[0].Addr}
		fl := &faults{c: c, r: r, rep: rep, probe: "probe"}
		queues := []string{"q", "fair"}
		c.Nodes[0].N.CreateQueue("delayed", "q")
		c.Nodes[0].N.CreateQueue("fair", "fair")
		stop := make(chan struct{})
		var wg sync.WaitGroup
		var done atomic.Int64
		lock := make(chan struct{}, 1) // nodes do not come and go while it is held; a mutex would stop the virtual time
		seed := r.Uint64()
		wg.Add(1)
		go func() {
			defer wg.Done()
			r := rand.New(rand.NewPCG(seed, 5))
			for {
				select {
				case <-stop:
					return
				case <-time.After(time.Duration(r.IntN(400)) * time.Millisecond):
				}
				lock <- struct{}{}
				l := c.Leader()
				var b *sim.Backend
				if l != nil {
					b = l.Front()
				}
				<-lock
				if b == nil {
					continue
				}
				q := queues[r.IntN(2)]
				var err error
				switch x := r.IntN(10); {
				case x < 6:
					_, err = b.Enqueue(q, "g"+fmt.Sprint(r.IntN(4)), int64(r.IntN(4)), seq.Content(r, "hostile", uint64(r.IntN(1000))), 0)
				case x < 9:
					_, err = b.Dequeue(q, r.IntN(2) == 0)
				}
				if err == nil {
					done.Add(1)
				}
			}
		}()
		addr := 0
		newAddr := func(n *sim.Node) string {
			addr++
			return fmt.Sprintf("%s-a%d", n.Addr, addr)
		}
		// a join that may take more than one attempt, as the joiner does it
		try := func(n *sim.Node) error {
			var err error
			for i := 0; i < 3; i++ {
				l := c.Leader()
				if l == nil {
					err = errNoNode
					time.Sleep(5 * time.Second)
					continue
				}
				if err = l.N.Join(n.ID, n.Addr); err == nil {
					return nil
				}
				c.Note("join: %v", err)
				time.Sleep(5 * time.Second)
			}
			return err
		}
		alive := func() bool {
			if !fl.works(60 * time.Second) {
				return false
			}
			return true
		}
		step := func() (ok bool) {
			lock <- struct{}{}
			defer func() { <-lock }()
			k := r.IntN(14)
			if len(c.Nodes) < 3 && r.IntN(2) == 0 {
				k = 0
			}
			what := ""
			switch {
			case k < 3 && len(c.Nodes) < 5: // a new one
				what = "new"
				if r.IntN(3) == 0 {
					for _, n := range c.Nodes {
						n.SetTrailing(trailing)
						n.Snapshot()
					}
				}
				n := c.Add()
				n.Peers = []string{c.Nodes[0].Addr}
				n.Start()
				want[n.ID] = n.Addr
				c.Note("%s joins", n.ID)
				if err := try(n); err != nil {
					return fail("join", "%s cannot join: %v", n.ID, err)
				}
			case k < 5: // again
				what = "again"
				n := c.Nodes[r.IntN(len(c.Nodes))]
				c.Note("%s joins again", n.ID)
				if err := try(n); err != nil {
					return fail("join", "%s cannot join again: %v", n.ID, err)
				}
			case k < 7 && len(c.Nodes) >= 3: // another address
				what = "address"
				f := others(c)
				n := f[r.IntN(len(f))]
				if r.IntN(2) == 0 {
					n.Stop()
				} else {
					n.Crash()
				}
				n.Addr = newAddr(n)
				n.Peers = []string{"x"}
				n.Start()
				want[n.ID] = n.Addr
				c.Note("%s joins with the address %s", n.ID, n.Addr)
				if err := try(n); err != nil {
					return fail("join", "%s cannot join with another address: %v", n.ID, err)
				}
			case k < 9 && len(c.Nodes) >= 3: // another id
				what = "id"
				f := others(c)
				old := f[r.IntN(len(f))]
				old.Crash()
				drop(c, old)
				delete(want, old.ID)
				n := c.Add()
				n.ID = fmt.Sprintf("r%d-%s", len(c.Tr), old.ID)
				n.Addr = old.Addr
				n.Peers = []string{"x"}
				n.Start()
				want[n.ID] = n.Addr
				c.Note("%s joins in place of %s at %s", n.ID, old.ID, n.Addr)
				if err := try(n); err != nil {
					return fail("join", "%s cannot join at the address of another: %v", n.ID, err)
				}
			default:
				f := others(c)
				if len(f) == 0 {
					what = "none"
					return true
				}
				if r.IntN(2) == 0 {
					what = "transfer"
					if l := c.Leader(); l != nil {
						l.N.Raft.LeadershipTransfer().Error()
					}
				} else {
					what = "refused"
					n := f[r.IntN(len(f))]
					l := c.Leader()
					err := n.N.Join("ghost", "ghost:12000")
					if err == nil && l != nil && l == c.Leader() {
						return fail("join", "%s, which does not lead, let a node join", n.ID)
					}
				}
			}
			rep.Count("join-"+what, 1)
			return true
		}
		settle := func() bool {
			if !alive() {
				return false
			}
			until := time.Now().Add(60 * time.Second)
			bad := ""
			for time.Now().Before(until) {
				bad = ""
				for _, n := range c.Nodes {
					if !n.IsUp() {
						continue
					}
					m, err := members(n)
					if err != "" {
						bad = n.ID + " knows the members wrongly: " + err
					} else if showMembers(m) != showMembers(want) {
						bad = fmt.Sprintf("%s knows the members %s, they must be %s", n.ID, showMembers(m), showMembers(want))
					}
				}
				amu.Lock()
				if l := c.Leader(); l == nil {
					bad = "there is no leader"
				} else if announced != l.ID {
					bad = fmt.Sprintf("%s leads, but the last one to announce itself was %s", l.ID, announced)
				}
				amu.Unlock()
				if bad == "" {
					return true
				}
				time.Sleep(200 * time.Millisecond)
			}
			fl.down = "after 60 s " + bad
			return fail("members", "%s", fl.down)
		}
		ok := true
		dead := false
		for i, k := 0, 3+r.IntN(8); i < k && ok; i++ {
			ok = step()
			if ok {
				time.Sleep(time.Duration(r.IntN(3000)) * time.Millisecond)
				if !alive() {
					ok, dead = false, true
				} else {
					ok = settle()
				}
			}
		}
		close(stop)
		wg.Wait()
		if ok && !fl.heal() {
			ok, dead = false, true
		}
		if dead {
			stuck(a, rep, ci, c, "stuck", fl.down, nil)
			return
		}
		if !ok {
			return
		}
		amu.Lock()
		rep.Count("announced", int64(times))
		amu.Unlock()
		compare(a, rep, ci, c, 30, done.Load())
	})
}

// ids: the message ids of several nodes are distinct and increase
func ids(a *core.Args, rep *core.Report) {
	rep.Rule = "one to five nodes, which are restarted, join late, behind slow links and with other addresses, generate ids at the same virtual instants, and the leader accepts messages; all ids must be distinct, those of one node must increase, and messages of equal priority must come out in the order in which they were accepted; non-trivial: at least two nodes or a restart; distinct by events"
	for k, v := range map[string]int64{"ids": 500000, "simultaneous": 300, "ids-restarts": 40, "ids-slow-joins": 15, "ids-address": 8, "ids-messages": 2000, "ids-leaders": 60} {
		rep.Floor(k, v)
	}
	core.Cases(a, pick(a, 400, 8000), func(ci int) {
		align()
		r := core.Rand(a, "ids", ci)
		c := sim.NewCluster(r.Uint64(), 3600, 5)
		defer c.Close()
		c.IDOf = sim.IDs(r)
		type use struct {
			node string
			at   time.Time
		}
		seen := map[uint64]use{}
		last := map[string]uint64{}
		bad := false
		key := ""
		fail := func(kind, format string, args ...any) {
			if !bad {
				bad = true
				rep.Violate(core.Violation{Case: ci, Kind: kind, Key: key, Msg: fmt.Sprintf(format, args...), Trace: c.Tr})
			}
		}
		add := func(n *sim.Node, id uint64) {
			if u, ok := seen[id]; ok {
				fail("same id", "%s generates %d at %v, which %s generated at %v", n.ID, id, time.Now().UnixMilli(), u.node, u.at.UnixMilli())
			}
			if id <= last[n.ID] {
				fail("order", "%s generates %d after %d", n.ID, id, last[n.ID])
			}
			seen[id] = use{n.ID, time.Now()}
			last[n.ID] = id
		}
		var sig strings.Builder
		burst := func() {
			k := 1 + r.IntN(600)
			up := 0
			time.Sleep(time.Millisecond)
			var wg sync.WaitGroup
			res := map[*sim.Node][]uint64{}
			var mu sync.Mutex
			for _, n := range c.Nodes {
				if !n.IsUp() {
					continue
				}
				up++
				wg.Add(1)
				go func() {
					defer wg.Done()
					out := make([]uint64, k)
					for i := range out {
						out[i] = n.N.GenerateID()
					}
					mu.Lock()
					res[n] = out
					mu.Unlock()
				}()
			}
			wg.Wait()
			for n, out := range res {
				for _, id := range out {
					add(n, id)
				}
				rep.Count("ids", int64(len(out)))
			}
			if up > 1 {
				rep.Count("simultaneous", 1)
			}
			sig.WriteString(fmt.Sprintf("b%d.%d;", up, k))
			// at least a millisecond passes before the next ones
			time.Sleep(time.Millisecond)
		}
		var order []uint64
		fl := &faults{c: c, r: r, rep: rep, probe: "probe"}
		messages := func() {
			for i, k := 0, 1+r.IntN(30); i < k; i++ {
				l := c.Leader()
				if l == nil {
					return
				}
				if r.IntN(3) == 0 {
					time.Sleep(time.Millisecond)
				}
				m, err := l.N.Enqueue("q", "", 5, "x")
				if err != nil {
					return
				}
				add(l, m.ID)
				order = append(order, m.ID)
				rep.Count("ids-messages", 1)
			}
		}
		size := 1 + r.IntN(5)
		restarts := 0
		c.Form(size)
		if err := c.Nodes[0].N.CreateQueue("delayed", "q"); err != nil {
			panic(fmt.Sprintf("harness: %v", err))
		}
		burst()
		up := func(n *sim.Node) {
			if err := n.N.InitIDGenerator(); err != nil {
				fail("generator", "%s: %v", n.ID, err)
			}
		}
		for s, k := 0, 4+r.IntN(8); s < k && !bad; s++ {
			if !fl.works(60 * time.Second) {
				stuck(a, rep, ci, c, "stuck", fl.down, nil)
				return
			}
			messages()
			x := r.IntN(10)
			switch {
			case x < 4: // restart
				n := c.Nodes[r.IntN(len(c.Nodes))]
				if r.IntN(4) == 0 {
					n.SetTrailing(trailing)
					n.Snapshot()
				}
				if r.IntN(2) == 0 {
					n.Stop()
				} else {
					n.Crash()
				}
				if r.IntN(2) == 0 {
					time.Sleep(time.Duration(r.IntN(4000)) * time.Millisecond)
				}
				n.Start()
				c.Note("%s restarted", n.ID)
				up(n)
				restarts++
				rep.Count("ids-restarts", 1)
				sig.WriteString("r" + n.ID)
			case x < 6 && len(c.Nodes) >= 3 && len(c.Nodes) < 6: // slow join
				n := c.Add()
				n.Peers = []string{c.Nodes[0].Addr}
				n.Start()
				l := c.Leader()
				if l == nil {
					n.Crash()
					drop(c, n)
					continue
				}
				for _, o := range c.Nodes {
					c.Net.Cut(o.Addr, n.Addr, true)
				}
				if err := l.N.Join(n.ID, n.Addr); err != nil {
					rep.Inconc("case %d: join: %v", ci, err)
					return
				}
				d := time.Duration(r.IntN(12000)) * time.Millisecond
				c.Note("%s joins, cut off for %v", n.ID, d)
				time.AfterFunc(d, c.Net.Heal)
				up(n)
				rep.Count("ids-slow-joins", 1)
				sig.WriteString("s")
			case x < 8 && len(c.Nodes) >= 3: // another address
				f := others(c)
				n := f[r.IntN(len(f))]
				n.Crash()
				n.Addr = fmt.Sprintf("%s-%d", n.Addr, s)
				n.Start()
				l := c.Leader()
				if l == nil {
					continue
				}
				if err := l.N.Join(n.ID, n.Addr); err != nil {
					c.Note("join: %v", err)
					continue
				}
				c.Note("%s joins with the address %s", n.ID, n.Addr)
				up(n)
				rep.Count("ids-address", 1)
				sig.WriteString("a")
			case x < 9 && len(c.Nodes) > 1:
				if l := c.Leader(); l != nil {
					l.N.Raft.LeadershipTransfer().Error()
					c.Note("leadership of %s transferred", l.ID)
					rep.Count("ids-leaders", 1)
				}
				sig.WriteString("t")
			default:
				if len(c.Nodes) < 3 || ci%8 != 3 {
					continue
				}
				// a new node takes the place of another
				f := others(c)
				old := f[r.IntN(len(f))]
				old.Crash()
				drop(c, old)
				n := c.Add()
				n.ID = fmt.Sprintf("r%d-%s", s, old.ID)
				n.Addr = old.Addr
				n.Peers = []string{"x"}
				n.Start()
				l := c.Leader()
				if l == nil {
					continue
				}
				if err := l.N.Join(n.ID, n.Addr); err != nil {
					c.Note("join: %v", err)
					continue
				}
				c.Note("%s joins in place of %s", n.ID, old.ID)
				up(n)
				rep.Count("ids-replacements", 1)
				sig.WriteString("i")
				key = "replacement"
			}
			burst()
		}
		if !fl.heal() {
			stuck(a, rep, ci, c, "stuck", fl.down, nil)
			return
		}
		l := c.Leader()
		if l != nil && !bad {
			var got []uint64
			for {
				m, err := l.N.Dequeue("q", true)
				if err != nil {
					break
				}
				got = append(got, m.ID)
			}
			// enqueues without an answer may be there too
			i := 0
			for _, id := range got {
				if i < len(order) && order[i] == id {
					i++
				}
			}
			if i < len(order) && l == c.Leader() {
				fail("order", "the messages %v were accepted one after the other, and came out as %v", order, got)
			}
		}
		rep.Done(size > 1 || restarts > 0, sig.String(), func() any {
			return map[string]any{"case": ci, "trace": head(c.Tr, 40), "ids": len(seen), "events": sig.String()}
		})
	})
}

// bursts: one node in real time, as fast as it can
func bursts(a *core.Args, rep *core.Report) {
	rep.Rule = "many clients generate ids and enqueue at the same time, in real time; all ids are distinct and those that a client gets increase"
	rep.Floor("burst-ids", 1000000)
	rep.Floor("burst-messages", 2000)
	core.Cases(a, pick(a, 8, 100), func(ci int) {
		r := core.Rand(a, "bursts", ci)
		c := sim.NewCluster(r.Uint64(), 3600, 5)
		c.Form(1)
		defer c.Close()
		n := c.Nodes[0].N
		if err := n.CreateQueue("delayed", "q"); err != nil {
			panic(fmt.Sprintf("harness: %v", err))
		}
		var wg sync.WaitGroup
		var mu sync.Mutex
		seen := map[uint64]int{}
		bad := false
		fail := func(kind, format string, args ...any) {
			if !bad {
				bad = true
				rep.Violate(core.Violation{Case: ci, Kind: kind, Msg: fmt.Sprintf(format, args...)})
			}
		}
		msgs := map[uint64]bool{}
		for k := 0; k < 8; k++ {
			wg.Add(1)
			go func() {
				defer wg.Done()
				var out, own []uint64
				if k < 4 {
					for i := 0; i < 60000; i++ {
						out = append(out, n.GenerateID())
					}
				} else {
					for i := 0; i < 150; i++ {
						m, err := n.Enqueue("q", "", 1, "x")
						if err != nil {
							continue
						}
						own = append(own, m.ID)
						out = append(out, m.ID)
						core.Touch()
					}
				}
				mu.Lock()
				defer mu.Unlock()
				last := uint64(0)
				for _, id := range out {
					if o, ok := seen[id]; ok {
						fail("same id", "clients %d and %d get the id %d", o, k, id)
					}
					seen[id] = k
					if id <= last {
						fail("order", "client %d gets %d after %d", k, id, last)
					}
					last = id
				}
				for _, id := range own {
					msgs[id] = true
				}
				rep.Count("burst-ids", int64(len(out)))
				rep.Count("burst-messages", int64(len(own)))
			}()
		}
		wg.Wait()
		last := uint64(0)
		for len(msgs) > 0 && !bad {
			m, err := n.Dequeue("q", true)
			if err != nil {
				fail("lost", "%d messages are missing: %v", len(msgs), err)
				break
			}
			if m.ID <= last || !msgs[m.ID] {
				fail("order", "%d comes after %d", m.ID, last)
			}
			last = m.ID
			delete(msgs, m.ID)
		}
		rep.Done(true, fmt.Sprint("burst ", ci, len(seen)), func() any { return map[string]any{"ids": len(seen)} })
	})
}
