package conc

import (
	"fmt"
	"math/rand/v2"
	"sync"
	"sync/atomic"
	"time"

	"doqverif/seq"
)

// Load is what concurrent clients do.
type Load struct {
	Queues  []string
	Clients int
	Groups  int
	Updates bool
	Backend func(client int) seq.Backend
	// Pause waits before the next operations of a client, it returns false at the end
	Pause func(r *rand.Rand, round int) bool
	// Pad is appended to contents
	Pad func(r *rand.Rand) string
	// AutoAck is the number of dequeues of which one acknowledges at once
	AutoAck int
	serial  atomic.Int64
}

// Run runs the clients to their end.
func (l *Load) Run(h *History, seed uint64) {
	var wg sync.WaitGroup
	for k := 0; k < l.Clients; k++ {
		wg.Add(1)
		go func() {
			defer wg.Done()
			l.client(h, k, rand.New(rand.NewPCG(seed, uint64(k))))
		}()
	}
	wg.Wait()
}

func (l *Load) client(h *History, k int, r *rand.Rand) {
	type held struct {
		q  string
		id uint64
	}
	b := l.Backend(k)
	var mine, seen []held
	for round := 0; l.Pause(r, round); round++ {
		q := l.Queues[r.IntN(len(l.Queues))]
		for i, n := 0, 1+r.IntN(4); i < n; i++ {
			switch r.IntN(10) {
			case 0, 1, 2:
				content := fmt.Sprintf("content-%d", l.serial.Add(1))
				if l.Pad != nil {
					content += l.Pad(r)
				}
				h.Enqueue(b, k, q, fmt.Sprint("g", r.IntN(max(1, l.Groups))), int64(r.IntN(3)), content, 0)
			case 3, 4, 5:
				o := h.Dequeue(b, k, q, r.IntN(max(1, l.AutoAck)) == 0)
				if o.OK {
					x := held{q, o.ID}
					if !o.Ack {
						mine = append(mine, x)
					}
					seen = append(seen, x)
				}
			default:
				var x held
				if len(mine) > 0 && r.IntN(6) > 0 {
					i := r.IntN(len(mine))
					x = mine[i]
					if l.Updates && r.IntN(3) == 0 {
						h.Update(b, k, x.q, x.id, int64(r.IntN(4)))
						continue
					}
					mine = append(mine[:i], mine[i+1:]...)
				} else if len(seen) > 0 {
					x = seen[r.IntN(len(seen))]
				} else {
					continue
				}
				h.AckNack(b, k, []string{"ack", "ack", "nack"}[r.IntN(3)], x.q, x.id)
			}
		}
	}
}

// Until makes clients pause at random until a time.
func Until(end time.Time, pause time.Duration) func(r *rand.Rand, round int) bool {
	return func(r *rand.Rand, round int) bool {
		time.Sleep(time.Duration(r.Int64N(int64(pause))))
		return time.Now().Before(end)
	}
}
