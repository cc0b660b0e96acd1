package seq

import (
	"math"
	"sort"
	"testing/synctest"
	"time"

	"github.com/prometheus/client_golang/prometheus"
)

// KMetric is a deviation of exported metrics.
const KMetric = "metric"

// Meter is a backend that exports metrics.
type Meter interface {
	// Metrics returns the values of a metric by queue
	Metrics() (map[string]map[string]float64, error)
}

// count tells the model of a successful operation
func (md *Model) count(q *qmodel, op int, at time.Time) {
	q.ops[op] = append(q.ops[op], at)
	if md.totals[q.name] == nil {
		md.totals[q.name] = &[4]int64{}
	}
	md.totals[q.name][op]++
}

// rateBounds returns how many of the operations are in a window of so many
// seconds that ended within the last second.
func rateBounds(ops []time.Time, window int, t0, t1 time.Time) (lo, hi int) {
	w := time.Duration(window) * time.Second
	first, last := t0.Add(-time.Second), t1
	ends := []time.Time{first, last}
	for _, o := range ops {
		for _, d := range []time.Duration{-1, 0, 1} {
			ends = append(ends, o.Add(d), o.Add(w+d))
		}
	}
	lo = math.MaxInt
	for _, e := range ends {
		if e.Before(first) || e.After(last) {
			continue
		}
		closed, open := 0, 0
		for _, o := range ops {
			b := e.Add(-w)
			if !o.Before(b) && !o.After(e) {
				closed++
				if o.After(b) && o.Before(e) {
					open++
				}
			}
		}
		lo, hi = min(lo, open), max(hi, closed)
	}
	return
}

var opNames = [4]string{"enqueue", "dequeue", "ack", "nack"}

// checkRates compares the rates of a queue with what happened
func (md *Model) checkRates(q *qmodel, info Info, t0, t1 time.Time) {
	if md.Window == 0 {
		return
	}
	old := t0.Add(-time.Duration(md.Window+5) * time.Second)
	for i, ops := range q.ops {
		k := sort.Search(len(ops), func(k int) bool { return ops[k].After(old) })
		lo, hi := rateBounds(ops[k:], md.Window, t0, t1)
		got := info.RPS[i] * float64(md.Window)
		n := math.Round(got)
		if math.Abs(got-n) > 1e-6 || int(n) < lo || int(n) > hi {
			md.dev(KRate, q, nil, "queue %q reports %v %s operations per second in a window of %d s (that is %v), but there were %d to %d in such a window",
				q.name, info.RPS[i], opNames[i], md.Window, got, lo, hi)
		}
		md.N["rates"]++
		if hi > 0 {
			md.N["rates-nonzero"]++
		}
		if lo == hi && hi > 0 {
			md.N["rates-exact"]++
		}
		if k > 0 && hi < len(ops) {
			md.N["rates-expired"]++
		}
	}
}

// Metrics compares the exported metrics with what happened.
func (c *Case) Metrics() {
	b, ok := c.B.(Meter)
	if !ok {
		return
	}
	// let what begins at this very moment end first
	synctest.Wait()
	t0 := time.Now()
	infos, err := c.B.List()
	if err != nil {
		c.M.dev(KMetric, nil, nil, "list failed: %v", err)
		return
	}
	got, err := b.Metrics()
	t1 := time.Now()
	c.tracef("metrics")
	if err != nil {
		c.M.dev(KMetric, nil, nil, "metrics failed: %v", err)
		return
	}
	c.M.metrics(infos, got, t0, t1)
	c.note("M", true, len(got))
}

func (md *Model) metrics(infos []Info, got map[string]map[string]float64, t0, t1 time.Time) {
	for i, op := range opNames {
		name := "doq_queues_" + op + "_total"
		for q, total := range md.totals {
			// a queue that was created again may count from zero or go on
			since := int64(0)
			if m := md.queues[q]; m != nil {
				since = int64(len(m.ops[i]))
			}
			v := got[name][q]
			if v != float64(total[i]) && v != float64(since) {
				md.dev(KMetric, md.queues[q], nil, "metric %s of queue %q is %v after %d such operations", name, q, v, total[i])
			}
			md.N["counters"]++
			if total[i] > 0 {
				md.N["counters-nonzero"]++
			}
		}
		for q, v := range got[name] {
			if md.totals[q] == nil && v != 0 {
				md.dev(KMetric, nil, nil, "metric %s of queue %q is %v without such operations", name, q, v)
			}
		}
	}
	want := map[string]map[string]int64{"doq_queues_messages": {}, "doq_queues_unacked_messages": {}, "doq_queues_ready_messages": {}}
	for _, i := range infos {
		want["doq_queues_messages"][i.Name] = i.Total
		want["doq_queues_unacked_messages"][i.Name] = i.Unacked
		want["doq_queues_ready_messages"][i.Name] = i.Ready
	}
	for name, by := range want {
		for q, n := range by {
			v := got[name][q]
			if v == float64(n) {
				md.N["gauges"]++
				if n > 0 {
					md.N["gauges-nonzero"]++
				}
				continue
			}
			var ms []*message
			if m := md.queues[q]; m != nil {
				for _, x := range m.msgs {
					if x.st != stGone {
						ms = append(ms, x)
					}
				}
			}
			md.dev(KMetric, md.queues[q], ms, "metric %s of queue %q is %v instead of %d", name, q, v, n)
		}
		for q, v := range got[name] {
			if _, ok := by[q]; !ok && v != 0 {
				md.dev(KMetric, &qmodel{reborn: true}, nil, "metric %s of queue %q is %v, but there is no such queue", name, q, v)
			}
		}
	}
	md.N["metrics"]++
}

// Gather reads the metrics of a registry by queue.
func Gather(g prometheus.Gatherer) (map[string]map[string]float64, error) {
	fams, err := g.Gather()
	if err != nil {
		return nil, err
	}
	out := map[string]map[string]float64{}
	for _, f := range fams {
		by := map[string]float64{}
		for _, m := range f.GetMetric() {
			name, ok := "", false
			for _, l := range m.GetLabel() {
				if l.GetName() == "queue_name" {
					name, ok = l.GetValue(), true
				}
			}
			if !ok {
				continue
			}
			if m.GetCounter() != nil {
				by[name] += m.GetCounter().GetValue()
			} else if m.GetGauge() != nil {
				by[name] += m.GetGauge().GetValue()
			}
		}
		out[f.GetName()] = by
	}
	return out, nil
}
