// Package profiles says which operations are generated for which property, and
// which deviations from the model refute it.
package profiles

import "doqverif/seq"

// Plan is what is run for a property.
type Plan struct {
	P          *seq.Profile
	Quick      int // cases
	Thorough   int
	Accept     func(d seq.Dev) bool
	Nontrivial func(n map[string]int64) bool
	Rule       string
	Floors     map[string]int64 // minimal counters of a quick run
	// FirstOnly says that a deviation counts only if it is the first one
	FirstOnly bool
}

// Judge returns the deviation that refutes the property, or nil.
func (pl *Plan) Judge(devs []seq.Dev) *seq.Dev {
	for i := range devs {
		if pl.Accept(devs[i]) {
			return &devs[i]
		}
		if pl.FirstOnly {
			break
		}
	}
	return nil
}

func in(kinds ...string) map[string]bool {
	m := map[string]bool{}
	for _, k := range kinds {
		m[k] = true
	}
	return m
}

func kinds(ks ...string) func(d seq.Dev) bool {
	m := in(ks...)
	return func(d seq.Dev) bool { return m[d.Kind] }
}

func tags(d seq.Dev, ts ...string) bool {
	for _, t := range ts {
		if d.Tags[t] {
			return true
		}
	}
	return false
}

func anyOf(fs ...func(d seq.Dev) bool) func(d seq.Dev) bool {
	return func(d seq.Dev) bool {
		for _, f := range fs {
			if f(d) {
				return true
			}
		}
		return false
	}
}

// Plans returns the plans by property.
func Plans() map[string]*Plan {
	timesShort := []int64{0, 1, 2, 5, 30, 60}
	times := []int64{1, 2, 5, 30, 60, 120}
	ints := []int64{1, 1, 2, 3, 5, 10}
	weights := func(over map[string]int) map[string]int {
		w := map[string]int{
			"enqueue": 20, "burst": 3, "dequeue": 25, "ack": 8, "nack": 8, "update": 8, "updunacked": 3,
			"advance": 6, "info": 3,
		}
		for k, v := range over {
			w[k] = v
		}
		return w
	}
	choice := func(n map[string]int64) bool { return n["choices"] >= 3 }
	return map[string]*Plan{
		"C01": {
			P: &seq.Profile{
				BulkRate: 60, Types: []string{"delayed"}, MaxQueues: 2, Groups: 3, Steps: [2]int{40, 250},
				T: timesShort, I: ints, Prios: []string{"ties", "small", "due", "extreme", "negative", "soon"},
				Content: "small", WildIDs: true, Restarts: true,
				W: weights(map[string]int{"restart": 1}),
			},
			Quick: 6000, Thorough: 120000,
			Accept:     anyOf(kinds(seq.KOrder, seq.KNotDue), kinds(seq.KDouble, seq.KLost, seq.KGoneBack)),
			Nontrivial: choice,
			Rule:       "random operations on delayed queues; non-trivial: at least three deliveries with two or more ready messages to choose from; distinct by the sequence of operations and results",
			Floors:     map[string]int64{"choices": 20000, "redelivered-after-nack": 500, "redelivered-after-timeout": 500, "delivered-updated": 500, "delivered-after-restart": 100},
		},
		"C02": {
			P: &seq.Profile{
				Types: []string{"delayed"}, MaxQueues: 2, Groups: 1, Steps: [2]int{40, 160},
				T: timesShort, I: ints, Prios: []string{"due", "soon", "lease", "far", "due", "extreme"},
				Content: "small", W: weights(map[string]int{"advance": 20, "update": 12, "dequeue": 35}),
			},
			Quick: 12000, Thorough: 150000,
			Accept: anyOf(kinds(seq.KEarly, seq.KNotDue), func(d seq.Dev) bool {
				return tags(d, seq.TagDue) && (d.Kind == seq.KOrder || d.Kind == seq.KLost)
			}),
			Nontrivial: func(n map[string]int64) bool { return n["delivered-scheduled"] > 0 && n["empty-not-due"] > 0 },
			Rule:       "random operations with due times around the present; non-trivial: a scheduled message was delivered and a dequeue was refused because nothing was due",
			Floors:     map[string]int64{"delivered-scheduled": 5000, "empty-not-due": 5000, "updates": 2000},
		},
		"C03": {
			P: &seq.Profile{
				BulkRate: 60, Types: []string{"fair"}, MaxQueues: 2, Groups: 7, Steps: [2]int{40, 250},
				T: timesShort, I: ints, Prios: []string{"ties", "small", "due", "extreme", "far"},
				Content: "small", WildIDs: true, W: weights(map[string]int{"dequeue": 30, "enqueue": 24}),
			},
			Quick: 6000, Thorough: 120000,
			Accept:     anyOf(kinds(seq.KFairTwice, seq.KFairOrder, seq.KFairEmpty, seq.KLost, seq.KDouble)),
			Nontrivial: func(n map[string]int64) bool { return n["passed"] >= 5 },
			Rule:       "random operations on fair queues; non-trivial: at least five times a delivery went to one group while another one waited",
			Floors:     map[string]int64{"passed": 50000, "redelivered-after-nack": 500, "redelivered-after-timeout": 500, "delivered-updated": 500},
		},
		"C04": {
			P: &seq.Profile{
				BulkRate: 60, Types: []string{"delayed", "fair"}, MaxQueues: 3, Groups: 6, Steps: [2]int{40, 200},
				T: timesShort, I: ints, Prios: []string{"ties", "small", "due", "extreme", "negative"},
				Content: "hostile", WildIDs: true, SharedIDs: false, Restarts: true,
				W: weights(map[string]int{"restart": 1, "list": 1}),
			},
			Quick: 5000, Thorough: 100000,
			Accept: anyOf(kinds(seq.KLost, seq.KInvented, seq.KContent, seq.KGroup, seq.KPrio, seq.KGoneBack, seq.KDouble,
				seq.KNotDue, seq.KFairEmpty, seq.KEnqueue, seq.KStats, seq.KUpdate, seq.KAck)),
			Nontrivial: func(n map[string]int64) bool { return n["deliveries"] >= 5 && n["leases"] > 0 },
			Rule:       "random operations on several queues of both types with a final drain; non-trivial: at least five deliveries, one of them with a lease",
			Floors:     map[string]int64{"deliveries": 50000, "redelivered-after-timeout": 500, "delivered-after-restart": 100},
		},
		"C05": {
			P: &seq.Profile{
				Types: []string{"delayed", "fair"}, MaxQueues: 2, Groups: 4, Steps: [2]int{40, 200},
				T: times, I: ints, Prios: []string{"ties", "small", "due", "lease"},
				Content: "small", W: weights(map[string]int{"dequeue": 40, "ack": 14, "advance": 10}),
			},
			Quick: 8000, Thorough: 100000,
			Accept:     anyOf(kinds(seq.KDouble, seq.KGoneBack, seq.KStats)),
			Nontrivial: func(n map[string]int64) bool { return n["leases"] >= 3 && n["acks"] > 0 },
			Rule:       "random operations; non-trivial: at least three leases and one ack",
			Floors:     map[string]int64{"leases": 20000, "acks": 5000},
		},
		"C06": {
			P: &seq.Profile{
				BulkRate: 60, Types: []string{"delayed", "fair"}, MaxQueues: 2, Groups: 4, Steps: [2]int{40, 160},
				T: []int64{0, 1, 2, 3, 5, 10, 30, 60, 120, 300}, I: ints, Prios: []string{"ties", "small", "lease", "due"},
				Content: "hostile", W: weights(map[string]int{"dequeue": 30, "updunacked": 8, "advance": 16, "info": 8, "nack": 4}),
			},
			Quick: 8000, Thorough: 120000,
			Accept: anyOf(kinds(seq.KDouble, seq.KStats, seq.KAck, seq.KNack), func(d seq.Dev) bool {
				return tags(d, seq.TagTimedOut)
			}),
			Nontrivial: func(n map[string]int64) bool { return n["timeouts"] >= 2 },
			Rule:       "random operations with many hand-outs of different age; non-trivial: at least two observed timeouts",
			Floors:     map[string]int64{"timeouts": 10000, "redelivered-after-timeout": 2000, "updates-unacked": 2000},
		},
		"C07": {
			P: &seq.Profile{
				Types: []string{"delayed", "fair"}, MaxQueues: 3, Groups: 4, Steps: [2]int{40, 200},
				T: times, I: ints, Prios: []string{"ties", "small", "due", "extreme"},
				Content: "hostile", WildIDs: true, SharedIDs: true,
				W: weights(map[string]int{"ack": 20, "nack": 20, "info": 5, "dequeue": 30, "updunacked": 5}), Lifecycle: true,
			},
			Quick: 10000, Thorough: 120000,
			Accept: anyOf(kinds(seq.KAck, seq.KNack, seq.KGoneBack, seq.KLife, seq.KStats), func(d seq.Dev) bool {
				return tags(d, seq.TagNacked) || d.Kind == seq.KLost || d.Kind == seq.KDouble
			}),
			Nontrivial: func(n map[string]int64) bool {
				return n["acks"] > 0 && n["nacks"] > 0 && n["refused-ack"]+n["refused-nack"] > 0
			},
			Rule:   "random operations with acks and nacks of ready, unacked, gone, foreign and unknown messages; non-trivial: at least one accepted ack, one accepted nack and one refusal",
			Floors: map[string]int64{"acks": 5000, "nacks": 5000, "refused-ack": 5000, "refused-nack": 5000, "redelivered-after-nack": 2000},
		},
		"C08": {
			P: &seq.Profile{
				Types: []string{"delayed", "fair"}, MaxQueues: 2, Groups: 4, Steps: [2]int{40, 200},
				T: times, I: ints, Prios: []string{"ties", "small", "due", "extreme", "lease", "soon"},
				Content: "small", WildIDs: true, Restarts: true, Lifecycle: true,
				W: weights(map[string]int{"update": 25, "updunacked": 20, "advance": 10, "restart": 1, "dequeue": 30}),
			},
			Quick: 7000, Thorough: 100000,
			Accept: anyOf(kinds(seq.KUpdate, seq.KPrio, seq.KLife, seq.KOrder, seq.KEarly, seq.KNotDue, seq.KFairOrder, seq.KDouble, seq.KAck, seq.KNack), func(d seq.Dev) bool {
				return tags(d, seq.TagUpdated)
			}),
			Nontrivial: func(n map[string]int64) bool { return n["updates"] > n["updates-unacked"] && n["updates-unacked"] > 0 },
			Rule:       "random operations with many priority changes; non-trivial: a ready and an unacked message were changed",
			Floors:     map[string]int64{"updates": 20000, "updates-unacked": 5000, "delivered-updated-while-unacked": 1000, "refused-update": 1000},
		},
		"C09": {
			P: &seq.Profile{
				Types: []string{"delayed", "fair"}, MaxQueues: 6, Names: "hostile", Groups: 3, Steps: [2]int{60, 220},
				T: times, I: ints, Prios: []string{"ties", "small", "due"},
				Content: "small", WildIDs: true, SharedIDs: true, Restarts: true, Lifecycle: true,
				W: weights(map[string]int{"update": 4, "advance": 3, "restart": 2, "create": 3, "delete": 2, "list": 2}),
			},
			Quick: 7000, Thorough: 100000,
			Accept:     func(d seq.Dev) bool { return true },
			Nontrivial: func(n map[string]int64) bool { return n["deliveries"] >= 5 },
			Rule:       "random operations on up to six queues whose names extend each other or contain separators, with the same ids in several of them; every queue is compared with a model of its own; non-trivial: at least five deliveries",
			Floors:     map[string]int64{"deliveries": 20000, "deletes": 1000, "restarts": 1000},
		},
		"C10": {
			P: &seq.Profile{
				BulkRate: 60, Types: []string{"delayed", "fair"}, MaxQueues: 3, Names: "plain", Groups: 4, Steps: [2]int{40, 160},
				T: times, I: ints, Prios: []string{"ties", "small", "due", "far"},
				Content: "small", SharedIDs: false, Restarts: true, Lifecycle: true,
				W: weights(map[string]int{"create": 8, "delete": 5, "restart": 3, "list": 4, "burst": 6, "advance": 4}),
			},
			Quick: 5000, Thorough: 100000,
			Accept: anyOf(kinds(seq.KLife, seq.KList, seq.KInvented, seq.KGoneBack), func(d seq.Dev) bool {
				return tags(d, seq.TagReborn) || d.Kind == seq.KStats || d.Kind == seq.KLost
			}),
			Nontrivial: func(n map[string]int64) bool { return n["deletes"] > 0 && n["recreated"] > 0 },
			Rule:       "random operations with creation, deletion, re-creation and reload; non-trivial: a queue was deleted and created again",
			Floors:     map[string]int64{"deletes": 5000, "recreated": 3000, "deleted-messages": 5000, "creates-existing": 3000, "unknown-queue-ops": 5000, "restarts": 1000},
		},
		"C19": {
			P: &seq.Profile{
				BulkRate: 60, Types: []string{"delayed", "fair"}, MaxQueues: 3, Names: "hostile", Groups: 4, Steps: [2]int{40, 200},
				T: times, I: ints, Prios: []string{"ties", "small", "due", "lease"},
				Content: "small", SharedIDs: true, Lifecycle: true, Stats: true,
				W: weights(map[string]int{"info": 20, "list": 5, "create": 2, "delete": 2, "advance": 16, "ack": 12, "nack": 12, "dequeue": 30}),
			},
			Quick: 6000, Thorough: 100000,
			Accept:     kinds(seq.KStats, seq.KList, seq.KRate, seq.KMetric),
			Nontrivial: func(n map[string]int64) bool { return n["rates-nonzero"] > 0 && n["gauges-nonzero"] > 0 },
			Rule:       "random operations with creation and deletion of queues while numbers, rates and metrics are compared with what happened; non-trivial: a rate and a gauge were not zero",
			Floors:     map[string]int64{"infos": 20000, "rates-nonzero": 20000, "rates-exact": 10000, "rates-expired": 5000, "counters-nonzero": 20000, "gauges-nonzero": 20000, "timeouts": 3000, "deletes": 1000},
		},
		// everything at once; only crashes and operations that do not return count
		"C21": {
			P: &seq.Profile{
				BulkRate: 60, Types: []string{"delayed", "fair"}, MaxQueues: 4, Names: "hostile", Groups: 4, Steps: [2]int{40, 300},
				T: timesShort, I: ints, Prios: []string{"ties", "small", "due", "extreme", "negative", "lease", "far"},
				Content: "hostile", WildIDs: true, SharedIDs: true, Restarts: true, Lifecycle: true, Stats: true,
				W: weights(map[string]int{"restart": 1, "create": 2, "delete": 2, "list": 1, "update": 12, "updunacked": 14, "nack": 12, "ack": 12, "advance": 8, "dequeue": 30}),
			},
			Quick: 6000, Thorough: 200000,
			Accept:     func(d seq.Dev) bool { return false },
			Nontrivial: func(n map[string]int64) bool { return n["leases"] > 0 && n["updates-unacked"] > 0 },
			Rule:       "random operations of all kinds, on queues with hostile names, extreme priorities and wild ids; nothing may panic; non-trivial: a lease and a change of an unacked message",
			Floors:     map[string]int64{"updates-unacked": 10000, "leases": 20000, "deletes": 1000, "restarts": 1000},
		},
		// through the API
		"C17": {
			P: &seq.Profile{
				Types: []string{"delayed", "fair"}, MaxQueues: 4, Names: "http", Groups: 5, Steps: [2]int{40, 140},
				T: times, I: ints, Prios: []string{"ties", "small", "due", "big"},
				Content: "hostile", Lifecycle: true, Stats: true,
				W: weights(map[string]int{"extra": 25, "list": 3, "create": 4, "delete": 3, "update": 12, "ack": 12, "nack": 12}),
			},
			Accept:     func(d seq.Dev) bool { return d.Kind != seq.KRate && d.Kind != seq.KMetric },
			Nontrivial: func(n map[string]int64) bool { return n["deliveries"] >= 5 && n["bad-requests"] >= 3 },
			Rule:       "random operations through the HTTP API of a node with raft, interleaved with invalid requests of many kinds; every answer is compared with the model; non-trivial: at least five deliveries and three invalid requests",
			Floors: map[string]int64{"bad-requests": 5000, "deliveries": 3000, "acks": 250, "nacks": 250, "updates": 1000, "refused-ack": 500, "refused-nack": 500, "conc-deliveries": 2000,
				"refused-update": 300, "unknown-queue-ops": 1000, "group-omitted": 100},
		},
		// only for nodes
		"C11": {
			P: &seq.Profile{
				BulkRate: 25, Types: []string{"delayed", "fair"}, MaxQueues: 3, Names: "hostile", Groups: 5, Steps: [2]int{40, 160},
				T: []int64{1, 2, 5, 30, 60, 120}, I: ints, Prios: []string{"ties", "small", "due", "extreme", "negative"},
				Content: "hostile", Restarts: true, Lifecycle: true,
				W: weights(map[string]int{"restart": 5, "create": 2, "delete": 2, "list": 2, "update": 8, "updunacked": 6, "ack": 12, "advance": 4}),
			},
			FirstOnly: true,
			Accept:    func(d seq.Dev) bool { return tags(d, seq.TagRestart, seq.TagReborn) || d.Kind == seq.KList },
			Nontrivial: func(n map[string]int64) bool {
				return n["restarts"] > 0 && n["delivered-after-restart"] > 0
			},
			Rule:   "random operations on a node with raft that is stopped, killed, restarted on the same data and made to take snapshots; non-trivial: something enqueued before a restart was delivered after it",
			Floors: map[string]int64{"restarts": 300, "delivered-after-restart": 500},
		},
	}
}
