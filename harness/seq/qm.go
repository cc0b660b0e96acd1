package seq

import (
	"fmt"
	"time"

	"github.com/dgraph-io/badger/v4"
	"github.com/dgraph-io/badger/v4/options"
	"github.com/kgantsov/doq/pkg/config"
	"github.com/kgantsov/doq/pkg/queue"
	"github.com/prometheus/client_golang/prometheus"
)

// OpenMem opens a small database in memory.
func OpenMem() *badger.DB {
	opts := badger.DefaultOptions("").WithInMemory(true).WithLogger(nil).
		WithMemTableSize(8 << 20).WithNumMemtables(1).WithNumCompactors(0).
		WithBlockCacheSize(0).WithCompression(options.None)
	db, err := badger.Open(opts)
	if err != nil {
		panic(fmt.Sprintf("harness: cannot open a database: %v", err))
	}
	return db
}

// CopyDB copies a database, as if the process had been killed now.
func CopyDB(db *badger.DB) *badger.DB {
	db2 := OpenMem()
	batch := db2.NewWriteBatch()
	err := db.View(func(txn *badger.Txn) error {
		it := txn.NewIterator(badger.DefaultIteratorOptions)
		defer it.Close()
		for it.Rewind(); it.Valid(); it.Next() {
			value, err := it.Item().ValueCopy(nil)
			if err != nil {
				return err
			}
			if err := batch.Set(it.Item().KeyCopy(nil), value); err != nil {
				return err
			}
		}
		return nil
	})
	if err == nil {
		err = batch.Flush()
	}
	if err != nil {
		panic(fmt.Sprintf("harness: cannot copy a database: %v", err))
	}
	return db2
}

// QM is the queue manager of one process, without raft.
type QM struct {
	DB  *badger.DB
	Cfg *config.Config
	Met *queue.PrometheusMetrics
	Reg *prometheus.Registry // of the metrics
	M   *queue.QueueManager
	old []func()
}

// NewQM makes a queue manager with a database of its own.
func NewQM(T, I int64, window int, met *queue.PrometheusMetrics) *QM {
	b := &QM{DB: OpenMem(), Met: met, Cfg: &config.Config{Queue: config.QueueConfig{
		AcknowledgementCheckInterval: I,
		AcknowledgementTimeout:       T,
		QueueStats:                   config.QueueStatsConfig{WindowSide: window},
	}}}
	b.Cfg.Prometheus.Enabled = met != nil
	b.M = queue.NewQueueManager(b.DB, b.Cfg, met)
	return b
}

// Metered makes a queue manager that exports metrics.
func Metered(T, I int64, window int) *QM {
	// metrics are also registered with the default registry
	prometheus.DefaultRegisterer = prometheus.NewRegistry()
	reg := prometheus.NewRegistry()
	b := NewQM(T, I, window, queue.NewPrometheusMetrics(reg, "doq", "queues"))
	b.Reg = reg
	return b
}

func (b *QM) Metrics() (map[string]map[string]float64, error) { return Gather(b.Reg) }

func (b *QM) Create(typ, name string) error { _, err := b.M.Create(typ, name); return err }
func (b *QM) Delete(name string) error      { return b.M.Delete(name) }

func (b *QM) Enqueue(q, group string, prio int64, content string, id uint64) (Msg, error) {
	qq, err := b.M.GetQueue(q)
	if err != nil {
		return Msg{}, err
	}
	m, err := qq.Enqueue(id, group, prio, content)
	if err != nil {
		return Msg{}, err
	}
	return Msg{m.ID, m.Group, m.Priority, m.Content}, nil
}

func (b *QM) Dequeue(q string, ack bool) (Msg, error) {
	qq, err := b.M.GetQueue(q)
	if err != nil {
		return Msg{}, err
	}
	m, err := qq.Dequeue(ack)
	if err != nil {
		return Msg{}, err
	}
	return Msg{m.ID, m.Group, m.Priority, m.Content}, nil
}

func (b *QM) Ack(q string, id uint64) error {
	qq, err := b.M.GetQueue(q)
	if err != nil {
		return err
	}
	return qq.Ack(id)
}

func (b *QM) Nack(q string, id uint64) error {
	qq, err := b.M.GetQueue(q)
	if err != nil {
		return err
	}
	return qq.Nack(id)
}

func (b *QM) UpdatePriority(q string, id uint64, prio int64) error {
	qq, err := b.M.GetQueue(q)
	if err != nil {
		return err
	}
	return qq.UpdatePriority(id, prio)
}

// ToInfo converts the numbers of a queue.
func ToInfo(i *queue.QueueInfo) Info {
	out := Info{Name: i.Name, Type: i.Type, Ready: i.Ready, Unacked: i.Unacked, Total: i.Total}
	if i.Stats != nil {
		out.RPS = [4]float64{i.Stats.EnqueueRPS, i.Stats.DequeueRPS, i.Stats.AckRPS, i.Stats.NackRPS}
	}
	return out
}

func (b *QM) Info(q string) (Info, error) {
	qq, err := b.M.GetQueue(q)
	if err != nil {
		return Info{}, err
	}
	return ToInfo(qq.GetStats()), nil
}

// ToInfos converts the list of queues.
// ToInfo converts the numbers of a queue.
func ToInfos(list []*queue.QueueInfo) []Info {
	out := []Info{}
	for _, i := range list {
		out = append(out, ToInfo(i))
	}
	return out
}

func (b *QM) List() ([]Info, error) { return ToInfos(b.M.GetQueues()), nil }

// Restart opens a copy of the database, and ends what served the old one.
func (b *QM) Restart(kind int) (string, bool) {
	db2 := CopyDB(b.DB)
	names := []string{}
	for _, i := range b.M.GetQueues() {
		names = append(names, i.Name)
	}
	for _, n := range names {
		b.M.Delete(n)
	}
	b.DB.Close()
	b.DB = db2
	b.M = queue.NewQueueManager(b.DB, b.Cfg, b.Met)
	if kind%3 > 0 {
		b.M.LoadQueues()
		return "queues loaded from a copy of the database", false
	}
	// queues are loaded on first use; the list has only loaded ones
	for _, n := range names {
		b.M.GetQueue(n)
	}
	return "queues loaded on first use from a copy of the database", false
}

func (b *QM) ReturnsGroup() bool   { return true }
func (b *QM) Slack() time.Duration { return 0 }
func (b *QM) NewIDs() bool         { return false }

// Close ends everything.
func (b *QM) Close() {
	for _, i := range b.M.GetQueues() {
		b.M.Delete(i.Name)
	}
	b.DB.Close()
}
