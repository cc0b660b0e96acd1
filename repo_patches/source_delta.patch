From 9df81095181cc57ff30c8f72b2e91492c792947c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:17:13 +0000
Subject: [PATCH 01/37] fix: delete all messages and the record of a deleted
 queue

The deletion returned after the first message and then never removed the
queue's own key, so a deleted queue came back with its messages; deleting
many messages in one transaction failed with ErrTxnTooBig.
---
 pkg/queue/badger_priority_queue.go | 28 ++++++++++++++++++++--------
 1 file changed, 20 insertions(+), 8 deletions(-)

diff --git a/pkg/queue/badger_priority_queue.go b/pkg/queue/badger_priority_queue.go
index dfec73c..199bb7d 100644
--- a/pkg/queue/badger_priority_queue.go
+++ b/pkg/queue/badger_priority_queue.go
@@ -217,21 +217,23 @@ func (bpq *BadgerPriorityQueue) Delete() error {
 		return ErrQueueNotFound
 	}
 
-	err := bpq.db.Update(func(txn *badger.Txn) error {
+	// A write batch splits itself into as many transactions as are needed,
+	// so that queues of any size can be deleted.
+	batch := bpq.db.NewWriteBatch()
+	defer batch.Cancel()
+
+	err := bpq.db.View(func(txn *badger.Txn) error {
 		opts := badger.DefaultIteratorOptions
-		opts.PrefetchValues = true
+		opts.PrefetchValues = false
 		it := txn.NewIterator(opts)
 		defer it.Close()
 
 		prefix := bpq.getMessagesPrefix()
 		for it.Seek(prefix); it.ValidForPrefix(prefix); it.Next() {
 			item := it.Item()
-			return txn.Delete(item.Key())
-		}
-
-		err := txn.Delete(bpq.GetQueueKey(bpq.config.Name))
-		if err != nil {
-			return err
+			if err := batch.Delete(item.KeyCopy(nil)); err != nil {
+				return err
+			}
 		}
 
 		return nil
@@ -240,6 +242,16 @@ func (bpq *BadgerPriorityQueue) Delete() error {
 		return err
 	}
 
+	err = batch.Delete(bpq.GetQueueKey(bpq.config.Name))
+	if err != nil {
+		return err
+	}
+
+	err = batch.Flush()
+	if err != nil {
+		return err
+	}
+
 	bpq.StopAckQueueMonitoring()
 
 	bpq.stats.Stop()
-- 
2.43.0


From 708e3a6d0b67b8a990aca8f88f0b152c55615b6d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:17:13 +0000
Subject: [PATCH 02/37] fix: do not mix up messages of queues whose names
 extend each other

The messages of queue a:b have the storage prefix of queue a, so that loading
or deleting a also loaded or deleted those of a:b.
---
 pkg/queue/badger_priority_queue.go | 6 ++++++
 pkg/queue/utils.go                 | 6 ++++++
 2 files changed, 12 insertions(+)

diff --git a/pkg/queue/badger_priority_queue.go b/pkg/queue/badger_priority_queue.go
index 199bb7d..60a1a13 100644
--- a/pkg/queue/badger_priority_queue.go
+++ b/pkg/queue/badger_priority_queue.go
@@ -231,6 +231,9 @@ func (bpq *BadgerPriorityQueue) Delete() error {
 		prefix := bpq.getMessagesPrefix()
 		for it.Seek(prefix); it.ValidForPrefix(prefix); it.Next() {
 			item := it.Item()
+			if !isMessageKey(prefix, item.Key()) {
+				continue
+			}
 			if err := batch.Delete(item.KeyCopy(nil)); err != nil {
 				return err
 			}
@@ -291,6 +294,9 @@ func (bpq *BadgerPriorityQueue) Load(queueName string, loadMessages bool) error
 			prefix := bpq.getMessagesPrefix()
 			for it.Seek(prefix); it.ValidForPrefix(prefix); it.Next() {
 				item := it.Item()
+				if !isMessageKey(prefix, item.Key()) {
+					continue
+				}
 				err := item.Value(func(val []byte) error {
 					msg, err := MessageFromBytes(val)
 					if err != nil {
diff --git a/pkg/queue/utils.go b/pkg/queue/utils.go
index fb4179c..7152c4b 100644
--- a/pkg/queue/utils.go
+++ b/pkg/queue/utils.go
@@ -6,6 +6,12 @@ func addPrefix(prefix []byte, key []byte) []byte {
 	return append(prefix, key...)
 }
 
+// isMessageKey tells a message key of the queue that owns the prefix from a key
+// of another queue whose name extends this one's after a colon ("a" and "a:b").
+func isMessageKey(prefix []byte, key []byte) bool {
+	return len(key) == len(prefix)+8
+}
+
 // Converts bytes to an integer
 func bytesToUint64(b []byte) uint64 {
 	return binary.BigEndian.Uint64(b)
-- 
2.43.0


From 95c39d9208717bdfa44360a11cf0de7de1d88c8c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:17:13 +0000
Subject: [PATCH 03/37] fix: keep a queue that was loaded from storage

GetQueue loaded a queue that was not in memory anew on every call, which lost
track of unacknowledged messages, handed the same message out again, and left
two goroutines running each time.
---
 pkg/queue/queue_manager.go | 1 +
 1 file changed, 1 insertion(+)

diff --git a/pkg/queue/queue_manager.go b/pkg/queue/queue_manager.go
index 7af8bf9..ae3ba59 100644
--- a/pkg/queue/queue_manager.go
+++ b/pkg/queue/queue_manager.go
@@ -114,6 +114,7 @@ func (qm *QueueManager) GetQueue(queueName string) (*BadgerPriorityQueue, error)
 		if err != nil {
 			return nil, ErrQueueNotFound
 		}
+		qm.queues[q.config.Name] = q
 		return q, nil
 	}
 	return q, nil
-- 
2.43.0


From 368c098b350c285da1449d43bcc3f2755e2415cf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:17:13 +0000
Subject: [PATCH 04/37] fix: requeue unacknowledged messages in the order of
 their deadlines

The queue of unacknowledged messages had the latest deadline first, so that a
message handed out later kept all earlier ones from timing out.
---
 pkg/queue/badger_priority_queue.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/pkg/queue/badger_priority_queue.go b/pkg/queue/badger_priority_queue.go
index 60a1a13..4599d23 100644
--- a/pkg/queue/badger_priority_queue.go
+++ b/pkg/queue/badger_priority_queue.go
@@ -82,7 +82,7 @@ func NewBadgerPriorityQueue(db *badger.DB, cfg *config.Config, metrics *Promethe
 	bpq := &BadgerPriorityQueue{
 		db:                db,
 		cfg:               cfg,
-		ackQueue:          NewDelayedPriorityQueue(false),
+		ackQueue:          NewDelayedPriorityQueue(true),
 		PrometheusMetrics: metrics,
 		stats:             NewQueueStats(cfg.Queue.QueueStats.WindowSide),
 	}
-- 
2.43.0


From 926d56e1873b3105e1b944121e9f0afea17a30d4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:17:13 +0000
Subject: [PATCH 05/37] fix: leave the acknowledgement deadline alone when a
 priority changes

Changing the priority of an unacknowledged message overwrote its deadline with
the priority, so that it was handed out again at once or not at all, and
changed the item outside the lock of its heap.
---
 pkg/queue/badger_priority_queue.go | 17 ++++++-----------
 1 file changed, 6 insertions(+), 11 deletions(-)

diff --git a/pkg/queue/badger_priority_queue.go b/pkg/queue/badger_priority_queue.go
index 4599d23..0eec529 100644
--- a/pkg/queue/badger_priority_queue.go
+++ b/pkg/queue/badger_priority_queue.go
@@ -475,22 +475,17 @@ func (bpq *BadgerPriorityQueue) UpdatePriority(id uint64, newPriority int64) err
 		if err != nil {
 			return err
 		}
-		err = txn.Set(bpq.GetMessagesKey(queueItem.ID), data)
-
-		if err != nil {
-			return err
-		}
-
-		queueItem.UpdatePriority(newPriority)
-
-		return nil
+		return txn.Set(bpq.GetMessagesKey(queueItem.ID), data)
 	})
 	if err != nil {
 		return err
 	}
 
-	// Update in-memory heap
-	bpq.pq.UpdatePriority(group, id, newPriority)
+	// Update in-memory heap. An unacknowledged message is not there: its item in
+	// ackQueue is ordered by its deadline, and it comes back with the stored priority
+	if bpq.pq.GetByID(group, id) != nil {
+		bpq.pq.UpdatePriority(group, id, newPriority)
+	}
 	return nil
 }
 
-- 
2.43.0


From 8882becffd4f2672e50fc48a55e53f2743badb79 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:18:01 +0000
Subject: [PATCH 06/37] fix: make queue operations atomic with the redelivery
 of timed out messages

Dequeue, Ack, Nack and UpdatePriority each move a message between the ready
heap, the unacknowledged heap and the storage in several steps. Running between
two steps, the redelivery monitor or another operation could duplicate a message
or bring back an acknowledged one. They now hold the queue's lock, as Create,
Delete and Load do.
---
 pkg/queue/badger_priority_queue.go | 64 +++++++++++++++++++++---------
 1 file changed, 45 insertions(+), 19 deletions(-)

diff --git a/pkg/queue/badger_priority_queue.go b/pkg/queue/badger_priority_queue.go
index 0eec529..f6859c3 100644
--- a/pkg/queue/badger_priority_queue.go
+++ b/pkg/queue/badger_priority_queue.go
@@ -107,6 +107,9 @@ func (bpq *BadgerPriorityQueue) Init(queueType, queueName string) error {
 }
 
 func (bpq *BadgerPriorityQueue) GetStats() *QueueInfo {
+	bpq.mu.Lock()
+	defer bpq.mu.Unlock()
+
 	return &QueueInfo{
 		Name:    bpq.config.Name,
 		Type:    bpq.config.Type,
@@ -142,29 +145,37 @@ func (bpq *BadgerPriorityQueue) monitorAckQueue() {
 	for {
 		select {
 		case <-ticker.C:
-			for {
-				item := bpq.ackQueue.Dequeue()
-				if item == nil {
-					break
-				}
+			bpq.requeueExpired()
+		case <-bpq.ackQueueMonitoringChan:
+			return
+		}
+	}
+}
 
-				message, err := bpq.GetByID(item.ID)
-				if err != nil {
-					log.Error().Err(err).Msgf("Failed to get message by ID: %d", item.ID)
-					continue
-				}
+// requeueExpired makes the messages that were not acknowledged in time available again
+func (bpq *BadgerPriorityQueue) requeueExpired() {
+	bpq.mu.Lock()
+	defer bpq.mu.Unlock()
 
-				queueItem := &Item{
-					ID:       message.ID,
-					Priority: message.Priority,
-				}
+	for {
+		item := bpq.ackQueue.Dequeue()
+		if item == nil {
+			break
+		}
 
-				bpq.pq.Enqueue(message.Group, queueItem)
-				log.Debug().Msgf("Re-enqueued message: %d", message.ID)
-			}
-		case <-bpq.ackQueueMonitoringChan:
-			return
+		message, err := bpq.GetByID(item.ID)
+		if err != nil {
+			log.Error().Err(err).Msgf("Failed to get message by ID: %d", item.ID)
+			continue
+		}
+
+		queueItem := &Item{
+			ID:       message.ID,
+			Priority: message.Priority,
 		}
+
+		bpq.pq.Enqueue(message.Group, queueItem)
+		log.Debug().Msgf("Re-enqueued message: %d", message.ID)
 	}
 }
 
@@ -322,6 +333,9 @@ func (bpq *BadgerPriorityQueue) Load(queueName string, loadMessages bool) error
 }
 
 func (bpq *BadgerPriorityQueue) Enqueue(id uint64, group string, priority int64, content string) (*Message, error) {
+	bpq.mu.Lock()
+	defer bpq.mu.Unlock()
+
 	if bpq.config.Type != "fair" {
 		group = "default"
 	}
@@ -363,6 +377,9 @@ func (bpq *BadgerPriorityQueue) Enqueue(id uint64, group string, priority int64,
 }
 
 func (bpq *BadgerPriorityQueue) Dequeue(ack bool) (*Message, error) {
+	bpq.mu.Lock()
+	defer bpq.mu.Unlock()
+
 	if bpq.pq.Len() == 0 {
 		return nil, ErrEmptyQueue
 	}
@@ -440,6 +457,9 @@ func (bpq *BadgerPriorityQueue) GetByID(id uint64) (*Message, error) {
 }
 
 func (bpq *BadgerPriorityQueue) UpdatePriority(id uint64, newPriority int64) error {
+	bpq.mu.Lock()
+	defer bpq.mu.Unlock()
+
 	group := "default"
 
 	// Update BadgerDB
@@ -490,6 +510,9 @@ func (bpq *BadgerPriorityQueue) UpdatePriority(id uint64, newPriority int64) err
 }
 
 func (bpq *BadgerPriorityQueue) Ack(id uint64) error {
+	bpq.mu.Lock()
+	defer bpq.mu.Unlock()
+
 	queueItem := bpq.ackQueue.GetByID("default", id)
 
 	if queueItem == nil {
@@ -519,6 +542,9 @@ func (bpq *BadgerPriorityQueue) Ack(id uint64) error {
 }
 
 func (bpq *BadgerPriorityQueue) Nack(id uint64) error {
+	bpq.mu.Lock()
+	defer bpq.mu.Unlock()
+
 	item := bpq.ackQueue.GetByID("default", id)
 
 	if item == nil {
-- 
2.43.0


From fd196e25111b9b047864c5a10ebf0b241ef50d51 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:18:01 +0000
Subject: [PATCH 07/37] fix: data race between the statistics window and its
 readers

---
 pkg/queue/queue_stats.go | 9 +++++++++
 1 file changed, 9 insertions(+)

diff --git a/pkg/queue/queue_stats.go b/pkg/queue/queue_stats.go
index fa32e8b..f02c286 100644
--- a/pkg/queue/queue_stats.go
+++ b/pkg/queue/queue_stats.go
@@ -1,6 +1,7 @@
 package queue
 
 import (
+	"sync"
 	"sync/atomic"
 	"time"
 )
@@ -24,6 +25,9 @@ type queueStats struct {
 	nackHistory    []uint64
 	windowSize     int
 
+	// mu protects the histories
+	mu sync.Mutex
+
 	quit chan struct{}
 }
 
@@ -75,6 +79,9 @@ func (rc *queueStats) IncrementNack() {
 }
 
 func (rc *queueStats) UpdateWindow() {
+	rc.mu.Lock()
+	defer rc.mu.Unlock()
+
 	// Shift history to the left and store current counts
 	for i := 1; i < rc.windowSize; i++ {
 		rc.enqueueHistory[i-1] = rc.enqueueHistory[i]
@@ -89,6 +96,8 @@ func (rc *queueStats) UpdateWindow() {
 }
 
 func (rc *queueStats) GetRPS() *QueueStats {
+	rc.mu.Lock()
+	defer rc.mu.Unlock()
 
 	var totalEnqueue, totalDequeue, totalAck, totalNack uint64
 
-- 
2.43.0


From da33d0b109ab233f0ada4c4a08e9d7568c08c755 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:18:01 +0000
Subject: [PATCH 08/37] fix: deleting a message from a fair queue by id

Deleting an unknown id lowered the number of messages, and deleting the last
message of a group left the empty group in the rotation, where it made Dequeue
report the queue as empty.
---
 pkg/queue/fair_priority_queue.go | 17 +++++++++++++++--
 1 file changed, 15 insertions(+), 2 deletions(-)

diff --git a/pkg/queue/fair_priority_queue.go b/pkg/queue/fair_priority_queue.go
index 3144fa0..bd18019 100644
--- a/pkg/queue/fair_priority_queue.go
+++ b/pkg/queue/fair_priority_queue.go
@@ -149,13 +149,26 @@ func (fq *FairPriorityQueue) DeleteByID(group string, id uint64) *Item {
 	fq.mu.Lock()
 	defer fq.mu.Unlock()
 
-	if _, exists := fq.queues[group]; !exists {
+	node, exists := fq.queues[group]
+	if !exists {
 		return nil
 	}
 
-	item := fq.queues[group].Queue().DeleteByID(id)
+	item := node.Queue().DeleteByID(id)
+	if item == nil {
+		return nil
+	}
 	fq.totalMessages--
 
+	// As in Dequeue, a group without messages leaves the round-robin list
+	if node.Queue().Len() == 0 {
+		if fq.currentNone == node {
+			fq.currentNone = node.next
+		}
+		fq.roundRobin.Remove(node)
+		delete(fq.queues, group)
+	}
+
 	return item
 }
 
-- 
2.43.0


From a42f5db37ce27a6aa1d5e6087e2b985fe910294e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:18:01 +0000
Subject: [PATCH 09/37] fix: a new group in a fair queue does not overtake
 waiting groups

A new group was put at the end of the list, which is before the groups at its
beginning if the rotation is somewhere inside: these waited for as long as
groups with few messages kept coming.
---
 pkg/queue/fair_priority_queue.go | 22 +++++++++++++++++++++-
 1 file changed, 21 insertions(+), 1 deletion(-)

diff --git a/pkg/queue/fair_priority_queue.go b/pkg/queue/fair_priority_queue.go
index bd18019..bec4ae2 100644
--- a/pkg/queue/fair_priority_queue.go
+++ b/pkg/queue/fair_priority_queue.go
@@ -43,6 +43,21 @@ func (l *LinkedList) Append(node *LinkedListNode) {
 	l.total++
 }
 
+// InsertBefore adds a node before a node of the list
+func (l *LinkedList) InsertBefore(node, next *LinkedListNode) {
+	node.prev = next.prev
+	node.next = next
+
+	if next.prev != nil {
+		next.prev.next = node
+	} else {
+		l.head = node
+	}
+	next.prev = node
+
+	l.total++
+}
+
 func (l *LinkedList) Remove(node *LinkedListNode) {
 	if node.prev != nil {
 		node.prev.next = node.next
@@ -92,7 +107,12 @@ func (fq *FairPriorityQueue) Enqueue(group string, item *Item) {
 		// Add group to round robin if not exists
 		node := NewLinkedListNode(group, NewPriorityQueue(true))
 		fq.queues[group] = node
-		fq.roundRobin.Append(node)
+		if fq.currentNone != nil {
+			// The new group's turn comes after those of all groups already waiting
+			fq.roundRobin.InsertBefore(node, fq.currentNone)
+		} else {
+			fq.roundRobin.Append(node)
+		}
 	}
 	heap.Push(fq.queues[group].Queue(), item)
 	fq.totalMessages++
-- 
2.43.0


From 1c8d89e28c6be67d6db938f255345f24e9dd4e14 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:18:30 +0000
Subject: [PATCH 10/37] fix: queue size gauges after deletions and
 acknowledgement timeouts

The gauges of a deleted queue kept their last values for ever, and those of a
queue whose messages timed out did not change until its next operation.
---
 pkg/queue/badger_priority_queue.go | 9 ++++++++-
 1 file changed, 8 insertions(+), 1 deletion(-)

diff --git a/pkg/queue/badger_priority_queue.go b/pkg/queue/badger_priority_queue.go
index f6859c3..f2f3e2f 100644
--- a/pkg/queue/badger_priority_queue.go
+++ b/pkg/queue/badger_priority_queue.go
@@ -157,6 +157,8 @@ func (bpq *BadgerPriorityQueue) requeueExpired() {
 	bpq.mu.Lock()
 	defer bpq.mu.Unlock()
 
+	defer bpq.updatePrometheusQueueSizes()
+
 	for {
 		item := bpq.ackQueue.Dequeue()
 		if item == nil {
@@ -270,7 +272,12 @@ func (bpq *BadgerPriorityQueue) Delete() error {
 
 	bpq.stats.Stop()
 
-	bpq.updatePrometheusQueueSizes()
+	if bpq.cfg.Prometheus.Enabled {
+		labels := prometheus.Labels{"queue_name": bpq.config.Name}
+		bpq.PrometheusMetrics.messages.Delete(labels)
+		bpq.PrometheusMetrics.unackedMessages.Delete(labels)
+		bpq.PrometheusMetrics.readyMessages.Delete(labels)
+	}
 
 	return nil
 }
-- 
2.43.0


From 748cf3b91a3f157dae742c799187dfbda3c6add4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:18:30 +0000
Subject: [PATCH 11/37] fix: delete the requested range of logs

The keys handed to the transaction were overwritten by the iterator before the
transaction was committed, so that other logs than the requested ones were
deleted.
---
 pkg/badger-store/badger_store.go | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/pkg/badger-store/badger_store.go b/pkg/badger-store/badger_store.go
index 1f867a6..673c89b 100644
--- a/pkg/badger-store/badger_store.go
+++ b/pkg/badger-store/badger_store.go
@@ -224,7 +224,9 @@ func (b *BadgerStore) DeleteRange(min, max uint64) error {
 
 		for it.Seek(minKey); it.ValidForPrefix(dbLogs); it.Next() {
 			item := it.Item()
-			k := item.Key()
+			// The transaction keeps the key until it is committed, while the
+			// iterator reuses the one returned by Key
+			k := item.KeyCopy(nil)
 			lastKey = append([]byte{}, k...)
 
 			if bytesToUint64(k[len(dbLogs):]) > max {
-- 
2.43.0


From c66193c6f486329a88fc3a1f8dcf8f45e65009ba Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:18:30 +0000
Subject: [PATCH 12/37] fix: store batches of logs that exceed the size of a
 transaction

Raft hands over up to 64 logs at a time. If together they exceeded the limit of
a transaction, storing them failed and the leader stepped down.
---
 pkg/badger-store/badger_store.go | 13 +++++++++++--
 1 file changed, 11 insertions(+), 2 deletions(-)

diff --git a/pkg/badger-store/badger_store.go b/pkg/badger-store/badger_store.go
index 673c89b..d9ea946 100644
--- a/pkg/badger-store/badger_store.go
+++ b/pkg/badger-store/badger_store.go
@@ -188,7 +188,7 @@ func (b *BadgerStore) StoreLogs(logs []*raft.Log) error {
 	log.Debug().Msgf("Storing logs: %+v", logs)
 
 	txn := b.db.NewTransaction(true)
-	defer txn.Discard()
+	defer func() { txn.Discard() }()
 
 	for _, log := range logs {
 		key := uint64ToBytes(log.Index)
@@ -197,7 +197,16 @@ func (b *BadgerStore) StoreLogs(logs []*raft.Log) error {
 			return err
 		}
 
-		if err := txn.Set(addPrefix(dbLogs, key), val.Bytes()); err != nil {
+		err = txn.Set(addPrefix(dbLogs, key), val.Bytes())
+		if err == badger.ErrTxnTooBig {
+			// Continue in another transaction, which keeps the logs gapless
+			if err := txn.Commit(); err != nil {
+				return err
+			}
+			txn = b.db.NewTransaction(true)
+			err = txn.Set(addPrefix(dbLogs, key), val.Bytes())
+		}
+		if err != nil {
 			return err
 		}
 	}
-- 
2.43.0


From 5fe1934d51a9e99ec9d5b4ebd41b597b572111bf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:18:30 +0000
Subject: [PATCH 13/37] fix: do not take another node for oneself if its host
 name is longer

With more than ten nodes doq-1 took doq-10 for itself.
---
 pkg/cluster/cluster.go | 9 ++++++++-
 1 file changed, 8 insertions(+), 1 deletion(-)

diff --git a/pkg/cluster/cluster.go b/pkg/cluster/cluster.go
index 75561c9..be79e7c 100644
--- a/pkg/cluster/cluster.go
+++ b/pkg/cluster/cluster.go
@@ -64,7 +64,7 @@ func (c *Cluster) Init() error {
 	for _, addr := range addrs {
 		log.Debug().Msgf("Discovered address: %s Current host: %s", addr, c.hostname)
 
-		if strings.HasPrefix(addr, c.hostname) {
+		if isAddrOfHost(addr, c.hostname) {
 			c.nodeID = addr
 		} else {
 			c.hosts = append(c.hosts, addr)
@@ -89,6 +89,13 @@ func (c *Cluster) Init() error {
 	return nil
 }
 
+// isAddrOfHost tells if an address is that of the host, which must be followed
+// by the port or by a domain: doq-1 has not the address doq-10:8000
+func isAddrOfHost(addr, hostname string) bool {
+	rest, ok := strings.CutPrefix(addr, hostname)
+	return ok && (rest == "" || rest[0] == ':' || rest[0] == '.')
+}
+
 func (c *Cluster) InitKubeClient() error {
 	config, err := c.inClusterConfigFunc()
 	if err != nil {
-- 
2.43.0


From df0cfa09dff6eff926377fa855117df8e5b9cbe1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:18:59 +0000
Subject: [PATCH 14/37] fix: leadership changes without an address or a
 kubernetes client

A failed lookup of the node's own address published an endpoint without an
address, and without a kubernetes client becoming leader crashed the node.
---
 pkg/cluster/cluster.go | 8 +++++++-
 1 file changed, 7 insertions(+), 1 deletion(-)

diff --git a/pkg/cluster/cluster.go b/pkg/cluster/cluster.go
index be79e7c..d5a2067 100644
--- a/pkg/cluster/cluster.go
+++ b/pkg/cluster/cluster.go
@@ -126,9 +126,11 @@ func (c *Cluster) LeaderChanged(isLeader bool) {
 	if isLeader {
 		ip, err := c.serviceDiscovery.IP()
 		if err != nil {
+			// Keep the last known address
 			log.Error().Msgf("Couldn't lookup the IP: %v\n", err)
+		} else {
+			c.ip = ip
 		}
-		c.ip = ip
 
 		log.Info().Msgf("Leader changed, updating EndpointSlice with IP: %s\n", c.ip)
 
@@ -140,6 +142,10 @@ func (c *Cluster) LeaderChanged(isLeader bool) {
 }
 
 func (c *Cluster) UpdateServiceEndpointSlice() error {
+	if c.clientset == nil {
+		return fmt.Errorf("there is no kubernetes client")
+	}
+
 	err := c.clientset.DiscoveryV1().EndpointSlices(c.namespace).Delete(
 		context.TODO(), c.serviceName, metav1.DeleteOptions{},
 	)
-- 
2.43.0


From c0440610d9813c137d5bf823fab0154291a46f59 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:20:00 +0000
Subject: [PATCH 15/37] fix: data race on the known leader, and a leader known
 a second late

Leader returned what a goroutine noted down once a second, without any
synchronisation, and so a former leader or none for up to a second.
---
 pkg/raft/node.go | 14 ++++++++++----
 1 file changed, 10 insertions(+), 4 deletions(-)

diff --git a/pkg/raft/node.go b/pkg/raft/node.go
index 4155827..54a81c5 100644
--- a/pkg/raft/node.go
+++ b/pkg/raft/node.go
@@ -32,7 +32,6 @@ type Node struct {
 
 	Raft         *raft.Raft
 	QueueManager *queue.QueueManager
-	leader       string
 
 	leaderChangeFn func(bool)
 
@@ -150,10 +149,12 @@ func (node *Node) InitIDGenerator() error {
 func (node *Node) monitorLeadership() {
 	log.Debug().Msgf("Node %s Monitoring leadership for node %s", node.id, node.id)
 
+	leader := ""
+
 	for {
 		leaderAddr, _ := node.Raft.LeaderWithID()
-		if string(leaderAddr) != node.leader {
-			node.leader = string(leaderAddr)
+		if string(leaderAddr) != leader {
+			leader = string(leaderAddr)
 			log.Info().Msgf("Node %s leader is now %s", node.id, leaderAddr)
 		}
 		time.Sleep(1 * time.Second)
@@ -167,7 +168,12 @@ func (node *Node) ListenToLeaderChanges() {
 }
 
 func (n *Node) Leader() string {
-	u, _ := url.ParseRequestURI(fmt.Sprintf("http://%s", n.leader))
+	leaderAddr, _ := n.Raft.LeaderWithID()
+
+	u, err := url.ParseRequestURI(fmt.Sprintf("http://%s", leaderAddr))
+	if err != nil {
+		return ""
+	}
 
 	return u.Hostname()
 }
-- 
2.43.0


From a48aeb322348f5c1f91f06d9b6d61723ddd0e89d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:20:21 +0000
Subject: [PATCH 16/37] fix: announce the leadership of a newly bootstrapped
 node

The first leadership event was consumed while waiting for it, so that the
service endpoint was not published before the leader changed.
---
 pkg/raft/node.go | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/pkg/raft/node.go b/pkg/raft/node.go
index 54a81c5..735f2a2 100644
--- a/pkg/raft/node.go
+++ b/pkg/raft/node.go
@@ -285,6 +285,11 @@ func (n *Node) createRaftNode(nodeID, raftDir, raftPort string, queueManager *qu
 		for isLeader := range r.LeaderCh() {
 			if isLeader {
 				log.Info().Msgf("Node %s has become a leader", nodeID)
+				// ListenToLeaderChanges does not get this event. A node that is about
+				// to join other nodes will not stay the leader.
+				if len(n.peers) == 0 {
+					n.leaderChangeFn(true)
+				}
 			} else {
 				log.Info().Msgf("Node %s lost leadership", nodeID)
 			}
-- 
2.43.0


From a6339d8c53974f484ec4898d1cfb015344afc838 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:21:53 +0000
Subject: [PATCH 17/37] fix: do not forward HTTP requests without a leader or
 in circles

While no leader was known, a node forwarded requests to itself, again and again,
and two nodes that took each other for the leader sent them to and fro.
---
 pkg/http/proxy.go   | 28 +++++++++++++++++++++-------
 pkg/http/service.go |  9 +++++++++
 2 files changed, 30 insertions(+), 7 deletions(-)

diff --git a/pkg/http/proxy.go b/pkg/http/proxy.go
index d1053b5..3f8b7dd 100644
--- a/pkg/http/proxy.go
+++ b/pkg/http/proxy.go
@@ -31,6 +31,20 @@ func (p *Proxy) getHost(host string) string {
 	return fmt.Sprintf("http://%s", host)
 }
 
+// forwardedHeader marks requests that were forwarded by another node
+const forwardedHeader = "X-Doq-Forwarded"
+
+// do sends a request to the leader
+func (p *Proxy) do(req *http.Request) (*http.Response, error) {
+	if req.URL.Hostname() == "" {
+		return nil, fmt.Errorf("there is no known leader")
+	}
+
+	req.Header.Set(forwardedHeader, "1")
+
+	return p.client.Do(req)
+}
+
 func (p *Proxy) CreateQueue(
 	ctx context.Context, host string, body *CreateQueueInputBody,
 ) (*CreateQueueOutputBody, huma.StatusError) {
@@ -51,7 +65,7 @@ func (p *Proxy) CreateQueue(
 	req.Header.Set("Content-Type", "application/json")
 	req.Header.Set("Accept", "application/json")
 
-	resp, err := p.client.Do(req)
+	resp, err := p.do(req)
 	if err != nil {
 		return nil, huma.Error503ServiceUnavailable("Failed to proxy create queue request", err)
 	}
@@ -85,7 +99,7 @@ func (p *Proxy) DeleteQueue(
 	req.Header.Set("Content-Type", "application/json")
 	req.Header.Set("Accept", "application/json")
 
-	resp, err := p.client.Do(req)
+	resp, err := p.do(req)
 	if err != nil {
 		return nil, huma.Error503ServiceUnavailable("Failed to proxy delete queue request", err)
 	}
@@ -120,7 +134,7 @@ func (p *Proxy) Enqueue(ctx context.Context, host string, queueName string, body
 	req.Header.Set("Content-Type", "application/json")
 	req.Header.Set("Accept", "application/json")
 
-	resp, err := p.client.Do(req)
+	resp, err := p.do(req)
 	if err != nil {
 		return nil, huma.Error503ServiceUnavailable("Failed to proxy enqueue request", err)
 	}
@@ -159,7 +173,7 @@ func (p *Proxy) Dequeue(
 	req.Header.Set("Content-Type", "application/json")
 	req.Header.Set("Accept", "application/json")
 
-	resp, err := p.client.Do(req)
+	resp, err := p.do(req)
 	if err != nil {
 		return nil, huma.Error503ServiceUnavailable("Failed to proxy enqueue request", err)
 	}
@@ -196,7 +210,7 @@ func (p *Proxy) Ack(
 	req.Header.Set("Content-Type", "application/json")
 	req.Header.Set("Accept", "application/json")
 
-	resp, err := p.client.Do(req)
+	resp, err := p.do(req)
 	if err != nil {
 		return nil, huma.Error503ServiceUnavailable("Failed to proxy ack request", err)
 	}
@@ -234,7 +248,7 @@ func (p *Proxy) Nack(
 	req.Header.Set("Content-Type", "application/json")
 	req.Header.Set("Accept", "application/json")
 
-	resp, err := p.client.Do(req)
+	resp, err := p.do(req)
 	if err != nil {
 		return nil, huma.Error503ServiceUnavailable("Failed to proxy nack request", err)
 	}
@@ -281,7 +295,7 @@ func (p *Proxy) UpdatePriority(
 	req.Header.Set("Content-Type", "application/json")
 	req.Header.Set("Accept", "application/json")
 
-	resp, err := p.client.Do(req)
+	resp, err := p.do(req)
 	if err != nil {
 		return nil, huma.Error503ServiceUnavailable("Failed to proxy enqueue request", err)
 	}
diff --git a/pkg/http/service.go b/pkg/http/service.go
index dddf255..e6f097c 100644
--- a/pkg/http/service.go
+++ b/pkg/http/service.go
@@ -126,6 +126,15 @@ func (h *Handler) ConfigureMiddleware(router *fiber.App) {
 
 	router.Get("/service/metrics", monitor.New())
 	router.Use(recover.New())
+
+	// A forwarded request is not forwarded again: the node that sent it here
+	// is mistaken about the leader, and so might be this one
+	router.Use(func(c *fiber.Ctx) error {
+		if c.Get(forwardedHeader) != "" && !h.node.IsLeader() {
+			return fiber.NewError(fiber.StatusServiceUnavailable, "not the leader")
+		}
+		return c.Next()
+	})
 }
 
 func (h *Handler) RegisterRoutes(api huma.API) {
-- 
2.43.0


From 3b8c7cc56c080547eef87bf46d7b9db9f2c82771 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:21:55 +0000
Subject: [PATCH 18/37] fix: never send a forwarded dequeue twice

The HTTP client repeats GET requests on its own if a reused connection breaks
before the response, which dequeued two messages and lost the first.
---
 pkg/http/proxy.go | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/pkg/http/proxy.go b/pkg/http/proxy.go
index 3f8b7dd..f09067b 100644
--- a/pkg/http/proxy.go
+++ b/pkg/http/proxy.go
@@ -5,7 +5,9 @@ import (
 	"context"
 	"encoding/json"
 	"fmt"
+	"io"
 	"net/http"
+	"strings"
 
 	"github.com/danielgtaylor/huma/v2"
 	"github.com/rs/zerolog/log"
@@ -165,7 +167,9 @@ func (p *Proxy) Dequeue(
 			queueName,
 			fmt.Sprint(ack),
 		),
-		nil,
+		// With a body, even if empty, the client does not send the request again
+		// by itself if the connection breaks: it would dequeue another message
+		io.NopCloser(strings.NewReader("")),
 	)
 	if err != nil {
 		return nil, huma.Error400BadRequest("Failed to create a request", err)
-- 
2.43.0


From 35ac82010a74af01a3b84d8fc462c9da0db4da12 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:22:24 +0000
Subject: [PATCH 19/37] fix: decode and encode the names of queues in paths

A queue whose name has to be encoded in a path could be created but not used:
the encoded form was taken for the name. Forwarding added another encoding in
some cases, so that the same request meant different queues on different nodes.
---
 pkg/http/messages.go | 31 +++++++++++++++++++++++--------
 pkg/http/proxy.go    | 13 +++++++------
 pkg/http/queues.go   | 23 ++++++++++++++++++++---
 3 files changed, 50 insertions(+), 17 deletions(-)

diff --git a/pkg/http/messages.go b/pkg/http/messages.go
index 3513439..d2d1890 100644
--- a/pkg/http/messages.go
+++ b/pkg/http/messages.go
@@ -19,7 +19,10 @@ type (
 )
 
 func (h *Handler) Enqueue(ctx context.Context, input *EnqueueInput) (*EnqueueOutput, error) {
-	queueName := input.QueueName
+	queueName, err := unescapeQueueName(input.QueueName)
+	if err != nil {
+		return nil, err
+	}
 	group := input.Body.Group
 	priority := input.Body.Priority
 	content := input.Body.Content
@@ -58,7 +61,10 @@ func (h *Handler) Enqueue(ctx context.Context, input *EnqueueInput) (*EnqueueOut
 }
 
 func (h *Handler) Dequeue(ctx context.Context, input *DequeueInput) (*DequeueOutput, error) {
-	queueName := input.QueueName
+	queueName, err := unescapeQueueName(input.QueueName)
+	if err != nil {
+		return nil, err
+	}
 
 	if !h.node.IsLeader() {
 		respBody, err := h.proxy.Dequeue(ctx, h.node.Leader(), queueName, input.Ack)
@@ -92,7 +98,10 @@ func (h *Handler) Dequeue(ctx context.Context, input *DequeueInput) (*DequeueOut
 }
 
 func (h *Handler) Ack(ctx context.Context, input *AckInput) (*AckOutput, error) {
-	queueName := input.QueueName
+	queueName, err := unescapeQueueName(input.QueueName)
+	if err != nil {
+		return nil, err
+	}
 
 	if !h.node.IsLeader() {
 		respBody, err := h.proxy.Ack(ctx, h.node.Leader(), queueName, input.ID)
@@ -106,7 +115,7 @@ func (h *Handler) Ack(ctx context.Context, input *AckInput) (*AckOutput, error)
 		return res, nil
 	}
 
-	err := h.node.Ack(queueName, input.ID)
+	err = h.node.Ack(queueName, input.ID)
 
 	if err != nil {
 		return nil, huma.Error400BadRequest("Failed to ack a message from a queue", err)
@@ -124,7 +133,10 @@ func (h *Handler) Ack(ctx context.Context, input *AckInput) (*AckOutput, error)
 }
 
 func (h *Handler) Nack(ctx context.Context, input *NackInput) (*NackOutput, error) {
-	queueName := input.QueueName
+	queueName, err := unescapeQueueName(input.QueueName)
+	if err != nil {
+		return nil, err
+	}
 
 	if !h.node.IsLeader() {
 		respBody, err := h.proxy.Nack(ctx, h.node.Leader(), queueName, input.ID)
@@ -138,7 +150,7 @@ func (h *Handler) Nack(ctx context.Context, input *NackInput) (*NackOutput, erro
 		return res, nil
 	}
 
-	err := h.node.Nack(queueName, input.ID)
+	err = h.node.Nack(queueName, input.ID)
 
 	if err != nil {
 		return nil, huma.Error400BadRequest("Failed to nack a message from a queue", err)
@@ -156,7 +168,10 @@ func (h *Handler) Nack(ctx context.Context, input *NackInput) (*NackOutput, erro
 }
 
 func (h *Handler) UpdatePriority(ctx context.Context, input *UpdatePriorityInput) (*UpdatePriorityOutput, error) {
-	queueName := input.QueueName
+	queueName, err := unescapeQueueName(input.QueueName)
+	if err != nil {
+		return nil, err
+	}
 	priority := input.Body.Priority
 
 	if !h.node.IsLeader() {
@@ -174,7 +189,7 @@ func (h *Handler) UpdatePriority(ctx context.Context, input *UpdatePriorityInput
 		return res, nil
 	}
 
-	err := h.node.UpdatePriority(queueName, input.ID, priority)
+	err = h.node.UpdatePriority(queueName, input.ID, priority)
 
 	if err != nil {
 		return nil, huma.Error409Conflict("Failed to update priority a message", err)
diff --git a/pkg/http/proxy.go b/pkg/http/proxy.go
index f09067b..6c5e2d1 100644
--- a/pkg/http/proxy.go
+++ b/pkg/http/proxy.go
@@ -7,6 +7,7 @@ import (
 	"fmt"
 	"io"
 	"net/http"
+	"net/url"
 	"strings"
 
 	"github.com/danielgtaylor/huma/v2"
@@ -92,7 +93,7 @@ func (p *Proxy) DeleteQueue(
 ) (*DeleteQueueOutputBody, huma.StatusError) {
 	req, err := http.NewRequest(
 		"DELETE",
-		fmt.Sprintf("%s/API/v1/queues/%s", p.getHost(host), queueName),
+		fmt.Sprintf("%s/API/v1/queues/%s", p.getHost(host), url.PathEscape(queueName)),
 		nil,
 	)
 	if err != nil {
@@ -127,7 +128,7 @@ func (p *Proxy) Enqueue(ctx context.Context, host string, queueName string, body
 
 	req, err := http.NewRequest(
 		"POST",
-		fmt.Sprintf("%s/API/v1/queues/%s/messages", p.getHost(host), queueName),
+		fmt.Sprintf("%s/API/v1/queues/%s/messages", p.getHost(host), url.PathEscape(queueName)),
 		bytes.NewBuffer(bodyB),
 	)
 	if err != nil {
@@ -164,7 +165,7 @@ func (p *Proxy) Dequeue(
 		fmt.Sprintf(
 			"%s/API/v1/queues/%s/messages?ack=%s",
 			p.getHost(host),
-			queueName,
+			url.PathEscape(queueName),
 			fmt.Sprint(ack),
 		),
 		// With a body, even if empty, the client does not send the request again
@@ -204,7 +205,7 @@ func (p *Proxy) Ack(
 	req, err := http.NewRequest(
 		"POST",
 		fmt.Sprintf(
-			"%s/API/v1/queues/%s/messages/%d/ack", p.getHost(host), queueName, id,
+			"%s/API/v1/queues/%s/messages/%d/ack", p.getHost(host), url.PathEscape(queueName), id,
 		),
 		nil,
 	)
@@ -242,7 +243,7 @@ func (p *Proxy) Nack(
 	req, err := http.NewRequest(
 		"POST",
 		fmt.Sprintf(
-			"%s/API/v1/queues/%s/messages/%d/nack", p.getHost(host), queueName, id,
+			"%s/API/v1/queues/%s/messages/%d/nack", p.getHost(host), url.PathEscape(queueName), id,
 		),
 		nil,
 	)
@@ -288,7 +289,7 @@ func (p *Proxy) UpdatePriority(
 		fmt.Sprintf(
 			"%s/API/v1/queues/%s/messages/%d/priority",
 			p.getHost(host),
-			queueName,
+			url.PathEscape(queueName),
 			id,
 		),
 		bytes.NewBuffer(bodyB),
diff --git a/pkg/http/queues.go b/pkg/http/queues.go
index ba9822b..857f40f 100644
--- a/pkg/http/queues.go
+++ b/pkg/http/queues.go
@@ -3,6 +3,7 @@ package http
 import (
 	"context"
 	"net/http"
+	"net/url"
 
 	"github.com/danielgtaylor/huma/v2"
 )
@@ -43,7 +44,10 @@ func (h *Handler) CreateQueue(ctx context.Context, input *CreateQueueInput) (*Cr
 }
 
 func (h *Handler) DeleteQueue(ctx context.Context, input *DeleteQueueInput) (*DeleteQueueOutput, error) {
-	queueName := input.QueueName
+	queueName, err := unescapeQueueName(input.QueueName)
+	if err != nil {
+		return nil, err
+	}
 
 	if !h.node.IsLeader() {
 		respBody, err := h.proxy.DeleteQueue(ctx, h.node.Leader(), queueName)
@@ -57,7 +61,7 @@ func (h *Handler) DeleteQueue(ctx context.Context, input *DeleteQueueInput) (*De
 		return res, nil
 	}
 
-	err := h.node.DeleteQueue(queueName)
+	err = h.node.DeleteQueue(queueName)
 
 	if err != nil {
 		return nil, huma.Error400BadRequest("Failed to dequeue a message from a queue", err)
@@ -102,7 +106,10 @@ func (h *Handler) Queues(ctx context.Context, input *QueuesInput) (*QueuesOutput
 }
 
 func (h *Handler) QueueInfo(ctx context.Context, input *QueueInfoInput) (*QueueInfoOutput, error) {
-	queueName := input.QueueName
+	queueName, err := unescapeQueueName(input.QueueName)
+	if err != nil {
+		return nil, err
+	}
 
 	queueInfo, err := h.node.GetQueueInfo(queueName)
 
@@ -127,3 +134,13 @@ func (h *Handler) QueueInfo(ctx context.Context, input *QueueInfoInput) (*QueueI
 
 	return res, nil
 }
+
+// unescapeQueueName decodes the name of a queue as given in a path
+func unescapeQueueName(pathName string) (string, error) {
+	queueName, err := url.PathUnescape(pathName)
+	if err != nil {
+		return "", huma.Error400BadRequest("Failed to decode the name of a queue", err)
+	}
+
+	return queueName, nil
+}
-- 
2.43.0


From b1501e398df6e9caf1634fde7b5d4fc7276c2ecc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:23:01 +0000
Subject: [PATCH 20/37] fix: gRPC forwarding by several goroutines, without a
 leader and in circles

The first concurrent requests to a follower could find the leader noted but no
client yet, and crashed the node; requests during a change could go to the former
leader. While no leader was known, or two nodes took each other for it, requests
were forwarded again and again.
---
 pkg/grpc/proxy.go | 117 +++++++++++++++++++++++++++++++++-------------
 1 file changed, 84 insertions(+), 33 deletions(-)

diff --git a/pkg/grpc/proxy.go b/pkg/grpc/proxy.go
index 24d9172..ebbe30c 100644
--- a/pkg/grpc/proxy.go
+++ b/pkg/grpc/proxy.go
@@ -3,102 +3,153 @@ package grpc
 import (
 	"context"
 	"fmt"
+	"sync"
 
 	pb "github.com/kgantsov/doq/pkg/proto"
 	"github.com/rs/zerolog/log"
 	"google.golang.org/grpc"
+	"google.golang.org/grpc/codes"
+	"google.golang.org/grpc/metadata"
+	"google.golang.org/grpc/status"
 )
 
+// forwardedKey marks the metadata of requests that were forwarded by another node
+const forwardedKey = "doq-forwarded"
+
 type GRPCProxy struct {
 	client pb.DOQClient
 	leader string
 	port   int
+
+	// clients of all nodes that have been the leader
+	clients map[string]pb.DOQClient
+
+	// mu protects client, leader and clients
+	mu sync.Mutex
 }
 
 func NewGRPCProxy(client pb.DOQClient, port int) *GRPCProxy {
 	return &GRPCProxy{
-		client: client,
-		port:   port,
+		client:  client,
+		port:    port,
+		clients: make(map[string]pb.DOQClient),
 	}
 }
 
-func (p *GRPCProxy) initClient(leader string) {
-	p.leader = leader
+// getClient returns a client of the leader, and the context of a forwarded request
+func (p *GRPCProxy) getClient(ctx context.Context, leader string) (pb.DOQClient, context.Context, error) {
+	if md, ok := metadata.FromIncomingContext(ctx); ok && len(md.Get(forwardedKey)) > 0 {
+		// A forwarded request is not forwarded again: the node that sent it here
+		// is mistaken about the leader, and so might be this one
+		return nil, nil, status.Error(codes.Unavailable, "not the leader")
+	}
 
-	host := leader
+	if leader == "" {
+		return nil, nil, status.Error(codes.Unavailable, "there is no known leader")
+	}
 
-	if p.port != 0 {
-		host = fmt.Sprintf("%s:%d", host, p.port)
+	p.mu.Lock()
+	defer p.mu.Unlock()
+
+	if p.leader != leader {
+		if err := p.initClient(leader); err != nil {
+			return nil, nil, err
+		}
 	}
 
-	conn, err := grpc.Dial(host, grpc.WithInsecure())
-	if err != nil {
-		log.Fatal().Msgf("Failed to connect: %v", err)
+	return p.client, metadata.AppendToOutgoingContext(ctx, forwardedKey, "1"), nil
+}
+
+func (p *GRPCProxy) initClient(leader string) error {
+	client, ok := p.clients[leader]
+	if !ok {
+		host := leader
+
+		if p.port != 0 {
+			host = fmt.Sprintf("%s:%d", host, p.port)
+		}
+
+		conn, err := grpc.Dial(host, grpc.WithInsecure())
+		if err != nil {
+			return status.Errorf(codes.Unavailable, "failed to connect: %v", err)
+		}
+
+		client = pb.NewDOQClient(conn)
+		p.clients[leader] = client
 	}
-	// defer conn.Close()
 
-	p.client = pb.NewDOQClient(conn)
+	p.client = client
+	p.leader = leader
+
+	return nil
 }
 
 func (p *GRPCProxy) CreateQueue(ctx context.Context, host string, req *pb.CreateQueueRequest) (*pb.CreateQueueResponse, error) {
 	log.Debug().Msgf("PROXY CreateQueue: %+v to the leader node: %s", req, host)
 
-	if p.leader != host {
-		p.initClient(host)
+	client, ctx, err := p.getClient(ctx, host)
+	if err != nil {
+		return nil, err
 	}
-	return p.client.CreateQueue(ctx, req)
+	return client.CreateQueue(ctx, req)
 }
 
 func (p *GRPCProxy) DeleteQueue(ctx context.Context, host string, req *pb.DeleteQueueRequest) (*pb.DeleteQueueResponse, error) {
 	log.Debug().Msgf("PROXY DeleteQueue: %+v to the leader node: %s", req, host)
 
-	if p.leader != host {
-		p.initClient(host)
+	client, ctx, err := p.getClient(ctx, host)
+	if err != nil {
+		return nil, err
 	}
-	return p.client.DeleteQueue(ctx, req)
+	return client.DeleteQueue(ctx, req)
 }
 
 func (p *GRPCProxy) Enqueue(ctx context.Context, host string, req *pb.EnqueueRequest) (*pb.EnqueueResponse, error) {
 	log.Debug().Msgf("PROXY Enqueue: %+v to the leader node: %s", req, host)
 
-	if p.leader != host {
-		p.initClient(host)
+	client, ctx, err := p.getClient(ctx, host)
+	if err != nil {
+		return nil, err
 	}
-	return p.client.Enqueue(ctx, req)
+	return client.Enqueue(ctx, req)
 }
 
 func (p *GRPCProxy) Dequeue(ctx context.Context, host string, req *pb.DequeueRequest) (*pb.DequeueResponse, error) {
 	log.Debug().Msgf("PROXY Dequeue: %+v to the leader node: %s", req, host)
 
-	if p.leader != host {
-		p.initClient(host)
+	client, ctx, err := p.getClient(ctx, host)
+	if err != nil {
+		return nil, err
 	}
-	return p.client.Dequeue(ctx, req)
+	return client.Dequeue(ctx, req)
 }
 
 func (p *GRPCProxy) Ack(ctx context.Context, host string, req *pb.AckRequest) (*pb.AckResponse, error) {
 	log.Debug().Msgf("PROXY Ack: %+v to the leader node: %s", req, host)
 
-	if p.leader != host {
-		p.initClient(host)
+	client, ctx, err := p.getClient(ctx, host)
+	if err != nil {
+		return nil, err
 	}
-	return p.client.Ack(ctx, req)
+	return client.Ack(ctx, req)
 }
 
 func (p *GRPCProxy) Nack(ctx context.Context, host string, req *pb.NackRequest) (*pb.NackResponse, error) {
 	log.Debug().Msgf("PROXY Nack: %+v to the leader node: %s", req, host)
 
-	if p.leader != host {
-		p.initClient(host)
+	client, ctx, err := p.getClient(ctx, host)
+	if err != nil {
+		return nil, err
 	}
-	return p.client.Nack(ctx, req)
+	return client.Nack(ctx, req)
 }
 
 func (p *GRPCProxy) UpdatePriority(ctx context.Context, host string, req *pb.UpdatePriorityRequest) (*pb.UpdatePriorityResponse, error) {
 	log.Debug().Msgf("PROXY UpdatePriority: %+v to the leader node: %s", req, host)
 
-	if p.leader != host {
-		p.initClient(host)
+	client, ctx, err := p.getClient(ctx, host)
+	if err != nil {
+		return nil, err
 	}
-	return p.client.UpdatePriority(ctx, req)
+	return client.UpdatePriority(ctx, req)
 }
-- 
2.43.0


From f20a1d144d0acc6a0b8605ed1cffc30afc7262af Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:25:14 +0000
Subject: [PATCH 21/37] fix: nodes disagreed on delayed messages and
 acknowledgement timeouts

Applying a dequeue command, every node looked at its own clock to see whether a
message was due, and made unacknowledged messages available again by its own
timer. Nodes that were a little behind, or that applied the log again after a
restart, took different messages than the leader did, so that after a change of
leader messages were lost or delivered again. The time now comes from the log,
and the leader puts a command into it when acknowledgement timeouts have passed.
---
 pkg/queue/badger_priority_queue.go  | 27 ++++++++++++----
 pkg/queue/delayed_priority_queue.go | 19 ++++++++++-
 pkg/queue/fair_priority_queue.go    |  6 ++++
 pkg/queue/queue.go                  |  3 ++
 pkg/queue/queue_manager.go          | 24 +++++++++++---
 pkg/raft/commands.go                | 27 ++++++++++++++++
 pkg/raft/fsm.go                     | 50 +++++++++++++++++++++++++++--
 pkg/raft/node.go                    |  6 ++++
 8 files changed, 147 insertions(+), 15 deletions(-)

diff --git a/pkg/queue/badger_priority_queue.go b/pkg/queue/badger_priority_queue.go
index f2f3e2f..34fe3f0 100644
--- a/pkg/queue/badger_priority_queue.go
+++ b/pkg/queue/badger_priority_queue.go
@@ -74,7 +74,11 @@ type BadgerPriorityQueue struct {
 
 	ackQueueMonitoringChan chan struct{}
 
-	ackQueue Queue
+	ackQueue *DelayedPriorityQueue
+
+	// expiredFn is called by the monitor when acknowledgement timeouts have
+	// passed. If it is not set, the monitor itself requeues the messages.
+	expiredFn func(queueName string)
 }
 
 func NewBadgerPriorityQueue(db *badger.DB, cfg *config.Config, metrics *PrometheusMetrics) *BadgerPriorityQueue {
@@ -145,22 +149,26 @@ func (bpq *BadgerPriorityQueue) monitorAckQueue() {
 	for {
 		select {
 		case <-ticker.C:
-			bpq.requeueExpired()
+			if bpq.expiredFn == nil {
+				bpq.RequeueExpired(time.Now())
+			} else if bpq.ackQueue.IsDue(time.Now()) {
+				bpq.expiredFn(bpq.config.Name)
+			}
 		case <-bpq.ackQueueMonitoringChan:
 			return
 		}
 	}
 }
 
-// requeueExpired makes the messages that were not acknowledged in time available again
-func (bpq *BadgerPriorityQueue) requeueExpired() {
+// RequeueExpired makes the messages that were not acknowledged in time available again
+func (bpq *BadgerPriorityQueue) RequeueExpired(now time.Time) {
 	bpq.mu.Lock()
 	defer bpq.mu.Unlock()
 
 	defer bpq.updatePrometheusQueueSizes()
 
 	for {
-		item := bpq.ackQueue.Dequeue()
+		item := bpq.ackQueue.DequeueAt(now)
 		if item == nil {
 			break
 		}
@@ -384,6 +392,11 @@ func (bpq *BadgerPriorityQueue) Enqueue(id uint64, group string, priority int64,
 }
 
 func (bpq *BadgerPriorityQueue) Dequeue(ack bool) (*Message, error) {
+	return bpq.DequeueAt(ack, time.Now())
+}
+
+// DequeueAt is Dequeue as of the given time
+func (bpq *BadgerPriorityQueue) DequeueAt(ack bool, now time.Time) (*Message, error) {
 	bpq.mu.Lock()
 	defer bpq.mu.Unlock()
 
@@ -391,7 +404,7 @@ func (bpq *BadgerPriorityQueue) Dequeue(ack bool) (*Message, error) {
 		return nil, ErrEmptyQueue
 	}
 
-	queueItem := bpq.pq.Dequeue()
+	queueItem := bpq.pq.DequeueAt(now)
 	if queueItem == nil {
 		return nil, ErrEmptyQueue
 	}
@@ -419,7 +432,7 @@ func (bpq *BadgerPriorityQueue) Dequeue(ack bool) (*Message, error) {
 				"default",
 				&Item{
 					ID: queueItem.ID,
-					Priority: time.Now().UTC().Add(
+					Priority: now.UTC().Add(
 						time.Duration(bpq.cfg.Queue.AcknowledgementTimeout) * time.Second,
 					).Unix(),
 				},
diff --git a/pkg/queue/delayed_priority_queue.go b/pkg/queue/delayed_priority_queue.go
index 659be46..c45af1c 100644
--- a/pkg/queue/delayed_priority_queue.go
+++ b/pkg/queue/delayed_priority_queue.go
@@ -25,6 +25,11 @@ func (pq *DelayedPriorityQueue) Enqueue(group string, item *Item) {
 }
 
 func (pq *DelayedPriorityQueue) Dequeue() *Item {
+	return pq.DequeueAt(time.Now())
+}
+
+// DequeueAt is Dequeue as of the given time
+func (pq *DelayedPriorityQueue) DequeueAt(now time.Time) *Item {
 	pq.mu.Lock()
 	defer pq.mu.Unlock()
 
@@ -34,7 +39,7 @@ func (pq *DelayedPriorityQueue) Dequeue() *Item {
 
 	queueItem := pq.queue.Peek().(*Item)
 
-	if int64(queueItem.Priority) > time.Now().UTC().Unix() {
+	if int64(queueItem.Priority) > now.UTC().Unix() {
 		// Delayed message handling
 		// If a priority is in the future, return nil
 		return nil
@@ -43,6 +48,18 @@ func (pq *DelayedPriorityQueue) Dequeue() *Item {
 	return heap.Pop(pq.queue).(*Item)
 }
 
+// IsDue tells if DequeueAt would return an item
+func (pq *DelayedPriorityQueue) IsDue(now time.Time) bool {
+	pq.mu.RLock()
+	defer pq.mu.RUnlock()
+
+	if pq.queue.Len() == 0 {
+		return false
+	}
+
+	return pq.queue.Peek().(*Item).Priority <= now.UTC().Unix()
+}
+
 func (pq *DelayedPriorityQueue) GetByID(group string, id uint64) *Item {
 	pq.mu.RLock()
 	defer pq.mu.RUnlock()
diff --git a/pkg/queue/fair_priority_queue.go b/pkg/queue/fair_priority_queue.go
index bec4ae2..6b126b0 100644
--- a/pkg/queue/fair_priority_queue.go
+++ b/pkg/queue/fair_priority_queue.go
@@ -3,6 +3,7 @@ package queue
 import (
 	"container/heap"
 	"sync"
+	"time"
 )
 
 type LinkedListNode struct {
@@ -154,6 +155,11 @@ func (fq *FairPriorityQueue) Dequeue() *Item {
 	return item
 }
 
+// DequeueAt is Dequeue, the messages of a fair queue are not delayed
+func (fq *FairPriorityQueue) DequeueAt(now time.Time) *Item {
+	return fq.Dequeue()
+}
+
 func (fq *FairPriorityQueue) GetByID(group string, id uint64) *Item {
 	fq.mu.RLock()
 	defer fq.mu.RUnlock()
diff --git a/pkg/queue/queue.go b/pkg/queue/queue.go
index 9eb1900..d278d20 100644
--- a/pkg/queue/queue.go
+++ b/pkg/queue/queue.go
@@ -1,8 +1,11 @@
 package queue
 
+import "time"
+
 type Queue interface {
 	Enqueue(group string, item *Item)
 	Dequeue() *Item
+	DequeueAt(now time.Time) *Item
 	GetByID(group string, id uint64) *Item
 	DeleteByID(group string, id uint64) *Item
 	UpdatePriority(group string, id uint64, priority int64)
diff --git a/pkg/queue/queue_manager.go b/pkg/queue/queue_manager.go
index ae3ba59..c14867e 100644
--- a/pkg/queue/queue_manager.go
+++ b/pkg/queue/queue_manager.go
@@ -20,6 +20,8 @@ type QueueManager struct {
 
 	queues map[string]*BadgerPriorityQueue
 	mu     sync.Mutex
+
+	expiredFn func(queueName string)
 }
 
 func NewQueueManager(db *badger.DB, cfg *config.Config, metrics *PrometheusMetrics) *QueueManager {
@@ -31,6 +33,20 @@ func NewQueueManager(db *badger.DB, cfg *config.Config, metrics *PrometheusMetri
 	}
 }
 
+// SetExpiredFunc sets the function that queues call when acknowledgement
+// timeouts have passed, instead of requeueing the messages themselves. It has
+// to see to it that RequeueExpired is called. It must be set before any use.
+func (qm *QueueManager) SetExpiredFunc(expiredFn func(queueName string)) {
+	qm.expiredFn = expiredFn
+}
+
+func (qm *QueueManager) newQueue() *BadgerPriorityQueue {
+	q := NewBadgerPriorityQueue(qm.db, qm.config, qm.PrometheusMetrics)
+	q.expiredFn = qm.expiredFn
+
+	return q
+}
+
 func (qm *QueueManager) LoadQueues() {
 	prefix := []byte("queues:")
 	err := qm.db.View(func(txn *badger.Txn) error {
@@ -46,7 +62,7 @@ func (qm *QueueManager) LoadQueues() {
 
 			log.Debug().Msgf("Loading queue: %s", queueName)
 
-			q := NewBadgerPriorityQueue(qm.db, qm.config, qm.PrometheusMetrics)
+			q := qm.newQueue()
 			err := q.Load(queueName, true)
 			if err != nil {
 				log.Error().Err(err).Str("queue", queueName).Msg("Failed to load queue")
@@ -71,7 +87,7 @@ func (qm *QueueManager) Create(queueType, queueName string) (*BadgerPriorityQueu
 		return q, nil
 	}
 
-	q = NewBadgerPriorityQueue(qm.db, qm.config, qm.PrometheusMetrics)
+	q = qm.newQueue()
 	err := q.Create(queueType, queueName)
 
 	if err != nil {
@@ -89,7 +105,7 @@ func (qm *QueueManager) Delete(queueName string) error {
 
 	q, ok := qm.queues[queueName]
 	if !ok {
-		q = NewBadgerPriorityQueue(qm.db, qm.config, qm.PrometheusMetrics)
+		q = qm.newQueue()
 		q.Load(queueName, false)
 	}
 
@@ -109,7 +125,7 @@ func (qm *QueueManager) GetQueue(queueName string) (*BadgerPriorityQueue, error)
 
 	q, ok := qm.queues[queueName]
 	if !ok {
-		q = NewBadgerPriorityQueue(qm.db, qm.config, qm.PrometheusMetrics)
+		q = qm.newQueue()
 		err := q.Load(queueName, true)
 		if err != nil {
 			return nil, ErrQueueNotFound
diff --git a/pkg/raft/commands.go b/pkg/raft/commands.go
index 28b65ec..e9fbf76 100644
--- a/pkg/raft/commands.go
+++ b/pkg/raft/commands.go
@@ -4,7 +4,9 @@ import (
 	"encoding/json"
 	"time"
 
+	"github.com/hashicorp/raft"
 	"github.com/kgantsov/doq/pkg/queue"
+	"github.com/rs/zerolog/log"
 )
 
 func (n *Node) Enqueue(
@@ -74,6 +76,31 @@ func (n *Node) Dequeue(QueueName string, ack bool) (*queue.Message, error) {
 	}, nil
 }
 
+// requeueExpired is called when acknowledgement timeouts of a queue have passed.
+// Only the leader can do something about it.
+func (n *Node) requeueExpired(queueName string) {
+	r := n.expiryRaft.Load()
+	if r == nil || r.State() != raft.Leader {
+		return
+	}
+
+	cmd := Command{
+		Op: "requeueExpired",
+		Payload: RequeueExpiredPayload{
+			QueueName: queueName,
+		},
+	}
+	data, err := json.Marshal(cmd)
+	if err != nil {
+		log.Warn().Err(err).Msg("failed to requeue messages")
+		return
+	}
+
+	if err := r.Apply(data, 5*time.Second).Error(); err != nil {
+		log.Warn().Err(err).Msg("failed to requeue messages")
+	}
+}
+
 func (n *Node) Ack(QueueName string, id uint64) error {
 	cmd := Command{
 		Op: "ack",
diff --git a/pkg/raft/fsm.go b/pkg/raft/fsm.go
index ca337fb..e9b2711 100644
--- a/pkg/raft/fsm.go
+++ b/pkg/raft/fsm.go
@@ -5,6 +5,7 @@ import (
 	"fmt"
 	"io"
 	"sync"
+	"time"
 
 	"github.com/hashicorp/raft"
 	"github.com/kgantsov/doq/pkg/config"
@@ -36,6 +37,13 @@ type DequeuePayload struct {
 	Ack       bool   `json:"ack"`
 }
 
+// RequeueExpiredPayload makes messages available again that were not acknowledged
+// in time. It is a command, because nodes whose timers did that by themselves
+// would differ in which messages are ready when the next command is applied.
+type RequeueExpiredPayload struct {
+	QueueName string `json:"queue_name"`
+}
+
 type AckPayload struct {
 	QueueName string `json:"queue_name"`
 	ID        uint64 `json:"id"`
@@ -86,6 +94,12 @@ func (c *Command) UnmarshalJSON(data []byte) error {
 			return err
 		}
 		c.Payload = payload
+	case "requeueExpired":
+		var payload RequeueExpiredPayload
+		if err := json.Unmarshal(temp.Payload, &payload); err != nil {
+			return err
+		}
+		c.Payload = payload
 	case "ack":
 		var payload AckPayload
 		if err := json.Unmarshal(temp.Payload, &payload); err != nil {
@@ -165,6 +179,13 @@ func (f *FSM) Apply(raftLog *raft.Log) interface{} {
 
 	log.Debug().Msgf("Node [%s] Received a command: %+v", f.NodeID, c)
 
+	// All nodes take the time of a command from the log, so that they agree on
+	// which messages are due and which acknowledgement timeouts have passed
+	now := raftLog.AppendedAt
+	if now.IsZero() {
+		now = time.Now()
+	}
+
 	switch c.Op {
 	case "enqueue":
 		payload, ok := c.Payload.(EnqueuePayload)
@@ -177,7 +198,13 @@ func (f *FSM) Apply(raftLog *raft.Log) interface{} {
 		if !ok {
 			return &FSMResponse{error: fmt.Errorf("Failed to decode payload: %v %v", c, c.Payload)}
 		}
-		return f.dequeueApply(payload)
+		return f.dequeueApply(payload, now)
+	case "requeueExpired":
+		payload, ok := c.Payload.(RequeueExpiredPayload)
+		if !ok {
+			return &FSMResponse{error: fmt.Errorf("Failed to decode payload: %v", c.Payload)}
+		}
+		return f.requeueExpiredApply(payload, now)
 	case "ack":
 		payload, ok := c.Payload.(AckPayload)
 		if !ok {
@@ -243,7 +270,7 @@ func (f *FSM) enqueueApply(payload EnqueuePayload) *FSMResponse {
 	}
 }
 
-func (f *FSM) dequeueApply(payload DequeuePayload) *FSMResponse {
+func (f *FSM) dequeueApply(payload DequeuePayload, now time.Time) *FSMResponse {
 	q, err := f.queueManager.GetQueue(payload.QueueName)
 	if err != nil {
 		return &FSMResponse{
@@ -252,7 +279,7 @@ func (f *FSM) dequeueApply(payload DequeuePayload) *FSMResponse {
 		}
 	}
 
-	msg, err := q.Dequeue(payload.Ack)
+	msg, err := q.DequeueAt(payload.Ack, now)
 
 	log.Debug().Msgf("Node %s Dequeued a message: %+v %v", f.NodeID, msg, err)
 
@@ -279,6 +306,23 @@ func (f *FSM) dequeueApply(payload DequeuePayload) *FSMResponse {
 	}
 }
 
+func (f *FSM) requeueExpiredApply(payload RequeueExpiredPayload, now time.Time) *FSMResponse {
+	q, err := f.queueManager.GetQueue(payload.QueueName)
+	if err != nil {
+		return &FSMResponse{
+			QueueName: payload.QueueName,
+			error:     fmt.Errorf("Failed to get a queue: %s", payload.QueueName),
+		}
+	}
+
+	q.RequeueExpired(now)
+
+	return &FSMResponse{
+		QueueName: payload.QueueName,
+		error:     nil,
+	}
+}
+
 func (f *FSM) ackApply(payload AckPayload) *FSMResponse {
 	q, err := f.queueManager.GetQueue(payload.QueueName)
 	if err != nil {
diff --git a/pkg/raft/node.go b/pkg/raft/node.go
index 735f2a2..09dcb4e 100644
--- a/pkg/raft/node.go
+++ b/pkg/raft/node.go
@@ -5,6 +5,7 @@ import (
 	"net/url"
 	"os"
 	"sort"
+	"sync/atomic"
 	"time"
 
 	"github.com/bwmarrin/snowflake"
@@ -33,6 +34,9 @@ type Node struct {
 	Raft         *raft.Raft
 	QueueManager *queue.QueueManager
 
+	// expiryRaft is Raft for the queues, which are running before it is set
+	expiryRaft atomic.Pointer[raft.Raft]
+
 	leaderChangeFn func(bool)
 
 	peers []string
@@ -89,6 +93,7 @@ func (node *Node) Initialize() {
 		promRegistry.Register(collectors.NewGoCollector())
 	}
 	queueManager := queue.NewQueueManager(node.db, node.cfg, prometheusMetrics)
+	queueManager.SetExpiredFunc(node.requeueExpired)
 
 	os.MkdirAll(node.raftDir, 0700)
 
@@ -98,6 +103,7 @@ func (node *Node) Initialize() {
 	}
 
 	node.Raft = raftNode
+	node.expiryRaft.Store(raftNode)
 	node.QueueManager = queueManager
 
 	idGenerator, err := snowflake.NewNode(1)
-- 
2.43.0


From 6f9e7cbda5dbbaeda28fd7c4f963cf03f3a2e32d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:26:06 +0000
Subject: [PATCH 22/37] fix: lost and repeated messages after the log was
 truncated

Snapshots were empty and restoring one did nothing, but raft discards the log up
to a snapshot. A node that restarted after that had all unacknowledged messages
ready again and applied the end of the log a second time to queues that it had
led to already: it lost messages, or had them twice. A node that joined late, or
was behind, did not get the earlier messages at all. Snapshots now contain the
queues, and a node starts from the snapshot and the log only.
---
 pkg/queue/badger_priority_queue.go |   9 +-
 pkg/queue/snapshot.go              | 305 +++++++++++++++++++++++++++++
 pkg/raft/fsm.go                    |  20 +-
 pkg/raft/node.go                   |  10 +
 4 files changed, 329 insertions(+), 15 deletions(-)
 create mode 100644 pkg/queue/snapshot.go

diff --git a/pkg/queue/badger_priority_queue.go b/pkg/queue/badger_priority_queue.go
index 34fe3f0..dbcc0d1 100644
--- a/pkg/queue/badger_priority_queue.go
+++ b/pkg/queue/badger_priority_queue.go
@@ -276,6 +276,13 @@ func (bpq *BadgerPriorityQueue) Delete() error {
 		return err
 	}
 
+	bpq.stop()
+
+	return nil
+}
+
+// stop ends the background activities of the queue
+func (bpq *BadgerPriorityQueue) stop() {
 	bpq.StopAckQueueMonitoring()
 
 	bpq.stats.Stop()
@@ -286,8 +293,6 @@ func (bpq *BadgerPriorityQueue) Delete() error {
 		bpq.PrometheusMetrics.unackedMessages.Delete(labels)
 		bpq.PrometheusMetrics.readyMessages.Delete(labels)
 	}
-
-	return nil
 }
 
 func (bpq *BadgerPriorityQueue) Load(queueName string, loadMessages bool) error {
diff --git a/pkg/queue/snapshot.go b/pkg/queue/snapshot.go
new file mode 100644
index 0000000..b940f14
--- /dev/null
+++ b/pkg/queue/snapshot.go
@@ -0,0 +1,305 @@
+package queue
+
+import (
+	"encoding/json"
+	"errors"
+	"fmt"
+	"io"
+	"sort"
+
+	"github.com/dgraph-io/badger/v4"
+)
+
+// UnackedMessage is a message waiting to be acknowledged
+type UnackedMessage struct {
+	ID       uint64
+	Deadline int64
+}
+
+// queueState is the state of a queue, except for its messages
+type queueState struct {
+	Name    string
+	Type    string
+	Unacked []UnackedMessage
+
+	// Rotation of the groups of a fair queue. Current is the index of the
+	// next one, or -1.
+	Groups  []string
+	Current int
+}
+
+// snapshotRecord is either the beginning of a snapshot, the beginning of a
+// queue or a message of the last queue
+type snapshotRecord struct {
+	Version int         `json:",omitempty"`
+	Queue   *queueState `json:",omitempty"`
+	Message *Message    `json:",omitempty"`
+}
+
+// Snapshot is the state of all queues at one moment
+type Snapshot struct {
+	txn    *badger.Txn
+	queues []*queueState
+}
+
+// Snapshot takes a snapshot of all queues. No operation may be running. The
+// snapshot must be released.
+func (qm *QueueManager) Snapshot() *Snapshot {
+	qm.mu.Lock()
+	defer qm.mu.Unlock()
+
+	s := &Snapshot{txn: qm.db.NewTransaction(false)}
+
+	for _, q := range qm.queues {
+		s.queues = append(s.queues, q.state())
+	}
+
+	sort.Slice(s.queues, func(i, j int) bool {
+		return s.queues[i].Name < s.queues[j].Name
+	})
+
+	return s
+}
+
+// Release ends the use of the snapshot
+func (s *Snapshot) Release() {
+	s.txn.Discard()
+}
+
+// Write writes the snapshot
+func (s *Snapshot) Write(w io.Writer) error {
+	enc := json.NewEncoder(w)
+
+	if err := enc.Encode(&snapshotRecord{Version: 1}); err != nil {
+		return err
+	}
+
+	for _, state := range s.queues {
+		if err := enc.Encode(&snapshotRecord{Queue: state}); err != nil {
+			return err
+		}
+
+		err := forEachMessage(s.txn, state.Name, func(msg *Message) error {
+			return enc.Encode(&snapshotRecord{Message: msg})
+		})
+		if err != nil {
+			return err
+		}
+	}
+
+	return nil
+}
+
+// Restore replaces all queues with those of a snapshot
+func (qm *QueueManager) Restore(r io.Reader) error {
+	dec := json.NewDecoder(r)
+
+	var first snapshotRecord
+	if err := dec.Decode(&first); err == io.EOF {
+		// Former versions wrote empty snapshots, and relied on what is stored
+		qm.LoadQueues()
+		return nil
+	} else if err != nil {
+		return err
+	} else if first.Version != 1 {
+		return fmt.Errorf("unknown version of a snapshot: %d", first.Version)
+	}
+
+	if err := qm.Reset(); err != nil {
+		return err
+	}
+
+	qm.mu.Lock()
+	defer qm.mu.Unlock()
+
+	batch := qm.db.NewWriteBatch()
+	defer func() { batch.Cancel() }()
+
+	var q *BadgerPriorityQueue
+	states := make([]*queueState, 0)
+
+	for {
+		var record snapshotRecord
+		if err := dec.Decode(&record); err == io.EOF {
+			break
+		} else if err != nil {
+			return err
+		}
+
+		switch {
+		case record.Queue != nil:
+			states = append(states, record.Queue)
+
+			q = qm.newQueue()
+			q.config = &QueueConfig{Name: record.Queue.Name, Type: record.Queue.Type}
+
+			data, err := q.config.ToBytes()
+			if err != nil {
+				return err
+			}
+			if err := batch.Set(q.GetQueueKey(q.config.Name), data); err != nil {
+				return err
+			}
+		case record.Message != nil && q != nil:
+			data, err := record.Message.ToBytes()
+			if err != nil {
+				return err
+			}
+			if err := batch.Set(q.GetMessagesKey(record.Message.ID), data); err != nil {
+				return err
+			}
+		default:
+			return errors.New("invalid record in a snapshot")
+		}
+	}
+
+	if err := batch.Flush(); err != nil {
+		return err
+	}
+
+	for _, state := range states {
+		q := qm.newQueue()
+		if err := q.restore(state); err != nil {
+			return err
+		}
+		qm.queues[state.Name] = q
+	}
+
+	return nil
+}
+
+// Reset removes all queues, both from memory and from the storage
+func (qm *QueueManager) Reset() error {
+	qm.mu.Lock()
+	defer qm.mu.Unlock()
+
+	for name, q := range qm.queues {
+		q.stop()
+		delete(qm.queues, name)
+	}
+
+	batch := qm.db.NewWriteBatch()
+	defer batch.Cancel()
+
+	err := qm.db.View(func(txn *badger.Txn) error {
+		opts := badger.DefaultIteratorOptions
+		opts.PrefetchValues = false
+		it := txn.NewIterator(opts)
+		defer it.Close()
+
+		for _, prefix := range [][]byte{[]byte("messages:"), []byte("queues:")} {
+			for it.Seek(prefix); it.ValidForPrefix(prefix); it.Next() {
+				if err := batch.Delete(it.Item().KeyCopy(nil)); err != nil {
+					return err
+				}
+			}
+		}
+
+		return nil
+	})
+	if err != nil {
+		return err
+	}
+
+	return batch.Flush()
+}
+
+// state returns the state of the queue
+func (bpq *BadgerPriorityQueue) state() *queueState {
+	bpq.mu.Lock()
+	defer bpq.mu.Unlock()
+
+	state := &queueState{Name: bpq.config.Name, Type: bpq.config.Type, Current: -1}
+
+	for _, item := range bpq.ackQueue.queue.items {
+		state.Unacked = append(state.Unacked, UnackedMessage{ID: item.ID, Deadline: item.Priority})
+	}
+
+	if fq, ok := bpq.pq.(*FairPriorityQueue); ok {
+		for node := fq.roundRobin.head; node != nil; node = node.next {
+			if node == fq.currentNone {
+				state.Current = len(state.Groups)
+			}
+			state.Groups = append(state.Groups, node.group)
+		}
+	}
+
+	return state
+}
+
+// restore starts the queue with the given state and the stored messages
+func (bpq *BadgerPriorityQueue) restore(state *queueState) error {
+	bpq.mu.Lock()
+	defer bpq.mu.Unlock()
+
+	deadlines := make(map[uint64]int64, len(state.Unacked))
+	for _, unacked := range state.Unacked {
+		deadlines[unacked.ID] = unacked.Deadline
+	}
+
+	if err := bpq.Init(state.Type, state.Name); err != nil {
+		return err
+	}
+
+	fq, isFair := bpq.pq.(*FairPriorityQueue)
+	if isFair {
+		fq.restoreGroups(state.Groups, state.Current)
+	}
+
+	err := bpq.db.View(func(txn *badger.Txn) error {
+		return forEachMessage(txn, state.Name, func(msg *Message) error {
+			if deadline, ok := deadlines[msg.ID]; ok {
+				bpq.ackQueue.Enqueue("default", &Item{ID: msg.ID, Priority: deadline})
+			} else {
+				bpq.pq.Enqueue(msg.Group, &Item{ID: msg.ID, Priority: msg.Priority})
+			}
+			return nil
+		})
+	})
+	if err != nil {
+		return err
+	}
+
+	bpq.updatePrometheusQueueSizes()
+
+	return nil
+}
+
+// restoreGroups sets the rotation of the groups
+func (fq *FairPriorityQueue) restoreGroups(groups []string, current int) {
+	for i, group := range groups {
+		node := NewLinkedListNode(group, NewPriorityQueue(true))
+		fq.queues[group] = node
+		fq.roundRobin.Append(node)
+		if i == current {
+			fq.currentNone = node
+		}
+	}
+}
+
+// forEachMessage calls fn for every stored message of the queue
+func forEachMessage(txn *badger.Txn, queueName string, fn func(msg *Message) error) error {
+	it := txn.NewIterator(badger.DefaultIteratorOptions)
+	defer it.Close()
+
+	prefix := []byte(fmt.Sprintf("messages:%s:", queueName))
+	for it.Seek(prefix); it.ValidForPrefix(prefix); it.Next() {
+		item := it.Item()
+		if !isMessageKey(prefix, item.Key()) {
+			continue
+		}
+
+		err := item.Value(func(val []byte) error {
+			msg, err := MessageFromBytes(val)
+			if err != nil {
+				return err
+			}
+			return fn(msg)
+		})
+		if err != nil {
+			return err
+		}
+	}
+
+	return nil
+}
diff --git a/pkg/raft/fsm.go b/pkg/raft/fsm.go
index e9b2711..4fd6542 100644
--- a/pkg/raft/fsm.go
+++ b/pkg/raft/fsm.go
@@ -477,12 +477,7 @@ func (f *FSM) Snapshot() (raft.FSMSnapshot, error) {
 	f.mu.Lock()
 	defer f.mu.Unlock()
 
-	return &FSMSnapshot{
-		queueManager: f.queueManager,
-		db:           f.db,
-		config:       f.config,
-		NodeID:       f.NodeID,
-	}, nil
+	return &FSMSnapshot{snapshot: f.queueManager.Snapshot()}, nil
 }
 
 func (f *FSM) Restore(rc io.ReadCloser) error {
@@ -491,18 +486,17 @@ func (f *FSM) Restore(rc io.ReadCloser) error {
 	f.mu.Lock()
 	defer f.mu.Unlock()
 
-	return nil
+	return f.queueManager.Restore(rc)
 }
 
 type FSMSnapshot struct {
-	NodeID       string
-	queueManager *queue.QueueManager
-	db           *badger.DB
-	config       *config.Config
+	snapshot *queue.Snapshot
 }
 
 func (f *FSMSnapshot) Persist(sink raft.SnapshotSink) error {
-	return nil
+	return f.snapshot.Write(sink)
 }
 
-func (f *FSMSnapshot) Release() {}
+func (f *FSMSnapshot) Release() {
+	f.snapshot.Release()
+}
diff --git a/pkg/raft/node.go b/pkg/raft/node.go
index 09dcb4e..6921d78 100644
--- a/pkg/raft/node.go
+++ b/pkg/raft/node.go
@@ -261,6 +261,16 @@ func (n *Node) createRaftNode(nodeID, raftDir, raftPort string, queueManager *qu
 		return nil, err
 	}
 
+	if list, err := snapshots.List(); err != nil {
+		return nil, fmt.Errorf("list snapshots: %s", err)
+	} else if len(list) == 0 {
+		// The whole log is going to be applied, which must not happen to the queues
+		// that it led to before. Otherwise the snapshot replaces what is stored.
+		if err := queueManager.Reset(); err != nil {
+			return nil, fmt.Errorf("reset queues: %s", err)
+		}
+	}
+
 	fsm := &FSM{queueManager: queueManager, NodeID: nodeID, db: n.db, config: n.cfg}
 
 	r, err := raft.NewRaft(config, fsm, logStore, stableStore, snapshots, transport)
-- 
2.43.0


From 7b1c97334e930008298e65d41c2d0a47c00aeb44 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:26:23 +0000
Subject: [PATCH 23/37] verif: let a build tag replace the raft transport

With the tag verif, a harness can connect nodes in memory.
---
 pkg/raft/node.go            |  2 +-
 pkg/raft/transport.go       | 14 ++++++++++++++
 pkg/raft/transport_verif.go | 20 ++++++++++++++++++++
 3 files changed, 35 insertions(+), 1 deletion(-)
 create mode 100644 pkg/raft/transport.go
 create mode 100644 pkg/raft/transport_verif.go

diff --git a/pkg/raft/node.go b/pkg/raft/node.go
index 6921d78..d54b454 100644
--- a/pkg/raft/node.go
+++ b/pkg/raft/node.go
@@ -235,7 +235,7 @@ func (n *Node) createRaftNode(nodeID, raftDir, raftPort string, queueManager *qu
 	config.Logger = logger.NewZeroHCLLogger("raft", hclog.LevelFromString(n.cfg.Logging.LogLevel))
 
 	bindAddr := raftPort
-	transport, err := raft.NewTCPTransport(bindAddr, nil, 3, 10*time.Second, os.Stderr)
+	transport, err := newTransport(bindAddr)
 	if err != nil {
 		log.Warn().Msgf("failed to create transport: %s", err)
 		return nil, err
diff --git a/pkg/raft/transport.go b/pkg/raft/transport.go
new file mode 100644
index 0000000..a526ab7
--- /dev/null
+++ b/pkg/raft/transport.go
@@ -0,0 +1,14 @@
+//go:build !verif
+
+package raft
+
+import (
+	"os"
+	"time"
+
+	"github.com/hashicorp/raft"
+)
+
+func newTransport(bindAddr string) (raft.Transport, error) {
+	return raft.NewTCPTransport(bindAddr, nil, 3, 10*time.Second, os.Stderr)
+}
diff --git a/pkg/raft/transport_verif.go b/pkg/raft/transport_verif.go
new file mode 100644
index 0000000..e110ab2
--- /dev/null
+++ b/pkg/raft/transport_verif.go
@@ -0,0 +1,20 @@
+//go:build verif
+
+package raft
+
+import (
+	"os"
+	"time"
+
+	"github.com/hashicorp/raft"
+)
+
+// TransportForVerification replaces the TCP transport if it is set
+var TransportForVerification func(bindAddr string) (raft.Transport, error)
+
+func newTransport(bindAddr string) (raft.Transport, error) {
+	if TransportForVerification != nil {
+		return TransportForVerification(bindAddr)
+	}
+	return raft.NewTCPTransport(bindAddr, nil, 3, 10*time.Second, os.Stderr)
+}
-- 
2.43.0


From 718cdf4d7fce544d400c333af8684af3e9291964 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:53:31 +0000
Subject: [PATCH 24/37] fix: find the last index whatever it is

---
 pkg/badger-store/badger_store.go | 14 +++-----------
 1 file changed, 3 insertions(+), 11 deletions(-)

diff --git a/pkg/badger-store/badger_store.go b/pkg/badger-store/badger_store.go
index d9ea946..368a740 100644
--- a/pkg/badger-store/badger_store.go
+++ b/pkg/badger-store/badger_store.go
@@ -2,6 +2,7 @@ package badgerstore
 
 import (
 	"errors"
+	"math"
 
 	"github.com/dgraph-io/badger/v4"
 	"github.com/hashicorp/raft"
@@ -124,16 +125,6 @@ func (b *BadgerStore) FirstIndex() (uint64, error) {
 	return 0, nil
 }
 
-// Copy the prefix into a new slice that is one larger than
-// the prefix and add an `0xFF` byte to it so
-func End(prefix []byte) []byte {
-	end := make([]byte, len(prefix)+1)
-	copy(end, prefix)
-
-	end[len(end)-1] = 0xFF
-	return end
-}
-
 // LastIndex returns the last known index from the Raft log.
 func (b *BadgerStore) LastIndex() (uint64, error) {
 	txn := b.db.NewTransaction(false)
@@ -150,7 +141,8 @@ func (b *BadgerStore) LastIndex() (uint64, error) {
 
 	it.Rewind()
 
-	for it.Seek(End(prefix)); it.ValidForPrefix(prefix); it.Next() {
+	// In reverse, this finds the last key that is not greater than the greatest possible one
+	for it.Seek(addPrefix(dbLogs, uint64ToBytes(math.MaxUint64))); it.ValidForPrefix(prefix); it.Next() {
 
 		item := it.Item()
 		key := item.Key()
-- 
2.43.0


From 001a8d1471e6a223ae9b772e3980ad68e1d22ff9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:53:32 +0000
Subject: [PATCH 25/37] fix: return empty values of the stable store

---
 pkg/badger-store/badger_store.go | 7 +++----
 1 file changed, 3 insertions(+), 4 deletions(-)

diff --git a/pkg/badger-store/badger_store.go b/pkg/badger-store/badger_store.go
index 368a740..144b8fb 100644
--- a/pkg/badger-store/badger_store.go
+++ b/pkg/badger-store/badger_store.go
@@ -289,11 +289,10 @@ func (b *BadgerStore) Get(k []byte) ([]byte, error) {
 	}
 
 	val, err := item.ValueCopy(nil)
-
-	if val == nil || err != nil {
-		return nil, ErrKeyNotFound
+	if err != nil {
+		return nil, err
 	}
-	return append([]byte(nil), val...), nil
+	return append([]byte{}, val...), nil
 }
 
 // SetUint64 is like Set, but handles uint64 values
-- 
2.43.0


From 661083d851094ebcb92939e6c5c7d78fd3a5685e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:59:24 +0000
Subject: [PATCH 26/37] fix: a node that joins with a new address keeps its
 place and its message ids

---
 pkg/raft/node.go | 24 +++++++++++-------------
 1 file changed, 11 insertions(+), 13 deletions(-)

diff --git a/pkg/raft/node.go b/pkg/raft/node.go
index d54b454..a16bae3 100644
--- a/pkg/raft/node.go
+++ b/pkg/raft/node.go
@@ -198,22 +198,20 @@ func (n *Node) Join(nodeID, addr string) error {
 	}
 
 	for _, srv := range configFuture.Configuration().Servers {
-		// If a node already exists with either the joining node's ID or address,
-		// that node may need to be removed from the config first.
-		// log.Debug().Msgf("=====> @@@@@ checking existing node %s at %s == %t %t", srv.ID, srv.Address, srv.ID == raft.ServerID(nodeID), srv.Address == raft.ServerAddress(addr))
-		if srv.ID == raft.ServerID(nodeID) || srv.Address == raft.ServerAddress(addr) {
-			// However if *both* the ID and the address are the same, then nothing -- not even
-			// a join operation -- is needed.
-			if srv.Address == raft.ServerAddress(addr) && srv.ID == raft.ServerID(nodeID) {
-				log.Info().Msgf("node %s at %s already member of cluster, ignoring join request", nodeID, addr)
-				return nil
-			}
+		// However if *both* the ID and the address are the same, then nothing -- not even
+		// a join operation -- is needed.
+		if srv.Address == raft.ServerAddress(addr) && srv.ID == raft.ServerID(nodeID) {
+			log.Info().Msgf("node %s at %s already member of cluster, ignoring join request", nodeID, addr)
+			return nil
+		}
 
+		// If another node exists with the joining node's address, that node needs to be
+		// removed from the config first. A node that exists with the joining node's ID keeps
+		// its place in the config, which its message ids depend on, and gets a new address.
+		if srv.Address == raft.ServerAddress(addr) {
 			future := n.Raft.RemoveServer(srv.ID, 0, 0)
-			// log.Debug().Msgf("=====> !!!! removing existing node %s at %s", srv.ID, srv.Address)
 			if err := future.Error(); err != nil {
-				// log.Warn().Msgf("error removing existing node %s at %s: %s", nodeID, addr, err)
-				return fmt.Errorf("error removing existing node %s at %s: %s", nodeID, addr, err)
+				return fmt.Errorf("error removing existing node %s at %s: %s", srv.ID, addr, err)
 			}
 		}
 	}
-- 
2.43.0


From 44ed581301df4be5adb3c3d25ce714328ddbd645 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:59:24 +0000
Subject: [PATCH 27/37] fix: message ids of a node that receives the
 configuration late

---
 pkg/raft/node.go | 11 +++++++++++
 1 file changed, 11 insertions(+)

diff --git a/pkg/raft/node.go b/pkg/raft/node.go
index a16bae3..190b3c0 100644
--- a/pkg/raft/node.go
+++ b/pkg/raft/node.go
@@ -130,6 +130,17 @@ func (node *Node) InitIDGenerator() error {
 		return err
 	}
 
+	// A node that joins others is alone in its configuration until it receives theirs,
+	// which takes long if it receives a snapshot first
+	for i := 0; i < 600 && len(node.peers) > 0 && len(configFuture.Configuration().Servers) == 1; i++ {
+		time.Sleep(100 * time.Millisecond)
+		configFuture = node.Raft.GetConfiguration()
+		if err := configFuture.Error(); err != nil {
+			log.Info().Msgf("failed to get raft configuration: %v", err)
+			return err
+		}
+	}
+
 	index := -1
 	for i, srv := range configFuture.Configuration().Servers {
 		if srv.ID == raft.ServerID(node.id) {
-- 
2.43.0


From 3dce276a4ff25a52cc671711010cc03e207a37f4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:59:24 +0000
Subject: [PATCH 28/37] fix: try the next host if one does not answer a join
 request

---
 pkg/cluster/jointer.go | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/pkg/cluster/jointer.go b/pkg/cluster/jointer.go
index 10f2be5..2d403b1 100644
--- a/pkg/cluster/jointer.go
+++ b/pkg/cluster/jointer.go
@@ -64,7 +64,8 @@ func (j *Joiner) join(joinAddr, raftAddr, nodeID string) error {
 	}
 	req.Header.Set("Content-Type", "application/json")
 
-	client := &http.Client{}
+	// A host that does not answer must not keep the node from trying the others
+	client := &http.Client{Timeout: 10 * time.Second}
 	resp, err := client.Do(req)
 	if err != nil {
 		return err
-- 
2.43.0


From fd4cff7a6f880b654a4e51addcd61e69ab75d84e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:37:28 +0000
Subject: [PATCH 29/37] fix: start a node that takes the place of a member

---
 pkg/raft/node.go | 33 +++++++++++++++++++++++----------
 1 file changed, 23 insertions(+), 10 deletions(-)

diff --git a/pkg/raft/node.go b/pkg/raft/node.go
index 190b3c0..48a7adf 100644
--- a/pkg/raft/node.go
+++ b/pkg/raft/node.go
@@ -307,18 +307,31 @@ func (n *Node) createRaftNode(nodeID, raftDir, raftPort string, queueManager *qu
 		r.BootstrapCluster(configuration)
 		time.Sleep(2 * time.Second)
 
-		for isLeader := range r.LeaderCh() {
-			if isLeader {
-				log.Info().Msgf("Node %s has become a leader", nodeID)
-				// ListenToLeaderChanges does not get this event. A node that is about
-				// to join other nodes will not stay the leader.
-				if len(n.peers) == 0 {
-					n.leaderChangeFn(true)
+		ticker := time.NewTicker(100 * time.Millisecond)
+		defer ticker.Stop()
+
+		for waiting := true; waiting; {
+			select {
+			case isLeader := <-r.LeaderCh():
+				waiting = false
+				if isLeader {
+					log.Info().Msgf("Node %s has become a leader", nodeID)
+					// ListenToLeaderChanges does not get this event. A node that is about
+					// to join other nodes will not stay the leader.
+					if len(n.peers) == 0 {
+						n.leaderChangeFn(true)
+					}
+				} else {
+					log.Info().Msgf("Node %s lost leadership", nodeID)
+				}
+			case <-ticker.C:
+				// A node that takes the place of a member, whose data are lost or whose address
+				// it has, follows the leader of the cluster and is not elected by itself
+				if _, leader := r.LeaderWithID(); leader != "" && leader != config.LocalID {
+					log.Info().Msgf("Node %s follows the leader %s", nodeID, leader)
+					waiting = false
 				}
-			} else {
-				log.Info().Msgf("Node %s lost leadership", nodeID)
 			}
-			break
 		}
 	} else {
 		log.Info().Msgf("Already bootstraped %s %v", nodeID, configFuture.Configuration().Servers)
-- 
2.43.0


From a26afbb7f0dbd2b20577a612a7779ca0faa3c587 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:08:45 +0000
Subject: [PATCH 30/37] fix: recover from panics in middleware

The metrics middleware panics if a path is not valid UTF-8, and as it ran
before the recover middleware, one such request ended the process.
---
 pkg/http/service.go | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/pkg/http/service.go b/pkg/http/service.go
index e6f097c..115dcbf 100644
--- a/pkg/http/service.go
+++ b/pkg/http/service.go
@@ -105,6 +105,9 @@ func NewHttpService(config *config.Config, node Node, indexHtmlFS embed.FS, fron
 }
 
 func (h *Handler) ConfigureMiddleware(router *fiber.App) {
+	// It must be the first one, to also recover from panics in the others
+	router.Use(recover.New())
+
 	router.Use(logger.New(logger.Config{
 		TimeFormat: "2006-01-02T15:04:05.999Z0700",
 		TimeZone:   "Local",
@@ -125,7 +128,6 @@ func (h *Handler) ConfigureMiddleware(router *fiber.App) {
 	}
 
 	router.Get("/service/metrics", monitor.New())
-	router.Use(recover.New())
 
 	// A forwarded request is not forwarded again: the node that sent it here
 	// is mistaken about the leader, and so might be this one
-- 
2.43.0


From 0bf4f255d75cde3348ba2d2ed11c5dccd5f2d4f7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:08:45 +0000
Subject: [PATCH 31/37] fix: forward large bodies without making them larger

Each of <, > and & became six bytes in a forwarded request, so that the leader
refused contents as too large that it accepts directly.
---
 pkg/http/proxy.go | 19 ++++++++++++++++---
 1 file changed, 16 insertions(+), 3 deletions(-)

diff --git a/pkg/http/proxy.go b/pkg/http/proxy.go
index 6c5e2d1..37d6bf1 100644
--- a/pkg/http/proxy.go
+++ b/pkg/http/proxy.go
@@ -48,11 +48,24 @@ func (p *Proxy) do(req *http.Request) (*http.Response, error) {
 	return p.client.Do(req)
 }
 
+// encodeBody encodes the body of a forwarded request. It must not become much
+// longer than the one that was received, as the leader has the same limit.
+func encodeBody(body any) ([]byte, error) {
+	var buf bytes.Buffer
+	encoder := json.NewEncoder(&buf)
+	encoder.SetEscapeHTML(false)
+	if err := encoder.Encode(body); err != nil {
+		return nil, err
+	}
+
+	return buf.Bytes(), nil
+}
+
 func (p *Proxy) CreateQueue(
 	ctx context.Context, host string, body *CreateQueueInputBody,
 ) (*CreateQueueOutputBody, huma.StatusError) {
 
-	bodyB, err := json.Marshal(body)
+	bodyB, err := encodeBody(body)
 	if err != nil {
 		return nil, huma.Error400BadRequest("Failed to marshal body", err)
 	}
@@ -121,7 +134,7 @@ func (p *Proxy) DeleteQueue(
 }
 
 func (p *Proxy) Enqueue(ctx context.Context, host string, queueName string, body *EnqueueInputBody) (*EnqueueOutputBody, huma.StatusError) {
-	bodyB, err := json.Marshal(body)
+	bodyB, err := encodeBody(body)
 	if err != nil {
 		return nil, huma.Error400BadRequest("Failed to marshal body", err)
 	}
@@ -279,7 +292,7 @@ func (p *Proxy) UpdatePriority(
 	id uint64,
 	body *UpdatePriorityInputBody,
 ) (*UpdatePriorityOutputBody, huma.StatusError) {
-	bodyB, err := json.Marshal(body)
+	bodyB, err := encodeBody(body)
 	if err != nil {
 		return nil, huma.Error400BadRequest("Failed to marshal body", err)
 	}
-- 
2.43.0


From 7fa05f58957ec93eaa31ec0f726feff0dd2be513 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:08:46 +0000
Subject: [PATCH 32/37] fix: limit the length of queue names and not of their
 encoding

Queues with names of which the encoding in a path is longer than 1024 could be
created but neither used nor deleted.
---
 pkg/http/queues.go  |  8 ++++++++
 pkg/http/schemas.go | 14 +++++++-------
 2 files changed, 15 insertions(+), 7 deletions(-)

diff --git a/pkg/http/queues.go b/pkg/http/queues.go
index 857f40f..d305014 100644
--- a/pkg/http/queues.go
+++ b/pkg/http/queues.go
@@ -4,6 +4,7 @@ import (
 	"context"
 	"net/http"
 	"net/url"
+	"unicode/utf8"
 
 	"github.com/danielgtaylor/huma/v2"
 )
@@ -135,6 +136,9 @@ func (h *Handler) QueueInfo(ctx context.Context, input *QueueInfoInput) (*QueueI
 	return res, nil
 }
 
+// maxQueueNameLength is the same limit that bodies have for names
+const maxQueueNameLength = 1024
+
 // unescapeQueueName decodes the name of a queue as given in a path
 func unescapeQueueName(pathName string) (string, error) {
 	queueName, err := url.PathUnescape(pathName)
@@ -142,5 +146,9 @@ func unescapeQueueName(pathName string) (string, error) {
 		return "", huma.Error400BadRequest("Failed to decode the name of a queue", err)
 	}
 
+	if utf8.RuneCountInString(queueName) > maxQueueNameLength {
+		return "", huma.Error422UnprocessableEntity("The name of the queue is too long")
+	}
+
 	return queueName, nil
 }
diff --git a/pkg/http/schemas.go b/pkg/http/schemas.go
index e242314..661fc27 100644
--- a/pkg/http/schemas.go
+++ b/pkg/http/schemas.go
@@ -35,7 +35,7 @@ type CreateQueueOutput struct {
 }
 
 type DeleteQueueInput struct {
-	QueueName string `path:"queue_name" maxLength:"1024" example:"user_indexing_queue" doc:"Name of the queue"`
+	QueueName string `path:"queue_name" example:"user_indexing_queue" doc:"Name of the queue"`
 }
 
 type DeleteQueueOutputBody struct {
@@ -54,7 +54,7 @@ type EnqueueInputBody struct {
 }
 
 type EnqueueInput struct {
-	QueueName string `path:"queue_name" maxLength:"1024" example:"user_indexing_queue" doc:"Name of the queue"`
+	QueueName string `path:"queue_name" example:"user_indexing_queue" doc:"Name of the queue"`
 	Body      EnqueueInputBody
 }
 
@@ -72,7 +72,7 @@ type EnqueueOutput struct {
 }
 
 type DequeueInput struct {
-	QueueName string `path:"queue_name" maxLength:"1024" example:"user_indexing_queue" doc:"Name of the queue"`
+	QueueName string `path:"queue_name" example:"user_indexing_queue" doc:"Name of the queue"`
 	Ack       bool   `query:"ack" example:"true" doc:"Acknowledge the message"`
 }
 
@@ -90,7 +90,7 @@ type DequeueOutput struct {
 }
 
 type AckInput struct {
-	QueueName string `path:"queue_name" maxLength:"1024" example:"user_indexing_queue" doc:"Name of the queue"`
+	QueueName string `path:"queue_name" example:"user_indexing_queue" doc:"Name of the queue"`
 	ID        uint64 `path:"id" example:"123" doc:"ID of the message"`
 }
 
@@ -105,7 +105,7 @@ type AckOutput struct {
 }
 
 type NackInput struct {
-	QueueName string `path:"queue_name" maxLength:"1024" example:"user_indexing_queue" doc:"Name of the queue"`
+	QueueName string `path:"queue_name" example:"user_indexing_queue" doc:"Name of the queue"`
 	ID        uint64 `path:"id" example:"123" doc:"ID of the message"`
 }
 
@@ -124,7 +124,7 @@ type UpdatePriorityInputBody struct {
 }
 
 type UpdatePriorityInput struct {
-	QueueName string `path:"queue_name" maxLength:"1024" example:"user_indexing_queue" doc:"Name of the queue"`
+	QueueName string `path:"queue_name" example:"user_indexing_queue" doc:"Name of the queue"`
 	ID        uint64 `path:"id" example:"123" doc:"ID of the message"`
 	Body      UpdatePriorityInputBody
 }
@@ -140,7 +140,7 @@ type UpdatePriorityOutput struct {
 }
 
 type QueueInfoInput struct {
-	QueueName string `path:"queue_name" maxLength:"1024" example:"user_indexing_queue" doc:"Name of the queue"`
+	QueueName string `path:"queue_name" example:"user_indexing_queue" doc:"Name of the queue"`
 }
 
 type QueueInfoOutputBody struct {
-- 
2.43.0


From 6df3fe401124db1c4cef4772bcf43cc589464eac Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:09:07 +0000
Subject: [PATCH 33/37] fix: queue size gauges of a queue deleted during a
 check of its timeouts

The monitor could set them again after the deletion removed them.
---
 pkg/queue/badger_priority_queue.go | 9 ++++++++-
 1 file changed, 8 insertions(+), 1 deletion(-)

diff --git a/pkg/queue/badger_priority_queue.go b/pkg/queue/badger_priority_queue.go
index dbcc0d1..5b0cf6b 100644
--- a/pkg/queue/badger_priority_queue.go
+++ b/pkg/queue/badger_priority_queue.go
@@ -76,6 +76,10 @@ type BadgerPriorityQueue struct {
 
 	ackQueue *DelayedPriorityQueue
 
+	// stopped is set when the background activities have been ended. The
+	// monitor may have begun its last run before that.
+	stopped bool
+
 	// expiredFn is called by the monitor when acknowledgement timeouts have
 	// passed. If it is not set, the monitor itself requeues the messages.
 	expiredFn func(queueName string)
@@ -102,6 +106,7 @@ func (bpq *BadgerPriorityQueue) Init(queueType, queueName string) error {
 	}
 	bpq.config = &QueueConfig{Name: queueName, Type: queueType}
 	bpq.pq = queue
+	bpq.stopped = false
 
 	bpq.StartAckQueueMonitoring()
 
@@ -125,7 +130,7 @@ func (bpq *BadgerPriorityQueue) GetStats() *QueueInfo {
 }
 
 func (bpq *BadgerPriorityQueue) updatePrometheusQueueSizes() {
-	if bpq.cfg.Prometheus.Enabled {
+	if bpq.cfg.Prometheus.Enabled && !bpq.stopped {
 		readyMessages := float64(bpq.pq.Len())
 		unackedMessages := float64(bpq.ackQueue.Len())
 
@@ -287,6 +292,8 @@ func (bpq *BadgerPriorityQueue) stop() {
 
 	bpq.stats.Stop()
 
+	bpq.stopped = true
+
 	if bpq.cfg.Prometheus.Enabled {
 		labels := prometheus.Labels{"queue_name": bpq.config.Name}
 		bpq.PrometheusMetrics.messages.Delete(labels)
-- 
2.43.0


From 3c69239a65f12cec929f4889aef202a8d117a44d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:09:22 +0000
Subject: [PATCH 34/37] fix: producers wait for slow consumers of gRPC streams

Each enqueue waited up to a second for each consumer of the queue that did not
read its stream. Consumers now have a pending notification instead, and send
everything that is ready when they see it.
---
 pkg/grpc/server.go | 64 ++++++++--------------------------------------
 1 file changed, 10 insertions(+), 54 deletions(-)

diff --git a/pkg/grpc/server.go b/pkg/grpc/server.go
index c0d7497..116d0f6 100644
--- a/pkg/grpc/server.go
+++ b/pkg/grpc/server.go
@@ -21,7 +21,6 @@ type QueueServer struct {
 
 	queueConsumers map[string]map[uint64]chan struct{}
 	mu             sync.RWMutex
-	timerPool      sync.Pool
 }
 
 func NewQueueServer(node http.Node, port int) *QueueServer {
@@ -30,16 +29,6 @@ func NewQueueServer(node http.Node, port int) *QueueServer {
 		port:           port,
 		queueConsumers: make(map[string]map[uint64]chan struct{}),
 		proxy:          NewGRPCProxy(nil, port),
-		timerPool: sync.Pool{
-			New: func() interface{} {
-				// Create a new timer, but immediately stop it so it can be reused.
-				t := time.NewTimer(0)
-				if !t.Stop() {
-					<-t.C // drain the channel if it was already fired
-				}
-				return t
-			},
-		},
 	}
 }
 
@@ -50,21 +39,6 @@ func NewGRPCServer(node http.Node, port int) (*grpc.Server, error) {
 	return grpcServer, nil
 }
 
-// Function to get a timer from the pool
-func (s *QueueServer) getTimer(duration time.Duration) *time.Timer {
-	timer := s.timerPool.Get().(*time.Timer)
-	timer.Reset(duration) // Reset it to the desired duration
-	return timer
-}
-
-// Function to put a timer back in the pool
-func (s *QueueServer) putTimer(timer *time.Timer) {
-	if !timer.Stop() {
-		<-timer.C // Drain the channel if it fired
-	}
-	s.timerPool.Put(timer)
-}
-
 // CreateQueue creates a new queue
 func (s *QueueServer) CreateQueue(ctx context.Context, req *pb.CreateQueueRequest) (*pb.CreateQueueResponse, error) {
 	if !s.node.IsLeader() {
@@ -193,7 +167,8 @@ func (s *QueueServer) unregisterConsumer(queueName string, id uint64) {
 
 // DequeueStream implements server-side streaming for dequeuing messages
 func (s *QueueServer) DequeueStream(req *pb.DequeueRequest, stream pb.DOQ_DequeueStreamServer) error {
-	consumerChan := make(chan struct{})
+	// A consumer that is busy is told once that there are messages
+	consumerChan := make(chan struct{}, 1)
 	consumerID := s.node.GenerateID()
 	s.registerConsumer(req.QueueName, consumerID, consumerChan)
 	defer s.unregisterConsumer(req.QueueName, consumerID)
@@ -207,9 +182,13 @@ func (s *QueueServer) DequeueStream(req *pb.DequeueRequest, stream pb.DOQ_Dequeu
 			log.Debug().Msgf("Dequeue stream for consumer %d closed", consumerID)
 			return nil
 		case <-consumerChan:
+		case <-ticker.C:
+		}
+
+		for {
 			message, err := s.node.Dequeue(req.QueueName, req.Ack)
 			if err != nil {
-				continue
+				break
 			}
 
 			err = stream.Send(
@@ -223,30 +202,9 @@ func (s *QueueServer) DequeueStream(req *pb.DequeueRequest, stream pb.DOQ_Dequeu
 			)
 
 			if err != nil {
+				log.Debug().Msgf("Failed to send dequeue response for consumer %d", consumerID)
 				return err
 			}
-		case <-ticker.C:
-			for {
-				message, err := s.node.Dequeue(req.QueueName, req.Ack)
-				if err != nil {
-					break
-				}
-
-				err = stream.Send(
-					&pb.DequeueResponse{
-						Success:  true,
-						Id:       message.ID,
-						Group:    message.Group,
-						Priority: message.Priority,
-						Content:  message.Content,
-					},
-				)
-
-				if err != nil {
-					log.Debug().Msgf("Failed to send dequeue response for consumer %d", consumerID)
-					return err
-				}
-			}
 		}
 	}
 }
@@ -260,13 +218,11 @@ func (s *QueueServer) broadcastMessage(queueName string, message struct{}) {
 		for consumerID, consumerChan := range consumers {
 			log.Debug().Msgf("Broadcasting a message to a consumer %d", consumerID)
 
-			timer := s.getTimer(1 * time.Second)
 			select {
 			case consumerChan <- message:
 				log.Debug().Msgf("Message broadcasted to a consumer %d", consumerID)
-				s.putTimer(timer)
-			case <-timer.C:
-				log.Debug().Msgf("Failed to broadcast a message to a consumer %d", consumerID)
+			default:
+				log.Debug().Msgf("A consumer %d already has been told", consumerID)
 			}
 		}
 	}
-- 
2.43.0


From 73e96074ffee7ff5c76ad2104ad391c58975ead2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:54:36 +0000
Subject: [PATCH 35/37] fix: --config flag had no effect

The config file was read before the flags were parsed.
---
 pkg/config/config.go | 29 +++++++++++++++++++----------
 1 file changed, 19 insertions(+), 10 deletions(-)

diff --git a/pkg/config/config.go b/pkg/config/config.go
index 34361b6..2478d3e 100644
--- a/pkg/config/config.go
+++ b/pkg/config/config.go
@@ -105,28 +105,37 @@ func LoadConfig() (*Config, error) {
 	return &config, nil
 }
 
-func InitCobraCommand(runFunc func(cmd *cobra.Command, args []string)) *cobra.Command {
+// readConfigFile reads the config file. It has to be called after the flags are parsed
+func readConfigFile(cmd *cobra.Command, args []string) error {
 	if cfgFile != "" {
 		// Use config file from the flag
 		viper.SetConfigFile(cfgFile)
-	} else {
-		// Default config file
-		viper.AddConfigPath(".")
-		viper.SetConfigName("config")
+		if err := viper.ReadInConfig(); err != nil {
+			return fmt.Errorf("unable to read config file, %v", err)
+		}
+		return nil
 	}
 
-	// Enable environment variable support
-	viper.AutomaticEnv()
+	// Default config file
+	viper.AddConfigPath(".")
+	viper.SetConfigName("config")
 
 	// Read the config file if found
 	if err := viper.ReadInConfig(); err == nil {
 		// log.Warn().Msgf("Using config file: %s", viper.ConfigFileUsed())
 	}
+	return nil
+}
+
+func InitCobraCommand(runFunc func(cmd *cobra.Command, args []string)) *cobra.Command {
+	// Enable environment variable support
+	viper.AutomaticEnv()
 
 	var rootCmd = &cobra.Command{
-		Use:   "doq",
-		Short: "DOQ is a distributed queue",
-		Run:   runFunc,
+		Use:               "doq",
+		Short:             "DOQ is a distributed queue",
+		PersistentPreRunE: readConfigFile,
+		Run:               runFunc,
 	}
 
 	// Command-line flags
-- 
2.43.0


From 82aaf5d46d20a69ebb88093e67e5475aea5b364c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:18:49 +0000
Subject: [PATCH 36/37] fix: restarted member ends itself when the node it once
 joined is down

---
 cmd/server/main.go |  6 +++++-
 pkg/raft/node.go   | 17 +++++++++++++++++
 2 files changed, 22 insertions(+), 1 deletion(-)

diff --git a/cmd/server/main.go b/cmd/server/main.go
index 517b53e..b4a8201 100644
--- a/cmd/server/main.go
+++ b/cmd/server/main.go
@@ -173,7 +173,11 @@ func Run(cmd *cobra.Command, args []string) {
 	j = cluster.NewJoiner(config.Cluster.NodeID, config.Raft.Address, hosts)
 
 	if err := j.Join(); err != nil {
-		log.Fatal().Msg(err.Error())
+		// A restarted member does not depend on the hosts it once joined, which may be down
+		if !node.IsMember() {
+			log.Fatal().Msg(err.Error())
+		}
+		log.Warn().Msgf("%s, continuing as a member of the cluster", err.Error())
 	}
 
 	node.InitIDGenerator()
diff --git a/pkg/raft/node.go b/pkg/raft/node.go
index 48a7adf..b641835 100644
--- a/pkg/raft/node.go
+++ b/pkg/raft/node.go
@@ -199,6 +199,23 @@ func (n *Node) IsLeader() bool {
 	return n.Raft.State() == raft.Leader
 }
 
+// IsMember tells if the node belongs, under its present address, to a cluster of several nodes
+func (n *Node) IsMember() bool {
+	configFuture := n.Raft.GetConfiguration()
+	if err := configFuture.Error(); err != nil {
+		log.Info().Msgf("failed to get raft configuration: %v", err)
+		return false
+	}
+
+	servers := configFuture.Configuration().Servers
+	for _, srv := range servers {
+		if srv.ID == raft.ServerID(n.id) && srv.Address == raft.ServerAddress(n.raftAddr) {
+			return len(servers) > 1
+		}
+	}
+	return false
+}
+
 func (n *Node) Join(nodeID, addr string) error {
 	log.Info().Msgf("received join request for remote node %s at %s", nodeID, addr)
 
-- 
2.43.0


From aed53237135985cce987535bdc79970b1458eb07 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:14:31 +0000
Subject: [PATCH 37/37] fix: map entries of queues are kept when their last
 stream consumer leaves

The server kept an empty map per queue name that was ever streamed, also for
names of queues that never existed, as long as the process ran.
---
 pkg/grpc/server.go | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/pkg/grpc/server.go b/pkg/grpc/server.go
index 116d0f6..ddc2bc4 100644
--- a/pkg/grpc/server.go
+++ b/pkg/grpc/server.go
@@ -162,6 +162,11 @@ func (s *QueueServer) unregisterConsumer(queueName string, id uint64) {
 
 	if _, ok := s.queueConsumers[queueName]; ok {
 		delete(s.queueConsumers[queueName], id)
+
+		// Nothing is kept for queues without consumers
+		if len(s.queueConsumers[queueName]) == 0 {
+			delete(s.queueConsumers, queueName)
+		}
 	}
 }
 
-- 
2.43.0

