import json
P=[]
def p(id,title,statement,over,text,why,files,mech,state=None,observe=None,hook=None):
    P.append({"id":id,"title":title,"statement":statement,
      "quantifier":{"over":over,"text":text},"why_tests_cant":why,
      "anchors":{"files":files,"mechanism":[{"name":n,"where":w} for n,w in mech],
        "state":[{"name":n,"meaning":m,"where":w} for n,m,w in (state or [])],
        "observe_at":observe or [],"hook_needed":hook}})
Q="pkg/queue/badger_priority_queue.go"
p("C01","Delayed queues deliver by lowest priority value, then oldest first",
  "Every message a delayed queue hands out has, at that moment, the smallest priority value of all messages that are ready in that queue, and among equal priorities the smallest message id. This holds whatever enqueues, dequeues, acks, nacks, ack timeouts, priority changes and queue reloads came before it.",
  ["histories","inputs"],"all operation histories on a delayed queue, all priority values (ties, negative, past, extreme) and ids",
  "Tests drain a handful of fixed messages after a few pushes; they never mix re-insertion, re-prioritisation and removal in the middle of a large heap.",
  [Q,"pkg/queue/delayed_priority_queue.go","pkg/queue/priority_queue.go"],
  [("heap ordering Less/Fix/Remove","pkg/queue/priority_queue.go"),("Dequeue pops the heap","pkg/queue/delayed_priority_queue.go"),("Load re-inserts persisted messages",Q)],
  [("items, idToIndex","heap and position index of ready messages","pkg/queue/priority_queue.go")],
  ["result of every dequeue","contents drained at the end of a history"])
p("C02","A scheduled message is never delivered early and is delivered when due",
  "On a delayed queue a priority greater than the current Unix time is a due time: such a message is never handed out before that second, and once the second has come the next dequeue that finds it to be the smallest ready priority hands it out. A queue whose smallest priority lies in the future reports itself empty, and a priority change moves the due time accordingly, to an earlier or a later one.",
  ["histories","inputs","schedules"],"all due times (including sub-second boundaries and extreme values) against all points in time at which a dequeue may arrive, including after redelivery, re-prioritisation and leader change",
  "Tests compare one past and one far-future priority and never let the clock reach the due time.",
  ["pkg/queue/delayed_priority_queue.go",Q,"pkg/raft/fsm.go"],
  [("due-time gate in Dequeue","pkg/queue/delayed_priority_queue.go")],None,
  ["virtual clock at each dequeue and its result"])
p("C03","Fair queues serve groups round-robin and order each group by priority",
  "While a group has a ready message waiting, no other group is delivered to twice before it is delivered to once, whichever groups empty, come back or newly appear meanwhile; a dequeue fails as empty only if no group has a ready message. Within a group messages come out by lowest priority value and then oldest first, and due times do not delay them.",
  ["histories","inputs"],"all interleavings of enqueue, dequeue, ack, nack, timeout and priority change over any number of groups, including groups that empty and come back",
  "Tests drain fixed group layouts; groups emptying while the rotation points at them, redelivered messages re-creating a group and re-prioritisation between turns are not reached.",
  ["pkg/queue/fair_priority_queue.go","pkg/queue/priority_queue.go",Q],
  [("linked-list rotation","pkg/queue/fair_priority_queue.go"),("per-group heap","pkg/queue/priority_queue.go")],
  [("roundRobin, currentNone","rotation order and next group","pkg/queue/fair_priority_queue.go")],
  ["group and id of every delivery"])
p("C04","Messages are neither lost, duplicated, invented nor altered",
  "Every message whose enqueue succeeded is, at every later moment, exactly one of ready, awaiting acknowledgement, or gone because it was acknowledged, taken with auto-ack or removed with its queue; nothing is ever delivered that was not enqueued to that queue. Each delivery carries the id returned by the enqueue and the same content, group (the default group on delayed queues) and current priority, byte for byte.",
  ["histories","inputs","schedules"],"all histories and concurrent schedules of producers, consumers and timeouts; all valid UTF-8 contents, group names and 64-bit priorities",
  "Tests check a few messages sequentially; loss and duplication need an op racing the redelivery timer or a long mixed history, and fidelity needs hostile contents.",
  [Q,"pkg/queue/queue_manager.go","pkg/raft/commands.go","pkg/raft/fsm.go"],
  [("persist before publish",Q),("heap/ack-queue hand-over",Q),("command encoding","pkg/raft/fsm.go")],
  [("messages:<queue>:<id>","persisted messages",Q),("pq/ackQueue","ready and unacknowledged sets",Q)],
  ["set of ids, contents delivered and drained"])
p("C05","An unacknowledged message is held by one consumer; an acked one never returns",
  "After a message is handed out it is not handed out again until it is nacked or its acknowledgement timeout has passed, however many consumers poll concurrently. Once it has been acknowledged, or was taken with auto-ack, it is never delivered again, even when the acknowledgement races the timeout.",
  ["schedules","histories"],"all interleavings of concurrent dequeues, acks, nacks and redelivery-timer ticks on shared queues",
  "The only concurrent test has one consumer at a time and no timer; the ack-against-timeout interleaving is never produced.",
  [Q,"pkg/queue/delayed_priority_queue.go","pkg/raft/fsm.go"],
  [("ackQueue lease",Q),("redelivery monitor",Q)],None,["delivery and ack events per message with their times"])
p("C06","Unacked messages return after exactly their own timeout",
  "A message handed out without auto-ack and neither acked nor nacked becomes available again no earlier than the configured timeout (one second of rounding allowed) and no later than the timeout plus one check interval plus a second, with its own group, priority and content. Each hand-out has its own timer: other messages being handed out later, re-prioritised or acknowledged neither delays nor hastens it.",
  ["histories","configurations","schedules"],"all sets of overlapping hand-outs, all timeout and check-interval settings, all interleavings with other operations, restarts and leader changes",
  "Tests let at most one message expire, with a zero timeout; overlapping leases with different deadlines are never observed.",
  [Q,"pkg/queue/delayed_priority_queue.go","pkg/config/config.go"],
  [("deadline = now + timeout kept in ackQueue",Q),("monitor tick requeues expired leases",Q)],
  [("ackQueue","deadline-ordered leases",Q)],["virtual time of hand-out and of renewed availability"])
p("C07","Ack and nack act on exactly the named unacknowledged message",
  "Ack and nack succeed exactly for messages currently awaiting acknowledgement in that queue and otherwise fail without changing anything (never handed out, already acknowledged, timed out and requeued, other queue, unknown id or queue). A successful ack removes that message alone for good; a successful nack makes that message alone immediately available again with its own priority and group.",
  ["histories","inputs"],"all histories, all ids including foreign, stale, zero and maximal ones",
  "Tests ack and nack the message just dequeued and one unknown id.",
  [Q,"pkg/raft/fsm.go"],[("ackQueue lookup",Q),("requeue with stored priority",Q)],None,["result of each ack and nack, counts and contents afterwards"])
p("C08","A priority change takes effect for that message only, ready or unacked",
  "After a successful priority change the message is ordered by its new priority from then on, including when it is currently awaiting acknowledgement and comes back later, and the change survives restart; no other message's order, due time or acknowledgement deadline changes. A change naming a message the queue does not hold fails and changes nothing.",
  ["histories","inputs"],"all histories mixing priority changes with hand-outs, nacks, timeouts and restarts, for both queue types",
  "Tests change a priority of a ready message once; changes to handed-out messages are not checked for their effect on leases.",
  [Q,"pkg/queue/priority_queue.go","pkg/queue/fair_priority_queue.go"],
  [("UpdatePriority persists and fixes the heap",Q)],None,["delivery order and redelivery times after changes"])
p("C09","Queues are isolated whatever their names",
  "No operation on one queue ever changes what another queue holds, delivers or reports, for any two distinct queue names, including names that extend each other or contain separators, spaces, unicode or storage prefixes. The same id or group appearing in several queues makes no connection between them.",
  ["inputs","histories"],"all pairs of distinct queue names and all histories over them, across deletion, restart and reload",
  "Tests use two or three fixed alphanumeric names.",
  [Q,"pkg/queue/queue_manager.go","pkg/badger-store/badger_store.go"],
  [("key prefixes per queue",Q),("prefix iteration in load and delete",Q)],
  [("messages:<queue>:<id>, queues:<queue>:","storage namespace",Q)],["full drain and counts of every queue after each history"])
p("C10","Queue lifecycle: create is idempotent, delete is complete and final",
  "Creating an existing queue succeeds and leaves its type and messages alone; operations on a queue that does not exist fail without creating it. Deleting a queue removes all of its messages, however many, ready or unacknowledged, and makes it unknown, so that neither a restart nor a queue later created under the same name brings anything back.",
  ["histories","inputs"],"all sequences of create, delete, use and reload, queues of any size and state",
  "Tests delete an empty or one-message queue and check only the return value.",
  ["pkg/queue/queue_manager.go",Q,"pkg/raft/fsm.go"],
  [("queue registry and storage deletion","pkg/queue/queue_manager.go")],
  [("queues map","live queues","pkg/queue/queue_manager.go")],["queue listing, operation results and raw reload after delete"])
p("C11","No acknowledged operation is lost or undone by a restart or crash",
  "When a node stops at any moment, by shutdown or by being killed, and starts again on the same data, every operation it had reported successful is still in effect: enqueued messages are there once with their content, current priority and group, acked and auto-acked ones stay gone, deleted queues stay deleted. Messages awaiting acknowledgement still do, can be acked or nacked, and otherwise return after their timeout; this also holds after the log has been compacted into a snapshot.",
  ["crash_points","histories"],"all kill points during load, any number of restarts, with and without snapshots and log truncation",
  "No test kills the process; the restart test reloads a few messages from a cleanly closed store, without a log or a snapshot.",
  ["pkg/raft/fsm.go","pkg/raft/node.go",Q,"pkg/queue/queue_manager.go","pkg/badger-store/badger_store.go","cmd/server/main.go"],
  [("replicated log replay","pkg/raft/fsm.go"),("FSM snapshot, persist and restore","pkg/raft/fsm.go"),("log store","pkg/badger-store/badger_store.go")],
  None,["client-visible results before and after restart of the real server process"],"guarded in-memory transport for whole-cluster runs in virtual time")
p("C12","All replicas reach the same state from the same log",
  "Nodes that have applied the same commands hold identical queues: the same messages, priorities, groups, unacknowledged set, delivery order and group rotation, whatever the local clocks and the speed at which each applied them. This includes nodes that caught up late, replayed after a restart, or were brought up to date by a snapshot.",
  ["schedules","histories","fault_sequences"],"all command histories, application delays, timer phases, snapshot points and restarts of individual replicas",
  "Tests apply commands to one state machine only, and snapshot and restore are only called for their return value.",
  ["pkg/raft/fsm.go","pkg/raft/node.go",Q],
  [("state machine application","pkg/raft/fsm.go"),("ack timeout and due-time decisions",Q),("snapshot and restore","pkg/raft/fsm.go")],
  None,["state drained from each replica in turn","per-replica responses to the same command log"],"guarded in-memory transport")
p("C13","The cluster behaves as one queue server through failures",
  "Whatever minority of nodes is stopped, restarted or partitioned, all results clients get from the cluster are consistent with one queue server executing each successful operation once, at some moment between its call and its return: no message is delivered to two holders at once, no acked message returns, no successful enqueue disappears. While a majority is connected, operations succeed again within a bounded time after the fault.",
  ["fault_sequences","schedules"],"all sequences of leader stops, restarts, partitions and heals under concurrent clients",
  "Existing tests run a single node; no test has more than one member, a leader change or a partition.",
  ["pkg/raft/commands.go","pkg/raft/fsm.go","pkg/raft/node.go","pkg/badger-store/badger_store.go"],
  [("operations proposed through the replicated log","pkg/raft/commands.go"),("membership","pkg/raft/node.go")],
  None,["client call/return history of a 3-node cluster"],"guarded in-memory transport")
p("C14","The raft log and stable store keep exactly what was written",
  "The log store returns every entry stored and not deleted, unchanged in all fields, reports the true first and last index, and deletes exactly the requested index range, for any index values, payload sizes, batch sizes and order of operations; a batch of any size that raft may submit is accepted. Stable-store keys return their latest value, never interfere with log entries or queue data in the same database, and everything survives reopening it.",
  ["inputs","histories","crash_points"],"all sequences of store, overwrite, range delete, get and reopen, over the whole index space and large batches",
  "Tests use indexes 1 to 3 and tiny payloads; deleting a range larger than one iterator block is not checked for which entries remain.",
  ["pkg/badger-store/badger_store.go","pkg/badger-store/utils.go"],
  [("key encoding and range deletion","pkg/badger-store/badger_store.go"),("msgpack encoding","pkg/badger-store/utils.go")],
  None,["every stored index after each operation, against a map"])
p("C15","HTTP requests get the same outcome from any node",
  "A queue or message request sent over HTTP to a node that is not the leader has exactly the effect of sending it to the leader, once: the same result body on success, an error status whenever the leader refuses it, for every queue name, group, priority, id and content. If no leader is known or the believed leader is not one, the request fails with an error within a bounded time and is neither executed twice nor forwarded in circles.",
  ["inputs","configurations","fault_sequences"],"all request values that need encoding in URLs or JSON, all leadership situations",
  "Proxy tests run against a canned server with one plain name and never compare with the direct path.",
  ["pkg/http/proxy.go","pkg/http/messages.go","pkg/http/queues.go","pkg/raft/node.go"],
  [("forwarding proxy","pkg/http/proxy.go"),("leader lookup","pkg/raft/node.go")],
  None,["responses of follower and leader to twin requests, operations reaching the leader's node"])
p("C16","gRPC requests get the same outcome from any node, also concurrently",
  "A unary gRPC request sent to a node that is not the leader has exactly the effect and result of sending it to the leader, once, for all field values, however many requests are in flight and also while the leader changes. If no leader is known or the believed leader is not one, it fails with an error within a bounded time and is not forwarded in circles.",
  ["inputs","schedules","fault_sequences"],"all field values, all concurrent schedules of forwarded calls across leader changes",
  "Proxy tests use a mock client and a single goroutine.",
  ["pkg/grpc/proxy.go","pkg/grpc/server.go","pkg/raft/node.go"],
  [("forwarding client per leader","pkg/grpc/proxy.go")],None,["responses and operations reaching the leader's node"])
p("C17","The HTTP API reports faithfully what was done and refuses bad input",
  "Each HTTP response states exactly what happened: ids, names, groups, priorities and contents as given or stored, ids as decimal strings that can be used in later calls, success only if the operation took effect, and an error status otherwise. Requests outside the documented schema (missing or mistyped fields, negative priority, unknown queue type, over-long names, malformed ids) are refused with a client error and have no effect.",
  ["inputs"],"all bodies, paths and query values, well- and ill-formed",
  "Handler tests send one or two bodies per route against a mock node.",
  ["pkg/http/messages.go","pkg/http/queues.go","pkg/http/schemas.go","pkg/http/service.go"],
  [("request schemas","pkg/http/schemas.go"),("handlers","pkg/http/messages.go")],None,["HTTP responses against a recording model node"])
p("C18","gRPC streams deliver every message once and promptly",
  "An enqueue stream answers every request in order with that request's result, and a dequeue stream hands each ready message of its queue to exactly one of the open consumers, in queue order for a single consumer, within about a second of the message being ready, including messages that become ready by nack, timeout or due time. A closing, cancelled or slow consumer neither loses messages nor stops other consumers and producers.",
  ["schedules","histories"],"all numbers and lifetimes of producers and consumers, cancellations at any point",
  "Stream tests read one or two messages with one consumer.",
  ["pkg/grpc/server.go"],[("consumer registry and broadcast","pkg/grpc/server.go"),("one-second poll","pkg/grpc/server.go")],
  [("queueConsumers","open consumers per queue","pkg/grpc/server.go")],["messages received per stream, with virtual time"])
p("C19","Reported counts, rates and metrics match what happened",
  "At any quiescent moment a queue's reported ready, unacked and total numbers equal the messages it holds in those states, and the listing has exactly the existing queues, sorted by name, with their types; each rate is the number of such operations in the configured window of seconds divided by the window. Exported metric counters equal the number of successful operations per queue and the gauges the current numbers, also after timeouts and deletion.",
  ["histories","configurations"],"all histories, window sizes and moments of reading",
  "Tests read counts after two operations; rates over the window and metric values are not read at all.",
  [Q,"pkg/queue/queue_stats.go","pkg/queue/prometheus_metrics.go","pkg/queue/queue_manager.go"],
  [("stats window","pkg/queue/queue_stats.go"),("metrics updates",Q)],None,["stats, listings and gathered metrics against a model"])
p("C20","No data races under concurrent use",
  "Any number of clients may use all operations of a node, its HTTP and gRPC services, its statistics and its metrics at the same time as timers, leadership changes and queue creation and deletion run: no memory location is accessed by two threads without synchronisation, one of them writing.",
  ["schedules"],"all concurrent schedules of the exported operations and background activities",
  "Tests run without the race detector and almost entirely in one goroutine.",
  ["pkg/queue","pkg/raft","pkg/grpc","pkg/http"],[("mutexes of queues, manager, state machine and proxy",Q)],None,["Go race detector reports with frames in this repository"])
p("C21","No request crashes or wedges a node",
  "Whatever arrives over HTTP, gRPC or the replicated log (hostile names, contents, priorities, ids, unknown or malformed commands, huge bodies, large concurrent payload batches), a node answers with a result or an error and keeps serving; a request that fails has no effect on other requests. In particular a replicated command never panics or blocks the state machine.",
  ["inputs","histories"],"all byte strings and field values within the transport's limits, in any order",
  "Tests send well-formed small requests only.",
  ["pkg/raft/fsm.go","pkg/raft/commands.go","pkg/http/service.go","pkg/grpc/server.go",Q,"pkg/badger-store/badger_store.go"],
  [("command decoding","pkg/raft/fsm.go"),("recover middleware","pkg/http/service.go")],None,["liveness probe and unaffected control queue after each hostile input"])
p("C22","Message ids are unique and follow enqueue order",
  "No two messages ever get the same id, whichever nodes accept them, however fast, before or after leader changes and restarts. Ids generated by one node increase, so that sequential enqueues of equal priority keep their order.",
  ["schedules","configurations","histories"],"all concurrent enqueues, all cluster sizes and join orders, restarts",
  "Tests generate a few ids on one node.",
  ["pkg/raft/node.go","pkg/raft/commands.go"],[("snowflake generator numbered by cluster position","pkg/raft/node.go")],None,["ids returned by all nodes' enqueues"])
p("C23","Nodes find, join and leave the right cluster members",
  "A node identifies itself and its peers correctly from any service-discovery answer, and keeps trying all of them, in rounds, until one accepts its join or the attempts are used up. Joining makes it a voting member that receives the data; joining again, or with a new address or id, leaves exactly one entry for it and never removes another member; a node that becomes leader publishes exactly its own current address and port. A member that is started again takes its place again, in whatever order members stop and start, and whether or not the node it once joined is there.",
  ["inputs","configurations","fault_sequences"],"all host lists, host names (including names that extend each other), failing or refusing peers, join sequences, lookup failures",
  "Tests use three fixed host names and one or two canned peers.",
  ["pkg/cluster/cluster.go","pkg/cluster/jointer.go","pkg/cluster/service_discovery.go","pkg/raft/node.go","pkg/http/cluster.go"],
  [("self detection","pkg/cluster/cluster.go"),("join rounds","pkg/cluster/jointer.go"),("membership change","pkg/raft/node.go"),("endpoint update on leadership","pkg/cluster/cluster.go")],None,["derived identity, join requests received by peers, member list, published endpoints"],"guarded in-memory transport")
p("C24","Background resources end with what they serve",
  "A queue has exactly one set of background activities while it exists and none once it is deleted, however often it is created, looked up, used, deleted and created again; a closed client stream leaves nothing running behind it. After any workload ends the number of running activities returns to what the remaining queues and streams account for.",
  ["histories"],"all histories of queue creation, lookup and deletion, and of stream openings and closings",
  "No test looks at goroutines.",
  [Q,"pkg/queue/queue_manager.go","pkg/queue/queue_stats.go","pkg/grpc/server.go"],
  [("monitor and stats goroutines per queue",Q)],None,["goroutine stacks inside this repository after each history"])
p("C25","Settings take effect as given, whatever their source",
  "Each documented setting can be given on the command line, in the environment, or in a configuration file (the default one or the one that --config names, in any supported format); the command line comes before the environment, that before the file, and that before the documented default, each setting by itself. A server does what its settings say: it listens where it is told, stores where it is told and finds its data again, counts rates over the given window, returns unacknowledged messages after the given timeout, and offers metrics and profiles exactly if they are switched on. A value that is not of the type of its setting, and a named file that cannot be read, are refused.",
  ["configurations","inputs"],"all combinations of settings, values and sources",
  "Tests load two configurations and read a few fields; no test starts the server, or reads a file that --config names.",
  ["pkg/config/config.go","cmd/server/main.go","pkg/http/service.go",Q,"pkg/queue/queue_stats.go"],
  [("flags, files and environment","pkg/config/config.go"),("use of the settings","cmd/server/main.go")],None,["settings that a process loads; ports, log, metrics, rates, timeouts and directories of a server process"])
p("C26","What a node stores and remembers depends on what it holds, not on its history",
  "However long a node has been running and however much has passed through it, what it stores (keys and bytes of queues, log entries, snapshots) and what it keeps in memory is accounted for by the queues and messages it holds and the streams and requests under way. Messages that were acknowledged, queues and groups that are gone, names of queues that were never there, and clients that have left leave nothing behind, apart from exported counters and capacity for as much as was held at once; the log is compacted in time by itself, under the default settings too; and a node at rest writes nothing.",
  ["histories"],"all histories of operations, of queues, groups, streams and requests that come and go, of snapshots",
  "Tests end after a few operations, and look at results only.",
  [Q,"pkg/queue/queue_manager.go","pkg/queue/fair_priority_queue.go","pkg/badger-store/badger_store.go","pkg/raft/node.go","pkg/raft/fsm.go","pkg/grpc/server.go"],
  [("deletion of stored messages and queues",Q),("compaction of the log","pkg/badger-store/badger_store.go"),("consumers by queue","pkg/grpc/server.go")],None,["live keys and bytes in the database, snapshots, heap objects by allocation site in this repository, index of the log"])
p("C27","Data of earlier versions keep their queues and messages",
  "A server that is started on the data directory of an earlier server of this or of an earlier version, whether that was stopped or killed, with or without a snapshot and with the same or other addresses, ports and timeouts, has all its queues with their types and all their messages with ids, groups, priorities, contents and due times; messages that were not acknowledged come back, those that were gone do not, and new ids come after the old ones. Names of directories, encodings of keys, of queues and messages, of commands in the log and of snapshots stay readable. Exempt are operations that the first version did after its last snapshot, since its snapshots were empty.",
  ["histories","inputs"],"all data directories that servers left behind",
  "Tests write and read with the same code, and so both sides of an encoding may change unnoticed.",
  [Q,"pkg/queue/snapshot.go","pkg/queue/queue.go","pkg/raft/fsm.go","pkg/raft/node.go","pkg/badger-store/badger_store.go","cmd/server/main.go"],
  [("keys and values of queues and messages",Q),("commands","pkg/raft/fsm.go"),("snapshots","pkg/queue/snapshot.go"),("logs","pkg/badger-store/badger_store.go"),("directories","cmd/server/main.go")],None,["data directories kept under harness/cmd/serverw/fixtures, of 14 servers of the first and the present version"])

with open('/verif/properties.jsonl','w') as f:
    for x in P: 
        assert len(x['title'])<=80,(x['id'],len(x['title']))
        f.write(json.dumps(x,ensure_ascii=False)+"\n")
