"""Which workers decide which property."""

SEQ = {'worker': 'seqw'}
CONC = {'worker': 'concw', 'procs': 4}



def cluster(mode, **kw):
    return dict({'worker': 'clusterw', 'args': ['-mode', mode]}, **kw)


NODE = cluster('node')
STORM = cluster('storm')
GIANT = cluster('giant')

DISC = {'worker': 'discw', 'shards': 4, 'overlay': {'pkg/cluster/zz_verif_export.go': 'overlay/cluster/export.go'}}



HTTP_OVERLAY = {'pkg/http/zz_verif_export.go': 'overlay/http/export.go'}


def http(mode, **kw):
    return dict({'worker': 'httpw', 'args': ['-mode', mode], 'overlay': HTTP_OVERLAY}, **kw)


def grpc(mode, **kw):
    return dict({'worker': 'grpcw', 'args': ['-mode', mode]}, **kw)


def server(mode, **kw):
    return dict({'worker': 'serverw', 'args': ['-mode', mode], 'server': True}, **kw)


PLANS = {
    'C01': {'runs': [SEQ, NODE, CONC, STORM, GIANT]},
    'C02': {'runs': [SEQ, NODE]},
    'C03': {'runs': [SEQ, NODE, CONC, STORM, GIANT]},
    'C04': {'runs': [SEQ, NODE, CONC, STORM, GIANT]},
    'C05': {'runs': [SEQ, NODE, CONC, STORM]},
    'C06': {'runs': [SEQ, NODE, CONC, STORM, GIANT]},
    'C07': {'runs': [SEQ, NODE, CONC, STORM]},
    'C08': {'runs': [SEQ, NODE, CONC, STORM]},
    'C09': {'runs': [SEQ, NODE, GIANT]},
    'C10': {'runs': [SEQ, NODE, CONC, GIANT]},
    'C11': {'runs': [NODE, cluster('crash'), GIANT, server('kill')]},
    'C12': {'runs': [cluster('replicas')]},
    'C22': {'runs': [cluster('ids'), cluster('bursts', shards=4)]},
    'C23': {'runs': [cluster('join'), DISC, server('cluster')]},
    'C14': {'runs': [{'worker': 'storew'}]},
    'C15': {'runs': [http('forward'), http('cluster')]},
    'C16': {'runs': [grpc('unary'), grpc('cluster')]},
    'C17': {'runs': [http('api')]},
    'C18': {'runs': [grpc('streams')]},
    'C19': {'runs': [SEQ, NODE, CONC, GIANT, http('api')]},
    'C20': {'runs': [
        {'worker': 'racew', 'race': True, 'procs': 4, 'overlay': HTTP_OVERLAY},
        {'worker': 'concw', 'race': True, 'procs': 4, 'args': ['-n', '240'], 'floors': {}, 'judge': 'races'},
        http('cluster', race=True, args=['-mode', 'cluster', '-n', '24'], floors={}, judge='races'),
        grpc('streams', race=True, args=['-mode', 'streams', '-n', '48'], floors={}, judge='races'),
        cluster('storm', race=True, args=['-mode', 'storm', '-n', '16'], floors={}, judge='races'),
        cluster('replicas', race=True, args=['-mode', 'replicas', '-n', '16'], floors={}, judge='races'),
        cluster('join', race=True, args=['-mode', 'join', '-n', '24'], floors={}, judge='races'),
        dict(DISC, race=True, args=['-n', '24'], floors={}, judge='races'),
    ]},
    'C21': {'runs': [
        SEQ, NODE,
        {'worker': 'hostilew', 'procs': 4, 'overlay': HTTP_OVERLAY, 'server': True},
    ]},
    'C24': {'runs': [
        {'worker': 'leakw', 'args': ['-mode', m], 'overlay': HTTP_OVERLAY} for m in ('queues', 'streams', 'proxy')
    ]},
    'C13': {'runs': [cluster('lin'), cluster('storm'), server('cluster')]},
    'C25': {'runs': [server('settings', server=False), server('effects')]},
    'C27': {'runs': [server('compat')]},
    'C26': {'runs': [cluster('bounds'), {'worker': 'leakw', 'args': ['-mode', 'clients'], 'overlay': HTTP_OVERLAY}]},
}

# technique and assurance per property, for MANIFEST.json
_SEQ = ('Runtime monitoring: the real queue manager, also behind raft and under concurrent clients, runs generated histories '
        'in virtual time while an online model of all admissible behaviours and offline axioms over recorded histories judge every result. ')
_LIM = 'Assurance is that of the executions observed: counts and event floors are in the evidence. Trusted: Go runtime (synctest clock), badger in memory mode, hashicorp/raft, the model in harness/seq.'
ABOUT = {
    'C01': ('online model monitor on histories in virtual time', _SEQ + _LIM),
    'C02': ('online model monitor on histories in virtual time', _SEQ + 'Due times are checked to the virtual second. ' + _LIM),
    'C03': ('online model monitor on histories in virtual time', _SEQ + 'The model keeps every rotation that the deliveries admit. ' + _LIM),
    'C04': ('conservation monitor: model and offline history checker', _SEQ + 'Every history ends with a drain that is compared with what must be left. ' + _LIM),
    'C05': ('lease monitor: model and offline history checker', _SEQ + _LIM),
    'C06': ('timed monitor in virtual time', _SEQ + 'Return times are checked to be within the window that timeout and check interval give. ' + _LIM),
    'C07': ('online model monitor on histories in virtual time', _SEQ + _LIM),
    'C08': ('online model monitor on histories in virtual time', _SEQ + _LIM),
    'C09': ('online model monitor, several queues with hostile names', _SEQ + _LIM),
    'C10': ('online model monitor of the life of queues', _SEQ + _LIM),
    'C11': ('fault injection (kill, stop, snapshot) with model monitor and offline history checker',
            'A node with raft is killed between and within operations and restarted on the data it had stored at that moment, which is any point between two transactions of the database; processes of the real server are killed and restarted under concurrent HTTP and gRPC clients, at any instant. Torn files and power loss are out of scope (the server opens badger without SyncWrites). ' + _LIM),
    'C12': ('state comparison of replicas after fault injection',
            'Everything that each of three or four nodes holds is read out after random operations under partitions, kills, replays and snapshots in virtual time over a simulated network, and compared. ' + _LIM),
    'C13': ('fault injection with linearizability checking (porcupine) and offline history axioms',
            'Three and five nodes in virtual time over a simulated network that delays, loses and partitions. Short histories are checked for linearizability, long ones by axioms. Minority faults and restarts of everything. Clusters of three processes of the real server, on hosts of their own in network namespaces, are killed, stopped, cut off and restarted while clients use all nodes. ' + _LIM),
    'C14': ('comparison with a reference model after every operation',
            'The real log and stable store runs random operations on real databases (in memory and on disk, reopened) and concurrent appends, compactions and reads; every result, the bounds and everything else in the database are compared with maps. '
            'Assurance is that of the executions observed: counts and event floors are in the evidence. Trusted: badger, the model in harness/cmd/storew.'),
    'C15': ('differential monitor with recording stand-ins for nodes; offline history checker on a cluster',
            'The real HTTP services run on stand-ins for nodes that record what they are asked to do: the same generated request is sent to the leader and to another node and effects and answers are compared, also many at a time and with leaders that are missing, mistaken, gone, broken or silent. '
            'A cluster of three in virtual time serves clients of all its nodes while leadership changes, and the history of the clients is checked. ' + _LIM),
    'C17': ('online model monitor of the HTTP API in virtual time',
            'Generated valid and invalid requests, in all encodings that mean the same, go to the real HTTP service of a node with raft over connections within the process; every answer is compared with the model of queues, invalid requests must be refused without an effect. ' + _LIM),
    'C16': ('differential monitor with recording stand-ins for nodes; offline history checker on a cluster',
            'The real gRPC servers run on stand-ins for nodes that record what they are asked to do: the same generated request is sent to the leader and to another node and effects and answers are compared, also many at a time, while the leader changes, and with leaders that are missing, mistaken, gone or silent. '
            'A cluster of three over real connections serves clients of all its nodes while leadership is transferred or cut off, and the history of the clients is checked. ' + _LIM),
    'C18': ('trace monitor of streams in virtual time',
            'Producers and consumers open, use, cancel and neglect streams of the real gRPC service of a node with raft over connections within the process, in virtual time; order, single delivery, promptness and conservation of what each stream received are checked. ' + _LIM),
    'C19': ('online model monitor of counts, rates and metrics',
            'Counts of each queue, rates and exported metrics are compared with what the operations observed imply, after each operation, sequentially and under concurrent clients, directly, behind raft and through the HTTP API. ' + _LIM),
    'C20': ('Go race detector on concurrent workloads',
            'All operations of the queue manager, the log store, nodes in a cluster and their HTTP and gRPC services run at the same time as timers, metrics, snapshots and leadership changes, in real and in virtual time, in binaries built with the race detector. Reports whose innermost frame outside libraries is in this repository are violations. ' + _LIM),
    'C21': ('fuzzing of server processes with liveness and integrity monitors',
            'Generated hostile input over HTTP, gRPC and the replicated log against processes of the real server and of a cluster; the processes must go on, answer, serve all other clients and keep other queues as they were. ' + _LIM),
    'C24': ('monitor of goroutines',
            'Queues, streams and forwarded requests come and go in all ways, and the goroutines that are left are counted and compared with what the remaining queues account for. ' + _LIM),
    'C22': ('uniqueness and order monitor over all generated ids',
            'One to five nodes in virtual time, where all generate ids in the very same millisecond, through restarts, leader changes, late joins behind cut links and new addresses; also one node in real time at full speed. Assumes that the clock of a node is not set back. ' + _LIM),
    'C23': ('monitor of membership and announcements under generated joins; recording stand-ins for discovery, kubernetes API and hosts',
            'Real nodes over a simulated network join in all ways under load, members and data are compared on every node; discovery, announcements and the joiner run against recording servers on the loopback; clusters of server processes are restarted in all orders. ' + _LIM),
    'C25': ('comparison of the settings that processes take with those given, and of what they do',
            'Processes load generated settings from flags, environment and files, and what they take is compared with what precedence implies; the real server is run with generated settings and its ports, log, metrics, profiles, rates, timeouts and data are observed. ' + _LIM),
    'C26': ('monitor of live keys, bytes, log entries, snapshots and heap objects over rounds of operations',
            'Nodes in virtual time go through rounds of all operations, with queues, groups, streams and requests that come and go under new names; what they store and the objects that the code under test allocated and that are still in use (every allocation is recorded) are counted after each round, when they hold the same. ' + _LIM),
    'C27': ('comparison of what servers have, started on kept data directories, with what earlier servers put there',
            'Data directories that processes of the first version and of the present one left behind are kept, with a record of what was in them; the real server is started on them, under other addresses and settings, killed and started again, and everything it delivers is compared with that record. ' + _LIM),
}
