#!/usr/bin/env python3
"""Source of /verif/properties.jsonl (run: python3 tools/gen_properties.py)."""
import json, os
P = []
def p(id, title, statement, over, text, why, files, mech, state=(), observe=(), hook=None):
    P.append(dict(id=id, title=title, statement=statement,
        quantifier=dict(over=over, text=text), why_tests_cant=why,
        anchors=dict(files=files,
            state=[dict(name=a, meaning=b, where=c) for a, b, c in state],
            mechanism=[dict(name=a, where=b) for a, b in mech],
            observe_at=list(observe), hook_needed=hook)))

MS = "src/memcache/sockets.cpp"
p("C01", "Cache commands are linearizable per key",
  "Every cache command on a key (get, set, add, replace, append, prepend, cas, incr, decr, delete, touch, in the text and the binary protocol) behaves as if it were executed atomically at one instant between the moment the client sent it and the moment its reply arrived, so no update is lost, duplicated or half applied. A compare-and-swap succeeds only if the item was not changed since the compared token was fetched. A command whose reply was never delivered took effect at most once.",
  ["schedules", "histories", "inputs"],
  "all interleavings of any number of connections, worker threads and garbage collection; all command sequences; connection loss at any point",
  "The protocol tests use one connection and one command at a time, so they see no interleaving of workers, collector and reactor; a lost update needs two commands in flight on one key.",
  [MS, "cybozu/hash_map.hpp", "src/memcache/object.cpp", "src/memcache/gc.cpp"],
  [("one mutex per hash bucket held during each command", "cybozu/hash_map.hpp apply/remove_if/gc"), ("version counter for compare-and-swap", "src/memcache/object.cpp set/append/incr")],
  [("hash map", "the cached objects", "src/memcache/handler.hpp m_hash")],
  ["client replies"])
p("C02", "Each command gets exactly one well-formed reply, in order",
  "On each connection the replies form a well-formed stream: one complete reply per command that calls for one, in the order of the commands, carrying the command's own opaque value and the key's own bytes, and nothing else. This holds however the requests are split or pipelined, however large the values are, and however slowly or unevenly the client reads. Quiet and noreply commands answer only where the protocol says so, and a reply is not held back waiting for further traffic.",
  ["inputs", "schedules", "fault_sequences"],
  "all segmentations, pipelinings, value sizes, socket buffer sizes, short sends and reader speeds",
  "The tests run over loopback, where a send never comes up short and a request is never split; the pending-data and partial-request paths are not reached.",
  ["cybozu/tcp.cpp", "cybozu/tcp.hpp", MS, "src/memcache/memcache.cpp", "cybozu/dynbuf.hpp", "src/counter/sockets.cpp"],
  [("pending send buffers flushed by the reactor or a worker", "cybozu/tcp.cpp write_pending_data"), ("incomplete requests carried over", "src/memcache/sockets.cpp m_recvjob"), ("flush of the corked socket", "cybozu/tcp.hpp _flush")],
  [("pending send data", "bytes accepted but not yet sent", "cybozu/tcp.hpp m_pending, m_tmpbuf")], ["bytes received by clients"])
p("C03", "A lock is exclusive and protects the object from other clients",
  "At any moment at most one connection holds the lock of an object. While it is held, lock, set, replace, append, prepend, cas, incr, decr, delete and replace-and-unlock by any other connection are refused and leave the object unchanged, while reads still succeed. Only the holder can unlock it, and a lock is granted only on an existing object that has not expired.",
  ["schedules", "histories"],
  "all interleavings of locking and modifying commands on any number of connections",
  "The tests exercise locks with two idle connections one command at a time; mutual exclusion is a statement about concurrent requests.",
  [MS, "src/memcache/object.hpp", "src/memcache/sockets.hpp", "docs/locking.md"],
  [("owner recorded in the object and compared with the running connection", "src/memcache/object.hpp lock/locked_by_other"), ("lock list per connection", "src/memcache/sockets.hpp m_locks")],
  [("lock owner", "the connection holding the object", "src/memcache/object.hpp m_lock")], ["client replies"])
p("C04", "Locks end with their connection and are never inherited",
  "When a connection ends in any way (orderly close, half close, reset, quit, rejected request, network loss noticed by keep-alive), every lock it held is released within a bounded time and the objects stay usable. No other connection, including a later one that happens to get the same descriptor, is ever treated as the holder. The release never takes the server down.",
  ["fault_sequences", "schedules", "crash_points"],
  "every way and instant of losing a connection, with any number of connections being opened and closed around it",
  "A test closes one idle connection; it cannot place a reset between two steps of a running command or reuse a descriptor before the old connection is reclaimed.",
  [MS, "src/memcache/object.hpp", "cybozu/reactor.cpp", "cybozu/reactor.hpp"],
  [("unlock on read of end-of-stream or reset", "src/memcache/sockets.cpp m_recvjob"), ("unlock in the destructor after all workers were idle", "src/memcache/sockets.cpp ~memcache_socket"), ("deferred destruction", "src/server.cpp serve_master, src/sync.hpp")],
  [], ["client replies", "server process state"])
p("C05", "Locked objects are neither expired, evicted nor flushed",
  "While an object is locked it stays readable with its value and is not removed by expiration, by memory-pressure eviction or by a flush, however long the lock is held. Once the lock ends, the object is again subject to its expiration time.",
  ["schedules", "histories", "configurations"],
  "all interleavings of locking with collector passes, expirations, evictions and flushes",
  "Needs a collector pass or clock tick between lock and use; the tests have no control over either.",
  ["src/memcache/gc.cpp", "src/memcache/object.hpp"],
  [("collector skips locked objects", "src/memcache/gc.cpp gc"), ("locked objects report not expired", "src/memcache/object.hpp expired")], [], ["client replies"])
p("C06", "Items are visible until their expiration time and never after it",
  "An item with an expiration time (relative or absolute, set by a store, incr/decr creation, touch or get-and-touch) stays visible with its value until that time and, within the one-second clock granularity of the server, is not visible afterwards to any command: reads miss, add creates, replace, append, cas and incr do not find it, and a lock is refused. An item without expiration time does not expire. Expired items are eventually reclaimed.",
  ["histories", "schedules", "fault_sequences"],
  "all expiration times, touches, tick phases, collector phases and clock steps",
  "Tests sleep past one expiration on an idle server; boundaries depend on the phase of the tick and of the collector and on clock steps.",
  ["src/memcache/object.hpp", "src/memcache/memcache.cpp", MS, "src/memcache/gc.cpp", "src/server.cpp"],
  [("cached clock updated each second by the reactor", "src/server.cpp serve_master callback"), ("expiration test on every access", "src/memcache/object.hpp expired")],
  [("current time", "cached wall clock in seconds", "src/global.cpp g_current_time")], ["client replies"])
p("C07", "flush_all removes everything stored before it takes effect",
  "After a flush command takes effect (at once, or when its delay has passed), no unlocked item stored before the command was sent is ever visible again on the master. Once the master has carried the flush out (at the latest at the next garbage collection) and the resulting deletions have reached a slave, the same holds after fail-over. Once the flush has been carried out, items stored later live normally; items stored while it is in effect but not yet carried out may be removed with the others. A flush requested while another one is being carried out is not lost; a later flush command replaces a delayed one that has not taken effect yet.",
  ["schedules", "histories"],
  "all interleavings of flushes, stores and collector passes, with and without delay",
  "The tests flush an idle server and wait; a flush interacts with collector passes and concurrent stores.",
  [MS, "src/memcache/gc.cpp", "src/memcache/object.hpp", "src/memcache/memcache.cpp"],
  [("flush time compared on access", "src/memcache/object.hpp expired"), ("collector deletes all and resets the flush time", "src/memcache/gc.cpp gc")],
  [("flush time", "when everything is to be dropped", "src/memcache/stats.hpp flush_time")], ["client replies"])
p("C08", "Replicas converge to the master's contents",
  "Once writes stop and the connection between master and slave stays up, each slave holds exactly the unexpired items of the master, with the same value, flags and expiration time, whether they were stored before the slave joined, while it was being filled, or afterwards. Items deleted, expired, evicted or flushed on the master while a slave is in sync do not survive on it.",
  ["schedules", "histories", "fault_sequences"],
  "all interleavings of client commands with slave joins, initial synchronisation and collector passes, any network pacing, any item size",
  "No test starts a slave at all.",
  ["src/memcache/replication.cpp", "src/memcache/gc.cpp", "src/memcache/handler.cpp", MS, "cybozu/tcp.cpp"],
  [("updates sent to slaves under the bucket lock", "src/memcache/sockets.cpp repl_object/repl_touch/repl_delete calls"), ("initial copy by the collector after all workers know the slave", "src/memcache/handler.cpp make_repl_socket, src/memcache/gc.cpp"), ("slave applies the stream", "src/memcache/replication.cpp repl_recv")],
  [("slave list", "connected slaves", "src/memcache/handler.hpp m_slaves, m_new_slaves")], ["contents served after promotion"])
p("C09", "Fail-over serves a consistent, recent copy of the data",
  "When a synchronised slave takes over after the master died at any instant, each key it serves has a value the key really had on the master, never a mixture or truncated value, and not older than the state already delivered to the slave. Of the commands of one client connection, the effects that survive are a prefix, apart from those lost to expiry or eviction. A slave that reconnects drops what it held before and follows the new master's contents.",
  ["crash_points", "schedules", "fault_sequences"],
  "master crash or power loss at every instant, with any amount of replication data in flight, partially received records, repeated fail-overs and restarts",
  "No test kills a master; what survives depends on the byte at which the stream is cut.",
  ["src/memcache/replication.cpp", "src/memcache/handler.cpp", "src/server.cpp", MS],
  [("records applied only when complete", "src/memcache/replication.cpp repl_recv"), ("promotion after link loss", "src/server.cpp serve"), ("clearing before a new synchronisation", "src/memcache/handler.cpp on_slave_start")], [], ["contents served after promotion"])
p("C10", "Only the holder of the virtual address serves clients",
  "A node serves clients only as master: a node that does not hold the virtual address at start joins as a slave, and a slave closes client connections without serving them. A slave that gets the virtual address becomes master and serves within a bounded time, a slave whose master is gone keeps trying to join or to be promoted, and a master that lost the address stops within a bounded time.",
  ["fault_sequences", "schedules"],
  "all sequences and timings of address moves, crashes, restarts and partitions",
  "The tests run a single node that always holds its address.",
  ["src/server.cpp", "src/memcache/handler.cpp", "src/memcache/gc.cpp", "cybozu/ip_address.cpp"],
  [("address check at start, each second as slave, and after link loss", "src/server.cpp serve, serve_slave"), ("address check in each collector pass", "src/memcache/gc.cpp run"), ("slaves refuse clients", "src/memcache/handler.cpp make_memcache_socket")], [], ["client connections", "process exit"])
p("C11", "Acquired counter resources never exceed the requested maximum",
  "An acquire succeeds exactly when the resources in use by all connections plus the requested ones do not exceed the maximum given in the request; it then grants all of them, otherwise none, for all 32-bit values. Acquire, release, get and dump are linearizable per name: get reports the number in use, a connection can release only what it acquired itself, and the reported peak is neither below any value in use during the interval nor invented.",
  ["schedules", "inputs", "histories"],
  "all interleavings of connections and collector passes, all 32-bit resource counts and maxima, all statistics-interval boundaries",
  "The counter tests run one command at a time with small numbers.",
  ["src/counter/object.hpp", "src/counter/sockets.cpp", "src/counter/counter.cpp", "src/counter/gc.cpp"],
  [("bucket mutex held during each command", "cybozu/hash_map.hpp"), ("consumption compared with the maximum", "src/counter/object.hpp acquire"), ("per-connection record of acquired resources", "src/counter/sockets.cpp on_acquire/on_release")],
  [("consumption", "resources in use", "src/counter/object.hpp m_consumption")], ["client replies"])
p("C12", "Counter resources of a lost connection are released exactly once",
  "When a connection ends in any way at any instant, all resources it still held are returned exactly once within a bounded time: none leaks, none is returned twice, and resources of other connections are untouched. Names still in use are never dropped by the collector.",
  ["fault_sequences", "schedules", "crash_points"],
  "every way and instant of losing a connection during any command sequence, with collector passes interleaved",
  "One test closes one idle connection.",
  ["src/counter/sockets.cpp", "src/counter/object.hpp", "src/counter/gc.cpp", "cybozu/reactor.cpp"],
  [("release on end-of-stream, reset or destruction", "src/counter/sockets.cpp release_all"), ("collector removes only unused names", "src/counter/object.hpp deletable")],
  [("acquired resources", "what a connection holds", "src/counter/sockets.hpp m_acquired_resources")], ["client replies"])
p("C13", "Connections are bounded, accounted and reclaimed",
  "No more than the configured number of client connections is served at a time, and connections within the limit are served. Every ended connection gives back its slot and its descriptor within a bounded time, the reported number of current connections equals the number of open ones once the system is quiet, and running out of descriptors only delays new connections: existing ones keep working and new ones are accepted again when descriptors are free.",
  ["fault_sequences", "schedules", "configurations"],
  "all sequences of opening, losing and closing connections, descriptor limits, accept failures",
  "Tests open a handful of connections and close them properly.",
  ["cybozu/reactor.cpp", "cybozu/reactor.hpp", "cybozu/tcp.cpp", "src/memcache/handler.cpp", "src/counter/handler.cpp", "src/memcache/sockets.hpp", "src/sync.hpp"],
  [("early close and deferred destruction", "cybozu/reactor.cpp remove_resource, src/server.cpp"), ("retry of accept when out of descriptors", "cybozu/tcp.cpp tcp_server_socket::on_readable"), ("connection gauge", "src/memcache/stats.hpp curr_connections")], [], ["client connections", "stats", "open descriptors of the process"])
p("C14", "No data race or use of freed memory under any schedule",
  "Under every interleaving of the server's threads and every timing of connection loss, slave join and loss, collection and shutdown, no memory is used after it was released or outside its bounds, and no two threads access the same data without synchronisation when one of them writes.",
  ["schedules", "fault_sequences"],
  "all interleavings of reactor, workers and collectors with all connection and slave life cycles",
  "Tests run one schedule, with no detector, and never lose a connection at a bad moment.",
  ["cybozu/reactor.hpp", "cybozu/reactor.cpp", "cybozu/tcp.cpp", "cybozu/worker.hpp", "src/sync.hpp", "src/memcache/handler.cpp", "src/server.cpp", MS, "src/counter/sockets.cpp"],
  [("bucket mutexes, socket mutexes, shared mutex per descriptor", "cybozu/hash_map.hpp, cybozu/tcp.hpp, cybozu/reactor.hpp"), ("destruction only after every worker was idle", "src/sync.hpp, src/server.cpp"), ("job hand-over by acquire/release flag", "cybozu/worker.hpp")], [], ["memory accesses of the server code"])
p("C15", "Requests are answered and the server recovers once faults stop",
  "Once faults stop, every request of a connected client that reads its replies is answered within a bounded time, new connections are accepted and served, and collection and replication keep going. A client or slave that stops reading delays others at most until it resumes, goes away or times out; no combination of them stops the server for good.",
  ["schedules", "fault_sequences"],
  "all interleavings, all stalls of clients, slaves and threads, all losses of connections, followed by a fault-free period",
  "A missed wake-up or a lock cycle needs one particular interleaving; tests see whichever the machine produces.",
  ["cybozu/reactor.cpp", "cybozu/tcp.cpp", "cybozu/tcp.hpp", "cybozu/worker.hpp", "src/server.cpp", MS, "src/sync.hpp"],
  [("edge-triggered events with a retry list", "cybozu/reactor.cpp poll, add_readable"), ("writers waiting on a condition variable woken by flush or invalidation", "cybozu/tcp.cpp"), ("slave timeout", "src/memcache/sockets.hpp timed_out")], [], ["client replies within simulated time"])
p("C16", "Large objects are never corrupted by storage faults",
  "An object too large for memory is read back exactly as stored, through overwrite, append, prepend, shrink and growth across the size limit, with any short read or write. When the temporary storage fails (disk full, I/O error, no descriptors), the server never serves a wrong or truncated value; it either answers correctly or stops.",
  ["fault_sequences", "inputs", "histories"],
  "every operation sequence across the size limit and every storage fault at every storage call",
  "Tests use a healthy disk; short writes and errors do not occur.",
  ["src/tempfile.cpp", "src/tempfile.hpp", "src/memcache/object.cpp"],
  [("loops over short reads and writes", "src/tempfile.cpp"), ("errors raised as exceptions that end the process", "cybozu/thread.hpp run_in_try")],
  [("temporary file", "contents of a large object", "src/tempfile.hpp")], ["client replies", "process exit"])
p("C17", "The memory limit is kept by evicting the least recently used items",
  "When stored data exceeds the memory limit, collection evicts unlocked items until it is kept again, preferring items unused for longest, and new stores keep succeeding. Items are never evicted while usage stays below the limit, and an item used since the last collection is not evicted in favour of one left unused for several collections.",
  ["histories", "schedules", "configurations"],
  "all store and access patterns, item sizes, limits and collector phases",
  "Tests never reach the memory limit.",
  ["src/memcache/gc.cpp", "src/memcache/object.hpp", "src/memcache/handler.cpp"],
  [("usage measured and age threshold derived per pass", "src/memcache/gc.cpp"), ("age reset on access", "src/memcache/object.hpp data/touch")],
  [("age", "collections survived since last use", "src/memcache/object.hpp m_gc_old")], ["client replies", "stats"])
p("C18", "Secure erase leaves no stored value in released memory",
  "With secure erase enabled, whenever memory that held a stored value is released because the object was overwritten, extended, shortened, deleted, expired, evicted or flushed, the value's bytes have been overwritten first.",
  ["histories", "inputs"],
  "all sequences of storing, modifying and removing commands, value sizes and protocols",
  "Tests check the clearing primitive, not that every path that releases a value uses it.",
  ["cybozu/dynbuf.hpp", "src/memcache/object.cpp", "cybozu/util.cpp"],
  [("buffers created with the erase flag clear themselves", "cybozu/dynbuf.hpp"), ("object buffers carry the flag", "src/memcache/object.cpp")], [], ["contents of released memory blocks"])
p("C19", "Dead replication links are dropped, live ones are kept",
  "A slave whose heartbeats reach the master is never dropped as timed out, and one that has been silent for longer than the configured timeout is dropped soon after, so that it cannot hold up clients any longer. A slave notices when its link to the master is closed or reset and rejoins; at most the supported number of slaves is attached, and a place freed by a lost slave can be used again.",
  ["fault_sequences", "schedules"],
  "all stalls, partitions, crashes and reconnects of slaves, with and without traffic and collector passes",
  "No test has a slave.",
  ["src/memcache/handler.cpp", MS, "src/memcache/sockets.hpp", "src/server.cpp"],
  [("heartbeat byte each second", "src/memcache/handler.cpp on_slave_interval"), ("last heartbeat compared with the timeout", "src/memcache/sockets.hpp timed_out, src/memcache/handler.cpp on_master_interval")],
  [("last heartbeat", "when the slave was last heard", "src/memcache/sockets.hpp m_last_heartbeat")], ["stats", "connection state"])
p("C20", "Termination signals stop the server promptly from any state",
  "On SIGTERM, SIGINT or SIGQUIT a master or slave exits with status 0 within a bounded time, whatever its threads, clients and slaves are doing at that moment, including clients that do not read. SIGUSR1 and SIGHUP never disturb service.",
  ["schedules", "fault_sequences"],
  "a signal at every instant of every workload",
  "Tests never send a signal to a busy server.",
  ["src/server.cpp", "cybozu/worker.hpp", "cybozu/signal.hpp", "src/memcache/handler.cpp", "cybozu/logger.hpp"],
  [("signal descriptor in the reactor", "cybozu/signal.hpp"), ("invalidate all sockets, stop and join workers and collectors", "src/server.cpp serve_master stop")], [], ["process exit"])
p("C21", "Key dumps list exactly the live keys with the prefix",
  "A key dump lists every key with the given prefix that exists during the whole dump, lists no key that did not exist at any time during it, and lists no key twice, while other commands and collection run.",
  ["schedules", "histories"],
  "all interleavings of dumps with stores, deletes, expirations and collector passes, any key set and prefix",
  "The test dumps an idle server with few keys.",
  [MS, "cybozu/hash_map.hpp", "docs/keys.md"],
  [("bucket by bucket traversal under the bucket mutex", "cybozu/hash_map.hpp foreach")], [], ["client replies"])
p("C22", "No input from a client can crash, hang or mislead the server",
  "Whatever bytes arrive in whatever pieces on the client ports, the server neither stops nor hangs nor grows without bound: malformed requests get an error reply or end only that connection, oversized requests are refused, and other connections keep getting correct answers.",
  ["inputs", "schedules", "fault_sequences"],
  "all byte sequences and segmentations, including truncated, oversized and mixed-protocol requests",
  "Parser tests feed chosen complete requests; the connection loop around the parser is not fed hostile streams.",
  ["src/memcache/memcache.cpp", MS, "src/counter/counter.cpp", "src/counter/sockets.cpp"],
  [("length checks before use", "src/memcache/memcache.cpp, src/counter/counter.cpp parse"), ("request size limit", "src/memcache/sockets.cpp m_recvjob")], [], ["process state", "replies on other connections"])
p("C23", "Reported statistics agree with what happened",
  "Once the system is quiet and a collection has passed, the reported number of items, of bytes in use, of current and total connections, of attached slaves, of hits and misses and of executed commands equal the true numbers for the history of the run.",
  ["histories", "schedules"],
  "all histories of commands, connections, collections and slave joins, under all interleavings",
  "Tests only check that the statistics commands answer.",
  ["src/memcache/stats.hpp", "src/memcache/gc.cpp", MS, "src/memcache/memcache.cpp", "src/counter/gc.cpp", "src/counter/counter.cpp"],
  [("atomic counters", "src/memcache/stats.hpp"), ("item totals computed by each collection", "src/memcache/gc.cpp run")], [], ["stats replies"])
p("P01", "Configuration files are parsed as documented",
  "Every documented configuration item is read with its documented unit, range and default, and an invalid file is refused.",
  ["inputs", "configurations"],
  "all configuration files",
  "Tests use one sample file.",
  ["src/config.cpp", "cybozu/config_parser.cpp"],
  [("table of known items with range checks", "src/config.cpp load")], [], ["process start"])
p("P02", "The key hash is SipHash-2-4",
  "For every key and every seed the hash used to place keys equals SipHash-2-4 of the key's bytes.",
  ["inputs"],
  "all keys up to the maximum length and all seeds",
  "Tests compare the published vectors only.",
  ["cybozu/siphash.cpp"],
  [("SipHash rounds", "cybozu/siphash.cpp")], [], ["hash values"])

out = os.path.join(os.path.dirname(os.path.abspath(__file__)), "..", "properties.jsonl")
with open(out, "w") as f:
    for x in P:
        assert len(x["title"]) <= 80, x["id"]
        f.write(json.dumps(x) + "\n")
print(len(P))
