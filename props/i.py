MC = 'explicit-state model checking of the state machine extracted from the source on every run'
def q(over, text): return {'over': over, 'text': text}
def mech(*xs): return [{'name': a, 'where': b} for a, b in xs]
NOTE = ('Exhaustive within the printed bounds. The model is the source text itself (parsed and interpreted on each run), so there is no separate model to drift; '
        'trusted: the interpreter, the independent observer, and that small bounds are representative. ')
PROPS = [
 dict(id='S02', title='The top-level specification is itself a crash-tolerant key-value map',
  statement='In every behaviour the top-level map specification allows, a query returns the latest executed put, a crash keeps exactly the durable version and drops later ones, and an acknowledged sync means everything executed before its request is durable. A request or sync that is still outstanding is not accepted a second time and is answered once. Requests, replies and syncs can always still be completed outside of crashes.',
  quantifier=q(['histories', 'crash_points', 'schedules'], 'every interleaving of requests, executions, replies, version persistence, syncs and crashes the specification admits'),
  why_tests_cant='A specification that is too weak makes every proof below it pass; no test executes the specification.',
  anchors=dict(files=['Splinter/src/spec/MapSpec_t.rs', 'Splinter/src/spec/FloatingSeq_t.rs', 'Splinter/src/spec/TotalKMMap_t.rs', 'Splinter/src/spec/Messages_t.rs'],
   mechanism=mech(('versions with a stable prefix', 'Splinter/src/spec/MapSpec_t.rs'), ('floating sequence of versions', 'Splinter/src/spec/FloatingSeq_t.rs'))),
  technique=MC, note=NOTE + 'Oracle: subset-construction observer over client events only.'),
 dict(id='I01', title='The implementation-level store is crash tolerant on an asynchronous disk',
  statement='The store as its implementation drives it (one superblock, asynchronous disk reads and writes) answers every query with the latest executed put; after a crash at any point, including with disk operations in flight, it recovers exactly the state of the last superblock write that reached the disk, and a sync reply is given only when everything executed before that sync was taken up has reached the disk. No request or sync id is accepted twice and every reply answers its own request. Outside of crashes, recovery completes and accepted requests and syncs can always still be completed.',
  quantifier=q(['histories', 'crash_points', 'schedules', 'faults'], 'every interleaving of client requests, syncs, program steps, disk reads and writes being processed, crashes and recoveries'),
  why_tests_cant='The tests never run the program model against a disk; the property ranges over all interleavings of disk completions and crashes.',
  anchors=dict(files=['Splinter/src/implementation/AtomicState_v.rs', 'Splinter/src/implementation/ConcreteProgramModel_v.rs', 'Splinter/src/implementation/DiskLayout_v.rs', 'Splinter/src/trusted/SystemModel_t.rs', 'Splinter/src/spec/AsyncDisk_t.rs'],
   mechanism=mech(('in-flight superblock write and persistent version', 'Splinter/src/implementation/AtomicState_v.rs'), ('asynchronous disk', 'Splinter/src/spec/AsyncDisk_t.rs'), ('system model', 'Splinter/src/trusted/SystemModel_t.rs'))),
  technique=MC, note=NOTE + 'Oracle: the client-history observer of S01. The uninterpreted marshalling of the superblock is taken to be injective.'),
 dict(id='I02', title='The cached journal keeps the log across write-back, eviction and crashes',
  statement='The journal composed with its page cache and an asynchronous disk always holds, in cache, disk and memory together, exactly the messages put since the last discard; recovery reads return only those, and the reported end of the log is its end. A snapshot is handed out only when the disk alone holds it, it stays intact there, and after a crash at any point the journal starts again from it with exactly its messages. The complete log can always still be written out and snapshotted while there is a free page.',
  quantifier=q(['histories', 'crash_points', 'schedules', 'faults'], 'every interleaving of puts, record writes, page reservations, loads, write-backs, evictions, disk completions, snapshots, discards and crashes'),
  why_tests_cant='No test runs the cache or the cached journal; stale pages, lost write-backs and reused pages need particular interleavings of evictions, disk completions and crashes.',
  anchors=dict(files=['Splinter/src/implementation/JournalCoordinationSystem_v.rs', 'Splinter/src/implementation/CachedJournal_v.rs', 'Splinter/src/implementation/Cache_v.rs', 'Splinter/src/spec/AsyncDisk_t.rs'],
   mechanism=mech(('journal metadata over cached pages', 'Splinter/src/implementation/CachedJournal_v.rs'), ('page cache slots and write-back', 'Splinter/src/implementation/Cache_v.rs'), ('snapshots only of clean pages', 'Splinter/src/implementation/JournalCoordinationSystem_v.rs'))),
  technique=MC, note=NOTE + 'Oracle: an independent append/truncate log, read back by walking the records in the cached and on-disk pages. The uninterpreted page marshalling is taken to be injective; pages are reserved only for messages waiting to be written and only where the journal keeps nothing.'),
 dict(id='I03', title='The executable key-value program answers and survives crashes correctly',
  statement='The compiled key-value program answers every client request at most once, with a reply of its own kind, and once the disk has answered its outstanding requests every accepted put, query, no-op and sync has been answered. After a crash at any time, also while superblock reads or writes are in flight, the image on disk is a prefix of the accepted puts in order that contains every put covered by an answered sync, and the restarted program continues from exactly that image.',
  quantifier=q(['histories', 'crash_points', 'schedules', 'faults'], 'every order of client requests, polls, disk completions, crashes and restarts within the bounds'),
  why_tests_cant='The existing tests do not compile the program at all, and lost syncs or lost puts need particular orders of requests, disk completions and crashes.',
  anchors=dict(files=['Splinter/src/implementation/Implementation_v.rs', 'Splinter/src/implementation/DiskLayout_v.rs', 'Splinter/src/trusted/TrustedEntry_t.rs', 'Splinter/src/trusted/KVStoreTrait_t.rs', 'Splinter/src/trusted/ClientAPI_t.rs'],
   mechanism=mech(('request handling, sync queue and superblock writes', 'Splinter/src/implementation/Implementation_v.rs'), ('entry point', 'Splinter/src/trusted/TrustedEntry_t.rs'), ('superblock location', 'Splinter/src/implementation/DiskLayout_v.rs'))),
  technique='stateless model checking of the real program: exhaustive enumeration of the environment schedules (requests, disk completions, crashes) of the compiled code', note='The source files are compiled with their proofs erased and driven through the entry point; the client interface and the (unwritten) superblock codec are replaced by stand-ins that record what the program does. Oracle: the ordered list of accepted puts and answered syncs. The source leaves answering queries unwritten: a known finding. Trusted: the stand-ins and the Verus macros that erase the proofs.'),
]
