from props.j import q, mech
MC = 'exhaustive schedule, crash-point and fault exploration of the implementation source, executed step by step'
WHY = 'The existing tests never run the key-value store: its Dafny sources are only parsed or skipped by the build, and the property ranges over every schedule of operations and disk completions and every crash point.'
I = 'Impl/'
NOTE = ('Exhaustive within the printed bounds: every interleaving of client operations and disk completions (in any order), with state deduplication. The Dafny implementation source is parsed and executed on every run, with small node, log and cache sizes. '
        'Trusted: the executor and its stand-ins for the extern natives, the disk stand-in, and that small bounds are representative. ')
CORE = [I + f for f in ['CoordinationImpl.i.dfy', 'CommitterImpl.i.dfy', 'IOImpl.i.dfy', 'Mkfs.i.dfy', 'MainHandlers.i.dfy']]
PROPS = [
 dict(id='V01', title='VeriBetrKV: after any crash, a prefix of the writes, never losing synced ones',
  statement='In the executable VeriBetrKV store (put, delete, clone, sync), whenever the machine crashes, with any subset of the disk writes in flight landing, the store restarts and holds exactly the result of some prefix of the accepted writes, in order. That prefix includes every write accepted before the request of any sync (log-only or full) that was acknowledged, also across repeated crashes, a log that wraps around or is full, split log writes, node splits and evictions. Writes accepted since are never reordered, altered or invented.',
  quantifier=q(['schedules', 'histories', 'crash_points'], 'every interleaving of writes, sync requests and polls, disk completions in any order, and crashes with any subset of outstanding writes on disk'),
  why_tests_cant=WHY,
  anchors=dict(files=CORE + [I + f for f in ['JournalistImpl.i.dfy', 'JournalistMarshallingImpl.i.dfy', 'JournalistParsingImpl.i.dfy', 'CommitterImpl.i.dfy', 'CommitterImpl.i.dfy', 'SyncImpl.i.dfy', 'HandleReadResponseImpl.i.dfy', 'HandleWriteResponseImpl.i.dfy', 'FullImpl.i.dfy', 'MarshallingImpl.i.dfy', 'IndirectionTable.i.dfy', 'BlockAllocatorImpl.i.dfy', 'EvictImpl.i.dfy']],
   mechanism=mech(('superblock, log and tree commits', I + 'CommitterImpl.i.dfy'), ('log recovery and replay', I + 'CommitterImpl.i.dfy'), ('frozen and persistent indirection tables', I + 'SyncImpl.i.dfy'))),
  technique=MC, note=NOTE + 'Oracle: the list of accepted writes with a durable position; recovery is run from every reachable disk.'),
 dict(id='V02', title='VeriBetrKV: reads and scans return exactly the current contents',
  statement='In the executable VeriBetrKV store, an answered get returns the value of the last accepted put of the key (empty if none or deleted), and an answered scan returns exactly the stored pairs of the interval it covers, in key order, starting where asked, within the requested count, and with an end from which a further scan continues without gap or overlap. This holds however the tree was grown, split, flushed, evicted, paged in, restarted or replayed, and while syncs are in progress. Reads never change the contents.',
  quantifier=q(['inputs', 'schedules', 'histories'], 'every sequence of writes over the key alphabet with reads and scans at every point, every order of disk completions, cold and warm caches'),
  why_tests_cant=WHY,
  anchors=dict(files=CORE + [I + f for f in ['QueryImpl.i.dfy', 'SuccImpl.i.dfy', 'InsertImpl.i.dfy', 'FlushImpl.i.dfy', 'FlushPolicyImpl.i.dfy', 'SplitImpl.i.dfy', 'GrowImpl.i.dfy', 'LeafImpl.i.dfy', 'EvictImpl.i.dfy', 'NodeImpl.i.dfy', 'CacheImpl.i.dfy']],
   mechanism=mech(('point queries', I + 'QueryImpl.i.dfy'), ('range queries', I + 'SuccImpl.i.dfy'), ('tree reshaping', I + 'FlushPolicyImpl.i.dfy'))),
  technique=MC, note=NOTE + 'Oracle: a plain ordered map; every key and scans from every start are probed at every state.'),
 dict(id='V03', title='VeriBetrKV: cloning a key range copies it exactly, then both evolve apart',
  statement='In the executable VeriBetrKV store, an accepted clone of prefix A to prefix B makes every key starting with B read as the key starting with A instead did just before, removes all other keys starting with B and changes nothing else; a refused clone changes nothing. Later writes to either side, further or nested clones, flushes into shared nodes, syncs, crashes and restarts never make one side see the other\'s changes, and reads and scans always agree with this.',
  quantifier=q(['inputs', 'schedules', 'histories', 'crash_points'], 'every sequence of clones, puts and deletes over the key alphabet, with reads, scans and a crash at every point'),
  why_tests_cant=WHY,
  anchors=dict(files=[I + f for f in ['CloneImpl.i.dfy', 'NodeImpl.i.dfy', 'CacheImpl.i.dfy', 'FlushImpl.i.dfy', 'SplitImpl.i.dfy', 'SuccImpl.i.dfy', 'QueryImpl.i.dfy', 'CoordinationImpl.i.dfy']] + ['lib/Buckets/TranslationImpl.i.dfy'],
   mechanism=mech(('the root gets translated edges to shared children', I + 'CloneImpl.i.dfy'), ('edge translation on the way down', 'lib/Buckets/TranslationImpl.i.dfy'), ('copy on write of shared nodes', I + 'FlushImpl.i.dfy'))),
  technique=MC, note=NOTE + 'Oracle: a plain ordered map with the clone applied pairwise.'),
 dict(id='V04', title='VeriBetrKV: disk requests never conflict and corrupted reads are never believed',
  statement='In the executable VeriBetrKV store, no disk request is issued that overlaps another one in flight unless both are reads, and none reaches across the superblock, log, indirection-table and node regions of the disk. A read response whose contents were corrupted (a bit flipped) is detected by its checksum: the store may then withhold answers, but every answer it gives and everything it recovers later is still exactly right.',
  quantifier=q(['schedules', 'faults', 'histories'], 'every interleaving of operations and completions, with a corrupted response delivered at any read'),
  why_tests_cant=WHY,
  anchors=dict(files=CORE + [I + f for f in ['DiskOpImpl.i.dfy', 'MarshallingImpl.i.dfy', 'JournalistImpl.i.dfy', 'HandleReadResponseImpl.i.dfy', 'BlockAllocatorImpl.i.dfy']] + ['lib/Checksums/CRC32CImpl.i.dfy'],
   mechanism=mech(('requests and responses', I + 'IOImpl.i.dfy'), ('checksummed blocks', I + 'MarshallingImpl.i.dfy'), ('free space', I + 'BlockAllocatorImpl.i.dfy'))),
  technique=MC, note=NOTE + 'Oracle: interval overlap of the requests in flight; a plain map.'),
 dict(id='V05', title='VeriBetrKV: pending operations can always complete',
  statement='In the executable VeriBetrKV store with a working disk and messages well under the node size, every get, put, delete, log-only sync, full sync, and scan of a store that fits in the cache, once requested, can always still complete: from every reachable state, completing the outstanding disk requests and retrying answers it, also with a full log, a small cache, concurrent requests and after a restart. Clones may be refused.',
  quantifier=q(['schedules', 'histories'], 'from every state reachable by any interleaving of operations and disk completions'),
  why_tests_cant=WHY,
  anchors=dict(files=CORE + [I + f for f in ['SyncImpl.i.dfy', 'CommitterImpl.i.dfy', 'FlushPolicyImpl.i.dfy', 'EvictImpl.i.dfy', 'DeallocImpl.i.dfy', 'QueryImpl.i.dfy', 'SuccImpl.i.dfy']],
   mechanism=mech(('sync requests', I + 'CoordinationImpl.i.dfy'), ('commit progress', I + 'CommitterImpl.i.dfy'), ('making room', I + 'EvictImpl.i.dfy'))),
  technique=MC, note=NOTE + 'Two known findings are reported (see known-findings.txt): an idle log-only sync and a scan larger than the cache.'),
]
NA = []
