from props.j import q, mech, NOTE, S, MC
WHY = 'The existing tests are per-function verification results of a marshalling subset; nothing executes or checks the tree, and the property ranges over every shape the tree can reach.'
B = S + 'betree/'
PROPS = [
 dict(id='B01', title='The in-memory B-epsilon-tree layers answer every query like a plain map',
  statement='In the paged, pivot and filtered B-epsilon-trees of Splinter, however the tree has been reshaped by memtable flushes, growing the root, splitting children, flushing buffers to children and compacting buffers, the query of every key is possible and gives the value of the last put, or the default, with the current history end; queries and internal steps never change what any key reads. A wrong query answer or a put that is not the next in the history is never accepted. Freezing gives an image with exactly the current contents, freezing is always within reach, and a tree restarted from such an image holds those contents.',
  quantifier=q(['histories', 'crash_points'], 'every sequence of puts, reshaping steps with every choice of path, child, pivot and buffer range, freezes and restarts'),
  why_tests_cant=WHY,
  anchors=dict(files=[B + f for f in ['PagedBetree_v.rs', 'PivotBetree_v.rs', 'FilteredBetree_v.rs', 'PivotTable_v.rs', 'Buffer_v.rs', 'BufferSeq_v.rs', 'BufferOffsets_v.rs', 'OffsetMap_v.rs', 'Memtable_v.rs', 'SplitRequest_v.rs', 'Domain_v.rs']],
   mechanism=mech(('query receipts and message merging', B + 'PagedBetree_v.rs'), ('pivots, splits and flushes', B + 'PivotBetree_v.rs'), ('per-child flushed offsets and compaction', B + 'FilteredBetree_v.rs'))),
  technique=MC, note=NOTE + 'Oracle: a plain map with a history position, and a separate walk of the tree. Bounds: 2 keys, 2 puts, up to 4 reshaping steps, height 3.'),
 dict(id='B02', title='The on-disk B-epsilon-tree: right answers and exact reference counts',
  statement='In the B-epsilon-tree stored as linked disk pages, in the layer counting references per page and the layer counting them per allocation unit, every key can be queried and yields the last value put, whatever flushes, growth, splits and compactions happened; no wrong answer is accepted and no internal step changes an answer. After every step the recorded reference counts of tree pages and of buffers (or of their allocation units) equal the references that exist in the tree, every referenced page and buffer is present, and no step writes over a page in use. Freezing gives an image with exactly the current contents and stays within reach.',
  quantifier=q(['histories', 'crash_points'], 'every sequence of puts, reshaping steps with every choice of path, child, buffer range and placement of the new pages, freezes and restarts'),
  why_tests_cant=WHY,
  anchors=dict(files=[B + f for f in ['LinkedBetree_v.rs', 'BufferDisk_v.rs', 'LinkedSeq_v.rs', 'BufferOffsets_v.rs', 'PivotTable_v.rs', 'Buffer_v.rs']] + [S + 'allocation_layer/' + f for f in ['LikesBetree_v.rs', 'AllocationBetree_v.rs', 'Likes_v.rs']],
   mechanism=mech(('path substitution, flush, split and compaction on linked pages', B + 'LinkedBetree_v.rs'), ('reference counting', S + 'allocation_layer/LikesBetree_v.rs'), ('counting per allocation unit', S + 'allocation_layer/AllocationBetree_v.rs'))),
  technique=MC, note=NOTE + 'Oracle: a plain map, and references recounted by a separate walk of the pages. States are identified up to renaming of addresses. Bounds: 2 keys, 2 puts, 3 reshaping steps, height 3.'),
 dict(id='B03', title='Sealed buffer trees: every key kept, pages accounted for',
  statement='A buffer kept as a B+ tree (in memory, as linked disk pages, or as pages taken from an allocator) holds after every sequence of inserts, appends, growths and splits exactly the keys and messages put into it, each in the one leaf a search reaches: every query returns the message last written or a no-change message, every key has exactly one leaf, and a run that is not new and sorted is never accepted as an append. Growing and splitting change no answer and use only pages not in use. The tree built from allocated pages has handed out exactly the pages it consists of; sealing it gives back every unit it does not use, stores a summary naming exactly the units its pages are in, and nothing can be built on it afterwards.',
  quantifier=q(['histories'], 'every sequence of inserts, appends, growths, splits, allocator fills and sealing, with every key, run, pivot, split position and page placement within the bounds'),
  why_tests_cant=WHY,
  anchors=dict(files=[B + f for f in ['PivotBranch_v.rs', 'LinkedBranch_v.rs']] + [S + 'allocation_layer/' + f for f in ['AllocationBranch_v.rs', 'MiniAllocator_v.rs']] + [S + 'spec/KeyType_t.rs'],
   mechanism=mech(('search, insert, append, grow and split of the in-memory tree', B + 'PivotBranch_v.rs'), ('the same on linked pages', B + 'LinkedBranch_v.rs'), ('building on allocated pages and sealing', S + 'allocation_layer/AllocationBranch_v.rs'), ('page allocator', S + 'allocation_layer/MiniAllocator_v.rs'))),
  technique=MC, note=NOTE + 'Oracle: a sorted map and an own walk of the pages. States of the allocating tree are identified up to renaming of units and of the pages inside one. Growing is not an event of the allocating tree in the source; the check performs it as page allocation followed by growth. Bounds: 4 keys, 1 insert, 1 append, 2 grows, 2 splits (allocating tree 2 units of 3 pages).'),
 dict(id='B04', title='A tree of allocated buffers: build, flush, split, compact, exact units',
  statement='In the B-epsilon-tree whose buffers are B+ trees built beside it on allocation units, every key can be queried and yields the last value put whatever buffers were built, flushed, compacted or abandoned meanwhile, and a compaction completes with a buffer holding what the live contents of its inputs hold and with no other. A unit is taken only when nothing uses it, and is given back exactly when neither the tree, nor a compaction still reading a buffer, nor a buffer being built has a page on it: none is given back too early, twice, or never. Buffers being compacted stay as they are until the compaction ends, and the recorded reference counts of units equal the references that exist.',
  quantifier=q(['histories', 'schedules'], 'every interleaving of puts, steps of building a buffer, memtable flushes, root growth, splits, flushes to children and beginning, finishing and abandoning compactions, with every choice of node, buffer range, contents and placement of the new pages'),
  why_tests_cant=WHY,
  anchors=dict(files=[S + 'allocation_layer/' + f for f in ['AllocationBranchBetree_v.rs', 'AllocationBranch_v.rs', 'MiniAllocator_v.rs', 'AllocationBetree_v.rs', 'LikesBetree_v.rs', 'Likes_v.rs']] + [B + f for f in ['LinkedBetree_v.rs', 'LinkedBranch_v.rs', 'BufferDisk_v.rs', 'LinkedSeq_v.rs']],
   mechanism=mech(('units of tree pages, buffers, compactions and buffers being built', S + 'allocation_layer/AllocationBranchBetree_v.rs'), ('buffers as branches', S + 'allocation_layer/AllocationBranch_v.rs'), ('flush, split and compaction on linked pages', B + 'LinkedBetree_v.rs'))),
  technique=MC, note=NOTE + 'Oracle: a plain map, a ledger of units given and taken, references recounted and pages walked separately. States are identified up to renaming of units. Bounds: 2 keys, 2 puts, one buffer being built on at most 2 units, 2 compactions, height 2; from an empty tree 4 steps, and 1 to 2 steps after each of nine scripted approaches (explored with all their choices).'),
]
