MC = 'explicit-state model checking of the state machine extracted from the source on every run'
def q(over, text): return {'over': over, 'text': text}
def mech(*xs): return [{'name': a, 'where': b} for a, b in xs]
NOTE = ('Exhaustive within the printed bounds. The model is the source text itself (parsed and interpreted on each run), so there is no separate model to drift; '
        'trusted: the interpreter, the independent observer, and that small bounds are representative. ')
S = 'Splinter/src/'
WHY = 'The existing tests are per-function verification results of a marshalling subset; none executes or checks this protocol, and the property ranges over every history and crash point.'
PROPS = [
 dict(id='J01', title='The journal returns exactly the messages written, in order, after recovery',
  statement='In the abstract and paged journals of Splinter, whatever is appended is what recovery reads back: each log position yields the message written there, positions are contiguous, and the reported end of the log is right. Freezing for a commit yields a snapshot holding exactly the messages from the requested start to the durable end, discarding old messages drops exactly those before the boundary, internal marshalling changes nothing visible, and no step is accepted with a message, boundary or snapshot that contradicts the history. Every legal append, freeze, discard, marshal and read is always possible.',
  quantifier=q(['histories', 'crash_points'], 'every sequence of appends, marshals, discards, freezes and recoveries, with every choice of boundary'),
  why_tests_cant=WHY,
  anchors=dict(files=[S + f for f in ['abstract_system/AbstractJournal_v.rs', 'abstract_system/MsgHistory_v.rs', 'journal/PagedJournal_v.rs']],
   mechanism=mech(('message history algebra', S + 'abstract_system/MsgHistory_v.rs'), ('receipt chain, crop and discard', S + 'journal/PagedJournal_v.rs'))),
  technique=MC, note=NOTE + 'Oracle: a plain vector of messages with its start.'),
 dict(id='J02', title='The on-disk linked journal keeps all live log pages reachable and intact',
  statement='In the journal stored as a linked list of disk pages (with and without the reference-count layer), recovery reads back exactly the messages appended, freezing yields exactly the requested range, and discarding drops exactly the older messages. A step never overwrites a page still needed by the log, never drops a page that a live log position or a frozen snapshot needs, keeps the recorded reference of each page equal to the actual ones, and never accepts a read, boundary or page choice contradicting the history. Every legal append, marshal, freeze, discard and read is always possible.',
  quantifier=q(['histories', 'crash_points'], 'every sequence of appends, marshals onto any free page, discards, freezes, and recoveries'),
  why_tests_cant=WHY,
  anchors=dict(files=[S + f for f in ['journal/LinkedJournal_v.rs', 'allocation_layer/LikesJournal_v.rs', 'disk/GenericDisk_v.rs', 'abstract_system/MsgHistory_v.rs']],
   mechanism=mech(('page chain, crop and cropped discard', S + 'journal/LinkedJournal_v.rs'), ('likes accounting', S + 'allocation_layer/LikesJournal_v.rs'))),
  technique=MC, note=NOTE + 'Oracle: a plain vector of messages with its start; page contents compared against it through an independent walk of the disk. States are identified up to renaming of page addresses.'),
 dict(id='J03', title='The allocating journal gets, uses and frees disk units without losing data',
  statement='In the journal that carves its pages out of allocation units, recovery reads back exactly the appended messages, freezes and discards keep exactly the right ones, and the index from log position to allocation unit always names the unit that holds it. A unit is released exactly when no live page is in it, a freshly marshalled page lands on an unused page of a unit the journal owns, and the journal never claims a unit it was not given or writes over live data. Every legal append, marshal, fill, prune, freeze, discard and read is always possible.',
  quantifier=q(['histories', 'crash_points'], 'every sequence of allocator fills and prunes, appends, marshals, discards, freezes and recoveries'),
  why_tests_cant=WHY,
  anchors=dict(files=[S + f for f in ['allocation_layer/AllocationJournal_v.rs', 'allocation_layer/MiniAllocator_v.rs', 'journal/LinkedJournal_v.rs', 'disk/GenericDisk_v.rs']],
   mechanism=mech(('position-to-unit index and unit-wise discard', S + 'allocation_layer/AllocationJournal_v.rs'), ('page allocation within a unit', S + 'allocation_layer/MiniAllocator_v.rs'))),
  technique=MC, note=NOTE + 'Oracle: message vector plus page-to-unit bookkeeping kept by the observer. States are identified up to renaming of allocation units.'),
 dict(id='J04', title='The crash-tolerant journal survives crashes at exactly its last commit',
  statement='In the abstract crash-tolerant journal, a crash always brings back exactly a snapshot that was persisted: the last completed commit, or the one in flight if its write reached the disk. Messages present are never altered or reordered by loading, commits or truncation; a sync is reported only when the end it names is persistent; a commit truncates only what it was told to, and the log can be reloaded, read, appended to and committed after any crash. No label that contradicts the history is accepted.',
  quantifier=q(['histories', 'crash_points', 'schedules'], 'every interleaving of loads, reads, appends, internal steps, commit starts, commit completions and crashes'),
  why_tests_cant=WHY,
  anchors=dict(files=[S + f for f in ['abstract_system/AbstractCrashAwareJournal_v.rs', 'abstract_system/AbstractJournal_v.rs', 'abstract_system/MsgHistory_v.rs']],
   mechanism=mech(('persistent, in-flight and ephemeral copies', S + 'abstract_system/AbstractCrashAwareJournal_v.rs'))),
  technique=MC, note=NOTE + 'Oracle: message vectors for the persistent, in-flight and current log.'),
 dict(id='J05', title='Crash-aware disk journal: commits survive, no disk unit leaks or is reused',
  statement='In the crash-aware journals built on allocation units (the one keeping separate copies and the one sharing a single disk), a crash brings back exactly the last committed snapshot or the one in flight, with every message intact, and everything legal stays possible afterwards. A commit releases exactly the units that no live, frozen or persistent snapshot needs: no unit needed after any possible crash is handed back or overwritten, none is handed back twice, and none is lost. Reads, syncs, appends and commits never accept a label that contradicts the history.',
  quantifier=q(['histories', 'crash_points', 'schedules'], 'every interleaving of allocations, appends, internal marshals, commits, completions, truncations, reads and crashes'),
  why_tests_cant=WHY,
  anchors=dict(files=[S + f for f in ['allocation_layer/AllocationCrashAwareJournal_v.rs', 'allocation_layer/UnifiedCrashAwareJournal_v.rs', 'allocation_layer/AllocationJournal_v.rs', 'allocation_layer/MiniAllocator_v.rs', 'journal/LinkedJournal_v.rs', 'disk/GenericDisk_v.rs']],
   mechanism=mech(('commit and discard of units', S + 'allocation_layer/AllocationCrashAwareJournal_v.rs'), ('one disk shared by all copies', S + 'allocation_layer/UnifiedCrashAwareJournal_v.rs'))),
  technique=MC, note=NOTE + 'Oracle: message vectors per copy plus an independent owner map of allocation units. States are identified up to renaming of allocation units.'),
]
