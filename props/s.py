MC = 'explicit-state model checking of the state machine extracted from the source on every run'
def q(over, text): return {'over': over, 'text': text}
def mech(*xs): return [{'name': a, 'where': b} for a, b in xs]
NOTE = ('Exhaustive within the printed bounds. The model is the source text itself (parsed and interpreted on each run), so there is no separate model to drift; '
        'trusted: the interpreter, the independent observer, and that small bounds are representative. ')
PROPS = [
 dict(id='S01', title='Crash-safe store: synced data survives, crashes lose only a suffix',
  statement='In the journaled key-value system every query returns the value of the latest executed put to that key; a crash brings back exactly the point of the execution order that the last superblock write to land made durable, which is never older than an acknowledged sync and loses only a suffix of the puts. A request is executed and answered at most once, with the reply computed at its execution. Outside of crashes the system can always still execute an accepted request, deliver its reply and acknowledge an outstanding sync.',
  quantifier=q(['histories', 'crash_points', 'schedules'], 'every interleaving of client requests, syncs, background map freezes, superblock writes, commits, recovery and crashes'),
  why_tests_cant='The only tests are per-function verification results of a marshalling subset; nothing in them executes or checks the crash-aware system, and the property ranges over all interleavings of crashes with commits.',
  anchors=dict(files=['Splinter/src/abstract_system/AbstractCrashAwareSystem_v.rs', 'Splinter/src/abstract_system/AbstractCrashAwareJournal_v.rs', 'Splinter/src/abstract_system/AbstractCrashAwareMap_v.rs', 'Splinter/src/abstract_system/AbstractJournal_v.rs', 'Splinter/src/abstract_system/AbstractMap_v.rs', 'Splinter/src/abstract_system/MsgHistory_v.rs', 'Splinter/src/abstract_system/StampedMap_v.rs'],
   mechanism=mech(('journal + frozen map committed by one superblock', 'Splinter/src/abstract_system/AbstractCrashAwareSystem_v.rs'), ('journal truncation and replay', 'Splinter/src/abstract_system/MsgHistory_v.rs'))),
  technique=MC, note=NOTE + 'Oracle: subset-construction observer over client events only; progress by backward reachability over the explored graph.'),
]
