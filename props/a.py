from props.j import q, mech, NOTE, S, MC
PROPS = [
 dict(id='A01', title='The page allocator never hands out a page that is in use',
  statement='However regions are added, pages taken, observed and given back, and regions pruned, the allocator of pages within allocation units hands out only pages of units it was given that are neither taken nor observed, tracks taken and observed pages exactly, and lets a unit go only when none of its pages is in use. It offers a page whenever one is free. The compiled allocator behaves the same way.',
  quantifier=q(['histories', 'inputs'], 'every sequence of region additions, allocations, observations, releases and prunings, with every choice of page, within the bounds'),
  why_tests_cant='No test runs the allocator, and handing out a page twice needs a particular sequence of allocations, observations and releases.',
  anchors=dict(files=['Splinter/src/allocation_layer/MiniAllocator_v.rs', 'Splinter/src/exec/MiniAllocator_v.rs', 'Splinter/src/disk/GenericDisk_v.rs', 'Splinter/src/spec/ImplDisk_t.rs'],
   mechanism=mech(('page bookkeeping per allocation unit', 'Splinter/src/allocation_layer/MiniAllocator_v.rs'), ('compiled allocator', 'Splinter/src/exec/MiniAllocator_v.rs'), ('page addresses', 'Splinter/src/disk/GenericDisk_v.rs'))),
  technique='explicit-state model checking of all operation sequences, on the specification extracted from the source and on the compiled code', note=NOTE + 'Oracle: sets of given, taken and observed pages. Bounds: 2 units of 2-3 pages. The compiled allocator is the source file with its proofs erased.'),
]
