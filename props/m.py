MC = 'bounded exhaustive execution of the compiled implementation against an independent oracle'
def q(over, text): return {'over': over, 'text': text}
def mech(*xs): return [{'name': a, 'where': b} for a, b in xs]
M = 'Splinter/src/marshalling/'
NOTE = ('Runs the real code, compiled from the sources on each run: every value, operation sequence and buffer within the printed bounds is executed. '
        'Trusted: the compiler, the oracle, and that small bounds are representative. ')
WHY = 'The existing tests are verifier results for individual functions whose own specifications may be changed with the code; some of the functions are not covered at all, and none is ever executed.'
PROPS = [
 dict(id='M01', title='Marshalled data parses back to itself; parsing any bytes is safe',
  statement='In Splinter\'s marshalling library (fixed-width integers, fixed-size and length-prefixed sequences, key-value pairs), marshalling a value writes exactly its announced size at the requested offset, leaves every other byte alone, and parsing those bytes yields the same value; integers are little-endian of their fixed width. Parsing depends only on the bytes of the given slice, and arbitrary bytes are either rejected or parse to a value, without a crash or memory demand out of proportion to the input.',
  quantifier=q(['inputs'], 'every value within the bounds, every placement in a buffer, and every byte string over a chosen alphabet up to a length'),
  why_tests_cant=WHY,
  anchors=dict(files=[M + f for f in ['IntegerMarshalling_v.rs', 'UniformSizedSeq_v.rs', 'ResizableUniformSizedSeq_v.rs', 'KVPairFormat_v.rs', 'Marshalling_v.rs', 'Slice_v.rs']],
   mechanism=mech(('parse and marshal of values', M + 'Marshalling_v.rs'), ('length field then elements', M + 'ResizableUniformSizedSeq_v.rs'))),
  technique=MC, note=NOTE + 'Oracle: hand-written encoder and plain Rust values.'),
 dict(id='M02', title='Sequences edited in place in a byte buffer behave like plain vectors',
  statement='Splinter\'s in-place sequence formats (fixed-length, resizable, and sequences of variable-size elements) behave like vectors under every sequence of append, set, resize and get: each element reads back as last written, the length is what the operations made it, and no operation changes another element or a byte outside the sequence. An append or set is possible exactly when the value fits in the space or length the buffer offers, and the whole-sequence parse always agrees with the element-wise reads. On arbitrary bytes the accessors answer or decline but never crash or read outside the slice.',
  quantifier=q(['inputs', 'histories'], 'every sequence of in-place operations up to a depth on buffers of several sizes, and every byte string over a chosen alphabet up to a length'),
  why_tests_cant=WHY,
  anchors=dict(files=[M + f for f in ['SeqMarshalling_v.rs', 'ResizableUniformSizedSeq_v.rs', 'VariableSizedElementSeq_v.rs', 'UniformSizedSeq_v.rs', 'Slice_v.rs']],
   mechanism=mech(('resizable sequence: length field and capacity', M + 'ResizableUniformSizedSeq_v.rs'), ('boundary table growing toward the elements', M + 'VariableSizedElementSeq_v.rs'))),
  technique=MC, note=NOTE + 'Oracle: a plain vector plus the space arithmetic of each format.'),
]
