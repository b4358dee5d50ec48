// Exhaustive exploration of the marshalling code compiled from the repository's sources.
// Linked in beside this file by the runner: marshalling/ and marshalling.rs of Splinter/src.
#![verifier::loop_isolation(false)]
#![verifier::deprecated_postcondition_mut_ref_style(true)]
#![verifier::exec_allows_no_decreases_clause]
#![allow(warnings)]
pub mod marshalling;
use crate::marshalling::IntegerMarshalling_v::*;
use crate::marshalling::KVPairFormat_v::*;
use crate::marshalling::Marshalling_v::*;
use crate::marshalling::ResizableUniformSizedSeq_v::*;
use crate::marshalling::SeqMarshalling_v::*;
use crate::marshalling::Slice_v::*;
use crate::marshalling::UniformSizedSeq_v::*;
use crate::marshalling::UniformSized_v::*;
use crate::marshalling::VariableSizedElementSeq_v::*;
use std::alloc::{GlobalAlloc, Layout, System};
use std::collections::{BTreeMap, HashSet, VecDeque};
use std::fmt::Debug;
use std::panic::{catch_unwind, AssertUnwindSafe};
use std::cell::RefCell;

// ---- plumbing -------------------------------------------------------------------------------
thread_local! { static CASE: RefCell<String> = RefCell::new(String::new()); }
/// An allocation far beyond the buffers in use aborts a real process; report it as a crash.
struct Guard;
unsafe impl GlobalAlloc for Guard {
    unsafe fn alloc(&self, l: Layout) -> *mut u8 {
        if l.size() > 256 << 20 {
            let mut b = [0u8; 20];
            let mut n = l.size();
            let mut i = 20;
            while n > 0 { i -= 1; b[i] = b'0' + (n % 10) as u8; n /= 10; }
            out(b"VIOL parsing ");
            CASE.with(|c| out(c.borrow().as_bytes()));
            out(b" asks for ");
            out(&b[i..]);
            out(b" bytes of memory\n");
            libc_exit();
        }
        System.alloc(l)
    }
    unsafe fn dealloc(&self, p: *mut u8, l: Layout) { System.dealloc(p, l) }
}
#[global_allocator]
static G: Guard = Guard;
extern "C" { fn write(fd: i32, p: *const u8, n: usize) -> isize; fn _exit(c: i32) -> !; }
fn out(b: &[u8]) { unsafe { write(1, b.as_ptr(), b.len()); } }
fn libc_exit() -> ! { unsafe { _exit(1) } }

pub struct St { states: u64, trans: u64, oc: BTreeMap<String, u64> }
impl St {
    fn oc(&mut self, s: &str) { *self.oc.entry(s.into()).or_insert(0) += 1; }
}
fn viol(s: String) -> ! {
    out(format!("VIOL {}\n", s.replace('\n', " ")).as_bytes());
    libc_exit()
}
macro_rules! ck { ($c:expr, $($a:tt)*) => { if !$c { viol(format!($($a)*)) } } }
fn set_case(s: String) { CASE.with(|c| *c.borrow_mut() = s) }
/// run code of the repository; a panic is a violation
fn run<T>(what: &dyn Fn() -> String, f: impl FnOnce() -> T) -> T {
    match catch_unwind(AssertUnwindSafe(f)) {
        Ok(x) => x,
        Err(e) => {
            let m = e.downcast_ref::<String>().cloned().or(e.downcast_ref::<&str>().map(|s| s.to_string())).unwrap_or_default();
            viol(format!("{} panics: {}", what(), m))
        }
    }
}

// ---- generic marshal checks -----------------------------------------------------------------
fn buffers(alpha: &[u8], len: usize, f: &mut dyn FnMut(&[u8])) {
    let mut v = vec![alpha[0]; len];
    let mut ix = vec![0usize; len];
    loop {
        f(&v);
        let mut i = 0;
        loop {
            if i == len { return }
            ix[i] += 1;
            if ix[i] < alpha.len() { v[i] = alpha[ix[i]]; break }
            ix[i] = 0;
            v[i] = alpha[0];
            i += 1;
        }
    }
}
/// every value: size, placement, untouched surroundings, parse gives the value back
fn round_trip<F: Marshal>(st: &mut St, n: &str, f: &F, vals: &[F::U], size: &dyn Fn(&F::U) -> usize, dbg: &dyn Fn(&F::U) -> String) {
    for v in vals {
        st.states += 1;
        let sz = run(&|| format!("{}: size of {}", n, dbg(v)), || f.exec_size(v));
        ck!(sz == size(v), "{}: size of {} reported as {}, takes {}", n, dbg(v), sz, size(v));
        for start in 0..3usize {
            for slack in 0..3usize {
                for fill in [0u8, 0xa5, 0xff] {
                    st.trans += 1;
                    let mut d = vec![fill; start + sz + slack];
                    let end = run(&|| format!("{}: marshalling {} at {} into {} bytes", n, dbg(v), start, start + sz + slack), || f.exec_marshall(v, &mut d, start));
                    ck!(end == start + sz, "{}: marshalling {} at {} ends at {}, size {}", n, dbg(v), start, end, sz);
                    ck!(d.len() == start + sz + slack, "{}: marshalling {} changed the buffer length", n, dbg(v));
                    ck!(d[..start].iter().chain(&d[end..]).all(|b| *b == fill), "{}: marshalling {} at {} touched bytes outside {}..{}: {:?}", n, dbg(v), start, start, end, d);
                    let s = Slice { start, end };
                    let w = || format!("{}: parsing the marshalled {} at {}", n, dbg(v), start);
                    let p = run(&w, || f.try_parse(&s, &d));
                    ck!(p.is_some(), "{}: marshalled {} does not parse: {:?}", n, dbg(v), &d[start..end]);
                    let p = p.unwrap();
                    ck!(dbg(&p) == dbg(v), "{}: marshalled {} parses as {} (bytes {:?})", n, dbg(v), dbg(&p), &d[start..end]);
                    ck!(run(&w, || f.exec_parsable(&s, &d)), "{}: marshalled {} reported unparsable", n, dbg(v));
                    let p = run(&w, || f.exec_parse(&s, &d));
                    ck!(dbg(&p) == dbg(v), "{}: marshalled {} parses (unchecked) as {}", n, dbg(v), dbg(&p));
                    st.oc("value parsed back");
                }
            }
        }
    }
}
/// every byte string: parsing ends with a value or none, looks only at its slice, and a value survives
fn any_bytes<F: Marshal>(st: &mut St, n: &str, f: &F, alpha: &[u8], max: usize, dbg: &dyn Fn(&F::U) -> String, size_ok: &dyn Fn(usize, usize) -> bool) {
    for len in 0..=max {
        buffers(alpha, len, &mut |b| {
            st.states += 1;
            let mut res: Option<Option<String>> = None;
            for (pre, post, fill) in [(0, 0, 0u8), (2, 1, 0xff), (1, 3, 0)] {
                st.trans += 1;
                let mut d = vec![fill; pre];
                d.extend_from_slice(b);
                d.extend(std::iter::repeat(fill).take(post));
                let s = Slice { start: pre, end: pre + len };
                set_case(format!("{} from {:?}", n, b));
                let w = || format!("{}: parsing {:?} (slice {}..{} of {:?})", n, b, pre, pre + len, d);
                let keep = d.clone();
                let p = run(&w, || f.try_parse(&s, &d));
                let able = run(&w, || f.exec_parsable(&s, &d));
                ck!(able == p.is_some(), "{}: {:?} reported parsable={} but parse gives {:?}", n, b, able, p.as_ref().map(|p| dbg(p)));
                let r = p.as_ref().map(|p| dbg(p));
                if let Some(x) = &res {
                    ck!(*x == r, "{}: {:?} parses as {:?} or {:?} depending on bytes outside its slice", n, b, x, r);
                }
                if let (Some(v), true) = (&p, pre == 0) {
                    let q = run(&w, || f.exec_parse(&s, &d));
                    ck!(dbg(&q) == dbg(v), "{}: {:?} parses as {} or, unchecked, {}", n, b, dbg(v), dbg(&q));
                    let sz = run(&w, || f.exec_size(v));
                    ck!(size_ok(sz, len), "{}: {:?} ({} bytes) parses as {} whose size is {}", n, b, len, dbg(v), sz);
                    let mut e = vec![0u8; sz];
                    run(&w, || f.exec_marshall(v, &mut e, 0));
                    let q = run(&w, || f.try_parse(&Slice { start: 0, end: sz }, &e));
                    ck!(q.as_ref().map(|q| dbg(q)) == Some(dbg(v)), "{}: {} parsed from {:?} does not survive marshalling: {:?}", n, dbg(v), b, q.map(|q| dbg(&q)));
                    st.oc("arbitrary bytes accepted");
                } else if p.is_none() {
                    st.oc("arbitrary bytes rejected");
                }
                res = Some(r);
            }
        });
    }
}
fn edge(bits: u32) -> Vec<u64> {
    let max = if bits == 64 { u64::MAX } else { (1u64 << bits) - 1 };
    let mut v = vec![0, 1, 2, 0x0102030405060708 & max, 0xfedcba9876543210 & max, max, max - 1];
    for i in 0..bits {
        v.push(1u64 << i);
        v.push((1u64 << i).wrapping_sub(1) & max);
        v.push(max ^ (1u64 << i));
    }
    v.sort();
    v.dedup();
    v
}
const A8: [u8; 8] = [0, 1, 2, 3, 5, 0x7f, 0x80, 0xff];
const A5: [u8; 5] = [0, 1, 2, 4, 0xff];

fn ints(st: &mut St, th: bool) {
    let d8 = |v: &u8| format!("{:?}", v);
    round_trip(st, "u8", &IntFormat::<u8>::new(), &(0..=255).collect::<Vec<u8>>(), &|_| 1, &d8);
    let all16: Vec<u16> = if th { (0..=u16::MAX).collect() } else { (0..=u16::MAX).step_by(7).chain(edge(16).into_iter().map(|x| x as u16)).collect() };
    let d16 = |v: &u16| format!("{:?}", v);
    let d32 = |v: &u32| format!("{:?}", v);
    let d64 = |v: &u64| format!("{:?}", v);
    round_trip(st, "u16", &IntFormat::<u16>::new(), &all16, &|_| 2, &d16);
    let mut v32 = edge(32);
    let mut v64 = edge(64);
    let bytes = [0u64, 1, 0x7f, 0x80, 0xff];
    buffers(&[0, 1, 2, 3, 4], 4, &mut |b| v32.push(b.iter().fold(0, |a, x| a << 8 | bytes[*x as usize])));
    buffers(&[0, 1, 4], 8, &mut |b| v64.push(b.iter().fold(0, |a, x| a << 8 | bytes[*x as usize])));
    round_trip(st, "u32", &IntFormat::<u32>::new(), &v32.iter().map(|x| *x as u32).collect::<Vec<_>>(), &|_| 4, &d32);
    round_trip(st, "u64", &IntFormat::<u64>::new(), &v64, &|_| 8, &d64);
    for x in &v64 {
        let mut d = vec![0u8; 15];
        IntFormat::<u64>::new().exec_marshall(x, &mut d, 0);
        IntFormat::<u32>::new().exec_marshall(&(*x as u32), &mut d, 8);
        IntFormat::<u16>::new().exec_marshall(&(*x as u16), &mut d, 12);
        IntFormat::<u8>::new().exec_marshall(&(*x as u8), &mut d, 14);
        ck!(d[..8] == x.to_le_bytes() && d[8..12] == x.to_le_bytes()[..4] && d[12..14] == x.to_le_bytes()[..2] && d[14] == x.to_le_bytes()[0], "{:#x} is not stored little-endian: {:?}", x, d);
    }
    any_bytes(st, "u8", &IntFormat::<u8>::new(), &(0..=255).collect::<Vec<u8>>(), 2, &d8, &|s, l| s <= l);
    any_bytes(st, "u16", &IntFormat::<u16>::new(), &A8, 4, &d16, &|s, l| s <= l);
    any_bytes(st, "u32", &IntFormat::<u32>::new(), &A5, 6, &d32, &|s, l| s <= l);
    any_bytes(st, "u64", &IntFormat::<u64>::new(), &[0, 1, 0xff], 9, &d64, &|s, l| s <= l);
    st.oc("integers");
}
fn lists<T: Copy>(vals: &[T], max: usize) -> Vec<Vec<T>> {
    let mut out = vec![];
    let ix: Vec<u8> = (0..vals.len() as u8).collect();
    for l in 0..=max {
        buffers(&ix, l, &mut |b| out.push(b.iter().map(|i| vals[*i as usize]).collect()));
    }
    out
}
fn uniform(st: &mut St, th: bool) {
    let m = if th { 5 } else { 4 };
    macro_rules! u { ($t:ty, $bits:expr, $vals:expr, $alpha:expr, $len:expr) => {{
        let f = UniformSizedElementSeqFormat::new(IntFormat::<$t>::new());
        let d = |v: &Vec<$t>| format!("{:?}", v);
        round_trip(st, concat!("sequence of ", stringify!($t)), &f, &lists::<$t>($vals, m), &|v| v.len() * ($bits / 8), &d);
        any_bytes(st, concat!("sequence of ", stringify!($t)), &f, $alpha, $len, &d, &|s, l| s == l / ($bits / 8) * ($bits / 8));
    }}}
    u!(u8, 8, &[0, 1, 255], &A8, 5);
    u!(u16, 16, &[0, 0x102, 0xffff], &A5, 6);
    u!(u32, 32, &[0, 0x01020304, u32::MAX], &[0, 1, 0xff], 9);
    u!(u64, 64, &[0, 0x0102030405060708, u64::MAX], &[0, 0xff], if th { 17 } else { 16 });
    st.oc("uniform sequences");
}
fn resizable(st: &mut St, th: bool) {
    macro_rules! r { ($t:ty, $l:ty, $total:expr, $vals:expr, $alpha:expr, $len:expr) => {{
        let f = ResizableUniformSizedElementSeqFormat::<IntFormat<$t>, $l>::new(IntFormat::<$t>::new(), IntFormat::<$l>::new(), $total);
        let (es, ls) = (std::mem::size_of::<$t>(), std::mem::size_of::<$l>());
        let cap = ($total - ls) / es;
        let d = |v: &Vec<$t>| format!("{:?}", v);
        let n = format!("resizable sequence of {} counted by {} in {} bytes", stringify!($t), stringify!($l), $total);
        round_trip(st, &n, &f, &lists::<$t>($vals, cap), &|_| $total, &d);
        any_bytes(st, &n, &f, $alpha, $len, &d, &|s, l| s <= l);
    }}}
    r!(u8, u8, 4usize, &[0u8, 1, 255], &A8, 5);
    r!(u8, u8, 1usize, &[0u8], &A8, 3);
    r!(u16, u8, 6usize, &[0u16, 0x102, 0xffff], &A5, 7);
    r!(u8, u16, 5usize, &[0u8, 1, 255], &A5, 6);
    r!(u32, u16, 11usize, &[0u32, 0x01020304], &[0, 1, 2, 0xff], if th { 11 } else { 7 });
    r!(u16, u32, 9usize, &[0u16, 0x102, 0xffff], &[0, 1, 2, 0xff], if th { 10 } else { 9 });
    r!(u64, u32, 20usize, &[0u64, u64::MAX], &[0, 1, 0xff], 5);
    r!(u8, u64, 10usize, &[0u8, 1, 0xff], &[0, 1, 0xff], if th { 11 } else { 10 });
    // a buffer big enough for its slice, with every length field over the alphabet
    macro_rules! big { ($t:ty, $l:ty, $total:expr, $alpha:expr) => {{
        let f = ResizableUniformSizedElementSeqFormat::<IntFormat<$t>, $l>::new(IntFormat::<$t>::new(), IntFormat::<$l>::new(), $total);
        let ls = std::mem::size_of::<$l>();
        let cap = ($total - ls) / std::mem::size_of::<$t>();
        buffers($alpha, ls, &mut |b| {
            st.states += 1;
            let mut d = b.to_vec();
            d.resize($total, 1);
            let n = b.iter().rev().fold(0u128, |a, x| a << 8 | *x as u128);
            set_case(format!("a {}-counted sequence of {} in {} bytes whose count is {}", stringify!($l), stringify!($t), $total, n));
            let w = || format!("parsing a {}-counted sequence of {} in {} bytes whose count is {}", stringify!($l), stringify!($t), $total, n);
            let p = run(&w, || f.try_parse(&Slice::all(&d), &d));
            ck!(p.is_some() == (n <= cap as u128), "{} gives {:?}, capacity {}", w(), p.map(|p| p.len()), cap);
        });
    }}}
    big!(u8, u8, 9usize, &(0..=255).collect::<Vec<u8>>());
    big!(u8, u16, 300usize, &(0..=255).collect::<Vec<u8>>());
    big!(u32, u32, 24usize, &A8);
    big!(u64, u32, 64usize, &A8);
    big!(u64, u64, 64usize, &[0, 1, 7, 0xff]);
    big!(u8, u64, 64usize, &[0, 1, 7, 0xff]);
    st.oc("resizable sequences");
}
pub struct B8; pub struct B16; pub struct B32; pub struct BR;
macro_rules! kv { ($n:ident, $l:ty, $e:ty) => {
    impl KVTrait for $n {
        type LenType = $l;
        type KeyFormat = UniformSizedElementSeqFormat<IntFormat<u8>>;
        type DataFormat = UniformSizedElementSeqFormat<IntFormat<$e>>;
        fn key_format_new() -> Self::KeyFormat { UniformSizedElementSeqFormat::new(IntFormat::new()) }
        fn data_format_new() -> Self::DataFormat { UniformSizedElementSeqFormat::new(IntFormat::new()) }
    }
} }
kv!(B8, u8, u8);
kv!(B16, u16, u8);
kv!(B32, u32, u16);
impl KVTrait for BR {
    type LenType = u8;
    type KeyFormat = IntFormat<u16>;
    type DataFormat = ResizableUniformSizedElementSeqFormat<IntFormat<u8>, u8>;
    fn key_format_new() -> Self::KeyFormat { IntFormat::new() }
    fn data_format_new() -> Self::DataFormat { ResizableUniformSizedElementSeqFormat::new(IntFormat::new(), IntFormat::new(), 3) }
}
fn pairs(st: &mut St, th: bool) {
    let m = if th { 4 } else { 3 };
    macro_rules! p { ($k:ty, $n:expr, $ls:expr, $es:expr, $kv:expr, $vv:expr, $alpha:expr, $len:expr) => {{
        let f = KVPairFormat::<$k>::new();
        let mut vals = vec![];
        for k in lists::<u8>($kv, m) { for v in lists($vv, m) { vals.push(KVPair::<$k> { key: k.clone(), value: v }); } }
        let d = |v: &KVPair<$k>| format!("{:?}->{:?}", v.key, v.value);
        round_trip(st, $n, &f, &vals, &|v| $ls + v.key.len() + v.value.len() * $es, &d);
        any_bytes(st, $n, &f, $alpha, $len, &d, &|s, l| s <= l && l - s < $es);
    }}}
    p!(B8, "pair with u8 key length", 1, 1, &[0, 1, 255], &[0u8, 1, 255], &A8, 5);
    p!(B16, "pair with u16 key length", 2, 1, &[0, 255], &[0u8, 255], &A5, 6);
    p!(B32, "pair with u32 key length", 4, 2, &[0, 255], &[0u16, 0x102, 0xffff], &[0, 1, 2, 0xff], if th { 9 } else { 8 });
    {
        let f = KVPairFormat::<BR>::new();
        let mut vals = vec![];
        for k in [0u16, 0x102, 0xffff] { for v in lists(&[0u8, 9, 255], 2) { vals.push(KVPair::<BR> { key: k, value: v }); } }
        let d = |v: &KVPair<BR>| format!("{:?}->{:?}", v.key, v.value);
        round_trip(st, "pair of u16 and resizable sequence", &f, &vals, &|_| 6, &d);
        any_bytes(st, "pair of u16 and resizable sequence", &f, &A5, 7, &d, &|s, _| s == 6);
    }
    // a key as long as the length field allows
    let f = KVPairFormat::<B8>::new();
    for kl in [254usize, 255] {
        let v = KVPair::<B8> { key: (0..kl).map(|i| i as u8).collect(), value: vec![7; 3] };
        round_trip(st, "pair with the longest key", &f, std::slice::from_ref(&v), &|v| 1 + v.key.len() + 3, &|v: &KVPair<B8>| format!("{:?}->{:?}", v.key, v.value));
    }
    st.oc("pairs");
}

// ---- in-place sequences ---------------------------------------------------------------------
type RS<T, L> = ResizableUniformSizedElementSeqFormat<IntFormat<T>, L>;
/// what an in-place resizable sequence must hold: a count, and per slot what was last stored there
#[derive(Clone, PartialEq, Eq, Hash, Debug)]
struct Model { len: usize, slot: Vec<Option<u64>> }
trait Num: Copy + Debug + PartialEq { fn of(x: u64) -> Self; fn to(self) -> u64; }
macro_rules! num { ($($t:ty),*) => { $(impl Num for $t { fn of(x: u64) -> Self { x as $t } fn to(self) -> u64 { self as u64 } })* } }
num!(u8, u16, u32, u64);

fn rs_observe<T: Num + IntFormattable + Deepview<int_>, L: IntFormattable>(n: &str, f: &RS<T, L>, s: &Slice, d: &Vec<u8>, m: &Model, hist: &dyn Fn() -> String, lenmax: u128, vals: &[u64])
where IntFormat<T>: Marshal<U = T> {
    let cap = m.slot.len();
    let w = || format!("{} after {}", n, hist());
    ck!(run(&w, || f.exec_length(s, d)) == m.len, "{}: length {} instead of {}", w(), f.exec_length(s, d), m.len);
    ck!(run(&w, || f.try_length(s, d)) == Some(m.len), "{}: length {:?} instead of {}", w(), f.try_length(s, d), m.len);
    ck!(run(&w, || f.exec_lengthable(s, d)), "{}: not lengthable", w());
    ck!(run(&w, || f.exec_well_formed(s, d)), "{}: not well formed", w());
    for i in 0..cap + 2 {
        let g = run(&w, || f.exec_gettable(s, d, i));
        ck!(g == (i < cap), "{}: slot {} of {} reported gettable={}", w(), i, cap, g);
        let ts = run(&w, || f.try_get(s, d, i));
        ck!(ts.is_some() == (i < cap), "{}: slot {} of {} has slice {}", w(), i, cap, ts.is_some());
        let te = run(&w, || f.try_get_elt(s, d, i));
        ck!(te.is_some() == (i < cap), "{}: slot {} of {} read as {:?}", w(), i, cap, te);
        if i < cap {
            let x = run(&w, || f.exec_get_elt(s, d, i));
            ck!(te == Some(x), "{}: slot {} read as {:?} or {:?}", w(), i, te, x);
            if let Some(v) = m.slot[i] {
                ck!(x.to() == v, "{}: slot {} holds {} instead of {}", w(), i, x.to(), v);
            }
            let (a, b) = (ts.unwrap(), run(&w, || f.exec_get(s, d, i)));
            ck!(a.start == b.start && a.end == b.end && s.start <= a.start && a.end <= s.end && a.end - a.start == std::mem::size_of::<T>(), "{}: slot {} lies at {}..{} or {}..{}", w(), i, a.start, a.end, b.start, b.end);
        }
        let st = run(&w, || f.exec_settable(s, d, i, &T::of(vals[0])));
        ck!(st == (i < cap), "{}: slot {} of {} reported settable={}", w(), i, cap, st);
        let r = run(&w, || f.exec_resizable(s, d, i));
        ck!(r == (i <= cap && i as u128 <= lenmax), "{}: resizing to {} of {} reported possible={}", w(), i, cap, r);
    }
    let a = run(&w, || f.exec_appendable(s, d, &T::of(vals[0])));
    ck!(a == (m.len < cap && (m.len + 1) as u128 <= lenmax), "{}: length {} of {} reported appendable={}", w(), m.len, cap, a);
    let p = run(&w, || f.try_parse(s, d));
    ck!(p.is_some(), "{}: does not parse", w());
    let p = p.unwrap();
    ck!(p.len() == m.len && p.iter().zip(&m.slot).all(|(x, v)| v.map_or(true, |v| x.to() == v)), "{}: parses as {:?}, expected {:?}", w(), p, &m.slot[..m.len]);
}
#[allow(non_camel_case_types)]
type int_ = <IntFormat<u8> as Marshal>::DV;
fn rs_explore<T: Num + IntFormattable + Deepview<int_>, L: IntFormattable>(st: &mut St, n: &str, f: &RS<T, L>, total: usize, ls: usize, lenmax: u128, vals: &[u64], depth: usize, pre: usize, slack: usize, fill: u8)
where IntFormat<T>: Marshal<U = T> {
    let es = std::mem::size_of::<T>();
    let cap = (total - ls) / es;
    let mut d = vec![fill; pre + total + slack + 2];
    let s = Slice { start: pre, end: pre + total + slack };
    run(&|| format!("{}: initializing", n), || f.initialize(&s, &mut d));
    let m = Model { len: 0, slot: vec![None; cap] };
    let mut seen = HashSet::new();
    let mut q = VecDeque::new();
    seen.insert((d.clone(), m.clone()));
    q.push_back((d, m, vec![]));
    while let Some((d, m, h)) = q.pop_front() {
        st.states += 1;
        rs_observe(n, f, &s, &d, &m, &|| format!("{:?}", h), lenmax, vals);
        ck!(d[..pre].iter().chain(&d[pre + total..]).all(|b| *b == fill), "{} after {:?}: bytes outside the sequence changed: {:?}", n, h, d);
        if h.len() >= depth { continue }
        let mut next: Vec<(String, Vec<u8>, Model)> = vec![];
        for v in vals {
            if m.len < cap && (m.len + 1) as u128 <= lenmax {
                let mut e = d.clone();
                run(&|| format!("{} after {:?}: appending {}", n, h, v), || f.exec_append(&s, &mut e, &T::of(*v)));
                let mut k = m.clone();
                k.slot[k.len] = Some(*v);
                k.len += 1;
                let fu = pre + ls + k.len * es;
                ck!(e[fu..] == d[fu..], "{} after {:?}: appending {} touched bytes beyond the new element", n, h, v);
                next.push((format!("append {}", v), e, k));
            }
            for i in 0..cap {
                let mut e = d.clone();
                run(&|| format!("{} after {:?}: setting {} to {}", n, h, i, v), || f.exec_set(&s, &mut e, i, &T::of(*v)));
                let mut k = m.clone();
                k.slot[i] = Some(*v);
                next.push((format!("set {} {}", i, v), e, k));
            }
        }
        for l in 0..=cap {
            if l as u128 > lenmax { continue }
            let mut e = d.clone();
            run(&|| format!("{} after {:?}: resizing to {}", n, h, l), || f.resize(&s, &mut e, l));
            let mut k = m.clone();
            k.len = l;
            next.push((format!("resize {}", l), e, k));
        }
        {
            let mut e = d.clone();
            run(&|| format!("{} after {:?}: initializing", n, h), || f.initialize(&s, &mut e));
            let mut k = m.clone();
            k.len = 0;
            for i in 0..cap { if rd(&e, pre + ls + i * es, es) != rd(&d, pre + ls + i * es, es) { k.slot[i] = None } }
            next.push(("initialize".into(), e, k));
        }
        for (o, e, k) in next {
            st.trans += 1;
            ck!(e.len() == d.len(), "{} after {:?}: {} changed the buffer length", n, h, o);
            st.oc(o.split(' ').next().unwrap());
            if k.len == cap { st.oc("full") }
            let mut hh = h.clone();
            hh.push(o);
            if seen.insert((e.clone(), k.clone())) {
                q.push_back((e, k, hh));
            }
        }
    }
}
fn rd(d: &[u8], o: usize, n: usize) -> Vec<u8> { d[o..o + n].to_vec() }
fn inplace(st: &mut St, th: bool) {
    let dd = if th { 60 } else { 20 };
    macro_rules! r { ($t:ty, $l:ty, $total:expr, $vals:expr) => {
        for (pre, slack, fill) in [(0, 0, 0u8), (1, 2, 0xff), (3, 0, 0xa5)] {
            let f = RS::<$t, $l>::new(IntFormat::<$t>::new(), IntFormat::<$l>::new(), $total);
            let n = format!("sequence of {} counted by {} in {} bytes", stringify!($t), stringify!($l), $total);
            rs_explore(st, &n, &f, $total, std::mem::size_of::<$l>(), <$l>::MAX as u128, $vals, dd, pre, slack, fill);
        }
    } }
    r!(u8, u8, 4usize, &[0, 0xff]);
    r!(u8, u8, 1usize, &[1]);
    r!(u16, u8, 6usize, &[0x102, 0xffff]);
    r!(u8, u16, 5usize, &[0, 7]);
    r!(u16, u16, 9usize, &[0, 0xff01]);
    r!(u32, u16, 11usize, &[0x01020304, u32::MAX as u64]);
    r!(u32, u32, 19usize, &[0x01020304]);
    r!(u64, u64, 31usize, &[0x0102030405060708, u64::MAX]);
    // the count field is the limit, not the space
    {
        let f = RS::<u8, u8>::new(IntFormat::new(), IntFormat::new(), 300);
        let s = Slice { start: 1, end: 301 };
        let mut d = vec![0xee; 305];
        f.initialize(&s, &mut d);
        let mut m = Model { len: 0, slot: vec![None; 299] };
        for i in 0..255usize {
            st.states += 1;
            st.trans += 1;
            if i < 3 || i % 50 == 0 || i > 250 { rs_observe("long sequence counted by u8", &f, &s, &d, &m, &|| format!("{} appends", i), 255, &[1]); }
            run(&|| format!("appending element {} to a u8-counted sequence", i), || f.exec_append(&s, &mut d, &(i as u8)));
            m.slot[i] = Some(i as u64);
            m.len += 1;
        }
        rs_observe("long sequence counted by u8", &f, &s, &d, &m, &|| "255 appends".into(), 255, &[1]);
        st.oc("count field exhausted");
    }
    // buffers of every content: operations keep to their slice and to their slots
    macro_rules! a { ($t:ty, $l:ty, $total:expr, $alpha:expr, $vals:expr) => {{
        let f = RS::<$t, $l>::new(IntFormat::<$t>::new(), IntFormat::<$l>::new(), $total);
        let (es, ls) = (std::mem::size_of::<$t>(), std::mem::size_of::<$l>());
        let cap: usize = ($total - ls) / es;
        for len in 0..$total + 2usize {
            buffers($alpha, len, &mut |b| {
                st.states += 1;
                let d = b.to_vec();
                let s = Slice::all(&d);
                let w = || format!("sequence of {} counted by {} in {} bytes read from {:?}", stringify!($t), stringify!($l), $total, b);
                let l = run(&w, || f.try_length(&s, &d));
                ck!(l.is_some() == (len >= $total), "{}: length {:?}", w(), l);
                ck!(run(&w, || f.exec_lengthable(&s, &d)) == l.is_some() && run(&w, || f.exec_well_formed(&s, &d)) == l.is_some(), "{}: lengthable or well formed, length {:?}", w(), l);
                for i in 0..cap + 2 {
                    let e = run(&w, || f.try_get_elt(&s, &d, i));
                    ck!(e.is_some() == (l.is_some() && i < cap), "{}: slot {} is {:?}", w(), i, e);
                    ck!(run(&w, || f.exec_gettable(&s, &d, i)) == e.is_some(), "{}: slot {} gettable", w(), i);
                    ck!(run(&w, || f.exec_settable(&s, &d, i, &($vals as $t))) == e.is_some(), "{}: slot {} settable", w(), i);
                    ck!(run(&w, || f.exec_resizable(&s, &d, i)) == (l.is_some() && i <= cap), "{}: resizable to {}", w(), i);
                }
            });
        }
    }}}
    a!(u8, u8, 4usize, &A8, 7);
    a!(u16, u8, 5usize, &A5, 7);
    a!(u8, u16, 4usize, &A8, 7);
    st.oc("sequences over arbitrary bytes");
    // fixed sequences: set and get
    for len in 0..7usize {
        let f = UniformSizedElementSeqFormat::new(IntFormat::<u16>::new());
        for pre in 0..2usize {
            let n = len / 2;
            let d0 = vec![0xeeu8; pre + len + 2];
            let s = Slice { start: pre, end: pre + len };
            let mut q: VecDeque<(Vec<u8>, Vec<u16>, usize)> = VecDeque::new();
            let mut seen = HashSet::new();
            q.push_back((d0.clone(), vec![0xeeee; n], 0));
            while let Some((d, m, k)) = q.pop_front() {
                st.states += 1;
                let w = || format!("fixed sequence of u16 in {} bytes holding {:?}", len, m);
                ck!(run(&w, || f.exec_length(&s, &d)) == n && f.try_length(&s, &d) == Some(n) && f.exec_lengthable(&s, &d), "{}: length {}", w(), f.exec_length(&s, &d));
                ck!(d[..pre] == d0[..pre] && d[pre + n * 2..] == d0[pre + n * 2..], "{}: outside bytes changed", w());
                for i in 0..n + 2 {
                    let e = run(&w, || f.try_get_elt(&s, &d, i));
                    ck!(e == m.get(i).copied(), "{}: element {} reads {:?}", w(), i, e);
                    ck!(run(&w, || f.exec_gettable(&s, &d, i)) == (i < n) && run(&w, || f.try_get(&s, &d, i)).is_some() == (i < n), "{}: element {} gettable", w(), i);
                    ck!(run(&w, || f.exec_settable(&s, &d, i, &1)) == (i < n), "{}: element {} settable", w(), i);
                    if i < n {
                        ck!(run(&w, || f.exec_get_elt(&s, &d, i)) == m[i], "{}: element {} reads wrong", w(), i);
                        let g = f.exec_get(&s, &d, i);
                        ck!(g.start == pre + 2 * i && g.end == g.start + 2, "{}: element {} lies at {}..{}", w(), i, g.start, g.end);
                    }
                }
                ck!(!f.exec_resizable(&s, &d, 0) && !f.exec_appendable(&s, &d, &1) , "{}: fixed sequence grows", w());
                ck!(run(&w, || f.try_parse(&s, &d)) == Some(m.clone()), "{}: parses as {:?}", w(), f.try_parse(&s, &d));
                if k < 4 {
                    for i in 0..n { for v in [0u16, 0x102, 0xffff] {
                        st.trans += 1;
                        let (mut e, mut m) = (d.clone(), m.clone());
                        run(&w, || f.exec_set(&s, &mut e, i, &v));
                        m[i] = v;
                        if seen.insert((e.clone(), m.clone())) { q.push_back((e, m, k + 1)); }
                    } }
                }
            }
        }
    }
    st.oc("fixed sequences");
}
fn vs_explore<F: Marshal, Bd: IntFormattable, L: IntFormattable>(st: &mut St, n: &str, mk: &dyn Fn() -> VariableSizedElementSeqFormat<F, Bd, L>, vals: &[F::U], sizes: &[usize], dbg: &dyn Fn(&F::U) -> String, total: usize, bs: usize, ls: usize, pre: usize, slack: usize, fill: u8) {
    let f = mk();
    let d0 = vec![fill; pre + total + slack + 2];
    let s = Slice { start: pre, end: pre + total + slack };
    let mut d = d0.clone();
    run(&|| format!("{}: initializing", n), || f.initialize(&s, &mut d));
    ck!(f.exec_total_size() == total, "{}: total size {}", n, f.exec_total_size());
    let mut q: VecDeque<(Vec<u8>, Vec<usize>)> = VecDeque::new();
    q.push_back((d, vec![]));
    while let Some((d, m)) = q.pop_front() {
        st.states += 1;
        let w = || format!("{} holding {:?}", n, m.iter().map(|i| dbg(&vals[*i])).collect::<Vec<_>>());
        let len = run(&w, || f.exec_length(&s, &d));
        ck!(len == m.len() && run(&w, || f.try_length(&s, &d)) == Some(m.len()), "{}: length {}", w(), len);
        ck!(run(&w, || f.exec_well_formed(&s, &d)) && run(&w, || f.exec_lengthable(&s, &d)), "{}: not well formed", w());
        ck!(d[..pre] == d0[..pre] && d[pre + total..] == d0[pre + total..], "{}: bytes outside the sequence changed", w());
        let mut used: Vec<(usize, usize)> = vec![(pre, pre + ls + m.len() * bs)];
        for i in 0..m.len() + 3 {
            let g = run(&w, || f.exec_gettable(&s, &d, i));
            let e = run(&w, || f.try_get_elt(&s, &d, i));
            let t = run(&w, || f.try_get(&s, &d, i));
            ck!(g == (i < m.len()) && t.is_some() == g, "{}: element {} gettable={}", w(), i, g);
            ck!(e.as_ref().map(|e| dbg(e)) == m.get(i).map(|k| dbg(&vals[*k])), "{}: element {} reads {:?}", w(), i, e.map(|e| dbg(&e)));
            if i < m.len() {
                let x = run(&w, || f.exec_get_elt(&s, &d, i));
                ck!(dbg(&x) == dbg(&vals[m[i]]), "{}: element {} reads {}", w(), i, dbg(&x));
                let (a, b) = (t.unwrap(), run(&w, || f.exec_get(&s, &d, i)));
                ck!(a.start == b.start && a.end == b.end && s.start <= a.start && a.start <= a.end && a.end <= s.end && a.end - a.start == sizes[m[i]], "{}: element {} lies at {}..{} or {}..{}", w(), i, a.start, a.end, b.start, b.end);
                ck!(used.iter().all(|u| a.start == a.end || u.0 == u.1 || a.end <= u.0 || u.1 <= a.start), "{}: element {} overlaps another or the table", w(), i);
                used.push((a.start, a.end));
            }
            ck!(!run(&w, || f.exec_settable(&s, &d, i, &vals[0])) && !run(&w, || f.exec_resizable(&s, &d, i)), "{}: settable or resizable", w());
        }
        let free = total - ls - m.iter().map(|i| bs + sizes[*i]).sum::<usize>();
        for (k, v) in vals.iter().enumerate() {
            let a = run(&w, || f.exec_appendable(&s, &d, v));
            ck!(a == (bs + sizes[k] <= free), "{}: {} free bytes, {} reported appendable={}", w(), free, dbg(v), a);
            st.oc(if a { "variable-size append" } else { "variable-size append refused" });
            if a && bs + sizes[k] == free { st.oc("variable-size exactly full") }
            if a {
                st.trans += 1;
                let mut e = d.clone();
                run(&|| format!("{}: appending {}", w(), dbg(v)), || f.exec_append(&s, &mut e, v));
                let mut m = m.clone();
                m.push(k);
                q.push_back((e, m));
            }
        }
    }
}
fn variable(st: &mut St, th: bool) {
    let bytes: Vec<Vec<u8>> = vec![vec![], vec![1], vec![0xff, 2], vec![3, 4, 5]];
    let bl: Vec<usize> = bytes.iter().map(|b| b.len()).collect();
    let db = |v: &Vec<u8>| format!("{:?}", v);
    macro_rules! v { ($b:ty, $l:ty, $total:expr) => {
        for (pre, slack, fill) in [(0usize, 0usize, 0u8), (2, 1, 0xff), (1, 3, 0xa5)] {
            let n = format!("variable-size sequence with {} boundaries and {} count in {} bytes", stringify!($b), stringify!($l), $total);
            vs_explore(st, &n, &|| VariableSizedElementSeqFormat::<_, $b, $l>::new(UniformSizedElementSeqFormat::new(IntFormat::<u8>::new()), IntFormat::<$b>::new(), IntFormat::<$l>::new(), $total), &bytes, &bl, &db, $total, std::mem::size_of::<$b>(), std::mem::size_of::<$l>(), pre, slack, fill);
        }
    } }
    for t in 1..=(if th { 10usize } else { 8 }) { v!(u8, u8, t); }
    for t in [2usize, 5, 9, 10, 13] { v!(u16, u16, t); }
    for t in [5usize, 8, 9, 12] { v!(u16, u8, t); }
    for t in [4usize, 7, 10] { v!(u8, u32, t); }
    for t in [12usize, 17, 20] { v!(u32, u32, t); }
    {
        let vals: Vec<KVPair<B8>> = [(vec![], vec![]), (vec![1u8], vec![]), (vec![], vec![2u8]), (vec![3, 4], vec![5, 6])].into_iter().map(|(key, value)| KVPair { key, value }).collect();
        let sz: Vec<usize> = vals.iter().map(|v| 1 + v.key.len() + v.value.len()).collect();
        let d = |v: &KVPair<B8>| format!("{:?}->{:?}", v.key, v.value);
        for t in [1usize, 7, 12, 14] {
            vs_explore(st, &format!("variable-size sequence of pairs in {} bytes", t), &|| VariableSizedElementSeqFormat::<_, u8, u8>::new(KVPairFormat::<B8>::new(), IntFormat::new(), IntFormat::new(), t), &vals, &sz, &d, t, 1, 1, 1, 1, 0xee);
        }
    }
    // arbitrary bytes
    macro_rules! a { ($b:ty, $l:ty, $total:expr, $alpha:expr) => {{
        let f = VariableSizedElementSeqFormat::<_, $b, $l>::new(UniformSizedElementSeqFormat::new(IntFormat::<u8>::new()), IntFormat::<$b>::new(), IntFormat::<$l>::new(), $total);
        let (bs, ls) = (std::mem::size_of::<$b>(), std::mem::size_of::<$l>());
        for len in 0..=$total + 1usize {
            buffers($alpha, len, &mut |b| {
                st.states += 1;
                let d = b.to_vec();
                let s = Slice::all(&d);
                set_case(format!("variable-size sequence from {:?}", b));
                let w = || format!("variable-size sequence with {} boundaries and {} count in {} bytes read from {:?}", stringify!($b), stringify!($l), $total, b);
                let l = run(&w, || f.try_length(&s, &d));
                ck!(l.is_some() == (len >= $total), "{}: length {:?}", w(), l);
                let wf = run(&w, || f.exec_well_formed(&s, &d));
                // independent reading of the boundary table
                let rd = |o: usize, n: usize| d[o..o + n].iter().rev().fold(0u128, |a, x| a << 8 | *x as u128) as usize;
                let mut good = len >= $total;
                if good {
                    let n = rd(0, ls);
                    good = n <= ($total - ls) / bs;
                    if good && n > 0 {
                        let t: Vec<usize> = (0..n).map(|i| rd(ls + i * bs, bs)).collect();
                        good = t.windows(2).all(|p| p[1] <= p[0]) && t[0] <= $total && ls + n * bs <= t[n - 1];
                    }
                }
                ck!(wf == good, "{}: reported well formed={}", w(), wf);
                for i in 0..l.unwrap_or(0).min($total) + 2 {
                    let t = run(&w, || f.try_get(&s, &d, i));
                    let e = run(&w, || f.try_get_elt(&s, &d, i));
                    ck!(t.is_some() == e.is_some() && run(&w, || f.exec_gettable(&s, &d, i)) == t.is_some(), "{}: element {}", w(), i);
                    if let Some(t) = &t { ck!(t.start <= t.end && t.end <= len && i < l.unwrap(), "{}: element {} lies at {}..{}", w(), i, t.start, t.end); }
                    if wf { ck!(t.is_some() == (i < l.unwrap()), "{}: well formed but element {} of {:?} gettable={}", w(), i, l, t.is_some()); }
                }
                if wf {
                    st.oc("arbitrary bytes well formed");
                    for v in &bytes {
                        let a = run(&w, || f.exec_appendable(&s, &d, v));
                        if a {
                            st.trans += 1;
                            let n = l.unwrap();
                            let before: Vec<_> = (0..n).map(|i| f.exec_get_elt(&s, &d, i)).collect();
                            let mut e = d.clone();
                            run(&w, || f.exec_append(&s, &mut e, v));
                            let after: Vec<_> = (0..n).map(|i| f.try_get_elt(&s, &e, i)).collect();
                            ck!(before.iter().cloned().map(Some).collect::<Vec<_>>() == after && f.try_get_elt(&s, &e, n).as_ref() == Some(v) && f.exec_length(&s, &e) == n + 1 && f.exec_well_formed(&s, &e), "{}: appending {:?} gives {:?} (was {:?})", w(), v, e, b);
                        }
                    }
                } else { st.oc("arbitrary bytes ill formed"); }
            });
        }
    }}}
    a!(u8, u8, 4usize, &[0, 1, 2, 3, 4, 5, 0xff]);
    a!(u8, u8, 6usize, &[0, 1, 2, 4, 5, 6, 0xff]);
    a!(u16, u8, 6usize, &[0, 1, 2, 5, 6]);
    a!(u8, u16, 6usize, &[0, 1, 2, 5, 6]);
    if th { a!(u16, u16, 9usize, &[0, 2, 6, 9]); }
    st.oc("variable-size sequences over arbitrary bytes");
}
fn slices(st: &mut St) {
    let d: Vec<u8> = (0..6).collect();
    let a = Slice::all(&d);
    ck!(a.start == 0 && a.end == 6 && a.len() == 6, "slice of everything is {}..{}", a.start, a.end);
    for x in 0..=6usize { for y in x..=6 {
        let s = a.subslice(x, y);
        ck!(s.start == x && s.end == y && s.len() == y - x, "subslice {}..{} is {}..{}", x, y, s.start, s.end);
        for p in 0..=y - x { for q in p..=y - x {
            st.trans += 1;
            let t = s.subslice(p, q);
            ck!(t.start == x + p && t.end == x + q, "subslice {}..{} of {}..{} is {}..{}", p, q, x, y, t.start, t.end);
            let u = s.xslice(&Slice { start: p, end: q });
            ck!(u.start == t.start && u.end == t.end, "nested slice {}..{} of {}..{} is {}..{}", p, q, x, y, u.start, u.end);
        }
        let r = s.drop(p);
        ck!(r.start == x + p && r.end == y, "dropping {} of {}..{} gives {}..{}", p, x, y, r.start, r.end);
        }
    } }
    st.oc("slices");
}

fn main() {
    std::panic::set_hook(Box::new(|_| {}));
    let a: Vec<String> = std::env::args().collect();
    let th = a.get(2).map_or(false, |x| x == "thorough");
    let mut st = St { states: 0, trans: 0, oc: BTreeMap::new() };
    let what: Vec<(&str, &str)> = match a[1].as_str() {
        "ints" => { ints(&mut st, th); slices(&mut st); vec![("bounds", "all u8 values, u16 exhaustive or strided, u32/u64 over byte patterns; every byte string over the alphabet up to 9 bytes")] }
        "uniform" => { uniform(&mut st, th); vec![("bounds", "sequences up to 4 elements over 3 values; byte strings up to 16 bytes")] }
        "resizable" => { resizable(&mut st, th); vec![("bounds", "all sequences up to capacity; byte strings up to 10 bytes over 3-8 byte values; all count fields over the alphabet")] }
        "pairs" => { pairs(&mut st, th); vec![("bounds", "keys and values up to 3 elements over 2-3 values; byte strings up to 8 bytes")] }
        "inplace" => { inplace(&mut st, th); vec![("bounds", "all operation sequences (to depth 20) on 8 layouts and 3 placements; byte strings up to capacity + 1")] }
        "variable" => { variable(&mut st, th); vec![("bounds", "all append sequences until full in capacities up to 20 bytes; byte strings up to 7 bytes")] }
        _ => panic!(),
    };
    println!("BOUNDS {}", what[0].1);
    for (k, v) in &st.oc { println!("OUTCOME {}|{}", k, v); }
    println!("DONE {} {}", st.states, st.trans);
}
