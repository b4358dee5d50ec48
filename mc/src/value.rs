//! Values of the mathematical languages (Verus spec, Dafny) that the checker interprets.
use std::cell::RefCell;
use std::collections::{BTreeMap, BTreeSet, HashMap};
use std::cmp::Ordering;
use std::hash::{Hash, Hasher};
use std::rc::Rc;

pub type Sym = u32;

#[derive(Default)]
struct Interner {
    map: HashMap<Rc<str>, Sym>,
    names: Vec<Rc<str>>,
}
thread_local! {
    static INTERN: RefCell<Interner> = RefCell::new(Interner::default());
}
pub fn sym(s: &str) -> Sym {
    INTERN.with(|i| {
        let mut i = i.borrow_mut();
        if let Some(x) = i.map.get(s) {
            return *x;
        }
        let r: Rc<str> = Rc::from(s);
        let id = i.names.len() as Sym;
        i.names.push(r.clone());
        i.map.insert(r, id);
        id
    })
}
pub fn name(s: Sym) -> Rc<str> {
    INTERN.with(|i| i.borrow().names[s as usize].clone())
}

/// Constructor of a datatype / struct.
#[derive(Debug)]
pub struct Ctor {
    pub id: u32,
    pub ty: u32,          // type id
    pub ty_name: Sym,     // full type name
    pub name: Sym,        // variant name (struct name for structs)
    pub fields: Vec<Sym>, // "0","1".. for positional
    pub positional: bool,
}

pub struct Data {
    pub ctor: Rc<Ctor>,
    pub f: Vec<V>,
    /// contains no logic variable
    pub ground: bool,
    /// structural fingerprint (0: not computed yet)
    pub h: std::cell::Cell<u128>,
}
impl Data {
    pub fn fp(&self) -> u128 {
        let x = self.h.get();
        if x != 0 {
            return x;
        }
        let mut a = Fx(0x243f6a8885a308d3, 0x13198a2e03707344);
        self.ctor.id.hash(&mut a);
        for x in &self.f {
            x.hash(&mut a)
        }
        let x = a.fin().max(1);
        self.h.set(x);
        x
    }
}

#[derive(Clone)]
pub enum V {
    Undef,
    Bool(bool),
    Int(i128),
    Char(char),
    Str(Rc<str>),
    Tup(Rc<Vec<V>>),
    Seq(Rc<Vec<V>>),
    Set(Rc<BTreeSet<V>>),
    Map(Rc<BTreeMap<V, V>>),
    MSet(Rc<BTreeMap<V, i128>>),
    Data(Rc<Data>),
    Fun(Rc<crate::eval::Closure>),
    LVar(u32),
    /// reference to a heap object (Dafny classes / arrays); 0 is null
    Ref(u32),
    TypeVal(Rc<crate::ast::Ty>),
}

impl V {
    pub fn int(i: i128) -> V {
        V::Int(i)
    }
    pub fn seq(v: Vec<V>) -> V {
        V::Seq(Rc::new(v))
    }
    pub fn set<I: IntoIterator<Item = V>>(v: I) -> V {
        V::Set(Rc::new(v.into_iter().collect()))
    }
    pub fn map<I: IntoIterator<Item = (V, V)>>(v: I) -> V {
        V::Map(Rc::new(v.into_iter().collect()))
    }
    pub fn tup(v: Vec<V>) -> V {
        V::Tup(Rc::new(v))
    }
    pub fn data(c: &Rc<Ctor>, f: Vec<V>) -> V {
        debug_assert_eq!(c.fields.len(), f.len());
        let ground = f.iter().all(|x| !x.has_lvar());
        V::Data(Rc::new(Data { ctor: c.clone(), f, ground, h: Default::default() }))
    }
    pub fn as_int(&self) -> Option<i128> {
        match self {
            V::Int(i) => Some(*i),
            _ => None,
        }
    }
    pub fn as_seq(&self) -> Option<&Rc<Vec<V>>> {
        match self {
            V::Seq(s) => Some(s),
            _ => None,
        }
    }
    pub fn as_map(&self) -> Option<&Rc<BTreeMap<V, V>>> {
        match self {
            V::Map(s) => Some(s),
            _ => None,
        }
    }
    pub fn as_set(&self) -> Option<&Rc<BTreeSet<V>>> {
        match self {
            V::Set(s) => Some(s),
            _ => None,
        }
    }
    pub fn as_data(&self) -> Option<&Rc<Data>> {
        match self {
            V::Data(s) => Some(s),
            _ => None,
        }
    }
    pub fn is_true(&self) -> bool {
        matches!(self, V::Bool(true))
    }
    /// Field by name (panics if missing: harness misuse / source shape change).
    pub fn field(&self, n: &str) -> Option<V> {
        let d = self.as_data()?;
        let s = sym(n);
        let i = d.ctor.fields.iter().position(|x| *x == s)?;
        Some(d.f[i].clone())
    }
    pub fn variant(&self) -> String {
        match self {
            V::Data(d) => name(d.ctor.name).to_string(),
            _ => String::new(),
        }
    }
    pub fn has_lvar(&self) -> bool {
        match self {
            V::LVar(_) => true,
            V::Tup(v) | V::Seq(v) => v.iter().any(|x| x.has_lvar()),
            V::Set(s) => s.iter().any(|x| x.has_lvar()),
            V::Map(m) => m.iter().any(|(k, v)| k.has_lvar() || v.has_lvar()),
            V::Data(d) => !d.ground,
            _ => false,
        }
    }
    pub fn has_undef(&self) -> bool {
        match self {
            V::Undef => true,
            V::Tup(v) | V::Seq(v) => v.iter().any(|x| x.has_undef()),
            V::Set(s) => s.iter().any(|x| x.has_undef()),
            V::Map(m) => m.iter().any(|(k, v)| k.has_undef() || v.has_undef()),
            V::Data(d) => d.f.iter().any(|x| x.has_undef()),
            _ => false,
        }
    }
    fn tag(&self) -> u8 {
        match self {
            V::Undef => 0,
            V::Bool(_) => 1,
            V::Int(_) => 2,
            V::Char(_) => 3,
            V::Str(_) => 4,
            V::Tup(_) => 5,
            V::Seq(_) => 6,
            V::Set(_) => 7,
            V::Map(_) => 8,
            V::MSet(_) => 9,
            V::Data(_) => 10,
            V::Fun(_) => 11,
            V::LVar(_) => 12,
            V::Ref(_) => 13,
            V::TypeVal(_) => 14,
        }
    }
}

impl PartialEq for V {
    fn eq(&self, o: &V) -> bool {
        match (self, o) {
            (V::Int(a), V::Int(b)) => a == b,
            (V::Bool(a), V::Bool(b)) => a == b,
            (V::Data(a), V::Data(b)) => {
                if Rc::ptr_eq(a, b) {
                    return true;
                }
                let (x, y) = (a.h.get(), b.h.get());
                if x != 0 && y != 0 {
                    return x == y;
                }
                a.ctor.id == b.ctor.id && a.f == b.f
            }
            (V::Seq(a), V::Seq(b)) | (V::Tup(a), V::Tup(b)) => Rc::ptr_eq(a, b) || a == b,
            (V::Set(a), V::Set(b)) => Rc::ptr_eq(a, b) || a == b,
            (V::Map(a), V::Map(b)) => Rc::ptr_eq(a, b) || a == b,
            (V::MSet(a), V::MSet(b)) => Rc::ptr_eq(a, b) || a == b,
            (V::Undef, V::Undef) => true,
            (V::Char(a), V::Char(b)) => a == b,
            (V::Str(a), V::Str(b)) => a == b,
            (V::Fun(a), V::Fun(b)) => Rc::ptr_eq(a, b),
            (V::LVar(a), V::LVar(b)) => a == b,
            (V::Ref(a), V::Ref(b)) => a == b,
            (V::TypeVal(a), V::TypeVal(b)) => a == b,
            _ => false,
        }
    }
}
impl Eq for V {}
impl PartialOrd for V {
    fn partial_cmp(&self, o: &V) -> Option<Ordering> {
        Some(self.cmp(o))
    }
}
impl Ord for V {
    fn cmp(&self, o: &V) -> Ordering {
        match (self, o) {
            (V::Int(a), V::Int(b)) => a.cmp(b),
            (V::Bool(a), V::Bool(b)) => a.cmp(b),
            (V::Data(a), V::Data(b)) => {
                if Rc::ptr_eq(a, b) {
                    return Ordering::Equal;
                }
                a.ctor.id.cmp(&b.ctor.id).then_with(|| a.f.cmp(&b.f))
            }
            (V::Seq(a), V::Seq(b)) | (V::Tup(a), V::Tup(b)) => a.cmp(b),
            (V::Set(a), V::Set(b)) => a.cmp(b),
            (V::Map(a), V::Map(b)) => a.cmp(b),
            (V::MSet(a), V::MSet(b)) => a.cmp(b),
            (V::Char(a), V::Char(b)) => a.cmp(b),
            (V::Str(a), V::Str(b)) => a.cmp(b),
            (V::Fun(a), V::Fun(b)) => (Rc::as_ptr(a) as usize).cmp(&(Rc::as_ptr(b) as usize)),
            (V::LVar(a), V::LVar(b)) => a.cmp(b),
            (V::Ref(a), V::Ref(b)) => a.cmp(b),
            _ => self.tag().cmp(&o.tag()),
        }
    }
}
impl Hash for V {
    fn hash<H: Hasher>(&self, h: &mut H) {
        self.tag().hash(h);
        match self {
            V::Int(a) => (*a as u64).hash(h),
            V::Bool(a) => a.hash(h),
            V::Data(a) => {
                let x = a.fp();
                (x as u64).hash(h);
                ((x >> 64) as u64).hash(h);
            }
            V::Seq(a) | V::Tup(a) => {
                a.len().hash(h);
                for x in a.iter() {
                    x.hash(h)
                }
            }
            V::Set(a) => {
                a.len().hash(h);
                for x in a.iter() {
                    x.hash(h)
                }
            }
            V::Map(a) => {
                a.len().hash(h);
                for (k, v) in a.iter() {
                    k.hash(h);
                    v.hash(h)
                }
            }
            V::MSet(a) => {
                for (k, v) in a.iter() {
                    k.hash(h);
                    (*v as u64).hash(h)
                }
            }
            V::Char(a) => a.hash(h),
            V::Str(a) => a.hash(h),
            V::Fun(a) => (Rc::as_ptr(a) as usize).hash(h),
            V::LVar(a) => a.hash(h),
            V::Ref(a) => a.hash(h),
            V::Undef | V::TypeVal(_) => {}
        }
    }
}

impl std::fmt::Debug for V {
    fn fmt(&self, f: &mut std::fmt::Formatter<'_>) -> std::fmt::Result {
        match self {
            V::Undef => write!(f, "⊥"),
            V::Bool(b) => write!(f, "{}", b),
            V::Int(i) => write!(f, "{}", i),
            V::Char(c) => write!(f, "{:?}", c),
            V::Str(s) => write!(f, "{:?}", s),
            V::Tup(v) => {
                write!(f, "(")?;
                for (i, x) in v.iter().enumerate() {
                    if i > 0 {
                        write!(f, ", ")?
                    }
                    write!(f, "{:?}", x)?
                }
                write!(f, ")")
            }
            V::Seq(v) => {
                write!(f, "[")?;
                for (i, x) in v.iter().enumerate() {
                    if i > 0 {
                        write!(f, ", ")?
                    }
                    write!(f, "{:?}", x)?
                }
                write!(f, "]")
            }
            V::Set(v) => {
                write!(f, "{{")?;
                for (i, x) in v.iter().enumerate() {
                    if i > 0 {
                        write!(f, ", ")?
                    }
                    write!(f, "{:?}", x)?
                }
                write!(f, "}}")
            }
            V::Map(v) => {
                write!(f, "{{")?;
                for (i, (k, x)) in v.iter().enumerate() {
                    if i > 0 {
                        write!(f, ", ")?
                    }
                    write!(f, "{:?}=>{:?}", k, x)?
                }
                write!(f, "}}")
            }
            V::MSet(v) => {
                write!(f, "ms{{")?;
                for (i, (k, x)) in v.iter().enumerate() {
                    if i > 0 {
                        write!(f, ", ")?
                    }
                    write!(f, "{:?}*{}", k, x)?
                }
                write!(f, "}}")
            }
            V::Data(d) => {
                write!(f, "{}", name(d.ctor.name))?;
                if d.f.is_empty() {
                    return Ok(());
                }
                if d.ctor.positional {
                    write!(f, "(")?;
                    for (i, x) in d.f.iter().enumerate() {
                        if i > 0 {
                            write!(f, ", ")?
                        }
                        write!(f, "{:?}", x)?
                    }
                    write!(f, ")")
                } else {
                    write!(f, "{{")?;
                    for (i, x) in d.f.iter().enumerate() {
                        if i > 0 {
                            write!(f, ", ")?
                        }
                        write!(f, "{}: {:?}", name(d.ctor.fields[i]), x)?
                    }
                    write!(f, "}}")
                }
            }
            V::Fun(_) => write!(f, "<fn>"),
            V::LVar(i) => write!(f, "?{}", i),
            V::Ref(i) => write!(f, "@{}", i),
            V::TypeVal(t) => write!(f, "<type {:?}>", t),
        }
    }
}

/// 128-bit structural fingerprint of a value.
pub fn fp<T: Hash>(v: &T) -> u128 {
    let mut a = Fx(0x243f6a8885a308d3, 0x13198a2e03707344);
    v.hash(&mut a);
    a.fin()
}
fn mix(mut x: u64) -> u64 {
    x ^= x >> 30;
    x = x.wrapping_mul(0xbf58476d1ce4e5b9);
    x ^= x >> 27;
    x = x.wrapping_mul(0x94d049bb133111eb);
    x ^ (x >> 31)
}
struct Fx(u64, u64);
impl Fx {
    fn fin(&self) -> u128 {
        ((mix(self.0) as u128) << 64) | mix(self.1 ^ self.0.rotate_left(29)) as u128
    }
}
impl Hasher for Fx {
    fn finish(&self) -> u64 {
        self.0
    }
    fn write(&mut self, b: &[u8]) {
        for c in b.chunks(8) {
            let mut x = [0u8; 8];
            x[..c.len()].copy_from_slice(c);
            self.write_u64(u64::from_le_bytes(x));
        }
    }
    fn write_u8(&mut self, x: u8) {
        self.write_u64(x as u64)
    }
    fn write_u32(&mut self, x: u32) {
        self.write_u64(x as u64)
    }
    fn write_usize(&mut self, x: usize) {
        self.write_u64(x as u64)
    }
    fn write_u64(&mut self, x: u64) {
        self.0 = (self.0.rotate_left(5) ^ x).wrapping_mul(0x517cc1b727220a95);
        self.1 = (self.1 ^ mix(x.wrapping_add(0x9e3779b97f4a7c15))).wrapping_mul(0x9fb21c651e98df25).rotate_left(23);
    }
}
