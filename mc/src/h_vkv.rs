//! Exhaustive exploration of the executable VeriBetrKV: client programs, a background syncer,
//! disk completions in every order and crashes at every point.
use crate::checks::*;
use crate::dexec::*;
use crate::explore::Report;
use crate::h_veri::*;
use crate::value::*;
use std::collections::{BTreeMap, BTreeSet, HashMap, HashSet};
use std::rc::Rc;
use std::time::{Duration, Instant};

pub type Key = Vec<u8>;
pub type M = BTreeMap<Key, Vec<u8>>;

#[derive(Clone, Debug, PartialEq, Eq, Hash)]
pub enum C {
    Put(Key, Vec<u8>),
    Clone(Key, Key),
    Get(Key),
    /// start: None = from the beginning, Some((key, inclusive))
    Succ(Option<(Key, bool)>, u64),
    Push(usize),
    Pop(usize, bool),
    /// (prefix scripts only) wait for a graph or log sync
    Sync(bool),
    /// (prefix scripts only) restart
    Reboot,
}
impl C {
    fn show(&self) -> String {
        match self {
            C::Put(k, v) if v.is_empty() => format!("delete {:?}", k),
            C::Put(k, v) => format!("put {:?}={:?}", k, v),
            C::Clone(a, b) => format!("clone {:?} to {:?}", a, b),
            C::Get(k) => format!("get {:?}", k),
            C::Succ(None, n) => format!("scan {} from the start", n),
            C::Succ(Some((k, i)), n) => format!("scan {} {} {:?}", n, if *i { "from" } else { "after" }, k),
            C::Push(s) => format!("sync request #{}", s),
            C::Pop(s, g) => format!("sync poll #{}{}", s, if *g { " (tree)" } else { "" }),
            C::Sync(g) => format!("sync({})", g),
            C::Reboot => "restart".into(),
        }
    }
}
pub fn apply(m: &mut M, c: &C) {
    match c {
        C::Put(k, v) => {
            if v.is_empty() {
                m.remove(k);
            } else {
                m.insert(k.clone(), v.clone());
            }
        }
        C::Clone(f, t) => {
            let new: Vec<(Key, Vec<u8>)> = m.iter().filter(|(k, _)| k.starts_with(f)).map(|(k, v)| ([&t[..], &k[f.len()..]].concat(), v.clone())).collect();
            m.retain(|k, _| !k.starts_with(t));
            m.extend(new);
        }
        _ => {}
    }
}

#[derive(Clone)]
pub struct Cfg {
    pub name: String,
    pub consts: Vec<(&'static str, i128)>,
    pub prefix: Vec<C>,
    /// the writing client runs one of these programs
    pub progs: Vec<Vec<C>>,
    /// the syncing client's program (Push, Pop)
    pub syncs: Vec<C>,
    /// the reading client's program
    pub reads: Vec<C>,
    pub keys: Vec<Key>,
    /// crashes after which the run goes on (recovery itself is checked after a crash at every state)
    pub crashes: u8,
    /// corrupted read responses
    pub faults: u8,
    /// at most so many requests at a time do not finish at once
    pub slow: Option<u8>,
    /// at most so many times one client is set aside for another in the middle of its program
    pub switches: Option<u8>,
    /// 0: no probe reads, 1: full scan and every key, 2: also scans from every start
    pub probe: u8,
    /// superblock writes
    pub commits: u8,
    /// check recovery after a crash at every state
    pub recovery: bool,
    /// check that pending operations can always complete
    pub live: bool,
    pub required: Vec<&'static str>,
}
#[derive(Clone)]
struct St {
    s: Sys,
    base: Rc<M>,
    hist: Vec<C>,
    prog: usize,
    pa: usize,
    pb: usize,
    pc: usize,
    /// sync number: its id, how many of the acknowledged writes it covers, whether it found unlogged writes
    slots: BTreeMap<usize, (i128, usize, bool)>,
    /// a write was acknowledged since the last log write was issued
    dirty: bool,
    crashes: u8,
    commits: u8,
    faults: u8,
    /// the client that moved last, and how often it may still be set aside
    turn: (u8, u8),
    /// a corrupted read was delivered since the last start: answers may be withheld
    faulty: bool,
}
impl St {
    fn map(&self) -> M {
        let mut m = (*self.base).clone();
        for c in &self.hist {
            apply(&mut m, c);
        }
        m
    }
    fn fp(&self) -> u128 {
        let x = |h: u128| (h as u64, (h >> 64) as u64);
        let io: Vec<(u64, u64)> = self.s.io.iter().map(|i| x(i.fp())).collect();
        fp(&(x(fp(&self.s.fs)), x(self.s.disk.fp()), io, &*self.base, &self.hist, (self.prog, self.pa, self.pb, self.pc, self.crashes, self.commits, self.faults, self.faulty, self.dirty, self.turn), &self.slots))
    }
}
fn to_bytes(v: &V) -> Result<Vec<u8>, String> {
    match v {
        V::Seq(s) => s.iter().map(|x| if let V::Int(i) = x { Ok(*i as u8) } else { Err(format!("not a byte: {:?}", x)) }).collect(),
        _ => Err(format!("not bytes: {:?}", v)),
    }
}
pub fn field(v: &V, i: usize) -> Result<&V, String> {
    match v {
        V::Data(d) => d.f.get(i).ok_or("no such field".into()),
        _ => Err(format!("not a datatype: {:?}", v)),
    }
}
pub fn ctor_name(v: &V) -> String {
    match v {
        V::Data(d) => name(d.ctor.name).rsplit("::").next().unwrap().rsplit('.').next().unwrap().to_string(),
        _ => String::new(),
    }
}
/// an option-like result
fn opt(v: &V) -> Option<&V> {
    match v {
        V::Data(d) => d.f.first(),
        _ => None,
    }
}
enum Bad {
    /// the property is violated
    Viol(String),
    /// the machinery failed
    Err(String),
}
type B<T> = Result<T, Bad>;
impl From<String> for Bad {
    fn from(e: String) -> Bad {
        // a run-time failure of the code under test
        Bad::Viol(format!("the implementation fails: {}", e.chars().take(700).collect::<String>()))
    }
}

pub struct Run {
    dx: Dx,
    cfg: Cfg,
    rec: HashMap<u128, Result<Rc<M>, String>>,
    probed: HashMap<u128, Result<Rc<Vec<(C, V)>>, String>>,
    /// situations from which an operation is known to complete unaided
    solo: HashSet<u128>,
    pub out: BTreeMap<String, u64>,
}
impl Run {
    fn bump(&mut self, k: &str) {
        *self.out.entry(k.into()).or_default() += 1;
    }
    fn start(&mut self, s: &Option<(Key, bool)>) -> Result<V, String> {
        match s {
            None => self.dx.ctor("UI.RangeStart", "NegativeInf", vec![]),
            Some((k, true)) => self.dx.ctor("UI.RangeStart", "SInclusive", vec![bytes(k)]),
            Some((k, false)) => self.dx.ctor("UI.RangeStart", "SExclusive", vec![bytes(k)]),
        }
    }
    /// one attempt of a client operation: its result when it completed
    fn attempt(&mut self, s: &mut Sys, c: &C, slot: Option<i128>) -> Result<Option<V>, String> {
        Ok(match c {
            C::Put(k, v) => (s.op(&mut self.dx, "handleInsert", vec![bytes(k), bytes(v)])?[0] == V::Bool(true)).then_some(V::Undef),
            C::Clone(a, b) => (s.op(&mut self.dx, "clone", vec![bytes(a), bytes(b)])?[0] == V::Bool(true)).then_some(V::Undef),
            C::Get(k) => opt(&s.op(&mut self.dx, "handleQuery", vec![bytes(k)])?[0]).cloned(),
            C::Succ(st, n) => {
                let v = self.start(st)?;
                opt(&s.op(&mut self.dx, "handleSucc", vec![v, V::Int(*n as i128)])?[0]).cloned()
            }
            C::Push(_) => match &s.op(&mut self.dx, "handlePushSync", vec![])?[0] {
                V::Int(0) => None,
                v => Some(v.clone()),
            },
            C::Pop(_, g) => (s.op(&mut self.dx, "handlePopSync", vec![V::Int(slot.unwrap_or(0)), V::Bool(*g)])?[1] == V::Bool(true)).then_some(V::Undef),
            _ => None,
        })
    }
    /// new requests must not conflict with outstanding ones, and must lie on the device
    /// the part of the disk a position belongs to: superblocks, log, indirection tables, node blocks
    fn region(&self, at: u64) -> (u64, u64) {
        let c = |n: &str, d: u64| self.cfg.consts.iter().find(|x| x.0 == n).map_or(d, |x| x.1 as u64);
        let (node, table, log) = (c("Bounds.NodeBlockSizeUint64", 1024), c("Bounds.IndirectionTableBlockSizeUint64", 4096), c("Bounds.DiskNumJournalBlocksUint64", 4) * 4096);
        let tables = 8192 + log;
        let nodes = (tables + 2 * table).div_ceil(node) * node;
        if at < 8192 {
            (at / 4096 * 4096, at / 4096 * 4096 + 4096)
        } else if at < tables {
            (8192, tables)
        } else if at < tables + 2 * table {
            let i = (at - tables) / table;
            (tables + i * table, tables + (i + 1) * table)
        } else if at < nodes {
            (at, at)
        } else {
            (at / node * node, (at / node + 1) * node)
        }
    }
    fn overlaps(&self, s: &Sys) -> B<()> {
        let mut ids = BTreeSet::new();
        for a in &s.io {
            let (x, r) = (a.range(), self.region(a.range().0));
            if x.0 < r.0 || x.1 > r.1 {
                return Err(Bad::Viol(format!("a request leaves its part of the disk ({}..{}): {}", r.0, r.1, a.show())));
            }
            if !ids.insert((a.is_write(), a.id())) {
                return Err(Bad::Viol(format!("two outstanding requests have the same number: {}", a.show())));
            }
        }
        for (i, a) in s.io.iter().enumerate() {
            for b in &s.io[i + 1..] {
                let (x, y) = (a.range(), b.range());
                if (a.is_write() || b.is_write()) && x.0 < y.1 && y.0 < x.1 {
                    return Err(Bad::Viol(format!("conflicting requests are outstanding together: {} and {}", a.show(), b.show())));
                }
            }
        }
        Ok(())
    }
    fn step(&mut self, s: &mut Sys, c: &C, slot: Option<i128>) -> B<Option<V>> {
        let n = s.io.len();
        let r = self.attempt(s, c, slot)?;
        if s.io.len() > n + 1 {
            self.bump("write issued in two parts");
        }
        self.overlaps(s)?;
        Ok(r)
    }
    /// drive one operation to completion, finishing requests first-in-first-out
    fn settle(&mut self, s: &mut Sys, c: &C) -> B<Option<V>> {
        let slot = match c {
            C::Pop(..) => Some(0),
            _ => None,
        };
        for n in 0..200 {
            if let Some(v) = self.step(s, c, slot)? {
                return Ok(Some(v));
            }
            while !s.io.is_empty() {
                s.complete(&mut self.dx, 0)?;
                self.overlaps(s)?;
            }
            if n % 4 == 3 {
                self.step(s, &C::Pop(0, true), Some(0))?;
            }
        }
        Ok(None)
    }
    fn sync(&mut self, s: &mut Sys, g: bool) -> B<bool> {
        let Some(V::Int(id)) = self.settle(s, &C::Push(0))? else { return Ok(false) };
        for _ in 0..200 {
            if self.step(s, &C::Pop(0, g), Some(id))?.is_some() {
                return Ok(true);
            }
            while !s.io.is_empty() {
                s.complete(&mut self.dx, 0)?;
                self.overlaps(s)?;
            }
        }
        Ok(false)
    }
    /// the whole map, by a scan
    fn scan(&mut self, s: &mut Sys) -> B<M> {
        let mut m = M::new();
        let mut from = None;
        for _ in 0..1000 {
            let c = C::Succ(from, 1000);
            let v = self.settle(s, &c)?;
            let Some(v) = v else { return Err(Bad::Viol("a scan of the whole map is never answered".into())) };
            let V::Seq(rs) = field(&v, 0)? else { return Err(Bad::Viol("bad scan result".into())) };
            for r in rs.iter() {
                m.insert(to_bytes(field(r, 0)?)?, to_bytes(field(r, 1)?)?);
            }
            let end = field(&v, 1)?;
            from = match ctor_name(end).as_str() {
                "EInclusive" => Some((to_bytes(field(end, 0)?)?, false)),
                "EExclusive" => Some((to_bytes(field(end, 0)?)?, true)),
                _ => return Ok(m),
            };
        }
        Err(Bad::Viol("a scan of the whole map makes no progress".into()))
    }
    /// what the store holds after a restart from this disk
    fn recover(&mut self, d: &Disk) -> B<Rc<M>> {
        let h = d.fp();
        if let Some(r) = self.rec.get(&h) {
            return r.clone().map_err(Bad::Viol);
        }
        let mut s = Sys { fs: V::Undef, disk: d.clone(), io: vec![], busy: 0, calls: 0 };
        // the restarted store is read with a cache that holds it all
        let small = self.cfg.consts.iter().find(|c| c.0 == CACHE).map_or(4, |c| c.1);
        self.dx.constant(CACHE, V::Int(small.max(64)))?;
        let r = (|| {
            s.boot(&mut self.dx)?;
            self.scan(&mut s)
        })();
        self.dx.constant(CACHE, V::Int(small))?;
        let r = match r {
            Ok(m) => Ok(Rc::new(m)),
            Err(Bad::Viol(m)) => {
                if std::env::var("VDUMP").is_ok() {
                    let d = format!("{:?}", s.fs).replace("7, 7, ", "").replace("0, 0, ", "");
                    println!("{}", d.chars().take(6000).collect::<String>());
                }
                Err(format!("after a restart: {}", m))
            }
            Err(e) => return Err(e),
        };
        self.rec.insert(h, r.clone());
        r.map_err(Bad::Viol)
    }
    /// is this answer right for the given contents?
    fn check(&self, m: &M, c: &C, v: &V) -> B<()> {
        match c {
            C::Get(k) => {
                let w = m.get(k).cloned().unwrap_or_default();
                let g = to_bytes(v)?;
                if g != w {
                    return Err(Bad::Viol(format!("get of {:?} answers {:?}, expected {:?}", k, g, w)));
                }
            }
            C::Succ(st, _) => {
                let V::Seq(rs) = field(v, 0)? else { return Err(Bad::Viol("bad scan result".into())) };
                let end = field(v, 1)?;
                let en = ctor_name(end);
                let ek = if en == "PositiveInf" { vec![] } else { to_bytes(field(end, 0)?)? };
                let got: Vec<(Key, Vec<u8>)> = rs.iter().map(|r| Ok((to_bytes(field(r, 0)?)?, to_bytes(field(r, 1)?)?))).collect::<Result<_, String>>()?;
                let lo = |k: &Key| match st {
                    None => true,
                    Some((s, true)) => k >= s,
                    Some((s, false)) => k > s,
                };
                let hi = |k: &Key| match en.as_str() {
                    "EInclusive" => *k <= ek,
                    "EExclusive" => *k < ek,
                    _ => true,
                };
                let want: Vec<(Key, Vec<u8>)> = m.iter().filter(|(k, _)| lo(k) && hi(k)).map(|(k, v)| (k.clone(), v.clone())).collect();
                if got != want {
                    return Err(Bad::Viol(format!("{} answers {:?} up to {} {:?}, expected {:?}", c.show(), got, en, ek, want)));
                }
                let nonempty = match (st, en.as_str()) {
                    (None, _) | (_, "PositiveInf") => true,
                    (Some((s, true)), "EInclusive") => *s <= ek,
                    (Some((s, _)), _) => *s < ek,
                };
                if !nonempty {
                    return Err(Bad::Viol(format!("{} answers with the empty range up to {} {:?}", c.show(), en, ek)));
                }
            }
            _ => {}
        }
        Ok(())
    }
    fn probe(&mut self, st: &St) -> B<()> {
        let x = |h: u128| (h as u64, (h >> 64) as u64);
        let key = fp(&(x(fp(&st.s.fs)), x(st.s.disk.fp()), st.s.io.iter().map(|i| x(i.fp())).collect::<Vec<_>>(), st.faulty));
        if !self.probed.contains_key(&key) {
            let mut qs = vec![C::Succ(None, 1000)];
            for k in self.cfg.keys.clone() {
                qs.push(C::Get(k.clone()));
                if self.cfg.probe >= 2 {
                    qs.push(C::Succ(Some((k.clone(), true)), 1));
                    qs.push(C::Succ(Some((k.clone(), false)), 2));
                }
            }
            if self.cfg.probe >= 2 {
                qs.push(C::Succ(None, 1));
                qs.push(C::Succ(None, 2));
            }
            let mut s = st.s.clone();
            let mut ans = vec![];
            let mut bad = None;
            for q in qs {
                match self.settle(&mut s, &q) {
                    Ok(Some(v)) => ans.push((q, v)),
                    Ok(None) if st.faulty => break,
                    Ok(None) => {
                        bad = Some(format!("{} is never answered", q.show()));
                        break;
                    }
                    Err(Bad::Viol(m)) => {
                        bad = Some(m);
                        break;
                    }
                    Err(e) => return Err(e),
                }
            }
            let r = match bad {
                Some(m) => Err(m),
                None => Ok(Rc::new(ans)),
            };
            self.probed.insert(key, r);
        }
        let a = self.probed[&key].clone().map_err(Bad::Viol)?;
        let m = st.map();
        for (q, v) in a.iter() {
            self.check(&m, q, v)?;
        }
        Ok(())
    }
    /// after a crash here (any subset of the outstanding writes landed) the store must hold an
    /// acknowledged prefix that contains everything synced
    fn crash(&mut self, st: &St) -> B<Vec<(String, St)>> {
        let ws: Vec<usize> = (0..st.s.io.len()).filter(|i| st.s.io[*i].is_write()).collect();
        let mut out = vec![];
        for mask in 0..1u32 << ws.len() {
            let mut d = st.s.disk.clone();
            let mut landed = vec![];
            for (b, i) in ws.iter().enumerate() {
                if mask >> b & 1 == 1 {
                    if let Io::Write(_, a, r) = &st.s.io[*i] {
                        d.write(*a, r);
                        landed.push(st.s.io[*i].show());
                    }
                }
            }
            let what = if landed.is_empty() { "crash".to_string() } else { format!("crash after {} reached the disk", landed.join(", ")) };
            let got = match self.recover(&d) {
                Ok(m) => m,
                Err(Bad::Viol(m)) => return Err(Bad::Viol(format!("{}: {}", what, m))),
                Err(e) => return Err(e),
            };
            let mut m = (*st.base).clone();
            let mut n = (m == *got).then_some(0);
            for (i, c) in st.hist.iter().enumerate() {
                apply(&mut m, c);
                if m == *got {
                    n = Some(i + 1);
                }
            }
            match n {
                None => {
                    return Err(Bad::Viol(format!("{}: the store comes back as {:?}, but the durable contents are {:?} followed by {}", what, got, st.base, st.hist.iter().map(|c| c.show()).collect::<Vec<_>>().join("; "))))
                }
                Some(n) => {
                    self.bump(if n < st.hist.len() { "crash that loses unsynced writes" } else if n > 0 { "crash that keeps unsynced writes" } else { "crash with nothing unsynced" });
                }
            }
            if !landed.is_empty() {
                self.bump("crash with part of the outstanding writes on disk");
            }
            if st.crashes > 0 {
                let mut t = st.clone();
                t.s.disk = d;
                t.s.boot(&mut self.dx)?;
                t.base = got;
                t.hist.clear();
                t.slots.clear();
                t.dirty = false;
                while t.pb < self.cfg.syncs.len() && !matches!(self.cfg.syncs[t.pb], C::Push(_)) {
                    t.pb += 1;
                }
                t.crashes -= 1;
                t.faulty = false;
                out.push((what, t));
            }
        }
        Ok(out)
    }
    fn succs(&mut self, st: &St) -> B<Vec<(String, St)>> {
        let mut out = vec![];
        let can = st.commits > 0;
        let limit = self.cfg.switches.is_some();
        let left = [st.pa < self.cfg.progs[st.prog].len(), st.pb < self.cfg.syncs.len(), st.pc < self.cfg.reads.len()];
        let may = |i: usize| !limit || st.turn.0 as usize == i || st.turn.1 > 0 || !left[st.turn.0 as usize];
        let turn = |i: usize| if !limit { st.turn } else if st.turn.0 as usize == i { st.turn } else { (i as u8, st.turn.1.saturating_sub(left[st.turn.0 as usize] as u8)) };
        let at = |e: Bad, l: &str| match e {
            Bad::Viol(m) => Bad::Viol(format!("{}: {}", l, m)),
            e => e,
        };
        // the writer
        if let Some(c) = self.cfg.progs[st.prog].get(st.pa).cloned().filter(|_| can && may(0)) {
            let mut t = st.clone();
            t.turn = turn(0);
            let r = self.step(&mut t.s, &c, None).map_err(|e| at(e, &c.show()))?;
            let l = format!("{}{}", c.show(), if r.is_some() { "" } else { " (not yet)" });
            if r.is_some() {
                t.pa += 1;
                t.dirty = true;
                t.hist.push(c.clone());
                self.bump("write acknowledged");
                if matches!(c, C::Clone(..)) {
                    self.bump("clone acknowledged");
                }
            } else {
                self.bump("write deferred");
            }
            out.push((l, t));
        }
        // the syncer
        if let Some(c) = self.cfg.syncs.get(st.pb).cloned().filter(|_| can && may(1)) {
            let mut t = st.clone();
            t.turn = turn(1);
            match &c {
                C::Push(k) => {
                    let r = self.step(&mut t.s, &c, None).map_err(|e| at(e, &c.show()))?;
                    if let Some(V::Int(id)) = r {
                        if t.slots.values().any(|x| x.0 == id) {
                            return Err(Bad::Viol(format!("sync id {} is given out twice", id)));
                        }
                        t.slots.insert(*k, (id, t.hist.len(), t.dirty));
                        t.pb += 1;
                    }
                }
                C::Pop(k, _) => match st.slots.get(k) {
                    None => t.pb += 1,
                    Some((id, upto, _)) => {
                        let r = self.step(&mut t.s, &c, Some(*id)).map_err(|e| at(e, &c.show()))?;
                        if r.is_some() {
                            let mut m = (*t.base).clone();
                            for c in t.hist.drain(..*upto) {
                                apply(&mut m, &c);
                            }
                            t.base = Rc::new(m);
                            for x in t.slots.values_mut() {
                                x.1 = x.1.saturating_sub(*upto);
                            }
                            t.slots.remove(k);
                            t.pb += 1;
                            self.bump("sync acknowledged");
                            if *upto > 0 {
                                self.bump("sync made writes durable");
                            }
                        }
                    }
                },
                _ => {}
            }
            out.push((c.show(), t));
        }
        // the reader
        if let Some(c) = self.cfg.reads.get(st.pc).cloned().filter(|_| may(2)) {
            let mut t = st.clone();
            t.turn = turn(2);
            if let Some(v) = self.step(&mut t.s, &c, None).map_err(|e| at(e, &c.show()))? {
                self.check(&st.map(), &c, &v)?;
                t.pc += 1;
                self.bump("read answered");
            } else {
                self.bump("read deferred");
            }
            out.push((c.show(), t));
        }
        // the disk
        for k in 0..st.s.io.len() {
            let l = format!("{} done", st.s.io[k].show());
            let mut t = st.clone();
            t.s.complete(&mut self.dx, k).map_err(|e| at(e.into(), &l))?;
            self.overlaps(&t.s).map_err(|e| at(e, &l))?;
            out.push((l, t));
            if st.faults > 0 && !st.s.io[k].is_write() {
                for which in 0..5 {
                    let l = format!("{} comes back corrupted ({})", st.s.io[k].show(), which);
                    let mut t = st.clone();
                    t.faults -= 1;
                    t.faulty = true;
                    t.s.fail(&mut self.dx, k, |b| {
                        let full: Vec<usize> = (0..b.len()).filter(|i| b[*i] != V::Int(0)).collect();
                        let last = full.last().copied().unwrap_or(0);
                        let i = [0, 40, 33, last, full.get(full.len().saturating_sub(2)).copied().unwrap_or(1)][which].min(b.len() - 1);
                        if let V::Int(x) = b[i] {
                            b[i] = V::Int(x ^ 1);
                        }
                    })
                    .map_err(|e| at(e.into(), &l))?;
                    self.overlaps(&t.s).map_err(|e| at(e, &l))?;
                    self.bump("corrupted read");
                    out.push((l, t));
                }
            }
        }
        // with a bound on slow requests: all others finish right away, first-in-first-out
        if let Some(h) = self.cfg.slow {
            let mut all = vec![];
            for (l, t) in out {
                let old: HashSet<(bool, u64)> = st.s.io.iter().map(|i| (i.is_write(), i.id())).collect();
                let new: Vec<(bool, u64)> = t.s.io.iter().map(|i| (i.is_write(), i.id())).filter(|i| !old.contains(i)).collect();
                let waiting = t.s.io.len() - new.len();
                for mask in 0..1u32 << new.len() {
                    if waiting + mask.count_ones() as usize > h as usize && mask != 0 {
                        continue;
                    }
                    let mut u = t.clone();
                    let mut l = l.clone();
                    for (b, n) in new.iter().enumerate() {
                        if mask >> b & 1 == 0 {
                            if let Some(k) = u.s.io.iter().position(|i| (i.is_write(), i.id()) == *n) {
                                l = format!("{}, {} done", l, u.s.io[k].show());
                                u.s.complete(&mut self.dx, k).map_err(|e| at(e.into(), &l))?;
                                self.overlaps(&u.s).map_err(|e| at(e, &l))?;
                            }
                        }
                    }
                    all.push((l, t.s.io.clone(), u));
                }
            }
            let n = |io: &[Io]| io.iter().filter(|i| i.is_write() && i.range().0 < 8192).count();
            return Ok(all
                .into_iter()
                .map(|(l, io, mut u)| {
                    u.commits = u.commits.saturating_sub(n(&io).saturating_sub(n(&st.s.io)) as u8);
                    (l, u)
                })
                .collect());
        }
        // count the superblock writes
        for (_, t) in out.iter_mut() {
            let n = |s: &Sys| s.io.iter().filter(|i| i.is_write() && i.range().0 < 8192).count();
            t.commits = t.commits.saturating_sub(n(&t.s).saturating_sub(n(&st.s)) as u8);
            let j = |s: &Sys| s.io.iter().filter(|i| i.is_write() && self.region(i.range().0) == self.region(8192)).count();
            if j(&t.s) > j(&st.s) {
                t.dirty = false;
            }
        }
        Ok(out)
    }
    /// An operation that nobody helps: repeating the call and finishing every disk request completes it.
    fn alone(&mut self, st: &St) -> B<()> {
        if st.faulty {
            return Ok(());
        }
        let logs = self.cfg.syncs.iter().all(|c| !matches!(c, C::Pop(_, true)));
        let mut ops = vec![];
        if let Some(c @ C::Pop(k, g)) = self.cfg.syncs.get(st.pb) {
            if let Some((id, _, dirty)) = st.slots.get(k) {
                // a log-only sync with nothing to log is a listed finding
                if *g || logs && *dirty {
                    ops.push((c.clone(), Some(*id)));
                }
            }
        }
        if let Some(c @ C::Get(_)) = self.cfg.reads.get(st.pc) {
            ops.push((c.clone(), None));
        }
        for (c, slot) in ops {
            let x = |h: u128| (h as u64, (h >> 64) as u64);
            let key = |s: &Sys| {
                let io: Vec<(u64, u64)> = s.io.iter().map(|i| x(i.fp())).collect();
                fp(&(x(fp(&s.fs)), x(s.disk.fp()), io, c.show(), slot))
            };
            let mut s = st.s.clone();
            let mut seen = vec![];
            let mut ok = false;
            for _ in 0..60 {
                let k = key(&s);
                if self.solo.contains(&k) {
                    ok = true;
                    break;
                }
                seen.push(k);
                if self.step(&mut s, &c, slot)?.is_some() {
                    ok = true;
                    break;
                }
                while !s.io.is_empty() {
                    s.complete(&mut self.dx, 0)?;
                    self.overlaps(&s)?;
                }
            }
            if !ok {
                return Err(Bad::Viol(format!("{} is never answered, however often it is repeated with all disk requests finished", c.show())));
            }
            self.solo.extend(seen);
            self.bump("operation completes unaided");
        }
        Ok(())
    }
    fn check_state(&mut self, st: &St) -> B<Vec<(String, St)>> {
        let r = if self.cfg.recovery || st.crashes > 0 { self.crash(st)? } else { vec![] };
        if self.cfg.probe > 0 {
            self.probe(st)?;
        }
        if self.cfg.live {
            self.alone(st)?;
        }
        Ok(r)
    }
}

pub fn load_cfg(cfg: &Cfg) -> Result<Dx, String> {
    let mut dx = load()?;
    for (n, v) in &cfg.consts {
        dx.constant(n, V::Int(*v))?;
    }
    dx.prof = Some(HashMap::new());
    Ok(dx)
}
pub fn explore(cfg: Cfg, max_states: u64, time: Duration) -> Result<RunOut, String> {
    let t0 = Instant::now();
    let dx = load_cfg(&cfg)?;
    let mut r = Run { dx, cfg: cfg.clone(), rec: HashMap::new(), probed: HashMap::new(), solo: HashSet::new(), out: BTreeMap::new() };
    let mut rep = Report::default();
    let mut viol: Option<(String, Vec<String>)> = None;
    let mut trace0: Vec<String> = vec![];
    let bad = |e: Bad, tr: &[String], viol: &mut Option<(String, Vec<String>)>| -> Result<(), String> {
        match e {
            Bad::Viol(m) => {
                *viol = Some((m, tr.to_vec()));
                Ok(())
            }
            Bad::Err(e) => Err(e),
        }
    };
    // the prefix
    let mut init: Option<St> = None;
    match Sys::mkfs(&mut r.dx) {
        Err(e) => viol = Some((format!("creating the file system fails: {}", e.chars().take(700).collect::<String>()), vec![])),
        Ok(s) => {
            let mut st = St { s, base: Rc::new(M::new()), hist: vec![], prog: 0, pa: 0, pb: 0, pc: 0, slots: BTreeMap::new(), dirty: false, crashes: cfg.crashes, commits: cfg.commits, faults: cfg.faults, turn: (0, cfg.switches.unwrap_or(0)), faulty: false };
            let mut ok = true;
            let mut m = M::new();
            for c in &cfg.prefix {
                trace0.push(c.show());
                let res = match c {
                    C::Sync(g) => r.sync(&mut st.s, *g).map(|x| x.then_some(V::Undef)),
                    C::Reboot => {
                        st.s.io.clear();
                        st.s.boot(&mut r.dx).map(|_| Some(V::Undef)).map_err(Bad::from)
                    }
                    c => r.settle(&mut st.s, c),
                };
                match res {
                    Err(e) => {
                        bad(e, &trace0, &mut viol)?;
                        ok = false;
                        break;
                    }
                    Ok(None) => {
                        viol = Some((format!("{} never completes", c.show()), trace0.clone()));
                        ok = false;
                        break;
                    }
                    Ok(Some(v)) => {
                        if let Err(e) = r.check(&m, c, &v) {
                            bad(e, &trace0, &mut viol)?;
                            ok = false;
                            break;
                        }
                        apply(&mut m, c);
                        match c {
                            C::Sync(_) => {
                                st.base = Rc::new(m.clone());
                                st.hist.clear();
                            }
                            C::Put(..) | C::Clone(..) => st.hist.push(c.clone()),
                            C::Reboot => {
                                let disk = st.s.disk.clone();
                                match r.recover(&disk) {
                                    Ok(g) => {
                                        let mut n = (*st.base).clone();
                                        let mut good = n == *g;
                                        for c in &st.hist {
                                            apply(&mut n, c);
                                            good |= n == *g;
                                        }
                                        if !good {
                                            viol = Some((format!("the store comes back as {:?}, but the durable contents are {:?}", g, st.base), trace0.clone()));
                                            ok = false;
                                            break;
                                        }
                                        m = (*g).clone();
                                        st.base = g;
                                        st.hist.clear();
                                    }
                                    Err(e) => {
                                        bad(e, &trace0, &mut viol)?;
                                        ok = false;
                                        break;
                                    }
                                }
                            }
                            _ => {}
                        }
                    }
                }
            }
            if ok {
                init = Some(st);
            }
        }
    }
    let mut nodes: Vec<(u32, Rc<str>)> = vec![];
    let mut seen: HashMap<u128, u32> = HashMap::new();
    let mut edges: Vec<(u32, u32)> = vec![];
    let mut done: BTreeSet<u32> = BTreeSet::new();
    let mut stack: Vec<(u32, St, u32)> = vec![];
    let mut labels: HashMap<String, Rc<str>> = HashMap::new();
    let path = |nodes: &Vec<(u32, Rc<str>)>, mut i: u32| {
        let mut v = vec![];
        while i != u32::MAX {
            v.push(nodes[i as usize].1.to_string());
            i = nodes[i as usize].0;
        }
        v.reverse();
        v
    };
    if let Some(st) = init {
        for p in (0..cfg.progs.len()).rev() {
            let mut t = st.clone();
            t.prog = p;
            let id = nodes.len() as u32;
            if seen.insert(t.fp(), id).is_none() {
                nodes.push((u32::MAX, "start".into()));
                stack.push((id, t, 0));
            }
        }
    }
    let mut full = true;
    while let Some((id, st, depth)) = stack.pop() {
        if viol.is_some() {
            break;
        }
        if nodes.len() as u64 > max_states || t0.elapsed() > time {
            full = false;
            break;
        }
        rep.depth = rep.depth.max(depth);
        if st.pa == cfg.progs[st.prog].len() && st.pb == cfg.syncs.len() && st.pc == cfg.reads.len() || st.faulty || st.commits == 0 {
            done.insert(id);
        }
        let mut next = match r.check_state(&st) {
            Ok(v) => v,
            Err(e) => {
                let mut t = trace0.clone();
                t.extend(path(&nodes, id));
                bad(e, &t, &mut viol)?;
                break;
            }
        };
        match r.succs(&st) {
            Ok(v) => next.extend(v),
            Err(e) => {
                let mut t = trace0.clone();
                t.extend(path(&nodes, id));
                bad(e, &t, &mut viol)?;
                break;
            }
        }
        for (l, t) in next {
            rep.transitions += 1;
            let h = t.fp();
            let n = nodes.len() as u32;
            match seen.get(&h) {
                Some(k) => edges.push((id, *k)),
                None => {
                    seen.insert(h, n);
                    edges.push((id, n));
                    let l = labels.entry(l.clone()).or_insert_with(|| l.as_str().into()).clone();
                    nodes.push((id, l));
                    stack.push((n, t, depth + 1));
                }
            }
        }
    }
    // from every state the remaining operations can still be completed
    if viol.is_none() && full && cfg.live {
        let mut back: Vec<Vec<u32>> = vec![vec![]; nodes.len()];
        for (a, b) in &edges {
            back[*b as usize].push(*a);
        }
        let mut ok = vec![false; nodes.len()];
        let mut q: Vec<u32> = done.iter().copied().collect();
        for i in &q {
            ok[*i as usize] = true;
        }
        while let Some(i) = q.pop() {
            for a in &back[i as usize] {
                if !ok[*a as usize] {
                    ok[*a as usize] = true;
                    q.push(*a);
                }
            }
        }
        if let Some(i) = ok.iter().position(|x| !x) {
            let mut t = trace0.clone();
            t.extend(path(&nodes, i as u32));
            viol = Some(("from here the pending operations can never complete".into(), t));
        }
    }
    rep.states = nodes.len() as u64;
    rep.exhausted = full && viol.is_none();
    if viol.is_none() {
        for i in [nodes.len() / 3, nodes.len() / 2, nodes.len().saturating_sub(1)] {
            if i < nodes.len() {
                let mut t = trace0.clone();
                t.extend(path(&nodes, i as u32));
                rep.samples.push(t.join("; "));
            }
        }
    }
    rep.violation = viol;
    rep.wall = t0.elapsed().as_secs_f64();
    let mut outcomes = r.out.clone();
    if let Some(p) = &r.dx.prof {
        for (n, (k, _)) in p {
            let n = name(*n);
            for (f, l) in [("FlushImpl.doFlush", "tree flush"), ("SplitImpl.doSplit", "tree split"), ("GrowImpl.grow", "tree grows"), ("EvictImpl.EvictOrDealloc", "eviction"), ("DeallocImpl.Dealloc", "deallocation"), ("LeafImpl.repivotLeaf", "leaf repivot"), ("CacheImpl.LMutCache.Remove", "node dropped from the cache"), ("IOImpl.PageInNodeResp", "node paged in")] {
                if &*n == f {
                    *outcomes.entry(l.into()).or_default() += k;
                }
            }
        }
    }
    rep.fired = outcomes.clone();
    Ok(RunOut { bounds: String::new(), rep, outcomes, required: cfg.required.iter().map(|s| s.to_string()).collect() })
}


pub fn put(key: &[u8], v: u8) -> C {
    C::Put(key.to_vec(), vec![v])
}
pub fn del(key: &[u8]) -> C {
    C::Put(key.to_vec(), vec![])
}
/// all programs of n operations over the alphabet (values differ by position)
pub fn words(n: usize, abc: &[C]) -> Vec<Vec<C>> {
    let mut v: Vec<Vec<C>> = vec![vec![]];
    for i in 0..n {
        v = v
            .into_iter()
            .flat_map(|w| {
                abc.iter()
                    .map(move |c| {
                        let mut w = w.clone();
                        w.push(match c {
                            C::Put(k, v) if !v.is_empty() => C::Put(k.clone(), v.iter().map(|x| x.wrapping_add(i as u8)).collect()),
                            c => c.clone(),
                        });
                        w
                    })
                    .collect::<Vec<_>>()
            })
            .collect();
    }
    v
}
/// n keys inserted in the given order with a tree sync after every `every` of them
fn fill(n: u8, order: u8, every: u8, len: usize) -> Vec<C> {
    let mut v = vec![];
    for i in 0..n {
        let j = match order {
            0 => i,
            1 => n - 1 - i,
            _ => (i as u32 * 7 % n as u32) as u8,
        };
        v.push(C::Put(vec![1 + j / 4, j], vec![100 + j; len]));
        if every > 0 && i % every == every - 1 {
            v.push(C::Sync(true));
        }
    }
    v
}
const A: &[u8] = &[1];
const BK: &[u8] = &[2];
/// key below and above [1]
const AX: &[u8] = &[1, 7];
const W: &str = "Bounds.MaxTotalBucketWeightUint64";
const CACHE: &str = "Bounds.MaxCacheSizeUint64";
fn cfg(name: &str) -> Cfg {
    Cfg {
        name: name.into(),
        consts: vec![],
        prefix: vec![],
        progs: vec![vec![]],
        syncs: vec![],
        reads: vec![],
        keys: vec![A.to_vec(), BK.to_vec(), AX.to_vec()],
        crashes: 0,
        commits: 4,
        live: false,
        recovery: false,
        faults: 0,
        slow: None,
        switches: None,
        probe: 0,
        required: vec![],
    }
}
/// small nodes and a small cache; as in the real configuration, a node that is flushed into has room for at least one message
fn tiny(w: i128, cache: i128) -> Vec<(&'static str, i128)> {
    vec![(W, w), (CACHE, cache), ("Bounds.FlushTriggerWeightUint64", 24)]
}
fn tree() -> Vec<(&'static str, i128)> {
    tiny(96, 8)
}
fn big() -> Vec<(&'static str, i128)> {
    vec![("Bounds.NodeBlockSizeUint64", 16384), ("Bounds.IndirectionTableBlockSizeUint64", 16384), (W, 12000)]
}
#[derive(Clone, Copy, PartialEq, Debug)]
pub enum Fam {
    /// crashes and syncs
    Crash,
    /// answers of reads and scans
    Read,
    /// clones
    Clone,
    /// disk requests and corrupted reads
    Disk,
    /// completion
    Live,
}
const CR: &[&str] = &["crash that loses unsynced writes", "crash with part of the outstanding writes on disk", "sync made writes durable"];
pub fn cfgs(f: Fam, thorough: bool) -> Vec<Cfg> {
    let abc = [put(A, 10), put(BK, 30), del(A)];
    let two = vec![put(A, 10), put(BK, 30)];
    let t = |a: usize, b: usize| if thorough { b } else { a };
    let tree_sync = vec![C::Push(0), C::Pop(0, true)];
    let log_sync = vec![C::Push(0), C::Pop(0, false)];
    let mut v = vec![];
    match f {
        Fam::Crash => {
            let base = |n: &str| Cfg { recovery: true, required: CR.to_vec(), ..cfg(n) };
            v.push(Cfg { progs: words(t(2, 4), &abc), syncs: tree_sync.clone(), crashes: 1, ..base("fresh-tree-sync") });
            v.push(Cfg { progs: words(t(2, 4), &abc), syncs: log_sync.clone(), crashes: 1, ..base("fresh-log-sync") });
            v.push(Cfg { progs: words(2, &abc[..2]), syncs: vec![C::Push(0), C::Push(1), C::Pop(1, false), C::Pop(0, true), C::Push(2), C::Pop(2, false)], commits: 5, ..base("overlapping-syncs") });
            v.push(Cfg { progs: vec![two.clone()], syncs: vec![C::Push(0), C::Pop(0, true)], crashes: 2, commits: t(3, 4) as u8, ..base("two-crashes") });
            // a log that wraps around and fills up
            let logs = |n: u8| (0..n).flat_map(|i| vec![put(&[3], 40 + i), C::Sync(false)]).collect::<Vec<_>>();
            v.push(Cfg { prefix: [logs(2), vec![C::Sync(true)], logs(1)].concat(), progs: words(t(2, 3), &abc), syncs: vec![C::Push(0), C::Pop(0, false), C::Push(1), C::Pop(1, false)], ..base("log-wraps") });
            v.push(Cfg { prefix: [logs(2), vec![C::Sync(true)], logs(1)].concat(), progs: words(t(1, 2), &abc), syncs: tree_sync.clone(), crashes: 1, ..base("log-wraps-tree-sync") });
            v.push(Cfg { prefix: logs(4), progs: words(t(2, 3), &abc), syncs: log_sync.clone(), required: vec!["crash that loses unsynced writes"], ..base("log-full") });
            let wide = |k: u8, v: u8| C::Put(vec![k], vec![v; 1000]);
            v.push(Cfg { consts: big(), prefix: [logs(3), vec![C::Sync(true)]].concat(), progs: vec![(1..6).map(|i| wide(i, 6 + i)).collect()], syncs: vec![C::Push(0), C::Pop(0, false)], crashes: t(0, 1) as u8, required: [CR, &["write issued in two parts"]].concat(), ..base("split-log-write") });
            // a tree of several nodes, cold and warm
            v.push(Cfg { consts: tree(), prefix: [fill(12, 0, 4, 8), vec![C::Sync(true)]].concat(), progs: words(2, &abc), syncs: tree_sync.clone(), ..base("tree-warm") });
            v.push(Cfg { consts: tree(), prefix: [fill(12, 2, 3, 8), vec![C::Sync(true), C::Reboot]].concat(), progs: words(t(1, 2), &abc), syncs: tree_sync.clone(), crashes: 1, ..base("tree-cold") });
            v.push(Cfg { consts: tree(), prefix: [fill(9, 1, 0, 8), vec![C::Sync(false)]].concat(), progs: words(2, &abc), syncs: tree_sync.clone(), ..base("tree-unsaved") });
            v.push(Cfg { consts: tree(), prefix: [fill(12, 0, 4, 8), vec![C::Sync(true)]].concat(), progs: vec![(0..t(3, 4) as u8).map(|i| C::Put(vec![2, 6, i], vec![i; 12])).collect()], syncs: if thorough { vec![C::Push(0), C::Pop(0, true), C::Push(1), C::Pop(1, true)] } else { tree_sync.clone() }, ..base("tree-splitting") });
            v.push(Cfg { consts: tiny(96, 6), prefix: [fill(12, 0, 4, 8), vec![C::Sync(true)]].concat(), progs: vec![vec![put(A, 1), put(&[4], 2), put(BK, 3)]], syncs: tree_sync.clone(), ..base("tree-small-cache") });
            for c in evicting(thorough) {
                v.push(Cfg { recovery: true, ..c });
            }
            let cpre = [fill(12, 0, 4, 8), (0..3).map(|i| C::Put(vec![4, i], vec![i; 12])).collect(), vec![C::Sync(true)]].concat();
            let cabc = [C::Clone(vec![1], vec![3]), C::Clone(vec![2], vec![4]), put(&[3, 7], 10)];
            v.push(Cfg { consts: tree(), prefix: cpre.clone(), progs: words(t(2, 3), &cabc), syncs: log_sync.clone(), ..base("clone-log-sync") });
            v.push(Cfg { consts: tree(), prefix: cpre, progs: words(2, &cabc[..t(2, 3)]), syncs: tree_sync.clone(), crashes: t(0, 1) as u8, ..base("clone-tree-sync") });
        }
        Fam::Read => {
            let base = |n: &str| Cfg { probe: 2, required: vec!["read answered", "read deferred", "write acknowledged"], ..cfg(n) };
            let rd = vec![C::Get(A.to_vec()), C::Succ(None, 2)];
            v.push(Cfg { progs: words(t(4, 5), &abc), reads: rd.clone(), ..base("fresh") });
            v.push(Cfg { prefix: vec![put(A, 1), put(BK, 2), C::Sync(true), C::Reboot], progs: words(t(4, 5), &abc), reads: vec![C::Succ(Some((A.to_vec(), false)), 1), C::Get(BK.to_vec())], ..base("restarted") });
            v.push(Cfg { prefix: vec![put(A, 1), put(BK, 2), C::Sync(false), C::Reboot], progs: words(t(3, 4), &abc), reads: vec![C::Get(BK.to_vec()), C::Succ(Some((A.to_vec(), true)), 1)], ..base("replayed") });
            let n = t(14, 20) as u8;
            for o in 0..3u8 {
                for (every, cold) in [(0, false), (5, true)] {
                    let mut prefix = fill(n, o, every, 8);
                    if cold {
                        prefix.extend([C::Sync(true), C::Reboot]);
                    }
                    let ks: Vec<Key> = (0..n).filter(|i| i % 3 == 0).map(|j| vec![1 + j / 4, j]).chain([vec![], vec![2], vec![9]]).collect();
                    v.push(Cfg { consts: tree(), prefix, progs: words(t(2, 4), &[put(AX, 10), del(&[2, 6]), put(&[3, 9, 1], 4)]), required: if cold { vec!["read answered", "read deferred", "write acknowledged", "node paged in"] } else { vec!["read answered", "write acknowledged"] }, reads: vec![C::Get(vec![1, 1]), C::Succ(Some((vec![1], true)), 3)], keys: ks, ..base(&format!("tree-{}-{}{}", n, o, if cold { "-cold" } else { "" })) });
                }
            }
            // values that grow and shrink, into nodes that have no room for the larger ones
            for o in 0..3u8 {
                let vals = |k: &[u8], i: u8, n: usize| C::Put(k.to_vec(), vec![100 + i; n]);
                let mut progs = vec![];
                let ks = |b: u8| (0..8u8).map(|i| if i < 4 { vec![1 + b, 4 * b + i] } else { vec![1 + b, 4 * b + i - 4, 9] }).collect::<Vec<Key>>();
                for b in 0..t(2, 4) as u8 {
                    for n in [20, 33, 44] {
                        // values that a full child has no room for, twice for each of eight neighbouring keys
                        let w: Vec<C> = (0..16).map(|i| vals(&ks(b)[i % 8], i as u8, n)).collect();
                        progs.push(w.clone());
                        progs.push(w.into_iter().rev().collect());
                    }
                }
                let ks = ks(0);
                let consts = vec![(W, 208), (CACHE, 24), ("Bounds.FlushTriggerWeightUint64", 64)];
                v.push(Cfg { consts, prefix: fill(t(8, 16) as u8, o, 4, 8), progs, keys: ks, required: vec!["write acknowledged"], ..base(&format!("resized-values-{}", o)) });
            }
            // every insertion order of a few keys into a tiny tree
            let items: Vec<C> = vec![put(&[1], 1), put(&[1, 1], 2), put(&[2], 3), put(&[3], 4), del(&[2]), put(&[1, 1, 1], 7)];
            v.push(Cfg { consts: tiny(64, 8), progs: orders(&items, 5), keys: vec![vec![1], vec![1, 1], vec![2], vec![3], vec![4]], required: vec!["write acknowledged"], ..base("orders") });
            v.push(Cfg { consts: tiny(96, 6), prefix: [fill(12, 2, 4, 8), vec![C::Sync(true)]].concat(), progs: vec![vec![put(A, 1)], vec![put(&[4], 2), put(BK, 3)]], syncs: vec![C::Push(0), C::Pop(0, true)], reads: vec![C::Get(vec![3, 9])], required: vec!["read answered", "node paged in", "sync acknowledged"], ..base("small-cache-syncing") });
        }
        Fam::Clone => {
            let base = |n: &str| Cfg { probe: 2, recovery: true, keys: vec![vec![1], vec![1, 1], vec![2], vec![2, 1], vec![3, 1]], ..cfg(n) };
            let cl = |a: &[u8], b: &[u8]| C::Clone(a.to_vec(), b.to_vec());
            // a clone needs a root with children and no buffered messages for its source
            let pre = |o: u8, n: u8| [fill(12, o, 4, 8), (0..n).map(|i| C::Put(vec![4, i], vec![i; 12])).collect()].concat();
            let wide = |k: u8, i: u8| C::Put(vec![k, 20 + i], vec![i; 12]);
            for o in 0..3u8 {
                let n = if o == 1 { 4 } else { 3 };
                let ks = vec![vec![1], vec![1, 1], vec![2, 5], vec![3, 1], vec![3, 5], vec![4, 1]];
                v.push(Cfg { consts: tiny(96, 24), prefix: pre(o, n), progs: words(t(4, 5), &[cl(&[1], &[3]), cl(&[2], &[1]), cl(&[1], &[4]), cl(&[1, 1], &[2]), C::Put(vec![1, 1], vec![77; 12])]), keys: ks.clone(), ..base(&format!("clone-words-{}", o)) });
                // written over after cloning until the messages reach the shared nodes
                let mut progs = vec![];
                for (a, b) in [(1, 2), (1, 3), (2, 1), (2, 3), (1, 5), (2, 5)] {
                    for dst in [a, b] {
                        progs.push([vec![cl(&[a], &[b])], (0..t(7, 12) as u8).map(|i| wide(dst, i)).collect(), vec![cl(&[b], &[6]), C::Put(vec![6, 22], vec![]), wide(6, 1)]].concat());
                    }
                    progs.push(vec![cl(&[a], &[b]), cl(&[b], &[b, 1]), cl(&[b, 1], &[7]), wide(7, 1), wide(b, 2), wide(b, 3), wide(7, 4), wide(7, 5)]);
                }
                v.push(Cfg { consts: tiny(96, 24), prefix: [pre(o, n), vec![C::Sync(true)]].concat(), progs, keys: ks, ..base(&format!("clone-overwrite-{}", o)) });
            }
            v.push(Cfg { consts: tiny(96, 24), prefix: pre(0, 3), progs: vec![vec![cl(&[1], &[2])], vec![cl(&[2], &[6]), cl(&[6], &[7])], vec![cl(&[1, 1], &[4])]], required: vec!["clone acknowledged"], ..base("clone-basic") });
            v.push(Cfg { consts: tiny(96, 24), prefix: [pre(0, 3), vec![C::Sync(true), C::Reboot]].concat(), progs: words(t(2, 3), &[cl(&[1], &[2]), cl(&[], &[5]), cl(&[2], &[2, 1]), C::Put(vec![2, 1], vec![]), wide(1, 1)]), syncs: vec![C::Push(0), C::Pop(0, false)], probe: 1, ..base("clone-restarted") });
            v.push(Cfg { consts: tiny(96, 24), prefix: [pre(0, 3), vec![C::Sync(true)]].concat(), progs: vec![vec![cl(&[1], &[4]), put(&[4, 1], 5), cl(&[2], &[1])], vec![cl(&[2], &[5]), wide(2, 1), wide(2, 2)]], syncs: vec![C::Push(0), C::Pop(0, true)], probe: 1, keys: vec![vec![4, 1], vec![2, 1], vec![1, 1]], required: CR.to_vec(), crashes: t(0, 1) as u8, ..base("clone-tree-syncing") });
        }
        Fam::Disk => {
            let base = |n: &str| Cfg { probe: 1, faults: 1, required: vec!["corrupted read"], ..cfg(n) };
            let pre = vec![put(A, 1), put(BK, 2), C::Sync(true), put(A, 3), C::Sync(false), C::Reboot];
            v.push(Cfg { prefix: pre.clone(), progs: words(t(2, 3), &abc), reads: vec![C::Get(A.to_vec()), C::Get(BK.to_vec())], ..base("corrupt-restart") });
            v.push(Cfg { prefix: pre, progs: vec![vec![put(A, 9)]], syncs: log_sync.clone(), faults: 2, ..base("corrupt-then-sync") });
            v.push(Cfg { consts: tree(), prefix: [fill(12, 2, 4, 8), vec![C::Sync(true), C::Reboot]].concat(), progs: words(t(1, 2), &[put(A, 10), put(&[3, 3], 20)]), syncs: log_sync.clone(), reads: vec![C::Get(vec![1, 1]), C::Get(vec![3, 9])], keys: vec![vec![1, 1], vec![3, 9], vec![2, 6]], ..base("corrupt-nodes") });
            let over = |n: &str| Cfg { required: vec!["write acknowledged"], commits: 4, ..cfg(n) };
            v.push(Cfg { prefix: vec![], progs: words(t(3, 4), &abc), syncs: vec![C::Push(0), C::Pop(0, true), C::Push(1), C::Pop(1, false)], ..over("requests-fresh") });
            for c in evicting(thorough) {
                v.push(Cfg { required: c.required.clone(), name: format!("requests-{}", c.name), ..c });
            }
            v.push(Cfg { consts: tree(), prefix: [fill(12, 0, 4, 8), vec![C::Sync(true)]].concat(), progs: words(t(3, 4), &[put(A, 10), put(&[3, 3], 20)]), syncs: vec![C::Push(0), C::Pop(0, true)], ..over("requests-tree") });
            v.push(Cfg { consts: tiny(96, 6), prefix: [fill(12, 1, 3, 8), vec![C::Sync(true), C::Reboot]].concat(), progs: words(t(2, 3), &[put(A, 10), put(&[3, 3], 20)]), syncs: vec![C::Push(0), C::Pop(0, true)], reads: vec![C::Get(vec![2, 6]), C::Get(vec![4, 9])], ..over("requests-small-cache") });
        }
        Fam::Live => {
            let base = |n: &str| Cfg { live: true, required: vec!["sync acknowledged", "write acknowledged"], ..cfg(n) };
            v.push(Cfg { progs: words(t(2, 3), &abc), syncs: tree_sync.clone(), reads: vec![C::Get(A.to_vec()), C::Succ(None, 5)], ..base("live-fresh") });
            v.push(Cfg { consts: tree(), prefix: [fill(12, 2, 3, 8), vec![C::Sync(true), C::Reboot]].concat(), progs: words(t(2, 3), &two), syncs: tree_sync.clone(), ..base("live-tree") });
            v.push(Cfg { consts: tiny(96, 6), prefix: [fill(12, 0, 3, 8), vec![C::Sync(true)]].concat(), progs: vec![vec![put(A, 1), put(&[4], 2)]], syncs: tree_sync.clone(), reads: vec![C::Get(vec![1, 2])], ..base("live-small-cache") });
            v.push(Cfg { prefix: (0..4).flat_map(|i| vec![put(&[3], 40 + i), C::Sync(false)]).collect(), progs: words(t(2, 3), &abc), syncs: tree_sync.clone(), ..base("live-log-full") });
            let logs = |n: u8| (0..n).flat_map(|i| vec![put(&[3], 40 + i), C::Sync(false)]).collect::<Vec<_>>();
            let alone = vec!["sync acknowledged", "write acknowledged", "operation completes unaided"];
            let twice = vec![C::Push(0), C::Pop(0, false), C::Push(1), C::Pop(1, false)];
            v.push(Cfg { progs: words(t(2, 3), &abc), syncs: twice.clone(), required: alone.clone(), ..base("live-log-sync") });
            v.push(Cfg { progs: words(t(2, 3), &abc), syncs: vec![C::Push(0), C::Push(1), C::Pop(1, false), C::Pop(0, false)], required: alone.clone(), ..base("live-log-syncs") });
            v.push(Cfg { prefix: [logs(2), vec![C::Sync(true)], logs(1)].concat(), progs: words(t(2, 3), &abc), syncs: twice, required: alone.clone(), ..base("live-log-wraps") });
            let wide = |k: u8, v: u8| C::Put(vec![k], vec![v; 1000]);
            v.push(Cfg { consts: big(), prefix: [logs(3), vec![C::Sync(true)]].concat(), progs: vec![(1..t(6, 8) as u8).map(|i| wide(i, 6 + i)).collect()], syncs: log_sync.clone(), required: [&alone[..], &["write issued in two parts"]].concat(), ..base("live-log-split") });
        }
    }
    v
}
/// Nodes that are changed, written out and changed again while a sync runs: many writes to far-apart keys
/// with a small cache, one or two slow requests, and few switches between the writer and the syncer.
fn evicting(thorough: bool) -> Vec<Cfg> {
    let mut v = vec![];
    for (o, n, w, cache, switches, slow, deep) in [(0, 12, 96, 6, 2, 1, false), (0, 8, 64, 4, 3, 1, false), (1, 12, 96, 5, 2, 1, true), (2, 16, 96, 5, 2, 1, true), (0, 12, 96, 5, 4, 1, true), (0, 12, 96, 6, 2, 2, true), (0, 8, 96, 4, 5, 1, true), (0, 8, 64, 6, 3, 1, true)] {
        if deep && !thorough {
            continue;
        }
        let (len, size) = if w < 96 { (10, 10) } else { (12, 12) };
        let ks: Vec<Key> = (0..len).map(|i| vec![1 + (i * 5 % n) / 4, i * 5 % n]).collect();
        v.push(Cfg {
            consts: tiny(w, cache),
            prefix: [fill(n, o, 4, 8), vec![C::Sync(true)]].concat(),
            progs: vec![ks.iter().enumerate().map(|(i, k)| C::Put(k.clone(), vec![i as u8; size])).collect()],
            syncs: vec![C::Push(0), C::Pop(0, true)],
            commits: 2,
            slow: Some(slow),
            switches: Some(switches),
            required: vec!["write acknowledged", "eviction", "tree flush"],
            ..cfg(&format!("evicting-{}-{}-{}-{}-{}", n, o, cache, switches, slow))
        });
    }
    v
}
/// all sequences of n different items
fn orders(items: &[C], n: usize) -> Vec<Vec<C>> {
    if n == 0 {
        return vec![vec![]];
    }
    let mut out = vec![];
    for i in 0..items.len() {
        let mut rest = items.to_vec();
        let x = rest.remove(i);
        for mut w in orders(&rest, n - 1) {
            w.insert(0, x.clone());
            out.push(w);
        }
    }
    out
}
/// a log-only sync requested when everything is already in the on-disk log
pub fn idle_job() -> Job {
    job("veribetrkv-idle-log-sync", || {
        let c = cfg("idle-log-sync");
        let t0 = Instant::now();
        let dx = load_cfg(&c)?;
        let mut r = Run { dx, cfg: c, rec: HashMap::new(), probed: HashMap::new(), solo: HashSet::new(), out: BTreeMap::new() };
        let mut rep = Report { exhausted: true, ..Default::default() };
        // every history of up to two rounds of writes and tree or log syncs, each ending in a log sync
        let rounds: Vec<Vec<C>> = vec![vec![], vec![put(A, 1)], vec![put(A, 1), C::Sync(false)], vec![put(A, 1), C::Sync(true)], vec![put(A, 1), C::Sync(true), put(BK, 2)], vec![put(A, 1), C::Sync(false), put(BK, 2)], vec![put(A, 1), C::Sync(false), C::Reboot], vec![put(A, 1), C::Sync(true), C::Reboot, put(BK, 2)]];
        let mut stuck = vec![];
        for h in rounds {
            let unwritten = matches!(h.last(), Some(C::Put(..)));
            let res: B<bool> = (|| {
                let mut s = Sys::mkfs(&mut r.dx)?;
                for c in &h {
                    let ok = match c {
                        C::Sync(g) => r.sync(&mut s, *g)?,
                        C::Reboot => {
                            s.io.clear();
                            s.boot(&mut r.dx)?;
                            true
                        }
                        c => r.settle(&mut s, c)?.is_some(),
                    };
                    if !ok {
                        return Err(Bad::Viol(format!("{} never completes", c.show())));
                    }
                }
                let ok = r.sync(&mut s, false)?;
                rep.states += s.calls;
                rep.transitions += s.calls;
                Ok(ok)
            })();
            match res {
                Ok(true) => {}
                Ok(false) if !unwritten => stuck.push(h.clone()),
                Ok(false) => rep.violation = Some((format!("a log sync is never acknowledged after {}", h.iter().map(|c| c.show()).collect::<Vec<_>>().join("; ")), vec![])),
                Err(Bad::Viol(m)) => rep.violation = Some((m, h.iter().map(|c| c.show()).collect())),
                Err(Bad::Err(e)) => return Err(e),
            }
        }
        if rep.violation.is_none() && !stuck.is_empty() {
            rep.violation = Some(("a log-only sync requested when every write is already in the on-disk log is never acknowledged".into(), stuck.iter().map(|h| h.iter().map(|c| c.show()).collect::<Vec<_>>().join("; ")).collect()));
        }
        rep.wall = t0.elapsed().as_secs_f64();
        Ok(RunOut { bounds: "8 histories of writes, tree syncs, log syncs and restarts, each followed by a log sync polled 200 times".into(), rep, outcomes: r.out.clone(), required: vec![] })
    })
}
/// A full scan of a tree with more nodes than the cache holds, from a cold start. The scan must complete
/// when the client also reads keys; on its own it must complete too.
pub fn scan_job() -> Job {
    job("veribetrkv-scan-larger-than-cache", || {
        let t0 = Instant::now();
        let mut rep = Report { exhausted: true, ..Default::default() };
        let mut out = BTreeMap::new();
        let mut stuck = vec![];
        'all: for n in (4..=20u8).step_by(4) {
            for order in 0..3 {
                let mut c = cfg("scan-larger-than-cache");
                c.consts = tiny(96, 6);
                let dx = load_cfg(&c)?;
                let mut r = Run { dx, cfg: c, rec: HashMap::new(), probed: HashMap::new(), solo: HashSet::new(), out: BTreeMap::new() };
                let mut m = M::new();
                let res: B<bool> = (|| {
                    let mut s = Sys::mkfs(&mut r.dx)?;
                    for c in fill(n, order, 0, 8) {
                        if r.settle(&mut s, &c)?.is_none() {
                            return Err(Bad::Viol(format!("{} never completes", c.show())));
                        }
                        apply(&mut m, &c);
                    }
                    if !r.sync(&mut s, true)? {
                        return Err(Bad::Viol("a tree sync is never acknowledged".into()));
                    }
                    s.io.clear();
                    s.boot(&mut r.dx)?;
                    let mut alone = true;
                    let mut at: Option<(Key, bool)> = None;
                    let mut got = M::new();
                    loop {
                        let q = C::Succ(at.clone(), 3);
                        let mut v = r.settle(&mut s, &q)?;
                        if v.is_none() {
                            alone = false;
                            // reads of other keys evict nodes
                            for k in m.keys().cloned().collect::<Vec<_>>() {
                                if r.settle(&mut s, &C::Get(k))?.is_none() {
                                    return Err(Bad::Viol("a read never completes".into()));
                                }
                                v = r.settle(&mut s, &q)?;
                                if v.is_some() {
                                    break;
                                }
                            }
                        }
                        let Some(v) = v else { return Err(Bad::Viol(format!("{} never completes, even when other keys are read in between", q.show()))) };
                        r.check(&m, &q, &v)?;
                        let V::Seq(items) = field(&v, 0)? else { return Err(Bad::Err("not a list".into())) };
                        for i in items.iter() {
                            got.insert(to_bytes(field(i, 0)?)?, to_bytes(field(i, 1)?)?);
                        }
                        let e = field(&v, 1)?;
                        at = match ctor_name(e).as_str() {
                            "EInclusive" => Some((to_bytes(field(e, 0)?)?, false)),
                            "EExclusive" => Some((to_bytes(field(e, 0)?)?, true)),
                            _ => break,
                        };
                    }
                    rep.states += s.calls;
                    rep.transitions += s.calls;
                    if got != m {
                        return Err(Bad::Viol("a full scan does not return the contents".into()));
                    }
                    Ok(alone)
                })();
                match res {
                    Ok(true) => *out.entry("scan completed on its own".to_string()).or_insert(0) += 1,
                    Ok(false) => stuck.push(format!("{} keys, insertion order {}", n, order)),
                    Err(Bad::Viol(m)) => {
                        rep.violation = Some((m, vec![format!("{} keys, insertion order {}, tree sync, restart, full scan", n, order)]));
                        break 'all;
                    }
                    Err(Bad::Err(e)) => return Err(e),
                }
            }
        }
        if rep.violation.is_none() && !stuck.is_empty() {
            rep.violation = Some(("a scan that must read a node while the cache is full is never answered unless other operations make room".into(), stuck));
        }
        rep.wall = t0.elapsed().as_secs_f64();
        Ok(RunOut { bounds: "stores of 4 to 20 keys in three insertion orders with a cache of 6 nodes, restarted and scanned".into(), rep, outcomes: out, required: vec!["scan completed on its own".into()] })
    })
}
pub fn jobs(f: Fam, thorough: bool) -> Vec<Job> {
    let mut v: Vec<Job> = split(cfgs(f, thorough)).into_iter().map(|c| job_of(c, thorough, 5_000_000)).collect();
    if f == Fam::Live {
        v.push(idle_job());
        v.push(scan_job());
    }
    v
}
/// many programs are shared out over several runs
fn split(cs: Vec<Cfg>) -> Vec<Cfg> {
    let mut out = vec![];
    for c in cs {
        if c.progs.len() < 9 {
            out.push(c);
            continue;
        }
        let n = c.progs.len().div_ceil(if c.progs.len() >= 27 { 8 } else { 3 });
        for (i, p) in c.progs.chunks(n).enumerate() {
            out.push(Cfg { progs: p.to_vec(), name: format!("{}-{}", c.name, i + 1), ..c.clone() });
        }
    }
    out
}
pub fn job_of(c: Cfg, thorough: bool, max: u64) -> Job {
    let n = format!("veribetrkv-{}", c.name);
    job(&n, move || {
        let b = format!("{}: {} writer programs of up to {} operations, {} sync steps, {} reads, {} crashes continued, up to {} superblock writes{}{}{}", c.name, c.progs.len(), c.progs.iter().map(|p| p.len()).max().unwrap_or(0), c.syncs.len(), c.reads.len(), c.crashes, c.commits, if c.prefix.is_empty() { String::new() } else { format!(", after a script of {} operations", c.prefix.len()) }, if c.consts.is_empty() { String::new() } else { format!(", {:?}", c.consts) }, if let (Some(a), Some(b)) = (c.slow, c.switches) { format!(", at most {} slow requests at a time and {} switches between unfinished clients", a, b) } else { String::new() });
        let mut o = explore(c, max, Duration::from_secs(if thorough { 800 } else { 200 }))?;
        o.bounds = b;
        Ok(o)
    })
}
/// A run described in a text file (used by demonstrations).
pub fn parse_cfg(src: &str) -> Result<Cfg, String> {
    let key = |s: &str| -> Result<Key, String> { if s == "-" { Ok(vec![]) } else { s.split('.').map(|x| x.parse::<u8>().map_err(|_| format!("bad key {}", s))).collect() } };
    let num = |s: Option<&&str>| -> Result<u64, String> { s.and_then(|x| x.parse().ok()).ok_or("number expected".to_string()) };
    let op = |s: &str| -> Result<C, String> {
        let w: Vec<&str> = s.split_whitespace().collect();
        let k = |i: usize| key(w.get(i).ok_or(format!("key expected: {}", s))?);
        Ok(match w[0] {
            "put" => {
                let (b, n) = w.get(2).ok_or("value expected")?.split_once('x').unwrap_or((w[2], "1"));
                C::Put(k(1)?, vec![b.parse().map_err(|_| "bad value")?; n.parse().map_err(|_| "bad length")?])
            }
            "del" => C::Put(k(1)?, vec![]),
            "clone" => C::Clone(k(1)?, k(2)?),
            "get" => C::Get(k(1)?),
            "scan" => C::Succ(if w.len() > 2 { Some((k(3)?, w[2] == "from")) } else { None }, num(w.get(1))?),
            "push" => C::Push(num(w.get(1))? as usize),
            "pop" => C::Pop(num(w.get(1))? as usize, w.get(2) == Some(&"tree")),
            "sync" => C::Sync(w.get(1) == Some(&"tree")),
            "restart" => C::Reboot,
            x => return Err(format!("unknown operation {}", x)),
        })
    };
    let mut c = cfg("script");
    c.progs.clear();
    c.keys.clear();
    for l in src.lines() {
        let l = l.split('#').next().unwrap().trim();
        if l.is_empty() {
            continue;
        }
        let (h, r) = l.split_once(' ').unwrap_or((l, ""));
        let ops = || r.split(';').map(|s| s.trim()).filter(|s| !s.is_empty()).map(op).collect::<Result<Vec<C>, String>>();
        match h {
            "const" => {
                let (n, v) = r.split_once(' ').ok_or("const NAME VALUE")?;
                c.consts.push((Box::leak(n.to_string().into_boxed_str()), v.trim().parse().map_err(|_| "bad constant")?));
            }
            "prefix" => c.prefix.extend(ops()?),
            "prog" => c.progs.push(ops()?),
            "syncs" => c.syncs = ops()?,
            "reads" => c.reads = ops()?,
            "keys" => c.keys = r.split_whitespace().map(key).collect::<Result<_, _>>()?,
            "crashes" => c.crashes = num(Some(&r))? as u8,
            "commits" => c.commits = num(Some(&r))? as u8,
            "faults" => c.faults = num(Some(&r))? as u8,
            "switches" => c.switches = Some(num(Some(&r))? as u8),
            "slow" => c.slow = Some(num(Some(&r))? as u8),
            "probe" => c.probe = num(Some(&r))? as u8,
            "recovery" => c.recovery = true,
            "live" => c.live = true,
            "expect" => c.required.push(Box::leak(r.to_string().into_boxed_str())),
            x => return Err(format!("unknown line {}", x)),
        }
    }
    if c.progs.is_empty() {
        c.progs.push(vec![]);
    }
    Ok(c)
}
/// Explore the run of a text file: 0 nothing wrong, 1 a violation, 2 no answer.
pub fn run_file(f: &str) -> Result<bool, String> {
    let c = parse_cfg(&std::fs::read_to_string(f).map_err(|e| e.to_string())?)?;
    let o = explore(c, 5_000_000, Duration::from_secs(280))?;
    println!("states {} transitions {} complete {}", o.rep.states, o.rep.transitions, o.rep.exhausted);
    for (k, v) in &o.outcomes {
        println!("  {} {}", k, v);
    }
    if let Some((m, t)) = &o.rep.violation {
        println!("FAILS: {}", m);
        for l in t.iter().rev().take(60).rev() {
            println!("    {}", l.chars().take(200).collect::<String>());
        }
        return Ok(false);
    }
    for r in &o.required {
        if !o.outcomes.iter().any(|(k, n)| k == r && *n > 0) {
            println!("FAILS: {} never happens", r);
            return Ok(false);
        }
    }
    Ok(true)
}
