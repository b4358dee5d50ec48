//! The journal as the implementation composes it: journal metadata, a page cache and an
//! asynchronous disk, with write-back, eviction, reloading, crashes and recovery, against an
//! independent log.
use crate::ast::Ty;
use crate::eval::*;
use crate::explore::*;
use crate::h_journal::*;
use crate::h_system::{collect, data, int_of};
use crate::solve::*;
use crate::value::*;
use std::collections::{BTreeMap, BTreeSet};
use std::rc::Rc;

pub const SLOT0: i128 = 30;
pub const ID0: i128 = 200;
pub struct CjBounds {
    pub lsns: i128,
    pub discards: i128,
    pub freezes: i128,
    pub crashes: i128,
    pub pages: i128,
    pub slots: i128,
    pub inflight: usize,
}
pub struct CjModel {
    pub mid: usize,
    pub cache: usize,
    pub disk: usize,
    pub b: CjBounds,
    pub outcomes: BTreeMap<String, u64>,
    pub syms: Vec<BTreeMap<V, V>>,
    pub empty_cache: V,
    pub blank: V,
    /// the last freeze observed held the complete log
    pub last_full: bool,
}
#[derive(Clone)]
struct Mon {
    log: Log,
    snap: V,
    com: Log,
    /// discards, freezes, crashes
    ct: [i128; 3],
}
impl Mon {
    fn v(&self) -> V {
        V::tup(vec![self.log.to_v(), self.snap.clone(), self.com.to_v(), V::seq(self.ct.iter().map(|x| V::Int(*x)).collect())])
    }
    fn from(v: &V) -> Mon {
        let V::Tup(t) = v else { panic!() };
        let V::Seq(c) = &t[3] else { panic!() };
        Mon { log: Log::from_v(&t[0]), snap: t[1].clone(), com: Log::from_v(&t[2]), ct: [int_of(&c[0]), int_of(&c[1]), int_of(&c[2])] }
    }
}
fn opt(v: Option<V>) -> Option<V> {
    let v = v?;
    match v.variant().as_str() {
        "Some" => v.as_data().map(|d| d.f[0].clone()),
        _ => None,
    }
}
fn record(page: &V) -> Option<V> {
    let s = page.as_seq()?;
    if s.len() == 1 && s[0].field("message_seq").is_some() {
        return Some(s[0].clone());
    }
    None
}
/// records in a page map
fn records(pages: &V) -> V {
    V::map(pages.as_map().map(|m| m.iter().filter_map(|(a, p)| record(p).map(|r| (a.clone(), r))).collect::<Vec<_>>()).unwrap_or_default())
}
/// the addresses a reader of this image visits
fn chain(img: &V, recs: &V) -> Vec<V> {
    let b = int_of(&img.field("boundary_lsn").unwrap());
    let mut out = vec![];
    let mut cur = opt(img.field("freshest_rec"));
    while let Some(a) = cur {
        if out.len() > 100 {
            break;
        }
        out.push(a.clone());
        let Some(r) = recs.as_map().and_then(|m| m.get(&a).cloned()) else { break };
        let st = int_of(&r.field("message_seq").unwrap().field("seq_start").unwrap());
        cur = if st <= b { None } else { opt(r.field("prior_rec")) };
    }
    out
}
fn with(v: &V, f: &str, x: V) -> V {
    let V::Data(d) = v else { panic!() };
    V::data(&d.ctor, d.ctor.fields.iter().zip(d.f.iter()).map(|(n, o)| if &*name(*n) == f { x.clone() } else { o.clone() }).collect())
}
fn subsets(xs: &[V]) -> Vec<V> {
    (0..1u32 << xs.len()).map(|m| V::set(xs.iter().enumerate().filter(|(i, _)| m >> i & 1 == 1).map(|(_, x)| x.clone()))).collect()
}

pub fn universes(c: &mut Ctx, b: &CjBounds) -> Result<V, String> {
    c.nat_max = b.lsns + 1;
    let addrs: Vec<V> = (0..b.pages).map(|p| addr(c, AU0, p)).collect();
    c.set_univ("Address", addrs.clone());
    let (np, na) = (b.pages, AU0 + 1);
    c.set_override("spec::AsyncDisk_t::page_count", Rc::new(move |_, _| Ok(Some(V::Int(np)))));
    c.set_override("spec::AsyncDisk_t::au_count", Rc::new(move |_, _| Ok(Some(V::Int(na)))));
    let slots: Vec<V> = (SLOT0..SLOT0 + b.slots).map(V::Int).collect();
    // a page that was never written reads as some plausible record
    let msg = {
        let key = data(c, "spec::KeyType_t", "Key", "Key", vec![V::Int(0)]);
        let val = data(c, "spec::Messages_t", "Value", "Value", vec![V::Int(99)]);
        let m = data(c, "spec::Messages_t", "Message", "Define", vec![val]);
        data(c, "abstract_system::MsgHistory_v", "KeyedMessage", "KeyedMessage", vec![key, m])
    };
    let ht = c.p.find_type("abstract_system::MsgHistory_v", "MsgHistory").ok_or("MsgHistory not found")?;
    let hk = c.p.types[ht].ctors[0].clone();
    let h = V::data(
        &hk,
        hk.fields
            .iter()
            .map(|f| match &*name(*f) {
                "msgs" => V::map(vec![(V::Int(0), msg.clone())]),
                "seq_start" => V::Int(0),
                _ => V::Int(1),
            })
            .collect(),
    );
    let rt = c.p.find_type("journal::LinkedJournal_v", "JournalRecord").ok_or("JournalRecord not found")?;
    let rk = c.p.types[rt].ctors[0].clone();
    let none = {
        let t = c.p.types.iter().flat_map(|t| t.ctors.iter()).find(|k| &*name(k.name) == "None").cloned().ok_or("None not found")?;
        V::data(&t, vec![])
    };
    let garbage = V::data(&rk, rk.fields.iter().map(|f| if &*name(*f) == "message_seq" { h.clone() } else { none.clone() }).collect());
    let blank = V::seq(vec![V::Int(0)]);
    let g2 = garbage.clone();
    if !c.set_override("implementation::JournalCoordinationSystem_v::record_to_raw_page", Rc::new(|_, a| Ok(Some(V::seq(vec![a[0].clone()]))))) {
        return Err("record_to_raw_page not found".into());
    }
    if !c.set_override(
        "implementation::JournalCoordinationSystem_v::raw_page_to_record",
        Rc::new(move |c, a| {
            let v = c.ground(a[0].clone())?;
            Ok(Some(record(&v).unwrap_or(g2.clone())))
        }),
    ) {
        return Err("raw_page_to_record not found".into());
    }
    for n in ["DiskRequest", "GenericDiskRequest"] {
      c.dyn_univ.insert(
        sym(n),
        Rc::new(|c: &mut Ctx, _| {
            let mut out = BTreeSet::new();
            let Some(s) = c.cur_pre.clone() else { return Ok(vec![]) };
            if let Some(ct) = s.field("disk").and_then(|d| d.field("content")).and_then(|m| m.as_map().cloned()) {
                // reads only: what a write is read from is unspecified
                for a in ct.keys() {
                    out.insert(data(c, "spec::AsyncDisk_t", "GenericDiskRequest", "ReadReq", vec![a.clone()]));
                }
            }
            Ok(out.into_iter().collect())
        }),
      );
    }
    let inflight = b.inflight;
    c.enum_hook = Some(Rc::new(move |c: &mut Ctx, ty: &Ty, _fr: Fr, _hint: Sym| {
        let Ty::Named(n, args) = ty else { return Ok(None) };
        let head = name(*n.last().unwrap()).to_string();
        let arg = |i: usize| args.get(i).map(|t| ty_str(t)).unwrap_or_default();
        let Some(s) = c.cur_pre.clone() else { return Ok(None) };
        let disk = s.field("disk");
        let reqs = disk.as_ref().and_then(|d| d.field("requests")).and_then(|m| m.as_map().cloned()).unwrap_or_default();
        let resps = disk.as_ref().and_then(|d| d.field("responses")).and_then(|m| m.as_map().cloned()).unwrap_or_default();
        let mut pages: BTreeMap<V, BTreeSet<V>> = BTreeMap::new();
        let mut cached: BTreeMap<V, V> = BTreeMap::new();
        if let Some(es) = s.field("cache").and_then(|x| x.field("entries")).and_then(|m| m.as_map().cloned()) {
            for e in es.values() {
                if let (Some(a), Some(d)) = (e.field("addr"), e.field("data")) {
                    pages.entry(a.clone()).or_default().insert(d.clone());
                    cached.insert(a, d);
                }
            }
        }
        if let Some(ct) = disk.as_ref().and_then(|d| d.field("content")).and_then(|m| m.as_map().cloned()) {
            for (a, d) in ct.iter() {
                pages.entry(a.clone()).or_default().insert(d.clone());
            }
        }
        let (k, v) = (arg(0), arg(1));
        if head == "Map" && k.ends_with("Slot") && v.ends_with("Address") {
            let mut out = vec![];
            for (i, s) in slots.iter().enumerate() {
                for a in &addrs {
                    out.push(V::map(vec![(s.clone(), a.clone())]));
                    for t in &slots[i + 1..] {
                        for b in &addrs {
                            out.push(V::map(vec![(s.clone(), a.clone()), (t.clone(), b.clone())]));
                        }
                    }
                }
            }
            return Ok(Some(out));
        }
        if head == "Set" && k.ends_with("Slot") {
            return Ok(Some(subsets(&slots).into_iter().skip(1).collect()));
        }
        if head == "Set" && k.ends_with("Address") {
            return Ok(Some(subsets(&addrs)));
        }
        if head == "Map" && k.ends_with("Address") && v.ends_with("RawPage") {
            let mut out = vec![V::map(vec![])];
            for (a, ps) in &pages {
                for p in ps {
                    out.push(V::map(vec![(a.clone(), p.clone())]));
                }
            }
            if cached.len() > 1 {
                out.push(V::map(cached));
            }
            return Ok(Some(out));
        }
        if head == "Map" && k.ends_with("ID") && v.contains("DiskRequest") {
            let mut out = vec![V::map(vec![])];
            let mut fresh: Vec<i128> = vec![];
            let mut n = ID0;
            let used: BTreeSet<i128> = reqs.keys().chain(resps.keys()).map(int_of).collect();
            while fresh.len() < 2 {
                if !used.contains(&n) {
                    fresh.push(n);
                }
                n += 1;
            }
            let mut all = vec![];
            for (a, ps) in &pages {
                all.push(data(c, "spec::AsyncDisk_t", "GenericDiskRequest", "ReadReq", vec![a.clone()]));
                for p in ps {
                    all.push(data(c, "spec::AsyncDisk_t", "GenericDiskRequest", "WriteReq", vec![a.clone(), p.clone()]));
                }
            }
            for (i, r) in all.iter().enumerate() {
                if used.len() < inflight {
                    out.push(V::map(vec![(V::Int(fresh[0]), r.clone())]));
                }
                // an id still in use must be refused
                if let Some(u) = used.iter().next() {
                    out.push(V::map(vec![(V::Int(*u), r.clone())]));
                }
                if used.len() + 1 < inflight {
                    for q in &all[i..] {
                        out.push(V::map(vec![(V::Int(fresh[0]), r.clone()), (V::Int(fresh[1]), q.clone())]));
                    }
                }
            }
            return Ok(Some(out));
        }
        if head == "Map" && k.ends_with("ID") && v.contains("DiskResponse") {
            let items: Vec<(V, V)> = resps.iter().map(|(a, b)| (a.clone(), b.clone())).collect();
            let mut out = vec![];
            for m in 0..1u32 << items.len() {
                out.push(V::map(items.iter().enumerate().filter(|(i, _)| m >> i & 1 == 1).map(|(_, x)| x.clone())));
            }
            return Ok(Some(out));
        }
        Ok(None)
    }));
    Ok(blank)
}

impl CjModel {
    fn note(&mut self, s: &str) {
        *self.outcomes.entry(s.to_string()).or_insert(0) += 1;
    }
    fn mk_hist(&self, c: &Ctx, l: &Log) -> V {
        let t = c.p.find_type("abstract_system::MsgHistory_v", "MsgHistory").unwrap();
        let k = c.p.types[t].ctors[0].clone();
        V::data(
            &k,
            k.fields
                .iter()
                .map(|f| match &*name(*f) {
                    "msgs" => V::map(l.msgs.iter().map(|(k, v)| (V::Int(*k), v.clone()))),
                    "seq_start" => V::Int(l.start),
                    _ => V::Int(l.end),
                })
                .collect(),
        )
    }
    fn msg(&self, c: &Ctx, i: i128) -> V {
        let key = data(c, "spec::KeyType_t", "Key", "Key", vec![V::Int(0)]);
        let val = data(c, "spec::Messages_t", "Value", "Value", vec![V::Int(i)]);
        let m = data(c, "spec::Messages_t", "Message", "Define", vec![val]);
        data(c, "abstract_system::MsgHistory_v", "KeyedMessage", "KeyedMessage", vec![key, m])
    }
    fn snapshot(&self, c: &Ctx, b: i128, ptr: V) -> V {
        let t = c.p.find_type("implementation::CachedJournal_v", "JournalSnapShot").unwrap();
        let k = c.p.types[t].ctors[0].clone();
        V::data(&k, k.fields.iter().map(|f| if &*name(*f) == "boundary_lsn" { V::Int(b) } else { ptr.clone() }).collect())
    }
    fn ptrs(&self, c: &Ctx) -> Vec<V> {
        let find = |n: &str| c.p.types.iter().flat_map(|t| t.ctors.iter()).find(|k| &*name(k.name) == n).cloned().unwrap();
        let mut out = vec![V::data(&find("None"), vec![])];
        for p in 0..self.b.pages {
            out.push(V::data(&find("Some"), vec![addr(c, AU0, p)]));
        }
        out
    }
    /// the machine's states right after starting from a snapshot
    fn start(&self, c: &mut Ctx, snap: &V, disk: &V) -> ER<Vec<V>> {
        let content = disk.field("content").unwrap();
        let pages = chain(snap, &records(&content));
        let reads = V::map(pages.iter().filter_map(|a| content.as_map().unwrap().get(a).map(|p| (a.clone(), p.clone()))));
        let mut cache = self.empty_cache.clone();
        let mut es = cache.field("entries").unwrap().as_map().unwrap().as_ref().clone();
        let mut st = cache.field("status_map").unwrap().as_map().unwrap().as_ref().clone();
        let mut lk = BTreeMap::new();
        for (i, (a, p)) in reads.as_map().unwrap().iter().enumerate() {
            let s = V::Int(SLOT0 + i as i128);
            es.insert(s.clone(), data(c, "implementation::Cache_v", "Entry", "Filled", vec![a.clone(), p.clone()]));
            st.insert(s.clone(), data(c, "implementation::Cache_v", "Status", "Clean", vec![]));
            lk.insert(a.clone(), s);
        }
        cache = with(&cache, "entries", V::map(es));
        cache = with(&cache, "status_map", V::map(st));
        cache = with(&cache, "lookup_map", V::map(lk));
        let m = c.p.machines[self.mid].clone();
        let sty = c.p.types[m.state_ty].name;
        let mk = c.mark();
        let fr = Fr { scope: m.scope, self_ty: Some(m.state_ty) };
        let post = c.fresh(Ty::Named(vec![sty], vec![]), fr, sym("post"));
        let j = c.fresh(Ty::Named(vec![sym("CachedJournal"), sym("State")], vec![]), fr, sym("journal"));
        let args = vec![V::Str("initialize".into()), disk.clone(), cache, j, snap.clone(), reads];
        c.cur_pre = None;
        let r = c.solve_all(vec![G::Init(self.mid, post.clone(), Some(V::tup(args)))], &[post]);
        c.undo(mk);
        Ok(r?.into_iter().map(|mut v| v.remove(0)).collect())
    }
    fn crash_disk(&self, c: &mut Ctx, disk: &V) -> ER<Vec<V>> {
        let l = lab(c, self.disk, "Crash", vec![]);
        Ok(c.successors(self.disk, disk, Some(l))?.into_iter().map(|x| x.1).collect())
    }
    fn used(&self, s: &V) -> BTreeSet<V> {
        s.field("journal").and_then(|j| j.field("lsn_addr_index")).and_then(|m| m.as_map().cloned()).map(|m| m.values().cloned().collect()).unwrap_or_default()
    }
}

impl Model for CjModel {
    fn symmetries(&self) -> Vec<BTreeMap<V, V>> {
        self.syms.clone()
    }
    fn initial(&mut self, c: &mut Ctx) -> ER<Vec<(V, V)>> {
        // the cache as it starts, its slots renumbered apart from log positions
        let m = c.p.machines[self.cache].clone();
        let sty = c.p.types[m.state_ty].name;
        c.set_univ("Slot", (0..self.b.slots).map(V::Int).collect());
        let mk = c.mark();
        let post = c.fresh(Ty::Named(vec![sty], vec![]), Fr { scope: m.scope, self_ty: Some(m.state_ty) }, sym("post"));
        let r = c.solve_all(vec![G::Init(self.cache, post.clone(), Some(V::tup(vec![V::Str("initialize".into()), V::Int(self.b.slots)])))], &[post]);
        c.undo(mk);
        c.set_univ("Slot", (SLOT0..SLOT0 + self.b.slots).map(V::Int).collect());
        let Some(e) = r?.into_iter().next() else { return Ok(vec![]) };
        let ren = (0..self.b.slots).map(|i| (V::Int(i), V::Int(SLOT0 + i))).collect();
        self.empty_cache = rename(&e[0], &ren);
        let content = V::map((0..self.b.pages).map(|p| (addr(c, AU0, p), self.blank.clone())));
        let Some(disk) = c.initial(self.disk)?.into_iter().next() else { return Ok(vec![]) };
        let disk = with(&disk, "content", content);
        let none = self.ptrs(c).remove(0);
        let snap = self.snapshot(c, 0, none);
        let l = Log { start: 0, end: 0, msgs: BTreeMap::new() };
        let mon = Mon { log: l.clone(), snap: snap.clone(), com: l, ct: [0; 3] };
        Ok(self.start(c, &snap, &disk)?.into_iter().map(|s| (s, mon.v())).collect())
    }
    fn labels(&mut self, c: &mut Ctx, _s: &V, mon: &V) -> ER<Vec<Option<V>>> {
        let m = Mon::from(mon);
        let log = &m.log;
        let mut out = vec![];
        let mac = c.p.machines[self.mid].clone();
        let fr = Fr { scope: mac.scope, self_ty: Some(mac.state_ty) };
        // whatever the machine is willing to read back or to freeze
        let t = c.fresh(Ty::Named(vec![sym("MsgHistory")], vec![]), fr, sym("messages"));
        out.push(lab(c, self.mid, "ReadForRecovery", vec![t]));
        if m.ct[1] < self.b.freezes {
            let t = c.fresh(Ty::Named(vec![sym("JournalSnapShot")], vec![]), fr, sym("frozen"));
            out.push(lab(c, self.mid, "FreezeForCommit", vec![t]));
        }
        for e in 0..=self.b.lsns + 1 {
            out.push(lab(c, self.mid, "QueryEndLsn", vec![V::Int(e)]));
        }
        for (off, n) in [(0, 1), (0, 2), (1, 1)] {
            if log.end + n <= self.b.lsns {
                let a = log.end + off;
                let l = Log { start: a, end: a + n, msgs: (a..a + n).map(|i| (i, self.msg(c, i + 1))).collect() };
                let h = self.mk_hist(c, &l);
                out.push(lab(c, self.mid, "Put", vec![h]));
            }
        }
        if m.ct[0] < self.b.discards {
            for s in 0..=log.end + 1 {
                // only what a committed snapshot no longer needs is discarded
                if s > m.com.start && s <= log.end {
                    continue;
                }
                for e in log.start..=log.end + 1 {
                    out.push(lab(c, self.mid, "DiscardOld", vec![V::Int(s), V::Int(e)]));
                }
            }
        }
        out.push(lab(c, self.mid, "Internal", vec![]));
        Ok(out.into_iter().map(Some).collect())
    }
    fn extra(&mut self, c: &mut Ctx, s: &V, mon: &V) -> ER<Vec<(V, V, Obs)>> {
        let m = Mon::from(mon);
        let mut out = vec![];
        if m.ct[2] >= self.b.crashes {
            return Ok(out);
        }
        let lbl = V::Str("crash+recover".into());
        for d in self.crash_disk(c, &s.field("disk").unwrap())? {
            let rs = self.start(c, &m.snap, &d)?;
            if rs.is_empty() {
                out.push((lbl.clone(), V::Undef, Obs::Bad(format!("the journal does not start again from its committed snapshot {:?}", m.snap))));
            }
            for s in rs {
                self.note("crash and recovery");
                if m.com.end > m.com.start {
                    self.note("recovery of a non-empty journal");
                }
                let n = Mon { log: m.com.clone(), snap: m.snap.clone(), com: m.com.clone(), ct: [m.ct[0], m.ct[1], m.ct[2] + 1] };
                out.push((lbl.clone(), s, Obs::Go(n.v())));
            }
        }
        Ok(out)
    }
    fn pending(&mut self, s: &V, mon: &V) -> u32 {
        let m = Mon::from(mon);
        // with a free page (or nothing left to write) the whole log can always be committed
        let tail = s.field("journal").and_then(|j| j.field("unmarshalled_tail")).and_then(|h| hist(&h)).map_or(false, |h| h.end > h.start);
        let room = self.used(s).len() < self.b.pages as usize;
        (m.log.end > m.com.end && m.ct[1] < self.b.freezes && (room || !tail)) as u32
    }
    fn obligation_name(&self, _: u32) -> String {
        "committing the complete current log".into()
    }
    fn discharges(&mut self, lbl: &V, mon: &V) -> Option<u32> {
        let _ = mon;
        if lbl.variant() == "FreezeForCommit" {
            return Some(self.last_full as u32);
        }
        if lbl.variant() == "crash+recover" {
            return None;
        }
        Some(0)
    }
    fn state_ok(&mut self, c: &mut Ctx, s: &V, mon: &V) -> ER<Result<(), String>> {
        let m = Mon::from(mon);
        let disk = s.field("disk").and_then(|d| d.field("content")).ok_or(Ctl::Err("state has changed shape".into()))?;
        // the committed snapshot is intact on the disk alone
        match content_at(&m.snap, &records(&disk)) {
            Err(e) => return Ok(Err(format!("the committed snapshot is damaged on disk: {}", e))),
            Ok(l) if l != m.com => return Ok(Err(format!("the committed snapshot now reads {:?} from disk, it held {:?}", l, m.com))),
            _ => {}
        }
        // cache and disk together hold the log
        let (Some(j), Some(ch)) = (s.field("journal"), s.field("cache")) else { return bad("state has changed shape") };
        let mut pages = disk.as_map().unwrap().as_ref().clone();
        if let Some(es) = ch.field("entries").and_then(|m| m.as_map().cloned()) {
            let mut seen = BTreeSet::new();
            for e in es.values() {
                if let Some(a) = e.field("addr") {
                    if !seen.insert(a.clone()) {
                        return Ok(Err(format!("page {:?} is cached in two slots", a)));
                    }
                    if let Some(d) = e.field("data") {
                        pages.insert(a, d);
                    }
                }
            }
        }
        let tail = j.field("unmarshalled_tail").and_then(|h| hist(&h)).ok_or(Ctl::Err("journal has changed shape".into()))?;
        match content_at(&j, &records(&V::map(pages))) {
            Err(e) => return Ok(Err(format!("cache and disk no longer hold the journal: {}", e))),
            Ok(mut l) => {
                if l.end != tail.start {
                    return Ok(Err(format!("records end at {}, the rest of the log starts at {}", l.end, tail.start)));
                }
                l.end = tail.end;
                l.msgs.extend(tail.msgs);
                if l != m.log {
                    return Ok(Err(format!("cache, disk and memory hold {:?}, the log is {:?}", l, m.log)));
                }
            }
        }
        let m0 = c.mark();
        let l = lab(c, self.mid, "QueryEndLsn", vec![V::Int(m.log.end)]);
        if c.successors(self.mid, s, Some(l))?.is_empty() {
            return Ok(Err(format!("the journal does not report its end {}", m.log.end)));
        }
        c.undo(m0);
        Ok(Ok(()))
    }
    fn observe(&mut self, c: &mut Ctx, pre: &V, lbl: &V, post: &V, _path: &Path, mon: &V) -> ER<Obs> {
        let mut m = Mon::from(mon);
        let _ = c;
        match &*lbl.variant() {
            "ReadForRecovery" => {
                let h = hist(&lbl.field("messages").unwrap()).unwrap();
                if !m.log.has(&h) || h.start == h.end {
                    return Ok(Obs::Bad(format!("recovery read returned messages that are not in the log: {:?}, log {:?}", h, m.log)));
                }
                self.note("recovery read");
            }
            "FreezeForCommit" => {
                let img = lbl.field("frozen").unwrap();
                match content_at(&img, &records(&pre.field("disk").unwrap().field("content").unwrap())) {
                    Err(e) => return Ok(Obs::Bad(format!("a snapshot was handed out that the disk does not hold: {}; {:?}", e, img))),
                    Ok(l) => {
                        if !m.log.has(&l) {
                            return Ok(Obs::Bad(format!("snapshot does not hold the log: {:?}, log {:?}", l, m.log)));
                        }
                        self.note("freeze");
                        if l.end > l.start {
                            self.note("freeze of a non-empty journal");
                        }
                        self.last_full = l.end == m.log.end;
                        m.snap = img;
                        m.com = l;
                        m.ct[1] += 1;
                    }
                }
            }
            "QueryEndLsn" => {
                let e = int_of(&lbl.field("end_lsn").unwrap());
                if e != m.log.end {
                    return Ok(Obs::Bad(format!("journal reports end {}, it is {}", e, m.log.end)));
                }
            }
            "Put" => {
                let h = hist(&lbl.field("messages").unwrap()).unwrap();
                if h.start != m.log.end {
                    return Ok(Obs::Bad(format!("put at {} accepted, log ends at {}", h.start, m.log.end)));
                }
                m.log.end = h.end;
                m.log.msgs.extend(h.msgs);
                self.note("put");
            }
            "DiscardOld" => {
                let s = int_of(&lbl.field("start_lsn").unwrap());
                let e = int_of(&lbl.field("require_end").unwrap());
                if e > m.log.end || s < m.log.start || s > e {
                    return Ok(Obs::Bad(format!("discard to {} with end {} accepted, log is {}..{}", s, e, m.log.start, m.log.end)));
                }
                m.log = m.log.sub(s, m.log.end);
                m.ct[0] += 1;
                self.note("discard");
            }
            _ => {
                let inflight = |s: &V| {
                    let n = |f: &str| s.field("disk").and_then(|d| d.field(f)).and_then(|m| m.as_map().map(|m| m.len())).unwrap_or(0);
                    (n("requests"), n("responses"))
                };
                let (a, b) = (inflight(pre), inflight(post));
                if b.0 + b.1 > self.b.inflight {
                    return Ok(Obs::Beyond);
                }
                let used = self.used(post);
                // whoever reserves pages for writing takes pages that hold nothing
                if let Some(es) = post.field("cache").and_then(|x| x.field("entries")).and_then(|m| m.as_map().cloned()) {
                    if es.values().any(|e| e.variant() == "Reserved" && e.field("addr").map_or(false, |a| used.contains(&a))) {
                        return Ok(Obs::Prune);
                    }
                    // ... and not more of them than there are messages to write
                    let n = |s: &V| s.field("cache").and_then(|x| x.field("entries")).and_then(|m| m.as_map().map(|m| m.values().filter(|e| e.variant() == "Reserved").count())).unwrap_or(0);
                    let tail = post.field("journal").and_then(|j| j.field("unmarshalled_tail")).and_then(|h| hist(&h)).map_or(0, |h| h.end - h.start);
                    if n(post) > n(pre) && n(post) as i128 > tail {
                        return Ok(Obs::Prune);
                    }
                }
                let kind = |s: &V, v: &str| {
                    let mut n = 0;
                    for f in ["requests", "responses"] {
                        if let Some(r) = s.field("disk").and_then(|d| d.field(f)) {
                            collect(&r, &mut |x| n += x.as_data().map_or(false, |d| &*name(d.ctor.name) == v) as usize);
                        }
                    }
                    n
                };
                if b.1 > a.1 {
                    self.note("disk completed an operation");
                }
                if kind(post, "WriteResp") < kind(pre, "WriteResp") {
                    self.note("write-back completed");
                }
                if kind(post, "ReadResp") < kind(pre, "ReadResp") {
                    self.note("page loaded");
                }
                let pu = self.used(pre);
                for a in used.difference(&pu) {
                    self.note("record written");
                    let was = pre.field("disk").unwrap().field("content").unwrap().as_map().unwrap().get(a).cloned();
                    if was.as_ref() != Some(&self.blank) {
                        self.note("page reused");
                    }
                }
            }
        }
        if post.field("cache") != pre.field("cache") {
            let n = |s: &V| s.field("cache").and_then(|x| x.field("lookup_map")).and_then(|m| m.as_map().map(|m| m.len())).unwrap_or(0);
            if n(post) < n(pre) {
                self.note("page evicted");
            }
        }
        Ok(Obs::Go(m.v()))
    }
}
