//! Crash-aware journals (abstract, allocation, shared-disk): persistent / in-flight / ephemeral
//! logs and ownership of allocation units, against an independent log and free-set.
use crate::ast::Ty;
use crate::eval::*;
use crate::explore::*;
use crate::h_journal::*;
use crate::h_system::{collect, data, int_of};
use crate::value::*;
use std::collections::{BTreeMap, BTreeSet};

#[derive(Clone, Copy, PartialEq, Debug)]
pub enum CaKind {
    Abstract,
    Alloc,
    Unified,
}
pub struct CaModel {
    pub mid: usize,
    pub kind: CaKind,
    pub lsns: i128,
    pub commits: i128,
    pub crashes: i128,
    pub fills: i128,
    pub aus: i128,
    pub syms: Vec<BTreeMap<V, V>>,
    pub outcomes: BTreeMap<String, u64>,
    pub last: u32,
}
#[derive(Clone)]
struct Mon {
    p: Log,
    i: Option<Log>,
    e: Option<Log>,
    free: BTreeSet<V>,
    ct: [i128; 3],
}
impl Mon {
    fn v(&self) -> V {
        let o = |l: &Option<Log>| l.as_ref().map_or(V::Undef, |l| l.to_v());
        V::tup(vec![self.p.to_v(), o(&self.i), o(&self.e), V::set(self.free.iter().cloned()), V::seq(self.ct.iter().map(|x| V::Int(*x)).collect())])
    }
    fn from(v: &V) -> Mon {
        let V::Tup(t) = v else { panic!() };
        let o = |v: &V| if matches!(v, V::Undef) { None } else { Some(Log::from_v(v)) };
        let V::Set(f) = &t[3] else { panic!() };
        let V::Seq(c) = &t[4] else { panic!() };
        Mon { p: Log::from_v(&t[0]), i: o(&t[1]), e: o(&t[2]), free: (**f).clone(), ct: [int_of(&c[0]), int_of(&c[1]), int_of(&c[2])] }
    }
}
fn some(v: Option<V>) -> Option<V> {
    let v = v?;
    match v.variant().as_str() {
        "Some" => v.as_data().map(|d| d.f[0].clone()),
        "Known" => v.as_data().map(|d| d.f[0].clone()),
        _ => None,
    }
}
/// AUs holding records that reading this image visits
fn reach_aus(img: &V, entries: &V) -> BTreeSet<V> {
    let mut out = BTreeSet::new();
    let bl = img.field("boundary_lsn").or_else(|| img.field("disk_view").and_then(|d| d.field("boundary_lsn"))).map_or(0, |b| int_of(&b));
    let mut cur = img.field("freshest_rec").and_then(|f| some(Some(f)));
    let mut n = 0;
    while let Some(a) = cur {
        n += 1;
        if n > 1000 {
            break;
        }
        if let Some(au) = a.field("au") {
            out.insert(au);
        }
        cur = match entries.as_map().and_then(|m| m.get(&a).cloned()) {
            Some(r) => {
                let st = r.field("message_seq").and_then(|m| m.field("seq_start")).map_or(0, |b| int_of(&b));
                if st <= bl {
                    None
                } else {
                    some(r.field("prior_rec"))
                }
            }
            None => None,
        };
    }
    out
}
impl CaModel {
    fn note(&mut self, s: &str) {
        *self.outcomes.entry(s.to_string()).or_insert(0) += 1;
    }
    fn l(&self, c: &mut Ctx, base: &str, f: Vec<V>) -> V {
        let n = if self.kind == CaKind::Abstract { format!("{}Label", base) } else { base.to_string() };
        lab(c, self.mid, &n, f)
    }
    fn unk(&self, c: &mut Ctx, ty: Ty) -> V {
        let m = &c.p.machines[self.mid];
        let (sc, st) = (m.scope, m.state_ty);
        c.fresh(ty, Fr { scope: sc, self_ty: Some(st) }, sym("x"))
    }
    fn named(&self, n: &str) -> Ty {
        Ty::Named(vec![sym(n)], vec![])
    }
    fn aus_ty(&self) -> Ty {
        Ty::Named(vec![sym("Set")], vec![self.named("AU")])
    }
    fn hist(&self, c: &Ctx, l: &Log) -> V {
        let t = c.p.find_type("abstract_system::MsgHistory_v", "MsgHistory").unwrap();
        let f = c.p.types[t].ctors[0]
            .fields
            .iter()
            .map(|f| match &*name(*f) {
                "msgs" => V::map(l.msgs.iter().map(|(k, v)| (V::Int(*k), v.clone()))),
                "seq_start" => V::Int(l.start),
                "seq_end" => V::Int(l.end),
                x => panic!("MsgHistory has a new field {}", x),
            })
            .collect();
        data(c, "abstract_system::MsgHistory_v", "MsgHistory", "MsgHistory", f)
    }
    fn msg(&self, c: &Ctx, i: i128) -> V {
        let key = data(c, "spec::KeyType_t", "Key", "Key", vec![V::Int(0)]);
        let val = data(c, "spec::Messages_t", "Value", "Value", vec![V::Int(i)]);
        let m = data(c, "spec::Messages_t", "Message", "Define", vec![val]);
        data(c, "abstract_system::MsgHistory_v", "KeyedMessage", "KeyedMessage", vec![key, m])
    }
    /// (record-bearing image, entries, unmarshalled tail) of a stored or ephemeral journal
    fn parts(&self, s: &V, v: &V, eph: bool) -> Option<(V, V, Option<V>)> {
        match self.kind {
            CaKind::Abstract => None,
            CaKind::Alloc => {
                let (tj, tail) = if eph {
                    let j = v.field("journal")?;
                    (j.field("truncated_journal")?, Some(j.field("unmarshalled_tail")?))
                } else {
                    (v.field("tj")?, None)
                };
                let e = tj.field("disk_view")?.field("entries")?;
                Some((tj, e, tail))
            }
            CaKind::Unified => {
                let (img, tail) = if eph { (v.field("image")?, Some(v.field("unmarshalled_tail")?)) } else { (v.clone(), None) };
                Some((img, s.field("dv")?.field("entries")?, tail))
            }
        }
    }
    fn read(&self, s: &V, v: &V, eph: bool) -> Result<Log, String> {
        if self.kind == CaKind::Abstract {
            return content(&if eph { v.field("journal").ok_or("journal state changed shape")? } else { v.clone() });
        }
        let (img, entries, tail) = self.parts(s, v, eph).ok_or("journal state changed shape")?;
        let mut l = content_at(&img, &entries)?;
        if let Some(t) = tail {
            let t = hist(&t).ok_or("tail changed shape")?;
            if t.start != l.end {
                return Err(format!("in-memory tail starts at {}, records end at {}", t.start, l.end));
            }
            l.end = t.end;
            l.msgs.extend(t.msgs);
            if l.msgs.keys().cloned().collect::<Vec<_>>() != (l.start..l.end).collect::<Vec<_>>() {
                return Err("in-memory tail is malformed".into());
            }
        }
        Ok(l)
    }
    fn inflight(&self, s: &V) -> Option<V> {
        some(s.field("inflight").or_else(|| s.field("in_flight")))
    }
    fn live(&self, s: &V) -> BTreeSet<V> {
        let mut out = BTreeSet::new();
        let mut add = |v: Option<V>, eph: bool| {
            if let Some(v) = v {
                if let Some((i, e, _)) = self.parts(s, &v, eph) {
                    out.extend(reach_aus(&i, &e));
                }
            }
        };
        add(s.field("persistent"), false);
        add(self.inflight(s), false);
        add(some(s.field("ephemeral")), true);
        out
    }
    /// AUs the running journal accounts for
    fn tracked(&self, s: &V) -> Option<BTreeSet<V>> {
        let e = some(s.field("ephemeral"))?;
        let mut out = BTreeSet::new();
        out.extend(e.field("lsn_au_index")?.as_map()?.values().cloned());
        out.extend(e.field("mini_allocator")?.field("allocs")?.as_map()?.keys().cloned());
        Some(out)
    }
}
impl Model for CaModel {
    fn symmetries(&self) -> Vec<BTreeMap<V, V>> {
        self.syms.clone()
    }
    fn initial(&mut self, c: &mut Ctx) -> ER<Vec<(V, V)>> {
        let free: BTreeSet<V> = if self.kind == CaKind::Abstract { BTreeSet::new() } else { (AU0..AU0 + self.aus).map(V::Int).collect() };
        let m = Mon { p: Log { start: 0, end: 0, msgs: BTreeMap::new() }, i: None, e: None, free, ct: [0; 3] };
        Ok(c.initial(self.mid)?.into_iter().map(|s| (s, m.v())).collect())
    }
    fn labels(&mut self, c: &mut Ctx, _s: &V, mon: &V) -> ER<Vec<Option<V>>> {
        let m = Mon::from(mon);
        let ab = self.kind == CaKind::Abstract;
        let mut out = vec![self.l(c, "LoadEphemeralFromPersistent", vec![])];
        if m.ct[1] < self.crashes {
            for k in [false, true] {
                out.push(self.l(c, "Crash", vec![V::Bool(k)]));
            }
        }
        for l in 0..=self.lsns + 1 {
            out.push(self.l(c, "QueryLsnPersistence", vec![V::Int(l)]));
        }
        if let Some(e) = &m.e {
            if ab {
                for a in e.start..=e.end {
                    for b in a..=e.end {
                        let h = self.hist(c, &e.sub(a, b));
                        out.push(self.l(c, "ReadForRecovery", vec![h]));
                    }
                }
                let mut w = e.clone();
                w.msgs.insert(w.end, self.msg(c, 77));
                w.end += 1;
                let h = self.hist(c, &w);
                out.push(self.l(c, "ReadForRecovery", vec![h]));
            } else {
                let t = self.named("MsgHistory");
                let h = self.unk(c, t);
                out.push(self.l(c, "ReadForRecovery", vec![h]));
            }
            for x in [e.end, e.end + 1] {
                out.push(self.l(c, "QueryEndLsn", vec![V::Int(x)]));
            }
            for (off, n) in [(0, 1), (0, 2), (1, 1)] {
                if e.end + n <= self.lsns {
                    let a = e.end + off;
                    let l = Log { start: a, end: a + n, msgs: (a..a + n).map(|i| (i, self.msg(c, i + 1 + 10 * m.ct[1]))).collect() };
                    let h = self.hist(c, &l);
                    out.push(self.l(c, "Put", vec![h]));
                }
            }
            if ab {
                out.push(self.l(c, "Internal", vec![]));
            } else {
                let sets: Vec<V> = std::iter::once(V::set(vec![])).chain(m.free.iter().filter(|_| m.ct[2] < self.fills).map(|a| V::set(vec![a.clone()]))).collect();
                for a in sets {
                    let t = self.aus_ty();
                    let d = self.unk(c, t);
                    out.push(self.l(c, "Internal", vec![a, d]));
                }
            }
            if m.ct[0] < self.commits {
                for b in e.start..=e.end + 1 {
                    for mx in [e.end, e.start] {
                        out.push(self.l(c, "CommitStart", vec![V::Int(b), V::Int(mx)]));
                    }
                }
            }
            for x in [e.end, e.end + 1] {
                let mut f = vec![V::Int(x)];
                if !ab {
                    let t = self.aus_ty();
                    f.push(self.unk(c, t));
                }
                out.push(self.l(c, "CommitComplete", f));
            }
        }
        Ok(out.into_iter().map(Some).collect())
    }
    fn pending(&mut self, _s: &V, mon: &V) -> u32 {
        let m = Mon::from(mon);
        let mut p = 0;
        if m.e.is_none() {
            p |= 1;
        }
        if m.i.is_some() {
            p |= 2;
        }
        if let (Some(e), None) = (&m.e, &m.i) {
            if m.ct[0] < self.commits && m.ct[2] < self.fills {
                p |= 4;
            }
            if e.end < self.lsns {
                p |= 8;
            }
        }
        p
    }
    fn obligation_name(&self, b: u32) -> String {
        ["loading the journal", "completing the commit in flight", "starting a commit of the complete current log", "accepting a put"][b as usize].into()
    }
    fn discharges(&mut self, lbl: &V, _mon: &V) -> Option<u32> {
        if lbl.variant().starts_with("Crash") {
            return None;
        }
        Some(self.last)
    }
    fn state_ok(&mut self, c: &mut Ctx, s: &V, mon: &V) -> ER<Result<(), String>> {
        let m = Mon::from(mon);
        let cmp = |what: &str, got: Result<Log, String>, want: &Log| -> Result<(), String> {
            match got {
                Err(e) => Err(format!("the {} journal cannot be read back: {}", what, e)),
                Ok(g) if g != *want => Err(format!("the {} journal holds {:?} instead of {:?}", what, g, want)),
                _ => Ok(()),
            }
        };
        let mut r = cmp("persistent", self.read(s, &s.field("persistent").unwrap_or(V::Undef), false), &m.p);
        if let (Ok(()), Some(i)) = (&r, &m.i) {
            r = match self.inflight(s) {
                Some(x) => cmp("in-flight", self.read(s, &x, false), i),
                None => Err("the commit in flight was forgotten".into()),
            };
        }
        if let (Ok(()), Some(e)) = (&r, &m.e) {
            r = match some(s.field("ephemeral")) {
                Some(x) => cmp("ephemeral", self.read(s, &x, true), e),
                None => Err("the running journal was forgotten".into()),
            };
        }
        if r.is_ok() && self.kind != CaKind::Abstract {
            let live = self.live(s);
            if let Some(a) = live.iter().find(|a| m.free.contains(a)) {
                r = Err(format!("allocation unit {:?} is free but holds live journal records", a));
            } else if m.e.is_some() {
                let Some(t) = self.tracked(s) else { return Ok(Err("journal state changed shape".into())) };
                let all: BTreeSet<V> = (AU0..AU0 + self.aus).map(V::Int).collect();
                if let Some(a) = t.iter().find(|a| m.free.contains(a)) {
                    r = Err(format!("the journal still uses allocation unit {:?}, which it gave back", a));
                } else if let Some(a) = all.iter().find(|a| !m.free.contains(a) && !t.contains(a)) {
                    r = Err(format!("allocation unit {:?} is leaked: neither free nor tracked", a));
                }
            }
        }
        if r.is_ok() && m.p.end > 0 {
            let m0 = c.mark();
            let l = self.l(c, "QueryLsnPersistence", vec![V::Int(m.p.end)]);
            if c.successors(self.mid, s, Some(l))?.is_empty() {
                r = Err(format!("log end {} is persistent but a sync up to it is not acknowledged", m.p.end));
            }
            c.undo(m0);
        }
        Ok(r)
    }
    fn observe(&mut self, _c: &mut Ctx, _pre: &V, lbl: &V, post: &V, _path: &Path, mon: &V) -> ER<Obs> {
        let mut m = Mon::from(mon);
        self.last = 0;
        let k = lbl.variant();
        let set_of = |v: &V| -> BTreeSet<V> {
            let mut o = BTreeSet::new();
            if let V::Set(s) = v {
                o.extend(s.iter().cloned());
            }
            o
        };
        macro_rules! bad {
            ($($a:tt)*) => { return Ok(Obs::Bad(format!($($a)*))) };
        }
        let give_back = |m: &mut Mon, d: &BTreeSet<V>| -> Option<String> {
            for a in d {
                if !m.free.insert(a.clone()) {
                    return Some(format!("allocation unit {:?} given back although it is already free", a));
                }
            }
            None
        };
        match k.trim_end_matches("Label") {
            "LoadEphemeralFromPersistent" => {
                if m.e.is_some() {
                    bad!("journal loaded twice");
                }
                m.e = Some(m.p.clone());
                self.last = 1;
                self.note("load");
            }
            "Crash" => {
                if int_bool(&lbl.field("keep_in_flight").unwrap()) {
                    if let Some(i) = &m.i {
                        m.p = i.clone();
                        self.note("crash that keeps the commit in flight");
                    }
                } else if m.e.as_ref().map_or(false, |e| e.end > m.p.end) {
                    self.note("crash that loses messages");
                }
                m.e = None;
                m.i = None;
                m.ct[1] += 1;
                if self.kind != CaKind::Abstract {
                    let live = self.live(post);
                    m.free = (AU0..AU0 + self.aus).map(V::Int).filter(|a| !live.contains(a)).collect();
                    m.ct[2] = 0;
                }
            }
            "QueryLsnPersistence" => {
                let l = int_of(&lbl.field("sync_lsn").unwrap());
                if l > m.p.end {
                    bad!("sync up to {} acknowledged, only {} messages are persistent", l, m.p.end);
                }
                if l > 0 {
                    self.note("sync acknowledged");
                }
            }
            "ReadForRecovery" => {
                let h = hist(&lbl.field("records").unwrap()).unwrap();
                if !m.e.as_ref().map_or(false, |e| e.has(&h)) {
                    bad!("recovery read returned {:?}, log is {:?}", h, m.e);
                }
                self.note("recovery read");
            }
            "QueryEndLsn" => {
                let e = int_of(&lbl.field("end_lsn").unwrap());
                if m.e.as_ref().map_or(true, |l| l.end != e) {
                    bad!("journal reports end {}, log is {:?}", e, m.e);
                }
            }
            "Put" => {
                let h = hist(&lbl.field("records").unwrap()).unwrap();
                let Some(e) = &mut m.e else { bad!("put before loading") };
                if h.start != e.end {
                    bad!("put at {} accepted, log ends at {}", h.start, e.end);
                }
                e.end = h.end;
                e.msgs.extend(h.msgs);
                self.last = 8;
                self.note("put");
            }
            "Internal" => {
                if self.kind != CaKind::Abstract {
                    let a = set_of(&lbl.field("allocs").unwrap());
                    m.ct[2] += !a.is_empty() as i128;
                    for x in &a {
                        m.free.remove(x);
                    }
                    let d = set_of(&lbl.field("deallocs").unwrap());
                    if !a.is_empty() {
                        self.note("allocation");
                    }
                    if !d.is_empty() {
                        self.note("unused allocation unit returned");
                    }
                    if let Some(e) = give_back(&mut m, &d) {
                        bad!("{}", e);
                    }
                }
            }
            "CommitStart" => {
                let b = int_of(&lbl.field("new_boundary_lsn").unwrap());
                let Some(e) = &m.e else { bad!("commit before loading") };
                if m.i.is_some() {
                    bad!("second commit started while one is in flight");
                }
                let Some(x) = self.inflight(post) else { bad!("commit started without an image") };
                let i = match self.read(post, &x, false) {
                    Ok(i) => i,
                    Err(e) => bad!("the image being committed cannot be read back: {}", e),
                };
                if i.start != b {
                    bad!("commit for a map at {} froze a journal starting at {}", b, i.start);
                }
                if b > int_of(&lbl.field("max_lsn").unwrap()) {
                    bad!("commit froze a journal that starts after the newest map");
                }
                if i.end < m.p.end {
                    bad!("commit would lose synced messages: {:?} after {:?}", i, m.p);
                }
                if !e.has(&i) {
                    bad!("image being committed {:?} is not part of the log {:?}", i, e);
                }
                if i.end == e.end {
                    self.last = 4;
                }
                self.note("commit started");
                m.i = Some(i);
                m.ct[0] += 1;
            }
            "CommitComplete" => {
                let Some(i) = m.i.take() else { bad!("commit completed that was not in flight") };
                let Some(e) = m.e.clone() else { bad!("commit completed before loading") };
                if int_of(&lbl.field("require_end").unwrap()) != e.end {
                    bad!("commit completed although the caller's log end is not the journal's");
                }
                m.e = Some(e.sub(i.start, e.end));
                if i.start > e.start {
                    self.note("commit that truncates the log");
                }
                m.p = i;
                self.last = 2;
                self.note("commit completed");
                if self.kind != CaKind::Abstract {
                    let d = set_of(&lbl.field("discarded").unwrap());
                    if !d.is_empty() {
                        self.note("allocation unit freed by truncation");
                    }
                    if let Some(e) = give_back(&mut m, &d) {
                        bad!("{}", e);
                    }
                }
            }
            _ => return bad(format!("unexpected label {:?}", lbl)),
        }
        Ok(Obs::Go(m.v()))
    }
}
fn int_bool(v: &V) -> bool {
    matches!(v, V::Bool(true))
}
#[allow(dead_code)]
fn _c() {
    let _ = collect;
}
