//! Journal layers: every journal machine (abstract, paged, linked, indexed, allocation-aware)
//! against an independent append/truncate log.
use crate::ast::Ty;
use crate::eval::*;
use crate::explore::*;
use crate::h_system::{collect, data, int_of};
use crate::solve::*;
use crate::value::*;
use std::collections::{BTreeMap, BTreeSet};
use std::rc::Rc;

/// the log as clients know it
#[derive(Clone, PartialEq, Eq, PartialOrd, Ord, Debug)]
pub struct Log {
    pub start: i128,
    pub end: i128,
    pub msgs: BTreeMap<i128, V>,
}
impl Log {
    pub fn sub(&self, a: i128, b: i128) -> Log {
        Log { start: a, end: b, msgs: self.msgs.iter().filter(|(k, _)| **k >= a && **k < b).map(|(k, v)| (*k, v.clone())).collect() }
    }
    pub fn to_v(&self) -> V {
        V::tup(vec![V::Int(self.start), V::Int(self.end), V::map(self.msgs.iter().map(|(k, v)| (V::Int(*k), v.clone())))])
    }
    pub fn from_v(v: &V) -> Log {
        let V::Tup(t) = v else { panic!() };
        Log { start: int_of(&t[0]), end: int_of(&t[1]), msgs: t[2].as_map().unwrap().iter().map(|(k, v)| (int_of(k), v.clone())).collect() }
    }
    /// is `o` a contiguous part of this log
    pub fn has(&self, o: &Log) -> bool {
        o.start >= self.start && o.end <= self.end && o.start <= o.end && self.sub(o.start, o.end).msgs == o.msgs
    }
}
/// read a MsgHistory value
pub fn hist(v: &V) -> Option<Log> {
    let l = Log { start: int_of(&v.field("seq_start")?), end: int_of(&v.field("seq_end")?), msgs: v.field("msgs")?.as_map()?.iter().map(|(k, v)| (int_of(k), v.clone())).collect() };
    Some(l)
}
fn well_formed(l: &Log) -> bool {
    l.start <= l.end && l.msgs.keys().cloned().collect::<Vec<_>>() == (l.start..l.end).collect::<Vec<_>>()
}
fn opt(v: &V) -> Option<V> {
    match v.variant().as_str() {
        "Some" => v.as_data().map(|d| d.f[0].clone()),
        _ => None,
    }
}
/// The log stored by a journal image of any layer, read by walking its records.
pub fn content(v: &V) -> Result<Log, String> {
    content_in(v, None)
}
/// the same for an image whose records are in a shared disk
pub fn content_at(v: &V, entries: &V) -> Result<Log, String> {
    content_in(v, Some(entries))
}
fn content_in(v: &V, entries: Option<&V>) -> Result<Log, String> {
    if let Some(tj) = v.field("tj") {
        return content_in(&tj, entries);
    }
    if v.field("msgs").is_some() {
        let l = hist(v).ok_or("bad history")?;
        return if well_formed(&l) { Ok(l) } else { Err("image is not a well-formed history".into()) };
    }
    let head = v.field("freshest_rec").ok_or("journal image has changed shape")?;
    let (b, dv) = match v.field("disk_view") {
        Some(dv) => (int_of(&dv.field("boundary_lsn").unwrap()), Some(dv)),
        None => (int_of(&v.field("boundary_lsn").ok_or("journal image has changed shape")?), None),
    };
    let mut cur = opt(&head);
    let mut out = Log { start: b, end: b, msgs: BTreeMap::new() };
    let mut first = true;
    let mut expect_end = 0;
    let mut n = 0;
    loop {
        let Some(c) = cur else {
            if !first && expect_end > b {
                return Err(format!("records before lsn {} are lost (image claims to start at {})", expect_end, b));
            }
            return Ok(out);
        };
        n += 1;
        if n > 1000 {
            return Err("record chain loops".into());
        }
        let es = entries.cloned().or_else(|| dv.as_ref().map(|d| d.field("entries").unwrap()));
        let rec = match &es {
            None => c,
            Some(es) => match es.as_map().unwrap().get(&c) {
                Some(r) => r.clone(),
                None => return Err(format!("record pointer {:?} dangles", c)),
            },
        };
        let h = hist(&rec.field("message_seq").ok_or("record has changed shape")?).ok_or("bad record")?;
        if !well_formed(&h) || h.start == h.end {
            return Err(format!("malformed record {:?}", h));
        }
        if first {
            out.end = h.end;
            if h.end <= b {
                return Err("freshest record lies entirely before the boundary".into());
            }
        } else if h.end != expect_end {
            return Err(format!("record chain jumps from {} to {}", expect_end, h.end));
        }
        first = false;
        expect_end = h.start;
        for (k, m) in &h.msgs {
            if *k >= b {
                out.msgs.insert(*k, m.clone());
            }
        }
        cur = if h.start <= b {
            None
        } else {
            match rec.field("prior_rec") {
                Some(p) => opt(&p),
                None => return Err("record has changed shape".into()),
            }
        };
    }
}

#[derive(Clone, Copy, PartialEq, Debug)]
pub enum Kind {
    Abstract,
    Paged,
    Linked,
    Likes,
    Alloc,
}
pub struct JBounds {
    pub lsns: i128,
    pub discards: i128,
    pub freezes: i128,
    pub crashes: i128,
    pub pages: i128,
    pub aus: i128,
}
pub struct JModel {
    pub mid: usize,
    pub kind: Kind,
    pub b: JBounds,
    pub outcomes: BTreeMap<String, u64>,
    pub syms: Vec<BTreeMap<V, V>>,
}

/// monitor: (log, frozen image or Undef, frozen log, counters [discards, freezes, crashes, fresh])
fn unpack(m: &V) -> (Log, Option<(V, Log)>, [i128; 4]) {
    let V::Tup(t) = m else { panic!() };
    let fr = if matches!(t[1], V::Undef) { None } else { Some((t[1].clone(), Log::from_v(&t[2]))) };
    let V::Seq(c) = &t[3] else { panic!() };
    (Log::from_v(&t[0]), fr, [int_of(&c[0]), int_of(&c[1]), int_of(&c[2]), int_of(&c[3])])
}
fn pack(l: &Log, f: &Option<(V, Log)>, c: [i128; 4]) -> V {
    let (a, b) = match f {
        None => (V::Undef, V::Undef),
        Some((v, l)) => (v.clone(), l.to_v()),
    };
    V::tup(vec![l.to_v(), a, b, V::seq(c.iter().map(|x| V::Int(*x)).collect())])
}

impl JModel {
    fn note(&mut self, s: &str) {
        *self.outcomes.entry(s.to_string()).or_insert(0) += 1;
    }
    pub fn mk_hist(&self, c: &Ctx, l: &Log) -> V {
        data(c, "abstract_system::MsgHistory_v", "MsgHistory", "MsgHistory", {
            let t = c.p.find_type("abstract_system::MsgHistory_v", "MsgHistory").unwrap();
            c.p.types[t].ctors[0]
                .fields
                .iter()
                .map(|f| match &*name(*f) {
                    "msgs" => V::map(l.msgs.iter().map(|(k, v)| (V::Int(*k), v.clone()))),
                    "seq_start" => V::Int(l.start),
                    "seq_end" => V::Int(l.end),
                    x => panic!("MsgHistory has a new field {}", x),
                })
                .collect()
        })
    }
    fn msg(&self, c: &Ctx, i: i128) -> V {
        let key = data(c, "spec::KeyType_t", "Key", "Key", vec![V::Int(0)]);
        let val = data(c, "spec::Messages_t", "Value", "Value", vec![V::Int(i)]);
        let m = data(c, "spec::Messages_t", "Message", "Define", vec![val]);
        data(c, "abstract_system::MsgHistory_v", "KeyedMessage", "KeyedMessage", vec![key, m])
    }
    fn wrong(&self) -> &'static [&'static str] {
        &[]
    }
    fn lname(&self, base: &str) -> String {
        if self.kind == Kind::Abstract {
            format!("{}Label", base)
        } else {
            base.to_string()
        }
    }
    fn label(&self, c: &mut Ctx, base: &str, f: Vec<V>) -> V {
        let n = self.lname(base);
        lab(c, self.mid, &n, f)
    }
    fn unknown(&self, c: &mut Ctx, ty: &str) -> V {
        let m = &c.p.machines[self.mid];
        let (sc, st) = (m.scope, m.state_ty);
        c.fresh(Ty::Named(vec![sym(ty)], vec![]), Fr { scope: sc, self_ty: Some(st) }, sym("x"))
    }
    fn unknown_set(&self, c: &mut Ctx) -> V {
        let m = &c.p.machines[self.mid];
        let (sc, st) = (m.scope, m.state_ty);
        c.fresh(Ty::Named(vec![sym("Set")], vec![Ty::Named(vec![sym("AU")], vec![])]), Fr { scope: sc, self_ty: Some(st) }, sym("x"))
    }
    fn image_ty(&self) -> &'static str {
        match self.kind {
            Kind::Abstract => "MsgHistory",
            Kind::Alloc => "JournalImage",
            _ => "TruncatedJournal",
        }
    }
    /// states that recovery from an image can start in
    fn recover(&self, c: &mut Ctx, img: &V) -> ER<Vec<V>> {
        let m = c.p.machines[self.mid].clone();
        let sty = c.p.types[m.state_ty].name;
        let mk = c.mark();
        let post = c.fresh(Ty::Named(vec![sty], vec![]), Fr { scope: m.scope, self_ty: Some(m.state_ty) }, sym("post"));
        let args = match self.kind {
            Kind::Alloc => {
                let j = c.fresh(Ty::Named(vec![sym("LinkedJournal"), sym("State")], vec![]), Fr { scope: m.scope, self_ty: Some(m.state_ty) }, sym("j"));
                vec![V::Str("initialize".into()), j, img.clone()]
            }
            _ => vec![V::Str("initialize".into()), img.clone()],
        };
        let r = c.solve_all(vec![G::Init(self.mid, post.clone(), Some(V::tup(args)))], &[post]);
        c.undo(mk);
        Ok(r?.into_iter().map(|mut v| v.remove(0)).collect())
    }
    fn mkfs(&self, c: &mut Ctx) -> ER<V> {
        let r = |c: &mut Ctx, m: &str, t: &str, f: &str| -> ER<V> {
            let tid = c.p.find_type(m, t).unwrap_or_else(|| panic!("{} not found", t));
            c.call_static(tid, f, vec![])
        };
        Ok(match self.kind {
            Kind::Abstract => self.mk_hist(c, &Log { start: 0, end: 0, msgs: BTreeMap::new() }),
            Kind::Paged => {
                let f = c.p.find_fn("journal::PagedJournal_v::mkfs").expect("mkfs");
                c.call_fn(f, vec![])?
            }
            Kind::Alloc => r(c, "allocation_layer::AllocationJournal_v", "JournalImage", "empty")?,
            _ => r(c, "journal::LinkedJournal_v", "TruncatedJournal", "mkfs")?,
        })
    }
}

impl Model for JModel {
    fn symmetries(&self) -> Vec<BTreeMap<V, V>> {
        self.syms.clone()
    }
    fn initial(&mut self, c: &mut Ctx) -> ER<Vec<(V, V)>> {
        let img = self.mkfs(c)?;
        let l = Log { start: 0, end: 0, msgs: BTreeMap::new() };
        let mon = pack(&l, &Some((img.clone(), l.clone())), [0, 0, 0, 1]);
        Ok(self.recover(c, &img)?.into_iter().map(|s| (s, mon.clone())).collect())
    }
    fn labels(&mut self, c: &mut Ctx, _s: &V, mon: &V) -> ER<Vec<Option<V>>> {
        let (log, _, ct) = unpack(mon);
        let mut hs = vec![];
        for a in log.start..=log.end {
            for b in a..=log.end {
                hs.push(self.mk_hist(c, &log.sub(a, b)));
            }
        }
        // histories that are not in the log: too long, and with a wrong message
        let mut w = log.clone();
        w.msgs.insert(w.end, self.msg(c, 77));
        w.end += 1;
        hs.push(self.mk_hist(c, &w));
        hs.push(self.mk_hist(c, &w.sub(log.end, log.end + 1)));
        if log.end > log.start {
            let mut w = log.clone();
            w.msgs.insert(log.start, self.msg(c, 78));
            hs.push(self.mk_hist(c, &w));
        }
        let mut out = vec![];
        if self.kind == Kind::Abstract {
            for h in &hs {
                out.push(self.label(c, "ReadForRecovery", vec![h.clone()]));
                if ct[1] < self.b.freezes {
                    out.push(self.label(c, "FreezeForCommit", vec![h.clone()]));
                }
            }
        } else {
            let t = self.unknown(c, "MsgHistory");
            out.push(self.label(c, "ReadForRecovery", vec![t]));
            if ct[1] < self.b.freezes {
                let ty = self.image_ty();
                let t = self.unknown(c, ty);
                out.push(self.label(c, "FreezeForCommit", vec![t]));
            }
        }
        for e in 0..=self.b.lsns + 1 {
            out.push(self.label(c, "QueryEndLsn", vec![V::Int(e)]));
        }
        // puts of one or two messages, at the end, and (must be refused) past it
        for (off, n) in [(0, 1), (0, 2), (1, 1)] {
            if log.end + n <= self.b.lsns {
                let a = log.end + off;
                let l = Log { start: a, end: a + n, msgs: (a..a + n).map(|i| (i, self.msg(c, i + 1))).collect() };
                let h = self.mk_hist(c, &l);
                out.push(self.label(c, "Put", vec![h]));
            }
        }
        if ct[0] < self.b.discards {
            for s in (log.start - 1).max(0)..=log.end + 1 {
                for e in [log.end, log.end + 1] {
                    let mut f = vec![V::Int(s), V::Int(e)];
                    if self.kind == Kind::Alloc {
                        f.push(self.unknown_set(c));
                    }
                    out.push(self.label(c, "DiscardOld", f));
                }
            }
        }
        if self.kind == Kind::Alloc {
            let (a, b) = (self.unknown_set(c), self.unknown_set(c));
            out.push(self.label(c, "InternalAllocations", vec![a, b]));
        } else {
            out.push(self.label(c, "Internal", vec![]));
        }
        Ok(out.into_iter().map(Some).collect())
    }
    fn successors(&mut self, c: &mut Ctx, mid: usize, s: &V, l: Option<V>) -> ER<Vec<(V, V, Path)>> {
        if let Some(V::Str(_)) = &l {
            return Ok(vec![]);
        }
        c.successors(mid, s, l)
    }
    fn extra(&mut self, c: &mut Ctx, _s: &V, mon: &V) -> ER<Vec<(V, V, Obs)>> {
        // crash: recover from the frozen image
        let (_, fr, ct) = unpack(mon);
        let mut out = vec![];
        if let (Some((img, l)), true) = (&fr, ct[2] < self.b.crashes) {
            if ct[3] == 0 {
                let rs = self.recover(c, img)?;
                if rs.is_empty() {
                    return Ok(vec![(V::Str("crash+recover".into()), V::Undef, Obs::Bad("the journal refuses to recover from an image it froze".into()))]);
                }
                for s in rs {
                    self.note("crash and recovery");
                    if l.end > l.start {
                        self.note("recovery of a non-empty journal");
                    }
                    out.push((V::Str("crash+recover".into()), s, Obs::Go(pack(l, &fr, [ct[0], ct[1], ct[2] + 1, 1]))));
                }
            }
        }
        Ok(out)
    }
    fn pending(&mut self, _s: &V, mon: &V) -> u32 {
        let (log, _, ct) = unpack(mon);
        (log.end > log.start && ct[1] < self.b.freezes) as u32
    }
    fn obligation_name(&self, _: u32) -> String {
        "freezing the complete current log for commit".into()
    }
    fn discharges(&mut self, lbl: &V, mon: &V) -> Option<u32> {
        let (log, _, _) = unpack(mon);
        if lbl.variant().starts_with("FreezeForCommit") {
            if let Some(Ok(l)) = lbl.field("frozen_journal").map(|f| content(&f)) {
                if l == log {
                    return Some(1);
                }
            }
        }
        Some(0)
    }
    fn state_ok(&mut self, c: &mut Ctx, s: &V, mon: &V) -> ER<Result<(), String>> {
        let (log, fr, ct) = unpack(mon);
        // the end of the log is known in every state
        let m0 = c.mark();
        let l = self.label(c, "QueryEndLsn", vec![V::Int(log.end)]);
        if c.successors(self.mid, s, Some(l))?.is_empty() {
            return Ok(Err(format!("the journal does not report its end {}", log.end)));
        }
        if ct[3] == 1 {
            // just recovered: everything in the image can be read back
            let mut seen = BTreeSet::new();
            if self.kind == Kind::Abstract {
                let h = self.mk_hist(c, &log);
                let l = self.label(c, "ReadForRecovery", vec![h]);
                if !c.successors(self.mid, s, Some(l))?.is_empty() {
                    seen.extend(log.start..log.end);
                }
            } else {
                let t = self.unknown(c, "MsgHistory");
                let l = self.label(c, "ReadForRecovery", vec![t]);
                for (lb, _, _) in c.successors(self.mid, s, Some(l))? {
                    if let Some(h) = lb.field("messages").and_then(|m| hist(&m)) {
                        seen.extend(h.start..h.end);
                    }
                }
            }
            if let Some(m) = (log.start..log.end).find(|i| !seen.contains(i)) {
                return Ok(Err(format!("message {} of the recovered journal can never be read back", m)));
            }
        }
        if let Some((_, fl)) = &fr {
            // the part before a committed image can be discarded
            if fl.start >= log.start && fl.end <= log.end && ct[0] < self.b.discards {
                let mut f = vec![V::Int(fl.start), V::Int(log.end)];
                if self.kind == Kind::Alloc {
                    f.push(self.unknown_set(c));
                }
                let l = self.label(c, "DiscardOld", f);
                if c.successors(self.mid, s, Some(l))?.is_empty() {
                    return Ok(Err(format!("after committing an image that starts at {} the older part cannot be discarded", fl.start)));
                }
            }
        }
        c.undo(m0);
        Ok(Ok(()))
    }
    fn observe(&mut self, c: &mut Ctx, _pre: &V, lbl: &V, _post: &V, _path: &Path, mon: &V) -> ER<Obs> {
        let (mut log, mut fr, mut ct) = unpack(mon);
        let _ = c;
        let k = lbl.variant();
        let k = k.trim_end_matches("Label");
        match k {
            "ReadForRecovery" => {
                let h = hist(&lbl.field("messages").unwrap()).unwrap();
                if !well_formed(&h) || !log.has(&h) {
                    return Ok(Obs::Bad(format!("recovery read returned messages that are not in the log: {:?}, log {:?}", h, log)));
                }
                self.note("recovery read");
                return Ok(Obs::Go(mon.clone()));
            }
            "FreezeForCommit" => {
                let img = lbl.field("frozen_journal").unwrap();
                match content(&img) {
                    Err(e) => return Ok(Obs::Bad(format!("frozen image is broken: {}; image {:?}", e, img))),
                    Ok(l) => {
                        if !log.has(&l) {
                            return Ok(Obs::Bad(format!("frozen image does not hold the log: {:?}, log {:?}", l, log)));
                        }
                        self.note("freeze for commit");
                        fr = Some((img, l));
                        ct[1] += 1;
                    }
                }
            }
            "QueryEndLsn" => {
                let e = int_of(&lbl.field("end_lsn").unwrap());
                if e != log.end {
                    return Ok(Obs::Bad(format!("journal reports end {}, it is {}", e, log.end)));
                }
                return Ok(Obs::Go(mon.clone()));
            }
            "Put" => {
                let h = hist(&lbl.field("messages").unwrap()).unwrap();
                if h.start != log.end {
                    return Ok(Obs::Bad(format!("put at {} accepted, log ends at {}", h.start, log.end)));
                }
                log.end = h.end;
                log.msgs.extend(h.msgs);
                self.note("put");
                ct[3] = 0;
            }
            "DiscardOld" => {
                let s = int_of(&lbl.field("start_lsn").unwrap());
                let e = int_of(&lbl.field("require_end").unwrap());
                if e != log.end {
                    return Ok(Obs::Bad(format!("discard accepted although the caller expects end {} and the log ends at {}", e, log.end)));
                }
                if s < log.start || s > log.end {
                    return Ok(Obs::Bad(format!("discard to {} accepted, log is {}..{}", s, log.start, log.end)));
                }
                log = log.sub(s, log.end);
                ct[0] += 1;
                ct[3] = 0;
                self.note("discard");
            }
            "Internal" | "InternalAllocations" => {
                self.note("internal step");
                ct[3] = 0;
            }
            _ => return bad(format!("unexpected label {:?}", lbl)),
        }
        Ok(Obs::Go(pack(&log, &fr, ct)))
    }
}

/// rankings of the nodes of whatever pointer structure is in scope
pub fn ranking_universe(c: &mut Ctx) {
    c.dyn_univ.insert(
        sym("Ranking"),
        Rc::new(|c: &mut Ctx, env: &Env| {
            let mut nodes: BTreeSet<V> = BTreeSet::new();
            let mut edges: BTreeSet<(V, V)> = BTreeSet::new();
            let mut e = env.0.clone();
            while let Some(n) = e {
                let v = c.resolve(&n.val);
                if let Some(i) = c.first_lvar(&v) {
                    return Err(Ctl::Stuck(i));
                }
                collect(&v, &mut |v| {
                    if let V::Map(m) = v {
                        for (k, x) in m.iter() {
                            if k.as_data().map_or(false, |d| &*name(d.ctor.name) == "Address") {
                                nodes.insert(k.clone());
                                collect(x, &mut |y| {
                                    if y.as_data().map_or(false, |d| &*name(d.ctor.name) == "Address") {
                                        edges.insert((k.clone(), y.clone()));
                                    }
                                });
                            }
                        }
                    }
                });
                e = n.next.0.clone();
            }
            let ns: Vec<V> = nodes.into_iter().collect();
            let mut out = vec![];
            let mk = |o: &[V]| V::map(o.iter().enumerate().map(|(i, a)| (a.clone(), V::Int(i as i128))));
            // depth-first order: pointees before pointers
            let mut order: Vec<V> = vec![];
            fn visit(n: &V, ns: &[V], edges: &BTreeSet<(V, V)>, seen: &mut BTreeSet<V>, order: &mut Vec<V>) {
                if !ns.contains(n) || !seen.insert(n.clone()) {
                    return;
                }
                for (a, b) in edges {
                    if a == n {
                        visit(b, ns, edges, seen, order);
                    }
                }
                order.push(n.clone());
            }
            let mut seen = BTreeSet::new();
            for n in &ns {
                visit(n, &ns, &edges, &mut seen, &mut order);
            }
            out.push(mk(&order));
            if ns.len() <= 5 {
                // every other order as well
                fn perms(cur: &mut Vec<V>, rest: &mut Vec<V>, f: &mut dyn FnMut(&[V])) {
                    if rest.is_empty() {
                        f(cur);
                    }
                    for i in 0..rest.len() {
                        let x = rest.remove(i);
                        cur.push(x);
                        perms(cur, rest, f);
                        let x = cur.pop().unwrap();
                        rest.insert(i, x);
                    }
                }
                perms(&mut vec![], &mut ns.clone(), &mut |o| out.push(mk(o)));
            }
            Ok(out)
        }),
    );
}
/// unknown disk contents range over every sub-map of the address-keyed maps in the current state
pub fn submap_hook(c: &mut Ctx) {
    let next = c.enum_hook.clone();
    c.enum_hook = Some(Rc::new(move |c: &mut Ctx, ty: &Ty, fr: Fr, hint: Sym| {
        if let Ty::Named(n, args) = ty {
            if &*name(*n.last().unwrap()) == "Map" && args.len() == 2 && crate::solve::ty_str(&args[0]).ends_with("Address") {
                let mut all: BTreeMap<V, V> = BTreeMap::new();
                if let Some(p) = c.cur_pre.clone() {
                    let want = crate::solve::ty_str(&args[1]);
                    collect(&p, &mut |v| {
                        if let V::Map(m) = v {
                            for (k, x) in m.iter() {
                                let kd = k.as_data().map_or(false, |d| &*name(d.ctor.name) == "Address");
                                let td = x.as_data().map_or(false, |d| want.ends_with(&*name(d.ctor.name)));
                                if kd && td {
                                    all.insert(k.clone(), x.clone());
                                }
                            }
                        }
                    });
                }
                if all.len() > 10 {
                    return Err(Ctl::Err(format!("{} blocks: too many sub-maps", all.len())));
                }
                let items: Vec<(V, V)> = all.into_iter().collect();
                let mut out = vec![];
                for mask in 0..1u32 << items.len() {
                    out.push(V::map(items.iter().enumerate().filter(|(i, _)| mask >> i & 1 == 1).map(|(_, x)| x.clone())));
                }
                return Ok(Some(out));
            }
        }
        if let Ty::Named(n, args) = ty {
            if &*name(*n.last().unwrap()) == "Map" && args.len() == 2 && crate::solve::ty_str(&args[0]).ends_with("LSN") {
                // last resort for a message map nothing constrains: every stretch of the messages
                // in the state, right and with one message exchanged
                let want = crate::solve::ty_str(&args[1]);
                let mut all: BTreeMap<V, V> = BTreeMap::new();
                if let Some(p) = c.cur_pre.clone() {
                    collect(&p, &mut |v| {
                        if let V::Map(m) = v {
                            for (k, x) in m.iter() {
                                let td = match x.as_data() {
                                    Some(d) => want.ends_with(&*name(d.ctor.name)),
                                    None => want.ends_with("AU") && matches!(x, V::Int(_)),
                                };
                                if matches!(k, V::Int(_)) && td {
                                    all.insert(k.clone(), x.clone());
                                }
                            }
                        }
                    });
                }
                let ks: Vec<i128> = all.keys().map(int_of).collect();
                let mut out: BTreeSet<V> = BTreeSet::new();
                out.insert(V::map(vec![]));
                for a in 0..ks.len() {
                    for b in a..ks.len() {
                        let m: BTreeMap<V, V> = all.iter().filter(|(k, _)| int_of(k) >= ks[a] && int_of(k) <= ks[b]).map(|(k, v)| (k.clone(), v.clone())).collect();
                        out.insert(V::Map(Rc::new(m.clone())));
                        let first = m.keys().next().unwrap().clone();
                        if let Some(o) = all.values().find(|v| **v != m[&first]) {
                            let mut w = m.clone();
                            w.insert(first, o.clone());
                            out.insert(V::Map(Rc::new(w)));
                        }
                    }
                }
                return Ok(Some(out.into_iter().collect()));
            }
        }
        match &next {
            Some(h) => h(c, ty, fr, hint),
            None => Ok(None),
        }
    }));
}
/// allocation units are numbered from here, apart from log positions and page numbers
pub const AU0: i128 = 20;
/// all renamings of the AUs (and, when page order within an AU is meaningless, of the pages)
pub fn au_perms(aus: i128) -> Vec<BTreeMap<V, V>> {
    perms(&(AU0..AU0 + aus).map(V::Int).collect::<Vec<_>>())
}
/// every renaming of AUs combined with every renaming of the pages inside each of them
pub fn page_perms(c: &Ctx, aus: i128, pages: i128) -> Vec<BTreeMap<V, V>> {
    let all = |n: i128| {
        let xs: Vec<V> = (0..n).map(V::Int).collect();
        let mut v: Vec<Vec<i128>> = vec![(0..n).collect()];
        v.extend(perms(&xs).into_iter().map(|p| xs.iter().map(|x| crate::h_system::int_of(&p[x])).collect()));
        v
    };
    let (pa, pp) = (all(aus), all(pages));
    let mut out = vec![];
    for a in &pa {
        let mut pick = vec![0usize; aus as usize];
        loop {
            let mut m = BTreeMap::new();
            for (i, j) in a.iter().enumerate() {
                m.insert(V::Int(AU0 + i as i128), V::Int(AU0 + j));
                for p in 0..pages {
                    m.insert(addr(c, AU0 + i as i128, p), addr(c, AU0 + j, pp[pick[i]][p as usize]));
                }
            }
            out.push(m);
            let mut i = 0;
            while i < pick.len() && pick[i] + 1 == pp.len() {
                pick[i] = 0;
                i += 1;
            }
            if i == pick.len() {
                break;
            }
            pick[i] += 1;
        }
    }
    out.into_iter().filter(|m| m.iter().any(|(a, b)| a != b)).collect()
}
pub fn perms(xs: &[V]) -> Vec<BTreeMap<V, V>> {
    fn go(cur: &mut Vec<V>, rest: &mut Vec<V>, out: &mut Vec<Vec<V>>) {
        if rest.is_empty() {
            out.push(cur.clone());
        }
        for i in 0..rest.len() {
            let x = rest.remove(i);
            cur.push(x);
            go(cur, rest, out);
            let x = cur.pop().unwrap();
            rest.insert(i, x);
        }
    }
    let mut o = vec![];
    go(&mut vec![], &mut xs.to_vec(), &mut o);
    o.into_iter().skip(1).map(|p| xs.iter().cloned().zip(p).collect()).collect()
}
pub fn addr(c: &Ctx, au: i128, page: i128) -> V {
    data(c, "spec::AsyncDisk_t", "Address", "Address", vec![V::Int(au), V::Int(page)])
}
pub fn disk_universe(c: &mut Ctx, aus: i128, pages: i128) {
    let mut v = vec![];
    let (lo, hi) = (AU0, AU0 + aus);
    for a in lo..hi {
        for p in 0..pages {
            v.push(addr(c, a, p));
        }
    }
    submap_hook(c);
    c.set_univ("Address", v);
    c.set_univ("AU", (lo..hi).map(V::Int).collect());
    c.set_override("spec::AsyncDisk_t::page_count", Rc::new(move |_, _| Ok(Some(V::Int(pages)))));
    c.set_override("spec::AsyncDisk_t::au_count", Rc::new(move |_, _| Ok(Some(V::Int(hi)))));
}
