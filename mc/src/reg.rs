//! The checks: which explorations decide which property, within which bounds.
use crate::checks::*;
use crate::eval::*;
use crate::explore::*;
use crate::h_system;
use std::time::Duration;

const V_ASSUME: &[&str] = &[
    "the Dafny sources are executed by the checker's own evaluator; the extern natives (linear sequences, arrays, CRC32C tables) are re-implemented in it",
    "block and node sizes are scaled down through the constants of the Bounds module",
    "the disk writes whole requests atomically, completes them in any order and loses any subset of the unfinished ones in a crash",
];
pub fn limits(tier: Tier, max_states: u64) -> Limits {
    Limits {
        max_states: if tier == Tier::Quick { max_states } else { max_states * 20 },
        max_depth: 10_000,
        time: Duration::from_secs(if tier == Tier::Quick { 100 } else { 800 }),
        validate: if tier == Tier::Quick { 500 } else { u64::MAX },
    }
}
pub fn er<T>(c: &Ctx, r: ER<T>) -> Result<T, String> {
    r.map_err(|e| {
        let mut s = format!("{:?}", e);
        if let Ctl::Stuck(i) = &e {
            s = format!("stuck on unknown {}", i);
        }
        let _ = c;
        s.chars().take(3000).collect()
    })
}

fn sys_job(tier: Tier, k: [i128; 6], max: u64) -> Job {
    let [keys, puts, queries, crashes, syncs, out] = k;
    let bounds = format!("{} keys, {} puts, {} queries + a probe query of every key at every point, {} crashes, {} syncs, {} outstanding requests", keys, puts, queries, crashes, syncs, out);
    job(&format!("system-{}k{}p{}q{}c{}s{}o", keys, puts, queries, crashes, syncs, out), move || {
        let p = crate::load_splinter()?;
        let mid = p.find_machine("abstract_system::AbstractCrashAwareSystem_v", "CoordinationSystem").ok_or("CoordinationSystem not found")?;
        let mut c = Ctx::new(p.clone());
        let b = h_system::Bounds { keys, puts, queries, crashes, syncs, outstanding: out as usize };
        h_system::basic_universes(&mut c, keys, puts);
        h_system::sys_universes(&mut c);
        let mut m = h_system::SystemModel { mid, b, wrapped: true, outcomes: Default::default() };
        let r = explore(&mut c, mid, &mut m, &limits(tier, max));
        let rep = er(&c, r)?;
        let mut required: Vec<String> = ["put executed", "query executed"].iter().map(|s| s.to_string()).collect();
        if crashes > 0 {
            required.push("crash with unsynced puts".into());
        }
        if syncs > 0 {
            required.push("sync acknowledged".into());
            required.push("sync made unsynced puts durable".into());
        }
        Ok(RunOut { bounds, rep, outcomes: m.outcomes, required })
    })
}

fn spec_job(tier: Tier, k: [i128; 6], max: u64) -> Job {
    let [keys, puts, queries, crashes, syncs, out] = k;
    let bounds = format!("{} keys, {} puts, {} queries + a probe query of every key at every point, {} crashes, {} syncs, {} outstanding requests", keys, puts, queries, crashes, syncs, out);
    job(&format!("spec-{}k{}p{}q{}c{}s{}o", keys, puts, queries, crashes, syncs, out), move || {
        let p = crate::load_splinter()?;
        let mid = p.find_machine("spec::MapSpec_t", "CrashTolerantAsyncMap").ok_or("CrashTolerantAsyncMap not found")?;
        let mut c = Ctx::new(p.clone());
        let b = h_system::Bounds { keys, puts, queries, crashes, syncs, outstanding: out as usize };
        h_system::basic_universes(&mut c, keys, puts);
        crate::h_impl::version_universe(&mut c);
        let mut m = h_system::SystemModel { mid, b, wrapped: false, outcomes: Default::default() };
        let r = explore(&mut c, mid, &mut m, &limits(tier, max));
        let rep = er(&c, r)?;
        let mut required: Vec<String> = ["put executed", "query executed"].iter().map(|s| s.to_string()).collect();
        if crashes > 0 {
            required.push("crash with unsynced puts".into());
        }
        if syncs > 0 {
            required.push("sync acknowledged".into());
            required.push("sync made unsynced puts durable".into());
        }
        Ok(RunOut { bounds, rep, outcomes: m.outcomes, required })
    })
}
fn impl_job(tier: Tier, k: [i128; 6], max: u64) -> Job {
    let [keys, puts, queries, crashes, syncs, out] = k;
    let bounds = format!("{} keys, {} puts, {} queries + a probe query of every key at every point, {} crashes, {} syncs, {} outstanding requests", keys, puts, queries, crashes, syncs, out);
    job(&format!("program-{}k{}p{}q{}c{}s{}o", keys, puts, queries, crashes, syncs, out), move || {
        let p = crate::load_splinter()?;
        let mid = p.find_machine("trusted::SystemModel_t", "SystemModel").ok_or("SystemModel not found")?;
        let mut c = Ctx::new(p.clone());
        let b = h_system::Bounds { keys, puts, queries, crashes, syncs, outstanding: out as usize };
        h_system::basic_universes(&mut c, keys, puts);
        crate::h_impl::universes(&mut c)?;
        let mut m = crate::h_impl::ImplModel { mid, b, outcomes: Default::default() };
        let r = explore(&mut c, mid, &mut m, &limits(tier, max));
        let rep = er(&c, r)?;
        let mut required: Vec<String> = ["put executed", "query executed", "superblock read"].iter().map(|s| s.to_string()).collect();
        if crashes > 0 {
            required.push("crash with unsynced puts".into());
        }
        if syncs > 0 {
            required.push("sync acknowledged".into());
            required.push("sync made unsynced puts durable".into());
        }
        Ok(RunOut { bounds, rep, outcomes: m.outcomes, required })
    })
}

fn cj_job(tier: Tier, k: [i128; 7], max: u64) -> Job {
    let [lsns, discards, freezes, crashes, pages, slots, inflight] = k;
    let bounds = format!("{} log positions, {} discards, {} freezes, {} crashes, {} pages, {} cache slots, {} disk operations in flight", lsns, discards, freezes, crashes, pages, slots, inflight);
    job(&format!("cached-{}l{}d{}f{}c{}p{}s{}i", lsns, discards, freezes, crashes, pages, slots, inflight), move || {
        use crate::h_cjournal::*;
        use crate::h_journal::{addr, perms, AU0};
        use crate::value::V;
        let p = crate::load_splinter()?;
        let find = |m: &str, n: &str| p.find_machine(m, n).ok_or(format!("{} not found", n));
        let mid = find("implementation::JournalCoordinationSystem_v", "JournalCoordinationSystem")?;
        let (cache, disk) = (find("implementation::Cache_v", "Cache")?, find("spec::AsyncDisk_t", "AsyncDisk")?);
        let mut c = Ctx::new(p.clone());
        let b = CjBounds { lsns, discards, freezes, crashes, pages, slots, inflight: inflight as usize };
        crate::h_journal::ranking_universe(&mut c);
        let blank = universes(&mut c, &b)?;
        // pages, slots and request ids are interchangeable
        let id = |v: Vec<V>| {
            let mut p = perms(&v);
            p.push(v.iter().map(|x| (x.clone(), x.clone())).collect());
            p
        };
        let mut syms = vec![];
        for x in id((0..pages).map(|p| addr(&c, AU0, p)).collect()) {
            for y in id((0..slots).map(|s| V::Int(SLOT0 + s)).collect()) {
                for z in id((0..inflight).map(|i| V::Int(ID0 + i)).collect()) {
                    let mut m = x.clone();
                    m.extend(y.clone());
                    m.extend(z.clone());
                    if m.iter().any(|(a, b)| a != b) {
                        syms.push(m);
                    }
                }
            }
        }
        let mut model = CjModel { mid, cache, disk, b, outcomes: Default::default(), syms, empty_cache: V::Undef, blank, last_full: false };
        let r = explore(&mut c, mid, &mut model, &limits(tier, max));
        let rep = er(&c, r)?;
        let mut req = vec!["put", "record written", "write-back completed", "page loaded", "page evicted", "freeze of a non-empty journal", "recovery read"];
        if crashes > 0 {
            req.push("recovery of a non-empty journal");
        }
        if discards > 0 {
            req.push("discard");
        }
        let required = req.iter().map(|s| s.to_string()).collect();
        Ok(RunOut { bounds, rep, outcomes: model.outcomes, required })
    })
}

fn branch_job(tier: Tier, kind: crate::h_branch::BrKind, k: [i128; 7], max: u64) -> Job {
    use crate::h_branch::*;
    let [keys, inserts, appends, grows, splits, aus, pages] = k;
    let bounds = format!("{} keys, {} inserts, {} appends, {} grows, {} splits, {} AUs of {} pages", keys, inserts, appends, grows, splits, aus, pages);
    job(&format!("branch-{:?}-{}k{}i{}a{}g{}s{}x{}", kind, keys, inserts, appends, grows, splits, aus, pages), move || {
        let p = crate::load_splinter()?;
        let mut c = Ctx::new(p.clone());
        c.nat_max = keys;
        crate::h_system::basic_universes(&mut c, keys + 1, 4);
        crate::h_journal::ranking_universe(&mut c);
        crate::h_journal::disk_universe(&mut c, aus, pages);
        let mut m = BrModel { mid: 0, kind, b: BrBounds { keys, inserts, appends, grows, splits, aus, pages }, outcomes: Default::default(), syms: if kind == BrKind::Alloc { crate::h_journal::page_perms(&c, aus, pages) } else { vec![] } };
        let r = explore(&mut c, 0, &mut m, &limits(tier, max));
        let rep = er(&c, r)?;
        let mut req = vec!["leaf split", "grow", "append"];
        if kind == BrKind::Alloc {
            req.extend(["tree started", "fill", "seal of a leaf", "seal of an index tree"]);
        } else {
            req.extend(["key overwritten", "key inserted"]);
        }
        if grows > 1 {
            req.push("index split");
        }
        Ok(RunOut { bounds, rep, outcomes: m.outcomes, required: req.iter().map(|s| s.to_string()).collect() })
    })
}

fn alloc_job(tier: Tier, aus: i128, pages: i128, max: u64) -> Job {
    job(&format!("allocator-{}x{}", aus, pages), move || {
        let p = crate::load_splinter()?;
        let mut c = Ctx::new(p.clone());
        c.nat_max = pages + 1;
        crate::h_journal::disk_universe(&mut c, aus, pages);
        let syms = crate::h_journal::page_perms(&c, aus, pages);
        let mut m = crate::h_alloc::AlModel { aus, pages, outcomes: Default::default(), syms };
        let r = explore(&mut c, 0, &mut m, &limits(tier, max));
        let rep = er(&c, r)?;
        let req = ["units added", "units added again", "units given up", "page allocated", "unit used up", "page observed", "unreserve", "unobserve", "free", "reserve", "observe", "unobserve_all"];
        Ok(RunOut { bounds: format!("{} units of {} pages, operation sequences of any length", aus, pages), rep, outcomes: m.outcomes, required: req.iter().map(|s| s.to_string()).collect() })
    })
}

use crate::h_journal::Kind;
fn journal_job(tier: Tier, kind: Kind, b: [i128; 6], max: u64) -> Job {
    let [lsns, discards, freezes, crashes, aus, pages] = b;
    let bounds = format!("{} log positions, {} discards, {} freezes, {} crashes, {} AUs of {} pages", lsns, discards, freezes, crashes, aus, pages);
    job(&format!("journal-{:?}-{}l{}d{}f{}c{}x{}", kind, lsns, discards, freezes, crashes, aus, pages), move || {
        let p = crate::load_splinter()?;
        let (m, n) = match kind {
            Kind::Abstract => ("abstract_system::AbstractJournal_v", "AbstractJournal"),
            Kind::Paged => ("journal::PagedJournal_v", "PagedJournal"),
            Kind::Linked => ("journal::LinkedJournal_v", "LinkedJournal"),
            Kind::Likes => ("allocation_layer::LikesJournal_v", "LikesJournal"),
            Kind::Alloc => ("allocation_layer::AllocationJournal_v", "AllocationJournal"),
        };
        let mid = p.find_machine(m, n).ok_or(format!("{} not found", n))?;
        let mut c = Ctx::new(p.clone());
        c.nat_max = lsns + 1;
        crate::h_journal::ranking_universe(&mut c);
        crate::h_journal::disk_universe(&mut c, aus, pages);
        use crate::h_journal::*;
        let syms = match kind {
            Kind::Linked | Kind::Likes => perms(&(AU0..AU0 + aus).flat_map(|a| (0..pages).map(move |p| (a, p))).map(|(a, p)| addr(&c, a, p)).collect::<Vec<_>>()),
            Kind::Alloc => au_perms(aus),
            _ => vec![],
        };
        let mut model = JModel { mid, kind, b: JBounds { lsns, discards, freezes, crashes, pages, aus }, outcomes: Default::default(), syms };
        let r = explore(&mut c, mid, &mut model, &limits(tier, max));
        let rep = er(&c, r)?;
        let required = ["put", "freeze for commit", "discard", "recovery read", "internal step", "recovery of a non-empty journal"].iter().map(|s| s.to_string()).collect();
        Ok(RunOut { bounds, rep, outcomes: model.outcomes, required })
    })
}

use crate::h_cajournal::{CaKind, CaModel};
fn ca_job(tier: Tier, kind: CaKind, b: [i128; 6], max: u64) -> Job {
    let [lsns, commits, crashes, fills, aus, pages] = b;
    let bounds = format!("{} log positions, {} commits, {} crashes, {} AU allocations per epoch, {} AUs of {} pages", lsns, commits, crashes, fills, aus, pages);
    job(&format!("cajournal-{:?}-{}l{}c{}x{}f{}a{}p", kind, lsns, commits, crashes, fills, aus, pages), move || {
        let p = crate::load_splinter()?;
        let (m, n) = match kind {
            CaKind::Abstract => ("abstract_system::AbstractCrashAwareJournal_v", "CrashTolerantJournal"),
            CaKind::Alloc => ("allocation_layer::AllocationCrashAwareJournal_v", "AllocationCrashAwareJournal"),
            CaKind::Unified => ("allocation_layer::UnifiedCrashAwareJournal_v", "UnifiedCrashAwareJournal"),
        };
        let mid = p.find_machine(m, n).ok_or(format!("{} not found", n))?;
        let mut c = Ctx::new(p.clone());
        c.nat_max = lsns + 1;
        crate::h_journal::ranking_universe(&mut c);
        crate::h_journal::disk_universe(&mut c, aus, pages);
        if kind == CaKind::Abstract {
            h_system::sys_universes(&mut c);
        }
        let syms = if kind == CaKind::Abstract { vec![] } else { crate::h_journal::au_perms(aus) };
        let mut model = CaModel { mid, kind, lsns, commits, crashes, fills, aus, syms, outcomes: Default::default(), last: 0 };
        let r = explore(&mut c, mid, &mut model, &limits(tier, max));
        let rep = er(&c, r)?;
        let mut required = vec!["put", "load", "commit completed", "commit that truncates the log", "recovery read", "sync acknowledged", "crash that keeps the commit in flight", "crash that loses messages"];
        if kind != CaKind::Abstract {
            required.extend(["allocation", "allocation unit freed by truncation", "unused allocation unit returned"]);
        }
        Ok(RunOut { bounds, rep, outcomes: model.outcomes, required: required.into_iter().map(|s| s.to_string()).collect() })
    })
}

use crate::h_betree::{BBounds, BModel, Pre, Tree};
fn tree_job(tier: Tier, tree: Tree, b: BBounds, max: u64) -> Job {
    let bounds = format!("{}{} keys, {} puts, {} internal steps, {} crashes, height {}, {} AUs{}{}", if b.pre.is_empty() { String::new() } else { format!("after {:?}: ", b.pre) }, b.keys, b.puts, b.internals, b.crashes, b.height, b.aus, if b.compact { ", compaction" } else { "" }, if b.updates { ", update messages" } else { "" });
    job(&format!("tree-{:?}{}-{}k{}p{}i{}x{}h{}a{}{}", tree, b.pre.iter().map(|p| format!("{:?}", p).chars().next().unwrap()).collect::<String>(), b.keys, b.puts, b.internals, b.crashes, b.height, b.aus, if b.compact { "c" } else { "" }, if b.updates { "u" } else { "" }), move || {
        let p = crate::load_splinter()?;
        let (m, n) = tree.machine();
        let mid = p.find_machine(m, n).ok_or(format!("{} not found", n))?;
        let mut c = Ctx::new(p.clone());
        crate::h_betree::install(&mut c, tree, &b);
        let mut required = if b.pre.is_empty() { vec!["put", "query answered", "freeze of a non-empty tree", "tree grown", "data below the root"] } else { vec!["query answered", "freeze of a non-empty tree"] };
        if b.crashes > 0 {
            required.push("recovery from a frozen tree");
        }
        let mut model = BModel { pre_bad: None, mid, tree, b, outcomes: Default::default() };
        let r = explore(&mut c, mid, &mut model, &limits(tier, max));
        let rep = er(&c, r)?;
        Ok(RunOut { bounds, rep, outcomes: model.outcomes, required: required.into_iter().map(|s| s.to_string()).collect() })
    })
}

fn bbtree_job(tier: Tier, b: crate::h_bbtree::Bd, req: &[&str], max: u64) -> Job {
    use crate::h_bbtree::*;
    let bounds = format!("after {:?}: {} keys, {} puts, {} further steps, height {}, {} buffers being built, {} compactions", b.pre, b.keys, b.puts, b.steps, b.height, b.wip, b.compactors);
    let req: Vec<String> = req.iter().map(|s| s.to_string()).collect();
    job(&format!("branchtree-{}-{}k{}p{}s{}w{}c", b.pre.iter().map(|p| format!("{:?}", p).chars().filter(|c| c.is_ascii_uppercase() || c.is_ascii_digit()).collect::<String>() + if *p == Ap::Build { "u" } else { "" }).collect::<String>(), b.keys, b.puts, b.steps, b.wip, b.compactors), move || {
        let p = crate::load_splinter()?;
        let mid = p.find_machine(MM, "AllocationBranchBetree").ok_or("AllocationBranchBetree not found")?;
        let mut c = Ctx::new(p.clone());
        install(&mut c, &b);
        let mut model = BbModel { mid, b, outcomes: Default::default(), pre_bad: None };
        let r = explore(&mut c, mid, &mut model, &limits(tier, max));
        let rep = er(&c, r)?;
        Ok(RunOut { bounds, rep, outcomes: model.outcomes, required: req })
    })
}
/// root and one child below it, two buffers in the root
const TWO: &[Pre] = &[Pre::Grow, Pre::Grow, Pre::Put(0), Pre::Mem, Pre::Put(1), Pre::Mem];
/// two buffers in the root, both already flushed to the child
const FLUSHED: &[Pre] = &[Pre::Grow, Pre::Grow, Pre::Put(0), Pre::Mem, Pre::Down, Pre::Put(0), Pre::Mem, Pre::Down];
/// a root with two children that share buffers
const SPLIT: &[Pre] = &[Pre::Grow, Pre::Grow, Pre::Put(0), Pre::Mem, Pre::Put(1), Pre::Mem, Pre::Down, Pre::Split];
/// a root with two children, neither of which has received its buffers
const BOTH: &[Pre] = &[Pre::Grow, Pre::Grow, Pre::Split, Pre::Put(0), Pre::Mem, Pre::Put(1), Pre::Mem];
const PAGED: &[Pre] = &[Pre::Grow, Pre::Grow, Pre::Put(0), Pre::Mem, Pre::DownGc, Pre::Put(1), Pre::Mem];
/// two children with data and a newer buffer above them
const SPLIT_PIVOT: &[Pre] = &[Pre::Grow, Pre::Grow, Pre::Put(0), Pre::Mem, Pre::DownGc, Pre::Put(1), Pre::Mem, Pre::DownGc, Pre::Split, Pre::Put(0), Pre::Mem];

pub fn jobs(id: &str, tier: Tier) -> Option<(Vec<Job>, Vec<&'static str>)> {
    let th = tier == Tier::Thorough;
    Some(match id {
        "S01" => {
            let mut v = vec![sys_job(tier, [2, 2, 0, 1, 1, 1], 60_000), sys_job(tier, [1, 2, 0, 2, 1, 1], 60_000), sys_job(tier, [1, 1, 1, 1, 2, 2], 60_000), sys_job(tier, [1, 2, 0, 1, 1, 2], 60_000)];
            if th {
                v.push(sys_job(tier, [2, 3, 0, 1, 1, 1], 60_000));
                v.push(sys_job(tier, [1, 3, 0, 2, 1, 1], 60_000));
                v.push(sys_job(tier, [1, 2, 0, 1, 2, 2], 60_000));
                v.push(sys_job(tier, [2, 2, 1, 2, 1, 1], 60_000));
            }
            (v, vec!["keys, values, requests and syncs beyond the bounds behave like those inside them"])
        }
        "J01" => (vec![journal_job(tier, Kind::Abstract, [if th { 5 } else { 4 }, 2, 1, 2, 1, 1], 50_000), journal_job(tier, Kind::Paged, [if th { 4 } else { 3 }, 2, 1, 1, 1, 1], 50_000)], vec![]),
        "J02" => {
            let mut v = vec![journal_job(tier, Kind::Linked, [3, 1, 1, 1, 1, 3], 50_000), journal_job(tier, Kind::Likes, [3, 1, 1, 1, 1, 3], 50_000)];
            if th {
                v.push(journal_job(tier, Kind::Likes, [4, 2, 1, 1, 1, 3], 50_000));
                v.push(journal_job(tier, Kind::Linked, [4, 2, 1, 2, 1, 3], 50_000));
            }
            (v, vec![])
        }
        "J03" => {
            let mut v = vec![journal_job(tier, Kind::Alloc, [3, 1, 1, 1, 2, 2], 50_000), journal_job(tier, Kind::Alloc, [3, 2, 1, 1, 3, 1], 50_000)];
            if th {
                v.push(journal_job(tier, Kind::Alloc, [4, 2, 1, 1, 3, 2], 50_000));
            }
            (v, vec![])
        }
        "J04" => (vec![ca_job(tier, CaKind::Abstract, [4, 2, 2, 1, 1, 1], 50_000), ca_job(tier, CaKind::Abstract, [if th { 5 } else { 3 }, 3, 2, 1, 1, 1], 50_000)], vec![]),
        "J05" => {
            let mut v = vec![];
            for k in [CaKind::Alloc, CaKind::Unified] {
                v.push(ca_job(tier, k, [3, 2, 1, 2, 2, 2], 50_000));
                v.push(ca_job(tier, k, [3, 2, 2, 2, 3, 1], 50_000));
                v.push(ca_job(tier, k, [4, 1, 1, 3, 3, 2], 50_000));
                if th {
                    v.push(ca_job(tier, k, [4, 2, 2, 3, 3, 2], 50_000));
                }
            }
            (v, vec![])
        }
        "B01" => {
            let bb = |keys, puts, internals, crashes, height, updates, compact| BBounds { pre: &[], keys, puts, internals, crashes, height, aus: 1, garbage: 0, updates, compact };
            let pp = |pre, tree, puts, internals, height| tree_job(tier, tree, BBounds { pre, keys: 2, puts, internals, crashes: 0, height, aus: 1, garbage: 0, updates: false, compact: true }, 100_000);
            let mut v = vec![
                pp(TWO, Tree::Filtered, 2, 3, 3),
                pp(FLUSHED, Tree::Filtered, 3, 2, 3),
                pp(SPLIT, Tree::Filtered, 3, 2, 3),
                pp(BOTH, Tree::Filtered, 2, 2, 3),
                pp(PAGED, Tree::Paged, 3, 2, 3),
                pp(SPLIT_PIVOT, Tree::Pivot, 4, 4, 4),
                tree_job(tier, Tree::Paged, bb(2, 2, 3, 1, 2, true, false), 50_000),
                tree_job(tier, Tree::Pivot, bb(2, 2, 4, 1, 3, true, false), 50_000),
                tree_job(tier, Tree::Filtered, bb(2, 2, 4, 0, 3, true, false), 100_000),
                tree_job(tier, Tree::Filtered, bb(2, 2, 3, 1, 2, true, true), 50_000),
            ];
            if th {
                v.push(pp(FLUSHED, Tree::Filtered, 3, 3, 3));
                v.push(pp(SPLIT, Tree::Filtered, 3, 3, 3));
                v.push(tree_job(tier, Tree::Pivot, bb(3, 2, 5, 1, 3, true, false), 50_000));
                v.push(tree_job(tier, Tree::Paged, bb(2, 3, 4, 1, 3, true, false), 50_000));
                v.push(tree_job(tier, Tree::Filtered, bb(2, 2, 4, 1, 3, true, true), 50_000));
                v.push(tree_job(tier, Tree::Filtered, bb(2, 3, 5, 1, 3, false, false), 50_000));
            }
            (v, vec![])
        }
        "B02" => {
            let bb = |keys, puts, internals, crashes, height, aus, updates, compact| BBounds { pre: &[], keys, puts, internals, crashes, height, aus, garbage: if aus > 1 { 2 } else { 0 }, updates, compact };
            let pp = |pre, tree, puts, internals| tree_job(tier, tree, BBounds { pre, keys: 2, puts, internals, crashes: 0, height: 3, aus: 1, garbage: if tree == Tree::Alloc { 99 } else { 0 }, updates: false, compact: true }, 100_000);
            let mut v = vec![
                pp(TWO, Tree::Likes, 2, 1),
                pp(FLUSHED, Tree::Likes, 2, 1),
                pp(SPLIT, Tree::Likes, 2, 1),
                pp(BOTH, Tree::Likes, 2, 1),
                pp(TWO, Tree::Alloc, 2, 1),
                tree_job(tier, Tree::Likes, bb(2, 2, 3, 1, 3, 1, false, false), 50_000),
                tree_job(tier, Tree::Likes, bb(2, 1, 3, 1, 3, 1, false, true), 50_000),
                tree_job(tier, Tree::Alloc, bb(1, 2, 3, 0, 3, 2, false, true), 50_000),
                tree_job(tier, Tree::Alloc, bb(2, 2, 3, 0, 3, 2, false, false), 50_000),
            ];
            if th {
                v.push(pp(TWO, Tree::Likes, 2, 2));
                v.push(pp(FLUSHED, Tree::Likes, 2, 2));
                v.push(pp(SPLIT, Tree::Likes, 3, 2));
                v.push(pp(TWO, Tree::Alloc, 2, 2));
                v.push(pp(FLUSHED, Tree::Alloc, 2, 1));
                v.push(pp(SPLIT, Tree::Alloc, 2, 1));
                v.push(tree_job(tier, Tree::Alloc, bb(2, 1, 3, 0, 3, 2, false, true), 50_000));
                v.push(tree_job(tier, Tree::Likes, bb(2, 2, 4, 1, 3, 1, true, false), 50_000));
                v.push(tree_job(tier, Tree::Likes, bb(2, 2, 3, 1, 3, 1, false, true), 50_000));
                v.push(tree_job(tier, Tree::Alloc, bb(2, 2, 3, 0, 3, 2, false, true), 50_000));
            }
            (v, vec![])
        }
        "S02" => {
            let mut v = vec![spec_job(tier, [1, 2, 0, 1, 1, 1], 100_000), spec_job(tier, [1, 1, 1, 1, 1, 2], 100_000), spec_job(tier, [2, 1, 0, 1, 1, 1], 100_000), spec_job(tier, [1, 1, 0, 2, 2, 1], 100_000)];
            if th {
                v.push(spec_job(tier, [2, 2, 1, 1, 1, 2], 100_000));
                v.push(spec_job(tier, [1, 3, 0, 2, 1, 1], 100_000));
                v.push(spec_job(tier, [1, 2, 0, 2, 2, 2], 100_000));
            }
            (v, vec![])
        }
        "I01" => {
            let mut v = vec![impl_job(tier, [1, 2, 0, 1, 1, 1], 100_000), impl_job(tier, [1, 1, 1, 1, 1, 2], 100_000), impl_job(tier, [2, 1, 0, 1, 2, 1], 100_000), impl_job(tier, [1, 1, 0, 2, 1, 1], 100_000), impl_job(tier, [2, 2, 0, 1, 0, 1], 100_000)];
            if th {
                v.push(impl_job(tier, [2, 2, 0, 1, 1, 1], 100_000));
                v.push(impl_job(tier, [1, 2, 0, 2, 2, 1], 100_000));
                v.push(impl_job(tier, [2, 2, 1, 1, 1, 2], 100_000));
                v.push(impl_job(tier, [1, 3, 0, 2, 1, 1], 100_000));
            }
            (v, vec!["a superblock page holds exactly the superblock marshalled into it", "superblock writes are atomic"])
        }
        "I02" => {
            let mut v = vec![cj_job(tier, [1, 1, 1, 1, 2, 1, 1], 100_000), cj_job(tier, [2, 1, 1, 1, 2, 2, 1], 100_000), cj_job(tier, [3, 1, 1, 1, 2, 1, 1], 100_000), cj_job(tier, [1, 1, 1, 1, 2, 2, 2], 100_000)];
            if th {
                v.push(cj_job(tier, [2, 1, 1, 1, 2, 2, 2], 100_000));
                v.push(cj_job(tier, [3, 1, 1, 1, 2, 2, 1], 100_000));
            }
            (v, vec!["a journal page holds exactly the record marshalled into it", "page writes are atomic"])
        }
        "B03" => {
            use crate::h_branch::BrKind::*;
            let v = if th {
                vec![branch_job(tier, Pivot, [4, 2, 2, 2, 3, 1, 8], 900_000), branch_job(tier, Linked, [4, 2, 2, 2, 3, 1, 8], 900_000), branch_job(tier, Pivot, [3, 1, 1, 3, 4, 1, 10], 900_000), branch_job(tier, Linked, [3, 1, 1, 3, 4, 1, 10], 900_000), branch_job(tier, Alloc, [4, 0, 2, 1, 2, 2, 3], 900_000)]
            } else {
                vec![branch_job(tier, Pivot, [4, 1, 1, 2, 2, 1, 8], 100_000), branch_job(tier, Linked, [4, 1, 1, 2, 2, 1, 8], 100_000), branch_job(tier, Alloc, [4, 0, 1, 1, 1, 2, 3], 100_000)]
            };
            (v, vec!["keys and messages beyond the bounds behave like those inside them"])
        }
        "B04" => {
            use crate::h_bbtree::{Ap, Ap::*, Bd};
            let bd = |pre: &'static [Ap], keys, puts, steps, wip, compactors| Bd { pre, keys, puts, steps, height: 2, wip, compactors };
            let mut v = vec![bbtree_job(tier, bd(&[], 2, 1, 4, 1, 1), &["put", "query answered", "buffer begun", "memtable flushed", "buffer abandoned", "tree grown"], 100_000),
                bbtree_job(tier, bd(&[Grow, Put(0), Mem, Put(1), Mem], 2, 2, 2, 1, 1), &["compaction begun"], 100_000),
                bbtree_job(tier, bd(&[Grow, Put(0), Mem, Put(1), Mem, Begin, Build], 2, 2, 1, 1, 1), &["compaction completed", "several buffers compacted into one"], 100_000),
                bbtree_job(tier, bd(&[Grow, Put(0), Mem, Put(0), Mem, Begin, BuildAny], 2, 2, 1, 1, 1), &["compaction completed", "several buffers compacted into one"], 100_000),
                bbtree_job(tier, bd(&[Grow, Grow, Put(0), Mem, Put(1), Mem], 2, 2, 1, 1, 1), &["flush to a child", "child split"], 100_000),
                bbtree_job(tier, bd(&[Grow, Grow, Put(0), Mem, Begin, Build], 2, 1, 1, 1, 1), &["compaction completed"], 100_000),
                bbtree_job(tier, bd(&[Grow, Grow, Put(0), Mem, Begin, Build, DownGc], 2, 1, 1, 1, 1), &["compaction completed"], 100_000),
                bbtree_job(tier, bd(&[Grow, Put(0), Mem, Begin, Begin, Build], 2, 1, 2, 1, 2), &["buffer dropped by the tree while it is being compacted", "unit freed with the last reader"], 100_000),
                bbtree_job(tier, bd(&[Grow, Grow, Put(0), Mem, Down, Split, Begin, Build], 2, 1, 1, 1, 1), &["compaction completed"], 100_000),
                bbtree_job(tier, bd(&[Grow, Grow, Put(0), Mem, Begin, Split, Down, DownGc], 2, 1, 1, 1, 1), &["compaction abandoned"], 100_000),
            ];
            if th {
                v.extend([
                    bbtree_job(tier, bd(&[], 2, 1, 5, 1, 1), &["memtable flushed"], 900_000),
                    bbtree_job(tier, bd(&[], 1, 1, 4, 2, 1), &["memtable flushed"], 900_000),
                    bbtree_job(tier, bd(&[Grow, Put(0), Mem, Put(1), Mem, Begin, BuildAny], 2, 3, 2, 1, 1), &["compaction completed"], 900_000),
                    bbtree_job(tier, bd(&[Grow, Grow, Put(0), Mem, Put(1), Mem, Down], 2, 3, 2, 1, 1), &["child split"], 900_000),
                    bbtree_job(tier, bd(&[Grow, Grow, Put(0), Mem, Begin, BuildAny, Down, Split], 2, 1, 2, 1, 1), &["compaction completed"], 900_000),
                    bbtree_job(tier, bd(&[Grow, Put(0), Mem, Put(0), Mem, Begin, Begin, Build], 2, 2, 2, 1, 2), &["compaction completed"], 900_000),
                    bbtree_job(tier, bd(&[Grow, Grow, Put(0), Mem, DownGc, Put(1), Mem, Begin, Begin, Build], 2, 2, 2, 1, 2), &["compaction completed"], 900_000),
                ]);
            }
            (v, vec!["keys, messages and buffers beyond the bounds behave like those inside them"])
        }
        "V01" => (crate::h_vkv::jobs(crate::h_vkv::Fam::Crash, th), V_ASSUME.to_vec()),
        "V02" => (crate::h_vkv::jobs(crate::h_vkv::Fam::Read, th), V_ASSUME.to_vec()),
        "V03" => (crate::h_vkv::jobs(crate::h_vkv::Fam::Clone, th), V_ASSUME.to_vec()),
        "V04" => (crate::h_vkv::jobs(crate::h_vkv::Fam::Disk, th), V_ASSUME.to_vec()),
        "V05" => (crate::h_vkv::jobs(crate::h_vkv::Fam::Live, th), V_ASSUME.to_vec()),
        "A01" => {
            let mut v = vec![alloc_job(tier, 2, 2, 200_000), alloc_job(tier, 1, 4, 200_000)];
            if th {
                v.extend([alloc_job(tier, 3, 2, 900_000), alloc_job(tier, 2, 3, 900_000)]);
            }
            let built = std::sync::Arc::new(std::sync::OnceLock::new());
            v.push(crate::ext::harness_job("compiled", built, crate::ext::build_alloc, &[if th { "thorough" } else { "quick" }], 200, &["page allocated", "unit used up", "unit given up", "pages observed"]));
            (v, vec!["units and pages beyond the bounds behave like those inside them", "callers respect the stated preconditions"])
        }
        "I03" => {
            let built = std::sync::Arc::new(std::sync::OnceLock::new());
            let modes: &[(&str, &[&str])] = &[
                ("sync", &["all requests answered", "put answered", "sync answered", "no-op answered", "sync waits for the next write", "request and disk answer at once"]),
                ("crash", &["all requests answered", "crash with puts on disk", "crash during recovery", "puts lost at a crash", "write in flight lands at a crash"]),
                ("query", &[]),
            ];
            let v = modes.iter().map(|(m, r)| crate::ext::harness_job(m, built.clone(), crate::ext::build_prog, &[m, if th { "thorough" } else { "quick" }], if th { 700 } else { 120 }, r)).collect();
            (v, vec!["more requests and crashes than the bounds behave like those inside them", "the page format, which the repository leaves unwritten, stores and restores the superblock", "the disk answers each request once and applies a write before answering it"])
        }
        "M01" | "M02" => {
            let built = std::sync::Arc::new(std::sync::OnceLock::new());
            let modes: &[(&str, &[&str])] = if id == "M01" {
                &[("ints", &["value parsed back", "integers"]), ("uniform", &["value parsed back", "arbitrary bytes accepted"]), ("resizable", &["value parsed back", "arbitrary bytes accepted", "arbitrary bytes rejected"]), ("pairs", &["value parsed back", "arbitrary bytes accepted", "arbitrary bytes rejected"])]
            } else {
                &[("inplace", &["full", "count field exhausted", "sequences over arbitrary bytes"]), ("variable", &["variable-size exactly full", "arbitrary bytes well formed", "arbitrary bytes ill formed"])]
            };
            let v = modes.iter().map(|(m, r)| crate::ext::harness_job(m, built.clone(), crate::ext::build_marsh, &[m, if th { "thorough" } else { "quick" }], if th { 700 } else { 120 }, r)).collect();
            (v, vec!["element counts, sizes and byte values beyond the bounds behave like those inside them"])
        }
        _ => return None,
    })
}
