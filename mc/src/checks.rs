//! Check registry, driver, evidence.
use crate::explore::*;
use std::collections::BTreeMap;
use std::fmt::Write as _;

#[derive(Clone, Copy, PartialEq)]
pub enum Tier {
    Quick,
    Thorough,
}
/// what one exploration covered; plain data, so it can leave its thread
#[derive(Default)]
pub struct RunOut {
    pub bounds: String,
    pub rep: Report,
    pub outcomes: BTreeMap<String, u64>,
    /// outcomes that a complete exploration must contain (absence = the behaviour was lost)
    pub required: Vec<String>,
}
pub struct Job {
    pub name: String,
    pub f: Box<dyn FnOnce() -> Result<RunOut, String> + Send>,
}
pub fn job(name: &str, f: impl FnOnce() -> Result<RunOut, String> + Send + 'static) -> Job {
    Job { name: name.into(), f: Box::new(f) }
}
pub fn js(s: &str) -> String {
    let mut o = String::from("\"");
    for c in s.chars() {
        match c {
            '"' => o.push_str("\\\""),
            '\\' => o.push_str("\\\\"),
            '\n' => o.push_str("\\n"),
            c if (c as u32) < 32 => {
                let _ = write!(o, "\\u{:04x}", c as u32);
            }
            c => o.push(c),
        }
    }
    o.push('"');
    o
}
fn jmap(m: &BTreeMap<String, u64>) -> String {
    format!("{{{}}}", m.iter().map(|(k, v)| format!("{}:{}", js(k), v)).collect::<Vec<_>>().join(","))
}
pub struct Info {
    pub id: &'static str,
    pub assumptions: &'static [&'static str],
}

pub fn run(id: &str, tier: Tier, jobs: Vec<Job>, assumptions: &[&str], out_dir: &str) -> i32 {
    let t0 = std::time::Instant::now();
    let n = jobs.len();
    let width = std::env::var("MC_JOBS").ok().and_then(|x| x.parse().ok()).unwrap_or(8usize).max(1);
    let queue = std::sync::Arc::new(std::sync::Mutex::new(jobs.into_iter().enumerate().collect::<std::collections::VecDeque<_>>()));
    let (tx, rx) = std::sync::mpsc::channel();
    let mut hs = vec![];
    for _ in 0..width.min(n) {
        let (q, tx) = (queue.clone(), tx.clone());
        hs.push(
            std::thread::Builder::new()
                .stack_size(2 << 30)
                .spawn(move || loop {
                    let Some((i, j)) = q.lock().unwrap().pop_front() else { return };
                    let name = j.name.clone();
                    let r = std::panic::catch_unwind(std::panic::AssertUnwindSafe(j.f)).unwrap_or_else(|e| {
                        Err(format!("panic: {}", e.downcast_ref::<String>().cloned().or(e.downcast_ref::<&str>().map(|s| s.to_string())).unwrap_or_default()))
                    });
                    tx.send((i, name, r)).unwrap();
                })
                .unwrap(),
        );
    }
    drop(tx);
    let mut res: Vec<_> = rx.into_iter().collect();
    for h in hs {
        let _ = h.join();
    }
    res.sort_by_key(|r| r.0);
    let (mut st, mut tr, mut val, mut ob) = (0, 0, 0, 0);
    let mut viol: Vec<(String, String, Vec<String>)> = vec![];
    let mut errs = vec![];
    let mut samples = vec![];
    let mut runs = vec![];
    let mut exhaustive = true;
    for (_, name, r) in &res {
        match r {
            Err(e) => errs.push(format!("{}: {}", name, e)),
            Ok(r) => {
                st += r.rep.states;
                tr += r.rep.transitions;
                val += r.rep.validated;
                ob += r.rep.obligations;
                exhaustive &= r.rep.exhausted;
                if let Some((e, t)) = &r.rep.violation {
                    viol.push((name.clone(), e.clone(), t.clone()));
                } else if r.rep.exhausted {
                    for q in &r.required {
                        if r.outcomes.get(q).copied().unwrap_or(0) == 0 {
                            viol.push((name.clone(), format!("in no explored behaviour did this happen: {}", q), vec![format!("bounds: {}", r.bounds), format!("outcomes: {:?}", r.outcomes), format!("steps taken: {:?}", r.rep.fired)]));
                        }
                    }
                }
                for s in r.rep.samples.iter().take(2) {
                    let s: String = s.chars().take(1500).collect();
                    samples.push(js(&format!("[{}] {}", name, s)));
                }
                println!("{} {}: {} states, {} transitions, depth {}, {}{:.1}s [{}]", id, name, r.rep.states, r.rep.transitions, r.rep.depth, if r.rep.exhausted { "complete, " } else { "bounded, " }, r.rep.wall, r.bounds);
                runs.push(format!(
                    "{{\"name\":{},\"bounds\":{},\"states\":{},\"transitions\":{},\"depth\":{},\"complete\":{},\"obligations_discharged\":{},\"outcomes\":{},\"steps_fired\":{}}}",
                    js(name), js(&r.bounds), r.rep.states, r.rep.transitions, r.rep.depth, r.rep.exhausted, r.rep.obligations, jmap(&r.outcomes), jmap(&r.rep.fired)
                ));
            }
        }
    }
    samples.truncate(12);
    // listed findings are reported, and do not fail the check
    let _ = std::fs::create_dir_all(out_dir);
    let known = std::fs::read_to_string(format!("{}/../known-findings.txt", out_dir)).unwrap_or_default();
    let known: Vec<&str> = known.lines().filter_map(|l| l.strip_prefix(&format!("finding: property={} key=", id))).map(|l| l.trim()).collect();
    viol.retain(|(n, e, _)| {
        let k = format!("{}: {}", n, e);
        let hit = known.iter().any(|x| *x == k);
        if hit {
            println!("KNOWN-FINDING: property={} {}", id, k);
        }
        !hit
    });
    let ev = format!(
        "{{\"property\":{},\"tier\":{},\"seed\":{},\"level\":\"model_checking\",\"coverage\":{{\"states\":{},\"transitions\":{},\"traces_validated_against_impl\":{},\"obligations_checked\":{},\"exhaustive\":{},\"runs\":[{}],\"errors\":[{}],\"samples\":[{}]}},\"assumptions\":[{}],\"wall_s\":{:.2},\"violations\":{}}}\n",
        js(id),
        if tier == Tier::Quick { "\"quick\"" } else { "\"thorough\"" },
        std::env::var("VERIF_SEED").ok().and_then(|x| x.parse::<i64>().ok()).unwrap_or(1),
        st,
        tr,
        val,
        ob,
        exhaustive,
        runs.join(","),
        errs.iter().map(|e| js(e)).collect::<Vec<_>>().join(","),
        samples.join(","),
        assumptions.iter().map(|e| js(e)).collect::<Vec<_>>().join(","),
        t0.elapsed().as_secs_f64(),
        viol.len()
    );
    let _ = std::fs::create_dir_all(out_dir);
    let evp = format!("{}/{}.json", out_dir, id);
    if let Err(e) = std::fs::write(&evp, ev) {
        eprintln!("cannot write {}: {}", evp, e);
        return 2;
    }
    for e in &errs {
        eprintln!("CHECK-ERROR {}: {}", id, e);
    }
    if !viol.is_empty() {
        let rp = format!("{}/{}.replay.txt", out_dir, id);
        let mut s = String::new();
        for (n, e, t) in &viol {
            let _ = writeln!(s, "run {}\n{}", n, e);
            for x in t {
                let _ = writeln!(s, "    {}", x);
            }
        }
        let _ = writeln!(s, "re-run: mc/target/release/mc check {} (deterministic)", id);
        let _ = std::fs::write(&rp, s);
        for (n, e, _) in &viol {
            println!("{} {}: {}", id, n, e.chars().take(600).collect::<String>());
        }
        println!("VIOLATION property={} replay={}", id, rp);
        return 1;
    }
    if !errs.is_empty() {
        return 2;
    }
    println!("{}: held on {} states, {} transitions ({:.1}s)", id, st, tr, t0.elapsed().as_secs_f64());
    0
}
