//! Explorations of compiled code: a harness of /verif is built with the repository's own sources and run;
//! it enumerates, compares with its oracle, and reports in lines (VIOL / BOUNDS / OUTCOME / DONE).
use crate::checks::*;
use crate::explore::Report;
use std::path::PathBuf;
use std::process::Command;
use std::sync::{Arc, OnceLock};
use std::time::{Duration, Instant};

pub struct Tmp(pub PathBuf);
impl Tmp {
    pub fn new(tag: &str) -> Result<Tmp, String> {
        let p = std::env::temp_dir().join(format!("mc-{}-{}", tag, std::process::id()));
        let _ = std::fs::remove_dir_all(&p);
        std::fs::create_dir_all(&p).map_err(|e| e.to_string())?;
        Ok(Tmp(p))
    }
}
impl Drop for Tmp {
    fn drop(&mut self) {
        let _ = std::fs::remove_dir_all(&self.0);
    }
}
pub type Built = Result<(Tmp, PathBuf), String>;
pub fn run_cmd(c: &mut Command, limit: Duration) -> Result<(Option<i32>, String), String> {
    use std::io::Read;
    let mut ch = c.stdout(std::process::Stdio::piped()).stderr(std::process::Stdio::piped()).stdin(std::process::Stdio::null()).spawn().map_err(|e| format!("{:?}: {}", c, e))?;
    let mut o = ch.stdout.take().unwrap();
    let mut e = ch.stderr.take().unwrap();
    let h = std::thread::spawn(move || {
        let mut b = vec![];
        let _ = o.read_to_end(&mut b);
        b
    });
    let h2 = std::thread::spawn(move || {
        let mut b = vec![];
        let _ = e.read_to_end(&mut b);
        b
    });
    let t0 = Instant::now();
    let code = loop {
        if let Some(s) = ch.try_wait().map_err(|e| e.to_string())? {
            break Some(s.code());
        }
        if t0.elapsed() > limit {
            let _ = ch.kill();
            let _ = ch.wait();
            break None;
        }
        std::thread::sleep(Duration::from_millis(20));
    };
    let out = String::from_utf8_lossy(&h.join().unwrap_or_default()).into_owned();
    let err = String::from_utf8_lossy(&h2.join().unwrap_or_default()).into_owned();
    match code {
        None => Err("TIMEOUT".to_string() + &out),
        Some(c) => Ok((c, format!("{}\u{0}{}", out, err))),
    }
}
/// A job that runs `args` of a built harness. A harness that dies or hangs while running repository code is a violation.
pub fn harness_job(name: &str, built: Arc<OnceLock<Built>>, build: fn() -> Built, args: &[&str], limit: u64, required: &[&str]) -> Job {
    let args: Vec<String> = args.iter().map(|s| s.to_string()).collect();
    let required: Vec<String> = required.iter().map(|s| s.to_string()).collect();
    job(name, move || {
        let b = built.get_or_init(build);
        let (_, bin) = b.as_ref().map_err(|e| e.clone())?;
        let t0 = Instant::now();
        let mut out = RunOut { required, ..Default::default() };
        let (code, text) = match run_cmd(Command::new(bin).args(&args), Duration::from_secs(limit)) {
            Ok(x) => x,
            Err(e) if e.starts_with("TIMEOUT") => {
                out.rep.violation = Some((format!("the code under test does not finish within {} s", limit), vec![format!("{} {:?}", bin.display(), args)]));
                return Ok(out);
            }
            Err(e) => return Err(e),
        };
        let (so, se) = text.split_once('\u{0}').unwrap_or((&text, ""));
        let mut viol: Vec<String> = vec![];
        let mut done = false;
        for l in so.lines() {
            if let Some(x) = l.strip_prefix("VIOL ") {
                viol.push(x.to_string());
            } else if let Some(x) = l.strip_prefix("BOUNDS ") {
                out.bounds = x.to_string();
            } else if let Some(x) = l.strip_prefix("OUTCOME ") {
                if let Some((n, c)) = x.rsplit_once('|') {
                    *out.outcomes.entry(n.into()).or_insert(0) += c.parse::<u64>().unwrap_or(0);
                }
            } else if let Some(x) = l.strip_prefix("DONE ") {
                let n: Vec<u64> = x.split_whitespace().filter_map(|y| y.parse().ok()).collect();
                out.rep = Report { states: n.first().copied().unwrap_or(0), transitions: n.get(1).copied().unwrap_or(0), depth: n.get(2).copied().unwrap_or(0) as u32, exhausted: true, ..Default::default() };
                done = true;
            } else if let Some(x) = l.strip_prefix("SAMPLE ") {
                out.rep.samples.push(x.chars().take(600).collect());
            }
        }
        out.rep.validated = out.rep.transitions;
        out.rep.wall = t0.elapsed().as_secs_f64();
        if !viol.is_empty() {
            out.rep.violation = Some((viol[0].clone(), viol));
        } else if !done {
            let tail: Vec<String> = so.lines().rev().take(3).chain(se.lines().rev().take(8)).map(|l| l.chars().take(300).collect()).collect();
            if code == Some(2) {
                return Err(format!("harness error: {:?}", tail));
            }
            out.rep.violation = Some((format!("the code under test crashed (exit {:?})", code), tail));
        }
        Ok(out)
    })
}
pub fn verif_dir() -> PathBuf {
    PathBuf::from(env!("CARGO_MANIFEST_DIR")).parent().unwrap().to_path_buf()
}
/// The marshalling harness, compiled by Verus (without verification) from the repository's own files.
pub fn build_marsh() -> Built {
    let t = Tmp::new("marsh")?;
    let src = crate::repo().join("Splinter/src");
    std::fs::copy(verif_dir().join("marsh/main.rs"), t.0.join("main.rs")).map_err(|e| e.to_string())?;
    for f in ["marshalling", "marshalling.rs"] {
        let s = src.join(f);
        if !s.exists() {
            return Err(format!("{} is missing", s.display()));
        }
        std::os::unix::fs::symlink(s, t.0.join(f)).map_err(|e| e.to_string())?;
    }
    let v = "/opt/veriftools/verus";
    let mut c = Command::new("verus");
    c.current_dir(&t.0).arg("--crate-type=bin");
    for x in ["builtin=V/libverus_builtin.rlib", "builtin_macros=V/libverus_builtin_macros.so", "state_machines_macros=V/libverus_state_machines_macros.so"] {
        c.arg("--extern").arg(x.replace("V/", &format!("{}/", v)));
    }
    c.args(["--no-verify", "--compile", "-C", "opt-level=1", "-C", "overflow-checks=on", "-o", "mh", "main.rs"]);
    let (code, text) = run_cmd(&mut c, Duration::from_secs(600))?;
    if code != Some(0) {
        let e: Vec<&str> = text.lines().filter(|l| l.starts_with("error")).take(5).collect();
        return Err(format!("marshalling harness does not build: {:?}", e));
    }
    let b = t.0.join("mh");
    Ok((t, b))
}
/// replaces the unwritten body of `fn name` (the first `unreached()` after it, if it comes before the next function)
fn fill_in(text: &str, name: &str, with: &str) -> String {
    if let Some(a) = text.find(&format!("fn {}(", name)) {
        let end = text[a + 3..].find("\npub ").map_or(text.len(), |e| a + 3 + e);
        if let Some(b) = text[a..end].find("unreached()") {
            return format!("{}{}{}", &text[..a + b], with, &text[a + b + "unreached()".len()..]);
        }
    }
    text.to_string()
}
/// rustc with the libraries of the installed Verus; without its ghost flag the macros erase all proof code
fn rustc_erased(dir: &std::path::Path) -> Command {
    let v = "/opt/veriftools/verus";
    let tc = std::fs::read_to_string(format!("{}/version.json", v)).ok().and_then(|t| t.split("\"toolchain\"").nth(1).and_then(|x| x.split('"').nth(1).map(|x| x.to_string()))).unwrap_or("1.98.1".into());
    let tc = tc.split('-').next().unwrap_or("1.98.1").to_string();
    let mut c = Command::new("rustc");
    c.current_dir(dir).env("RUSTC_BOOTSTRAP", "1").arg(format!("+{}", tc)).args(["--edition", "2021", "-A", "warnings", "-L", v, "-L"]).arg(format!("{}/deps", v));
    for (n, f) in [("builtin", "libverus_builtin.rlib"), ("builtin_macros", "libverus_builtin_macros.so"), ("state_machines_macros", "libverus_state_machines_macros.so")] {
        c.arg("--extern").arg(format!("{}={}/{}", n, v, f)).arg("--extern").arg(format!("verus_{}={}/{}", n, v, f));
    }
    c
}
/// Splinter's key-value store program, its proofs erased, over stand-ins for the client API and the
/// (unwritten) page format.
pub fn build_prog() -> Built {
    build_erased("prog", "main.rs")
}
/// The compiled page allocator, its proofs erased.
pub fn build_alloc() -> Built {
    build_erased("alloc", "alloc.rs")
}
fn build_erased(tag: &str, root: &str) -> Built {
    let t = Tmp::new(tag)?;
    let es = |e: std::io::Error| e.to_string();
    let src = crate::repo().join("Splinter/src");
    let own = verif_dir().join("prog");
    for (f, g) in [(root, "main.rs"), ("env.rs", "env.rs"), ("vstd_shim.rs", "vstd_shim.rs")] {
        std::fs::copy(own.join(f), t.0.join(g)).map_err(es)?;
    }
    for d in ["trusted", "implementation"] {
        std::fs::create_dir(t.0.join(d)).map_err(es)?;
        for f in std::fs::read_dir(src.join(d)).map_err(es)? {
            let f = f.map_err(es)?;
            std::fs::copy(f.path(), t.0.join(d).join(f.file_name())).map_err(es)?;
        }
    }
    std::fs::copy(own.join("ClientAPI_t.rs"), t.0.join("trusted/ClientAPI_t.rs")).map_err(es)?;
    let dl = t.0.join("implementation/DiskLayout_v.rs");
    let text = std::fs::read_to_string(&dl).map_err(es)?;
    let text = fill_in(&fill_in(&text, "marshall", "crate::env::marshall_page(sb)"), "unmarshall", "crate::env::unmarshall_page(raw_page)");
    std::fs::write(&dl, text).map_err(es)?;
    for f in std::fs::read_dir(&src).map_err(es)? {
        let f = f.map_err(es)?;
        let to = t.0.join(f.file_name());
        if f.file_name() != "main.rs" && !to.exists() {
            std::os::unix::fs::symlink(f.path(), to).map_err(es)?;
        }
    }
    let v = "/opt/veriftools/verus";
    let steps: [&[&str]; 2] = [
        &["--crate-type", "rlib", "--crate-name", "vstd", "-C", "metadata=shim", "vstd_shim.rs", "--extern", "vstd=V/libvstd.rlib", "-o", "libvstd_shim.rlib"],
        &["main.rs", "--extern", "vstd=libvstd_shim.rlib", "-C", "opt-level=1", "-C", "overflow-checks=on", "-o", "ph"],
    ];
    for a in steps {
        let mut c = rustc_erased(&t.0);
        c.args(a.iter().map(|x| x.replace("V/", &format!("{}/", v))));
        let (code, text) = run_cmd(&mut c, Duration::from_secs(600))?;
        if code != Some(0) {
            let e: Vec<&str> = text.lines().filter(|l| l.starts_with("error") || l.trim_start().starts_with("-->")).take(6).collect();
            return Err(format!("program harness does not build: {:?}", e));
        }
    }
    let b = t.0.join("ph");
    Ok((t, b))
}
