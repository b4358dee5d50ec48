#![allow(dead_code)]
mod ast;
mod builtins;
mod checks;
mod dafny;
mod dexec;
mod dnative;
mod dparse;
mod eval;
mod ext;
mod explore;
mod h_betree;
mod h_veri;
mod h_vkv;
mod h_cajournal;
mod h_alloc;
mod h_bbtree;
mod h_branch;
mod h_cjournal;
mod h_journal;
mod h_impl;
mod h_system;
mod lex;
mod prog;
mod reg;
mod solve;
mod value;
mod vparse;
use std::path::{Path, PathBuf};
use std::rc::Rc;

fn rs_files(root: &Path, d: &Path, out: &mut Vec<String>) {
    let mut es: Vec<_> = std::fs::read_dir(d).map(|r| r.filter_map(|e| e.ok()).collect()).unwrap_or_default();
    es.sort_by_key(|e: &std::fs::DirEntry| e.path());
    for e in es {
        let p = e.path();
        if p.is_dir() {
            rs_files(root, &p, out);
        } else if p.extension().map_or(false, |x| x == "rs") {
            out.push(p.strip_prefix(root).unwrap().to_string_lossy().into_owned());
        }
    }
}
pub fn repo() -> PathBuf {
    std::env::var("MC_REPO").map(PathBuf::from).unwrap_or_else(|_| PathBuf::from("/repo"))
}
pub fn load_splinter() -> Result<Rc<prog::Prog>, String> {
    load_splinter_and(&[])
}
/// Evaluate every parameterless predicate of a file against the sources: all must hold.
fn eval_file(f: &str) -> Result<bool, String> {
    let p = load_splinter_and(&[f.to_string()])?;
    let stem = f.trim_end_matches(".rs").rsplit('/').next().unwrap().to_string();
    let mut ok = true;
    let mut n = 0;
    for (i, d) in p.fns.iter().enumerate() {
        if d.all_params.is_empty() && d.full.starts_with(&format!("{}::check", stem)) {
            let mut c = eval::Ctx::new(p.clone());
            c.nat_max = 4;
            h_system::basic_universes(&mut c, 2, 2);
            let r = c.call_fn(i, vec![]).and_then(|v| c.ground(v));
            let good = matches!(&r, Ok(v) if format!("{:?}", v) == "true");
            println!("{} {}", d.full, if good { "holds".to_string() } else { format!("FAILS {:?}", r).chars().take(600).collect() });
            ok &= good;
            n += 1;
        }
    }
    if n == 0 {
        return Err(format!("no predicates in {}", f));
    }
    Ok(ok)
}
pub fn load_splinter_and(extra: &[String]) -> Result<Rc<prog::Prog>, String> {
    let root = repo().join("Splinter/src");
    let mut fs = vec![];
    rs_files(&root, &root, &mut fs);
    fs.retain(|f| !f.contains("resource-experiment") && !f.contains("model-exp"));
    fs.extend_from_slice(extra);
    let mut p = prog::Prog::load(&root, &fs)?;
    if let Some(t) = p.find_type("implementation::ConcreteProgramModel_v", "ConcreteProgramModel") {
        p.generics.insert(value::sym("ProgramModel"), t);
        p.path_cache.borrow_mut().clear();
    }
    Ok(Rc::new(p))
}
fn real_main() -> i32 {
    let a: Vec<String> = std::env::args().collect();
    match a.get(1).map(|s| s.as_str()) {
        Some("check") if a.len() > 2 => {
            let mut tier = if std::env::var("VERIF_TIER").map_or(false, |t| t == "thorough") { checks::Tier::Thorough } else { checks::Tier::Quick };
            let mut out = "evidence".to_string();
            let mut i = 3;
            while i < a.len() {
                match a[i].as_str() {
                    "--thorough" => tier = checks::Tier::Thorough,
                    "--out" => {
                        i += 1;
                        out = a[i].clone();
                    }
                    x => {
                        eprintln!("unknown argument {}", x);
                        return 2;
                    }
                }
                i += 1;
            }
            match reg::jobs(&a[2], tier) {
                Some((jobs, asm)) => checks::run(&a[2], tier, jobs, &asm, &out),
                None => {
                    eprintln!("no check for {}", a[2]);
                    2
                }
            }
        }
        Some("eval") if a.len() > 2 => match eval_file(&a[2]) {
            Ok(b) => !b as i32,
            Err(e) => {
                eprintln!("{}", e);
                2
            }
        },
        Some("vkv") if a.len() > 2 => match h_vkv::run_file(&a[2]) {
            Ok(b) => !b as i32,
            Err(e) => {
                eprintln!("{}", e);
                2
            }
        },
        Some("dparse") => {
            let (mut n, mut bad) = (0, 0);
            for f in &a[2..] {
                n += 1;
                match std::fs::read_to_string(f).map_err(|e| e.to_string()).and_then(|s| dparse::DP::new(&s, 0)) {
                    Ok(mut d) => {
                        d.file_decls();
                        for e in d.errors.iter().take(5) {
                            println!("{}: {}", f, e);
                        }
                        bad += d.errors.len();
                    }
                    Err(e) => {
                        bad += 1;
                        println!("{}: LEX {}", f, e)
                    }
                }
            }
            println!("{} files, {} errors", n, bad);
            0
        }
        Some("dload") if a.len() > 3 => {
            let fs: Vec<&str> = a[2].split(',').collect();
            let ms: Vec<&str> = a[3].split(',').collect();
            match dafny::Loader::load(&repo(), &fs, &ms) {
                Ok(p) => {
                    let bad = dafny::unresolved(&p);
                    println!("types {} fns {} methods {} files {} parse errors {} unresolved {}", p.types.len(), p.fns.len(), p.dafny.methods.len(), p.files.len(), p.parse_errors.len(), bad.len());
                    for e in p.parse_errors.iter().chain(bad.iter()).take(a.get(4).and_then(|x| x.parse().ok()).unwrap_or(20)) {
                        println!("  {}", e);
                    }
                    0
                }
                Err(e) => {
                    println!("ERR {}", e);
                    2
                }
            }
        }
        Some("vsmoke") => match h_veri::smoke() {
            Ok(()) => 0,
            Err(e) => {
                println!("ERR {}", e);
                2
            }
        },
        Some("parse") => match load_splinter() {
            Ok(p) => {
                println!("types {} fns {} machines {}", p.types.len(), p.fns.len(), p.machines.len());
                for e in &p.parse_errors {
                    println!("{}", e);
                }
                0
            }
            Err(e) => {
                eprintln!("{}", e);
                2
            }
        },
        _ => {
            eprintln!("usage: mc check ID [--thorough] [--out DIR]");
            2
        }
    }
}
fn main() {
    let h = std::thread::Builder::new().stack_size(256 << 20).spawn(real_main).unwrap();
    std::process::exit(h.join().unwrap_or(2));
}
