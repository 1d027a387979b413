#[macro_use]
mod engine;
mod gen;
mod p_apart;
mod p_cb;
mod p_cli;
mod p_config;
mod p_feat;
mod p_large;
mod p_load;
mod p_long;
mod p_py;
mod p_release;
mod p_model;
mod p_parse;
mod schema;
mod util;

use engine::*;
use std::path::PathBuf;
use std::process::{Command, Stdio};
use std::time::{Duration, Instant};

fn all() -> Vec<Property> {
    let mut v = vec![];
    v.extend(p_model::properties());
    v.extend(p_apart::properties());
    v.extend(p_cb::properties());
    v.extend(p_parse::properties());
    v.extend(p_feat::properties());
    v.extend(p_config::properties());
    v.extend(p_cli::properties());
    v.extend(p_load::properties());
    v.extend(p_py::properties());
    v.extend(p_release::properties());
    v
}

fn arg(args: &[String], name: &str) -> Option<String> {
    args.iter()
        .position(|a| a == name)
        .and_then(|i| args.get(i + 1).cloned())
}

fn main() {
    let args: Vec<String> = std::env::args().skip(1).collect();
    let cmd = args.first().cloned().unwrap_or_default();
    let root = PathBuf::from(arg(&args, "--root").unwrap_or_else(|| "/verif".into()));
    let seed: u64 = arg(&args, "--seed")
        .or_else(|| std::env::var("VERIF_SEED").ok())
        .and_then(|s| s.parse().ok())
        .unwrap_or(1);
    let tier = arg(&args, "--tier")
        .or_else(|| std::env::var("VERIF_TIER").ok())
        .unwrap_or_else(|| "quick".into());
    let threads: usize = arg(&args, "--threads")
        .and_then(|s| s.parse().ok())
        .unwrap_or(8);
    let scale: f64 = arg(&args, "--scale")
        .and_then(|s| s.parse().ok())
        .unwrap_or(1.0);
    let props = all();
    let get = |id: &str| props.iter().find(|p| p.id == id);
    match cmd.as_str() {
        "list" => {
            for p in &props {
                println!("{} {:?}", p.id, p.suites.iter().map(|s| s.name).collect::<Vec<_>>());
            }
        }
        "apart" => p_apart::child(args[1].parse().unwrap()),
        "answers" => p_release::serve(),
        "debug-run" => p_cli::debug_run(&args[1]),
        // in-process run
        "worker" => {
            install_panic_hook();
            let p = get(&args[1]).expect("property");
            let code = run_property(
                p,
                &RunArgs {
                    root,
                    tier,
                    seed,
                    threads,
                    scale,
                    only_suite: arg(&args, "--suite"),
                },
            );
            std::process::exit(code);
        }
        "one" => {
            install_panic_hook();
            let p = get(&args[1]).expect("property");
            std::process::exit(run_index(p, args[2].parse().unwrap(), args[3].parse().unwrap(), seed));
        }
        "replay" => {
            install_panic_hook();
            std::process::exit(replay(&props, &PathBuf::from(&args[1])));
        }
        // supervised run: a crash of the worker is attributed to the case that caused it
        "check" => {
            let id = args[1].clone();
            let p = get(&id).expect("property");
            let exe = std::env::current_exe().unwrap();
            let limit = Duration::from_secs(if tier == "thorough" { 6 * 3600 } else { 800 });
            let slots = std::env::temp_dir().join(format!("verif-slots-{}", std::process::id()));
            let _ = std::fs::remove_file(&slots);
            let mut c = Command::new(&exe);
            c.arg("worker").args(&args[1..]).env("VERIF_SLOTS", &slots);
            c.stdin(Stdio::null());
            if std::env::var("VERIF_KEEP_STDERR").is_err() {
                c.stderr(Stdio::null());
            }
            let mut child = c.spawn().unwrap();
            let t0 = Instant::now();
            let status = loop {
                if let Some(s) = child.try_wait().unwrap() {
                    break Some(s);
                }
                if t0.elapsed() > limit {
                    let _ = child.kill();
                    let _ = child.wait();
                    break None;
                }
                std::thread::sleep(Duration::from_millis(20));
            };
            let code = match status {
                None => {
                    println!("ERROR: time limit reached, no answer");
                    3
                }
                Some(s) => match s.code() {
                    Some(c) if c == 0 || c == 1 || c == 2 => c,
                    Some(4) => crashed(&exe, p, &slots, seed, &root),
                    Some(c) => {
                        println!("ERROR: worker exit {c}");
                        3
                    }
                    None => crashed(&exe, p, &slots, seed, &root),
                },
            };
            let _ = std::fs::remove_file(&slots);
            std::process::exit(code);
        }
        _ => {
            eprintln!("usage: verif-harness list|check ID|worker ID|replay FILE [--seed N --tier T --suite S --scale X]");
            std::process::exit(2);
        }
    }
}

/// The worker died (stack overflow, abort): re-run the cases it was in, one process each.
fn crashed(exe: &std::path::Path, p: &Property, slots: &std::path::Path, seed: u64, root: &std::path::Path) -> i32 {
    let b = std::fs::read(slots).unwrap_or_default();
    for ch in b.chunks_exact(16) {
        let suite = u64::from_le_bytes(ch[..8].try_into().unwrap());
        let idx = u64::from_le_bytes(ch[8..].try_into().unwrap());
        if suite == 0 {
            continue;
        }
        let suite = suite as usize - 1;
        let mut c = Command::new(exe)
            .args(["one", p.id, &suite.to_string(), &idx.to_string(), "--seed", &seed.to_string()])
            .stdin(Stdio::null())
            .stdout(Stdio::null())
            .stderr(Stdio::null())
            .spawn()
            .unwrap();
        let t0 = Instant::now();
        let st = loop {
            if let Some(s) = c.try_wait().unwrap() {
                break Some(s);
            }
            if t0.elapsed() > Duration::from_secs(60) {
                let _ = c.kill();
                let _ = c.wait();
                break None;
            }
            std::thread::sleep(Duration::from_millis(10));
        };
        {
            use std::os::unix::process::ExitStatusExt;
            let how = match &st {
                None => "did not end within 60 s".to_string(),
                Some(s) => format!("ended by signal {:?}", s.signal()),
            };
            if st.is_none() || matches!(st.unwrap().signal(), Some(libc::SIGSEGV) | Some(libc::SIGABRT) | Some(libc::SIGBUS) | Some(libc::SIGILL) | Some(libc::SIGFPE)) {
                let name = p.suites[suite].name;
                let dir = root.join("replays");
                let _ = std::fs::create_dir_all(&dir);
                let f = dir.join(format!("{}-{}-crash-{}-{}.json", p.id, name, seed, idx));
                let _ = std::fs::write(
                    &f,
                    serde_json::json!({"property": p.id, "suite": name, "crash_index": idx, "verif_seed": seed,
                        "signature": "crash", "message": how,
                        "rerun": format!("verif-harness one {} {} {} --seed {}", p.id, suite, idx, seed)})
                    .to_string(),
                );
                println!("the code under test {} in suite {} case {}", how, name, idx);
                // evidence for the interrupted run
                let ev = serde_json::json!({"property": p.id, "tier": "quick", "seed": seed, "level": "exploration",
                    "coverage": {"evaluations": idx, "distinct_nontrivial": 0, "rule": "interrupted by a crash", "samples": [f.display().to_string()]},
                    "wall_s": 0.0, "violations": 1});
                let _ = std::fs::create_dir_all(root.join("evidence"));
                let _ = std::fs::write(root.join("evidence").join(format!("{}.json", p.id)), ev.to_string());
                println!("VIOLATION property={} replay={}", p.id, f.display());
                return 1;
            }
        }
    }
    println!("ERROR: the worker was killed and no single case reproduces it");
    3
}
