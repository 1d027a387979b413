//! Property-based testing engine: every random decision of a case is a bounded draw from a
//! choice sequence, so any failing case can be shrunk (by editing the sequence) and replayed.
use serde_json::{json, Value};
use std::cell::RefCell;
use std::collections::{BTreeMap, HashMap, HashSet};
use std::fs;
use std::hash::{Hash, Hasher};
use std::io::Write as _;
use std::os::unix::fs::FileExt;
use std::panic::{catch_unwind, AssertUnwindSafe};
use std::path::{Path, PathBuf};
use std::sync::atomic::{AtomicBool, AtomicU64, Ordering};
use std::sync::Mutex;
use std::time::{Duration, Instant};

// ---------------------------------------------------------------- choice source

fn splitmix(state: &mut u64) -> u64 {
    *state = state.wrapping_add(0x9E37_79B9_7F4A_7C15);
    let mut z = *state;
    z = (z ^ (z >> 30)).wrapping_mul(0xBF58_476D_1CE4_E5B9);
    z = (z ^ (z >> 27)).wrapping_mul(0x94D0_49BB_1331_11EB);
    z ^ (z >> 31)
}

pub fn fnv(bytes: &[u8]) -> u64 {
    let mut h: u64 = 0xcbf29ce484222325;
    for b in bytes {
        h ^= *b as u64;
        h = h.wrapping_mul(0x100000001b3);
    }
    h
}

pub struct Source {
    rng: u64,
    replay: Option<Vec<u64>>,
    pub drawn: Vec<u64>,
}

impl Source {
    pub fn random(seed: u64) -> Source {
        Source {
            rng: seed,
            replay: None,
            drawn: Vec::new(),
        }
    }
    pub fn replay(choices: Vec<u64>) -> Source {
        Source {
            rng: 0,
            replay: Some(choices),
            drawn: Vec::new(),
        }
    }
    /// A value in 0..n. The value 0 is the simplest choice; shrinking moves towards it.
    pub fn below(&mut self, n: u64) -> u64 {
        assert!(n > 0);
        let v = match &self.replay {
            None => {
                let r = splitmix(&mut self.rng);
                ((r as u128 * n as u128) >> 64) as u64
            }
            Some(c) => match c.get(self.drawn.len()) {
                Some(v) => {
                    if *v < n {
                        *v
                    } else {
                        *v % n
                    }
                }
                None => 0,
            },
        };
        self.drawn.push(v);
        v
    }
    pub fn usize(&mut self, n: usize) -> usize {
        self.below(n as u64) as usize
    }
    /// lo..=hi
    pub fn range(&mut self, lo: usize, hi: usize) -> usize {
        lo + self.below((hi - lo + 1) as u64) as usize
    }
    /// true with probability num/den; false is the simple value.
    pub fn chance(&mut self, num: u64, den: u64) -> bool {
        self.below(den) >= den - num
    }
    pub fn bool(&mut self) -> bool {
        self.below(2) == 1
    }
    pub fn pick<'a, T>(&mut self, xs: &'a [T]) -> &'a T {
        &xs[self.usize(xs.len())]
    }
    /// Index into a weight table; index 0 is the simple value.
    pub fn weighted(&mut self, ws: &[u64]) -> usize {
        let total: u64 = ws.iter().sum();
        let mut x = self.below(total);
        for (i, w) in ws.iter().enumerate() {
            if x < *w {
                return i;
            }
            x -= *w;
        }
        ws.len() - 1
    }
    /// A random permutation of 0..n.
    pub fn permutation(&mut self, n: usize) -> Vec<usize> {
        let mut p: Vec<usize> = (0..n).collect();
        for i in (1..n).rev() {
            // 0 keeps the element in place
            let j = i - self.usize(i + 1);
            p.swap(i, j);
        }
        p
    }
}

// ---------------------------------------------------------------- case results

#[derive(Debug, Clone)]
pub struct Fail {
    /// short, stable description of which oracle failed (used for known findings and shrinking)
    pub sig: String,
    pub msg: String,
}
pub type R = Result<(), Fail>;

pub fn fail<T>(sig: &str, msg: impl Into<String>) -> Result<T, Fail> {
    Err(Fail {
        sig: sig.to_string(),
        msg: msg.into(),
    })
}

#[macro_export]
macro_rules! check {
    ($cond:expr, $sig:expr, $($arg:tt)*) => {
        if !($cond) { return Err($crate::engine::Fail{ sig: $sig.to_string(), msg: format!($($arg)*) }); }
    };
}

#[derive(Default)]
pub struct Ctx {
    nontrivial: bool,
    digest: Option<u64>,
    classes: Vec<String>,
    desc: Option<String>,
    /// extra elementary checks performed within the case
    pub probes: u64,
    pub want_desc: bool,
}

impl Ctx {
    /// Marks the case as non-trivial by the rule of its suite.
    pub fn nontrivial(&mut self, cond: bool) {
        self.nontrivial |= cond;
    }
    pub fn class(&mut self, name: &str) {
        self.classes.push(name.to_string());
    }
    pub fn class_if(&mut self, cond: bool, name: &str) {
        if cond {
            self.classes.push(name.to_string());
        }
    }
    /// What identifies the case (two cases with the same identity count once).
    pub fn identity<T: Hash>(&mut self, t: &T) {
        let mut h = std::collections::hash_map::DefaultHasher::new();
        self.digest.unwrap_or(0).hash(&mut h);
        t.hash(&mut h);
        self.digest = Some(h.finish());
    }
    /// Human readable form of the case: kept for samples and failures only.
    pub fn describe(&mut self, f: impl FnOnce() -> String) {
        if self.want_desc {
            let s = f();
            match &mut self.desc {
                Some(d) => {
                    d.push('\n');
                    d.push_str(&s);
                }
                None => self.desc = Some(s),
            }
        }
    }
}

pub type CaseFn = fn(&mut Source, &mut Ctx) -> R;

#[derive(Clone)]
pub struct Suite {
    pub name: &'static str,
    pub rule: &'static str,
    pub quick: u64,
    pub thorough: u64,
    /// max worker threads (process-spawning suites use their own)
    pub f: CaseFn,
}

pub struct Property {
    pub id: &'static str,
    pub suites: Vec<Suite>,
    pub assumptions: Vec<&'static str>,
}

// ---------------------------------------------------------------- panics

thread_local! {
    static LAST_PANIC: RefCell<Option<String>> = RefCell::new(None);
}

pub fn install_panic_hook() {
    std::panic::set_hook(Box::new(|info| {
        let msg = if let Some(s) = info.payload().downcast_ref::<&str>() {
            s.to_string()
        } else if let Some(s) = info.payload().downcast_ref::<String>() {
            s.clone()
        } else {
            "panic".to_string()
        };
        let loc = info
            .location()
            .map(|l| format!("{}:{}", l.file(), l.line()))
            .unwrap_or_default();
        LAST_PANIC.with(|p| *p.borrow_mut() = Some(format!("{msg} at {loc}")));
    }));
}

pub fn last_panic() -> String {
    LAST_PANIC
        .with(|p| p.borrow_mut().take())
        .unwrap_or_default()
}

/// Runs code under test; a panic becomes an Err with its message.
pub fn guarded<T>(f: impl FnOnce() -> T) -> Result<T, String> {
    catch_unwind(AssertUnwindSafe(f)).map_err(|_| last_panic())
}

fn run_case(f: CaseFn, src: &mut Source, ctx: &mut Ctx) -> R {
    match catch_unwind(AssertUnwindSafe(|| f(src, ctx))) {
        Ok(r) => r,
        Err(_) => Err(Fail {
            sig: "panic".to_string(),
            msg: format!("panic: {}", last_panic()),
        }),
    }
}

// ---------------------------------------------------------------- known findings

pub struct Known {
    entries: Vec<(String, String, String)>, // property, signature, what
}
impl Known {
    pub fn load(root: &Path) -> Known {
        let p = root.join("known_findings.json");
        let mut entries = vec![];
        if let Ok(s) = fs::read_to_string(p) {
            let v: Value = serde_json::from_str(&s).expect("known_findings.json");
            for e in v["known"].as_array().cloned().unwrap_or_default() {
                entries.push((
                    e["property"].as_str().unwrap().to_string(),
                    e["signature"].as_str().unwrap().to_string(),
                    e["what"].as_str().unwrap().to_string(),
                ));
            }
        }
        Known { entries }
    }
    fn find(&self, prop: &str, suite: &str, f: &Fail) -> Option<&(String, String, String)> {
        let full = format!("{suite}/{}", f.sig);
        self.entries
            .iter()
            .find(|(p, s, _)| p == prop && *s == full)
    }
}

// ---------------------------------------------------------------- runner

fn case_seed(seed: u64, prop: &str, suite: &str, idx: u64) -> u64 {
    let mut s = seed
        ^ fnv(prop.as_bytes()).rotate_left(17)
        ^ fnv(suite.as_bytes()).rotate_left(41)
        ^ idx.wrapping_mul(0xD6E8_FEB8_6659_FD93);
    splitmix(&mut s);
    splitmix(&mut s)
}

#[derive(Default)]
struct Stats {
    evals: u64,
    probes: u64,
    nontrivial: u64,
    distinct: HashSet<u64>,
    classes: BTreeMap<String, u64>,
    samples: Vec<(u64, String)>,
    known: HashMap<String, u64>,
}

/// A case that takes longer than this is taken not to end.
const HANG_MS: u64 = 120_000;

pub struct RunArgs {
    pub root: PathBuf,
    pub tier: String,
    pub seed: u64,
    pub threads: usize,
    pub scale: f64,
    pub only_suite: Option<String>,
}

fn shrink(f: CaseFn, start: Vec<u64>, sig: &str, budget: Duration) -> (Vec<u64>, Fail, u64) {
    let t0 = Instant::now();
    let mut tries = 0u64;
    let mut run = |c: &[u64]| -> Option<(Vec<u64>, Fail)> {
        tries += 1;
        let mut src = Source::replay(c.to_vec());
        let mut ctx = Ctx::default();
        match run_case(f, &mut src, &mut ctx) {
            Err(e) if e.sig == sig => Some((src.drawn, e)),
            _ => None,
        }
    };
    let (mut best, mut bf) = match run(&start) {
        Some(x) => x,
        None => {
            return (
                start,
                Fail {
                    sig: sig.to_string(),
                    msg: "failure did not reproduce when replayed".into(),
                },
                1,
            )
        }
    };
    let simpler = |a: &[u64], b: &[u64]| (a.len(), a) < (b.len(), b);
    loop {
        let before = best.clone();
        // delete blocks
        let mut k = best.len().max(1).next_power_of_two();
        while k >= 1 {
            let mut i = 0;
            while i < best.len() {
                if t0.elapsed() > budget {
                    return (best, bf, tries);
                }
                let mut c = best.clone();
                let end = (i + k).min(c.len());
                c.drain(i..end);
                match run(&c) {
                    Some((d, e)) if simpler(&d, &best) => {
                        best = d;
                        bf = e;
                    }
                    _ => i += k,
                }
            }
            k /= 2;
        }
        // zero blocks / minimise single values
        for i in 0..best.len() {
            if i >= best.len() {
                break;
            }
            if t0.elapsed() > budget {
                return (best, bf, tries);
            }
            if best[i] == 0 {
                continue;
            }
            let mut lo = 0u64;
            let mut hi = best[i];
            // try zero, then binary search
            while lo < hi {
                if t0.elapsed() > budget {
                    return (best, bf, tries);
                }
                let mid = lo + (hi - lo) / 2;
                let mut c = best.clone();
                if i >= c.len() {
                    break;
                }
                c[i] = mid;
                match run(&c) {
                    Some((d, e)) if simpler(&d, &best) => {
                        best = d;
                        bf = e;
                        hi = mid;
                        if i >= best.len() {
                            break;
                        }
                    }
                    _ => lo = mid + 1,
                }
            }
            // lower a counter while deleting the element that follows it
            if i < best.len() && best[i] > 0 {
                for w in 1..6usize {
                    for gap in 1..4usize {
                        if i + gap + w > best.len() || best[i] == 0 {
                            continue;
                        }
                        let mut c = best.clone();
                        c[i] -= 1;
                        c.drain(i + gap..i + gap + w);
                        if let Some((d, e)) = run(&c) {
                            if simpler(&d, &best) {
                                best = d;
                                bf = e;
                            }
                        }
                    }
                }
            }
        }
        if best == before {
            break;
        }
    }
    (best, bf, tries)
}

/// Progress slots: a crashed worker process leaves in it which cases were being run.
pub struct Slots {
    file: Option<fs::File>,
}
impl Slots {
    pub fn open() -> Slots {
        let file = std::env::var("VERIF_SLOTS").ok().and_then(|p| {
            fs::OpenOptions::new()
                .create(true)
                .truncate(false)
                .write(true)
                .open(p)
                .ok()
        });
        Slots { file }
    }
    fn set_idle(&self, thread: usize) {
        if let Some(f) = &self.file {
            let _ = f.write_at(&[0u8; 16], thread as u64 * 16);
        }
    }
    fn set(&self, thread: usize, suite: usize, idx: u64) {
        if let Some(f) = &self.file {
            let mut b = [0u8; 16];
            b[..8].copy_from_slice(&(suite as u64 + 1).to_le_bytes());
            b[8..].copy_from_slice(&idx.to_le_bytes());
            let _ = f.write_at(&b, thread as u64 * 16);
        }
    }
}

pub fn replay_path(root: &Path, prop: &str, suite: &str, choices: &[u64]) -> PathBuf {
    let mut h = std::collections::hash_map::DefaultHasher::new();
    choices.hash(&mut h);
    root.join("replays")
        .join(format!("{prop}-{suite}-{:016x}.json", h.finish()))
}

pub fn write_replay(root: &Path, prop: &str, suite: &str, choices: &[u64], f: &Fail, desc: &str) -> PathBuf {
    let p = replay_path(root, prop, suite, choices);
    let _ = fs::create_dir_all(p.parent().unwrap());
    let v = json!({"property": prop, "suite": suite, "choices": choices, "signature": f.sig, "message": f.msg, "case": desc});
    let _ = fs::write(&p, serde_json::to_string_pretty(&v).unwrap());
    p
}

fn shortened(s: &str, n: usize) -> String {
    match s.char_indices().nth(n) {
        Some((i, _)) => format!("{}... ({} bytes in all, see the replay file)", &s[..i], s.len()),
        None => s.to_owned(),
    }
}

/// Runs one property; returns process exit code.
pub fn run_property(p: &Property, args: &RunArgs) -> i32 {
    let t0 = Instant::now();
    let known = Known::load(&args.root);
    let slots = Slots::open();
    let mut total = Stats::default();
    let mut per_suite = vec![];
    let mut violations: Vec<(String, PathBuf, String)> = vec![];
    let mut vacuous: Vec<&str> = vec![];
    let mut rules = vec![];
    let mut samples: Vec<Value> = vec![];
    // on a slow machine fewer cases are generated; the evidence says how many
    let soft = Duration::from_secs(if args.tier == "thorough" { 3 * 3600 } else { 300 });
    for (si, suite) in p.suites.iter().enumerate() {
        if let Some(o) = &args.only_suite {
            if o != suite.name {
                continue;
            }
        }
        rules.push(format!("[{}] {}", suite.name, suite.rule));
        let n = if args.tier == "thorough" {
            suite.thorough
        } else {
            suite.quick
        };
        let n = ((n as f64 * args.scale) as u64).max(1);
        let next = AtomicU64::new(0);
        let stop = AtomicBool::new(false);
        // (idx, choices, fail)
        let first: Mutex<Option<(u64, Vec<u64>, Fail)>> = Mutex::new(None);
        let merged = Mutex::new(Stats::default());
        let ts = Instant::now();
        // millisecond (since ts, plus one) at which each thread began its case; 0 when idle
        let began: Vec<AtomicU64> = (0..args.threads).map(|_| AtomicU64::new(0)).collect();
        let live = AtomicU64::new(args.threads as u64);
        std::thread::scope(|sc| {
            {
                let (began, live) = (&began, &live);
                sc.spawn(move || {
                    while live.load(Ordering::Relaxed) > 0 {
                        let now = ts.elapsed().as_millis() as u64;
                        if began.iter().any(|b| {
                            let b = b.load(Ordering::Relaxed);
                            b > 0 && now > b + HANG_MS
                        }) {
                            println!("a case has not ended after {} s", HANG_MS / 1000);
                            std::process::exit(4);
                        }
                        std::thread::sleep(Duration::from_millis(5));
                    }
                });
            }
            for t in 0..args.threads {
                let (next, stop, first, merged, slots, known, began, live) =
                    (&next, &stop, &first, &merged, &slots, &known, &began, &live);
                let _ = std::thread::Builder::new()
                    .stack_size(16 << 20)
                    .spawn_scoped(sc, move || {
                        let mut st = Stats::default();
                        loop {
                            // small batches keep the order roughly sequential
                            let idx = next.fetch_add(1, Ordering::Relaxed);
                            if idx >= n || stop.load(Ordering::Relaxed) || t0.elapsed() > soft {
                                break;
                            }
                            slots.set(t, si, idx);
                            began[t].store(ts.elapsed().as_millis() as u64 + 1, Ordering::Relaxed);
                            let mut src =
                                Source::random(case_seed(args.seed, p.id, suite.name, idx));
                            let mut ctx = Ctx {
                                want_desc: idx < 400,
                                ..Default::default()
                            };
                            let r = run_case(suite.f, &mut src, &mut ctx);
                            st.evals += 1;
                            st.probes += ctx.probes;
                            if ctx.nontrivial {
                                st.nontrivial += 1;
                                let d = ctx.digest.unwrap_or_else(|| {
                                    let mut h = std::collections::hash_map::DefaultHasher::new();
                                    src.drawn.hash(&mut h);
                                    h.finish()
                                });
                                st.distinct.insert(d);
                                if st.samples.len() < 4 {
                                    if let Some(d) = ctx.desc.take() {
                                        st.samples.push((idx, d));
                                    }
                                }
                            }
                            for c in ctx.classes {
                                *st.classes.entry(c).or_default() += 1;
                            }
                            if let Err(e) = r {
                                if let Some(k) = known.find(p.id, suite.name, &e) {
                                    *st.known.entry(k.1.clone()).or_default() += 1;
                                } else {
                                    stop.store(true, Ordering::Relaxed);
                                    let mut g = first.lock().unwrap();
                                    if g.as_ref().map(|(i, _, _)| idx < *i).unwrap_or(true) {
                                        *g = Some((idx, src.drawn, e));
                                    }
                                }
                            }
                        }
                        began[t].store(0, Ordering::Relaxed);
                        live.fetch_sub(1, Ordering::Relaxed);
                        slots.set_idle(t);
                        let mut m = merged.lock().unwrap();
                        m.evals += st.evals;
                        m.probes += st.probes;
                        m.nontrivial += st.nontrivial;
                        m.distinct.extend(st.distinct);
                        for (k, v) in st.classes {
                            *m.classes.entry(k).or_default() += v;
                        }
                        for (k, v) in st.known {
                            *m.known.entry(k).or_default() += v;
                        }
                        m.samples.extend(st.samples);
                    })
                    .unwrap();
            }
        });
        let mut m = merged.into_inner().unwrap();
        m.samples.sort();
        let mut suite_json = json!({
            "suite": suite.name, "evaluations": m.evals, "nontrivial": m.nontrivial,
            "distinct_nontrivial": m.distinct.len(), "classes": m.classes,
            "wall_s": ts.elapsed().as_secs_f64(),
        });
        if m.probes > 0 {
            suite_json["elementary_checks"] = json!(m.probes);
        }
        for (sig, cnt) in &m.known {
            let what = known
                .entries
                .iter()
                .find(|(pp, s, _)| pp == p.id && s == sig)
                .map(|x| x.2.clone())
                .unwrap_or_default();
            suite_json["known_findings_hit"][sig] = json!(cnt);
            println!("KNOWN-FINDING: property={} {} ({})", p.id, what, sig);
        }
        per_suite.push(suite_json);
        let mut taken = 0;
        for (i, s) in &m.samples {
            if taken >= 2 {
                break;
            }
            taken += 1;
            let mut s = s.clone();
            if s.len() > 1500 {
                let mut e = 1500;
                while !s.is_char_boundary(e) {
                    e -= 1;
                }
                s.truncate(e);
                s.push_str("...");
            }
            samples.push(json!({"suite": suite.name, "index": i, "case": s}));
        }
        total.evals += m.evals;
        total.nontrivial += m.nontrivial;
        if m.nontrivial * 20 < m.evals && m.evals >= 100 {
            vacuous.push(suite.name);
        }
        total.probes += m.probes;
        let base = si as u64;
        total.distinct.extend(m.distinct.iter().map(|d| d ^ base.wrapping_mul(0x9E3779B97F4A7C15)));
        let ff = first.into_inner().unwrap();
        if let Some((idx, choices, f0)) = ff {
            let (best, bf, tries) = shrink(suite.f, choices.clone(), &f0.sig, Duration::from_secs(40));
            let (best, bf) = if bf.msg.starts_with("failure did not reproduce") {
                (choices, Fail { msg: format!("{} (first seen as: {})", bf.msg, f0.msg), sig: f0.sig.clone() })
            } else {
                (best, bf)
            };
            let mut src = Source::replay(best.clone());
            let mut ctx = Ctx {
                want_desc: true,
                ..Default::default()
            };
            let _ = run_case(suite.f, &mut src, &mut ctx);
            let desc = ctx.desc.unwrap_or_default();
            let path = write_replay(&args.root, p.id, suite.name, &best, &bf, &desc);
            println!(
                "violation in suite {} case {} [{}] ({} shrink attempts, {} choices)\n  {}\n  case: {}",
                suite.name, idx, bf.sig, tries, best.len(), shortened(&bf.msg, 3000), shortened(&desc, 3000)
            );
            violations.push((suite.name.to_string(), path, bf.msg));
        }
    }
    if (total.distinct.is_empty() || !vacuous.is_empty()) && violations.is_empty() {
        println!("ERROR: vacuous check for {}: hardly any non-trivial case was generated in {vacuous:?}", p.id);
        return 2;
    }
    let ev = json!({
        "property": p.id,
        "tier": args.tier,
        "seed": args.seed,
        "level": "exploration",
        "coverage": {
            "evaluations": total.evals,
            "distinct_nontrivial": total.distinct.len(),
            "rule": rules.join("; "),
            "samples": samples,
            "suites": per_suite,
        },
        "assumptions": p.assumptions,
        "wall_s": t0.elapsed().as_secs_f64(),
        "violations": violations.len(),
    });
    let evdir = args.root.join("evidence");
    let _ = fs::create_dir_all(&evdir);
    let mut fo = fs::File::create(evdir.join(format!("{}.json", p.id))).expect("evidence file");
    fo.write_all(serde_json::to_string_pretty(&ev).unwrap().as_bytes())
        .unwrap();
    println!(
        "{}: {} cases, {} distinct non-trivial, {:.1}s, {} violation(s)",
        p.id,
        total.evals,
        total.distinct.len(),
        t0.elapsed().as_secs_f64(),
        violations.len()
    );
    if violations.is_empty() {
        0
    } else {
        for (_, path, _) in &violations {
            println!("VIOLATION property={} replay={}", p.id, path.display());
        }
        1
    }
}

/// Replays a saved case; exit code 1 if it still fails.
pub fn replay(props: &[Property], file: &Path) -> i32 {
    let v: Value = serde_json::from_str(&fs::read_to_string(file).expect("replay file")).unwrap();
    let prop = v["property"].as_str().unwrap();
    let suite = v["suite"].as_str().unwrap();
    if let Some(idx) = v["crash_index"].as_u64() {
        // the process died in this case: it is generated again from its index
        for p in props.iter().filter(|p| p.id == prop) {
            if let Some(si) = p.suites.iter().position(|s| s.name == suite) {
                println!("running case {idx} of {suite} again");
                run_index(p, si, idx, v["verif_seed"].as_u64().unwrap_or(1));
                println!("the case ends");
                return 0;
            }
        }
    }
    let choices: Vec<u64> = v["choices"]
        .as_array()
        .unwrap()
        .iter()
        .map(|x| x.as_u64().unwrap())
        .collect();
    for p in props {
        if p.id == prop {
            for s in &p.suites {
                if s.name == suite {
                    let mut src = Source::replay(choices.clone());
                    let mut ctx = Ctx {
                        want_desc: true,
                        ..Default::default()
                    };
                    let r = run_case(s.f, &mut src, &mut ctx);
                    println!("case: {}", shortened(&ctx.desc.unwrap_or_default(), 20000));
                    return match r {
                        Ok(()) => {
                            println!("replay passes");
                            0
                        }
                        Err(e) => {
                            println!("replay fails [{}]: {}", e.sig, e.msg);
                            1
                        }
                    };
                }
            }
        }
    }
    println!("no such property/suite");
    2
}

/// Runs exactly one indexed case (used by the parent after a worker crashed).
pub fn run_index(p: &Property, suite: usize, idx: u64, seed: u64) -> i32 {
    let s = &p.suites[suite];
    let mut src = Source::random(case_seed(seed, p.id, s.name, idx));
    let mut ctx = Ctx::default();
    let _ = run_case(s.f, &mut src, &mut ctx);
    0
}

/// Choices of a case as generated (up to the crash point they are written as they are drawn).
pub fn seed_of(p: &Property, suite: usize, idx: u64, seed: u64) -> u64 {
    case_seed(seed, p.id, p.suites[suite].name, idx)
}
