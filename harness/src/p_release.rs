//! Optimised builds, which have no debug assertions and no overflow checks, compute the same as debug builds.
use crate::engine::*;
use crate::gen::*;
use crate::p_apart::{gen_script, Out, Running};
use crate::p_config::{any_stack, from_json, from_yaml, gen_stack};
use crate::p_model::{aged, apply, gen_ops};
use crate::p_parse::{any_example, mutate, observed, parse_fresh, parser, Format};
use crate::util::*;
use reductionml_core::inverse_hash_table::Feature;
use reductionml_core::parsers::ParsedNamespaceInfo;
use reductionml_core::types::FeaturesType;
use reductionml_core::workspace::Workspace;
use serde_json::Value;
use std::cell::RefCell;
use std::io::{BufRead, BufReader, Cursor, Write};
use std::process::{Child, ChildStdin, ChildStdout, Command, Stdio};

fn digest(b: &[u8]) -> String {
    format!("{} bytes with hash {:016x}", b.len(), fnv(b))
}

/// The saved model: its members one by one, so that a difference has a place.
fn model_lines(w: &Workspace, out: &mut Vec<String>) {
    match guarded(|| w.serialize_model().map_err(|e| e.to_string())) {
        Ok(Ok(b)) => out.push(format!("binary model: {}", Saved(b).digest())),
        other => out.push(format!("binary model: {other:?}")),
    }
    match guarded(|| w.serialize_to_json().map_err(|e| e.to_string())) {
        Ok(Ok(Value::Object(o))) => {
            for (k, v) in &o {
                let t = v.to_string();
                out.push(if t.len() < 300 { format!("model member {k}: {t}") } else { format!("model member {k}: {}", digest(t.as_bytes())) });
            }
        }
        other => out.push(format!("json model: {other:?}")),
    }
}

/// One line for each thing that was asked for, with the answer.
type Answers = Vec<String>;

fn or_panic(r: Result<String, String>) -> String {
    match r {
        Ok(x) => x,
        Err(p) => format!("panic: {p}"),
    }
}

/// A workspace and its parser.
fn history(s: &mut Source, out: &mut Answers) -> bool {
    let x = gen_script(s);
    out.push(format!("config {} format {:?}", config_json(&x.g, &x.st.entry), x.fmt));
    let mut learned = 0;
    let mut r = Running::new(&x, new_pool());
    for step in &x.steps {
        let n = r.out.len();
        let e = guarded(|| r.step());
        let mut line = format!("{step:?}: ");
        for o in &r.out[n..] {
            match o {
                Out::Text(t) => line += t,
                Out::Model(m) => line += &m.digest(),
            }
        }
        learned += 1;
        out.push(line);
        if let Err(p) = e {
            out.push(format!("panic: {p}"));
            return true;
        }
    }
    model_lines(&r.w, out);
    learned >= 3
}

/// A workspace that takes over the counts of a long life.
fn old_age(s: &mut Source, out: &mut Answers) -> bool {
    let kind = *s.pick(&["squarecb", "greedy", "softmax", "cbadf", "coin"]);
    let st = stack_of(s, &StackOpts { debug: false, ..Default::default() }, kind);
    let g = global(s, 8);
    out.push(format!("config {}", config_json(&g, &st.entry)));
    let mut w = workspace(&g, &st.entry);
    let run = |w: &mut Workspace, s: &mut Source, out: &mut Answers| {
        for op in gen_ops(s, &st, 1, 6) {
            match guarded(|| apply(w, &op, &g)) {
                Ok(x) => out.push(format!("{op:?}: {x:?}")),
                Err(p) => {
                    out.push(format!("{op:?}: panic: {p}"));
                    return false;
                }
            }
        }
        true
    };
    if !run(&mut w, s, out) {
        return true;
    }
    if let Some(x) = aged(&w, s) {
        w = x;
        out.push("aged".into());
        if !run(&mut w, s, out) {
            return true;
        }
    }
    model_lines(&w, out);
    true
}

const READS: [(Format, bool); 5] =
    [(Format::Vw, false), (Format::Vw, true), (Format::Json, false), (Format::Json, true), (Format::Dsjson, true)];

/// Good and damaged texts.
fn texts(s: &mut Source, out: &mut Answers) -> bool {
    let (fmt, cb) = *s.pick(&READS);
    let ft = if cb { FeaturesType::SparseCBAdf } else { FeaturesType::SparseSimple };
    let bits = s.range(1, 31) as u8;
    let seed = s.below(1 << 32) as u32;
    let mut all = String::new();
    for _ in 0..s.range(1, 4) {
        let (_, _, mut t) = any_example(s, fmt, cb);
        if s.chance(2, 3) {
            t = mutate(s, &t);
        }
        out.push(format!("{fmt:?} {t:?}: {}", or_panic(guarded(|| format!("{:?}", observed(parse_fresh(fmt, ft, seed, bits, &t)))))));
        if fmt == Format::Vw {
            let names = guarded(|| {
                let p = parser(fmt, ft, seed, bits, new_pool());
                let r = p.extract_feature_names(&t).map(|m| {
                    let mut v = vec![];
                    for (ns, fs) in &m {
                        let ns = match ns {
                            ParsedNamespaceInfo::Named(n) => n.to_string(),
                            ParsedNamespaceInfo::Default => " ".to_string(),
                        };
                        v.extend(fs.iter().map(|f| Feature::from_parsed_feature(f, &ns)).map(|f| format!("{f:?} {}", u32::from(f.hash(seed)))));
                    }
                    v.sort();
                    v
                });
                r.map_err(|e| e.to_string())
            });
            out.push(or_panic(names.map(|x| format!("names: {x:?}"))));
        }
        all += &t;
        all += s.pick(&["\n", "\n\n", "\r\n", "\n \n"]);
    }
    let stream = guarded(|| {
        let p = parser(fmt, ft, seed, bits, new_pool());
        let mut input = Cursor::new(all.as_bytes());
        let mut got = vec![];
        for _ in 0..40 {
            match p.get_next_chunk(&mut input, String::new()) {
                Ok(Some(x)) => got.push(x),
                Ok(None) => break,
                Err(e) => {
                    got.push(format!("error {e}"));
                    break;
                }
            }
        }
        got
    });
    out.push(or_panic(stream.map(|x| format!("stream {all:?}: {x:?}"))));
    true
}

/// Good and bad configurations, and what a workspace made of them starts from.
fn configurations(s: &mut Source, out: &mut Answers) -> bool {
    let entry = if s.bool() { any_stack(s, 3) } else { gen_stack(s).entry };
    let g = global(s, 8);
    let cfg = config_json(&g, &entry);
    let mut text = if s.chance(1, 3) { serde_yaml::to_string(&cfg).unwrap() } else { cfg.to_string() };
    if s.chance(1, 3) {
        text = mutate(s, &text);
        // of a size that can be built
        let bits = serde_yaml::from_str::<Value>(&text).ok().and_then(|v| v.pointer("/globalConfig/numBits").and_then(|x| x.as_u64()));
        if bits.map_or(true, |b| b > 16) {
            return false;
        }
    }
    for (what, r) in [("json", from_json(&text)), ("yaml", from_yaml(&text))] {
        match r {
            Ok(w) => {
                out.push(format!("{what} {text}: accepted"));
                model_lines(&w, out);
            }
            Err(e) => out.push(format!("{what} {text}: {e}")),
        }
    }
    true
}

const WORK: [(&str, fn(&mut Source, &mut Answers) -> bool); 4] =
    [("history", history), ("long life", old_age), ("texts", texts), ("configurations", configurations)];

/// `verif-harness answers`: one line of choices in, one line of answers out.
pub fn serve() {
    install_panic_hook();
    let stdin = std::io::stdin();
    for line in stdin.lock().lines() {
        let (which, choices): (usize, Vec<u64>) = serde_json::from_str(&line.unwrap()).unwrap();
        let mut s = Source::replay(choices);
        let mut out = vec![];
        WORK[which].1(&mut s, &mut out);
        println!("{}", serde_json::to_string(&out).unwrap());
    }
}

struct Remote {
    child: Child,
    to: ChildStdin,
    from: BufReader<ChildStdout>,
}

impl Remote {
    fn start() -> Remote {
        let exe = std::env::var("VERIF_RELEASE").unwrap_or_else(|_| "/verif/harness/target/release/verif-harness".into());
        let mut child = Command::new(&exe)
            .arg("answers")
            .stdin(Stdio::piped())
            .stdout(Stdio::piped())
            .stderr(Stdio::null())
            .spawn()
            .unwrap_or_else(|e| panic!("cannot run {exe}: {e}"));
        let to = child.stdin.take().unwrap();
        let from = BufReader::new(child.stdout.take().unwrap());
        Remote { child, to, from }
    }
    fn ask(&mut self, which: usize, choices: &[u64]) -> Option<Answers> {
        writeln!(self.to, "{}", serde_json::to_string(&(which, choices)).unwrap()).ok()?;
        self.to.flush().ok()?;
        let mut line = String::new();
        self.from.read_line(&mut line).ok()?;
        serde_json::from_str(&line).ok()
    }
}

impl Drop for Remote {
    fn drop(&mut self) {
        let _ = self.child.kill();
        let _ = self.child.wait();
    }
}

thread_local!(static REMOTE: RefCell<Option<Remote>> = const { RefCell::new(None) });

fn ask(which: usize, choices: &[u64]) -> Result<Answers, Fail> {
    REMOTE.with(|r| {
        let mut r = r.borrow_mut();
        let a = r.get_or_insert_with(Remote::start).ask(which, choices);
        if let Some(a) = a {
            return Ok(a);
        }
        // a process that ended: its exit status tells
        let mut gone = r.take().unwrap();
        std::thread::sleep(std::time::Duration::from_millis(20));
        let st = gone.child.try_wait();
        fail("process", format!("the optimised build ends with {st:?}"))
    })
}

fn compare(s: &mut Source, c: &mut Ctx, which: usize) -> R {
    let (name, f) = WORK[which];
    let from = s.drawn.len();
    let mut here = vec![];
    let nontrivial = f(s, &mut here);
    c.class(name);
    c.class_if(here.iter().any(|x| x.contains("rror")), "with an error");
    c.class_if(here.iter().any(|x| x.contains("panic: ")), "with a panic");
    c.identity(&here);
    c.describe(|| here.join("\n"));
    c.nontrivial(nontrivial);
    let there = ask(which, &s.drawn[from..])?;
    for (i, (a, b)) in here.iter().zip(&there).enumerate() {
        check!(a == b, "answer", "answer {i} of the debug build: {a}\nof the optimised build: {b}");
    }
    check!(here.len() == there.len(), "number", "the debug build gives {} answers, the optimised build {}", here.len(), there.len());
    Ok(())
}

fn histories(s: &mut Source, c: &mut Ctx) -> R {
    let which = s.weighted(&[3, 1]);
    compare(s, c, which)
}
fn parsing(s: &mut Source, c: &mut Ctx) -> R {
    compare(s, c, 2)
}
fn configs(s: &mut Source, c: &mut Ctx) -> R {
    compare(s, c, 3)
}

pub fn properties() -> Vec<Property> {
    let rule = "both builds give answers, at least three";
    vec![Property {
        id: "C37",
        suites: vec![
            Suite { name: "histories", rule: "at least three calls, or a model with a long life", quick: 30000, thorough: 600000, f: histories },
            Suite { name: "texts", rule, quick: 40000, thorough: 800000, f: parsing },
            Suite { name: "configurations", rule: "the configuration is of a size that can be built", quick: 15000, thorough: 300000, f: configs },
            Suite { name: "programs", rule: "at least two examples", quick: 500, thorough: 10000, f: crate::p_cli::both_builds },
        ],
        assumptions: vec!["the optimised build is that of the release profile, made by the same compiler for the same machine"],
    }]
}
