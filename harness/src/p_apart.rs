//! Workspaces, parsers and threads next to each other do not influence one another.
use crate::engine::*;
use crate::gen::*;
use crate::p_model::show;
use crate::p_parse::{fix_common, parser, Format};
use crate::util::*;
use reductionml_core::object_pool::{Pool, PoolReturnable};
use reductionml_core::parsers::TextModeParser;
use reductionml_core::sparse_namespaced_features::SparseFeatures;
use reductionml_core::types::LabelType;
use reductionml_core::workspace::Workspace;
use std::sync::{Arc, Barrier};

#[derive(Clone, Debug)]
pub enum Step {
    /// predict, learn, both at once
    Use(u8, String),
    /// what the parser makes of the text
    Parse(String),
    /// the workspace is saved, dropped and loaded
    Reload,
    /// a model is written
    Save,
    /// another parser
    Parser,
}

#[derive(Clone, Debug)]
pub struct Script {
    pub g: Global,
    pub st: Stack,
    pub fmt: Format,
    pub steps: Vec<Step>,
}

#[derive(Debug, PartialEq)]
pub enum Out {
    Text(String),
    Model(Saved),
}

pub fn gen_script(s: &mut Source) -> Script {
    let kind = *s.pick(&["coin", "cbadf", "greedy", "softmax", "squarecb"]);
    let elementwise = s.chance(1, 4);
    let st = stack_of(s, &StackOpts { elementwise, debug: false, ..Default::default() }, kind);
    let g = global(s, 10);
    let fmt = if st.label == LabelType::CB { *s.pick(&[Format::Vw, Format::Json, Format::Dsjson]) } else { *s.pick(&[Format::Vw, Format::Json]) };
    let n = s.range(2, 14);
    let mut pool: Vec<String> = vec![];
    let mut steps = vec![];
    for _ in 0..n {
        if s.chance(1, 12) {
            steps.push(match s.usize(3) {
                0 => Step::Reload,
                1 => Step::Save,
                _ => Step::Parser,
            });
            continue;
        }
        let text = if !pool.is_empty() && s.bool() {
            s.pick(&pool).clone()
        } else {
            let mut f = stack_example(s, &st);
            match &mut f {
                FeatsAst::Simple(e) => fix_common(e),
                FeatsAst::Cb(x) => {
                    fix_common(x.shared.get_or_insert_with(Vec::new));
                    x.actions.iter_mut().for_each(fix_common);
                }
            }
            let l = Some(label_for(st.label, &f, s));
            let t = match (fmt, &f) {
                (Format::Vw, f) => vw_example(f, &l),
                (Format::Json, f) => json_example(f, &l),
                (_, FeatsAst::Cb(x)) => dsjson_example(x, &l),
                _ => unreachable!(),
            };
            pool.push(t.clone());
            t
        };
        steps.push(if s.chance(1, 8) { Step::Parse(text) } else { Step::Use(s.weighted(&[2, 5, 2]) as u8, text) });
    }
    steps.push(Step::Save);
    Script { g, st, fmt, steps }
}

pub struct Running<'a> {
    script: &'a Script,
    pub w: Workspace,
    p: Box<dyn TextModeParser>,
    pool: Arc<Pool<SparseFeatures>>,
    at: usize,
    pub out: Vec<Out>,
}

impl<'a> Running<'a> {
    pub fn new(script: &'a Script, pool: Arc<Pool<SparseFeatures>>) -> Running<'a> {
        let p = parser(script.fmt, script.st.features, script.g.seed, script.g.bits, pool.clone());
        Running { script, w: workspace(&script.g, &script.st.entry), p, pool, at: 0, out: vec![] }
    }
    pub fn step(&mut self) -> bool {
        let Some(step) = self.script.steps.get(self.at) else { return false };
        self.at += 1;
        let s = self.script;
        match step {
            Step::Use(how, text) => {
                let (mut f, l) = match self.p.parse_chunk(text) {
                    Ok(x) => x,
                    Err(e) => {
                        self.out.push(Out::Text(e.to_string()));
                        return true;
                    }
                };
                let l = l.unwrap();
                let r = match how {
                    0 => show(&self.w.predict(&mut f)),
                    1 => {
                        self.w.learn(&mut f, &l);
                        String::new()
                    }
                    _ => show(&self.w.predict_then_learn(&mut f, &l)),
                };
                self.out.push(Out::Text(r));
                f.clear_and_return_object(self.pool.as_ref());
            }
            Step::Parse(text) => {
                let r = self.p.parse_chunk(text);
                self.out.push(Out::Text(match &r {
                    Ok((f, l)) => format!("{:?} {l:?}", observe(f)),
                    Err(e) => e.to_string(),
                }));
            }
            Step::Reload => {
                let m = self.w.serialize_model().unwrap();
                self.w = Workspace::create_from_model(&m).unwrap();
            }
            Step::Save => {
                if let Ok(m) = Saved::of(&self.w) {
                    self.out.push(Out::Model(m));
                }
            }
            Step::Parser => self.p = parser(s.fmt, s.st.features, s.g.seed, s.g.bits, self.pool.clone()),
        }
        true
    }
    fn finish(mut self) -> Vec<Out> {
        while self.step() {}
        self.out
    }
}

fn compare(what: &str, i: usize, s: &Script, got: &[Out], want: &[Out]) -> R {
    check!(got.len() == want.len(), "number", "{what}: {} results, alone {}", got.len(), want.len());
    for (j, (a, b)) in got.iter().zip(want).enumerate() {
        match (a, b) {
            (Out::Text(a), Out::Text(b)) => check!(a == b, "result", "{what}: result {j} of workspace {i} is {a}, alone it is {b} ({:?})", s.steps),
            (Out::Model(a), Out::Model(b)) => check!(a == b, "model", "{what}: the model of workspace {i} differs from the one made alone: {}", model_difference(&a.0, &b.0)),
            _ => return fail("kind", format!("{what}: result {j} of workspace {i}: {a:?}, alone {b:?}")),
        }
    }
    Ok(())
}

fn scripts(s: &mut Source, most: usize, alike: u64) -> Vec<Script> {
    let n = s.range(2, most);
    let mut v: Vec<Script> = vec![];
    for _ in 0..n {
        let x = if !v.is_empty() && s.chance(alike, 4) {
            // the same once more, or with other settings
            let mut x = s.pick(&v).clone();
            match s.usize(3) {
                0 => x.g.seed = x.g.seed.wrapping_add(1),
                1 => x.g.bits = (x.g.bits + 1).min(12),
                _ => (),
            }
            x
        } else {
            gen_script(s)
        };
        v.push(x);
    }
    v
}

pub fn gen_scripts(s: &mut Source, c: &mut Ctx, most: usize, alike: u64) -> Vec<Script> {
    let v = scripts(s, most, alike);
    c.identity(&format!("{v:?}"));
    c.describe(|| {
        v.iter().map(|x| format!("config {} format {:?} steps {:?}", config_json(&x.g, &x.st.entry), x.fmt, x.steps)).collect::<Vec<_>>().join("\n")
    });
    c.nontrivial(v.iter().filter(|x| x.steps.iter().filter(|s| matches!(s, Step::Use(1 | 2, _))).count() >= 2).count() >= 2);
    for x in &v {
        c.class(x.st.kind);
    }
    v
}

/// All of them in an order that is drawn, sharing their pool or not.
fn in_turns(s: &mut Source, v: &[Script]) -> Vec<Vec<Out>> {
    let shared = new_pool();
    let share = s.bool();
    let mut order = vec![];
    for (i, x) in v.iter().enumerate() {
        order.extend(std::iter::repeat(i).take(x.steps.len()));
    }
    let order: Vec<usize> = s.permutation(order.len()).into_iter().map(|i| order[i]).collect();
    let mut run: Vec<Option<Running>> = v.iter().map(|_| None).collect();
    let early = s.bool();
    for i in if early { (0..v.len()).collect::<Vec<_>>() } else { vec![] } {
        run[i] = Some(Running::new(&v[i], if share { shared.clone() } else { new_pool() }));
    }
    let mut done: Vec<Vec<Out>> = v.iter().map(|_| vec![]).collect();
    for i in order {
        let r = run[i].get_or_insert_with(|| Running::new(&v[i], if share { shared.clone() } else { new_pool() }));
        r.step();
        if r.at == v[i].steps.len() {
            // dropped as soon as it has finished
            done[i] = run[i].take().unwrap().finish();
        }
    }
    done
}

/// What a fresh process makes of them: `verif-harness apart N` with the choices on standard input runs
/// workspace N alone, or all of them if there is no such.
pub fn child(which: usize) {
    let mut text = String::new();
    std::io::Read::read_to_string(&mut std::io::stdin(), &mut text).unwrap();
    let mut s = Source::replay(serde_json::from_str(&text).unwrap());
    let v = scripts(&mut s, 3, 2);
    let done = match v.get(which) {
        Some(x) => vec![Running::new(x, new_pool()).finish()],
        None => in_turns(&mut s, &v),
    };
    let lines: Vec<Vec<String>> = done.iter().map(|o| o.iter().map(|o| format!("{o:?}")).collect()).collect();
    println!("{}", serde_json::to_string(&lines).unwrap());
}

fn in_process(choices: &[u64], which: usize) -> Result<Vec<Vec<String>>, Fail> {
    use std::io::Write;
    use std::process::{Command, Stdio};
    let mut p = Command::new(std::env::current_exe().unwrap())
        .args(["apart", &which.to_string()])
        .stdin(Stdio::piped())
        .stdout(Stdio::piped())
        .stderr(Stdio::null())
        .spawn()
        .unwrap();
    p.stdin.take().unwrap().write_all(serde_json::to_string(choices).unwrap().as_bytes()).unwrap();
    let o = p.wait_with_output().unwrap();
    match serde_json::from_slice(&o.stdout) {
        Ok(x) if o.status.success() => Ok(x),
        _ => Err(Fail { sig: "process".into(), msg: format!("the process of workspace {which} ends with {}", o.status) }),
    }
}

/// Nothing that earlier workspaces left behind can be in both results.
fn processes(s: &mut Source, c: &mut Ctx) -> R {
    let v = gen_scripts(s, c, 3, 2);
    let _ = in_turns(s, &v);
    let choices = s.drawn.clone();
    let together = in_process(&choices, v.len())?;
    for (i, x) in v.iter().enumerate() {
        let alone = &in_process(&choices, i)?[0];
        check!(together[i].len() == alone.len(), "number", "workspace {i} gives {} results, in a process of its own {}", together[i].len(), alone.len());
        for (j, (a, b)) in together[i].iter().zip(alone).enumerate() {
            check!(a == b, "process-differs", "result {j} of workspace {i} is {a:.400}, in a process of its own {b:.400} ({:?})", x.steps);
        }
    }
    Ok(())
}

fn interleaved(s: &mut Source, c: &mut Ctx) -> R {
    let v = gen_scripts(s, c, 4, 1);
    let alone: Vec<Vec<Out>> = v.iter().map(|x| Running::new(x, new_pool()).finish()).collect();
    let done = in_turns(s, &v);
    for (i, x) in v.iter().enumerate() {
        compare("taking turns", i, x, &done[i], &alone[i])?;
    }
    Ok(())
}

fn concurrent(s: &mut Source, c: &mut Ctx) -> R {
    let v = gen_scripts(s, c, 6, 1);
    let alone: Vec<Vec<Out>> = v.iter().map(|x| Running::new(x, new_pool()).finish()).collect();
    let share = s.chance(3, 4);
    c.class_if(share, "one pool of objects");
    for _ in 0..3 {
        let shared = new_pool();
        let gate = Barrier::new(v.len());
        let done: Vec<Result<Vec<Out>, String>> = std::thread::scope(|t| {
            let h: Vec<_> = v
                .iter()
                .map(|x| {
                    let pool = if share { shared.clone() } else { new_pool() };
                    let gate = &gate;
                    t.spawn(move || {
                        gate.wait();
                        guarded(|| Running::new(x, pool).finish())
                    })
                })
                .collect();
            h.into_iter().map(|x| x.join().unwrap()).collect()
        });
        for (i, x) in v.iter().enumerate() {
            match &done[i] {
                Ok(o) => compare("at the same time", i, x, o, &alone[i])?,
                Err(e) => return fail("panic-concurrent", format!("workspace {i} panics next to others: {e}")),
            }
        }
    }
    Ok(())
}

pub fn properties() -> Vec<Property> {
    vec![Property {
        id: "C36",
        suites: vec![
            Suite { name: "interleaved", rule: "at least two workspaces learn at least two examples each", quick: 60000, thorough: 1200000, f: interleaved },
            Suite { name: "concurrent", rule: "at least two workspaces learn at least two examples each", quick: 6000, thorough: 120000, f: concurrent },
            Suite { name: "processes", rule: "the same workspaces in turns in a fresh process and each in one of its own; non-trivial: at least two workspaces learn at least two examples each", quick: 1500, thorough: 40000, f: processes },
        ],
        assumptions: vec!["threads run as the machine schedules them"],
    }]
}
