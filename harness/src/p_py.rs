//! The Python package, driven in a process of its own, against the library.
use crate::engine::*;
use crate::gen::*;
use crate::p_parse::{fix_common, mutate, parse_fresh, Format};
use crate::util::{learned_state, Saved};
use reductionml_core::types::{FeaturesType, LabelType, PredictionType};
use reductionml_core::workspace::{Configuration, Workspace};
use reductionml_core::{Features, Label, Prediction};
use serde_json::{json, Value};
use std::cell::RefCell;
use std::io::{BufRead, BufReader, Write};
use std::process::{Child, ChildStdin, ChildStdout, Command, Stdio};
use std::sync::mpsc;
use std::time::Duration;

// ---------------------------------------------------------------- the child

struct Py {
    child: Child,
    stdin: ChildStdin,
    lines: mpsc::Receiver<std::io::Result<String>>,
}

impl Drop for Py {
    fn drop(&mut self) {
        let _ = self.child.kill();
        let _ = self.child.wait();
    }
}

fn start() -> Py {
    let path = std::env::var("VERIF_PYPATH").unwrap_or_else(|_| "/verif/harness/target/py".into());
    let python = ["/opt/vp/pyenv/bin/python", "/opt/veriftools/pyvenv/bin/python"].into_iter().find(|p| std::path::Path::new(p).exists()).unwrap_or("python3");
    let mut child = Command::new(python)
        .args(["-u", "-c", include_str!("driver.py")])
        .env("PYTHONPATH", path)
        .env("PYTHONDONTWRITEBYTECODE", "1")
        .stdin(Stdio::piped())
        .stdout(Stdio::piped())
        .stderr(Stdio::null())
        .spawn()
        .expect("python");
    let stdin = child.stdin.take().unwrap();
    let out: ChildStdout = child.stdout.take().unwrap();
    let (tx, lines) = mpsc::channel();
    std::thread::spawn(move || {
        for l in BufReader::new(out).lines() {
            if tx.send(l).is_err() {
                break;
            }
        }
    });
    let mut py = Py { child, stdin, lines };
    // a package that cannot be imported is no answer, not a violation
    match ask(&mut py, &json!([])) {
        Ok(v) if v == json!([]) => py,
        other => panic!("the Python package does not load: {other:?}"),
    }
}

fn ask(py: &mut Py, prog: &Value) -> Result<Value, String> {
    let r = py.stdin.write_all(format!("{prog}\n").as_bytes()).and_then(|_| py.stdin.flush());
    if let Err(e) = r {
        return Err(format!("the interpreter is gone: {e}"));
    }
    match py.lines.recv_timeout(Duration::from_secs(60)) {
        Ok(Ok(l)) => serde_json::from_str(&l).map_err(|e| format!("{e}: {l}")),
        Ok(Err(e)) => Err(format!("{e}")),
        Err(mpsc::RecvTimeoutError::Timeout) => Err("no answer within 60 s".into()),
        Err(_) => Err(format!("the interpreter ended: {:?}", py.child.wait())),
    }
}

fn run(prog: &Value) -> Result<Value, String> {
    thread_local!(static PY: RefCell<Option<Py>> = const { RefCell::new(None) });
    PY.with(|p| {
        let mut p = p.borrow_mut();
        if p.is_none() {
            *p = Some(start());
        }
        let r = ask(p.as_mut().unwrap(), prog);
        if r.is_err() {
            *p = None;
        }
        r
    })
}

// ---------------------------------------------------------------- what the package should show

fn b(x: f32) -> Value {
    json!(x.to_bits())
}

fn show_label(l: &Option<Label>) -> Value {
    match l {
        None => Value::Null,
        Some(Label::Simple(s)) => json!(["simple", b(s.value()), b(s.weight())]),
        Some(Label::CB(c)) => json!(["cb", c.action, b(c.cost), b(c.probability)]),
        Some(Label::Binary(x)) => json!(["binary", x.0]),
    }
}

fn show_pred(p: &Prediction) -> Value {
    let list = |v: &Vec<(usize, f32)>| v.iter().map(|(a, x)| json!([a, b(*x)])).collect::<Vec<_>>();
    match p {
        Prediction::Scalar(s) => json!(["scalar", b(s.prediction), b(s.raw_prediction)]),
        Prediction::Binary(_) => json!(["binary"]),
        Prediction::ActionScores(a) => json!(["scores", list(&a.0)]),
        Prediction::ActionProbs(a) => json!(["probs", list(&a.0)]),
    }
}

fn label_name(l: LabelType) -> &'static str {
    match l {
        LabelType::Simple => "LabelType.Simple",
        LabelType::Binary => "LabelType.Binary",
        LabelType::CB => "LabelType.CB",
    }
}
fn features_name(f: FeaturesType) -> &'static str {
    match f {
        FeaturesType::SparseSimple => "FeaturesType.SparseSimple",
        FeaturesType::SparseCBAdf => "FeaturesType.SparseCbAdf",
    }
}
fn pred_name(p: PredictionType) -> &'static str {
    match p {
        PredictionType::Scalar => "PredictionType.Scalar",
        PredictionType::Binary => "PredictionType.Binary",
        PredictionType::ActionScores => "PredictionType.ActionScores",
        PredictionType::ActionProbs => "PredictionType.ActionProbs",
    }
}

fn show_types(w: &Workspace) -> Value {
    let t = w.get_entry_reduction().types();
    json!([
        label_name(t.input_label_type()),
        features_name(t.input_features_type()),
        t.input_prediction_type().map(pred_name),
        t.output_label_type().map(label_name),
        t.output_features_type().map(features_name),
        pred_name(t.output_prediction_type()),
    ])
}

fn kind_of(f: &Features) -> &'static str {
    match f {
        Features::SparseSimple(_) | Features::SparseSimpleRef(_) => "simple",
        Features::SparseCBAdf(_) | Features::SparseCBAdfRef(_) => "cb",
    }
}

// ---------------------------------------------------------------- programs

struct Ws {
    w: Workspace,
    st: Stack,
    g: Global,
}
struct Parser {
    fmt: Format,
    ft: FeaturesType,
    lt: LabelType,
    seed: u32,
    bits: u8,
    /// the stack whose examples it is fed
    st: Stack,
}
struct Fx {
    f: Features<'static>,
    l: Option<Label>,
    ft: FeaturesType,
    lt: LabelType,
    bits: u8,
    actions: usize,
    ew: bool,
}

fn sort_keys(e: &mut ExAst) {
    for ns in e.iter_mut() {
        ns.feats.sort_by(|a, b| {
            let k = |f: &Feat| match f {
                Feat::Num { name, .. } | Feat::Str { name, .. } => Some(name.clone()),
                Feat::Anon { .. } => None,
            };
            k(a).cmp(&k(b))
        });
    }
    e.sort_by_key(|n| n.name.clone().unwrap_or_else(|| ":default".into()));
}

const ERR: &str = "\u{0}error";

struct Prog {
    ops: Vec<Value>,
    want: Vec<Value>,
    ws: Vec<Option<Ws>>,
    ps: Vec<Parser>,
    fs: Vec<Option<Fx>>,
    errors: usize,
    uses: usize,
    learns: usize,
    dicts: usize,
    reuse: usize,
}

impl Prog {
    fn push(&mut self, op: Value, want: Value) {
        self.errors += (want == json!(ERR)) as usize;
        self.ops.push(op);
        self.want.push(want);
    }
    fn live(&self, s: &mut Source) -> Option<usize> {
        let v: Vec<usize> = (0..self.ws.len()).filter(|i| self.ws[*i].is_some()).collect();
        if v.is_empty() {
            None
        } else {
            Some(*s.pick(&v))
        }
    }
    /// features which workspace i can take
    fn fitting(&self, s: &mut Source, i: usize) -> Option<usize> {
        let w = self.ws[i].as_ref().unwrap();
        let v: Vec<usize> = (0..self.fs.len())
            .filter(|k| self.fs[*k].as_ref().is_some_and(|f| f.ft == w.st.features && f.bits <= w.g.bits && (!w.st.uses_ew || f.ew)))
            .collect();
        if v.is_empty() {
            None
        } else {
            Some(*s.pick(&v))
        }
    }
}

fn mutate_json(s: &mut Source, v: &Value) -> Value {
    fn paths(v: &Value, at: String, out: &mut Vec<String>) {
        out.push(at.clone());
        match v {
            Value::Object(m) => m.iter().for_each(|(k, x)| paths(x, format!("{at}/{k}"), out)),
            Value::Array(a) => a.iter().enumerate().for_each(|(k, x)| paths(x, format!("{at}/{k}"), out)),
            _ => (),
        }
    }
    let mut v = v.clone();
    let mut all = vec![];
    paths(&v, String::new(), &mut all);
    // the outermost value has to stay a dictionary
    all.remove(0);
    if all.is_empty() {
        return v;
    }
    let p = s.pick(&all).clone();
    // anything is true or false in Python
    if v.pointer(&p).unwrap().is_boolean() {
        return v;
    }
    match s.usize(3) {
        0 => *v.pointer_mut(&p).unwrap() = s.pick(&[json!("nonsense"), json!({}), json!([]), json!(-1), json!(40), json!(null), json!(0.5)]).clone(),
        1 => {
            let (up, key) = p.rsplit_once('/').unwrap();
            match v.pointer_mut(up).unwrap() {
                Value::Object(m) => {
                    m.remove(key);
                }
                Value::Array(a) => {
                    a.remove(key.parse().unwrap());
                }
                _ => (),
            }
        }
        _ => {
            if let Some(m) = v.pointer_mut(&p).unwrap().as_object_mut() {
                m.insert("unknown".into(), json!(1));
            }
        }
    }
    v
}

fn create(v: &Value) -> Result<Workspace, String> {
    let c: Configuration = serde_json::from_value(v.clone()).map_err(|e| e.to_string())?;
    Workspace::new(c).map_err(|e| e.to_string())
}

fn programs(s: &mut Source, c: &mut Ctx) -> R {
    let mut p = Prog { ops: vec![], want: vec![], ws: vec![], ps: vec![], fs: vec![], errors: 0, uses: 0, learns: 0, dicts: 0, reuse: 0 };
    let n = s.range(4, 40);
    let mut used: Vec<bool> = vec![];
    for _ in 0..n {
        let k = s.weighted(&[if p.ws.is_empty() { 100 } else { 2 }, 6, 12, 8, 2, 1, 2, 2, 1, 2, 3]);
        match k {
            // a new workspace
            0 => {
                let kind = *s.pick(&["coin", "cbadf", "greedy", "softmax", "squarecb"]);
                let st = stack_of(s, &StackOpts::default(), kind);
                let g = global(s, 8);
                let v = config_json(&g, &st.entry);
                let w = create(&v).expect("a valid configuration");
                p.push(json!({"op": "config", "id": p.ws.len(), "config": v}), show_types(&w));
                c.class(st.kind);
                p.ws.push(Some(Ws { w, st, g }));
            }
            // a new parser and a first example
            1 => {
                let Some(i) = p.live(s) else { continue };
                let w = p.ws[i].as_ref().unwrap();
                let (st, g) = (w.st.clone(), (w.g.seed, w.g.bits));
                let cb = st.label == LabelType::CB;
                let fmt = *s.pick(if cb { &[Format::Vw, Format::Json, Format::Dsjson][..] } else { &[Format::Vw, Format::Json][..] });
                let name = match fmt {
                    Format::Vw => "VwText",
                    Format::Json => "Json",
                    Format::Dsjson => "DsJson",
                };
                let ty = if fmt == Format::Vw { "TextParser" } else { "JsonParser" };
                let id = p.ps.len();
                let (ft, lt) = (st.features, st.label);
                if s.chance(1, 4) {
                    // of its own, with other settings of the hash
                    let seed = if s.bool() { g.0 } else { s.below(5) as u32 };
                    let bits = s.range(1, g.1 as usize) as u8;
                    p.push(
                        json!({"op": "own_parser", "id": id, "format": name, "features": &features_name(ft)[13..], "label": &label_name(lt)[10..], "seed": seed, "bits": bits}),
                        json!(ty),
                    );
                    p.ps.push(Parser { fmt, ft, lt, seed, bits, st });
                } else {
                    p.push(json!({"op": "parser", "id": id, "ws": i, "format": name}), json!(ty));
                    p.ps.push(Parser { fmt, ft, lt, seed: g.0, bits: g.1, st });
                }
            }
            // parse
            2 => {
                if p.ps.is_empty() {
                    continue;
                }
                let id = s.usize(p.ps.len());
                let q = &p.ps[id];
                let mut f = stack_example(s, &q.st);
                // now and then something long: a namespace of many features, a long name, many actions
                if s.chance(1, 12) {
                    let n = *s.pick(&[9, 17, 33, 40, 65, 130, 257, 300]);
                    let anon = s.bool();
                    let mut wide: Vec<Feat> = (0..n)
                        .map(|i| {
                            let value = 0.25 * (1 + i % 5) as f32;
                            if anon {
                                Feat::Anon { value }
                            } else {
                                Feat::Num { name: format!("w{i}"), value }
                            }
                        })
                        .collect();
                    if s.chance(1, 3) && !anon {
                        wide.truncate(1);
                        wide.push(Feat::Num { name: "n".repeat(n), value: 1.0 });
                    }
                    let wide = NsAst { name: Some("wide".into()), feats: wide };
                    match &mut f {
                        FeatsAst::Simple(e) => e.push(wide),
                        FeatsAst::Cb(x) => match s.usize(3) {
                            0 => x.shared.get_or_insert_with(Vec::new).push(wide),
                            1 => x.actions[0].push(wide),
                            _ => {
                                for i in 0..n.min(40) {
                                    x.actions.push(vec![NsAst { name: Some("more".into()), feats: vec![Feat::Num { name: format!("{i}"), value: 1.0 }] }]);
                                }
                            }
                        },
                    }
                    c.class("a long example");
                }
                match &mut f {
                    FeatsAst::Simple(e) => {
                        fix_common(e);
                        sort_keys(e);
                    }
                    FeatsAst::Cb(x) => {
                        fix_common(x.shared.get_or_insert_with(Vec::new));
                        sort_keys(x.shared.as_mut().unwrap());
                        x.actions.iter_mut().for_each(|a| {
                            fix_common(a);
                            sort_keys(a)
                        });
                    }
                }
                let l = if s.chance(1, 3) { None } else { Some(label_for(q.lt, &f, s)) };
                let mut text = match (q.fmt, &f) {
                    (Format::Vw, f) => vw_example(f, &l),
                    (Format::Json, f) => json_example(f, &l),
                    (Format::Dsjson, FeatsAst::Cb(x)) => dsjson_example(x, &l),
                    _ => unreachable!(),
                };
                let mut dict = q.fmt != Format::Vw && s.bool();
                if s.chance(1, 8) {
                    text = mutate(s, &text);
                    dict = false;
                }
                let want = guarded(|| parse_fresh(q.fmt, q.ft, q.seed, q.bits, &text));
                let to = p.fs.len();
                let op = json!({"op": "parse", "id": id, "to": to, "text": text, "dict": dict, "same": dict && s.chance(1, 3)});
                match want {
                    // judged elsewhere
                    Err(_) => continue,
                    Ok(Err(_)) => {
                        p.push(op, json!(ERR));
                        c.class("text refused");
                    }
                    Ok(Ok((fe, la))) => {
                        let w = json!([kind_of(&fe), show_label(&la)]);
                        let (ft, lt, bits) = (q.ft, q.lt, q.bits);
                        let actions = match &fe {
                            Features::SparseCBAdf(x) => x.actions.len(),
                            _ => 1,
                        };
                        // a damaged text can hold numbers out of all proportion
                        let tame = |f: &reductionml_core::sparse_namespaced_features::SparseFeatures| observe_sparse(f).iter().all(|(_, v)| v.iter().all(|(_, x)| x.abs() < 1e4));
                        if !match &fe {
                            Features::SparseSimple(x) => tame(x),
                            Features::SparseCBAdf(x) => x.shared.iter().chain(&x.actions).all(tame),
                            _ => true,
                        } {
                            continue;
                        }
                        // and name a label no stack takes
                        let la = la.filter(|l| match l {
                            Label::CB(x) => x.action < actions && x.probability > 1e-3 && x.probability <= 1.0 && x.cost.abs() < 1e4,
                            Label::Simple(x) => x.value().abs() < 1e4 && (0.0..1e3).contains(&x.weight()),
                            _ => false,
                        });
                        p.dicts += dict as usize;
                        let ew = q.st.uses_ew;
                        p.push(op, w);
                        p.fs.push(Some(Fx { f: fe, l: la, ft, lt, bits, actions, ew }));
                        used.push(false);
                    }
                }
            }
            // predict or learn
            3 => {
                let Some(i) = p.live(s) else { continue };
                for _ in 0..s.range(1, 3) {
                    let Some(k) = p.fitting(s, i) else { break };
                    let x = p.fs[k].as_mut().unwrap();
                    let w = p.ws[i].as_mut().unwrap();
                    let what = s.usize(3);
                    if x.lt != w.st.label || x.actions == 0 {
                        break;
                    }
                    // the label parsed with it, or one made by hand
                    let own = x.l.clone();
                    let (label, arg) = match own {
                        Some(l) if s.bool() => (l, Value::Null),
                        _ if x.lt == LabelType::CB => {
                            let a = s.usize(x.actions);
                            let (cost, prob) = (if s.chance(1, 30) { 3.0e38 } else { label_value(s) }, probability(s));
                            let l: Label = reductionml_core::CBLabel::new(a, cost, prob).into();
                            (l, json!(["cb", a, cost, prob]))
                        }
                        _ => {
                            let v = if s.chance(1, 30) { 3.0e38 } else { label_value(s) };
                            if s.bool() {
                                (reductionml_core::SimpleLabel::new(v, 1.0).into(), json!(["simple", v]))
                            } else {
                                let wt = *s.pick(&[0.5f32, 2.0, 1.0]);
                                (reductionml_core::SimpleLabel::new(v, wt).into(), json!(["simple", v, wt]))
                            }
                        }
                    };
                    let shown = show_label(&Some(label.clone()));
                    let r = guarded(|| match what {
                        0 => (json!({"op": "predict", "id": i, "f": k}), show_pred(&w.w.predict(&mut x.f))),
                        1 => {
                            w.w.learn(&mut x.f, &label);
                            (json!({"op": "learn", "id": i, "f": k, "label": arg}), shown)
                        }
                        _ => (json!({"op": "ptl", "id": i, "f": k, "label": arg}), json!([shown, show_pred(&w.w.predict_then_learn(&mut x.f, &label))])),
                    });
                    match r {
                        // judged elsewhere
                        Err(_) => return Ok(()),
                        Ok((op, want)) => p.push(op, want),
                    }
                    p.uses += 1;
                    p.learns += (what > 0) as usize;
                    p.reuse += used[k] as usize;
                    used[k] = true;
                }
            }
            // drop features
            4 => {
                if p.fs.is_empty() {
                    continue;
                }
                let k = s.usize(p.fs.len());
                p.fs[k] = None;
                p.push(json!({"op": "drop", "id": k, "gc": s.bool()}), Value::Null);
            }
            5 => {
                if p.ws.iter().flatten().count() < 2 {
                    continue;
                }
                let Some(i) = p.live(s) else { continue };
                p.ws[i] = None;
                p.push(json!({"op": "drop_workspace", "id": i}), Value::Null);
            }
            // save and load
            6 => {
                let Some(i) = p.live(s) else { continue };
                let w = p.ws[i].as_ref().unwrap();
                let (st, g) = (w.st.clone(), w.g.clone());
                let to = p.ws.len();
                let jsn = s.bool();
                let back = if jsn {
                    // what JSON cannot carry is judged elsewhere
                    let Ok(v) = w.w.serialize_to_json() else { continue };
                    if v.to_string().contains("null") && learned_state(&w.w).to_string().contains("null") {
                        continue;
                    }
                    Workspace::deserialize_from_json(&v)
                } else {
                    Workspace::create_from_model(&w.w.serialize_model().unwrap())
                };
                let Ok(back) = back else { continue };
                p.push(json!({"op": if jsn { "reload_json" } else { "reload" }, "id": i, "to": to}), show_types(&back));
                p.ws.push(Some(Ws { w: back, st, g }));
            }
            // show the model
            7 => {
                let Some(i) = p.live(s) else { continue };
                let w = &p.ws[i].as_ref().unwrap().w;
                let (op, want) = if s.bool() {
                    ("serialize", json!(w.serialize_model().unwrap()))
                } else {
                    ("to_json", w.serialize_to_json().unwrap_or_else(|_| json!(ERR)))
                };
                c.class_if(want == json!(ERR), "no JSON form");
                p.push(json!({"op": op, "id": i}), want);
            }
            // objects made by hand
            8 => {
                let (x, y) = (num(s), num(s));
                let (op, want) = match s.usize(5) {
                    0 => {
                        let form = s.usize(3);
                        (json!({"op": "construct", "kind": "simple", "value": [x, y], "form": form}), json!(["simple", b(x), b(if form == 2 { 1.0 } else { y })]))
                    }
                    1 => {
                        let a = s.usize(9);
                        (json!({"op": "construct", "kind": "cb", "value": [a, x, y], "form": s.usize(2)}), json!(["cb", a, b(x), b(y)]))
                    }
                    2 => (json!({"op": "construct", "kind": "scalar", "value": [x, y]}), json!(["scalar", b(x), b(y)])),
                    k => {
                        let kind = if k == 3 { "scores" } else { "probs" };
                        let v: Vec<(usize, f32)> = (0..s.usize(4)).map(|_| (s.usize(7), num(s))).collect();
                        (json!({"op": "construct", "kind": kind, "value": v}), json!([kind, v.iter().map(|(a, x)| json!([a, b(*x)])).collect::<Vec<_>>()]))
                    }
                };
                p.push(op, want);
            }
            // what can be no workspace
            9 => {
                let Some(i) = p.live(s) else { continue };
                let w = p.ws[i].as_ref().unwrap();
                let to = p.ws.len();
                let (st, g) = (w.st.clone(), w.g.clone());
                let (op, r) = match s.usize(3) {
                    0 => {
                        let v = mutate_json(s, &config_json(&g, &st.entry));
                        if v.pointer("/globalConfig/numBits").and_then(|x| x.as_u64()).is_some_and(|b| b > 10 && b < 32) {
                            continue;
                        }
                        let r = guarded(|| create(&v));
                        (json!({"op": "config", "id": to, "config": v}), r)
                    }
                    1 => {
                        let Ok(v) = w.w.serialize_to_json() else { continue };
                        let v = mutate_json(s, &v);
                        let r = guarded(|| Workspace::deserialize_from_json(&v).map_err(|e| e.to_string()));
                        (json!({"op": "json_model", "id": to, "model": v}), r)
                    }
                    _ => {
                        let mut m = w.w.serialize_model().unwrap();
                        m.truncate(s.usize(m.len()));
                        let r = guarded(|| Workspace::create_from_model(&m).map_err(|e| e.to_string()));
                        (json!({"op": "model", "id": to, "bytes": m, "as": s.pick(&["list", "list", "list"])}), r)
                    }
                };
                match r {
                    Err(_) => continue,
                    Ok(Err(_)) => {
                        p.push(op, json!(ERR));
                        c.class("workspace refused");
                    }
                    // what is lenient in one may be strict in the other
                    Ok(Ok(_)) => continue,
                }
            }
            // a model of the library
            _ => {
                let Some(i) = p.live(s) else { continue };
                let w = p.ws[i].as_ref().unwrap();
                let (st, g) = (w.st.clone(), w.g.clone());
                let m = w.w.serialize_model().unwrap();
                let back = Workspace::create_from_model(&m).expect("own model");
                p.push(json!({"op": "model", "id": p.ws.len(), "bytes": m, "as": s.pick(&["list", "bytes", "bytearray"])}), show_types(&back));
                p.ws.push(Some(Ws { w: back, st, g }));
            }
        }
    }
    // in the end, everything that is left is shown
    for i in 0..p.ws.len() {
        if let Some(w) = &p.ws[i] {
            let m = json!(w.w.serialize_model().unwrap());
            p.push(json!({"op": "serialize", "id": i}), m);
        }
    }
    let prog = Value::Array(p.ops.clone());
    c.nontrivial(p.learns > 0 && p.uses > 1);
    c.class_if(p.dicts > 0, "dictionaries parsed");
    c.class_if(p.reuse > 0, "features used again");
    c.class_if(p.errors > 0 && p.uses > 0, "errors between uses");
    c.class_if(p.ws.len() > 1, "several workspaces");
    c.probes += p.ops.len() as u64;
    c.identity(&prog.to_string());
    c.describe(|| prog.to_string());
    let got = match run(&prog) {
        Ok(v) => v,
        Err(e) => return fail("interpreter", e),
    };
    for (k, (op, want)) in p.ops.iter().zip(&p.want).enumerate() {
        let g = &got[k];
        let name = op["op"].as_str().unwrap();
        if *want == json!(ERR) {
            check!(g["exception"] == json!(true), "not-refused", "step {k}: {op}: the library refuses this; Python gave {g}");
            continue;
        }
        check!(g.get("ok").is_some(), format!("{name}-failed"), "step {k}: {op}: Python gave {g}");
        // the bits of what is no number may differ between builds
        if name == "serialize" && saved(&g["ok"]).is_some_and(|x| Some(x) == saved(want)) {
            continue;
        }
        check!(same(&g["ok"], want), format!("{name}-differs"), "step {k}: {op}: Python gave {} instead of {want}", g["ok"]);
    }
    Ok(())
}

fn saved(v: &Value) -> Option<Saved> {
    v.as_array()?.iter().map(|b| b.as_u64().and_then(|b| u8::try_from(b).ok())).collect::<Option<Vec<u8>>>().map(Saved)
}

/// Equal JSON; numbers that are no numbers are all the same.
fn same(a: &Value, b: &Value) -> bool {
    match (a, b) {
        (Value::Array(x), Value::Array(y)) => x.len() == y.len() && x.iter().zip(y).all(|(x, y)| same(x, y)),
        (Value::Object(x), Value::Object(y)) => x.len() == y.len() && x.iter().all(|(k, v)| y.get(k).is_some_and(|w| same(v, w))),
        (Value::Number(x), Value::Number(y)) => {
            x == y || x.as_f64() == y.as_f64() || {
                let nan = |n: &serde_json::Number| n.as_u64().is_some_and(|u| u <= u32::MAX as u64 && f32::from_bits(u as u32).is_nan());
                nan(x) && nan(y)
            }
        }
        _ => a == b,
    }
}

pub fn properties() -> Vec<Property> {
    vec![Property {
        id: "C34",
        suites: vec![Suite { name: "programs", rule: "at least one learning step and another use of a model", quick: 20000, thorough: 400000, f: programs }],
        assumptions: vec!["the library run in the harness is the reference: what both do wrong is judged by the other properties"],
    }]
}
