//! Model life-cycle properties: save/load, JSON export, purity of prediction, predict-then-learn,
//! transparency of the Debug reduction.
use crate::util::*;
use crate::engine::*;
use crate::gen::*;
use reductionml_core::workspace::Workspace;
use reductionml_core::{Features, Prediction};
use serde_json::{json, Value};

#[derive(Clone, Debug)]
pub enum Op {
    Learn(FeatsAst, LabelAst),
    Predict(FeatsAst),
    Ptl(FeatsAst, LabelAst),
}

pub fn gen_ops(s: &mut Source, st: &Stack, lo: usize, hi: usize) -> Vec<Op> {
    let n = s.range(lo, hi);
    let mut ops: Vec<Op> = vec![];
    let mut seen: Vec<FeatsAst> = vec![];
    let scale = magnitude(s);
    for _ in 0..n {
        let f = next_example(s, st, &seen, scale);
        seen.push(f.clone());
        let l = label_for(st.label, &f, s);
        ops.push(match s.weighted(&[5, 2, 2]) {
            0 => Op::Learn(f, l),
            1 => Op::Predict(f),
            _ => Op::Ptl(f, l),
        });
    }
    ops
}

pub fn apply(w: &mut Workspace, op: &Op, g: &Global) -> Option<String> {
    match op {
        Op::Learn(f, l) => {
            w.learn(&mut lower(f, g.seed, g.bits), &l.label());
            None
        }
        Op::Predict(f) => Some(show(&w.predict(&mut lower(f, g.seed, g.bits)))),
        Op::Ptl(f, l) => Some(show(&w.predict_then_learn(
            &mut lower(f, g.seed, g.bits),
            &l.label(),
        ))),
    }
}

/// Exact textual form of a prediction (shortest round-trip floats).
pub fn show(p: &Prediction) -> String {
    format!("{p:?}")
}

fn n_learn(ops: &[Op]) -> usize {
    ops.iter()
        .filter(|o| !matches!(o, Op::Predict(_)))
        .count()
}

fn probes(s: &mut Source, st: &Stack, ops: &[Op]) -> Vec<FeatsAst> {
    let mut v: Vec<FeatsAst> = ops
        .iter()
        .rev()
        .take(2)
        .map(|o| match o {
            Op::Learn(f, _) | Op::Predict(f) | Op::Ptl(f, _) => f.clone(),
        })
        .collect();
    v.push(next_example(s, st, &v, 1.0));
    v
}

#[derive(Clone, Copy, PartialEq)]
enum Medium {
    Binary,
    Json,
    JsonPretty,
}

fn save_load(w: &Workspace, m: Medium) -> Result<Workspace, Fail> {
    match m {
        Medium::Binary => {
            let b = match w.serialize_model() {
                Ok(b) => b,
                Err(e) => return fail("save-error", format!("{e}")),
            };
            match Workspace::create_from_model(&b) {
                Ok(w) => Ok(w),
                Err(e) => fail("load-error", format!("{e}")),
            }
        }
        Medium::Json | Medium::JsonPretty => {
            let v = match w.serialize_to_json() {
                Ok(b) => b,
                Err(e) => return fail("save-error", format!("{e}")),
            };
            let text = if m == Medium::Json {
                v.to_string()
            } else {
                serde_json::to_string_pretty(&v).unwrap()
            };
            let back: Value = serde_json::from_str(&text).unwrap();
            match Workspace::deserialize_from_json(&back) {
                Ok(w) => Ok(w),
                Err(e) => fail("load-error", format!("{e}")),
            }
        }
    }
}

fn model_bytes(w: &Workspace) -> Result<Saved, Fail> {
    Saved::of(w)
}

/// Values at the end of the range of numbers: learning from them diverges, sometimes.
fn extreme(s: &mut Source, ops: &mut [Op]) {
    for op in ops {
        if let Op::Learn(_, l) | Op::Ptl(_, l) = op {
            if s.chance(1, 2) {
                let x = *s.pick(&[3.0e38f32, -3.0e38, 1.0e30, -1.0e25, 1.0e19, 1.0e-45]);
                match l {
                    LabelAst::Simple { value, .. } => *value = x,
                    LabelAst::Cb { cost, .. } => *cost = x,
                    LabelAst::Binary(_) => (),
                }
            }
        }
    }
}

/// The same workspace after a long life: counters as large as years of learning leave them,
/// put into its saved form. None when the saved form shows no counters.
pub fn aged(w: &Workspace, s: &mut Source) -> Option<Workspace> {
    fn walk(v: &mut Value, s: &mut Source, n: &mut usize) {
        match v {
            Value::Object(o) => {
                for (k, x) in o.iter_mut() {
                    if matches!(k.as_str(), "counter" | "action_sum" | "event_sum") && x.is_u64() {
                        let base = *s.pick(&[255u64, 65_535, (1 << 24) - 1, (1 << 31) - 1, (1 << 32) - 1, 1 << 40]);
                        *x = Value::from(base + s.below(4));
                        *n += 1;
                    } else {
                        walk(x, s, n);
                    }
                }
            }
            Value::Array(a) => {
                if a.len() < 64 {
                    a.iter_mut().for_each(|x| walk(x, s, n));
                }
            }
            _ => (),
        }
    }
    let mut v = w.serialize_to_json().ok()?;
    let mut n = 0;
    walk(v.get_mut("entry_reduction")?, s, &mut n);
    if n == 0 {
        return None;
    }
    Workspace::deserialize_from_json(&v).ok()
}

fn roundtrip(s: &mut Source, c: &mut Ctx, json_medium: bool, huge: bool) -> R {
    let st = stack(s, &StackOpts::default());
    let g = global(s, if json_medium { 7 } else { 9 });
    let mut prefix = gen_ops(s, &st, if huge { 1 } else { 0 }, 8);
    let mut suffix = gen_ops(s, &st, 1, 6);
    if huge {
        extreme(s, &mut prefix);
        extreme(s, &mut suffix);
    }
    let every = s.chance(1, 3);
    let pretty = s.chance(1, 4);
    let mut w = workspace(&g, &st.entry);
    if s.chance(1, 4) {
        if let Some(a) = aged(&w, s) {
            w = a;
            c.class("after a long life");
        }
    }
    for op in &prefix {
        apply(&mut w, op, &g);
    }
    let m = if !json_medium {
        Medium::Binary
    } else if pretty {
        Medium::JsonPretty
    } else {
        Medium::Json
    };
    c.class(st.kind);
    c.class_if(every, "reload before every operation");
    c.class_if(st.uses_ew, "elementwise");
    c.nontrivial(n_learn(&prefix) > 0 && n_learn(&suffix) > 0);
    c.identity(&format!("{:?}{:?}{:?}{:?}", st.entry, g, prefix, suffix));
    c.describe(|| format!("config {} prefix {:?} suffix {:?}", config_json(&g, &st.entry), prefix, suffix));
    let before = model_bytes(&w)?;
    if json_medium && !before_is_finite(&w) {
        // JSON has no form for it: to be refused, not altered
        c.class("non-finite model");
        if let Ok(v) = w.serialize_to_json() {
            check!(
                Workspace::deserialize_from_json(&serde_json::from_str(&v.to_string()).unwrap()).is_err(),
                "non-finite-altered",
                "a model that is not finite went through JSON without an error"
            );
        }
        return Ok(());
    }
    let mut w2 = save_load(&w, m)?;
    check!(model_bytes(&w)? == before, "save-mutates", "saving changed the model");
    check!(model_bytes(&w2)? == before, "resave-differs", "a loaded model saves differently from the original");
    check!(
        w2.get_entry_reduction().typename() == w.get_entry_reduction().typename()
            && w2.global_config().num_bits() == g.bits
            && w2.global_config().hash_seed() == g.seed
            && w2.get_entry_reduction().types().input_label_type() == st.label
            && w2.get_entry_reduction().types().input_features_type() == st.features,
        "description-differs", "loaded model describes itself differently"
    );
    for f in probes(s, &st, &prefix) {
        let a = show(&w.predict(&mut lower(&f, g.seed, g.bits)));
        let b = show(&w2.predict(&mut lower(&f, g.seed, g.bits)));
        check!(a == b, "prediction-differs", "after load: original {a} loaded {b} on {f:?}");
    }
    for op in &suffix {
        if every {
            if json_medium && !before_is_finite(&w2) {
                return Ok(());
            }
            w2 = save_load(&w2, m)?;
        }
        let a = apply(&mut w, op, &g);
        let b = apply(&mut w2, op, &g);
        check!(a == b, "resumed-prediction-differs", "resumed history: original {a:?} loaded {b:?} at {op:?}");
    }
    check!(model_bytes(&w)? == model_bytes(&w2)?, "resumed-model-differs", "after the same continued history the models differ");
    for f in probes(s, &st, &suffix) {
        let a = show(&w.predict(&mut lower(&f, g.seed, g.bits)));
        let b = show(&w2.predict(&mut lower(&f, g.seed, g.bits)));
        check!(a == b, "resumed-prediction-differs", "after resume: original {a} loaded {b}");
    }
    Ok(())
}

/// JSON has no form for NaN or infinities.
fn before_is_finite(w: &Workspace) -> bool {
    fn has_null_number(v: &Value, key: &str) -> bool {
        match v {
            Value::Null => !matches!(key, "output_label_type" | "output_features_type" | "input_prediction_type"),
            Value::Array(a) => a.iter().any(|x| has_null_number(x, "")),
            Value::Object(o) => o.iter().any(|(k, x)| has_null_number(x, k)),
            _ => false,
        }
    }
    match serde_json::to_value(w) {
        Ok(v) => !has_null_number(&v["entry_reduction"]["reduction"], ""),
        Err(_) => false,
    }
}

fn binary_roundtrip(s: &mut Source, c: &mut Ctx) -> R {
    roundtrip(s, c, false, false)
}
fn json_roundtrip(s: &mut Source, c: &mut Ctx) -> R {
    roundtrip(s, c, true, false)
}
fn json_extreme(s: &mut Source, c: &mut Ctx) -> R {
    roundtrip(s, c, true, true)
}
fn binary_extreme(s: &mut Source, c: &mut Ctx) -> R {
    roundtrip(s, c, false, true)
}

/// A saved model survives being saved at two different times of one history: no hidden state.
fn checkpoint_chain(s: &mut Source, c: &mut Ctx) -> R {
    let st = stack(s, &StackOpts::default());
    let g = global(s, 8);
    let ops = gen_ops(s, &st, 2, 10);
    let mut w = workspace(&g, &st.entry);
    if s.chance(1, 4) {
        if let Some(a) = aged(&w, s) {
            w = a;
            c.class("after a long life");
        }
    }
    let mut cks = vec![model_bytes(&w)?];
    for op in &ops {
        apply(&mut w, op, &g);
        cks.push(model_bytes(&w)?);
    }
    c.nontrivial(n_learn(&ops) > 1);
    c.class(st.kind);
    c.identity(&format!("{:?}{:?}{:?}", st.entry, g, ops));
    c.describe(|| format!("config {} ops {:?}", config_json(&g, &st.entry), ops));
    // replaying from any checkpoint reaches every later checkpoint
    let from = s.usize(ops.len());
    let mut r = match Workspace::create_from_model(&cks[from].0) {
        Ok(r) => r,
        Err(e) => return fail("load-error", format!("{e}")),
    };
    for (i, op) in ops.iter().enumerate().skip(from) {
        apply(&mut r, op, &g);
        check!(model_bytes(&r)? == cks[i + 1], "checkpoint-differs", "resuming from checkpoint {from} diverges at step {i}: {op:?}");
    }
    Ok(())
}

// ---------------------------------------------------------------- purity

fn purity(s: &mut Source, c: &mut Ctx) -> R {
    let st = stack(s, &StackOpts::default());
    let g = global(s, 7);
    let hist = gen_ops(s, &st, 0, 5);
    let mut w = workspace(&g, &st.entry);
    for op in &hist {
        apply(&mut w, op, &g);
    }
    let seen: Vec<FeatsAst> = hist
        .iter()
        .map(|o| match o {
            Op::Learn(f, _) | Op::Predict(f) | Op::Ptl(f, _) => f.clone(),
        })
        .collect();
    let mut f = next_example(s, &st, &seen, 1.0);
    if s.chance(1, 20) {
        enlarge(&mut f, s, &[1e20, 3e38, f32::INFINITY]);
        c.class("enormous or infinite values");
    }
    let other = next_example(s, &st, &[f.clone()], 1.0);
    let l = label_for(st.label, &f, s);
    c.class(st.kind);
    c.nontrivial(n_learn(&hist) > 0);
    c.identity(&format!("{:?}{:?}{:?}{:?}", st.entry, g, hist, f));
    c.describe(|| format!("config {} history {:?} example {:?} label {:?}", config_json(&g, &st.entry), hist, f, l));
    let before = model_bytes(&w)?;
    let mut fe = lower(&f, g.seed, g.bits);
    let want = expect(&f, g.seed, g.bits);
    let p1 = show(&w.predict(&mut fe));
    check!(observe(&fe) == want, "predict-mutates-features", "predict left the example as {:?}", observe(&fe));
    check!(model_bytes(&w)? == before, "predict-mutates-model", "predict changed the saved model");
    let _ = w.predict(&mut lower(&other, g.seed, g.bits));
    let p2 = show(&w.predict(&mut fe));
    check!(p1 == p2, "predict-not-repeatable", "same example predicted {p1} then {p2}");
    // by reference
    let mut owned = lower(&f, g.seed, g.bits);
    let p3 = match &mut owned {
        Features::SparseSimple(x) => show(&w.predict(&mut Features::from(x))),
        Features::SparseCBAdf(x) => show(&w.predict(&mut Features::from(x))),
        _ => unreachable!(),
    };
    check!(p1 == p3, "predict-ref-differs", "owned {p1} by reference {p3}");
    check!(observe(&owned) == want, "predict-mutates-features", "predict by reference left {:?}", observe(&owned));
    check!(model_bytes(&w)? == before, "predict-mutates-model", "predict changed the saved model");
    w.learn(&mut fe, &l.label());
    check!(observe(&fe) == want, "learn-mutates-features", "learn left the example as {:?}", observe(&fe));
    w.predict_then_learn(&mut fe, &l.label());
    check!(observe(&fe) == want, "ptl-mutates-features", "predict_then_learn left the example as {:?}", observe(&fe));
    // a history in which every example object is reused equals one with fresh objects
    Ok(())
}

/// Interleaving extra predictions anywhere in a history changes nothing later.
fn predictions_are_invisible(s: &mut Source, c: &mut Ctx) -> R {
    let st = stack(s, &StackOpts::default());
    let g = global(s, 7);
    let ops = gen_ops(s, &st, 1, 8);
    let mut a = workspace(&g, &st.entry);
    let mut b = workspace(&g, &st.entry);
    c.class(st.kind);
    c.nontrivial(n_learn(&ops) > 1);
    c.identity(&format!("{:?}{:?}{:?}", st.entry, g, ops));
    c.describe(|| format!("config {} ops {:?}", config_json(&g, &st.entry), ops));
    // b: reuses one object per distinct example and predicts in between
    for op in &ops {
        let pa = apply(&mut a, op, &g);
        let extra = s.usize(3);
        for _ in 0..extra {
            let f = stack_example(s, &st);
            b.predict(&mut lower(&f, g.seed, g.bits));
        }
        let pb = match op {
            Op::Learn(f, l) => {
                let mut fe = lower(f, g.seed, g.bits);
                b.predict(&mut fe);
                b.learn(&mut fe, &l.label());
                None
            }
            Op::Predict(f) => {
                let mut fe = lower(f, g.seed, g.bits);
                b.predict(&mut fe);
                Some(show(&b.predict(&mut fe)))
            }
            Op::Ptl(f, l) => {
                let mut fe = lower(f, g.seed, g.bits);
                b.predict(&mut fe);
                Some(show(&b.predict_then_learn(&mut fe, &l.label())))
            }
        };
        check!(pa == pb, "interleaved-prediction-visible", "without extra predictions {pa:?}, with {pb:?}");
    }
    check!(model_bytes(&a)? == model_bytes(&b)?, "interleaved-prediction-visible", "models differ after interleaving predictions");
    Ok(())
}

// ---------------------------------------------------------------- predict_then_learn

fn ptl_equiv(s: &mut Source, c: &mut Ctx) -> R {
    let st = stack(s, &StackOpts::default());
    let g = global(s, 8);
    let n = s.range(1, 8);
    let mut a = workspace(&g, &st.entry);
    let mut b = workspace(&g, &st.entry);
    let mut hist = vec![];
    for _ in 0..n {
        let seen: Vec<FeatsAst> = hist.iter().map(|h: &(FeatsAst, LabelAst)| h.0.clone()).collect();
        let f = next_example(s, &st, &seen, 1.0);
        let l = label_for(st.label, &f, s);
        hist.push((f, l));
    }
    c.class(st.kind);
    c.nontrivial(hist.len() > 1);
    c.identity(&format!("{:?}{:?}{:?}", st.entry, g, hist));
    c.describe(|| format!("config {} history {:?}", config_json(&g, &st.entry), hist));
    for (i, (f, l)) in hist.iter().enumerate() {
        let pa = show(&a.predict_then_learn(&mut lower(f, g.seed, g.bits), &l.label()));
        let mut fe = lower(f, g.seed, g.bits);
        let pb = show(&b.predict(&mut fe));
        b.learn(&mut fe, &l.label());
        check!(pa == pb, "ptl-prediction-differs", "step {i}: predict_then_learn {pa}, predict {pb}");
        check!(model_bytes(&a)? == model_bytes(&b)?, "ptl-model-differs", "step {i}: models differ");
    }
    Ok(())
}

// ---------------------------------------------------------------- Debug transparency

fn insert_debug(v: &Value, s: &mut Source, count: &mut usize) -> Value {
    let mut v = v.clone();
    for key in ["regressor", "cbAdf", "next"] {
        let inner = v["config"][key].clone();
        if inner.is_object() {
            let w = insert_debug(&inner, s, count);
            v["config"][key] = w;
        }
    }
    let mut k = s.weighted(&[3, 3, 1]);
    while k > 0 {
        *count += 1;
        let mut m = serde_json::Map::new();
        if s.bool() {
            m.insert("id".into(), json!(name(s)));
        }
        for f in ["prediction", "label", "features"] {
            if s.chance(1, 2) {
                m.insert(f.into(), json!(s.bool()));
            }
        }
        if s.bool() {
            m.insert("indent".into(), json!(if s.chance(1, 40) { s.below(400) } else { s.below(5) }));
        }
        m.insert("next".into(), v);
        v = json!({"typename": "Debug", "config": m});
        k -= 1;
    }
    v
}

fn debug_transparent(s: &mut Source, c: &mut Ctx) -> R {
    let o = StackOpts {
        debug: false,
        ..Default::default()
    };
    let st = stack(s, &o);
    let g = global(s, 7);
    let mut count = 0;
    let wrapped = insert_debug(&st.entry, s, &mut count);
    let ops = gen_ops(s, &st, 1, 6);
    c.class(st.kind);
    c.nontrivial(count > 0 && n_learn(&ops) > 0);
    c.identity(&format!("{:?}{:?}{:?}", wrapped, g, ops));
    c.describe(|| format!("config {} ops {:?}", config_json(&g, &wrapped), ops));
    let mut a = workspace(&g, &st.entry);
    let mut b = workspace(&g, &wrapped);
    let (ta, tb) = (a.get_entry_reduction().types(), b.get_entry_reduction().types());
    check!(
        ta.input_label_type() == tb.input_label_type()
            && ta.input_features_type() == tb.input_features_type()
            && ta.output_prediction_type() == tb.output_prediction_type(),
        "debug-changes-types", "Debug changes what the stack accepts or produces"
    );
    for op in &ops {
        let pa = apply(&mut a, op, &g);
        let pb = apply(&mut b, op, &g);
        check!(pa == pb, "debug-changes-prediction", "plain {pa:?} with Debug {pb:?}");
    }
    for f in probes(s, &st, &ops) {
        let pa = show(&a.predict(&mut lower(&f, g.seed, g.bits)));
        let pb = show(&b.predict(&mut lower(&f, g.seed, g.bits)));
        check!(pa == pb, "debug-changes-prediction", "plain {pa} with Debug {pb}");
    }
    Ok(())
}

pub fn properties() -> Vec<Property> {
    vec![
        Property {
            id: "C01",
            suites: vec![
                Suite {
                    name: "binary_roundtrip",
                    rule: "random stack, global config and operation history, saved and reloaded at a random point (sometimes before every later operation); non-trivial: learning before and after the save",
                    quick: 45000,
                    thorough: 900000,
                    f: binary_roundtrip,
                },
                Suite {
                    name: "binary_extreme",
                    rule: "as binary_roundtrip, with labels and costs of up to 3e38, so that some models have infinite or undefined numbers; non-trivial: learning before and after the save",
                    quick: 15000,
                    thorough: 300000,
                    f: binary_extreme,
                },
                Suite {
                    name: "checkpoint_chain",
                    rule: "every prefix of a history is checkpointed and the history is replayed from a random checkpoint; non-trivial: at least two learning steps",
                    quick: 23000,
                    thorough: 460000,
                    f: checkpoint_chain,
                },
                Suite {
                    name: "long_resume",
                    rule: "20 to 400 examples (sometimes with thousands of features or hundreds of actions, sometimes nearly all weights of a table of 2^17 or 2^18 features in use), saved and loaded at a random point; non-trivial: saved after at least one example",
                    quick: 610,
                    thorough: 12200,
                    f: crate::p_long::resume_binary,
                },
            ],
            assumptions: vec!["models are saved and loaded by the same build", "numBits up to 18"],
        },
        Property {
            id: "C02",
            suites: vec![
                Suite {
                name: "json_roundtrip",
                rule: "as binary_roundtrip, through the JSON export printed as text and re-imported; non-trivial: learning before and after the export",
                quick: 44000,
                thorough: 880000,
                f: json_roundtrip,
            },
            Suite {
                name: "json_extreme",
                rule: "as json_roundtrip, with labels and costs of up to 3e38: what JSON cannot carry must be refused, everything else preserved; non-trivial: learning before and after the export",
                quick: 20000,
                thorough: 400000,
                f: json_extreme,
            },
            Suite {
                    name: "long_resume",
                    rule: "as long_resume of C01, through JSON text; non-trivial: saved after at least one example",
                    quick: 780,
                    thorough: 15600,
                    f: crate::p_long::resume_json,
                }],
            assumptions: vec!["of models with infinite or undefined numbers, which JSON does not have, only that they are refused with an error", "numBits up to 18"],
        },
        Property {
            id: "C03",
            suites: vec![
                Suite {
                    name: "purity",
                    rule: "random stack and history, then predict (owned and by reference), learn and predict-then-learn on one example object; non-trivial: the model has learned before",
                    quick: 75000,
                    thorough: 1500000,
                    f: purity,
                },
                Suite {
                    name: "interleaved",
                    rule: "the same history with and without extra predictions inserted at random points; non-trivial: at least two learning steps",
                    quick: 56000,
                    thorough: 1120000,
                    f: predictions_are_invisible,
                },
                Suite {
                    name: "long_interleaved",
                    rule: "20 to 400 examples with and without predictions in between; every case is non-trivial",
                    quick: 1000,
                    thorough: 20000,
                    f: crate::p_long::twice_predict,
                },
                Suite { name: "large_example", rule: "examples with up to 70000 features, namespaces or bytes; every case is non-trivial", quick: 12500, thorough: 250000, f: crate::p_large::untouched },
            ],
            assumptions: vec!["numBits up to 11"],
        },
        Property {
            id: "C04",
            suites: vec![Suite {
                name: "ptl_equiv",
                rule: "one history applied with predict_then_learn and with predict followed by learn; non-trivial: at least two steps",
                quick: 91000,
                thorough: 1820000,
                f: ptl_equiv,
            },
            Suite {
                    name: "long_ptl",
                    rule: "20 to 400 examples, some with up to a thousand features or 270 actions; every case is non-trivial",
                    quick: 980,
                    thorough: 19600,
                    f: crate::p_long::twice_ptl,
                }],
            assumptions: vec![],
        },
        Property {
            id: "C05",
            suites: vec![Suite {
                name: "debug_transparent",
                rule: "a random stack with and without Debug reductions inserted at random levels, driven by one history; non-trivial: at least one Debug inserted and one learning step",
                quick: 83000,
                thorough: 1660000,
                f: debug_transparent,
            },
            Suite {
                    name: "long_debug",
                    rule: "20 to 400 examples, some with up to a thousand features or 270 actions; every case is non-trivial",
                    quick: 830,
                    thorough: 16600,
                    f: crate::p_long::twice_debug,
                }],
            assumptions: vec!["what Debug prints is not checked"],
        },
    ]
}
