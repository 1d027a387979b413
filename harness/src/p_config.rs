//! Configurations: defaults, equivalent writings, what is refused, and the published schema.
use crate::engine::*;
use crate::gen::*;
use crate::p_model::{apply, gen_ops, show, Op};
use crate::schema;
use crate::util::*;
use reductionml_core::config_schema::ConfigSchema;
use reductionml_core::reduction_registry::REDUCTION_REGISTRY;
use reductionml_core::workspace::{Configuration, Workspace};
use reductionml_core::{FeaturesType, LabelType, Prediction};
use serde_json::{json, Map, Value};

// ---------------------------------------------------------------- what a configuration may hold

#[derive(Clone, Copy, Debug, PartialEq)]
enum Kind {
    Float,
    Rate,
    Bool,
    Text,
    Count,
    Reduction,
    Ns,
    CbType,
    Loss,
    Link,
    U32,
    Bits,
    Interactions,
}

const NAMES: [&str; 8] =
    ["Coin", "Binary", "CbAdf", "CbExploreAdfGreedy", "CbExploreAdfSoftmax", "CbExploreAdfSquareCb", "Debug", "ElementwiseInteraction"];

/// Settings of a reduction with their documented defaults.
fn settings(typename: &str) -> Vec<(&'static str, Kind, Value)> {
    use Kind::*;
    let coin = json!({"typename": "Coin"});
    let cb = json!({"typename": "CbAdf"});
    match typename {
        "Coin" => vec![
            ("alpha", Float, json!(4.0)),
            ("beta", Float, json!(1.0)),
            ("l1Lambda", Float, json!(0.0)),
            ("l2Lambda", Float, json!(0.0)),
            ("linkFunction", Link, json!("Identity")),
            ("lossFunction", Loss, json!({"Squared": {}})),
        ],
        "Binary" => vec![("regressor", Reduction, coin)],
        "CbAdf" => vec![("cbType", CbType, json!("mtr")), ("regressor", Reduction, coin)],
        "CbExploreAdfGreedy" => vec![("epsilon", Rate, json!(0.05)), ("cbAdf", Reduction, cb)],
        "CbExploreAdfSoftmax" => vec![("uniformEpsilon", Rate, json!(0.0)), ("lambda", Float, json!(1.0)), ("cbAdf", Reduction, cb)],
        "CbExploreAdfSquareCb" => vec![
            ("uniformEpsilon", Rate, json!(0.0)),
            ("gammaScale", Float, json!(10.0)),
            ("gammaExponent", Float, json!(0.5)),
            ("cbAdf", Reduction, cb),
        ],
        "Debug" => vec![
            ("id", Text, json!("")),
            ("prediction", Bool, json!(false)),
            ("label", Bool, json!(false)),
            ("features", Bool, json!(false)),
            ("indent", Count, json!(0)),
            ("next", Reduction, coin),
        ],
        "ElementwiseInteraction" => vec![
            ("regressor", Reduction, coin),
            ("one", Ns, json!("Default")),
            ("two", Ns, json!("Default")),
            ("keepOriginalFeatures", Bool, json!(false)),
        ],
        _ => vec![],
    }
}

fn global_settings() -> Vec<(&'static str, Kind, Value)> {
    vec![
        ("numBits", Kind::Bits, json!(18)),
        ("hashSeed", Kind::U32, json!(0)),
        ("constantFeatureEnabled", Kind::Bool, json!(true)),
        ("interactions", Kind::Interactions, json!([])),
    ]
}

/// Every omitted setting written out.
fn fill(v: &Value) -> Value {
    let t = v["typename"].as_str().unwrap();
    let mut m = v["config"].as_object().cloned().unwrap_or_default();
    for (k, kind, d) in settings(t) {
        let x = m.entry(k.to_string()).or_insert(d);
        if kind == Kind::Reduction {
            *x = fill(x);
        }
    }
    json!({"typename": t, "config": m})
}

fn fill_global(v: &Value) -> Value {
    let mut m = v.as_object().cloned().unwrap_or_default();
    for (k, _, d) in global_settings() {
        m.entry(k.to_string()).or_insert(d);
    }
    Value::Object(m)
}

/// Equality of configurations; numbers as single precision.
fn same_value(a: &Value, b: &Value) -> bool {
    match (a, b) {
        (Value::Number(x), Value::Number(y)) => x.as_f64().map(|v| v as f32) == y.as_f64().map(|v| v as f32),
        (Value::Array(x), Value::Array(y)) => x.len() == y.len() && x.iter().zip(y).all(|(a, b)| same_value(a, b)),
        (Value::Object(x), Value::Object(y)) => {
            x.len() == y.len() && x.iter().all(|(k, v)| y.get(k).map_or(false, |w| same_value(v, w)))
        }
        _ => a == b,
    }
}

/// Leaves out some settings that have their default value.
fn strip(s: &mut Source, v: &Value, dropped: &mut usize) -> Value {
    let t = v["typename"].as_str().unwrap();
    let mut m = v["config"].as_object().cloned().unwrap_or_default();
    for (k, kind, d) in settings(t) {
        let Some(x) = m.get(k).cloned() else { continue };
        let (x, is_default) = if kind == Kind::Reduction {
            (strip(s, &x, dropped), same_value(&fill(&x), &fill(&d)))
        } else {
            let e = same_value(&x, &d);
            (x, e)
        };
        if is_default && s.chance(2, 3) {
            *dropped += 1;
            m.remove(k);
        } else {
            m.insert(k.to_string(), x);
        }
    }
    if m.is_empty() && s.bool() {
        *dropped += 1;
        json!({"typename": t})
    } else {
        json!({"typename": t, "config": m})
    }
}

// ---------------------------------------------------------------- writing a configuration down

/// JSON with members in random order and random blanks.
fn json_text(s: &mut Source, v: &Value) -> String {
    let sp = |s: &mut Source| *s.pick(&["", " ", "\n  ", "\t"]);
    match v {
        Value::Object(m) => {
            let ks: Vec<&String> = m.keys().collect();
            let parts: Vec<String> = s
                .permutation(ks.len())
                .into_iter()
                .map(|i| format!("{}{}{}:{}{}", sp(s), Value::from(ks[i].as_str()), sp(s), sp(s), json_text(s, &m[ks[i]])))
                .collect();
            format!("{{{}{}}}", parts.join(","), sp(s))
        }
        Value::Array(xs) => {
            let parts: Vec<String> = xs.iter().map(|x| format!("{}{}", sp(s), json_text(s, x))).collect();
            format!("[{}{}]", parts.join(","), sp(s))
        }
        x => x.to_string(),
    }
}

fn plain_scalar(x: &str) -> bool {
    let reserved = ["true", "false", "null", "yes", "no", "on", "off", "y", "n"];
    x.chars().next().map_or(false, |c| c.is_ascii_alphabetic())
        && x.chars().all(|c| c.is_ascii_alphanumeric())
        && !reserved.contains(&x.to_ascii_lowercase().as_str())
        && !["inf", "nan"].contains(&x.to_ascii_lowercase().as_str())
}

fn yaml_scalar(s: &mut Source, v: &Value) -> String {
    match v {
        Value::String(x) if plain_scalar(x) && s.bool() => x.clone(),
        Value::String(x) if !x.contains('\'') && !x.chars().any(|c| c.is_control()) && s.bool() => format!("'{x}'"),
        x => x.to_string(),
    }
}

fn yaml_flow(s: &mut Source, v: &Value) -> String {
    match v {
        Value::Object(m) => {
            let parts: Vec<String> =
                m.iter().map(|(k, x)| format!("{}: {}", yaml_scalar(s, &json!(k)), yaml_flow(s, x))).collect();
            format!("{{{}}}", parts.join(", "))
        }
        Value::Array(xs) => format!("[{}]", xs.iter().map(|x| yaml_flow(s, x)).collect::<Vec<_>>().join(", ")),
        x => yaml_scalar(s, x),
    }
}

/// Block style with comments, flow style inside here and there.
fn yaml_block(s: &mut Source, v: &Value, indent: usize, out: &mut String) {
    let pad = " ".repeat(indent);
    match v {
        Value::Object(m) if !m.is_empty() => {
            let ks: Vec<&String> = m.keys().collect();
            for i in s.permutation(ks.len()) {
                if s.chance(1, 8) {
                    out.push_str(&format!("{pad}# a comment: {{\n"));
                }
                let x = &m[ks[i]];
                let key = yaml_scalar(s, &json!(ks[i]));
                let nested = match x {
                    Value::Object(o) => !o.is_empty(),
                    Value::Array(a) => !a.is_empty(),
                    _ => false,
                };
                if nested && !s.chance(1, 4) {
                    out.push_str(&format!("{pad}{key}:\n"));
                    let deeper = indent + s.range(1, 3);
                    yaml_block(s, x, deeper, out);
                } else {
                    out.push_str(&format!("{pad}{key}: {}\n", yaml_flow(s, x)));
                }
            }
        }
        Value::Array(xs) if !xs.is_empty() => {
            for x in xs {
                out.push_str(&format!("{pad}- {}\n", yaml_flow(s, x)));
            }
        }
        x => out.push_str(&format!("{pad}{}\n", yaml_flow(s, x))),
    }
}

fn build(cfg: Result<Configuration, reductionml_core::error::Error>) -> Result<Workspace, String> {
    cfg.and_then(Workspace::new).map_err(|e| e.to_string())
}

pub fn from_json(text: &str) -> Result<Workspace, String> {
    match guarded(|| build(Configuration::from_json_str(text))) {
        Ok(r) => r,
        Err(p) => Err(format!("PANIC {p}")),
    }
}

pub fn from_yaml(text: &str) -> Result<Workspace, String> {
    match guarded(|| build(Configuration::from_yaml_str(text))) {
        Ok(r) => r,
        Err(p) => Err(format!("PANIC {p}")),
    }
}

// ---------------------------------------------------------------- C21

pub fn gen_stack(s: &mut Source) -> Stack {
    let noisy = s.chance(1, 4);
    stack(s, &StackOpts { noisy_debug: noisy, ..Default::default() })
}

/// Settings of the global section; absent ones are at their default.
fn gen_global(s: &mut Source, default_bits: bool) -> (Global, Value) {
    let mut g = global(s, 9);
    let mut m = g.json().as_object().cloned().unwrap();
    if default_bits {
        m.remove("numBits");
        g.bits = 18;
    }
    for (k, d) in [("hashSeed", json!(0)), ("constantFeatureEnabled", json!(true)), ("interactions", json!([]))] {
        if m[k] == d && s.chance(2, 3) {
            m.remove(k);
        }
    }
    (g, Value::Object(m))
}

fn check_same(a: &mut Workspace, b: &mut Workspace, g: &Global, ops: &[Op], what: &str) -> R {
    for (i, op) in ops.iter().enumerate() {
        let (pa, pb) = (apply(a, op, g), apply(b, op, g));
        check!(pa == pb, "predictions-differ", "{what}: operation {i}: {pa:?} and {pb:?}");
    }
    for op in ops {
        let f = match op {
            Op::Learn(f, _) | Op::Predict(f) | Op::Ptl(f, _) => f,
        };
        let pa = show(&a.predict(&mut lower(f, g.seed, g.bits)));
        let pb = show(&b.predict(&mut lower(f, g.seed, g.bits)));
        check!(pa == pb, "predictions-differ", "{what}: at the end {pa} and {pb}");
    }
    let (sa, sb) = (learned_state(a), learned_state(b));
    check!(sa == sb, "state-differs", "{what}: learned {sa} and {sb}");
    let (ga, gb) = (a.global_config(), b.global_config());
    check!(
        ga.num_bits() == gb.num_bits() && ga.hash_seed() == gb.hash_seed() && ga.constant_feature_enabled() == gb.constant_feature_enabled(),
        "global-differs", "{what}: {ga:?} and {gb:?}"
    );
    check!(ga.num_bits() == g.bits && ga.hash_seed() == g.seed && ga.constant_feature_enabled() == g.constant, "global-values", "{what}: {ga:?}, written {g:?}");
    Ok(())
}

fn defaults(s: &mut Source, c: &mut Ctx) -> R {
    let st = gen_stack(s);
    let db = s.chance(1, 3);
    let (g, gj) = gen_global(s, db);
    let full = fill(&st.entry);
    let mut dropped = gj.as_object().map_or(0, |m| 4 - m.len());
    let short = strip(s, &full, &mut dropped);
    let mut a = json!({"globalConfig": fill_global(&gj), "entryReduction": full});
    if s.chance(1, 4) {
        a["$schema"] = json!("./schema.json");
    }
    let b = json!({"globalConfig": gj, "entryReduction": short});
    let ops = gen_ops(s, &st, 1, 5);
    c.class(st.kind);
    c.class_if(db, "default numBits");
    c.nontrivial(dropped > 0);
    c.identity(&format!("{b}{ops:?}"));
    c.describe(|| format!("{b} against {a}; operations {ops:?}"));
    let load = |text: &str| match from_json(text) {
        Ok(w) => Ok(w),
        Err(e) => fail("refused", format!("{text}: {e}")),
    };
    let mut wa = load(&json_text(s, &a))?;
    let mut wb = load(&json_text(s, &b))?;
    check_same(&mut wa, &mut wb, &g, &ops, "defaults written out and left out")
}

/// The published defaults are the ones in effect.
fn published(s: &mut Source, c: &mut Ctx) -> R {
    let t = *s.pick(&NAMES);
    let r = REDUCTION_REGISTRY.lock();
    let f = match r.get(t) {
        Some(f) => f,
        None => return fail("not-registered", t),
    };
    let d = f.get_config_default();
    let want = fill(&json!({"typename": t}));
    let got = fill(&json!({"typename": t, "config": d}));
    c.class(t);
    c.nontrivial(true);
    c.identity(&t);
    c.describe(|| format!("{t}: {d}"));
    check!(d.as_object().map(|m| m.len()) == Some(settings(t).len()), "default-incomplete", "{t}: default configuration {d}");
    check!(same_value(&got, &want), "default-value", "{t}: default configuration {got}, documented {want}");
    let schema = published_schema();
    let props = &schema["definitions"][t]["properties"]["config"]["properties"];
    for (k, kind, dv) in settings(t) {
        let p = &props[k]["default"];
        let ok = if kind == Kind::Reduction {
            p["typename"].is_string() && same_value(&fill(p), &fill(&dv))
        } else {
            same_value(p, &dv)
        };
        check!(ok, "schema-default", "{t}.{k}: the schema says the default is {p}, it is {dv}");
    }
    for (k, _, dv) in global_settings() {
        let p = &schema["definitions"]["GlobalConfig"]["properties"][k]["default"];
        check!(same_value(p, &dv), "schema-default", "globalConfig.{k}: the schema says the default is {p}, it is {dv}");
    }
    // a full configuration with all defaults is one that can be used
    let text = json!({"globalConfig": {}, "entryReduction": {"typename": t, "config": d}}).to_string();
    if let Err(e) = from_json(&text) {
        return fail("default-refused", format!("{text}: {e}"));
    }
    Ok(())
}

fn writings(s: &mut Source, c: &mut Ctx) -> R {
    let st = gen_stack(s);
    let (g, gj) = gen_global(s, false);
    let mut cfg = json!({"globalConfig": gj, "entryReduction": st.entry});
    if s.chance(1, 4) {
        cfg["$schema"] = json!("https://example.org/schema.json");
    }
    let ops = gen_ops(s, &st, 1, 4);
    let j = json_text(s, &cfg);
    let y = if s.chance(1, 5) {
        yaml_flow(s, &cfg)
    } else {
        let mut o = String::new();
        if s.chance(1, 4) {
            o.push_str("---\n");
        }
        yaml_block(s, &cfg, 0, &mut o);
        o
    };
    c.class(st.kind);
    c.nontrivial(true);
    c.identity(&format!("{j}{y}"));
    c.describe(|| format!("JSON\n{j}\nYAML\n{y}"));
    let mut base = match from_json(&cfg.to_string()) {
        Ok(w) => w,
        Err(e) => return fail("refused", format!("{cfg}: {e}")),
    };
    let mut wj = match from_json(&j) {
        Ok(w) => w,
        Err(e) => return fail("json-refused", format!("{j}: {e}")),
    };
    let mut wy = match from_yaml(&y) {
        Ok(w) => w,
        Err(e) => return fail("yaml-refused", format!("{y}: {e}")),
    };
    check_same(&mut base, &mut wj, &g, &ops, "JSON with another layout")?;
    let mut base = from_json(&cfg.to_string()).unwrap();
    check_same(&mut base, &mut wy, &g, &ops, "YAML")
}

/// `config new` prints a configuration that is the default one.
fn config_new(s: &mut Source, c: &mut Ctx) -> R {
    let known = s.chance(5, 6);
    let t = if known { s.pick(&NAMES).to_string() } else { s.pick(&["coin", "Foo", "CbExploreAdf", "", "Coin2"]).to_string() };
    let mut args = vec!["config", "new", t.as_str()];
    if s.bool() {
        args.push("--latest");
    }
    if s.chance(1, 4) {
        args.insert(0, "--quiet");
    }
    c.class(if known { "known reduction" } else { "unknown reduction" });
    c.nontrivial(known);
    c.identity(&args.join(" "));
    c.describe(|| args.join(" "));
    let o = reml(&args, std::path::Path::new("/"))?;
    if !known {
        check!(o.code != Some(0), "unknown-accepted", "{args:?}: exit {:?}, {}", o.code, o.out);
        return Ok(());
    }
    check!(o.code == Some(0), "exit", "{args:?}: exit {:?}: {}", o.code, o.err);
    let v: Value = match serde_json::from_str(&o.out) {
        Ok(v) => v,
        Err(e) => return fail("not-json", format!("{args:?}: {e}: {}", o.out)),
    };
    check!(v["entryReduction"]["typename"] == json!(t), "typename", "{v}");
    check!(same_value(&fill(&v["entryReduction"]), &fill(&json!({"typename": t}))), "defaults", "{args:?}: {v}");
    check!(same_value(&fill_global(&v["globalConfig"]), &fill_global(&json!({}))), "defaults", "{args:?}: {v}");
    if let Err(e) = from_json(&o.out) {
        return fail("refused", format!("{args:?}: {e}: {v}"));
    }
    let sch = published_schema();
    if let Err(e) = schema::valid(&sch, &sch, &v) {
        return fail("schema-refuses", format!("{args:?}: {e}: {v}"));
    }
    Ok(())
}

// ---------------------------------------------------------------- C22

#[derive(Clone, Copy, Debug, PartialEq)]
enum Pred {
    Scalar,
    Binary,
    Scores,
    Probs,
}

/// Types of a stack, or None if its parts do not fit. The flag says that the answer is not specified.
fn typed(v: &Value) -> (Option<(LabelType, FeaturesType, Pred)>, bool) {
    use FeaturesType::*;
    let d = fill(v);
    let t = d["typename"].as_str().unwrap();
    let key = settings(t).iter().find(|x| x.1 == Kind::Reduction).map(|x| x.0);
    let Some(key) = key else { return (Some((LabelType::Simple, SparseSimple, Pred::Scalar)), false) };
    let below = &d["config"][key];
    let (b, mut open) = typed(below);
    let Some((l, f, p)) = b else { return (None, open) };
    let cb = l == LabelType::CB && f == SparseCBAdf && p == Pred::Scores;
    let r = match t {
        "Binary" => (l == LabelType::Simple && p == Pred::Scalar).then_some((LabelType::Binary, f, Pred::Binary)),
        "CbAdf" => (l == LabelType::Simple && f == SparseSimple && p == Pred::Scalar).then_some((LabelType::CB, SparseCBAdf, Pred::Scores)),
        "Debug" => Some((l, f, p)),
        "ElementwiseInteraction" => (f == SparseSimple).then_some((l, f, p)),
        "CbExploreAdfSquareCb" => {
            // only mtr is supported; whether it is found behind Debug is not specified
            let mut x = below;
            let mut direct = true;
            while x["typename"] == json!("Debug") {
                x = &x["config"]["next"];
                direct = false;
            }
            let ips = cb && x["config"]["cbType"] == json!("ips");
            if ips && !direct {
                open = true;
            }
            (cb && !ips).then_some((l, f, Pred::Probs))
        }
        _ => cb.then_some((l, f, Pred::Probs)),
    };
    (r, open)
}

/// Any nesting of reductions, mostly ones that fit.
pub fn any_stack(s: &mut Source, depth: usize) -> Value {
    let t = if depth == 0 { "Coin" } else { *s.pick(&NAMES) };
    let mut m = Map::new();
    for (k, kind, _) in settings(t) {
        match kind {
            Kind::Reduction => {
                if s.chance(5, 6) {
                    let x = if s.chance(2, 3) {
                        // something that fits
                        match t {
                            "CbAdf" => scalar_stack(s, &StackOpts::default(), &mut false),
                            "Binary" => scalar_stack(s, &StackOpts::default(), &mut false),
                            "CbExploreAdfGreedy" | "CbExploreAdfSoftmax" => cbadf_stack(s, &StackOpts::default(), false, &mut false),
                            "CbExploreAdfSquareCb" => {
                                let mtr = !s.chance(1, 4);
                                cbadf_stack(s, &StackOpts::default(), mtr, &mut false)
                            }
                            _ => any_stack(s, depth - 1),
                        }
                    } else {
                        any_stack(s, depth - 1)
                    };
                    m.insert(k.into(), x);
                }
            }
            Kind::Rate if s.bool() => {
                m.insert(k.into(), json!(unit(s)));
            }
            Kind::CbType if s.bool() => {
                m.insert(k.into(), json!(s.pick(&["mtr", "ips"])));
            }
            Kind::Ns if s.bool() => {
                m.insert(k.into(), json!({"Name": s.pick(&["A", "B"])}));
            }
            _ => (),
        }
    }
    json!({"typename": t, "config": m})
}

fn type_check(s: &mut Source, c: &mut Ctx) -> R {
    let depth = s.range(0, 4);
    let entry = any_stack(s, depth);
    let g = global(s, 8);
    let cfg = config_json(&g, &entry);
    let (want, open) = typed(&entry);
    c.class(if open { "not specified" } else if want.is_some() { "fits" } else { "does not fit" });
    c.class_if(entry["typename"] == json!("Debug"), "Debug on top");
    c.nontrivial(!open && entry["typename"] != json!("Coin"));
    c.identity(&cfg.to_string());
    c.describe(|| cfg.to_string());
    let got = from_json(&cfg.to_string());
    if let Err(e) = &got {
        check!(!e.starts_with("PANIC"), "panic", "{cfg}: {e}");
    }
    if open {
        return Ok(());
    }
    let (l, f, p) = match want {
        None => {
            check!(got.is_err(), "accepts-unfit", "accepted although its parts do not fit: {cfg}");
            return Ok(());
        }
        Some(x) => x,
    };
    let mut w = match got {
        Ok(w) => w,
        Err(e) => return fail("refuses-fit", format!("{cfg}: {e}")),
    };
    let ty = w.get_entry_reduction().types();
    check!(ty.input_label_type() == l && ty.input_features_type() == f, "types", "{cfg}: takes {:?} {:?}, want {l:?} {f:?}", ty.input_label_type(), ty.input_features_type());
    // an accepted stack can be used
    for _ in 0..2 {
        let ast = feats_features(f, s, &ExOpts { ns_pool: Some(ns_pool()), ..Default::default() });
        let lab = label_for(l, &ast, s);
        let r = guarded(|| {
            w.learn(&mut lower(&ast, g.seed, g.bits), &lab.label());
            w.predict(&mut lower(&ast, g.seed, g.bits))
        });
        let pr = match r {
            Ok(p) => p,
            Err(e) => return fail("unusable", format!("{cfg}: accepted, but learning or predicting {ast:?} panics: {e}")),
        };
        let pk = match pr {
            Prediction::Scalar(_) => Pred::Scalar,
            Prediction::Binary(_) => Pred::Binary,
            Prediction::ActionScores(_) => Pred::Scores,
            Prediction::ActionProbs(_) => Pred::Probs,
        };
        check!(pk == p, "prediction-type", "{cfg}: predicts {pk:?}, want {p:?}");
    }
    Ok(())
}

/// Paths of all reductions within a configuration.
fn reduction_paths(v: &Value, at: String, out: &mut Vec<String>) {
    out.push(at.clone());
    let t = v["typename"].as_str().unwrap();
    for (k, kind, _) in settings(t) {
        if kind == Kind::Reduction && v["config"][k].is_object() {
            reduction_paths(&v["config"][k], format!("{at}/config/{k}"), out);
        }
    }
}

/// A Debug reduction with an indent of any size is refused, or can be used.
fn extreme_indent(s: &mut Source, c: &mut Ctx, st: Stack, cfg: &Value) -> R {
    let mut cfg = cfg.clone();
    cfg["globalConfig"]["numBits"] = json!(6);
    let indent = match s.usize(12) {
        0..=6 => json!(*s.pick(&[65536u64, 65537, 70000, 1 << 31, 1 << 32, 1 << 40, 1 << 63, u64::MAX])),
        7..=10 => json!(s.range(65536, 200000)),
        _ => json!(*s.pick(&[65535, 65534, 32768])),
    };
    cfg["entryReduction"] = json!({"typename": "Debug", "config": {"indent": indent, "prediction": true, "next": st.entry}});
    c.class("indent of any size");
    c.nontrivial(true);
    c.identity(&cfg.to_string());
    c.describe(|| cfg.to_string());
    let mut w = match from_json(&cfg.to_string()) {
        Ok(w) => w,
        Err(e) => {
            check!(!e.starts_with("PANIC"), "panic", "{cfg}: {e}");
            return Ok(());
        }
    };
    let ast = stack_example(s, &st);
    let l = label_for(st.label, &ast, s);
    let bits = w.global_config().num_bits();
    let seed = w.global_config().hash_seed();
    let r = guarded(|| {
        w.predict(&mut lower(&ast, seed, bits));
        w.learn(&mut lower(&ast, seed, bits), &l.label());
    });
    check!(r.is_ok(), "unusable", "{cfg}: accepted, but learning or predicting {ast:?} panics: {r:?}");
    Ok(())
}

fn out_of_range(s: &mut Source, c: &mut Ctx) -> R {
    let st = gen_stack(s);
    let (_, gj) = gen_global(s, false);
    let mut cfg = json!({"globalConfig": gj, "entryReduction": st.entry});
    let mut yaml_number: Option<&str> = None;
    if s.chance(1, 2000) {
        return extreme_indent(s, c, st, &cfg);
    }
    let what = match s.usize(8) {
        7 => {
            // parameters with which the policies give no distribution
            let (kind, key, bad) = match s.usize(4) {
                0 => ("softmax", "lambda", *s.pick(&[1e39, -1e39, 1e300])),
                1 => ("squarecb", "gammaScale", *s.pick(&[-1.0, -1e-3, -1e30, 1e39, -1e39])),
                2 => ("squarecb", "gammaExponent", *s.pick(&[-1.0, -1e-3, -1e30, 1e39, -1e39])),
                _ => ("squarecb", "gammaScale", -((s.below(1000) + 1) as f64) / 64.0),
            };
            let st = stack_of(s, &StackOpts::default(), kind);
            let mut e = st.entry;
            let mut at = String::new();
            while e.pointer(&at).unwrap()["typename"] == json!("Debug") {
                at.push_str("/config/next");
            }
            e.pointer_mut(&at).unwrap()["config"][key] = json!(bad);
            cfg["entryReduction"] = e;
            "exploration parameter out of range"
        }
        0 => {
            cfg["globalConfig"]["numBits"] = json!(s.range(32, 300));
            "too many bits"
        }
        1 => {
            cfg["globalConfig"]["numBits"] = json!(-(s.below(200) as i64) - 1);
            "negative bits"
        }
        2 => {
            cfg["globalConfig"]["hashSeed"] = if s.bool() { json!((1u64 << 32) + s.below(1 << 33)) } else { json!(-(s.below(1 << 20) as i64) - 1) };
            "seed out of range"
        }
        3 => {
            let n = *s.pick(&[0usize, 1, 4, 5, 7]);
            let bad: Vec<Option<String>> = (0..n).map(|_| s.pick(&ns_pool()).clone()).collect();
            let mut all = cfg["globalConfig"]["interactions"].as_array().cloned().unwrap_or_default();
            let i = s.usize(all.len() + 1);
            all.insert(i, interaction_json(&bad));
            cfg["globalConfig"]["interactions"] = Value::Array(all);
            "interaction that is no pair or triple"
        }
        _ => {
            // an exploration rate that is no probability
            let kinds = ["greedy", "softmax", "squarecb"];
            let kind = *s.pick(&kinds);
            let st = stack_of(s, &StackOpts::default(), kind);
            let mut e = st.entry;
            let mut at = String::new();
            while e.pointer(&at).unwrap()["typename"] == json!("Debug") {
                at.push_str("/config/next");
            }
            let key = if kind == "greedy" { "epsilon" } else { "uniformEpsilon" };
            let bad = match s.usize(5) {
                0 => json!(1.0 + (s.below(100) + 1) as f64 / 50.0),
                1 => json!(-((s.below(100) + 1) as f64) / 50.0),
                2 => json!(*s.pick(&[1.001, -0.001, -1e-6, 1.00001])),
                3 => json!(*s.pick(&[1e9, -1e30, 1e38])),
                _ => {
                    yaml_number = Some(*s.pick(&[".nan", ".inf", "-.inf"]));
                    json!("@@")
                }
            };
            e.pointer_mut(&at).unwrap()["config"][key] = bad;
            cfg["entryReduction"] = e;
            "exploration rate that is no probability"
        }
    };
    c.class(what);
    c.nontrivial(true);
    let text = match yaml_number {
        Some(n) => {
            let mut o = String::new();
            yaml_block(s, &cfg, 0, &mut o);
            for q in ["\"@@\"", "'@@'"] {
                o = o.replace(q, n);
            }
            o
        }
        None => cfg.to_string(),
    };
    c.identity(&text);
    c.describe(|| format!("{what}: {text}"));
    let r = if yaml_number.is_some() { from_yaml(&text) } else { from_json(&text) };
    match r {
        Ok(_) => fail("accepted", format!("{what}: accepted {text}")),
        Err(e) => {
            check!(!e.starts_with("PANIC"), "panic", "{what}: {text}: {e}");
            Ok(())
        }
    }
}

/// `config check` answers as the loader does.
fn config_check(s: &mut Source, c: &mut Ctx) -> R {
    let bad = s.bool();
    let g = global(s, 10);
    let depth = s.range(1, 3);
    let entry = any_stack(s, depth);
    let (t, open) = typed(&entry);
    let mut cfg = config_json(&g, &entry);
    let mut want = t.is_some();
    if bad {
        want = false;
        match s.usize(4) {
            0 => cfg["globalConfig"]["numBits"] = json!(40),
            1 => cfg["globalConfig"]["interactions"] = json!([["Default"]]),
            2 => cfg["extra"] = json!(1),
            _ => cfg["entryReduction"]["typename"] = json!("Nothing"),
        }
    }
    let mut text = json_text(s, &cfg);
    if s.chance(1, 12) {
        text.pop();
        want = false;
    }
    c.class(if want { "valid" } else { "invalid" });
    c.nontrivial(!open);
    c.identity(&text);
    c.describe(|| text.clone());
    let dir = scratch();
    let f = dir.path().join("config.json");
    std::fs::write(&f, &text).unwrap();
    let o = reml(&["config", "check", f.to_str().unwrap()], dir.path())?;
    if open {
        return Ok(());
    }
    check!((o.code == Some(0)) == want, "check-answer", "valid: {want}, exit {:?} {} {} for {text}", o.code, o.out, o.err);
    check!((o.out.trim() == "ok") == want, "check-output", "valid: {want}, printed {:?}", o.out);
    let missing = dir.path().join("missing.json");
    if s.chance(1, 10) {
        let o = reml(&["config", "check", missing.to_str().unwrap()], dir.path())?;
        check!(o.code != Some(0), "missing-file", "exit {:?} for a missing file", o.code);
    }
    Ok(())
}

// ---------------------------------------------------------------- C23

pub fn published_schema() -> Value {
    let mut sch = ConfigSchema::new();
    REDUCTION_REGISTRY.lock().iter().for_each(|x| sch.add_reduction(x));
    serde_json::to_value(sch.schema()).unwrap()
}

/// The schema the library builds and the one published in the repository.
fn schemas() -> Vec<(&'static str, Value)> {
    let mut v = vec![("the generated schema", published_schema())];
    let f = std::env::var("VERIF_REPO").unwrap_or_else(|_| "/repo".into()) + "/schemas/config/latest/schema.json";
    if let Ok(t) = std::fs::read_to_string(f) {
        if let Ok(x) = serde_json::from_str(&t) {
            v.push(("schemas/config/latest/schema.json", x));
        }
    }
    v
}

thread_local! {
    static SCHEMAS: Vec<(&'static str, Value)> = schemas();
}

/// Answers of all schemas.
fn schema_says(v: &Value) -> Vec<(&'static str, Result<(), String>)> {
    SCHEMAS.with(|s| s.iter().map(|(n, s)| (*n, schema::valid(s, s, v))).collect())
}

/// `gen-schema` prints what the library builds.
fn gen_schema(s: &mut Source, c: &mut Ctx) -> R {
    let mut args = vec!["gen-schema"];
    if s.bool() {
        args.insert(0, "--quiet");
    }
    c.class("gen-schema");
    c.nontrivial(true);
    c.identity(&args);
    c.describe(|| args.join(" "));
    let o = reml(&args, std::path::Path::new("/"))?;
    check!(o.code == Some(0), "exit", "{:?} {}", o.code, o.err);
    let v: Value = match serde_json::from_str(&o.out) {
        Ok(v) => v,
        Err(e) => return fail("not-json", format!("{e}: {}", o.out)),
    };
    check!(same_value(&v, &published_schema()), "other-schema", "gen-schema prints {v}");
    Ok(())
}

fn schema_valid(s: &mut Source, c: &mut Ctx) -> R {
    let st = gen_stack(s);
    let (_, gj) = gen_global(s, false);
    let entry = match s.usize(3) {
        0 => fill(&st.entry),
        1 => strip(s, &fill(&st.entry), &mut 0),
        _ => st.entry.clone(),
    };
    let mut cfg = json!({"globalConfig": gj, "entryReduction": entry});
    if s.bool() {
        cfg["$schema"] = json!(name(s));
    }
    c.class(st.kind);
    c.nontrivial(true);
    c.identity(&cfg.to_string());
    c.describe(|| cfg.to_string());
    if let Err(e) = from_json(&cfg.to_string()) {
        return fail("loader-refuses", format!("{cfg}: {e}"));
    }
    for (n, r) in schema_says(&cfg) {
        if let Err(e) = r {
            return fail("schema-refuses", format!("{n}: {cfg}: {e}"));
        }
    }
    Ok(())
}

/// A value that a setting of this kind cannot have.
fn wrong_value(s: &mut Source, k: Kind) -> Value {
    let all: &[Value] = match k {
        Kind::Float | Kind::Rate => &[json!("1"), json!(true), json!(null), json!({}), json!([1.0]), json!("NaN")],
        Kind::Bool => &[json!(0), json!(1), json!("true"), json!(null), json!({}), json!([])],
        Kind::Text => &[json!(0), json!(true), json!(null), json!({}), json!(["a"])],
        Kind::Count | Kind::U32 | Kind::Bits => &[json!(-1), json!(1.5), json!("4"), json!(true), json!(null), json!({}), json!([4])],
        Kind::Reduction => &[json!("Coin"), json!(1), json!(true), json!(null), json!({}), json!({"config": {}})],
        Kind::Ns => &[json!("Other"), json!("default"), json!(1), json!(null), json!({}), json!({"Name": 1}), json!({"Name": null}), json!({"name": "a"}), json!({"Name": "a", "Extra": 1}), json!("")],
        Kind::CbType => &[json!("dr"), json!("Mtr"), json!("IPS"), json!(""), json!(1), json!(null), json!({})],
        Kind::Loss => &[json!("squared"), json!({"Hinge": {}}), json!({"squared": {}}), json!(1), json!({}), json!(null), json!({"Squared": 1}), json!({"Squared": {}, "Logistic": {}})],
        Kind::Link => &[json!("identity"), json!("Probit"), json!(""), json!(1), json!(null), json!({})],
        Kind::Interactions => &[
            json!({}), json!("A"), json!(1), json!(null), json!(["Default", "Default"]), json!([{"Name": "A"}]), json!([["A", "B"]]), json!([[1, 2]]),
            json!([["Default", {"Name": 1}]]), json!([["Default", {"Name": "A", "x": 1}]]), json!([["Default", {}]]), json!([null]),
        ],
    };
    s.pick(all).clone()
}

fn near_key(s: &mut Source, known: &[&str]) -> String {
    near_key_of(s, known).0
}

/// A key that is not known, and the known one it resembles.
fn near_key_of(s: &mut Source, known: &[&str]) -> (String, String) {
    loop {
        let k = *s.pick(known);
        let x = match s.usize(8) {
            0 => name(s),
            6 | 7 if s.bool() => {
                // with a letter left out, doubled or exchanged
                let mut cs: Vec<char> = k.chars().collect();
                let i = s.usize(cs.len());
                match s.usize(3) {
                    0 => {
                        cs.remove(i);
                    }
                    1 => cs.insert(i, cs[i]),
                    _ => {
                        let j = s.usize(cs.len());
                        cs.swap(i, j)
                    }
                }
                cs.into_iter().collect()
            }
            6 => k.to_lowercase(),
            1 | 7 => {
                // the name of the field in another style
                let mut o = String::new();
                for ch in k.chars() {
                    if ch.is_ascii_uppercase() {
                        o.push('_');
                    }
                    o.push(ch.to_ascii_lowercase());
                }
                o
            }
            2 => format!("{}{}", k[..1].to_uppercase(), &k[1..]),
            3 => format!("{k}s"),
            4 => s.pick(&["alpha", "epsilon", "regressor", "cbAdf", "numBits", "next", "typename", "config", "type", "description", "$schema"]).to_string(),
            _ => k.to_uppercase(),
        };
        if !known.contains(&x.as_str()) {
            return (x, k.to_string());
        }
    }
}

/// Writes a key that is not known, with a value that suits the key it resembles, beside or instead of that key.
fn misplace(s: &mut Source, at: &mut Value, key: String, like: &str, set: &[(&'static str, Kind, Value)]) {
    let now = at.get(like).cloned().or_else(|| set.iter().find(|x| x.0 == like).map(|x| x.2.clone())).unwrap();
    if s.bool() {
        at.as_object_mut().unwrap().remove(like);
    }
    at[key] = if s.chance(1, 4) { json!(1) } else { now };
}

fn schema_invalid(s: &mut Source, c: &mut Ctx) -> R {
    let st = gen_stack(s);
    let (_, gj) = gen_global(s, false);
    let mut entry = st.entry.clone();
    if s.bool() {
        entry = fill(&entry);
    }
    let mut paths = vec![];
    reduction_paths(&entry, String::new(), &mut paths);
    let path = s.pick(&paths).clone();
    let t = entry.pointer(&path).unwrap()["typename"].as_str().unwrap().to_string();
    let set = settings(&t);
    let keys: Vec<&str> = set.iter().map(|x| x.0).collect();
    let gset = global_settings();
    let mut cfg = json!({"globalConfig": gj, "entryReduction": entry});
    let red = format!("/entryReduction{path}");
    if !cfg.pointer(&red).unwrap()["config"].is_object() {
        cfg.pointer_mut(&red).unwrap()["config"] = json!({});
    }
    let what = match s.usize(12) {
        0 => {
            if keys.is_empty() {
                cfg.pointer_mut(&red).unwrap()["config"]["alpha"] = json!(1);
            } else {
                let (k, like) = near_key_of(s, &keys);
                misplace(s, &mut cfg.pointer_mut(&red).unwrap()["config"], k, &like, &set);
            }
            "unknown setting of a reduction"
        }
        1 => {
            let k = near_key(s, &["typename", "config"]);
            cfg.pointer_mut(&red).unwrap()[k] = json!(*s.pick(&["x", "Coin"]));
            "unknown key beside a reduction's configuration"
        }
        2 => {
            let (k, like) = near_key_of(s, &["numBits", "hashSeed", "constantFeatureEnabled", "interactions"]);
            misplace(s, &mut cfg["globalConfig"], k, &like, &gset);
            "unknown global setting"
        }
        3 => {
            let k = near_key(s, &["globalConfig", "entryReduction", "$schema"]);
            cfg[k] = json!({});
            "unknown section"
        }
        4 | 5 | 6 => {
            let (k, kind, _) = s.pick(&set);
            let v = wrong_value(s, *kind);
            cfg.pointer_mut(&red).unwrap()["config"][*k] = v;
            "wrong value of a reduction's setting"
        }
        7 => {
            let (k, kind, _) = s.pick(&gset);
            cfg["globalConfig"][*k] = wrong_value(s, *kind);
            "wrong value of a global setting"
        }
        8 => {
            cfg.pointer_mut(&red).unwrap().as_object_mut().unwrap().remove("typename");
            "no typename"
        }
        9 => {
            let bad = match s.usize(4) {
                0 => json!(t.to_lowercase()),
                1 => json!(format!("{t}2")),
                2 => json!(*s.pick(&["", "Nothing", "CbExploreAdf", "coin", "Coin ", "Unknown"])),
                _ => s.pick(&[json!(1), json!(null), json!({}), json!(["Coin"])]).clone(),
            };
            cfg.pointer_mut(&red).unwrap()["typename"] = bad;
            "unknown typename"
        }
        10 => {
            let k = *s.pick(&["globalConfig", "entryReduction"]);
            if s.bool() {
                cfg.as_object_mut().unwrap().remove(k);
                "missing section"
            } else {
                cfg[k] = s.pick(&[json!(null), json!("x"), json!(1), json!(true)]).clone();
                "wrong section"
            }
        }
        _ => {
            cfg.pointer_mut(&red).unwrap()["config"] = s.pick(&[json!("x"), json!(1), json!(true), json!(0.5)]).clone();
            "wrong configuration of a reduction"
        }
    };
    c.class(what);
    c.class_if(path.len() > 1, "within a nested reduction");
    c.nontrivial(true);
    c.identity(&cfg.to_string());
    c.describe(|| format!("{what}: {cfg}"));
    match from_json(&cfg.to_string()) {
        Ok(_) => return fail("loader-accepts", format!("{what}: {cfg}")),
        Err(e) => check!(!e.starts_with("PANIC"), "loader-panics", "{what}: {cfg}: {e}"),
    }
    for (n, r) in schema_says(&cfg) {
        check!(r.is_err(), "schema-accepts", "{n}: {what}: {cfg}");
    }
    Ok(())
}

pub fn properties() -> Vec<Property> {
    vec![
        Property {
            id: "C21",
            suites: vec![
                Suite { name: "defaults", rule: "at least one setting is left out", quick: 11000, thorough: 220000, f: defaults },
                Suite { name: "writings", rule: "every case", quick: 15000, thorough: 300000, f: writings },
                Suite { name: "published", rule: "every case", quick: 180, thorough: 3600, f: published },
                Suite { name: "config_new", rule: "the reduction exists", quick: 110, thorough: 2200, f: config_new },
            ],
            assumptions: vec!["the table of documented defaults is part of the harness"],
        },
        Property {
            id: "C22",
            suites: vec![
                Suite { name: "type_check", rule: "a stack of more than one reduction whose validity is specified", quick: 1200000, thorough: 24000000, f: type_check },
                Suite { name: "out_of_range", rule: "every case", quick: 1200000, thorough: 24000000, f: out_of_range },
                Suite { name: "config_check", rule: "validity is specified", quick: 7700, thorough: 154000, f: config_check },
            ],
            assumptions: vec!["numBits above 20 is not created, the tables would be too large", "whether square-cb finds an ips learner behind Debug is not specified"],
        },
        Property {
            id: "C23",
            suites: vec![
                Suite { name: "schema_valid", rule: "every case", quick: 330000, thorough: 6600000, f: schema_valid },
                Suite { name: "gen_schema", rule: "every case", quick: 22, thorough: 440, f: gen_schema },
                Suite { name: "schema_invalid", rule: "every case", quick: 820000, thorough: 16400000, f: schema_invalid },
            ],
            assumptions: vec![
                "ranges and the fit of reductions are not part of the schema",
                "arrays or null in place of an object of settings, which the loader reads by position or as absent, are not judged",
            ],
        },
    ]
}
