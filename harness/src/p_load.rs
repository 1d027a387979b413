//! Loading what is not, or not quite, a model.
use crate::engine::*;
use crate::gen::*;
use crate::util::json_form;
use crate::p_model::{apply, gen_ops};
use reductionml_core::workspace::Workspace;
use serde_json::{json, Value};

fn trained(s: &mut Source, c: &mut Ctx, bits: u8) -> (Workspace, Stack, Global) {
    let st = stack(s, &StackOpts::default());
    let g = global(s, bits);
    let mut w = workspace(&g, &st.entry);
    for op in gen_ops(s, &st, 0, 4) {
        apply(&mut w, &op, &g);
    }
    c.class(st.kind);
    (w, st, g)
}

fn load(b: &[u8]) -> Result<Result<Workspace, String>, String> {
    guarded(|| Workspace::create_from_model(b).map_err(|e| e.to_string()))
}

fn must_refuse(what: &str, b: &[u8]) -> R {
    match load(b) {
        Ok(Err(_)) => Ok(()),
        Ok(Ok(_)) => fail("accepted", format!("{what}: {} bytes were loaded as a model", b.len())),
        // the reader of the encoding itself, a dependency, trusts what it reads
        Err(p) if p.contains("/flexbuffers-2.0.0/src/reader/") => fail("decoder-panic", format!("{what}: {b:?}: panic {p}")),
        Err(p) => fail("panic", format!("{what}: {} bytes: panic {p}", b.len())),
    }
}

/// Every prefix of a model, and bytes of other origin.
fn no_model(s: &mut Source, c: &mut Ctx) -> R {
    let (w, _, _) = trained(s, c, 6);
    let m = w.serialize_model().unwrap();
    let (what, b) = match s.usize(5) {
        0 | 1 => {
            let k = s.usize(m.len());
            ("cut off at the end", m[..k].to_vec())
        }
        2 => ("JSON", json_form(&w).to_string().into_bytes()),
        3 => {
            let n = s.range(0, 64);
            let b: Vec<u8> = (0..n).map(|_| s.below(256) as u8).collect();
            ("random bytes", if s.chance(1, 200) { vec![0, 106, 1] } else { b })
        }
        _ => {
            // another document in the same encoding
            let other = match s.usize(4) {
                0 => json!({}),
                1 => json!([1, 2, 3]),
                2 => json!("model"),
                _ => json!({"global_config": {"numBits": 3}, "entry_reduction": {}}),
            };
            let mut b = vec![];
            b.extend(other.to_string().bytes());
            ("other text", b)
        }
    };
    c.class(what);
    c.nontrivial(true);
    c.identity(&b);
    c.describe(|| format!("{what}: {b:?}"));
    must_refuse(what, &b)
}

/// Whether a member of this object, when missing, has a documented default (settings) or means zero (weights).
fn optional_members(at: &str) -> bool {
    at.split('/').any(|k| matches!(k, "global_config" | "config" | "weights" | "loss_function" | "type_description"))
}

/// A model with a part missing may only be accepted if nothing is lost.
fn same_model(what: &str, good: &Workspace, got: &Workspace, doc: &Value) -> R {
    check!(json_form(good) == json_form(got), "accepted-incomplete", "{what}: loaded as another model: {doc}");
    Ok(())
}

/// What was accepted can be saved.
fn savable(what: &str, got: &Workspace, doc: &Value) -> R {
    match guarded(|| (got.serialize_model().is_ok(), got.serialize_to_json().is_ok())) {
        Ok((binary, _)) => check!(binary, "not-savable", "{what}: {doc} was loaded but cannot be saved"),
        Err(p) => return fail("panic", format!("{what}: {doc} was loaded, saving it panics: {p}")),
    }
    Ok(())
}

/// A model file whose contents are damaged within the encoding.
fn damaged(s: &mut Source, c: &mut Ctx) -> R {
    let (w, _, _) = trained(s, c, 6);
    let m = w.serialize_model().unwrap();
    let mut v: Value = match flexbuffers::from_slice(&m) {
        Ok(v) => v,
        Err(_) => {
            // another encoding than today's
            c.class("encoding not understood");
            return Ok(());
        }
    };
    if !matches!(load(&flexbuffers::to_vec(&v).unwrap()), Ok(Ok(_))) {
        c.class("encoding not understood");
        return Ok(());
    }
    let mut tables = vec![];
    objects(&v, String::new(), &mut tables);
    let tables: Vec<String> = tables.into_iter().filter(|p| v.pointer(p).unwrap().get("non_zero_value_and_index_pairs").is_some()).collect();
    let (mut refuse, mut lossless) = (true, false);
    let what = match s.usize(7) {
        5 if !tables.is_empty() => {
            let t = v.pointer_mut(s.pick(&tables)).unwrap();
            let n = t["len"].as_u64().unwrap();
            t["len"] = s.pick(&[json!(0), json!(n - 1), json!(n + 1), json!(n / 2), json!(n * 2), json!(1u64 << 40), json!(1u64 << 62), json!(u64::MAX)]).clone();
            "as many weights as do not fit the sizes"
        }
        6 if !tables.is_empty() => {
            let at = s.pick(&tables).clone();
            let t = v.pointer_mut(at.rsplit_once('/').unwrap().0).unwrap();
            let k = *s.pick(&["feature_index_size", "model_index_size", "feature_state_size", "model_index_size_shift", "feature_state_size_shift"]);
            let Some(n) = t.get(k).and_then(|x| x.as_u64()) else {
                c.class("encoding not understood");
                return Ok(());
            };
            // sizes are rounded up to a power of two, so that a little more may still fit
            t[k] = if k.ends_with("shift") { json!(n + s.range(1, 3) as u64) } else { s.pick(&[json!(0), json!(n * 3), json!(n * 2 + 1)]).clone() };
            "a size which the weights do not fit"
        }
        0 => {
            let mut all = vec![];
            scalars(&v, String::new(), &mut all);
            let p = s.pick(&all).clone();
            *v.pointer_mut(&p).unwrap() = s.pick(&[json!({"x": 1}), json!([[1]]), json!("?"), json!(-1), json!(300), json!(0), json!(true), json!(1u64 << 33), json!(u64::MAX)]).clone();
            refuse = false;
            "a value replaced"
        }
        1 => {
            let mut all = vec![];
            objects(&v, String::new(), &mut all);
            let p = s.pick(&all).clone();
            let o = v.pointer_mut(&p).unwrap().as_object_mut().unwrap();
            if o.is_empty() {
                return Ok(());
            }
            let keys: Vec<String> = o.keys().cloned().collect();
            o.remove(s.pick(&keys));
            refuse = false;
            lossless = !optional_members(&p);
            "a member removed"
        }
        2 => {
            let keys: Vec<String> = v.as_object().unwrap().keys().cloned().collect();
            v.as_object_mut().unwrap().remove(s.pick(&keys));
            "a part removed"
        }
        3 if !tables.is_empty() => {
            let t = v.pointer_mut(s.pick(&tables)).unwrap();
            let n = t["len"].as_u64().unwrap();
            let i = n + s.below(1000);
            t["non_zero_value_and_index_pairs"].as_array_mut().unwrap().push(json!([i, 1.0]));
            "a weight beyond the table"
        }
        _ => {
            v = s.pick(&[json!([]), json!({}), json!(1), json!("x"), json!([{}])]).clone();
            "another document"
        }
    };
    c.class(what);
    c.nontrivial(true);
    c.identity(&v.to_string());
    c.describe(|| format!("{what}: {v}"));
    match load(&flexbuffers::to_vec(&v).unwrap()) {
        Ok(Ok(x)) => {
            check!(!refuse, "accepted", "{what}: {v}");
            savable(what, &x, &v)?;
            if lossless {
                same_model(what, &w, &x, &v)?;
            }
        }
        Ok(Err(_)) => (),
        Err(p) => return fail("panic", format!("{what}: {v}: panic {p}")),
    }
    Ok(())
}

fn objects(v: &Value, at: String, out: &mut Vec<String>) {
    match v {
        Value::Object(m) => {
            out.push(at.clone());
            for (k, x) in m {
                objects(x, format!("{at}/{}", k.replace('~', "~0").replace('/', "~1")), out);
            }
        }
        Value::Array(a) => {
            for (i, x) in a.iter().enumerate() {
                objects(x, format!("{at}/{i}"), out);
            }
        }
        _ => (),
    }
}

fn scalars(v: &Value, at: String, out: &mut Vec<String>) {
    match v {
        Value::Object(m) => {
            for (k, x) in m {
                scalars(x, format!("{at}/{}", k.replace('~', "~0").replace('/', "~1")), out);
            }
        }
        Value::Array(a) => {
            for (i, x) in a.iter().enumerate() {
                scalars(x, format!("{at}/{i}"), out);
            }
        }
        _ => out.push(at),
    }
}

/// The JSON form with something missing or of the wrong type; weights that do not fit.
fn json_damaged(s: &mut Source, c: &mut Ctx) -> R {
    let (w, _, _) = trained(s, c, 6);
    let good = json_form(&w);
    let mut v = good.clone();
    let mut tables = vec![];
    objects(&v, String::new(), &mut tables);
    let tables: Vec<String> = tables.into_iter().filter(|p| v.pointer(p).unwrap().get("feature_index_size").is_some()).collect();
    let (mut refuse, mut lossless) = (true, false);
    let what = match s.usize(8) {
        0 => {
            // any scalar replaced
            let mut all = vec![];
            scalars(&v, String::new(), &mut all);
            let p = s.pick(&all).clone();
            *v.pointer_mut(&p).unwrap() = s.pick(&[json!({"x": 1}), json!([[1]]), json!("?"), json!(-1), json!(1e300), json!(300), json!(4294967296u64), json!(u64::MAX), json!(0), json!(null), json!(true)]).clone();
            refuse = false;
            "a value replaced"
        }
        1 => {
            let mut all = vec![];
            objects(&v, String::new(), &mut all);
            let p = s.pick(&all).clone();
            let m = v.pointer_mut(&p).unwrap().as_object_mut().unwrap();
            if m.is_empty() {
                return Ok(());
            }
            let keys: Vec<String> = m.keys().cloned().collect();
            m.remove(s.pick(&keys));
            refuse = false;
            lossless = !optional_members(&p);
            "a member removed"
        }
        2 => {
            let keys: Vec<String> = v.as_object().unwrap().keys().cloned().collect();
            v.as_object_mut().unwrap().remove(s.pick(&keys));
            "a part removed"
        }
        k if !tables.is_empty() => {
            let t = s.pick(&tables).clone();
            let t = v.pointer_mut(&t).unwrap();
            match k {
                3 => {
                    let n = t["feature_index_size"].as_u64().unwrap();
                    let at = n + s.below(1000);
                    let state = vec![vec![1.0; t["feature_state_size"].as_u64().unwrap() as usize]; t["model_index_size"].as_u64().unwrap() as usize];
                    t["weights"][at.to_string()] = json!(state);
                    "weights of a feature beyond the feature space"
                }
                4 => {
                    let n = t["feature_state_size"].as_u64().unwrap() as usize;
                    let models = t["model_index_size"].as_u64().unwrap() as usize;
                    let len = if s.bool() { n + s.range(1, 3) } else { s.usize(n) };
                    t["weights"]["0"] = json!(vec![vec![1.0; len]; models]);
                    "too many or too few weights of a feature"
                }
                5 => {
                    let n = t["feature_state_size"].as_u64().unwrap() as usize;
                    let models = t["model_index_size"].as_u64().unwrap() as usize + s.range(1, 300);
                    t["weights"]["0"] = json!(vec![vec![1.0; n]; models]);
                    "weights of a model that is not there"
                }
                6 => {
                    let k = *s.pick(&["feature_index_size", "model_index_size", "feature_state_size"]);
                    t[k] = json!(0);
                    "a dimension is zero"
                }
                _ => {
                    let k = *s.pick(&["model_index_size_shift", "feature_state_size_shift"]);
                    let old = t[k].as_u64().unwrap();
                    let new = *s.pick(&[old + 1, 63, 64, 200]);
                    t[k] = json!(new);
                    refuse = false;
                    "a shift that does not fit"
                }
            }
        }
        _ => {
            v = s.pick(&[json!(null), json!([]), json!({}), json!(1), json!("x")]).clone();
            "no object"
        }
    };
    c.class(what);
    c.nontrivial(v != good);
    c.identity(&v.to_string());
    c.describe(|| format!("{what}: {v}"));
    match guarded(|| Workspace::deserialize_from_json(&v).map_err(|e| e.to_string())) {
        Ok(Ok(x)) => {
            check!(!refuse, "accepted", "{what}: {v}");
            savable(what, &x, &v)?;
            if lossless {
                same_model(what, &w, &x, &v)?;
            }
        }
        Ok(Err(_)) => (),
        Err(p) => return fail("panic", format!("{what}: {v}: panic {p}")),
    }
    Ok(())
}

pub fn properties() -> Vec<Property> {
    vec![Property {
        id: "C33",
        suites: vec![
            Suite { name: "no_model", rule: "every case", quick: 240000, thorough: 4800000, f: no_model },
            Suite { name: "damaged", rule: "every case", quick: 240000, thorough: 4800000, f: damaged },
            Suite { name: "json_damaged", rule: "the document has changed", quick: 240000, thorough: 4800000, f: json_damaged },
        ],
        assumptions: vec!["how a damaged model that was loaded behaves later is not judged"],
    }]
}
