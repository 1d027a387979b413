//! Long histories, wide examples and large models: counters, accumulators and indices are driven
//! past the sizes (256, 512, 65536 ...) at which a narrower type or a fixed buffer would show.
use crate::engine::*;
use crate::gen::*;
use crate::p_cb::{close, merged, probs, ref_project, scores};
use crate::p_model::show;
use crate::util::Saved;
use crate::util::learned_state;
use reductionml_core::workspace::Workspace;
use reductionml_core::{FeaturesType, LabelType, Prediction};
use serde_json::{json, Value};

fn extend(e: &mut ExAst, name: &str, n: usize, s: &mut Source) {
    let v = [1.0, value(s), value(s)];
    e.push(NsAst { name: Some(name.into()), feats: (0..n).map(|i| Feat::Anon { value: v[i % 3] + (i % 7) as f32 / 8.0 }).collect() });
}

/// A few examples, some of them wide or with many actions, that a long history goes through.
fn pool(s: &mut Source, st: &Stack, g: &Global, wide: usize, many: usize) -> Vec<FeatsAst> {
    let n = s.range(1, 5);
    let wide = if g.interactions.is_empty() { wide } else { wide.min(12) };
    (0..n)
        .map(|_| {
            let mut f = stack_example(s, st);
            let w = if s.chance(1, 2) && wide > 0 { s.range(1, wide) } else { 0 };
            match &mut f {
                FeatsAst::Simple(e) => {
                    if w > 0 {
                        extend(e, "wide", w, s);
                    }
                }
                FeatsAst::Cb(c) => {
                    if many > 0 && s.chance(1, 2) {
                        // further actions, each told apart by a feature of its own
                        let k = s.range(1, many);
                        let like = s.pick(&c.actions).clone();
                        for i in 0..k {
                            let mut a = like.clone();
                            a.push(NsAst { name: Some("act".into()), feats: vec![Feat::Num { name: format!("{i}"), value: 1.0 }] });
                            c.actions.push(a);
                        }
                    }
                    if w > 0 {
                        let k = s.usize(c.actions.len());
                        extend(&mut c.actions[k], "wide", w, s);
                    }
                }
            }
            f
        })
        .collect()
}

fn steps(s: &mut Source, st: &Stack, pool: &[FeatsAst], n: usize) -> Vec<(usize, LabelAst)> {
    (0..n)
        .map(|_| {
            let k = s.usize(pool.len());
            (k, label_for(st.label, &pool[k], s))
        })
        .collect()
}

fn long_global(s: &mut Source, lo: usize, hi: usize) -> Global {
    let mut g = global(s, 1);
    g.bits = s.range(lo, hi) as u8;
    g
}

fn bytes(w: &Workspace) -> Result<Saved, Fail> {
    Saved::of(w)
}

fn nonzero(w: &Workspace) -> usize {
    let v = learned_state(w);
    v.as_array().map_or(0, |a| a.iter().map(|x| x[0]["weights"].as_object().or(x[0].as_object()).map_or(0, |m| m.len())).sum())
}

fn size_class(c: &mut Ctx, n: usize, what: &str) {
    let b = match n {
        0..=255 => "up to 255",
        256..=511 => "256 to 511",
        512..=65535 => "512 to 65535",
        _ => "65536 or more",
    };
    c.class(&format!("{what}: {b}"));
}

// ---------------------------------------------------------------- C01, C02

fn resume(s: &mut Source, c: &mut Ctx, text: bool) -> R {
    let st = stack(s, &StackOpts::default());
    let big = s.chance(1, 12);
    let g = if big { long_global(s, 17, 18) } else { long_global(s, 4, 12) };
    let mut p = pool(s, &st, &g, 2000, 300);
    if big && g.interactions.is_empty() {
        // nearly every weight of a large table is in use
        let e = match &mut p[0] {
            FeatsAst::Simple(e) => e,
            FeatsAst::Cb(x) => &mut x.actions[0],
        };
        extend(e, "all", if text { 70_000 } else { 100_000 }, s);
    }
    let n = if big { s.range(2, 4) } else { s.range(20, 400) };
    let h = steps(s, &st, &p, n);
    let at = s.usize(n);
    c.identity(&format!("{:?}{g:?}{p:?}{h:?}{at}", st.entry));
    c.describe(|| format!("config {} {n} examples of a pool of {}, saved after {at}", config_json(&g, &st.entry), p.len()));
    let mut w = workspace(&g, &st.entry);
    let go = |w: &mut Workspace, (k, l): &(usize, LabelAst)| show(&w.predict_then_learn(&mut lower(&p[*k], g.seed, g.bits), &l.label()));
    let mut loaded: Option<Workspace> = None;
    for (t, x) in h.iter().enumerate() {
        if t == at {
            let r = if text {
                let v = match w.serialize_to_json() {
                    Ok(v) => v,
                    Err(_) if learned_state(&w).to_string().contains("null") => {
                        c.class("non-finite model refused");
                        return Ok(());
                    }
                    Err(e) => return fail("save-error", e.to_string()),
                };
                let v: Value = serde_json::from_str(&v.to_string()).unwrap();
                Workspace::deserialize_from_json(&v)
            } else {
                Workspace::create_from_model(&bytes(&w)?.0)
            };
            match r {
                Ok(r) => loaded = Some(r),
                Err(e) => {
                    // JSON has no NaN or infinity
                    if text && learned_state(&w).to_string().contains("null") {
                        c.class("non-finite model skipped");
                        return Ok(());
                    }
                    return fail("load-error", format!("{e}"));
                }
            }
            size_class(c, nonzero(&w), "features with weights when saved");
            size_class(c, t, "examples before saving");
            check!(bytes(&w)? == bytes(loaded.as_ref().unwrap())?, "resave-differs", "the loaded model saves differently");
        }
        let a = go(&mut w, x);
        if let Some(l) = &mut loaded {
            let b = go(l, x);
            check!(a == b, "resumed-prediction-differs", "example {t} (saved after {at}): original {a}, loaded {b}");
        }
    }
    check!(bytes(&w)? == bytes(loaded.as_ref().unwrap())?, "resumed-model-differs", "saved after {at} of {n} examples, the models differ at the end");
    c.class(st.kind);
    c.nontrivial(at > 0);
    Ok(())
}
pub fn resume_binary(s: &mut Source, c: &mut Ctx) -> R {
    resume(s, c, false)
}
pub fn resume_json(s: &mut Source, c: &mut Ctx) -> R {
    resume(s, c, true)
}

// ---------------------------------------------------------------- C03, C04, C05

/// One long history twice: plainly, and with every example predicted (often) before it is learned
/// (C03), with predict_then_learn in place of the two calls (C04), or under Debug (C05).
fn twice(s: &mut Source, c: &mut Ctx, which: usize) -> R {
    let st = stack(s, &StackOpts { debug: which != 2, ..Default::default() });
    let g = long_global(s, 4, 11);
    let p = pool(s, &st, &g, 1000, 270);
    let n = s.range(20, 400);
    let h = steps(s, &st, &p, n);
    c.identity(&format!("{:?}{g:?}{p:?}{h:?}", st.entry));
    c.describe(|| format!("config {} {n} examples of a pool of {}", config_json(&g, &st.entry), p.len()));
    c.class(st.kind);
    c.nontrivial(true);
    size_class(c, n, "examples");
    let mut a = workspace(&g, &st.entry);
    let mut entry = st.entry.clone();
    if which == 2 {
        entry = json!({"typename": "Debug", "config": {"id": "top", "next": entry}});
    }
    let mut b = workspace(&g, &entry);
    let sampled = n / 8 + 1;
    for (t, (k, l)) in h.iter().enumerate() {
        let (mut fa, mut fb) = (lower(&p[*k], g.seed, g.bits), lower(&p[*k], g.seed, g.bits));
        let l = l.label();
        let (pa, pb) = match which {
            0 => {
                let o = &p[(t * 7 + 3) % p.len()];
                b.predict(&mut lower(o, g.seed, g.bits));
                let pb = (t % sampled == 0).then(|| show(&b.predict(&mut fb)));
                b.learn(&mut fb, &l);
                let pa = pb.as_ref().map(|_| show(&a.predict(&mut fa)));
                a.learn(&mut fa, &l);
                (pa, pb)
            }
            1 => {
                let pa = show(&a.predict_then_learn(&mut fa, &l));
                let pb = show(&b.predict(&mut fb));
                b.learn(&mut fb, &l);
                (Some(pa), Some(pb))
            }
            _ => (Some(show(&a.predict_then_learn(&mut fa, &l))), Some(show(&b.predict_then_learn(&mut fb, &l)))),
        };
        check!(pa == pb, "prediction-differs", "example {t}: {pa:?} and {pb:?}");
    }
    if which == 2 {
        check!(learned_state(&a) == learned_state(&b), "model-differs", "after {n} examples another model was learned under Debug");
    } else {
        check!(bytes(&a)? == bytes(&b)?, "model-differs", "after {n} examples the models differ");
    }
    Ok(())
}
pub fn twice_predict(s: &mut Source, c: &mut Ctx) -> R {
    twice(s, c, 0)
}
pub fn twice_ptl(s: &mut Source, c: &mut Ctx) -> R {
    twice(s, c, 1)
}
pub fn twice_debug(s: &mut Source, c: &mut Ctx) -> R {
    twice(s, c, 2)
}

// ---------------------------------------------------------------- C06, C07

/// Length of a long history of small examples: most are in the hundreds, some pass 65536.
fn length(s: &mut Source, huge: u64) -> usize {
    if s.chance(1, huge) {
        s.range(65_530, 72_000)
    } else if s.chance(1, 4) {
        s.range(1000, 4000)
    } else {
        s.range(200, 700)
    }
}

fn plain_example(k: usize, t: usize) -> FeatsAst {
    let f = |n: String| Feat::Num { name: n, value: 1.0 };
    FeatsAst::Cb(CbAst {
        shared: Some(vec![NsAst { name: Some("ctx".into()), feats: vec![f(format!("c{t}"))] }]),
        actions: (0..k).map(|i| vec![NsAst { name: Some("act".into()), feats: vec![f(format!("a{i}"))] }]).collect(),
    })
}

/// An exploration stack beside its base learner for a long time: distribution and formula are
/// looked at now and then.
pub fn policy(s: &mut Source, c: &mut Ctx) -> R {
    let kind = *s.pick(&["squarecb", "squarecb", "softmax", "greedy"]);
    let n = length(s, if kind == "squarecb" { 30 } else { 1000 });
    let many = n < 1000 && s.chance(1, 3);
    let k = if many { s.range(20, 400) } else { s.range(2, 5) };
    let eps = unit(s);
    let (scale, expo) = (*s.pick(&[10.0, 1.0, 0.3]), *s.pick(&[0.5, 0.25, 1.0]));
    let lambda = *s.pick(&[1.0, 0.5, 3.0]);
    let reg = json!({"typename": "Coin", "config": {}});
    let base = json!({"typename": "CbAdf", "config": {"cbType": "mtr", "regressor": reg}});
    let entry = match kind {
        "greedy" => json!({"typename": "CbExploreAdfGreedy", "config": {"epsilon": eps, "cbAdf": base}}),
        "softmax" => json!({"typename": "CbExploreAdfSoftmax", "config": {"uniformEpsilon": eps, "lambda": lambda, "cbAdf": base}}),
        _ => json!({"typename": "CbExploreAdfSquareCb", "config": {"uniformEpsilon": eps, "gammaScale": scale, "gammaExponent": expo, "cbAdf": base}}),
    };
    let g = Global { bits: 10, seed: s.below(3) as u32, constant: s.bool(), interactions: vec![] };
    let exs: Vec<FeatsAst> = (0..3).map(|t| plain_example(k, t)).collect();
    let costs: Vec<f32> = (0..7).map(|_| s.below(9) as f32 / 8.0).collect();
    // the base learns with the same importance whatever the number of actions
    let salt = s.below(1 << 20) as usize;
    c.class(kind);
    size_class(c, n, "examples");
    size_class(c, k, "actions");
    c.identity(&format!("{entry}{g:?}{n}{k}{costs:?}{salt}"));
    c.describe(|| format!("config {} {n} examples of {k} actions, costs {costs:?}, salt {salt}", config_json(&g, &entry)));
    let mut w = workspace(&g, &entry);
    let mut b = workspace(&g, &base);
    let mut lowered: Vec<_> = exs.iter().map(|e| lower(e, g.seed, g.bits)).collect();
    let mut uneven = false;
    let every = n / 12 + 1;
    for t in 0..=n {
        let ei = t % 3;
        if t % every == 0 || t + 2 > n || t == 256 || t == 65_536 || t == 65_537 {
            c.probes += 1;
            let d = probs(&w.predict(&mut lowered[ei]))?;
            let sc: Vec<f64> = scores(&b.predict(&mut lowered[ei]))?.iter().map(|x| x.1 as f64).collect();
            check!(d.len() == k && sc.len() == k, "action-count", "{} probabilities, {} scores for {k} actions", d.len(), sc.len());
            let mut got = vec![f64::NAN; k];
            for (a, p) in &d {
                check!(*a < k && got[*a].is_nan(), "actions", "action {a} of {k} is out of place or twice there");
                got[*a] = *p as f64;
            }
            let sum: f64 = got.iter().sum();
            check!(close(sum, 1.0, 1e-3, 0.0), "sum", "after {t} examples the probabilities sum to {sum}");
            check!(got.iter().all(|p| *p >= 0.0), "range", "after {t} examples: {got:?}");
            let best = (0..k).fold(0, |bi, i| if sc[i] < sc[bi] { i } else { bi });
            uneven |= sc.iter().any(|x| *x != sc[best]);
            let want: Vec<f64> = match kind {
                "greedy" => (0..k).map(|i| eps / k as f64 + if i == best { 1.0 - eps } else { 0.0 }).collect(),
                "softmax" => {
                    let ws: Vec<f64> = sc.iter().map(|x| (-lambda * (x - sc[best])).exp()).collect();
                    let z: f64 = ws.iter().sum();
                    ref_project(&ws.iter().map(|x| x / z).collect::<Vec<_>>(), eps, false)
                }
                _ => {
                    let gamma = scale * (t as f64).powf(expo);
                    let mut v: Vec<f64> = sc.iter().map(|x| 1.0 / (k as f64 + gamma * (x - sc[best]))).collect();
                    let rest: f64 = (0..k).filter(|i| *i != best).map(|i| v[i]).sum();
                    v[best] = 1.0 - rest;
                    ref_project(&v, eps, false)
                }
            };
            let tol = if eps > 0.999 { 3e-3 } else { 1e-3 };
            for i in 0..k {
                check!(close(got[i], want[i], tol, 2e-3), "formula", "{kind} after {t} learned examples: action {i} got {} want {}", got[i], want[i]);
            }
        }
        if t < n {
            let a = (t.wrapping_mul(2654435761).wrapping_add(salt) >> 4) % k;
            let cost = costs[a % costs.len()];
            let l = LabelAst::Cb { action: a, cost, prob: 1.0 }.label();
            w.learn(&mut lowered[ei], &l);
            b.learn(&mut lowered[ei], &l);
        }
    }
    c.nontrivial(uneven);
    Ok(())
}

// ---------------------------------------------------------------- C09

fn raw(p: &Prediction) -> Result<f64, Fail> {
    match p {
        Prediction::Scalar(x) => Ok(x.raw_prediction as f64),
        o => fail("wrong-prediction-type", format!("{o:?}")),
    }
}

/// CbAdf beside its regressor over a long history or many actions.
pub fn cb(s: &mut Source, c: &mut Ctx) -> R {
    let mtr = s.chance(2, 3);
    let reg = coin_cfg(s);
    let entry = json!({"typename": "CbAdf", "config": {"cbType": if mtr {"mtr"} else {"ips"}, "regressor": reg}});
    let st = Stack { entry: entry.clone(), kind: "cbadf", label: LabelType::CB, features: FeaturesType::SparseCBAdf, uses_ew: false };
    let n = length(s, 30);
    let small = n >= 1000;
    let mut g = long_global(s, 6, 11);
    if small {
        g.interactions.clear();
    }
    let p = if small { (0..3).map(|t| plain_example(2 + t % 2, t)).collect() } else { pool(s, &st, &g, 60, 280) };
    let n = if small { n } else { (n / 4).max(20) };
    let salt = s.below(1 << 20) as usize;
    let (cb_costs, cb_probs): (Vec<f32>, Vec<f32>) = (0..7).map(|_| (label_value(s), probability(s).max(0.05))).unzip();
    size_class(c, n, "examples");
    c.class(if mtr { "mtr" } else { "ips" });
    c.identity(&format!("{entry}{g:?}{p:?}{n}{salt}{cb_costs:?}{cb_probs:?}"));
    c.describe(|| format!("config {} {n} examples of a pool of {}, costs {cb_costs:?} probabilities {cb_probs:?} salt {salt}", config_json(&g, &entry), p.len()));
    let mut w = workspace(&g, &entry);
    let mut b = workspace(&g, &reg);
    let asts: Vec<&CbAst> = p
        .iter()
        .map(|f| match f {
            FeatsAst::Cb(x) => x,
            _ => unreachable!(),
        })
        .collect();
    let mut lowered: Vec<_> = p.iter().map(|e| lower(e, g.seed, g.bits)).collect();
    let mut parts: Vec<Vec<_>> = asts
        .iter()
        .map(|x| (0..x.actions.len()).map(|i| lower(&FeatsAst::Simple(merged(x, i)), g.seed, g.bits)).collect())
        .collect();
    let (mut events, mut acts) = (0u64, 0u64);
    let every = n / 6 + 1;
    for t in 0..=n {
        let e = (t * 5 + salt) % p.len();
        if t % every == 0 || t + 2 > n || t == 65_537 {
            let sc = scores(&w.predict(&mut lowered[e]))?;
            check!(sc.len() == asts[e].actions.len(), "action-count", "{} scores for {} actions", sc.len(), asts[e].actions.len());
            for i in 0..sc.len() {
                c.probes += 1;
                let want = raw(&b.predict(&mut parts[e][i]))?;
                let ok = close(sc[i].1 as f64, want, 1e-4, 1e-3) || (want.is_infinite() && sc[i].1 as f64 == want) || (want.is_nan() && sc[i].1.is_nan());
                check!(sc[i].0 == i && ok, "score", "after {t} examples action {i}: {:?}, the regressor alone says {want}", sc[i]);
            }
        }
        if t == n {
            break;
        }
        let r = t.wrapping_mul(2654435761).wrapping_add(salt) >> 5;
        let k = asts[e].actions.len();
        let (a, cost, prob) = (r % k, cb_costs[r % 7], cb_probs[(r / 7) % 7]);
        w.learn(&mut lowered[e], &LabelAst::Cb { action: a, cost, prob }.label());
        events += 1;
        acts += k as u64;
        if mtr {
            let weight = 1.0 / prob * (events as f32 / acts as f32);
            b.learn(&mut parts[e][a], &LabelAst::Simple { value: cost, weight }.label());
        } else {
            for i in 0..k {
                let v = if i == a { cost / prob } else { 0.0 };
                b.learn(&mut parts[e][i], &LabelAst::Simple { value: v, weight: 1.0 }.label());
            }
        }
    }
    c.nontrivial(true);
    Ok(())
}
