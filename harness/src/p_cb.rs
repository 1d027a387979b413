//! Contextual-bandit properties.
use crate::util::*;
use crate::engine::*;
use crate::gen::*;
use reductionml_core::explore::enforce_min_prob;
use reductionml_core::workspace::Workspace;
use reductionml_core::{Label, Prediction};
use serde_json::{json, Value};

pub fn probs(p: &Prediction) -> Result<Vec<(usize, f32)>, Fail> {
    match p {
        Prediction::ActionProbs(a) => Ok(a.0.clone()),
        o => fail("wrong-prediction-type", format!("{o:?}")),
    }
}
pub fn scores(p: &Prediction) -> Result<Vec<(usize, f32)>, Fail> {
    match p {
        Prediction::ActionScores(a) => Ok(a.0.clone()),
        o => fail("wrong-prediction-type", format!("{o:?}")),
    }
}

pub fn close(a: f64, b: f64, abs: f64, rel: f64) -> bool {
    (a - b).abs() <= abs + rel * a.abs().max(b.abs())
}

/// The least-change distribution with the given floor over `support`: bisection on the shift.
pub fn ref_project(p: &[f64], eps: f64, consider_zero: bool) -> Vec<f64> {
    let support: Vec<bool> = p.iter().map(|x| consider_zero || *x > 0.0).collect();
    let k = support.iter().filter(|x| **x).count();
    if k == 0 || eps == 0.0 {
        return p.to_vec();
    }
    let m = eps / k as f64;
    let total = |tau: f64| -> f64 {
        p.iter()
            .zip(&support)
            .map(|(x, s)| if *s { (x - tau).max(m) } else { 0.0 })
            .sum()
    };
    let (mut lo, mut hi) = (-2.0f64, 2.0f64);
    for _ in 0..200 {
        let mid = (lo + hi) / 2.0;
        if total(mid) > 1.0 {
            lo = mid;
        } else {
            hi = mid;
        }
    }
    let tau = (lo + hi) / 2.0;
    p.iter()
        .zip(&support)
        .map(|(x, s)| if *s { (x - tau).max(m) } else { *x })
        .collect()
}

// ---------------------------------------------------------------- enforce_min_prob

fn gen_dist(s: &mut Source) -> Vec<f32> {
    let k = match s.weighted(&[6, 2, 1]) {
        0 => s.range(1, 6),
        1 => s.range(7, 20),
        _ => s.range(21, 120),
    };
    let raw: Vec<f64> = (0..k)
        .map(|_| match s.weighted(&[4, 3, 2, 2, 1]) {
            0 => s.below(10) as f64,
            1 => 0.0,
            2 => (s.below(1000) as f64 + 1.0) / 1000.0,
            3 => 1.0,
            _ => (s.below(100) as f64 + 1.0) * 1e-5,
        })
        .collect();
    let t: f64 = raw.iter().sum();
    if t == 0.0 {
        let mut v = vec![0.0; k];
        v[s.usize(k)] = 1.0;
        return v;
    }
    raw.iter().map(|x| (x / t) as f32).collect()
}

fn min_prob(s: &mut Source, c: &mut Ctx) -> R {
    let d = gen_dist(s);
    let eps = match s.weighted(&[1, 1, 6, 2]) {
        0 => 0.0f32,
        1 => 1.0,
        2 => s.below(1000) as f32 / 1000.0,
        _ => (s.below(1000) + 1) as f32 * 1e-6,
    };
    let zeros = s.bool();
    let ids: Vec<usize> = (0..d.len()).map(|i| if s.chance(1, 4) { s.usize(1000) } else { i }).collect();
    let mut e: Vec<(usize, f32)> = ids.iter().cloned().zip(d.iter().cloned()).collect();
    let k = if zeros { d.len() } else { d.iter().filter(|x| **x > 0.0).count() };
    let m = eps as f64 / k as f64;
    let below = d.iter().filter(|x| (zeros || **x > 0.0) && (**x as f64) < m).count();
    c.class_if(d.iter().any(|x| *x == 0.0), "has zeros");
    c.class_if(zeros, "zeros lifted");
    c.class_if(below > 1, "several below floor");
    c.class_if(eps == 0.0, "eps=0");
    c.class_if(d.len() > 20, "many actions");
    c.nontrivial(below > 0 && d.len() > 1);
    c.identity(&format!("{d:?}{eps}{zeros}"));
    c.describe(|| format!("enforce_min_prob({eps}, {zeros}, {d:?})"));
    if let Err(er) = enforce_min_prob(eps, zeros, &mut e) {
        return fail("rejects-valid", format!("{er}"));
    }
    check!(e.len() == d.len() && e.iter().map(|x| x.0).collect::<Vec<_>>() == ids, "ids-changed", "actions changed: {e:?}");
    let out: Vec<f64> = e.iter().map(|x| x.1 as f64).collect();
    let din: Vec<f64> = d.iter().map(|x| *x as f64).collect();
    let sum: f64 = out.iter().sum();
    check!(close(sum, 1.0, 2e-4, 0.0), "sum", "sums to {sum}: {out:?}");
    for (i, p) in out.iter().enumerate() {
        check!(p.is_finite() && *p >= 0.0, "negative", "{out:?}");
        if zeros || din[i] > 0.0 {
            check!(*p >= m - 1e-6, "floor", "element {i}={p} below floor {m}: {out:?}");
        } else {
            check!(*p == 0.0, "support", "zero element {i} became {p}");
        }
    }
    if eps == 0.0 {
        check!(out == din, "eps0-changes", "eps 0 changed {din:?} to {out:?}");
    }
    let tol = if eps > 0.999 { 3e-3 } else { 2e-4 };
    let want = ref_project(&din, eps as f64, zeros);
    for i in 0..out.len() {
        check!(close(out[i], want[i], tol, 0.0), "projection", "element {i}: got {} want {} (all {out:?} want {want:?})", out[i], want[i]);
        for j in 0..out.len() {
            if din[i] > din[j] && (zeros || din[j] > 0.0) {
                check!(out[i] >= out[j] - 1e-6, "order", "order of {i},{j} inverted: {out:?}");
            }
        }
    }
    // twice the same floor is once
    let mut again = e.clone();
    if enforce_min_prob(eps, zeros, &mut again).is_err() {
        return fail("rejects-valid", "second application");
    }
    for i in 0..e.len() {
        check!(close(again[i].1 as f64, out[i], tol, 0.0), "idempotent", "second application moved {i}: {} -> {}", out[i], again[i].1);
    }
    Ok(())
}

/// The same over 1000 to 70 000 entries, where the rounding of running sums is the tolerance.
fn min_prob_wide(s: &mut Source, c: &mut Ctx) -> R {
    let k = match s.weighted(&[6, 3, 1]) {
        0 => s.range(1000, 5000),
        1 => s.range(5001, 20_000),
        _ => s.range(65_530, 70_000),
    };
    let heavy = s.range(1, 5);
    let shape: Vec<f64> = (0..s.range(1, 9)).map(|_| *s.pick(&[1.0, 0.0, 0.5, 2.0, 0.01, 7.0])).collect();
    let mut raw: Vec<f64> = (0..k).map(|i| shape[i % shape.len()]).collect();
    let mut at = vec![];
    for _ in 0..heavy {
        let i = if s.chance(1, 3) { k - 1 } else { s.usize(k) };
        raw[i] = k as f64 / *s.pick(&[0.5, 1.0, 4.0, 100.0]);
        at.push((i, raw[i]));
    }
    let t: f64 = raw.iter().sum();
    let d: Vec<f32> = raw.iter().map(|x| (x / t) as f32).collect();
    let eps = *s.pick(&[0.05f32, 0.5, 0.9, 1e-3, 1.0]);
    let zeros = s.bool();
    let support = |x: f32| zeros || x > 0.0;
    let n = d.iter().filter(|x| support(**x)).count();
    let m = eps as f64 / n as f64;
    c.class(if n > 65_535 { "support above 65535" } else { "support up to 65535" });
    c.class_if(zeros && n > d.iter().filter(|x| **x > 0.0).count(), "zeros lifted");
    c.nontrivial(d.iter().any(|x| support(*x) && (*x as f64) < m));
    c.identity(&format!("{k}{shape:?}{at:?}{eps}{zeros}"));
    c.describe(|| format!("enforce_min_prob({eps}, {zeros}) on {k} entries proportional to {shape:?} repeated, with {at:?}"));
    let mut e: Vec<(usize, f32)> = d.iter().cloned().enumerate().collect();
    if let Err(er) = enforce_min_prob(eps, zeros, &mut e) {
        return fail("rejects-valid", format!("{er}"));
    }
    check!(e.len() == k && e.iter().enumerate().all(|(i, x)| x.0 == i), "ids-changed", "actions changed");
    let sum: f64 = e.iter().map(|x| x.1 as f64).sum();
    check!(close(sum, 1.0, 4e-3, 0.0), "sum", "{k} entries sum to {sum}");
    let want = ref_project(&d.iter().map(|x| *x as f64).collect::<Vec<_>>(), eps as f64, zeros);
    let above = want.iter().filter(|x| **x > m * 1.001).count().max(1);
    for (i, (_, p)) in e.iter().enumerate() {
        if !support(d[i]) {
            check!(*p == 0.0, "support", "zero entry {i} became {p}");
            continue;
        }
        check!(p.is_finite() && *p as f64 >= m * (1.0 - 1e-4), "floor", "entry {i} of {k} is {p}, below the floor {m}");
        check!(
            close(*p as f64, want[i], 4e-3 / above as f64, 1e-2),
            "projection",
            "entry {i} of {k}, {} before: got {p} want {} ({above} entries above the floor)", d[i], want[i]
        );
    }
    Ok(())
}

fn min_prob_rejects(s: &mut Source, c: &mut Ctx) -> R {
    let d = gen_dist(s);
    let mut e: Vec<(usize, f32)> = d.iter().cloned().enumerate().collect();
    let (eps, empty) = match s.usize(3) {
        0 => (-(s.below(1000) as f32 + 1.0) / 500.0, false),
        1 => (1.0 + (s.below(1000) as f32 + 1.0) / 500.0, false),
        _ => (s.below(1000) as f32 / 1000.0, true),
    };
    if empty {
        e.clear();
    }
    c.nontrivial(true);
    c.identity(&format!("{e:?}{eps}"));
    c.describe(|| format!("enforce_min_prob({eps}, {e:?})"));
    let zeros = s.bool();
    check!(enforce_min_prob(eps, zeros, &mut e).is_err(), "accepts-invalid", "eps {eps} on {} elements accepted", e.len());
    Ok(())
}

// ---------------------------------------------------------------- exploration

struct Explore {
    kind: &'static str,
    st: Stack,
    /// the CbAdf stack underneath
    base: Value,
    eps: f64,
    lambda: f64,
    scale: f64,
    exponent: f64,
}

fn gen_explore(s: &mut Source) -> Explore {
    let kind = *s.pick(&["greedy", "softmax", "squarecb"]);
    let o = StackOpts { debug: false, ..Default::default() };
    let mut ew = false;
    let base = cbadf_stack(s, &o, kind == "squarecb", &mut ew);
    let mut m = serde_json::Map::new();
    let (mut lambda, mut scale, mut exponent) = (1.0, 10.0, 0.5);
    let mut eps = match kind {
        "greedy" => 0.05,
        _ => 0.0,
    };
    let explicit = s.chance(3, 4);
    if explicit {
        eps = unit(s);
        m.insert(if kind == "greedy" { "epsilon" } else { "uniformEpsilon" }.into(), json!(eps));
    }
    if kind == "softmax" && s.bool() {
        lambda = match s.usize(3) {
            0 => s.range(0, 4000) as f64 / 1000.0,
            _ => *s.pick(&[1.0, 0.0, 0.5, 3.0, 10.0, 50.0, -1.0, -0.25]),
        };
        m.insert("lambda".into(), json!(lambda));
    }
    if kind == "squarecb" {
        if s.bool() {
            scale = if s.chance(1, 3) { s.range(0, 20000) as f64 / 1000.0 } else { *s.pick(&[10.0, 0.0, 1.0, 100.0, 0.3, 1e4]) };
            m.insert("gammaScale".into(), json!(scale));
        }
        if s.bool() {
            exponent = if s.chance(1, 3) { s.range(0, 1200) as f64 / 1000.0 } else { *s.pick(&[0.5, 0.0, 0.25, 1.0, 0.7]) };
            m.insert("gammaExponent".into(), json!(exponent));
        }
    }
    m.insert("cbAdf".into(), base.clone());
    let t = match kind {
        "greedy" => "CbExploreAdfGreedy",
        "softmax" => "CbExploreAdfSoftmax",
        _ => "CbExploreAdfSquareCb",
    };
    let st = Stack {
        entry: json!({"typename": t, "config": m}),
        kind,
        label: reductionml_core::LabelType::CB,
        features: reductionml_core::FeaturesType::SparseCBAdf,
        uses_ew: ew,
    };
    Explore { kind, st, base, eps, lambda, scale, exponent }
}

fn gen_cb_hist(s: &mut Source, st: &Stack, lo: usize, hi: usize) -> Vec<(FeatsAst, LabelAst)> {
    let n = s.range(lo, hi);
    let mut hist: Vec<(FeatsAst, LabelAst)> = vec![];
    for _ in 0..n {
        let seen: Vec<FeatsAst> = hist.iter().map(|h| h.0.clone()).collect();
        let f = next_example(s, st, &seen, 1.0);
        let l = label_for(st.label, &f, s);
        hist.push((f, l));
    }
    hist
}

fn n_actions(f: &FeatsAst) -> usize {
    match f {
        FeatsAst::Cb(c) => c.actions.len(),
        _ => 0,
    }
}

fn valid_distribution(s: &mut Source, c: &mut Ctx) -> R {
    let mut e = gen_explore(s);
    if s.chance(1, 20) {
        // any number that is accepted
        let wide = |s: &mut Source| *s.pick(&[1e-40, 1e-20, 1e-6, 1e3, 1e6, 1e12, 1e30, 3e38]);
        let keys: &[&str] = match e.kind {
            "softmax" => &["lambda"],
            "squarecb" => &["gammaScale", "gammaExponent"],
            _ => &[],
        };
        for k in keys {
            let x = wide(s);
            e.st.entry["config"][*k] = json!(if *k == "lambda" && s.bool() { -x } else { x });
        }
        c.class_if(!keys.is_empty(), "extreme parameters");
    }
    let g = global(s, 8);
    let mut hist = gen_cb_hist(s, &e.st, 0, 8);
    let mut f = if !hist.is_empty() && s.bool() { s.pick(&hist).0.clone() } else { stack_example(s, &e.st) };
    if s.chance(1, 20) {
        // scores, and differences between them, may exceed the range of numbers
        enlarge(&mut f, s, &[1e20, 1e36, 3e38]);
        if s.chance(1, 4) {
            for (hf, hl) in &mut hist {
                if s.bool() {
                    enlarge(hf, s, &[1e20, 1e36, 3e38]);
                }
                if let (true, LabelAst::Cb { cost, .. }) = (s.bool(), hl) {
                    *cost *= *s.pick(&[1e20, 1e37]);
                }
            }
            c.class("enormous history");
        }
        c.class("enormous values");
    }
    c.class(e.kind);
    c.nontrivial(n_actions(&f) > 1 && !hist.is_empty());
    c.identity(&format!("{:?}{:?}{:?}{:?}", e.st.entry, g, hist, f));
    c.describe(|| format!("config {} history {:?} example {:?}", config_json(&g, &e.st.entry), hist, f));
    let mut w = workspace(&g, &e.st.entry);
    let mut preds = vec![];
    for (hf, hl) in &hist {
        let p = w.predict_then_learn(&mut lower(hf, g.seed, g.bits), &hl.label());
        preds.push((n_actions(hf), p));
    }
    preds.push((n_actions(&f), w.predict(&mut lower(&f, g.seed, g.bits))));
    for (k, p) in &preds {
        c.probes += 1;
        let d = probs(p)?;
        check!(d.len() == *k, "action-count", "{} entries for {k} actions: {d:?}", d.len());
        let mut ids: Vec<usize> = d.iter().map(|x| x.0).collect();
        ids.sort();
        check!(ids == (0..*k).collect::<Vec<_>>(), "actions", "each action exactly once expected: {d:?}");
        let sum: f64 = d.iter().map(|x| x.1 as f64).sum();
        check!(close(sum, 1.0, 1e-3, 0.0), "sum", "sums to {sum}: {d:?}");
        let support = d.iter().filter(|x| x.1 > 0.0).count();
        let floor = match e.kind {
            "greedy" => e.eps / *k as f64,
            _ => e.eps / support as f64,
        };
        for (_, p) in &d {
            check!(p.is_finite() && *p >= 0.0 && *p <= 1.0 + 1e-3, "range", "{d:?}");
            if e.kind == "greedy" || *p > 0.0 {
                check!(*p as f64 >= floor - 1e-5, "floor", "{p} below {floor}: {d:?}");
            }
        }
    }
    Ok(())
}

fn policy_formula(s: &mut Source, c: &mut Ctx) -> R {
    let e = gen_explore(s);
    let g = global(s, 8);
    let hist = gen_cb_hist(s, &e.st, 0, 10);
    c.class(e.kind);
    c.identity(&format!("{:?}{:?}{:?}", e.st.entry, g, hist));
    c.describe(|| format!("config {} history {:?}", config_json(&g, &e.st.entry), hist));
    let mut w = workspace(&g, &e.st.entry);
    let mut b = workspace(&g, &e.base);
    let mut before = 0u64;
    if e.kind == "squarecb" && s.chance(1, 8) {
        // a model that has learned from many more examples, as its saved form tells
        let n = *s.pick(&[250u64, 65_530, (1 << 24) - 2, (1 << 31) - 3, (1 << 32) - 3, 1 << 40]);
        if let Ok(mut v) = w.serialize_to_json() {
            let counter = &mut v["entry_reduction"]["reduction"]["counter"];
            if counter.as_u64() == Some(0) {
                *counter = json!(n);
                if let Ok(x) = Workspace::deserialize_from_json(&v) {
                    w = x;
                    before = n;
                    c.class("after a long life");
                }
            }
        }
    }
    let probe = stack_example(s, &e.st);
    let mut distinct_scores = false;
    for t in 0..=hist.len() {
        let f = if t < hist.len() { &hist[t].0 } else { &probe };
        let p = probs(&w.predict(&mut lower(f, g.seed, g.bits)))?;
        let sc: Vec<f64> = scores(&b.predict(&mut lower(f, g.seed, g.bits)))?.iter().map(|x| x.1 as f64).collect();
        let k = sc.len();
        check!(p.len() == k, "action-count", "{p:?} for {k} actions");
        let best = (0..k).fold(0, |bi, i| if sc[i] < sc[bi] { i } else { bi });
        let tied = sc.iter().filter(|x| **x == sc[best]).count() > 1;
        distinct_scores |= sc.iter().any(|x| *x != sc[best]);
        let mut want: Vec<f64> = match e.kind {
            "greedy" => (0..k)
                .map(|i| e.eps / k as f64 + if i == best { 1.0 - e.eps } else { 0.0 })
                .collect(),
            "softmax" => {
                let top = sc.iter().map(|x| -e.lambda * x).fold(f64::MIN, f64::max);
                let ws: Vec<f64> = sc.iter().map(|x| (-e.lambda * x - top).exp()).collect();
                let z: f64 = ws.iter().sum();
                ws.iter().map(|x| x / z).collect()
            }
            _ => {
                let gamma = e.scale * ((before + t as u64) as f64).powf(e.exponent);
                let mut v: Vec<f64> = sc.iter().map(|x| 1.0 / (k as f64 + gamma * (x - sc[best]))).collect();
                let rest: f64 = (0..k).filter(|i| *i != best).map(|i| v[i]).sum();
                v[best] = 1.0 - rest;
                v
            }
        };
        if e.kind == "softmax" && want.iter().any(|x| *x < 1e-30) && e.eps > 0.0 {
            // actions whose probability underflows may or may not get the floor
            c.class("softmax underflow skipped");
        } else {
            if e.kind != "greedy" {
                want = ref_project(&want, e.eps, false);
            }
            let tol = match e.eps {
                x if x > 0.999 => 3e-3,
                x if x > 0.0 && e.kind != "greedy" => 5e-4,
                _ => 3e-6,
            };
            let mut got: Vec<f64> = vec![f64::NAN; k];
            for (a, x) in &p {
                check!(*a < k, "actions", "{p:?}");
                got[*a] = *x as f64;
            }
            let _ = tied;
            for i in 0..k {
                check!(
                    close(got[i], want[i], tol, 1e-3),
                    "formula",
                    "{} after {t} learned examples: action {i} got {} want {} (scores {sc:?}, got {got:?}, want {want:?})",
                    e.kind, got[i], want[i]
                );
            }
        }
        if t < hist.len() {
            let (f, l) = &hist[t];
            let bl = match (e.kind, l) {
                // SquareCB trains its base on the observed cost without importance weighting
                ("squarecb", LabelAst::Cb { action, cost, .. }) => LabelAst::Cb { action: *action, cost: *cost, prob: 1.0 },
                _ => l.clone(),
            };
            w.learn(&mut lower(f, g.seed, g.bits), &l.label());
            b.learn(&mut lower(f, g.seed, g.bits), &bl.label());
        }
    }
    c.nontrivial(distinct_scores);
    Ok(())
}

// ---------------------------------------------------------------- CbAdf versus its regressor

/// The single example CbAdf stands for: the action's features followed by the shared ones.
pub fn merged(cb: &CbAst, i: usize) -> ExAst {
    let mut e = cb.actions[i].clone();
    if let Some(sh) = &cb.shared {
        e.extend(sh.iter().cloned());
    }
    e
}

/// As `merged`, for lowering where anonymous counters restart per segment.
fn merged_feats(cb: &CbAst, i: usize) -> FeatsAst {
    FeatsAst::Simple(merged(cb, i))
}

fn raw(p: &Prediction) -> Result<f64, Fail> {
    match p {
        Prediction::Scalar(x) => Ok(x.raw_prediction as f64),
        o => fail("wrong-prediction-type", format!("{o:?}")),
    }
}

fn close_scores(a: f64, b: f64) -> bool {
    close(a, b, 1e-4, 1e-3) || (a.is_infinite() && a == b)
}

fn cb_vs_regressor(s: &mut Source, c: &mut Ctx) -> R {
    let o = StackOpts { debug: false, ..Default::default() };
    let mut ew = false;
    let reg = scalar_stack(s, &o, &mut ew);
    let mtr = s.bool();
    let entry = json!({"typename": "CbAdf", "config": {"cbType": if mtr {"mtr"} else {"ips"}, "regressor": reg}});
    let st = Stack { entry: entry.clone(), kind: "cbadf", label: reductionml_core::LabelType::CB, features: reductionml_core::FeaturesType::SparseCBAdf, uses_ew: ew };
    let g = global(s, 9);
    let mut hist = gen_cb_hist(s, &st, 1, 7);
    if s.chance(1, 6) {
        for (_, l) in hist.iter_mut() {
            if let LabelAst::Cb { prob, .. } = l {
                *prob *= *s.pick(&[1.0, 0.1, 1e-3, 1e-5, 1e-8]);
            }
        }
        c.class("rare actions");
    }
    let overlap = hist.iter().any(|(f, _)| match f {
        FeatsAst::Cb(cb) => cb.shared.as_ref().map_or(false, |sh| {
            sh.iter().any(|n| cb.actions.iter().any(|a| a.iter().any(|m| m.name == n.name)))
        }),
        _ => false,
    });
    c.class(if mtr { "mtr" } else { "ips" });
    c.class_if(overlap, "shared and action in one namespace");
    c.class_if(hist.iter().any(|(f, _)| matches!(f, FeatsAst::Cb(cb) if cb.shared.is_none())), "no shared");
    c.nontrivial(hist.len() > 1 && hist.iter().any(|(f, _)| n_actions(f) > 1));
    c.identity(&format!("{:?}{:?}{:?}", entry, g, hist));
    c.describe(|| format!("config {} history {:?}", config_json(&g, &entry), hist));
    let mut w = workspace(&g, &entry);
    let mut b = workspace(&g, &reg);
    let (mut events, mut acts) = (0usize, 0usize);
    let probe = stack_example(s, &st);
    for t in 0..=hist.len() {
        for f in [if t < hist.len() { &hist[t].0 } else { &probe }, if t > 0 { &hist[t - 1].0 } else { &probe }] {
            let cb = match f {
                FeatsAst::Cb(cb) => cb,
                _ => unreachable!(),
            };
            let sc = scores(&w.predict(&mut lower(f, g.seed, g.bits)))?;
            check!(sc.len() == cb.actions.len(), "action-count", "{sc:?}");
            for i in 0..sc.len() {
                let want = raw(&b.predict(&mut lower(&merged_feats(cb, i), g.seed, g.bits)))?;
                check!(sc[i].0 == i, "action-order", "{sc:?}");
                check!(close_scores(sc[i].1 as f64, want), "score", "after {t} examples action {i}: score {} but the regressor alone says {want}", sc[i].1);
            }
        }
        if t == hist.len() {
            break;
        }
        let (f, l) = &hist[t];
        w.learn(&mut lower(f, g.seed, g.bits), &l.label());
        let (cb, (action, cost, prob)) = match (f, l) {
            (FeatsAst::Cb(cb), LabelAst::Cb { action, cost, prob }) => (cb, (*action, *cost, *prob)),
            _ => unreachable!(),
        };
        events += 1;
        acts += cb.actions.len();
        if mtr {
            let weight = 1.0 / prob * (events as f32 / acts as f32);
            b.learn(&mut lower(&merged_feats(cb, action), g.seed, g.bits), &LabelAst::Simple { value: cost, weight }.label());
        } else {
            for i in 0..cb.actions.len() {
                let v = if i == action { cost / prob } else { 0.0 };
                b.learn(&mut lower(&merged_feats(cb, i), g.seed, g.bits), &LabelAst::Simple { value: v, weight: 1.0 }.label());
            }
        }
    }
    Ok(())
}

// ---------------------------------------------------------------- action set relations

fn learn_all(w: &mut Workspace, hist: &[(FeatsAst, LabelAst)], g: &Global) {
    for (f, l) in hist {
        w.learn(&mut lower(f, g.seed, g.bits), &l.label());
    }
}

fn action_independence(s: &mut Source, c: &mut Ctx) -> R {
    let mut st = stack_of(s, &StackOpts::default(), "cbadf");
    let explore = s.bool();
    let ex = gen_explore(s);
    if explore {
        st = ex.st.clone();
    }
    let g = global(s, 8);
    let mut hist = gen_cb_hist(s, &st, 0, 6);
    let mut f = if !hist.is_empty() && s.chance(1, 3) { s.pick(&hist).0.clone() } else { stack_example(s, &st) };
    if !explore {
        let scale = magnitude(s);
        hist.iter_mut().for_each(|(f, _)| rescale(f, scale));
        rescale(&mut f, scale);
        c.class_if(scale != 1.0, "rescaled");
    }
    let cb = match &f {
        FeatsAst::Cb(cb) => cb.clone(),
        _ => unreachable!(),
    };
    let k = cb.actions.len();
    let perm = s.permutation(k);
    c.class(if explore { ex.kind } else { "cbadf" });
    c.nontrivial(k > 1 && !hist.is_empty() && perm.windows(2).any(|w| w[0] > w[1]));
    c.identity(&format!("{:?}{:?}{:?}{:?}{:?}", st.entry, g, hist, f, perm));
    c.describe(|| format!("config {} history {:?} example {:?} permutation {:?}", config_json(&g, &st.entry), hist, f, perm));
    let mut w = workspace(&g, &st.entry);
    learn_all(&mut w, &hist, &g);
    let p = w.predict(&mut lower(&f, g.seed, g.bits));
    let permuted = FeatsAst::Cb(CbAst {
        shared: cb.shared.clone(),
        actions: perm.iter().map(|i| cb.actions[*i].clone()).collect(),
    });
    let q = w.predict(&mut lower(&permuted, g.seed, g.bits));
    if !explore {
        let (p, q) = (scores(&p)?, scores(&q)?);
        check!(q.len() == k, "action-count", "{q:?}");
        for (pos, orig) in perm.iter().enumerate() {
            check!(q[pos].0 == pos, "action-ids", "{q:?}");
            check!(q[pos].1 == p[*orig].1, "score-depends-on-position", "action {orig} scored {} and, at position {pos}, {}", p[*orig].1, q[pos].1);
        }
        // alone, with one duplicate, without the others
        let i = s.usize(k);
        let alone = FeatsAst::Cb(CbAst { shared: cb.shared.clone(), actions: vec![cb.actions[i].clone()] });
        let a = scores(&w.predict(&mut lower(&alone, g.seed, g.bits)))?;
        check!(a.len() == 1 && a[0].0 == 0 && a[0].1 == p[i].1, "score-depends-on-others", "action {i} scored {} among {k} and {:?} alone", p[i].1, a);
        let mut more = cb.clone();
        more.actions.push(cb.actions[i].clone());
        let m = scores(&w.predict(&mut lower(&FeatsAst::Cb(more), g.seed, g.bits)))?;
        check!(m.len() == k + 1 && m[k].1 == p[i].1, "score-depends-on-others", "duplicate of action {i} scored {:?} instead of {}", m.last(), p[i].1);
        for j in 0..k {
            check!(m[j].1 == p[j].1, "score-depends-on-others", "adding an action changed the score of action {j}");
        }
    } else {
        let (p, q) = (probs(&p)?, probs(&q)?);
        check!(p.len() == k && q.len() == k, "action-count", "{p:?} {q:?}");
        let by = |v: &[(usize, f32)], a: usize| v.iter().find(|x| x.0 == a).map(|x| x.1 as f64).unwrap_or(f64::NAN);
        let mut ps: Vec<f64> = (0..k).map(|i| by(&p, i)).collect();
        let mut qs: Vec<f64> = (0..k).map(|pos| by(&q, pos)).collect();
        let mut base = workspace(&g, &ex.base);
        for (hf, hl) in &hist {
            let bl = match (ex.kind, hl) {
                ("squarecb", LabelAst::Cb { action, cost, .. }) => LabelAst::Cb { action: *action, cost: *cost, prob: 1.0 },
                _ => hl.clone(),
            };
            base.learn(&mut lower(hf, g.seed, g.bits), &bl.label());
        }
        let sc = scores(&base.predict(&mut lower(&f, g.seed, g.bits)))?;
        let best = sc.iter().map(|x| x.1).fold(f32::INFINITY, f32::min);
        let tied = sc.iter().filter(|x| x.1 == best).count() > 1;
        if !tied {
            for (pos, orig) in perm.iter().enumerate() {
                check!(close(qs[pos], ps[*orig], 1e-3, 0.0), "probability-depends-on-position", "action {orig}: {} at its place, {} at position {pos}", ps[*orig], qs[pos]);
            }
        } else {
            c.class("tied best");
            ps.sort_by(|a, b| a.partial_cmp(b).unwrap());
            qs.sort_by(|a, b| a.partial_cmp(b).unwrap());
            for i in 0..k {
                check!(close(ps[i], qs[i], 1e-3, 0.0), "probability-multiset", "{ps:?} vs {qs:?}");
            }
        }
    }
    Ok(())
}

/// With mtr, only the chosen action is learned from: permuting the others changes nothing.
fn mtr_learning_equivariance(s: &mut Source, c: &mut Ctx) -> R {
    let mut ew = false;
    let entry = cbadf_stack(s, &StackOpts::default(), true, &mut ew);
    let st = Stack { entry: entry.clone(), kind: "cbadf", label: reductionml_core::LabelType::CB, features: reductionml_core::FeaturesType::SparseCBAdf, uses_ew: ew };
    let g = global(s, 8);
    let hist = gen_cb_hist(s, &st, 1, 6);
    c.identity(&format!("{:?}{:?}{:?}", entry, g, hist));
    c.describe(|| format!("config {} history {:?}", config_json(&g, &entry), hist));
    let mut a = workspace(&g, &entry);
    let mut b = workspace(&g, &entry);
    let mut moved = false;
    for (f, l) in &hist {
        let (cb, (action, cost, prob)) = match (f, l) {
            (FeatsAst::Cb(cb), LabelAst::Cb { action, cost, prob }) => (cb, (*action, *cost, *prob)),
            _ => unreachable!(),
        };
        let perm = s.permutation(cb.actions.len());
        let pos = perm.iter().position(|x| *x == action).unwrap();
        moved |= pos != action;
        let pf = FeatsAst::Cb(CbAst {
            shared: cb.shared.clone(),
            actions: perm.iter().map(|i| cb.actions[*i].clone()).collect(),
        });
        a.learn(&mut lower(f, g.seed, g.bits), &l.label());
        let pl: Label = LabelAst::Cb { action: pos, cost, prob }.label();
        b.learn(&mut lower(&pf, g.seed, g.bits), &pl);
    }
    c.nontrivial(moved);
    let (ma, mb) = (Saved::of(&a)?, Saved::of(&b)?);
    check!(ma == mb, "mtr-learning-depends-on-position", "permuting actions (and the label with them) gave another model");
    Ok(())
}

pub fn properties() -> Vec<Property> {
    vec![
        Property {
            id: "C06",
            suites: vec![Suite {
                name: "valid_distribution",
                rule: "random exploration stack and parameters, learned history, every prediction made on the way checked; non-trivial: at least two actions after at least one learned example",
                quick: 290000,
                thorough: 5800000,
                f: valid_distribution,
            },
            Suite {
                    name: "long_policy",
                    rule: "200 to 72000 learned examples, up to 400 actions; non-trivial: some scores differed",
                    quick: 1900,
                    thorough: 38000,
                    f: crate::p_long::policy,
            },
            Suite {
                    name: "crowd",
                    rule: "1000 to 70000 actions, many of them alike, beside the base learner; every case is non-trivial",
                    quick: 300,
                    thorough: 6000,
                    f: crate::p_large::crowd,
                }],
            assumptions: vec!["at least one action per example"],
        },
        Property {
            id: "C07",
            suites: vec![Suite {
                name: "policy_formula",
                rule: "the exploration stack and its base learner run side by side on one history; probabilities are recomputed in f64 from the base scores; non-trivial: some prediction had unequal scores",
                quick: 130000,
                thorough: 2600000,
                f: policy_formula,
            },
            Suite {
                    name: "long_policy",
                    rule: "the exploration stack beside its base learner for 200 to 72000 examples, or with up to 400 actions; non-trivial: some scores differed",
                    quick: 2100,
                    thorough: 42000,
                    f: crate::p_long::policy,
            },
            Suite {
                    name: "crowd",
                    rule: "1000 to 70000 actions, many of them alike, beside the base learner; every case is non-trivial",
                    quick: 300,
                    thorough: 6000,
                    f: crate::p_large::crowd,
                }],
            assumptions: vec!["tolerance 5e-4 absolute, 1e-3 relative", "softmax cases where a probability underflows are not compared when a floor is set"],
        },
        Property {
            id: "C08",
            suites: vec![
                Suite {
                    name: "projection",
                    rule: "random distributions (1 to 120 entries, zeros, ties, tiny values) and floors against a bisection reference; non-trivial: some entry starts below the floor",
                    quick: 4800000,
                    thorough: 96000000,
                    f: min_prob,
                },
                Suite {
                    name: "wide",
                    rule: "distributions of 1000 to 70000 entries of a repeating shape with a few heavy ones, against the same reference; non-trivial: some entry starts below the floor",
                    quick: 4000,
                    thorough: 80000,
                    f: min_prob_wide,
                },
                Suite {
                    name: "rejects",
                    rule: "floors outside [0,1] and empty lists; every case is non-trivial",
                    quick: 200000,
                    thorough: 4000000,
                    f: min_prob_rejects,
                },
            ],
            assumptions: vec!["the input is a probability distribution", "tolerance 2e-4"],
        },
        Property {
            id: "C09",
            suites: vec![Suite {
                name: "cb_vs_regressor",
                rule: "CbAdf against its regressor driven by hand with the merged examples, scores compared after every step; non-trivial: at least two learned examples, one with two actions",
                quick: 250000,
                thorough: 5000000,
                f: cb_vs_regressor,
            },
            Suite {
                    name: "long_cb",
                    rule: "20 to 72000 examples, up to 280 actions; every case is non-trivial",
                    quick: 2500,
                    thorough: 50000,
                    f: crate::p_long::cb,
                },
                Suite {
                    name: "crowd",
                    rule: "1000 to 70000 actions of which a few are learned from, scores of some compared with the regressor driven by hand; every case is non-trivial",
                    quick: 220,
                    thorough: 4400,
                    f: crate::p_large::crowd_cb,
                }],
            assumptions: vec!["tolerance 1e-4 absolute, 1e-3 relative"],
        },
        Property {
            id: "C10",
            suites: vec![
                Suite {
                    name: "action_independence",
                    rule: "a learned model scores an action set, a permutation of it, single actions and a superset; non-trivial: a real permutation after learning",
                    quick: 450000,
                    thorough: 9000000,
                    f: action_independence,
                },
                Suite {
                    name: "mtr_learning",
                    rule: "one mtr history with the actions of every example permuted; non-trivial: the labelled action moved",
                    quick: 270000,
                    thorough: 5400000,
                    f: mtr_learning_equivariance,
                },
                Suite { name: "many_actions", rule: "100 to 1500 actions scored together, alone and rotated; non-trivial: after learning", quick: 12500, thorough: 250000, f: crate::p_large::actions },
            ],
            assumptions: vec![],
        },
    ]
}
