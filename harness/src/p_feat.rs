//! Regression kernel, interactions, feature containers, weights, metrics, losses, elementwise and
//! binary reductions.
use crate::engine::*;
use crate::gen::*;
use crate::p_cb::close;
use crate::p_model::show;
use crate::util::json_form;
use approx::AbsDiffEq;
use reductionml_core::dense_weights::{DenseWeights, DenseWeightsWithNDArray};
use reductionml_core::loss_function::{LogisticLoss, LossFunction, LossFunctionImpl, SquaredLoss};
use reductionml_core::metrics::{get_metric, MetricValue};
use reductionml_core::object_pool::PoolReturnable;
use reductionml_core::sparse_namespaced_features::{Namespace, SparseFeatures, SparseFeaturesNamespace};
use reductionml_core::weights::{foreach_feature, foreach_feature_with_state, foreach_feature_with_state_mut, Weights};
use reductionml_core::{
    ActionProbsPrediction, CBAdfFeatures, FeatureIndex, Features, FeaturesType, LabelType, ModelIndex, Prediction, ScalarPrediction,
};
use serde_json::{json, Map, Value};
use std::cell::RefCell;
use std::collections::{BTreeMap, HashMap};

const FNV: u32 = 16777619;

// ---------------------------------------------------------------- reference of interactions

type NsFeats = Vec<(Option<u32>, Vec<(u32, f32)>)>;

fn feats_of<'a>(l: &'a NsFeats, k: &Option<u32>) -> &'a [(u32, f32)] {
    l.iter().find(|x| x.0 == *k).map(|x| &x.1[..]).unwrap_or(&[])
}

fn ns_keys(g: &Global, i: &[Option<String>]) -> Vec<Option<u32>> {
    i.iter().map(|n| n.as_ref().map(|n| ref_hash(n, g.seed))).collect()
}

/// Interaction features (index, value) of a lowered example.
fn ref_interactions(l: &NsFeats, g: &Global) -> Vec<(u32, f64)> {
    let m = ref_mask(g.bits);
    let mut out = vec![];
    for inter in &g.interactions {
        let ks = ns_keys(g, inter);
        let a = feats_of(l, &ks[0]);
        let b = feats_of(l, &ks[1]);
        for (i, fa) in a.iter().enumerate() {
            for (j, fb) in b.iter().enumerate() {
                if ks[0] == ks[1] && j < i {
                    continue;
                }
                let h = FNV.wrapping_mul(fa.0) ^ fb.0;
                let v = fa.1 as f64 * fb.1 as f64;
                if ks.len() == 2 {
                    out.push((h & m, v));
                    continue;
                }
                for (k, fc) in feats_of(l, &ks[2]).iter().enumerate() {
                    if ks[1] == ks[2] && k < j {
                        continue;
                    }
                    out.push(((FNV.wrapping_mul(h) ^ fc.0) & m, v * fc.1 as f64));
                }
            }
        }
    }
    out
}

fn constant_index(bits: u8) -> u32 {
    ((1u64 << bits) / 2) as u32
}

/// Everything the regressor sees of an example.
fn ref_all(l: &NsFeats, g: &Global) -> Vec<(u32, f64)> {
    let mut v: Vec<(u32, f64)> = l.iter().flat_map(|x| x.1.iter().map(|f| (f.0, f.1 as f64))).collect();
    v.extend(ref_interactions(l, g));
    if g.constant {
        v.push((constant_index(g.bits), 1.0));
    }
    v
}

fn has_duplicates(v: &[(u32, f64)]) -> bool {
    let mut x: Vec<u32> = v.iter().map(|f| f.0).collect();
    x.sort();
    x.windows(2).any(|w| w[0] == w[1])
}

fn inter_classes(c: &mut Ctx, g: &Global) {
    for i in &g.interactions {
        let r2 = i[0] == i[1];
        if i.len() == 2 {
            c.class(if r2 { "pair of one namespace" } else { "pair" });
        } else {
            let r3 = i[1] == i[2];
            c.class(match (r2, r3) {
                (true, true) => "triple AAA",
                (true, false) => "triple AAB",
                (false, true) => "triple ABB",
                _ if i[0] == i[2] => "triple ABA",
                _ => "triple ABC",
            });
        }
        c.class_if(i.iter().any(|n| n.is_none()), "interaction with the default namespace");
    }
}

// ---------------------------------------------------------------- C11 coin betting

#[derive(Clone, Debug)]
struct CoinParams {
    alpha: f64,
    beta: f64,
    logistic_link: bool,
    /// range of labels of the logistic loss; otherwise squared
    logistic_loss: Option<(f64, f64)>,
}

/// Coin betting with feature scale and norm adaptation, generic in the precision of the arithmetic.
macro_rules! coin_ref {
    ($name:ident, $t:ty) => {
        #[derive(Default)]
        struct $name {
            st: HashMap<u32, [$t; 6]>,
            lo: $t,
            hi: $t,
            norm: $t,
            tw: $t,
        }
        impl $name {
            fn raw(&self, f: &[(u32, f64)]) -> ($t, $t) {
                let (mut p, mut mag) = (0.0, 0.0);
                for (i, x) in f {
                    if let Some(s) = self.st.get(i) {
                        let t = *x as $t * s[0];
                        p += t;
                        mag += t.abs();
                    }
                }
                (p, mag)
            }
            fn learn(&mut self, p: &CoinParams, f: &[(u32, f64)], y: $t, w: $t) {
                let (alpha, beta) = (p.alpha as $t, p.beta as $t);
                self.lo = self.lo.min(y);
                self.hi = self.hi.max(y);
                let (mut pred, mut n): ($t, $t) = (0.0, 0.0);
                for (i, x) in f {
                    let x = *x as $t;
                    let s = self.st.entry(*i).or_insert([0.0; 6]);
                    let [_, z, g2, mx, we, mg] = *s;
                    let mx = mx.max(x.abs());
                    if mg * mx > 0.0 {
                        pred += x * (alpha + we) / (mg * mx * (mg * mx + g2)) * z;
                    }
                    if mx > 0.0 {
                        n += (x / mx) * (x / mx);
                    }
                }
                self.norm += n * w;
                self.tw += w;
                let avg = (self.norm + 1e-6) / self.tw;
                let pred = (pred / avg).max(self.lo).min(self.hi);
                let u = w * match p.logistic_loss {
                    None => 2.0 * (pred - y),
                    Some((a, b)) => {
                        let t = (y - a as $t) / (b as $t - a as $t);
                        (1.0 - t) / (1.0 + (-pred).exp()) - t / (1.0 + pred.exp())
                    }
                };
                for (i, x) in f {
                    let x = *x as $t;
                    let s = self.st.get_mut(i).unwrap();
                    let g = u * x;
                    s[3] = s[3].max(x.abs());
                    if u.abs() > s[5] {
                        s[5] = u.abs().max(beta);
                    }
                    let l = s[5] * s[3];
                    let xt = if l > 0.0 { (alpha + s[4]) / (l * (l + s[2])) * s[1] } else { 0.0 };
                    s[1] -= g;
                    s[2] += g.abs();
                    s[4] -= g * xt;
                    s[0] = xt / avg;
                }
            }
        }
    };
}
coin_ref!(Coin64, f64);
coin_ref!(Coin32, f32);

fn scalar(p: &Prediction) -> Result<(f64, f64), Fail> {
    match p {
        Prediction::Scalar(x) => Ok((x.prediction as f64, x.raw_prediction as f64)),
        o => fail("wrong-prediction-type", format!("{o:?}")),
    }
}

fn coin(s: &mut Source, c: &mut Ctx) -> R {
    let p = CoinParams {
        alpha: if s.chance(1, 4) { (s.range(1, 4000) as f64) / 64.0 } else { *s.pick(&[4.0, 1.0, 0.5, 10.0, 2.0]) },
        beta: if s.chance(1, 4) { (s.range(1, 4000) as f64) / 256.0 } else { *s.pick(&[1.0, 0.5, 2.0, 0.25]) },
        logistic_link: s.chance(1, 4),
        logistic_loss: if s.chance(1, 4) { Some(*s.pick(&[(-1.0, 1.0), (0.0, 1.0), (-2.0, 4.0)])) } else { None },
    };
    let mut m = Map::new();
    if let Some((a, b)) = p.logistic_loss {
        m.insert("lossFunction".into(), json!({"Logistic": if a == -1.0 { json!({}) } else { json!({"min_label": a, "max_label": b}) }}));
    } else if s.chance(1, 4) {
        m.insert("lossFunction".into(), json!({"Squared": {}}));
    }
    if p.alpha != 4.0 || s.bool() {
        m.insert("alpha".into(), json!(p.alpha));
    }
    if p.beta != 1.0 || s.bool() {
        m.insert("beta".into(), json!(p.beta));
    }
    if p.logistic_link || s.chance(1, 4) {
        m.insert("linkFunction".into(), json!(if p.logistic_link { "Logistic" } else { "Identity" }));
    }
    let entry = json!({"typename": "Coin", "config": Value::Object(m)});
    let mut g = global(s, 1);
    g.bits = s.range(10, 15) as u8;
    let o = ExOpts { ns_pool: Some(ns_pool()), ..Default::default() };
    // some histories are long, some examples wide
    let n = match s.weighted(&[40, 3, 1]) {
        0 => s.range(1, 14),
        1 => s.range(15, 80),
        _ => s.range(200, 300),
    };
    let mut pool: Vec<ExAst> = (0..s.range(1, 3)).map(|_| example(s, &o)).collect();
    if s.chance(1, 60) {
        g.bits = 15;
        g.interactions.clear();
        let v = [value(s), 1.0, value(s)];
        let w = s.range(100, 700);
        pool[0].push(NsAst { name: Some("wide".into()), feats: (0..w).map(|i| Feat::Anon { value: v[i % 3] }).collect() });
        c.class("wide example");
    }
    c.class_if(n > 14, "long history");
    // labels of another size than one
    let size: f32 = if p.logistic_loss.is_none() && s.chance(1, 6) { *s.pick(&[1e-7, 1e-4, 1e-2, 1e2, 1e5, 3e8]) } else { 1.0 };
    c.class_if(size != 1.0, "labels of another size");
    // and examples too
    // (cubes of small values would leave the range of numbers)
    let scale: f32 = match s.chance(1, 8) {
        true if g.interactions.is_empty() => *s.pick(&[1e-5, 1e-2, 1e3, 1e5]),
        true => *s.pick(&[0.25, 30.0]),
        false => 1.0,
    };
    c.class_if(scale != 1.0, "values of another size");
    let mut hist = vec![];
    for _ in 0..n {
        let e = if s.chance(2, 3) {
            // the features of one of a few examples with other values
            let mut e = s.pick(&pool).clone();
            for ns in e.iter_mut() {
                for f in ns.feats.iter_mut() {
                    if let Feat::Num { value: v, .. } | Feat::Anon { value: v } = f {
                        if s.chance(1, 3) {
                            *v = value(s);
                        }
                    }
                }
            }
            e
        } else {
            example(s, &o)
        };
        let y = match p.logistic_loss {
            Some((a, b)) => (a + (b - a) * *s.pick(&[0.0, 1.0, 0.0, 1.0, 0.25, 0.5])) as f32,
            None if s.chance(2, 3) => s.below(9) as f32 / 4.0 - 1.0,
            None => label_value(s),
        };
        let y = y * size;
        let mut e = e;
        if scale != 1.0 {
            for f in e.iter_mut().flat_map(|n| n.feats.iter_mut()) {
                if let Feat::Num { value: v, .. } | Feat::Anon { value: v } = f {
                    *v *= scale;
                }
            }
        }
        hist.push((e, y, if s.chance(1, 12) { *s.pick(&[0.0f32, 0.0, 1e-3, 40.0]) } else { *s.pick(&[1.0f32, 1.0, 0.5, 2.0, 0.25, 3.5]) }));
    }
    c.identity(&format!("{p:?}{g:?}{hist:?}"));
    c.describe(|| format!("config {} history {hist:?}", config_json(&g, &entry)));
    let low: Vec<Vec<(u32, f64)>> = hist.iter().map(|(e, _, _)| ref_all(&ref_lower(e, g.seed, g.bits), &g)).collect();
    if low.iter().any(|f| has_duplicates(f)) {
        c.class("index collision (skipped)");
        return Ok(());
    }
    let mut w = workspace(&g, &entry);
    let (mut r, mut r32) = (Coin64::default(), Coin32::default());
    // a reference fed with slightly other labels and weights tells how well conditioned the history is
    let mut rp = Coin64::default();
    if p.logistic_loss.is_some() {
        // margins are only cut off far out
        (r.lo, r.hi, r32.lo, r32.hi) = (-50.0, 50.0, -50.0, 50.0);
        (rp.lo, rp.hi) = (-50.0, 50.0);
        c.class("logistic loss");
    }
    let mut learned = 0;
    let mut compared = 0;
    let mut err = 0.0f64;
    for t in 0..=hist.len() {
        let skip = n > 14 && t % 13 > 1 && t + 2 < n;
        // the example about to be learned, the one just learned, and the first one
        let mut which = vec![0];
        if t < hist.len() {
            which.push(t);
        }
        if t > 0 {
            which.push(t - 1);
        }
        for k in which.into_iter().filter(|_| !skip) {
            let (pred, raw) = scalar(&w.predict(&mut lower_sparse(&hist[k].0, g.seed, g.bits).into()))?;
            let (want, mag) = r.raw(&low[k]);
            let (w32, _) = r32.raw(&low[k]);
            let scale = mag + 1e-2 * size as f64;
            let e32 = (w32 as f64 - want).abs().max((rp.raw(&low[k]).0 - want).abs()) / scale;
            if !want.is_finite() || !(e32 <= 1e-3) {
                c.class("ill-conditioned (skipped)");
                return Ok(());
            }
            compared += 1;
            err = err.max(e32);
            let tol = (2e-4 + 30.0 * err).min(1e-2);
            check!(
                (raw - want).abs() <= tol * scale,
                "raw-prediction",
                "after {t} examples, example {k}: raw prediction {raw}, reference {want}"
            );
            let clamped = raw.max(r.lo).min(r.hi);
            let linked = if p.logistic_link { 1.0 / (1.0 + (-clamped).exp()) } else { clamped };
            check!(
                close(pred, linked, if p.logistic_link { 1e-5 } else { 1e-30 }, 1e-5),
                "prediction",
                "after {t} examples, example {k}: prediction {pred}, raw {raw} in [{}, {}] gives {linked}",
                r.lo, r.hi
            );
        }
        if t == hist.len() && g.interactions.is_empty() && s.chance(1, 4) {
            // an example of enormous values: the sum may exceed the range of numbers, the clipped prediction does not
            let mut big = hist[s.usize(hist.len())].0.clone();
            let k = *s.pick(&[1e15f32, 1e30, 1e37, 1e38]);
            for f in big.iter_mut().flat_map(|n| n.feats.iter_mut()) {
                if let Feat::Num { value: v, .. } | Feat::Anon { value: v } = f {
                    *v = (*v * k).clamp(-3e38, 3e38);
                }
            }
            let low = ref_all(&ref_lower(&big, g.seed, g.bits), &g);
            let (pred, raw) = scalar(&w.predict(&mut lower_sparse(&big, g.seed, g.bits).into()))?;
            let (want, mag) = r.raw(&low);
            // weights that are nearly zero by cancellation are not compared
            let sure = low.iter().all(|(i, _)| {
                let one = [(*i, 1.0)];
                let (a, b) = (r.raw(&one).0, r32.raw(&one).0 as f64);
                (a - b).abs() <= 1e-3 * a.abs()
            });
            let end = |x: f64| if p.logistic_link { 1.0 / (1.0 + (-x).exp()) } else { x };
            if !sure {
                c.class("enormous values, uncertain weights (skipped)");
            } else if mag < 1e38 {
                check!((raw - want).abs() <= 1e-2 * mag + 1e-3 * size as f64, "large-raw", "example {big:?}: raw prediction {raw}, reference {want}");
                c.class("enormous values");
            } else if mag > 1e39 && (mag - want.abs()) / 2.0 < 1e38 {
                let x = end(if want > 0.0 { r.hi } else { r.lo });
                check!(close(pred, x, 1e-5, 1e-5), "large-prediction", "example {big:?}: prediction {pred} (raw {raw}), the sum is {want}, clipped {x}");
                c.class("sum beyond the range of numbers");
            }
        }
        if t < hist.len() {
            let (e, y, wt) = &hist[t];
            w.learn(&mut lower_sparse(e, g.seed, g.bits).into(), &LabelAst::Simple { value: *y, weight: *wt }.label());
            r.learn(&p, &low[t], *y as f64, *wt as f64);
            r32.learn(&p, &low[t], *y, *wt);
            let d = if t % 3 == 0 { 3e-7 } else { -3e-7 };
            rp.learn(&p, &low[t], *y as f64 * (1.0 + d), *wt as f64 * (1.0 - d));
            learned += (!low[t].is_empty()) as usize;
        }
    }
    inter_classes(c, &g);
    c.class_if(p.logistic_link, "logistic link");
    c.class_if(hist.iter().any(|h| h.2 != 1.0), "weights");
    c.probes += compared as u64;
    c.nontrivial(learned >= 2);
    Ok(())
}

// ---------------------------------------------------------------- C12 interactions

struct Recorder {
    /// visited indices
    seen: RefCell<Vec<u32>>,
    model: RefCell<Vec<u8>>,
    cells: Vec<f32>,
}
impl Recorder {
    fn new(bits: u8) -> Recorder {
        Recorder { seen: Default::default(), model: Default::default(), cells: (0..1u32 << bits).map(|i| i as f32).collect() }
    }
    fn visit(&self, i: FeatureIndex, m: ModelIndex) -> usize {
        self.seen.borrow_mut().push(u32::from(i));
        self.model.borrow_mut().push(u8::from(m));
        u32::from(i) as usize
    }
}
impl Weights for Recorder {
    fn weight_at(&self, i: FeatureIndex, m: ModelIndex) -> f32 {
        self.cells[self.visit(i, m)]
    }
    fn weight_at_mut(&mut self, i: FeatureIndex, m: ModelIndex) -> &mut f32 {
        let i = self.visit(i, m);
        &mut self.cells[i]
    }
    fn state_at(&self, i: FeatureIndex, m: ModelIndex) -> &[f32] {
        let i = self.visit(i, m);
        &self.cells[i..i + 1]
    }
    fn state_at_mut(&mut self, i: FeatureIndex, m: ModelIndex) -> &mut [f32] {
        let i = self.visit(i, m);
        &mut self.cells[i..i + 1]
    }
}

fn inter_setup(s: &mut Source, max_bits: u8) -> (Global, ExAst) {
    let g = Global {
        bits: s.range(1, max_bits as usize) as u8,
        seed: if s.bool() { 0 } else { s.below(1 << 32) as u32 },
        constant: s.bool(),
        interactions: interactions(s, 4),
    };
    let mut e = example(s, &ExOpts { ns_pool: Some(ns_pool()), max_ns: 5, max_feats: 5, allow_empty_ns: true, ..Default::default() });
    if s.chance(1, 60) {
        // wide namespaces
        let cubic = g.interactions.iter().any(|i| i.len() == 3);
        for ns in e.iter_mut() {
            let n = s.range(0, if cubic { 20 } else { 300 });
            ns.feats.extend((0..n).map(|i| Feat::Num { name: format!("w{i}"), value: (i % 9) as f32 / 4.0 - 1.0 }));
        }
    }
    (g, e)
}

fn sorted_pairs(v: impl IntoIterator<Item = (u32, f64)>) -> Vec<(u32, f64)> {
    let mut v: Vec<(u32, f64)> = v.into_iter().map(|(i, x)| (i, x + 0.0)).collect();
    v.sort_by(|a, b| a.partial_cmp(b).unwrap());
    v
}

fn same_features(got: &[(u32, f64)], want: &[(u32, f64)]) -> bool {
    got.len() == want.len() && got.iter().zip(want).all(|(a, b)| a.0 == b.0 && close(a.1, b.1, 1e-7, 1e-5))
}

fn expansion(s: &mut Source, c: &mut Ctx) -> R {
    let (g, e) = inter_setup(s, 13);
    let low = ref_lower(&e, g.seed, g.bits);
    let want = sorted_pairs(ref_all(&low, &g));
    let sf = lower_sparse(&e, g.seed, g.bits);
    inter_classes(c, &g);
    c.class_if(g.constant, "constant");
    c.nontrivial(!ref_interactions(&low, &g).is_empty());
    c.identity(&format!("{g:?}{e:?}"));
    c.describe(|| format!("{} {e:?}", g.json()));
    let key = |n: &Option<String>| to_lib_ns(n.as_ref().map(|n| ref_hash(n, g.seed)));
    let pairs: Vec<(Namespace, Namespace)> = g.interactions.iter().filter(|i| i.len() == 2).map(|i| (key(&i[0]), key(&i[1]))).collect();
    let triples: Vec<(Namespace, Namespace, Namespace)> =
        g.interactions.iter().filter(|i| i.len() == 3).map(|i| (key(&i[0]), key(&i[1]), key(&i[2]))).collect();
    let model = s.below(4) as u8;
    for which in 0..3 {
        let mut rec = Recorder::new(g.bits);
        let mut got: Vec<(u32, f64)> = vec![];
        match which {
            0 => foreach_feature(model.into(), &sf, &rec, &pairs, &triples, g.bits, g.constant, |v, w| got.push((w as u32, v as f64))),
            1 => foreach_feature_with_state(model.into(), &sf, &rec, &pairs, &triples, g.bits, g.constant, |v, w: &[f32]| got.push((w[0] as u32, v as f64))),
            _ => foreach_feature_with_state_mut(model.into(), &sf, &mut rec, &pairs, &triples, g.bits, g.constant, |v, w: &mut [f32]| {
                got.push((w[0] as u32, v as f64))
            }),
        }
        let got = sorted_pairs(got);
        check!(same_features(&got, &want), "expansion", "traversal {which}: got {got:?}, want {want:?}");
        check!(rec.model.borrow().iter().all(|m| *m == model), "model-offset", "{:?}", rec.model.borrow());
    }
    // the iterators over plain products
    for i in &g.interactions {
        let ks = ns_keys(&g, i);
        let m = ref_mask(g.bits);
        let mut want = vec![];
        for a in feats_of(&low, &ks[0]) {
            for b in feats_of(&low, &ks[1]) {
                let h = FNV.wrapping_mul(a.0) ^ b.0;
                if ks.len() == 2 {
                    want.push((h & m, a.1 as f64 * b.1 as f64));
                } else {
                    for d in feats_of(&low, &ks[2]) {
                        want.push(((FNV.wrapping_mul(h) ^ d.0) & m, a.1 as f64 * b.1 as f64 * d.1 as f64));
                    }
                }
            }
        }
        let want = sorted_pairs(want);
        let n: Vec<Namespace> = ks.iter().map(|k| to_lib_ns(*k)).collect();
        let got: Vec<(u32, f64)> = if n.len() == 2 {
            sf.quadratic_features(n[0], n[1], g.bits).map(|i| i.map(|x| (u32::from(x.0), x.1 as f64)).collect()).unwrap_or_default()
        } else {
            sf.cubic_features(n[0], n[1], n[2], g.bits).map(|i| i.map(|x| (u32::from(x.0), x.1 as f64)).collect()).unwrap_or_default()
        };
        let got = sorted_pairs(got);
        check!(same_features(&got, &want), "product", "{i:?}: got {got:?}, want {want:?}");
    }
    Ok(())
}

/// A regressor with interactions behaves as one without, given the interaction features explicitly.
fn expansion_end_to_end(s: &mut Source, c: &mut Ctx) -> R {
    let (mut g, _) = inter_setup(s, 13);
    g.bits = s.range(12, 15) as u8;
    let plain = Global { interactions: vec![], constant: false, ..g.clone() };
    let entry = json!({"typename": "Coin", "config": {}});
    let o = ExOpts { ns_pool: Some(ns_pool()), max_ns: 4, ..Default::default() };
    let hist: Vec<(ExAst, LabelAst)> = (0..s.range(1, 5))
        .map(|_| {
            let e = example(s, &o);
            (e, LabelAst::Simple { value: s.below(9) as f32 / 4.0 - 1.0, weight: 1.0 })
        })
        .collect();
    inter_classes(c, &g);
    c.class_if(g.constant, "constant");
    c.identity(&format!("{g:?}{hist:?}"));
    c.describe(|| format!("{} {hist:?}", config_json(&g, &entry)));
    let expanded: Vec<Vec<(u32, f64)>> = hist.iter().map(|(e, _)| ref_all(&ref_lower(e, g.seed, g.bits), &g)).collect();
    c.nontrivial(hist.iter().any(|(e, _)| !ref_interactions(&ref_lower(e, g.seed, g.bits), &g).is_empty()));
    if expanded.iter().any(|f| has_duplicates(f)) {
        c.class("index collision (skipped)");
        return Ok(());
    }
    let flat = |f: &[(u32, f64)]| {
        let mut sf = SparseFeatures::new();
        let ns = sf.get_or_create_namespace(Namespace::Default);
        f.iter().for_each(|(i, v)| ns.add_feature((*i).into(), *v as f32));
        sf
    };
    let (mut w, mut b) = (workspace(&g, &entry), workspace(&plain, &entry));
    for (k, (e, l)) in hist.iter().enumerate() {
        w.learn(&mut lower_sparse(e, g.seed, g.bits).into(), &l.label());
        b.learn(&mut flat(&expanded[k]).into(), &l.label());
        for j in 0..=k {
            let (_, x) = scalar(&w.predict(&mut lower_sparse(&hist[j].0, g.seed, g.bits).into()))?;
            let (_, y) = scalar(&b.predict(&mut flat(&expanded[j]).into()))?;
            check!(close(x, y, 1e-3, 1e-3), "differs", "after {} examples, example {j}: {x} with interactions, {y} with explicit features", k + 1);
        }
    }
    Ok(())
}

// ---------------------------------------------------------------- C19 feature container

type Model = BTreeMap<Namespace, Vec<(u32, f32)>>;

fn content(sf: &SparseFeatures) -> Model {
    sf.namespaces()
        .map(|(n, it)| (n, it.map(|(i, v)| (u32::from(i), v)).collect::<Vec<_>>()))
        .filter(|x| !x.1.is_empty())
        .collect()
}

fn filled(m: &Model) -> Model {
    m.iter().filter(|x| !x.1.is_empty()).map(|x| (*x.0, x.1.clone())).collect()
}

fn build(m: &Model) -> SparseFeatures {
    let mut sf = SparseFeatures::new();
    for (n, v) in m {
        let ns = sf.get_or_create_namespace(*n);
        v.iter().for_each(|(i, x)| ns.add_feature((*i).into(), *x));
    }
    sf
}

fn agree(sf: &SparseFeatures, m: &Model, what: &str, nss: &[Namespace]) -> R {
    let want = filled(m);
    check!(content(sf) == want, "namespaces", "{what}: namespaces give {:?}, want {want:?}", content(sf));
    let mut all: Vec<(u32, f32)> = sf.all_features().map(|(i, v)| (u32::from(i), v)).collect();
    let mut wall: Vec<(u32, f32)> = want.values().flatten().cloned().collect();
    all.sort_by(|a, b| a.partial_cmp(b).unwrap());
    wall.sort_by(|a, b| a.partial_cmp(b).unwrap());
    check!(all == wall, "all-features", "{what}: all features give {all:?}, want {wall:?}");
    for n in nss {
        let w = want.get(n).cloned().unwrap_or_default();
        let g = sf.get_namespace(*n);
        let v: Vec<(u32, f32)> = g.map(|x| x.iter().map(|(i, v)| (u32::from(i), v)).collect()).unwrap_or_default();
        check!(v == w, "get-namespace", "{what}: {n:?} holds {v:?}, want {w:?}");
        if let Some(x) = g {
            let by_parts: Vec<(u32, f32)> = x.indices().iter().map(|i| u32::from(*i)).zip(x.values().iter().cloned()).collect();
            check!(by_parts == w && x.size() == w.len(), "parts", "{what}: {n:?} parts {by_parts:?} size {}, want {w:?}", x.size());
            for k in 0..=w.len() + 1 {
                let mut it = x.iter();
                let at = it.nth(k).map(|(i, v)| (u32::from(i), v));
                check!(at == w.get(k).cloned(), "nth", "{what}: {n:?} has {at:?} at {k}, want {w:?}");
                let rest: Vec<(u32, f32)> = it.map(|(i, v)| (u32::from(i), v)).collect();
                check!(rest == w[(k + 1).min(w.len())..], "nth", "{what}: {n:?} goes on with {rest:?} after {k}, want {w:?}");
            }
            let (lo, hi) = x.iter().size_hint();
            check!(lo <= w.len() && hi.map_or(true, |h| h >= w.len()), "size-hint", "{what}: {n:?} announces {lo}..{hi:?} features, holds {w:?}");
            let pairs: Vec<(u32, f32)> = x.iter().skip(1).step_by(2).map(|(i, v)| (u32::from(i), v)).collect();
            let wpairs: Vec<(u32, f32)> = w.iter().skip(1).step_by(2).cloned().collect();
            check!(pairs == wpairs && x.iter().count() == w.len(), "nth", "{what}: {n:?} gives every other feature as {pairs:?}, want {wpairs:?}");
            check!(x.namespace() == *n, "namespace-id", "{what}: {n:?} says it is {:?}", x.namespace());
        } else {
            check!(w.is_empty(), "absent", "{what}: {n:?} absent, want {w:?}");
        }
    }
    if !want.is_empty() {
        check!(!sf.empty(), "empty", "{what}: says it is empty, holds {want:?}");
    }
    Ok(())
}

/// Few values, so that equal ones are met, and now and then an infinite one.
fn small_value(s: &mut Source) -> f32 {
    match s.weighted(&[60, 1, 1]) {
        0 => s.below(5) as f32,
        1 => f32::INFINITY,
        _ => f32::NEG_INFINITY,
    }
}

fn small_model(s: &mut Source, nss: &[Namespace]) -> Model {
    let mut m = Model::new();
    for _ in 0..s.range(0, 3) {
        let n = *s.pick(nss);
        let v = (0..s.range(0, 3)).map(|_| (s.below(16) as u32, small_value(s))).collect::<Vec<_>>();
        m.entry(n).or_default().extend(v);
    }
    m
}

fn container(s: &mut Source, c: &mut Ctx) -> R {
    let nss = [
        Namespace::Default,
        Namespace::Named(1.into()),
        Namespace::Named(2.into()),
        Namespace::RawHash(1.into()),
        Namespace::RawHash(7.into()),
        Namespace::Named(0.into()),
    ];
    let pool = new_pool();
    let mut sf = SparseFeatures::new();
    let mut m = Model::new();
    let mut appended: Vec<Model> = vec![];
    let mut log: Vec<String> = vec![];
    let n = s.range(1, 24);
    let mut kinds = std::collections::BTreeSet::new();
    let res: R = (|| {
        for _ in 0..n {
            let ns = *s.pick(&nss);
            let op = s.weighted(&[6, 3, 3, 5, 5, 2, 2, 2, 2, 2]);
            // while something appended is still to be removed the container is only extended and restored
            let op = if !appended.is_empty() && !matches!(op, 3 | 4 | 9) { 4 } else { op };
            kinds.insert(op);
            match op {
                0 => {
                    let v: Vec<(u32, f32)> = (0..s.range(0, 3)).map(|_| (s.below(16) as u32, small_value(s))).collect();
                    let how = s.usize(4);
                    log.push(format!("add {v:?} to {ns:?} ({how})"));
                    let d = if s.bool() { sf.get_or_create_namespace(ns) } else { sf.get_or_create_namespace_with_capacity(ns, s.usize(4)) };
                    if s.chance(1, 3) {
                        d.reserve(s.usize(6));
                    }
                    let idx: Vec<FeatureIndex> = v.iter().map(|x| x.0.into()).collect();
                    let val: Vec<f32> = v.iter().map(|x| x.1).collect();
                    match how {
                        0 => v.iter().for_each(|(i, x)| d.add_feature((*i).into(), *x)),
                        1 => d.add_features(&idx, &val),
                        2 => d.add_features_with_iter(idx.iter().cloned(), val.iter().cloned()),
                        _ => {
                            drop(d);
                            if let Some(d) = sf.get_namespace_mut(ns) {
                                v.iter().for_each(|(i, x)| d.add_feature((*i).into(), *x));
                            } else {
                                return fail("absent", format!("{log:?}: created namespace {ns:?} cannot be had"));
                            }
                        }
                    }
                    m.entry(ns).or_default().extend(v);
                }
                1 => {
                    let v: Vec<(u32, f32)> = (0..s.range(0, 3)).map(|_| (s.below(16) as u32, small_value(s))).collect();
                    log.push(format!("set {ns:?} to {v:?}"));
                    let mut d = SparseFeaturesNamespace::new(ns);
                    v.iter().for_each(|(i, x)| d.add_feature((*i).into(), *x));
                    sf.set_namespace(ns, d);
                    m.insert(ns, v);
                }
                2 => {
                    log.push(format!("take {ns:?} out"));
                    let got = sf.remove_namespace(ns).map(|d| d.iter().map(|(i, v)| (u32::from(i), v)).collect::<Vec<_>>()).unwrap_or_default();
                    let want = m.remove(&ns).unwrap_or_default();
                    check!(got == want, "remove-namespace", "{log:?}: got {got:?}, want {want:?}");
                    if s.bool() {
                        log.push("and put it back".into());
                        let mut d = SparseFeaturesNamespace::new(ns);
                        got.iter().for_each(|(i, x)| d.add_feature((*i).into(), *x));
                        sf.set_namespace(ns, d);
                        m.insert(ns, got);
                    }
                }
                3 => {
                    let o = small_model(s, &nss);
                    log.push(format!("append {o:?}"));
                    let mut other = build(&o);
                    if s.chance(1, 3) {
                        // namespaces the other object held before it was recycled
                        let mut x = build(&small_model(s, &nss));
                        x.clear();
                        x.append(&other);
                        other = x;
                    }
                    sf.append(&other);
                    for (k, v) in &o {
                        m.entry(*k).or_default().extend(v.iter().cloned());
                    }
                    agree(&other, &o, "appended object", &nss)?;
                    appended.push(o);
                }
                4 => {
                    if let Some(o) = appended.pop() {
                        log.push(format!("remove {o:?}"));
                        sf.remove(&build(&o));
                        for (k, v) in &o {
                            let e = m.get_mut(k).unwrap();
                            e.truncate(e.len() - v.len());
                        }
                    }
                }
                5 => {
                    log.push("clear".into());
                    sf.clear();
                    m.clear();
                    check!(sf.empty(), "empty", "{log:?}: not empty after clear");
                }
                6 => {
                    log.push("return to the pool and take another".into());
                    let before = pool.len();
                    std::mem::take(&mut sf).clear_and_return_object(&pool);
                    check!(pool.len() == before + 1, "pool", "pool holds {} after return to {before}", pool.len());
                    let extra = if s.bool() { Some(pool.get_object()) } else { None };
                    sf = pool.get_object();
                    m.clear();
                    check!(sf.empty(), "pool", "{log:?}: object from the pool is not empty");
                    if let Some(mut x) = extra {
                        // a second live object is another one
                        x.get_or_create_namespace(ns).add_feature(9.into(), 9.0);
                        check!(content(&sf).is_empty(), "pool", "{log:?}: objects share features");
                        x.clear_and_return_object(&pool);
                    }
                }
                7 => {
                    log.push("clone".into());
                    let x = sf.clone();
                    check!(x == sf, "clone", "{log:?}: clone differs");
                    sf.get_or_create_namespace(ns).add_feature(3.into(), 1.0);
                    agree(&x, &m, &format!("{log:?} (clone)"), &nss)?;
                    m.entry(ns).or_default().push((3, 1.0));
                    sf = sf.clone();
                }
                8 => {
                    // comparison of contents
                    let mut o = m.clone();
                    let changed = s.bool() && !filled(&o).is_empty();
                    if changed {
                        let k = *s.pick(&filled(&o).keys().cloned().collect::<Vec<_>>());
                        let v = o.get_mut(&k).unwrap();
                        let i = s.usize(v.len());
                        match s.usize(4) {
                            0 => v[i].1 += 1.0,
                            1 => v[i].0 += 1,
                            2 => {
                                v.remove(i);
                            }
                            _ => v.push((1, 1.0)),
                        }
                    }
                    let mut other = build(&o);
                    if s.bool() {
                        // an empty namespace is no content
                        other.get_or_create_namespace(*s.pick(&nss));
                    }
                    let same = filled(&o) == filled(&m);
                    log.push(format!("compare with {o:?}"));
                    let a: Features = sf.clone().into();
                    let b: Features = other.clone().into();
                    let r = (sf.abs_diff_eq(&other, 1e-6), other.abs_diff_eq(&sf, 1e-6), a.abs_diff_eq(&b, 1e-6));
                    check!(r == (same, same, same), "compare", "{log:?}: {r:?}, same content is {same}");
                }
                _ => {
                    log.push(format!("look up {ns:?}"));
                    let g = sf.get_namespace_mut(ns).map(|x| x.size()).unwrap_or(0);
                    let w = m.get(&ns).map(|x| x.len()).unwrap_or(0);
                    check!(g == w, "get-namespace", "{log:?}: {g} features, want {w}");
                }
            }
            agree(&sf, &m, &format!("{log:?}"), &nss)?;
        }
        while let Some(o) = appended.pop() {
            log.push(format!("remove {o:?}"));
            sf.remove(&build(&o));
            for (k, v) in &o {
                let e = m.get_mut(k).unwrap();
                e.truncate(e.len() - v.len());
            }
            agree(&sf, &m, &format!("{log:?}"), &nss)?;
        }
        Ok(())
    })();
    c.class_if(kinds.contains(&4), "append and remove");
    c.class_if(kinds.contains(&6), "recycled");
    c.class_if(kinds.contains(&2), "namespace taken out");
    c.nontrivial(kinds.len() >= 3);
    c.identity(&log);
    c.describe(|| format!("{log:?}"));
    res
}

// ---------------------------------------------------------------- C20 weights

fn weights(s: &mut Source, c: &mut Ctx) -> R {
    // a few shapes reach the limits of the index types
    let (f, md, st) = match s.weighted(&[60, 1, 1, 1]) {
        0 => (s.range(1, 70) as u32, s.range(1, 6) as u8, s.range(1, 9) as u8),
        1 => (s.range(1, 9) as u32, s.range(7, 255) as u8, s.range(1, 9) as u8),
        2 => (s.range(1, 9) as u32, s.range(1, 6) as u8, s.range(10, 255) as u8),
        _ => (s.range(70, 3000) as u32, s.range(1, 6) as u8, s.range(1, 9) as u8),
    };
    let mut w = match DenseWeights::new(f.into(), md.into(), st.into()) {
        Ok(w) => w,
        Err(e) => return fail("rejects-valid", format!("{f}x{md}x{st}: {e}")),
    };
    let mut m = vec![0.0f32; f as usize * md as usize * st as usize];
    let at = |i: u32, j: u8, k: usize| (i as usize * md as usize + j as usize) * st as usize + k;
    let n = s.range(1, 30);
    let mut log = vec![];
    for _ in 0..n {
        // corners are where neighbours meet
        let i = *s.pick(&[0, f - 1, f / 2]) ;
        let i = if s.bool() { i } else { s.below(f as u64) as u32 };
        let j = if s.bool() { md - 1 } else { s.below(md as u64) as u8 };
        // now and then the smallest or largest numbers there are
        let x = if s.chance(1, 12) {
            f32::from_bits(*s.pick(&[1u32, 2, 0x3ff, 0x7f_ffff, 0x80_0000, 0x80_0001, 0x7f7f_ffff, 0x8000_0001, 0x807f_ffff, 0xff7f_ffff]))
        } else {
            num(s)
        };
        if s.chance(1, 3) {
            *w.weight_at_mut(i.into(), j.into()) = x;
            m[at(i, j, 0)] = x;
            log.push((i, j, 0, x));
        } else {
            let k = s.usize(st as usize);
            let cell = w.state_at_mut(i.into(), j.into());
            check!(cell.len() == st as usize, "state-size", "{} cells, want {st}", cell.len());
            cell[k] = x;
            m[at(i, j, k)] = x;
            log.push((i, j, k, x));
        }
    }
    c.class_if(!f.is_power_of_two(), "odd number of features");
    c.class_if(md > 1, "several models");
    c.class_if(!st.is_power_of_two(), "odd state size");
    c.nontrivial(log.len() >= 2 && f > 1);
    c.identity(&format!("{f} {md} {st} {log:?}"));
    c.describe(|| format!("weights {f} x {md} x {st}: {log:?}"));
    let same = |w: &DenseWeights, what: &str| -> R {
        for i in 0..f {
            for j in 0..md {
                let cell = w.state_at(i.into(), j.into());
                let want = &m[at(i, j, 0)..at(i, j, 0) + st as usize];
                check!(cell == want, "cell", "{what}: ({i}, {j}) is {cell:?}, want {want:?}");
                check!(w.weight_at(i.into(), j.into()) == want[0], "weight", "{what}: ({i}, {j})");
            }
        }
        Ok(())
    };
    same(&w, "after writes")?;
    // stored forms
    let text = serde_json::to_string(&w).unwrap();
    let back: DenseWeights = match serde_json::from_str(&text) {
        Ok(x) => x,
        Err(e) => return fail("load-error", format!("{e}")),
    };
    same(&back, "after JSON")?;
    check!(back == w && back.abs_diff_eq(&w, 1e-9), "json-equal", "JSON form differs");
    let nd = DenseWeightsWithNDArray::from_dense_weights(w.clone());
    let text = serde_json::to_string(&nd).unwrap();
    let back: DenseWeightsWithNDArray = match serde_json::from_str(&text) {
        Ok(x) => x,
        Err(e) => return fail("load-error", format!("{e}")),
    };
    let back = back.to_dense_weights();
    same(&back, "after nested JSON")?;
    check!(back == w, "ndarray-equal", "nested form differs");
    // only features with a weight are listed
    let v: Value = serde_json::from_str(&text).unwrap();
    let mut listed: Vec<u32> = v["weights"].as_object().unwrap().keys().map(|k| k.parse().unwrap()).collect();
    listed.sort();
    let want: Vec<u32> = (0..f).filter(|i| m[at(*i, 0, 0)..at(*i, 0, 0) + md as usize * st as usize].iter().any(|x| *x != 0.0)).collect();
    check!(listed == want, "listed", "features listed {listed:?}, with weights {want:?}");
    // a changed weight is seen
    let i = s.below(f as u64) as u32;
    let mut other = w.clone();
    let cell = &mut other.state_at_mut(i.into(), 0.into())[s.usize(st as usize)];
    *cell = if cell.abs() < 1e6 { *cell + 1.0 } else { 0.0 };
    check!(!other.abs_diff_eq(&w, 1e-3) && other != w, "compare", "changed weight of {i} not seen");
    Ok(())
}

/// Large tables, touched here and there.
fn big_table(s: &mut Source, c: &mut Ctx) -> R {
    let total = s.range(16, 28);
    let mb = s.range(0, 7.min(total - 10));
    let sb = s.range(0, 7.min(total - mb - 8));
    let fb = total - mb - sb;
    let size = |s: &mut Source, b: usize| -> usize {
        // any size that needs so many bits
        let hi = 1usize << b;
        if b < 2 || s.bool() { hi } else { hi / 2 + 1 + s.usize(hi / 2) }
    };
    let f = size(s, fb) as u32;
    let md = size(s, mb).min(255) as u8;
    let st = size(s, sb).min(255) as u8;
    let mut w = match DenseWeights::new(f.into(), md.into(), st.into()) {
        Ok(w) => w,
        Err(e) => return fail("rejects-valid", format!("{f}x{md}x{st}: {e}")),
    };
    let mut m: BTreeMap<(u32, u8, u8), f32> = BTreeMap::new();
    let n = s.range(2, 60);
    for t in 0..n {
        let i = match s.usize(4) {
            0 => s.below(f as u64) as u32,
            1 => f - 1 - s.below(f.min(3) as u64) as u32,
            // neighbourhoods of powers of two
            _ => ((1u64 << s.usize(fb + 1)) as i64 - 1 + s.usize(3) as i64).clamp(0, f as i64 - 1) as u32,
        };
        let j = if s.bool() { s.below(md as u64) as u8 } else { md - 1 };
        let k = if s.bool() { s.below(st as u64) as u8 } else { 0 };
        let x = 1.0 + t as f32;
        if k == 0 && s.bool() {
            *w.weight_at_mut(i.into(), j.into()) = x;
        } else {
            w.state_at_mut(i.into(), j.into())[k as usize] = x;
        }
        m.insert((i, j, k), x);
    }
    c.nontrivial(m.len() >= 2);
    c.class(&format!("2^{total} cells"));
    c.identity(&format!("{f} {md} {st} {m:?}"));
    c.describe(|| format!("weights {f} x {md} x {st}: {m:?}"));
    let cells: std::collections::BTreeSet<(u32, u8)> = m
        .keys()
        .flat_map(|x| [(x.0, x.1), ((x.0 + 1).min(f - 1), x.1), (x.0.saturating_sub(1), x.1), (x.0, 0), (x.0 / 2, x.1), (x.0 & 0xffff, x.1), (x.0 & 0xff, 0)])
        .collect();
    for (i, j) in cells {
        let got = w.state_at(i.into(), j.into());
        check!(got.len() == st as usize, "state-size", "{} cells, want {st}", got.len());
        for k in 0..st {
            let want = m.get(&(i, j, k)).cloned().unwrap_or(0.0);
            check!(got[k as usize] == want, "cell", "({i}, {j}, {k}) is {}, want {want}", got[k as usize]);
        }
        check!(w.weight_at(i.into(), j.into()) == got[0], "weight", "({i}, {j})");
    }
    Ok(())
}

// ---------------------------------------------------------------- C27 metrics

fn metric_value(v: MetricValue) -> f64 {
    match v {
        MetricValue::Float(f) => f as f64,
        MetricValue::Int(i) => i as f64,
        MetricValue::Bool(b) => b as u8 as f64,
        MetricValue::String(_) => f64::NAN,
    }
}

fn metrics(s: &mut Source, c: &mut Ctx) -> R {
    let cb = s.bool();
    let n = s.range(1, 20);
    let names: &[&str] = if cb { &["ips", "parsed_features", "example_number"] } else { &["mse", "parsed_features", "example_number"] };
    let mut ms: Vec<_> = names.iter().map(|n| get_metric(n).unwrap()).collect();
    let (mut sum, mut abs, mut feats) = (0.0f64, 0.0f64, 0u64);
    let o = ExOpts { repeat_ns: false, ..Default::default() };
    let mut log = vec![];
    // costs and errors of any size
    let size = if s.bool() { 1.0 } else { *s.pick(&[1e-9f32, 1e-6, 1e-4, 1e-3, 1e-2, 1e3, 1e6, 1e9]) };
    let close = s.bool();
    c.class(if cb { "contextual bandit" } else { "scalar" });
    c.class_if(size < 1.0, "small values");
    c.class_if(size > 1.0, "large values");
    for t in 1..=n {
        let (ast, label, pred);
        if cb {
            let e = cb_example(s, &o, 5, true);
            let k = e.actions.len();
            let a = s.usize(k);
            let cost = label_value(s) * size;
            let prob = probability(s);
            // probabilities in any order of actions
            let ps: Vec<(usize, f32)> = s.permutation(k).into_iter().map(|i| (i, s.below(101) as f32 / 100.0)).collect();
            let pp = ps.iter().find(|x| x.0 == a).unwrap().1;
            let term = -(cost as f64) * pp as f64 / prob as f64;
            sum += term;
            abs += term.abs();
            ast = FeatsAst::Cb(e);
            label = LabelAst::Cb { action: a, cost, prob };
            pred = Prediction::ActionProbs(ActionProbsPrediction(ps));
        } else {
            ast = FeatsAst::Simple(example(s, &o));
            let y = label_value(s) * if close { 1.0 } else { size };
            let p = if close { y + label_value(s) * size } else { label_value(s) * size };
            let term = (y as f64 - p as f64).powi(2);
            sum += term;
            abs += term;
            label = LabelAst::Simple { value: y, weight: *s.pick(&[1.0, 2.0, 0.5]) };
            pred = Prediction::Scalar(ScalarPrediction { prediction: p, raw_prediction: label_value(s) });
        }
        log.push((ast.clone(), label.clone(), show(&pred)));
        let count = |e: &ExAst| e.iter().map(|n| n.feats.len() as u64).sum::<u64>();
        feats += match &ast {
            FeatsAst::Simple(e) => count(e),
            FeatsAst::Cb(x) => x.shared.as_ref().map_or(0, count) + x.actions.iter().map(count).sum::<u64>(),
        };
        let mut f = lower(&ast, 0, 18);
        let by_ref = s.bool();
        for m in ms.iter_mut() {
            if by_ref {
                let r = match &mut f {
                    Features::SparseSimple(x) => Features::SparseSimpleRef(x),
                    Features::SparseCBAdf(x) => Features::SparseCBAdfRef(x),
                    _ => unreachable!(),
                };
                m.add_point(&r, &label.label(), &pred);
            } else {
                m.add_point(&f, &label.label(), &pred);
            }
        }
        let v: Vec<f64> = ms.iter().map(|m| metric_value(m.get_value())).collect();
        let want = sum / t as f64;
        check!((v[0] - want).abs() <= 1e-5 * abs / t as f64 + 1e-37, names[0], "after {t} points {} is {}, want {want}: {log:?}", names[0], v[0]);
        check!(v[1] == feats as f64, "parsed_features", "after {t} points {}, want {feats}", v[1]);
        check!(v[2] == t as f64 - 1.0, "example_number", "after {t} points {}", v[2]);
    }
    c.nontrivial(n >= 2);
    c.identity(&format!("{log:?}"));
    c.describe(|| format!("{log:?}"));
    let mut bad = name(s);
    bad.push_str("?");
    check!(get_metric(&bad).is_none(), "unknown", "{bad} is a metric");
    Ok(())
}

/// Many points, many features: totals past 2^8, 2^16, 2^24.
fn long_metrics(s: &mut Source, c: &mut Ctx) -> R {
    let cb = s.bool();
    let n = match s.weighted(&[6, 2]) {
        0 => s.range(200, 1500),
        _ => s.range(65_500, 70_000),
    };
    let names: &[&str] = if cb { &["ips", "parsed_features", "example_number"] } else { &["mse", "parsed_features", "example_number"] };
    let mut ms: Vec<_> = names.iter().map(|n| get_metric(n).unwrap()).collect();
    let o = ExOpts { repeat_ns: false, ..Default::default() };
    let mut points = vec![];
    for _ in 0..s.range(1, 4) {
        let wide = if n < 2000 && s.bool() { s.range(200, 9000) } else { 0 };
        let more = NsAst { name: Some("wide".into()), feats: (0..wide).map(|i| Feat::Anon { value: i as f32 }).collect() };
        let count = |e: &ExAst| e.iter().map(|n| n.feats.len() as u64).sum::<u64>();
        points.push(if cb {
            let mut e = cb_example(s, &o, 4, true);
            if s.bool() {
                e.actions.last_mut().unwrap().push(more);
            } else {
                e.shared.get_or_insert(vec![]).push(more);
            }
            let k = e.actions.len();
            let (a, cost, prob) = (s.usize(k), label_value(s), probability(s));
            let ps: Vec<(usize, f32)> = s.permutation(k).into_iter().map(|i| (i, s.below(101) as f32 / 100.0)).collect();
            let pp = ps.iter().find(|x| x.0 == a).unwrap().1;
            let f = e.shared.as_ref().map_or(0, count) + e.actions.iter().map(count).sum::<u64>();
            (lower(&FeatsAst::Cb(e), 0, 18), LabelAst::Cb { action: a, cost, prob }.label(), Prediction::ActionProbs(ActionProbsPrediction(ps)), -(cost as f64) * pp as f64 / prob as f64, f)
        } else {
            let mut e = example(s, &o);
            e.push(more);
            let (y, p) = (label_value(s), label_value(s));
            let f = count(&e);
            (
                lower(&FeatsAst::Simple(e), 0, 18),
                LabelAst::Simple { value: y, weight: 1.0 }.label(),
                Prediction::Scalar(ScalarPrediction { prediction: p, raw_prediction: p }),
                (y as f64 - p as f64).powi(2),
                f,
            )
        });
    }
    let (mut sum, mut abs, mut feats) = (0.0f64, 0.0f64, 0u64);
    c.class(if cb { "contextual bandit" } else { "scalar" });
    c.nontrivial(true);
    c.describe(|| format!("{n} points of {:?}", points.iter().map(|p| (&p.1, &p.2, p.4)).collect::<Vec<_>>()));
    for t in 1..=n {
        let (f, l, p, term, k) = &points[t % points.len()];
        sum += term;
        abs += term.abs();
        feats += k;
        ms.iter_mut().for_each(|m| m.add_point(f, l, p));
        if t % 251 == 0 || t == n {
            let v: Vec<f64> = ms.iter().map(|m| metric_value(m.get_value())).collect();
            let want = sum / t as f64;
            check!((v[0] - want).abs() <= 1e-6 + 5e-3 * abs / t as f64, names[0], "after {t} points {} is {}, want {want}", names[0], v[0]);
            check!(v[1] == feats as f64, "parsed_features", "after {t} points {}, want {feats}", v[1]);
            check!(v[2] == t as f64 - 1.0, "example_number", "after {t} points {}", v[2]);
        }
    }
    c.class_if(n > 65_536, "more than 65536 points");
    c.class_if(feats > 65_536, "more than 65536 features");
    c.class_if(feats > 1 << 24, "more than 2^24 features");
    c.identity(&format!("{n} {sum} {feats} {cb}"));
    Ok(())
}

/// The number of features read passes 2^31, where a signed 32 bit total ends.
fn feature_total(s: &mut Source, c: &mut Ctx) -> R {
    let per = (1u64 << 20) + s.below(1 << 16);
    let n = (1u64 << 31) / per + 2 + s.below(20);
    let cb = s.bool();
    let wide = NsAst { name: Some("wide".into()), feats: (0..per).map(|_| Feat::Anon { value: 1.0 }).collect() };
    let (f, l, p) = if cb {
        (
            lower(&FeatsAst::Cb(CbAst { shared: None, actions: vec![vec![wide]] }), 0, 22),
            LabelAst::Cb { action: 0, cost: 1.0, prob: 1.0 }.label(),
            Prediction::ActionProbs(ActionProbsPrediction(vec![(0, 1.0)])),
        )
    } else {
        (
            lower(&FeatsAst::Simple(vec![wide]), 0, 22),
            LabelAst::Simple { value: 1.0, weight: 1.0 }.label(),
            Prediction::Scalar(ScalarPrediction { prediction: 0.0, raw_prediction: 0.0 }),
        )
    };
    c.nontrivial(true);
    c.identity(&format!("{per} {n} {cb}"));
    c.describe(|| format!("{n} examples of {per} features"));
    let mut m = get_metric("parsed_features").unwrap();
    for t in 1..=n {
        m.add_point(&f, &l, &p);
        if t + 30 > n {
            let v = guarded(|| metric_value(m.get_value()));
            let want = (t * per) as f64;
            check!(v == Ok(want), "parsed_features", "after {t} examples of {per} features: {v:?}, want {want}");
        }
    }
    Ok(())
}

// ---------------------------------------------------------------- C28 losses

fn losses(s: &mut Source, c: &mut Ctx) -> R {
    let logistic = s.bool();
    let p = (s.below(4001) as f64 - 2000.0) / *s.pick(&[200.0, 400.0, 1000.0]);
    let scale = match s.usize(4) {
        0 => (s.below(1000) as f64 + 1.0) / 1000.0,
        1 => (s.below(100) as f64 + 1.0) / 20.0,
        2 => (s.below(1000) as f64 + 1.0) * 1e-6,
        _ => (s.below(1000) as f64 + 1.0) * 1e-9,
    };
    let ppu = (s.below(40) as f64 + 1.0) / 8.0;
    let (min, max, y, l): (f64, f64, f64, LossFunction);
    if logistic {
        let (a, b) = *s.pick(&[(-1.0, 1.0), (0.0, 1.0), (-2.0, 3.0)]);
        min = a;
        max = b;
        y = match s.usize(4) {
            0 => min,
            1 => max,
            _ => min + (max - min) * s.below(65) as f64 / 64.0,
        };
        l = LogisticLoss::new(min as f32, max as f32).into();
    } else {
        min = (s.below(41) as f64 - 20.0) / 4.0;
        max = min + s.below(33) as f64 / 4.0;
        y = match s.usize(4) {
            0 => min,
            1 => max,
            _ => min + (max - min) * s.below(65) as f64 / 64.0,
        };
        l = SquaredLoss::default().into();
    }
    let (p32, y32, lo32, hi32) = (p as f32, y as f32, min as f32, max as f32);
    let (p, y) = (p32 as f64, y32 as f64);
    c.class(if logistic { "logistic" } else if p < min { "squared, below" } else if p > max { "squared, above" } else { "squared, inside" });
    c.nontrivial(true);
    c.identity(&format!("{logistic}{p}{y}{min}{max}{scale}{ppu}"));
    c.describe(|| format!("{} loss, prediction {p}, label {y} in [{min}, {max}], update scale {scale}, prediction per update {ppu}", if logistic { "logistic" } else { "squared" }));
    let at = |q: f64| -> (f64, f64, f64) {
        // loss, first and second derivative
        if logistic {
            let f = (y - min) / (max - min);
            let one = |t: f64| {
                let d = 1.0 / (1.0 + (t * q).exp());
                ((1.0 + (-t * q).exp()).ln(), -t * d, d * (1.0 - d))
            };
            let (a, b) = (one(1.0), one(-1.0));
            (f * a.0 + (1.0 - f) * b.0, f * a.1 + (1.0 - f) * b.1, f * a.2 + (1.0 - f) * b.2)
        } else {
            // outside the range of labels the loss continues along its tangent
            let e = q.max(min).min(max);
            let d = 2.0 * (e - y);
            ((e - y).powi(2) + d * (q - e), d, if q == e { 2.0 } else { 0.0 })
        }
    };
    let (v, d1, d2) = at(p);
    let got = l.get_loss(lo32, hi32, p32, y32) as f64;
    check!(close(got, v, 1e-4, 1e-4), "loss", "loss {got}, want {v}");
    let got = l.first_derivative(lo32, hi32, p32, y32) as f64;
    check!(close(got, d1, 1e-4, 1e-4), "first-derivative", "first derivative {got}, want {d1}");
    let got = l.second_derivative(lo32, hi32, p32, y32) as f64;
    check!(close(got, d2, 1e-4, 1e-4), "second-derivative", "second derivative {got}, want {d2}");
    if logistic || (min..=max).contains(&p) {
        let got = l.get_square_grad(p32, y32) as f64;
        check!(close(got, d1 * d1, 1e-3, 1e-3), "square-grad", "squared gradient {got}, want {}", d1 * d1);
        let got = l.get_unsafe_update(p32, y32, scale as f32) as f64;
        check!(close(got, -d1 * scale, 1e-4 * scale, 1e-3), "unsafe-update", "one gradient step {got}, want {}", -d1 * scale);
    }
    // the safe update follows the gradient flow: dq/ds = -loss'(q) * ppu
    let pure = y == min || y == max;
    if !logistic || pure {
        let got = l.get_update(p32, y32, scale as f32, ppu as f32) as f64;
        let steps = 400;
        let mut q = p;
        let flow = |q: f64| -> f64 {
            if logistic { -at(q).1 * ppu } else { -2.0 * (q - y) * ppu }
        };
        let h = scale / steps as f64;
        for _ in 0..steps {
            let k1 = flow(q);
            let k2 = flow(q + h * k1 / 2.0);
            let k3 = flow(q + h * k2 / 2.0);
            let k4 = flow(q + h * k3);
            q += h * (k1 + 2.0 * k2 + 2.0 * k3 + k4) / 6.0;
        }
        let want = (q - p) / ppu;
        let tol = if logistic { 5e-4 / ppu } else { 2e-4 / ppu };
        // rounding of the prediction itself
        let tol = if scale * ppu < 1e-5 { 2.0 * scale * (1.0 + d1.abs()) * if scale * ppu < 1e-6 { 1e-2 } else { 1.0 } + if scale * ppu < 1e-6 { 0.0 } else { tol } } else { tol + 1e-3 * want.abs() };
        check!((got - want).abs() <= tol, "update", "update {got}, gradient flow gives {want}");
        if !logistic && scale * ppu > 1.1e-6 {
            // up to the rounding of the exponential
            let exact = (y - p) * -(-2.0 * scale * ppu).exp_m1() / ppu;
            let tol = (y - p).abs() * 3e-7 / ppu + 1e-5 * exact.abs();
            check!((got - exact).abs() <= tol, "update", "update {got}, want {exact}");
        }
    }
    Ok(())
}

// ---------------------------------------------------------------- C30 elementwise

/// Elementwise features of one lowered example, built by hand.
fn ref_elementwise(low: &NsFeats, one: Option<u32>, two: Option<u32>, bits: u8) -> Vec<(u32, f32)> {
    let m = ref_mask(bits);
    let (h1, h2) = (one.unwrap_or(0), two.unwrap_or(0));
    let dest = h1.wrapping_mul(h2);
    let a = feats_of(low, &one);
    let b = feats_of(low, &two);
    let mut out = vec![];
    for (i, x) in a {
        let off = i.wrapping_sub(h1) & m;
        for (j, y) in b {
            if (j.wrapping_sub(h2) & m) == off {
                out.push((dest.wrapping_add(off) & m, x * y));
            }
        }
    }
    out
}

/// Marks an element a vector does not have, as a null in an array.
const HOLE: f32 = 77.25;

fn vector_ns(s: &mut Source, name: Option<String>, bits: u8) -> NsAst {
    let most = if s.chance(1, 6) { 14 } else { 6 };
    let n = s.range(0, most.min((1usize << bits) - 1).max(1));
    let holes = s.chance(1, 3);
    NsAst { name, feats: (0..n).map(|_| Feat::Anon { value: if holes && s.chance(1, 3) { HOLE } else { value(s) } }).collect() }
}

fn ref_lower_holes(e: &ExAst, seed: u32, bits: u8) -> NsFeats {
    let mut l = ref_lower(e, seed, bits);
    l.iter_mut().for_each(|(_, v)| v.retain(|(_, x)| *x != HOLE));
    l
}

fn lower_holes(f: &FeatsAst, seed: u32, bits: u8) -> Features<'static> {
    let sparse = |e: &ExAst| -> SparseFeatures {
        let mut sf = SparseFeatures::new();
        for (k, v) in ref_lower_holes(e, seed, bits) {
            let d = sf.get_or_create_namespace(to_lib_ns(k));
            v.iter().for_each(|(i, x)| d.add_feature((*i).into(), *x));
        }
        sf
    };
    match f {
        FeatsAst::Simple(e) => sparse(e).into(),
        FeatsAst::Cb(c) => CBAdfFeatures { shared: c.shared.as_ref().map(sparse), actions: c.actions.iter().map(sparse).collect() }.into(),
    }
}

fn elementwise(s: &mut Source, c: &mut Ctx) -> R {
    let cb = s.chance(1, 3);
    let keep = s.bool();
    let mut g = global(s, 1);
    g.bits = if s.chance(1, 3) { s.range(3, 6) as u8 } else { s.range(9, 13) as u8 };
    let one = if s.chance(1, 8) { None } else { Some(s.pick(&["u", "A", "ewA"]).to_string()) };
    let two = match s.usize(8) {
        0 => one.clone(),
        1 => None,
        _ => Some(s.pick(&["v", "B", "ewB"]).to_string()),
    };
    // a name whose hash is near the end of the feature space: the vector wraps around
    let wrap = |s: &mut Source, n: &Option<String>| -> Option<String> {
        let n = n.clone()?;
        if !s.chance(1, 4) {
            return Some(n);
        }
        (0..2000u32).map(|i| format!("{n}{i}")).find(|x| (ref_hash(x, g.seed) | 3) & ref_mask(g.bits) == ref_mask(g.bits)).or(Some(n))
    };
    let same = one == two;
    let one = wrap(s, &one);
    let two = if same { one.clone() } else { wrap(s, &two) };
    let nj = |n: &Option<String>| match n {
        None => json!("Default"),
        Some(n) => json!({ "Name": n }),
    };
    let mut coin = coin_cfg(s);
    coin["config"].as_object_mut().unwrap().remove("lossFunction");
    let mut cfg = Map::new();
    if one.is_some() || s.bool() {
        cfg.insert("one".into(), nj(&one));
    }
    if two.is_some() || s.bool() {
        cfg.insert("two".into(), nj(&two));
    }
    if keep || s.bool() {
        cfg.insert("keepOriginalFeatures".into(), json!(keep));
    }
    // further interactions below the first
    let mut layers = vec![(one.clone(), two.clone(), keep)];
    let mut below = coin.clone();
    if s.chance(1, 3) {
        let choices = [one.clone(), two.clone(), Some("C".to_string()), Some("u".to_string()), None];
        let (a, b, k) = if s.chance(1, 5) { (one.clone(), two.clone(), s.bool()) } else { (s.pick(&choices).clone(), s.pick(&choices).clone(), s.bool()) };
        below = json!({"typename": "ElementwiseInteraction", "config": {"one": nj(&a), "two": nj(&b), "keepOriginalFeatures": k, "regressor": below}});
        layers.push((a, b, k));
    }
    cfg.insert("regressor".into(), below);
    let ew = json!({"typename": "ElementwiseInteraction", "config": Value::Object(cfg)});
    let key = |n: &Option<String>| n.as_ref().map(|n| ref_hash(n, g.seed));
    let layers: Vec<(Option<u32>, Option<u32>, bool)> = layers.iter().map(|(a, b, k)| (key(a), key(b), *k)).collect();
    let (entry, base) = if cb {
        let t = if s.bool() { "mtr" } else { "ips" };
        (json!({"typename": "CbAdf", "config": {"cbType": t, "regressor": ew}}), json!({"typename": "CbAdf", "config": {"cbType": t, "regressor": coin}}))
    } else {
        (ew, coin)
    };
    // interactions may name the two namespaces
    if s.chance(1, 3) {
        g.interactions.push(vec![one.clone(), Some("C".into())]);
    }
    // with further interactions C is a vector, too
    let nested = layers.len() > 1;
    let others = if nested { vec![Some("D".into())] } else { vec![Some("C".into()), Some("D".into())] };
    let o = ExOpts { ns_pool: Some(others.clone()), ..Default::default() };
    let gen_ex = |s: &mut Source| -> ExAst {
        let mut e = example(s, &o);
        if !s.chance(1, 8) {
            e.push(vector_ns(s, one.clone(), g.bits));
        }
        if !same && !s.chance(1, 8) {
            e.push(vector_ns(s, two.clone(), g.bits));
        }
        if nested && s.bool() {
            e.push(vector_ns(s, Some("C".into()), g.bits));
        }
        e
    };
    let n = s.range(1, 5);
    let mut hist: Vec<(FeatsAst, LabelAst)> = vec![];
    for _ in 0..n {
        let f = if cb {
            // vectors in the actions, the shared part or one in each
            let mut f = CbAst { shared: None, actions: (0..s.range(1, 3)).map(|_| gen_ex(s)).collect() };
            if s.bool() {
                let mut sh = example(s, &ExOpts { ns_pool: Some(if nested { vec![Some("E".into())] } else { vec![Some("C".into()), Some("E".into())] }), ..Default::default() });
                if !same && s.bool() {
                    sh.push(vector_ns(s, two.clone(), g.bits));
                    f.actions.iter_mut().for_each(|a| a.retain(|n| n.name != two));
                }
                f.shared = Some(sh);
            }
            FeatsAst::Cb(f)
        } else {
            FeatsAst::Simple(gen_ex(s))
        };
        let l = label_for(if cb { LabelType::CB } else { LabelType::Simple }, &f, s);
        hist.push((f, l));
    }
    c.identity(&format!("{entry}{g:?}{hist:?}"));
    c.describe(|| format!("config {} history {hist:?}", config_json(&g, &entry)));
    // the same examples with the interactions done by hand, the outer one first
    let mut made = 0;
    // two interactions whose products fall on the same feature: a learner visits the two in an
    // order that nothing promises
    let ambiguous = std::cell::Cell::new(false);
    let expand = |e: &NsFeats, made: &mut usize| -> SparseFeatures {
        let mut named = e.clone();
        let mut products: Vec<(u32, Vec<(u32, f32)>)> = vec![];
        for (k1, k2, keep) in &layers {
            let prod = ref_elementwise(&named, *k1, *k2, g.bits);
            *made += prod.len();
            if products.iter().any(|(_, p)| p.iter().any(|(i, _)| prod.iter().any(|(j, _)| i == j))) {
                ambiguous.set(true);
            }
            products.push((k1.unwrap_or(0).wrapping_mul(k2.unwrap_or(0)), prod));
            if !keep {
                named.retain(|x| x.0 != *k1 && x.0 != *k2);
            }
        }
        let mut sf = SparseFeatures::new();
        for (k, v) in &named {
            let d = sf.get_or_create_namespace(to_lib_ns(*k));
            v.iter().for_each(|(i, x)| d.add_feature((*i).into(), *x));
        }
        for (k, v) in &products {
            let d = sf.get_or_create_namespace(Namespace::RawHash((*k).into()));
            v.iter().for_each(|(i, x)| d.add_feature((*i).into(), *x));
        }
        sf
    };
    let by_hand = |f: &FeatsAst, made: &mut usize| -> Features<'static> {
        match f {
            FeatsAst::Simple(e) => expand(&ref_lower_holes(e, g.seed, g.bits), made).into(),
            FeatsAst::Cb(x) => CBAdfFeatures {
                shared: None,
                actions: x
                    .actions
                    .iter()
                    .map(|a| {
                        let mut l = ref_lower_holes(a, g.seed, g.bits);
                        for (k, v) in x.shared.as_ref().map(|e| ref_lower_holes(e, g.seed, g.bits)).unwrap_or_default() {
                            match l.iter_mut().find(|y| y.0 == k) {
                                Some(y) => y.1.extend(v),
                                None => l.push((k, v)),
                            }
                        }
                        expand(&l, made)
                    })
                    .collect(),
            }
            .into(),
        }
    };
    let mut w = workspace(&g, &entry);
    let mut b = workspace(&g, &base);
    for (t, (f, l)) in hist.iter().enumerate() {
        let mut lw = lower_holes(f, g.seed, g.bits);
        let before = observe(&lw);
        if s.bool() {
            w.learn(&mut lw, &l.label());
        } else {
            w.predict_then_learn(&mut lw, &l.label());
        }
        check!(observe(&lw) == before, "example-changed", "learning changed the example to {:?}", observe(&lw));
        b.learn(&mut by_hand(f, &mut made), &l.label());
        for (f, _) in &hist {
            let mut lw = lower_holes(f, g.seed, g.bits);
            let x = numbers(&w.predict(&mut lw));
            check!(observe(&lw) == observe(&lower_holes(f, g.seed, g.bits)), "example-changed", "predicting changed the example");
            let y = numbers(&b.predict(&mut by_hand(f, &mut made)));
            let ok = x.len() == y.len() && x.iter().zip(&y).all(|(a, b)| close(*a, *b, 1e-4, 1e-3) || (a.is_infinite() && a == b) || (a.is_nan() && b.is_nan()));
            check!(ok || ambiguous.get(), "prediction", "after {} examples: {x:?}, with the products given as features {y:?} for {f:?}", t + 1);
        }
    }
    c.class_if(keep, "originals kept");
    c.class_if(nested, "nested");
    c.class_if(ambiguous.get(), "products on the same feature");
    c.class_if(same, "namespace with itself");
    c.class_if(one.is_none() || two.is_none(), "default namespace");
    c.class_if(cb, "contextual bandit");
    c.nontrivial(made > 0);
    Ok(())
}

fn numbers(p: &Prediction) -> Vec<f64> {
    match p {
        Prediction::Scalar(x) => vec![x.prediction as f64, x.raw_prediction as f64],
        Prediction::Binary(b) => vec![b.0 as u8 as f64],
        Prediction::ActionScores(a) => a.0.iter().flat_map(|x| [x.0 as f64, x.1 as f64]).collect(),
        Prediction::ActionProbs(a) => a.0.iter().flat_map(|x| [x.0 as f64, x.1 as f64]).collect(),
    }
}

// ---------------------------------------------------------------- C31 binary

fn binary(s: &mut Source, c: &mut Ctx) -> R {
    let o = StackOpts::default();
    let mut ew = false;
    let reg = scalar_stack(s, &o, &mut ew);
    let entry = json!({"typename": "Binary", "config": {"regressor": reg}});
    let st = Stack { entry: entry.clone(), kind: "binary", label: LabelType::Binary, features: FeaturesType::SparseSimple, uses_ew: ew };
    let g = global(s, 12);
    let n = if s.chance(1, 80) { s.range(60, 300) } else { s.range(1, 8) };
    let hist: Vec<(FeatsAst, bool)> = if n > 8 {
        // a long history of a few examples
        let p: Vec<FeatsAst> = (0..3).map(|_| stack_example(s, &st)).collect();
        (0..n).map(|_| (s.pick(&p).clone(), s.bool())).collect()
    } else {
        (0..n).map(|_| (stack_example(s, &st), s.bool())).collect()
    };
    c.identity(&format!("{entry}{g:?}{hist:?}"));
    c.describe(|| format!("config {} history {hist:?}", config_json(&g, &entry)));
    let mut w = workspace(&g, &entry);
    let mut b = workspace(&g, &reg);
    let (mut yes, mut no) = (0, 0);
    let mut expect = |b: &reductionml_core::workspace::Workspace, f: &FeatsAst, got: Prediction, t: usize| -> R {
        let (x, _) = scalar(&b.predict(&mut lower(f, g.seed, g.bits)))?;
        let got = match got {
            Prediction::Binary(p) => p.0,
            o => return fail("wrong-prediction-type", format!("{o:?}")),
        };
        if x > 0.0 { yes += 1 } else { no += 1 }
        check!(got == (x > 0.0), "sign", "after {t} examples: predicted {got}, the regressor says {x}");
        Ok(())
    };
    for (t, (f, y)) in hist.iter().enumerate() {
        let l = LabelAst::Binary(*y).label();
        if s.bool() {
            let p = w.predict_then_learn(&mut lower(f, g.seed, g.bits), &l);
            expect(&b, f, p, t)?;
        } else {
            w.learn(&mut lower(f, g.seed, g.bits), &l);
        }
        b.learn(&mut lower(f, g.seed, g.bits), &LabelAst::Simple { value: if *y { 1.0 } else { -1.0 }, weight: 1.0 }.label());
        for (f, _) in hist.iter().rev().take(8) {
            let p = w.predict(&mut lower(f, g.seed, g.bits));
            expect(&b, f, p, t + 1)?;
        }
    }
    // what was learned is what the regressor would have learned
    let (mw, mb) = (json_form(&w), json_form(&b));
    let state = |v: &Value| -> Value {
        let mut v = v;
        loop {
            match v {
                Value::Object(m) if m.contains_key("weights") && m.contains_key("model_states") => return json!([m["weights"], m["model_states"], m["min_label"], m["max_label"]]),
                Value::Object(m) => match m.get("regressor").or(m.get("next")).or(m.get("reduction")).or(m.get("entry_reduction")) {
                    Some(x) => v = x,
                    None => return Value::Null,
                },
                _ => return Value::Null,
            }
        }
    };
    let (sw, sb) = (state(&mw), state(&mb));
    if !sw.is_null() && !sb.is_null() {
        c.class("learned state compared");
        check!(sw == sb, "state", "the regressor below learned {sw}, on its own it learned {sb}");
    }
    c.class_if(yes > 0 && no > 0, "both answers");
    c.nontrivial(yes > 0 && n >= 2);
    Ok(())
}

pub fn properties() -> Vec<Property> {
    vec![
        Property {
            id: "C11",
            suites: vec![Suite { name: "coin", rule: "at least two examples with features were learned and no feature indices collided", quick: 1200000, thorough: 24000000, f: coin }],
            assumptions: vec![
                "single precision is compared with a double precision reference at a relative tolerance of 1e-2 of the summed terms; histories where the reference itself differs between the two precisions by more than 1e-3 are skipped",
                "colliding feature indices, whose updates depend on the order of features, are skipped",
            ],
        },
        Property {
            id: "C12",
            suites: vec![
                Suite { name: "expansion", rule: "at least one interaction feature results", quick: 1900000, thorough: 38000000, f: expansion },
                Suite { name: "expansion_end_to_end", rule: "at least one interaction feature results", quick: 250000, thorough: 5000000, f: expansion_end_to_end },
            ],
            assumptions: vec!["the order in which features are visited is not specified"],
        },
        Property {
            id: "C19",
            suites: vec![Suite { name: "container", rule: "at least three kinds of operation", quick: 3300000, thorough: 66000000, f: container },
                Suite { name: "container_large", rule: "up to 70000 features or 2000 namespaces; every case is non-trivial", quick: 15000, thorough: 300000, f: crate::p_large::container },
            ],
            assumptions: vec!["a namespace without features and an absent namespace are not told apart"],
        },
        Property {
            id: "C20",
            suites: vec![Suite { name: "weights", rule: "at least two writes to a table of more than one feature", quick: 1500000, thorough: 30000000, f: weights },
                Suite { name: "big_table", rule: "at least two cells written", quick: 75000, thorough: 1500000, f: big_table },
            ],
            assumptions: vec![],
        },
        Property {
            id: "C27",
            suites: vec![Suite { name: "metrics", rule: "at least two points", quick: 580000, thorough: 11600000, f: metrics },
                Suite { name: "long_metrics", rule: "every case", quick: 1200, thorough: 24000, f: long_metrics },
                Suite { name: "feature_total", rule: "every case", quick: 1, thorough: 8, f: feature_total }],
            assumptions: vec!["compared in double precision with a tolerance of 1e-5 of the mean magnitude"],
        },
        Property {
            id: "C28",
            suites: vec![Suite { name: "losses", rule: "every case", quick: 4000000, thorough: 80000000, f: losses }],
            assumptions: vec!["the closed form of the logistic update is an approximation with a documented error of 9e-5"],
        },
        Property {
            id: "C30",
            suites: vec![Suite { name: "elementwise", rule: "at least one product results", quick: 670000, thorough: 13400000, f: elementwise }],
            assumptions: vec!["the vectors are given as anonymous features in order"],
        },
        Property {
            id: "C31",
            suites: vec![Suite { name: "binary", rule: "at least two examples and one positive prediction", quick: 420000, thorough: 8400000, f: binary }],
            assumptions: vec![],
        },
    ]
}
