//! Generators shared by the suites: an independent abstract syntax for examples, renderings of
//! it in the three text formats, and random reduction stacks.
use crate::engine::Source;
use reductionml_core::object_pool::Pool;
use reductionml_core::sparse_namespaced_features::{Namespace, SparseFeatures};
use reductionml_core::workspace::{Configuration, Workspace};
use reductionml_core::{CBAdfFeatures, CBLabel, Features, FeaturesType, Label, LabelType, SimpleLabel};
use serde_json::{json, Map, Value};
use std::sync::Arc;

// ---------------------------------------------------------------- scalars and names

/// A well-behaved finite f32.
pub fn num(s: &mut Source) -> f32 {
    match s.weighted(&[30, 25, 20, 10, 5, 5, 5]) {
        0 => s.below(6) as f32,
        1 => (s.below(41) as f32 - 20.0) / 4.0,
        2 => (s.below(2001) as f32 - 1000.0) / 100.0,
        3 => -(s.below(10) as f32),
        4 => s.below(100_000) as f32 / 7.0,
        5 => (s.below(1000) as f32 + 1.0) * 1e-6,
        _ => (s.below(1 << 24) as f32) / (1 << 20) as f32 - 8.0,
    }
}

/// Moderate feature value used when histories are learned (never zero unless asked).
pub fn value(s: &mut Source) -> f32 {
    match s.weighted(&[40, 30, 20, 10]) {
        0 => 1.0,
        1 => (s.below(31) as f32 - 15.0) / 4.0,
        2 => (s.below(2001) as f32 - 1000.0) / 250.0,
        _ => 0.0,
    }
}

/// Learning label: tame.
pub fn label_value(s: &mut Source) -> f32 {
    match s.weighted(&[40, 40, 20]) {
        0 => s.below(2) as f32,
        1 => (s.below(41) as f32 - 20.0) / 8.0,
        _ => (s.below(2001) as f32 - 1000.0) / 100.0,
    }
}

pub fn probability(s: &mut Source) -> f32 {
    match s.weighted(&[4, 4, 2]) {
        0 => 1.0,
        1 => (s.below(100) + 1) as f32 / 100.0,
        _ => (s.below(1000) + 1) as f32 / 1000.0,
    }
}

const NAME_CHARS: &[char] = &[
    'a', 'b', 'c', 'x', 'y', 'z', 'A', 'Z', '0', '1', '9', '_', '-', '.', '^', '#', '\'', '$', '/',
    '(', ',', '=', '%', '+', '*', '!', '~', '{', ']', '<', '&', ';', '?', '@', 'é', 'ß', '中', '😀', 'Ω',
];

/// A name usable in every format (no whitespace, '|', ':', '"', '\\' or control character).
pub fn name(s: &mut Source) -> String {
    match s.weighted(&[50, 30, 15, 5]) {
        0 => s.pick(&["a", "b", "c", "d", "f0", "f1", "f2", "user", "x", "zz"]).to_string(),
        1 => {
            let n = s.range(1, 6);
            (0..n).map(|_| *s.pick(NAME_CHARS)).collect()
        }
        2 => format!("{}", s.below(200)),
        _ => {
            // long names exercise the different input-length regimes of the hash
            let n = s.range(1, 260);
            let c = s.usize(NAME_CHARS.len());
            (0..n).map(|i| NAME_CHARS[(c + i * 7) % 22]).collect()
        }
    }
}

pub fn ns_name(s: &mut Source) -> String {
    match s.weighted(&[60, 30, 10]) {
        0 => s.pick(&["A", "B", "C", "ns", "shared", "user_ns"]).to_string(),
        1 => name(s),
        _ => s.pick(&["a", "i", "j", "0", "-1", "default", "'q"]).to_string(),
    }
}

/// A string that no float grammar accepts; usable inside VW text (no space, '|' or ':').
pub fn text_value(s: &mut Source) -> String {
    match s.weighted(&[60, 25, 15]) {
        0 => s.pick(&["red", "blue", "v", "Cathy", "hot", "x1"]).to_string(),
        1 => format!("{}{}", s.pick(&["v", "q", "Z", "é", "_", "$", "#"]), name(s)),
        _ => s.pick(&["1.2.3", "12abc", "0x10", "--1", "1,5", "3/4"]).to_string(),
    }
}

// ---------------------------------------------------------------- example syntax

#[derive(Clone, Debug, PartialEq)]
pub enum Feat {
    Num { name: String, value: f32 },
    Str { name: String, value: String },
    Anon { value: f32 },
}

#[derive(Clone, Debug, PartialEq)]
pub struct NsAst {
    /// None: the default namespace
    pub name: Option<String>,
    pub feats: Vec<Feat>,
}

pub type ExAst = Vec<NsAst>;

#[derive(Clone, Debug, PartialEq)]
pub struct CbAst {
    pub shared: Option<ExAst>,
    pub actions: Vec<ExAst>,
}

#[derive(Clone, Debug, PartialEq)]
pub enum FeatsAst {
    Simple(ExAst),
    Cb(CbAst),
}

#[derive(Clone, Debug, PartialEq)]
pub enum LabelAst {
    Simple { value: f32, weight: f32 },
    Binary(bool),
    Cb { action: usize, cost: f32, prob: f32 },
}

/// Makes every numeric value of an example one of the given, most of them of the same sign.
pub fn enlarge(f: &mut FeatsAst, s: &mut Source, values: &[f32]) {
    let by = *s.pick(values);
    let parts: Vec<&mut ExAst> = match f {
        FeatsAst::Simple(x) => vec![x],
        FeatsAst::Cb(cb) => cb.shared.iter_mut().chain(cb.actions.iter_mut()).collect(),
    };
    for feat in parts.into_iter().flatten().flat_map(|ns| ns.feats.iter_mut()) {
        if let Feat::Num { value, .. } | Feat::Anon { value } = feat {
            *value = if s.chance(1, 4) { -by } else { by };
        }
    }
}

impl LabelAst {
    pub fn label(&self) -> Label {
        match self {
            LabelAst::Simple { value, weight } => SimpleLabel::new(*value, *weight).into(),
            LabelAst::Binary(b) => reductionml_core::BinaryLabel(*b).into(),
            LabelAst::Cb { action, cost, prob } => CBLabel::new(*action, *cost, *prob).into(),
        }
    }
}

/// Reference hashing: the documented key hash (XXH3-64 seeded, truncated to 32 bits).
pub fn ref_hash(key: &str, seed: u32) -> u32 {
    twox_hash::xxh3::hash64_with_seed(key.as_bytes(), seed as u64) as u32
}

pub fn ref_mask(bits: u8) -> u32 {
    ((1u64 << bits) - 1) as u32
}

/// Namespace key of the reference: None is the default namespace.
pub fn ref_ns_hash(name: &Option<String>, seed: u32) -> Option<u32> {
    match name.as_deref() {
        None | Some(" ") | Some(":default") => None,
        Some(n) => Some(ref_hash(n, seed)),
    }
}

pub fn to_lib_ns(h: Option<u32>) -> Namespace {
    match h {
        None => Namespace::Default,
        Some(h) => Namespace::Named(h.into()),
    }
}

/// Reference lowering of an example: per namespace the (index, value) list in input order.
pub fn ref_lower(ex: &ExAst, seed: u32, bits: u8) -> Vec<(Option<u32>, Vec<(u32, f32)>)> {
    let mut out: Vec<(Option<u32>, Vec<(u32, f32)>)> = vec![];
    for ns in ex {
        let key = ref_ns_hash(&ns.name, seed);
        let h = key.unwrap_or(0);
        let mut anon = 0u32;
        let mut v = vec![];
        for f in &ns.feats {
            let (hash, val) = match f {
                Feat::Num { name, value } => (ref_hash(name, h), *value),
                Feat::Str { name, value } => (ref_hash(value, ref_hash(name, h)), 1.0),
                Feat::Anon { value } => {
                    let x = h.wrapping_add(anon);
                    anon += 1;
                    (x, *value)
                }
            };
            v.push((hash & ref_mask(bits), val));
        }
        match out.iter_mut().find(|(k, _)| *k == key) {
            Some((_, o)) => o.extend(v),
            None => out.push((key, v)),
        }
    }
    out
}

pub fn lower_sparse(ex: &ExAst, seed: u32, bits: u8) -> SparseFeatures {
    let mut sf = SparseFeatures::new();
    for (k, fs) in ref_lower(ex, seed, bits) {
        let ns = sf.get_or_create_namespace(to_lib_ns(k));
        for (i, v) in fs {
            ns.add_feature(i.into(), v);
        }
    }
    sf
}

pub fn lower(f: &FeatsAst, seed: u32, bits: u8) -> Features<'static> {
    match f {
        FeatsAst::Simple(e) => lower_sparse(e, seed, bits).into(),
        FeatsAst::Cb(c) => CBAdfFeatures {
            shared: c.shared.as_ref().map(|e| lower_sparse(e, seed, bits)),
            actions: c.actions.iter().map(|e| lower_sparse(e, seed, bits)).collect(),
        }
        .into(),
    }
}

// ---------------------------------------------------------------- random examples

pub struct ExOpts {
    pub max_ns: usize,
    pub max_feats: usize,
    pub allow_empty_ns: bool,
    pub allow_strings: bool,
    pub allow_default: bool,
    /// namespaces drawn from this small set only (to overlap with interactions)
    pub ns_pool: Option<Vec<Option<String>>>,
    pub tame: bool,
    /// repeated segments of one namespace allowed (VW only)
    pub repeat_ns: bool,
}

impl Default for ExOpts {
    fn default() -> Self {
        ExOpts {
            max_ns: 3,
            max_feats: 4,
            allow_empty_ns: false,
            allow_strings: true,
            allow_default: true,
            ns_pool: None,
            tame: true,
            repeat_ns: false,
        }
    }
}

pub fn feat(s: &mut Source, o: &ExOpts, anon: bool) -> Feat {
    let v = |s: &mut Source| if o.tame { value(s) } else { num(s) };
    if anon {
        return Feat::Anon { value: v(s) };
    }
    if o.allow_strings && s.chance(1, 5) {
        Feat::Str {
            name: name(s),
            value: text_value(s),
        }
    } else {
        Feat::Num {
            name: name(s),
            value: v(s),
        }
    }
}

pub fn example(s: &mut Source, o: &ExOpts) -> ExAst {
    let n = s.range(0, o.max_ns);
    let mut ex: ExAst = vec![];
    for _ in 0..n {
        let name = match &o.ns_pool {
            Some(p) => s.pick(p).clone(),
            None => {
                if o.allow_default && s.chance(1, 4) {
                    None
                } else {
                    Some(ns_name(s))
                }
            }
        };
        if !o.repeat_ns && ex.iter().any(|x| x.name == name) {
            continue;
        }
        let lo = if o.allow_empty_ns { 0 } else { 1 };
        let k = s.range(lo, o.max_feats.max(lo));
        let anon = s.chance(1, 4);
        ex.push(NsAst {
            name,
            feats: (0..k).map(|_| feat(s, o, anon)).collect(),
        });
    }
    ex
}

pub fn cb_example(s: &mut Source, o: &ExOpts, max_actions: usize, allow_no_shared: bool) -> CbAst {
    let shared = if allow_no_shared && s.chance(1, 4) {
        None
    } else {
        Some(example(s, o))
    };
    let k = s.range(1, max_actions);
    CbAst {
        shared,
        actions: (0..k).map(|_| example(s, o)).collect(),
    }
}

pub fn feats_features(ft: FeaturesType, s: &mut Source, o: &ExOpts) -> FeatsAst {
    match ft {
        FeaturesType::SparseSimple => FeatsAst::Simple(example(s, o)),
        FeaturesType::SparseCBAdf => FeatsAst::Cb(cb_example(s, o, 5, true)),
    }
}

pub fn label_for(lt: LabelType, f: &FeatsAst, s: &mut Source) -> LabelAst {
    match lt {
        LabelType::Simple => LabelAst::Simple {
            value: label_value(s),
            weight: if s.chance(1, 16) { *s.pick(&[0.0, 0.01, 20.0]) } else { *s.pick(&[1.0, 1.0, 0.5, 2.0, 0.25]) },
        },
        LabelType::Binary => LabelAst::Binary(s.bool()),
        LabelType::CB => {
            let k = match f {
                FeatsAst::Cb(c) => c.actions.len(),
                _ => 1,
            };
            LabelAst::Cb {
                action: s.usize(k),
                cost: label_value(s),
                prob: probability(s),
            }
        }
    }
}

// ---------------------------------------------------------------- renderings

pub fn vw_ns(ns: &NsAst) -> String {
    let mut o = String::from("|");
    match &ns.name {
        None => o.push(' '),
        Some(n) => o.push_str(n),
    }
    for f in &ns.feats {
        o.push(' ');
        match f {
            Feat::Num { name, value } => o.push_str(&format!("{name}:{value}")),
            Feat::Str { name, value } => o.push_str(&format!("{name}:{value}")),
            Feat::Anon { value } => o.push_str(&format!(":{value}")),
        }
    }
    o
}

pub fn vw_line(prefix: &str, ex: &ExAst) -> String {
    let mut o = String::from(prefix);
    if !o.is_empty() && !o.ends_with(' ') {
        o.push(' ');
    }
    let segs: Vec<String> = ex.iter().map(vw_ns).collect();
    if segs.is_empty() {
        // a line without any feature still needs its bar
        o.push_str("| ");
    }
    o.push_str(&segs.join(" "));
    o
}

pub fn vw_example(f: &FeatsAst, l: &Option<LabelAst>) -> String {
    match f {
        FeatsAst::Simple(e) => {
            let p = match l {
                Some(LabelAst::Simple { value, weight }) => format!("{value} {weight} "),
                None => String::new(),
                _ => panic!("not a VW text label"),
            };
            vw_line(&p, e)
        }
        FeatsAst::Cb(c) => {
            let mut lines = vec![];
            if let Some(sh) = &c.shared {
                lines.push(vw_line("shared ", sh));
            }
            for (i, a) in c.actions.iter().enumerate() {
                let p = match l {
                    Some(LabelAst::Cb { action, cost, prob }) if *action == i => {
                        format!("{i}:{cost}:{prob} ")
                    }
                    _ => String::new(),
                };
                lines.push(vw_line(&p, a));
            }
            lines.join("\n")
        }
    }
}

fn jf(v: f32) -> Value {
    // the exact decimal written for an f32
    serde_json::from_str(&format!("{v:?}")).unwrap()
}

pub fn json_ns(ns: &NsAst) -> Value {
    if !ns.feats.is_empty() && ns.feats.iter().all(|f| matches!(f, Feat::Anon { .. })) {
        Value::Array(
            ns.feats
                .iter()
                .map(|f| match f {
                    Feat::Anon { value } => jf(*value),
                    _ => unreachable!(),
                })
                .collect(),
        )
    } else {
        let mut m = Map::new();
        for f in &ns.feats {
            match f {
                Feat::Num { name, value } => m.insert(name.clone(), jf(*value)),
                Feat::Str { name, value } => m.insert(name.clone(), json!(value)),
                Feat::Anon { .. } => panic!("mixed anonymous namespace"),
            };
        }
        Value::Object(m)
    }
}

/// serde_json's map sorts its keys: keep the given order by printing by hand.
pub fn json_obj(fields: &[(String, String)]) -> String {
    let mut o = String::from("{");
    for (i, (k, v)) in fields.iter().enumerate() {
        if i > 0 {
            o.push(',');
        }
        o.push_str(&serde_json::to_string(k).unwrap());
        o.push(':');
        o.push_str(v);
    }
    o.push('}');
    o
}

pub fn json_ns_text(ns: &NsAst) -> String {
    if !ns.feats.is_empty() && ns.feats.iter().all(|f| matches!(f, Feat::Anon { .. })) {
        json_ns(ns).to_string()
    } else {
        let fields: Vec<(String, String)> = ns
            .feats
            .iter()
            .map(|f| match f {
                Feat::Num { name, value } => (name.clone(), jf(*value).to_string()),
                Feat::Str { name, value } => (name.clone(), serde_json::to_string(value).unwrap()),
                Feat::Anon { .. } => panic!("mixed anonymous namespace"),
            })
            .collect();
        json_obj(&fields)
    }
}

pub fn json_features_text(ex: &ExAst) -> String {
    let fields: Vec<(String, String)> = ex
        .iter()
        .map(|ns| {
            (
                ns.name.clone().unwrap_or_else(|| ":default".to_string()),
                json_ns_text(ns),
            )
        })
        .collect();
    json_obj(&fields)
}

pub fn json_example(f: &FeatsAst, l: &Option<LabelAst>) -> String {
    let mut fields: Vec<(String, String)> = vec![];
    match l {
        Some(LabelAst::Simple { value, weight }) => fields.push((
            "label".into(),
            json!({"value": jf(*value), "weight": jf(*weight)}).to_string(),
        )),
        Some(LabelAst::Cb { action, cost, prob }) => fields.push((
            "label".into(),
            json!({"action": action, "cost": jf(*cost), "probability": jf(*prob)}).to_string(),
        )),
        Some(LabelAst::Binary(_)) => panic!("binary labels have no text form"),
        None => {}
    }
    match f {
        FeatsAst::Simple(e) => fields.push(("features".into(), json_features_text(e))),
        FeatsAst::Cb(c) => {
            if let Some(sh) = &c.shared {
                fields.push(("shared".into(), json_features_text(sh)));
            }
            let acts: Vec<String> = c.actions.iter().map(json_features_text).collect();
            fields.push(("actions".into(), format!("[{}]", acts.join(","))));
        }
    }
    json_obj(&fields)
}

fn dsjson_fields(ex: &ExAst) -> Vec<(String, String)> {
    let mut fields: Vec<(String, String)> = vec![];
    for ns in ex {
        match &ns.name {
            None => {
                // default namespace features are the scalars at the top level
                for f in &ns.feats {
                    match f {
                        Feat::Num { name, value } => {
                            fields.push((name.clone(), jf(*value).to_string()))
                        }
                        Feat::Str { name, value } => {
                            fields.push((name.clone(), serde_json::to_string(value).unwrap()))
                        }
                        Feat::Anon { .. } => panic!("no dsjson form"),
                    }
                }
            }
            Some(n) => fields.push((n.clone(), json_ns_text(ns))),
        }
    }
    fields
}

pub fn dsjson_example(c: &CbAst, l: &Option<LabelAst>) -> String {
    let mut fields: Vec<(String, String)> = vec![];
    if let Some(LabelAst::Cb { action, cost, prob }) = l {
        fields.push(("_label_cost".into(), jf(*cost).to_string()));
        fields.push(("_label_probability".into(), jf(*prob).to_string()));
        fields.push(("_labelIndex".into(), action.to_string()));
    }
    let mut cf = dsjson_fields(c.shared.as_ref().unwrap_or(&vec![]));
    let acts: Vec<String> = c
        .actions
        .iter()
        .map(|a| json_obj(&dsjson_fields(a)))
        .collect();
    cf.push(("_multi".into(), format!("[{}]", acts.join(","))));
    fields.push(("c".into(), json_obj(&cf)));
    json_obj(&fields)
}

// ---------------------------------------------------------------- observation of library features

/// Observable content: active namespaces that hold at least one feature, features in order.
pub fn observe_sparse(f: &SparseFeatures) -> Vec<(Namespace, Vec<(u32, f32)>)> {
    let mut out = vec![];
    for (ns, it) in f.namespaces() {
        let v: Vec<(u32, f32)> = it.map(|(i, v)| (u32::from(i), v)).collect();
        if !v.is_empty() {
            out.push((ns, v));
        }
    }
    out.sort_by_key(|x| x.0);
    out
}

pub fn expect_sparse(ex: &ExAst, seed: u32, bits: u8) -> Vec<(Namespace, Vec<(u32, f32)>)> {
    let mut out: Vec<(Namespace, Vec<(u32, f32)>)> = ref_lower(ex, seed, bits)
        .into_iter()
        .filter(|(_, v)| !v.is_empty())
        .map(|(k, v)| (to_lib_ns(k), v))
        .collect();
    out.sort_by_key(|x| x.0);
    out
}

pub type ObsSparse = Vec<(Namespace, Vec<(u32, f32)>)>;

#[derive(Debug, PartialEq)]
pub enum Obs {
    Simple(ObsSparse),
    Cb(Option<ObsSparse>, Vec<ObsSparse>),
}

pub fn observe(f: &Features) -> Obs {
    match f {
        Features::SparseSimple(f) => Obs::Simple(observe_sparse(f)),
        Features::SparseSimpleRef(f) => Obs::Simple(observe_sparse(f)),
        Features::SparseCBAdf(c) => Obs::Cb(
            c.shared.as_ref().map(observe_sparse),
            c.actions.iter().map(observe_sparse).collect(),
        ),
        Features::SparseCBAdfRef(c) => Obs::Cb(
            c.shared.as_ref().map(observe_sparse),
            c.actions.iter().map(observe_sparse).collect(),
        ),
    }
}

pub fn expect(f: &FeatsAst, seed: u32, bits: u8) -> Obs {
    match f {
        FeatsAst::Simple(e) => Obs::Simple(expect_sparse(e, seed, bits)),
        FeatsAst::Cb(c) => Obs::Cb(
            c.shared.as_ref().map(|e| expect_sparse(e, seed, bits)),
            c.actions.iter().map(|e| expect_sparse(e, seed, bits)).collect(),
        ),
    }
}

pub fn obs_label(l: &Option<Label>) -> Option<LabelAst> {
    l.as_ref().map(|l| match l {
        Label::Simple(s) => LabelAst::Simple {
            value: s.value(),
            weight: s.weight(),
        },
        Label::Binary(b) => LabelAst::Binary(b.0),
        Label::CB(c) => LabelAst::Cb {
            action: c.action,
            cost: c.cost,
            prob: c.probability,
        },
    })
}

// ---------------------------------------------------------------- reduction stacks

pub struct StackOpts {
    pub debug: bool,
    pub elementwise: bool,
    /// prints of Debug go to stderr
    pub noisy_debug: bool,
}
impl Default for StackOpts {
    fn default() -> Self {
        StackOpts {
            debug: true,
            elementwise: true,
            noisy_debug: false,
        }
    }
}

/// Writes a typename/config pair, sometimes leaving out optional parts.
fn red(typename: &str, config: Map<String, Value>) -> Value {
    json!({"typename": typename, "config": Value::Object(config)})
}

pub fn coin_cfg(s: &mut Source) -> Value {
    let mut m = Map::new();
    if s.chance(1, 3) {
        m.insert("alpha".into(), json!(s.pick(&[4.0, 1.0, 0.5, 10.0, 2.0])));
    }
    if s.chance(1, 3) {
        m.insert("beta".into(), json!(s.pick(&[1.0, 0.5, 2.0, 0.1])));
    }
    if s.chance(1, 6) {
        m.insert("l2Lambda".into(), json!(s.pick(&[0.0, 0.1])));
    }
    if s.chance(1, 6) {
        m.insert("linkFunction".into(), json!(s.pick(&["Identity", "Logistic"])));
    }
    if s.chance(1, 6) {
        let k = *s.pick(&["Squared", "Logistic"]);
        m.insert("lossFunction".into(), json!({ k: {} }));
    }
    red("Coin", m)
}

fn wrap_debug(s: &mut Source, o: &StackOpts, inner: Value) -> Value {
    if o.debug && s.chance(1, 8) {
        let mut m = Map::new();
        m.insert("id".into(), json!("dbg"));
        if o.noisy_debug {
            for k in ["prediction", "label", "features"] {
                if s.bool() {
                    m.insert(k.into(), json!(true));
                }
            }
            m.insert("indent".into(), json!(s.below(4)));
        }
        m.insert("next".into(), inner);
        red("Debug", m)
    } else {
        inner
    }
}

/// Names available as namespaces for Elementwise; examples must then contain both.
pub const EW_ONE: &str = "ewA";
pub const EW_TWO: &str = "ewB";

pub fn scalar_stack(s: &mut Source, o: &StackOpts, uses_ew: &mut bool) -> Value {
    let mut base = coin_cfg(s);
    base = wrap_debug(s, o, base);
    if o.elementwise && s.chance(1, 6) {
        *uses_ew = true;
        let mut m = Map::new();
        m.insert("one".into(), json!({ "Name": EW_ONE }));
        m.insert("two".into(), json!({ "Name": EW_TWO }));
        m.insert("keepOriginalFeatures".into(), json!(s.bool()));
        m.insert("regressor".into(), base);
        base = red("ElementwiseInteraction", m);
        base = wrap_debug(s, o, base);
    }
    base
}

pub fn cbadf_stack(s: &mut Source, o: &StackOpts, mtr_only: bool, ew: &mut bool) -> Value {
    let mut m = Map::new();
    let ty = if mtr_only || s.bool() { "mtr" } else { "ips" };
    m.insert("cbType".into(), json!(ty));
    m.insert("regressor".into(), scalar_stack(s, o, ew));
    let r = red("CbAdf", m);
    wrap_debug(s, o, r)
}

#[derive(Clone, Debug)]
pub struct Stack {
    pub entry: Value,
    pub kind: &'static str,
    pub label: LabelType,
    pub features: FeaturesType,
    pub uses_ew: bool,
}

pub const KINDS: &[&str] = &["coin", "cbadf", "greedy", "softmax", "squarecb", "binary"];

pub fn stack_of(s: &mut Source, o: &StackOpts, kind: &'static str) -> Stack {
    let mut ew = false;
    let (entry, label, features) = match kind {
        "coin" => (scalar_stack(s, o, &mut ew), LabelType::Simple, FeaturesType::SparseSimple),
        "binary" => {
            let mut m = Map::new();
            m.insert("regressor".into(), scalar_stack(s, o, &mut ew));
            let r = red("Binary", m);
            (wrap_debug(s, o, r), LabelType::Binary, FeaturesType::SparseSimple)
        }
        "cbadf" => (cbadf_stack(s, o, false, &mut ew), LabelType::CB, FeaturesType::SparseCBAdf),
        "greedy" => {
            let mut m = Map::new();
            if s.bool() {
                m.insert("epsilon".into(), json!(unit(s)));
            }
            m.insert("cbAdf".into(), cbadf_stack(s, o, false, &mut ew));
            let r = red("CbExploreAdfGreedy", m);
            (wrap_debug(s, o, r), LabelType::CB, FeaturesType::SparseCBAdf)
        }
        "softmax" => {
            let mut m = Map::new();
            if s.bool() {
                m.insert("uniformEpsilon".into(), json!(unit(s)));
            }
            if s.bool() {
                m.insert("lambda".into(), json!(s.pick(&[1.0, 0.0, 0.5, 3.0, 10.0])));
            }
            m.insert("cbAdf".into(), cbadf_stack(s, o, false, &mut ew));
            let r = red("CbExploreAdfSoftmax", m);
            (wrap_debug(s, o, r), LabelType::CB, FeaturesType::SparseCBAdf)
        }
        "squarecb" => {
            let mut m = Map::new();
            if s.bool() {
                m.insert("uniformEpsilon".into(), json!(unit(s)));
            }
            if s.bool() {
                m.insert("gammaScale".into(), json!(s.pick(&[10.0, 0.0, 1.0, 100.0])));
            }
            if s.bool() {
                m.insert("gammaExponent".into(), json!(s.pick(&[0.5, 0.0, 0.25, 1.0])));
            }
            m.insert("cbAdf".into(), cbadf_stack(s, o, true, &mut ew));
            let r = red("CbExploreAdfSquareCb", m);
            (wrap_debug(s, o, r), LabelType::CB, FeaturesType::SparseCBAdf)
        }
        _ => unreachable!(),
    };
    Stack {
        entry,
        kind,
        label,
        features,
        uses_ew: ew,
    }
}

pub fn unit(s: &mut Source) -> f64 {
    match s.weighted(&[2, 2, 6]) {
        0 => 0.0,
        1 => 1.0,
        _ => s.below(101) as f64 / 100.0,
    }
}

pub fn stack(s: &mut Source, o: &StackOpts) -> Stack {
    let k = *s.pick(KINDS);
    stack_of(s, o, k)
}

#[derive(Clone, Debug)]
pub struct Global {
    pub bits: u8,
    pub seed: u32,
    pub constant: bool,
    pub interactions: Vec<Vec<Option<String>>>,
}

pub fn interaction_json(i: &[Option<String>]) -> Value {
    Value::Array(
        i.iter()
            .map(|n| match n {
                None => json!("Default"),
                Some(n) => json!({ "Name": n }),
            })
            .collect(),
    )
}

impl Global {
    pub fn json(&self) -> Value {
        let ints: Vec<Value> = self.interactions.iter().map(|i| interaction_json(i)).collect();
        json!({
            "numBits": self.bits,
            "hashSeed": self.seed,
            "constantFeatureEnabled": self.constant,
            "interactions": ints,
        })
    }
}

pub fn ns_pool() -> Vec<Option<String>> {
    vec![
        Some("A".to_string()),
        Some("B".to_string()),
        None,
        Some("C".to_string()),
        Some("shared".to_string()),
    ]
}

pub fn interactions(s: &mut Source, max: usize) -> Vec<Vec<Option<String>>> {
    let pool = ns_pool();
    let n = s.usize(max + 1);
    (0..n)
        .map(|_| {
            let k = if s.chance(1, 3) { 3 } else { 2 };
            (0..k).map(|_| s.pick(&pool).clone()).collect()
        })
        .collect()
}

pub fn global(s: &mut Source, max_bits: u8) -> Global {
    Global {
        bits: 1 + s.below(max_bits as u64) as u8,
        seed: if s.bool() { 0 } else { s.below(1 << 32) as u32 },
        constant: !s.chance(1, 4),
        interactions: if s.chance(1, 2) { interactions(s, 3) } else { vec![] },
    }
}

pub fn config_json(g: &Global, entry: &Value) -> Value {
    json!({"globalConfig": g.json(), "entryReduction": entry})
}

pub fn workspace(g: &Global, entry: &Value) -> Workspace {
    let cfg = config_json(g, entry);
    Workspace::new(Configuration::from_json_str(&cfg.to_string()).expect("config parses"))
        .expect("workspace builds")
}

/// Options for examples of a stack: shared pool of namespaces so that interactions fire.
pub fn stack_ex_opts(st: &Stack) -> ExOpts {
    let _ = st;
    ExOpts {
        ns_pool: Some(ns_pool()),
        ..Default::default()
    }
}

fn dense_ns(s: &mut Source, name: &str) -> NsAst {
    let n = s.range(1, 4);
    NsAst {
        name: Some(name.to_string()),
        feats: (0..n).map(|_| Feat::Anon { value: value(s) }).collect(),
    }
}

/// An example fit for the stack (if Elementwise is used, both vectors are present).
pub fn stack_example(s: &mut Source, st: &Stack) -> FeatsAst {
    let o = stack_ex_opts(st);
    let mut f = feats_features(st.features, s, &o);
    if let FeatsAst::Cb(c) = &mut f {
        for i in 1..c.actions.len() {
            if s.chance(1, 6) {
                c.actions[i] = c.actions[i - 1].clone();
                tweak(s, &mut c.actions[i]);
            }
        }
    }
    if st.uses_ew {
        match &mut f {
            FeatsAst::Simple(e) => {
                e.push(dense_ns(s, EW_ONE));
                e.push(dense_ns(s, EW_TWO));
            }
            FeatsAst::Cb(c) => {
                if let Some(sh) = &mut c.shared {
                    sh.push(dense_ns(s, EW_TWO));
                    for a in &mut c.actions {
                        a.push(dense_ns(s, EW_ONE));
                    }
                } else {
                    for a in &mut c.actions {
                        a.push(dense_ns(s, EW_ONE));
                        a.push(dense_ns(s, EW_TWO));
                    }
                }
            }
        }
    }
    f
}

/// A small change of an example: what is nearly the same must not be taken for the same.
pub fn tweak(s: &mut Source, e: &mut ExAst) {
    let full: Vec<usize> = (0..e.len()).filter(|i| !e[*i].feats.is_empty()).collect();
    if full.is_empty() {
        return;
    }
    let ns = &mut e[*s.pick(&full)];
    let i = s.usize(ns.feats.len());
    match s.usize(6) {
        0 | 1 => {
            let k = s.usize(4);
            if let Feat::Num { value, .. } | Feat::Anon { value } = &mut ns.feats[i] {
                *value = match k {
                    0 => f32::from_bits(value.to_bits() ^ 1),
                    1 => *value * 1.001,
                    2 => -*value,
                    _ => *value + 0.5,
                };
            }
        }
        2 => {
            let j = s.usize(ns.feats.len());
            ns.feats.swap(i, j);
        }
        3 => {
            let f = ns.feats[i].clone();
            ns.feats.push(f);
        }
        4 if ns.feats.len() > 1 => {
            ns.feats.remove(i);
        }
        _ => {
            if let Feat::Num { name, .. } | Feat::Str { name, .. } = &mut ns.feats[i] {
                name.push('q');
            }
        }
    }
}

fn tweaked(s: &mut Source, f: &FeatsAst) -> FeatsAst {
    let mut f = f.clone();
    match &mut f {
        FeatsAst::Simple(e) => tweak(s, e),
        FeatsAst::Cb(c) => {
            let k = c.actions.len();
            match (&mut c.shared, s.usize(4)) {
                (Some(sh), 0) => tweak(s, sh),
                (_, 1) if k > 1 => {
                    let p = s.permutation(k);
                    c.actions = p.into_iter().map(|i| c.actions[i].clone()).collect();
                }
                _ => {
                    let i = s.usize(k);
                    tweak(s, &mut c.actions[i]);
                }
            }
        }
    }
    f
}

/// All feature values times a factor.
pub fn rescale(f: &mut FeatsAst, k: f32) {
    let scale = |e: &mut ExAst| {
        for feat in e.iter_mut().flat_map(|n| n.feats.iter_mut()) {
            if let Feat::Num { value, .. } | Feat::Anon { value } = feat {
                *value *= k;
            }
        }
    };
    match f {
        FeatsAst::Simple(e) => scale(e),
        FeatsAst::Cb(c) => c.shared.iter_mut().chain(c.actions.iter_mut()).for_each(scale),
    }
}

/// The scale of the features of a whole case: mostly one.
pub fn magnitude(s: &mut Source) -> f32 {
    if s.chance(1, 6) {
        *s.pick(&[1e-9, 1e-8, 1e-7, 1e-4, 1e-2, 1e2, 1e4])
    } else {
        1.0
    }
}

/// An example for a history: new, one that was there before, or one nearly like it.
pub fn next_example(s: &mut Source, st: &Stack, seen: &[FeatsAst], scale: f32) -> FeatsAst {
    if !seen.is_empty() {
        match s.usize(6) {
            0 | 1 => return s.pick(seen).clone(),
            2 => {
                let f = s.pick(seen).clone();
                return tweaked(s, &f);
            }
            _ => (),
        }
    }
    let mut f = stack_example(s, st);
    if scale != 1.0 {
        rescale(&mut f, scale);
    }
    f
}

pub fn new_pool() -> Arc<Pool<SparseFeatures>> {
    Arc::new(Pool::new())
}
