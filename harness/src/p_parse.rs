//! Input formats: VW text, JSON, DSJSON; framing; parser reuse; feature names; malformed input.
use crate::util::*;
use crate::engine::*;
use crate::gen::*;
use reductionml_core::inverse_hash_table::{Feature, InverseHashTable};
use reductionml_core::object_pool::{Pool, PoolReturnable};
use reductionml_core::parsers::*;
use reductionml_core::sparse_namespaced_features::SparseFeatures;
use reductionml_core::{Features, FeaturesType, Label, LabelType};
use serde_json::json;
use std::collections::{BTreeMap, HashMap};
use std::io::{BufReader, Read};
use std::sync::Arc;

pub type Parsed = Result<(Obs, Option<LabelAst>), String>;

#[derive(Clone, Copy, PartialEq, Debug)]
pub enum Format {
    Vw,
    Json,
    Dsjson,
}

pub fn parser(f: Format, ft: FeaturesType, seed: u32, bits: u8, pool: Arc<Pool<SparseFeatures>>) -> Box<dyn TextModeParser> {
    let lt = match ft {
        FeaturesType::SparseSimple => LabelType::Simple,
        FeaturesType::SparseCBAdf => LabelType::CB,
    };
    match f {
        Format::Vw => Box::new(VwTextParserFactory.create(ft, lt, seed, bits, pool)),
        Format::Json => Box::new(JsonParserFactory.create(ft, lt, seed, bits, pool)),
        Format::Dsjson => Box::new(DsJsonParserFactory.create(ft, lt, seed, bits, pool)),
    }
}

pub fn parse_fresh(f: Format, ft: FeaturesType, seed: u32, bits: u8, text: &str) -> Result<(Features<'static>, Option<Label>), String> {
    parser(f, ft, seed, bits, new_pool()).parse_chunk(text).map_err(|e| e.to_string())
}

pub fn observed(r: Result<(Features<'static>, Option<Label>), String>) -> Parsed {
    r.map(|(f, l)| (observe(&f), obs_label(&l)))
}

fn hash_settings(s: &mut Source) -> (u32, u8) {
    let seed = if s.bool() { 0 } else { s.below(1 << 32) as u32 };
    (seed, s.range(1, 31) as u8)
}

/// An f32 written in one of many decimal spellings; the value is that of the correctly rounded decimal.
fn float_text(s: &mut Source) -> (String, f32) {
    let t = match s.weighted(&[6, 4, 3, 3, 2, 1, 1]) {
        0 => format!("{}", s.below(20)),
        1 => format!("{}.{}", s.below(50), s.below(1000)),
        2 => format!("-{}.{}", s.below(50), s.below(100)),
        3 => format!("{}e{}", s.below(100), s.range(0, 12) as i64 - 6),
        4 => format!("{}.{:09}", s.below(3), s.below(1_000_000_000)),
        5 => format!("{:.3}E{}", s.below(9999) as f64 / 1000.0, s.range(0, 6) as i64 - 3),
        _ => format!("0.00000{}", s.below(1000)),
    };
    let v: f32 = t.parse().unwrap();
    (t, v)
}

// ---------------------------------------------------------------- VW text

/// expected features in the making
#[derive(Default)]
struct Acc(BTreeMap<Option<u32>, Vec<(u32, f32)>>);
impl Acc {
    fn add(&mut self, ns: Option<u32>, hash: u32, bits: u8, v: f32) {
        self.0.entry(ns).or_default().push((hash & ref_mask(bits), v));
    }
    fn done(self) -> ObsSparse {
        let mut v: ObsSparse = self.0.into_iter().map(|(k, v)| (to_lib_ns(k), v)).collect();
        v.sort_by_key(|x| x.0);
        v
    }
}

fn ws(s: &mut Source) -> &'static str {
    match s.weighted(&[12, 2, 1, 1]) {
        0 => " ",
        1 => "  ",
        2 => "\t",
        _ => " \t ",
    }
}

#[derive(Default, Clone)]
struct VwStats {
    feats: usize,
    repeated: bool,
    scaled: bool,
    anon: bool,
    strs: bool,
    bare: bool,
    tag: bool,
    empty_last: bool,
}

/// The namespace part of a line with its meaning.
fn vw_segments(s: &mut Source, seed: u32, bits: u8, st: &mut VwStats) -> (String, ObsSparse) {
    let mut acc = Acc::default();
    let mut text = String::new();
    let n = s.range(1, 4);
    let mut names: Vec<Option<String>> = vec![];
    for i in 0..n {
        text.push('|');
        let name = if !names.is_empty() && s.chance(1, 4) {
            st.repeated = true;
            s.pick(&names).clone()
        } else if s.chance(1, 4) {
            None
        } else {
            Some(ns_name(s))
        };
        names.push(name.clone());
        let mut scale = 1.0f32;
        let key = ref_ns_hash(&name, seed);
        let h = key.unwrap_or(0);
        // the default namespace is written by a space after the bar: the separator of its first feature
        if let Some(nm) = &name {
            text.push_str(nm);
            if s.chance(1, 4) {
                let (t, v) = float_text(s);
                text.push(':');
                text.push_str(&t);
                scale = v;
                st.scaled = true;
            }
        }
        let k = s.range(0, 4);
        let mut anon = 0u32;
        for j in 0..k {
            if j == 0 && name.is_none() {
                text.push(' ');
            }
            text.push_str(ws(s));
            st.feats += 1;
            match s.weighted(&[6, 3, 3, 3, 1]) {
                0 => {
                    let nm = name_tok(s);
                    let (t, v) = float_text(s);
                    text.push_str(&format!("{nm}:{t}"));
                    acc.add(key, ref_hash(&nm, h), bits, v * scale);
                }
                1 => {
                    let nm = name_tok(s);
                    text.push_str(&nm);
                    st.bare = true;
                    acc.add(key, ref_hash(&nm, h), bits, scale);
                }
                2 => {
                    let nm = name_tok(s);
                    // nothing after the colon is the empty string
                    let v = if s.chance(1, 8) { String::new() } else { text_value(s) };
                    text.push_str(&format!("{nm}:{v}"));
                    st.strs = true;
                    acc.add(key, ref_hash(&v, ref_hash(&nm, h)), bits, scale);
                }
                3 => {
                    let (t, v) = float_text(s);
                    text.push_str(&format!(":{t}"));
                    st.anon = true;
                    acc.add(key, h.wrapping_add(anon), bits, v * scale);
                    anon += 1;
                }
                _ => {
                    let v = text_value(s);
                    text.push_str(&format!(":{v}"));
                    st.strs = true;
                    acc.add(key, ref_hash(&v, ref_hash("", h)), bits, scale);
                }
            }
        }
        if k == 0 && name.is_none() && (i + 1 < n || s.bool()) {
            text.push(' ');
        }
        if k == 0 && name.is_none() && i + 1 == n {
            st.empty_last = true;
        }
        if i + 1 < n {
            // a segment ends at the next bar, with or without space before it
            if s.chance(3, 4) {
                text.push(' ');
            }
        } else if s.chance(1, 8) {
            text.push(' ');
        }
    }
    (text, acc.done())
}

fn name_tok(s: &mut Source) -> String {
    name(s)
}

/// The part before the first bar of a simple example.
fn vw_simple_prefix(s: &mut Source, st: &mut VwStats) -> (String, Option<LabelAst>) {
    let mut toks: Vec<String> = vec![];
    let label = match s.weighted(&[2, 3, 4]) {
        0 => None,
        1 => {
            let (t, v) = float_text(s);
            toks.push(t);
            Some(LabelAst::Simple { value: v, weight: 1.0 })
        }
        _ => {
            let (t, v) = float_text(s);
            let (t2, w) = float_text(s);
            toks.push(t);
            toks.push(t2);
            Some(LabelAst::Simple { value: v, weight: w })
        }
    };
    // a tag is the last token: written with a quote, or touching the bar
    let mut out = String::new();
    if s.chance(1, 10) {
        out.push(' ');
    }
    for t in &toks {
        out.push_str(t);
        out.push_str(ws(s).trim_start_matches('\t'));
        if !out.ends_with(' ') {
            out.push(' ');
        }
    }
    match s.weighted(&[6, 2, 2]) {
        0 => {}
        1 => {
            st.tag = true;
            out.push_str(&format!("'{}", name(s)));
            if s.bool() {
                out.push(' ');
            }
        }
        _ => {
            st.tag = true;
            // a bare tag touches the bar
            out.push_str(s.pick(&["tag", "t1", "12", "0.5"]));
        }
    }
    (out, label)
}

fn vw_classes(c: &mut Ctx, st: &VwStats) {
    c.class_if(st.repeated, "repeated namespace");
    c.class_if(st.scaled, "namespace scale");
    c.class_if(st.anon, "anonymous features");
    c.class_if(st.strs, "string values");
    c.class_if(st.bare, "bare names");
    c.class_if(st.tag, "tag");
    c.class_if(st.empty_last, "empty last namespace");
}

fn vw_simple(s: &mut Source, c: &mut Ctx) -> R {
    let (seed, bits) = hash_settings(s);
    let mut st = VwStats::default();
    let (prefix, label) = vw_simple_prefix(s, &mut st);
    let (segs, want) = vw_segments(s, seed, bits, &mut st);
    let text = format!("{prefix}{segs}");
    vw_classes(c, &st);
    c.class_if(label.is_some(), "labelled");
    c.nontrivial(st.feats >= 2);
    c.identity(&(&text, seed, bits));
    c.describe(|| format!("VW text {text:?} seed {seed} bits {bits}"));
    let got = match observed(parse_fresh(Format::Vw, FeaturesType::SparseSimple, seed, bits, &text)) {
        Ok(g) => g,
        Err(e) => return fail("rejects-valid", format!("{text:?}: {e}")),
    };
    check!(got.0 == Obs::Simple(want.clone()), "features", "{text:?}: got {:?}, want {want:?}", got.0);
    check!(got.1 == label, "label", "{text:?}: got {:?}, want {label:?}", got.1);
    Ok(())
}

fn vw_cb(s: &mut Source, c: &mut Ctx) -> R {
    let (seed, bits) = hash_settings(s);
    let mut st = VwStats::default();
    let k = s.range(1, 5);
    let shared = s.chance(2, 3);
    let labelled = if s.chance(3, 4) { Some(s.usize(k)) } else { None };
    let mut lines = vec![];
    let mut want_shared = None;
    let mut label = None;
    if shared {
        let (segs, w) = vw_segments(s, seed, bits, &mut st);
        lines.push(format!("shared{}{segs}", ws(s).replace('\t', " ")));
        want_shared = Some(w);
    }
    let mut want_actions = vec![];
    for i in 0..k {
        let mut p = String::new();
        if labelled == Some(i) {
            let (t, cost) = float_text(s);
            let (t2, prob) = float_text(s);
            // the number written is not what identifies the action, its line is
            p = format!("{}:{t}:{t2} ", s.below(9));
            label = Some(LabelAst::Cb { action: i, cost, prob });
        }
        if s.chance(1, 6) {
            st.tag = true;
            p.push_str(&format!("'{}", name(s)));
        }
        let (segs, w) = vw_segments(s, seed, bits, &mut st);
        want_actions.push(w);
        lines.push(format!("{p}{segs}"));
    }
    let text = lines.join(if s.chance(1, 8) { "\r\n" } else { "\n" });
    vw_classes(c, &st);
    c.class_if(shared, "shared line");
    c.class_if(labelled.is_some(), "labelled");
    c.nontrivial(st.feats >= 2 && k >= 2);
    c.identity(&(&text, seed, bits));
    c.describe(|| format!("VW text {text:?} seed {seed} bits {bits}"));
    let got = match observed(parse_fresh(Format::Vw, FeaturesType::SparseCBAdf, seed, bits, &text)) {
        Ok(g) => g,
        Err(e) => return fail("rejects-valid", format!("{text:?}: {e}")),
    };
    let want = Obs::Cb(want_shared, want_actions);
    check!(got.0 == want, "features", "{text:?}: got {:?}, want {want:?}", got.0);
    check!(got.1 == label, "label", "{text:?}: got {:?}, want {label:?}", got.1);
    Ok(())
}

// ---------------------------------------------------------------- JSON

/// Any string a JSON document can hold.
fn json_string(s: &mut Source) -> String {
    match s.weighted(&[8, 3, 1]) {
        0 => name(s),
        1 => {
            let n = s.usize(6);
            (0..n)
                .map(|_| *s.pick(&['a', ' ', ':', '|', '\t', '"', '\\', '\n', 'é', '中', '😀', '/', '\u{1}', '\'', '_', '0']))
                .collect()
        }
        _ => s.pick(&["", " ", "1.5", "true", "null", ":default", "_x"]).to_string(),
    }
}

/// A JSON string literal, escapes spelled in various ways.
fn json_lit(s: &mut Source, x: &str) -> String {
    if s.chance(1, 6) {
        let mut o = String::from("\"");
        for ch in x.chars() {
            let mut b = [0u16; 2];
            if s.bool() || ch == '"' || ch == '\\' || (ch as u32) < 32 {
                for u in ch.encode_utf16(&mut b) {
                    o.push_str(&format!("\\u{u:04x}"));
                }
            } else {
                o.push(ch);
            }
        }
        o.push('"');
        o
    } else {
        serde_json::to_string(x).unwrap()
    }
}

fn has_escape(x: &str) -> bool {
    x.contains('\\')
}

fn json_number(s: &mut Source) -> (String, f32) {
    let (t, _) = match s.weighted(&[6, 2, 1]) {
        0 => float_text(s),
        1 => (format!("{}", s.below(1 << 40) as i64 - (1 << 39)), 0.0),
        _ => (format!("{}", s.below(u64::MAX)), 0.0),
    };
    // numbers are read in double precision and stored in single precision
    let v = t.parse::<f64>().unwrap() as f32;
    (t, v)
}

/// separators may be followed by blanks
fn sp(s: &mut Source) -> &'static str {
    match s.weighted(&[10, 2, 1]) {
        0 => "",
        1 => " ",
        _ => "  \t",
    }
}

fn join_obj(s: &mut Source, fields: &[(String, String)]) -> String {
    let mut o = format!("{{{}", sp(s));
    for (i, (k, v)) in fields.iter().enumerate() {
        if i > 0 {
            o.push_str(&format!(",{}", sp(s)));
        }
        o.push_str(&format!("{k}{}:{}{v}", sp(s), sp(s)));
    }
    o.push_str(&format!("{}}}", sp(s)));
    o
}

fn join_arr(s: &mut Source, xs: &[String]) -> String {
    let mut o = String::from("[");
    for (i, x) in xs.iter().enumerate() {
        if i > 0 {
            o.push_str(&format!(",{}", sp(s)));
        }
        o.push_str(x);
    }
    o.push_str(sp(s));
    o.push(']');
    o
}

#[derive(Default)]
struct JsStats {
    feats: usize,
    bools: bool,
    strs: bool,
    arr: bool,
    arr_str: bool,
    empty: bool,
    esc_key: bool,
    nested: bool,
    nulls: bool,
    skipped: bool,
}

fn ns_key(name: &str, seed: u32) -> Option<u32> {
    ref_ns_hash(&Some(name.to_string()), seed)
}

fn json_features(s: &mut Source, seed: u32, bits: u8, st: &mut JsStats) -> (String, ObsSparse) {
    let mut acc = Acc::default();
    let mut fields = vec![];
    let mut used: Vec<String> = vec![];
    for _ in 0..s.range(0, 4) {
        let nm = if s.chance(1, 5) { ":default".to_string() } else if s.chance(1, 6) { json_string(s) } else { ns_name(s) };
        if used.contains(&nm) {
            continue;
        }
        used.push(nm.clone());
        let key = ns_key(&nm, seed);
        let h = key.unwrap_or(0);
        let body = match s.weighted(&[5, 2, 2]) {
            0 => {
                let mut fs = vec![];
                let mut seen: Vec<String> = vec![];
                for _ in 0..s.range(0, 4) {
                    let f = json_string(s);
                    if seen.contains(&f) {
                        continue;
                    }
                    seen.push(f.clone());
                    st.feats += 1;
                    let v = match s.weighted(&[5, 3, 1, 1]) {
                        0 => {
                            let (t, v) = json_number(s);
                            acc.add(key, ref_hash(&f, h), bits, v);
                            t
                        }
                        1 => {
                            let v = json_string(s);
                            st.strs = true;
                            acc.add(key, ref_hash(&v, ref_hash(&f, h)), bits, 1.0);
                            json_lit(s, &v)
                        }
                        2 => {
                            st.bools = true;
                            acc.add(key, ref_hash(&f, h), bits, 1.0);
                            "true".into()
                        }
                        _ => {
                            st.bools = true;
                            "false".into()
                        }
                    };
                    let k = json_lit(s, &f);
                    st.esc_key |= has_escape(&k);
                    fs.push((k, v));
                }
                st.empty |= fs.is_empty();
                join_obj(s, &fs)
            }
            1 => {
                st.arr = true;
                let n = s.range(0, 4);
                st.empty |= n == 0;
                let xs: Vec<String> = (0..n)
                    .map(|i| {
                        let (t, v) = json_number(s);
                        st.feats += 1;
                        acc.add(key, h.wrapping_add(i as u32), bits, v);
                        t
                    })
                    .collect();
                join_arr(s, &xs)
            }
            _ => {
                st.arr_str = true;
                let n = s.range(1, 4);
                let xs: Vec<String> = (0..n)
                    .map(|_| {
                        let f = json_string(s);
                        st.feats += 1;
                        acc.add(key, ref_hash(&f, h), bits, 1.0);
                        json_lit(s, &f)
                    })
                    .collect();
                join_arr(s, &xs)
            }
        };
        let k = json_lit(s, &nm);
        st.esc_key |= has_escape(&k);
        fields.push((k, body));
    }
    (join_obj(s, &fields), acc.done())
}

fn js_classes(c: &mut Ctx, st: &JsStats) {
    c.class_if(st.bools, "booleans");
    c.class_if(st.strs, "string values");
    c.class_if(st.arr, "arrays of numbers");
    c.class_if(st.arr_str, "arrays of strings");
    c.class_if(st.empty, "empty namespaces");
    c.class_if(st.esc_key, "escaped keys");
    c.class_if(st.nested, "nested objects");
    c.class_if(st.nulls, "nulls in arrays");
    c.class_if(st.skipped, "underscore keys");
}

/// In a document with escaped keys only the set of features is specified, not their order.
fn sorted(o: &Obs) -> Obs {
    let srt = |x: &ObsSparse| -> ObsSparse {
        x.iter()
            .map(|(n, v)| {
                let mut v = v.clone();
                v.sort_by(|a, b| a.partial_cmp(b).unwrap());
                (*n, v)
            })
            .collect()
    };
    match o {
        Obs::Simple(x) => Obs::Simple(srt(x)),
        Obs::Cb(a, b) => Obs::Cb(a.as_ref().map(srt), b.iter().map(srt).collect()),
    }
}

fn compare(text: &str, got: Parsed, want: &Obs, label: &Option<LabelAst>, c: &Ctx) -> R {
    let _ = c;
    let got = match got {
        Ok(g) => g,
        Err(e) => return fail("rejects-valid", format!("{text}: {e}")),
    };
    check!(sorted(&got.0) == sorted(want), "features", "{text}: got {:?}, want {want:?}", got.0);
    check!(got.1 == *label, "label", "{text}: got {:?}, want {label:?}", got.1);
    Ok(())
}

fn json_simple(s: &mut Source, c: &mut Ctx) -> R {
    let (seed, bits) = hash_settings(s);
    let mut st = JsStats::default();
    let (ft, want) = json_features(s, seed, bits, &mut st);
    let mut fields = vec![("\"features\"".to_string(), ft)];
    let label = match s.weighted(&[3, 3, 2, 1, 1]) {
        0 => {
            let (t, value) = json_number(s);
            let (t2, weight) = json_number(s);
            let mut l = vec![("\"value\"".to_string(), t), ("\"weight\"".to_string(), t2)];
            if s.bool() {
                l.reverse();
            }
            fields.push(("\"label\"".into(), join_obj(s, &l)));
            Some(LabelAst::Simple { value, weight })
        }
        1 => {
            let (t, value) = json_number(s);
            fields.push(("\"label\"".into(), t));
            Some(LabelAst::Simple { value, weight: 1.0 })
        }
        2 => {
            c.class("label without weight");
            let (t, value) = json_number(s);
            fields.push(("\"label\"".into(), join_obj(s, &[("\"value\"".to_string(), t)])));
            Some(LabelAst::Simple { value, weight: 1.0 })
        }
        3 => {
            fields.push(("\"label\"".into(), "null".into()));
            None
        }
        _ => None,
    };
    if s.bool() {
        fields.reverse();
    }
    let text = join_obj(s, &fields);
    js_classes(c, &st);
    c.class_if(label.is_some(), "labelled");
    c.nontrivial(st.feats >= 2);
    c.identity(&(&text, seed, bits));
    c.describe(|| format!("JSON {text} seed {seed} bits {bits}"));
    compare(&text, observed(parse_fresh(Format::Json, FeaturesType::SparseSimple, seed, bits, &text)), &Obs::Simple(want), &label, c)
}

fn json_cb(s: &mut Source, c: &mut Ctx) -> R {
    let (seed, bits) = hash_settings(s);
    let mut st = JsStats::default();
    let mut fields = vec![];
    let mut shared = None;
    if s.chance(2, 3) {
        let (t, w) = json_features(s, seed, bits, &mut st);
        fields.push(("\"shared\"".to_string(), t));
        shared = Some(w);
    } else if s.chance(1, 4) {
        fields.push(("\"shared\"".to_string(), "null".into()));
    }
    let k = s.range(0, 5);
    let mut acts = vec![];
    let mut want = vec![];
    for _ in 0..k {
        let (t, w) = json_features(s, seed, bits, &mut st);
        acts.push(t);
        want.push(w);
    }
    fields.push(("\"actions\"".into(), join_arr(s, &acts)));
    let label = if s.chance(3, 4) {
        let action = s.usize(6);
        let (t, cost) = json_number(s);
        let (t2, prob) = json_number(s);
        let l = vec![
            ("\"action\"".to_string(), action.to_string()),
            ("\"cost\"".to_string(), t),
            ("\"probability\"".to_string(), t2),
        ];
        let l: Vec<_> = s.permutation(3).into_iter().map(|i| l[i].clone()).collect();
        fields.push(("\"label\"".into(), join_obj(s, &l)));
        Some(LabelAst::Cb { action, cost, prob })
    } else {
        None
    };
    let fields: Vec<_> = s.permutation(fields.len()).into_iter().map(|i| fields[i].clone()).collect();
    let text = join_obj(s, &fields);
    js_classes(c, &st);
    c.class_if(label.is_some(), "labelled");
    c.class_if(shared.is_some(), "shared");
    c.nontrivial(st.feats >= 2 && k >= 2);
    c.identity(&(&text, seed, bits));
    c.describe(|| format!("JSON {text} seed {seed} bits {bits}"));
    compare(&text, observed(parse_fresh(Format::Json, FeaturesType::SparseCBAdf, seed, bits, &text)), &Obs::Cb(shared, want), &label, c)
}

// ---------------------------------------------------------------- DSJSON

/// Contents of an object whose scalars belong to namespace `key`.
fn ds_object(s: &mut Source, key: Option<u32>, seed: u32, bits: u8, depth: usize, top: bool, acc: &mut Acc, st: &mut JsStats) -> Vec<(String, String)> {
    let mut fields = vec![];
    let mut seen: Vec<String> = vec![];
    for _ in 0..s.range(0, 4) {
        let mut f = if depth > 0 && s.chance(1, 3) { ns_name(s) } else { json_string(s) };
        if s.chance(1, 10) {
            f = format!("_{f}");
        }
        if seen.contains(&f) || f == "_multi" || f == "c" && top {
            continue;
        }
        seen.push(f.clone());
        let h = key.unwrap_or(0);
        let skip = f.starts_with('_');
        st.skipped |= skip;
        let mut trash = Acc::default();
        let dest = if skip { &mut trash } else { &mut *acc };
        let what = s.weighted(&[4, 3, 1, 1, 3, 3]);
        let v = match what {
            0 => {
                let (t, v) = json_number(s);
                st.feats += 1;
                dest.add(key, ref_hash(&f, h), bits, v);
                t
            }
            1 => {
                let v = json_string(s);
                st.strs = true;
                st.feats += 1;
                dest.add(key, ref_hash(&v, ref_hash(&f, h)), bits, 1.0);
                json_lit(s, &v)
            }
            2 => {
                st.bools = true;
                st.feats += 1;
                dest.add(key, ref_hash(&f, h), bits, 1.0);
                "true".into()
            }
            3 => {
                st.bools = true;
                "false".into()
            }
            4 if depth < 3 => {
                st.nested |= depth > 0;
                let inner = ns_key(&f, seed);
                let fs = ds_object(s, inner, seed, bits, depth + 1, false, dest, st);
                join_obj(s, &fs)
            }
            _ => {
                let inner = ns_key(&f, seed);
                let ih = inner.unwrap_or(0);
                st.arr = true;
                let n = s.range(0, 4);
                let mut xs = vec![];
                for i in 0..n {
                    match s.weighted(&[5, if depth < 3 { 2 } else { 0 }, 1]) {
                        0 => {
                            let (t, v) = json_number(s);
                            st.feats += 1;
                            dest.add(inner, ih.wrapping_add(i as u32), bits, v);
                            xs.push(t);
                        }
                        1 => {
                            let fs = ds_object(s, inner, seed, bits, depth + 1, false, dest, st);
                            xs.push(join_obj(s, &fs));
                        }
                        _ => {
                            st.nulls = true;
                            xs.push("null".into());
                        }
                    }
                }
                join_arr(s, &xs)
            }
        };
        let k = json_lit(s, &f);
        st.esc_key |= has_escape(&k);
        fields.push((k, v));
    }
    fields
}

fn dsjson(s: &mut Source, c: &mut Ctx) -> R {
    let (seed, bits) = hash_settings(s);
    let mut st = JsStats::default();
    let mut acc = Acc::default();
    let mut ctx = ds_object(s, None, seed, bits, 0, true, &mut acc, &mut st);
    let shared = acc.done();
    let k = s.range(0, 5);
    let mut acts = vec![];
    let mut want = vec![];
    for _ in 0..k {
        let mut acc = Acc::default();
        let fs = ds_object(s, None, seed, bits, 0, false, &mut acc, &mut st);
        acts.push(join_obj(s, &fs));
        want.push(acc.done());
    }
    let at = s.usize(ctx.len() + 1);
    let multi = join_arr(s, &acts);
    ctx.insert(at, ("\"_multi\"".into(), multi));
    let mut fields = vec![("\"c\"".to_string(), join_obj(s, &ctx))];
    let label = if s.chance(3, 4) {
        let action = s.usize(6);
        let (t, cost) = json_number(s);
        let (t2, prob) = json_number(s);
        fields.push(("\"_label_cost\"".into(), t));
        fields.push(("\"_label_probability\"".into(), t2));
        fields.push(("\"_labelIndex\"".into(), action.to_string()));
        Some(LabelAst::Cb { action, cost, prob })
    } else {
        None
    };
    if s.bool() {
        fields.push(("\"_label_Action\"".into(), s.below(9).to_string()));
        fields.push(("\"Timestamp\"".into(), "\"2021-02-04T16:31:29Z\"".into()));
        fields.push(("\"p\"".into(), "[0.5, 0.5]".into()));
        fields.push(("\"o\"".into(), "[{\"v\": null}]".into()));
    }
    let fields: Vec<_> = s.permutation(fields.len()).into_iter().map(|i| fields[i].clone()).collect();
    let text = join_obj(s, &fields);
    js_classes(c, &st);
    c.class_if(label.is_some(), "labelled");
    c.nontrivial(st.feats >= 2 && k >= 1);
    c.identity(&(&text, seed, bits));
    c.describe(|| format!("DSJSON {text} seed {seed} bits {bits}"));
    compare(&text, observed(parse_fresh(Format::Dsjson, FeaturesType::SparseCBAdf, seed, bits, &text)), &Obs::Cb(Some(shared), want), &label, c)
}

// ---------------------------------------------------------------- agreement of the formats

/// Examples every format can express.
pub fn common_cb(s: &mut Source) -> CbAst {
    let o = ExOpts { allow_default: true, max_ns: 3, ..Default::default() };
    let mut f = cb_example(s, &o, 4, false);
    fix_common(f.shared.as_mut().unwrap());
    f.actions.iter_mut().for_each(fix_common);
    f
}

/// no repeated names within a namespace, no anonymous default namespace, no skipped keys
pub fn fix_common(e: &mut ExAst) {
    for ns in e.iter_mut() {
        if ns.name.as_deref().is_some_and(|n| n.starts_with('_')) {
            ns.name = Some(format!("n{}", ns.name.as_ref().unwrap()));
        }
        let default = ns.name.is_none();
        let mut seen: Vec<String> = vec![];
        ns.feats.retain_mut(|f| match f {
            Feat::Num { name, .. } | Feat::Str { name, .. } => {
                if name.starts_with('_') {
                    name.insert(0, 'n');
                }
                if seen.contains(name) {
                    false
                } else {
                    seen.push(name.clone());
                    true
                }
            }
            Feat::Anon { .. } => !default,
        });
    }
    let mut seen: Vec<Option<String>> = vec![];
    e.retain(|n| {
        let dup = seen.contains(&n.name);
        seen.push(n.name.clone());
        !dup
    });
    // DSJSON keys of the default namespace and of namespaces share one object
    let ns: Vec<String> = e.iter().filter_map(|n| n.name.clone()).collect();
    for n in e.iter_mut() {
        if n.name.is_none() {
            n.feats.retain(|f| match f {
                Feat::Num { name, .. } | Feat::Str { name, .. } => !ns.contains(name),
                _ => true,
            });
        }
    }
}

fn formats_agree(s: &mut Source, c: &mut Ctx) -> R {
    let (seed, bits) = hash_settings(s);
    let cb = s.chance(2, 3);
    let mut texts = vec![];
    let (f, l) = if cb {
        let e = common_cb(s);
        let f = FeatsAst::Cb(e.clone());
        let l = if s.chance(4, 5) { Some(label_for(LabelType::CB, &f, s)) } else { None };
        texts.push((Format::Dsjson, dsjson_example(&e, &l)));
        (f, l)
    } else {
        let mut e = example(s, &ExOpts::default());
        fix_common(&mut e);
        let f = FeatsAst::Simple(e);
        let l = if s.chance(4, 5) { Some(label_for(LabelType::Simple, &f, s)) } else { None };
        (f, l)
    };
    texts.push((Format::Vw, vw_example(&f, &l)));
    texts.push((Format::Json, json_example(&f, &l)));
    let ft = if cb { FeaturesType::SparseCBAdf } else { FeaturesType::SparseSimple };
    let want = expect(&f, seed, bits);
    let n: usize = match &f {
        FeatsAst::Simple(e) => e.iter().map(|x| x.feats.len()).sum(),
        FeatsAst::Cb(x) => x.actions.iter().chain(x.shared.iter()).flatten().map(|x| x.feats.len()).sum(),
    };
    c.class(if cb { "contextual bandit" } else { "simple" });
    c.class_if(l.is_some(), "labelled");
    c.nontrivial(n >= 2);
    c.identity(&format!("{f:?}{l:?}{seed}{bits}"));
    c.describe(|| format!("{f:?} {l:?} seed {seed} bits {bits}\n{texts:#?}"));
    for (fmt, t) in &texts {
        let got = match observed(parse_fresh(*fmt, ft, seed, bits, t)) {
            Ok(g) => g,
            Err(e) => return fail("rejects-valid", format!("{fmt:?} {t}: {e}")),
        };
        check!(got.0 == want, "features", "{fmt:?} {t}: got {:?}, want {want:?}", got.0);
        check!(got.1 == l, "label", "{fmt:?} {t}: got {:?}, want {l:?}", got.1);
    }
    Ok(())
}

/// The same data set trained from each format gives the same model.
fn formats_train(s: &mut Source, c: &mut Ctx) -> R {
    let cb = s.chance(2, 3);
    let o = StackOpts { elementwise: false, ..Default::default() };
    let st = if cb {
        let k = *s.pick(&["cbadf", "greedy", "softmax", "squarecb"]);
        stack_of(s, &o, k)
    } else {
        stack_of(s, &o, "coin")
    };
    let g = global(s, 14);
    let n = s.range(1, 8);
    let mut data = vec![];
    for _ in 0..n {
        let mut f = stack_example(s, &st);
        match &mut f {
            FeatsAst::Simple(e) => fix_common(e),
            FeatsAst::Cb(x) => {
                let sh = x.shared.get_or_insert_with(Vec::new);
                fix_common(sh);
                x.actions.iter_mut().for_each(fix_common);
            }
        }
        let l = label_for(st.label, &f, s);
        data.push((f, l));
    }
    let formats: &[Format] = if cb { &[Format::Vw, Format::Json, Format::Dsjson] } else { &[Format::Vw, Format::Json] };
    c.class(st.kind);
    c.nontrivial(n >= 2);
    c.identity(&format!("{st:?}{g:?}{data:?}"));
    c.describe(|| format!("{} {}\n{data:?}", st.entry, g.json()));
    let mut first: Option<(Vec<String>, Saved)> = None;
    for fmt in formats {
        let mut w = workspace(&g, &st.entry);
        let pool = w.features_pool().clone();
        let p: Box<dyn TextModeParser> = match fmt {
            Format::Vw => Box::new(VwTextParserFactory.create_with_workspace(&w)),
            Format::Json => Box::new(JsonParserFactory.create_with_workspace(&w)),
            Format::Dsjson => Box::new(DsJsonParserFactory.create_with_workspace(&w)),
        };
        let mut preds = vec![];
        for (f, l) in &data {
            let t = match (fmt, f) {
                (Format::Vw, f) => vw_example(f, &Some(l.clone())),
                (Format::Json, f) => json_example(f, &Some(l.clone())),
                (_, FeatsAst::Cb(x)) => dsjson_example(x, &Some(l.clone())),
                _ => unreachable!(),
            };
            match p.parse_chunk(&t) {
                Ok((mut feats, Some(l))) => {
                    preds.push(format!("{:?}", w.predict_then_learn(&mut feats, &l)));
                    feats.clear_and_return_object(pool.as_ref());
                }
                Ok((_, None)) => return fail("label", format!("{fmt:?} {t}: label lost")),
                Err(e) => return fail("rejects-valid", format!("{fmt:?} {t}: {e}")),
            }
        }
        let m = Saved::of(&w)?;
        match &first {
            None => first = Some((preds, m)),
            Some((p0, m0)) => {
                check!(*p0 == preds, "predictions", "{fmt:?}: {preds:?}, {:?}: {p0:?}", formats[0]);
                check!(*m0 == m, "model", "models trained from {fmt:?} and {:?} differ", formats[0]);
            }
        }
    }
    Ok(())
}

// ---------------------------------------------------------------- framing

/// A reader that hands out the bytes in pieces of given sizes.
struct Pieces {
    data: Vec<u8>,
    at: usize,
    sizes: Vec<usize>,
    i: usize,
}
impl Read for Pieces {
    fn read(&mut self, buf: &mut [u8]) -> std::io::Result<usize> {
        let want = self.sizes[self.i % self.sizes.len()].min(buf.len());
        self.i += 1;
        let n = want.min(self.data.len() - self.at);
        buf[..n].copy_from_slice(&self.data[self.at..self.at + n]);
        self.at += n;
        Ok(n)
    }
}

fn framing(s: &mut Source, c: &mut Ctx) -> R {
    let (fmt, cb) = *s.pick(&[
        (Format::Vw, false),
        (Format::Vw, true),
        (Format::Json, false),
        (Format::Json, true),
        (Format::Dsjson, true),
    ]);
    let (seed, bits) = hash_settings(s);
    let n = s.range(0, 6);
    let mut stream = String::new();
    let mut want = vec![];
    let crlf = s.chance(1, 4);
    let nl = if crlf { "\r\n" } else { "\n" };
    let vw = fmt == Format::Vw;
    let blank = |s: &mut Source, out: &mut String, max: usize| {
        for _ in 0..s.usize(max + 1) {
            out.push_str(*s.pick(&["", "", " ", "\t", "  ", " \t  ", "          "]));
            out.push_str(nl);
        }
    };
    let mut blanks = false;
    if vw && s.chance(1, 3) {
        blank(s, &mut stream, 2);
        blanks = true;
    }
    let mut last_newline = true;
    for i in 0..n {
        let (f, l, t) = if cb {
            let e = common_cb(s);
            let f = FeatsAst::Cb(e.clone());
            let l = if s.chance(4, 5) { Some(label_for(LabelType::CB, &f, s)) } else { None };
            let t = match fmt {
                Format::Vw => vw_example(&f, &l),
                Format::Json => json_example(&f, &l),
                Format::Dsjson => dsjson_example(&e, &l),
            };
            (f, l, t)
        } else {
            let mut e = example(s, &ExOpts::default());
            fix_common(&mut e);
            let f = FeatsAst::Simple(e);
            let l = if s.chance(4, 5) { Some(label_for(LabelType::Simple, &f, s)) } else { None };
            let t = if vw { vw_example(&f, &l) } else { json_example(&f, &l) };
            (f, l, t)
        };
        let t = if vw {
            // blanks at the end of a line mean nothing
            t.split('\n')
                .map(|line| format!("{}{}", line, if s.chance(1, 6) { " " } else { "" }))
                .collect::<Vec<_>>()
                .join(nl)
        } else {
            t
        };
        stream.push_str(&t);
        want.push((expect(&f, seed, bits), l));
        let last = i + 1 == n;
        if last && s.chance(1, 3) {
            last_newline = false;
        } else {
            stream.push_str(nl);
            if vw && cb {
                if !last || s.bool() {
                    // a blank line, whether or not anything invisible is on it
                    stream.push_str(*s.pick(&["", "", "", "", " ", "\t", "   ", "\t\t \t", "                 "]));
                    stream.push_str(nl);
                }
            }
            if vw && s.chance(1, 3) {
                blank(s, &mut stream, 3);
                blanks = true;
            }
        }
    }
    let cap = s.range(1, 64);
    let sizes: Vec<usize> = (0..s.range(1, 3)).map(|_| s.range(1, 40)).collect();
    c.class(match (fmt, cb) {
        (Format::Vw, false) => "VW single line",
        (Format::Vw, true) => "VW multi line",
        (Format::Json, _) => "JSON",
        (Format::Dsjson, _) => "DSJSON",
    });
    c.class_if(crlf, "CRLF");
    c.class_if(!last_newline, "no final newline");
    c.class_if(blanks, "extra blank lines");
    c.nontrivial(n >= 2);
    c.identity(&(&stream, cap, seed, bits));
    c.describe(|| format!("{fmt:?} stream {stream:?} buffer {cap}"));
    let ft = if cb { FeaturesType::SparseCBAdf } else { FeaturesType::SparseSimple };
    let pool = new_pool();
    let p = parser(fmt, ft, seed, bits, pool.clone());
    let mut reader = BufReader::with_capacity(cap, Pieces { data: stream.clone().into_bytes(), at: 0, sizes, i: 0 });
    let mut buffer = if s.bool() { "left over".to_string() } else { String::new() };
    let mut got = vec![];
    loop {
        match p.get_next_chunk(&mut reader, std::mem::take(&mut buffer)) {
            Ok(Some(chunk)) => {
                check!(got.len() < want.len(), "extra-example", "chunk {chunk:?} beyond the {} examples of {stream:?}", want.len());
                match p.parse_chunk(&chunk) {
                    Ok((f, l)) => {
                        got.push((observe(&f), obs_label(&l)));
                        f.clear_and_return_object(pool.as_ref());
                    }
                    Err(e) => return fail("rejects-valid", format!("chunk {chunk:?}: {e}")),
                }
                buffer = chunk;
            }
            Ok(None) => break,
            Err(e) => return fail("read-error", format!("{stream:?}: {e}")),
        }
    }
    check!(got == want, "examples", "{stream:?}: got {got:?}, want {want:?}");
    match p.get_next_chunk(&mut reader, String::new()) {
        Ok(None) => Ok(()),
        o => fail("after-end", format!("after the end: {o:?}")),
    }
}

// ---------------------------------------------------------------- reuse

enum Item {
    Good(String, Obs, Option<LabelAst>),
    Bad(String),
}

fn reuse(s: &mut Source, c: &mut Ctx) -> R {
    let (fmt, cb) = *s.pick(&[
        (Format::Vw, false),
        (Format::Vw, true),
        (Format::Json, false),
        (Format::Json, true),
        (Format::Dsjson, true),
    ]);
    let (seed, bits) = hash_settings(s);
    let ft = if cb { FeaturesType::SparseCBAdf } else { FeaturesType::SparseSimple };
    let n = s.range(1, 12);
    let mut items = vec![];
    let mut bad = 0;
    for _ in 0..n {
        let (f, l, t) = any_example(s, fmt, cb);
        if s.chance(1, 5) {
            bad += 1;
            items.push(Item::Bad(mutate(s, &t)));
        } else {
            items.push(Item::Good(t, expect(&f, seed, bits), l));
        }
    }
    // how many parsed examples are alive at once
    let keep = s.range(0, 3);
    let threads = if s.chance(1, 3) { s.range(2, 4) } else { 1 };
    c.class_if(bad > 0, "with malformed examples between");
    c.class_if(threads > 1, "several threads");
    c.class_if(keep > 0, "several examples alive");
    c.nontrivial(n >= 3);
    c.identity(&format!("{:?}{seed}{bits}{keep}{threads}", items.iter().map(|i| match i { Item::Good(t, _, _) | Item::Bad(t) => t.clone() }).collect::<Vec<_>>()));
    c.describe(|| {
        format!(
            "{fmt:?}, {keep} alive, {threads} threads: {:#?}",
            items.iter().map(|i| match i { Item::Good(t, _, _) => t.clone(), Item::Bad(t) => format!("malformed: {t}") }).collect::<Vec<_>>()
        )
    });
    let pool = new_pool();
    let p = parser(fmt, ft, seed, bits, pool.clone());
    let others = items.iter().find_map(|i| match i {
        Item::Good(_, o, _) => Some(lower_obs(o)),
        _ => None,
    });
    let others: &[SparseFeatures] = match &others {
        Some(Features::SparseSimple(f)) => std::slice::from_ref(f),
        Some(Features::SparseCBAdf(f)) => &f.actions[..],
        _ => &[],
    };
    let run = |items: &[Item], offset: usize| -> R {
        let mut alive: Vec<(Features<'static>, Obs)> = vec![];
        for k in 0..items.len() {
            match &items[(k + offset) % items.len()] {
                Item::Good(t, want, label) => match guarded(|| p.parse_chunk(t)) {
                    Ok(Ok((mut f, l))) => {
                        check!(observe(&f) == *want, "features", "{t}: got {:?}, want {want:?}", observe(&f));
                        // used as a learner does, it is like one whose storage is new
                        let (got, new) = (merged(&mut f, others), merged(&mut lower_obs(want), others));
                        check!(got == new, "merged", "{t}: with other features added {got:?}, with storage that is new {new:?}");
                        check!(observe(&f) == *want, "features", "{t}: after adding and removing others {:?}, want {want:?}", observe(&f));
                        check!(obs_label(&l) == *label, "label", "{t}: got {:?}, want {label:?}", obs_label(&l));
                        alive.push((f, observe(&lower_obs(want))));
                    }
                    Ok(Err(e)) => return fail("rejects-valid", format!("{t}: {e}")),
                    Err(p) => return fail("panic", format!("{t}: panic {p}")),
                },
                Item::Bad(t) => {
                    if let Ok(Ok((f, _))) = guarded(|| p.parse_chunk(t)) {
                        f.clear_and_return_object(pool.as_ref());
                    }
                }
            }
            while alive.len() > keep {
                let (f, want) = alive.remove(0);
                check!(observe(&f) == want, "changed-later", "an example changed after it was parsed: {:?}, was {want:?}", observe(&f));
                f.clear_and_return_object(pool.as_ref());
            }
        }
        Ok(())
    };
    if threads == 1 {
        run(&items, 0)?;
        run(&items, s.usize(n))
    } else {
        let rs: Vec<R> = std::thread::scope(|sc| {
            let hs: Vec<_> = (0..threads).map(|k| { let run = &run; let items = &items; sc.spawn(move || run(items, k * 2)) }).collect();
            hs.into_iter().map(|h| h.join().unwrap()).collect()
        });
        rs.into_iter().collect()
    }
}

/// What an example holds while others (and the shared features) are added to it; they are removed again.
fn merged(f: &mut Features, others: &[SparseFeatures]) -> Vec<Obs> {
    let mut out = vec![];
    let mut one = |x: &mut SparseFeatures, y: &SparseFeatures| {
        x.append(y);
        let all: Vec<(u32, f32)> = x.all_features().map(|(i, v)| (*i, v)).collect();
        out.push(observe(&Features::SparseSimpleRef(x)));
        out.push(Obs::Simple(vec![(reductionml_core::sparse_namespaced_features::Namespace::Default, all)]));
        // and what is found by its namespace, as interactions do
        let names: Vec<_> = x.namespaces().map(|(n, _)| n).collect();
        let found = names.iter().filter_map(|n| x.get_namespace(*n).map(|f| (*n, f.iter().map(|(i, v)| (*i, v)).collect::<Vec<_>>())));
        out.push(Obs::Simple(found.filter(|(_, f)| !f.is_empty()).collect()));
        x.remove(y);
    };
    match f {
        Features::SparseSimple(x) => others.iter().for_each(|y| one(x, y)),
        Features::SparseCBAdf(x) => {
            for a in x.actions.iter_mut() {
                x.shared.iter().for_each(|y| one(a, y));
                others.iter().take(2).for_each(|y| one(a, y));
            }
        }
        _ => (),
    }
    out
}

/// rebuilds features from an observation
fn lower_obs(o: &Obs) -> Features<'static> {
    let sp = |x: &ObsSparse| {
        let mut sf = SparseFeatures::new();
        for (ns, fs) in x {
            let d = sf.get_or_create_namespace(*ns);
            for (i, v) in fs {
                d.add_feature((*i).into(), *v);
            }
        }
        sf
    };
    match o {
        Obs::Simple(x) => sp(x).into(),
        Obs::Cb(a, b) => reductionml_core::CBAdfFeatures {
            shared: a.as_ref().map(sp),
            actions: b.iter().map(sp).collect(),
        }
        .into(),
    }
}

pub fn any_example(s: &mut Source, fmt: Format, cb: bool) -> (FeatsAst, Option<LabelAst>, String) {
    if cb {
        let e = common_cb(s);
        let f = FeatsAst::Cb(e.clone());
        let l = if s.chance(4, 5) { Some(label_for(LabelType::CB, &f, s)) } else { None };
        let t = match fmt {
            Format::Vw => vw_example(&f, &l),
            Format::Json => json_example(&f, &l),
            Format::Dsjson => dsjson_example(&e, &l),
        };
        (f, l, t)
    } else {
        let mut e = example(s, &ExOpts::default());
        fix_common(&mut e);
        let f = FeatsAst::Simple(e);
        let l = if s.chance(4, 5) { Some(label_for(LabelType::Simple, &f, s)) } else { None };
        let t = if fmt == Format::Vw { vw_example(&f, &l) } else { json_example(&f, &l) };
        (f, l, t)
    }
}

// ---------------------------------------------------------------- malformed input

const BITS: &[&str] = &[
    ":", "|", " ", "'", "\"", "{", "}", "[", "]", ",", "null", "true", "1", "-", "e", "1e999", "nan", "inf", "\\", "\\u00", "\n", "\r", "\t",
    "shared", "0:1:0.5 ", "::", "||", "_", "é", "\u{0}", "-0", "99999999999999999999", "1:1", "{}", "[]", "\"\"", "\u{a0}", "\u{2003}", "_multi",
];

/// Structural damage of a text.
pub fn mutate(s: &mut Source, t: &str) -> String {
    let mut cs: Vec<char> = t.chars().collect();
    for _ in 0..s.range(1, 4) {
        let n = cs.len();
        match s.weighted(&[4, 4, 3, 2, 2, 2]) {
            0 => {
                let at = s.usize(n + 1);
                let b = *s.pick(BITS);
                for (i, ch) in b.chars().enumerate() {
                    cs.insert(at + i, ch);
                }
            }
            1 if n > 0 => {
                let at = s.usize(n);
                let len = s.range(1, 4).min(n - at);
                cs.drain(at..at + len);
            }
            2 if n > 0 => {
                let at = s.usize(n);
                cs[at] = s.pick(BITS).chars().next().unwrap();
            }
            3 => cs.truncate(s.usize(n + 1)),
            4 if n > 0 => {
                // repeat a piece elsewhere
                let at = s.usize(n);
                let len = s.range(1, 12).min(n - at);
                let piece: Vec<char> = cs[at..at + len].to_vec();
                let to = s.usize(n + 1);
                for (i, ch) in piece.into_iter().enumerate() {
                    cs.insert(to + i, ch);
                }
            }
            _ if n > 1 => {
                let a = s.usize(n);
                let b = s.usize(n);
                cs.swap(a, b);
            }
            _ => {}
        }
    }
    cs.into_iter().collect()
}

/// Damaged or random text: an answer or an error, never a panic; text that is not JSON is an error.
fn malformed_any(s: &mut Source, c: &mut Ctx) -> R {
    let (fmt, cb) = *s.pick(&[
        (Format::Vw, false),
        (Format::Vw, true),
        (Format::Json, false),
        (Format::Json, true),
        (Format::Dsjson, true),
    ]);
    let (seed, bits) = hash_settings(s);
    let ft = if cb { FeaturesType::SparseCBAdf } else { FeaturesType::SparseSimple };
    let (f, l, good) = any_example(s, fmt, cb);
    let text = match s.weighted(&[6, 2, 1]) {
        0 => mutate(s, &good),
        1 => {
            let n = s.usize(12);
            (0..n).map(|_| *s.pick(BITS)).collect()
        }
        _ => {
            let n = s.usize(6);
            let pre = (0..n).map(|_| s.pick(BITS).to_string()).collect::<String>();
            format!("{pre}{good}")
        }
    };
    let is_json = serde_json::from_str::<serde_json::Value>(&text).is_ok();
    c.class(match fmt {
        Format::Vw => "VW",
        Format::Json => "JSON",
        Format::Dsjson => "DSJSON",
    });
    c.nontrivial(text != good);
    c.identity(&(&text, cb));
    c.describe(|| format!("{fmt:?} cb={cb} {text:?}"));
    let pool = new_pool();
    let p = parser(fmt, ft, seed, bits, pool.clone());
    match guarded(|| p.parse_chunk(&text)) {
        Err(m) => return fail("panic", format!("{fmt:?} {text:?}: panic {m}")),
        Ok(Ok((f, _))) => {
            c.class("accepted");
            check!(fmt == Format::Vw || is_json, "accepts-non-json", "{text:?} is not JSON but was accepted");
            f.clear_and_return_object(pool.as_ref());
        }
        Ok(Err(_)) => c.class("rejected"),
    }
    // the parser is as good as new
    match guarded(|| p.parse_chunk(&good)) {
        Ok(Ok((g, gl))) => {
            check!(observe(&g) == expect(&f, seed, bits) && obs_label(&gl) == l, "poisoned", "after {text:?}, {good:?} parses as {:?} {:?}", observe(&g), gl)
        }
        Ok(Err(e)) => return fail("poisoned", format!("after {text:?}, {good:?} is rejected: {e}")),
        Err(m) => return fail("panic", format!("after {text:?}, {good:?}: panic {m}")),
    }
    if fmt == Format::Vw {
        if let Err(m) = guarded(|| p.extract_feature_names(&text).map(|_| ())) {
            return fail("panic", format!("feature names of {text:?}: panic {m}"));
        }
    }
    Ok(())
}

/// Inputs that are wrong for a known reason have to be refused.
fn malformed_known(s: &mut Source, c: &mut Ctx) -> R {
    let kind = s.usize(33);
    let (seed, bits) = hash_settings(s);
    let junk = s.pick(&["abc", "1.2.3", "x1", "--1", "1,0", "e", ".", "1x", "0x10", "1e", "1_0", "½", "+-1", "1e+", "NaN1", "infin", "null", "true"]).to_string();
    let feats = {
        let mut e = example(s, &ExOpts::default());
        fix_common(&mut e);
        e
    };
    let cbx = common_cb(s);
    let vw_tail = vw_line("", &feats);
    let jfeat = json_features_text(&feats);
    let jacts: Vec<String> = cbx.actions.iter().map(json_features_text).collect();
    let jacts = format!("[{}]", jacts.join(","));
    let wrong = |s: &mut Source| s.pick(&["3", "\"x\"", "true"]).to_string();
    use Format::*;
    let (fmt, cb, why, text) = match kind {
        0 => (Vw, false, "label is not a number", format!("{junk} {vw_tail}")),
        1 => (Vw, false, "weight is not a number", format!("1 {junk} {vw_tail}")),
        2 => (Vw, false, "too many label values", format!("1 2 3 {vw_tail}")),
        3 => (Vw, false, "namespace scale is not a number", format!("1 |A:{junk} x:1")),
        4 => (Vw, true, "action label is not a number", format!("{junk}:1:0.5 {vw_tail}")),
        5 => (Vw, true, "action label without probability", format!("0:1 {vw_tail}")),
        6 => (Vw, true, "cost is not a number", format!("0:{junk}:0.5 {vw_tail}")),
        7 => (Vw, true, "probability is not a number", format!("0:1:{junk} {vw_tail}")),
        8 => (Vw, true, "two labelled actions", format!("0:1:0.5 {vw_tail}\n{vw_tail}\n2:1:0.5 {vw_tail}")),
        9 => (Json, false, "no features", json!({"label": 1}).to_string()),
        10 => (Json, false, "features null", "{\"label\":1,\"features\":null}".to_string()),
        11 => (Json, false, "features not an object", format!("{{\"features\":{}}}", s.pick(&["3", "\"x\"", "true", "[1,2]", "[]"]))),
        12 => (Json, false, "namespace of a wrong type", format!("{{\"features\":{{\"A\":{}}}}}", s.pick(&["3", "\"x\"", "true", "null"]))),
        13 => (Json, false, "feature value of a wrong type", format!("{{\"features\":{{\"A\":{{\"f\":{}}}}}}}", s.pick(&["null", "[1]", "{}", "{\"a\":1}"]))),
        14 => (Json, false, "array of mixed types", format!("{{\"features\":{{\"A\":{}}}}}", s.pick(&["[1,\"a\"]", "[\"a\",1]", "[1,null]", "[true]", "[null]", "[[1]]", "[{}]", "[1,2,[3]]"]))),
        15 => (Json, false, "label of a wrong type", format!("{{\"label\":{},\"features\":{jfeat}}}", s.pick(&["\"x\"", "true", "{}", "{\"weight\":1}", "{\"value\":\"1\"}", "{\"value\":1,\"weight\":\"x\"}"]))),
        16 => (Json, true, "no actions", format!("{{\"shared\":{jfeat}}}")),
        17 => (Json, true, "actions not an array", format!("{{\"actions\":{}}}", s.pick(&["3", "\"x\"", "true", "{}", "null"]))),
        18 => (Json, true, "action not an object", format!("{{\"actions\":[{{}},{}]}}", s.pick(&["3", "\"x\"", "true", "[]", "null"]))),
        19 => (Json, true, "shared not an object", format!("{{\"shared\":{},\"actions\":{jacts}}}", wrong(s))),
        20 => (Json, true, "label incomplete", format!("{{\"label\":{},\"actions\":{jacts}}}", s.pick(&["1", "{\"action\":0}", "{\"action\":0,\"cost\":1}", "{\"cost\":1,\"probability\":1}", "{\"action\":-1,\"cost\":1,\"probability\":1}", "{\"action\":0.5,\"cost\":1,\"probability\":1}", "\"x\""]))),
        21 => (Json, s.bool(), "not JSON", { let t = format!("{{\"features\":{jfeat},\"actions\":{jacts}}}"); t[..t.len() - 1].to_string() }),
        22 => (Dsjson, true, "not JSON", { let t = dsjson_example(&cbx, &None); t[..t.len() - 1].to_string() }),
        23 => (Dsjson, true, "no context", json!({"_label_cost": 1}).to_string()),
        24 => (Dsjson, true, "no actions", "{\"c\":{\"a\":1}}".to_string()),
        25 => (Dsjson, true, "actions not an array", format!("{{\"c\":{{\"_multi\":{}}}}}", s.pick(&["3", "\"x\"", "true", "{}", "null"]))),
        26 => (Dsjson, true, "label incomplete", {
            let mut m = serde_json::Map::new();
            let all = [("_label_cost", json!(1)), ("_label_probability", json!(0.5)), ("_labelIndex", json!(0))];
            let drop = s.usize(3);
            let two = s.bool();
            for (i, (k, v)) in all.into_iter().enumerate() {
                if i != drop && (two || i == (drop + 1) % 3) {
                    m.insert(k.into(), v);
                }
            }
            m.insert("c".into(), json!({"_multi": [{"a": 1}]}));
            serde_json::Value::Object(m).to_string()
        }),
        27 => (Dsjson, true, "label of a wrong type", {
            let mut m = json!({"_label_cost": 1, "_label_probability": 0.5, "_labelIndex": 0, "c": {"_multi": [{"a": 1}]}});
            let (k, v) = s.pick(&[("_label_cost", json!("x")), ("_label_probability", json!(true)), ("_labelIndex", json!(-1)), ("_labelIndex", json!(0.5)), ("_labelIndex", json!("0"))]).clone();
            m[k] = v;
            m.to_string()
        }),
        28 => (Dsjson, true, "null feature", s.pick(&["{\"c\":{\"A\":null,\"_multi\":[]}}", "{\"c\":{\"A\":{\"f\":null},\"_multi\":[]}}", "{\"c\":{\"_multi\":[{\"f\":null}]}}", "{\"c\":{\"_multi\":[null]}}"]).to_string()),
        29 => (Vw, true, "action label of a wrong form", {
            let x = *s.pick(&[
                "Shared", "SHARED", "sharedd", "share", "shared1", "shared:1", "shared,", "unshared", "sharéd", "label", "0", "0:", "0:1:", ":1:0.5", "0::0.5", "-1:1:0.5", "1.0:1:0.5",
                "4294967296:1:0.5", "0;1;0.5", "0:1;0.5", "0:1:0.5x", "a0:1:0.5", "0:1:half", "::", ":",
            ]);
            let line = format!("{x} {vw_tail}");
            let other = vw_line("", &feats);
            match s.usize(3) {
                0 => line,
                1 => format!("{line}\n{other}"),
                _ => format!("{other}\n{line}\n{other}"),
            }
        }),
        30 => (Vw, false, "label of a wrong form", {
            let x = *s.pick(&["1:1", "0:1:0.5", "shared", "1 1 1 1", "1 x", "x 1", "1 1:2", "'1 1 x", "1;1"]);
            format!("{x} {vw_tail}")
        }),
        31 => (Dsjson, true, "context of a wrong type", format!("{{\"c\":{}}}", s.pick(&["3", "\"x\"", "true", "[]", "[{\"_multi\":[]}]", "null"]))),
        _ => (Dsjson, true, "array of a wrong type", format!("{{\"c\":{{\"A\":{},\"_multi\":[]}}}}", s.pick(&["[\"a\"]", "[1,\"a\"]", "[true]", "[[1]]", "[1,[2]]", "[{\"f\":null}]"]))),
    };
    // a bare value that touches the bar is a tag, and vw_tail begins with the bar
    c.class(&format!("{fmt:?}: {why}"));
    c.nontrivial(true);
    c.identity(&(&text, cb, fmt as u8));
    c.describe(|| format!("{fmt:?} cb={cb} {why}: {text:?}"));
    let ft = if cb { FeaturesType::SparseCBAdf } else { FeaturesType::SparseSimple };
    match guarded(|| parse_fresh(fmt, ft, seed, bits, &text)) {
        Ok(Err(_)) => Ok(()),
        Ok(Ok((f, l))) => fail("accepts-malformed", format!("{why}: {text:?} accepted as {:?} {l:?}", observe(&f))),
        Err(m) => fail("panic", format!("{why}: {text:?}: panic {m}")),
    }
}

/// Streams that cannot be read as text are errors too.
fn unreadable(s: &mut Source, c: &mut Ctx) -> R {
    let (fmt, cb) = *s.pick(&[(Format::Vw, false), (Format::Vw, true), (Format::Json, false), (Format::Dsjson, true)]);
    let (_, _, t) = any_example(s, fmt, cb);
    let mut bytes = t.clone().into_bytes();
    let at = s.usize(bytes.len() + 1);
    bytes.insert(at, *s.pick(&[0xffu8, 0xfe, 0xc0, 0x80]));
    bytes.push(b'\n');
    let bad = std::str::from_utf8(&bytes).is_err();
    c.nontrivial(bad);
    c.identity(&bytes);
    c.describe(|| format!("{fmt:?} bytes {bytes:?}"));
    let ft = if cb { FeaturesType::SparseCBAdf } else { FeaturesType::SparseSimple };
    let p = parser(fmt, ft, 0, 18, new_pool());
    let mut r = BufReader::new(&bytes[..]);
    match guarded(|| p.get_next_chunk(&mut r, String::new())) {
        Err(m) => fail("panic", format!("{bytes:?}: panic {m}")),
        Ok(Ok(x)) => {
            // the bad byte may lie behind the part that was returned
            check!(!bad || !matches!(&x, Some(chunk) if chunk.len() + 2 >= bytes.len()), "accepts-non-utf8", "{bytes:?} read as {x:?}");
            check!(!bad || cb && fmt == Format::Vw, "accepts-non-utf8", "{bytes:?} read as {x:?}");
            Ok(())
        }
        Ok(Err(_)) => Ok(()),
    }
}

// ---------------------------------------------------------------- feature names

fn names(s: &mut Source, c: &mut Ctx) -> R {
    let (seed, bits) = hash_settings(s);
    let cb = s.bool();
    let mut st = VwStats::default();
    let mut lines = vec![];
    let n = if cb { s.range(1, 4) } else { 1 };
    for i in 0..n {
        let (segs, _) = vw_segments(s, seed, bits, &mut st);
        lines.push(if cb {
            if i == 0 && s.bool() { format!("shared {segs}") } else { segs }
        } else {
            format!("1 {segs}")
        });
    }
    let text = lines.join("\n");
    let ft = if cb { FeaturesType::SparseCBAdf } else { FeaturesType::SparseSimple };
    vw_classes(c, &st);
    c.class(if cb { "multi line" } else { "single line" });
    c.nontrivial(st.feats >= 2);
    c.identity(&(&text, seed, bits));
    c.describe(|| format!("names of {text:?} seed {seed} bits {bits}"));
    names_lead_to_features(s, &text, ft, seed, bits)
}

pub fn names_lead_to_features(s: &mut Source, text: &str, ft: FeaturesType, seed: u32, bits: u8) -> R {
    let p = parser(Format::Vw, ft, seed, bits, new_pool());
    let parsed = match p.parse_chunk(text) {
        Ok((f, _)) => observe(&f),
        Err(e) => return fail("rejects-valid", format!("{text:?}: {e}")),
    };
    let names = match p.extract_feature_names(text) {
        Ok(n) => n,
        Err(e) => return fail("rejects-valid", format!("names of {text:?}: {e}")),
    };
    // every parsed feature is named once, and the name leads to its index
    let mut want: BTreeMap<String, Vec<u32>> = BTreeMap::new();
    let mut add = |o: &ObsSparse| {
        for (ns, fs) in o {
            want.entry(format!("{ns:?}")).or_default().extend(fs.iter().map(|x| x.0));
        }
    };
    match &parsed {
        Obs::Simple(o) => add(o),
        Obs::Cb(a, b) => a.iter().chain(b.iter()).for_each(&mut add),
    }
    let mut got: BTreeMap<String, Vec<u32>> = BTreeMap::new();
    let mut table = InverseHashTable::new();
    let mut model: HashMap<u32, Vec<Feature>> = HashMap::new();
    for (ns, fs) in &names {
        let nm = match ns {
            ParsedNamespaceInfo::Named(n) => n.to_string(),
            ParsedNamespaceInfo::Default => " ".to_string(),
        };
        let lib_ns = to_lib_ns(ref_ns_hash(&Some(nm.clone()), seed));
        for f in fs {
            let full = Feature::from_parsed_feature(f, &nm);
            let h = u32::from(full.hash(seed).mask(reductionml_core::FeatureMask::from_num_bits(bits)));
            let h2 = u32::from(f.hash(lib_ns.hash()).mask(reductionml_core::FeatureMask::from_num_bits(bits)));
            check!(h == h2, "name-hash", "{full:?}: {h} by name, {h2} by parsed feature");
            got.entry(format!("{lib_ns:?}")).or_default().push(h);
            table.insert(h.into(), full.clone());
            let e = model.entry(h).or_default();
            if !e.contains(&full) {
                e.push(full);
            }
        }
    }
    want.retain(|_, v| !v.is_empty());
    got.retain(|_, v| !v.is_empty());
    want.values_mut().chain(got.values_mut()).for_each(|v| v.sort());
    check!(got == want, "names", "{text:?}: names give {got:?}, features are {want:?}");
    for (k, v) in &model {
        let t = table.get((*k).into());
        let ok = t.is_some_and(|t| t.len() == v.len() && v.iter().all(|f| t.contains(f)));
        check!(ok, "table", "index {k}: table has {t:?}, inserted {v:?}");
    }
    for _ in 0..4 {
        let k = s.below(1 << bits) as u32;
        check!(table.get(k.into()).is_some() == model.contains_key(&k), "table", "index {k}: {:?}", table.get(k.into()));
    }
    Ok(())
}

/// The name of an interaction leads to the index at which the interaction is evaluated.
fn interaction_names(s: &mut Source, c: &mut Ctx) -> R {
    let (seed, bits) = hash_settings(s);
    let k = s.range(2, 3);
    let mut sf = SparseFeatures::new();
    let mut terms = vec![];
    let mut spaces = vec![];
    for i in 0..k {
        let ns = format!("{}~{}", ns_name(s), i);
        let (f, h) = match s.usize(3) {
            0 => {
                let n = name(s);
                (Feature::Simple { namespace: ns.clone(), name: n.clone() }, ref_hash(&n, ref_hash(&ns, seed)))
            }
            1 => {
                let n = name(s);
                let v = text_value(s);
                let h = ref_hash(&v, ref_hash(&n, ref_hash(&ns, seed)));
                (Feature::SimpleWithStringValue { namespace: ns.clone(), name: n, value: v }, h)
            }
            _ => {
                let o = s.below(50) as u32;
                (Feature::Anonymous { namespace: ns.clone(), offset: o }, ref_hash(&ns, seed).wrapping_add(o))
            }
        };
        check!(*f.hash(seed) == h, "name-hash", "{f:?}: {} not {h}", *f.hash(seed));
        let n = to_lib_ns(ref_ns_hash(&Some(ns), seed));
        sf.get_or_create_namespace(n).add_feature((h & ref_mask(bits)).into(), 1.0);
        terms.push(f);
        spaces.push(n);
    }
    let full = Feature::Interacted { terms };
    c.class(if k == 2 { "pair" } else { "triple" });
    c.nontrivial(true);
    c.identity(&format!("{full:?}{seed}{bits}"));
    c.describe(|| format!("{full:?} seed {seed} bits {bits}"));
    let idx: Vec<u32> = if k == 2 {
        sf.quadratic_features(spaces[0], spaces[1], bits).unwrap().map(|x| u32::from(x.0)).collect()
    } else {
        sf.cubic_features(spaces[0], spaces[1], spaces[2], bits).unwrap().map(|x| u32::from(x.0)).collect()
    };
    let h = u32::from(full.hash(seed).mask(reductionml_core::FeatureMask::from_num_bits(bits)));
    check!(idx == [h], "interaction-hash", "{full:?}: {h}, interaction is at {idx:?}");
    Ok(())
}

pub fn properties() -> Vec<Property> {
    vec![
        Property {
            id: "C13",
            suites: vec![
                Suite { name: "vw_simple", rule: "the line has at least two features", quick: 10000000, thorough: 200000000, f: vw_simple },
                Suite { name: "vw_cb", rule: "at least two actions and two features", quick: 2500000, thorough: 50000000, f: vw_cb },
                Suite { name: "vw_large", rule: "names, values, namespaces or actions of 100 to 70000; non-trivial: more than 256 bytes", quick: 15000, thorough: 300000, f: crate::p_large::parse_vw },
            ],
            assumptions: vec!["the hash of a byte string is XXH3-64 with the seed, truncated to 32 bits (twox-hash is shared with the code under test)"],
        },
        Property {
            id: "C14",
            suites: vec![
                Suite { name: "json_simple", rule: "at least two features", quick: 5400000, thorough: 108000000, f: json_simple },
                Suite { name: "json_cb", rule: "at least two actions and two features", quick: 1800000, thorough: 36000000, f: json_cb },
                Suite { name: "json_large", rule: "names, values, namespaces or actions of 100 to 70000; non-trivial: more than 256 bytes", quick: 15000, thorough: 300000, f: crate::p_large::parse_json },
            ],
            assumptions: vec!["the hash of a byte string is XXH3-64 with the seed, truncated to 32 bits (twox-hash is shared with the code under test)", "the order of features within a namespace is not specified"],
        },
        Property {
            id: "C15",
            suites: vec![Suite { name: "dsjson", rule: "at least one action and two features", quick: 3400000, thorough: 68000000, f: dsjson },
                Suite { name: "dsjson_large", rule: "names, values, namespaces or actions of 100 to 70000; non-trivial: more than 256 bytes", quick: 15000, thorough: 300000, f: crate::p_large::parse_dsjson },
            ],
            assumptions: vec!["the hash of a byte string is XXH3-64 with the seed, truncated to 32 bits (twox-hash is shared with the code under test)", "the order of features within a namespace is not specified"],
        },
        Property {
            id: "C16",
            suites: vec![
                Suite { name: "formats_agree", rule: "at least two features", quick: 1800000, thorough: 36000000, f: formats_agree },
                Suite { name: "formats_large", rule: "large examples in each format; every case is non-trivial", quick: 7500, thorough: 150000, f: crate::p_large::formats },
                Suite { name: "formats_train", rule: "at least two training examples", quick: 110000, thorough: 2200000, f: formats_train },
            ],
            assumptions: vec!["names avoid the characters that one of the formats gives a meaning to"],
        },
        Property {
            id: "C17",
            suites: vec![Suite { name: "framing", rule: "the stream holds at least two examples", quick: 2400000, thorough: 48000000, f: framing },
                Suite { name: "framing_large", rule: "streams of long lines, many examples or many blank lines; every case is non-trivial", quick: 10000, thorough: 200000, f: crate::p_large::stream },
            ],
            assumptions: vec![],
        },
        Property {
            id: "C18",
            suites: vec![Suite { name: "reuse", rule: "at least three examples through one parser", quick: 280000, thorough: 5600000, f: reuse },
                Suite { name: "reuse_large", rule: "up to 2500 examples through one parser, up to 2000 of them alive at once; every case is non-trivial", quick: 5000, thorough: 100000, f: crate::p_large::reuse },
            ],
            assumptions: vec!["thread schedules are those of the operating system"],
        },
        Property {
            id: "C29",
            suites: vec![
                Suite { name: "names", rule: "at least two features", quick: 3600000, thorough: 72000000, f: names },
                Suite { name: "interaction_names", rule: "every case", quick: 7100000, thorough: 142000000, f: interaction_names },
                Suite { name: "names_large", rule: "names, namespaces or actions of 100 to 70000; every case is non-trivial", quick: 15000, thorough: 300000, f: crate::p_large::names },
            ],
            assumptions: vec!["feature names are extracted from VW text only: the other formats do not implement it"],
        },
        Property {
            id: "C32",
            suites: vec![
                Suite { name: "malformed_any", rule: "the text differs from the well-formed one", quick: 4700000, thorough: 94000000, f: malformed_any },
                Suite { name: "malformed_known", rule: "every case", quick: 1600000, thorough: 32000000, f: malformed_known },
                Suite { name: "unreadable", rule: "the bytes are not UTF-8", quick: 470000, thorough: 9400000, f: unreadable },
                Suite { name: "malformed_large", rule: "a piece repeated 100 to 70000 times; every case is non-trivial", quick: 30000, thorough: 600000, f: crate::p_large::malformed },
            ],
            assumptions: vec![],
        },
    ]
}
