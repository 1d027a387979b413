//! Large inputs: wide namespaces, many namespaces, many actions, long names, long lines, many objects
//! alive at once. Sizes go past 256 and, more rarely, 65536.
use crate::engine::*;
use crate::gen::*;
use crate::p_cb::{close, probs, ref_project};
use crate::p_cb::scores;
use crate::p_parse::{common_cb, fix_common, observed, parse_fresh, parser, Format};
use crate::util::*;
use reductionml_core::object_pool::PoolReturnable;
use reductionml_core::sparse_namespaced_features::{Namespace, SparseFeatures, SparseFeaturesNamespace};
use reductionml_core::{Features, FeaturesType, LabelType, Prediction};
use serde_json::json;
use std::io::{BufReader, Read};

/// Mostly a few hundred, sometimes thousands, rarely more than 65536.
fn size(s: &mut Source, huge: bool) -> usize {
    match s.weighted(&[20, 30, 8, if huge { 1 } else { 0 }]) {
        0 => *s.pick(&[127, 128, 129, 255, 256, 257, 511, 512, 1023, 1024, 1025]),
        1 => s.range(100, 1200),
        2 => s.range(1200, 9000),
        _ => s.range(65500, 70000),
    }
}

fn size_class(c: &mut Ctx, n: usize, what: &str) {
    c.class(&match n {
        0..=256 => format!("{what}: up to 256"),
        257..=65536 => format!("{what}: up to 65536"),
        _ => format!("{what}: beyond 65536"),
    });
}

/// Features that are told apart by their names, a cheap function of a few choices.
fn feats(n: usize, anon: bool, strings: usize, len: usize, s: &mut Source) -> Vec<Feat> {
    let v = [value(s), value(s), 1.0];
    (0..n)
        .map(|i| {
            let value = v[i % 3] + (i % 5) as f32;
            if anon {
                Feat::Anon { value }
            } else if strings > 0 && i % strings == 0 {
                Feat::Str { name: format!("s{i}"), value: format!("v{}", i % 7) }
            } else {
                Feat::Num { name: format!("{}{i}", "x".repeat(len)), value }
            }
        })
        .collect()
}

/// An example that is large in one way or another, in a form that all formats can express.
fn grow(s: &mut Source, e: &mut ExAst, c: &mut Ctx) {
    match s.usize(5) {
        0 | 1 => {
            let n = size(s, true);
            size_class(c, n, "features of a namespace");
            let anon = s.chance(1, 3);
            let strings = s.usize(4);
            let f = feats(n, anon, strings, s.usize(3), s);
            e.push(NsAst { name: Some("wide".into()), feats: f });
        }
        2 => {
            let n = size(s, false).min(3000);
            size_class(c, n, "namespaces");
            for i in 0..n {
                let f = feats(1, false, 0, 1, s);
                e.push(NsAst { name: Some(format!("N{i}")), feats: f });
            }
        }
        3 => {
            let n = size(s, true);
            size_class(c, n, "bytes of a name");
            let mut f = feats(2, false, 0, 0, s);
            f.push(Feat::Num { name: "n".repeat(n), value: value(s) });
            f.push(Feat::Num { name: format!("{}m", "n".repeat(n - 1)), value: value(s) });
            e.push(NsAst { name: Some("long".into()), feats: f });
        }
        _ => {
            let n = size(s, true);
            size_class(c, n, "bytes of a value or namespace");
            let f = vec![Feat::Str { name: "t".into(), value: "w".repeat(n) }];
            e.push(NsAst { name: Some("text".into()), feats: f });
            let f = feats(2, false, 0, 1, s);
            e.push(NsAst { name: Some("q".repeat(n)), feats: f });
        }
    }
}

fn big(s: &mut Source, cb: bool, c: &mut Ctx) -> FeatsAst {
    if !cb {
        let mut e = example(s, &ExOpts::default());
        fix_common(&mut e);
        grow(s, &mut e, c);
        return FeatsAst::Simple(e);
    }
    let mut e = common_cb(s);
    if s.chance(1, 2) {
        let n = size(s, true).min(20000);
        size_class(c, n, "actions");
        for i in 0..n {
            e.actions.push(vec![NsAst { name: Some("a".into()), feats: vec![Feat::Num { name: format!("{i}"), value: 1.0 + (i % 3) as f32 }] }]);
        }
    } else if s.bool() && e.shared.is_some() {
        grow(s, e.shared.as_mut().unwrap(), c);
    } else {
        let k = s.usize(e.actions.len());
        grow(s, &mut e.actions[k], c);
    }
    FeatsAst::Cb(e)
}

fn text_of(fmt: Format, f: &FeatsAst, l: &Option<LabelAst>) -> String {
    match (fmt, f) {
        (Format::Vw, _) => vw_example(f, l),
        (Format::Json, _) => json_example(f, l),
        (Format::Dsjson, FeatsAst::Cb(e)) => dsjson_example(e, l),
        _ => unreachable!(),
    }
}

fn label(s: &mut Source, f: &FeatsAst) -> Option<LabelAst> {
    let lt = if matches!(f, FeatsAst::Cb(_)) { LabelType::CB } else { LabelType::Simple };
    if s.chance(1, 5) {
        return None;
    }
    let mut l = label_for(lt, f, s);
    // the last of many actions too
    if let (LabelAst::Cb { action, .. }, FeatsAst::Cb(e)) = (&mut l, f) {
        if s.bool() {
            *action = e.actions.len() - 1;
        }
    }
    Some(l)
}

fn features_type(cb: bool) -> FeaturesType {
    if cb {
        FeaturesType::SparseCBAdf
    } else {
        FeaturesType::SparseSimple
    }
}

fn settings(s: &mut Source) -> (u32, u8) {
    (if s.bool() { 0 } else { s.below(1 << 32) as u32 }, s.range(10, 31) as u8)
}

/// The first difference, as the whole would be unreadable.
fn difference<T: std::fmt::Debug>(a: &T, b: &T) -> String {
    let (a, b) = (format!("{a:?}"), format!("{b:?}"));
    let at = a.bytes().zip(b.bytes()).take_while(|(x, y)| x == y).count();
    let piece = |t: &str| String::from_utf8_lossy(&t.as_bytes()[at.saturating_sub(40)..(at + 60).min(t.len())]).to_string();
    format!("..{}.. instead of ..{}.. (printed forms of {} and {} bytes)", piece(&a), piece(&b), a.len(), b.len())
}

fn shorten(t: &str) -> String {
    if t.len() <= 400 {
        return t.to_string();
    }
    let (mut a, mut b) = (200, t.len() - 200);
    while !t.is_char_boundary(a) {
        a -= 1;
    }
    while !t.is_char_boundary(b) {
        b += 1;
    }
    format!("{} .. ({} bytes) .. {}", &t[..a], t.len(), &t[b..])
}

fn parse_large(s: &mut Source, c: &mut Ctx, fmt: Format) -> R {
    let (seed, bits) = settings(s);
    let cb = fmt == Format::Dsjson || s.bool();
    let f = big(s, cb, c);
    let l = label(s, &f);
    let t = text_of(fmt, &f, &l);
    c.class(if cb { "contextual bandit" } else { "simple" });
    c.nontrivial(t.len() > 256);
    c.identity(&(&t, seed, bits));
    c.describe(|| format!("{fmt:?} {} seed {seed} bits {bits}", shorten(&t)));
    match observed(parse_fresh(fmt, features_type(cb), seed, bits, &t)) {
        Ok((got, gl)) => {
            let want = expect(&f, seed, bits);
            check!(got == want, "features", "{}", difference(&got, &want));
            check!(gl == l, "label", "got {gl:?}, want {l:?}");
        }
        Err(e) => return fail("rejects-valid", shorten(&e)),
    }
    Ok(())
}

pub fn parse_vw(s: &mut Source, c: &mut Ctx) -> R {
    parse_large(s, c, Format::Vw)
}
pub fn parse_json(s: &mut Source, c: &mut Ctx) -> R {
    parse_large(s, c, Format::Json)
}
pub fn parse_dsjson(s: &mut Source, c: &mut Ctx) -> R {
    parse_large(s, c, Format::Dsjson)
}

/// The formats on large examples, each against the others.
pub fn formats(s: &mut Source, c: &mut Ctx) -> R {
    let (seed, bits) = settings(s);
    let cb = s.chance(2, 3);
    let f = big(s, cb, c);
    let l = label(s, &f);
    c.class(if cb { "contextual bandit" } else { "simple" });
    c.nontrivial(true);
    c.identity(&format!("{f:?}{l:?}{seed}{bits}"));
    c.describe(|| format!("{} {l:?} seed {seed} bits {bits}", shorten(&format!("{f:?}"))));
    let mut first = None;
    for fmt in [Format::Vw, Format::Json, Format::Dsjson] {
        if fmt == Format::Dsjson && !cb {
            continue;
        }
        let got = match observed(parse_fresh(fmt, features_type(cb), seed, bits, &text_of(fmt, &f, &l))) {
            Ok(g) => g,
            Err(e) => return fail("rejects-valid", format!("{fmt:?}: {}", shorten(&e))),
        };
        // without shared features there may be no shared part or an empty one
        let got = match got {
            (Obs::Cb(Some(a), b), l) if a.is_empty() => (Obs::Cb(None, b), l),
            g => g,
        };
        match &first {
            None => first = Some(got),
            Some(x) => check!(*x == got, "formats-differ", "{fmt:?}: {}", difference(&got, x)),
        }
    }
    Ok(())
}

/// Names of the features of large examples.
pub fn names(s: &mut Source, c: &mut Ctx) -> R {
    let (seed, bits) = settings(s);
    let cb = s.bool();
    let f = big(s, cb, c);
    let l = label(s, &f);
    let t = vw_example(&f, &l);
    c.nontrivial(true);
    c.identity(&(&t, seed, bits));
    c.describe(|| format!("names of {} seed {seed} bits {bits}", shorten(&t)));
    crate::p_parse::names_lead_to_features(s, &t, features_type(cb), seed, bits).map_err(|e| Fail { sig: e.sig, msg: shorten(&e.msg) })
}

struct Pieces<'a> {
    data: &'a [u8],
    step: usize,
}
impl Read for Pieces<'_> {
    fn read(&mut self, buf: &mut [u8]) -> std::io::Result<usize> {
        let n = self.step.min(buf.len()).min(self.data.len());
        buf[..n].copy_from_slice(&self.data[..n]);
        self.data = &self.data[n..];
        Ok(n)
    }
}

/// Long lines, many examples, many blank lines in one stream.
pub fn stream(s: &mut Source, c: &mut Ctx) -> R {
    let (fmt, cb) = *s.pick(&[(Format::Vw, false), (Format::Vw, true), (Format::Json, false), (Format::Json, true), (Format::Dsjson, true)]);
    let (seed, bits) = settings(s);
    let vw = fmt == Format::Vw;
    let nl = if s.chance(1, 4) { "\r\n" } else { "\n" };
    let mut pool: Vec<FeatsAst> = vec![];
    for _ in 0..s.range(1, 3) {
        pool.push(if s.chance(1, 2) { big(s, cb, c) } else if cb {
            FeatsAst::Cb(common_cb(s))
        } else {
            let mut e = example(s, &ExOpts::default());
            fix_common(&mut e);
            FeatsAst::Simple(e)
        });
    }
    let mut texts: Vec<(String, (Obs, Option<LabelAst>))> = pool
        .iter()
        .map(|f| {
            let l = label(s, f);
            (text_of(fmt, f, &l).replace('\n', nl), (expect(f, seed, bits), l))
        })
        .collect();
    // blanks that make a line very long
    let mut huge = false;
    if s.chance(1, 30) {
        let k = s.weighted(&[4, 4, 4, 2, 1]);
        let pad = " ".repeat((1usize << [17, 18, 20, 22, 24][k]) + s.usize(3));
        let i = s.usize(texts.len());
        let t = &mut texts[i].0;
        let at = t.find(if vw { '|' } else { '{' }).unwrap();
        if !vw {
            t.insert_str(at + 1, &pad);
            huge = true;
        } else if at == 0 || t[..at].ends_with(' ') {
            t.insert_str(at, &pad);
            huge = true;
        }
    }
    c.class_if(huge, "line of 128 KiB to 16 MiB");
    let short = texts.iter().all(|t| t.0.len() < 2000);
    let n = if short { size(s, false) } else { s.range(1, 6) };
    if short {
        size_class(c, n, "examples");
    }
    let blank = if vw && s.chance(1, 3) { size(s, false) } else { 0 };
    c.class_if(blank > 0, "many blank lines");
    let blank_at = s.usize(n);
    let mut data = String::new();
    let order: Vec<usize> = (0..n).map(|i| if n <= 6 { s.usize(texts.len()) } else { (i * 7 + i / 3) % texts.len() }).collect();
    for (i, k) in order.iter().enumerate() {
        data.push_str(&texts[*k].0);
        data.push_str(nl);
        if vw && cb {
            data.push_str(nl);
        }
        if i == blank_at {
            (0..blank).for_each(|_| data.push_str(nl));
        }
    }
    if s.bool() {
        data.truncate(data.trim_end().len());
    }
    let (mut cap, mut step) = (*s.pick(&[16, 100, 8192, 65536]), *s.pick(&[7, 100, 4096, 1 << 20]));
    if huge {
        (cap, step) = (cap.max(8192), step.max(4096));
    }
    c.class_if(!short, "long lines");
    c.nontrivial(true);
    c.identity(&(&data, seed, bits, cap, step));
    c.describe(|| format!("{fmt:?} stream of {n} examples {} buffer {cap} steps {step}", shorten(&data)));
    let fpool = new_pool();
    let p = parser(fmt, features_type(cb), seed, bits, fpool.clone());
    let mut reader = BufReader::with_capacity(cap, Pieces { data: data.as_bytes(), step });
    let mut buffer = String::new();
    let mut i = 0;
    while let Some(chunk) = match p.get_next_chunk(&mut reader, buffer) {
        Ok(x) => x,
        Err(e) => return fail("read-error", format!("example {i}: {}", shorten(&e.to_string()))),
    } {
        check!(i < n, "extra-example", "chunk {} beyond the {n} examples", shorten(&chunk));
        match p.parse_chunk(&chunk) {
            Ok((f, l)) => {
                let got = (observe(&f), obs_label(&l));
                let want = &texts[order[i]].1;
                check!(got == *want, "examples", "example {i} of {n}: {}", difference(&got, want));
                f.clear_and_return_object(fpool.as_ref());
            }
            Err(e) => return fail("rejects-valid", format!("example {i}: {}", shorten(&e.to_string()))),
        }
        buffer = chunk;
        i += 1;
    }
    check!(i == n, "examples", "{i} examples read, {n} written");
    Ok(())
}

/// One parser and pool over many examples, many of them alive at once.
pub fn reuse(s: &mut Source, c: &mut Ctx) -> R {
    let (fmt, cb) = *s.pick(&[(Format::Vw, false), (Format::Vw, true), (Format::Json, false), (Format::Json, true), (Format::Dsjson, true)]);
    let (seed, bits) = settings(s);
    let mut items: Vec<(String, Result<(Obs, Option<LabelAst>), ()>)> = vec![];
    for _ in 0..s.range(2, 5) {
        let f = match s.usize(4) {
            0 => big(s, cb, c),
            _ if cb => FeatsAst::Cb(common_cb(s)),
            _ => {
                let mut e = example(s, &ExOpts::default());
                fix_common(&mut e);
                FeatsAst::Simple(e)
            }
        };
        let l = label(s, &f);
        let t = text_of(fmt, &f, &l);
        if t.len() < 3000 && s.chance(1, 4) {
            items.push((crate::p_parse::mutate(s, &t), Err(())));
        }
        items.push((t, Ok((expect(&f, seed, bits), l))));
    }
    let total: usize = items.iter().map(|i| i.0.len()).sum();
    let n = if total < 5000 { size(s, false).min(2500) } else { s.range(6, 20) };
    let keep = *s.pick(&[1, 3, 100, 300, 2000]);
    size_class(c, n, "examples");
    size_class(c, keep.min(n), "alive at once");
    c.nontrivial(true);
    c.identity(&format!("{:?}{n}{keep}{seed}{bits}", items.iter().map(|i| &i.0).collect::<Vec<_>>()));
    c.describe(|| format!("{fmt:?} {n} examples, {keep} alive: {}", items.iter().map(|i| shorten(&i.0)).collect::<Vec<_>>().join("\n")));
    let pool = new_pool();
    let p = parser(fmt, features_type(cb), seed, bits, pool.clone());
    let mut alive: std::collections::VecDeque<(Features<'static>, usize)> = Default::default();
    let release = |(f, k): (Features<'static>, usize)| -> R {
        if let Ok((want, _)) = &items[k].1 {
            let now = observe(&f);
            check!(now == *want, "changed-later", "an example changed after it was parsed: {}", difference(&now, want));
        }
        f.clear_and_return_object(pool.as_ref());
        Ok(())
    };
    for i in 0..n {
        let k = (i * 5 + i / 7) % items.len();
        let (t, want) = &items[k];
        match (guarded(|| p.parse_chunk(t)), want) {
            (Ok(Ok((f, l))), Ok(want)) => {
                let got = (observe(&f), obs_label(&l));
                check!(got == *want, "features", "example {i}: {}", difference(&got, want));
                alive.push_back((f, k));
            }
            (Ok(Ok((f, _))), Err(())) => f.clear_and_return_object(pool.as_ref()),
            (Ok(Err(e)), Ok(_)) => return fail("rejects-valid", format!("example {i}: {}", shorten(&e.to_string()))),
            (Err(p), Ok(_)) => return fail("panic", format!("example {i}: {}", shorten(&p))),
            (_, Err(())) => (),
        }
        if alive.len() >= keep {
            if s.chance(1, 50) {
                // all at once
                while let Some(x) = alive.pop_back() {
                    release(x)?;
                }
            } else {
                release(alive.pop_front().unwrap())?;
            }
        }
    }
    while let Some(x) = alive.pop_front() {
        release(x)?;
    }
    Ok(())
}

/// The feature container with many features and namespaces: extended, restored, recycled.
pub fn container(s: &mut Source, c: &mut Ctx) -> R {
    let n = size(s, true);
    let k = if s.chance(1, 3) { size(s, false).min(2000) } else { s.range(1, 3) };
    let n = if k > 3 { n.min(20) } else { n };
    size_class(c, n, "features of a namespace");
    size_class(c, k, "namespaces");
    let m = if s.bool() { s.range(1, 5) } else { size(s, false) };
    let seed = s.below(1000) as u32;
    c.nontrivial(true);
    c.identity(&(n, k, m, seed));
    c.describe(|| format!("{k} namespaces of {n} features, extended by {m}, seed {seed}"));
    let ns = |i: usize| if i == 0 { Namespace::Default } else { Namespace::Named((i as u32).wrapping_mul(2654435761).into()) };
    let feat = |i: usize, j: usize| ((j as u32).wrapping_mul(7).wrapping_add(seed + i as u32), (j % 1000) as f32 + 0.5);
    let fill = |sf: &mut SparseFeatures, n: usize, off: usize| {
        for i in 0..k {
            let d = sf.get_or_create_namespace(ns(i));
            for j in 0..n {
                let (x, v) = feat(i, off + j);
                d.add_feature(x.into(), v);
            }
        }
    };
    let agree = |sf: &SparseFeatures, want: &dyn Fn(usize) -> Vec<(u32, f32)>, what: &str| -> R {
        let mut total = 0;
        for i in 0..k {
            let w = want(i);
            let d = sf.get_namespace(ns(i));
            let got: Vec<(u32, f32)> = d.map(|d| d.iter().map(|(i, v)| (u32::from(i), v)).collect()).unwrap_or_default();
            check!(got == w, "features", "{what}: namespace {i}: {}", difference(&got, &w));
            check!(d.map(|d| d.size()).unwrap_or(0) == w.len(), "size", "{what}: namespace {i}: size {:?}, {} features", d.map(|d| d.size()), w.len());
            total += w.len();
        }
        check!(sf.all_features().count() == total, "all-features", "{what}: {} features in all, want {total}", sf.all_features().count());
        check!(sf.namespaces().map(|x| x.1.count()).sum::<usize>() == total, "namespaces", "{what}: namespaces do not hold {total} features");
        Ok(())
    };
    let first = |i: usize| (0..n).map(|j| feat(i, j)).collect::<Vec<_>>();
    let both = |i: usize| (0..n + m).map(|j| feat(i, j)).collect::<Vec<_>>();
    let none = |_: usize| vec![];
    let mut a = SparseFeatures::new();
    fill(&mut a, n, 0);
    agree(&a, &first, "filled")?;
    let mut b = SparseFeatures::new();
    fill(&mut b, m, n);
    a.append(&b);
    agree(&a, &both, "extended")?;
    a.remove(&b);
    agree(&a, &first, "restored")?;
    let x = a.clone();
    agree(&x, &first, "cloned")?;
    let pool = new_pool();
    a.clear_and_return_object(&pool);
    let mut a = pool.get_object();
    agree(&a, &none, "recycled")?;
    check!(a.empty(), "empty", "recycled object is not empty");
    a.append(&x);
    agree(&a, &first, "refilled")?;
    let mut whole = SparseFeaturesNamespace::new(ns(0));
    let f = both(0);
    let idx: Vec<reductionml_core::FeatureIndex> = f.iter().map(|x| x.0.into()).collect();
    let val: Vec<f32> = f.iter().map(|x| x.1).collect();
    whole.add_features(&idx, &val);
    a.set_namespace(ns(0), whole);
    agree(&a, &|i| if i == 0 { both(0) } else { first(i) }, "set")?;
    Ok(())
}

/// Scores of hundreds of actions do not depend on each other.
pub fn actions(s: &mut Source, c: &mut Ctx) -> R {
    let st = stack_of(s, &StackOpts::default(), "cbadf");
    let g = global(s, 10);
    let mut hist = vec![];
    for _ in 0..s.range(0, 4) {
        let f = stack_example(s, &st);
        let l = label_for(st.label, &f, s);
        hist.push((f, l));
    }
    let mut cb = match stack_example(s, &st) {
        FeatsAst::Cb(c) => c,
        _ => unreachable!(),
    };
    let n = if s.chance(1, 400) { s.range(65_500, 66_000) } else { size(s, false).min(1500) };
    size_class(c, n, "actions");
    let like: Vec<ExAst> = cb.actions.clone();
    let own = s.bool();
    for i in 0..n {
        let mut a = like[i % like.len()].clone();
        if own {
            a.push(NsAst { name: Some("act".into()), feats: vec![Feat::Num { name: format!("{}", i % 300), value: 1.0 + (i % 5) as f32 }] });
        }
        cb.actions.push(a);
    }
    let k = cb.actions.len();
    let label_at = s.usize(k);
    c.nontrivial(!hist.is_empty());
    c.identity(&format!("{:?}{:?}{hist:?}{like:?}{n}{own}{label_at}", st.entry, g));
    c.describe(|| format!("config {} history {hist:?} {n} more actions like {like:?}, own features {own}, learned action {label_at}", config_json(&g, &st.entry)));
    let mut w = workspace(&g, &st.entry);
    for (f, l) in &hist {
        w.learn(&mut lower(f, g.seed, g.bits), &l.label());
    }
    let f = FeatsAst::Cb(cb.clone());
    w.learn(&mut lower(&f, g.seed, g.bits), &LabelAst::Cb { action: label_at, cost: 0.5, prob: 0.5 }.label());
    let p = scores(&w.predict(&mut lower(&f, g.seed, g.bits)))?;
    check!(p.len() == k && p.iter().enumerate().all(|(i, x)| x.0 == i), "action-ids", "{k} actions, scores {}", shorten(&format!("{p:?}")));
    for _ in 0..6 {
        let i = if s.bool() { k - 1 - s.usize(k.min(4)) } else { s.usize(k) };
        let alone = FeatsAst::Cb(CbAst { shared: cb.shared.clone(), actions: vec![cb.actions[i].clone()] });
        let a = scores(&w.predict(&mut lower(&alone, g.seed, g.bits)))?;
        check!(a[0].1 == p[i].1 || a[0].1.is_nan() && p[i].1.is_nan(), "score-depends-on-others", "action {i} of {k} scored {}, alone {}", p[i].1, a[0].1);
    }
    let j = s.usize(k);
    let rot = FeatsAst::Cb(CbAst { shared: cb.shared.clone(), actions: (0..k).map(|i| cb.actions[(i + j) % k].clone()).collect() });
    let q = scores(&w.predict(&mut lower(&rot, g.seed, g.bits)))?;
    for i in 0..k {
        let (x, y) = (q[i].1, p[(i + j) % k].1);
        check!(x == y || x.is_nan() && y.is_nan(), "score-depends-on-position", "action {} of {k} scored {y}, at position {i} {x}", (i + j) % k);
    }
    Ok(())
}

/// A text that nests deeper than anything sensible, or repeats something very often.
pub fn malformed(s: &mut Source, c: &mut Ctx) -> R {
    let (fmt, cb) = *s.pick(&[(Format::Vw, false), (Format::Vw, true), (Format::Json, false), (Format::Json, true), (Format::Dsjson, true)]);
    let n = size(s, true);
    let unit = *s.pick(&["[", "{\"a\":", "[{\"a\":", "|", "| ", ":", "a:", " ", "\n", "0:1:1 ", "'", "1 ", "\"", "\\", "{", "é", "shared\n", "\r"]);
    let body = unit.repeat(n);
    let close = match s.usize(3) {
        0 => "]".repeat(n),
        1 => "}".repeat(n),
        _ => String::new(),
    };
    let t = match (fmt, s.usize(3)) {
        (_, 0) => format!("{body}{close}"),
        (Format::Vw, 1) => format!("1 |a x {body}"),
        (Format::Vw, _) => format!("{body} |a x"),
        (Format::Json, 1) => format!("{{\"features\":{{\"a\":{body}1{close}}}}}"),
        (Format::Json, _) => format!("{{\"label\":{body}1{close},\"shared\":{{}},\"actions\":[{{\"a\":{body}1{close}}}]}}"),
        (Format::Dsjson, 1) => format!("{{\"c\":{{\"a\":{body}1{close},\"_multi\":[]}}}}"),
        (Format::Dsjson, _) => format!("{{\"x\":{body}1{close},\"c\":{{\"_multi\":[{{\"a\":{body}1{close}}}]}}}}"),
    };
    size_class(c, n, "repetitions");
    c.class(match fmt {
        Format::Vw => "VW",
        Format::Json => "JSON",
        Format::Dsjson => "DSJSON",
    });
    c.nontrivial(true);
    c.identity(&t);
    c.describe(|| format!("{fmt:?} {}", shorten(&t)));
    let r = guarded(|| parse_fresh(fmt, features_type(cb), 0, 18, &t).is_ok());
    match r {
        Err(p) => fail("panic", format!("{}: {}", shorten(&t), shorten(&p))),
        Ok(ok) => {
            check!(!ok || fmt == Format::Vw || serde_json::from_str::<serde_json::Value>(&t).is_ok(), "accepts-malformed", "{}", shorten(&t));
            Ok(())
        }
    }
}

/// Metrics, predictions and models over a single wide example, by value and by reference.
pub fn untouched(s: &mut Source, c: &mut Ctx) -> R {
    let st = stack(s, &StackOpts::default());
    let g = global(s, 10);
    let g = Global { interactions: vec![], bits: s.range(15, 17) as u8, ..g };
    let mut f = stack_example(s, &st);
    match &mut f {
        FeatsAst::Simple(e) => {
            if !st.uses_ew {
                grow(s, e, c)
            }
        }
        FeatsAst::Cb(e) => {
            if s.bool() {
                let k = s.usize(e.actions.len());
                grow(s, &mut e.actions[k], c);
            } else {
                grow(s, e.shared.get_or_insert_with(Vec::new), c);
            }
        }
    }
    let l = label_for(st.label, &f, s);
    c.class(st.kind);
    c.nontrivial(true);
    c.identity(&format!("{:?}{g:?}{f:?}{l:?}", st.entry));
    c.describe(|| format!("{} {} {l:?}", config_json(&g, &st.entry), shorten(&format!("{f:?}"))));
    let mut w = workspace(&g, &st.entry);
    let mut x = lower(&f, g.seed, g.bits);
    let want = observe(&x);
    w.learn(&mut x, &l.label());
    check!(observe(&x) == want, "example-changed", "learning: {}", difference(&observe(&x), &want));
    let p = w.predict(&mut x);
    check!(observe(&x) == want, "example-changed", "predicting: {}", difference(&observe(&x), &want));
    let before = w.serialize_model().unwrap();
    let q = w.predict(&mut x);
    check!(json!(format!("{p:?}")) == json!(format!("{q:?}")), "prediction-differs", "{}", difference(&p, &q));
    check!(Saved(before) == Saved(w.serialize_model().unwrap()), "model-changed", "predicting changed the model");
    w.predict_then_learn(&mut x, &l.label());
    check!(observe(&x) == want, "example-changed", "predict-then-learn: {}", difference(&observe(&x), &want));
    Ok(())
}

// ---------------------------------------------------------------- C06, C07: thousands of actions

/// A policy over 1000 to 70 000 actions beside the scores of its base learner.
pub fn crowd(s: &mut Source, c: &mut Ctx) -> R {
    let kind = *s.pick(&["squarecb", "squarecb", "softmax", "greedy"]);
    let k = match s.weighted(&[6, 3, 1]) {
        0 => s.range(1000, 5000),
        1 => s.range(5001, 20_000),
        _ => s.range(65_530, 70_000),
    };
    let eps = *s.pick(&[0.0, 0.0, 0.05, 0.5, 1.0]);
    let lambda = *s.pick(&[1.0, 0.25, 4.0]);
    let (scale, expo) = (*s.pick(&[10.0, 1.0, 3000.0]), *s.pick(&[0.5, 1.0]));
    let reg = json!({"typename": "Coin", "config": {}});
    let base = json!({"typename": "CbAdf", "config": {"cbType": "mtr", "regressor": reg}});
    let entry = match kind {
        "greedy" => json!({"typename": "CbExploreAdfGreedy", "config": {"epsilon": eps, "cbAdf": base}}),
        "softmax" => json!({"typename": "CbExploreAdfSoftmax", "config": {"uniformEpsilon": eps, "lambda": lambda, "cbAdf": base}}),
        _ => json!({"typename": "CbExploreAdfSquareCb", "config": {"uniformEpsilon": eps, "gammaScale": scale, "gammaExponent": expo, "cbAdf": base}}),
    };
    let g = Global { bits: *s.pick(&[6u8, 17]), seed: 0, constant: s.bool(), interactions: vec![] };
    // actions that cannot be told apart, or only some of them
    let kinds = *s.pick(&[1usize, 2, 7, 1000, 100_000]);
    let f = FeatsAst::Cb(CbAst {
        shared: None,
        actions: (0..k).map(|i| vec![NsAst { name: Some("a".into()), feats: vec![Feat::Num { name: format!("{}", i % kinds), value: 1.0 }] }]).collect(),
    });
    let n = s.range(0, 5);
    let labels: Vec<LabelAst> = (0..n)
        .map(|_| LabelAst::Cb { action: if s.chance(1, 3) { k - 1 } else { s.usize(k) }, cost: s.below(9) as f32 / 8.0, prob: 1.0 })
        .collect();
    c.class(kind);
    size_class(c, k, "actions");
    c.class_if(kinds < k, "some actions alike");
    c.identity(&format!("{entry}{g:?}{k}{kinds}{labels:?}"));
    c.describe(|| format!("config {} {k} actions, features numbered modulo {kinds}, labels {labels:?}", config_json(&g, &entry)));
    c.nontrivial(true);
    let mut w = workspace(&g, &entry);
    let mut b = workspace(&g, &base);
    let mut fl = lower(&f, g.seed, g.bits);
    for l in &labels {
        w.learn(&mut fl, &l.label());
        b.learn(&mut fl, &l.label());
    }
    let d = probs(&w.predict(&mut fl))?;
    let sc: Vec<f64> = scores(&b.predict(&mut fl))?.iter().map(|x| x.1 as f64).collect();
    check!(d.len() == k && sc.len() == k, "action-count", "{} probabilities, {} scores for {k} actions", d.len(), sc.len());
    let mut got = vec![f64::NAN; k];
    for (a, p) in &d {
        check!(*a < k && got[*a].is_nan(), "actions", "action {a} of {k} is out of place or twice there");
        check!(*p >= 0.0 && *p <= 1.0 + 2e-3, "range", "action {a} of {k} has probability {p}");
        got[*a] = *p as f64;
    }
    let sum: f64 = got.iter().sum();
    check!(close(sum, 1.0, 2e-3, 0.0), "sum", "the probabilities of {k} actions sum to {sum}");
    let best = (0..k).fold(0, |bi, i| if sc[i] < sc[bi] { i } else { bi });
    let want: Vec<f64> = match kind {
        "greedy" => (0..k).map(|i| eps / k as f64 + if i == best { 1.0 - eps } else { 0.0 }).collect(),
        "softmax" => {
            let ws: Vec<f64> = sc.iter().map(|x| (-lambda * (x - sc[best])).exp()).collect();
            let z: f64 = ws.iter().sum();
            ref_project(&ws.iter().map(|x| x / z).collect::<Vec<_>>(), eps, false)
        }
        _ => {
            let gamma = scale * (n as f64).powf(expo);
            let mut v: Vec<f64> = sc.iter().map(|x| 1.0 / (k as f64 + gamma * (x - sc[best]))).collect();
            let rest: f64 = (0..k).filter(|i| *i != best).map(|i| v[i]).sum();
            v[best] = 1.0 - rest;
            ref_project(&v, eps, false)
        }
    };
    for i in 0..k {
        // what rounding adds up to over all actions falls on the best one
        let abs = if i == best { 2e-3 } else { 1e-2 / k as f64 };
        check!(close(got[i], want[i], abs, 1e-2), "formula", "{kind}, {n} learned: action {i} of {k} got {} want {} (best is {best})", got[i], want[i]);
    }
    Ok(())
}

/// CbAdf over thousands of actions beside its regressor.
pub fn crowd_cb(s: &mut Source, c: &mut Ctx) -> R {
    let mtr = s.chance(2, 3);
    let k = match s.weighted(&[6, 3, 1]) {
        0 => s.range(1000, 5000),
        1 => s.range(5001, 20_000),
        _ => s.range(65_530, 70_000),
    };
    let reg = json!({"typename": "Coin", "config": {}});
    let entry = json!({"typename": "CbAdf", "config": {"cbType": if mtr {"mtr"} else {"ips"}, "regressor": reg}});
    let g = Global { bits: *s.pick(&[6u8, 17]), seed: 0, constant: s.bool(), interactions: vec![] };
    let kinds = *s.pick(&[7usize, 1000, 100_000]);
    let shared = s.bool().then(|| vec![NsAst { name: Some("s".into()), feats: vec![Feat::Num { name: "u".into(), value: 1.0 }] }]);
    let action = |i: usize| vec![NsAst { name: Some("a".into()), feats: vec![Feat::Num { name: format!("{}", i % kinds), value: 1.0 + (i % 3) as f32 / 2.0 }] }];
    let f = FeatsAst::Cb(CbAst { shared: shared.clone(), actions: (0..k).map(action).collect() });
    let n = s.range(1, if mtr { 8 } else { 3 });
    let labels: Vec<(usize, f32, f32)> =
        (0..n).map(|_| (if s.chance(1, 3) { k - 1 } else { s.usize(k) }, 1.0 + s.below(9) as f32 / 8.0, *s.pick(&[1.0, 0.5, 0.125]))).collect();
    c.class(if mtr { "mtr" } else { "ips" });
    size_class(c, k, "actions");
    c.nontrivial(true);
    c.identity(&format!("{entry}{g:?}{k}{kinds}{labels:?}{}", shared.is_some()));
    c.describe(|| format!("config {} {k} actions, features numbered modulo {kinds}, shared {}, (action, cost, probability) {labels:?}", config_json(&g, &entry), shared.is_some()));
    let mut w = workspace(&g, &entry);
    let mut b = workspace(&g, &reg);
    let mut fl = lower(&f, g.seed, g.bits);
    let alone = |i: usize| {
        let mut e = action(i);
        e.extend(shared.iter().flatten().cloned());
        lower(&FeatsAst::Simple(e), g.seed, g.bits)
    };
    for (t, (a, cost, prob)) in labels.iter().enumerate() {
        w.learn(&mut fl, &LabelAst::Cb { action: *a, cost: *cost, prob: *prob }.label());
        if mtr {
            let weight = 1.0 / prob * ((t + 1) as f32 / ((t + 1) * k) as f32);
            b.learn(&mut alone(*a), &LabelAst::Simple { value: *cost, weight }.label());
        } else {
            for i in 0..k {
                let v = if i == *a { cost / prob } else { 0.0 };
                b.learn(&mut alone(i), &LabelAst::Simple { value: v, weight: 1.0 }.label());
            }
        }
    }
    let sc = scores(&w.predict(&mut fl))?;
    check!(sc.len() == k && sc.iter().enumerate().all(|(i, x)| x.0 == i), "action-order", "{} scores for {k} actions, or out of order", sc.len());
    let mut at: Vec<usize> = labels.iter().map(|l| l.0).collect();
    at.extend([0, k - 1, k / 2, s.usize(k), s.usize(k)]);
    at.extend([255, 256, 65_535, 65_536].iter().filter(|i| **i < k));
    for i in at {
        let want = match b.predict(&mut alone(i)) {
            Prediction::Scalar(x) => x.raw_prediction as f64,
            o => return fail("wrong-prediction-type", format!("{o:?}")),
        };
        check!(close(sc[i].1 as f64, want, 1e-6, 1e-3), "score", "action {i} of {k}: score {} but the regressor alone says {want}", sc[i].1);
    }
    Ok(())
}
