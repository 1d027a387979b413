//! The command line program: training, failures, and the export and import of models.
use crate::engine::*;
use crate::gen::*;
use crate::p_model::{apply, gen_ops, Op};
use crate::p_parse::{fix_common, Format};
use crate::util::*;
use reductionml_core::types::{LabelType, Prediction};
use reductionml_core::workspace::Workspace;
use serde_json::{json, Value};
use std::io::Write;
use std::path::Path;
use std::process::Command;
use std::time::Duration;

// ---------------------------------------------------------------- data

struct Data {
    fmt: Format,
    st: Stack,
    g: Global,
    ex: Vec<(FeatsAst, LabelAst)>,
}

impl Data {
    fn text_of(&self, i: usize) -> String {
        let (f, l) = &self.ex[i];
        self.text(f, &Some(l.clone()))
    }
    fn text(&self, f: &FeatsAst, l: &Option<LabelAst>) -> String {
        match (self.fmt, f) {
            (Format::Vw, f) => vw_example(f, l),
            (Format::Json, f) => json_example(f, l),
            (Format::Dsjson, FeatsAst::Cb(x)) => dsjson_example(x, l),
            _ => unreachable!(),
        }
    }
    fn cb(&self) -> bool {
        self.st.label == LabelType::CB
    }
    /// What stands between two examples.
    fn sep(&self) -> &'static str {
        if self.fmt == Format::Vw && self.cb() {
            "\n\n"
        } else {
            "\n"
        }
    }
    fn file(&self, s: &mut Source, texts: &[String]) -> String {
        let mut o = String::new();
        for (i, t) in texts.iter().enumerate() {
            if i > 0 {
                o.push_str(self.sep());
                if self.sep().len() == 2 && s.chance(1, 6) {
                    o.push('\n');
                }
            }
            o.push_str(t);
        }
        match s.usize(3) {
            0 => (),
            1 => o.push('\n'),
            _ if self.sep().len() == 2 => o.push_str("\n\n"),
            _ => o.push('\n'),
        }
        o
    }
    fn format_arg(&self) -> &'static str {
        match self.fmt {
            Format::Vw => "vw-text",
            Format::Json => "json",
            Format::Dsjson => "dsjson",
        }
    }
    fn config(&self) -> Value {
        config_json(&self.g, &self.st.entry)
    }
}

const TRAINABLE: [&str; 5] = ["coin", "cbadf", "greedy", "softmax", "squarecb"];

fn gen_data(s: &mut Source, max: usize) -> Data {
    let kind = *s.pick(&TRAINABLE);
    let elementwise = s.chance(1, 4);
    let st = stack_of(s, &StackOpts { elementwise, ..Default::default() }, kind);
    let g = global(s, 12);
    let fmt = if st.label == LabelType::CB { *s.pick(&[Format::Vw, Format::Json, Format::Dsjson]) } else { *s.pick(&[Format::Vw, Format::Json]) };
    let n = s.range(0, max);
    let mut ex: Vec<(FeatsAst, LabelAst)> = vec![];
    for _ in 0..n {
        let f = if ex.len() > 8 && !s.chance(1, if max > 200 { 40 } else { 4 }) {
            // a long data set repeats its examples
            s.pick(&ex).0.clone()
        } else {
            let mut f = stack_example(s, &st);
            match &mut f {
                FeatsAst::Simple(e) => fix_common(e),
                FeatsAst::Cb(x) => {
                    fix_common(x.shared.get_or_insert_with(Vec::new));
                    x.actions.iter_mut().for_each(fix_common);
                }
            }
            if max > 30 && s.chance(1, 25) {
                // a line longer than the buffers it is read through
                let n = if g.interactions.is_empty() { s.range(500, 6000) } else { s.range(10, 60) };
                let ns = NsAst { name: Some("long_namespace_name".into()), feats: (0..n).map(|i| Feat::Num { name: format!("long_feature_name_{i}"), value: (i % 5) as f32 }).collect() };
                match &mut f {
                    FeatsAst::Simple(e) => e.push(ns),
                    FeatsAst::Cb(x) => x.actions.last_mut().unwrap().push(ns),
                }
            }
            f
        };
        let l = label_for(st.label, &f, s);
        ex.push((f, l));
    }
    Data { fmt, st, g, ex }
}

// ---------------------------------------------------------------- options of a training run

#[derive(Clone, Copy, Debug, PartialEq)]
enum Progress {
    Default,
    Every(u32),
    /// As written.
    Times(&'static str),
}

#[derive(Clone, Debug)]
struct Opts {
    threads: Option<usize>,
    queue: Option<usize>,
    quiet: bool,
    predictions: bool,
    metrics: Vec<&'static str>,
    progress: Progress,
    /// how the metrics are written down
    comma: bool,
    /// confine the program to so many processors
    cpus: usize,
    /// feed the data through a pipe in so many pieces
    pipe: usize,
}

fn gen_opts(s: &mut Source, d: &Data) -> Opts {
    let mut metrics = vec![];
    let mut pool = vec!["parsed_features", "example_number"];
    match d.st.kind {
        "coin" => pool.push("mse"),
        "greedy" | "softmax" | "squarecb" => pool.push("ips"),
        _ => (),
    }
    for _ in 0..s.usize(4) {
        let m = *s.pick(&pool);
        if !metrics.contains(&m) {
            metrics.push(m);
        }
    }
    Opts {
        threads: s.pick(&[Some(0), Some(1), Some(2), Some(3), Some(5), Some(16), None]).to_owned(),
        queue: s.pick(&[None, None, Some(0), Some(1), Some(2), Some(7)]).to_owned(),
        quiet: s.chance(1, 3),
        predictions: s.bool(),
        metrics,
        progress: match s.usize(4) {
            0 => Progress::Every(if s.chance(1, 8) { 4_000_000_000 } else { s.range(1, 6) as u32 }),
            1 => Progress::Times(*s.pick(&["2", "3", "1.5", "2.5", "1.25", "1.75", "2.75", "3.5", "1", "0.5", "10", "1e1"])),
            _ => Progress::Default,
        },
        comma: s.bool(),
        cpus: *s.pick(&[0, 0, 1, 2]),
        pipe: if s.chance(1, 6) { s.range(1, 6) } else { 0 },
    }
}

fn confine(c: &mut Command, cpus: usize) {
    if cpus == 0 {
        return;
    }
    use std::os::unix::process::CommandExt;
    unsafe {
        c.pre_exec(move || {
            let mut have: libc::cpu_set_t = std::mem::zeroed();
            if libc::sched_getaffinity(0, std::mem::size_of::<libc::cpu_set_t>(), &mut have) == 0 {
                let mut set: libc::cpu_set_t = std::mem::zeroed();
                let mut n = 0;
                for i in 0..libc::CPU_SETSIZE as usize {
                    if libc::CPU_ISSET(i, &have) && n < cpus {
                        libc::CPU_SET(i, &mut set);
                        n += 1;
                    }
                }
                libc::sched_setaffinity(0, std::mem::size_of::<libc::cpu_set_t>(), &set);
            }
            Ok(())
        });
    }
}

fn strs(a: &[String]) -> Vec<&str> {
    a.iter().map(|x| x.as_str()).collect()
}

impl Opts {
    fn args(&self, s: &mut Source, d: &Data, start: (&str, &str), data: &str, model: Option<&str>, preds: Option<&str>) -> Vec<String> {
        let mut groups: Vec<Vec<String>> = vec![vec![start.0.into(), start.1.into()], vec!["--data".into(), data.into()]];
        if d.fmt != Format::Vw || s.bool() {
            groups.push(vec!["--data-format".into(), d.format_arg().into()]);
        }
        if let Some(m) = model {
            groups.push(vec![s.pick(&["-o", "--output-model"]).to_string(), m.into()]);
        }
        if let Some(p) = preds {
            groups.push(vec![s.pick(&["-p", "--predictions"]).to_string(), p.into()]);
        }
        if let Some(t) = self.threads {
            groups.push(vec!["--num-parse-threads".into(), t.to_string()]);
        }
        if let Some(q) = self.queue {
            groups.push(vec!["--queue-size".into(), q.to_string()]);
        }
        match self.progress {
            Progress::Default => (),
            Progress::Every(n) => groups.push(vec!["--progress".into(), if s.bool() { format!("+{n}") } else { n.to_string() }]),
            Progress::Times(n) => groups.push(vec!["--progress".into(), format!("*{n}")]),
        }
        if !self.metrics.is_empty() {
            let mut m = vec![s.pick(&["-m", "--metrics"]).to_string()];
            if self.comma {
                m.push(self.metrics.join(","));
            } else {
                m.extend(self.metrics.iter().map(|x| x.to_string()));
            }
            groups.push(m);
        }
        let order = s.permutation(groups.len());
        let mut a = vec![];
        if self.quiet {
            a.push("--quiet".to_string());
        }
        a.push("train".into());
        for i in order {
            a.extend(groups[i].iter().cloned());
        }
        a
    }
}

/// Feeds data through a named pipe, piece by piece.
struct Feeder {
    path: std::path::PathBuf,
    thread: Option<std::thread::JoinHandle<()>>,
}

impl Feeder {
    fn start(path: &Path, data: Vec<u8>, pieces: usize) -> Feeder {
        let c = std::ffi::CString::new(path.to_str().unwrap()).unwrap();
        assert_eq!(unsafe { libc::mkfifo(c.as_ptr(), 0o600) }, 0, "mkfifo");
        let p = path.to_owned();
        let thread = std::thread::spawn(move || {
            let Ok(mut f) = std::fs::OpenOptions::new().write(true).open(&p) else { return };
            let size = (data.len() / pieces).max(1);
            for x in data.chunks(size) {
                if f.write_all(x).is_err() {
                    return;
                }
                std::thread::sleep(Duration::from_micros(1500));
            }
        });
        Feeder { path: path.to_owned(), thread: Some(thread) }
    }
}

impl Drop for Feeder {
    fn drop(&mut self) {
        use std::os::unix::fs::OpenOptionsExt;
        // if nobody has opened the pipe the writer still waits
        let r = std::fs::OpenOptions::new().read(true).custom_flags(libc::O_NONBLOCK).open(&self.path);
        let t = self.thread.take().unwrap();
        if r.is_ok() {
            // let a writer that has just started see the end of the reader
            std::thread::sleep(Duration::from_millis(2));
        }
        drop(r);
        let _ = t.join();
    }
}

fn run_reml(args: &[String], dir: &Path, cpus: usize) -> Result<Output, Fail> {
    let mut c = reml_cmd(&strs(args), dir);
    confine(&mut c, cpus);
    let o = run(c, CLI_LIMIT)?;
    if o.timeout {
        return fail("hang", format!("reml {args:?} has not ended after {CLI_LIMIT:?}"));
    }
    Ok(o)
}

// ---------------------------------------------------------------- C24

struct Expected {
    preds: Vec<Prediction>,
    model: Saved,
}

fn reference(w: &mut Workspace, d: &Data, from: usize, to: usize) -> Expected {
    let mut preds = vec![];
    for (f, l) in &d.ex[from..to] {
        preds.push(w.predict_then_learn(&mut lower(f, d.g.seed, d.g.bits), &l.label()));
    }
    Expected { preds, model: Saved(w.serialize_model().unwrap()) }
}

fn n_features(f: &FeatsAst) -> u64 {
    let n = |e: &ExAst| -> usize { e.iter().map(|n| n.feats.len()).sum() };
    match f {
        FeatsAst::Simple(e) => n(e) as u64,
        FeatsAst::Cb(x) => (x.shared.as_ref().map_or(0, n) + x.actions.iter().map(n).sum::<usize>()) as u64,
    }
}

/// Value of a metric after the first k examples of a run.
fn metric(name: &str, d: &Data, from: usize, preds: &[Prediction], k: usize) -> f64 {
    match name {
        "example_number" => k as f64 - 1.0,
        "parsed_features" => d.ex[from..from + k].iter().map(|(f, _)| n_features(f)).sum::<u64>() as f64,
        "mse" => {
            let mut t = 0.0;
            for (p, (_, l)) in preds.iter().zip(&d.ex[from..from + k]) {
                if let (Prediction::Scalar(p), LabelAst::Simple { value, .. }) = (p, l) {
                    t += (*value as f64 - p.prediction as f64).powi(2);
                }
            }
            t / k as f64
        }
        "ips" => {
            let mut t = 0.0;
            for (p, (_, l)) in preds.iter().zip(&d.ex[from..from + k]) {
                if let (Prediction::ActionProbs(p), LabelAst::Cb { action, cost, prob }) = (p, l) {
                    let q = p.0.iter().find(|x| x.0 == *action).unwrap().1;
                    t += -(*cost as f64) * q as f64 / *prob as f64;
                }
            }
            t / k as f64
        }
        _ => unreachable!(),
    }
}

/// Rows of the last table that was printed.
fn last_table(out: &str) -> Option<(String, Vec<Vec<String>>)> {
    let lines: Vec<&str> = out.lines().collect();
    let at = lines.iter().rposition(|l| l.contains("Example #"))?;
    let rows = lines[at + 1..]
        .iter()
        .filter(|l| l.starts_with('|'))
        .map(|l| l.trim_matches('|').split_whitespace().map(|x| x.to_string()).collect())
        .collect();
    Some((lines[at].to_string(), rows))
}

fn expected_rows(p: Progress, n: usize) -> Vec<usize> {
    let mut rows = vec![];
    let mut next = 0usize;
    for i in 0..n {
        if i >= next {
            rows.push(i + 1);
            next = match p {
                Progress::Every(k) => i + k as usize,
                // every so many times as many, rounded down
                Progress::Times(k) => (i as f64 * k.parse::<f64>().unwrap()) as usize,
                Progress::Default => i * 2,
            };
        }
    }
    rows.push(n);
    rows
}

fn same_number(text: &str, want: f64) -> bool {
    match text.parse::<f64>() {
        Ok(x) => (x - want).abs() <= 1e-3 * want.abs().max(1e-2) || (x.is_nan() && want.is_nan()) || x == want,
        Err(_) => false,
    }
}

fn train(s: &mut Source, c: &mut Ctx) -> R {
    train_with(s, c, false)
}

/// More than 65536 examples, the same few over and over.
fn train_long(s: &mut Source, c: &mut Ctx) -> R {
    train_with(s, c, true)
}

fn long_data(s: &mut Source) -> Data {
    let kind = *s.pick(&["coin", "coin", "coin", "cbadf", "squarecb"]);
    let st = stack_of(s, &StackOpts { elementwise: false, debug: false, ..Default::default() }, kind);
    let g = Global { bits: s.range(4, 12) as u8, seed: s.below(3) as u32, constant: s.bool(), interactions: vec![] };
    let fmt = if st.label == LabelType::CB { *s.pick(&[Format::Vw, Format::Json, Format::Dsjson]) } else { *s.pick(&[Format::Vw, Format::Json]) };
    let pool: Vec<(FeatsAst, LabelAst)> = (0..s.range(2, 9))
        .map(|i| {
            let e = |j: usize| vec![NsAst { name: Some("n".into()), feats: vec![Feat::Num { name: format!("f{}", (i * 3 + j) % 7), value: 1.0 + (i % 2) as f32 / 2.0 }] }];
            let f = match kind {
                "coin" => FeatsAst::Simple(e(0)),
                _ => FeatsAst::Cb(CbAst { shared: Some(e(5)), actions: (0..2 + i % 2).map(e).collect() }),
            };
            let l = label_for(st.label, &f, s);
            (f, l)
        })
        .collect();
    let n = s.range(65_530, if kind == "coin" { 80_000 } else { 66_000 });
    let (a, b) = (1 + s.usize(7), s.usize(7));
    let ex = (0..n).map(|i| pool[(i * a + b + i / 1000) % pool.len()].clone()).collect();
    Data { fmt, st, g, ex }
}

fn train_with(s: &mut Source, c: &mut Ctx, long: bool) -> R {
    // the queues between the threads hold 512 examples unless told otherwise
    let max = match s.weighted(&[25, 25, 25, 23, 2]) {
        0 => 3,
        1 => 12,
        2 => 40,
        3 => 150,
        _ => 2500,
    };
    let d = if long { long_data(s) } else { gen_data(s, max) };
    let n = d.ex.len();
    c.class_if(n > 65_536, "more than 65536 examples");
    c.class_if(n > 512, "more than 512 examples");
    c.class_if((0..n).any(|i| d.text_of(i).len() > 8192), "line longer than 8 KiB");
    // the whole data at once, or in two runs with the model saved in between
    let cut = if s.chance(1, 3) { Some(s.usize(n + 1)) } else { None };
    let dir = scratch();
    let p = |x: &str| dir.path().join(x).to_str().unwrap().to_string();
    std::fs::write(p("config.json"), d.config().to_string()).unwrap();
    let mut w = workspace(&d.g, &d.st.entry);
    let mut start = ("--config".to_string(), p("config.json"));
    if s.chance(1, 6) {
        // begin with a model that has learned before
        for _ in 0..s.range(1, 3) {
            let f = stack_example(s, &d.st);
            let l = label_for(d.st.label, &f, s);
            w.learn(&mut lower(&f, d.g.seed, d.g.bits), &l.label());
        }
        std::fs::write(p("before.bin"), w.serialize_model().unwrap()).unwrap();
        start = ("--input-model".into(), p("before.bin"));
        c.class("from a trained model");
    }
    c.class(d.st.kind);
    c.class(d.format_arg());
    c.class_if(cut.is_some(), "two runs");
    c.identity(&format!("{}{:?}{n}", d.config(), &d.ex[..n.min(3000)]));
    let stages = match cut {
        None => vec![(0, n)],
        Some(k) => vec![(0, k), (k, n)],
    };
    let mut pool = 0;
    for (i, (from, to)) in stages.iter().enumerate() {
        let mut o = gen_opts(s, &d);
        if long && matches!(o.progress, Progress::Every(_) | Progress::Times("1" | "0.5")) {
            o.progress = if s.bool() { Progress::Every(s.range(9_000, 70_000) as u32) } else { Progress::Default };
        }
        let texts: Vec<String> = (*from..*to).map(|i| d.text_of(i)).collect();
        let text = if texts.is_empty() { String::new() } else { d.file(s, &texts) };
        let data = p(&format!("data{i}"));
        let feeder = if o.pipe > 0 {
            Some(Feeder::start(Path::new(&data), text.into_bytes(), o.pipe))
        } else {
            std::fs::write(&data, text).unwrap();
            None
        };
        let model = p(&format!("model{i}.bin"));
        let preds = p(&format!("preds{i}"));
        for f in [&model, &preds] {
            if s.chance(1, 5) {
                // files of an earlier run are replaced
                let n = s.usize(3);
                std::fs::write(f, "{\"Scalar\":\n".repeat([0, 1, 30000][n])).unwrap();
                c.class("output files exist");
            }
        }
        let args = o.args(s, &d, (&start.0, &start.1), &data, Some(&model), o.predictions.then_some(preds.as_str()));
        c.describe(|| format!("config {} examples {}..{} of {} {:?}, reml {}", d.config(), from, to, n, &d.ex[..n.min(3000)], args.join(" ")));
        c.identity(&format!("{o:?}"));
        let want = reference(&mut w, &d, *from, *to);
        let r = run_reml(&args, dir.path(), o.cpus)?;
        drop(feeder);
        let k = to - from;
        check!(r.code == Some(0), "exit", "{args:?}: exit {:?}: {}", r.code, r.err);
        let got = std::fs::read(&model);
        check!(got.is_ok(), "no-model", "{args:?} wrote no model");
        let got = Saved(got.unwrap());
        check!(got == want.model, "model", "{args:?}: the saved model is not the one of learning the {k} examples in order: {}", model_difference(&got.0, &want.model.0));
        if o.predictions {
            let t = std::fs::read_to_string(&preds).unwrap_or_default();
            let lines: Vec<&str> = t.lines().collect();
            check!(lines.len() == k, "prediction-count", "{args:?}: {} predictions for {k} examples", lines.len());
            for (j, (l, p)) in lines.iter().zip(&want.preds).enumerate() {
                let w = serde_json::to_string(p).unwrap();
                check!(*l == w, "prediction", "{args:?}: prediction {j} is {l}, in order it is {w}");
            }
        }
        if o.quiet {
            check!(r.out.trim().is_empty(), "not-quiet", "{args:?} prints {}", r.out);
        }
        if !o.quiet && k > 0 {
            let table = last_table(&r.out);
            check!(table.is_some(), "no-table", "{args:?}: {}", r.out);
            let (_, rows) = table.unwrap();
            let want_rows = expected_rows(o.progress, k);
            check!(rows.len() == want_rows.len(), "progress", "{args:?}: {k} examples give rows {rows:?}, expected after {want_rows:?}");
            for (row, k) in rows.iter().zip(&want_rows) {
                let mut names = vec!["example_number"];
                names.extend(&o.metrics);
                check!(row.len() == names.len(), "columns", "{args:?}: {row:?}");
                for (x, name) in row.iter().zip(&names) {
                    let v = metric(name, &d, *from, &want.preds, *k);
                    check!(!v.is_finite() || v.abs() > 1e6 || same_number(x, v), "metric", "{args:?}: {name} after {k} examples is {x}, expected {v}");
                }
            }
        }
        pool = pool.max(o.threads.unwrap_or(6));
        c.class_if(o.threads == Some(0), "single thread");
        c.class_if(o.threads.unwrap_or(6) > 1, "several parsers");
        c.class_if(o.quiet, "quiet");
        c.class_if(!o.metrics.is_empty() && !o.quiet, "metrics");
        c.class_if(feeder_used(&o), "slow input");
        c.class_if(o.cpus > 0, "few processors");
        start = ("--input-model".into(), model);
    }
    c.nontrivial(n >= 2 && pool > 0);
    Ok(())
}

fn feeder_used(o: &Opts) -> bool {
    o.pipe > 0
}

// ---------------------------------------------------------------- C25

/// An example of the format that cannot be parsed, with the reason.
fn bad_example(s: &mut Source, d: &Data) -> (&'static str, String) {
    let good = if d.ex.is_empty() { None } else { Some(s.pick(&d.ex).clone()) };
    if let Some((f, _)) = &good {
        if s.chance(1, 4) {
            return ("no label", d.text(f, &None));
        }
    }
    match (d.fmt, d.cb()) {
        (Format::Vw, false) => *s.pick(&[("label is not a number", "abc |A x:1"), ("weight is not a number", "1 x |A x"), ("namespace scale is not a number", "1 |A:x y:1"), ("too many labels", "1 2 3 |A x")]),
        (Format::Vw, true) => *s.pick(&[
            ("action label is not a number", "shared |A x\nx:1:0.5 |B y"),
            ("incomplete action label", "shared |A x\n0:1 |B y"),
            ("two labels", "shared |A x\n0:1:0.5 |B y\n1:1:0.5 |B z"),
        ]),
        (Format::Json, false) => *s.pick(&[("not JSON", "{\"label\":1,\"features\":{\"A\":{\"x\":1}}"), ("no features", "{\"label\":1}"), ("label of a wrong type", "{\"label\":\"1\",\"features\":{}}"), ("feature of a wrong type", "{\"label\":1,\"features\":{\"A\":{\"x\":null}}}")]),
        (Format::Json, true) => *s.pick(&[("not JSON", "{\"actions\":[}"), ("no actions", "{\"label\":{\"action\":0,\"cost\":1,\"probability\":1}}"), ("incomplete label", "{\"label\":{\"action\":0},\"actions\":[{\"A\":{\"x\":1}}]}")]),
        (Format::Dsjson, _) => *s.pick(&[("not JSON", "{\"c\":{\"_multi\":[]}"), ("no context", "{\"_label_cost\":1,\"_label_probability\":1,\"_labelIndex\":0}"), ("incomplete label", "{\"_label_cost\":1,\"c\":{\"_multi\":[{\"A\":1}]}}")]),
    }
    .to_owned()
    .into_pair()
}

trait IntoPair {
    fn into_pair(self) -> (&'static str, String);
}
impl IntoPair for (&'static str, &'static str) {
    fn into_pair(self) -> (&'static str, String) {
        (self.0, self.1.to_string())
    }
}

const OLD: &[u8] = b"what was here before";

fn fail_stop(s: &mut Source, c: &mut Ctx) -> R {
    let max = *s.pick(&[2usize, 6, 30, 60]);
    let mut d = gen_data(s, max);
    if d.ex.is_empty() {
        let mut f = stack_example(s, &d.st);
        match &mut f {
            FeatsAst::Simple(e) => fix_common(e),
            FeatsAst::Cb(x) => {
                fix_common(x.shared.get_or_insert_with(Vec::new));
                x.actions.iter_mut().for_each(fix_common);
            }
        }
        let l = label_for(d.st.label, &f, s);
        d.ex.push((f, l));
    }
    let n = d.ex.len();
    let mut o = gen_opts(s, &d);
    let dir = scratch();
    let p = |x: &str| dir.path().join(x).to_str().unwrap().to_string();
    std::fs::write(p("config.json"), d.config().to_string()).unwrap();
    let mut texts: Vec<String> = (0..n).map(|i| d.text_of(i)).collect();
    let mut data = p("data");
    let mut model = p("model.bin");
    let mut preds = o.predictions.then(|| p("preds"));
    let mut start = ("--config".to_string(), p("config.json"));
    let mut extra: Vec<String> = vec![];
    let mut raw: Option<Vec<u8>> = None;
    let mut at = n;
    let mut writes_model = true;
    let what: String = match s.usize(16) {
        0..=4 => {
            let (why, t) = bad_example(s, &d);
            at = s.usize(n + 1);
            texts.insert(at, t);
            format!("example: {why}")
        }
        5 => {
            // an action that is not among those of the example
            if !d.cb() {
                let (why, t) = bad_example(s, &d);
                at = s.usize(n + 1);
                texts.insert(at, t);
                format!("example: {why}")
            } else {
                let (f, _) = s.pick(&d.ex).clone();
                let k = match &f {
                    FeatsAst::Cb(x) => x.actions.len(),
                    _ => 0,
                };
                if d.fmt == Format::Vw || d.st.entry.to_string().contains("\"ips\"") {
                    // there the label sits on an action; and ips learns nothing but zeros from such a label
                    let (why, t) = bad_example(s, &d);
                    at = s.usize(n + 1);
                    texts.insert(at, t);
                    format!("example: {why}")
                } else {
                    let l = LabelAst::Cb { action: k + s.usize(3), cost: 1.0, prob: 0.5 };
                    at = s.usize(n + 1);
                    texts.insert(at, d.text(&f, &Some(l)));
                    "example: label of an action that is not there".into()
                }
            }
        }
        6 => {
            at = s.usize(n);
            let mut b = vec![];
            for (i, t) in texts.iter().enumerate() {
                let mut x = t.clone().into_bytes();
                if i == at {
                    let k = s.usize(x.len() + 1);
                    x.insert(k, 0xff);
                }
                b.extend(x);
                b.extend(d.sep().as_bytes());
            }
            raw = Some(b);
            "data is not UTF-8".into()
        }
        7 => {
            data = match s.usize(2) {
                0 => p("missing"),
                _ => {
                    std::fs::create_dir(p("directory")).unwrap();
                    p("directory")
                }
            };
            "data cannot be read".into()
        }
        8 => {
            start.1 = match s.usize(3) {
                0 => p("missing.json"),
                1 => {
                    let mut t = d.config().to_string();
                    t.pop();
                    std::fs::write(p("broken.json"), t).unwrap();
                    p("broken.json")
                }
                _ => {
                    let mut v = d.config();
                    match s.usize(4) {
                        0 => v["globalConfig"]["numBits"] = json!(77),
                        1 => v["entryReduction"]["typename"] = json!("Unknown"),
                        2 => v["other"] = json!(1),
                        _ => v["globalConfig"]["interactions"] = json!([["Default"]]),
                    }
                    std::fs::write(p("broken.json"), v.to_string()).unwrap();
                    p("broken.json")
                }
            };
            "configuration cannot be used".into()
        }
        9 => {
            let m = workspace(&d.g, &d.st.entry).serialize_model().unwrap();
            let bytes = match s.usize(4) {
                0 => None,
                1 => Some(vec![]),
                2 => {
                    let k = s.usize(m.len());
                    Some(m[..k].to_vec())
                }
                _ => Some(b"not a model".to_vec()),
            };
            if let Some(b) = bytes {
                std::fs::write(p("in.bin"), b).unwrap();
            }
            start = ("--input-model".into(), p("in.bin"));
            "input model cannot be used".into()
        }
        10 => {
            o.metrics.push(*s.pick(&["foo", "MSE", "ips2", "accuracy", "loss"]));
            "unknown metric".into()
        }
        11 => {
            o.metrics.push(if d.cb() { "mse" } else { "ips" });
            o.quiet = false;
            "metric for another kind of prediction".into()
        }
        12 => {
            preds = Some(match s.usize(3) {
                0 => p("no/such/preds"),
                1 => dir.path().to_str().unwrap().to_string(),
                _ => "/dev/full".into(),
            });
            "predictions cannot be written".into()
        }
        13 => {
            model = match s.usize(3) {
                0 => p("no/such/model"),
                1 => dir.path().to_str().unwrap().to_string(),
                _ => "/dev/full".into(),
            };
            writes_model = false;
            "model cannot be written".into()
        }
        14 => {
            extra = match s.usize(5) {
                0 => vec!["--progress=x".into()],
                1 => vec!["--progress=+x".into()],
                2 => vec!["--num-parse-threads=-1".into()],
                3 => vec!["--queue-size=many".into()],
                _ => vec!["--unknown".into()],
            };
            o.progress = Progress::Default;
            o.threads = None;
            o.queue = None;
            "arguments not understood".into()
        }
        _ => {
            // a simple learner cannot read the format of contextual bandits
            if d.cb() {
                extra = vec!["--input-model".into(), p("config.json")];
                "two models to start from".into()
            } else {
                d.fmt = Format::Dsjson;
                "format that the learner cannot use".into()
            }
        }
    };
    c.class(&what);
    c.class(d.format_arg());
    c.class_if(o.threads == Some(0), "single thread");
    c.class_if(at < n, "good examples follow");
    c.nontrivial(true);
    let old = s.bool();
    if old && writes_model {
        std::fs::write(&model, OLD).unwrap();
    }
    if !data.ends_with("missing") && !data.ends_with("directory") {
        let bytes = match raw {
            Some(b) => b,
            None => d.file(s, &texts).into_bytes(),
        };
        std::fs::write(&data, bytes).unwrap();
    }
    let mut args = o.args(s, &d, (&start.0, &start.1), &data, Some(&model), preds.as_deref());
    args.extend(extra);
    c.identity(&format!("{what}{}{texts:?}{o:?}", d.config()));
    c.describe(|| format!("{what} (at {at} of {n})\nconfig {}\ndata {texts:?}\nreml {}", d.config(), args.join(" ")));
    let r = run_reml(&args, dir.path(), o.cpus)?;
    check!(r.code != Some(0), "exit-zero", "{what}: {args:?} exits with zero: {}", r.err);
    check!(!r.err.trim().is_empty(), "silent", "{what}: {args:?} prints no error");
    if writes_model {
        let now = std::fs::read(&model).ok();
        if old {
            check!(now.as_deref() == Some(OLD), "model-touched", "{what}: the model file that was there before has changed");
        } else {
            check!(now.is_none(), "model-written", "{what}: a model was written");
        }
    }
    Ok(())
}

// ---------------------------------------------------------------- C26

fn all_finite(v: &Value) -> bool {
    // numbers that are not finite are written as null; the description of types has nulls of its own
    match v {
        Value::Null => false,
        Value::Array(a) => a.iter().all(all_finite),
        Value::Object(m) => m.iter().all(|(k, v)| k == "type_description" || all_finite(v)),
        _ => true,
    }
}

fn pipeline(s: &mut Source, c: &mut Ctx) -> R {
    let st = stack(s, &StackOpts::default());
    let g = global(s, 12);
    let ops = gen_ops(s, &st, 0, 8);
    let mut w = workspace(&g, &st.entry);
    for op in &ops {
        apply(&mut w, op, &g);
    }
    let later = gen_ops(s, &st, 1, 5);
    c.class(st.kind);
    c.identity(&format!("{st:?}{g:?}{ops:?}"));
    c.describe(|| format!("config {} operations {ops:?} later {later:?}", config_json(&g, &st.entry)));
    let dir = scratch();
    let p = |x: &str| dir.path().join(x).to_str().unwrap().to_string();
    let bytes = w.serialize_model().unwrap();
    std::fs::write(p("m.bin"), &bytes).unwrap();
    let o = reml(&["export-model", &p("m.bin")], dir.path())?;
    let lib = match w.serialize_to_json() {
        Ok(v) => v,
        Err(_) => {
            // a model that has diverged has no JSON form
            check!(!all_finite(&learned_state(&w)), "export-refused", "the library has no JSON form of a finite model");
            check!(o.code != Some(0), "export-exit", "export of a model without a JSON form succeeded: {}", o.out);
            c.class("no JSON form");
            return Ok(());
        }
    };
    check!(o.code == Some(0), "export-exit", "exit {:?} {}", o.code, o.err);
    let v: Value = match serde_json::from_str(&o.out) {
        Ok(v) => v,
        Err(e) => return fail("export-not-json", format!("{e}: {}", o.out)),
    };
    check!(v == lib, "export", "export-model prints another model than the library's JSON form: {v} against {lib}");
    if !all_finite(&v) {
        c.class("not finite");
        return Ok(());
    }
    let text = match s.usize(3) {
        0 => o.out.clone(),
        1 => v.to_string(),
        _ => serde_json::to_string_pretty(&v).unwrap() + "\n\n",
    };
    std::fs::write(p("m.json"), text).unwrap();
    if s.bool() {
        // an older file of another size is replaced
        let n = s.usize(3);
        std::fs::write(p("m2.bin"), OLD.repeat([0, 1, bytes.len() / OLD.len() + 50][n])).unwrap();
    }
    let o = reml(&["import-model", &p("m.json"), s.pick(&["-o", "--output-model"]), &p("m2.bin")], dir.path())?;
    check!(o.code == Some(0), "import-exit", "exit {:?} {}", o.code, o.err);
    let back = std::fs::read(p("m2.bin")).unwrap_or_default();
    let mut w2 = match Workspace::create_from_model(&back) {
        Ok(w) => w,
        Err(e) => return fail("import-unreadable", format!("the imported model cannot be loaded: {e}")),
    };
    for (i, op) in later.iter().enumerate() {
        let (a, b) = (apply(&mut w, op, &g), apply(&mut w2, op, &g));
        check!(a == b, "behaviour", "operation {i} gives {a:?}, after export and import {b:?}");
    }
    let (a, b) = (Saved::of(&w)?, Saved::of(&w2)?);
    check!(a == b, "behaviour", "models differ after further learning");
    if s.bool() {
        let o = reml(&["export-model", &p("m2.bin")], dir.path())?;
        let again: Value = serde_json::from_str(&o.out).unwrap_or_default();
        check!(again == v, "export-again", "exporting the imported model prints {again}, the first export {v}");
    }
    c.nontrivial(ops.iter().any(|o| !matches!(o, Op::Predict(_))));
    Ok(())
}

/// Exporting or importing what is no model fails and writes nothing.
fn no_model(s: &mut Source, c: &mut Ctx) -> R {
    let st = stack(s, &StackOpts::default());
    let g = global(s, 8);
    let mut w = workspace(&g, &st.entry);
    for op in gen_ops(s, &st, 0, 3) {
        apply(&mut w, &op, &g);
    }
    let dir = scratch();
    let p = |x: &str| dir.path().join(x).to_str().unwrap().to_string();
    let export = s.bool();
    let mut out = p("out.bin");
    let mut checkable = true;
    let what = if export {
        let m = w.serialize_model().unwrap();
        let (what, b) = match s.usize(4) {
            0 => ("missing", None),
            1 => ("empty", Some(vec![])),
            2 => {
                let k = s.usize(m.len());
                ("cut off", Some(m[..k].to_vec()))
            }
            _ => ("JSON instead of a model", Some(json_form(&w).to_string().into_bytes())),
        };
        if let Some(b) = b {
            std::fs::write(p("in"), b).unwrap();
        }
        what
    } else {
        let mut v = json_form(&w);
        let good = v.to_string();
        let (what, b) = match s.usize(8) {
            0 => ("missing", None),
            1 => ("empty", Some(vec![])),
            6 => {
                let space = *s.pick(&["", " ", "\n"]);
                let more = s.pick(&["{}", "}", "1", "null", "x", ",", "\0", good.as_str()]).to_string();
                ("something after the model", Some(format!("{good}{space}{more}").into_bytes()))
            }
            2 => ("cut off", Some(good.as_bytes()[..s.usize(good.len())].to_vec())),
            3 => ("model instead of JSON", Some(w.serialize_model().unwrap())),
            4 => {
                let keys: Vec<String> = v.as_object().unwrap().keys().cloned().collect();
                let k = s.pick(&keys).clone();
                v.as_object_mut().unwrap().remove(&k);
                ("part missing", Some(v.to_string().into_bytes()))
            }
            5 => ("other JSON", Some(s.pick(&["1", "null", "[]", "{}", "\"x\""]).as_bytes().to_vec())),
            _ => {
                out = match s.usize(3) {
                    0 => "/dev/full".into(),
                    1 => p("no/such/file"),
                    _ => dir.path().to_str().unwrap().to_string(),
                };
                checkable = false;
                ("output cannot be written", Some(good.into_bytes()))
            }
        };
        if let Some(b) = b {
            std::fs::write(p("in"), b).unwrap();
        }
        what
    };
    c.class(&format!("{}: {what}", if export { "export" } else { "import" }));
    c.nontrivial(true);
    c.identity(&format!("{what}{export}{st:?}{g:?}"));
    c.describe(|| format!("{what} export {export} config {}", config_json(&g, &st.entry)));
    let old = s.bool();
    if old && checkable {
        std::fs::write(&out, OLD).unwrap();
    }
    let o = if export { reml(&["export-model", &p("in")], dir.path())? } else { reml(&["import-model", &p("in"), "-o", &out], dir.path())? };
    check!(o.code != Some(0), "exit-zero", "{what}: exit zero, printed {} {}", o.out, o.err);
    if export {
        check!(serde_json::from_str::<Value>(&o.out).is_err(), "printed", "{what}: printed {}", o.out);
    } else if checkable {
        let now = std::fs::read(&out).ok();
        check!(if old { now.as_deref() == Some(OLD) } else { now.is_none() }, "output-touched", "{what}: the output file was written");
    }
    Ok(())
}

/// The command line program, optimised and not, on the same files.
pub fn both_builds(s: &mut Source, c: &mut Ctx) -> R {
    let max = *s.pick(&[3usize, 12, 40]);
    let d = gen_data(s, max);
    let mut o = gen_opts(s, &d);
    o.pipe = 0;
    let bad = s.chance(1, 5).then(|| (bad_example(s, &d), s.usize(d.ex.len() + 1)));
    let dir = scratch();
    let p = |x: &str| dir.path().join(x).to_str().unwrap().to_string();
    std::fs::write(p("config.json"), d.config().to_string()).unwrap();
    let mut texts: Vec<String> = (0..d.ex.len()).map(|i| d.text_of(i)).collect();
    if let Some(((_, t), at)) = &bad {
        texts.insert(*at, t.clone());
    }
    let text = if texts.is_empty() { String::new() } else { d.file(s, &texts) };
    std::fs::write(p("data"), &text).unwrap();
    let release = std::env::var("VERIF_RELEASE_REML").unwrap_or_else(|_| "/verif/harness/target/repo/release/reml".into());
    c.class(d.st.kind);
    c.class(d.format_arg());
    c.class_if(bad.is_some(), "with a bad example");
    c.nontrivial(d.ex.len() >= 2);
    c.identity(&format!("{}{text}{o:?}", d.config()));
    let (model, preds) = (p("model.bin"), p("preds"));
    let args = o.args(s, &d, ("--config", &p("config.json")), &p("data"), Some(&model), o.predictions.then_some(preds.as_str()));
    c.describe(|| format!("config {} data {text:?} reml {}", d.config(), args.join(" ")));
    let mut results = vec![];
    for build in [None, Some(&release)] {
        let start = |args: &[String]| {
            let mut x = match build {
                None => reml_cmd(&strs(args), dir.path()),
                Some(exe) => {
                    let mut x = Command::new(exe);
                    x.args(args).current_dir(dir.path()).env("NO_COLOR", "1").env_remove("RUST_BACKTRACE");
                    x
                }
            };
            confine(&mut x, o.cpus);
            x
        };
        let _ = std::fs::remove_file(&model);
        let _ = std::fs::remove_file(&preds);
        let r = run(start(&args), CLI_LIMIT)?;
        check!(!r.timeout, "hang", "{build:?} reml {args:?} has not ended after {CLI_LIMIT:?}");
        let mut answers = vec![format!("exit {:?}", r.code)];
        if bad.is_none() {
            answers.push(format!("table {:?}", last_table(&r.out)));
            answers.push(format!("predictions {:?}", std::fs::read_to_string(&preds)));
        }
        let saved = std::fs::read(&model).ok();
        answers.push(format!("model {:?}", saved.clone().map(|b| Saved(b).digest())));
        if saved.is_some() {
            let e = run(start(&["export-model".to_string(), model.clone()]), CLI_LIMIT)?;
            answers.push(format!("export {:?} {} bytes with hash {:x}", e.code, e.out.len(), fnv(e.out.as_bytes())));
            std::fs::write(p("exported"), &e.out).unwrap();
            let i = run(start(&["import-model".to_string(), p("exported"), "-o".into(), p("imported")]), CLI_LIMIT)?;
            answers.push(format!("import {:?} {:?}", i.code, std::fs::read(p("imported")).ok().map(|b| Saved(b).digest())));
            let _ = std::fs::remove_file(p("imported"));
        }
        results.push(answers);
    }
    for (a, b) in results[0].iter().zip(&results[1]) {
        check!(a == b, "program", "reml {args:?}: the debug build gives {a}, the optimised build {b}");
    }
    check!(results[0].len() == results[1].len(), "program", "reml {args:?}: the debug build gives {:?}, the optimised build {:?}", results[0], results[1]);
    Ok(())
}

// ---------------------------------------------------------------- C35

struct DebugAst {
    id: String,
    indent: u64,
    prediction: bool,
    label: bool,
    features: bool,
}

/// A chain of Debug reductions over a reduction, outermost first.
fn debug_chain(s: &mut Source, n: usize) -> Vec<DebugAst> {
    (0..n)
        .map(|_| DebugAst {
            id: match s.usize(6) {
                0 => String::new(),
                1 => "[x(y), z]".into(),
                2 => "{} {0} %s".into(),
                _ => name(s).chars().filter(|c| !c.is_control() && !c.is_whitespace()).collect(),
            },
            indent: match s.usize(8) {
                0 => s.below(3000),
                1 if s.chance(1, 3) => *s.pick(&[65535, 65534, 40000]),
                _ => s.below(9),
            },
            prediction: s.bool(),
            label: s.bool(),
            features: s.bool(),
        })
        .collect()
}

fn debug_json(s: &mut Source, d: &[DebugAst], next: &Value) -> Value {
    let mut v = next.clone();
    for d in d.iter().rev() {
        let mut m = serde_json::Map::new();
        if !d.id.is_empty() || s.bool() {
            m.insert("id".into(), json!(d.id));
        }
        if d.indent != 0 || s.bool() {
            m.insert("indent".into(), json!(d.indent));
        }
        for (k, x) in [("prediction", d.prediction), ("label", d.label), ("features", d.features)] {
            if x || s.bool() {
                m.insert(k.into(), json!(x));
            }
        }
        m.insert("next".into(), v);
        v = json!({"typename": "Debug", "config": m});
    }
    v
}

/// The child of `debug_prints`: makes the calls that are listed in a file, and writes what was handed over to
/// standard output, between marks on standard error.
pub fn debug_run(file: &str) {
    use reductionml_core::parsers::{TextModeParser, TextModeParserFactory};
    let v: Value = serde_json::from_str(&std::fs::read_to_string(file).unwrap()).unwrap();
    let cfg = reductionml_core::workspace::Configuration::from_json_str(&v["config"].to_string()).unwrap();
    let mut w = Workspace::new(cfg).unwrap();
    if v["saved"] == json!(true) {
        w = Workspace::create_from_model(&w.serialize_model().unwrap()).unwrap();
    }
    let t = w.get_entry_reduction().types();
    let (ft, lt) = (t.input_features_type(), t.input_label_type());
    let p = reductionml_core::parsers::VwTextParserFactory.create(
        ft,
        lt,
        w.global_config().hash_seed(),
        w.global_config().num_bits(),
        w.features_pool().clone(),
    );
    for op in v["ops"].as_array().unwrap() {
        let (mut f, l) = p.parse_chunk(op[1].as_str().unwrap()).unwrap();
        let l = l.unwrap();
        let (fs, ls) = (format!("{f:?}"), format!("{l:?}"));
        let pred = match op[0].as_str().unwrap() {
            "predict" => Some(w.predict(&mut f)),
            "learn" => {
                w.learn(&mut f, &l);
                None
            }
            _ => Some(w.predict_then_learn(&mut f, &l)),
        };
        eprintln!("#");
        println!("{}", json!([fs, ls, pred.map(|p| format!("{p:?}"))]));
    }
}

/// Lines that a call has to print, as indent, mark and text.
fn debug_lines(chain: &[DebugAst], func: &str, features: &str, label: Option<&str>, pred: Option<&str>) -> Vec<(u64, String, String)> {
    let line = |x: &DebugAst, what: String| (x.indent.max(1), format!("[{}({func}), ", x.id), format!("] {what}"));
    let mut o = vec![];
    for x in chain {
        if x.features {
            o.push(line(x, format!("features: {features}")));
        }
        if let (true, Some(l)) = (x.label, label) {
            o.push(line(x, format!("label: {l}")));
        }
    }
    for x in chain.iter().rev() {
        if let (true, Some(p)) = (x.prediction, pred) {
            o.push(line(x, format!("prediction: {p}")));
        }
    }
    o
}

fn debug_prints(s: &mut Source, c: &mut Ctx) -> R {
    let kind = *s.pick(&TRAINABLE);
    let elementwise = s.chance(1, 4);
    let st = stack_of(s, &StackOpts { elementwise, ..Default::default() }, kind);
    let g = global(s, 8);
    let depth = s.weighted(&[1, 4, 3, 1]);
    let chain = debug_chain(s, depth);
    let entry = debug_json(s, &chain, &st.entry);
    let cfg = config_json(&g, &entry);
    let saved = s.chance(1, 4);
    let mut wide = false;
    let ops: Vec<(&str, String)> = (0..s.range(1, 6))
        .map(|_| {
            let mut f = stack_example(s, &st);
            match &mut f {
                FeatsAst::Simple(e) => fix_common(e),
                FeatsAst::Cb(x) => {
                    x.shared.iter_mut().for_each(fix_common);
                    x.actions.iter_mut().for_each(fix_common);
                }
            }
            if s.chance(1, 25) {
                // a line of tens or hundreds of kilobytes
                wide = true;
                let most = *s.pick(&[400, 3000, 12000]);
                let n = s.range(50, most);
                let big = NsAst { name: Some("Big".into()), feats: (0..n).map(|i| Feat::Anon { value: 0.5 + i as f32 }).collect() };
                match &mut f {
                    FeatsAst::Simple(e) => e.push(big),
                    FeatsAst::Cb(x) => x.actions[0].push(big),
                }
            }
            let l = label_for(st.label, &f, s);
            (*s.pick(&["predict", "learn", "predict_then_learn"]), vw_example(&f, &Some(l)))
        })
        .collect();
    c.class(st.kind);
    c.class_if(saved, "from a saved model");
    c.class_if(chain.len() > 1, "several in a row");
    c.class_if(wide, "example of many features");
    c.class_if(chain.iter().any(|d| d.indent > 2000), "wide indent");
    let case = json!({"config": cfg, "saved": saved, "ops": ops});
    c.identity(&case.to_string());
    c.describe(|| case.to_string());
    c.nontrivial(chain.iter().any(|d| d.prediction || d.label || d.features));
    let dir = scratch();
    let file = dir.path().join("case.json");
    std::fs::write(&file, case.to_string()).unwrap();
    let mut cmd = Command::new(std::env::current_exe().unwrap());
    cmd.arg("debug-run").arg(&file).current_dir(dir.path()).env_remove("RUST_BACKTRACE");
    let r = run(cmd, CLI_LIMIT)?;
    check!(!r.timeout && r.code == Some(0), "exit", "exit {:?}: {}", r.code, r.err.chars().take(600).collect::<String>());
    let told: Vec<Value> = r.out.lines().map(|l| serde_json::from_str(l).unwrap()).collect();
    let mut err = r.err.lines().filter(|l| l.starts_with(' ') || *l == "#");
    for (i, ((op, _), t)) in ops.iter().zip(&told).enumerate() {
        let lines: Vec<&str> = err.by_ref().take_while(|l| *l != "#").collect();
        let (f, l, p) = (t[0].as_str().unwrap(), t[1].as_str(), t[2].as_str());
        let want = match *op {
            "predict" => vec![debug_lines(&chain, op, f, None, p)],
            "learn" => vec![debug_lines(&chain, op, f, l, None)],
            _ => {
                // also correct as two calls
                let mut two = debug_lines(&chain, "predict", f, None, p);
                two.extend(debug_lines(&chain, "learn", f, l, None));
                vec![debug_lines(&chain, op, f, l, p), two]
            }
        };
        let ok = want.iter().any(|w| {
            w.len() == lines.len()
                && w.iter().zip(&lines).all(|((pad, mark, tail), l)| {
                    let body = l.trim_start_matches(' ');
                    (l.len() - body.len()) as u64 == *pad && body.starts_with(mark.as_str()) && body.ends_with(tail.as_str())
                })
        });
        let show = |s: &str| -> String {
            let b = s.trim_start_matches(' ');
            format!("{} spaces and {b:.300}", s.len() - b.len())
        };
        check!(
            ok, "debug-lines", "call {i}, {op}, printed {:?}, expected {:?}",
            lines.iter().map(|l| show(l)).collect::<Vec<_>>(),
            want[0].iter().map(|(n, a, b)| format!("{n} spaces and {a}..{b:.300}")).collect::<Vec<_>>()
        );
    }
    check!(told.len() == ops.len() && err.next().is_none(), "debug-lines", "more lines than calls");
    Ok(())
}

pub fn properties() -> Vec<Property> {
    vec![
        Property {
            id: "C35",
            suites: vec![
                Suite { name: "debug_prints", rule: "something is to be printed", quick: 9000, thorough: 200000, f: debug_prints },
            ],
            assumptions: vec!["features, labels and predictions are compared in the form that the library itself gives them"],
        },
        Property {
            id: "C24",
            suites: vec![Suite { name: "train", rule: "two examples or more, parsed by threads of their own", quick: 4000, thorough: 120000, f: train },
                Suite { name: "train_long", rule: "more than 65530 examples, parsed by threads of their own", quick: 24, thorough: 700, f: train_long }],
            assumptions: vec!["schedules are varied by thread counts, queue sizes, processor confinement, slow input and load, not enumerated"],
        },
        Property {
            id: "C25",
            suites: vec![Suite { name: "fail_stop", rule: "every case", quick: 12000, thorough: 300000, f: fail_stop }],
            assumptions: vec!["no end within 60 s counts as a hang"],
        },
        Property {
            id: "C26",
            suites: vec![
                Suite { name: "pipeline", rule: "the model has learned and its numbers are finite", quick: 7000, thorough: 300000, f: pipeline },
                Suite { name: "no_model", rule: "every case", quick: 20000, thorough: 400000, f: no_model },
            ],
            assumptions: vec![],
        },
    ]
}
