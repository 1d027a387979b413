//! Helpers of suites that run programs.
use crate::engine::*;
use reductionml_core::workspace::Workspace;
use serde_json::{json, Value};
use std::path::{Path, PathBuf};
use std::process::{Command, Stdio};
use std::sync::atomic::{AtomicU64, Ordering};
use std::time::{Duration, Instant};

/// What a model has learned: all weight tables of its JSON form, with the state beside them.
pub fn learned_state(w: &Workspace) -> Value {
    fn walk(v: &Value, out: &mut Vec<Value>) {
        match v {
            Value::Object(m) => {
                if m.contains_key("weights") && m.contains_key("model_states") {
                    out.push(json!([m["weights"], m["model_states"], m.get("min_label"), m.get("max_label")]));
                    return;
                }
                m.values().for_each(|x| walk(x, out));
            }
            Value::Array(a) => a.iter().for_each(|x| walk(x, out)),
            _ => (),
        }
    }
    let mut out = vec![];
    walk(&json_form(w), &mut out);
    Value::Array(out)
}

/// The JSON form of a model; of one with numbers that JSON does not have, with null in their place.
pub fn json_form(w: &Workspace) -> Value {
    w.serialize_to_json().unwrap_or_else(|_| serde_json::to_value(w).unwrap_or_default())
}

/// A directory removed when dropped.
pub struct Scratch(PathBuf);
impl Scratch {
    pub fn path(&self) -> &Path {
        &self.0
    }
}
impl Drop for Scratch {
    fn drop(&mut self) {
        let _ = std::fs::remove_dir_all(&self.0);
    }
}

pub fn scratch() -> Scratch {
    static N: AtomicU64 = AtomicU64::new(0);
    let base = if Path::new("/dev/shm").is_dir() { PathBuf::from("/dev/shm") } else { std::env::temp_dir() };
    loop {
        let n = N.fetch_add(1, Ordering::Relaxed);
        let d = base.join(format!("verif-{}-{}", std::process::id(), n));
        match std::fs::create_dir(&d) {
            Ok(()) => return Scratch(d),
            Err(e) if e.kind() == std::io::ErrorKind::AlreadyExists => continue,
            Err(_) if base.starts_with("/dev/shm") => {
                let d = std::env::temp_dir().join(format!("verif-{}-{}", std::process::id(), n));
                let _ = std::fs::create_dir(&d);
                return Scratch(d);
            }
            Err(e) => panic!("scratch directory: {e}"),
        }
    }
}

pub struct Output {
    /// None: ended by a signal
    pub code: Option<i32>,
    pub timeout: bool,
    pub out: String,
    pub err: String,
}

pub const CLI_LIMIT: Duration = Duration::from_secs(60);

pub fn run(mut c: Command, limit: Duration) -> Result<Output, Fail> {
    c.stdin(Stdio::null()).stdout(Stdio::piped()).stderr(Stdio::piped());
    let mut ch = match c.spawn() {
        Ok(c) => c,
        Err(e) => panic!("cannot run {c:?}: {e}"),
    };
    let (mut o, mut e) = (ch.stdout.take().unwrap(), ch.stderr.take().unwrap());
    use std::io::Read;
    let to = std::thread::spawn(move || {
        let mut b = vec![];
        let _ = o.read_to_end(&mut b);
        b
    });
    let te = std::thread::spawn(move || {
        let mut b = vec![];
        let _ = e.read_to_end(&mut b);
        b
    });
    let t0 = Instant::now();
    let mut nap = 200u64;
    let st = loop {
        if let Some(s) = ch.try_wait().unwrap() {
            break Some(s);
        }
        if t0.elapsed() > limit {
            let _ = ch.kill();
            let _ = ch.wait();
            break None;
        }
        std::thread::sleep(Duration::from_micros(nap));
        nap = (nap * 3 / 2).min(10_000);
    };
    let out = String::from_utf8_lossy(&to.join().unwrap()).to_string();
    let err = String::from_utf8_lossy(&te.join().unwrap()).to_string();
    Ok(Output { code: st.and_then(|s| s.code()), timeout: st.is_none(), out, err })
}

pub fn reml_path() -> PathBuf {
    PathBuf::from(std::env::var("VERIF_REML").unwrap_or_else(|_| "/verif/harness/target/repo/debug/reml".into()))
}

pub fn reml_cmd(args: &[&str], cwd: &Path) -> Command {
    let mut c = Command::new(reml_path());
    c.args(args).current_dir(cwd).env("NO_COLOR", "1").env_remove("RUST_BACKTRACE");
    c
}

pub fn reml(args: &[&str], cwd: &Path) -> Result<Output, Fail> {
    let o = run(reml_cmd(args, cwd), CLI_LIMIT)?;
    if o.timeout {
        return fail("hang", format!("reml {args:?} has not ended after {CLI_LIMIT:?}"));
    }
    Ok(o)
}

/// Where two saved models differ, for messages.
pub fn model_difference(a: &[u8], b: &[u8]) -> String {
    fn walk(path: &str, a: &Value, b: &Value, out: &mut Vec<String>) {
        match (a, b) {
            (Value::Object(x), Value::Object(y)) if x.keys().eq(y.keys()) => {
                for (k, v) in x {
                    walk(&format!("{path}/{k}"), v, &y[k], out);
                }
            }
            (Value::Array(x), Value::Array(y)) if x.len() == y.len() => {
                for (i, v) in x.iter().enumerate() {
                    walk(&format!("{path}/{i}"), v, &y[i], out);
                }
            }
            _ if a == b => (),
            _ => out.push(format!("{path}: {a} and {b}").chars().take(200).collect()),
        }
    }
    let json = |m| Workspace::create_from_model(m).ok().and_then(|w| serde_json::to_value(&w).ok());
    match (json(a), json(b)) {
        (Some(x), Some(y)) => {
            let mut out = vec![];
            walk("", &x, &y, &mut out);
            let n = out.len();
            out.truncate(3);
            format!("{n} differences: {}", out.join("; "))
        }
        (x, y) => format!("readable: {} and {}", x.is_some(), y.is_some()),
    }
}

/// A saved model. Two are equal if they hold the same numbers: the sign of an undefined number (NaN) differs between
/// builds, and even between calls, of the same code.
#[derive(Clone, Debug)]
pub struct Saved(pub Vec<u8>);

impl Saved {
    pub fn of(w: &Workspace) -> Result<Saved, Fail> {
        w.serialize_model().map(Saved).map_err(|e| Fail { sig: "save-error".into(), msg: e.to_string() })
    }
    /// The same for equal models, of whatever build.
    pub fn digest(&self) -> String {
        let n = self.0.len();
        match self.numbers() {
            Some(v) if has_null(&v) => format!("{n} bytes, numbers with hash {:016x}", fnv(v.to_string().as_bytes())),
            _ => format!("{n} bytes with hash {:016x}", fnv(&self.0)),
        }
    }
    fn numbers(&self) -> Option<Value> {
        serde_json::to_value(Workspace::create_from_model(&self.0).ok()?).ok()
    }
}

fn has_null(v: &Value) -> bool {
    match v {
        Value::Null => true,
        Value::Array(a) => a.iter().any(has_null),
        Value::Object(m) => m.values().any(has_null),
        _ => false,
    }
}

impl PartialEq for Saved {
    fn eq(&self, other: &Saved) -> bool {
        self.0 == other.0
            || self.0.len() == other.0.len()
                && match (self.numbers(), other.numbers()) {
                    (Some(a), Some(b)) => has_null(&a) && a == b,
                    _ => false,
                }
    }
}
