//! A small JSON Schema (draft 7) evaluator: the keywords a generated configuration schema may use.
use serde_json::Value;

pub fn valid(root: &Value, schema: &Value, v: &Value) -> Result<(), String> {
    let s = match schema {
        Value::Bool(true) => return Ok(()),
        Value::Bool(false) => return Err("nothing is allowed here".into()),
        Value::Object(m) => m,
        _ => return Err("a schema must be an object".into()),
    };
    if let Some(r) = s.get("$ref").and_then(|r| r.as_str()) {
        let t = root
            .pointer(r.trim_start_matches('#'))
            .ok_or_else(|| format!("unresolved reference {r}"))?;
        // siblings of a reference are ignored in draft 7
        return valid(root, t, v);
    }
    if let Some(t) = s.get("type") {
        let names: Vec<&str> = match t {
            Value::String(x) => vec![x],
            Value::Array(xs) => xs.iter().filter_map(|x| x.as_str()).collect(),
            _ => vec![],
        };
        let is = |n: &str| match n {
            "null" => v.is_null(),
            "boolean" => v.is_boolean(),
            "object" => v.is_object(),
            "array" => v.is_array(),
            "string" => v.is_string(),
            "number" => v.is_number(),
            "integer" => v.is_i64() || v.is_u64() || v.as_f64().map_or(false, |f| f.fract() == 0.0),
            _ => false,
        };
        if !names.iter().any(|n| is(n)) {
            return Err(format!("{v} is not of type {t}"));
        }
    }
    if let Some(e) = s.get("enum").and_then(|e| e.as_array()) {
        if !e.contains(v) {
            return Err(format!("{v} is none of {e:?}"));
        }
    }
    if let Some(k) = s.get("const") {
        if k != v {
            return Err(format!("{v} is not {k}"));
        }
    }
    if let Some(x) = v.as_f64() {
        let lim = |k: &str| s.get(k).and_then(|l| l.as_f64());
        if lim("minimum").map_or(false, |l| x < l)
            || lim("maximum").map_or(false, |l| x > l)
            || lim("exclusiveMinimum").map_or(false, |l| x <= l)
            || lim("exclusiveMaximum").map_or(false, |l| x >= l)
        {
            return Err(format!("{x} is out of range"));
        }
    }
    if let Some(x) = v.as_str() {
        let n = x.chars().count() as u64;
        let lim = |k: &str| s.get(k).and_then(|l| l.as_u64());
        if lim("minLength").map_or(false, |l| n < l) || lim("maxLength").map_or(false, |l| n > l) {
            return Err(format!("{x:?} has a wrong length"));
        }
    }
    if let Some(x) = v.as_array() {
        let n = x.len() as u64;
        let lim = |k: &str| s.get(k).and_then(|l| l.as_u64());
        if lim("minItems").map_or(false, |l| n < l) || lim("maxItems").map_or(false, |l| n > l) {
            return Err(format!("{n} elements"));
        }
        match s.get("items") {
            Some(Value::Array(ts)) => {
                for (i, e) in x.iter().enumerate() {
                    match ts.get(i).or(s.get("additionalItems")) {
                        Some(t) => valid(root, t, e)?,
                        None => (),
                    }
                }
            }
            Some(t) => {
                for e in x {
                    valid(root, t, e)?;
                }
            }
            None => (),
        }
    }
    if let Some(x) = v.as_object() {
        for r in s.get("required").and_then(|r| r.as_array()).into_iter().flatten() {
            if !x.contains_key(r.as_str().unwrap_or("")) {
                return Err(format!("{r} is missing"));
            }
        }
        let props = s.get("properties").and_then(|p| p.as_object());
        for (k, e) in x {
            match props.and_then(|p| p.get(k)) {
                Some(t) => valid(root, t, e).map_err(|m| format!("{k}: {m}"))?,
                None => {
                    if let Some(t) = s.get("additionalProperties") {
                        valid(root, t, e).map_err(|m| format!("unknown key {k}: {m}"))?;
                    }
                }
            }
        }
    }
    let each = |k: &str| s.get(k).and_then(|a| a.as_array()).cloned();
    if let Some(a) = each("allOf") {
        for t in &a {
            valid(root, t, v)?;
        }
    }
    if let Some(a) = each("anyOf") {
        if !a.iter().any(|t| valid(root, t, v).is_ok()) {
            return Err(format!("{v} matches no alternative"));
        }
    }
    if let Some(a) = each("oneOf") {
        let r: Vec<_> = a.iter().map(|t| valid(root, t, v)).collect();
        let n = r.iter().filter(|x| x.is_ok()).count();
        if n != 1 {
            return Err(format!("{v} matches {n} alternatives"));
        }
    }
    if let Some(t) = s.get("not") {
        if valid(root, t, v).is_ok() {
            return Err("excluded".into());
        }
    }
    Ok(())
}
