//! cpparser sessions
use cpparser::{display::{CustomDisplay, DisplayState}, EntityKey, EntityParser};
use serde_json::{json, Value};
use unicode_width::UnicodeWidthStr;

/// A big session: names are read, then read again in the opposite order
pub fn big(case: &Value) -> Value {
    let mut p = EntityParser::new();
    let names: Vec<&str> = case["names"].as_array().unwrap().iter().map(|v| v.as_str().unwrap()).collect();
    let mut first = Vec::new();
    for (i, n) in names.iter().enumerate() {
        match crate::guarded(|| match p.parse_entity(n) {
            Ok(k) => {
                first.push(k);
                json!(null)
            }
            Err(e) => json!(format!("{:?}", e)),
        }) {
            Value::Null => {}
            e => return json!({"stopped": i, "why": e}),
        }
    }
    let mut again = Vec::new();
    for (i, n) in names.iter().enumerate().rev() {
        match crate::guarded(|| json!(p.parse_entity(n).map(|k| k == first[i]).unwrap_or(false))) {
            Value::Bool(true) => {}
            e => again.push(json!([i, e])),
        }
    }
    // Keys of neighbours, and of names far apart, are told apart
    let n = first.len();
    let same: Vec<usize> = (0..n).filter(|&i| [1, n / 2, n / 3].iter().any(|d| d % n != 0 && first[i] == first[(i + d) % n])).collect();
    let shown: Vec<String> = first.iter().map(|k| p.entity(*k).to_string()).collect();
    json!({"shown": shown, "again": again, "same": same})
}

/// Read names one after the other in one session
pub fn session(case: &Value) -> Value {
    let mut p = EntityParser::new();
    let mut keys: Vec<(usize, EntityKey)> = Vec::new();
    let mut steps = Vec::new();
    let widths: Vec<u16> = case["widths"].as_array().map(|a| a.iter().map(|v| v.as_u64().unwrap() as u16).collect()).unwrap_or_default();
    for (i, op) in case["names"].as_array().unwrap().iter().enumerate() {
        let s = op.as_str().unwrap();
        let r = crate::guarded(|| match p.parse_entity(s) {
            Ok(k) => {
                keys.push((i, k));
                let v = p.entity(k);
                let depth = v.recursion_depth();
                let levels: Vec<String> = (0..=(depth + 1)).map(|d| v.display(&DisplayState::new(d)).to_string()).collect();
                let bounded: Vec<Value> = widths.iter().map(|w| {
                    let b = v.bounded_display(*w);
                    json!([w, b, b.width()])
                }).collect();
                json!({"ok": v.to_string(), "depth": depth, "levels": levels, "lw": levels.iter().map(|l| l.width()).collect::<Vec<_>>(), "bounded": bounded})
            }
            Err(e) => json!({ "err": format!("{:?}", e) }),
        });
        steps.push(r);
    }
    // Everything again at the end
    let later: Vec<Value> = keys.iter().map(|(i, k)| json!([i, p.entity(*k).to_string()])).collect();
    let mut eq = Vec::new();
    for (i, k) in &keys {
        for (j, l) in &keys {
            if i < j && k == l {
                eq.push(json!([i, j]));
            }
            if (k == l) != (p.entity(*k) == p.entity(*l)) {
                eq.push(json!(["views disagree", i, j]));
            }
        }
    }
    json!({ "steps": steps, "later": later, "eq": eq })
}
