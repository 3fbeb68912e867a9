//! clang-time-trace: loading and argument decoding
use clang_time_trace::{
    ActivityArgument, ActivityTrace, ClangTrace, CustomDisplay, ParsedActivityArgument, Symbol,
};
use serde_json::{json, Value};
use std::collections::BTreeMap;
use std::str::FromStr;

fn source(case: &Value) -> String {
    match &case["trace"] {
        Value::String(s) => s.clone(),
        other => other.to_string(),
    }
}

/// Load a trace and report everything the public API says about it
pub fn load(case: &Value) -> Value {
    let text = source(case);
    let result = if let Some(path) = case["via_file"].as_str() {
        std::fs::write(path, &text).unwrap();
        match ClangTrace::from_file(path) {
            Ok(t) => Ok(t),
            Err(clang_time_trace::ClangTraceLoadError::Parse(e)) => Err(format!("{e:?}")),
            Err(e) => Err(format!("{e:?}")),
        }
    } else {
        ClangTrace::from_str(&text).map_err(|e| format!("{e:?}"))
    };
    match result {
        Err(e) => json!({ "err": e }),
        Ok(t) => {
            let light = case["light"].as_bool().unwrap_or(false);
            let ids = |it: &mut dyn Iterator<Item = usize>| it.collect::<Vec<_>>();
            let act = |a: ActivityTrace| {
                json!({
                    "id": a.id(),
                    "name": a.activity().name(),
                    "kind": format!("{:?}", a.activity().id()),
                    "detail": a.activity().raw_argument().detail().map(|d| d.to_string()),
                    "argty": format!("{:?}", a.activity().raw_argument().arg_type()),
                    "start": a.start(), "dur": a.duration(), "self": a.self_duration(), "end": a.end(),
                    "parent": a.parent().map(|p| p.id()),
                    "children": ids(&mut a.direct_children().map(|c| c.id())),
                    "all": ids(&mut a.all_children().map(|c| c.id())),
                    "again": t.activity_trace(a.id()).start(),
                })
            };
            let acts: Vec<Value> = if light {
                Vec::new()
            } else {
                t.all_activities().map(act).collect()
            };
            let stats: BTreeMap<String, Value> = t
                .global_stats()
                .iter()
                .map(|(k, v)| {
                    (
                        k.to_string(),
                        json!([v.total_duration(), v.count()]),
                    )
                })
                .collect();
            json!({"ok": {
                "process_name": t.process_name(), "pid": t.pid(), "thread_name": t.thread_name(),
                "bot": t.beginning_of_time(), "stats": stats, "acts": acts,
                "num": t.all_activities().count(),
                "roots": ids(&mut t.root_activities().map(|a| a.id())),
            }})
        }
    }
}

fn resolved(parsed: &ParsedActivityArgument, t: &ClangTrace) -> Value {
    match parsed.resolve(t) {
        ActivityArgument::Nothing => json!(["Nothing", null]),
        ActivityArgument::String(s) => json!(["String", s]),
        ActivityArgument::FilePath(p) => json!(["FilePath", p.to_string()]),
        ActivityArgument::CppEntity(e) => json!(["CppEntity", e.to_string(), e.bounded_display(1)]),
        ActivityArgument::Symbol(Symbol::Parsed(e)) => json!(["SymbolParsed", e.to_string()]),
        ActivityArgument::Symbol(Symbol::Demangled(s)) => json!(["SymbolDemangled", s]),
        ActivityArgument::Symbol(Symbol::MaybeMangled(s)) => json!(["SymbolMaybeMangled", s]),
        ActivityArgument::UnnamedLoop => json!(["UnnamedLoop", null]),
        ActivityArgument::Module => json!(["Module", null]),
    }
}

/// Load a trace, then decode arguments in the requested order, resolving
/// everything decoded so far at the end
pub fn args(case: &Value) -> Value {
    let mut t = match ClangTrace::from_str(&source(case)) {
        Ok(t) => t,
        Err(e) => return json!({ "err": format!("{e:?}") }),
    };
    let order: Vec<usize> = case["order"]
        .as_array()
        .unwrap()
        .iter()
        .map(|v| v.as_u64().unwrap() as usize)
        .collect();
    let mut parsed = Vec::new();
    let mut immediate = Vec::new();
    for &id in &order {
        let raw = t.activity_trace(id).activity().raw_argument().clone();
        let res = crate::guarded(|| match raw.parse(&mut t) {
            Ok(p) => {
                let now = resolved(&p, &t);
                parsed.push((immediate.len(), p));
                now
            }
            Err(e) => json!(["Error", format!("{e:?}")]),
        });
        immediate.push(res);
    }
    let mut last: Vec<Value> = immediate.clone();
    for (i, p) in &parsed {
        last[*i] = resolved(p, &t);
    }
    let acts: Vec<Value> = t
        .all_activities()
        .map(|a| {
            json!([a.activity().name(), format!("{:?}", a.activity().id()),
                   format!("{:?}", a.activity().raw_argument().arg_type()),
                   a.activity().raw_argument().detail().map(|d| d.to_string())])
        })
        .collect();
    // Equality classes of decoded arguments
    let mut eq = Vec::new();
    for (i, p) in &parsed {
        for (j, q) in &parsed {
            if i < j && p == q {
                eq.push(json!([i, j]));
            }
        }
    }
    json!({ "ok": { "acts": acts, "now": immediate, "later": last, "eq": eq } })
}
