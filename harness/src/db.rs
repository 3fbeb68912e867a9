//! cmakeperf: compilation databases, freshness, profiles
use cmakeperf::{
    commands::{CompilationDatabase, DatabaseEntry, ProductFreshness},
    output::{self, UnitProfile},
};
use serde_json::{json, Value};
use std::path::Path;
use std::str::FromStr;

fn entry(e: &DatabaseEntry) -> Value {
    json!({
        "dir": e.current_dir().to_string_lossy(), "program": e.program().map(|p| p.as_ref().to_string()),
        "args": e.args().map(|a| a.as_ref().to_string()).collect::<Vec<_>>(),
        "input": e.input().to_string_lossy(), "output": e.output().map(|p| p.to_string_lossy().into_owned()),
        "raw": e.raw_command(),
    })
}

pub fn database(case: &Value) -> Value {
    let text = match &case["db"] {
        Value::String(s) => s.clone(),
        v => v.to_string(),
    };
    let loaded = if let Some(dir) = case["via_dir"].as_str() {
        std::env::set_current_dir(dir).unwrap();
        if case["missing"].as_bool().unwrap_or(false) {
            let _ = std::fs::remove_file("compile_commands.json");
        } else {
            std::fs::write("compile_commands.json", &text).unwrap();
        }
        CompilationDatabase::load().map_err(|e| format!("{e:?}"))
    } else {
        CompilationDatabase::from_str(&text).map_err(|e| format!("{e:?}"))
    };
    match loaded {
        Err(e) => json!({ "err": e }),
        Ok(mut db) => {
            for op in case["ops"].as_array().into_iter().flatten() {
                match &op["push"] {
                    Value::Null => db.clear(),
                    e => db.push(DatabaseEntry::from_str(&e.to_string()).unwrap()),
                }
            }
            let mut all: Vec<Value> = db.entries().map(entry).collect();
            all.sort_by_key(|v| v.to_string());
            let lookups: Vec<Value> = case["lookup"].as_array().unwrap().iter().map(|p| {
                db.entry(Path::new(p.as_str().unwrap())).map(entry).unwrap_or(Value::Null)
            }).collect();
            json!({"ok": { "entries": all, "lookup": lookups }})
        }
    }
}

fn fresh(f: std::io::Result<ProductFreshness>) -> Value {
    match f {
        Ok(ProductFreshness::Nonexistent) => json!(["Nonexistent", false]),
        Ok(ProductFreshness::Outdated) => json!(["Outdated", true]),
        Ok(p @ ProductFreshness::MaybeOutdated(d)) => {
            json!(["MaybeOutdated", p.exists(), d.map(|d| d.as_secs_f64())])
        }
        Err(e) => json!(["Error", format!("{:?}", e.kind())]),
    }
}

/// cwd = case.dir; query freshness of the profile and of per-entry derived files
pub fn freshness(case: &Value) -> Value {
    std::env::set_current_dir(case["dir"].as_str().unwrap()).unwrap();
    let db = CompilationDatabase::from_entries(case["inputs"].as_array().unwrap().iter().map(|i| {
        DatabaseEntry::new(Path::new("/"), "cc", Path::new(i.as_str().unwrap()), None)
    }));
    let profile = fresh(db.profile_freshness(Path::new(case["profile"].as_str().unwrap())));
    let derived: Vec<Value> = case["inputs"].as_array().unwrap().iter().map(|i| {
        fresh(db.entry(Path::new(i.as_str().unwrap())).unwrap().derived_freshness(Path::new(case["derived"].as_str().unwrap())))
    }).collect();
    json!({ "profile": profile, "derived": derived })
}

pub fn profile(case: &Value) -> Value {
    let path = case["path"].as_str().unwrap();
    if let Some(units) = case["write"].as_array() {
        // Written the way the measurement does, with the same CSV library
        let mut out = csv::Writer::from_path(path).unwrap();
        for u in units {
            let wall = u[2].as_f64().map(std::time::Duration::from_secs_f64);
            out.serialize(UnitProfile::new(Path::new(u[0].as_str().unwrap()), u[1].as_u64().unwrap(), wall)).unwrap();
        }
        out.flush().unwrap();
    }
    if let Some(text) = case["text"].as_str() {
        std::fs::write(path, text).unwrap();
    }
    match output::load(path) {
        Ok(profile) => {
            let rows: Vec<Value> = profile.iter().map(|u| {
                let time = match u.wall_time() {
                    None => Value::Null,
                    Some(Ok(d)) => json!(d.as_secs_f64()),
                    Some(Err(x)) => json!([format!("{x}")]),
                };
                json!([u.rel_path().to_string_lossy(), u.max_rss_bytes(), time])
            }).collect();
            json!({ "ok": rows })
        }
        Err(e) => json!({ "err": format!("{e:?}") }),
    }
}
