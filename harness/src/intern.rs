//! asylum: item, sequence and path interning
use asylum::{
    lasso::{Key, MicroSpur, MiniSpur, Spur},
    path::{PathInterner, PathKey},
    sequence::{SequenceInterner, SequenceKey},
    Interner, InternerKey,
};
use serde_json::{json, Value};
use std::collections::BTreeMap;
use std::fmt::Debug;
use std::hash::Hash;
use std::ops::Range;

fn ops(case: &Value) -> Vec<Value> {
    case["ops"].as_array().unwrap().clone()
}

/// Names for keys, in order of first appearance: equal names iff equal keys
struct Names<K: Eq + Copy>(Vec<K>);
impl<K: Eq + Copy> Names<K> {
    fn name(&mut self, k: K) -> usize {
        if let Some(p) = self.0.iter().position(|x| *x == k) {
            p
        } else {
            self.0.push(k);
            self.0.len() - 1
        }
    }
}

/// A small key that runs out quickly
#[derive(Clone, Copy, Debug, Eq, Hash, PartialEq)]
pub struct Tiny<const N: usize>(u8);
unsafe impl<const N: usize> Key for Tiny<N> {
    fn into_usize(self) -> usize {
        self.0 as usize
    }
    fn try_from_usize(x: usize) -> Option<Self> {
        (x < N).then_some(Self(x as u8))
    }
}

pub fn items(case: &Value) -> Value {
    match case["key"].as_str() {
        Some("tiny3") => items_impl::<Tiny<3>>(case),
        Some("micro") => items_impl::<MicroSpur>(case),
        _ => items_impl::<Spur>(case),
    }
}

fn items_impl<K: Key + Eq + Hash + Debug>(case: &Value) -> Value {
    let mut interner = Interner::<String, K>::new();
    let mut names = Names::<K>(Vec::new());
    let mut steps = Vec::new();
    for op in ops(case) {
        let item = op[1].as_str().unwrap().to_string();
        let r = crate::guarded(|| json!(names.name(interner.intern(item))));
        let table: Vec<Value> = names.0.iter().map(|k| json!(interner.get(*k))).collect();
        steps.push(json!({ "r": r, "len": interner.len(), "empty": interner.is_empty(), "table": table }));
    }
    let fin = interner.finalize();
    let table: Vec<Value> = names.0.iter().map(|k| json!(fin.get(*k))).collect();
    json!({ "steps": steps, "final": table })
}

pub fn sequences(case: &Value) -> Value {
    match case["key"].as_str() {
        // 3 bits of length (up to 7 items), offsets in the 5 bits left of a u8
        Some("small") => seq_impl::<SequenceKey<MicroSpur, 3>>(case),
        Some("tiny") => seq_impl::<SequenceKey<Tiny<24>, 2>>(case),
        _ => seq_impl::<SequenceKey<Spur, 8>>(case),
    }
}

fn seq_impl<K: InternerKey<ImplKey = Range<usize>> + Hash + Debug>(case: &Value) -> Value {
    let mut si = SequenceInterner::<u64, K>::new();
    let mut names = Names::<K>(Vec::new());
    let mut steps = Vec::new();
    let all = ops(case);
    let mut i = 0;
    let seq = |v: &Value| -> Vec<u64> {
        v.as_array().unwrap().iter().map(|x| x.as_u64().unwrap()).collect()
    };
    let mut dead = false;
    while i < all.len() {
        let op = &all[i];
        i += 1;
        let mut inner = Vec::new();
        let r = match op[0].as_str().unwrap() {
            "intern" => crate::guarded(|| json!(names.name(si.intern(&seq(&op[1]))))),
            // A transaction: the operations until commit/abandon are applied to one entry
            "begin" => crate::guarded(|| {
                let mut e = si.entry();
                loop {
                    let op = &all[i];
                    i += 1;
                    match op[0].as_str().unwrap() {
                        "push" => {
                            e.push(op[1].as_u64().unwrap());
                            inner.push(json!([null, e.len(), e.is_empty()]));
                        }
                        "pop" => {
                            let x = e.pop();
                            inner.push(json!([x, e.len(), e.is_empty()]));
                        }
                        "commit" => return json!(names.name(e.intern())),
                        "abandon" => {
                            drop(e);
                            return Value::Null;
                        }
                        other => panic!("bad case: {other}"),
                    }
                }
            }),
            other => panic!("bad case: {other}"),
        };
        dead |= r.is_object();
        let table: Vec<Value> = names.0.iter().map(|k| crate::guarded(|| json!(si.get(*k)))).collect();
        steps.push(json!({
            "r": r, "inner": inner, "len": si.len(), "empty": si.is_empty(), "items": si.num_items(),
            "max": crate::guarded(|| json!(si.max_sequence_len())), "table": table,
        }));
    }
    let fin = si.finalize();
    let table: Vec<Value> = names.0.iter().map(|k| crate::guarded(|| json!(fin.get(*k)))).collect();
    json!({ "steps": steps, "final": table, "panicked": dead })
}

pub fn paths(case: &Value) -> Value {
    let mut pi = PathInterner::<MiniSpur, PathKey<Spur, 8>>::new();
    let mut names = Names(Vec::new());
    let mut steps = Vec::new();
    for op in ops(case) {
        let path = op.as_str().unwrap();
        let r = crate::guarded(|| match pi.intern(path) {
            Ok(k) => json!(names.name(k)),
            Err(e) => json!([format!("{e:?}")]),
        });
        let mut comp_names: BTreeMap<String, String> = BTreeMap::new();
        let mut comp_clash = false;
        let table: Vec<Value> = names.0.iter().map(|k| {
            let p = pi.get(*k);
            let comps: Vec<String> = p.components().map(|c| c.value().to_string()).collect();
            let back: Vec<String> = {
                let mut v: Vec<String> = p.components().rev().map(|c| c.value().to_string()).collect();
                v.reverse();
                v
            };
            for c in p.components() {
                let k = format!("{:?}", c.key());
                comp_clash |= comp_names.insert(c.value().to_string(), k.clone()).is_some_and(|o| o != k);
            }
            json!([comps, p.to_string(), p.to_boxed_path().to_string_lossy(), back == comps])
        }).collect();
        let keys: std::collections::BTreeSet<&String> = comp_names.values().collect();
        comp_clash |= keys.len() != comp_names.len();
        steps.push(json!({
            "r": r, "len": pi.len(), "empty": pi.is_empty(), "comps": pi.num_components(),
            "uniq": pi.num_unique_components(), "max": pi.max_path_len(), "table": table, "clash": comp_clash,
        }));
    }
    let fin = pi.finalize();
    let table: Vec<Value> = names.0.iter().map(|k| json!(fin.get(*k).to_string())).collect();
    json!({ "steps": steps, "final": table })
}
