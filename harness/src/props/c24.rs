//! C24: the `fleece!` macro builds the document it spells.

use crate::doc::*;
use crate::engine::*;
use fleece::alloced::{AllocedArray, AllocedDict};

#[path = "c24_cases.rs"]
mod cases;

pub struct Case {
    text: &'static str,
    json: &'static str,
    got: Got,
}
enum Got {
    A(AllocedArray),
    D(AllocedDict),
}
fn a(v: AllocedArray, text: &'static str, json: &'static str) -> Case {
    Case { text, json, got: Got::A(v) }
}
fn d(v: AllocedDict, text: &'static str, json: &'static str) -> Case {
    Case { text, json, got: Got::D(v) }
}

fn doc(j: &serde_json::Value) -> Doc {
    use serde_json::Value as J;
    match j {
        J::Null => Doc::Null,
        J::Bool(b) => Doc::Bool(*b),
        J::Number(n) => match n.as_i64() {
            Some(x) => i(x.into()),
            None => f64d(n.as_f64().unwrap()),
        },
        J::String(x) => s(x),
        J::Array(v) => Doc::Arr(v.iter().map(doc).collect()),
        J::Object(m) => Doc::Dict(m.iter().map(|(k, v)| (k.clone(), doc(v))).collect()),
    }
}

pub fn scenarios(_: Tier) -> Vec<Scenario> {
    vec![scen(
        "invocations",
        format!("{} invocations: every nesting of arrays and dicts of up to 4 values below the root, every kind of value (literals, variables, expressions, an empty option) in every place, depth up to 12, 5 to 40 elements, trailing commas", cases::COUNT),
        1,
        |cx| {
            let k = cx.choose(cases::COUNT);
            let c = cx.call("fleece!", || cases::case(k));
            cx.note(|| c.text.to_string());
            let want = doc(&serde_json::from_str(c.json).expect("ENGINE: json"));
            let r = cx.call("reading", || {
                let mut at = String::from("$");
                match (&c.got, &want) {
                    (Got::A(x), Doc::Arr(w)) => {
                        let copy = x.clone();
                        verify_array(x, w, Keys::Plain, &mut at)?;
                        verify_array(&copy, w, Keys::Plain, &mut at)
                    }
                    (Got::D(x), Doc::Dict(w)) => {
                        let copy = x.clone();
                        verify_dict(x, w, Keys::Plain, &mut at)?;
                        verify_dict(&copy, w, Keys::Plain, &mut at)
                    }
                    _ => Err("another kind of collection".to_string()),
                }
            });
            cx.want("document", r.map_err(|e| format!("fleece!{}: {e}", c.text)));
            cx.outcome(hash_bytes(want.show().as_bytes()));
        },
    )]
}
