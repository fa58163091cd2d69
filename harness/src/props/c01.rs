//! C01: documents round-trip through the encoder, however it is finished and decoded.

use crate::doc::*;
use crate::engine::*;
use crate::gen::spaces;
use fleece::{Array, Dict, Encoder, Value};

pub fn scenarios(t: Tier) -> Vec<Scenario> {
    spaces(t)
        .into_iter()
        .map(|sp| {
            let make = sp.make.clone();
            scen(sp.name, sp.bounds, sp.split, move |cx| {
                let d = make(cx);
                round_trip(cx, &d);
            })
        })
        .collect()
}

pub fn round_trip(cx: &mut Cx, d: &Doc) {
    cx.note(|| format!("document {}", d.show()));
    let bytes = cx.call("encode", || encode(d));
    let bytes = cx.want("encode", bytes);
    cx.note(|| format!("bytes {}", hex(&bytes)));
    cx.ops(1);
    cx.outcome(hash_bytes(&bytes));
    // every decoding entry point
    let r = cx.call("from_bytes", || -> Result<(), String> {
        let v = Value::from_bytes(&bytes).map_err(|e| format!("from_bytes refused the document: {e:?}"))?;
        verify(v, d, Keys::Plain)?;
        let u = unsafe { Value::from_bytes_unchecked(&bytes) };
        if !std::ptr::addr_eq(u, v) {
            verify(u, d, Keys::Plain).map_err(|e| format!("from_bytes_unchecked: {e}"))?;
        }
        match d {
            Doc::Arr(xs) => {
                let a = Array::from_bytes(&bytes).map_err(|e| format!("Array::from_bytes: {e:?}"))?;
                verify_array(a, xs, Keys::Plain, &mut "Array$".into())?;
                let a = Array::clone_from_bytes(&bytes).map_err(|e| format!("Array::clone_from_bytes: {e:?}"))?;
                verify_array(&a, xs, Keys::Plain, &mut "AllocedArray$".into())?;
                if Dict::from_bytes(&bytes).is_ok() || Dict::clone_from_bytes(&bytes).is_ok() {
                    return Err("Dict::from_bytes accepted an array".into());
                }
            }
            Doc::Dict(xs) => {
                let a = Dict::from_bytes(&bytes).map_err(|e| format!("Dict::from_bytes: {e:?}"))?;
                verify_dict(a, xs, Keys::Plain, &mut "Dict$".into())?;
                let a = Dict::clone_from_bytes(&bytes).map_err(|e| format!("Dict::clone_from_bytes: {e:?}"))?;
                verify_dict(&a, xs, Keys::Plain, &mut "AllocedDict$".into())?;
                if Array::from_bytes(&bytes).is_ok() || Array::clone_from_bytes(&bytes).is_ok() {
                    return Err("Array::from_bytes accepted a dict".into());
                }
            }
            _ => {}
        }
        Ok(())
    });
    cx.want("decode", r);
    let r = cx.call("clone_from_bytes", || -> Result<(), String> {
        let v = Value::clone_from_bytes(&bytes).map_err(|e| format!("clone_from_bytes refused: {e:?}"))?;
        verify(&v, d, Keys::Plain)?;
        let v = unsafe { Value::clone_from_bytes_unchecked(&bytes) };
        verify(&v, d, Keys::Plain)
    });
    cx.want("clone_from_bytes", r);
    // every way of finishing
    let r = cx.call("finish_value", || -> Result<(), String> {
        let mut e = Encoder::new();
        emit(&mut e, d)?;
        let v = e.finish_value();
        verify(&v, d, Keys::Plain)?;
        match d {
            Doc::Arr(xs) => {
                if v.clone().to_dict().is_some() {
                    return Err("to_dict on an array".into());
                }
                let a = v.to_array().ok_or("to_array")?;
                verify_array(&a, xs, Keys::Plain, &mut "to_array$".into())
            }
            Doc::Dict(xs) => {
                if v.clone().to_array().is_some() {
                    return Err("to_array on a dict".into());
                }
                let a = v.to_dict().ok_or("to_dict")?;
                verify_dict(&a, xs, Keys::Plain, &mut "to_dict$".into())
            }
            _ => Ok(()),
        }
    });
    cx.want("finish_value", r);
    let r = cx.call("finish_scoped", || -> Result<(), String> {
        let mut e = Encoder::new();
        emit(&mut e, d)?;
        let sc = e.finish_scoped();
        let data = sc.data().ok_or("scope without data")?;
        if data[..] != bytes[..] {
            return Err(format!("finish_scoped holds {} instead of {}", hex(&data), hex(&bytes)));
        }
        let v = sc.root().ok_or("scope without root")?;
        let r = verify(&v, d, Keys::Plain);
        sc.remove();
        r
    });
    cx.want("finish_scoped", r);
    let r = cx.call("new_to_vec", || -> Result<(), String> {
        let mut e = Encoder::new_to_vec(Vec::with_capacity(8));
        emit(&mut e, d)?;
        let b = e.finish();
        if b != bytes {
            return Err(format!("new_to_vec gives {} instead of {}", hex(&b), hex(&bytes)));
        }
        Ok(())
    });
    cx.want("new_to_vec", r);
    // a caller that reads every text into one buffer
    let r = cx.call("one buffer", || -> Result<(), String> {
        let mut e = Encoder::new();
        emit_from(&mut e, d, &mut Vec::with_capacity(room(d)))?;
        let b = e.finish();
        let v = Value::from_bytes(&b).map_err(|e| format!("from_bytes refused the document: {e:?}"))?;
        verify(v, d, Keys::Plain)
    });
    cx.want("one buffer", r);
}
