//! C04: encoder output conforms to the wire format, judged by an independent decoder.

use crate::doc::*;
use crate::engine::*;
use crate::gen::spaces;
use crate::refcodec::{self, Ref, Strict};
use fleece::{Encoder, SharedKeys, Value};

const STRICT: Strict = Strict { sorted: true, even: true };

fn judge(bytes: &[u8], d: &Doc, sk: &dyn Fn(u16) -> Option<String>) -> Result<(), String> {
    match refcodec::decode(bytes, sk, STRICT) {
        Ref::Ok(g) => {
            if g.canon() == d.canon() {
                Ok(())
            } else {
                Err(format!("the format reads it as {}, written was {}; {}", g.show(), d.show(), hex(bytes)))
            }
        }
        Ref::Bad(why) => Err(format!("not a well-formed document ({why}), written was {}; {}", d.show(), hex(bytes))),
    }
}

pub fn conforms(cx: &mut Cx, d: &Doc) {
    cx.note(|| format!("document {}", d.show()));
    cx.cases(1);
    let b = cx.call("encode", || encode(d));
    let b = cx.want("encode", b);
    cx.note(|| format!("bytes {}", hex(&b)));
    cx.outcome(hash_bytes(&b));
    let r = judge(&b, d, &refcodec::no_sk);
    cx.want("format", r);
}

pub fn conforms_shared(cx: &mut Cx, d: &Doc, pre: &[&str]) {
    cx.note(|| format!("shared keys (preloaded {pre:?}), document {}", d.show()));
    cx.cases(1);
    let r = cx.call("encode with shared keys", || -> Result<Vec<u8>, String> {
        let mut sk = SharedKeys::new();
        for k in pre {
            sk.encode_and_insert(k);
        }
        let mut e = Encoder::new();
        e.set_shared_keys(sk);
        emit(&mut e, d)?;
        let sc = e.finish_scoped();
        let data = sc.data().ok_or("no data")?;
        let sk = sc.shared_keys().ok_or("no shared keys")?.clone();
        sc.remove();
        judge(&data, d, &|k| sk.decode(k).map(str::to_string))?;
        Ok(data.to_vec())
    });
    let b = cx.want("format", r);
    cx.outcome(hash_bytes(&b));
    cx.note(|| format!("bytes {}", hex(&b)));
}

fn golden(cx: &mut Cx, name: &str) {
    cx.note(|| format!("golden file {name}"));
    let b = std::fs::read(format!("/repo/{name}")).expect("ENGINE: golden file");
    let Ref::Ok(d) = refcodec::decode(&b, &refcodec::no_sk, Strict::default()) else {
        panic!("ENGINE: the reference decoder refuses {name}")
    };
    let r = cx.call("golden", || -> Result<(), String> {
        let v = Value::from_bytes(&b).map_err(|e| format!("{name} refused: {e:?}"))?;
        verify(v, &d, Keys::Plain).map_err(|e| format!("{name}: {e}"))?;
        let mut e = Encoder::new();
        e.write_fleece(v).map_err(|e| format!("{name}: write_fleece {e:?}"))?;
        let c = e.finish();
        judge(&c, &d, &refcodec::no_sk).map_err(|e| format!("copy of {name}: {e}"))
    });
    cx.want("golden", r);
    cx.cases(1);
    if name == "1person.fleece" {
        // the encoder reproduces it byte for byte from its content
        let r = cx.call("golden bytes", || -> Result<(), String> {
            let c = encode(&d)?;
            if c != b {
                return Err(format!("encoding the person gives {} instead of {}", hex(&c), hex(&b)));
            }
            Ok(())
        });
        cx.want("golden bytes", r);
    }
}

pub fn scenarios(t: Tier) -> Vec<Scenario> {
    let mut v: Vec<Scenario> = spaces(t)
        .into_iter()
        .map(|sp| {
            let make = sp.make.clone();
            scen(sp.name, sp.bounds, sp.split, move |cx| {
                let d = make(cx);
                conforms(cx, &d);
            })
        })
        .collect();
    for sp in spaces(t) {
        if matches!(sp.name, "leaf-pairs" | "counts" | "key-orders" | "shapes" | "characters") {
            let make = sp.make.clone();
            v.push(scen(
                format!("{}, shared keys", sp.name),
                format!("{}; x 2 initial shared key tables", sp.bounds),
                sp.split,
                move |cx| {
                    let d = make(cx);
                    let pre: &[&str] = if cx.flag() { &["zz", "b", "ab", "k00007"] } else { &[] };
                    conforms_shared(cx, &d, pre);
                },
            ));
        }
    }
    let w = super::c03::windows(t);
    v.push(scen(
        "distance",
        format!("{} document shapes x {} filler sizes", super::c03::FILL.len(), w.len()),
        2,
        move |cx| {
            let n = *cx.pick(&w);
            let (_, f) = *cx.pick(&super::c03::FILL);
            conforms(cx, &f(n));
        },
    ));
    v.push(scen("golden files", "the two golden files of the project", 0, |cx| {
        let n = *cx.pick(&["1person.fleece", "1000people.fleece"]);
        golden(cx, n);
    }));
    v
}
