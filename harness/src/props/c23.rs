//! C23: saved shared-key state restores the same mapping.

use crate::doc::*;
use crate::engine::*;
use crate::props::c05::Dev;
use crate::props::c11::{add, eligible, insert, key, verify as check_table, FAMS, POOL};
use crate::refcodec::{self, encode_styled, Ref, Strict};
use fleece::{Encoder, Scope, SharedKeys, Value};

const MORE: [&str; 4] = ["zz", "more", "a", "sixteen_bytes_xx"];

/// A restored table: the same mapping, which goes on where the original stopped.
fn restored(r: Option<SharedKeys>, m: &[String], how: &str) -> Result<(), String> {
    let mut sk = r.ok_or_else(|| format!("{how}: the state was refused"))?;
    check_table(&sk, m, &POOL, true).map_err(|e| format!("{how}: {e}"))?;
    let mut m = m.to_vec();
    for k in MORE {
        add(&mut sk, &mut m, k).map_err(|e| format!("{how}, going on: {e}"))?;
    }
    check_table(&sk, &m, &POOL, true).map_err(|e| format!("{how}, going on: {e}"))
}

fn st<T>(r: Result<T, fleece::encoder::EncodeError>) -> Result<T, String> {
    r.map_err(|x| format!("{x:?}"))
}

/// Save and restore `sk`, whose mapping is `m`, in every way there is.
fn round(sk: &SharedKeys, m: &[String]) -> Result<(), String> {
    let b = sk.get_state_bytes();
    restored(SharedKeys::from_state_bytes(&b), m, "bytes")?;
    let want = Doc::Arr(m.iter().map(|k| s(k)).collect());
    match refcodec::decode(&b, &refcodec::no_sk, Strict { sorted: true, even: true }) {
        Ref::Ok(d) if d == want => {}
        Ref::Ok(d) => return Err(format!("the state is {} instead of the list of keys", d.show())),
        Ref::Bad(_) => return Err("the state is not a well-formed document".into()),
    }
    let v = Value::from_bytes(&b).map_err(|e| format!("the state bytes are refused: {e:?}"))?;
    restored(SharedKeys::from_state_value(v), m, "value")?;
    // again, from what was restored
    let b2 = SharedKeys::from_state_bytes(&b).map(|x| x.get_state_bytes());
    if b2.as_deref() != Some(&*b) {
        return Err("saving what was restored gives another state".into());
    }
    // written into a document
    for place in 0..4 {
        let mut e = if place == 3 { Encoder::new_to_vec(vec![]) } else { Encoder::new() };
        if place == 2 {
            e.set_shared_keys(sk.clone());
        }
        let how = format!("in a document, place {place}");
        match place {
            0 => sk.write_state(&mut e).ok_or("write_state fails")?,
            1 | 3 => {
                st(e.begin_array(1))?;
                st(e.write_value("before"))?;
                sk.write_state(&mut e).ok_or("write_state fails in an array")?;
                st(e.write_value("after"))?;
                st(e.end_array())?;
            }
            _ => {
                st(e.begin_dict())?;
                st(e.write_key("keys"))?;
                sk.write_state(&mut e).ok_or("write_state fails in a dict")?;
                st(e.write_key("after"))?;
                st(e.write_value(1))?;
                st(e.end_dict())?;
            }
        }
        let sc = e.finish_scoped();
        let r = (|| {
            let root = sc.root().ok_or("no root")?;
            let v: &Value = match place {
                0 => &root,
                1 | 3 => {
                    let a = root.as_array().ok_or("no array")?;
                    verify(&root, &Doc::Arr(vec![s("before"), want.clone(), s("after")]), Keys::Plain)?;
                    &a[1]
                }
                _ => {
                    let a = root.as_dict().ok_or("no dict")?;
                    a.get("keys").ok_or("no key")?
                }
            };
            restored(SharedKeys::from_state_value(v), m, &how)
        })();
        sc.remove();
        r?;
    }
    check_table(sk, m, &POOL, true).map_err(|e| format!("the table changed: {e}"))
}

/// What a state document means.
fn meaning(d: &Doc) -> Option<Vec<String>> {
    let Doc::Arr(xs) = d else { return None };
    let mut m: Vec<String> = vec![];
    for x in xs {
        let Doc::Str(k) = x else { return None };
        if m.contains(k) || !eligible(k) {
            return None;
        }
        insert(&mut m, k)?;
    }
    Some(m)
}

fn judge(v: &Value, d: &Doc) -> Result<(), String> {
    match (meaning(d), SharedKeys::from_state_value(v)) {
        (None, None) => Ok(()),
        (None, Some(sk)) => Err(format!("accepted {} as a table of {}", d.show(), sk.len())),
        (Some(m), r) => restored(r, &m, &d.show()),
    }
}

/// State bytes of any kind.
fn state_bytes(b: &[u8]) -> Result<(), String> {
    let r = SharedKeys::from_state_bytes(b);
    let d = match refcodec::decode(b, &refcodec::no_sk, Strict::default()) {
        Ref::Ok(d) => d,
        // not well-formed: if the decoder takes it all the same, then what it reads counts
        Ref::Bad(_) => match Value::from_bytes(b) {
            Ok(v) => read(v),
            Err(_) if r.is_some() => return Err(format!("accepted the undecodable state {}", hex(b))),
            Err(_) => return Ok(()),
        },
    };
    match (meaning(&d), r) {
        (None, None) => Ok(()),
        (None, Some(sk)) => Err(format!("accepted {} as a table of {}", d.show(), sk.len())),
        (Some(m), r) => restored(r, &m, &d.show()),
    }
}

/// Entries of state documents: eligible keys, other strings, other kinds.
fn entries() -> Vec<Doc> {
    vec![
        s("a"),
        s("b"),
        s("sixteen_bytes_ab"),
        s(""),
        s("é"),
        s("sixteen_bytes_abc"),
        s("a b"),
        s("a\0"),
        i(1),
        Doc::Data(b"a".to_vec()),
        Doc::Null,
        Doc::Undef,
        Doc::Bool(true),
        f64d(1.0),
        Doc::Arr(vec![]),
        Doc::Arr(vec![s("a")]),
        dict(vec![]),
        dict(vec![("a", i(1))]),
    ]
}

pub fn scenarios(t: Tier) -> Vec<Scenario> {
    let mut v = vec![];
    let depth = t.sel(5usize, 6);
    v.push(scen("tables", format!("every table made by up to {depth} insertions of {} keys; saved as bytes, as value and inside documents, restored, continued", POOL.len()), 2, move |cx| {
        let n = cx.choose(depth + 1);
        let mut keys: Vec<&str> = vec![];
        let free: Vec<&str> = POOL.iter().copied().filter(|k| eligible(k)).collect();
        for _ in 0..n {
            let f: Vec<&str> = free.iter().copied().filter(|k| !keys.contains(k)).collect();
            keys.push(f[cx.choose(f.len())]);
        }
        cx.cases(1);
        cx.note(|| format!("{keys:?}"));
        let r = cx.call("save and restore", || -> Result<(), String> {
            let mut sk = SharedKeys::new();
            let mut m = vec![];
            for k in &keys {
                add(&mut sk, &mut m, k)?;
            }
            round(&sk, &m)
        });
        cx.want("state", r);
    }));
    v.push(scen("sizes", format!("{FAMS} families of keys, every table size up to 130 and around the powers of two up to the full 2048, also cloned tables"), 2, |cx| {
        let fam = cx.choose(FAMS);
        let mut sizes: Vec<usize> = (0..130).collect();
        for p in [256usize, 512, 1024, 2000] {
            sizes.extend(p - 1..=p + 1);
        }
        sizes.extend(2043..=2048);
        let n = *cx.pick(&sizes);
        let clone = cx.flag();
        cx.cases(1);
        cx.note(|| format!("family {fam}, {n} keys, clone {clone}"));
        let r = cx.call("save and restore", || -> Result<(), String> {
            let mut sk = SharedKeys::new();
            let mut m = vec![];
            for k in 0..n {
                add(&mut sk, &mut m, &key(fam, k))?;
            }
            if clone { round(&sk.clone(), &m) } else { round(&sk, &m) }
        });
        cx.want("state", r);
    }));
    let depth = t.sel(4usize, 5);
    v.push(scen("state documents", format!("every list of up to {depth} of {} entries (eligible keys, ineligible strings, other kinds), and every entry as the whole state; written by the encoder, as bytes and as value", entries().len()), 2, move |cx| {
        let all = entries();
        let whole = cx.flag();
        let d = if whole {
            cx.pick(&all).clone()
        } else {
            let n = cx.choose(depth + 1);
            Doc::Arr((0..n).map(|_| cx.pick(&all).clone()).collect())
        };
        cx.cases(1);
        cx.note(|| d.show());
        cx.outcome(u64::from(meaning(&d).is_some()));
        let r = cx.call("from_state", || -> Result<(), String> {
            if d.is_collection() {
                state_bytes(&encode(&d)?)?;
            } else {
                state_bytes(&encode_styled(&d, &mut refcodec::Plain, &refcodec::no_sk_enc))?;
            }
            let b = encode(&Doc::Arr(vec![i(0), d.clone()]))?;
            judge(&fleece::Array::from_bytes(&b).map_err(|e| format!("{e:?}"))?[1], &d)
        });
        cx.want("state", r);
    }));
    let dev = t.sel(3usize, 4);
    v.push(scen("state styles", format!("6 state documents in every legal encoding with up to {dev} deviations from the plain style"), 2, move |cx| {
        let docs = [
            Doc::Arr(vec![]),
            Doc::Arr(vec![s("a")]),
            Doc::Arr(vec![s("ab"), s("c")]),
            Doc::Arr(vec![s("a"), s("a")]),
            Doc::Arr(vec![s("sixteen_bytes_ab"), s("é"), s("")]),
            dict(vec![("a", i(0))]),
        ];
        let d = cx.pick(&docs).clone();
        let mut x = Dev { cx, left: dev, log: vec![] };
        let b = encode_styled(&d, &mut x, &refcodec::no_sk_enc);
        cx.cases(1);
        cx.note(|| format!("{} as {}", d.show(), hex(&b)));
        let r = cx.call("from_state", || state_bytes(&b));
        cx.want("state", r);
    }));
    v.push(scen("keys as dict in a scope", "state values taken from documents with shared keys of their own, dicts with integer keys included", 1, |cx| {
        let n = cx.choose(5);
        let r = cx.call("from_state", || -> Result<(), String> {
            let mut e = Encoder::new();
            let mut sk = SharedKeys::new();
            sk.encode_and_insert("key");
            e.set_shared_keys(sk);
            let d = [
                dict(vec![("key", s("a"))]),
                Doc::Arr(vec![dict(vec![("key", s("a"))])]),
                Doc::Arr(vec![s("key"), s("a")]),
                Doc::Arr(vec![s("a"), s("key"), s("a")]),
                Doc::Arr(vec![Doc::Arr(vec![s("key")])]),
            ][n]
                .clone();
            emit(&mut e, &d)?;
            let sc: std::sync::Arc<Scope> = e.finish_scoped();
            let r = sc.root().ok_or_else(|| "no root".to_string()).and_then(|v| judge(&v, &d));
            sc.remove();
            r
        });
        cx.cases(1);
        cx.want("state", r);
    }));
    v.push(scen("damaged state", "5 saved states with every byte replaced by every value, and cut off at every length", 1, |cx| {
        let mut sk = SharedKeys::new();
        let mut m = vec![];
        let n = cx.choose(5);
        for k in &["a", "ab", "sixteen_bytes_ab", "é"][..n] {
            add(&mut sk, &mut m, k).unwrap();
        }
        let b = sk.get_state_bytes();
        let what = cx.choose(b.len() + 1);
        let r = cx.call("from_state_bytes", || -> Result<(), String> {
            if what == b.len() {
                for k in 0..=b.len() {
                    state_bytes(&b[..k])?;
                    state_bytes(&b[k..])?;
                }
                return Ok(());
            }
            for x in 0..=255 {
                let mut c = b.to_vec();
                c[what] = x;
                state_bytes(&c)?;
            }
            Ok(())
        });
        cx.cases(256);
        cx.want("state", r);
    }));
    v.push(scen("short states", format!("every state of up to {} bytes (last two bytes: a root reference or any)", t.sel(2, 4)), 1, move |cx| {
        let hi = cx.choose(256) as u8;
        let r = cx.call("from_state_bytes", || -> Result<(), String> {
            state_bytes(&[])?;
            state_bytes(&[hi])?;
            for lo in 0..=255u8 {
                state_bytes(&[hi, lo])?;
            }
            for a in 0..=255u8 {
                for b in [0x80u8, 0] {
                    for c in [0u8, 1, 2] {
                        state_bytes(&[hi, a, b, c])?;
                    }
                }
                if t.thorough() {
                    for b in 0..=255u8 {
                        for x in [[0x80, 1], [0x80, 2], [0x80, 3], [0, 1]] {
                            state_bytes(&[0x60, hi, a, b, x[0], x[1]])?;
                            state_bytes(&[hi, 0x61, a, b, x[0], x[1]])?;
                        }
                    }
                }
            }
            Ok(())
        });
        cx.cases(1);
        cx.want("state", r);
    }));
    v.push(scen("too many keys", "states of 2040 to 2060 distinct eligible keys: restored up to the capacity, no panic beyond", 1, |cx| {
        let n = 2040 + cx.choose(21);
        let r = cx.call("from_state_bytes", || -> Result<(), String> {
            let keys: Vec<String> = (0..n).map(|k| key(1, k)).collect();
            let b = encode(&Doc::Arr(keys.iter().map(|k| s(k)).collect()))?;
            let r = SharedKeys::from_state_bytes(&b);
            if n <= 2048 {
                restored(r, &keys, "full")?;
            } else if let Some(sk) = r {
                if sk.len() > 2048 {
                    return Err(format!("a table of {} keys", sk.len()));
                }
            }
            Ok(())
        });
        cx.cases(1);
        cx.want("state", r);
    }));
    v
}
