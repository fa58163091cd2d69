//! C16: a mutable dict behaves as a string-keyed map.

use super::mutops::*;
use crate::doc::*;
use crate::engine::*;
use crate::gen;
use fleece::{MutableArray, MutableDict};
use std::collections::BTreeMap;

const KEYS: [&str; 4] = ["a", "not shareable", "b", ""];

/// An empty dict with one of the kinds of shared keys.
fn start(k: usize) -> MutableDict {
    match k {
        0 => MutableDict::new(),
        1 => MutableDict::new_with_shared_keys(shared(&["zz", "a", "b", ""])),
        2 => MutableDict::default(),
        _ => MutableDict::new_with_shared_keys(shared(&["b"])),
    }
}

pub fn scenarios(t: Tier) -> Vec<Scenario> {
    let mut v = vec![];
    let cfg = std::rc::Rc::new(Cfg {
        depth: t.sel(4, 5),
        keys: KEYS[..3].to_vec(),
        leaves: vec![i(7), s("a string on the heap")],
        decoded: vec![],
        rich: false,
        nodes: 8,
        nest: 2,
    });
    {
        let cfg = cfg.clone();
        v.push(scen("sequences", format!("all sequences of {} operations (insert, insert_dict, insert_array, remove, edits of nested collections in place, clone, go on with either clone) over 3 keys, without and with shared keys; everything compared with a map after each", cfg.depth), 2, move |cx| {
            let k = cx.choose(2);
            drive(cx, &cfg, Coll::Dict(start(k)), Doc::Dict(vec![]));
        }));
    }
    let rich = std::rc::Rc::new(Cfg {
        depth: t.sel(4, 5),
        keys: KEYS.to_vec(),
        leaves: vec![i(1), f64d(-0.0), s("exactly fifteen")],
        decoded: vec![Doc::Arr(vec![i(1), dict(vec![("a", s("x"))])]), dict(vec![("b", Doc::Arr(vec![Doc::Null])), ("a", i(-3000))])],
        rich: true,
        nodes: 40,
        nest: 3,
    });
    v.push(scen("sequences, all sources", format!("all sequences of {} operations, with collections converted from decoded and self-owning ones, dicts with shared keys of their own and clones of the whole dict inside itself; 4 kinds of shared keys", rich.depth), 2, move |cx| {
        let k = cx.choose(4);
        drive(cx, &rich, Coll::Dict(start(k)), Doc::Dict(vec![]));
    }));
    let leaves = gen::leaves();
    v.push(scen("replacements", format!("every ordered pair of {} leaf values, an array and a dict under one key, removed and inserted again, without and with shared keys", leaves.len()), 2, move |cx| {
        let n = leaves.len() + 2;
        let (x, y) = (cx.choose(n), cx.choose(n));
        let sk = cx.choose(4);
        cx.cases(1);
        let r = cx.call("replace", || -> Result<(), String> {
            let mut m = start(sk);
            m.insert("b", 1);
            let put = |m: &mut MutableDict, x: usize| {
                if x < leaves.len() {
                    insert_leaf(m, "a", &leaves[x]);
                    leaves[x].clone()
                } else if x == leaves.len() {
                    let mut a = MutableArray::new();
                    a.push("in the array");
                    m.insert_array("a", a);
                    Doc::Arr(vec![s("in the array")])
                } else {
                    let mut a = start(3 - sk);
                    a.insert("a", 5);
                    m.insert_dict("a", a);
                    dict(vec![("a", i(5))])
                }
            };
            let mut c = None;
            for (step, k) in [x, y, x].into_iter().enumerate() {
                let d = put(&mut m, k);
                let d = dict(vec![("b", i(1)), ("a", d)]);
                let mm = Coll::Dict(m);
                check(&mm, &d, &KEYS)?;
                let Coll::Dict(back) = mm else { unreachable!() };
                m = back;
                if step == 0 {
                    c = Some((Coll::Dict(Clone::clone(&m)), d));
                } else if step == 1 {
                    m.remove("a");
                    if m.contains_key("a") || m.len() != 1 {
                        return Err("remove leaves the key".into());
                    }
                }
            }
            let (c, d) = c.unwrap();
            drop(m);
            check(&c, &d, &KEYS).map_err(|e| format!("the clone: {e}"))
        });
        cx.want("mutable dict", r);
    }));
    v.push(scen("keys", format!("dicts of every size up to {} over families of keys (shareable, too long, odd characters, every length), inserted forwards and backwards, every second removed; 4 kinds of shared keys", t.sel(120, 300)), 2, move |cx| {
        let n = cx.choose(t.sel(121, 301));
        let fam = cx.choose(6);
        let sk = cx.choose(4);
        let back = cx.flag();
        cx.cases(1);
        let chars = gen::characters();
        let key = |k: usize| match fam {
            0 => format!("k{k}"),
            1 => format!("a key which is longer than sixteen bytes {k}"),
            2 => gen::text(k, 0, false),
            3 => gen::text(k, 0, true),
            5 => gen::with_character(chars[(k * 5 + n) % chars.len()], k % 5, ["xy", "twelve chars", "text"][k % 3]),
            _ => format!("{}{k}", [" ", "é", "\0", "日", "_"][k % 5]),
        };
        let r = cx.call("fill", || -> Result<(), String> {
            let mut m = if sk == 3 {
                let all: Vec<String> = (0..n).step_by(2).map(key).collect();
                MutableDict::new_with_shared_keys(shared(&all.iter().map(String::as_str).collect::<Vec<_>>()))
            } else {
                start(sk)
            };
            let mut model: BTreeMap<String, Doc> = BTreeMap::new();
            for k in 0..n {
                let k = if back { n - 1 - k } else { k };
                m.insert(&key(k), k as i64);
                model.insert(key(k), i(k as i128));
            }
            let full = |m: MutableDict, model: &BTreeMap<String, Doc>| -> Result<MutableDict, String> {
                let d = Doc::Dict(model.iter().map(|(k, v)| (k.clone(), v.clone())).collect());
                let c = Coll::Dict(m);
                check(&c, &d, &["k0", "k40", " 0", "x"])?;
                let Coll::Dict(m) = c else { unreachable!() };
                Ok(m)
            };
            let mut m = full(m, &model)?;
            for k in (0..n).step_by(2) {
                m.remove(&key(k));
                model.remove(&key(k));
            }
            m.remove("never there");
            let m = full(m, &model)?;
            full(Clone::clone(&m), &model).map_err(|e| format!("clone: {e}")).map(drop)
        });
        cx.want("mutable dict", r);
    }));
    v.push(scen("iterators", "dicts of every size up to 40 and around 100, 1000 and 2048 with values, arrays and dicts, with and without an empty key, 4 kinds of shared keys: iterating from every position with every standard method", 1, |cx| {
        let mut sizes: Vec<usize> = (0..=40).collect();
        sizes.extend([99, 100, 1000, 2047, 2048, 2049]);
        let n = *cx.pick(&sizes);
        let sk = cx.choose(4);
        // which of the keys is empty, if any
        let empty = *cx.pick(&[usize::MAX, 0, 1, n.wrapping_sub(1)]);
        cx.cases(1);
        let r = cx.call("iterate", || -> Result<(), String> {
            let key = |k: usize| if k == empty { String::new() } else if k % 5 == 2 { format!("not shared {k}") } else { format!("{}{k}", ["k", "", "zz"][k % 3]) };
            let mut m = if sk == 3 {
                let all: Vec<String> = (0..n).step_by(2).map(key).filter(|k| k.len() < 10).collect();
                MutableDict::new_with_shared_keys(shared(&all.iter().map(String::as_str).collect::<Vec<_>>()))
            } else {
                start(sk)
            };
            for k in 0..n {
                match k % 4 {
                    0 => m.insert(&key(k), k as i64),
                    1 => m.insert(&key(k), "a string on the heap"),
                    2 => m.insert_array(&key(k), MutableArray::new()),
                    _ => m.insert_dict(&key(k), MutableDict::new()),
                }
            }
            let id = |(k, r): (&str, fleece::mutable::dict::Ref<'_>)| (k.to_string(), slot_id(r.value(), r.array(), r.dict()));
            let k = crate::iter::agrees("iter", &|| m.iter(), &id)?;
            crate::iter::agrees("into_iter", &|| (&m).into_iter(), &id)?;
            if k != n {
                return Err(format!("iteration yields {k} of {n}"));
            }
            Ok(())
        });
        cx.want("iterate", r);
    }));
    v.push(scen("similar keys", format!("keys that differ only between a common beginning of every length up to {} and around 2^9..2^16 and a common end of 4 lengths, 3 kinds of shared keys; inserted, looked up with similar ones, one removed", t.sel(300, 1100)), 2, move |cx| {
        let mut lens: Vec<usize> = (0..=t.sel(300, 1100)).collect();
        for k in [9, 10, 11, 12, 14, 16] {
            lens.extend((1usize << k) - 1..=(1 << k) + 1);
        }
        let l = *cx.pick(&lens);
        let tail = *cx.pick(&[0usize, 1, 8, 64]);
        let sk = cx.choose(3);
        let which = cx.choose(5);
        let p = gen::text(l, 5, false);
        let e = gen::text(tail, 2, false);
        let key = |x: &str| format!("{p}{x}{e}");
        cx.note(|| format!("common beginning {l}, common end {tail}, shared keys {sk}, number {which} removed"));
        cx.cases(1);
        let r = cx.call("similar", || -> Result<(), String> {
            let xs = ["b", "a", "", "ab", "é"];
            let mut m = if sk == 2 { MutableDict::new_with_shared_keys(shared(&[&key("b"), &key(""), "zz"].map(|k| if k.len() <= 16 { k } else { "none" }))) } else { start(sk) };
            let mut model: BTreeMap<String, Doc> = BTreeMap::new();
            for (k, x) in xs.iter().enumerate() {
                m.insert(&key(x), k as i64);
                model.insert(key(x), i(k as i128));
            }
            for step in 0..2 {
                let d = Doc::Dict(model.iter().map(|(k, v)| (k.clone(), v.clone())).collect());
                let mut at = String::from("$");
                verify_mdict(&m, match &d { Doc::Dict(xs) => xs, _ => unreachable!() }, &mut at)?;
                for x in ["c", "aa", "\0", "~", "b", "a", "", "ab", "é"] {
                    let w = model.contains_key(&key(x));
                    if m.contains_key(&key(x)) != w || m.get(&key(x)).is_some() != w {
                        return Err(format!("contains_key(..{x:?}..) gives {}", m.contains_key(&key(x))));
                    }
                }
                if step == 0 {
                    m.remove(&key(xs[which]));
                    model.remove(&key(xs[which]));
                    m = Clone::clone(&m);
                }
            }
            Ok(())
        });
        cx.want("mutable dict", r.map_err(|e| e.chars().take(400).collect::<String>()));
    }));
    v
}
