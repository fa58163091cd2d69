//! C17: a mutable array behaves as a sequence.

use super::mutops::*;
use crate::doc::*;
use crate::engine::*;
use crate::gen;
use fleece::{Array, MutableArray};

const KEYS: [&str; 2] = ["a", "b"];

pub fn scenarios(t: Tier) -> Vec<Scenario> {
    let mut v = vec![];
    let cfg = Cfg {
        depth: t.sel(5, 6),
        keys: KEYS.to_vec(),
        leaves: vec![i(7)],
        decoded: vec![],
        rich: false,
        nodes: 7,
        nest: 1,
    };
    v.push(scen("sequences", format!("all sequences of {} operations (push, set, set_array, set_dict, remove at every index up to len + 1 and at usize::MAX, edits of nested collections in place, clone, go on with either clone); everything compared with a list after each", cfg.depth), 3, move |cx| {
        drive(cx, &cfg, Coll::Arr(MutableArray::new()), Doc::Arr(vec![]));
    }));
    let rich = Cfg {
        depth: t.sel(3, 4),
        keys: KEYS.to_vec(),
        leaves: vec![i(1), s("exactly fifteen"), s("fourteen bytes")],
        decoded: vec![
            s("a decoded string"),
            f64d(-0.0),
            Doc::Undef,
            Doc::Arr(vec![i(1), dict(vec![("a", s("x"))])]),
            dict(vec![("b", Doc::Arr(vec![Doc::Null])), ("a", i(-3000))]),
        ],
        rich: true,
        nodes: 40,
        nest: 3,
    };
    v.push(scen("sequences, all sources", format!("all sequences of {} operations, with decoded values and collections pushed and set, converted and self-owning collections, dicts with shared keys and clones of the whole array inside itself; from 3 starts", rich.depth), 2, move |cx| {
        let d = [
            Doc::Arr(vec![]),
            Doc::Arr(vec![Doc::Arr(vec![i(1)]), s("middle"), dict(vec![("a", i(2))])]),
            Doc::Arr(vec![i(0), i(1), i(2), i(3)]),
        ][cx.choose(3)]
            .clone();
        let r = cx.call("start", || -> Result<Coll, String> {
            let b = encode(&d)?;
            Ok(Coll::Arr(Array::from_bytes(&b).map_err(|e| format!("{e:?}"))?.to_mutable()))
        });
        let c = cx.want("start", r);
        drive(cx, &rich, c, d);
    }));
    let leaves = gen::leaves();
    v.push(scen("values", format!("every ordered pair of {} leaf values: pushed, set over one another, pushed and set as decoded values, removed, cloned", leaves.len()), 1, move |cx| {
        let (x, y) = (cx.pick(&leaves).clone(), cx.pick(&leaves).clone());
        cx.cases(1);
        let r = cx.call("values", || -> Result<(), String> {
            let mut m = MutableArray::new();
            push_leaf(&mut m, &x);
            push_leaf(&mut m, &y);
            let b = encode(&Doc::Arr(vec![x.clone(), y.clone()]))?;
            let a = Array::from_bytes(&b).map_err(|e| format!("{e:?}"))?;
            m.push_fleece(&a[0]);
            m.push_fleece(&a[1]);
            let c = Clone::clone(&m);
            let d = vec![x.clone(), y.clone(), x.clone(), y.clone()];
            let mut at = String::from("$");
            verify_marr(&m, &d, &mut at)?;
            set_leaf(&mut m, 0, &y);
            m.set_fleece(1, &a[0]);
            m.set_fleece(2, &a[1]);
            set_leaf(&mut m, 3, &x);
            verify_marr(&m, &[y.clone(), x.clone(), y.clone(), x.clone()], &mut at).map_err(|e| format!("after set: {e}"))?;
            m.remove(1);
            m.remove(3);
            verify_marr(&m, &[y.clone(), y.clone(), x.clone()], &mut at).map_err(|e| format!("after remove: {e}"))?;
            drop(m);
            verify_marr(&c, &d, &mut at).map_err(|e| format!("the clone: {e}"))
        });
        cx.want("mutable array", r);
    }));
    v.push(scen("lengths", format!("strings and data of every length up to {}, pushed, set, cloned", t.sel(3000, 9000)), 1, move |cx| {
        let n = cx.choose(t.sel(3001, 9001));
        cx.cases(1);
        let r = cx.call("values", || -> Result<(), String> {
            let d = vec![Doc::Str(gen::text(n, 1, true)), Doc::Data(gen::bytes(n, 5))];
            let mut m = MutableArray::new();
            for x in &d {
                push_leaf(&mut m, x);
            }
            let mut at = String::from("$");
            verify_marr(&m, &d, &mut at)?;
            let mut c = Clone::clone(&m);
            set_leaf(&mut m, 0, &d[1]);
            set_leaf(&mut m, 1, &d[0]);
            verify_marr(&c, &d, &mut at).map_err(|e| format!("the clone: {e}"))?;
            drop(std::mem::replace(&mut c, m));
            verify_marr(&c, &[d[1].clone(), d[0].clone()], &mut at).map_err(|e| format!("after set: {e}"))
        });
        cx.want("mutable array", r);
    }));
    v.push(scen("characters", "each of 614 characters and each byte value: alone, first, last, in the middle, repeated; pushed, set, cloned", 1, |cx| {
        let chars = gen::characters();
        let k = cx.choose(chars.len() + 256);
        let place = cx.choose(5);
        let around = *cx.pick(&["xy", "twelve chars", "some text of forty-one bytes, no less....."]);
        cx.cases(1);
        let r = cx.call("values", || -> Result<(), String> {
            let x = if k < chars.len() {
                Doc::Str(gen::with_character(chars[k], place, around))
            } else {
                Doc::Data(gen::with_character('#', place, around).bytes().map(|b| if b == b'#' { (k - chars.len()) as u8 } else { b }).collect())
            };
            let d = vec![x.clone(), Doc::Int(5), x.clone()];
            let mut m = MutableArray::new();
            for x in &d {
                push_leaf(&mut m, x);
            }
            let mut at = String::from("$");
            verify_marr(&m, &d, &mut at)?;
            set_leaf(&mut m, 1, &x);
            verify_marr(&Clone::clone(&m), &[x.clone(), x.clone(), x], &mut at).map_err(|e| format!("the clone after set: {e}"))
        });
        cx.want("mutable array", r);
    }));
    v.push(scen("many elements", format!("arrays of every size up to {} and some large ones; one element removed or replaced at every position", t.sel(100, 300)), 1, move |cx| {
        let mut sizes: Vec<usize> = (0..t.sel(101, 301)).collect();
        sizes.extend([255, 256, 2047, 2048, 5000]);
        let n = *cx.pick(&sizes);
        let at_ = if n > 200 { *cx.pick(&[0, n / 2, n - 1, n, n + 1]) } else { cx.choose(n + 2) };
        cx.cases(1);
        let r = cx.call("values", || -> Result<(), String> {
            let mut m = MutableArray::new();
            let mut d: Vec<Doc> = vec![];
            for k in 0..n {
                d.push(if k % 3 == 0 { s(&format!("a string on the heap {k}")) } else { i(k as i128) });
                push_leaf(&mut m, &d[k]);
            }
            let mut at = String::from("$");
            let c = Clone::clone(&m);
            m.remove(at_);
            let mut e = d.clone();
            if at_ < n {
                e.remove(at_);
            }
            verify_marr(&m, &e, &mut at).map_err(|x| format!("after remove({at_}) of {n}: {x}"))?;
            if at_ < e.len() {
                m.set(at_, "replaced");
                e[at_] = s("replaced");
                verify_marr(&m, &e, &mut at).map_err(|x| format!("after set({at_}): {x}"))?;
            }
            verify_marr(&c, &d, &mut at).map_err(|x| format!("the clone: {x}"))
        });
        cx.want("mutable array", r);
    }));
    v.push(scen("iterators", "arrays of every size up to 40 and around 100, 1000 and 2048 with values, arrays and dicts: iterating from every position with every standard method", 1, |cx| {
        let mut sizes: Vec<usize> = (0..=40).collect();
        sizes.extend([99, 100, 1000, 2047, 2048, 2049]);
        let n = *cx.pick(&sizes);
        cx.cases(1);
        let r = cx.call("iterate", || -> Result<(), String> {
            let mut m = MutableArray::new();
            for k in 0..n {
                match k % 4 {
                    0 => m.push(&(k as i64)),
                    1 => m.push("a string on the heap"),
                    2 => {
                        m.push("");
                        m.set_array(k, MutableArray::new());
                    }
                    _ => {
                        m.push("");
                        m.set_dict(k, fleece::MutableDict::new());
                    }
                }
            }
            let id = |r: fleece::mutable::array::Ref<'_>| slot_id(r.value(), r.array(), r.dict());
            let k = crate::iter::agrees("iter", &|| m.iter(), &id)?;
            crate::iter::agrees("into_iter", &|| (&m).into_iter(), &id)?;
            if k != n {
                return Err(format!("iteration yields {k} of {n}"));
            }
            Ok(())
        });
        cx.want("iterate", r);
    }));
    v
}
