//! C07: dict lookup agrees exactly with dict contents.

use crate::doc::*;
use crate::engine::*;
use crate::gen;
use fleece::{Dict, Encoder, Scope, SharedKeys, Value};
use std::sync::Arc;

/// Keys whose order, length or eligibility for sharing differ in interesting ways.
const UNIVERSE: [&str; 14] = [
    "b", "a", "ab", "", "é", "aa", "a b", "sixteen_bytes_ab", "seventeen_bytes_a", "A", "a\0", "日本", "abc", "zz",
];
/// Never written.
const ABSENT: [&str; 12] = ["c", "a_", "aaa", "abcd", "a ", "B", "sixteen_bytes_aa", "sixteen_bytes_abc", "seventeen_bytes_", "e", "\0", "日"];

#[derive(Clone, Copy, Debug, PartialEq)]
enum Table {
    None,
    Fresh,
    /// already holds the universe, backwards
    Full,
    /// already holds some of it and keys that are never written
    Partial,
}

fn table(t: Table) -> Option<SharedKeys> {
    let mut sk = SharedKeys::new();
    match t {
        Table::None => return None,
        Table::Fresh => {}
        Table::Full => {
            for k in UNIVERSE.iter().rev() {
                sk.encode_and_insert(k);
            }
        }
        Table::Partial => {
            for k in ["c", "ab", "B", "zz"] {
                sk.encode_and_insert(k);
            }
        }
    }
    Some(sk)
}

/// What is stored for a key: something only that key has.
fn val(k: usize) -> i64 {
    1_000_000 + k as i64 * 7
}

fn check_dict(d: &Dict, keys: &[String], universe: &[&str], explicit: Option<&SharedKeys>, sorted: bool) -> Result<(), String> {
    let want = |k: &str| keys.iter().position(|x| x == k);
    if d.len() != keys.len() || d.is_empty() != keys.is_empty() {
        return Err(format!("len {} is_empty {}, expected {}", d.len(), d.is_empty(), keys.len()));
    }
    for k in universe.iter().copied().chain(ABSENT).chain(keys.iter().map(String::as_str)) {
        let w = want(k);
        let mut got = vec![("get", d.get(k)), ("get(String)", d.get(&k.to_string()))];
        if let Some(sk) = explicit {
            got.push(("get_with_shared_keys", d.get_with_shared_keys(k, sk)));
        }
        for (what, g) in got {
            if g.map(Value::to_int) != w.map(val) {
                return Err(format!("{what}({k:?}) gives {:?}, expected {:?}", g.map(Value::to_int), w.map(val)));
            }
        }
        if d.contains_key(k) != w.is_some() {
            return Err(format!("contains_key({k:?}) gives {}", d.contains_key(k)));
        }
        if let Some(sk) = explicit {
            if d.contains_key_with_shared_keys(k, sk) != w.is_some() {
                return Err(format!("contains_key_with_shared_keys({k:?}) gives {}", !w.is_some()));
            }
        }
    }
    for (k, key) in keys.iter().enumerate() {
        if d[key.as_str()].to_int() != val(k) {
            return Err(format!("[{key:?}] gives {}", d[key.as_str()].to_int()));
        }
    }
    let mut seen = vec![false; keys.len()];
    let mut last: Option<String> = None;
    let mut it = d.iter();
    for done in 0..keys.len() {
        let left = keys.len() - done;
        if it.size_hint() != (left, Some(left)) {
            return Err(format!("size_hint {:?} with {left} left", it.size_hint()));
        }
        let Some((k, v)) = it.next() else {
            return Err(format!("iteration ends after {done} of {}", keys.len()));
        };
        let Some(i) = want(k) else {
            return Err(format!("iteration yields {k:?}"));
        };
        if seen[i] {
            return Err(format!("iteration yields {k:?} twice"));
        }
        seen[i] = true;
        if v.to_int() != val(i) {
            return Err(format!("iteration yields {} for {k:?}", v.to_int()));
        }
        if sorted {
            if last.as_deref() >= Some(k) {
                return Err(format!("iteration yields {k:?} after {last:?}"));
            }
            last = Some(k.to_string());
        }
        if done == 0 {
            match d.first() {
                Some((_, w)) if std::ptr::eq(v, w) => {}
                _ => return Err("first() is not what iteration starts with".into()),
            }
        }
    }
    if it.next().is_some() {
        return Err("iteration goes on".into());
    }
    if keys.is_empty() && d.first().is_some() {
        return Err("first() of an empty dict".into());
    }
    Ok(())
}

/// `far` puts the keys that are written early out of narrow reach, so the dict becomes wide.
fn build(keys: &[String], t: Table, far: bool) -> Result<Encoder, String> {
    let mut e = Encoder::new();
    if let Some(sk) = table(t) {
        e.set_shared_keys(sk);
    }
    let step = |what: &str, r: Result<(), fleece::encoder::EncodeError>| r.map_err(|x| format!("{what}: {x:?}"));
    step("begin_array", e.begin_array(2))?;
    let pad = vec![0x5au8; 0x8000];
    step("begin_dict", e.begin_dict())?;
    let far_at = keys.len() / 2;
    for (k, key) in keys.iter().enumerate() {
        step("write_key", e.write_key(key))?;
        step("write_value", e.write_value(val(k)))?;
        if far && k == far_at {
            // a key cannot be followed by padding without adding an entry, so nest it in the last one
            step("write_key", e.write_key("~pad"))?;
            step("pad", e.write_value(pad.as_slice()))?;
        }
    }
    step("end_dict", e.end_dict())?;
    Ok(e)
}

fn run(keys: &[String], universe: &[&str], t: Table, far: bool) -> Result<(), String> {
    let mut keys2 = keys.to_vec();
    let e = build(keys, t, far)?;
    let bytes_or_scope: (Vec<u8>, Option<Arc<Scope>>) = if t == Table::None {
        (e.finish(), None)
    } else {
        (vec![], Some(e.finish_scoped()))
    };
    let r = (|| {
        let root;
        let v: &Value = match &bytes_or_scope.1 {
            Some(s) => {
                root = s.root().ok_or("the scope has no root")?;
                &root
            }
            None => Value::from_bytes(&bytes_or_scope.0).map_err(|e| format!("from_bytes: {e:?}"))?,
        };
        let d = v.as_array().and_then(|a| a.get(0)).and_then(Value::as_dict).ok_or("no dict")?;
        if far {
            // look at the entries besides the padding
            if d.len() != keys2.len() + usize::from(!keys2.is_empty()) {
                return Err(format!("len {} with {} keys and the padding", d.len(), keys2.len()));
            }
            if !keys2.is_empty() {
                if d.get("~pad").map(|p| p.to_data().len()) != Some(0x8000) {
                    return Err("the padding is gone".into());
                }
                for k in universe.iter().copied().chain(ABSENT) {
                    let w = keys2.iter().position(|x| x == k).map(val);
                    if d.get(k).map(Value::to_int) != w || d.contains_key(k) != w.is_some() {
                        return Err(format!("get({k:?}) gives {:?}, expected {w:?}", d.get(k).map(Value::to_int)));
                    }
                }
                let mut got: Vec<(String, i64)> = d.iter().filter(|(k, _)| *k != "~pad").map(|(k, v)| (k.to_string(), v.to_int())).collect();
                let mut want: Vec<(String, i64)> = keys2.drain(..).enumerate().map(|(i, k)| (k, val(i))).collect();
                if t == Table::None {
                    want.sort();
                } else {
                    got.sort();
                    want.sort();
                }
                if got != want {
                    return Err(format!("iteration yields {got:?}"));
                }
            }
            return Ok(());
        }
        let sk = bytes_or_scope.1.as_ref().and_then(|s| s.shared_keys().cloned());
        check_dict(d, keys, universe, sk.as_deref(), t == Table::None)?;
        if t == Table::None {
            // a table passed to a dict that does not use one must not change anything
            let foreign = table(Table::Full).unwrap();
            check_dict(d, keys, universe, Some(&foreign), true).map_err(|e| format!("with foreign shared keys: {e}"))?;
        }
        Ok(())
    })();
    if let Some(s) = bytes_or_scope.1 {
        s.remove();
    }
    r
}

const TABLES: [Table; 4] = [Table::None, Table::Fresh, Table::Full, Table::Partial];

pub fn scenarios(t: Tier) -> Vec<Scenario> {
    let mut v = vec![];
    let max = t.sel(5usize, 6);
    v.push(scen(
        "ordered selections",
        format!("all ordered selections of up to {max} of {} keys, x 4 shared key tables, x narrow and wide; every key of the universe and {} others looked up", UNIVERSE.len(), ABSENT.len()),
        3,
        move |cx| {
            let tab = *cx.pick(&TABLES);
            let far = cx.flag();
            let n = cx.choose(max + 1);
            let mut free: Vec<&str> = UNIVERSE.to_vec();
            let mut keys = vec![];
            for _ in 0..n {
                let x = cx.choose(free.len());
                keys.push(free.remove(x).to_string());
            }
            cx.note(|| format!("{tab:?} far={far} keys {keys:?}"));
            cx.cases(1);
            let r = cx.call("lookup", || run(&keys, &UNIVERSE, tab, far));
            cx.want("lookup", r);
        },
    ));
    v.push(scen(
        "subsets",
        format!("all subsets of {} keys in 3 insertion orders x 4 shared key tables", UNIVERSE.len()),
        2,
        move |cx| {
            let tab = *cx.pick(&TABLES);
            let order = cx.choose(3);
            let hi = cx.choose(64);
            for lo in 0..1usize << (UNIVERSE.len() - 6) {
                let m = hi << (UNIVERSE.len() - 6) | lo;
                let mut keys: Vec<String> = (0..UNIVERSE.len()).filter(|k| m >> k & 1 == 1).map(|k| UNIVERSE[k].to_string()).collect();
                match order {
                    0 => {}
                    1 => keys.reverse(),
                    _ => keys.sort(),
                }
                cx.cases(1);
                let r = cx.call("lookup", || run(&keys, &UNIVERSE, tab, false));
                cx.want("lookup", r.map_err(|e| format!("{tab:?} keys {keys:?}: {e}")));
            }
            cx.beat();
        },
    ));
    let mut lens: Vec<usize> = (0..=t.sel(300, 1100)).collect();
    for k in [9, 10, 11, 12, 14, 16] {
        lens.extend((1usize << k) - 1..=(1 << k) + 1);
    }
    lens.sort_unstable();
    lens.dedup();
    v.push(scen(
        "common beginnings",
        format!("7 keys that differ only between a common beginning of {} lengths and a common end of 6 lengths, in 4 insertion orders x 2 shared key tables; those and 8 similar ones looked up", lens.len()),
        2,
        move |cx| {
            let l = *cx.pick(&lens);
            let tail = *cx.pick(&[0usize, 1, 7, 8, 64, 300]);
            let order = cx.choose(4);
            let tab = *cx.pick(&[Table::None, Table::Fresh]);
            let p: String = (0..l).map(|k| ['p', 'q', 'a', 'z', '0'][k * k % 5]).collect();
            let e: String = (0..tail).map(|k| ['e', 'b', 'A', '_'][k * k % 4]).collect();
            let mk = |xs: &[&str]| xs.iter().map(|x| format!("{p}{x}{e}")).collect::<Vec<String>>();
            let mut keys = mk(&["b", "a", "", "ab", "é", "ba", "B"]);
            let mut all = keys.clone();
            all.extend(mk(&["aa", "c", "\0", "~", "bb", "a b", "日"]));
            all.push(format!("{p}x"));
            match order {
                0 => {}
                1 => keys.reverse(),
                2 => keys.sort(),
                _ => keys.rotate_left(3),
            }
            keys.dedup();
            cx.note(|| format!("common beginning {l}, common end {tail}, {tab:?}, order {order}"));
            cx.cases(1);
            let universe: Vec<&str> = all.iter().map(String::as_str).collect();
            let r = cx.call("lookup", || run(&keys, &universe, tab, false));
            cx.want("lookup", r.map_err(|e| if e.len() > 400 { format!("{}...", e.chars().take(400).collect::<String>()) } else { e }));
        },
    ));
    v.push(scen("iterators", "dicts of 0 to 40 and around 100, 1000 and 2048 entries x 4 shared key tables: iterating from every position with every standard method", 1, |cx| {
        let mut sizes: Vec<usize> = (0..=40).collect();
        sizes.extend([99, 100, 1000, 2046, 2047, 2048, 2049, 2100]);
        let n = *cx.pick(&sizes);
        let tab = *cx.pick(&TABLES);
        cx.note(|| format!("{n} entries, {tab:?}"));
        cx.cases(1);
        let r = cx.call("iterate", || -> Result<(), String> {
            let keys: Vec<String> = (0..n).map(|k| if k % 7 == 3 { format!("not shared {k}") } else { format!("{}{k}", ["k", "", "zz"][k % 3]) }).collect();
            let sc = build(&keys, tab, false)?.finish_scoped();
            let r = (|| {
                let root = sc.root().ok_or("no root")?;
                let d = root.as_array().and_then(|a| a.get(0)).and_then(Value::as_dict).ok_or("no dict")?;
                let id = |(k, v): (&str, &Value)| (k.to_string(), v.to_int());
                let m = crate::iter::agrees("iter", &|| d.iter(), &id)?;
                crate::iter::agrees("into_iter", &|| d.into_iter(), &id)?;
                if m != n {
                    return Err(format!("iteration yields {m} of {n}"));
                }
                Ok(())
            })();
            sc.remove();
            r
        });
        cx.want("iterate", r);
    }));
    // sizes
    let mut sizes: Vec<usize> = (0..t.sel(420, 1300)).collect();
    for c in [255usize, 256, 511, 512, 1023, 1024, 2046, 2047, 2048, 2049, 4095, 4096] {
        sizes.extend(c - 1..=c + 1);
    }
    sizes.sort_unstable();
    sizes.dedup();
    v.push(scen(
        "sizes",
        format!("{} dict sizes x 5 key families x 3 shared key tables (a table runs full at 2048): every key, its neighbours and its prefixes looked up", sizes.len()),
        2,
        move |cx| {
            let n = *cx.pick(&sizes);
            let fam = cx.choose(5);
            let tab = [Table::None, Table::Fresh, Table::Partial][cx.choose(3)];
            let key = |k: usize| match fam {
                0 => format!("{k:05}"),
                1 => format!("{k}"),
                2 => "x".repeat(k % 40) + &format!("{k:x}"),
                3 => format!("key with blanks {k}"),
                _ => format!("{}{}", ["é", "a", "Z", "日"][k % 4], k / 4),
            };
            let keys: Vec<String> = (0..n).map(|k| key((k * 7919) % n.max(1))).collect();
            let keys: Vec<String> = if n % 7919 == 0 || n == 0 { (0..n).map(key).collect() } else { keys };
            cx.note(|| format!("{n} keys of family {fam}, {tab:?}"));
            cx.cases(n as u64);
            let r = cx.call("lookup", || -> Result<(), String> {
                let e = build(&keys, tab, false)?;
                let sc = e.finish_scoped();
                let root = sc.root().ok_or("no root")?;
                let d = root.as_array().and_then(|a| a.get(0)).and_then(Value::as_dict).ok_or("no dict")?;
                let idx: std::collections::HashMap<&str, usize> = keys.iter().enumerate().map(|(i, k)| (k.as_str(), i)).collect();
                let r = (|| {
                    if d.len() != n {
                        return Err(format!("len {}", d.len()));
                    }
                    let step = (n / 250).max(1);
                    for (i, k) in keys.iter().enumerate() {
                        if d.get(k.as_str()).map(Value::to_int) != Some(val(i)) {
                            return Err(format!("get({k:?}) gives {:?}", d.get(k.as_str()).map(Value::to_int)));
                        }
                        if i % step == 0 {
                            let mut shorter = k.clone();
                            shorter.pop();
                            let mut next = shorter.clone();
                            next.push('~');
                            for p in [format!("{k} "), format!("{k}\0"), format!("{k}0"), shorter, next, format!("~{k}"), format!(" {k}")] {
                                let w = idx.get(p.as_str()).map(|i| val(*i));
                                if d.get(p.as_str()).map(Value::to_int) != w || d.contains_key(p.as_str()) != w.is_some() {
                                    return Err(format!("get({p:?}) gives {:?}, expected {w:?}", d.get(p.as_str()).map(Value::to_int)));
                                }
                            }
                        }
                    }
                    let mut seen = vec![false; n];
                    let mut last = String::new();
                    let mut count = 0;
                    for (k, v) in d {
                        let Some(i) = idx.get(k) else {
                            return Err(format!("iteration yields {k:?}"));
                        };
                        if std::mem::replace(&mut seen[*i], true) || v.to_int() != val(*i) {
                            return Err(format!("iteration yields {k:?} again or {}", v.to_int()));
                        }
                        if tab == Table::None && count > 0 && k <= last.as_str() {
                            return Err(format!("iteration yields {k:?} after {last:?}"));
                        }
                        last = k.to_string();
                        count += 1;
                    }
                    if count != n {
                        return Err(format!("iteration yields {count} of {n}"));
                    }
                    Ok(())
                })();
                sc.remove();
                r
            });
            cx.want("lookup", r);
        },
    ));
    v.push(scen("missing keys", "the indexing operator panics for a missing key and only then", 1, |cx| {
        let n = cx.choose(4);
        let keys: Vec<String> = (0..n).map(|k| UNIVERSE[k].to_string()).collect();
        let k = *cx.pick(&UNIVERSE);
        let bytes = encode(&Doc::Dict(keys.iter().enumerate().map(|(i, k)| (k.clone(), Doc::Int(val(i).into()))).collect())).expect("ENGINE");
        let d = Dict::from_bytes(&bytes).expect("ENGINE");
        cx.cases(1);
        let r = guard(|| d[k].to_int());
        let w = keys.iter().position(|x| x == k).map(val);
        match (r, w) {
            (Ok(x), Some(y)) if x == y => {}
            (Err(_), None) => {}
            (r, w) => cx.fail("index", format!("[{k:?}] gives {r:?}, expected {w:?}")),
        }
    }));
    // dicts inside whatever documents hold
    for sp in gen::spaces(t).into_iter().filter(|s| s.name == "key-orders") {
        let mk = sp.make.clone();
        v.push(scen("key orders in scopes", format!("{}, in a scope with and without shared keys", sp.bounds), sp.split, move |cx| {
            let tab = cx.flag();
            let d = mk(cx);
            cx.cases(1);
            let r = cx.call("read", || -> Result<(), String> {
                let mut e = Encoder::new();
                if tab {
                    e.set_shared_keys(SharedKeys::new());
                }
                emit(&mut e, &d)?;
                let sc = e.finish_scoped();
                let r = sc.root().ok_or("no root".to_string()).and_then(|v| verify(&v, &d, if tab { Keys::Scoped } else { Keys::Plain }));
                sc.remove();
                r
            });
            cx.want("read", r.map_err(|e| format!("{} {e}", d.show())));
        }));
    }
    v
}
