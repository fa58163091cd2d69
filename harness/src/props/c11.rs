//! C11: a shared key table is a stable two-way mapping.

use crate::engine::*;
use fleece::{Encoder, SharedKeys};

pub(super) const POOL: [&str; 15] = [
    "a", "b", "", "ab", "sixteen_bytes_ab", "sixteen_bytes_ac", "é", "_-", "0", "A", // eligible
    "a b", "sixteen_bytes_abc", "a\0", "日本日本日本", ".", // not eligible
];

pub(super) fn eligible(k: &str) -> bool {
    k.len() <= 16 && k.chars().all(|c| c.is_alphanumeric() || c == '_' || c == '-')
}

/// The reference: the list of keys.
pub(super) fn insert(m: &mut Vec<String>, k: &str) -> Option<u16> {
    if let Some(i) = m.iter().position(|x| x == k) {
        return Some(i as u16);
    }
    if !eligible(k) || m.len() >= 2048 {
        return None;
    }
    m.push(k.to_string());
    Some(m.len() as u16 - 1)
}

pub(super) fn verify(sk: &SharedKeys, m: &[String], probes: &[&str], all: bool) -> Result<(), String> {
    if usize::from(sk.len()) != m.len() || sk.is_empty() != m.is_empty() {
        return Err(format!("len {} is_empty {} with {} keys", sk.len(), sk.is_empty(), m.len()));
    }
    let idx: std::collections::HashMap<&str, u16> = m.iter().enumerate().map(|(i, k)| (k.as_str(), i as u16)).collect();
    for p in probes {
        if sk.encode(p) != idx.get(p).copied() {
            return Err(format!("encode({p:?}) gives {:?}, expected {:?}", sk.encode(p), idx.get(p)));
        }
        let want = m.len() < 2048 && eligible(p);
        // what can_add says of a key that is already there is not specified
        if !idx.contains_key(p) && sk.can_add(p) != want {
            return Err(format!("can_add({p:?}) gives {}", !want));
        }
    }
    for (i, k) in m.iter().enumerate() {
        if all || i < 4 || i + 4 > m.len() {
            if sk.encode(k) != Some(i as u16) {
                return Err(format!("encode({k:?}) gives {:?}, expected {i}", sk.encode(k)));
            }
            if sk.decode(i as u16) != Some(k.as_str()) {
                return Err(format!("decode({i}) gives {:?}, expected {k:?}", sk.decode(i as u16)));
            }
        }
    }
    for i in [m.len(), m.len() + 1, 2046, 2047, 2048, 2049, 4095, 4096, 32767, 32768, 65534, 65535] {
        if i >= m.len() && sk.decode(i as u16).is_some() {
            return Err(format!("decode({i}) gives {:?} with {} keys", sk.decode(i as u16), m.len()));
        }
    }
    let mut seen = vec![false; m.len()];
    let mut n = 0;
    for (k, i) in sk.iter() {
        if idx.get(k) != Some(&i) || std::mem::replace(&mut seen[usize::from(i)], true) {
            return Err(format!("iteration yields ({k:?}, {i})"));
        }
        n += 1;
    }
    if n != m.len() {
        return Err(format!("iteration yields {n} of {} keys", m.len()));
    }
    if (sk.into_iter().count(), sk.iter().count()) != (n, n) {
        return Err("a second iteration differs".into());
    }
    Ok(())
}

pub(super) fn add(sk: &mut SharedKeys, m: &mut Vec<String>, k: &str) -> Result<(), String> {
    let w = insert(m, k);
    let g = sk.encode_and_insert(k);
    if g != w {
        return Err(format!("encode_and_insert({k:?}) gives {g:?}, expected {w:?}"));
    }
    Ok(())
}

/// Key `i` of a family of distinct eligible keys.
pub(super) fn key(fam: usize, i: usize) -> String {
    match fam {
        0 => format!("{i}"),
        1 => format!("k{i:015}"),
        2 => {
            let c = |x: usize| char::from(b"0123456789ABCDEFGHIJKLMNOPQRSTUVWXYZabcdefghijklmnopqrstuvwxyz_-"[x % 64]);
            [c(i / 64), c(i)].iter().collect()
        }
        3 => format!("{}{i}", ["é", "ж", "日", "ß"][i % 4]),
        // lengths from 0 (the empty key) to 16
        4 => {
            if i == 0 {
                String::new()
            } else {
                let s = format!("{:x}", i - 1);
                let n = (i % 17).saturating_sub(s.len());
                "_".repeat(n) + &s
            }
        }
        _ => char::from_u32(0x4e00 + i as u32).unwrap().to_string(),
    }
}
pub(super) const FAMS: usize = 6;

pub fn scenarios(t: Tier) -> Vec<Scenario> {
    let mut v = vec![];
    let depth = t.sel(4usize, 5);
    v.push(scen(
        "sequences",
        format!("all sequences of up to {depth} operations: inserting any of {} keys, or going on with a clone; the whole mapping checked after each", POOL.len()),
        2,
        move |cx| {
            let mut sk = SharedKeys::new();
            let mut m = vec![];
            let mut left_behind: Vec<(SharedKeys, Vec<String>)> = vec![];
            for _ in 0..depth {
                let op = cx.choose(POOL.len() + 2);
                if op == POOL.len() + 1 {
                    break;
                }
                cx.ops(1);
                let r = cx.call("shared keys", || -> Result<(), String> {
                    if op == POOL.len() {
                        let c = sk.clone();
                        left_behind.push((std::mem::replace(&mut sk, c), m.clone()));
                    } else {
                        add(&mut sk, &mut m, POOL[op])?;
                    }
                    verify(&sk, &m, &POOL, true)?;
                    for (sk, m) in &left_behind {
                        verify(sk, m, &POOL, true).map_err(|e| format!("the cloned table changed: {e}"))?;
                    }
                    Ok(())
                });
                cx.note(|| if op == POOL.len() { "clone".into() } else { format!("insert {:?}", POOL[op]) });
                cx.want("mapping", r);
            }
            cx.cases(1);
            cx.outcome(hash_bytes(format!("{m:?}").as_bytes()));
        },
    ));
    v.push(scen("capacity", format!("{FAMS} key families, tables filled up to every size around 2048 and around every power of two, then known, new and ineligible keys, clones, and 40 more"), 2, |cx| {
        let fam = cx.choose(FAMS);
        let mut sizes: Vec<usize> = vec![];
        for p in [16usize, 32, 64, 128, 256, 512, 1024] {
            sizes.extend(p - 1..=p + 1);
        }
        sizes.extend(2040..=2056);
        let n = *cx.pick(&sizes);
        let with_clone = cx.flag();
        cx.cases(1);
        cx.note(|| format!("family {fam}, {n} keys, clone {with_clone}"));
        let r = cx.call("fill", || -> Result<(), String> {
            let mut sk = SharedKeys::new();
            let mut m = vec![];
            for k in 0..n {
                add(&mut sk, &mut m, &key(fam, k))?;
                if k % 97 == 0 {
                    verify(&sk, &m, &["~no", "x-y-z"], false)?;
                }
            }
            verify(&sk, &m, &POOL, true)?;
            if with_clone {
                let c = sk.clone();
                verify(&c, &m, &POOL, true).map_err(|e| format!("clone: {e}"))?;
                let old = std::mem::replace(&mut sk, c);
                let m0 = m.clone();
                for k in n..n + 40 {
                    add(&mut sk, &mut m, &key(fam, k))?;
                }
                verify(&old, &m0, &POOL, true).map_err(|e| format!("the cloned table changed: {e}"))?;
                drop(old);
            }
            for k in (0..n).step_by(7).chain(n..n + 40) {
                add(&mut sk, &mut m, &key(fam, k))?;
            }
            for k in POOL {
                add(&mut sk, &mut m, k)?;
            }
            for k in 0..n + 40 {
                add(&mut sk, &mut m, &key(fam, k))?;
            }
            verify(&sk, &m, &POOL, true)
        });
        cx.want("mapping", r);
    }));
    v.push(scen("iterators", "tables of 0 to 70 keys, around powers of two and full ones: iterating from every position with every standard method", 1, |cx| {
        let mut sizes: Vec<usize> = (0..=70).collect();
        sizes.extend([127, 128, 129, 255, 256, 257, 1023, 1024, 2047, 2048]);
        let n = *cx.pick(&sizes);
        let fam = cx.choose(FAMS);
        let r = cx.call("iterate", || -> Result<usize, String> {
            let mut sk = SharedKeys::new();
            let mut m = vec![];
            for k in 0..n {
                add(&mut sk, &mut m, &key(fam, k))?;
            }
            let n = crate::iter::agrees_inexact("iter", &|| sk.iter(), &|(k, i)| (k.to_string(), i))?;
            crate::iter::agrees_inexact("into_iter", &|| (&sk).into_iter(), &|(k, i)| (k.to_string(), i))?;
            if n != m.len() {
                return Err(format!("iteration yields {n} of {} keys", m.len()));
            }
            Ok(n)
        });
        cx.cases(1);
        cx.want("iterate", r);
    }));
    v.push(scen("every character", "every Unicode scalar value: alone, doubled and inside a key, can it be added, is it found again, does decoding give it back", 1, |cx| {
        let block = cx.choose(0x110000 / 0x400) as u32;
        let r = cx.call("characters", || -> Result<(), String> {
            let mut sk = SharedKeys::new();
            let mut m = vec![];
            for c in (block * 0x400..(block + 1) * 0x400).filter_map(char::from_u32) {
                for k in [c.to_string(), format!("a{c}b")] {
                    let w = eligible(&k);
                    if sk.can_add(&k) != w || sk.encode(&k).is_some() {
                        return Err(format!("can_add({k:?}) gives {}, encode {:?}", sk.can_add(&k), sk.encode(&k)));
                    }
                    add(&mut sk, &mut m, &k)?;
                    if w && (sk.encode(&k) != Some(m.len() as u16 - 1) || sk.decode(m.len() as u16 - 1) != Some(k.as_str())) {
                        return Err(format!("{k:?} is not found after it was added"));
                    }
                    if !w && sk.encode(&k).is_some() {
                        return Err(format!("{k:?} is found though it cannot be added"));
                    }
                }
            }
            verify(&sk, &m, &POOL, true)
        });
        cx.cases(0x800);
        cx.want("character", r);
    }));
    v.push(scen("lengths", "keys of 0 to 48 characters of 1 to 4 bytes, with one character that cannot be shared at every position or none", 1, |cx| {
        let n = cx.choose(49);
        let fill = *cx.pick(&['a', 'é', '日', '𝔸', '-']);
        let r = cx.call("lengths", || -> Result<(), String> {
            let mut sk = SharedKeys::new();
            let mut m = vec![];
            for at in 0..=n {
                for odd in ['\0', ' ', '.', '/', '~', '\u{7f}', '\u{ad}', '€', '\u{301}', '😀', '_', '9'] {
                    let mut k: Vec<char> = vec![fill; n];
                    if at < n {
                        k[at] = odd;
                    }
                    let k: String = k.into_iter().collect();
                    add(&mut sk, &mut m, &k)?;
                    // neither its prefixes nor its extensions are taken for it
                    let mut p = k.clone();
                    for probe in [format!("{k}a"), format!("{k}\0"), { p.pop(); p.clone() }] {
                        let w = m.iter().position(|x| *x == probe).map(|i| i as u16);
                        if sk.encode(&probe) != w {
                            return Err(format!("encode({probe:?}) gives {:?}, expected {w:?}", sk.encode(&probe)));
                        }
                    }
                }
            }
            verify(&sk, &m, &POOL, true)
        });
        cx.cases((n as u64 + 1) * 12);
        cx.want("length", r);
    }));
    let depth = t.sel(4usize, 5);
    v.push(scen(
        "through the encoder",
        format!("all sequences of up to {depth} keys (full table: {}) of {} written by an encoder with a fresh, partial or full table, in one dict or one dict each: the table keeps what it had and grows only by eligible keys, in the order in which they were first written", depth - 2, POOL.len()),
        2,
        move |cx| {
            let start = cx.choose(3);
            let one = cx.flag();
            let n = cx.choose(if start == 2 { depth - 1 } else { depth + 1 });
            let mut keys: Vec<&str> = vec![];
            for _ in 0..n {
                if one {
                    // the keys of one dict are distinct
                    let free: Vec<&str> = POOL.iter().copied().filter(|k| !keys.contains(k)).collect();
                    keys.push(free[cx.choose(free.len())]);
                } else {
                    keys.push(POOL[cx.choose(POOL.len())]);
                }
            }
            cx.note(|| format!("table {start}, one dict {one}, keys {keys:?}"));
            cx.cases(1);
            let r = cx.call("encode", || -> Result<(), String> {
                let mut sk = SharedKeys::new();
                let mut m = vec![];
                match start {
                    0 => {}
                    1 => {
                        for k in ["zz", "ab", "é"] {
                            add(&mut sk, &mut m, k)?;
                        }
                    }
                    _ => {
                        for k in 0..2046 {
                            add(&mut sk, &mut m, &key(1, k))?;
                        }
                    }
                }
                let mut e = Encoder::new();
                e.set_shared_keys(sk);
                let st = |r: Result<(), fleece::encoder::EncodeError>| r.map_err(|e| format!("{e:?}"));
                st(e.begin_array(1))?;
                if one {
                    st(e.begin_dict())?;
                }
                for k in &keys {
                    if !one {
                        st(e.begin_dict())?;
                    }
                    st(e.write_key(k))?;
                    st(e.write_value(true))?;
                    if !one {
                        st(e.end_dict())?;
                    }
                }
                if one {
                    st(e.end_dict())?;
                }
                st(e.end_array())?;
                let s = e.finish_scoped();
                let r = match s.shared_keys() {
                    Some(sk) => {
                        // which eligible keys an encoder shares is its choice (one-byte keys are stored inline)
                        for k in &keys {
                            if !m.iter().any(|x| x == k) && sk.encode(k).is_some() {
                                insert(&mut m, k);
                            }
                        }
                        verify(sk, &m, &POOL, start != 2)
                    }
                    None => Err("the scope has no shared keys".into()),
                };
                s.remove();
                r
            });
            cx.want("mapping", r);
        },
    ));
    v
}
