//! Document spaces shared by several properties.

use crate::doc::*;
use crate::engine::*;

pub const LONG_KEY: &str = "a_long_key_that_cannot_be_shared";

/// Leaf values, one or more per representation class of the format.
pub fn leaves() -> Vec<Doc> {
    vec![
        i(1),
        s("a"),
        s("hello"),
        f64d(1.5),
        Doc::Null,
        i(-3000),
        s(""),
        Doc::Data(vec![]),
        Doc::Bool(true),
        i(i128::from(u64::MAX)),
        Doc::Data(vec![0x80]),
        Doc::Undef,
        f32d(-0.25),
        s("exactly fifteen"),
        Doc::Data(vec![0xff; 20]),
        Doc::Bool(false),
        i(2047),
        i(-2048),
        i(i128::from(i64::MIN)),
        i(0x7f_ffff),
        s("é"),
        s("fourteen bytes"),
        i(2048),
        i(-2049),
    ]
}

pub struct TreeCfg {
    pub nodes: usize,
    pub depth: usize,
    pub leaves: Vec<Doc>,
    pub keys: Vec<&'static str>,
    /// enumerate every order of the chosen keys (else: keys in a fixed rotation)
    pub key_orders: bool,
}

pub const KEYS: [&str; 6] = ["a", "ab", "", "b", LONG_KEY, "é"];

pub fn tree(cx: &mut Cx, cfg: &TreeCfg) -> Doc {
    let mut budget = cfg.nodes;
    coll(cx, cfg, &mut budget, cfg.depth)
}

fn coll(cx: &mut Cx, cfg: &TreeCfg, budget: &mut usize, depth: usize) -> Doc {
    let is_dict = cx.flag();
    let maxn = if is_dict { (*budget).min(cfg.keys.len()) } else { *budget };
    let n = cx.choose(maxn + 1);
    *budget -= n;
    if is_dict {
        let mut used = vec![false; cfg.keys.len()];
        let mut out = vec![];
        for k in 0..n {
            let free: Vec<usize> = (0..cfg.keys.len()).filter(|x| !used[*x]).collect();
            let ki = if cfg.key_orders {
                *cx.pick(&free)
            } else {
                // a fixed, unsorted selection
                free[(k * 3 + 1) % free.len()]
            };
            used[ki] = true;
            let v = child(cx, cfg, budget, depth);
            out.push((cfg.keys[ki].to_string(), v));
        }
        Doc::Dict(out)
    } else {
        Doc::Arr((0..n).map(|_| child(cx, cfg, budget, depth)).collect())
    }
}

fn child(cx: &mut Cx, cfg: &TreeCfg, budget: &mut usize, depth: usize) -> Doc {
    let extra = usize::from(depth > 1);
    let k = cx.choose(cfg.leaves.len() + extra);
    if k < cfg.leaves.len() {
        cfg.leaves[k].clone()
    } else {
        coll(cx, cfg, budget, depth - 1)
    }
}

/// The document spaces that exercise the encoder end to end; each is (name, bounds, split, maker).
pub type Maker = std::rc::Rc<dyn Fn(&mut Cx) -> Doc>;
pub struct Space {
    pub name: &'static str,
    pub bounds: String,
    pub split: usize,
    pub make: Maker,
}

fn space(name: &'static str, bounds: String, split: usize, f: impl Fn(&mut Cx) -> Doc + 'static) -> Space {
    Space { name, bounds, split, make: std::rc::Rc::new(f) }
}

pub fn lens(tier: Tier) -> Vec<usize> {
    let mut v: Vec<usize> = (0..tier.sel(1100, 4200)).collect();
    for c in [1023usize, 2047, 4095, 8191, 16383, 16384, 32767, 65535, 65536] {
        v.extend(c - 2..=c + 3);
    }
    v.extend([(1 << 21) - 1, 1 << 21, (1 << 21) + 1]);
    v.sort_unstable();
    v.dedup();
    v
}

/// Deterministic text of a given byte length (multi-byte characters included when `uni`).
pub fn text(n: usize, seed: usize, uni: bool) -> String {
    let mut o = String::with_capacity(n);
    let mut k = seed;
    while o.len() < n {
        if uni && n - o.len() >= 3 && k % 3 == 0 {
            o.push('日');
        } else {
            o.push((b'a' + (k % 26) as u8) as char);
        }
        k += 1;
    }
    o
}

pub fn bytes(n: usize, seed: usize) -> Vec<u8> {
    (0..n).map(|k| ((k + seed) * 151 >> 1) as u8).collect()
}

/// Characters that something might treat in a special way: all up to U+024F, the ends of the encoded lengths, marks, separators.
pub fn characters() -> Vec<char> {
    let mut v: Vec<char> = (0..0x250u32).filter_map(char::from_u32).collect();
    for c in [0x300u32, 0x37F, 0x7FF, 0x800, 0x200B, 0x200D, 0x2028, 0x2029, 0x202E, 0x3042, 0xD7FF, 0xE000, 0xFEFF, 0xFFFD, 0xFFFE, 0xFFFF, 0x10000, 0x1F600, 0x1FFFF, 0x20000, 0xFFFFF, 0x100000, 0x10FFFF] {
        v.extend(char::from_u32(c));
    }
    v
}

pub fn with_character(c: char, place: usize, around: &str) -> String {
    let (a, b) = around.split_at(around.len() / 2);
    match place {
        0 => c.to_string(),
        1 => format!("{c}{around}"),
        2 => format!("{around}{c}"),
        3 => format!("{a}{c}{b}"),
        _ => c.to_string().repeat(around.len() / 2),
    }
}

pub fn spaces(tier: Tier) -> Vec<Space> {
    let mut v = vec![];
    let all = leaves();
    {
        let cfg = TreeCfg {
            nodes: tier.sel(4, 5),
            depth: 3,
            leaves: all[..4].to_vec(),
            keys: vec!["a", "ab", "", LONG_KEY],
            key_orders: true,
        };
        v.push(space(
            "trees",
            format!("all trees of <= {} nodes below the root, depth <= 3, 4 leaf classes, all ordered selections of 4 keys", cfg.nodes),
            4,
            move |cx| tree(cx, &cfg),
        ));
    }
    {
        let cfg = TreeCfg {
            nodes: tier.sel(6, 8),
            depth: tier.sel(4, 5),
            leaves: vec![i(1)],
            keys: vec!["b", "ab", "", "a", "abc"],
            key_orders: false,
        };
        v.push(space(
            "shapes",
            format!("all tree shapes of <= {} nodes below the root, depth <= {}, one leaf class", cfg.nodes, cfg.depth),
            4,
            move |cx| tree(cx, &cfg),
        ));
    }
    {
        let cfg = TreeCfg {
            nodes: 2,
            depth: 2,
            leaves: all.clone(),
            keys: vec!["a", "bb", ""],
            key_orders: true,
        };
        v.push(space(
            "leaf-pairs",
            format!("all pairs of {} leaf classes in arrays and dicts, depth <= 2, all ordered key pairs of 3", all.len()),
            3,
            move |cx| tree(cx, &cfg),
        ));
    }
    {
        let l = lens(tier);
        v.push(space(
            "lengths",
            format!("{} string/data/key lengths: every length up to {} and around 2^10..2^21", l.len(), tier.sel(1100, 4200)),
            1,
            move |cx| {
                let n = *cx.pick(&l);
                match cx.choose(7) {
                    0 => Doc::Arr(vec![Doc::Str(text(n, 1, false))]),
                    6 => {
                        // keys that differ only after a common beginning
                        let p = text(n, 5, false);
                        Doc::Dict(["b", "a", "", "ab"].iter().enumerate().map(|(k, x)| (format!("{p}{x}"), i(k as i128))).collect())
                    }
                    1 => Doc::Arr(vec![i(7), Doc::Data(bytes(n, 3)), s("tail")]),
                    2 => Doc::Dict(vec![("k".into(), Doc::Str(text(n, 2, true))), ("a".into(), i(-5))]),
                    3 => Doc::Dict(vec![(text(n, 0, false), i(9)), ("zz".into(), s("x"))]),
                    4 => Doc::Arr(vec![Doc::Dict(vec![(text(n, 3, true), Doc::Null)]), Doc::Str(text(n / 2, 1, false))]),
                    _ => Doc::Dict(vec![("d".into(), Doc::Data(bytes(n, 1))), ("e".into(), Doc::Arr(vec![Doc::Data(bytes(n, 2))]))]),
                }
            },
        ));
    }
    {
        let chars = characters();
        v.push(space(
            "characters",
            format!("each of {} characters and each byte value: alone, first, last, in the middle, repeated; in short and long strings, data and keys", chars.len()),
            1,
            move |cx| {
                let k = cx.choose(chars.len() + 256);
                let place = cx.choose(5);
                let around = *cx.pick(&["xy", "twelve chars", "some text of forty-one bytes, no less....."]);
                if k < chars.len() {
                    let t = with_character(chars[k], place, around);
                    if cx.flag() {
                        Doc::Arr(vec![Doc::Str(t), i(3)])
                    } else {
                        Doc::Dict(vec![(t.clone(), i(3)), ("other key".into(), Doc::Str(t))])
                    }
                } else {
                    let x = (k - chars.len()) as u8;
                    let mut b = around.as_bytes().to_vec();
                    match place {
                        0 => b = vec![x],
                        1 => b.insert(0, x),
                        2 => b.push(x),
                        3 => b.insert(around.len() / 2, x),
                        _ => b = vec![x; around.len()],
                    }
                    Doc::Arr(vec![Doc::Data(b), i(3)])
                }
            },
        ));
    }
    {
        let mut c: Vec<usize> = (0..tier.sel(300, 2100)).collect();
        for k in [255usize, 1023, 2047, 4096, 8192, 16384] {
            c.extend(k - 3..=k + 3);
        }
        c.extend(2030..2060);
        if tier.thorough() {
            c.extend((32766..32771).chain(65534..65539));
        }
        c.sort_unstable();
        c.dedup();
        v.push(space(
            "counts",
            format!("{} element counts (every count up to {} and around 2^8..2^14, 2047) x 6 element kinds", c.len(), tier.sel(300, 2100)),
            1,
            move |cx| {
                let n = *cx.pick(&c);
                match cx.choose(6) {
                    0 => Doc::Arr((0..n).map(|k| i((k % 2048) as i128)).collect()),
                    1 => Doc::Arr((0..n).map(|k| s(["x", "", "yy", "zzz"][k % 4])).collect()),
                    2 => Doc::Dict((0..n).map(|k| (format!("k{k:05}"), i(k as i128))).collect()),
                    3 => Doc::Dict((0..n).rev().map(|k| (format!("{k}"), s("v"))).collect()),
                    4 => Doc::Arr((0..n).map(|k| if k % 5 == 0 { Doc::Arr(vec![]) } else { Doc::Null }).collect()),
                    _ => Doc::Dict(
                        (0..n)
                            .map(|k| {
                                let q = (k * 7 + 3) % n.max(1);
                                let q = if n % 7 == 0 { k } else { q };
                                (format!("key{q:x}"), if k % 3 == 0 { Doc::Dict(vec![]) } else { i(-(k as i128) * 1000) })
                            })
                            .collect(),
                    ),
                }
            },
        ));
    }
    {
        let depth = tier.sel(200usize, 600);
        v.push(space(
            "nesting",
            format!("every nesting depth up to {depth} of arrays, dicts and mixtures"),
            1,
            move |cx| {
                let n = cx.choose(depth) + 1;
                let kind = cx.choose(4);
                let mut d = s("deep");
                for k in 0..n {
                    d = match kind {
                        0 => Doc::Arr(vec![d]),
                        1 => Doc::Dict(vec![("a".into(), d)]),
                        2 if k % 2 == 0 => Doc::Arr(vec![i(1), d]),
                        2 => Doc::Dict(vec![("kk".into(), d), ("b".into(), Doc::Null)]),
                        _ => Doc::Arr(vec![d, s("after the nested value")]),
                    };
                }
                d
            },
        ));
    }
    {
        let keys = ["b", "", "aa", "a", "ab", "é", "zzzzzzzzzzzzzzzz"];
        let n = tier.sel(5usize, 6);
        v.push(space(
            "key-orders",
            format!("all ordered selections of up to {n} of 7 keys"),
            3,
            move |cx| {
                let m = cx.choose(n + 1);
                let mut free: Vec<usize> = (0..keys.len()).collect();
                let mut out = vec![];
                for k in 0..m {
                    let x = cx.choose(free.len());
                    let ki = free.remove(x);
                    out.push((keys[ki].to_string(), if k % 2 == 0 { i(ki as i128) } else { s(keys[ki]) }));
                }
                Doc::Dict(out)
            },
        ));
    }
    v
}
