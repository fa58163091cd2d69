//! Types with real derived code (part of C19), to bind the shapes to what users write.

use crate::engine::*;
use serde::{de::DeserializeOwned, Deserialize, Serialize};
use std::borrow::Cow;
use std::collections::{BTreeMap, BTreeSet, HashMap, HashSet, VecDeque};
use std::fmt::Debug;

type R<T> = Result<T, String>;

fn rt<T: Serialize + DeserializeOwned + PartialEq + Debug>(v: &T) -> R<u64> {
    let b = fleece::to_bytes(v).map_err(|e| format!("to_bytes {v:?}: {e}"))?;
    let got: T = fleece::from_bytes(&b).map_err(|e| format!("from_bytes {v:?}: {e}"))?;
    if got != *v {
        return Err(format!("{got:?} comes back instead of {v:?}"));
    }
    let sc = fleece::to_bytes_with_shared_keys(v).map_err(|e| format!("to_bytes_with_shared_keys {v:?}: {e}"))?;
    let data = sc.data().ok_or("the scope has no data")?;
    let got = fleece::from_bytes::<T>(&data);
    sc.remove();
    let got = got.map_err(|e| format!("with shared keys: from_bytes {v:?}: {e}"))?;
    if got != *v {
        return Err(format!("with shared keys: {got:?} comes back instead of {v:?}"));
    }
    Ok(2)
}

#[derive(Serialize, Deserialize, PartialEq, Debug, Clone, Default)]
struct Unit;
#[derive(Serialize, Deserialize, PartialEq, Debug, Clone, Default)]
struct Wrap<T>(T);
#[derive(Serialize, Deserialize, PartialEq, Debug, Clone, Default)]
struct Pair<T>(T, i64);
#[derive(Serialize, Deserialize, PartialEq, Debug, Clone, Default)]
struct NoElements();
#[derive(Serialize, Deserialize, PartialEq, Debug, Clone, Default)]
struct NoFields {}
#[derive(Serialize, Deserialize, PartialEq, Debug, Clone)]
#[serde(transparent)]
struct Transparent<T> {
    inner: T,
}

#[derive(Serialize, Deserialize, PartialEq, Debug, Clone)]
enum Kinds<T> {
    Unit,
    New(T),
    Tuple(T, u8),
    Struct { a: T, the_second_field_of_it: Option<T> },
    Empty {},
    Nothing(),
    #[serde(rename = "another name, not shareable")]
    Renamed,
}

#[derive(Serialize, Deserialize, PartialEq, Debug, Clone)]
struct Record<T> {
    id: u64,
    #[serde(rename = "type of it")]
    kind: T,
    more: Option<Box<Record<T>>>,
    list: Vec<T>,
    map: BTreeMap<String, T>,
    #[serde(default, skip_serializing_if = "Vec::is_empty")]
    skipped: Vec<u8>,
    unit: (),
}

fn record<T: Clone>(v: &T, deep: usize) -> Record<T> {
    Record {
        id: 1 << (deep * 20),
        kind: v.clone(),
        more: (deep > 0).then(|| Box::new(record(v, deep - 1))),
        list: vec![v.clone(); deep],
        map: (0..deep).map(|k| (format!("k{k}"), v.clone())).collect(),
        skipped: vec![1; deep],
        unit: (),
    }
}

/// A type and its value within everything else.
fn around<T: Serialize + DeserializeOwned + PartialEq + Debug + Clone>(k: usize, v: T) -> Option<R<u64>> {
    Some(match k {
        0 => rt(&Wrap(vec![v])),
        1 => rt(&Pair(v, -1)),
        2 => rt(&Transparent { inner: vec![v] }),
        3 => rt(&Kinds::<T>::Unit),
        4 => rt(&Kinds::New(v)),
        5 => rt(&Kinds::Tuple(v, 255)),
        6 => rt(&Kinds::Struct { a: v, the_second_field_of_it: None }),
        7 => rt(&Kinds::<T>::Empty {}),
        8 => rt(&Kinds::<T>::Nothing()),
        9 => rt(&Kinds::<T>::Renamed),
        10 => rt(&record(&v, 0)),
        11 => rt(&record(&v, 1)),
        12 => rt(&record(&v, 3)),
        13 => rt(&vec![Kinds::New(Kinds::New(v.clone())), Kinds::Unit, Kinds::Tuple(Kinds::Unit, 1), Kinds::Struct { a: Kinds::Struct { a: v, the_second_field_of_it: None }, the_second_field_of_it: Some(Kinds::Unit) }]),
        14 => rt(&[v.clone(), v.clone(), v]),
        15 => rt(&(v.clone(), "text".to_string(), v)),
        16 => rt(&HashMap::from([("b".to_string(), v.clone()), ("not a shareable key".into(), v)])),
        17 => rt(&BTreeMap::from([('é', v.clone()), ('a', v)])),
        18 => rt(&VecDeque::from([v])),
        19 => rt(&Some(vec![v])),
        20 => rt(&Ok::<T, String>(v)),
        21 => rt(&Err::<String, T>(v)),
        22 => rt(&vec![Ok(v.clone()), Err(vec![v])]),
        23 => rt(&Box::new([Some(v), None])),
        24 => rt(&BTreeMap::from([(Wrap("key".to_string()), Wrap(v))])),
        _ => return None,
    })
}

impl PartialOrd for Wrap<String> {
    fn partial_cmp(&self, o: &Self) -> Option<std::cmp::Ordering> {
        Some(self.cmp(o))
    }
}
impl Eq for Wrap<String> {}
impl Ord for Wrap<String> {
    fn cmp(&self, o: &Self) -> std::cmp::Ordering {
        self.0.cmp(&o.0)
    }
}

#[derive(Serialize, Deserialize, PartialEq, Debug, Clone)]
enum Attributes {
    Skipping {
        #[serde(default, skip_serializing_if = "Option::is_none")]
        a: Option<String>,
        b: i32,
        #[serde(default, skip_serializing_if = "Vec::is_empty")]
        c: Vec<u8>,
    },
    Alias {
        #[serde(alias = "former_name", alias = "older name")]
        name: String,
        #[serde(rename = "new name")]
        other: i32,
    },
    Skipped {
        #[serde(skip)]
        never: i32,
        always: i32,
    },
    Flat {
        x: i32,
        #[serde(flatten)]
        rest: BTreeMap<String, i32>,
    },
    #[serde(alias = "Gone")]
    Still(i32),
}

#[derive(Serialize, Deserialize, PartialEq, Debug, Clone)]
#[serde(deny_unknown_fields)]
struct Strict {
    #[serde(alias = "z")]
    a: Option<i32>,
    #[serde(default)]
    b: i32,
}

#[derive(Serialize, Deserialize, PartialEq, Debug, Clone)]
struct Flattened {
    own: i32,
    #[serde(flatten)]
    part: Strict2,
    #[serde(flatten)]
    rest: BTreeMap<String, Vec<i32>>,
}
#[derive(Serialize, Deserialize, PartialEq, Debug, Clone)]
struct Strict2 {
    a: Option<i32>,
    text: String,
}

#[derive(Serialize, Deserialize, PartialEq, Debug, Clone)]
#[serde(tag = "type")]
enum Internal {
    Unit,
    Struct { a: i32, b: Option<String> },
    New(Strict2),
}
#[derive(Serialize, Deserialize, PartialEq, Debug, Clone)]
#[serde(tag = "t", content = "c")]
enum Adjacent {
    Unit,
    New(Vec<i32>),
    Tuple(i32, String),
    Struct { a: f64 },
}
#[derive(Serialize, Deserialize, PartialEq, Debug, Clone)]
#[serde(untagged)]
enum Untagged {
    Num(i32),
    Text(String),
    List(Vec<Untagged>),
    Named { a: bool },
}

/// A number that is written as text where that is asked for, as addresses and times of many crates are.
#[derive(PartialEq, Eq, PartialOrd, Ord, Debug, Clone)]
struct Readable(i32);
impl Serialize for Readable {
    fn serialize<S: serde::Serializer>(&self, s: S) -> Result<S::Ok, S::Error> {
        match s.is_human_readable() {
            true => s.collect_str(&self.0),
            false => s.serialize_i32(self.0),
        }
    }
}
impl<'de> Deserialize<'de> for Readable {
    fn deserialize<D: serde::Deserializer<'de>>(d: D) -> Result<Self, D::Error> {
        match d.is_human_readable() {
            true => String::deserialize(d)?.parse().map(Readable).map_err(serde::de::Error::custom),
            false => i32::deserialize(d).map(Readable),
        }
    }
}

fn attributes(k: usize) -> Option<R<u64>> {
    use Attributes::*;
    Some(match k {
        0 => rt(&Skipping { a: None, b: 1, c: vec![] }),
        1 => rt(&Skipping { a: Some("x".into()), b: 1, c: vec![] }),
        2 => rt(&Skipping { a: None, b: 1, c: vec![1, 2] }),
        3 => rt(&Alias { name: "n".into(), other: 3 }),
        4 => rt(&Skipped { never: 0, always: 1 }),
        5 => rt(&Flat { x: 1, rest: BTreeMap::new() }),
        6 => rt(&Flat { x: 1, rest: BTreeMap::from([("y".to_string(), 2), ("not shareable".to_string(), 3)]) }),
        7 => rt(&Still(9)),
        8 => rt(&vec![Strict { a: None, b: 0 }, Strict { a: Some(1), b: -1 }]),
        9 => rt(&Flattened { own: 1, part: Strict2 { a: None, text: "t".into() }, rest: BTreeMap::from([("r".to_string(), vec![1, 2])]) }),
        10 => rt(&vec![Internal::Unit, Internal::Struct { a: 5, b: None }, Internal::Struct { a: 5, b: Some("b".into()) }, Internal::New(Strict2 { a: Some(1), text: String::new() })]),
        11 => rt(&vec![Adjacent::Unit, Adjacent::New(vec![1, 2000, 3_000_000]), Adjacent::Tuple(-1, "s".into()), Adjacent::Struct { a: 0.1 }]),
        12 => rt(&vec![Untagged::Num(1), Untagged::Text("t".into()), Untagged::List(vec![Untagged::Num(-5), Untagged::Named { a: true }])]),
        13 => rt(&BTreeSet::from([3u64, u64::MAX, 0])),
        14 => rt(&HashSet::from(["a".to_string(), "long text which is not inline".into()])),
        15 => rt(&vec![std::time::Duration::new(u64::MAX, 999_999_999), std::time::Duration::ZERO]),
        16 => rt(&vec![1u16..5, 0..0]),
        17 => rt(&vec![std::num::NonZeroU64::MAX, std::num::NonZeroU64::MIN]),
        18 => rt(&vec![std::net::IpAddr::from([127, 0, 0, 1]), std::net::IpAddr::from([0x2001u16, 0xdb8, 0, 0, 0, 0, 0, 1])]),
        19 => rt(&vec![std::path::PathBuf::from("/a/b"), std::path::PathBuf::new()]),
        20 => rt(&vec![Cow::<'static, str>::Owned("text".into())]),
        21 => rt(&(1u8, -1i8, 1u16, -1i16, 1u32, -1i32, u64::MAX, i64::MIN, 0.5f32, 0.1f64, 'c', "s".to_string())),
        22 => rt(&vec![std::cell::Cell::new(5)]),
        23 => rt(&vec![std::ops::Bound::Included(5), std::ops::Bound::Unbounded, std::ops::Bound::Excluded(-1)]),
        24 => rt(&vec![Some(()), None]),
        25 => rt(&vec![(), ()]),
        26 => rt(&(Unit, NoElements(), NoFields {})),
        27 => rt(&vec![std::marker::PhantomData::<i32>]),
        28 => rt(&[0u8; 32]),
        29 => rt(&vec![std::num::Wrapping(7u8)]),
        30 => rt(&vec![std::time::SystemTime::UNIX_EPOCH]),
        31 => rt(&vec![std::cmp::Reverse(3)]),
        32 => rt(&vec![std::ffi::CString::new("c string").unwrap()]),
        33 => rt(&BTreeMap::from([(std::net::IpAddr::from([127, 0, 0, 1]), 1), (std::net::IpAddr::from([0x2001u16, 0xdb8, 0, 0, 0, 0, 0, 1]), 2)])),
        34 => rt(&BTreeMap::from([(std::net::SocketAddr::from(([10, 0, 0, 1], 8080)), vec![std::net::SocketAddr::from(([10, 0, 0, 1], 8080))])])),
        35 => rt(&BTreeMap::from([(Readable(5), Readable(6)), (Readable(-1), Readable(i32::MAX))])),
        36 => rt(&vec![Readable(5), Readable(-7)]),
        37 => rt(&BTreeMap::from([(Wrap("key".to_string()), BTreeMap::from([(Readable(5), ())]))])),
        38 => rt(&BTreeMap::from([(Some("k".to_string()), 1), (Some("not shareable".to_string()), 2)])),
        39 => rt(&BTreeMap::from([(std::path::PathBuf::from("/a/b"), 1), (std::path::PathBuf::from("c"), 2)])),
        40 => rt(&BTreeMap::from([(Cow::<'static, str>::Owned("k".into()), 1)])),
        41 => rt(&BTreeMap::from([("k".to_string().into_boxed_str(), 1), ("long_key_which_is_no_shared_key".to_string().into_boxed_str(), 2)])),
        42 => rt(&Kinds::Struct { a: BTreeMap::from([(Readable(5), Kinds::New(Readable(5)))]), the_second_field_of_it: None }),
        _ => return None,
    })
}

pub fn scenarios(_t: Tier) -> Vec<Scenario> {
    vec![
        scen("derived types", "25 generic contexts of derived and standard types around 20 inner types and values", 1, |cx| {
            let k = cx.choose(25);
            let r = match cx.choose(20) {
                0 => cx.call("round trip", || around(k, -5i32)),
                1 => cx.call("round trip", || around(k, u64::MAX)),
                2 => cx.call("round trip", || around(k, "a string".to_string())),
                3 => cx.call("round trip", || around(k, 'é')),
                4 => cx.call("round trip", || around(k, 0.1f32)),
                5 => cx.call("round trip", || around(k, f64::MAX)),
                6 => cx.call("round trip", || around(k, true)),
                7 => cx.call("round trip", || around(k, ())),
                8 => cx.call("round trip", || around(k, Wrap(3u8))),
                9 => cx.call("round trip", || around(k, Pair(Wrap("x".to_string()), i64::MIN))),
                10 => cx.call("round trip", || around(k, NoElements())),
                11 => cx.call("round trip", || around(k, NoFields {})),
                12 => cx.call("round trip", || around(k, Kinds::<i8>::Unit)),
                13 => cx.call("round trip", || around(k, Kinds::New("payload".to_string()))),
                14 => cx.call("round trip", || around(k, Kinds::Tuple(vec![1u32 << 30], 9))),
                15 => cx.call("round trip", || around(k, Kinds::Struct { a: 1.5f32, the_second_field_of_it: Some(-0.0) })),
                16 => cx.call("round trip", || around(k, record(&'x', 2))),
                17 => cx.call("round trip", || around(k, vec![vec!["deep".to_string()], vec![]])),
                18 => cx.call("round trip", || around(k, BTreeMap::from([("m".to_string(), Some(1)), ("n n".to_string(), None)]))),
                _ => cx.call("round trip", || around(k, Adjacent::Tuple(70_000, "t".into()))),
            };
            let n = cx.want("round trip", r.unwrap_or(Ok(0)));
            cx.cases(n);
            cx.check(n > 0, "ENGINE", || "no such context".into());
        }),
        scen("unit structs", "contexts that do not put a unit struct into an option", 1, |cx| {
            let k = cx.choose(19);
            if [6, 10, 11, 12].contains(&k) {
                cx.prune();
            }
            let r = cx.call("round trip", || around(k, Unit));
            let n = cx.want("round trip", r.unwrap_or(Ok(0)));
            cx.cases(n);
        }),
        scen("attributes and standard types", "derive attributes (skipped fields, aliases, renames, defaults, flattening, the three other enum representations) and standard library types", 1, |cx| {
            let k = cx.choose(43);
            cx.note(|| format!("case {k}"));
            let r = cx.call("round trip", || attributes(k));
            let n = cx.want("round trip", r.unwrap_or(Ok(0)));
            cx.cases(n);
            cx.check(n > 0, "ENGINE", || "no such case".into());
        }),
    ]
}
