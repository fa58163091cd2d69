// Generated by tools/gen_macros.py
use super::{a, d, Case};
use fleece::{fleece, Encoder};

#[rustfmt::skip]
pub fn part0(k: usize) -> Case {
    let (x, n) = (std::hint::black_box("a longer string"), std::hint::black_box(12345i64));
    let _ = (x, n);
    match k {
        0 => d(fleece!{}, r##"{}"##, r##"{}"##),
        1 => a(fleece!["text"], r##"["text"]"##, r##"["text"]"##),
        2 => d(fleece!{"b": true}, r##"{"b": true}"##, r##"{"b": true}"##),
        3 => a(fleece![[]], r##"[[]]"##, r##"[[]]"##),
        4 => d(fleece!{"a": []}, r##"{"a": []}"##, r##"{"a": []}"##),
        5 => a(fleece![{},], r##"[{},]"##, r##"[{}]"##),
        6 => d(fleece!{"key": {}}, r##"{"key": {}}"##, r##"{"key": {}}"##),
        7 => a(fleece!["t", false], r##"["t", false]"##, r##"["t", false]"##),
        8 => d(fleece!{"key": false, "a long key beyond inlining": 3000000000u32}, r##"{"key": false, "a long key beyond inlining": 3000000000u32}"##, r##"{"key": false, "a long key beyond inlining": 3000000000}"##),
        9 => a(fleece![3000000000u32, []], r##"[3000000000u32, []]"##, r##"[3000000000, []]"##),
        10 => d(fleece!{"a long key beyond inlining": n, "é": [],}, r##"{"a long key beyond inlining": n, "é": [],}"##, r##"{"a long key beyond inlining": 12345, "é": []}"##),
        11 => a(fleece![("é".repeat(9).as_str()), {}], r##"[("é".repeat(9).as_str()), {}]"##, r##"["ééééééééé", {}]"##),
        12 => d(fleece!{"é": (if n > 1 { 2 } else { 3 }), "": {}}, r##"{"é": (if n > 1 { 2 } else { 3 }), "": {}}"##, r##"{"é": 2, "": {}}"##),
        13 => a(fleece![[], 7], r##"[[], 7]"##, r##"[[], 7]"##),
        14 => d(fleece!{"é": [], "": "text"}, r##"{"é": [], "": "text"}"##, r##"{"é": [], "": "text"}"##),
        15 => a(fleece![[], [],], r##"[[], [],]"##, r##"[[], []]"##),
        16 => d(fleece!{"": [], "B": []}, r##"{"": [], "B": []}"##, r##"{"": [], "B": []}"##),
        17 => a(fleece![[], {}], r##"[[], {}]"##, r##"[[], {}]"##),
        18 => d(fleece!{"B": [], "b": {}}, r##"{"B": [], "b": {}}"##, r##"{"B": [], "b": {}}"##),
        19 => a(fleece![{}, (None::<u8>)], r##"[{}, (None::<u8>)]"##, r##"[{}, null]"##),
        20 => d(fleece!{"B": {}, "b": "t",}, r##"{"B": {}, "b": "t",}"##, r##"{"B": {}, "b": "t"}"##),
        21 => a(fleece![{}, []], r##"[{}, []]"##, r##"[{}, []]"##),
        22 => d(fleece!{"b": {}, "a": []}, r##"{"b": {}, "a": []}"##, r##"{"b": {}, "a": []}"##),
        23 => a(fleece![{}, {}], r##"[{}, {}]"##, r##"[{}, {}]"##),
        24 => d(fleece!{"a": {}, "key": {}}, r##"{"a": {}, "key": {}}"##, r##"{"a": {}, "key": {}}"##),
        25 => a(fleece![[(if n > 1 { 2 } else { 3 }),],], r##"[[(if n > 1 { 2 } else { 3 }),],]"##, r##"[[2]]"##),
        26 => d(fleece!{"a": [7]}, r##"{"a": [7]}"##, r##"{"a": [7]}"##),
        27 => a(fleece![{"key": "text"}], r##"[{"key": "text"}]"##, r##"[{"key": "text"}]"##),
        28 => d(fleece!{"key": {"key": true}}, r##"{"key": {"key": true}}"##, r##"{"key": {"key": true}}"##),
        29 => a(fleece![[[]]], r##"[[[]]]"##, r##"[[[]]]"##),
        30 => d(fleece!{"a long key beyond inlining": [[],],}, r##"{"a long key beyond inlining": [[],],}"##, r##"{"a long key beyond inlining": [[]]}"##),
        31 => a(fleece![{"a long key beyond inlining": []}], r##"[{"a long key beyond inlining": []}]"##, r##"[{"a long key beyond inlining": []}]"##),
        32 => d(fleece!{"a long key beyond inlining": {"a long key beyond inlining": []}}, r##"{"a long key beyond inlining": {"a long key beyond inlining": []}}"##, r##"{"a long key beyond inlining": {"a long key beyond inlining": []}}"##),
        33 => a(fleece![[{}]], r##"[[{}]]"##, r##"[[{}]]"##),
        34 => d(fleece!{"é": [{}]}, r##"{"é": [{}]}"##, r##"{"é": [{}]}"##),
        35 => a(fleece![{"é": {},},], r##"[{"é": {},},]"##, r##"[{"é": {}}]"##),
        36 => d(fleece!{"": {"": {}}}, r##"{"": {"": {}}}"##, r##"{"": {"": {}}}"##),
        37 => a(fleece![("é".repeat(9).as_str()), (if n > 1 { 2 } else { 3 }), 7], r##"[("é".repeat(9).as_str()), (if n > 1 { 2 } else { 3 }), 7]"##, r##"["ééééééééé", 2, 7]"##),
        38 => d(fleece!{"": (if n > 1 { 2 } else { 3 }), "B": 7, "b": "text"}, r##"{"": (if n > 1 { 2 } else { 3 }), "B": 7, "b": "text"}"##, r##"{"": 2, "B": 7, "b": "text"}"##),
        39 => a(fleece![7, "text", []], r##"[7, "text", []]"##, r##"[7, "text", []]"##),
        40 => d(fleece!{"B": "text", "b": true, "a": [],}, r##"{"B": "text", "b": true, "a": [],}"##, r##"{"B": "text", "b": true, "a": []}"##),
        41 => a(fleece![true, (-70000i32), {}], r##"[true, (-70000i32), {}]"##, r##"[true, -70000, {}]"##),
        42 => d(fleece!{"b": (-70000i32), "a": x, "key": {}}, r##"{"b": (-70000i32), "a": x, "key": {}}"##, r##"{"b": -70000, "a": "a longer string", "key": {}}"##),
        43 => a(fleece![x, [], 1.5], r##"[x, [], 1.5]"##, r##"["a longer string", [], 1.5]"##),
        44 => d(fleece!{"b": 1.5, "a": [], "key": (None::<u8>)}, r##"{"b": 1.5, "a": [], "key": (None::<u8>)}"##, r##"{"b": 1.5, "a": [], "key": null}"##),
        45 => a(fleece![(None::<u8>), [], [],], r##"[(None::<u8>), [], [],]"##, r##"[null, [], []]"##),
        46 => d(fleece!{"a": "t", "key": [], "a long key beyond inlining": []}, r##"{"a": "t", "key": [], "a long key beyond inlining": []}"##, r##"{"a": "t", "key": [], "a long key beyond inlining": []}"##),
        47 => a(fleece![false, [], {}], r##"[false, [], {}]"##, r##"[false, [], {}]"##),
        48 => d(fleece!{"key": 3000000000u32, "a long key beyond inlining": [], "é": {}}, r##"{"key": 3000000000u32, "a long key beyond inlining": [], "é": {}}"##, r##"{"key": 3000000000, "a long key beyond inlining": [], "é": {}}"##),
        49 => a(fleece![n, {}, ("é".repeat(9).as_str())], r##"[n, {}, ("é".repeat(9).as_str())]"##, r##"[12345, {}, "ééééééééé"]"##),
        50 => d(fleece!{"key": ("é".repeat(9).as_str()), "a long key beyond inlining": {}, "é": (if n > 1 { 2 } else { 3 }),}, r##"{"key": ("é".repeat(9).as_str()), "a long key beyond inlining": {}, "é": (if n > 1 { 2 } else { 3 }),}"##, r##"{"key": "ééééééééé", "a long key beyond inlining": {}, "é": 2}"##),
        51 => a(fleece![(if n > 1 { 2 } else { 3 }), {}, []], r##"[(if n > 1 { 2 } else { 3 }), {}, []]"##, r##"[2, {}, []]"##),
        52 => d(fleece!{"a long key beyond inlining": 7, "é": {}, "": []}, r##"{"a long key beyond inlining": 7, "é": {}, "": []}"##, r##"{"a long key beyond inlining": 7, "é": {}, "": []}"##),
        53 => a(fleece!["text", {}, {}], r##"["text", {}, {}]"##, r##"["text", {}, {}]"##),
        54 => d(fleece!{"é": true, "": {}, "B": {}}, r##"{"é": true, "": {}, "B": {}}"##, r##"{"é": true, "": {}, "B": {}}"##),
        55 => a(fleece![(-70000i32), [x,],], r##"[(-70000i32), [x,],]"##, r##"[-70000, ["a longer string"]]"##),
        56 => d(fleece!{"é": x, "": [1.5]}, r##"{"é": x, "": [1.5]}"##, r##"{"é": "a longer string", "": [1.5]}"##),
        57 => a(fleece![1.5, {"": (None::<u8>)}], r##"[1.5, {"": (None::<u8>)}]"##, r##"[1.5, {"": null}]"##),
        58 => d(fleece!{"": (None::<u8>), "B": {"": "t"}}, r##"{"": (None::<u8>), "B": {"": "t"}}"##, r##"{"": null, "B": {"": "t"}}"##),
        59 => a(fleece!["t", [[]]], r##"["t", [[]]]"##, r##"["t", [[]]]"##),
        60 => d(fleece!{"B": false, "b": [[],],}, r##"{"B": false, "b": [[],],}"##, r##"{"B": false, "b": [[]]}"##),
        61 => a(fleece![3000000000u32, {"B": []}], r##"[3000000000u32, {"B": []}]"##, r##"[3000000000, {"B": []}]"##),
        62 => d(fleece!{"B": n, "b": {"B": []}}, r##"{"B": n, "b": {"B": []}}"##, r##"{"B": 12345, "b": {"B": []}}"##),
        63 => a(fleece![("é".repeat(9).as_str()), [{}]], r##"[("é".repeat(9).as_str()), [{}]]"##, r##"["ééééééééé", [{}]]"##),
        64 => d(fleece!{"b": (if n > 1 { 2 } else { 3 }), "a": [{}]}, r##"{"b": (if n > 1 { 2 } else { 3 }), "a": [{}]}"##, r##"{"b": 2, "a": [{}]}"##),
        65 => a(fleece![7, {"b": {},},], r##"[7, {"b": {},},]"##, r##"[7, {"b": {}}]"##),
        66 => d(fleece!{"a": "text", "key": {"a": {}}}, r##"{"a": "text", "key": {"a": {}}}"##, r##"{"a": "text", "key": {"a": {}}}"##),
        67 => a(fleece![[], true, (-70000i32)], r##"[[], true, (-70000i32)]"##, r##"[[], true, -70000]"##),
        68 => d(fleece!{"a": [], "key": (-70000i32), "a long key beyond inlining": x}, r##"{"a": [], "key": (-70000i32), "a long key beyond inlining": x}"##, r##"{"a": [], "key": -70000, "a long key beyond inlining": "a longer string"}"##),
        69 => a(fleece![[], x, []], r##"[[], x, []]"##, r##"[[], "a longer string", []]"##),
        70 => d(fleece!{"key": [], "a long key beyond inlining": 1.5, "é": [],}, r##"{"key": [], "a long key beyond inlining": 1.5, "é": [],}"##, r##"{"key": [], "a long key beyond inlining": 1.5, "é": []}"##),
        71 => a(fleece![[], (None::<u8>), {}], r##"[[], (None::<u8>), {}]"##, r##"[[], null, {}]"##),
        72 => d(fleece!{"a long key beyond inlining": [], "é": "t", "": {}}, r##"{"a long key beyond inlining": [], "é": "t", "": {}}"##, r##"{"a long key beyond inlining": [], "é": "t", "": {}}"##),
        73 => a(fleece![[], [], false], r##"[[], [], false]"##, r##"[[], [], false]"##),
        74 => d(fleece!{"a long key beyond inlining": [], "é": [], "": 3000000000u32}, r##"{"a long key beyond inlining": [], "é": [], "": 3000000000u32}"##, r##"{"a long key beyond inlining": [], "é": [], "": 3000000000}"##),
        75 => a(fleece![[], [], [],], r##"[[], [], [],]"##, r##"[[], [], []]"##),
        76 => d(fleece!{"é": [], "": [], "B": []}, r##"{"é": [], "": [], "B": []}"##, r##"{"é": [], "": [], "B": []}"##),
        77 => a(fleece![[], [], {}], r##"[[], [], {}]"##, r##"[[], [], {}]"##),
        78 => d(fleece!{"": [], "B": [], "b": {}}, r##"{"": [], "B": [], "b": {}}"##, r##"{"": [], "B": [], "b": {}}"##),
        79 => a(fleece![[], {}, "text"], r##"[[], {}, "text"]"##, r##"[[], {}, "text"]"##),
        80 => d(fleece!{"": [], "B": {}, "b": true,}, r##"{"": [], "B": {}, "b": true,}"##, r##"{"": [], "B": {}, "b": true}"##),
        81 => a(fleece![[], {}, []], r##"[[], {}, []]"##, r##"[[], {}, []]"##),
        82 => d(fleece!{"B": [], "b": {}, "a": []}, r##"{"B": [], "b": {}, "a": []}"##, r##"{"B": [], "b": {}, "a": []}"##),
        83 => a(fleece![[], {}, {}], r##"[[], {}, {}]"##, r##"[[], {}, {}]"##),
        84 => d(fleece!{"b": [], "a": {}, "key": {}}, r##"{"b": [], "a": {}, "key": {}}"##, r##"{"b": [], "a": {}, "key": {}}"##),
        85 => a(fleece![[], ["t",],], r##"[[], ["t",],]"##, r##"[[], ["t"]]"##),
        86 => d(fleece!{"b": [], "a": [false]}, r##"{"b": [], "a": [false]}"##, r##"{"b": [], "a": [false]}"##),
        87 => a(fleece![[], {"a": 3000000000u32}], r##"[[], {"a": 3000000000u32}]"##, r##"[[], {"a": 3000000000}]"##),
        88 => d(fleece!{"a": [], "key": {"a": n}}, r##"{"a": [], "key": {"a": n}}"##, r##"{"a": [], "key": {"a": 12345}}"##),
        89 => a(fleece![[], [[]]], r##"[[], [[]]]"##, r##"[[], [[]]]"##),
        90 => d(fleece!{"key": [], "a long key beyond inlining": [[],],}, r##"{"key": [], "a long key beyond inlining": [[],],}"##, r##"{"key": [], "a long key beyond inlining": [[]]}"##),
        91 => a(fleece![[], {"key": []}], r##"[[], {"key": []}]"##, r##"[[], {"key": []}]"##),
        92 => d(fleece!{"key": [], "a long key beyond inlining": {"key": []}}, r##"{"key": [], "a long key beyond inlining": {"key": []}}"##, r##"{"key": [], "a long key beyond inlining": {"key": []}}"##),
        93 => a(fleece![[], [{}]], r##"[[], [{}]]"##, r##"[[], [{}]]"##),
        94 => d(fleece!{"a long key beyond inlining": [], "é": [{}]}, r##"{"a long key beyond inlining": [], "é": [{}]}"##, r##"{"a long key beyond inlining": [], "é": [{}]}"##),
        95 => a(fleece![[], {"a long key beyond inlining": {},},], r##"[[], {"a long key beyond inlining": {},},]"##, r##"[[], {"a long key beyond inlining": {}}]"##),
        96 => d(fleece!{"é": [], "": {"é": {}}}, r##"{"é": [], "": {"é": {}}}"##, r##"{"é": [], "": {"é": {}}}"##),
        97 => a(fleece![{}, (None::<u8>), "t"], r##"[{}, (None::<u8>), "t"]"##, r##"[{}, null, "t"]"##),
        98 => d(fleece!{"é": {}, "": "t", "B": false}, r##"{"é": {}, "": "t", "B": false}"##, r##"{"é": {}, "": "t", "B": false}"##),
        _ => a(fleece![{}, false, []], r##"[{}, false, []]"##, r##"[{}, false, []]"##),
    }
}
#[rustfmt::skip]
pub fn part1(k: usize) -> Case {
    let (x, n) = (std::hint::black_box("a longer string"), std::hint::black_box(12345i64));
    let _ = (x, n);
    match k {
        0 => d(fleece!{"": {}, "B": 3000000000u32, "b": [],}, r##"{"": {}, "B": 3000000000u32, "b": [],}"##, r##"{"": {}, "B": 3000000000, "b": []}"##),
        1 => a(fleece![{}, n, {}], r##"[{}, n, {}]"##, r##"[{}, 12345, {}]"##),
        2 => d(fleece!{"B": {}, "b": ("é".repeat(9).as_str()), "a": {}}, r##"{"B": {}, "b": ("é".repeat(9).as_str()), "a": {}}"##, r##"{"B": {}, "b": "ééééééééé", "a": {}}"##),
        3 => a(fleece![{}, [], (if n > 1 { 2 } else { 3 })], r##"[{}, [], (if n > 1 { 2 } else { 3 })]"##, r##"[{}, [], 2]"##),
        4 => d(fleece!{"B": {}, "b": [], "a": 7}, r##"{"B": {}, "b": [], "a": 7}"##, r##"{"B": {}, "b": [], "a": 7}"##),
        5 => a(fleece![{}, [], [],], r##"[{}, [], [],]"##, r##"[{}, [], []]"##),
        6 => d(fleece!{"b": {}, "a": [], "key": []}, r##"{"b": {}, "a": [], "key": []}"##, r##"{"b": {}, "a": [], "key": []}"##),
        7 => a(fleece![{}, [], {}], r##"[{}, [], {}]"##, r##"[{}, [], {}]"##),
        8 => d(fleece!{"a": {}, "key": [], "a long key beyond inlining": {}}, r##"{"a": {}, "key": [], "a long key beyond inlining": {}}"##, r##"{"a": {}, "key": [], "a long key beyond inlining": {}}"##),
        9 => a(fleece![{}, {}, 1.5], r##"[{}, {}, 1.5]"##, r##"[{}, {}, 1.5]"##),
        10 => d(fleece!{"a": {}, "key": {}, "a long key beyond inlining": (None::<u8>),}, r##"{"a": {}, "key": {}, "a long key beyond inlining": (None::<u8>),}"##, r##"{"a": {}, "key": {}, "a long key beyond inlining": null}"##),
        11 => a(fleece![{}, {}, []], r##"[{}, {}, []]"##, r##"[{}, {}, []]"##),
        12 => d(fleece!{"key": {}, "a long key beyond inlining": {}, "é": []}, r##"{"key": {}, "a long key beyond inlining": {}, "é": []}"##, r##"{"key": {}, "a long key beyond inlining": {}, "é": []}"##),
        13 => a(fleece![{}, {}, {}], r##"[{}, {}, {}]"##, r##"[{}, {}, {}]"##),
        14 => d(fleece!{"a long key beyond inlining": {}, "é": {}, "": {}}, r##"{"a long key beyond inlining": {}, "é": {}, "": {}}"##, r##"{"a long key beyond inlining": {}, "é": {}, "": {}}"##),
        15 => a(fleece![{}, [("é".repeat(9).as_str()),],], r##"[{}, [("é".repeat(9).as_str()),],]"##, r##"[{}, ["ééééééééé"]]"##),
        16 => d(fleece!{"a long key beyond inlining": {}, "é": [(if n > 1 { 2 } else { 3 })]}, r##"{"a long key beyond inlining": {}, "é": [(if n > 1 { 2 } else { 3 })]}"##, r##"{"a long key beyond inlining": {}, "é": [2]}"##),
        17 => a(fleece![{}, {"é": 7}], r##"[{}, {"é": 7}]"##, r##"[{}, {"é": 7}]"##),
        18 => d(fleece!{"é": {}, "": {"é": "text"}}, r##"{"é": {}, "": {"é": "text"}}"##, r##"{"é": {}, "": {"é": "text"}}"##),
        19 => a(fleece![{}, [[]]], r##"[{}, [[]]]"##, r##"[{}, [[]]]"##),
        20 => d(fleece!{"": {}, "B": [[],],}, r##"{"": {}, "B": [[],],}"##, r##"{"": {}, "B": [[]]}"##),
        21 => a(fleece![{}, {"": []}], r##"[{}, {"": []}]"##, r##"[{}, {"": []}]"##),
        22 => d(fleece!{"": {}, "B": {"": []}}, r##"{"": {}, "B": {"": []}}"##, r##"{"": {}, "B": {"": []}}"##),
        23 => a(fleece![{}, [{}]], r##"[{}, [{}]]"##, r##"[{}, [{}]]"##),
        24 => d(fleece!{"B": {}, "b": [{}]}, r##"{"B": {}, "b": [{}]}"##, r##"{"B": {}, "b": [{}]}"##),
        25 => a(fleece![{}, {"B": {},},], r##"[{}, {"B": {},},]"##, r##"[{}, {"B": {}}]"##),
        26 => d(fleece!{"b": {}, "a": {"b": {}}}, r##"{"b": {}, "a": {"b": {}}}"##, r##"{"b": {}, "a": {"b": {}}}"##),
        27 => a(fleece![[n], ("é".repeat(9).as_str())], r##"[[n], ("é".repeat(9).as_str())]"##, r##"[[12345], "ééééééééé"]"##),
        28 => d(fleece!{"b": [("é".repeat(9).as_str())], "a": (if n > 1 { 2 } else { 3 })}, r##"{"b": [("é".repeat(9).as_str())], "a": (if n > 1 { 2 } else { 3 })}"##, r##"{"b": ["ééééééééé"], "a": 2}"##),
        29 => a(fleece![[(if n > 1 { 2 } else { 3 })], []], r##"[[(if n > 1 { 2 } else { 3 })], []]"##, r##"[[2], []]"##),
        30 => d(fleece!{"a": [7,], "key": [],}, r##"{"a": [7,], "key": [],}"##, r##"{"a": [7], "key": []}"##),
        31 => a(fleece![["text"], {}], r##"[["text"], {}]"##, r##"[["text"], {}]"##),
        32 => d(fleece!{"key": [true], "a long key beyond inlining": {}}, r##"{"key": [true], "a long key beyond inlining": {}}"##, r##"{"key": [true], "a long key beyond inlining": {}}"##),
        33 => a(fleece![{"key": (-70000i32)}, x], r##"[{"key": (-70000i32)}, x]"##, r##"[{"key": -70000}, "a longer string"]"##),
        34 => d(fleece!{"key": {"key": x}, "a long key beyond inlining": 1.5}, r##"{"key": {"key": x}, "a long key beyond inlining": 1.5}"##, r##"{"key": {"key": "a longer string"}, "a long key beyond inlining": 1.5}"##),
        35 => a(fleece![{"a long key beyond inlining": 1.5,}, [],], r##"[{"a long key beyond inlining": 1.5,}, [],]"##, r##"[{"a long key beyond inlining": 1.5}, []]"##),
        36 => d(fleece!{"a long key beyond inlining": {"a long key beyond inlining": (None::<u8>)}, "é": []}, r##"{"a long key beyond inlining": {"a long key beyond inlining": (None::<u8>)}, "é": []}"##, r##"{"a long key beyond inlining": {"a long key beyond inlining": null}, "é": []}"##),
        37 => a(fleece![{"a long key beyond inlining": "t"}, {}], r##"[{"a long key beyond inlining": "t"}, {}]"##, r##"[{"a long key beyond inlining": "t"}, {}]"##),
        38 => d(fleece!{"é": {"é": false}, "": {}}, r##"{"é": {"é": false}, "": {}}"##, r##"{"é": {"é": false}, "": {}}"##),
        39 => a(fleece![[[]], 3000000000u32], r##"[[[]], 3000000000u32]"##, r##"[[[]], 3000000000]"##),
        40 => d(fleece!{"é": [[],], "": n,}, r##"{"é": [[],], "": n,}"##, r##"{"é": [[]], "": 12345}"##),
        41 => a(fleece![[[]], []], r##"[[[]], []]"##, r##"[[[]], []]"##),
        42 => d(fleece!{"": [[]], "B": []}, r##"{"": [[]], "B": []}"##, r##"{"": [[]], "B": []}"##),
        43 => a(fleece![[[]], {}], r##"[[[]], {}]"##, r##"[[[]], {}]"##),
        44 => d(fleece!{"B": [[]], "b": {}}, r##"{"B": [[]], "b": {}}"##, r##"{"B": [[]], "b": {}}"##),
        45 => a(fleece![{"B": [],}, true,], r##"[{"B": [],}, true,]"##, r##"[{"B": []}, true]"##),
        46 => d(fleece!{"B": {"B": []}, "b": (-70000i32)}, r##"{"B": {"B": []}, "b": (-70000i32)}"##, r##"{"B": {"B": []}, "b": -70000}"##),
        47 => a(fleece![{"b": []}, []], r##"[{"b": []}, []]"##, r##"[{"b": []}, []]"##),
        48 => d(fleece!{"b": {"b": []}, "a": []}, r##"{"b": {"b": []}, "a": []}"##, r##"{"b": {"b": []}, "a": []}"##),
        49 => a(fleece![{"b": []}, {}], r##"[{"b": []}, {}]"##, r##"[{"b": []}, {}]"##),
        50 => d(fleece!{"a": {"a": [],}, "key": {},}, r##"{"a": {"a": [],}, "key": {},}"##, r##"{"a": {"a": []}, "key": {}}"##),
        51 => a(fleece![[{}], false], r##"[[{}], false]"##, r##"[[{}], false]"##),
        52 => d(fleece!{"a": [{}], "key": 3000000000u32}, r##"{"a": [{}], "key": 3000000000u32}"##, r##"{"a": [{}], "key": 3000000000}"##),
        53 => a(fleece![[{}], []], r##"[[{}], []]"##, r##"[[{}], []]"##),
        54 => d(fleece!{"key": [{}], "a long key beyond inlining": []}, r##"{"key": [{}], "a long key beyond inlining": []}"##, r##"{"key": [{}], "a long key beyond inlining": []}"##),
        55 => a(fleece![[{},], {},], r##"[[{},], {},]"##, r##"[[{}], {}]"##),
        56 => d(fleece!{"a long key beyond inlining": [{}], "é": {}}, r##"{"a long key beyond inlining": [{}], "é": {}}"##, r##"{"a long key beyond inlining": [{}], "é": {}}"##),
        57 => a(fleece![{"a long key beyond inlining": {}}, "text"], r##"[{"a long key beyond inlining": {}}, "text"]"##, r##"[{"a long key beyond inlining": {}}, "text"]"##),
        58 => d(fleece!{"a long key beyond inlining": {"a long key beyond inlining": {}}, "é": true}, r##"{"a long key beyond inlining": {"a long key beyond inlining": {}}, "é": true}"##, r##"{"a long key beyond inlining": {"a long key beyond inlining": {}}, "é": true}"##),
        59 => a(fleece![{"é": {}}, []], r##"[{"é": {}}, []]"##, r##"[{"é": {}}, []]"##),
        60 => d(fleece!{"é": {"é": {},}, "": [],}, r##"{"é": {"é": {},}, "": [],}"##, r##"{"é": {"é": {}}, "": []}"##),
        61 => a(fleece![{"é": {}}, {}], r##"[{"é": {}}, {}]"##, r##"[{"é": {}}, {}]"##),
        62 => d(fleece!{"": {"": {}}, "B": {}}, r##"{"": {"": {}}, "B": {}}"##, r##"{"": {"": {}}, "B": {}}"##),
        63 => a(fleece![["t", false]], r##"[["t", false]]"##, r##"[["t", false]]"##),
        64 => d(fleece!{"": [false, 3000000000u32]}, r##"{"": [false, 3000000000u32]}"##, r##"{"": [false, 3000000000]}"##),
        65 => a(fleece![{"B": 3000000000u32, "b": n,},], r##"[{"B": 3000000000u32, "b": n,},]"##, r##"[{"B": 3000000000, "b": 12345}]"##),
        66 => d(fleece!{"B": {"B": n, "b": ("é".repeat(9).as_str())}}, r##"{"B": {"B": n, "b": ("é".repeat(9).as_str())}}"##, r##"{"B": {"B": 12345, "b": "ééééééééé"}}"##),
        67 => a(fleece![[("é".repeat(9).as_str()), []]], r##"[[("é".repeat(9).as_str()), []]]"##, r##"[["ééééééééé", []]]"##),
        68 => d(fleece!{"b": [(if n > 1 { 2 } else { 3 }), []]}, r##"{"b": [(if n > 1 { 2 } else { 3 }), []]}"##, r##"{"b": [2, []]}"##),
        69 => a(fleece![{"b": 7, "a": []}], r##"[{"b": 7, "a": []}]"##, r##"[{"b": 7, "a": []}]"##),
        70 => d(fleece!{"b": {"b": "text", "a": [],},}, r##"{"b": {"b": "text", "a": [],},}"##, r##"{"b": {"b": "text", "a": []}}"##),
        71 => a(fleece![[true, {}]], r##"[[true, {}]]"##, r##"[[true, {}]]"##),
        72 => d(fleece!{"a": [(-70000i32), {}]}, r##"{"a": [(-70000i32), {}]}"##, r##"{"a": [-70000, {}]}"##),
        73 => a(fleece![{"a": x, "key": {}}], r##"[{"a": x, "key": {}}]"##, r##"[{"a": "a longer string", "key": {}}]"##),
        74 => d(fleece!{"key": {"key": 1.5, "a long key beyond inlining": {}}}, r##"{"key": {"key": 1.5, "a long key beyond inlining": {}}}"##, r##"{"key": {"key": 1.5, "a long key beyond inlining": {}}}"##),
        75 => a(fleece![[[], (None::<u8>),],], r##"[[[], (None::<u8>),],]"##, r##"[[[], null]]"##),
        76 => d(fleece!{"key": [[], "t"]}, r##"{"key": [[], "t"]}"##, r##"{"key": [[], "t"]}"##),
        77 => a(fleece![{"a long key beyond inlining": [], "é": false}], r##"[{"a long key beyond inlining": [], "é": false}]"##, r##"[{"a long key beyond inlining": [], "é": false}]"##),
        78 => d(fleece!{"a long key beyond inlining": {"a long key beyond inlining": [], "é": 3000000000u32}}, r##"{"a long key beyond inlining": {"a long key beyond inlining": [], "é": 3000000000u32}}"##, r##"{"a long key beyond inlining": {"a long key beyond inlining": [], "é": 3000000000}}"##),
        79 => a(fleece![[[], []]], r##"[[[], []]]"##, r##"[[[], []]]"##),
        80 => d(fleece!{"é": [[], [],],}, r##"{"é": [[], [],],}"##, r##"{"é": [[], []]}"##),
        81 => a(fleece![{"é": [], "": []}], r##"[{"é": [], "": []}]"##, r##"[{"é": [], "": []}]"##),
        82 => d(fleece!{"é": {"é": [], "": []}}, r##"{"é": {"é": [], "": []}}"##, r##"{"é": {"é": [], "": []}}"##),
        83 => a(fleece![[[], {}]], r##"[[[], {}]]"##, r##"[[[], {}]]"##),
        84 => d(fleece!{"": [[], {}]}, r##"{"": [[], {}]}"##, r##"{"": [[], {}]}"##),
        85 => a(fleece![{"": [], "B": {},},], r##"[{"": [], "B": {},},]"##, r##"[{"": [], "B": {}}]"##),
        86 => d(fleece!{"B": {"B": [], "b": {}}}, r##"{"B": {"B": [], "b": {}}}"##, r##"{"B": {"B": [], "b": {}}}"##),
        87 => a(fleece![[{}, 1.5]], r##"[[{}, 1.5]]"##, r##"[[{}, 1.5]]"##),
        88 => d(fleece!{"B": [{}, (None::<u8>)]}, r##"{"B": [{}, (None::<u8>)]}"##, r##"{"B": [{}, null]}"##),
        89 => a(fleece![{"b": {}, "a": "t"}], r##"[{"b": {}, "a": "t"}]"##, r##"[{"b": {}, "a": "t"}]"##),
        90 => d(fleece!{"b": {"b": {}, "a": false,},}, r##"{"b": {"b": {}, "a": false,},}"##, r##"{"b": {"b": {}, "a": false}}"##),
        91 => a(fleece![[{}, []]], r##"[[{}, []]]"##, r##"[[{}, []]]"##),
        92 => d(fleece!{"a": [{}, []]}, r##"{"a": [{}, []]}"##, r##"{"a": [{}, []]}"##),
        93 => a(fleece![{"a": {}, "key": []}], r##"[{"a": {}, "key": []}]"##, r##"[{"a": {}, "key": []}]"##),
        94 => d(fleece!{"a": {"a": {}, "key": []}}, r##"{"a": {"a": {}, "key": []}}"##, r##"{"a": {"a": {}, "key": []}}"##),
        95 => a(fleece![[{}, {},],], r##"[[{}, {},],]"##, r##"[[{}, {}]]"##),
        96 => d(fleece!{"key": [{}, {}]}, r##"{"key": [{}, {}]}"##, r##"{"key": [{}, {}]}"##),
        97 => a(fleece![{"key": {}, "a long key beyond inlining": {}}], r##"[{"key": {}, "a long key beyond inlining": {}}]"##, r##"[{"key": {}, "a long key beyond inlining": {}}]"##),
        98 => d(fleece!{"a long key beyond inlining": {"a long key beyond inlining": {}, "é": {}}}, r##"{"a long key beyond inlining": {"a long key beyond inlining": {}, "é": {}}}"##, r##"{"a long key beyond inlining": {"a long key beyond inlining": {}, "é": {}}}"##),
        _ => a(fleece![[[x]]], r##"[[[x]]]"##, r##"[[["a longer string"]]]"##),
    }
}
#[rustfmt::skip]
pub fn part2(k: usize) -> Case {
    let (x, n) = (std::hint::black_box("a longer string"), std::hint::black_box(12345i64));
    let _ = (x, n);
    match k {
        0 => d(fleece!{"a long key beyond inlining": [[1.5,],],}, r##"{"a long key beyond inlining": [[1.5,],],}"##, r##"{"a long key beyond inlining": [[1.5]]}"##),
        1 => a(fleece![{"é": [(None::<u8>)]}], r##"[{"é": [(None::<u8>)]}]"##, r##"[{"é": [null]}]"##),
        2 => d(fleece!{"é": {"é": ["t"]}}, r##"{"é": {"é": ["t"]}}"##, r##"{"é": {"é": ["t"]}}"##),
        3 => a(fleece![[{"é": false}]], r##"[[{"é": false}]]"##, r##"[[{"é": false}]]"##),
        4 => d(fleece!{"": [{"": 3000000000u32}]}, r##"{"": [{"": 3000000000u32}]}"##, r##"{"": [{"": 3000000000}]}"##),
        5 => a(fleece![{"": {"": n,},},], r##"[{"": {"": n,},},]"##, r##"[{"": {"": 12345}}]"##),
        6 => d(fleece!{"": {"": {"": ("é".repeat(9).as_str())}}}, r##"{"": {"": {"": ("é".repeat(9).as_str())}}}"##, r##"{"": {"": {"": "ééééééééé"}}}"##),
        7 => a(fleece![[[[]]]], r##"[[[[]]]]"##, r##"[[[[]]]]"##),
        8 => d(fleece!{"B": [[[]]]}, r##"{"B": [[[]]]}"##, r##"{"B": [[[]]]}"##),
        9 => a(fleece![{"B": [[]]}], r##"[{"B": [[]]}]"##, r##"[{"B": [[]]}]"##),
        10 => d(fleece!{"b": {"b": [[],],},}, r##"{"b": {"b": [[],],},}"##, r##"{"b": {"b": [[]]}}"##),
        11 => a(fleece![[{"b": []}]], r##"[[{"b": []}]]"##, r##"[[{"b": []}]]"##),
        12 => d(fleece!{"b": [{"b": []}]}, r##"{"b": [{"b": []}]}"##, r##"{"b": [{"b": []}]}"##),
        13 => a(fleece![{"a": {"a": []}}], r##"[{"a": {"a": []}}]"##, r##"[{"a": {"a": []}}]"##),
        14 => d(fleece!{"a": {"a": {"a": []}}}, r##"{"a": {"a": {"a": []}}}"##, r##"{"a": {"a": {"a": []}}}"##),
        15 => a(fleece![[[{},],],], r##"[[[{},],],]"##, r##"[[[{}]]]"##),
        16 => d(fleece!{"key": [[{}]]}, r##"{"key": [[{}]]}"##, r##"{"key": [[{}]]}"##),
        17 => a(fleece![{"key": [{}]}], r##"[{"key": [{}]}]"##, r##"[{"key": [{}]}]"##),
        18 => d(fleece!{"key": {"key": [{}]}}, r##"{"key": {"key": [{}]}}"##, r##"{"key": {"key": [{}]}}"##),
        19 => a(fleece![[{"a long key beyond inlining": {}}]], r##"[[{"a long key beyond inlining": {}}]]"##, r##"[[{"a long key beyond inlining": {}}]]"##),
        20 => d(fleece!{"a long key beyond inlining": [{"a long key beyond inlining": {},},],}, r##"{"a long key beyond inlining": [{"a long key beyond inlining": {},},],}"##, r##"{"a long key beyond inlining": [{"a long key beyond inlining": {}}]}"##),
        21 => a(fleece![{"a long key beyond inlining": {"a long key beyond inlining": {}}}], r##"[{"a long key beyond inlining": {"a long key beyond inlining": {}}}]"##, r##"[{"a long key beyond inlining": {"a long key beyond inlining": {}}}]"##),
        22 => d(fleece!{"é": {"é": {"é": {}}}}, r##"{"é": {"é": {"é": {}}}}"##, r##"{"é": {"é": {"é": {}}}}"##),
        23 => a(fleece![true, (-70000i32), x, 1.5], r##"[true, (-70000i32), x, 1.5]"##, r##"[true, -70000, "a longer string", 1.5]"##),
        24 => d(fleece!{"é": (-70000i32), "": x, "B": 1.5, "b": (None::<u8>)}, r##"{"é": (-70000i32), "": x, "B": 1.5, "b": (None::<u8>)}"##, r##"{"é": -70000, "": "a longer string", "B": 1.5, "b": null}"##),
        25 => a(fleece![x, 1.5, (None::<u8>), [],], r##"[x, 1.5, (None::<u8>), [],]"##, r##"["a longer string", 1.5, null, []]"##),
        26 => d(fleece!{"": 1.5, "B": (None::<u8>), "b": "t", "a": []}, r##"{"": 1.5, "B": (None::<u8>), "b": "t", "a": []}"##, r##"{"": 1.5, "B": null, "b": "t", "a": []}"##),
        27 => a(fleece![(None::<u8>), "t", false, {}], r##"[(None::<u8>), "t", false, {}]"##, r##"[null, "t", false, {}]"##),
        28 => d(fleece!{"B": "t", "b": false, "a": 3000000000u32, "key": {}}, r##"{"B": "t", "b": false, "a": 3000000000u32, "key": {}}"##, r##"{"B": "t", "b": false, "a": 3000000000, "key": {}}"##),
        29 => a(fleece![false, 3000000000u32, [], n], r##"[false, 3000000000u32, [], n]"##, r##"[false, 3000000000, [], 12345]"##),
        30 => d(fleece!{"B": 3000000000u32, "b": n, "a": [], "key": ("é".repeat(9).as_str()),}, r##"{"B": 3000000000u32, "b": n, "a": [], "key": ("é".repeat(9).as_str()),}"##, r##"{"B": 3000000000, "b": 12345, "a": [], "key": "ééééééééé"}"##),
        31 => a(fleece![n, ("é".repeat(9).as_str()), [], []], r##"[n, ("é".repeat(9).as_str()), [], []]"##, r##"[12345, "ééééééééé", [], []]"##),
        32 => d(fleece!{"b": ("é".repeat(9).as_str()), "a": (if n > 1 { 2 } else { 3 }), "key": [], "a long key beyond inlining": []}, r##"{"b": ("é".repeat(9).as_str()), "a": (if n > 1 { 2 } else { 3 }), "key": [], "a long key beyond inlining": []}"##, r##"{"b": "ééééééééé", "a": 2, "key": [], "a long key beyond inlining": []}"##),
        33 => a(fleece![(if n > 1 { 2 } else { 3 }), 7, [], {}], r##"[(if n > 1 { 2 } else { 3 }), 7, [], {}]"##, r##"[2, 7, [], {}]"##),
        34 => d(fleece!{"a": 7, "key": "text", "a long key beyond inlining": [], "é": {}}, r##"{"a": 7, "key": "text", "a long key beyond inlining": [], "é": {}}"##, r##"{"a": 7, "key": "text", "a long key beyond inlining": [], "é": {}}"##),
        35 => a(fleece!["text", true, {}, (-70000i32),], r##"["text", true, {}, (-70000i32),]"##, r##"["text", true, {}, -70000]"##),
        36 => d(fleece!{"a": true, "key": (-70000i32), "a long key beyond inlining": {}, "é": x}, r##"{"a": true, "key": (-70000i32), "a long key beyond inlining": {}, "é": x}"##, r##"{"a": true, "key": -70000, "a long key beyond inlining": {}, "é": "a longer string"}"##),
        37 => a(fleece![(-70000i32), x, {}, []], r##"[(-70000i32), x, {}, []]"##, r##"[-70000, "a longer string", {}, []]"##),
        38 => d(fleece!{"key": x, "a long key beyond inlining": 1.5, "é": {}, "": []}, r##"{"key": x, "a long key beyond inlining": 1.5, "é": {}, "": []}"##, r##"{"key": "a longer string", "a long key beyond inlining": 1.5, "é": {}, "": []}"##),
        39 => a(fleece![1.5, (None::<u8>), {}, {}], r##"[1.5, (None::<u8>), {}, {}]"##, r##"[1.5, null, {}, {}]"##),
        40 => d(fleece!{"a long key beyond inlining": (None::<u8>), "é": "t", "": {}, "B": {},}, r##"{"a long key beyond inlining": (None::<u8>), "é": "t", "": {}, "B": {},}"##, r##"{"a long key beyond inlining": null, "é": "t", "": {}, "B": {}}"##),
        41 => a(fleece!["t", false, [3000000000u32]], r##"["t", false, [3000000000u32]]"##, r##"["t", false, [3000000000]]"##),
        42 => d(fleece!{"a long key beyond inlining": false, "é": 3000000000u32, "": [n]}, r##"{"a long key beyond inlining": false, "é": 3000000000u32, "": [n]}"##, r##"{"a long key beyond inlining": false, "é": 3000000000, "": [12345]}"##),
        43 => a(fleece![3000000000u32, n, {"é": ("é".repeat(9).as_str())}], r##"[3000000000u32, n, {"é": ("é".repeat(9).as_str())}]"##, r##"[3000000000, 12345, {"é": "ééééééééé"}]"##),
        44 => d(fleece!{"é": n, "": ("é".repeat(9).as_str()), "B": {"é": (if n > 1 { 2 } else { 3 })}}, r##"{"é": n, "": ("é".repeat(9).as_str()), "B": {"é": (if n > 1 { 2 } else { 3 })}}"##, r##"{"é": 12345, "": "ééééééééé", "B": {"é": 2}}"##),
        45 => a(fleece![("é".repeat(9).as_str()), (if n > 1 { 2 } else { 3 }), [[],],], r##"[("é".repeat(9).as_str()), (if n > 1 { 2 } else { 3 }), [[],],]"##, r##"["ééééééééé", 2, [[]]]"##),
        46 => d(fleece!{"": (if n > 1 { 2 } else { 3 }), "B": 7, "b": [[]]}, r##"{"": (if n > 1 { 2 } else { 3 }), "B": 7, "b": [[]]}"##, r##"{"": 2, "B": 7, "b": [[]]}"##),
        47 => a(fleece![7, "text", {"": []}], r##"[7, "text", {"": []}]"##, r##"[7, "text", {"": []}]"##),
        48 => d(fleece!{"": "text", "B": true, "b": {"": []}}, r##"{"": "text", "B": true, "b": {"": []}}"##, r##"{"": "text", "B": true, "b": {"": []}}"##),
        49 => a(fleece![true, (-70000i32), [{}]], r##"[true, (-70000i32), [{}]]"##, r##"[true, -70000, [{}]]"##),
        50 => d(fleece!{"B": (-70000i32), "b": x, "a": [{},],}, r##"{"B": (-70000i32), "b": x, "a": [{},],}"##, r##"{"B": -70000, "b": "a longer string", "a": [{}]}"##),
        51 => a(fleece![x, 1.5, {"B": {}}], r##"[x, 1.5, {"B": {}}]"##, r##"["a longer string", 1.5, {"B": {}}]"##),
        52 => d(fleece!{"b": 1.5, "a": (None::<u8>), "key": {"b": {}}}, r##"{"b": 1.5, "a": (None::<u8>), "key": {"b": {}}}"##, r##"{"b": 1.5, "a": null, "key": {"b": {}}}"##),
        53 => a(fleece![(None::<u8>), [], "t", false], r##"[(None::<u8>), [], "t", false]"##, r##"[null, [], "t", false]"##),
        54 => d(fleece!{"b": "t", "a": [], "key": false, "a long key beyond inlining": 3000000000u32}, r##"{"b": "t", "a": [], "key": false, "a long key beyond inlining": 3000000000u32}"##, r##"{"b": "t", "a": [], "key": false, "a long key beyond inlining": 3000000000}"##),
        55 => a(fleece![false, [], 3000000000u32, [],], r##"[false, [], 3000000000u32, [],]"##, r##"[false, [], 3000000000, []]"##),
        56 => d(fleece!{"a": 3000000000u32, "key": [], "a long key beyond inlining": n, "é": []}, r##"{"a": 3000000000u32, "key": [], "a long key beyond inlining": n, "é": []}"##, r##"{"a": 3000000000, "key": [], "a long key beyond inlining": 12345, "é": []}"##),
        57 => a(fleece![n, [], ("é".repeat(9).as_str()), {}], r##"[n, [], ("é".repeat(9).as_str()), {}]"##, r##"[12345, [], "ééééééééé", {}]"##),
        58 => d(fleece!{"key": ("é".repeat(9).as_str()), "a long key beyond inlining": [], "é": (if n > 1 { 2 } else { 3 }), "": {}}, r##"{"key": ("é".repeat(9).as_str()), "a long key beyond inlining": [], "é": (if n > 1 { 2 } else { 3 }), "": {}}"##, r##"{"key": "ééééééééé", "a long key beyond inlining": [], "é": 2, "": {}}"##),
        59 => a(fleece![(if n > 1 { 2 } else { 3 }), [], [], 7], r##"[(if n > 1 { 2 } else { 3 }), [], [], 7]"##, r##"[2, [], [], 7]"##),
        60 => d(fleece!{"key": 7, "a long key beyond inlining": [], "é": [], "": "text",}, r##"{"key": 7, "a long key beyond inlining": [], "é": [], "": "text",}"##, r##"{"key": 7, "a long key beyond inlining": [], "é": [], "": "text"}"##),
        61 => a(fleece!["text", [], [], []], r##"["text", [], [], []]"##, r##"["text", [], [], []]"##),
        62 => d(fleece!{"a long key beyond inlining": true, "é": [], "": [], "B": []}, r##"{"a long key beyond inlining": true, "é": [], "": [], "B": []}"##, r##"{"a long key beyond inlining": true, "é": [], "": [], "B": []}"##),
        63 => a(fleece![(-70000i32), [], [], {}], r##"[(-70000i32), [], [], {}]"##, r##"[-70000, [], [], {}]"##),
        64 => d(fleece!{"é": x, "": [], "B": [], "b": {}}, r##"{"é": x, "": [], "B": [], "b": {}}"##, r##"{"é": "a longer string", "": [], "B": [], "b": {}}"##),
        65 => a(fleece![1.5, [], {}, (None::<u8>),], r##"[1.5, [], {}, (None::<u8>),]"##, r##"[1.5, [], {}, null]"##),
        66 => d(fleece!{"é": (None::<u8>), "": [], "B": {}, "b": "t"}, r##"{"é": (None::<u8>), "": [], "B": {}, "b": "t"}"##, r##"{"é": null, "": [], "B": {}, "b": "t"}"##),
        67 => a(fleece!["t", [], {}, []], r##"["t", [], {}, []]"##, r##"["t", [], {}, []]"##),
        68 => d(fleece!{"": false, "B": [], "b": {}, "a": []}, r##"{"": false, "B": [], "b": {}, "a": []}"##, r##"{"": false, "B": [], "b": {}, "a": []}"##),
        69 => a(fleece![3000000000u32, [], {}, {}], r##"[3000000000u32, [], {}, {}]"##, r##"[3000000000, [], {}, {}]"##),
        70 => d(fleece!{"B": n, "b": [], "a": {}, "key": {},}, r##"{"B": n, "b": [], "a": {}, "key": {},}"##, r##"{"B": 12345, "b": [], "a": {}, "key": {}}"##),
        71 => a(fleece![("é".repeat(9).as_str()), [], [(if n > 1 { 2 } else { 3 })]], r##"[("é".repeat(9).as_str()), [], [(if n > 1 { 2 } else { 3 })]]"##, r##"["ééééééééé", [], [2]]"##),
        72 => d(fleece!{"B": (if n > 1 { 2 } else { 3 }), "b": [], "a": [7]}, r##"{"B": (if n > 1 { 2 } else { 3 }), "b": [], "a": [7]}"##, r##"{"B": 2, "b": [], "a": [7]}"##),
        73 => a(fleece![7, [], {"b": "text"}], r##"[7, [], {"b": "text"}]"##, r##"[7, [], {"b": "text"}]"##),
        74 => d(fleece!{"b": "text", "a": [], "key": {"b": true}}, r##"{"b": "text", "a": [], "key": {"b": true}}"##, r##"{"b": "text", "a": [], "key": {"b": true}}"##),
        75 => a(fleece![true, [], [[],],], r##"[true, [], [[],],]"##, r##"[true, [], [[]]]"##),
        76 => d(fleece!{"a": (-70000i32), "key": [], "a long key beyond inlining": [[]]}, r##"{"a": (-70000i32), "key": [], "a long key beyond inlining": [[]]}"##, r##"{"a": -70000, "key": [], "a long key beyond inlining": [[]]}"##),
        77 => a(fleece![x, [], {"a": []}], r##"[x, [], {"a": []}]"##, r##"["a longer string", [], {"a": []}]"##),
        78 => d(fleece!{"a": 1.5, "key": [], "a long key beyond inlining": {"a": []}}, r##"{"a": 1.5, "key": [], "a long key beyond inlining": {"a": []}}"##, r##"{"a": 1.5, "key": [], "a long key beyond inlining": {"a": []}}"##),
        79 => a(fleece![(None::<u8>), [], [{}]], r##"[(None::<u8>), [], [{}]]"##, r##"[null, [], [{}]]"##),
        80 => d(fleece!{"key": "t", "a long key beyond inlining": [], "é": [{},],}, r##"{"key": "t", "a long key beyond inlining": [], "é": [{},],}"##, r##"{"key": "t", "a long key beyond inlining": [], "é": [{}]}"##),
        81 => a(fleece![false, [], {"key": {}}], r##"[false, [], {"key": {}}]"##, r##"[false, [], {"key": {}}]"##),
        82 => d(fleece!{"a long key beyond inlining": 3000000000u32, "é": [], "": {"a long key beyond inlining": {}}}, r##"{"a long key beyond inlining": 3000000000u32, "é": [], "": {"a long key beyond inlining": {}}}"##, r##"{"a long key beyond inlining": 3000000000, "é": [], "": {"a long key beyond inlining": {}}}"##),
        83 => a(fleece![n, {}, ("é".repeat(9).as_str()), (if n > 1 { 2 } else { 3 })], r##"[n, {}, ("é".repeat(9).as_str()), (if n > 1 { 2 } else { 3 })]"##, r##"[12345, {}, "ééééééééé", 2]"##),
        84 => d(fleece!{"a long key beyond inlining": ("é".repeat(9).as_str()), "é": {}, "": (if n > 1 { 2 } else { 3 }), "B": 7}, r##"{"a long key beyond inlining": ("é".repeat(9).as_str()), "é": {}, "": (if n > 1 { 2 } else { 3 }), "B": 7}"##, r##"{"a long key beyond inlining": "ééééééééé", "é": {}, "": 2, "B": 7}"##),
        85 => a(fleece![(if n > 1 { 2 } else { 3 }), {}, 7, [],], r##"[(if n > 1 { 2 } else { 3 }), {}, 7, [],]"##, r##"[2, {}, 7, []]"##),
        86 => d(fleece!{"é": 7, "": {}, "B": "text", "b": []}, r##"{"é": 7, "": {}, "B": "text", "b": []}"##, r##"{"é": 7, "": {}, "B": "text", "b": []}"##),
        87 => a(fleece!["text", {}, true, {}], r##"["text", {}, true, {}]"##, r##"["text", {}, true, {}]"##),
        88 => d(fleece!{"": true, "B": {}, "b": (-70000i32), "a": {}}, r##"{"": true, "B": {}, "b": (-70000i32), "a": {}}"##, r##"{"": true, "B": {}, "b": -70000, "a": {}}"##),
        89 => a(fleece![(-70000i32), {}, [], x], r##"[(-70000i32), {}, [], x]"##, r##"[-70000, {}, [], "a longer string"]"##),
        90 => d(fleece!{"": x, "B": {}, "b": [], "a": 1.5,}, r##"{"": x, "B": {}, "b": [], "a": 1.5,}"##, r##"{"": "a longer string", "B": {}, "b": [], "a": 1.5}"##),
        91 => a(fleece![1.5, {}, [], []], r##"[1.5, {}, [], []]"##, r##"[1.5, {}, [], []]"##),
        92 => d(fleece!{"B": (None::<u8>), "b": {}, "a": [], "key": []}, r##"{"B": (None::<u8>), "b": {}, "a": [], "key": []}"##, r##"{"B": null, "b": {}, "a": [], "key": []}"##),
        93 => a(fleece!["t", {}, [], {}], r##"["t", {}, [], {}]"##, r##"["t", {}, [], {}]"##),
        94 => d(fleece!{"b": false, "a": {}, "key": [], "a long key beyond inlining": {}}, r##"{"b": false, "a": {}, "key": [], "a long key beyond inlining": {}}"##, r##"{"b": false, "a": {}, "key": [], "a long key beyond inlining": {}}"##),
        95 => a(fleece![3000000000u32, {}, {}, n,], r##"[3000000000u32, {}, {}, n,]"##, r##"[3000000000, {}, {}, 12345]"##),
        96 => d(fleece!{"b": n, "a": {}, "key": {}, "a long key beyond inlining": ("é".repeat(9).as_str())}, r##"{"b": n, "a": {}, "key": {}, "a long key beyond inlining": ("é".repeat(9).as_str())}"##, r##"{"b": 12345, "a": {}, "key": {}, "a long key beyond inlining": "ééééééééé"}"##),
        97 => a(fleece![("é".repeat(9).as_str()), {}, {}, []], r##"[("é".repeat(9).as_str()), {}, {}, []]"##, r##"["ééééééééé", {}, {}, []]"##),
        98 => d(fleece!{"a": (if n > 1 { 2 } else { 3 }), "key": {}, "a long key beyond inlining": {}, "é": []}, r##"{"a": (if n > 1 { 2 } else { 3 }), "key": {}, "a long key beyond inlining": {}, "é": []}"##, r##"{"a": 2, "key": {}, "a long key beyond inlining": {}, "é": []}"##),
        _ => a(fleece![7, {}, {}, {}], r##"[7, {}, {}, {}]"##, r##"[7, {}, {}, {}]"##),
    }
}
#[rustfmt::skip]
pub fn part3(k: usize) -> Case {
    let (x, n) = (std::hint::black_box("a longer string"), std::hint::black_box(12345i64));
    let _ = (x, n);
    match k {
        0 => d(fleece!{"key": "text", "a long key beyond inlining": {}, "é": {}, "": {},}, r##"{"key": "text", "a long key beyond inlining": {}, "é": {}, "": {},}"##, r##"{"key": "text", "a long key beyond inlining": {}, "é": {}, "": {}}"##),
        1 => a(fleece![true, {}, [(-70000i32)]], r##"[true, {}, [(-70000i32)]]"##, r##"[true, {}, [-70000]]"##),
        2 => d(fleece!{"key": (-70000i32), "a long key beyond inlining": {}, "é": [x]}, r##"{"key": (-70000i32), "a long key beyond inlining": {}, "é": [x]}"##, r##"{"key": -70000, "a long key beyond inlining": {}, "é": ["a longer string"]}"##),
        3 => a(fleece![x, {}, {"a long key beyond inlining": 1.5}], r##"[x, {}, {"a long key beyond inlining": 1.5}]"##, r##"["a longer string", {}, {"a long key beyond inlining": 1.5}]"##),
        4 => d(fleece!{"a long key beyond inlining": 1.5, "é": {}, "": {"a long key beyond inlining": (None::<u8>)}}, r##"{"a long key beyond inlining": 1.5, "é": {}, "": {"a long key beyond inlining": (None::<u8>)}}"##, r##"{"a long key beyond inlining": 1.5, "é": {}, "": {"a long key beyond inlining": null}}"##),
        5 => a(fleece![(None::<u8>), {}, [[],],], r##"[(None::<u8>), {}, [[],],]"##, r##"[null, {}, [[]]]"##),
        6 => d(fleece!{"é": "t", "": {}, "B": [[]]}, r##"{"é": "t", "": {}, "B": [[]]}"##, r##"{"é": "t", "": {}, "B": [[]]}"##),
        7 => a(fleece![false, {}, {"é": []}], r##"[false, {}, {"é": []}]"##, r##"[false, {}, {"é": []}]"##),
        8 => d(fleece!{"é": 3000000000u32, "": {}, "B": {"é": []}}, r##"{"é": 3000000000u32, "": {}, "B": {"é": []}}"##, r##"{"é": 3000000000, "": {}, "B": {"é": []}}"##),
        9 => a(fleece![n, {}, [{}]], r##"[n, {}, [{}]]"##, r##"[12345, {}, [{}]]"##),
        10 => d(fleece!{"": ("é".repeat(9).as_str()), "B": {}, "b": [{},],}, r##"{"": ("é".repeat(9).as_str()), "B": {}, "b": [{},],}"##, r##"{"": "ééééééééé", "B": {}, "b": [{}]}"##),
        11 => a(fleece![(if n > 1 { 2 } else { 3 }), {}, {"": {}}], r##"[(if n > 1 { 2 } else { 3 }), {}, {"": {}}]"##, r##"[2, {}, {"": {}}]"##),
        12 => d(fleece!{"B": 7, "b": {}, "a": {"B": {}}}, r##"{"B": 7, "b": {}, "a": {"B": {}}}"##, r##"{"B": 7, "b": {}, "a": {"B": {}}}"##),
        13 => a(fleece!["text", [true], (-70000i32)], r##"["text", [true], (-70000i32)]"##, r##"["text", [true], -70000]"##),
        14 => d(fleece!{"B": true, "b": [(-70000i32)], "a": x}, r##"{"B": true, "b": [(-70000i32)], "a": x}"##, r##"{"B": true, "b": [-70000], "a": "a longer string"}"##),
        15 => a(fleece![(-70000i32), [x,], [],], r##"[(-70000i32), [x,], [],]"##, r##"[-70000, ["a longer string"], []]"##),
        16 => d(fleece!{"b": x, "a": [1.5], "key": []}, r##"{"b": x, "a": [1.5], "key": []}"##, r##"{"b": "a longer string", "a": [1.5], "key": []}"##),
        17 => a(fleece![1.5, [(None::<u8>)], {}], r##"[1.5, [(None::<u8>)], {}]"##, r##"[1.5, [null], {}]"##),
        18 => d(fleece!{"a": (None::<u8>), "key": ["t"], "a long key beyond inlining": {}}, r##"{"a": (None::<u8>), "key": ["t"], "a long key beyond inlining": {}}"##, r##"{"a": null, "key": ["t"], "a long key beyond inlining": {}}"##),
        19 => a(fleece!["t", {"a": false}, 3000000000u32], r##"["t", {"a": false}, 3000000000u32]"##, r##"["t", {"a": false}, 3000000000]"##),
        20 => d(fleece!{"a": false, "key": {"a": 3000000000u32,}, "a long key beyond inlining": n,}, r##"{"a": false, "key": {"a": 3000000000u32,}, "a long key beyond inlining": n,}"##, r##"{"a": false, "key": {"a": 3000000000}, "a long key beyond inlining": 12345}"##),
        21 => a(fleece![3000000000u32, {"key": n}, []], r##"[3000000000u32, {"key": n}, []]"##, r##"[3000000000, {"key": 12345}, []]"##),
        22 => d(fleece!{"key": n, "a long key beyond inlining": {"key": ("é".repeat(9).as_str())}, "é": []}, r##"{"key": n, "a long key beyond inlining": {"key": ("é".repeat(9).as_str())}, "é": []}"##, r##"{"key": 12345, "a long key beyond inlining": {"key": "ééééééééé"}, "é": []}"##),
        23 => a(fleece![("é".repeat(9).as_str()), {"key": (if n > 1 { 2 } else { 3 })}, {}], r##"[("é".repeat(9).as_str()), {"key": (if n > 1 { 2 } else { 3 })}, {}]"##, r##"["ééééééééé", {"key": 2}, {}]"##),
        24 => d(fleece!{"a long key beyond inlining": (if n > 1 { 2 } else { 3 }), "é": {"a long key beyond inlining": 7}, "": {}}, r##"{"a long key beyond inlining": (if n > 1 { 2 } else { 3 }), "é": {"a long key beyond inlining": 7}, "": {}}"##, r##"{"a long key beyond inlining": 2, "é": {"a long key beyond inlining": 7}, "": {}}"##),
        25 => a(fleece![7, [[],], "text",], r##"[7, [[],], "text",]"##, r##"[7, [[]], "text"]"##),
        26 => d(fleece!{"a long key beyond inlining": "text", "é": [[]], "": true}, r##"{"a long key beyond inlining": "text", "é": [[]], "": true}"##, r##"{"a long key beyond inlining": "text", "é": [[]], "": true}"##),
        27 => a(fleece![true, [[]], []], r##"[true, [[]], []]"##, r##"[true, [[]], []]"##),
        28 => d(fleece!{"é": (-70000i32), "": [[]], "B": []}, r##"{"é": (-70000i32), "": [[]], "B": []}"##, r##"{"é": -70000, "": [[]], "B": []}"##),
        29 => a(fleece![x, [[]], {}], r##"[x, [[]], {}]"##, r##"["a longer string", [[]], {}]"##),
        30 => d(fleece!{"": 1.5, "B": [[],], "b": {},}, r##"{"": 1.5, "B": [[],], "b": {},}"##, r##"{"": 1.5, "B": [[]], "b": {}}"##),
        31 => a(fleece![(None::<u8>), {"": []}, "t"], r##"[(None::<u8>), {"": []}, "t"]"##, r##"[null, {"": []}, "t"]"##),
        32 => d(fleece!{"": "t", "B": {"": []}, "b": false}, r##"{"": "t", "B": {"": []}, "b": false}"##, r##"{"": "t", "B": {"": []}, "b": false}"##),
        33 => a(fleece![false, {"B": []}, []], r##"[false, {"B": []}, []]"##, r##"[false, {"B": []}, []]"##),
        34 => d(fleece!{"B": 3000000000u32, "b": {"B": []}, "a": []}, r##"{"B": 3000000000u32, "b": {"B": []}, "a": []}"##, r##"{"B": 3000000000, "b": {"B": []}, "a": []}"##),
        35 => a(fleece![n, {"B": [],}, {},], r##"[n, {"B": [],}, {},]"##, r##"[12345, {"B": []}, {}]"##),
        36 => d(fleece!{"b": ("é".repeat(9).as_str()), "a": {"b": []}, "key": {}}, r##"{"b": ("é".repeat(9).as_str()), "a": {"b": []}, "key": {}}"##, r##"{"b": "ééééééééé", "a": {"b": []}, "key": {}}"##),
        37 => a(fleece![(if n > 1 { 2 } else { 3 }), [{}], 7], r##"[(if n > 1 { 2 } else { 3 }), [{}], 7]"##, r##"[2, [{}], 7]"##),
        38 => d(fleece!{"b": 7, "a": [{}], "key": "text"}, r##"{"b": 7, "a": [{}], "key": "text"}"##, r##"{"b": 7, "a": [{}], "key": "text"}"##),
        39 => a(fleece!["text", [{}], []], r##"["text", [{}], []]"##, r##"["text", [{}], []]"##),
        40 => d(fleece!{"a": true, "key": [{},], "a long key beyond inlining": [],}, r##"{"a": true, "key": [{},], "a long key beyond inlining": [],}"##, r##"{"a": true, "key": [{}], "a long key beyond inlining": []}"##),
        41 => a(fleece![(-70000i32), [{}], {}], r##"[(-70000i32), [{}], {}]"##, r##"[-70000, [{}], {}]"##),
        42 => d(fleece!{"key": x, "a long key beyond inlining": [{}], "é": {}}, r##"{"key": x, "a long key beyond inlining": [{}], "é": {}}"##, r##"{"key": "a longer string", "a long key beyond inlining": [{}], "é": {}}"##),
        43 => a(fleece![1.5, {"key": {}}, (None::<u8>)], r##"[1.5, {"key": {}}, (None::<u8>)]"##, r##"[1.5, {"key": {}}, null]"##),
        44 => d(fleece!{"key": (None::<u8>), "a long key beyond inlining": {"key": {}}, "é": "t"}, r##"{"key": (None::<u8>), "a long key beyond inlining": {"key": {}}, "é": "t"}"##, r##"{"key": null, "a long key beyond inlining": {"key": {}}, "é": "t"}"##),
        45 => a(fleece!["t", {"a long key beyond inlining": {},}, [],], r##"["t", {"a long key beyond inlining": {},}, [],]"##, r##"["t", {"a long key beyond inlining": {}}, []]"##),
        46 => d(fleece!{"a long key beyond inlining": false, "é": {"a long key beyond inlining": {}}, "": []}, r##"{"a long key beyond inlining": false, "é": {"a long key beyond inlining": {}}, "": []}"##, r##"{"a long key beyond inlining": false, "é": {"a long key beyond inlining": {}}, "": []}"##),
        47 => a(fleece![3000000000u32, {"a long key beyond inlining": {}}, {}], r##"[3000000000u32, {"a long key beyond inlining": {}}, {}]"##, r##"[3000000000, {"a long key beyond inlining": {}}, {}]"##),
        48 => d(fleece!{"é": n, "": {"é": {}}, "B": {}}, r##"{"é": n, "": {"é": {}}, "B": {}}"##, r##"{"é": 12345, "": {"é": {}}, "B": {}}"##),
        49 => a(fleece![("é".repeat(9).as_str()), [(if n > 1 { 2 } else { 3 }), 7]], r##"[("é".repeat(9).as_str()), [(if n > 1 { 2 } else { 3 }), 7]]"##, r##"["ééééééééé", [2, 7]]"##),
        50 => d(fleece!{"é": (if n > 1 { 2 } else { 3 }), "": [7, "text",],}, r##"{"é": (if n > 1 { 2 } else { 3 }), "": [7, "text",],}"##, r##"{"é": 2, "": [7, "text"]}"##),
        51 => a(fleece![7, {"": "text", "B": true}], r##"[7, {"": "text", "B": true}]"##, r##"[7, {"": "text", "B": true}]"##),
        52 => d(fleece!{"": "text", "B": {"": true, "B": (-70000i32)}}, r##"{"": "text", "B": {"": true, "B": (-70000i32)}}"##, r##"{"": "text", "B": {"": true, "B": -70000}}"##),
        53 => a(fleece![true, [(-70000i32), []]], r##"[true, [(-70000i32), []]]"##, r##"[true, [-70000, []]]"##),
        54 => d(fleece!{"B": (-70000i32), "b": [x, []]}, r##"{"B": (-70000i32), "b": [x, []]}"##, r##"{"B": -70000, "b": ["a longer string", []]}"##),
        55 => a(fleece![x, {"B": 1.5, "b": [],},], r##"[x, {"B": 1.5, "b": [],},]"##, r##"["a longer string", {"B": 1.5, "b": []}]"##),
        56 => d(fleece!{"B": 1.5, "b": {"B": (None::<u8>), "b": []}}, r##"{"B": 1.5, "b": {"B": (None::<u8>), "b": []}}"##, r##"{"B": 1.5, "b": {"B": null, "b": []}}"##),
        57 => a(fleece![(None::<u8>), ["t", {}]], r##"[(None::<u8>), ["t", {}]]"##, r##"[null, ["t", {}]]"##),
        58 => d(fleece!{"b": "t", "a": [false, {}]}, r##"{"b": "t", "a": [false, {}]}"##, r##"{"b": "t", "a": [false, {}]}"##),
        59 => a(fleece![false, {"b": 3000000000u32, "a": {}}], r##"[false, {"b": 3000000000u32, "a": {}}]"##, r##"[false, {"b": 3000000000, "a": {}}]"##),
        60 => d(fleece!{"a": 3000000000u32, "key": {"a": n, "key": {},},}, r##"{"a": 3000000000u32, "key": {"a": n, "key": {},},}"##, r##"{"a": 3000000000, "key": {"a": 12345, "key": {}}}"##),
        61 => a(fleece![n, [[], ("é".repeat(9).as_str())]], r##"[n, [[], ("é".repeat(9).as_str())]]"##, r##"[12345, [[], "ééééééééé"]]"##),
        62 => d(fleece!{"a": ("é".repeat(9).as_str()), "key": [[], (if n > 1 { 2 } else { 3 })]}, r##"{"a": ("é".repeat(9).as_str()), "key": [[], (if n > 1 { 2 } else { 3 })]}"##, r##"{"a": "ééééééééé", "key": [[], 2]}"##),
        63 => a(fleece![(if n > 1 { 2 } else { 3 }), {"key": [], "a long key beyond inlining": 7}], r##"[(if n > 1 { 2 } else { 3 }), {"key": [], "a long key beyond inlining": 7}]"##, r##"[2, {"key": [], "a long key beyond inlining": 7}]"##),
        64 => d(fleece!{"key": 7, "a long key beyond inlining": {"key": [], "a long key beyond inlining": "text"}}, r##"{"key": 7, "a long key beyond inlining": {"key": [], "a long key beyond inlining": "text"}}"##, r##"{"key": 7, "a long key beyond inlining": {"key": [], "a long key beyond inlining": "text"}}"##),
        65 => a(fleece!["text", [[], [],],], r##"["text", [[], [],],]"##, r##"["text", [[], []]]"##),
        66 => d(fleece!{"a long key beyond inlining": true, "é": [[], []]}, r##"{"a long key beyond inlining": true, "é": [[], []]}"##, r##"{"a long key beyond inlining": true, "é": [[], []]}"##),
        67 => a(fleece![(-70000i32), {"a long key beyond inlining": [], "é": []}], r##"[(-70000i32), {"a long key beyond inlining": [], "é": []}]"##, r##"[-70000, {"a long key beyond inlining": [], "é": []}]"##),
        68 => d(fleece!{"a long key beyond inlining": x, "é": {"a long key beyond inlining": [], "é": []}}, r##"{"a long key beyond inlining": x, "é": {"a long key beyond inlining": [], "é": []}}"##, r##"{"a long key beyond inlining": "a longer string", "é": {"a long key beyond inlining": [], "é": []}}"##),
        69 => a(fleece![1.5, [[], {}]], r##"[1.5, [[], {}]]"##, r##"[1.5, [[], {}]]"##),
        70 => d(fleece!{"é": (None::<u8>), "": [[], {},],}, r##"{"é": (None::<u8>), "": [[], {},],}"##, r##"{"é": null, "": [[], {}]}"##),
        71 => a(fleece!["t", {"é": [], "": {}}], r##"["t", {"é": [], "": {}}]"##, r##"["t", {"é": [], "": {}}]"##),
        72 => d(fleece!{"": false, "B": {"": [], "B": {}}}, r##"{"": false, "B": {"": [], "B": {}}}"##, r##"{"": false, "B": {"": [], "B": {}}}"##),
        73 => a(fleece![3000000000u32, [{}, n]], r##"[3000000000u32, [{}, n]]"##, r##"[3000000000, [{}, 12345]]"##),
        74 => d(fleece!{"": n, "B": [{}, ("é".repeat(9).as_str())]}, r##"{"": n, "B": [{}, ("é".repeat(9).as_str())]}"##, r##"{"": 12345, "B": [{}, "ééééééééé"]}"##),
        75 => a(fleece![("é".repeat(9).as_str()), {"B": {}, "b": (if n > 1 { 2 } else { 3 }),},], r##"[("é".repeat(9).as_str()), {"B": {}, "b": (if n > 1 { 2 } else { 3 }),},]"##, r##"["ééééééééé", {"B": {}, "b": 2}]"##),
        76 => d(fleece!{"B": (if n > 1 { 2 } else { 3 }), "b": {"B": {}, "b": 7}}, r##"{"B": (if n > 1 { 2 } else { 3 }), "b": {"B": {}, "b": 7}}"##, r##"{"B": 2, "b": {"B": {}, "b": 7}}"##),
        77 => a(fleece![7, [{}, []]], r##"[7, [{}, []]]"##, r##"[7, [{}, []]]"##),
        78 => d(fleece!{"b": "text", "a": [{}, []]}, r##"{"b": "text", "a": [{}, []]}"##, r##"{"b": "text", "a": [{}, []]}"##),
        79 => a(fleece![true, {"b": {}, "a": []}], r##"[true, {"b": {}, "a": []}]"##, r##"[true, {"b": {}, "a": []}]"##),
        80 => d(fleece!{"b": (-70000i32), "a": {"b": {}, "a": [],},}, r##"{"b": (-70000i32), "a": {"b": {}, "a": [],},}"##, r##"{"b": -70000, "a": {"b": {}, "a": []}}"##),
        81 => a(fleece![x, [{}, {}]], r##"[x, [{}, {}]]"##, r##"["a longer string", [{}, {}]]"##),
        82 => d(fleece!{"a": 1.5, "key": [{}, {}]}, r##"{"a": 1.5, "key": [{}, {}]}"##, r##"{"a": 1.5, "key": [{}, {}]}"##),
        83 => a(fleece![(None::<u8>), {"a": {}, "key": {}}], r##"[(None::<u8>), {"a": {}, "key": {}}]"##, r##"[null, {"a": {}, "key": {}}]"##),
        84 => d(fleece!{"key": "t", "a long key beyond inlining": {"key": {}, "a long key beyond inlining": {}}}, r##"{"key": "t", "a long key beyond inlining": {"key": {}, "a long key beyond inlining": {}}}"##, r##"{"key": "t", "a long key beyond inlining": {"key": {}, "a long key beyond inlining": {}}}"##),
        85 => a(fleece![false, [[3000000000u32,],],], r##"[false, [[3000000000u32,],],]"##, r##"[false, [[3000000000]]]"##),
        86 => d(fleece!{"key": 3000000000u32, "a long key beyond inlining": [[n]]}, r##"{"key": 3000000000u32, "a long key beyond inlining": [[n]]}"##, r##"{"key": 3000000000, "a long key beyond inlining": [[12345]]}"##),
        87 => a(fleece![n, {"a long key beyond inlining": [("é".repeat(9).as_str())]}], r##"[n, {"a long key beyond inlining": [("é".repeat(9).as_str())]}]"##, r##"[12345, {"a long key beyond inlining": ["ééééééééé"]}]"##),
        88 => d(fleece!{"a long key beyond inlining": ("é".repeat(9).as_str()), "é": {"a long key beyond inlining": [(if n > 1 { 2 } else { 3 })]}}, r##"{"a long key beyond inlining": ("é".repeat(9).as_str()), "é": {"a long key beyond inlining": [(if n > 1 { 2 } else { 3 })]}}"##, r##"{"a long key beyond inlining": "ééééééééé", "é": {"a long key beyond inlining": [2]}}"##),
        89 => a(fleece![(if n > 1 { 2 } else { 3 }), [{"a long key beyond inlining": 7}]], r##"[(if n > 1 { 2 } else { 3 }), [{"a long key beyond inlining": 7}]]"##, r##"[2, [{"a long key beyond inlining": 7}]]"##),
        90 => d(fleece!{"é": 7, "": [{"é": "text",},],}, r##"{"é": 7, "": [{"é": "text",},],}"##, r##"{"é": 7, "": [{"é": "text"}]}"##),
        91 => a(fleece!["text", {"é": {"é": true}}], r##"["text", {"é": {"é": true}}]"##, r##"["text", {"é": {"é": true}}]"##),
        92 => d(fleece!{"é": true, "": {"é": {"é": (-70000i32)}}}, r##"{"é": true, "": {"é": {"é": (-70000i32)}}}"##, r##"{"é": true, "": {"é": {"é": -70000}}}"##),
        93 => a(fleece![(-70000i32), [[[]]]], r##"[(-70000i32), [[[]]]]"##, r##"[-70000, [[[]]]]"##),
        94 => d(fleece!{"": x, "B": [[[]]]}, r##"{"": x, "B": [[[]]]}"##, r##"{"": "a longer string", "B": [[[]]]}"##),
        95 => a(fleece![1.5, {"": [[],],},], r##"[1.5, {"": [[],],},]"##, r##"[1.5, {"": [[]]}]"##),
        96 => d(fleece!{"B": (None::<u8>), "b": {"B": [[]]}}, r##"{"B": (None::<u8>), "b": {"B": [[]]}}"##, r##"{"B": null, "b": {"B": [[]]}}"##),
        97 => a(fleece!["t", [{"B": []}]], r##"["t", [{"B": []}]]"##, r##"["t", [{"B": []}]]"##),
        98 => d(fleece!{"B": false, "b": [{"B": []}]}, r##"{"B": false, "b": [{"B": []}]}"##, r##"{"B": false, "b": [{"B": []}]}"##),
        _ => a(fleece![3000000000u32, {"b": {"b": []}}], r##"[3000000000u32, {"b": {"b": []}}]"##, r##"[3000000000, {"b": {"b": []}}]"##),
    }
}
#[rustfmt::skip]
pub fn part4(k: usize) -> Case {
    let (x, n) = (std::hint::black_box("a longer string"), std::hint::black_box(12345i64));
    let _ = (x, n);
    match k {
        0 => d(fleece!{"b": n, "a": {"b": {"b": [],},},}, r##"{"b": n, "a": {"b": {"b": [],},},}"##, r##"{"b": 12345, "a": {"b": {"b": []}}}"##),
        1 => a(fleece![("é".repeat(9).as_str()), [[{}]]], r##"[("é".repeat(9).as_str()), [[{}]]]"##, r##"["ééééééééé", [[{}]]]"##),
        2 => d(fleece!{"a": (if n > 1 { 2 } else { 3 }), "key": [[{}]]}, r##"{"a": (if n > 1 { 2 } else { 3 }), "key": [[{}]]}"##, r##"{"a": 2, "key": [[{}]]}"##),
        3 => a(fleece![7, {"a": [{}]}], r##"[7, {"a": [{}]}]"##, r##"[7, {"a": [{}]}]"##),
        4 => d(fleece!{"a": "text", "key": {"a": [{}]}}, r##"{"a": "text", "key": {"a": [{}]}}"##, r##"{"a": "text", "key": {"a": [{}]}}"##),
        5 => a(fleece![true, [{"key": {},},],], r##"[true, [{"key": {},},],]"##, r##"[true, [{"key": {}}]]"##),
        6 => d(fleece!{"key": (-70000i32), "a long key beyond inlining": [{"key": {}}]}, r##"{"key": (-70000i32), "a long key beyond inlining": [{"key": {}}]}"##, r##"{"key": -70000, "a long key beyond inlining": [{"key": {}}]}"##),
        7 => a(fleece![x, {"key": {"key": {}}}], r##"[x, {"key": {"key": {}}}]"##, r##"["a longer string", {"key": {"key": {}}}]"##),
        8 => d(fleece!{"a long key beyond inlining": 1.5, "é": {"a long key beyond inlining": {"a long key beyond inlining": {}}}}, r##"{"a long key beyond inlining": 1.5, "é": {"a long key beyond inlining": {"a long key beyond inlining": {}}}}"##, r##"{"a long key beyond inlining": 1.5, "é": {"a long key beyond inlining": {"a long key beyond inlining": {}}}}"##),
        9 => a(fleece![[], (None::<u8>), "t", false], r##"[[], (None::<u8>), "t", false]"##, r##"[[], null, "t", false]"##),
        10 => d(fleece!{"a long key beyond inlining": [], "é": "t", "": false, "B": 3000000000u32,}, r##"{"a long key beyond inlining": [], "é": "t", "": false, "B": 3000000000u32,}"##, r##"{"a long key beyond inlining": [], "é": "t", "": false, "B": 3000000000}"##),
        11 => a(fleece![[], false, 3000000000u32, []], r##"[[], false, 3000000000u32, []]"##, r##"[[], false, 3000000000, []]"##),
        12 => d(fleece!{"é": [], "": 3000000000u32, "B": n, "b": []}, r##"{"é": [], "": 3000000000u32, "B": n, "b": []}"##, r##"{"é": [], "": 3000000000, "B": 12345, "b": []}"##),
        13 => a(fleece![[], n, ("é".repeat(9).as_str()), {}], r##"[[], n, ("é".repeat(9).as_str()), {}]"##, r##"[[], 12345, "ééééééééé", {}]"##),
        14 => d(fleece!{"": [], "B": ("é".repeat(9).as_str()), "b": (if n > 1 { 2 } else { 3 }), "a": {}}, r##"{"": [], "B": ("é".repeat(9).as_str()), "b": (if n > 1 { 2 } else { 3 }), "a": {}}"##, r##"{"": [], "B": "ééééééééé", "b": 2, "a": {}}"##),
        15 => a(fleece![[], (if n > 1 { 2 } else { 3 }), [], 7,], r##"[[], (if n > 1 { 2 } else { 3 }), [], 7,]"##, r##"[[], 2, [], 7]"##),
        16 => d(fleece!{"": [], "B": 7, "b": [], "a": "text"}, r##"{"": [], "B": 7, "b": [], "a": "text"}"##, r##"{"": [], "B": 7, "b": [], "a": "text"}"##),
        17 => a(fleece![[], "text", [], []], r##"[[], "text", [], []]"##, r##"[[], "text", [], []]"##),
        18 => d(fleece!{"B": [], "b": true, "a": [], "key": []}, r##"{"B": [], "b": true, "a": [], "key": []}"##, r##"{"B": [], "b": true, "a": [], "key": []}"##),
        19 => a(fleece![[], (-70000i32), [], {}], r##"[[], (-70000i32), [], {}]"##, r##"[[], -70000, [], {}]"##),
        20 => d(fleece!{"b": [], "a": x, "key": [], "a long key beyond inlining": {},}, r##"{"b": [], "a": x, "key": [], "a long key beyond inlining": {},}"##, r##"{"b": [], "a": "a longer string", "key": [], "a long key beyond inlining": {}}"##),
        21 => a(fleece![[], 1.5, {}, (None::<u8>)], r##"[[], 1.5, {}, (None::<u8>)]"##, r##"[[], 1.5, {}, null]"##),
        22 => d(fleece!{"b": [], "a": (None::<u8>), "key": {}, "a long key beyond inlining": "t"}, r##"{"b": [], "a": (None::<u8>), "key": {}, "a long key beyond inlining": "t"}"##, r##"{"b": [], "a": null, "key": {}, "a long key beyond inlining": "t"}"##),
        23 => a(fleece![[], "t", {}, []], r##"[[], "t", {}, []]"##, r##"[[], "t", {}, []]"##),
        24 => d(fleece!{"a": [], "key": false, "a long key beyond inlining": {}, "é": []}, r##"{"a": [], "key": false, "a long key beyond inlining": {}, "é": []}"##, r##"{"a": [], "key": false, "a long key beyond inlining": {}, "é": []}"##),
        25 => a(fleece![[], 3000000000u32, {}, {},], r##"[[], 3000000000u32, {}, {},]"##, r##"[[], 3000000000, {}, {}]"##),
        26 => d(fleece!{"key": [], "a long key beyond inlining": n, "é": {}, "": {}}, r##"{"key": [], "a long key beyond inlining": n, "é": {}, "": {}}"##, r##"{"key": [], "a long key beyond inlining": 12345, "é": {}, "": {}}"##),
        27 => a(fleece![[], ("é".repeat(9).as_str()), [(if n > 1 { 2 } else { 3 })]], r##"[[], ("é".repeat(9).as_str()), [(if n > 1 { 2 } else { 3 })]]"##, r##"[[], "ééééééééé", [2]]"##),
        28 => d(fleece!{"key": [], "a long key beyond inlining": (if n > 1 { 2 } else { 3 }), "é": [7]}, r##"{"key": [], "a long key beyond inlining": (if n > 1 { 2 } else { 3 }), "é": [7]}"##, r##"{"key": [], "a long key beyond inlining": 2, "é": [7]}"##),
        29 => a(fleece![[], 7, {"a long key beyond inlining": "text"}], r##"[[], 7, {"a long key beyond inlining": "text"}]"##, r##"[[], 7, {"a long key beyond inlining": "text"}]"##),
        30 => d(fleece!{"a long key beyond inlining": [], "é": "text", "": {"a long key beyond inlining": true,},}, r##"{"a long key beyond inlining": [], "é": "text", "": {"a long key beyond inlining": true,},}"##, r##"{"a long key beyond inlining": [], "é": "text", "": {"a long key beyond inlining": true}}"##),
        31 => a(fleece![[], true, [[]]], r##"[[], true, [[]]]"##, r##"[[], true, [[]]]"##),
        32 => d(fleece!{"é": [], "": (-70000i32), "B": [[]]}, r##"{"é": [], "": (-70000i32), "B": [[]]}"##, r##"{"é": [], "": -70000, "B": [[]]}"##),
        33 => a(fleece![[], x, {"é": []}], r##"[[], x, {"é": []}]"##, r##"[[], "a longer string", {"é": []}]"##),
        34 => d(fleece!{"é": [], "": 1.5, "B": {"é": []}}, r##"{"é": [], "": 1.5, "B": {"é": []}}"##, r##"{"é": [], "": 1.5, "B": {"é": []}}"##),
        35 => a(fleece![[], (None::<u8>), [{},],], r##"[[], (None::<u8>), [{},],]"##, r##"[[], null, [{}]]"##),
        36 => d(fleece!{"": [], "B": "t", "b": [{}]}, r##"{"": [], "B": "t", "b": [{}]}"##, r##"{"": [], "B": "t", "b": [{}]}"##),
        37 => a(fleece![[], false, {"": {}}], r##"[[], false, {"": {}}]"##, r##"[[], false, {"": {}}]"##),
        38 => d(fleece!{"B": [], "b": 3000000000u32, "a": {"B": {}}}, r##"{"B": [], "b": 3000000000u32, "a": {"B": {}}}"##, r##"{"B": [], "b": 3000000000, "a": {"B": {}}}"##),
        39 => a(fleece![[], [], n, ("é".repeat(9).as_str())], r##"[[], [], n, ("é".repeat(9).as_str())]"##, r##"[[], [], 12345, "ééééééééé"]"##),
        40 => d(fleece!{"B": [], "b": [], "a": ("é".repeat(9).as_str()), "key": (if n > 1 { 2 } else { 3 }),}, r##"{"B": [], "b": [], "a": ("é".repeat(9).as_str()), "key": (if n > 1 { 2 } else { 3 }),}"##, r##"{"B": [], "b": [], "a": "ééééééééé", "key": 2}"##),
        41 => a(fleece![[], [], (if n > 1 { 2 } else { 3 }), []], r##"[[], [], (if n > 1 { 2 } else { 3 }), []]"##, r##"[[], [], 2, []]"##),
        42 => d(fleece!{"b": [], "a": [], "key": 7, "a long key beyond inlining": []}, r##"{"b": [], "a": [], "key": 7, "a long key beyond inlining": []}"##, r##"{"b": [], "a": [], "key": 7, "a long key beyond inlining": []}"##),
        43 => a(fleece![[], [], "text", {}], r##"[[], [], "text", {}]"##, r##"[[], [], "text", {}]"##),
        44 => d(fleece!{"a": [], "key": [], "a long key beyond inlining": true, "é": {}}, r##"{"a": [], "key": [], "a long key beyond inlining": true, "é": {}}"##, r##"{"a": [], "key": [], "a long key beyond inlining": true, "é": {}}"##),
        45 => a(fleece![[], [], [], (-70000i32),], r##"[[], [], [], (-70000i32),]"##, r##"[[], [], [], -70000]"##),
        46 => d(fleece!{"a": [], "key": [], "a long key beyond inlining": [], "é": x}, r##"{"a": [], "key": [], "a long key beyond inlining": [], "é": x}"##, r##"{"a": [], "key": [], "a long key beyond inlining": [], "é": "a longer string"}"##),
        47 => a(fleece![[], [], [], []], r##"[[], [], [], []]"##, r##"[[], [], [], []]"##),
        48 => d(fleece!{"key": [], "a long key beyond inlining": [], "é": [], "": []}, r##"{"key": [], "a long key beyond inlining": [], "é": [], "": []}"##, r##"{"key": [], "a long key beyond inlining": [], "é": [], "": []}"##),
        49 => a(fleece![[], [], [], {}], r##"[[], [], [], {}]"##, r##"[[], [], [], {}]"##),
        50 => d(fleece!{"a long key beyond inlining": [], "é": [], "": [], "B": {},}, r##"{"a long key beyond inlining": [], "é": [], "": [], "B": {},}"##, r##"{"a long key beyond inlining": [], "é": [], "": [], "B": {}}"##),
        51 => a(fleece![[], [], {}, 3000000000u32], r##"[[], [], {}, 3000000000u32]"##, r##"[[], [], {}, 3000000000]"##),
        52 => d(fleece!{"a long key beyond inlining": [], "é": [], "": {}, "B": n}, r##"{"a long key beyond inlining": [], "é": [], "": {}, "B": n}"##, r##"{"a long key beyond inlining": [], "é": [], "": {}, "B": 12345}"##),
        53 => a(fleece![[], [], {}, []], r##"[[], [], {}, []]"##, r##"[[], [], {}, []]"##),
        54 => d(fleece!{"é": [], "": [], "B": {}, "b": []}, r##"{"é": [], "": [], "B": {}, "b": []}"##, r##"{"é": [], "": [], "B": {}, "b": []}"##),
        55 => a(fleece![[], [], {}, {},], r##"[[], [], {}, {},]"##, r##"[[], [], {}, {}]"##),
        56 => d(fleece!{"": [], "B": [], "b": {}, "a": {}}, r##"{"": [], "B": [], "b": {}, "a": {}}"##, r##"{"": [], "B": [], "b": {}, "a": {}}"##),
        57 => a(fleece![[], [], [true]], r##"[[], [], [true]]"##, r##"[[], [], [true]]"##),
        58 => d(fleece!{"": [], "B": [], "b": [(-70000i32)]}, r##"{"": [], "B": [], "b": [(-70000i32)]}"##, r##"{"": [], "B": [], "b": [-70000]}"##),
        59 => a(fleece![[], [], {"B": x}], r##"[[], [], {"B": x}]"##, r##"[[], [], {"B": "a longer string"}]"##),
        60 => d(fleece!{"B": [], "b": [], "a": {"B": 1.5,},}, r##"{"B": [], "b": [], "a": {"B": 1.5,},}"##, r##"{"B": [], "b": [], "a": {"B": 1.5}}"##),
        61 => a(fleece![[], [], [[]]], r##"[[], [], [[]]]"##, r##"[[], [], [[]]]"##),
        62 => d(fleece!{"b": [], "a": [], "key": [[]]}, r##"{"b": [], "a": [], "key": [[]]}"##, r##"{"b": [], "a": [], "key": [[]]}"##),
        63 => a(fleece![[], [], {"b": []}], r##"[[], [], {"b": []}]"##, r##"[[], [], {"b": []}]"##),
        64 => d(fleece!{"b": [], "a": [], "key": {"b": []}}, r##"{"b": [], "a": [], "key": {"b": []}}"##, r##"{"b": [], "a": [], "key": {"b": []}}"##),
        65 => a(fleece![[], [], [{},],], r##"[[], [], [{},],]"##, r##"[[], [], [{}]]"##),
        66 => d(fleece!{"a": [], "key": [], "a long key beyond inlining": [{}]}, r##"{"a": [], "key": [], "a long key beyond inlining": [{}]}"##, r##"{"a": [], "key": [], "a long key beyond inlining": [{}]}"##),
        67 => a(fleece![[], [], {"a": {}}], r##"[[], [], {"a": {}}]"##, r##"[[], [], {"a": {}}]"##),
        68 => d(fleece!{"key": [], "a long key beyond inlining": [], "é": {"key": {}}}, r##"{"key": [], "a long key beyond inlining": [], "é": {"key": {}}}"##, r##"{"key": [], "a long key beyond inlining": [], "é": {"key": {}}}"##),
        69 => a(fleece![[], {}, "text", true], r##"[[], {}, "text", true]"##, r##"[[], {}, "text", true]"##),
        70 => d(fleece!{"key": [], "a long key beyond inlining": {}, "é": true, "": (-70000i32),}, r##"{"key": [], "a long key beyond inlining": {}, "é": true, "": (-70000i32),}"##, r##"{"key": [], "a long key beyond inlining": {}, "é": true, "": -70000}"##),
        71 => a(fleece![[], {}, (-70000i32), []], r##"[[], {}, (-70000i32), []]"##, r##"[[], {}, -70000, []]"##),
        72 => d(fleece!{"a long key beyond inlining": [], "é": {}, "": x, "B": []}, r##"{"a long key beyond inlining": [], "é": {}, "": x, "B": []}"##, r##"{"a long key beyond inlining": [], "é": {}, "": "a longer string", "B": []}"##),
        73 => a(fleece![[], {}, 1.5, {}], r##"[[], {}, 1.5, {}]"##, r##"[[], {}, 1.5, {}]"##),
        74 => d(fleece!{"é": [], "": {}, "B": (None::<u8>), "b": {}}, r##"{"é": [], "": {}, "B": (None::<u8>), "b": {}}"##, r##"{"é": [], "": {}, "B": null, "b": {}}"##),
        75 => a(fleece![[], {}, [], "t",], r##"[[], {}, [], "t",]"##, r##"[[], {}, [], "t"]"##),
        76 => d(fleece!{"é": [], "": {}, "B": [], "b": false}, r##"{"é": [], "": {}, "B": [], "b": false}"##, r##"{"é": [], "": {}, "B": [], "b": false}"##),
        77 => a(fleece![[], {}, [], []], r##"[[], {}, [], []]"##, r##"[[], {}, [], []]"##),
        78 => d(fleece!{"": [], "B": {}, "b": [], "a": []}, r##"{"": [], "B": {}, "b": [], "a": []}"##, r##"{"": [], "B": {}, "b": [], "a": []}"##),
        79 => a(fleece![[], {}, [], {}], r##"[[], {}, [], {}]"##, r##"[[], {}, [], {}]"##),
        80 => d(fleece!{"B": [], "b": {}, "a": [], "key": {},}, r##"{"B": [], "b": {}, "a": [], "key": {},}"##, r##"{"B": [], "b": {}, "a": [], "key": {}}"##),
        81 => a(fleece![[], {}, {}, 7], r##"[[], {}, {}, 7]"##, r##"[[], {}, {}, 7]"##),
        82 => d(fleece!{"B": [], "b": {}, "a": {}, "key": "text"}, r##"{"B": [], "b": {}, "a": {}, "key": "text"}"##, r##"{"B": [], "b": {}, "a": {}, "key": "text"}"##),
        83 => a(fleece![[], {}, {}, []], r##"[[], {}, {}, []]"##, r##"[[], {}, {}, []]"##),
        84 => d(fleece!{"b": [], "a": {}, "key": {}, "a long key beyond inlining": []}, r##"{"b": [], "a": {}, "key": {}, "a long key beyond inlining": []}"##, r##"{"b": [], "a": {}, "key": {}, "a long key beyond inlining": []}"##),
        85 => a(fleece![[], {}, {}, {},], r##"[[], {}, {}, {},]"##, r##"[[], {}, {}, {}]"##),
        86 => d(fleece!{"a": [], "key": {}, "a long key beyond inlining": {}, "é": {}}, r##"{"a": [], "key": {}, "a long key beyond inlining": {}, "é": {}}"##, r##"{"a": [], "key": {}, "a long key beyond inlining": {}, "é": {}}"##),
        87 => a(fleece![[], {}, [(None::<u8>)]], r##"[[], {}, [(None::<u8>)]]"##, r##"[[], {}, [null]]"##),
        88 => d(fleece!{"a": [], "key": {}, "a long key beyond inlining": ["t"]}, r##"{"a": [], "key": {}, "a long key beyond inlining": ["t"]}"##, r##"{"a": [], "key": {}, "a long key beyond inlining": ["t"]}"##),
        89 => a(fleece![[], {}, {"key": false}], r##"[[], {}, {"key": false}]"##, r##"[[], {}, {"key": false}]"##),
        90 => d(fleece!{"key": [], "a long key beyond inlining": {}, "é": {"key": 3000000000u32,},}, r##"{"key": [], "a long key beyond inlining": {}, "é": {"key": 3000000000u32,},}"##, r##"{"key": [], "a long key beyond inlining": {}, "é": {"key": 3000000000}}"##),
        91 => a(fleece![[], {}, [[]]], r##"[[], {}, [[]]]"##, r##"[[], {}, [[]]]"##),
        92 => d(fleece!{"a long key beyond inlining": [], "é": {}, "": [[]]}, r##"{"a long key beyond inlining": [], "é": {}, "": [[]]}"##, r##"{"a long key beyond inlining": [], "é": {}, "": [[]]}"##),
        93 => a(fleece![[], {}, {"a long key beyond inlining": []}], r##"[[], {}, {"a long key beyond inlining": []}]"##, r##"[[], {}, {"a long key beyond inlining": []}]"##),
        94 => d(fleece!{"a long key beyond inlining": [], "é": {}, "": {"a long key beyond inlining": []}}, r##"{"a long key beyond inlining": [], "é": {}, "": {"a long key beyond inlining": []}}"##, r##"{"a long key beyond inlining": [], "é": {}, "": {"a long key beyond inlining": []}}"##),
        95 => a(fleece![[], {}, [{},],], r##"[[], {}, [{},],]"##, r##"[[], {}, [{}]]"##),
        96 => d(fleece!{"é": [], "": {}, "B": [{}]}, r##"{"é": [], "": {}, "B": [{}]}"##, r##"{"é": [], "": {}, "B": [{}]}"##),
        97 => a(fleece![[], {}, {"é": {}}], r##"[[], {}, {"é": {}}]"##, r##"[[], {}, {"é": {}}]"##),
        98 => d(fleece!{"": [], "B": {}, "b": {"": {}}}, r##"{"": [], "B": {}, "b": {"": {}}}"##, r##"{"": [], "B": {}, "b": {"": {}}}"##),
        _ => a(fleece![[], [1.5], (None::<u8>)], r##"[[], [1.5], (None::<u8>)]"##, r##"[[], [1.5], null]"##),
    }
}
#[rustfmt::skip]
pub fn part5(k: usize) -> Case {
    let (x, n) = (std::hint::black_box("a longer string"), std::hint::black_box(12345i64));
    let _ = (x, n);
    match k {
        0 => d(fleece!{"": [], "B": [(None::<u8>),], "b": "t",}, r##"{"": [], "B": [(None::<u8>),], "b": "t",}"##, r##"{"": [], "B": [null], "b": "t"}"##),
        1 => a(fleece![[], ["t"], []], r##"[[], ["t"], []]"##, r##"[[], ["t"], []]"##),
        2 => d(fleece!{"B": [], "b": [false], "a": []}, r##"{"B": [], "b": [false], "a": []}"##, r##"{"B": [], "b": [false], "a": []}"##),
        3 => a(fleece![[], [3000000000u32], {}], r##"[[], [3000000000u32], {}]"##, r##"[[], [3000000000], {}]"##),
        4 => d(fleece!{"b": [], "a": [n], "key": {}}, r##"{"b": [], "a": [n], "key": {}}"##, r##"{"b": [], "a": [12345], "key": {}}"##),
        5 => a(fleece![[], {"b": ("é".repeat(9).as_str()),}, (if n > 1 { 2 } else { 3 }),], r##"[[], {"b": ("é".repeat(9).as_str()),}, (if n > 1 { 2 } else { 3 }),]"##, r##"[[], {"b": "ééééééééé"}, 2]"##),
        6 => d(fleece!{"b": [], "a": {"b": (if n > 1 { 2 } else { 3 })}, "key": 7}, r##"{"b": [], "a": {"b": (if n > 1 { 2 } else { 3 })}, "key": 7}"##, r##"{"b": [], "a": {"b": 2}, "key": 7}"##),
        7 => a(fleece![[], {"a": 7}, []], r##"[[], {"a": 7}, []]"##, r##"[[], {"a": 7}, []]"##),
        8 => d(fleece!{"a": [], "key": {"a": "text"}, "a long key beyond inlining": []}, r##"{"a": [], "key": {"a": "text"}, "a long key beyond inlining": []}"##, r##"{"a": [], "key": {"a": "text"}, "a long key beyond inlining": []}"##),
        9 => a(fleece![[], {"a": true}, {}], r##"[[], {"a": true}, {}]"##, r##"[[], {"a": true}, {}]"##),
        10 => d(fleece!{"key": [], "a long key beyond inlining": {"key": (-70000i32),}, "é": {},}, r##"{"key": [], "a long key beyond inlining": {"key": (-70000i32),}, "é": {},}"##, r##"{"key": [], "a long key beyond inlining": {"key": -70000}, "é": {}}"##),
        11 => a(fleece![[], [[]], x], r##"[[], [[]], x]"##, r##"[[], [[]], "a longer string"]"##),
        12 => d(fleece!{"key": [], "a long key beyond inlining": [[]], "é": 1.5}, r##"{"key": [], "a long key beyond inlining": [[]], "é": 1.5}"##, r##"{"key": [], "a long key beyond inlining": [[]], "é": 1.5}"##),
        13 => a(fleece![[], [[]], []], r##"[[], [[]], []]"##, r##"[[], [[]], []]"##),
        14 => d(fleece!{"a long key beyond inlining": [], "é": [[]], "": []}, r##"{"a long key beyond inlining": [], "é": [[]], "": []}"##, r##"{"a long key beyond inlining": [], "é": [[]], "": []}"##),
        15 => a(fleece![[], [[],], {},], r##"[[], [[],], {},]"##, r##"[[], [[]], {}]"##),
        16 => d(fleece!{"é": [], "": [[]], "B": {}}, r##"{"é": [], "": [[]], "B": {}}"##, r##"{"é": [], "": [[]], "B": {}}"##),
        17 => a(fleece![[], {"é": []}, n], r##"[[], {"é": []}, n]"##, r##"[[], {"é": []}, 12345]"##),
        18 => d(fleece!{"é": [], "": {"é": []}, "B": ("é".repeat(9).as_str())}, r##"{"é": [], "": {"é": []}, "B": ("é".repeat(9).as_str())}"##, r##"{"é": [], "": {"é": []}, "B": "ééééééééé"}"##),
        19 => a(fleece![[], {"": []}, []], r##"[[], {"": []}, []]"##, r##"[[], {"": []}, []]"##),
        20 => d(fleece!{"": [], "B": {"": [],}, "b": [],}, r##"{"": [], "B": {"": [],}, "b": [],}"##, r##"{"": [], "B": {"": []}, "b": []}"##),
        21 => a(fleece![[], {"": []}, {}], r##"[[], {"": []}, {}]"##, r##"[[], {"": []}, {}]"##),
        22 => d(fleece!{"B": [], "b": {"B": []}, "a": {}}, r##"{"B": [], "b": {"B": []}, "a": {}}"##, r##"{"B": [], "b": {"B": []}, "a": {}}"##),
        23 => a(fleece![[], [{}], (-70000i32)], r##"[[], [{}], (-70000i32)]"##, r##"[[], [{}], -70000]"##),
        24 => d(fleece!{"B": [], "b": [{}], "a": x}, r##"{"B": [], "b": [{}], "a": x}"##, r##"{"B": [], "b": [{}], "a": "a longer string"}"##),
        25 => a(fleece![[], [{},], [],], r##"[[], [{},], [],]"##, r##"[[], [{}], []]"##),
        26 => d(fleece!{"b": [], "a": [{}], "key": []}, r##"{"b": [], "a": [{}], "key": []}"##, r##"{"b": [], "a": [{}], "key": []}"##),
        27 => a(fleece![[], [{}], {}], r##"[[], [{}], {}]"##, r##"[[], [{}], {}]"##),
        28 => d(fleece!{"a": [], "key": [{}], "a long key beyond inlining": {}}, r##"{"a": [], "key": [{}], "a long key beyond inlining": {}}"##, r##"{"a": [], "key": [{}], "a long key beyond inlining": {}}"##),
        29 => a(fleece![[], {"a": {}}, 3000000000u32], r##"[[], {"a": {}}, 3000000000u32]"##, r##"[[], {"a": {}}, 3000000000]"##),
        30 => d(fleece!{"a": [], "key": {"a": {},}, "a long key beyond inlining": n,}, r##"{"a": [], "key": {"a": {},}, "a long key beyond inlining": n,}"##, r##"{"a": [], "key": {"a": {}}, "a long key beyond inlining": 12345}"##),
        31 => a(fleece![[], {"key": {}}, []], r##"[[], {"key": {}}, []]"##, r##"[[], {"key": {}}, []]"##),
        32 => d(fleece!{"key": [], "a long key beyond inlining": {"key": {}}, "é": []}, r##"{"key": [], "a long key beyond inlining": {"key": {}}, "é": []}"##, r##"{"key": [], "a long key beyond inlining": {"key": {}}, "é": []}"##),
        33 => a(fleece![[], {"key": {}}, {}], r##"[[], {"key": {}}, {}]"##, r##"[[], {"key": {}}, {}]"##),
        34 => d(fleece!{"a long key beyond inlining": [], "é": {"a long key beyond inlining": {}}, "": {}}, r##"{"a long key beyond inlining": [], "é": {"a long key beyond inlining": {}}, "": {}}"##, r##"{"a long key beyond inlining": [], "é": {"a long key beyond inlining": {}}, "": {}}"##),
        35 => a(fleece![[], [true, (-70000i32),],], r##"[[], [true, (-70000i32),],]"##, r##"[[], [true, -70000]]"##),
        36 => d(fleece!{"a long key beyond inlining": [], "é": [(-70000i32), x]}, r##"{"a long key beyond inlining": [], "é": [(-70000i32), x]}"##, r##"{"a long key beyond inlining": [], "é": [-70000, "a longer string"]}"##),
        37 => a(fleece![[], {"é": x, "": 1.5}], r##"[[], {"é": x, "": 1.5}]"##, r##"[[], {"é": "a longer string", "": 1.5}]"##),
        38 => d(fleece!{"é": [], "": {"é": 1.5, "": (None::<u8>)}}, r##"{"é": [], "": {"é": 1.5, "": (None::<u8>)}}"##, r##"{"é": [], "": {"é": 1.5, "": null}}"##),
        39 => a(fleece![[], [(None::<u8>), []]], r##"[[], [(None::<u8>), []]]"##, r##"[[], [null, []]]"##),
        40 => d(fleece!{"": [], "B": ["t", [],],}, r##"{"": [], "B": ["t", [],],}"##, r##"{"": [], "B": ["t", []]}"##),
        41 => a(fleece![[], {"": false, "B": []}], r##"[[], {"": false, "B": []}]"##, r##"[[], {"": false, "B": []}]"##),
        42 => d(fleece!{"": [], "B": {"": 3000000000u32, "B": []}}, r##"{"": [], "B": {"": 3000000000u32, "B": []}}"##, r##"{"": [], "B": {"": 3000000000, "B": []}}"##),
        43 => a(fleece![[], [n, {}]], r##"[[], [n, {}]]"##, r##"[[], [12345, {}]]"##),
        44 => d(fleece!{"B": [], "b": [("é".repeat(9).as_str()), {}]}, r##"{"B": [], "b": [("é".repeat(9).as_str()), {}]}"##, r##"{"B": [], "b": ["ééééééééé", {}]}"##),
        45 => a(fleece![[], {"B": (if n > 1 { 2 } else { 3 }), "b": {},},], r##"[[], {"B": (if n > 1 { 2 } else { 3 }), "b": {},},]"##, r##"[[], {"B": 2, "b": {}}]"##),
        46 => d(fleece!{"b": [], "a": {"b": 7, "a": {}}}, r##"{"b": [], "a": {"b": 7, "a": {}}}"##, r##"{"b": [], "a": {"b": 7, "a": {}}}"##),
        47 => a(fleece![[], [[], "text"]], r##"[[], [[], "text"]]"##, r##"[[], [[], "text"]]"##),
        48 => d(fleece!{"b": [], "a": [[], true]}, r##"{"b": [], "a": [[], true]}"##, r##"{"b": [], "a": [[], true]}"##),
        49 => a(fleece![[], {"a": [], "key": (-70000i32)}], r##"[[], {"a": [], "key": (-70000i32)}]"##, r##"[[], {"a": [], "key": -70000}]"##),
        50 => d(fleece!{"a": [], "key": {"a": [], "key": x,},}, r##"{"a": [], "key": {"a": [], "key": x,},}"##, r##"{"a": [], "key": {"a": [], "key": "a longer string"}}"##),
        51 => a(fleece![[], [[], []]], r##"[[], [[], []]]"##, r##"[[], [[], []]]"##),
        52 => d(fleece!{"key": [], "a long key beyond inlining": [[], []]}, r##"{"key": [], "a long key beyond inlining": [[], []]}"##, r##"{"key": [], "a long key beyond inlining": [[], []]}"##),
        53 => a(fleece![[], {"key": [], "a long key beyond inlining": []}], r##"[[], {"key": [], "a long key beyond inlining": []}]"##, r##"[[], {"key": [], "a long key beyond inlining": []}]"##),
        54 => d(fleece!{"key": [], "a long key beyond inlining": {"key": [], "a long key beyond inlining": []}}, r##"{"key": [], "a long key beyond inlining": {"key": [], "a long key beyond inlining": []}}"##, r##"{"key": [], "a long key beyond inlining": {"key": [], "a long key beyond inlining": []}}"##),
        55 => a(fleece![[], [[], {},],], r##"[[], [[], {},],]"##, r##"[[], [[], {}]]"##),
        56 => d(fleece!{"a long key beyond inlining": [], "é": [[], {}]}, r##"{"a long key beyond inlining": [], "é": [[], {}]}"##, r##"{"a long key beyond inlining": [], "é": [[], {}]}"##),
        57 => a(fleece![[], {"a long key beyond inlining": [], "é": {}}], r##"[[], {"a long key beyond inlining": [], "é": {}}]"##, r##"[[], {"a long key beyond inlining": [], "é": {}}]"##),
        58 => d(fleece!{"é": [], "": {"é": [], "": {}}}, r##"{"é": [], "": {"é": [], "": {}}}"##, r##"{"é": [], "": {"é": [], "": {}}}"##),
        59 => a(fleece![[], [{}, 7]], r##"[[], [{}, 7]]"##, r##"[[], [{}, 7]]"##),
        60 => d(fleece!{"é": [], "": [{}, "text",],}, r##"{"é": [], "": [{}, "text",],}"##, r##"{"é": [], "": [{}, "text"]}"##),
        61 => a(fleece![[], {"": {}, "B": true}], r##"[[], {"": {}, "B": true}]"##, r##"[[], {"": {}, "B": true}]"##),
        62 => d(fleece!{"": [], "B": {"": {}, "B": (-70000i32)}}, r##"{"": [], "B": {"": {}, "B": (-70000i32)}}"##, r##"{"": [], "B": {"": {}, "B": -70000}}"##),
        63 => a(fleece![[], [{}, []]], r##"[[], [{}, []]]"##, r##"[[], [{}, []]]"##),
        64 => d(fleece!{"B": [], "b": [{}, []]}, r##"{"B": [], "b": [{}, []]}"##, r##"{"B": [], "b": [{}, []]}"##),
        65 => a(fleece![[], {"B": {}, "b": [],},], r##"[[], {"B": {}, "b": [],},]"##, r##"[[], {"B": {}, "b": []}]"##),
        66 => d(fleece!{"B": [], "b": {"B": {}, "b": []}}, r##"{"B": [], "b": {"B": {}, "b": []}}"##, r##"{"B": [], "b": {"B": {}, "b": []}}"##),
        67 => a(fleece![[], [{}, {}]], r##"[[], [{}, {}]]"##, r##"[[], [{}, {}]]"##),
        68 => d(fleece!{"b": [], "a": [{}, {}]}, r##"{"b": [], "a": [{}, {}]}"##, r##"{"b": [], "a": [{}, {}]}"##),
        69 => a(fleece![[], {"b": {}, "a": {}}], r##"[[], {"b": {}, "a": {}}]"##, r##"[[], {"b": {}, "a": {}}]"##),
        70 => d(fleece!{"a": [], "key": {"a": {}, "key": {},},}, r##"{"a": [], "key": {"a": {}, "key": {},},}"##, r##"{"a": [], "key": {"a": {}, "key": {}}}"##),
        71 => a(fleece![[], [[(if n > 1 { 2 } else { 3 })]]], r##"[[], [[(if n > 1 { 2 } else { 3 })]]]"##, r##"[[], [[2]]]"##),
        72 => d(fleece!{"a": [], "key": [[7]]}, r##"{"a": [], "key": [[7]]}"##, r##"{"a": [], "key": [[7]]}"##),
        73 => a(fleece![[], {"key": ["text"]}], r##"[[], {"key": ["text"]}]"##, r##"[[], {"key": ["text"]}]"##),
        74 => d(fleece!{"key": [], "a long key beyond inlining": {"key": [true]}}, r##"{"key": [], "a long key beyond inlining": {"key": [true]}}"##, r##"{"key": [], "a long key beyond inlining": {"key": [true]}}"##),
        75 => a(fleece![[], [{"key": (-70000i32),},],], r##"[[], [{"key": (-70000i32),},],]"##, r##"[[], [{"key": -70000}]]"##),
        76 => d(fleece!{"a long key beyond inlining": [], "é": [{"a long key beyond inlining": x}]}, r##"{"a long key beyond inlining": [], "é": [{"a long key beyond inlining": x}]}"##, r##"{"a long key beyond inlining": [], "é": [{"a long key beyond inlining": "a longer string"}]}"##),
        77 => a(fleece![[], {"a long key beyond inlining": {"a long key beyond inlining": 1.5}}], r##"[[], {"a long key beyond inlining": {"a long key beyond inlining": 1.5}}]"##, r##"[[], {"a long key beyond inlining": {"a long key beyond inlining": 1.5}}]"##),
        78 => d(fleece!{"a long key beyond inlining": [], "é": {"a long key beyond inlining": {"a long key beyond inlining": (None::<u8>)}}}, r##"{"a long key beyond inlining": [], "é": {"a long key beyond inlining": {"a long key beyond inlining": (None::<u8>)}}}"##, r##"{"a long key beyond inlining": [], "é": {"a long key beyond inlining": {"a long key beyond inlining": null}}}"##),
        79 => a(fleece![[], [[[]]]], r##"[[], [[[]]]]"##, r##"[[], [[[]]]]"##),
        80 => d(fleece!{"é": [], "": [[[],],],}, r##"{"é": [], "": [[[],],],}"##, r##"{"é": [], "": [[[]]]}"##),
        81 => a(fleece![[], {"é": [[]]}], r##"[[], {"é": [[]]}]"##, r##"[[], {"é": [[]]}]"##),
        82 => d(fleece!{"": [], "B": {"": [[]]}}, r##"{"": [], "B": {"": [[]]}}"##, r##"{"": [], "B": {"": [[]]}}"##),
        83 => a(fleece![[], [{"": []}]], r##"[[], [{"": []}]]"##, r##"[[], [{"": []}]]"##),
        84 => d(fleece!{"": [], "B": [{"": []}]}, r##"{"": [], "B": [{"": []}]}"##, r##"{"": [], "B": [{"": []}]}"##),
        85 => a(fleece![[], {"B": {"B": [],},},], r##"[[], {"B": {"B": [],},},]"##, r##"[[], {"B": {"B": []}}]"##),
        86 => d(fleece!{"B": [], "b": {"B": {"B": []}}}, r##"{"B": [], "b": {"B": {"B": []}}}"##, r##"{"B": [], "b": {"B": {"B": []}}}"##),
        87 => a(fleece![[], [[{}]]], r##"[[], [[{}]]]"##, r##"[[], [[{}]]]"##),
        88 => d(fleece!{"b": [], "a": [[{}]]}, r##"{"b": [], "a": [[{}]]}"##, r##"{"b": [], "a": [[{}]]}"##),
        89 => a(fleece![[], {"b": [{}]}], r##"[[], {"b": [{}]}]"##, r##"[[], {"b": [{}]}]"##),
        90 => d(fleece!{"b": [], "a": {"b": [{},],},}, r##"{"b": [], "a": {"b": [{},],},}"##, r##"{"b": [], "a": {"b": [{}]}}"##),
        91 => a(fleece![[], [{"a": {}}]], r##"[[], [{"a": {}}]]"##, r##"[[], [{"a": {}}]]"##),
        92 => d(fleece!{"a": [], "key": [{"a": {}}]}, r##"{"a": [], "key": [{"a": {}}]}"##, r##"{"a": [], "key": [{"a": {}}]}"##),
        93 => a(fleece![[], {"a": {"a": {}}}], r##"[[], {"a": {"a": {}}}]"##, r##"[[], {"a": {"a": {}}}]"##),
        94 => d(fleece!{"key": [], "a long key beyond inlining": {"key": {"key": {}}}}, r##"{"key": [], "a long key beyond inlining": {"key": {"key": {}}}}"##, r##"{"key": [], "a long key beyond inlining": {"key": {"key": {}}}}"##),
        95 => a(fleece![{}, n, ("é".repeat(9).as_str()), (if n > 1 { 2 } else { 3 }),], r##"[{}, n, ("é".repeat(9).as_str()), (if n > 1 { 2 } else { 3 }),]"##, r##"[{}, 12345, "ééééééééé", 2]"##),
        96 => d(fleece!{"key": {}, "a long key beyond inlining": ("é".repeat(9).as_str()), "é": (if n > 1 { 2 } else { 3 }), "": 7}, r##"{"key": {}, "a long key beyond inlining": ("é".repeat(9).as_str()), "é": (if n > 1 { 2 } else { 3 }), "": 7}"##, r##"{"key": {}, "a long key beyond inlining": "ééééééééé", "é": 2, "": 7}"##),
        97 => a(fleece![{}, (if n > 1 { 2 } else { 3 }), 7, []], r##"[{}, (if n > 1 { 2 } else { 3 }), 7, []]"##, r##"[{}, 2, 7, []]"##),
        98 => d(fleece!{"a long key beyond inlining": {}, "é": 7, "": "text", "B": []}, r##"{"a long key beyond inlining": {}, "é": 7, "": "text", "B": []}"##, r##"{"a long key beyond inlining": {}, "é": 7, "": "text", "B": []}"##),
        _ => a(fleece![{}, "text", true, {}], r##"[{}, "text", true, {}]"##, r##"[{}, "text", true, {}]"##),
    }
}
#[rustfmt::skip]
pub fn part6(k: usize) -> Case {
    let (x, n) = (std::hint::black_box("a longer string"), std::hint::black_box(12345i64));
    let _ = (x, n);
    match k {
        0 => d(fleece!{"é": {}, "": true, "B": (-70000i32), "b": {},}, r##"{"é": {}, "": true, "B": (-70000i32), "b": {},}"##, r##"{"é": {}, "": true, "B": -70000, "b": {}}"##),
        1 => a(fleece![{}, (-70000i32), [], x], r##"[{}, (-70000i32), [], x]"##, r##"[{}, -70000, [], "a longer string"]"##),
        2 => d(fleece!{"é": {}, "": x, "B": [], "b": 1.5}, r##"{"é": {}, "": x, "B": [], "b": 1.5}"##, r##"{"é": {}, "": "a longer string", "B": [], "b": 1.5}"##),
        3 => a(fleece![{}, 1.5, [], []], r##"[{}, 1.5, [], []]"##, r##"[{}, 1.5, [], []]"##),
        4 => d(fleece!{"": {}, "B": (None::<u8>), "b": [], "a": []}, r##"{"": {}, "B": (None::<u8>), "b": [], "a": []}"##, r##"{"": {}, "B": null, "b": [], "a": []}"##),
        5 => a(fleece![{}, "t", [], {},], r##"[{}, "t", [], {},]"##, r##"[{}, "t", [], {}]"##),
        6 => d(fleece!{"B": {}, "b": false, "a": [], "key": {}}, r##"{"B": {}, "b": false, "a": [], "key": {}}"##, r##"{"B": {}, "b": false, "a": [], "key": {}}"##),
        7 => a(fleece![{}, 3000000000u32, {}, n], r##"[{}, 3000000000u32, {}, n]"##, r##"[{}, 3000000000, {}, 12345]"##),
        8 => d(fleece!{"B": {}, "b": n, "a": {}, "key": ("é".repeat(9).as_str())}, r##"{"B": {}, "b": n, "a": {}, "key": ("é".repeat(9).as_str())}"##, r##"{"B": {}, "b": 12345, "a": {}, "key": "ééééééééé"}"##),
        9 => a(fleece![{}, ("é".repeat(9).as_str()), {}, []], r##"[{}, ("é".repeat(9).as_str()), {}, []]"##, r##"[{}, "ééééééééé", {}, []]"##),
        10 => d(fleece!{"b": {}, "a": (if n > 1 { 2 } else { 3 }), "key": {}, "a long key beyond inlining": [],}, r##"{"b": {}, "a": (if n > 1 { 2 } else { 3 }), "key": {}, "a long key beyond inlining": [],}"##, r##"{"b": {}, "a": 2, "key": {}, "a long key beyond inlining": []}"##),
        11 => a(fleece![{}, 7, {}, {}], r##"[{}, 7, {}, {}]"##, r##"[{}, 7, {}, {}]"##),
        12 => d(fleece!{"a": {}, "key": "text", "a long key beyond inlining": {}, "é": {}}, r##"{"a": {}, "key": "text", "a long key beyond inlining": {}, "é": {}}"##, r##"{"a": {}, "key": "text", "a long key beyond inlining": {}, "é": {}}"##),
        13 => a(fleece![{}, true, [(-70000i32)]], r##"[{}, true, [(-70000i32)]]"##, r##"[{}, true, [-70000]]"##),
        14 => d(fleece!{"a": {}, "key": (-70000i32), "a long key beyond inlining": [x]}, r##"{"a": {}, "key": (-70000i32), "a long key beyond inlining": [x]}"##, r##"{"a": {}, "key": -70000, "a long key beyond inlining": ["a longer string"]}"##),
        15 => a(fleece![{}, x, {"key": 1.5,},], r##"[{}, x, {"key": 1.5,},]"##, r##"[{}, "a longer string", {"key": 1.5}]"##),
        16 => d(fleece!{"key": {}, "a long key beyond inlining": 1.5, "é": {"key": (None::<u8>)}}, r##"{"key": {}, "a long key beyond inlining": 1.5, "é": {"key": (None::<u8>)}}"##, r##"{"key": {}, "a long key beyond inlining": 1.5, "é": {"key": null}}"##),
        17 => a(fleece![{}, (None::<u8>), [[]]], r##"[{}, (None::<u8>), [[]]]"##, r##"[{}, null, [[]]]"##),
        18 => d(fleece!{"a long key beyond inlining": {}, "é": "t", "": [[]]}, r##"{"a long key beyond inlining": {}, "é": "t", "": [[]]}"##, r##"{"a long key beyond inlining": {}, "é": "t", "": [[]]}"##),
        19 => a(fleece![{}, false, {"a long key beyond inlining": []}], r##"[{}, false, {"a long key beyond inlining": []}]"##, r##"[{}, false, {"a long key beyond inlining": []}]"##),
        20 => d(fleece!{"a long key beyond inlining": {}, "é": 3000000000u32, "": {"a long key beyond inlining": [],},}, r##"{"a long key beyond inlining": {}, "é": 3000000000u32, "": {"a long key beyond inlining": [],},}"##, r##"{"a long key beyond inlining": {}, "é": 3000000000, "": {"a long key beyond inlining": []}}"##),
        21 => a(fleece![{}, n, [{}]], r##"[{}, n, [{}]]"##, r##"[{}, 12345, [{}]]"##),
        22 => d(fleece!{"é": {}, "": ("é".repeat(9).as_str()), "B": [{}]}, r##"{"é": {}, "": ("é".repeat(9).as_str()), "B": [{}]}"##, r##"{"é": {}, "": "ééééééééé", "B": [{}]}"##),
        23 => a(fleece![{}, (if n > 1 { 2 } else { 3 }), {"é": {}}], r##"[{}, (if n > 1 { 2 } else { 3 }), {"é": {}}]"##, r##"[{}, 2, {"é": {}}]"##),
        24 => d(fleece!{"": {}, "B": 7, "b": {"": {}}}, r##"{"": {}, "B": 7, "b": {"": {}}}"##, r##"{"": {}, "B": 7, "b": {"": {}}}"##),
        25 => a(fleece![{}, [], "text", true,], r##"[{}, [], "text", true,]"##, r##"[{}, [], "text", true]"##),
        26 => d(fleece!{"": {}, "B": [], "b": true, "a": (-70000i32)}, r##"{"": {}, "B": [], "b": true, "a": (-70000i32)}"##, r##"{"": {}, "B": [], "b": true, "a": -70000}"##),
        27 => a(fleece![{}, [], (-70000i32), []], r##"[{}, [], (-70000i32), []]"##, r##"[{}, [], -70000, []]"##),
        28 => d(fleece!{"B": {}, "b": [], "a": x, "key": []}, r##"{"B": {}, "b": [], "a": x, "key": []}"##, r##"{"B": {}, "b": [], "a": "a longer string", "key": []}"##),
        29 => a(fleece![{}, [], 1.5, {}], r##"[{}, [], 1.5, {}]"##, r##"[{}, [], 1.5, {}]"##),
        30 => d(fleece!{"b": {}, "a": [], "key": (None::<u8>), "a long key beyond inlining": {},}, r##"{"b": {}, "a": [], "key": (None::<u8>), "a long key beyond inlining": {},}"##, r##"{"b": {}, "a": [], "key": null, "a long key beyond inlining": {}}"##),
        31 => a(fleece![{}, [], [], "t"], r##"[{}, [], [], "t"]"##, r##"[{}, [], [], "t"]"##),
        32 => d(fleece!{"b": {}, "a": [], "key": [], "a long key beyond inlining": false}, r##"{"b": {}, "a": [], "key": [], "a long key beyond inlining": false}"##, r##"{"b": {}, "a": [], "key": [], "a long key beyond inlining": false}"##),
        33 => a(fleece![{}, [], [], []], r##"[{}, [], [], []]"##, r##"[{}, [], [], []]"##),
        34 => d(fleece!{"a": {}, "key": [], "a long key beyond inlining": [], "é": []}, r##"{"a": {}, "key": [], "a long key beyond inlining": [], "é": []}"##, r##"{"a": {}, "key": [], "a long key beyond inlining": [], "é": []}"##),
        35 => a(fleece![{}, [], [], {},], r##"[{}, [], [], {},]"##, r##"[{}, [], [], {}]"##),
        36 => d(fleece!{"key": {}, "a long key beyond inlining": [], "é": [], "": {}}, r##"{"key": {}, "a long key beyond inlining": [], "é": [], "": {}}"##, r##"{"key": {}, "a long key beyond inlining": [], "é": [], "": {}}"##),
        37 => a(fleece![{}, [], {}, 7], r##"[{}, [], {}, 7]"##, r##"[{}, [], {}, 7]"##),
        38 => d(fleece!{"key": {}, "a long key beyond inlining": [], "é": {}, "": "text"}, r##"{"key": {}, "a long key beyond inlining": [], "é": {}, "": "text"}"##, r##"{"key": {}, "a long key beyond inlining": [], "é": {}, "": "text"}"##),
        39 => a(fleece![{}, [], {}, []], r##"[{}, [], {}, []]"##, r##"[{}, [], {}, []]"##),
        40 => d(fleece!{"a long key beyond inlining": {}, "é": [], "": {}, "B": [],}, r##"{"a long key beyond inlining": {}, "é": [], "": {}, "B": [],}"##, r##"{"a long key beyond inlining": {}, "é": [], "": {}, "B": []}"##),
        41 => a(fleece![{}, [], {}, {}], r##"[{}, [], {}, {}]"##, r##"[{}, [], {}, {}]"##),
        42 => d(fleece!{"é": {}, "": [], "B": {}, "b": {}}, r##"{"é": {}, "": [], "B": {}, "b": {}}"##, r##"{"é": {}, "": [], "B": {}, "b": {}}"##),
        43 => a(fleece![{}, [], [(None::<u8>)]], r##"[{}, [], [(None::<u8>)]]"##, r##"[{}, [], [null]]"##),
        44 => d(fleece!{"é": {}, "": [], "B": ["t"]}, r##"{"é": {}, "": [], "B": ["t"]}"##, r##"{"é": {}, "": [], "B": ["t"]}"##),
        45 => a(fleece![{}, [], {"": false,},], r##"[{}, [], {"": false,},]"##, r##"[{}, [], {"": false}]"##),
        46 => d(fleece!{"": {}, "B": [], "b": {"": 3000000000u32}}, r##"{"": {}, "B": [], "b": {"": 3000000000u32}}"##, r##"{"": {}, "B": [], "b": {"": 3000000000}}"##),
        47 => a(fleece![{}, [], [[]]], r##"[{}, [], [[]]]"##, r##"[{}, [], [[]]]"##),
        48 => d(fleece!{"B": {}, "b": [], "a": [[]]}, r##"{"B": {}, "b": [], "a": [[]]}"##, r##"{"B": {}, "b": [], "a": [[]]}"##),
        49 => a(fleece![{}, [], {"B": []}], r##"[{}, [], {"B": []}]"##, r##"[{}, [], {"B": []}]"##),
        50 => d(fleece!{"B": {}, "b": [], "a": {"B": [],},}, r##"{"B": {}, "b": [], "a": {"B": [],},}"##, r##"{"B": {}, "b": [], "a": {"B": []}}"##),
        51 => a(fleece![{}, [], [{}]], r##"[{}, [], [{}]]"##, r##"[{}, [], [{}]]"##),
        52 => d(fleece!{"b": {}, "a": [], "key": [{}]}, r##"{"b": {}, "a": [], "key": [{}]}"##, r##"{"b": {}, "a": [], "key": [{}]}"##),
        53 => a(fleece![{}, [], {"b": {}}], r##"[{}, [], {"b": {}}]"##, r##"[{}, [], {"b": {}}]"##),
        54 => d(fleece!{"a": {}, "key": [], "a long key beyond inlining": {"a": {}}}, r##"{"a": {}, "key": [], "a long key beyond inlining": {"a": {}}}"##, r##"{"a": {}, "key": [], "a long key beyond inlining": {"a": {}}}"##),
        55 => a(fleece![{}, {}, 1.5, (None::<u8>),], r##"[{}, {}, 1.5, (None::<u8>),]"##, r##"[{}, {}, 1.5, null]"##),
        56 => d(fleece!{"a": {}, "key": {}, "a long key beyond inlining": (None::<u8>), "é": "t"}, r##"{"a": {}, "key": {}, "a long key beyond inlining": (None::<u8>), "é": "t"}"##, r##"{"a": {}, "key": {}, "a long key beyond inlining": null, "é": "t"}"##),
        57 => a(fleece![{}, {}, "t", []], r##"[{}, {}, "t", []]"##, r##"[{}, {}, "t", []]"##),
        58 => d(fleece!{"key": {}, "a long key beyond inlining": {}, "é": false, "": []}, r##"{"key": {}, "a long key beyond inlining": {}, "é": false, "": []}"##, r##"{"key": {}, "a long key beyond inlining": {}, "é": false, "": []}"##),
        59 => a(fleece![{}, {}, 3000000000u32, {}], r##"[{}, {}, 3000000000u32, {}]"##, r##"[{}, {}, 3000000000, {}]"##),
        60 => d(fleece!{"a long key beyond inlining": {}, "é": {}, "": n, "B": {},}, r##"{"a long key beyond inlining": {}, "é": {}, "": n, "B": {},}"##, r##"{"a long key beyond inlining": {}, "é": {}, "": 12345, "B": {}}"##),
        61 => a(fleece![{}, {}, [], ("é".repeat(9).as_str())], r##"[{}, {}, [], ("é".repeat(9).as_str())]"##, r##"[{}, {}, [], "ééééééééé"]"##),
        62 => d(fleece!{"a long key beyond inlining": {}, "é": {}, "": [], "B": (if n > 1 { 2 } else { 3 })}, r##"{"a long key beyond inlining": {}, "é": {}, "": [], "B": (if n > 1 { 2 } else { 3 })}"##, r##"{"a long key beyond inlining": {}, "é": {}, "": [], "B": 2}"##),
        63 => a(fleece![{}, {}, [], []], r##"[{}, {}, [], []]"##, r##"[{}, {}, [], []]"##),
        64 => d(fleece!{"é": {}, "": {}, "B": [], "b": []}, r##"{"é": {}, "": {}, "B": [], "b": []}"##, r##"{"é": {}, "": {}, "B": [], "b": []}"##),
        65 => a(fleece![{}, {}, [], {},], r##"[{}, {}, [], {},]"##, r##"[{}, {}, [], {}]"##),
        66 => d(fleece!{"": {}, "B": {}, "b": [], "a": {}}, r##"{"": {}, "B": {}, "b": [], "a": {}}"##, r##"{"": {}, "B": {}, "b": [], "a": {}}"##),
        67 => a(fleece![{}, {}, {}, x], r##"[{}, {}, {}, x]"##, r##"[{}, {}, {}, "a longer string"]"##),
        68 => d(fleece!{"": {}, "B": {}, "b": {}, "a": 1.5}, r##"{"": {}, "B": {}, "b": {}, "a": 1.5}"##, r##"{"": {}, "B": {}, "b": {}, "a": 1.5}"##),
        69 => a(fleece![{}, {}, {}, []], r##"[{}, {}, {}, []]"##, r##"[{}, {}, {}, []]"##),
        70 => d(fleece!{"B": {}, "b": {}, "a": {}, "key": [],}, r##"{"B": {}, "b": {}, "a": {}, "key": [],}"##, r##"{"B": {}, "b": {}, "a": {}, "key": []}"##),
        71 => a(fleece![{}, {}, {}, {}], r##"[{}, {}, {}, {}]"##, r##"[{}, {}, {}, {}]"##),
        72 => d(fleece!{"b": {}, "a": {}, "key": {}, "a long key beyond inlining": {}}, r##"{"b": {}, "a": {}, "key": {}, "a long key beyond inlining": {}}"##, r##"{"b": {}, "a": {}, "key": {}, "a long key beyond inlining": {}}"##),
        73 => a(fleece![{}, {}, [n]], r##"[{}, {}, [n]]"##, r##"[{}, {}, [12345]]"##),
        74 => d(fleece!{"b": {}, "a": {}, "key": [("é".repeat(9).as_str())]}, r##"{"b": {}, "a": {}, "key": [("é".repeat(9).as_str())]}"##, r##"{"b": {}, "a": {}, "key": ["ééééééééé"]}"##),
        75 => a(fleece![{}, {}, {"a": (if n > 1 { 2 } else { 3 }),},], r##"[{}, {}, {"a": (if n > 1 { 2 } else { 3 }),},]"##, r##"[{}, {}, {"a": 2}]"##),
        76 => d(fleece!{"a": {}, "key": {}, "a long key beyond inlining": {"a": 7}}, r##"{"a": {}, "key": {}, "a long key beyond inlining": {"a": 7}}"##, r##"{"a": {}, "key": {}, "a long key beyond inlining": {"a": 7}}"##),
        77 => a(fleece![{}, {}, [[]]], r##"[{}, {}, [[]]]"##, r##"[{}, {}, [[]]]"##),
        78 => d(fleece!{"key": {}, "a long key beyond inlining": {}, "é": [[]]}, r##"{"key": {}, "a long key beyond inlining": {}, "é": [[]]}"##, r##"{"key": {}, "a long key beyond inlining": {}, "é": [[]]}"##),
        79 => a(fleece![{}, {}, {"key": []}], r##"[{}, {}, {"key": []}]"##, r##"[{}, {}, {"key": []}]"##),
        80 => d(fleece!{"key": {}, "a long key beyond inlining": {}, "é": {"key": [],},}, r##"{"key": {}, "a long key beyond inlining": {}, "é": {"key": [],},}"##, r##"{"key": {}, "a long key beyond inlining": {}, "é": {"key": []}}"##),
        81 => a(fleece![{}, {}, [{}]], r##"[{}, {}, [{}]]"##, r##"[{}, {}, [{}]]"##),
        82 => d(fleece!{"a long key beyond inlining": {}, "é": {}, "": [{}]}, r##"{"a long key beyond inlining": {}, "é": {}, "": [{}]}"##, r##"{"a long key beyond inlining": {}, "é": {}, "": [{}]}"##),
        83 => a(fleece![{}, {}, {"a long key beyond inlining": {}}], r##"[{}, {}, {"a long key beyond inlining": {}}]"##, r##"[{}, {}, {"a long key beyond inlining": {}}]"##),
        84 => d(fleece!{"é": {}, "": {}, "B": {"é": {}}}, r##"{"é": {}, "": {}, "B": {"é": {}}}"##, r##"{"é": {}, "": {}, "B": {"é": {}}}"##),
        85 => a(fleece![{}, [3000000000u32,], n,], r##"[{}, [3000000000u32,], n,]"##, r##"[{}, [3000000000], 12345]"##),
        86 => d(fleece!{"é": {}, "": [n], "B": ("é".repeat(9).as_str())}, r##"{"é": {}, "": [n], "B": ("é".repeat(9).as_str())}"##, r##"{"é": {}, "": [12345], "B": "ééééééééé"}"##),
        87 => a(fleece![{}, [("é".repeat(9).as_str())], []], r##"[{}, [("é".repeat(9).as_str())], []]"##, r##"[{}, ["ééééééééé"], []]"##),
        88 => d(fleece!{"": {}, "B": [(if n > 1 { 2 } else { 3 })], "b": []}, r##"{"": {}, "B": [(if n > 1 { 2 } else { 3 })], "b": []}"##, r##"{"": {}, "B": [2], "b": []}"##),
        89 => a(fleece![{}, [7], {}], r##"[{}, [7], {}]"##, r##"[{}, [7], {}]"##),
        90 => d(fleece!{"B": {}, "b": ["text",], "a": {},}, r##"{"B": {}, "b": ["text",], "a": {},}"##, r##"{"B": {}, "b": ["text"], "a": {}}"##),
        91 => a(fleece![{}, {"B": true}, (-70000i32)], r##"[{}, {"B": true}, (-70000i32)]"##, r##"[{}, {"B": true}, -70000]"##),
        92 => d(fleece!{"B": {}, "b": {"B": (-70000i32)}, "a": x}, r##"{"B": {}, "b": {"B": (-70000i32)}, "a": x}"##, r##"{"B": {}, "b": {"B": -70000}, "a": "a longer string"}"##),
        93 => a(fleece![{}, {"b": x}, []], r##"[{}, {"b": x}, []]"##, r##"[{}, {"b": "a longer string"}, []]"##),
        94 => d(fleece!{"b": {}, "a": {"b": 1.5}, "key": []}, r##"{"b": {}, "a": {"b": 1.5}, "key": []}"##, r##"{"b": {}, "a": {"b": 1.5}, "key": []}"##),
        95 => a(fleece![{}, {"b": (None::<u8>),}, {},], r##"[{}, {"b": (None::<u8>),}, {},]"##, r##"[{}, {"b": null}, {}]"##),
        96 => d(fleece!{"a": {}, "key": {"a": "t"}, "a long key beyond inlining": {}}, r##"{"a": {}, "key": {"a": "t"}, "a long key beyond inlining": {}}"##, r##"{"a": {}, "key": {"a": "t"}, "a long key beyond inlining": {}}"##),
        97 => a(fleece![{}, [[]], false], r##"[{}, [[]], false]"##, r##"[{}, [[]], false]"##),
        98 => d(fleece!{"a": {}, "key": [[]], "a long key beyond inlining": 3000000000u32}, r##"{"a": {}, "key": [[]], "a long key beyond inlining": 3000000000u32}"##, r##"{"a": {}, "key": [[]], "a long key beyond inlining": 3000000000}"##),
        _ => a(fleece![{}, [[]], []], r##"[{}, [[]], []]"##, r##"[{}, [[]], []]"##),
    }
}
#[rustfmt::skip]
pub fn part7(k: usize) -> Case {
    let (x, n) = (std::hint::black_box("a longer string"), std::hint::black_box(12345i64));
    let _ = (x, n);
    match k {
        0 => d(fleece!{"key": {}, "a long key beyond inlining": [[],], "é": [],}, r##"{"key": {}, "a long key beyond inlining": [[],], "é": [],}"##, r##"{"key": {}, "a long key beyond inlining": [[]], "é": []}"##),
        1 => a(fleece![{}, [[]], {}], r##"[{}, [[]], {}]"##, r##"[{}, [[]], {}]"##),
        2 => d(fleece!{"a long key beyond inlining": {}, "é": [[]], "": {}}, r##"{"a long key beyond inlining": {}, "é": [[]], "": {}}"##, r##"{"a long key beyond inlining": {}, "é": [[]], "": {}}"##),
        3 => a(fleece![{}, {"a long key beyond inlining": []}, "text"], r##"[{}, {"a long key beyond inlining": []}, "text"]"##, r##"[{}, {"a long key beyond inlining": []}, "text"]"##),
        4 => d(fleece!{"a long key beyond inlining": {}, "é": {"a long key beyond inlining": []}, "": true}, r##"{"a long key beyond inlining": {}, "é": {"a long key beyond inlining": []}, "": true}"##, r##"{"a long key beyond inlining": {}, "é": {"a long key beyond inlining": []}, "": true}"##),
        5 => a(fleece![{}, {"é": [],}, [],], r##"[{}, {"é": [],}, [],]"##, r##"[{}, {"é": []}, []]"##),
        6 => d(fleece!{"é": {}, "": {"é": []}, "B": []}, r##"{"é": {}, "": {"é": []}, "B": []}"##, r##"{"é": {}, "": {"é": []}, "B": []}"##),
        7 => a(fleece![{}, {"é": []}, {}], r##"[{}, {"é": []}, {}]"##, r##"[{}, {"é": []}, {}]"##),
        8 => d(fleece!{"": {}, "B": {"": []}, "b": {}}, r##"{"": {}, "B": {"": []}, "b": {}}"##, r##"{"": {}, "B": {"": []}, "b": {}}"##),
        9 => a(fleece![{}, [{}], "t"], r##"[{}, [{}], "t"]"##, r##"[{}, [{}], "t"]"##),
        10 => d(fleece!{"": {}, "B": [{},], "b": false,}, r##"{"": {}, "B": [{},], "b": false,}"##, r##"{"": {}, "B": [{}], "b": false}"##),
        11 => a(fleece![{}, [{}], []], r##"[{}, [{}], []]"##, r##"[{}, [{}], []]"##),
        12 => d(fleece!{"B": {}, "b": [{}], "a": []}, r##"{"B": {}, "b": [{}], "a": []}"##, r##"{"B": {}, "b": [{}], "a": []}"##),
        13 => a(fleece![{}, [{}], {}], r##"[{}, [{}], {}]"##, r##"[{}, [{}], {}]"##),
        14 => d(fleece!{"b": {}, "a": [{}], "key": {}}, r##"{"b": {}, "a": [{}], "key": {}}"##, r##"{"b": {}, "a": [{}], "key": {}}"##),
        15 => a(fleece![{}, {"b": {},}, 7,], r##"[{}, {"b": {},}, 7,]"##, r##"[{}, {"b": {}}, 7]"##),
        16 => d(fleece!{"b": {}, "a": {"b": {}}, "key": "text"}, r##"{"b": {}, "a": {"b": {}}, "key": "text"}"##, r##"{"b": {}, "a": {"b": {}}, "key": "text"}"##),
        17 => a(fleece![{}, {"a": {}}, []], r##"[{}, {"a": {}}, []]"##, r##"[{}, {"a": {}}, []]"##),
        18 => d(fleece!{"a": {}, "key": {"a": {}}, "a long key beyond inlining": []}, r##"{"a": {}, "key": {"a": {}}, "a long key beyond inlining": []}"##, r##"{"a": {}, "key": {"a": {}}, "a long key beyond inlining": []}"##),
        19 => a(fleece![{}, {"a": {}}, {}], r##"[{}, {"a": {}}, {}]"##, r##"[{}, {"a": {}}, {}]"##),
        20 => d(fleece!{"key": {}, "a long key beyond inlining": {"key": {},}, "é": {},}, r##"{"key": {}, "a long key beyond inlining": {"key": {},}, "é": {},}"##, r##"{"key": {}, "a long key beyond inlining": {"key": {}}, "é": {}}"##),
        21 => a(fleece![{}, [(None::<u8>), "t"]], r##"[{}, [(None::<u8>), "t"]]"##, r##"[{}, [null, "t"]]"##),
        22 => d(fleece!{"key": {}, "a long key beyond inlining": ["t", false]}, r##"{"key": {}, "a long key beyond inlining": ["t", false]}"##, r##"{"key": {}, "a long key beyond inlining": ["t", false]}"##),
        23 => a(fleece![{}, {"a long key beyond inlining": false, "é": 3000000000u32}], r##"[{}, {"a long key beyond inlining": false, "é": 3000000000u32}]"##, r##"[{}, {"a long key beyond inlining": false, "é": 3000000000}]"##),
        24 => d(fleece!{"a long key beyond inlining": {}, "é": {"a long key beyond inlining": 3000000000u32, "é": n}}, r##"{"a long key beyond inlining": {}, "é": {"a long key beyond inlining": 3000000000u32, "é": n}}"##, r##"{"a long key beyond inlining": {}, "é": {"a long key beyond inlining": 3000000000, "é": 12345}}"##),
        25 => a(fleece![{}, [n, [],],], r##"[{}, [n, [],],]"##, r##"[{}, [12345, []]]"##),
        26 => d(fleece!{"é": {}, "": [("é".repeat(9).as_str()), []]}, r##"{"é": {}, "": [("é".repeat(9).as_str()), []]}"##, r##"{"é": {}, "": ["ééééééééé", []]}"##),
        27 => a(fleece![{}, {"é": (if n > 1 { 2 } else { 3 }), "": []}], r##"[{}, {"é": (if n > 1 { 2 } else { 3 }), "": []}]"##, r##"[{}, {"é": 2, "": []}]"##),
        28 => d(fleece!{"é": {}, "": {"é": 7, "": []}}, r##"{"é": {}, "": {"é": 7, "": []}}"##, r##"{"é": {}, "": {"é": 7, "": []}}"##),
        29 => a(fleece![{}, ["text", {}]], r##"[{}, ["text", {}]]"##, r##"[{}, ["text", {}]]"##),
        30 => d(fleece!{"": {}, "B": [true, {},],}, r##"{"": {}, "B": [true, {},],}"##, r##"{"": {}, "B": [true, {}]}"##),
        31 => a(fleece![{}, {"": (-70000i32), "B": {}}], r##"[{}, {"": (-70000i32), "B": {}}]"##, r##"[{}, {"": -70000, "B": {}}]"##),
        32 => d(fleece!{"B": {}, "b": {"B": x, "b": {}}}, r##"{"B": {}, "b": {"B": x, "b": {}}}"##, r##"{"B": {}, "b": {"B": "a longer string", "b": {}}}"##),
        33 => a(fleece![{}, [[], 1.5]], r##"[{}, [[], 1.5]]"##, r##"[{}, [[], 1.5]]"##),
        34 => d(fleece!{"B": {}, "b": [[], (None::<u8>)]}, r##"{"B": {}, "b": [[], (None::<u8>)]}"##, r##"{"B": {}, "b": [[], null]}"##),
        35 => a(fleece![{}, {"b": [], "a": "t",},], r##"[{}, {"b": [], "a": "t",},]"##, r##"[{}, {"b": [], "a": "t"}]"##),
        36 => d(fleece!{"b": {}, "a": {"b": [], "a": false}}, r##"{"b": {}, "a": {"b": [], "a": false}}"##, r##"{"b": {}, "a": {"b": [], "a": false}}"##),
        37 => a(fleece![{}, [[], []]], r##"[{}, [[], []]]"##, r##"[{}, [[], []]]"##),
        38 => d(fleece!{"a": {}, "key": [[], []]}, r##"{"a": {}, "key": [[], []]}"##, r##"{"a": {}, "key": [[], []]}"##),
        39 => a(fleece![{}, {"a": [], "key": []}], r##"[{}, {"a": [], "key": []}]"##, r##"[{}, {"a": [], "key": []}]"##),
        40 => d(fleece!{"a": {}, "key": {"a": [], "key": [],},}, r##"{"a": {}, "key": {"a": [], "key": [],},}"##, r##"{"a": {}, "key": {"a": [], "key": []}}"##),
        41 => a(fleece![{}, [[], {}]], r##"[{}, [[], {}]]"##, r##"[{}, [[], {}]]"##),
        42 => d(fleece!{"key": {}, "a long key beyond inlining": [[], {}]}, r##"{"key": {}, "a long key beyond inlining": [[], {}]}"##, r##"{"key": {}, "a long key beyond inlining": [[], {}]}"##),
        43 => a(fleece![{}, {"key": [], "a long key beyond inlining": {}}], r##"[{}, {"key": [], "a long key beyond inlining": {}}]"##, r##"[{}, {"key": [], "a long key beyond inlining": {}}]"##),
        44 => d(fleece!{"a long key beyond inlining": {}, "é": {"a long key beyond inlining": [], "é": {}}}, r##"{"a long key beyond inlining": {}, "é": {"a long key beyond inlining": [], "é": {}}}"##, r##"{"a long key beyond inlining": {}, "é": {"a long key beyond inlining": [], "é": {}}}"##),
        45 => a(fleece![{}, [{}, x,],], r##"[{}, [{}, x,],]"##, r##"[{}, [{}, "a longer string"]]"##),
        46 => d(fleece!{"a long key beyond inlining": {}, "é": [{}, 1.5]}, r##"{"a long key beyond inlining": {}, "é": [{}, 1.5]}"##, r##"{"a long key beyond inlining": {}, "é": [{}, 1.5]}"##),
        47 => a(fleece![{}, {"é": {}, "": (None::<u8>)}], r##"[{}, {"é": {}, "": (None::<u8>)}]"##, r##"[{}, {"é": {}, "": null}]"##),
        48 => d(fleece!{"é": {}, "": {"é": {}, "": "t"}}, r##"{"é": {}, "": {"é": {}, "": "t"}}"##, r##"{"é": {}, "": {"é": {}, "": "t"}}"##),
        49 => a(fleece![{}, [{}, []]], r##"[{}, [{}, []]]"##, r##"[{}, [{}, []]]"##),
        50 => d(fleece!{"": {}, "B": [{}, [],],}, r##"{"": {}, "B": [{}, [],],}"##, r##"{"": {}, "B": [{}, []]}"##),
        51 => a(fleece![{}, {"": {}, "B": []}], r##"[{}, {"": {}, "B": []}]"##, r##"[{}, {"": {}, "B": []}]"##),
        52 => d(fleece!{"": {}, "B": {"": {}, "B": []}}, r##"{"": {}, "B": {"": {}, "B": []}}"##, r##"{"": {}, "B": {"": {}, "B": []}}"##),
        53 => a(fleece![{}, [{}, {}]], r##"[{}, [{}, {}]]"##, r##"[{}, [{}, {}]]"##),
        54 => d(fleece!{"B": {}, "b": [{}, {}]}, r##"{"B": {}, "b": [{}, {}]}"##, r##"{"B": {}, "b": [{}, {}]}"##),
        55 => a(fleece![{}, {"B": {}, "b": {},},], r##"[{}, {"B": {}, "b": {},},]"##, r##"[{}, {"B": {}, "b": {}}]"##),
        56 => d(fleece!{"b": {}, "a": {"b": {}, "a": {}}}, r##"{"b": {}, "a": {"b": {}, "a": {}}}"##, r##"{"b": {}, "a": {"b": {}, "a": {}}}"##),
        57 => a(fleece![{}, [[(-70000i32)]]], r##"[{}, [[(-70000i32)]]]"##, r##"[{}, [[-70000]]]"##),
        58 => d(fleece!{"b": {}, "a": [[x]]}, r##"{"b": {}, "a": [[x]]}"##, r##"{"b": {}, "a": [["a longer string"]]}"##),
        59 => a(fleece![{}, {"a": [1.5]}], r##"[{}, {"a": [1.5]}]"##, r##"[{}, {"a": [1.5]}]"##),
        60 => d(fleece!{"a": {}, "key": {"a": [(None::<u8>),],},}, r##"{"a": {}, "key": {"a": [(None::<u8>),],},}"##, r##"{"a": {}, "key": {"a": [null]}}"##),
        61 => a(fleece![{}, [{"a": "t"}]], r##"[{}, [{"a": "t"}]]"##, r##"[{}, [{"a": "t"}]]"##),
        62 => d(fleece!{"key": {}, "a long key beyond inlining": [{"key": false}]}, r##"{"key": {}, "a long key beyond inlining": [{"key": false}]}"##, r##"{"key": {}, "a long key beyond inlining": [{"key": false}]}"##),
        63 => a(fleece![{}, {"key": {"key": 3000000000u32}}], r##"[{}, {"key": {"key": 3000000000u32}}]"##, r##"[{}, {"key": {"key": 3000000000}}]"##),
        64 => d(fleece!{"key": {}, "a long key beyond inlining": {"key": {"key": n}}}, r##"{"key": {}, "a long key beyond inlining": {"key": {"key": n}}}"##, r##"{"key": {}, "a long key beyond inlining": {"key": {"key": 12345}}}"##),
        65 => a(fleece![{}, [[[],],],], r##"[{}, [[[],],],]"##, r##"[{}, [[[]]]]"##),
        66 => d(fleece!{"a long key beyond inlining": {}, "é": [[[]]]}, r##"{"a long key beyond inlining": {}, "é": [[[]]]}"##, r##"{"a long key beyond inlining": {}, "é": [[[]]]}"##),
        67 => a(fleece![{}, {"a long key beyond inlining": [[]]}], r##"[{}, {"a long key beyond inlining": [[]]}]"##, r##"[{}, {"a long key beyond inlining": [[]]}]"##),
        68 => d(fleece!{"é": {}, "": {"é": [[]]}}, r##"{"é": {}, "": {"é": [[]]}}"##, r##"{"é": {}, "": {"é": [[]]}}"##),
        69 => a(fleece![{}, [{"é": []}]], r##"[{}, [{"é": []}]]"##, r##"[{}, [{"é": []}]]"##),
        70 => d(fleece!{"é": {}, "": [{"é": [],},],}, r##"{"é": {}, "": [{"é": [],},],}"##, r##"{"é": {}, "": [{"é": []}]}"##),
        71 => a(fleece![{}, {"": {"": []}}], r##"[{}, {"": {"": []}}]"##, r##"[{}, {"": {"": []}}]"##),
        72 => d(fleece!{"": {}, "B": {"": {"": []}}}, r##"{"": {}, "B": {"": {"": []}}}"##, r##"{"": {}, "B": {"": {"": []}}}"##),
        73 => a(fleece![{}, [[{}]]], r##"[{}, [[{}]]]"##, r##"[{}, [[{}]]]"##),
        74 => d(fleece!{"B": {}, "b": [[{}]]}, r##"{"B": {}, "b": [[{}]]}"##, r##"{"B": {}, "b": [[{}]]}"##),
        75 => a(fleece![{}, {"B": [{},],},], r##"[{}, {"B": [{},],},]"##, r##"[{}, {"B": [{}]}]"##),
        76 => d(fleece!{"B": {}, "b": {"B": [{}]}}, r##"{"B": {}, "b": {"B": [{}]}}"##, r##"{"B": {}, "b": {"B": [{}]}}"##),
        77 => a(fleece![{}, [{"b": {}}]], r##"[{}, [{"b": {}}]]"##, r##"[{}, [{"b": {}}]]"##),
        78 => d(fleece!{"b": {}, "a": [{"b": {}}]}, r##"{"b": {}, "a": [{"b": {}}]}"##, r##"{"b": {}, "a": [{"b": {}}]}"##),
        79 => a(fleece![{}, {"b": {"b": {}}}], r##"[{}, {"b": {"b": {}}}]"##, r##"[{}, {"b": {"b": {}}}]"##),
        80 => d(fleece!{"a": {}, "key": {"a": {"a": {},},},}, r##"{"a": {}, "key": {"a": {"a": {},},},}"##, r##"{"a": {}, "key": {"a": {"a": {}}}}"##),
        81 => a(fleece![["text"], true, (-70000i32)], r##"[["text"], true, (-70000i32)]"##, r##"[["text"], true, -70000]"##),
        82 => d(fleece!{"a": [true], "key": (-70000i32), "a long key beyond inlining": x}, r##"{"a": [true], "key": (-70000i32), "a long key beyond inlining": x}"##, r##"{"a": [true], "key": -70000, "a long key beyond inlining": "a longer string"}"##),
        83 => a(fleece![[(-70000i32)], x, []], r##"[[(-70000i32)], x, []]"##, r##"[[-70000], "a longer string", []]"##),
        84 => d(fleece!{"key": [x], "a long key beyond inlining": 1.5, "é": []}, r##"{"key": [x], "a long key beyond inlining": 1.5, "é": []}"##, r##"{"key": ["a longer string"], "a long key beyond inlining": 1.5, "é": []}"##),
        85 => a(fleece![[1.5,], (None::<u8>), {},], r##"[[1.5,], (None::<u8>), {},]"##, r##"[[1.5], null, {}]"##),
        86 => d(fleece!{"a long key beyond inlining": [(None::<u8>)], "é": "t", "": {}}, r##"{"a long key beyond inlining": [(None::<u8>)], "é": "t", "": {}}"##, r##"{"a long key beyond inlining": [null], "é": "t", "": {}}"##),
        87 => a(fleece![["t"], [], false], r##"[["t"], [], false]"##, r##"[["t"], [], false]"##),
        88 => d(fleece!{"a long key beyond inlining": [false], "é": [], "": 3000000000u32}, r##"{"a long key beyond inlining": [false], "é": [], "": 3000000000u32}"##, r##"{"a long key beyond inlining": [false], "é": [], "": 3000000000}"##),
        89 => a(fleece![[3000000000u32], [], []], r##"[[3000000000u32], [], []]"##, r##"[[3000000000], [], []]"##),
        90 => d(fleece!{"é": [n,], "": [], "B": [],}, r##"{"é": [n,], "": [], "B": [],}"##, r##"{"é": [12345], "": [], "B": []}"##),
        91 => a(fleece![[("é".repeat(9).as_str())], [], {}], r##"[[("é".repeat(9).as_str())], [], {}]"##, r##"[["ééééééééé"], [], {}]"##),
        92 => d(fleece!{"": [(if n > 1 { 2 } else { 3 })], "B": [], "b": {}}, r##"{"": [(if n > 1 { 2 } else { 3 })], "B": [], "b": {}}"##, r##"{"": [2], "B": [], "b": {}}"##),
        93 => a(fleece![[7], {}, "text"], r##"[[7], {}, "text"]"##, r##"[[7], {}, "text"]"##),
        94 => d(fleece!{"": ["text"], "B": {}, "b": true}, r##"{"": ["text"], "B": {}, "b": true}"##, r##"{"": ["text"], "B": {}, "b": true}"##),
        95 => a(fleece![[true,], {}, [],], r##"[[true,], {}, [],]"##, r##"[[true], {}, []]"##),
        96 => d(fleece!{"B": [(-70000i32)], "b": {}, "a": []}, r##"{"B": [(-70000i32)], "b": {}, "a": []}"##, r##"{"B": [-70000], "b": {}, "a": []}"##),
        97 => a(fleece![[x], {}, {}], r##"[[x], {}, {}]"##, r##"[["a longer string"], {}, {}]"##),
        98 => d(fleece!{"b": [1.5], "a": {}, "key": {}}, r##"{"b": [1.5], "a": {}, "key": {}}"##, r##"{"b": [1.5], "a": {}, "key": {}}"##),
        _ => a(fleece![[(None::<u8>)], ["t"]], r##"[[(None::<u8>)], ["t"]]"##, r##"[[null], ["t"]]"##),
    }
}
#[rustfmt::skip]
pub fn part8(k: usize) -> Case {
    let (x, n) = (std::hint::black_box("a longer string"), std::hint::black_box(12345i64));
    let _ = (x, n);
    match k {
        0 => d(fleece!{"b": ["t",], "a": [false,],}, r##"{"b": ["t",], "a": [false,],}"##, r##"{"b": ["t"], "a": [false]}"##),
        1 => a(fleece![[false], {"a": 3000000000u32}], r##"[[false], {"a": 3000000000u32}]"##, r##"[[false], {"a": 3000000000}]"##),
        2 => d(fleece!{"a": [3000000000u32], "key": {"a": n}}, r##"{"a": [3000000000u32], "key": {"a": n}}"##, r##"{"a": [3000000000], "key": {"a": 12345}}"##),
        3 => a(fleece![[n], [[]]], r##"[[n], [[]]]"##, r##"[[12345], [[]]]"##),
        4 => d(fleece!{"key": [("é".repeat(9).as_str())], "a long key beyond inlining": [[]]}, r##"{"key": [("é".repeat(9).as_str())], "a long key beyond inlining": [[]]}"##, r##"{"key": ["ééééééééé"], "a long key beyond inlining": [[]]}"##),
        5 => a(fleece![[(if n > 1 { 2 } else { 3 }),], {"key": [],},], r##"[[(if n > 1 { 2 } else { 3 }),], {"key": [],},]"##, r##"[[2], {"key": []}]"##),
        6 => d(fleece!{"key": [7], "a long key beyond inlining": {"key": []}}, r##"{"key": [7], "a long key beyond inlining": {"key": []}}"##, r##"{"key": [7], "a long key beyond inlining": {"key": []}}"##),
        7 => a(fleece![["text"], [{}]], r##"[["text"], [{}]]"##, r##"[["text"], [{}]]"##),
        8 => d(fleece!{"a long key beyond inlining": [true], "é": [{}]}, r##"{"a long key beyond inlining": [true], "é": [{}]}"##, r##"{"a long key beyond inlining": [true], "é": [{}]}"##),
        9 => a(fleece![[(-70000i32)], {"a long key beyond inlining": {}}], r##"[[(-70000i32)], {"a long key beyond inlining": {}}]"##, r##"[[-70000], {"a long key beyond inlining": {}}]"##),
        10 => d(fleece!{"é": [x,], "": {"é": {},},}, r##"{"é": [x,], "": {"é": {},},}"##, r##"{"é": ["a longer string"], "": {"é": {}}}"##),
        11 => a(fleece![{"é": 1.5}, (None::<u8>), "t"], r##"[{"é": 1.5}, (None::<u8>), "t"]"##, r##"[{"é": 1.5}, null, "t"]"##),
        12 => d(fleece!{"é": {"é": (None::<u8>)}, "": "t", "B": false}, r##"{"é": {"é": (None::<u8>)}, "": "t", "B": false}"##, r##"{"é": {"é": null}, "": "t", "B": false}"##),
        13 => a(fleece![{"": "t"}, false, []], r##"[{"": "t"}, false, []]"##, r##"[{"": "t"}, false, []]"##),
        14 => d(fleece!{"": {"": false}, "B": 3000000000u32, "b": []}, r##"{"": {"": false}, "B": 3000000000u32, "b": []}"##, r##"{"": {"": false}, "B": 3000000000, "b": []}"##),
        15 => a(fleece![{"": 3000000000u32,}, n, {},], r##"[{"": 3000000000u32,}, n, {},]"##, r##"[{"": 3000000000}, 12345, {}]"##),
        16 => d(fleece!{"B": {"B": n}, "b": ("é".repeat(9).as_str()), "a": {}}, r##"{"B": {"B": n}, "b": ("é".repeat(9).as_str()), "a": {}}"##, r##"{"B": {"B": 12345}, "b": "ééééééééé", "a": {}}"##),
        17 => a(fleece![{"B": ("é".repeat(9).as_str())}, [], (if n > 1 { 2 } else { 3 })], r##"[{"B": ("é".repeat(9).as_str())}, [], (if n > 1 { 2 } else { 3 })]"##, r##"[{"B": "ééééééééé"}, [], 2]"##),
        18 => d(fleece!{"B": {"B": (if n > 1 { 2 } else { 3 })}, "b": [], "a": 7}, r##"{"B": {"B": (if n > 1 { 2 } else { 3 })}, "b": [], "a": 7}"##, r##"{"B": {"B": 2}, "b": [], "a": 7}"##),
        19 => a(fleece![{"b": 7}, [], []], r##"[{"b": 7}, [], []]"##, r##"[{"b": 7}, [], []]"##),
        20 => d(fleece!{"b": {"b": "text",}, "a": [], "key": [],}, r##"{"b": {"b": "text",}, "a": [], "key": [],}"##, r##"{"b": {"b": "text"}, "a": [], "key": []}"##),
        21 => a(fleece![{"b": true}, [], {}], r##"[{"b": true}, [], {}]"##, r##"[{"b": true}, [], {}]"##),
        22 => d(fleece!{"a": {"a": (-70000i32)}, "key": [], "a long key beyond inlining": {}}, r##"{"a": {"a": (-70000i32)}, "key": [], "a long key beyond inlining": {}}"##, r##"{"a": {"a": -70000}, "key": [], "a long key beyond inlining": {}}"##),
        23 => a(fleece![{"a": x}, {}, 1.5], r##"[{"a": x}, {}, 1.5]"##, r##"[{"a": "a longer string"}, {}, 1.5]"##),
        24 => d(fleece!{"a": {"a": 1.5}, "key": {}, "a long key beyond inlining": (None::<u8>)}, r##"{"a": {"a": 1.5}, "key": {}, "a long key beyond inlining": (None::<u8>)}"##, r##"{"a": {"a": 1.5}, "key": {}, "a long key beyond inlining": null}"##),
        25 => a(fleece![{"key": (None::<u8>),}, {}, [],], r##"[{"key": (None::<u8>),}, {}, [],]"##, r##"[{"key": null}, {}, []]"##),
        26 => d(fleece!{"key": {"key": "t"}, "a long key beyond inlining": {}, "é": []}, r##"{"key": {"key": "t"}, "a long key beyond inlining": {}, "é": []}"##, r##"{"key": {"key": "t"}, "a long key beyond inlining": {}, "é": []}"##),
        27 => a(fleece![{"key": false}, {}, {}], r##"[{"key": false}, {}, {}]"##, r##"[{"key": false}, {}, {}]"##),
        28 => d(fleece!{"a long key beyond inlining": {"a long key beyond inlining": 3000000000u32}, "é": {}, "": {}}, r##"{"a long key beyond inlining": {"a long key beyond inlining": 3000000000u32}, "é": {}, "": {}}"##, r##"{"a long key beyond inlining": {"a long key beyond inlining": 3000000000}, "é": {}, "": {}}"##),
        29 => a(fleece![{"a long key beyond inlining": n}, [("é".repeat(9).as_str())]], r##"[{"a long key beyond inlining": n}, [("é".repeat(9).as_str())]]"##, r##"[{"a long key beyond inlining": 12345}, ["ééééééééé"]]"##),
        30 => d(fleece!{"a long key beyond inlining": {"a long key beyond inlining": ("é".repeat(9).as_str()),}, "é": [(if n > 1 { 2 } else { 3 }),],}, r##"{"a long key beyond inlining": {"a long key beyond inlining": ("é".repeat(9).as_str()),}, "é": [(if n > 1 { 2 } else { 3 }),],}"##, r##"{"a long key beyond inlining": {"a long key beyond inlining": "ééééééééé"}, "é": [2]}"##),
        31 => a(fleece![{"é": (if n > 1 { 2 } else { 3 })}, {"é": 7}], r##"[{"é": (if n > 1 { 2 } else { 3 })}, {"é": 7}]"##, r##"[{"é": 2}, {"é": 7}]"##),
        32 => d(fleece!{"é": {"é": 7}, "": {"é": "text"}}, r##"{"é": {"é": 7}, "": {"é": "text"}}"##, r##"{"é": {"é": 7}, "": {"é": "text"}}"##),
        33 => a(fleece![{"é": "text"}, [[]]], r##"[{"é": "text"}, [[]]]"##, r##"[{"é": "text"}, [[]]]"##),
        34 => d(fleece!{"": {"": true}, "B": [[]]}, r##"{"": {"": true}, "B": [[]]}"##, r##"{"": {"": true}, "B": [[]]}"##),
        35 => a(fleece![{"": (-70000i32),}, {"": [],},], r##"[{"": (-70000i32),}, {"": [],},]"##, r##"[{"": -70000}, {"": []}]"##),
        36 => d(fleece!{"": {"": x}, "B": {"": []}}, r##"{"": {"": x}, "B": {"": []}}"##, r##"{"": {"": "a longer string"}, "B": {"": []}}"##),
        37 => a(fleece![{"B": 1.5}, [{}]], r##"[{"B": 1.5}, [{}]]"##, r##"[{"B": 1.5}, [{}]]"##),
        38 => d(fleece!{"B": {"B": (None::<u8>)}, "b": [{}]}, r##"{"B": {"B": (None::<u8>)}, "b": [{}]}"##, r##"{"B": {"B": null}, "b": [{}]}"##),
        39 => a(fleece![{"B": "t"}, {"B": {}}], r##"[{"B": "t"}, {"B": {}}]"##, r##"[{"B": "t"}, {"B": {}}]"##),
        40 => d(fleece!{"b": {"b": false,}, "a": {"b": {},},}, r##"{"b": {"b": false,}, "a": {"b": {},},}"##, r##"{"b": {"b": false}, "a": {"b": {}}}"##),
        41 => a(fleece![[[]], 3000000000u32, n], r##"[[[]], 3000000000u32, n]"##, r##"[[[]], 3000000000, 12345]"##),
        42 => d(fleece!{"b": [[]], "a": n, "key": ("é".repeat(9).as_str())}, r##"{"b": [[]], "a": n, "key": ("é".repeat(9).as_str())}"##, r##"{"b": [[]], "a": 12345, "key": "ééééééééé"}"##),
        43 => a(fleece![[[]], ("é".repeat(9).as_str()), []], r##"[[[]], ("é".repeat(9).as_str()), []]"##, r##"[[[]], "ééééééééé", []]"##),
        44 => d(fleece!{"a": [[]], "key": (if n > 1 { 2 } else { 3 }), "a long key beyond inlining": []}, r##"{"a": [[]], "key": (if n > 1 { 2 } else { 3 }), "a long key beyond inlining": []}"##, r##"{"a": [[]], "key": 2, "a long key beyond inlining": []}"##),
        45 => a(fleece![[[],], 7, {},], r##"[[[],], 7, {},]"##, r##"[[[]], 7, {}]"##),
        46 => d(fleece!{"key": [[]], "a long key beyond inlining": "text", "é": {}}, r##"{"key": [[]], "a long key beyond inlining": "text", "é": {}}"##, r##"{"key": [[]], "a long key beyond inlining": "text", "é": {}}"##),
        47 => a(fleece![[[]], [], true], r##"[[[]], [], true]"##, r##"[[[]], [], true]"##),
        48 => d(fleece!{"key": [[]], "a long key beyond inlining": [], "é": (-70000i32)}, r##"{"key": [[]], "a long key beyond inlining": [], "é": (-70000i32)}"##, r##"{"key": [[]], "a long key beyond inlining": [], "é": -70000}"##),
        49 => a(fleece![[[]], [], []], r##"[[[]], [], []]"##, r##"[[[]], [], []]"##),
        50 => d(fleece!{"a long key beyond inlining": [[],], "é": [], "": [],}, r##"{"a long key beyond inlining": [[],], "é": [], "": [],}"##, r##"{"a long key beyond inlining": [[]], "é": [], "": []}"##),
        51 => a(fleece![[[]], [], {}], r##"[[[]], [], {}]"##, r##"[[[]], [], {}]"##),
        52 => d(fleece!{"é": [[]], "": [], "B": {}}, r##"{"é": [[]], "": [], "B": {}}"##, r##"{"é": [[]], "": [], "B": {}}"##),
        53 => a(fleece![[[]], {}, false], r##"[[[]], {}, false]"##, r##"[[[]], {}, false]"##),
        54 => d(fleece!{"é": [[]], "": {}, "B": 3000000000u32}, r##"{"é": [[]], "": {}, "B": 3000000000u32}"##, r##"{"é": [[]], "": {}, "B": 3000000000}"##),
        55 => a(fleece![[[],], {}, [],], r##"[[[],], {}, [],]"##, r##"[[[]], {}, []]"##),
        56 => d(fleece!{"": [[]], "B": {}, "b": []}, r##"{"": [[]], "B": {}, "b": []}"##, r##"{"": [[]], "B": {}, "b": []}"##),
        57 => a(fleece![[[]], {}, {}], r##"[[[]], {}, {}]"##, r##"[[[]], {}, {}]"##),
        58 => d(fleece!{"B": [[]], "b": {}, "a": {}}, r##"{"B": [[]], "b": {}, "a": {}}"##, r##"{"B": [[]], "b": {}, "a": {}}"##),
        59 => a(fleece![[[]], ["text"]], r##"[[[]], ["text"]]"##, r##"[[[]], ["text"]]"##),
        60 => d(fleece!{"B": [[],], "b": [true,],}, r##"{"B": [[],], "b": [true,],}"##, r##"{"B": [[]], "b": [true]}"##),
        61 => a(fleece![[[]], {"b": (-70000i32)}], r##"[[[]], {"b": (-70000i32)}]"##, r##"[[[]], {"b": -70000}]"##),
        62 => d(fleece!{"b": [[]], "a": {"b": x}}, r##"{"b": [[]], "a": {"b": x}}"##, r##"{"b": [[]], "a": {"b": "a longer string"}}"##),
        63 => a(fleece![[[]], [[]]], r##"[[[]], [[]]]"##, r##"[[[]], [[]]]"##),
        64 => d(fleece!{"a": [[]], "key": [[]]}, r##"{"a": [[]], "key": [[]]}"##, r##"{"a": [[]], "key": [[]]}"##),
        65 => a(fleece![[[],], {"a": [],},], r##"[[[],], {"a": [],},]"##, r##"[[[]], {"a": []}]"##),
        66 => d(fleece!{"a": [[]], "key": {"a": []}}, r##"{"a": [[]], "key": {"a": []}}"##, r##"{"a": [[]], "key": {"a": []}}"##),
        67 => a(fleece![[[]], [{}]], r##"[[[]], [{}]]"##, r##"[[[]], [{}]]"##),
        68 => d(fleece!{"key": [[]], "a long key beyond inlining": [{}]}, r##"{"key": [[]], "a long key beyond inlining": [{}]}"##, r##"{"key": [[]], "a long key beyond inlining": [{}]}"##),
        69 => a(fleece![[[]], {"key": {}}], r##"[[[]], {"key": {}}]"##, r##"[[[]], {"key": {}}]"##),
        70 => d(fleece!{"a long key beyond inlining": [[],], "é": {"a long key beyond inlining": {},},}, r##"{"a long key beyond inlining": [[],], "é": {"a long key beyond inlining": {},},}"##, r##"{"a long key beyond inlining": [[]], "é": {"a long key beyond inlining": {}}}"##),
        71 => a(fleece![{"a long key beyond inlining": []}, 7, "text"], r##"[{"a long key beyond inlining": []}, 7, "text"]"##, r##"[{"a long key beyond inlining": []}, 7, "text"]"##),
        72 => d(fleece!{"a long key beyond inlining": {"a long key beyond inlining": []}, "é": "text", "": true}, r##"{"a long key beyond inlining": {"a long key beyond inlining": []}, "é": "text", "": true}"##, r##"{"a long key beyond inlining": {"a long key beyond inlining": []}, "é": "text", "": true}"##),
        73 => a(fleece![{"é": []}, true, []], r##"[{"é": []}, true, []]"##, r##"[{"é": []}, true, []]"##),
        74 => d(fleece!{"é": {"é": []}, "": (-70000i32), "B": []}, r##"{"é": {"é": []}, "": (-70000i32), "B": []}"##, r##"{"é": {"é": []}, "": -70000, "B": []}"##),
        75 => a(fleece![{"é": [],}, x, {},], r##"[{"é": [],}, x, {},]"##, r##"[{"é": []}, "a longer string", {}]"##),
        76 => d(fleece!{"": {"": []}, "B": 1.5, "b": {}}, r##"{"": {"": []}, "B": 1.5, "b": {}}"##, r##"{"": {"": []}, "B": 1.5, "b": {}}"##),
        77 => a(fleece![{"": []}, [], (None::<u8>)], r##"[{"": []}, [], (None::<u8>)]"##, r##"[{"": []}, [], null]"##),
        78 => d(fleece!{"": {"": []}, "B": [], "b": "t"}, r##"{"": {"": []}, "B": [], "b": "t"}"##, r##"{"": {"": []}, "B": [], "b": "t"}"##),
        79 => a(fleece![{"B": []}, [], []], r##"[{"B": []}, [], []]"##, r##"[{"B": []}, [], []]"##),
        80 => d(fleece!{"B": {"B": [],}, "b": [], "a": [],}, r##"{"B": {"B": [],}, "b": [], "a": [],}"##, r##"{"B": {"B": []}, "b": [], "a": []}"##),
        81 => a(fleece![{"B": []}, [], {}], r##"[{"B": []}, [], {}]"##, r##"[{"B": []}, [], {}]"##),
        82 => d(fleece!{"b": {"b": []}, "a": [], "key": {}}, r##"{"b": {"b": []}, "a": [], "key": {}}"##, r##"{"b": {"b": []}, "a": [], "key": {}}"##),
        83 => a(fleece![{"b": []}, {}, (if n > 1 { 2 } else { 3 })], r##"[{"b": []}, {}, (if n > 1 { 2 } else { 3 })]"##, r##"[{"b": []}, {}, 2]"##),
        84 => d(fleece!{"b": {"b": []}, "a": {}, "key": 7}, r##"{"b": {"b": []}, "a": {}, "key": 7}"##, r##"{"b": {"b": []}, "a": {}, "key": 7}"##),
        85 => a(fleece![{"a": [],}, {}, [],], r##"[{"a": [],}, {}, [],]"##, r##"[{"a": []}, {}, []]"##),
        86 => d(fleece!{"a": {"a": []}, "key": {}, "a long key beyond inlining": []}, r##"{"a": {"a": []}, "key": {}, "a long key beyond inlining": []}"##, r##"{"a": {"a": []}, "key": {}, "a long key beyond inlining": []}"##),
        87 => a(fleece![{"a": []}, {}, {}], r##"[{"a": []}, {}, {}]"##, r##"[{"a": []}, {}, {}]"##),
        88 => d(fleece!{"key": {"key": []}, "a long key beyond inlining": {}, "é": {}}, r##"{"key": {"key": []}, "a long key beyond inlining": {}, "é": {}}"##, r##"{"key": {"key": []}, "a long key beyond inlining": {}, "é": {}}"##),
        89 => a(fleece![{"key": []}, [1.5]], r##"[{"key": []}, [1.5]]"##, r##"[{"key": []}, [1.5]]"##),
        90 => d(fleece!{"key": {"key": [],}, "a long key beyond inlining": [(None::<u8>),],}, r##"{"key": {"key": [],}, "a long key beyond inlining": [(None::<u8>),],}"##, r##"{"key": {"key": []}, "a long key beyond inlining": [null]}"##),
        91 => a(fleece![{"a long key beyond inlining": []}, {"a long key beyond inlining": "t"}], r##"[{"a long key beyond inlining": []}, {"a long key beyond inlining": "t"}]"##, r##"[{"a long key beyond inlining": []}, {"a long key beyond inlining": "t"}]"##),
        92 => d(fleece!{"a long key beyond inlining": {"a long key beyond inlining": []}, "é": {"a long key beyond inlining": false}}, r##"{"a long key beyond inlining": {"a long key beyond inlining": []}, "é": {"a long key beyond inlining": false}}"##, r##"{"a long key beyond inlining": {"a long key beyond inlining": []}, "é": {"a long key beyond inlining": false}}"##),
        93 => a(fleece![{"a long key beyond inlining": []}, [[]]], r##"[{"a long key beyond inlining": []}, [[]]]"##, r##"[{"a long key beyond inlining": []}, [[]]]"##),
        94 => d(fleece!{"é": {"é": []}, "": [[]]}, r##"{"é": {"é": []}, "": [[]]}"##, r##"{"é": {"é": []}, "": [[]]}"##),
        95 => a(fleece![{"é": [],}, {"é": [],},], r##"[{"é": [],}, {"é": [],},]"##, r##"[{"é": []}, {"é": []}]"##),
        96 => d(fleece!{"é": {"é": []}, "": {"é": []}}, r##"{"é": {"é": []}, "": {"é": []}}"##, r##"{"é": {"é": []}, "": {"é": []}}"##),
        97 => a(fleece![{"": []}, [{}]], r##"[{"": []}, [{}]]"##, r##"[{"": []}, [{}]]"##),
        98 => d(fleece!{"": {"": []}, "B": [{}]}, r##"{"": {"": []}, "B": [{}]}"##, r##"{"": {"": []}, "B": [{}]}"##),
        _ => a(fleece![{"": []}, {"": {}}], r##"[{"": []}, {"": {}}]"##, r##"[{"": []}, {"": {}}]"##),
    }
}
#[rustfmt::skip]
pub fn part9(k: usize) -> Case {
    let (x, n) = (std::hint::black_box("a longer string"), std::hint::black_box(12345i64));
    let _ = (x, n);
    match k {
        0 => d(fleece!{"B": {"B": [],}, "b": {"B": {},},}, r##"{"B": {"B": [],}, "b": {"B": {},},}"##, r##"{"B": {"B": []}, "b": {"B": {}}}"##),
        1 => a(fleece![[{}], x, 1.5], r##"[[{}], x, 1.5]"##, r##"[[{}], "a longer string", 1.5]"##),
        2 => d(fleece!{"B": [{}], "b": 1.5, "a": (None::<u8>)}, r##"{"B": [{}], "b": 1.5, "a": (None::<u8>)}"##, r##"{"B": [{}], "b": 1.5, "a": null}"##),
        3 => a(fleece![[{}], (None::<u8>), []], r##"[[{}], (None::<u8>), []]"##, r##"[[{}], null, []]"##),
        4 => d(fleece!{"b": [{}], "a": "t", "key": []}, r##"{"b": [{}], "a": "t", "key": []}"##, r##"{"b": [{}], "a": "t", "key": []}"##),
        5 => a(fleece![[{},], false, {},], r##"[[{},], false, {},]"##, r##"[[{}], false, {}]"##),
        6 => d(fleece!{"a": [{}], "key": 3000000000u32, "a long key beyond inlining": {}}, r##"{"a": [{}], "key": 3000000000u32, "a long key beyond inlining": {}}"##, r##"{"a": [{}], "key": 3000000000, "a long key beyond inlining": {}}"##),
        7 => a(fleece![[{}], [], n], r##"[[{}], [], n]"##, r##"[[{}], [], 12345]"##),
        8 => d(fleece!{"a": [{}], "key": [], "a long key beyond inlining": ("é".repeat(9).as_str())}, r##"{"a": [{}], "key": [], "a long key beyond inlining": ("é".repeat(9).as_str())}"##, r##"{"a": [{}], "key": [], "a long key beyond inlining": "ééééééééé"}"##),
        9 => a(fleece![[{}], [], []], r##"[[{}], [], []]"##, r##"[[{}], [], []]"##),
        10 => d(fleece!{"key": [{},], "a long key beyond inlining": [], "é": [],}, r##"{"key": [{},], "a long key beyond inlining": [], "é": [],}"##, r##"{"key": [{}], "a long key beyond inlining": [], "é": []}"##),
        11 => a(fleece![[{}], [], {}], r##"[[{}], [], {}]"##, r##"[[{}], [], {}]"##),
        12 => d(fleece!{"a long key beyond inlining": [{}], "é": [], "": {}}, r##"{"a long key beyond inlining": [{}], "é": [], "": {}}"##, r##"{"a long key beyond inlining": [{}], "é": [], "": {}}"##),
        13 => a(fleece![[{}], {}, (-70000i32)], r##"[[{}], {}, (-70000i32)]"##, r##"[[{}], {}, -70000]"##),
        14 => d(fleece!{"a long key beyond inlining": [{}], "é": {}, "": x}, r##"{"a long key beyond inlining": [{}], "é": {}, "": x}"##, r##"{"a long key beyond inlining": [{}], "é": {}, "": "a longer string"}"##),
        15 => a(fleece![[{},], {}, [],], r##"[[{},], {}, [],]"##, r##"[[{}], {}, []]"##),
        16 => d(fleece!{"é": [{}], "": {}, "B": []}, r##"{"é": [{}], "": {}, "B": []}"##, r##"{"é": [{}], "": {}, "B": []}"##),
        17 => a(fleece![[{}], {}, {}], r##"[[{}], {}, {}]"##, r##"[[{}], {}, {}]"##),
        18 => d(fleece!{"": [{}], "B": {}, "b": {}}, r##"{"": [{}], "B": {}, "b": {}}"##, r##"{"": [{}], "B": {}, "b": {}}"##),
        19 => a(fleece![[{}], [3000000000u32]], r##"[[{}], [3000000000u32]]"##, r##"[[{}], [3000000000]]"##),
        20 => d(fleece!{"": [{},], "B": [n,],}, r##"{"": [{},], "B": [n,],}"##, r##"{"": [{}], "B": [12345]}"##),
        21 => a(fleece![[{}], {"B": ("é".repeat(9).as_str())}], r##"[[{}], {"B": ("é".repeat(9).as_str())}]"##, r##"[[{}], {"B": "ééééééééé"}]"##),
        22 => d(fleece!{"B": [{}], "b": {"B": (if n > 1 { 2 } else { 3 })}}, r##"{"B": [{}], "b": {"B": (if n > 1 { 2 } else { 3 })}}"##, r##"{"B": [{}], "b": {"B": 2}}"##),
        23 => a(fleece![[{}], [[]]], r##"[[{}], [[]]]"##, r##"[[{}], [[]]]"##),
        24 => d(fleece!{"b": [{}], "a": [[]]}, r##"{"b": [{}], "a": [[]]}"##, r##"{"b": [{}], "a": [[]]}"##),
        25 => a(fleece![[{},], {"b": [],},], r##"[[{},], {"b": [],},]"##, r##"[[{}], {"b": []}]"##),
        26 => d(fleece!{"b": [{}], "a": {"b": []}}, r##"{"b": [{}], "a": {"b": []}}"##, r##"{"b": [{}], "a": {"b": []}}"##),
        27 => a(fleece![[{}], [{}]], r##"[[{}], [{}]]"##, r##"[[{}], [{}]]"##),
        28 => d(fleece!{"a": [{}], "key": [{}]}, r##"{"a": [{}], "key": [{}]}"##, r##"{"a": [{}], "key": [{}]}"##),
        29 => a(fleece![[{}], {"a": {}}], r##"[[{}], {"a": {}}]"##, r##"[[{}], {"a": {}}]"##),
        30 => d(fleece!{"key": [{},], "a long key beyond inlining": {"key": {},},}, r##"{"key": [{},], "a long key beyond inlining": {"key": {},},}"##, r##"{"key": [{}], "a long key beyond inlining": {"key": {}}}"##),
        31 => a(fleece![{"key": {}}, false, 3000000000u32], r##"[{"key": {}}, false, 3000000000u32]"##, r##"[{"key": {}}, false, 3000000000]"##),
        32 => d(fleece!{"key": {"key": {}}, "a long key beyond inlining": 3000000000u32, "é": n}, r##"{"key": {"key": {}}, "a long key beyond inlining": 3000000000u32, "é": n}"##, r##"{"key": {"key": {}}, "a long key beyond inlining": 3000000000, "é": 12345}"##),
        33 => a(fleece![{"a long key beyond inlining": {}}, n, []], r##"[{"a long key beyond inlining": {}}, n, []]"##, r##"[{"a long key beyond inlining": {}}, 12345, []]"##),
        34 => d(fleece!{"a long key beyond inlining": {"a long key beyond inlining": {}}, "é": ("é".repeat(9).as_str()), "": []}, r##"{"a long key beyond inlining": {"a long key beyond inlining": {}}, "é": ("é".repeat(9).as_str()), "": []}"##, r##"{"a long key beyond inlining": {"a long key beyond inlining": {}}, "é": "ééééééééé", "": []}"##),
        35 => a(fleece![{"a long key beyond inlining": {},}, (if n > 1 { 2 } else { 3 }), {},], r##"[{"a long key beyond inlining": {},}, (if n > 1 { 2 } else { 3 }), {},]"##, r##"[{"a long key beyond inlining": {}}, 2, {}]"##),
        36 => d(fleece!{"é": {"é": {}}, "": 7, "B": {}}, r##"{"é": {"é": {}}, "": 7, "B": {}}"##, r##"{"é": {"é": {}}, "": 7, "B": {}}"##),
        37 => a(fleece![{"é": {}}, [], "text"], r##"[{"é": {}}, [], "text"]"##, r##"[{"é": {}}, [], "text"]"##),
        38 => d(fleece!{"é": {"é": {}}, "": [], "B": true}, r##"{"é": {"é": {}}, "": [], "B": true}"##, r##"{"é": {"é": {}}, "": [], "B": true}"##),
        39 => a(fleece![{"": {}}, [], []], r##"[{"": {}}, [], []]"##, r##"[{"": {}}, [], []]"##),
        40 => d(fleece!{"": {"": {},}, "B": [], "b": [],}, r##"{"": {"": {},}, "B": [], "b": [],}"##, r##"{"": {"": {}}, "B": [], "b": []}"##),
        41 => a(fleece![{"": {}}, [], {}], r##"[{"": {}}, [], {}]"##, r##"[{"": {}}, [], {}]"##),
        42 => d(fleece!{"B": {"B": {}}, "b": [], "a": {}}, r##"{"B": {"B": {}}, "b": [], "a": {}}"##, r##"{"B": {"B": {}}, "b": [], "a": {}}"##),
        43 => a(fleece![{"B": {}}, {}, "t"], r##"[{"B": {}}, {}, "t"]"##, r##"[{"B": {}}, {}, "t"]"##),
        44 => d(fleece!{"B": {"B": {}}, "b": {}, "a": false}, r##"{"B": {"B": {}}, "b": {}, "a": false}"##, r##"{"B": {"B": {}}, "b": {}, "a": false}"##),
        45 => a(fleece![{"b": {},}, {}, [],], r##"[{"b": {},}, {}, [],]"##, r##"[{"b": {}}, {}, []]"##),
        46 => d(fleece!{"b": {"b": {}}, "a": {}, "key": []}, r##"{"b": {"b": {}}, "a": {}, "key": []}"##, r##"{"b": {"b": {}}, "a": {}, "key": []}"##),
        47 => a(fleece![{"b": {}}, {}, {}], r##"[{"b": {}}, {}, {}]"##, r##"[{"b": {}}, {}, {}]"##),
        48 => d(fleece!{"a": {"a": {}}, "key": {}, "a long key beyond inlining": {}}, r##"{"a": {"a": {}}, "key": {}, "a long key beyond inlining": {}}"##, r##"{"a": {"a": {}}, "key": {}, "a long key beyond inlining": {}}"##),
        49 => a(fleece![{"a": {}}, [7]], r##"[{"a": {}}, [7]]"##, r##"[{"a": {}}, [7]]"##),
        50 => d(fleece!{"a": {"a": {},}, "key": ["text",],}, r##"{"a": {"a": {},}, "key": ["text",],}"##, r##"{"a": {"a": {}}, "key": ["text"]}"##),
        51 => a(fleece![{"key": {}}, {"key": true}], r##"[{"key": {}}, {"key": true}]"##, r##"[{"key": {}}, {"key": true}]"##),
        52 => d(fleece!{"key": {"key": {}}, "a long key beyond inlining": {"key": (-70000i32)}}, r##"{"key": {"key": {}}, "a long key beyond inlining": {"key": (-70000i32)}}"##, r##"{"key": {"key": {}}, "a long key beyond inlining": {"key": -70000}}"##),
        53 => a(fleece![{"key": {}}, [[]]], r##"[{"key": {}}, [[]]]"##, r##"[{"key": {}}, [[]]]"##),
        54 => d(fleece!{"a long key beyond inlining": {"a long key beyond inlining": {}}, "é": [[]]}, r##"{"a long key beyond inlining": {"a long key beyond inlining": {}}, "é": [[]]}"##, r##"{"a long key beyond inlining": {"a long key beyond inlining": {}}, "é": [[]]}"##),
        55 => a(fleece![{"a long key beyond inlining": {},}, {"a long key beyond inlining": [],},], r##"[{"a long key beyond inlining": {},}, {"a long key beyond inlining": [],},]"##, r##"[{"a long key beyond inlining": {}}, {"a long key beyond inlining": []}]"##),
        56 => d(fleece!{"a long key beyond inlining": {"a long key beyond inlining": {}}, "é": {"a long key beyond inlining": []}}, r##"{"a long key beyond inlining": {"a long key beyond inlining": {}}, "é": {"a long key beyond inlining": []}}"##, r##"{"a long key beyond inlining": {"a long key beyond inlining": {}}, "é": {"a long key beyond inlining": []}}"##),
        57 => a(fleece![{"é": {}}, [{}]], r##"[{"é": {}}, [{}]]"##, r##"[{"é": {}}, [{}]]"##),
        58 => d(fleece!{"é": {"é": {}}, "": [{}]}, r##"{"é": {"é": {}}, "": [{}]}"##, r##"{"é": {"é": {}}, "": [{}]}"##),
        59 => a(fleece![{"é": {}}, {"é": {}}], r##"[{"é": {}}, {"é": {}}]"##, r##"[{"é": {}}, {"é": {}}]"##),
        60 => d(fleece!{"": {"": {},}, "B": {"": {},},}, r##"{"": {"": {},}, "B": {"": {},},}"##, r##"{"": {"": {}}, "B": {"": {}}}"##),
        61 => a(fleece![[(if n > 1 { 2 } else { 3 }), 7], "text"], r##"[[(if n > 1 { 2 } else { 3 }), 7], "text"]"##, r##"[[2, 7], "text"]"##),
        62 => d(fleece!{"": [7, "text"], "B": true}, r##"{"": [7, "text"], "B": true}"##, r##"{"": [7, "text"], "B": true}"##),
        63 => a(fleece![["text", true], []], r##"[["text", true], []]"##, r##"[["text", true], []]"##),
        64 => d(fleece!{"B": [true, (-70000i32)], "b": []}, r##"{"B": [true, (-70000i32)], "b": []}"##, r##"{"B": [true, -70000], "b": []}"##),
        65 => a(fleece![[(-70000i32), x,], {},], r##"[[(-70000i32), x,], {},]"##, r##"[[-70000, "a longer string"], {}]"##),
        66 => d(fleece!{"b": [x, 1.5], "a": {}}, r##"{"b": [x, 1.5], "a": {}}"##, r##"{"b": ["a longer string", 1.5], "a": {}}"##),
        67 => a(fleece![{"b": 1.5, "a": (None::<u8>)}, "t"], r##"[{"b": 1.5, "a": (None::<u8>)}, "t"]"##, r##"[{"b": 1.5, "a": null}, "t"]"##),
        68 => d(fleece!{"b": {"b": (None::<u8>), "a": "t"}, "a": false}, r##"{"b": {"b": (None::<u8>), "a": "t"}, "a": false}"##, r##"{"b": {"b": null, "a": "t"}, "a": false}"##),
        69 => a(fleece![{"a": "t", "key": false}, []], r##"[{"a": "t", "key": false}, []]"##, r##"[{"a": "t", "key": false}, []]"##),
        70 => d(fleece!{"a": {"a": false, "key": 3000000000u32,}, "key": [],}, r##"{"a": {"a": false, "key": 3000000000u32,}, "key": [],}"##, r##"{"a": {"a": false, "key": 3000000000}, "key": []}"##),
        71 => a(fleece![{"a": 3000000000u32, "key": n}, {}], r##"[{"a": 3000000000u32, "key": n}, {}]"##, r##"[{"a": 3000000000, "key": 12345}, {}]"##),
        72 => d(fleece!{"key": {"key": n, "a long key beyond inlining": ("é".repeat(9).as_str())}, "a long key beyond inlining": {}}, r##"{"key": {"key": n, "a long key beyond inlining": ("é".repeat(9).as_str())}, "a long key beyond inlining": {}}"##, r##"{"key": {"key": 12345, "a long key beyond inlining": "ééééééééé"}, "a long key beyond inlining": {}}"##),
        73 => a(fleece![[("é".repeat(9).as_str()), []], (if n > 1 { 2 } else { 3 })], r##"[[("é".repeat(9).as_str()), []], (if n > 1 { 2 } else { 3 })]"##, r##"[["ééééééééé", []], 2]"##),
        74 => d(fleece!{"key": [(if n > 1 { 2 } else { 3 }), []], "a long key beyond inlining": 7}, r##"{"key": [(if n > 1 { 2 } else { 3 }), []], "a long key beyond inlining": 7}"##, r##"{"key": [2, []], "a long key beyond inlining": 7}"##),
        75 => a(fleece![[7, [],], [],], r##"[[7, [],], [],]"##, r##"[[7, []], []]"##),
        76 => d(fleece!{"a long key beyond inlining": ["text", []], "é": []}, r##"{"a long key beyond inlining": ["text", []], "é": []}"##, r##"{"a long key beyond inlining": ["text", []], "é": []}"##),
        77 => a(fleece![[true, []], {}], r##"[[true, []], {}]"##, r##"[[true, []], {}]"##),
        78 => d(fleece!{"é": [(-70000i32), []], "": {}}, r##"{"é": [(-70000i32), []], "": {}}"##, r##"{"é": [-70000, []], "": {}}"##),
        79 => a(fleece![{"é": x, "": []}, 1.5], r##"[{"é": x, "": []}, 1.5]"##, r##"[{"é": "a longer string", "": []}, 1.5]"##),
        80 => d(fleece!{"é": {"é": 1.5, "": [],}, "": (None::<u8>),}, r##"{"é": {"é": 1.5, "": [],}, "": (None::<u8>),}"##, r##"{"é": {"é": 1.5, "": []}, "": null}"##),
        81 => a(fleece![{"": (None::<u8>), "B": []}, []], r##"[{"": (None::<u8>), "B": []}, []]"##, r##"[{"": null, "B": []}, []]"##),
        82 => d(fleece!{"": {"": "t", "B": []}, "B": []}, r##"{"": {"": "t", "B": []}, "B": []}"##, r##"{"": {"": "t", "B": []}, "B": []}"##),
        83 => a(fleece![{"": false, "B": []}, {}], r##"[{"": false, "B": []}, {}]"##, r##"[{"": false, "B": []}, {}]"##),
        84 => d(fleece!{"B": {"B": 3000000000u32, "b": []}, "b": {}}, r##"{"B": {"B": 3000000000u32, "b": []}, "b": {}}"##, r##"{"B": {"B": 3000000000, "b": []}, "b": {}}"##),
        85 => a(fleece![[n, {},], ("é".repeat(9).as_str()),], r##"[[n, {},], ("é".repeat(9).as_str()),]"##, r##"[[12345, {}], "ééééééééé"]"##),
        86 => d(fleece!{"B": [("é".repeat(9).as_str()), {}], "b": (if n > 1 { 2 } else { 3 })}, r##"{"B": [("é".repeat(9).as_str()), {}], "b": (if n > 1 { 2 } else { 3 })}"##, r##"{"B": ["ééééééééé", {}], "b": 2}"##),
        87 => a(fleece![[(if n > 1 { 2 } else { 3 }), {}], []], r##"[[(if n > 1 { 2 } else { 3 }), {}], []]"##, r##"[[2, {}], []]"##),
        88 => d(fleece!{"b": [7, {}], "a": []}, r##"{"b": [7, {}], "a": []}"##, r##"{"b": [7, {}], "a": []}"##),
        89 => a(fleece![["text", {}], {}], r##"[["text", {}], {}]"##, r##"[["text", {}], {}]"##),
        90 => d(fleece!{"a": [true, {},], "key": {},}, r##"{"a": [true, {},], "key": {},}"##, r##"{"a": [true, {}], "key": {}}"##),
        91 => a(fleece![{"a": (-70000i32), "key": {}}, x], r##"[{"a": (-70000i32), "key": {}}, x]"##, r##"[{"a": -70000, "key": {}}, "a longer string"]"##),
        92 => d(fleece!{"a": {"a": x, "key": {}}, "key": 1.5}, r##"{"a": {"a": x, "key": {}}, "key": 1.5}"##, r##"{"a": {"a": "a longer string", "key": {}}, "key": 1.5}"##),
        93 => a(fleece![{"key": 1.5, "a long key beyond inlining": {}}, []], r##"[{"key": 1.5, "a long key beyond inlining": {}}, []]"##, r##"[{"key": 1.5, "a long key beyond inlining": {}}, []]"##),
        94 => d(fleece!{"key": {"key": (None::<u8>), "a long key beyond inlining": {}}, "a long key beyond inlining": []}, r##"{"key": {"key": (None::<u8>), "a long key beyond inlining": {}}, "a long key beyond inlining": []}"##, r##"{"key": {"key": null, "a long key beyond inlining": {}}, "a long key beyond inlining": []}"##),
        95 => a(fleece![{"key": "t", "a long key beyond inlining": {},}, {},], r##"[{"key": "t", "a long key beyond inlining": {},}, {},]"##, r##"[{"key": "t", "a long key beyond inlining": {}}, {}]"##),
        96 => d(fleece!{"a long key beyond inlining": {"a long key beyond inlining": false, "é": {}}, "é": {}}, r##"{"a long key beyond inlining": {"a long key beyond inlining": false, "é": {}}, "é": {}}"##, r##"{"a long key beyond inlining": {"a long key beyond inlining": false, "é": {}}, "é": {}}"##),
        97 => a(fleece![[[], 3000000000u32], n], r##"[[[], 3000000000u32], n]"##, r##"[[[], 3000000000], 12345]"##),
        98 => d(fleece!{"a long key beyond inlining": [[], n], "é": ("é".repeat(9).as_str())}, r##"{"a long key beyond inlining": [[], n], "é": ("é".repeat(9).as_str())}"##, r##"{"a long key beyond inlining": [[], 12345], "é": "ééééééééé"}"##),
        _ => a(fleece![[[], ("é".repeat(9).as_str())], []], r##"[[[], ("é".repeat(9).as_str())], []]"##, r##"[[[], "ééééééééé"], []]"##),
    }
}
#[rustfmt::skip]
pub fn part10(k: usize) -> Case {
    let (x, n) = (std::hint::black_box("a longer string"), std::hint::black_box(12345i64));
    let _ = (x, n);
    match k {
        0 => d(fleece!{"é": [[], (if n > 1 { 2 } else { 3 }),], "": [],}, r##"{"é": [[], (if n > 1 { 2 } else { 3 }),], "": [],}"##, r##"{"é": [[], 2], "": []}"##),
        1 => a(fleece![[[], 7], {}], r##"[[[], 7], {}]"##, r##"[[[], 7], {}]"##),
        2 => d(fleece!{"": [[], "text"], "B": {}}, r##"{"": [[], "text"], "B": {}}"##, r##"{"": [[], "text"], "B": {}}"##),
        3 => a(fleece![{"": [], "B": true}, (-70000i32)], r##"[{"": [], "B": true}, (-70000i32)]"##, r##"[{"": [], "B": true}, -70000]"##),
        4 => d(fleece!{"": {"": [], "B": (-70000i32)}, "B": x}, r##"{"": {"": [], "B": (-70000i32)}, "B": x}"##, r##"{"": {"": [], "B": -70000}, "B": "a longer string"}"##),
        5 => a(fleece![{"B": [], "b": x,}, [],], r##"[{"B": [], "b": x,}, [],]"##, r##"[{"B": [], "b": "a longer string"}, []]"##),
        6 => d(fleece!{"B": {"B": [], "b": 1.5}, "b": []}, r##"{"B": {"B": [], "b": 1.5}, "b": []}"##, r##"{"B": {"B": [], "b": 1.5}, "b": []}"##),
        7 => a(fleece![{"B": [], "b": (None::<u8>)}, {}], r##"[{"B": [], "b": (None::<u8>)}, {}]"##, r##"[{"B": [], "b": null}, {}]"##),
        8 => d(fleece!{"b": {"b": [], "a": "t"}, "a": {}}, r##"{"b": {"b": [], "a": "t"}, "a": {}}"##, r##"{"b": {"b": [], "a": "t"}, "a": {}}"##),
        9 => a(fleece![[[], []], false], r##"[[[], []], false]"##, r##"[[[], []], false]"##),
        10 => d(fleece!{"b": [[], [],], "a": 3000000000u32,}, r##"{"b": [[], [],], "a": 3000000000u32,}"##, r##"{"b": [[], []], "a": 3000000000}"##),
        11 => a(fleece![[[], []], []], r##"[[[], []], []]"##, r##"[[[], []], []]"##),
        12 => d(fleece!{"a": [[], []], "key": []}, r##"{"a": [[], []], "key": []}"##, r##"{"a": [[], []], "key": []}"##),
        13 => a(fleece![[[], []], {}], r##"[[[], []], {}]"##, r##"[[[], []], {}]"##),
        14 => d(fleece!{"key": [[], []], "a long key beyond inlining": {}}, r##"{"key": [[], []], "a long key beyond inlining": {}}"##, r##"{"key": [[], []], "a long key beyond inlining": {}}"##),
        15 => a(fleece![{"key": [], "a long key beyond inlining": [],}, "text",], r##"[{"key": [], "a long key beyond inlining": [],}, "text",]"##, r##"[{"key": [], "a long key beyond inlining": []}, "text"]"##),
        16 => d(fleece!{"key": {"key": [], "a long key beyond inlining": []}, "a long key beyond inlining": true}, r##"{"key": {"key": [], "a long key beyond inlining": []}, "a long key beyond inlining": true}"##, r##"{"key": {"key": [], "a long key beyond inlining": []}, "a long key beyond inlining": true}"##),
        17 => a(fleece![{"a long key beyond inlining": [], "é": []}, []], r##"[{"a long key beyond inlining": [], "é": []}, []]"##, r##"[{"a long key beyond inlining": [], "é": []}, []]"##),
        18 => d(fleece!{"a long key beyond inlining": {"a long key beyond inlining": [], "é": []}, "é": []}, r##"{"a long key beyond inlining": {"a long key beyond inlining": [], "é": []}, "é": []}"##, r##"{"a long key beyond inlining": {"a long key beyond inlining": [], "é": []}, "é": []}"##),
        19 => a(fleece![{"a long key beyond inlining": [], "é": []}, {}], r##"[{"a long key beyond inlining": [], "é": []}, {}]"##, r##"[{"a long key beyond inlining": [], "é": []}, {}]"##),
        20 => d(fleece!{"é": {"é": [], "": [],}, "": {},}, r##"{"é": {"é": [], "": [],}, "": {},}"##, r##"{"é": {"é": [], "": []}, "": {}}"##),
        21 => a(fleece![[[], {}], "t"], r##"[[[], {}], "t"]"##, r##"[[[], {}], "t"]"##),
        22 => d(fleece!{"é": [[], {}], "": false}, r##"{"é": [[], {}], "": false}"##, r##"{"é": [[], {}], "": false}"##),
        23 => a(fleece![[[], {}], []], r##"[[[], {}], []]"##, r##"[[[], {}], []]"##),
        24 => d(fleece!{"": [[], {}], "B": []}, r##"{"": [[], {}], "B": []}"##, r##"{"": [[], {}], "B": []}"##),
        25 => a(fleece![[[], {},], {},], r##"[[[], {},], {},]"##, r##"[[[], {}], {}]"##),
        26 => d(fleece!{"B": [[], {}], "b": {}}, r##"{"B": [[], {}], "b": {}}"##, r##"{"B": [[], {}], "b": {}}"##),
        27 => a(fleece![{"B": [], "b": {}}, 7], r##"[{"B": [], "b": {}}, 7]"##, r##"[{"B": [], "b": {}}, 7]"##),
        28 => d(fleece!{"B": {"B": [], "b": {}}, "b": "text"}, r##"{"B": {"B": [], "b": {}}, "b": "text"}"##, r##"{"B": {"B": [], "b": {}}, "b": "text"}"##),
        29 => a(fleece![{"b": [], "a": {}}, []], r##"[{"b": [], "a": {}}, []]"##, r##"[{"b": [], "a": {}}, []]"##),
        30 => d(fleece!{"b": {"b": [], "a": {},}, "a": [],}, r##"{"b": {"b": [], "a": {},}, "a": [],}"##, r##"{"b": {"b": [], "a": {}}, "a": []}"##),
        31 => a(fleece![{"b": [], "a": {}}, {}], r##"[{"b": [], "a": {}}, {}]"##, r##"[{"b": [], "a": {}}, {}]"##),
        32 => d(fleece!{"a": {"a": [], "key": {}}, "key": {}}, r##"{"a": {"a": [], "key": {}}, "key": {}}"##, r##"{"a": {"a": [], "key": {}}, "key": {}}"##),
        33 => a(fleece![[{}, (None::<u8>)], "t"], r##"[[{}, (None::<u8>)], "t"]"##, r##"[[{}, null], "t"]"##),
        34 => d(fleece!{"a": [{}, "t"], "key": false}, r##"{"a": [{}, "t"], "key": false}"##, r##"{"a": [{}, "t"], "key": false}"##),
        35 => a(fleece![[{}, false,], [],], r##"[[{}, false,], [],]"##, r##"[[{}, false], []]"##),
        36 => d(fleece!{"key": [{}, 3000000000u32], "a long key beyond inlining": []}, r##"{"key": [{}, 3000000000u32], "a long key beyond inlining": []}"##, r##"{"key": [{}, 3000000000], "a long key beyond inlining": []}"##),
        37 => a(fleece![[{}, n], {}], r##"[[{}, n], {}]"##, r##"[[{}, 12345], {}]"##),
        38 => d(fleece!{"a long key beyond inlining": [{}, ("é".repeat(9).as_str())], "é": {}}, r##"{"a long key beyond inlining": [{}, ("é".repeat(9).as_str())], "é": {}}"##, r##"{"a long key beyond inlining": [{}, "ééééééééé"], "é": {}}"##),
        39 => a(fleece![{"a long key beyond inlining": {}, "é": (if n > 1 { 2 } else { 3 })}, 7], r##"[{"a long key beyond inlining": {}, "é": (if n > 1 { 2 } else { 3 })}, 7]"##, r##"[{"a long key beyond inlining": {}, "é": 2}, 7]"##),
        40 => d(fleece!{"a long key beyond inlining": {"a long key beyond inlining": {}, "é": 7,}, "é": "text",}, r##"{"a long key beyond inlining": {"a long key beyond inlining": {}, "é": 7,}, "é": "text",}"##, r##"{"a long key beyond inlining": {"a long key beyond inlining": {}, "é": 7}, "é": "text"}"##),
        41 => a(fleece![{"é": {}, "": "text"}, []], r##"[{"é": {}, "": "text"}, []]"##, r##"[{"é": {}, "": "text"}, []]"##),
        42 => d(fleece!{"é": {"é": {}, "": true}, "": []}, r##"{"é": {"é": {}, "": true}, "": []}"##, r##"{"é": {"é": {}, "": true}, "": []}"##),
        43 => a(fleece![{"é": {}, "": (-70000i32)}, {}], r##"[{"é": {}, "": (-70000i32)}, {}]"##, r##"[{"é": {}, "": -70000}, {}]"##),
        44 => d(fleece!{"": {"": {}, "B": x}, "B": {}}, r##"{"": {"": {}, "B": x}, "B": {}}"##, r##"{"": {"": {}, "B": "a longer string"}, "B": {}}"##),
        45 => a(fleece![[{}, [],], 1.5,], r##"[[{}, [],], 1.5,]"##, r##"[[{}, []], 1.5]"##),
        46 => d(fleece!{"": [{}, []], "B": (None::<u8>)}, r##"{"": [{}, []], "B": (None::<u8>)}"##, r##"{"": [{}, []], "B": null}"##),
        47 => a(fleece![[{}, []], []], r##"[[{}, []], []]"##, r##"[[{}, []], []]"##),
        48 => d(fleece!{"B": [{}, []], "b": []}, r##"{"B": [{}, []], "b": []}"##, r##"{"B": [{}, []], "b": []}"##),
        49 => a(fleece![[{}, []], {}], r##"[[{}, []], {}]"##, r##"[[{}, []], {}]"##),
        50 => d(fleece!{"b": [{}, [],], "a": {},}, r##"{"b": [{}, [],], "a": {},}"##, r##"{"b": [{}, []], "a": {}}"##),
        51 => a(fleece![{"b": {}, "a": []}, ("é".repeat(9).as_str())], r##"[{"b": {}, "a": []}, ("é".repeat(9).as_str())]"##, r##"[{"b": {}, "a": []}, "ééééééééé"]"##),
        52 => d(fleece!{"b": {"b": {}, "a": []}, "a": (if n > 1 { 2 } else { 3 })}, r##"{"b": {"b": {}, "a": []}, "a": (if n > 1 { 2 } else { 3 })}"##, r##"{"b": {"b": {}, "a": []}, "a": 2}"##),
        53 => a(fleece![{"a": {}, "key": []}, []], r##"[{"a": {}, "key": []}, []]"##, r##"[{"a": {}, "key": []}, []]"##),
        54 => d(fleece!{"a": {"a": {}, "key": []}, "key": []}, r##"{"a": {"a": {}, "key": []}, "key": []}"##, r##"{"a": {"a": {}, "key": []}, "key": []}"##),
        55 => a(fleece![{"a": {}, "key": [],}, {},], r##"[{"a": {}, "key": [],}, {},]"##, r##"[{"a": {}, "key": []}, {}]"##),
        56 => d(fleece!{"key": {"key": {}, "a long key beyond inlining": []}, "a long key beyond inlining": {}}, r##"{"key": {"key": {}, "a long key beyond inlining": []}, "a long key beyond inlining": {}}"##, r##"{"key": {"key": {}, "a long key beyond inlining": []}, "a long key beyond inlining": {}}"##),
        57 => a(fleece![[{}, {}], x], r##"[[{}, {}], x]"##, r##"[[{}, {}], "a longer string"]"##),
        58 => d(fleece!{"key": [{}, {}], "a long key beyond inlining": 1.5}, r##"{"key": [{}, {}], "a long key beyond inlining": 1.5}"##, r##"{"key": [{}, {}], "a long key beyond inlining": 1.5}"##),
        59 => a(fleece![[{}, {}], []], r##"[[{}, {}], []]"##, r##"[[{}, {}], []]"##),
        60 => d(fleece!{"a long key beyond inlining": [{}, {},], "é": [],}, r##"{"a long key beyond inlining": [{}, {},], "é": [],}"##, r##"{"a long key beyond inlining": [{}, {}], "é": []}"##),
        61 => a(fleece![[{}, {}], {}], r##"[[{}, {}], {}]"##, r##"[[{}, {}], {}]"##),
        62 => d(fleece!{"é": [{}, {}], "": {}}, r##"{"é": [{}, {}], "": {}}"##, r##"{"é": [{}, {}], "": {}}"##),
        63 => a(fleece![{"é": {}, "": {}}, n], r##"[{"é": {}, "": {}}, n]"##, r##"[{"é": {}, "": {}}, 12345]"##),
        64 => d(fleece!{"é": {"é": {}, "": {}}, "": ("é".repeat(9).as_str())}, r##"{"é": {"é": {}, "": {}}, "": ("é".repeat(9).as_str())}"##, r##"{"é": {"é": {}, "": {}}, "": "ééééééééé"}"##),
        65 => a(fleece![{"": {}, "B": {},}, [],], r##"[{"": {}, "B": {},}, [],]"##, r##"[{"": {}, "B": {}}, []]"##),
        66 => d(fleece!{"": {"": {}, "B": {}}, "B": []}, r##"{"": {"": {}, "B": {}}, "B": []}"##, r##"{"": {"": {}, "B": {}}, "B": []}"##),
        67 => a(fleece![{"": {}, "B": {}}, {}], r##"[{"": {}, "B": {}}, {}]"##, r##"[{"": {}, "B": {}}, {}]"##),
        68 => d(fleece!{"B": {"B": {}, "b": {}}, "b": {}}, r##"{"B": {"B": {}, "b": {}}, "b": {}}"##, r##"{"B": {"B": {}, "b": {}}, "b": {}}"##),
        69 => a(fleece![[[(-70000i32)]], x], r##"[[[(-70000i32)]], x]"##, r##"[[[-70000]], "a longer string"]"##),
        70 => d(fleece!{"B": [[x,],], "b": 1.5,}, r##"{"B": [[x,],], "b": 1.5,}"##, r##"{"B": [["a longer string"]], "b": 1.5}"##),
        71 => a(fleece![[[1.5]], []], r##"[[[1.5]], []]"##, r##"[[[1.5]], []]"##),
        72 => d(fleece!{"b": [[(None::<u8>)]], "a": []}, r##"{"b": [[(None::<u8>)]], "a": []}"##, r##"{"b": [[null]], "a": []}"##),
        73 => a(fleece![[["t"]], {}], r##"[[["t"]], {}]"##, r##"[[["t"]], {}]"##),
        74 => d(fleece!{"a": [[false]], "key": {}}, r##"{"a": [[false]], "key": {}}"##, r##"{"a": [[false]], "key": {}}"##),
        75 => a(fleece![{"a": [3000000000u32,],}, n,], r##"[{"a": [3000000000u32,],}, n,]"##, r##"[{"a": [3000000000]}, 12345]"##),
        76 => d(fleece!{"a": {"a": [n]}, "key": ("é".repeat(9).as_str())}, r##"{"a": {"a": [n]}, "key": ("é".repeat(9).as_str())}"##, r##"{"a": {"a": [12345]}, "key": "ééééééééé"}"##),
        77 => a(fleece![{"key": [("é".repeat(9).as_str())]}, []], r##"[{"key": [("é".repeat(9).as_str())]}, []]"##, r##"[{"key": ["ééééééééé"]}, []]"##),
        78 => d(fleece!{"key": {"key": [(if n > 1 { 2 } else { 3 })]}, "a long key beyond inlining": []}, r##"{"key": {"key": [(if n > 1 { 2 } else { 3 })]}, "a long key beyond inlining": []}"##, r##"{"key": {"key": [2]}, "a long key beyond inlining": []}"##),
        79 => a(fleece![{"key": [7]}, {}], r##"[{"key": [7]}, {}]"##, r##"[{"key": [7]}, {}]"##),
        80 => d(fleece!{"a long key beyond inlining": {"a long key beyond inlining": ["text",],}, "é": {},}, r##"{"a long key beyond inlining": {"a long key beyond inlining": ["text",],}, "é": {},}"##, r##"{"a long key beyond inlining": {"a long key beyond inlining": ["text"]}, "é": {}}"##),
        81 => a(fleece![[{"a long key beyond inlining": true}], (-70000i32)], r##"[[{"a long key beyond inlining": true}], (-70000i32)]"##, r##"[[{"a long key beyond inlining": true}], -70000]"##),
        82 => d(fleece!{"a long key beyond inlining": [{"a long key beyond inlining": (-70000i32)}], "é": x}, r##"{"a long key beyond inlining": [{"a long key beyond inlining": (-70000i32)}], "é": x}"##, r##"{"a long key beyond inlining": [{"a long key beyond inlining": -70000}], "é": "a longer string"}"##),
        83 => a(fleece![[{"é": x}], []], r##"[[{"é": x}], []]"##, r##"[[{"é": "a longer string"}], []]"##),
        84 => d(fleece!{"é": [{"é": 1.5}], "": []}, r##"{"é": [{"é": 1.5}], "": []}"##, r##"{"é": [{"é": 1.5}], "": []}"##),
        85 => a(fleece![[{"é": (None::<u8>),},], {},], r##"[[{"é": (None::<u8>),},], {},]"##, r##"[[{"é": null}], {}]"##),
        86 => d(fleece!{"": [{"": "t"}], "B": {}}, r##"{"": [{"": "t"}], "B": {}}"##, r##"{"": [{"": "t"}], "B": {}}"##),
        87 => a(fleece![{"": {"": false}}, 3000000000u32], r##"[{"": {"": false}}, 3000000000u32]"##, r##"[{"": {"": false}}, 3000000000]"##),
        88 => d(fleece!{"": {"": {"": 3000000000u32}}, "B": n}, r##"{"": {"": {"": 3000000000u32}}, "B": n}"##, r##"{"": {"": {"": 3000000000}}, "B": 12345}"##),
        89 => a(fleece![{"B": {"B": n}}, []], r##"[{"B": {"B": n}}, []]"##, r##"[{"B": {"B": 12345}}, []]"##),
        90 => d(fleece!{"B": {"B": {"B": ("é".repeat(9).as_str()),},}, "b": [],}, r##"{"B": {"B": {"B": ("é".repeat(9).as_str()),},}, "b": [],}"##, r##"{"B": {"B": {"B": "ééééééééé"}}, "b": []}"##),
        91 => a(fleece![{"B": {"B": (if n > 1 { 2 } else { 3 })}}, {}], r##"[{"B": {"B": (if n > 1 { 2 } else { 3 })}}, {}]"##, r##"[{"B": {"B": 2}}, {}]"##),
        92 => d(fleece!{"b": {"b": {"b": 7}}, "a": {}}, r##"{"b": {"b": {"b": 7}}, "a": {}}"##, r##"{"b": {"b": {"b": 7}}, "a": {}}"##),
        93 => a(fleece![[[[]]], "text"], r##"[[[[]]], "text"]"##, r##"[[[[]]], "text"]"##),
        94 => d(fleece!{"b": [[[]]], "a": true}, r##"{"b": [[[]]], "a": true}"##, r##"{"b": [[[]]], "a": true}"##),
        95 => a(fleece![[[[],],], [],], r##"[[[[],],], [],]"##, r##"[[[[]]], []]"##),
        96 => d(fleece!{"a": [[[]]], "key": []}, r##"{"a": [[[]]], "key": []}"##, r##"{"a": [[[]]], "key": []}"##),
        97 => a(fleece![[[[]]], {}], r##"[[[[]]], {}]"##, r##"[[[[]]], {}]"##),
        98 => d(fleece!{"key": [[[]]], "a long key beyond inlining": {}}, r##"{"key": [[[]]], "a long key beyond inlining": {}}"##, r##"{"key": [[[]]], "a long key beyond inlining": {}}"##),
        _ => a(fleece![{"key": [[]]}, "t"], r##"[{"key": [[]]}, "t"]"##, r##"[{"key": [[]]}, "t"]"##),
    }
}
#[rustfmt::skip]
pub fn part11(k: usize) -> Case {
    let (x, n) = (std::hint::black_box("a longer string"), std::hint::black_box(12345i64));
    let _ = (x, n);
    match k {
        0 => d(fleece!{"key": {"key": [[],],}, "a long key beyond inlining": false,}, r##"{"key": {"key": [[],],}, "a long key beyond inlining": false,}"##, r##"{"key": {"key": [[]]}, "a long key beyond inlining": false}"##),
        1 => a(fleece![{"a long key beyond inlining": [[]]}, []], r##"[{"a long key beyond inlining": [[]]}, []]"##, r##"[{"a long key beyond inlining": [[]]}, []]"##),
        2 => d(fleece!{"a long key beyond inlining": {"a long key beyond inlining": [[]]}, "é": []}, r##"{"a long key beyond inlining": {"a long key beyond inlining": [[]]}, "é": []}"##, r##"{"a long key beyond inlining": {"a long key beyond inlining": [[]]}, "é": []}"##),
        3 => a(fleece![{"a long key beyond inlining": [[]]}, {}], r##"[{"a long key beyond inlining": [[]]}, {}]"##, r##"[{"a long key beyond inlining": [[]]}, {}]"##),
        4 => d(fleece!{"é": {"é": [[]]}, "": {}}, r##"{"é": {"é": [[]]}, "": {}}"##, r##"{"é": {"é": [[]]}, "": {}}"##),
        5 => a(fleece![[{"é": [],},], 7,], r##"[[{"é": [],},], 7,]"##, r##"[[{"é": []}], 7]"##),
        6 => d(fleece!{"é": [{"é": []}], "": "text"}, r##"{"é": [{"é": []}], "": "text"}"##, r##"{"é": [{"é": []}], "": "text"}"##),
        7 => a(fleece![[{"": []}], []], r##"[[{"": []}], []]"##, r##"[[{"": []}], []]"##),
        8 => d(fleece!{"": [{"": []}], "B": []}, r##"{"": [{"": []}], "B": []}"##, r##"{"": [{"": []}], "B": []}"##),
        9 => a(fleece![[{"": []}], {}], r##"[[{"": []}], {}]"##, r##"[[{"": []}], {}]"##),
        10 => d(fleece!{"B": [{"B": [],},], "b": {},}, r##"{"B": [{"B": [],},], "b": {},}"##, r##"{"B": [{"B": []}], "b": {}}"##),
        11 => a(fleece![{"B": {"B": []}}, (None::<u8>)], r##"[{"B": {"B": []}}, (None::<u8>)]"##, r##"[{"B": {"B": []}}, null]"##),
        12 => d(fleece!{"B": {"B": {"B": []}}, "b": "t"}, r##"{"B": {"B": {"B": []}}, "b": "t"}"##, r##"{"B": {"B": {"B": []}}, "b": "t"}"##),
        13 => a(fleece![{"b": {"b": []}}, []], r##"[{"b": {"b": []}}, []]"##, r##"[{"b": {"b": []}}, []]"##),
        14 => d(fleece!{"b": {"b": {"b": []}}, "a": []}, r##"{"b": {"b": {"b": []}}, "a": []}"##, r##"{"b": {"b": {"b": []}}, "a": []}"##),
        15 => a(fleece![{"b": {"b": [],},}, {},], r##"[{"b": {"b": [],},}, {},]"##, r##"[{"b": {"b": []}}, {}]"##),
        16 => d(fleece!{"a": {"a": {"a": []}}, "key": {}}, r##"{"a": {"a": {"a": []}}, "key": {}}"##, r##"{"a": {"a": {"a": []}}, "key": {}}"##),
        17 => a(fleece![[[{}]], (if n > 1 { 2 } else { 3 })], r##"[[[{}]], (if n > 1 { 2 } else { 3 })]"##, r##"[[[{}]], 2]"##),
        18 => d(fleece!{"a": [[{}]], "key": 7}, r##"{"a": [[{}]], "key": 7}"##, r##"{"a": [[{}]], "key": 7}"##),
        19 => a(fleece![[[{}]], []], r##"[[[{}]], []]"##, r##"[[[{}]], []]"##),
        20 => d(fleece!{"key": [[{},],], "a long key beyond inlining": [],}, r##"{"key": [[{},],], "a long key beyond inlining": [],}"##, r##"{"key": [[{}]], "a long key beyond inlining": []}"##),
        21 => a(fleece![[[{}]], {}], r##"[[[{}]], {}]"##, r##"[[[{}]], {}]"##),
        22 => d(fleece!{"a long key beyond inlining": [[{}]], "é": {}}, r##"{"a long key beyond inlining": [[{}]], "é": {}}"##, r##"{"a long key beyond inlining": [[{}]], "é": {}}"##),
        23 => a(fleece![{"a long key beyond inlining": [{}]}, 1.5], r##"[{"a long key beyond inlining": [{}]}, 1.5]"##, r##"[{"a long key beyond inlining": [{}]}, 1.5]"##),
        24 => d(fleece!{"a long key beyond inlining": {"a long key beyond inlining": [{}]}, "é": (None::<u8>)}, r##"{"a long key beyond inlining": {"a long key beyond inlining": [{}]}, "é": (None::<u8>)}"##, r##"{"a long key beyond inlining": {"a long key beyond inlining": [{}]}, "é": null}"##),
        25 => a(fleece![{"é": [{},],}, [],], r##"[{"é": [{},],}, [],]"##, r##"[{"é": [{}]}, []]"##),
        26 => d(fleece!{"é": {"é": [{}]}, "": []}, r##"{"é": {"é": [{}]}, "": []}"##, r##"{"é": {"é": [{}]}, "": []}"##),
        27 => a(fleece![{"é": [{}]}, {}], r##"[{"é": [{}]}, {}]"##, r##"[{"é": [{}]}, {}]"##),
        28 => d(fleece!{"": {"": [{}]}, "B": {}}, r##"{"": {"": [{}]}, "B": {}}"##, r##"{"": {"": [{}]}, "B": {}}"##),
        29 => a(fleece![[{"": {}}], ("é".repeat(9).as_str())], r##"[[{"": {}}], ("é".repeat(9).as_str())]"##, r##"[[{"": {}}], "ééééééééé"]"##),
        30 => d(fleece!{"": [{"": {},},], "B": (if n > 1 { 2 } else { 3 }),}, r##"{"": [{"": {},},], "B": (if n > 1 { 2 } else { 3 }),}"##, r##"{"": [{"": {}}], "B": 2}"##),
        31 => a(fleece![[{"B": {}}], []], r##"[[{"B": {}}], []]"##, r##"[[{"B": {}}], []]"##),
        32 => d(fleece!{"B": [{"B": {}}], "b": []}, r##"{"B": [{"B": {}}], "b": []}"##, r##"{"B": [{"B": {}}], "b": []}"##),
        33 => a(fleece![[{"B": {}}], {}], r##"[[{"B": {}}], {}]"##, r##"[[{"B": {}}], {}]"##),
        34 => d(fleece!{"b": [{"b": {}}], "a": {}}, r##"{"b": [{"b": {}}], "a": {}}"##, r##"{"b": [{"b": {}}], "a": {}}"##),
        35 => a(fleece![{"b": {"b": {},},}, x,], r##"[{"b": {"b": {},},}, x,]"##, r##"[{"b": {"b": {}}}, "a longer string"]"##),
        36 => d(fleece!{"b": {"b": {"b": {}}}, "a": 1.5}, r##"{"b": {"b": {"b": {}}}, "a": 1.5}"##, r##"{"b": {"b": {"b": {}}}, "a": 1.5}"##),
        37 => a(fleece![{"a": {"a": {}}}, []], r##"[{"a": {"a": {}}}, []]"##, r##"[{"a": {"a": {}}}, []]"##),
        38 => d(fleece!{"a": {"a": {"a": {}}}, "key": []}, r##"{"a": {"a": {"a": {}}}, "key": []}"##, r##"{"a": {"a": {"a": {}}}, "key": []}"##),
        39 => a(fleece![{"a": {"a": {}}}, {}], r##"[{"a": {"a": {}}}, {}]"##, r##"[{"a": {"a": {}}}, {}]"##),
        40 => d(fleece!{"key": {"key": {"key": {},},}, "a long key beyond inlining": {},}, r##"{"key": {"key": {"key": {},},}, "a long key beyond inlining": {},}"##, r##"{"key": {"key": {"key": {}}}, "a long key beyond inlining": {}}"##),
        41 => a(fleece![[n, ("é".repeat(9).as_str()), (if n > 1 { 2 } else { 3 })]], r##"[[n, ("é".repeat(9).as_str()), (if n > 1 { 2 } else { 3 })]]"##, r##"[[12345, "ééééééééé", 2]]"##),
        42 => d(fleece!{"key": [("é".repeat(9).as_str()), (if n > 1 { 2 } else { 3 }), 7]}, r##"{"key": [("é".repeat(9).as_str()), (if n > 1 { 2 } else { 3 }), 7]}"##, r##"{"key": ["ééééééééé", 2, 7]}"##),
        43 => a(fleece![{"a long key beyond inlining": (if n > 1 { 2 } else { 3 }), "é": 7, "": "text"}], r##"[{"a long key beyond inlining": (if n > 1 { 2 } else { 3 }), "é": 7, "": "text"}]"##, r##"[{"a long key beyond inlining": 2, "é": 7, "": "text"}]"##),
        44 => d(fleece!{"a long key beyond inlining": {"a long key beyond inlining": 7, "é": "text", "": true}}, r##"{"a long key beyond inlining": {"a long key beyond inlining": 7, "é": "text", "": true}}"##, r##"{"a long key beyond inlining": {"a long key beyond inlining": 7, "é": "text", "": true}}"##),
        45 => a(fleece![["text", true, [],],], r##"[["text", true, [],],]"##, r##"[["text", true, []]]"##),
        46 => d(fleece!{"é": [true, (-70000i32), []]}, r##"{"é": [true, (-70000i32), []]}"##, r##"{"é": [true, -70000, []]}"##),
        47 => a(fleece![{"é": (-70000i32), "": x, "B": []}], r##"[{"é": (-70000i32), "": x, "B": []}]"##, r##"[{"é": -70000, "": "a longer string", "B": []}]"##),
        48 => d(fleece!{"é": {"é": x, "": 1.5, "B": []}}, r##"{"é": {"é": x, "": 1.5, "B": []}}"##, r##"{"é": {"é": "a longer string", "": 1.5, "B": []}}"##),
        49 => a(fleece![[1.5, (None::<u8>), {}]], r##"[[1.5, (None::<u8>), {}]]"##, r##"[[1.5, null, {}]]"##),
        50 => d(fleece!{"": [(None::<u8>), "t", {},],}, r##"{"": [(None::<u8>), "t", {},],}"##, r##"{"": [null, "t", {}]}"##),
        51 => a(fleece![{"": "t", "B": false, "b": {}}], r##"[{"": "t", "B": false, "b": {}}]"##, r##"[{"": "t", "B": false, "b": {}}]"##),
        52 => d(fleece!{"B": {"B": false, "b": 3000000000u32, "a": {}}}, r##"{"B": {"B": false, "b": 3000000000u32, "a": {}}}"##, r##"{"B": {"B": false, "b": 3000000000, "a": {}}}"##),
        53 => a(fleece![[3000000000u32, [], n]], r##"[[3000000000u32, [], n]]"##, r##"[[3000000000, [], 12345]]"##),
        54 => d(fleece!{"B": [n, [], ("é".repeat(9).as_str())]}, r##"{"B": [n, [], ("é".repeat(9).as_str())]}"##, r##"{"B": [12345, [], "ééééééééé"]}"##),
        55 => a(fleece![{"b": ("é".repeat(9).as_str()), "a": [], "key": (if n > 1 { 2 } else { 3 }),},], r##"[{"b": ("é".repeat(9).as_str()), "a": [], "key": (if n > 1 { 2 } else { 3 }),},]"##, r##"[{"b": "ééééééééé", "a": [], "key": 2}]"##),
        56 => d(fleece!{"b": {"b": (if n > 1 { 2 } else { 3 }), "a": [], "key": 7}}, r##"{"b": {"b": (if n > 1 { 2 } else { 3 }), "a": [], "key": 7}}"##, r##"{"b": {"b": 2, "a": [], "key": 7}}"##),
        57 => a(fleece![[7, [], []]], r##"[[7, [], []]]"##, r##"[[7, [], []]]"##),
        58 => d(fleece!{"a": ["text", [], []]}, r##"{"a": ["text", [], []]}"##, r##"{"a": ["text", [], []]}"##),
        59 => a(fleece![{"a": true, "key": [], "a long key beyond inlining": []}], r##"[{"a": true, "key": [], "a long key beyond inlining": []}]"##, r##"[{"a": true, "key": [], "a long key beyond inlining": []}]"##),
        60 => d(fleece!{"a": {"a": (-70000i32), "key": [], "a long key beyond inlining": [],},}, r##"{"a": {"a": (-70000i32), "key": [], "a long key beyond inlining": [],},}"##, r##"{"a": {"a": -70000, "key": [], "a long key beyond inlining": []}}"##),
        61 => a(fleece![[x, [], {}]], r##"[[x, [], {}]]"##, r##"[["a longer string", [], {}]]"##),
        62 => d(fleece!{"key": [1.5, [], {}]}, r##"{"key": [1.5, [], {}]}"##, r##"{"key": [1.5, [], {}]}"##),
        63 => a(fleece![{"key": (None::<u8>), "a long key beyond inlining": [], "é": {}}], r##"[{"key": (None::<u8>), "a long key beyond inlining": [], "é": {}}]"##, r##"[{"key": null, "a long key beyond inlining": [], "é": {}}]"##),
        64 => d(fleece!{"a long key beyond inlining": {"a long key beyond inlining": "t", "é": [], "": {}}}, r##"{"a long key beyond inlining": {"a long key beyond inlining": "t", "é": [], "": {}}}"##, r##"{"a long key beyond inlining": {"a long key beyond inlining": "t", "é": [], "": {}}}"##),
        65 => a(fleece![[false, {}, 3000000000u32,],], r##"[[false, {}, 3000000000u32,],]"##, r##"[[false, {}, 3000000000]]"##),
        66 => d(fleece!{"a long key beyond inlining": [3000000000u32, {}, n]}, r##"{"a long key beyond inlining": [3000000000u32, {}, n]}"##, r##"{"a long key beyond inlining": [3000000000, {}, 12345]}"##),
        67 => a(fleece![{"é": n, "": {}, "B": ("é".repeat(9).as_str())}], r##"[{"é": n, "": {}, "B": ("é".repeat(9).as_str())}]"##, r##"[{"é": 12345, "": {}, "B": "ééééééééé"}]"##),
        68 => d(fleece!{"é": {"é": ("é".repeat(9).as_str()), "": {}, "B": (if n > 1 { 2 } else { 3 })}}, r##"{"é": {"é": ("é".repeat(9).as_str()), "": {}, "B": (if n > 1 { 2 } else { 3 })}}"##, r##"{"é": {"é": "ééééééééé", "": {}, "B": 2}}"##),
        69 => a(fleece![[(if n > 1 { 2 } else { 3 }), {}, []]], r##"[[(if n > 1 { 2 } else { 3 }), {}, []]]"##, r##"[[2, {}, []]]"##),
        70 => d(fleece!{"": [7, {}, [],],}, r##"{"": [7, {}, [],],}"##, r##"{"": [7, {}, []]}"##),
        71 => a(fleece![{"": "text", "B": {}, "b": []}], r##"[{"": "text", "B": {}, "b": []}]"##, r##"[{"": "text", "B": {}, "b": []}]"##),
        72 => d(fleece!{"": {"": true, "B": {}, "b": []}}, r##"{"": {"": true, "B": {}, "b": []}}"##, r##"{"": {"": true, "B": {}, "b": []}}"##),
        73 => a(fleece![[(-70000i32), {}, {}]], r##"[[(-70000i32), {}, {}]]"##, r##"[[-70000, {}, {}]]"##),
        74 => d(fleece!{"B": [x, {}, {}]}, r##"{"B": [x, {}, {}]}"##, r##"{"B": ["a longer string", {}, {}]}"##),
        75 => a(fleece![{"B": 1.5, "b": {}, "a": {},},], r##"[{"B": 1.5, "b": {}, "a": {},},]"##, r##"[{"B": 1.5, "b": {}, "a": {}}]"##),
        76 => d(fleece!{"b": {"b": (None::<u8>), "a": {}, "key": {}}}, r##"{"b": {"b": (None::<u8>), "a": {}, "key": {}}}"##, r##"{"b": {"b": null, "a": {}, "key": {}}}"##),
        77 => a(fleece![["t", [false]]], r##"[["t", [false]]]"##, r##"[["t", [false]]]"##),
        78 => d(fleece!{"b": [false, [3000000000u32]]}, r##"{"b": [false, [3000000000u32]]}"##, r##"{"b": [false, [3000000000]]}"##),
        79 => a(fleece![{"a": 3000000000u32, "key": [n]}], r##"[{"a": 3000000000u32, "key": [n]}]"##, r##"[{"a": 3000000000, "key": [12345]}]"##),
        80 => d(fleece!{"a": {"a": n, "key": [("é".repeat(9).as_str()),],},}, r##"{"a": {"a": n, "key": [("é".repeat(9).as_str()),],},}"##, r##"{"a": {"a": 12345, "key": ["ééééééééé"]}}"##),
        81 => a(fleece![[("é".repeat(9).as_str()), {"a": (if n > 1 { 2 } else { 3 })}]], r##"[[("é".repeat(9).as_str()), {"a": (if n > 1 { 2 } else { 3 })}]]"##, r##"[["ééééééééé", {"a": 2}]]"##),
        82 => d(fleece!{"key": [(if n > 1 { 2 } else { 3 }), {"key": 7}]}, r##"{"key": [(if n > 1 { 2 } else { 3 }), {"key": 7}]}"##, r##"{"key": [2, {"key": 7}]}"##),
        83 => a(fleece![{"key": 7, "a long key beyond inlining": {"key": "text"}}], r##"[{"key": 7, "a long key beyond inlining": {"key": "text"}}]"##, r##"[{"key": 7, "a long key beyond inlining": {"key": "text"}}]"##),
        84 => d(fleece!{"key": {"key": "text", "a long key beyond inlining": {"key": true}}}, r##"{"key": {"key": "text", "a long key beyond inlining": {"key": true}}}"##, r##"{"key": {"key": "text", "a long key beyond inlining": {"key": true}}}"##),
        85 => a(fleece![[true, [[],],],], r##"[[true, [[],],],]"##, r##"[[true, [[]]]]"##),
        86 => d(fleece!{"a long key beyond inlining": [(-70000i32), [[]]]}, r##"{"a long key beyond inlining": [(-70000i32), [[]]]}"##, r##"{"a long key beyond inlining": [-70000, [[]]]}"##),
        87 => a(fleece![{"a long key beyond inlining": x, "é": [[]]}], r##"[{"a long key beyond inlining": x, "é": [[]]}]"##, r##"[{"a long key beyond inlining": "a longer string", "é": [[]]}]"##),
        88 => d(fleece!{"é": {"é": 1.5, "": [[]]}}, r##"{"é": {"é": 1.5, "": [[]]}}"##, r##"{"é": {"é": 1.5, "": [[]]}}"##),
        89 => a(fleece![[(None::<u8>), {"é": []}]], r##"[[(None::<u8>), {"é": []}]]"##, r##"[[null, {"é": []}]]"##),
        90 => d(fleece!{"é": ["t", {"é": [],},],}, r##"{"é": ["t", {"é": [],},],}"##, r##"{"é": ["t", {"é": []}]}"##),
        91 => a(fleece![{"": false, "B": {"": []}}], r##"[{"": false, "B": {"": []}}]"##, r##"[{"": false, "B": {"": []}}]"##),
        92 => d(fleece!{"": {"": 3000000000u32, "B": {"": []}}}, r##"{"": {"": 3000000000u32, "B": {"": []}}}"##, r##"{"": {"": 3000000000, "B": {"": []}}}"##),
        93 => a(fleece![[n, [{}]]], r##"[[n, [{}]]]"##, r##"[[12345, [{}]]]"##),
        94 => d(fleece!{"B": [("é".repeat(9).as_str()), [{}]]}, r##"{"B": [("é".repeat(9).as_str()), [{}]]}"##, r##"{"B": ["ééééééééé", [{}]]}"##),
        95 => a(fleece![{"B": (if n > 1 { 2 } else { 3 }), "b": [{},],},], r##"[{"B": (if n > 1 { 2 } else { 3 }), "b": [{},],},]"##, r##"[{"B": 2, "b": [{}]}]"##),
        96 => d(fleece!{"B": {"B": 7, "b": [{}]}}, r##"{"B": {"B": 7, "b": [{}]}}"##, r##"{"B": {"B": 7, "b": [{}]}}"##),
        97 => a(fleece![["text", {"b": {}}]], r##"[["text", {"b": {}}]]"##, r##"[["text", {"b": {}}]]"##),
        98 => d(fleece!{"b": [true, {"b": {}}]}, r##"{"b": [true, {"b": {}}]}"##, r##"{"b": [true, {"b": {}}]}"##),
        _ => a(fleece![{"b": (-70000i32), "a": {"b": {}}}], r##"[{"b": (-70000i32), "a": {"b": {}}}]"##, r##"[{"b": -70000, "a": {"b": {}}}]"##),
    }
}
#[rustfmt::skip]
pub fn part12(k: usize) -> Case {
    let (x, n) = (std::hint::black_box("a longer string"), std::hint::black_box(12345i64));
    let _ = (x, n);
    match k {
        0 => d(fleece!{"a": {"a": x, "key": {"a": {},},},}, r##"{"a": {"a": x, "key": {"a": {},},},}"##, r##"{"a": {"a": "a longer string", "key": {"a": {}}}}"##),
        1 => a(fleece![[[], 1.5, (None::<u8>)]], r##"[[[], 1.5, (None::<u8>)]]"##, r##"[[[], 1.5, null]]"##),
        2 => d(fleece!{"a": [[], (None::<u8>), "t"]}, r##"{"a": [[], (None::<u8>), "t"]}"##, r##"{"a": [[], null, "t"]}"##),
        3 => a(fleece![{"key": [], "a long key beyond inlining": "t", "é": false}], r##"[{"key": [], "a long key beyond inlining": "t", "é": false}]"##, r##"[{"key": [], "a long key beyond inlining": "t", "é": false}]"##),
        4 => d(fleece!{"key": {"key": [], "a long key beyond inlining": false, "é": 3000000000u32}}, r##"{"key": {"key": [], "a long key beyond inlining": false, "é": 3000000000u32}}"##, r##"{"key": {"key": [], "a long key beyond inlining": false, "é": 3000000000}}"##),
        5 => a(fleece![[[], 3000000000u32, [],],], r##"[[[], 3000000000u32, [],],]"##, r##"[[[], 3000000000, []]]"##),
        6 => d(fleece!{"a long key beyond inlining": [[], n, []]}, r##"{"a long key beyond inlining": [[], n, []]}"##, r##"{"a long key beyond inlining": [[], 12345, []]}"##),
        7 => a(fleece![{"a long key beyond inlining": [], "é": ("é".repeat(9).as_str()), "": []}], r##"[{"a long key beyond inlining": [], "é": ("é".repeat(9).as_str()), "": []}]"##, r##"[{"a long key beyond inlining": [], "é": "ééééééééé", "": []}]"##),
        8 => d(fleece!{"a long key beyond inlining": {"a long key beyond inlining": [], "é": (if n > 1 { 2 } else { 3 }), "": []}}, r##"{"a long key beyond inlining": {"a long key beyond inlining": [], "é": (if n > 1 { 2 } else { 3 }), "": []}}"##, r##"{"a long key beyond inlining": {"a long key beyond inlining": [], "é": 2, "": []}}"##),
        9 => a(fleece![[[], 7, {}]], r##"[[[], 7, {}]]"##, r##"[[[], 7, {}]]"##),
        10 => d(fleece!{"é": [[], "text", {},],}, r##"{"é": [[], "text", {},],}"##, r##"{"é": [[], "text", {}]}"##),
        11 => a(fleece![{"é": [], "": true, "B": {}}], r##"[{"é": [], "": true, "B": {}}]"##, r##"[{"é": [], "": true, "B": {}}]"##),
        12 => d(fleece!{"": {"": [], "B": (-70000i32), "b": {}}}, r##"{"": {"": [], "B": (-70000i32), "b": {}}}"##, r##"{"": {"": [], "B": -70000, "b": {}}}"##),
        13 => a(fleece![[[], [], x]], r##"[[[], [], x]]"##, r##"[[[], [], "a longer string"]]"##),
        14 => d(fleece!{"": [[], [], 1.5]}, r##"{"": [[], [], 1.5]}"##, r##"{"": [[], [], 1.5]}"##),
        15 => a(fleece![{"B": [], "b": [], "a": (None::<u8>),},], r##"[{"B": [], "b": [], "a": (None::<u8>),},]"##, r##"[{"B": [], "b": [], "a": null}]"##),
        16 => d(fleece!{"B": {"B": [], "b": [], "a": "t"}}, r##"{"B": {"B": [], "b": [], "a": "t"}}"##, r##"{"B": {"B": [], "b": [], "a": "t"}}"##),
        17 => a(fleece![[[], [], []]], r##"[[[], [], []]]"##, r##"[[[], [], []]]"##),
        18 => d(fleece!{"b": [[], [], []]}, r##"{"b": [[], [], []]}"##, r##"{"b": [[], [], []]}"##),
        19 => a(fleece![{"b": [], "a": [], "key": []}], r##"[{"b": [], "a": [], "key": []}]"##, r##"[{"b": [], "a": [], "key": []}]"##),
        20 => d(fleece!{"b": {"b": [], "a": [], "key": [],},}, r##"{"b": {"b": [], "a": [], "key": [],},}"##, r##"{"b": {"b": [], "a": [], "key": []}}"##),
        21 => a(fleece![[[], [], {}]], r##"[[[], [], {}]]"##, r##"[[[], [], {}]]"##),
        22 => d(fleece!{"a": [[], [], {}]}, r##"{"a": [[], [], {}]}"##, r##"{"a": [[], [], {}]}"##),
        23 => a(fleece![{"a": [], "key": [], "a long key beyond inlining": {}}], r##"[{"a": [], "key": [], "a long key beyond inlining": {}}]"##, r##"[{"a": [], "key": [], "a long key beyond inlining": {}}]"##),
        24 => d(fleece!{"key": {"key": [], "a long key beyond inlining": [], "é": {}}}, r##"{"key": {"key": [], "a long key beyond inlining": [], "é": {}}}"##, r##"{"key": {"key": [], "a long key beyond inlining": [], "é": {}}}"##),
        25 => a(fleece![[[], {}, (-70000i32),],], r##"[[[], {}, (-70000i32),],]"##, r##"[[[], {}, -70000]]"##),
        26 => d(fleece!{"key": [[], {}, x]}, r##"{"key": [[], {}, x]}"##, r##"{"key": [[], {}, "a longer string"]}"##),
        27 => a(fleece![{"a long key beyond inlining": [], "é": {}, "": 1.5}], r##"[{"a long key beyond inlining": [], "é": {}, "": 1.5}]"##, r##"[{"a long key beyond inlining": [], "é": {}, "": 1.5}]"##),
        28 => d(fleece!{"a long key beyond inlining": {"a long key beyond inlining": [], "é": {}, "": (None::<u8>)}}, r##"{"a long key beyond inlining": {"a long key beyond inlining": [], "é": {}, "": (None::<u8>)}}"##, r##"{"a long key beyond inlining": {"a long key beyond inlining": [], "é": {}, "": null}}"##),
        29 => a(fleece![[[], {}, []]], r##"[[[], {}, []]]"##, r##"[[[], {}, []]]"##),
        30 => d(fleece!{"é": [[], {}, [],],}, r##"{"é": [[], {}, [],],}"##, r##"{"é": [[], {}, []]}"##),
        31 => a(fleece![{"é": [], "": {}, "B": []}], r##"[{"é": [], "": {}, "B": []}]"##, r##"[{"é": [], "": {}, "B": []}]"##),
        32 => d(fleece!{"é": {"é": [], "": {}, "B": []}}, r##"{"é": {"é": [], "": {}, "B": []}}"##, r##"{"é": {"é": [], "": {}, "B": []}}"##),
        33 => a(fleece![[[], {}, {}]], r##"[[[], {}, {}]]"##, r##"[[[], {}, {}]]"##),
        34 => d(fleece!{"": [[], {}, {}]}, r##"{"": [[], {}, {}]}"##, r##"{"": [[], {}, {}]}"##),
        35 => a(fleece![{"": [], "B": {}, "b": {},},], r##"[{"": [], "B": {}, "b": {},},]"##, r##"[{"": [], "B": {}, "b": {}}]"##),
        36 => d(fleece!{"B": {"B": [], "b": {}, "a": {}}}, r##"{"B": {"B": [], "b": {}, "a": {}}}"##, r##"{"B": {"B": [], "b": {}, "a": {}}}"##),
        37 => a(fleece![[[], [true]]], r##"[[[], [true]]]"##, r##"[[[], [true]]]"##),
        38 => d(fleece!{"B": [[], [(-70000i32)]]}, r##"{"B": [[], [(-70000i32)]]}"##, r##"{"B": [[], [-70000]]}"##),
        39 => a(fleece![{"b": [], "a": [x]}], r##"[{"b": [], "a": [x]}]"##, r##"[{"b": [], "a": ["a longer string"]}]"##),
        40 => d(fleece!{"b": {"b": [], "a": [1.5,],},}, r##"{"b": {"b": [], "a": [1.5,],},}"##, r##"{"b": {"b": [], "a": [1.5]}}"##),
        41 => a(fleece![[[], {"b": (None::<u8>)}]], r##"[[[], {"b": (None::<u8>)}]]"##, r##"[[[], {"b": null}]]"##),
        42 => d(fleece!{"a": [[], {"a": "t"}]}, r##"{"a": [[], {"a": "t"}]}"##, r##"{"a": [[], {"a": "t"}]}"##),
        43 => a(fleece![{"a": [], "key": {"a": false}}], r##"[{"a": [], "key": {"a": false}}]"##, r##"[{"a": [], "key": {"a": false}}]"##),
        44 => d(fleece!{"a": {"a": [], "key": {"a": 3000000000u32}}}, r##"{"a": {"a": [], "key": {"a": 3000000000u32}}}"##, r##"{"a": {"a": [], "key": {"a": 3000000000}}}"##),
        45 => a(fleece![[[], [[],],],], r##"[[[], [[],],],]"##, r##"[[[], [[]]]]"##),
        46 => d(fleece!{"key": [[], [[]]]}, r##"{"key": [[], [[]]]}"##, r##"{"key": [[], [[]]]}"##),
        47 => a(fleece![{"key": [], "a long key beyond inlining": [[]]}], r##"[{"key": [], "a long key beyond inlining": [[]]}]"##, r##"[{"key": [], "a long key beyond inlining": [[]]}]"##),
        48 => d(fleece!{"a long key beyond inlining": {"a long key beyond inlining": [], "é": [[]]}}, r##"{"a long key beyond inlining": {"a long key beyond inlining": [], "é": [[]]}}"##, r##"{"a long key beyond inlining": {"a long key beyond inlining": [], "é": [[]]}}"##),
        49 => a(fleece![[[], {"a long key beyond inlining": []}]], r##"[[[], {"a long key beyond inlining": []}]]"##, r##"[[[], {"a long key beyond inlining": []}]]"##),
        50 => d(fleece!{"a long key beyond inlining": [[], {"a long key beyond inlining": [],},],}, r##"{"a long key beyond inlining": [[], {"a long key beyond inlining": [],},],}"##, r##"{"a long key beyond inlining": [[], {"a long key beyond inlining": []}]}"##),
        51 => a(fleece![{"é": [], "": {"é": []}}], r##"[{"é": [], "": {"é": []}}]"##, r##"[{"é": [], "": {"é": []}}]"##),
        52 => d(fleece!{"é": {"é": [], "": {"é": []}}}, r##"{"é": {"é": [], "": {"é": []}}}"##, r##"{"é": {"é": [], "": {"é": []}}}"##),
        53 => a(fleece![[[], [{}]]], r##"[[[], [{}]]]"##, r##"[[[], [{}]]]"##),
        54 => d(fleece!{"": [[], [{}]]}, r##"{"": [[], [{}]]}"##, r##"{"": [[], [{}]]}"##),
        55 => a(fleece![{"": [], "B": [{},],},], r##"[{"": [], "B": [{},],},]"##, r##"[{"": [], "B": [{}]}]"##),
        56 => d(fleece!{"": {"": [], "B": [{}]}}, r##"{"": {"": [], "B": [{}]}}"##, r##"{"": {"": [], "B": [{}]}}"##),
        57 => a(fleece![[[], {"B": {}}]], r##"[[[], {"B": {}}]]"##, r##"[[[], {"B": {}}]]"##),
        58 => d(fleece!{"B": [[], {"B": {}}]}, r##"{"B": [[], {"B": {}}]}"##, r##"{"B": [[], {"B": {}}]}"##),
        59 => a(fleece![{"B": [], "b": {"B": {}}}], r##"[{"B": [], "b": {"B": {}}}]"##, r##"[{"B": [], "b": {"B": {}}}]"##),
        60 => d(fleece!{"b": {"b": [], "a": {"b": {},},},}, r##"{"b": {"b": [], "a": {"b": {},},},}"##, r##"{"b": {"b": [], "a": {"b": {}}}}"##),
        61 => a(fleece![[{}, 7, "text"]], r##"[[{}, 7, "text"]]"##, r##"[[{}, 7, "text"]]"##),
        62 => d(fleece!{"b": [{}, "text", true]}, r##"{"b": [{}, "text", true]}"##, r##"{"b": [{}, "text", true]}"##),
        63 => a(fleece![{"a": {}, "key": true, "a long key beyond inlining": (-70000i32)}], r##"[{"a": {}, "key": true, "a long key beyond inlining": (-70000i32)}]"##, r##"[{"a": {}, "key": true, "a long key beyond inlining": -70000}]"##),
        64 => d(fleece!{"a": {"a": {}, "key": (-70000i32), "a long key beyond inlining": x}}, r##"{"a": {"a": {}, "key": (-70000i32), "a long key beyond inlining": x}}"##, r##"{"a": {"a": {}, "key": -70000, "a long key beyond inlining": "a longer string"}}"##),
        65 => a(fleece![[{}, x, [],],], r##"[[{}, x, [],],]"##, r##"[[{}, "a longer string", []]]"##),
        66 => d(fleece!{"key": [{}, 1.5, []]}, r##"{"key": [{}, 1.5, []]}"##, r##"{"key": [{}, 1.5, []]}"##),
        67 => a(fleece![{"key": {}, "a long key beyond inlining": (None::<u8>), "é": []}], r##"[{"key": {}, "a long key beyond inlining": (None::<u8>), "é": []}]"##, r##"[{"key": {}, "a long key beyond inlining": null, "é": []}]"##),
        68 => d(fleece!{"key": {"key": {}, "a long key beyond inlining": "t", "é": []}}, r##"{"key": {"key": {}, "a long key beyond inlining": "t", "é": []}}"##, r##"{"key": {"key": {}, "a long key beyond inlining": "t", "é": []}}"##),
        69 => a(fleece![[{}, false, {}]], r##"[[{}, false, {}]]"##, r##"[[{}, false, {}]]"##),
        70 => d(fleece!{"a long key beyond inlining": [{}, 3000000000u32, {},],}, r##"{"a long key beyond inlining": [{}, 3000000000u32, {},],}"##, r##"{"a long key beyond inlining": [{}, 3000000000, {}]}"##),
        71 => a(fleece![{"a long key beyond inlining": {}, "é": n, "": {}}], r##"[{"a long key beyond inlining": {}, "é": n, "": {}}]"##, r##"[{"a long key beyond inlining": {}, "é": 12345, "": {}}]"##),
        72 => d(fleece!{"é": {"é": {}, "": ("é".repeat(9).as_str()), "B": {}}}, r##"{"é": {"é": {}, "": ("é".repeat(9).as_str()), "B": {}}}"##, r##"{"é": {"é": {}, "": "ééééééééé", "B": {}}}"##),
        73 => a(fleece![[{}, [], (if n > 1 { 2 } else { 3 })]], r##"[[{}, [], (if n > 1 { 2 } else { 3 })]]"##, r##"[[{}, [], 2]]"##),
        74 => d(fleece!{"é": [{}, [], 7]}, r##"{"é": [{}, [], 7]}"##, r##"{"é": [{}, [], 7]}"##),
        75 => a(fleece![{"": {}, "B": [], "b": "text",},], r##"[{"": {}, "B": [], "b": "text",},]"##, r##"[{"": {}, "B": [], "b": "text"}]"##),
        76 => d(fleece!{"": {"": {}, "B": [], "b": true}}, r##"{"": {"": {}, "B": [], "b": true}}"##, r##"{"": {"": {}, "B": [], "b": true}}"##),
        77 => a(fleece![[{}, [], []]], r##"[[{}, [], []]]"##, r##"[[{}, [], []]]"##),
        78 => d(fleece!{"B": [{}, [], []]}, r##"{"B": [{}, [], []]}"##, r##"{"B": [{}, [], []]}"##),
        79 => a(fleece![{"B": {}, "b": [], "a": []}], r##"[{"B": {}, "b": [], "a": []}]"##, r##"[{"B": {}, "b": [], "a": []}]"##),
        80 => d(fleece!{"B": {"B": {}, "b": [], "a": [],},}, r##"{"B": {"B": {}, "b": [], "a": [],},}"##, r##"{"B": {"B": {}, "b": [], "a": []}}"##),
        81 => a(fleece![[{}, [], {}]], r##"[[{}, [], {}]]"##, r##"[[{}, [], {}]]"##),
        82 => d(fleece!{"b": [{}, [], {}]}, r##"{"b": [{}, [], {}]}"##, r##"{"b": [{}, [], {}]}"##),
        83 => a(fleece![{"b": {}, "a": [], "key": {}}], r##"[{"b": {}, "a": [], "key": {}}]"##, r##"[{"b": {}, "a": [], "key": {}}]"##),
        84 => d(fleece!{"a": {"a": {}, "key": [], "a long key beyond inlining": {}}}, r##"{"a": {"a": {}, "key": [], "a long key beyond inlining": {}}}"##, r##"{"a": {"a": {}, "key": [], "a long key beyond inlining": {}}}"##),
        85 => a(fleece![[{}, {}, ("é".repeat(9).as_str()),],], r##"[[{}, {}, ("é".repeat(9).as_str()),],]"##, r##"[[{}, {}, "ééééééééé"]]"##),
        86 => d(fleece!{"a": [{}, {}, (if n > 1 { 2 } else { 3 })]}, r##"{"a": [{}, {}, (if n > 1 { 2 } else { 3 })]}"##, r##"{"a": [{}, {}, 2]}"##),
        87 => a(fleece![{"key": {}, "a long key beyond inlining": {}, "é": 7}], r##"[{"key": {}, "a long key beyond inlining": {}, "é": 7}]"##, r##"[{"key": {}, "a long key beyond inlining": {}, "é": 7}]"##),
        88 => d(fleece!{"key": {"key": {}, "a long key beyond inlining": {}, "é": "text"}}, r##"{"key": {"key": {}, "a long key beyond inlining": {}, "é": "text"}}"##, r##"{"key": {"key": {}, "a long key beyond inlining": {}, "é": "text"}}"##),
        89 => a(fleece![[{}, {}, []]], r##"[[{}, {}, []]]"##, r##"[[{}, {}, []]]"##),
        90 => d(fleece!{"a long key beyond inlining": [{}, {}, [],],}, r##"{"a long key beyond inlining": [{}, {}, [],],}"##, r##"{"a long key beyond inlining": [{}, {}, []]}"##),
        91 => a(fleece![{"a long key beyond inlining": {}, "é": {}, "": []}], r##"[{"a long key beyond inlining": {}, "é": {}, "": []}]"##, r##"[{"a long key beyond inlining": {}, "é": {}, "": []}]"##),
        92 => d(fleece!{"a long key beyond inlining": {"a long key beyond inlining": {}, "é": {}, "": []}}, r##"{"a long key beyond inlining": {"a long key beyond inlining": {}, "é": {}, "": []}}"##, r##"{"a long key beyond inlining": {"a long key beyond inlining": {}, "é": {}, "": []}}"##),
        93 => a(fleece![[{}, {}, {}]], r##"[[{}, {}, {}]]"##, r##"[[{}, {}, {}]]"##),
        94 => d(fleece!{"é": [{}, {}, {}]}, r##"{"é": [{}, {}, {}]}"##, r##"{"é": [{}, {}, {}]}"##),
        95 => a(fleece![{"é": {}, "": {}, "B": {},},], r##"[{"é": {}, "": {}, "B": {},},]"##, r##"[{"é": {}, "": {}, "B": {}}]"##),
        96 => d(fleece!{"": {"": {}, "B": {}, "b": {}}}, r##"{"": {"": {}, "B": {}, "b": {}}}"##, r##"{"": {"": {}, "B": {}, "b": {}}}"##),
        97 => a(fleece![[{}, [n]]], r##"[[{}, [n]]]"##, r##"[[{}, [12345]]]"##),
        98 => d(fleece!{"": [{}, [("é".repeat(9).as_str())]]}, r##"{"": [{}, [("é".repeat(9).as_str())]]}"##, r##"{"": [{}, ["ééééééééé"]]}"##),
        _ => a(fleece![{"B": {}, "b": [(if n > 1 { 2 } else { 3 })]}], r##"[{"B": {}, "b": [(if n > 1 { 2 } else { 3 })]}]"##, r##"[{"B": {}, "b": [2]}]"##),
    }
}
#[rustfmt::skip]
pub fn part13(k: usize) -> Case {
    let (x, n) = (std::hint::black_box("a longer string"), std::hint::black_box(12345i64));
    let _ = (x, n);
    match k {
        0 => d(fleece!{"B": {"B": {}, "b": [7,],},}, r##"{"B": {"B": {}, "b": [7,],},}"##, r##"{"B": {"B": {}, "b": [7]}}"##),
        1 => a(fleece![[{}, {"B": "text"}]], r##"[[{}, {"B": "text"}]]"##, r##"[[{}, {"B": "text"}]]"##),
        2 => d(fleece!{"b": [{}, {"b": true}]}, r##"{"b": [{}, {"b": true}]}"##, r##"{"b": [{}, {"b": true}]}"##),
        3 => a(fleece![{"b": {}, "a": {"b": (-70000i32)}}], r##"[{"b": {}, "a": {"b": (-70000i32)}}]"##, r##"[{"b": {}, "a": {"b": -70000}}]"##),
        4 => d(fleece!{"b": {"b": {}, "a": {"b": x}}}, r##"{"b": {"b": {}, "a": {"b": x}}}"##, r##"{"b": {"b": {}, "a": {"b": "a longer string"}}}"##),
        5 => a(fleece![[{}, [[],],],], r##"[[{}, [[],],],]"##, r##"[[{}, [[]]]]"##),
        6 => d(fleece!{"a": [{}, [[]]]}, r##"{"a": [{}, [[]]]}"##, r##"{"a": [{}, [[]]]}"##),
        7 => a(fleece![{"a": {}, "key": [[]]}], r##"[{"a": {}, "key": [[]]}]"##, r##"[{"a": {}, "key": [[]]}]"##),
        8 => d(fleece!{"key": {"key": {}, "a long key beyond inlining": [[]]}}, r##"{"key": {"key": {}, "a long key beyond inlining": [[]]}}"##, r##"{"key": {"key": {}, "a long key beyond inlining": [[]]}}"##),
        9 => a(fleece![[{}, {"key": []}]], r##"[[{}, {"key": []}]]"##, r##"[[{}, {"key": []}]]"##),
        10 => d(fleece!{"key": [{}, {"key": [],},],}, r##"{"key": [{}, {"key": [],},],}"##, r##"{"key": [{}, {"key": []}]}"##),
        11 => a(fleece![{"a long key beyond inlining": {}, "é": {"a long key beyond inlining": []}}], r##"[{"a long key beyond inlining": {}, "é": {"a long key beyond inlining": []}}]"##, r##"[{"a long key beyond inlining": {}, "é": {"a long key beyond inlining": []}}]"##),
        12 => d(fleece!{"a long key beyond inlining": {"a long key beyond inlining": {}, "é": {"a long key beyond inlining": []}}}, r##"{"a long key beyond inlining": {"a long key beyond inlining": {}, "é": {"a long key beyond inlining": []}}}"##, r##"{"a long key beyond inlining": {"a long key beyond inlining": {}, "é": {"a long key beyond inlining": []}}}"##),
        13 => a(fleece![[{}, [{}]]], r##"[[{}, [{}]]]"##, r##"[[{}, [{}]]]"##),
        14 => d(fleece!{"é": [{}, [{}]]}, r##"{"é": [{}, [{}]]}"##, r##"{"é": [{}, [{}]]}"##),
        15 => a(fleece![{"é": {}, "": [{},],},], r##"[{"é": {}, "": [{},],},]"##, r##"[{"é": {}, "": [{}]}]"##),
        16 => d(fleece!{"é": {"é": {}, "": [{}]}}, r##"{"é": {"é": {}, "": [{}]}}"##, r##"{"é": {"é": {}, "": [{}]}}"##),
        17 => a(fleece![[{}, {"": {}}]], r##"[[{}, {"": {}}]]"##, r##"[[{}, {"": {}}]]"##),
        18 => d(fleece!{"": [{}, {"": {}}]}, r##"{"": [{}, {"": {}}]}"##, r##"{"": [{}, {"": {}}]}"##),
        19 => a(fleece![{"": {}, "B": {"": {}}}], r##"[{"": {}, "B": {"": {}}}]"##, r##"[{"": {}, "B": {"": {}}}]"##),
        20 => d(fleece!{"B": {"B": {}, "b": {"B": {},},},}, r##"{"B": {"B": {}, "b": {"B": {},},},}"##, r##"{"B": {"B": {}, "b": {"B": {}}}}"##),
        21 => a(fleece![[[false], 3000000000u32]], r##"[[[false], 3000000000u32]]"##, r##"[[[false], 3000000000]]"##),
        22 => d(fleece!{"B": [[3000000000u32], n]}, r##"{"B": [[3000000000u32], n]}"##, r##"{"B": [[3000000000], 12345]}"##),
        23 => a(fleece![{"b": [n], "a": ("é".repeat(9).as_str())}], r##"[{"b": [n], "a": ("é".repeat(9).as_str())}]"##, r##"[{"b": [12345], "a": "ééééééééé"}]"##),
        24 => d(fleece!{"b": {"b": [("é".repeat(9).as_str())], "a": (if n > 1 { 2 } else { 3 })}}, r##"{"b": {"b": [("é".repeat(9).as_str())], "a": (if n > 1 { 2 } else { 3 })}}"##, r##"{"b": {"b": ["ééééééééé"], "a": 2}}"##),
        25 => a(fleece![[[(if n > 1 { 2 } else { 3 }),], [],],], r##"[[[(if n > 1 { 2 } else { 3 }),], [],],]"##, r##"[[[2], []]]"##),
        26 => d(fleece!{"a": [[7], []]}, r##"{"a": [[7], []]}"##, r##"{"a": [[7], []]}"##),
        27 => a(fleece![{"a": ["text"], "key": []}], r##"[{"a": ["text"], "key": []}]"##, r##"[{"a": ["text"], "key": []}]"##),
        28 => d(fleece!{"a": {"a": [true], "key": []}}, r##"{"a": {"a": [true], "key": []}}"##, r##"{"a": {"a": [true], "key": []}}"##),
        29 => a(fleece![[[(-70000i32)], {}]], r##"[[[(-70000i32)], {}]]"##, r##"[[[-70000], {}]]"##),
        30 => d(fleece!{"key": [[x,], {},],}, r##"{"key": [[x,], {},],}"##, r##"{"key": [["a longer string"], {}]}"##),
        31 => a(fleece![{"key": [1.5], "a long key beyond inlining": {}}], r##"[{"key": [1.5], "a long key beyond inlining": {}}]"##, r##"[{"key": [1.5], "a long key beyond inlining": {}}]"##),
        32 => d(fleece!{"a long key beyond inlining": {"a long key beyond inlining": [(None::<u8>)], "é": {}}}, r##"{"a long key beyond inlining": {"a long key beyond inlining": [(None::<u8>)], "é": {}}}"##, r##"{"a long key beyond inlining": {"a long key beyond inlining": [null], "é": {}}}"##),
        33 => a(fleece![[{"a long key beyond inlining": "t"}, false]], r##"[[{"a long key beyond inlining": "t"}, false]]"##, r##"[[{"a long key beyond inlining": "t"}, false]]"##),
        34 => d(fleece!{"a long key beyond inlining": [{"a long key beyond inlining": false}, 3000000000u32]}, r##"{"a long key beyond inlining": [{"a long key beyond inlining": false}, 3000000000u32]}"##, r##"{"a long key beyond inlining": [{"a long key beyond inlining": false}, 3000000000]}"##),
        35 => a(fleece![{"é": {"é": 3000000000u32,}, "": n,},], r##"[{"é": {"é": 3000000000u32,}, "": n,},]"##, r##"[{"é": {"é": 3000000000}, "": 12345}]"##),
        36 => d(fleece!{"é": {"é": {"é": n}, "": ("é".repeat(9).as_str())}}, r##"{"é": {"é": {"é": n}, "": ("é".repeat(9).as_str())}}"##, r##"{"é": {"é": {"é": 12345}, "": "ééééééééé"}}"##),
        37 => a(fleece![[{"é": ("é".repeat(9).as_str())}, []]], r##"[[{"é": ("é".repeat(9).as_str())}, []]]"##, r##"[[{"é": "ééééééééé"}, []]]"##),
        38 => d(fleece!{"": [{"": (if n > 1 { 2 } else { 3 })}, []]}, r##"{"": [{"": (if n > 1 { 2 } else { 3 })}, []]}"##, r##"{"": [{"": 2}, []]}"##),
        39 => a(fleece![{"": {"": 7}, "B": []}], r##"[{"": {"": 7}, "B": []}]"##, r##"[{"": {"": 7}, "B": []}]"##),
        40 => d(fleece!{"": {"": {"": "text",}, "B": [],},}, r##"{"": {"": {"": "text",}, "B": [],},}"##, r##"{"": {"": {"": "text"}, "B": []}}"##),
        41 => a(fleece![[{"B": true}, {}]], r##"[[{"B": true}, {}]]"##, r##"[[{"B": true}, {}]]"##),
        42 => d(fleece!{"B": [{"B": (-70000i32)}, {}]}, r##"{"B": [{"B": (-70000i32)}, {}]}"##, r##"{"B": [{"B": -70000}, {}]}"##),
        43 => a(fleece![{"B": {"B": x}, "b": {}}], r##"[{"B": {"B": x}, "b": {}}]"##, r##"[{"B": {"B": "a longer string"}, "b": {}}]"##),
        44 => d(fleece!{"b": {"b": {"b": 1.5}, "a": {}}}, r##"{"b": {"b": {"b": 1.5}, "a": {}}}"##, r##"{"b": {"b": {"b": 1.5}, "a": {}}}"##),
        45 => a(fleece![[[[],], (None::<u8>),],], r##"[[[[],], (None::<u8>),],]"##, r##"[[[[]], null]]"##),
        46 => d(fleece!{"b": [[[]], "t"]}, r##"{"b": [[[]], "t"]}"##, r##"{"b": [[[]], "t"]}"##),
        47 => a(fleece![{"a": [[]], "key": false}], r##"[{"a": [[]], "key": false}]"##, r##"[{"a": [[]], "key": false}]"##),
        48 => d(fleece!{"a": {"a": [[]], "key": 3000000000u32}}, r##"{"a": {"a": [[]], "key": 3000000000u32}}"##, r##"{"a": {"a": [[]], "key": 3000000000}}"##),
        49 => a(fleece![[[[]], []]], r##"[[[[]], []]]"##, r##"[[[[]], []]]"##),
        50 => d(fleece!{"key": [[[],], [],],}, r##"{"key": [[[],], [],],}"##, r##"{"key": [[[]], []]}"##),
        51 => a(fleece![{"key": [[]], "a long key beyond inlining": []}], r##"[{"key": [[]], "a long key beyond inlining": []}]"##, r##"[{"key": [[]], "a long key beyond inlining": []}]"##),
        52 => d(fleece!{"key": {"key": [[]], "a long key beyond inlining": []}}, r##"{"key": {"key": [[]], "a long key beyond inlining": []}}"##, r##"{"key": {"key": [[]], "a long key beyond inlining": []}}"##),
        53 => a(fleece![[[[]], {}]], r##"[[[[]], {}]]"##, r##"[[[[]], {}]]"##),
        54 => d(fleece!{"a long key beyond inlining": [[[]], {}]}, r##"{"a long key beyond inlining": [[[]], {}]}"##, r##"{"a long key beyond inlining": [[[]], {}]}"##),
        55 => a(fleece![{"a long key beyond inlining": [[],], "é": {},},], r##"[{"a long key beyond inlining": [[],], "é": {},},]"##, r##"[{"a long key beyond inlining": [[]], "é": {}}]"##),
        56 => d(fleece!{"é": {"é": [[]], "": {}}}, r##"{"é": {"é": [[]], "": {}}}"##, r##"{"é": {"é": [[]], "": {}}}"##),
        57 => a(fleece![[{"é": []}, 1.5]], r##"[[{"é": []}, 1.5]]"##, r##"[[{"é": []}, 1.5]]"##),
        58 => d(fleece!{"é": [{"é": []}, (None::<u8>)]}, r##"{"é": [{"é": []}, (None::<u8>)]}"##, r##"{"é": [{"é": []}, null]}"##),
        59 => a(fleece![{"": {"": []}, "B": "t"}], r##"[{"": {"": []}, "B": "t"}]"##, r##"[{"": {"": []}, "B": "t"}]"##),
        60 => d(fleece!{"": {"": {"": [],}, "B": false,},}, r##"{"": {"": {"": [],}, "B": false,},}"##, r##"{"": {"": {"": []}, "B": false}}"##),
        61 => a(fleece![[{"": []}, []]], r##"[[{"": []}, []]]"##, r##"[[{"": []}, []]]"##),
        62 => d(fleece!{"B": [{"B": []}, []]}, r##"{"B": [{"B": []}, []]}"##, r##"{"B": [{"B": []}, []]}"##),
        63 => a(fleece![{"B": {"B": []}, "b": []}], r##"[{"B": {"B": []}, "b": []}]"##, r##"[{"B": {"B": []}, "b": []}]"##),
        64 => d(fleece!{"B": {"B": {"B": []}, "b": []}}, r##"{"B": {"B": {"B": []}, "b": []}}"##, r##"{"B": {"B": {"B": []}, "b": []}}"##),
        65 => a(fleece![[{"b": [],}, {},],], r##"[[{"b": [],}, {},],]"##, r##"[[{"b": []}, {}]]"##),
        66 => d(fleece!{"b": [{"b": []}, {}]}, r##"{"b": [{"b": []}, {}]}"##, r##"{"b": [{"b": []}, {}]}"##),
        67 => a(fleece![{"b": {"b": []}, "a": {}}], r##"[{"b": {"b": []}, "a": {}}]"##, r##"[{"b": {"b": []}, "a": {}}]"##),
        68 => d(fleece!{"a": {"a": {"a": []}, "key": {}}}, r##"{"a": {"a": {"a": []}, "key": {}}}"##, r##"{"a": {"a": {"a": []}, "key": {}}}"##),
        69 => a(fleece![[[{}], x]], r##"[[[{}], x]]"##, r##"[[[{}], "a longer string"]]"##),
        70 => d(fleece!{"a": [[{},], 1.5,],}, r##"{"a": [[{},], 1.5,],}"##, r##"{"a": [[{}], 1.5]}"##),
        71 => a(fleece![{"key": [{}], "a long key beyond inlining": (None::<u8>)}], r##"[{"key": [{}], "a long key beyond inlining": (None::<u8>)}]"##, r##"[{"key": [{}], "a long key beyond inlining": null}]"##),
        72 => d(fleece!{"key": {"key": [{}], "a long key beyond inlining": "t"}}, r##"{"key": {"key": [{}], "a long key beyond inlining": "t"}}"##, r##"{"key": {"key": [{}], "a long key beyond inlining": "t"}}"##),
        73 => a(fleece![[[{}], []]], r##"[[[{}], []]]"##, r##"[[[{}], []]]"##),
        74 => d(fleece!{"a long key beyond inlining": [[{}], []]}, r##"{"a long key beyond inlining": [[{}], []]}"##, r##"{"a long key beyond inlining": [[{}], []]}"##),
        75 => a(fleece![{"a long key beyond inlining": [{},], "é": [],},], r##"[{"a long key beyond inlining": [{},], "é": [],},]"##, r##"[{"a long key beyond inlining": [{}], "é": []}]"##),
        76 => d(fleece!{"a long key beyond inlining": {"a long key beyond inlining": [{}], "é": []}}, r##"{"a long key beyond inlining": {"a long key beyond inlining": [{}], "é": []}}"##, r##"{"a long key beyond inlining": {"a long key beyond inlining": [{}], "é": []}}"##),
        77 => a(fleece![[[{}], {}]], r##"[[[{}], {}]]"##, r##"[[[{}], {}]]"##),
        78 => d(fleece!{"é": [[{}], {}]}, r##"{"é": [[{}], {}]}"##, r##"{"é": [[{}], {}]}"##),
        79 => a(fleece![{"é": [{}], "": {}}], r##"[{"é": [{}], "": {}}]"##, r##"[{"é": [{}], "": {}}]"##),
        80 => d(fleece!{"": {"": [{},], "B": {},},}, r##"{"": {"": [{},], "B": {},},}"##, r##"{"": {"": [{}], "B": {}}}"##),
        81 => a(fleece![[{"": {}}, (-70000i32)]], r##"[[{"": {}}, (-70000i32)]]"##, r##"[[{"": {}}, -70000]]"##),
        82 => d(fleece!{"": [{"": {}}, x]}, r##"{"": [{"": {}}, x]}"##, r##"{"": [{"": {}}, "a longer string"]}"##),
        83 => a(fleece![{"B": {"B": {}}, "b": 1.5}], r##"[{"B": {"B": {}}, "b": 1.5}]"##, r##"[{"B": {"B": {}}, "b": 1.5}]"##),
        84 => d(fleece!{"B": {"B": {"B": {}}, "b": (None::<u8>)}}, r##"{"B": {"B": {"B": {}}, "b": (None::<u8>)}}"##, r##"{"B": {"B": {"B": {}}, "b": null}}"##),
        85 => a(fleece![[{"B": {},}, [],],], r##"[[{"B": {},}, [],],]"##, r##"[[{"B": {}}, []]]"##),
        86 => d(fleece!{"b": [{"b": {}}, []]}, r##"{"b": [{"b": {}}, []]}"##, r##"{"b": [{"b": {}}, []]}"##),
        87 => a(fleece![{"b": {"b": {}}, "a": []}], r##"[{"b": {"b": {}}, "a": []}]"##, r##"[{"b": {"b": {}}, "a": []}]"##),
        88 => d(fleece!{"b": {"b": {"b": {}}, "a": []}}, r##"{"b": {"b": {"b": {}}, "a": []}}"##, r##"{"b": {"b": {"b": {}}, "a": []}}"##),
        89 => a(fleece![[{"a": {}}, {}]], r##"[[{"a": {}}, {}]]"##, r##"[[{"a": {}}, {}]]"##),
        90 => d(fleece!{"a": [{"a": {},}, {},],}, r##"{"a": [{"a": {},}, {},],}"##, r##"{"a": [{"a": {}}, {}]}"##),
        91 => a(fleece![{"a": {"a": {}}, "key": {}}], r##"[{"a": {"a": {}}, "key": {}}]"##, r##"[{"a": {"a": {}}, "key": {}}]"##),
        92 => d(fleece!{"key": {"key": {"key": {}}, "a long key beyond inlining": {}}}, r##"{"key": {"key": {"key": {}}, "a long key beyond inlining": {}}}"##, r##"{"key": {"key": {"key": {}}, "a long key beyond inlining": {}}}"##),
        93 => a(fleece![[[true, (-70000i32)]]], r##"[[[true, (-70000i32)]]]"##, r##"[[[true, -70000]]]"##),
        94 => d(fleece!{"key": [[(-70000i32), x]]}, r##"{"key": [[(-70000i32), x]]}"##, r##"{"key": [[-70000, "a longer string"]]}"##),
        95 => a(fleece![{"a long key beyond inlining": [x, 1.5,],},], r##"[{"a long key beyond inlining": [x, 1.5,],},]"##, r##"[{"a long key beyond inlining": ["a longer string", 1.5]}]"##),
        96 => d(fleece!{"a long key beyond inlining": {"a long key beyond inlining": [1.5, (None::<u8>)]}}, r##"{"a long key beyond inlining": {"a long key beyond inlining": [1.5, (None::<u8>)]}}"##, r##"{"a long key beyond inlining": {"a long key beyond inlining": [1.5, null]}}"##),
        97 => a(fleece![[{"a long key beyond inlining": (None::<u8>), "é": "t"}]], r##"[[{"a long key beyond inlining": (None::<u8>), "é": "t"}]]"##, r##"[[{"a long key beyond inlining": null, "é": "t"}]]"##),
        98 => d(fleece!{"é": [{"é": "t", "": false}]}, r##"{"é": [{"é": "t", "": false}]}"##, r##"{"é": [{"é": "t", "": false}]}"##),
        _ => a(fleece![{"é": {"é": false, "": 3000000000u32}}], r##"[{"é": {"é": false, "": 3000000000u32}}]"##, r##"[{"é": {"é": false, "": 3000000000}}]"##),
    }
}
#[rustfmt::skip]
pub fn part14(k: usize) -> Case {
    let (x, n) = (std::hint::black_box("a longer string"), std::hint::black_box(12345i64));
    let _ = (x, n);
    match k {
        0 => d(fleece!{"é": {"é": {"é": 3000000000u32, "": n,},},}, r##"{"é": {"é": {"é": 3000000000u32, "": n,},},}"##, r##"{"é": {"é": {"é": 3000000000, "": 12345}}}"##),
        1 => a(fleece![[[n, []]]], r##"[[[n, []]]]"##, r##"[[[12345, []]]]"##),
        2 => d(fleece!{"": [[("é".repeat(9).as_str()), []]]}, r##"{"": [[("é".repeat(9).as_str()), []]]}"##, r##"{"": [["ééééééééé", []]]}"##),
        3 => a(fleece![{"": [(if n > 1 { 2 } else { 3 }), []]}], r##"[{"": [(if n > 1 { 2 } else { 3 }), []]}]"##, r##"[{"": [2, []]}]"##),
        4 => d(fleece!{"B": {"B": [7, []]}}, r##"{"B": {"B": [7, []]}}"##, r##"{"B": {"B": [7, []]}}"##),
        5 => a(fleece![[{"B": "text", "b": [],},],], r##"[[{"B": "text", "b": [],},],]"##, r##"[[{"B": "text", "b": []}]]"##),
        6 => d(fleece!{"B": [{"B": true, "b": []}]}, r##"{"B": [{"B": true, "b": []}]}"##, r##"{"B": [{"B": true, "b": []}]}"##),
        7 => a(fleece![{"b": {"b": (-70000i32), "a": []}}], r##"[{"b": {"b": (-70000i32), "a": []}}]"##, r##"[{"b": {"b": -70000, "a": []}}]"##),
        8 => d(fleece!{"b": {"b": {"b": x, "a": []}}}, r##"{"b": {"b": {"b": x, "a": []}}}"##, r##"{"b": {"b": {"b": "a longer string", "a": []}}}"##),
        9 => a(fleece![[[1.5, {}]]], r##"[[[1.5, {}]]]"##, r##"[[[1.5, {}]]]"##),
        10 => d(fleece!{"a": [[(None::<u8>), {},],],}, r##"{"a": [[(None::<u8>), {},],],}"##, r##"{"a": [[null, {}]]}"##),
        11 => a(fleece![{"a": ["t", {}]}], r##"[{"a": ["t", {}]}]"##, r##"[{"a": ["t", {}]}]"##),
        12 => d(fleece!{"a": {"a": [false, {}]}}, r##"{"a": {"a": [false, {}]}}"##, r##"{"a": {"a": [false, {}]}}"##),
        13 => a(fleece![[{"key": 3000000000u32, "a long key beyond inlining": {}}]], r##"[[{"key": 3000000000u32, "a long key beyond inlining": {}}]]"##, r##"[[{"key": 3000000000, "a long key beyond inlining": {}}]]"##),
        14 => d(fleece!{"key": [{"key": n, "a long key beyond inlining": {}}]}, r##"{"key": [{"key": n, "a long key beyond inlining": {}}]}"##, r##"{"key": [{"key": 12345, "a long key beyond inlining": {}}]}"##),
        15 => a(fleece![{"key": {"key": ("é".repeat(9).as_str()), "a long key beyond inlining": {},},},], r##"[{"key": {"key": ("é".repeat(9).as_str()), "a long key beyond inlining": {},},},]"##, r##"[{"key": {"key": "ééééééééé", "a long key beyond inlining": {}}}]"##),
        16 => d(fleece!{"a long key beyond inlining": {"a long key beyond inlining": {"a long key beyond inlining": (if n > 1 { 2 } else { 3 }), "é": {}}}}, r##"{"a long key beyond inlining": {"a long key beyond inlining": {"a long key beyond inlining": (if n > 1 { 2 } else { 3 }), "é": {}}}}"##, r##"{"a long key beyond inlining": {"a long key beyond inlining": {"a long key beyond inlining": 2, "é": {}}}}"##),
        17 => a(fleece![[[[], 7]]], r##"[[[[], 7]]]"##, r##"[[[[], 7]]]"##),
        18 => d(fleece!{"a long key beyond inlining": [[[], "text"]]}, r##"{"a long key beyond inlining": [[[], "text"]]}"##, r##"{"a long key beyond inlining": [[[], "text"]]}"##),
        19 => a(fleece![{"é": [[], true]}], r##"[{"é": [[], true]}]"##, r##"[{"é": [[], true]}]"##),
        20 => d(fleece!{"é": {"é": [[], (-70000i32),],},}, r##"{"é": {"é": [[], (-70000i32),],},}"##, r##"{"é": {"é": [[], -70000]}}"##),
        21 => a(fleece![[{"é": [], "": x}]], r##"[[{"é": [], "": x}]]"##, r##"[[{"é": [], "": "a longer string"}]]"##),
        22 => d(fleece!{"": [{"": [], "B": 1.5}]}, r##"{"": [{"": [], "B": 1.5}]}"##, r##"{"": [{"": [], "B": 1.5}]}"##),
        23 => a(fleece![{"": {"": [], "B": (None::<u8>)}}], r##"[{"": {"": [], "B": (None::<u8>)}}]"##, r##"[{"": {"": [], "B": null}}]"##),
        24 => d(fleece!{"": {"": {"": [], "B": "t"}}}, r##"{"": {"": {"": [], "B": "t"}}}"##, r##"{"": {"": {"": [], "B": "t"}}}"##),
        25 => a(fleece![[[[], [],],],], r##"[[[[], [],],],]"##, r##"[[[[], []]]]"##),
        26 => d(fleece!{"B": [[[], []]]}, r##"{"B": [[[], []]]}"##, r##"{"B": [[[], []]]}"##),
        27 => a(fleece![{"B": [[], []]}], r##"[{"B": [[], []]}]"##, r##"[{"B": [[], []]}]"##),
        28 => d(fleece!{"b": {"b": [[], []]}}, r##"{"b": {"b": [[], []]}}"##, r##"{"b": {"b": [[], []]}}"##),
        29 => a(fleece![[{"b": [], "a": []}]], r##"[[{"b": [], "a": []}]]"##, r##"[[{"b": [], "a": []}]]"##),
        30 => d(fleece!{"b": [{"b": [], "a": [],},],}, r##"{"b": [{"b": [], "a": [],},],}"##, r##"{"b": [{"b": [], "a": []}]}"##),
        31 => a(fleece![{"a": {"a": [], "key": []}}], r##"[{"a": {"a": [], "key": []}}]"##, r##"[{"a": {"a": [], "key": []}}]"##),
        32 => d(fleece!{"a": {"a": {"a": [], "key": []}}}, r##"{"a": {"a": {"a": [], "key": []}}}"##, r##"{"a": {"a": {"a": [], "key": []}}}"##),
        33 => a(fleece![[[[], {}]]], r##"[[[[], {}]]]"##, r##"[[[[], {}]]]"##),
        34 => d(fleece!{"key": [[[], {}]]}, r##"{"key": [[[], {}]]}"##, r##"{"key": [[[], {}]]}"##),
        35 => a(fleece![{"key": [[], {},],},], r##"[{"key": [[], {},],},]"##, r##"[{"key": [[], {}]}]"##),
        36 => d(fleece!{"key": {"key": [[], {}]}}, r##"{"key": {"key": [[], {}]}}"##, r##"{"key": {"key": [[], {}]}}"##),
        37 => a(fleece![[{"a long key beyond inlining": [], "é": {}}]], r##"[[{"a long key beyond inlining": [], "é": {}}]]"##, r##"[[{"a long key beyond inlining": [], "é": {}}]]"##),
        38 => d(fleece!{"a long key beyond inlining": [{"a long key beyond inlining": [], "é": {}}]}, r##"{"a long key beyond inlining": [{"a long key beyond inlining": [], "é": {}}]}"##, r##"{"a long key beyond inlining": [{"a long key beyond inlining": [], "é": {}}]}"##),
        39 => a(fleece![{"a long key beyond inlining": {"a long key beyond inlining": [], "é": {}}}], r##"[{"a long key beyond inlining": {"a long key beyond inlining": [], "é": {}}}]"##, r##"[{"a long key beyond inlining": {"a long key beyond inlining": [], "é": {}}}]"##),
        40 => d(fleece!{"é": {"é": {"é": [], "": {},},},}, r##"{"é": {"é": {"é": [], "": {},},},}"##, r##"{"é": {"é": {"é": [], "": {}}}}"##),
        41 => a(fleece![[[{}, ("é".repeat(9).as_str())]]], r##"[[[{}, ("é".repeat(9).as_str())]]]"##, r##"[[[{}, "ééééééééé"]]]"##),
        42 => d(fleece!{"é": [[{}, (if n > 1 { 2 } else { 3 })]]}, r##"{"é": [[{}, (if n > 1 { 2 } else { 3 })]]}"##, r##"{"é": [[{}, 2]]}"##),
        43 => a(fleece![{"": [{}, 7]}], r##"[{"": [{}, 7]}]"##, r##"[{"": [{}, 7]}]"##),
        44 => d(fleece!{"": {"": [{}, "text"]}}, r##"{"": {"": [{}, "text"]}}"##, r##"{"": {"": [{}, "text"]}}"##),
        45 => a(fleece![[{"": {}, "B": true,},],], r##"[[{"": {}, "B": true,},],]"##, r##"[[{"": {}, "B": true}]]"##),
        46 => d(fleece!{"B": [{"B": {}, "b": (-70000i32)}]}, r##"{"B": [{"B": {}, "b": (-70000i32)}]}"##, r##"{"B": [{"B": {}, "b": -70000}]}"##),
        47 => a(fleece![{"B": {"B": {}, "b": x}}], r##"[{"B": {"B": {}, "b": x}}]"##, r##"[{"B": {"B": {}, "b": "a longer string"}}]"##),
        48 => d(fleece!{"B": {"B": {"B": {}, "b": 1.5}}}, r##"{"B": {"B": {"B": {}, "b": 1.5}}}"##, r##"{"B": {"B": {"B": {}, "b": 1.5}}}"##),
        49 => a(fleece![[[{}, []]]], r##"[[[{}, []]]]"##, r##"[[[{}, []]]]"##),
        50 => d(fleece!{"b": [[{}, [],],],}, r##"{"b": [[{}, [],],],}"##, r##"{"b": [[{}, []]]}"##),
        51 => a(fleece![{"b": [{}, []]}], r##"[{"b": [{}, []]}]"##, r##"[{"b": [{}, []]}]"##),
        52 => d(fleece!{"a": {"a": [{}, []]}}, r##"{"a": {"a": [{}, []]}}"##, r##"{"a": {"a": [{}, []]}}"##),
        53 => a(fleece![[{"a": {}, "key": []}]], r##"[[{"a": {}, "key": []}]]"##, r##"[[{"a": {}, "key": []}]]"##),
        54 => d(fleece!{"a": [{"a": {}, "key": []}]}, r##"{"a": [{"a": {}, "key": []}]}"##, r##"{"a": [{"a": {}, "key": []}]}"##),
        55 => a(fleece![{"key": {"key": {}, "a long key beyond inlining": [],},},], r##"[{"key": {"key": {}, "a long key beyond inlining": [],},},]"##, r##"[{"key": {"key": {}, "a long key beyond inlining": []}}]"##),
        56 => d(fleece!{"key": {"key": {"key": {}, "a long key beyond inlining": []}}}, r##"{"key": {"key": {"key": {}, "a long key beyond inlining": []}}}"##, r##"{"key": {"key": {"key": {}, "a long key beyond inlining": []}}}"##),
        57 => a(fleece![[[{}, {}]]], r##"[[[{}, {}]]]"##, r##"[[[{}, {}]]]"##),
        58 => d(fleece!{"a long key beyond inlining": [[{}, {}]]}, r##"{"a long key beyond inlining": [[{}, {}]]}"##, r##"{"a long key beyond inlining": [[{}, {}]]}"##),
        59 => a(fleece![{"a long key beyond inlining": [{}, {}]}], r##"[{"a long key beyond inlining": [{}, {}]}]"##, r##"[{"a long key beyond inlining": [{}, {}]}]"##),
        60 => d(fleece!{"a long key beyond inlining": {"a long key beyond inlining": [{}, {},],},}, r##"{"a long key beyond inlining": {"a long key beyond inlining": [{}, {},],},}"##, r##"{"a long key beyond inlining": {"a long key beyond inlining": [{}, {}]}}"##),
        61 => a(fleece![[{"é": {}, "": {}}]], r##"[[{"é": {}, "": {}}]]"##, r##"[[{"é": {}, "": {}}]]"##),
        62 => d(fleece!{"é": [{"é": {}, "": {}}]}, r##"{"é": [{"é": {}, "": {}}]}"##, r##"{"é": [{"é": {}, "": {}}]}"##),
        63 => a(fleece![{"é": {"é": {}, "": {}}}], r##"[{"é": {"é": {}, "": {}}}]"##, r##"[{"é": {"é": {}, "": {}}}]"##),
        64 => d(fleece!{"": {"": {"": {}, "B": {}}}}, r##"{"": {"": {"": {}, "B": {}}}}"##, r##"{"": {"": {"": {}, "B": {}}}}"##),
        65 => a(fleece![[[[3000000000u32,],],],], r##"[[[[3000000000u32,],],],]"##, r##"[[[[3000000000]]]]"##),
        66 => d(fleece!{"": [[[n]]]}, r##"{"": [[[n]]]}"##, r##"{"": [[[12345]]]}"##),
        67 => a(fleece![{"B": [[("é".repeat(9).as_str())]]}], r##"[{"B": [[("é".repeat(9).as_str())]]}]"##, r##"[{"B": [["ééééééééé"]]}]"##),
        68 => d(fleece!{"B": {"B": [[(if n > 1 { 2 } else { 3 })]]}}, r##"{"B": {"B": [[(if n > 1 { 2 } else { 3 })]]}}"##, r##"{"B": {"B": [[2]]}}"##),
        69 => a(fleece![[{"B": [7]}]], r##"[[{"B": [7]}]]"##, r##"[[{"B": [7]}]]"##),
        70 => d(fleece!{"b": [{"b": ["text",],},],}, r##"{"b": [{"b": ["text",],},],}"##, r##"{"b": [{"b": ["text"]}]}"##),
        71 => a(fleece![{"b": {"b": [true]}}], r##"[{"b": {"b": [true]}}]"##, r##"[{"b": {"b": [true]}}]"##),
        72 => d(fleece!{"b": {"b": {"b": [(-70000i32)]}}}, r##"{"b": {"b": {"b": [(-70000i32)]}}}"##, r##"{"b": {"b": {"b": [-70000]}}}"##),
        73 => a(fleece![[[{"a": x}]]], r##"[[[{"a": x}]]]"##, r##"[[[{"a": "a longer string"}]]]"##),
        74 => d(fleece!{"a": [[{"a": 1.5}]]}, r##"{"a": [[{"a": 1.5}]]}"##, r##"{"a": [[{"a": 1.5}]]}"##),
        75 => a(fleece![{"a": [{"a": (None::<u8>),},],},], r##"[{"a": [{"a": (None::<u8>),},],},]"##, r##"[{"a": [{"a": null}]}]"##),
        76 => d(fleece!{"key": {"key": [{"key": "t"}]}}, r##"{"key": {"key": [{"key": "t"}]}}"##, r##"{"key": {"key": [{"key": "t"}]}}"##),
        77 => a(fleece![[{"key": {"key": false}}]], r##"[[{"key": {"key": false}}]]"##, r##"[[{"key": {"key": false}}]]"##),
        78 => d(fleece!{"key": [{"key": {"key": 3000000000u32}}]}, r##"{"key": [{"key": {"key": 3000000000u32}}]}"##, r##"{"key": [{"key": {"key": 3000000000}}]}"##),
        79 => a(fleece![{"a long key beyond inlining": {"a long key beyond inlining": {"a long key beyond inlining": n}}}], r##"[{"a long key beyond inlining": {"a long key beyond inlining": {"a long key beyond inlining": n}}}]"##, r##"[{"a long key beyond inlining": {"a long key beyond inlining": {"a long key beyond inlining": 12345}}}]"##),
        80 => d(fleece!{"a long key beyond inlining": {"a long key beyond inlining": {"a long key beyond inlining": {"a long key beyond inlining": ("é".repeat(9).as_str()),},},},}, r##"{"a long key beyond inlining": {"a long key beyond inlining": {"a long key beyond inlining": {"a long key beyond inlining": ("é".repeat(9).as_str()),},},},}"##, r##"{"a long key beyond inlining": {"a long key beyond inlining": {"a long key beyond inlining": {"a long key beyond inlining": "ééééééééé"}}}}"##),
        81 => a(fleece![[[[[]]]]], r##"[[[[[]]]]]"##, r##"[[[[[]]]]]"##),
        82 => d(fleece!{"é": [[[[]]]]}, r##"{"é": [[[[]]]]}"##, r##"{"é": [[[[]]]]}"##),
        83 => a(fleece![{"é": [[[]]]}], r##"[{"é": [[[]]]}]"##, r##"[{"é": [[[]]]}]"##),
        84 => d(fleece!{"é": {"é": [[[]]]}}, r##"{"é": {"é": [[[]]]}}"##, r##"{"é": {"é": [[[]]]}}"##),
        85 => a(fleece![[{"": [[],],},],], r##"[[{"": [[],],},],]"##, r##"[[{"": [[]]}]]"##),
        86 => d(fleece!{"": [{"": [[]]}]}, r##"{"": [{"": [[]]}]}"##, r##"{"": [{"": [[]]}]}"##),
        87 => a(fleece![{"": {"": [[]]}}], r##"[{"": {"": [[]]}}]"##, r##"[{"": {"": [[]]}}]"##),
        88 => d(fleece!{"B": {"B": {"B": [[]]}}}, r##"{"B": {"B": {"B": [[]]}}}"##, r##"{"B": {"B": {"B": [[]]}}}"##),
        89 => a(fleece![[[{"B": []}]]], r##"[[[{"B": []}]]]"##, r##"[[[{"B": []}]]]"##),
        90 => d(fleece!{"B": [[{"B": [],},],],}, r##"{"B": [[{"B": [],},],],}"##, r##"{"B": [[{"B": []}]]}"##),
        91 => a(fleece![{"b": [{"b": []}]}], r##"[{"b": [{"b": []}]}]"##, r##"[{"b": [{"b": []}]}]"##),
        92 => d(fleece!{"b": {"b": [{"b": []}]}}, r##"{"b": {"b": [{"b": []}]}}"##, r##"{"b": {"b": [{"b": []}]}}"##),
        93 => a(fleece![[{"b": {"b": []}}]], r##"[[{"b": {"b": []}}]]"##, r##"[[{"b": {"b": []}}]]"##),
        94 => d(fleece!{"a": [{"a": {"a": []}}]}, r##"{"a": [{"a": {"a": []}}]}"##, r##"{"a": [{"a": {"a": []}}]}"##),
        95 => a(fleece![{"a": {"a": {"a": [],},},},], r##"[{"a": {"a": {"a": [],},},},]"##, r##"[{"a": {"a": {"a": []}}}]"##),
        96 => d(fleece!{"a": {"a": {"a": {"a": []}}}}, r##"{"a": {"a": {"a": {"a": []}}}}"##, r##"{"a": {"a": {"a": {"a": []}}}}"##),
        97 => a(fleece![[[[{}]]]], r##"[[[[{}]]]]"##, r##"[[[[{}]]]]"##),
        98 => d(fleece!{"key": [[[{}]]]}, r##"{"key": [[[{}]]]}"##, r##"{"key": [[[{}]]]}"##),
        _ => a(fleece![{"key": [[{}]]}], r##"[{"key": [[{}]]}]"##, r##"[{"key": [[{}]]}]"##),
    }
}
#[rustfmt::skip]
pub fn part15(k: usize) -> Case {
    let (x, n) = (std::hint::black_box("a longer string"), std::hint::black_box(12345i64));
    let _ = (x, n);
    match k {
        0 => d(fleece!{"a long key beyond inlining": {"a long key beyond inlining": [[{},],],},}, r##"{"a long key beyond inlining": {"a long key beyond inlining": [[{},],],},}"##, r##"{"a long key beyond inlining": {"a long key beyond inlining": [[{}]]}}"##),
        1 => a(fleece![[{"a long key beyond inlining": [{}]}]], r##"[[{"a long key beyond inlining": [{}]}]]"##, r##"[[{"a long key beyond inlining": [{}]}]]"##),
        2 => d(fleece!{"a long key beyond inlining": [{"a long key beyond inlining": [{}]}]}, r##"{"a long key beyond inlining": [{"a long key beyond inlining": [{}]}]}"##, r##"{"a long key beyond inlining": [{"a long key beyond inlining": [{}]}]}"##),
        3 => a(fleece![{"é": {"é": [{}]}}], r##"[{"é": {"é": [{}]}}]"##, r##"[{"é": {"é": [{}]}}]"##),
        4 => d(fleece!{"é": {"é": {"é": [{}]}}}, r##"{"é": {"é": {"é": [{}]}}}"##, r##"{"é": {"é": {"é": [{}]}}}"##),
        5 => a(fleece![[[{"é": {},},],],], r##"[[[{"é": {},},],],]"##, r##"[[[{"é": {}}]]]"##),
        6 => d(fleece!{"": [[{"": {}}]]}, r##"{"": [[{"": {}}]]}"##, r##"{"": [[{"": {}}]]}"##),
        7 => a(fleece![{"": [{"": {}}]}], r##"[{"": [{"": {}}]}]"##, r##"[{"": [{"": {}}]}]"##),
        8 => d(fleece!{"": {"": [{"": {}}]}}, r##"{"": {"": [{"": {}}]}}"##, r##"{"": {"": [{"": {}}]}}"##),
        9 => a(fleece![[{"B": {"B": {}}}]], r##"[[{"B": {"B": {}}}]]"##, r##"[[{"B": {"B": {}}}]]"##),
        10 => d(fleece!{"B": [{"B": {"B": {},},},],}, r##"{"B": [{"B": {"B": {},},},],}"##, r##"{"B": [{"B": {"B": {}}}]}"##),
        11 => a(fleece![{"B": {"B": {"B": {}}}}], r##"[{"B": {"B": {"B": {}}}}]"##, r##"[{"B": {"B": {"B": {}}}}]"##),
        12 => d(fleece!{"b": {"b": {"b": {"b": {}}}}}, r##"{"b": {"b": {"b": {"b": {}}}}}"##, r##"{"b": {"b": {"b": {"b": {}}}}}"##),
        13 => a(fleece![7], r##"[7]"##, r##"[7]"##),
        14 => d(fleece!{"b": 7}, r##"{"b": 7}"##, r##"{"b": 7}"##),
        15 => a(fleece![[7]], r##"[[7]]"##, r##"[[7]]"##),
        16 => a(fleece![{"b": 7}], r##"[{"b": 7}]"##, r##"[{"b": 7}]"##),
        17 => d(fleece!{"b": [7]}, r##"{"b": [7]}"##, r##"{"b": [7]}"##),
        18 => d(fleece!{"b": {"b": 7}}, r##"{"b": {"b": 7}}"##, r##"{"b": {"b": 7}}"##),
        19 => a(fleece!["text"], r##"["text"]"##, r##"["text"]"##),
        20 => d(fleece!{"a": "text"}, r##"{"a": "text"}"##, r##"{"a": "text"}"##),
        21 => a(fleece![["text"]], r##"[["text"]]"##, r##"[["text"]]"##),
        22 => a(fleece![{"a": "text"}], r##"[{"a": "text"}]"##, r##"[{"a": "text"}]"##),
        23 => d(fleece!{"a": ["text"]}, r##"{"a": ["text"]}"##, r##"{"a": ["text"]}"##),
        24 => d(fleece!{"a": {"a": "text"}}, r##"{"a": {"a": "text"}}"##, r##"{"a": {"a": "text"}}"##),
        25 => a(fleece![true], r##"[true]"##, r##"[true]"##),
        26 => d(fleece!{"key": true}, r##"{"key": true}"##, r##"{"key": true}"##),
        27 => a(fleece![[true]], r##"[[true]]"##, r##"[[true]]"##),
        28 => a(fleece![{"key": true}], r##"[{"key": true}]"##, r##"[{"key": true}]"##),
        29 => d(fleece!{"key": [true]}, r##"{"key": [true]}"##, r##"{"key": [true]}"##),
        30 => d(fleece!{"key": {"key": true}}, r##"{"key": {"key": true}}"##, r##"{"key": {"key": true}}"##),
        31 => a(fleece![(-70000i32)], r##"[(-70000i32)]"##, r##"[-70000]"##),
        32 => d(fleece!{"a long key beyond inlining": (-70000i32)}, r##"{"a long key beyond inlining": (-70000i32)}"##, r##"{"a long key beyond inlining": -70000}"##),
        33 => a(fleece![[(-70000i32)]], r##"[[(-70000i32)]]"##, r##"[[-70000]]"##),
        34 => a(fleece![{"a long key beyond inlining": (-70000i32)}], r##"[{"a long key beyond inlining": (-70000i32)}]"##, r##"[{"a long key beyond inlining": -70000}]"##),
        35 => d(fleece!{"a long key beyond inlining": [(-70000i32)]}, r##"{"a long key beyond inlining": [(-70000i32)]}"##, r##"{"a long key beyond inlining": [-70000]}"##),
        36 => d(fleece!{"a long key beyond inlining": {"a long key beyond inlining": (-70000i32)}}, r##"{"a long key beyond inlining": {"a long key beyond inlining": (-70000i32)}}"##, r##"{"a long key beyond inlining": {"a long key beyond inlining": -70000}}"##),
        37 => a(fleece![x], r##"[x]"##, r##"["a longer string"]"##),
        38 => d(fleece!{"é": x}, r##"{"é": x}"##, r##"{"é": "a longer string"}"##),
        39 => a(fleece![[x]], r##"[[x]]"##, r##"[["a longer string"]]"##),
        40 => a(fleece![{"é": x}], r##"[{"é": x}]"##, r##"[{"é": "a longer string"}]"##),
        41 => d(fleece!{"é": [x]}, r##"{"é": [x]}"##, r##"{"é": ["a longer string"]}"##),
        42 => d(fleece!{"é": {"é": x}}, r##"{"é": {"é": x}}"##, r##"{"é": {"é": "a longer string"}}"##),
        43 => a(fleece![1.5], r##"[1.5]"##, r##"[1.5]"##),
        44 => d(fleece!{"": 1.5}, r##"{"": 1.5}"##, r##"{"": 1.5}"##),
        45 => a(fleece![[1.5]], r##"[[1.5]]"##, r##"[[1.5]]"##),
        46 => a(fleece![{"": 1.5}], r##"[{"": 1.5}]"##, r##"[{"": 1.5}]"##),
        47 => d(fleece!{"": [1.5]}, r##"{"": [1.5]}"##, r##"{"": [1.5]}"##),
        48 => d(fleece!{"": {"": 1.5}}, r##"{"": {"": 1.5}}"##, r##"{"": {"": 1.5}}"##),
        49 => a(fleece![(None::<u8>)], r##"[(None::<u8>)]"##, r##"[null]"##),
        50 => d(fleece!{"B": (None::<u8>)}, r##"{"B": (None::<u8>)}"##, r##"{"B": null}"##),
        51 => a(fleece![[(None::<u8>)]], r##"[[(None::<u8>)]]"##, r##"[[null]]"##),
        52 => a(fleece![{"B": (None::<u8>)}], r##"[{"B": (None::<u8>)}]"##, r##"[{"B": null}]"##),
        53 => d(fleece!{"B": [(None::<u8>)]}, r##"{"B": [(None::<u8>)]}"##, r##"{"B": [null]}"##),
        54 => d(fleece!{"B": {"B": (None::<u8>)}}, r##"{"B": {"B": (None::<u8>)}}"##, r##"{"B": {"B": null}}"##),
        55 => a(fleece!["t"], r##"["t"]"##, r##"["t"]"##),
        56 => d(fleece!{"b": "t"}, r##"{"b": "t"}"##, r##"{"b": "t"}"##),
        57 => a(fleece![["t"]], r##"[["t"]]"##, r##"[["t"]]"##),
        58 => a(fleece![{"b": "t"}], r##"[{"b": "t"}]"##, r##"[{"b": "t"}]"##),
        59 => d(fleece!{"b": ["t"]}, r##"{"b": ["t"]}"##, r##"{"b": ["t"]}"##),
        60 => d(fleece!{"b": {"b": "t"}}, r##"{"b": {"b": "t"}}"##, r##"{"b": {"b": "t"}}"##),
        61 => a(fleece![false], r##"[false]"##, r##"[false]"##),
        62 => d(fleece!{"a": false}, r##"{"a": false}"##, r##"{"a": false}"##),
        63 => a(fleece![[false]], r##"[[false]]"##, r##"[[false]]"##),
        64 => a(fleece![{"a": false}], r##"[{"a": false}]"##, r##"[{"a": false}]"##),
        65 => d(fleece!{"a": [false]}, r##"{"a": [false]}"##, r##"{"a": [false]}"##),
        66 => d(fleece!{"a": {"a": false}}, r##"{"a": {"a": false}}"##, r##"{"a": {"a": false}}"##),
        67 => a(fleece![3000000000u32], r##"[3000000000u32]"##, r##"[3000000000]"##),
        68 => d(fleece!{"key": 3000000000u32}, r##"{"key": 3000000000u32}"##, r##"{"key": 3000000000}"##),
        69 => a(fleece![[3000000000u32]], r##"[[3000000000u32]]"##, r##"[[3000000000]]"##),
        70 => a(fleece![{"key": 3000000000u32}], r##"[{"key": 3000000000u32}]"##, r##"[{"key": 3000000000}]"##),
        71 => d(fleece!{"key": [3000000000u32]}, r##"{"key": [3000000000u32]}"##, r##"{"key": [3000000000]}"##),
        72 => d(fleece!{"key": {"key": 3000000000u32}}, r##"{"key": {"key": 3000000000u32}}"##, r##"{"key": {"key": 3000000000}}"##),
        73 => a(fleece![n], r##"[n]"##, r##"[12345]"##),
        74 => d(fleece!{"a long key beyond inlining": n}, r##"{"a long key beyond inlining": n}"##, r##"{"a long key beyond inlining": 12345}"##),
        75 => a(fleece![[n]], r##"[[n]]"##, r##"[[12345]]"##),
        76 => a(fleece![{"a long key beyond inlining": n}], r##"[{"a long key beyond inlining": n}]"##, r##"[{"a long key beyond inlining": 12345}]"##),
        77 => d(fleece!{"a long key beyond inlining": [n]}, r##"{"a long key beyond inlining": [n]}"##, r##"{"a long key beyond inlining": [12345]}"##),
        78 => d(fleece!{"a long key beyond inlining": {"a long key beyond inlining": n}}, r##"{"a long key beyond inlining": {"a long key beyond inlining": n}}"##, r##"{"a long key beyond inlining": {"a long key beyond inlining": 12345}}"##),
        79 => a(fleece![("é".repeat(9).as_str())], r##"[("é".repeat(9).as_str())]"##, r##"["ééééééééé"]"##),
        80 => d(fleece!{"é": ("é".repeat(9).as_str())}, r##"{"é": ("é".repeat(9).as_str())}"##, r##"{"é": "ééééééééé"}"##),
        81 => a(fleece![[("é".repeat(9).as_str())]], r##"[[("é".repeat(9).as_str())]]"##, r##"[["ééééééééé"]]"##),
        82 => a(fleece![{"é": ("é".repeat(9).as_str())}], r##"[{"é": ("é".repeat(9).as_str())}]"##, r##"[{"é": "ééééééééé"}]"##),
        83 => d(fleece!{"é": [("é".repeat(9).as_str())]}, r##"{"é": [("é".repeat(9).as_str())]}"##, r##"{"é": ["ééééééééé"]}"##),
        84 => d(fleece!{"é": {"é": ("é".repeat(9).as_str())}}, r##"{"é": {"é": ("é".repeat(9).as_str())}}"##, r##"{"é": {"é": "ééééééééé"}}"##),
        85 => a(fleece![(if n > 1 { 2 } else { 3 })], r##"[(if n > 1 { 2 } else { 3 })]"##, r##"[2]"##),
        86 => d(fleece!{"": (if n > 1 { 2 } else { 3 })}, r##"{"": (if n > 1 { 2 } else { 3 })}"##, r##"{"": 2}"##),
        87 => a(fleece![[(if n > 1 { 2 } else { 3 })]], r##"[[(if n > 1 { 2 } else { 3 })]]"##, r##"[[2]]"##),
        88 => a(fleece![{"": (if n > 1 { 2 } else { 3 })}], r##"[{"": (if n > 1 { 2 } else { 3 })}]"##, r##"[{"": 2}]"##),
        89 => d(fleece!{"": [(if n > 1 { 2 } else { 3 })]}, r##"{"": [(if n > 1 { 2 } else { 3 })]}"##, r##"{"": [2]}"##),
        90 => d(fleece!{"": {"": (if n > 1 { 2 } else { 3 })}}, r##"{"": {"": (if n > 1 { 2 } else { 3 })}}"##, r##"{"": {"": 2}}"##),
        91 => a(fleece![[[[[1.5]]]]], r##"[[[[[1.5]]]]]"##, r##"[[[[[1.5]]]]]"##),
        92 => d(fleece!{"": {"": {"": {"": {"": 1.5}}}}}, r##"{"": {"": {"": {"": {"": 1.5}}}}}"##, r##"{"": {"": {"": {"": {"": 1.5}}}}}"##),
        93 => a(fleece![{"": [{"": [1.5]}]}], r##"[{"": [{"": [1.5]}]}]"##, r##"[{"": [{"": [1.5]}]}]"##),
        94 => d(fleece!{"": [{"": [{"": 1.5}]}]}, r##"{"": [{"": [{"": 1.5}]}]}"##, r##"{"": [{"": [{"": 1.5}]}]}"##),
        95 => a(fleece![[{"": [[1.5]]}]], r##"[[{"": [[1.5]]}]]"##, r##"[[{"": [[1.5]]}]]"##),
        96 => d(fleece!{"": {"": [{"": {"": 1.5}}]}}, r##"{"": {"": [{"": {"": 1.5}}]}}"##, r##"{"": {"": [{"": {"": 1.5}}]}}"##),
        97 => a(fleece![[[[[[(None::<u8>)]]]]]], r##"[[[[[[(None::<u8>)]]]]]]"##, r##"[[[[[[null]]]]]]"##),
        98 => d(fleece!{"B": {"B": {"B": {"B": {"B": {"B": (None::<u8>)}}}}}}, r##"{"B": {"B": {"B": {"B": {"B": {"B": (None::<u8>)}}}}}}"##, r##"{"B": {"B": {"B": {"B": {"B": {"B": null}}}}}}"##),
        _ => d(fleece!{"B": [{"B": [{"B": [(None::<u8>)]}]}]}, r##"{"B": [{"B": [{"B": [(None::<u8>)]}]}]}"##, r##"{"B": [{"B": [{"B": [null]}]}]}"##),
    }
}
#[rustfmt::skip]
pub fn part16(k: usize) -> Case {
    let (x, n) = (std::hint::black_box("a longer string"), std::hint::black_box(12345i64));
    let _ = (x, n);
    match k {
        0 => a(fleece![{"B": [{"B": [{"B": (None::<u8>)}]}]}], r##"[{"B": [{"B": [{"B": (None::<u8>)}]}]}]"##, r##"[{"B": [{"B": [{"B": null}]}]}]"##),
        1 => d(fleece!{"B": [[{"B": [[(None::<u8>)]]}]]}, r##"{"B": [[{"B": [[(None::<u8>)]]}]]}"##, r##"{"B": [[{"B": [[null]]}]]}"##),
        2 => a(fleece![{"B": {"B": [{"B": {"B": (None::<u8>)}}]}}], r##"[{"B": {"B": [{"B": {"B": (None::<u8>)}}]}}]"##, r##"[{"B": {"B": [{"B": {"B": null}}]}}]"##),
        3 => a(fleece![[[[[[["t"]]]]]]], r##"[[[[[[["t"]]]]]]]"##, r##"[[[[[[["t"]]]]]]]"##),
        4 => d(fleece!{"b": {"b": {"b": {"b": {"b": {"b": {"b": "t"}}}}}}}, r##"{"b": {"b": {"b": {"b": {"b": {"b": {"b": "t"}}}}}}}"##, r##"{"b": {"b": {"b": {"b": {"b": {"b": {"b": "t"}}}}}}}"##),
        5 => a(fleece![{"b": [{"b": [{"b": ["t"]}]}]}], r##"[{"b": [{"b": [{"b": ["t"]}]}]}]"##, r##"[{"b": [{"b": [{"b": ["t"]}]}]}]"##),
        6 => d(fleece!{"b": [{"b": [{"b": [{"b": "t"}]}]}]}, r##"{"b": [{"b": [{"b": [{"b": "t"}]}]}]}"##, r##"{"b": [{"b": [{"b": [{"b": "t"}]}]}]}"##),
        7 => a(fleece![{"b": [[{"b": [["t"]]}]]}], r##"[{"b": [[{"b": [["t"]]}]]}]"##, r##"[{"b": [[{"b": [["t"]]}]]}]"##),
        8 => d(fleece!{"b": [{"b": {"b": [{"b": {"b": "t"}}]}}]}, r##"{"b": [{"b": {"b": [{"b": {"b": "t"}}]}}]}"##, r##"{"b": [{"b": {"b": [{"b": {"b": "t"}}]}}]}"##),
        9 => a(fleece![[[[[[[[false]]]]]]]], r##"[[[[[[[[false]]]]]]]]"##, r##"[[[[[[[[false]]]]]]]]"##),
        10 => d(fleece!{"a": {"a": {"a": {"a": {"a": {"a": {"a": {"a": false}}}}}}}}, r##"{"a": {"a": {"a": {"a": {"a": {"a": {"a": {"a": false}}}}}}}}"##, r##"{"a": {"a": {"a": {"a": {"a": {"a": {"a": {"a": false}}}}}}}}"##),
        11 => d(fleece!{"a": [{"a": [{"a": [{"a": [false]}]}]}]}, r##"{"a": [{"a": [{"a": [{"a": [false]}]}]}]}"##, r##"{"a": [{"a": [{"a": [{"a": [false]}]}]}]}"##),
        12 => a(fleece![{"a": [{"a": [{"a": [{"a": false}]}]}]}], r##"[{"a": [{"a": [{"a": [{"a": false}]}]}]}]"##, r##"[{"a": [{"a": [{"a": [{"a": false}]}]}]}]"##),
        13 => a(fleece![[{"a": [[{"a": [[false]]}]]}]], r##"[[{"a": [[{"a": [[false]]}]]}]]"##, r##"[[{"a": [[{"a": [[false]]}]]}]]"##),
        14 => d(fleece!{"a": {"a": [{"a": {"a": [{"a": {"a": false}}]}}]}}, r##"{"a": {"a": [{"a": {"a": [{"a": {"a": false}}]}}]}}"##, r##"{"a": {"a": [{"a": {"a": [{"a": {"a": false}}]}}]}}"##),
        15 => a(fleece![[[[[[[[[3000000000u32]]]]]]]]], r##"[[[[[[[[[3000000000u32]]]]]]]]]"##, r##"[[[[[[[[[3000000000]]]]]]]]]"##),
        16 => d(fleece!{"key": {"key": {"key": {"key": {"key": {"key": {"key": {"key": {"key": 3000000000u32}}}}}}}}}, r##"{"key": {"key": {"key": {"key": {"key": {"key": {"key": {"key": {"key": 3000000000u32}}}}}}}}}"##, r##"{"key": {"key": {"key": {"key": {"key": {"key": {"key": {"key": {"key": 3000000000}}}}}}}}}"##),
        17 => a(fleece![{"key": [{"key": [{"key": [{"key": [3000000000u32]}]}]}]}], r##"[{"key": [{"key": [{"key": [{"key": [3000000000u32]}]}]}]}]"##, r##"[{"key": [{"key": [{"key": [{"key": [3000000000]}]}]}]}]"##),
        18 => d(fleece!{"key": [{"key": [{"key": [{"key": [{"key": 3000000000u32}]}]}]}]}, r##"{"key": [{"key": [{"key": [{"key": [{"key": 3000000000u32}]}]}]}]}"##, r##"{"key": [{"key": [{"key": [{"key": [{"key": 3000000000}]}]}]}]}"##),
        19 => d(fleece!{"key": [[{"key": [[{"key": [[3000000000u32]]}]]}]]}, r##"{"key": [[{"key": [[{"key": [[3000000000u32]]}]]}]]}"##, r##"{"key": [[{"key": [[{"key": [[3000000000]]}]]}]]}"##),
        20 => a(fleece![{"key": {"key": [{"key": {"key": [{"key": {"key": 3000000000u32}}]}}]}}], r##"[{"key": {"key": [{"key": {"key": [{"key": {"key": 3000000000u32}}]}}]}}]"##, r##"[{"key": {"key": [{"key": {"key": [{"key": {"key": 3000000000}}]}}]}}]"##),
        21 => a(fleece![[[[[[[[[[n]]]]]]]]]], r##"[[[[[[[[[[n]]]]]]]]]]"##, r##"[[[[[[[[[[12345]]]]]]]]]]"##),
        22 => d(fleece!{"a long key beyond inlining": {"a long key beyond inlining": {"a long key beyond inlining": {"a long key beyond inlining": {"a long key beyond inlining": {"a long key beyond inlining": {"a long key beyond inlining": {"a long key beyond inlining": {"a long key beyond inlining": {"a long key beyond inlining": n}}}}}}}}}}, r##"{"a long key beyond inlining": {"a long key beyond inlining": {"a long key beyond inlining": {"a long key beyond inlining": {"a long key beyond inlining": {"a long key beyond inlining": {"a long key beyond inlining": {"a long key beyond inlining": {"a long key beyond inlining": {"a long key beyond inlining": n}}}}}}}}}}"##, r##"{"a long key beyond inlining": {"a long key beyond inlining": {"a long key beyond inlining": {"a long key beyond inlining": {"a long key beyond inlining": {"a long key beyond inlining": {"a long key beyond inlining": {"a long key beyond inlining": {"a long key beyond inlining": {"a long key beyond inlining": 12345}}}}}}}}}}"##),
        23 => d(fleece!{"a long key beyond inlining": [{"a long key beyond inlining": [{"a long key beyond inlining": [{"a long key beyond inlining": [{"a long key beyond inlining": [n]}]}]}]}]}, r##"{"a long key beyond inlining": [{"a long key beyond inlining": [{"a long key beyond inlining": [{"a long key beyond inlining": [{"a long key beyond inlining": [n]}]}]}]}]}"##, r##"{"a long key beyond inlining": [{"a long key beyond inlining": [{"a long key beyond inlining": [{"a long key beyond inlining": [{"a long key beyond inlining": [12345]}]}]}]}]}"##),
        24 => a(fleece![{"a long key beyond inlining": [{"a long key beyond inlining": [{"a long key beyond inlining": [{"a long key beyond inlining": [{"a long key beyond inlining": n}]}]}]}]}], r##"[{"a long key beyond inlining": [{"a long key beyond inlining": [{"a long key beyond inlining": [{"a long key beyond inlining": [{"a long key beyond inlining": n}]}]}]}]}]"##, r##"[{"a long key beyond inlining": [{"a long key beyond inlining": [{"a long key beyond inlining": [{"a long key beyond inlining": [{"a long key beyond inlining": 12345}]}]}]}]}]"##),
        25 => a(fleece![{"a long key beyond inlining": [[{"a long key beyond inlining": [[{"a long key beyond inlining": [[n]]}]]}]]}], r##"[{"a long key beyond inlining": [[{"a long key beyond inlining": [[{"a long key beyond inlining": [[n]]}]]}]]}]"##, r##"[{"a long key beyond inlining": [[{"a long key beyond inlining": [[{"a long key beyond inlining": [[12345]]}]]}]]}]"##),
        26 => d(fleece!{"a long key beyond inlining": [{"a long key beyond inlining": {"a long key beyond inlining": [{"a long key beyond inlining": {"a long key beyond inlining": [{"a long key beyond inlining": {"a long key beyond inlining": n}}]}}]}}]}, r##"{"a long key beyond inlining": [{"a long key beyond inlining": {"a long key beyond inlining": [{"a long key beyond inlining": {"a long key beyond inlining": [{"a long key beyond inlining": {"a long key beyond inlining": n}}]}}]}}]}"##, r##"{"a long key beyond inlining": [{"a long key beyond inlining": {"a long key beyond inlining": [{"a long key beyond inlining": {"a long key beyond inlining": [{"a long key beyond inlining": {"a long key beyond inlining": 12345}}]}}]}}]}"##),
        27 => a(fleece![[[[[[[[[[[("é".repeat(9).as_str())]]]]]]]]]]], r##"[[[[[[[[[[[("é".repeat(9).as_str())]]]]]]]]]]]"##, r##"[[[[[[[[[[["ééééééééé"]]]]]]]]]]]"##),
        28 => d(fleece!{"é": {"é": {"é": {"é": {"é": {"é": {"é": {"é": {"é": {"é": {"é": ("é".repeat(9).as_str())}}}}}}}}}}}, r##"{"é": {"é": {"é": {"é": {"é": {"é": {"é": {"é": {"é": {"é": {"é": ("é".repeat(9).as_str())}}}}}}}}}}}"##, r##"{"é": {"é": {"é": {"é": {"é": {"é": {"é": {"é": {"é": {"é": {"é": "ééééééééé"}}}}}}}}}}}"##),
        29 => a(fleece![{"é": [{"é": [{"é": [{"é": [{"é": [("é".repeat(9).as_str())]}]}]}]}]}], r##"[{"é": [{"é": [{"é": [{"é": [{"é": [("é".repeat(9).as_str())]}]}]}]}]}]"##, r##"[{"é": [{"é": [{"é": [{"é": [{"é": ["ééééééééé"]}]}]}]}]}]"##),
        30 => d(fleece!{"é": [{"é": [{"é": [{"é": [{"é": [{"é": ("é".repeat(9).as_str())}]}]}]}]}]}, r##"{"é": [{"é": [{"é": [{"é": [{"é": [{"é": ("é".repeat(9).as_str())}]}]}]}]}]}"##, r##"{"é": [{"é": [{"é": [{"é": [{"é": [{"é": "ééééééééé"}]}]}]}]}]}"##),
        31 => a(fleece![[{"é": [[{"é": [[{"é": [[("é".repeat(9).as_str())]]}]]}]]}]], r##"[[{"é": [[{"é": [[{"é": [[("é".repeat(9).as_str())]]}]]}]]}]]"##, r##"[[{"é": [[{"é": [[{"é": [["ééééééééé"]]}]]}]]}]]"##),
        32 => d(fleece!{"é": {"é": [{"é": {"é": [{"é": {"é": [{"é": {"é": ("é".repeat(9).as_str())}}]}}]}}]}}, r##"{"é": {"é": [{"é": {"é": [{"é": {"é": [{"é": {"é": ("é".repeat(9).as_str())}}]}}]}}]}}"##, r##"{"é": {"é": [{"é": {"é": [{"é": {"é": [{"é": {"é": "ééééééééé"}}]}}]}}]}}"##),
        33 => a(fleece![[[[[[[[[[[[(if n > 1 { 2 } else { 3 })]]]]]]]]]]]], r##"[[[[[[[[[[[[(if n > 1 { 2 } else { 3 })]]]]]]]]]]]]"##, r##"[[[[[[[[[[[[2]]]]]]]]]]]]"##),
        34 => d(fleece!{"": {"": {"": {"": {"": {"": {"": {"": {"": {"": {"": {"": (if n > 1 { 2 } else { 3 })}}}}}}}}}}}}, r##"{"": {"": {"": {"": {"": {"": {"": {"": {"": {"": {"": {"": (if n > 1 { 2 } else { 3 })}}}}}}}}}}}}"##, r##"{"": {"": {"": {"": {"": {"": {"": {"": {"": {"": {"": {"": 2}}}}}}}}}}}}"##),
        35 => d(fleece!{"": [{"": [{"": [{"": [{"": [{"": [(if n > 1 { 2 } else { 3 })]}]}]}]}]}]}, r##"{"": [{"": [{"": [{"": [{"": [{"": [(if n > 1 { 2 } else { 3 })]}]}]}]}]}]}"##, r##"{"": [{"": [{"": [{"": [{"": [{"": [2]}]}]}]}]}]}"##),
        36 => a(fleece![{"": [{"": [{"": [{"": [{"": [{"": (if n > 1 { 2 } else { 3 })}]}]}]}]}]}], r##"[{"": [{"": [{"": [{"": [{"": [{"": (if n > 1 { 2 } else { 3 })}]}]}]}]}]}]"##, r##"[{"": [{"": [{"": [{"": [{"": [{"": 2}]}]}]}]}]}]"##),
        37 => d(fleece!{"": [[{"": [[{"": [[{"": [[(if n > 1 { 2 } else { 3 })]]}]]}]]}]]}, r##"{"": [[{"": [[{"": [[{"": [[(if n > 1 { 2 } else { 3 })]]}]]}]]}]]}"##, r##"{"": [[{"": [[{"": [[{"": [[2]]}]]}]]}]]}"##),
        38 => a(fleece![{"": {"": [{"": {"": [{"": {"": [{"": {"": (if n > 1 { 2 } else { 3 })}}]}}]}}]}}], r##"[{"": {"": [{"": {"": [{"": {"": [{"": {"": (if n > 1 { 2 } else { 3 })}}]}}]}}]}}]"##, r##"[{"": {"": [{"": {"": [{"": {"": [{"": {"": 2}}]}}]}}]}}]"##),
        39 => a(fleece![1.5, (None::<u8>), "t", false, 3000000000u32], r##"[1.5, (None::<u8>), "t", false, 3000000000u32]"##, r##"[1.5, null, "t", false, 3000000000]"##),
        40 => a(fleece![[1.5, (None::<u8>), "t", false, 3000000000u32,], n,], r##"[[1.5, (None::<u8>), "t", false, 3000000000u32,], n,]"##, r##"[[1.5, null, "t", false, 3000000000], 12345]"##),
        41 => d(fleece!{"b": [1.5, (None::<u8>), "t", false, 3000000000u32,], "a": n,}, r##"{"b": [1.5, (None::<u8>), "t", false, 3000000000u32,], "a": n,}"##, r##"{"b": [1.5, null, "t", false, 3000000000], "a": 12345}"##),
        42 => d(fleece!{"b": [[1.5,], [(None::<u8>),], ["t",], [false,], [3000000000u32,],], "a": n,}, r##"{"b": [[1.5,], [(None::<u8>),], ["t",], [false,], [3000000000u32,],], "a": n,}"##, r##"{"b": [[1.5], [null], ["t"], [false], [3000000000]], "a": 12345}"##),
        43 => a(fleece![3000000000u32, n, ("é".repeat(9).as_str()), (if n > 1 { 2 } else { 3 }), 7, "text", true, (-70000i32), x], r##"[3000000000u32, n, ("é".repeat(9).as_str()), (if n > 1 { 2 } else { 3 }), 7, "text", true, (-70000i32), x]"##, r##"[3000000000, 12345, "ééééééééé", 2, 7, "text", true, -70000, "a longer string"]"##),
        44 => a(fleece![[3000000000u32, n, ("é".repeat(9).as_str()), (if n > 1 { 2 } else { 3 }), 7, "text", true, (-70000i32), x,], 1.5,], r##"[[3000000000u32, n, ("é".repeat(9).as_str()), (if n > 1 { 2 } else { 3 }), 7, "text", true, (-70000i32), x,], 1.5,]"##, r##"[[3000000000, 12345, "ééééééééé", 2, 7, "text", true, -70000, "a longer string"], 1.5]"##),
        45 => d(fleece!{"b": [3000000000u32, n, ("é".repeat(9).as_str()), (if n > 1 { 2 } else { 3 }), 7, "text", true, (-70000i32), x,], "a": 1.5,}, r##"{"b": [3000000000u32, n, ("é".repeat(9).as_str()), (if n > 1 { 2 } else { 3 }), 7, "text", true, (-70000i32), x,], "a": 1.5,}"##, r##"{"b": [3000000000, 12345, "ééééééééé", 2, 7, "text", true, -70000, "a longer string"], "a": 1.5}"##),
        46 => d(fleece!{"b": [[3000000000u32,], [n,], [("é".repeat(9).as_str()),], [(if n > 1 { 2 } else { 3 }),], [7,], ["text",], [true,], [(-70000i32),], [x,],], "a": 1.5,}, r##"{"b": [[3000000000u32,], [n,], [("é".repeat(9).as_str()),], [(if n > 1 { 2 } else { 3 }),], [7,], ["text",], [true,], [(-70000i32),], [x,],], "a": 1.5,}"##, r##"{"b": [[3000000000], [12345], ["ééééééééé"], [2], [7], ["text"], [true], [-70000], ["a longer string"]], "a": 1.5}"##),
        47 => a(fleece![n, ("é".repeat(9).as_str()), (if n > 1 { 2 } else { 3 }), 7, "text", true, (-70000i32), x, 1.5, (None::<u8>)], r##"[n, ("é".repeat(9).as_str()), (if n > 1 { 2 } else { 3 }), 7, "text", true, (-70000i32), x, 1.5, (None::<u8>)]"##, r##"[12345, "ééééééééé", 2, 7, "text", true, -70000, "a longer string", 1.5, null]"##),
        48 => a(fleece![[n, ("é".repeat(9).as_str()), (if n > 1 { 2 } else { 3 }), 7, "text", true, (-70000i32), x, 1.5, (None::<u8>),], "t",], r##"[[n, ("é".repeat(9).as_str()), (if n > 1 { 2 } else { 3 }), 7, "text", true, (-70000i32), x, 1.5, (None::<u8>),], "t",]"##, r##"[[12345, "ééééééééé", 2, 7, "text", true, -70000, "a longer string", 1.5, null], "t"]"##),
        49 => d(fleece!{"b": [n, ("é".repeat(9).as_str()), (if n > 1 { 2 } else { 3 }), 7, "text", true, (-70000i32), x, 1.5, (None::<u8>),], "a": "t",}, r##"{"b": [n, ("é".repeat(9).as_str()), (if n > 1 { 2 } else { 3 }), 7, "text", true, (-70000i32), x, 1.5, (None::<u8>),], "a": "t",}"##, r##"{"b": [12345, "ééééééééé", 2, 7, "text", true, -70000, "a longer string", 1.5, null], "a": "t"}"##),
        50 => d(fleece!{"b": [[n,], [("é".repeat(9).as_str()),], [(if n > 1 { 2 } else { 3 }),], [7,], ["text",], [true,], [(-70000i32),], [x,], [1.5,], [(None::<u8>),],], "a": "t",}, r##"{"b": [[n,], [("é".repeat(9).as_str()),], [(if n > 1 { 2 } else { 3 }),], [7,], ["text",], [true,], [(-70000i32),], [x,], [1.5,], [(None::<u8>),],], "a": "t",}"##, r##"{"b": [[12345], ["ééééééééé"], [2], [7], ["text"], [true], [-70000], ["a longer string"], [1.5], [null]], "a": "t"}"##),
        51 => a(fleece![("é".repeat(9).as_str()), (if n > 1 { 2 } else { 3 }), 7, "text", true, (-70000i32), x, 1.5, (None::<u8>), "t", false], r##"[("é".repeat(9).as_str()), (if n > 1 { 2 } else { 3 }), 7, "text", true, (-70000i32), x, 1.5, (None::<u8>), "t", false]"##, r##"["ééééééééé", 2, 7, "text", true, -70000, "a longer string", 1.5, null, "t", false]"##),
        52 => a(fleece![[("é".repeat(9).as_str()), (if n > 1 { 2 } else { 3 }), 7, "text", true, (-70000i32), x, 1.5, (None::<u8>), "t", false,], 3000000000u32,], r##"[[("é".repeat(9).as_str()), (if n > 1 { 2 } else { 3 }), 7, "text", true, (-70000i32), x, 1.5, (None::<u8>), "t", false,], 3000000000u32,]"##, r##"[["ééééééééé", 2, 7, "text", true, -70000, "a longer string", 1.5, null, "t", false], 3000000000]"##),
        53 => d(fleece!{"b": [("é".repeat(9).as_str()), (if n > 1 { 2 } else { 3 }), 7, "text", true, (-70000i32), x, 1.5, (None::<u8>), "t", false,], "a": 3000000000u32,}, r##"{"b": [("é".repeat(9).as_str()), (if n > 1 { 2 } else { 3 }), 7, "text", true, (-70000i32), x, 1.5, (None::<u8>), "t", false,], "a": 3000000000u32,}"##, r##"{"b": ["ééééééééé", 2, 7, "text", true, -70000, "a longer string", 1.5, null, "t", false], "a": 3000000000}"##),
        54 => d(fleece!{"b": [[("é".repeat(9).as_str()),], [(if n > 1 { 2 } else { 3 }),], [7,], ["text",], [true,], [(-70000i32),], [x,], [1.5,], [(None::<u8>),], ["t",], [false,],], "a": 3000000000u32,}, r##"{"b": [[("é".repeat(9).as_str()),], [(if n > 1 { 2 } else { 3 }),], [7,], ["text",], [true,], [(-70000i32),], [x,], [1.5,], [(None::<u8>),], ["t",], [false,],], "a": 3000000000u32,}"##, r##"{"b": [["ééééééééé"], [2], [7], ["text"], [true], [-70000], ["a longer string"], [1.5], [null], ["t"], [false]], "a": 3000000000}"##),
        55 => a(fleece![(if n > 1 { 2 } else { 3 }), 7, "text", true, (-70000i32), x, 1.5, (None::<u8>), "t", false, 3000000000u32, n], r##"[(if n > 1 { 2 } else { 3 }), 7, "text", true, (-70000i32), x, 1.5, (None::<u8>), "t", false, 3000000000u32, n]"##, r##"[2, 7, "text", true, -70000, "a longer string", 1.5, null, "t", false, 3000000000, 12345]"##),
        56 => a(fleece![[(if n > 1 { 2 } else { 3 }), 7, "text", true, (-70000i32), x, 1.5, (None::<u8>), "t", false, 3000000000u32, n,], ("é".repeat(9).as_str()),], r##"[[(if n > 1 { 2 } else { 3 }), 7, "text", true, (-70000i32), x, 1.5, (None::<u8>), "t", false, 3000000000u32, n,], ("é".repeat(9).as_str()),]"##, r##"[[2, 7, "text", true, -70000, "a longer string", 1.5, null, "t", false, 3000000000, 12345], "ééééééééé"]"##),
        57 => d(fleece!{"b": [(if n > 1 { 2 } else { 3 }), 7, "text", true, (-70000i32), x, 1.5, (None::<u8>), "t", false, 3000000000u32, n,], "a": ("é".repeat(9).as_str()),}, r##"{"b": [(if n > 1 { 2 } else { 3 }), 7, "text", true, (-70000i32), x, 1.5, (None::<u8>), "t", false, 3000000000u32, n,], "a": ("é".repeat(9).as_str()),}"##, r##"{"b": [2, 7, "text", true, -70000, "a longer string", 1.5, null, "t", false, 3000000000, 12345], "a": "ééééééééé"}"##),
        58 => d(fleece!{"b": [[(if n > 1 { 2 } else { 3 }),], [7,], ["text",], [true,], [(-70000i32),], [x,], [1.5,], [(None::<u8>),], ["t",], [false,], [3000000000u32,], [n,],], "a": ("é".repeat(9).as_str()),}, r##"{"b": [[(if n > 1 { 2 } else { 3 }),], [7,], ["text",], [true,], [(-70000i32),], [x,], [1.5,], [(None::<u8>),], ["t",], [false,], [3000000000u32,], [n,],], "a": ("é".repeat(9).as_str()),}"##, r##"{"b": [[2], [7], ["text"], [true], [-70000], ["a longer string"], [1.5], [null], ["t"], [false], [3000000000], [12345]], "a": "ééééééééé"}"##),
        59 => a(fleece!["t", false, 3000000000u32, n, ("é".repeat(9).as_str()), (if n > 1 { 2 } else { 3 }), 7, "text", true, (-70000i32), x, 1.5, (None::<u8>), "t", false, 3000000000u32, n, ("é".repeat(9).as_str()), (if n > 1 { 2 } else { 3 }), 7], r##"["t", false, 3000000000u32, n, ("é".repeat(9).as_str()), (if n > 1 { 2 } else { 3 }), 7, "text", true, (-70000i32), x, 1.5, (None::<u8>), "t", false, 3000000000u32, n, ("é".repeat(9).as_str()), (if n > 1 { 2 } else { 3 }), 7]"##, r##"["t", false, 3000000000, 12345, "ééééééééé", 2, 7, "text", true, -70000, "a longer string", 1.5, null, "t", false, 3000000000, 12345, "ééééééééé", 2, 7]"##),
        60 => a(fleece![["t", false, 3000000000u32, n, ("é".repeat(9).as_str()), (if n > 1 { 2 } else { 3 }), 7, "text", true, (-70000i32), x, 1.5, (None::<u8>), "t", false, 3000000000u32, n, ("é".repeat(9).as_str()), (if n > 1 { 2 } else { 3 }), 7,], "text",], r##"[["t", false, 3000000000u32, n, ("é".repeat(9).as_str()), (if n > 1 { 2 } else { 3 }), 7, "text", true, (-70000i32), x, 1.5, (None::<u8>), "t", false, 3000000000u32, n, ("é".repeat(9).as_str()), (if n > 1 { 2 } else { 3 }), 7,], "text",]"##, r##"[["t", false, 3000000000, 12345, "ééééééééé", 2, 7, "text", true, -70000, "a longer string", 1.5, null, "t", false, 3000000000, 12345, "ééééééééé", 2, 7], "text"]"##),
        61 => d(fleece!{"b": ["t", false, 3000000000u32, n, ("é".repeat(9).as_str()), (if n > 1 { 2 } else { 3 }), 7, "text", true, (-70000i32), x, 1.5, (None::<u8>), "t", false, 3000000000u32, n, ("é".repeat(9).as_str()), (if n > 1 { 2 } else { 3 }), 7,], "a": "text",}, r##"{"b": ["t", false, 3000000000u32, n, ("é".repeat(9).as_str()), (if n > 1 { 2 } else { 3 }), 7, "text", true, (-70000i32), x, 1.5, (None::<u8>), "t", false, 3000000000u32, n, ("é".repeat(9).as_str()), (if n > 1 { 2 } else { 3 }), 7,], "a": "text",}"##, r##"{"b": ["t", false, 3000000000, 12345, "ééééééééé", 2, 7, "text", true, -70000, "a longer string", 1.5, null, "t", false, 3000000000, 12345, "ééééééééé", 2, 7], "a": "text"}"##),
        62 => d(fleece!{"b": [["t",], [false,], [3000000000u32,], [n,], [("é".repeat(9).as_str()),], [(if n > 1 { 2 } else { 3 }),], [7,], ["text",], [true,], [(-70000i32),], [x,], [1.5,], [(None::<u8>),], ["t",], [false,], [3000000000u32,], [n,], [("é".repeat(9).as_str()),], [(if n > 1 { 2 } else { 3 }),], [7,],], "a": "text",}, r##"{"b": [["t",], [false,], [3000000000u32,], [n,], [("é".repeat(9).as_str()),], [(if n > 1 { 2 } else { 3 }),], [7,], ["text",], [true,], [(-70000i32),], [x,], [1.5,], [(None::<u8>),], ["t",], [false,], [3000000000u32,], [n,], [("é".repeat(9).as_str()),], [(if n > 1 { 2 } else { 3 }),], [7,],], "a": "text",}"##, r##"{"b": [["t"], [false], [3000000000], [12345], ["ééééééééé"], [2], [7], ["text"], [true], [-70000], ["a longer string"], [1.5], [null], ["t"], [false], [3000000000], [12345], ["ééééééééé"], [2], [7]], "a": "text"}"##),
        63 => a(fleece!["text", true, (-70000i32), x, 1.5, (None::<u8>), "t", false, 3000000000u32, n, ("é".repeat(9).as_str()), (if n > 1 { 2 } else { 3 }), 7, "text", true, (-70000i32), x, 1.5, (None::<u8>), "t", false, 3000000000u32, n, ("é".repeat(9).as_str()), (if n > 1 { 2 } else { 3 }), 7, "text", true, (-70000i32), x, 1.5, (None::<u8>), "t", false, 3000000000u32, n, ("é".repeat(9).as_str()), (if n > 1 { 2 } else { 3 }), 7, "text"], r##"["text", true, (-70000i32), x, 1.5, (None::<u8>), "t", false, 3000000000u32, n, ("é".repeat(9).as_str()), (if n > 1 { 2 } else { 3 }), 7, "text", true, (-70000i32), x, 1.5, (None::<u8>), "t", false, 3000000000u32, n, ("é".repeat(9).as_str()), (if n > 1 { 2 } else { 3 }), 7, "text", true, (-70000i32), x, 1.5, (None::<u8>), "t", false, 3000000000u32, n, ("é".repeat(9).as_str()), (if n > 1 { 2 } else { 3 }), 7, "text"]"##, r##"["text", true, -70000, "a longer string", 1.5, null, "t", false, 3000000000, 12345, "ééééééééé", 2, 7, "text", true, -70000, "a longer string", 1.5, null, "t", false, 3000000000, 12345, "ééééééééé", 2, 7, "text", true, -70000, "a longer string", 1.5, null, "t", false, 3000000000, 12345, "ééééééééé", 2, 7, "text"]"##),
        64 => a(fleece![["text", true, (-70000i32), x, 1.5, (None::<u8>), "t", false, 3000000000u32, n, ("é".repeat(9).as_str()), (if n > 1 { 2 } else { 3 }), 7, "text", true, (-70000i32), x, 1.5, (None::<u8>), "t", false, 3000000000u32, n, ("é".repeat(9).as_str()), (if n > 1 { 2 } else { 3 }), 7, "text", true, (-70000i32), x, 1.5, (None::<u8>), "t", false, 3000000000u32, n, ("é".repeat(9).as_str()), (if n > 1 { 2 } else { 3 }), 7, "text",], true,], r##"[["text", true, (-70000i32), x, 1.5, (None::<u8>), "t", false, 3000000000u32, n, ("é".repeat(9).as_str()), (if n > 1 { 2 } else { 3 }), 7, "text", true, (-70000i32), x, 1.5, (None::<u8>), "t", false, 3000000000u32, n, ("é".repeat(9).as_str()), (if n > 1 { 2 } else { 3 }), 7, "text", true, (-70000i32), x, 1.5, (None::<u8>), "t", false, 3000000000u32, n, ("é".repeat(9).as_str()), (if n > 1 { 2 } else { 3 }), 7, "text",], true,]"##, r##"[["text", true, -70000, "a longer string", 1.5, null, "t", false, 3000000000, 12345, "ééééééééé", 2, 7, "text", true, -70000, "a longer string", 1.5, null, "t", false, 3000000000, 12345, "ééééééééé", 2, 7, "text", true, -70000, "a longer string", 1.5, null, "t", false, 3000000000, 12345, "ééééééééé", 2, 7, "text"], true]"##),
        65 => d(fleece!{"b": ["text", true, (-70000i32), x, 1.5, (None::<u8>), "t", false, 3000000000u32, n, ("é".repeat(9).as_str()), (if n > 1 { 2 } else { 3 }), 7, "text", true, (-70000i32), x, 1.5, (None::<u8>), "t", false, 3000000000u32, n, ("é".repeat(9).as_str()), (if n > 1 { 2 } else { 3 }), 7, "text", true, (-70000i32), x, 1.5, (None::<u8>), "t", false, 3000000000u32, n, ("é".repeat(9).as_str()), (if n > 1 { 2 } else { 3 }), 7, "text",], "a": true,}, r##"{"b": ["text", true, (-70000i32), x, 1.5, (None::<u8>), "t", false, 3000000000u32, n, ("é".repeat(9).as_str()), (if n > 1 { 2 } else { 3 }), 7, "text", true, (-70000i32), x, 1.5, (None::<u8>), "t", false, 3000000000u32, n, ("é".repeat(9).as_str()), (if n > 1 { 2 } else { 3 }), 7, "text", true, (-70000i32), x, 1.5, (None::<u8>), "t", false, 3000000000u32, n, ("é".repeat(9).as_str()), (if n > 1 { 2 } else { 3 }), 7, "text",], "a": true,}"##, r##"{"b": ["text", true, -70000, "a longer string", 1.5, null, "t", false, 3000000000, 12345, "ééééééééé", 2, 7, "text", true, -70000, "a longer string", 1.5, null, "t", false, 3000000000, 12345, "ééééééééé", 2, 7, "text", true, -70000, "a longer string", 1.5, null, "t", false, 3000000000, 12345, "ééééééééé", 2, 7, "text"], "a": true}"##),
        _ => d(fleece!{"b": [["text",], [true,], [(-70000i32),], [x,], [1.5,], [(None::<u8>),], ["t",], [false,], [3000000000u32,], [n,], [("é".repeat(9).as_str()),], [(if n > 1 { 2 } else { 3 }),], [7,], ["text",], [true,], [(-70000i32),], [x,], [1.5,], [(None::<u8>),], ["t",], [false,], [3000000000u32,], [n,], [("é".repeat(9).as_str()),], [(if n > 1 { 2 } else { 3 }),], [7,], ["text",], [true,], [(-70000i32),], [x,], [1.5,], [(None::<u8>),], ["t",], [false,], [3000000000u32,], [n,], [("é".repeat(9).as_str()),], [(if n > 1 { 2 } else { 3 }),], [7,], ["text",],], "a": true,}, r##"{"b": [["text",], [true,], [(-70000i32),], [x,], [1.5,], [(None::<u8>),], ["t",], [false,], [3000000000u32,], [n,], [("é".repeat(9).as_str()),], [(if n > 1 { 2 } else { 3 }),], [7,], ["text",], [true,], [(-70000i32),], [x,], [1.5,], [(None::<u8>),], ["t",], [false,], [3000000000u32,], [n,], [("é".repeat(9).as_str()),], [(if n > 1 { 2 } else { 3 }),], [7,], ["text",], [true,], [(-70000i32),], [x,], [1.5,], [(None::<u8>),], ["t",], [false,], [3000000000u32,], [n,], [("é".repeat(9).as_str()),], [(if n > 1 { 2 } else { 3 }),], [7,], ["text",],], "a": true,}"##, r##"{"b": [["text"], [true], [-70000], ["a longer string"], [1.5], [null], ["t"], [false], [3000000000], [12345], ["ééééééééé"], [2], [7], ["text"], [true], [-70000], ["a longer string"], [1.5], [null], ["t"], [false], [3000000000], [12345], ["ééééééééé"], [2], [7], ["text"], [true], [-70000], ["a longer string"], [1.5], [null], ["t"], [false], [3000000000], [12345], ["ééééééééé"], [2], [7], ["text"]], "a": true}"##),
    }
}
pub const COUNT: usize = 1667;
pub fn case(k: usize) -> Case {
    match k / 100 {
        0 => part0(k % 100),
        1 => part1(k % 100),
        2 => part2(k % 100),
        3 => part3(k % 100),
        4 => part4(k % 100),
        5 => part5(k % 100),
        6 => part6(k % 100),
        7 => part7(k % 100),
        8 => part8(k % 100),
        9 => part9(k % 100),
        10 => part10(k % 100),
        11 => part11(k % 100),
        12 => part12(k % 100),
        13 => part13(k % 100),
        14 => part14(k % 100),
        15 => part15(k % 100),
        _ => part16(k % 100),
    }
}
