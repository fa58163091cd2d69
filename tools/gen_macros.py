#!/usr/bin/env python3
"""Writes harness/src/props/c24_cases.rs: invocations of fleece! and the documents they spell."""
import itertools, json, os
LEAVES = [("7", 7), ('"text"', "text"), ("true", True), ("(-70000i32)", -70000), ("x", "a longer string"), ("1.5", 1.5),
          ("(None::<u8>)", None), ('"t"', "t"), ("false", False), ("3000000000u32", 3000000000), ("n", 12345), ('("é".repeat(9).as_str())', "é" * 9), ("(if n > 1 { 2 } else { 3 })", 2)]
KEYS = ["b", "a", "key", "a long key beyond inlining", "é", "", "B"]
def forests(n):
    """ordered lists of trees with n nodes in total; a tree is 'l', ('a', forest) or ('d', forest)"""
    if n == 0:
        yield ()
        return
    for k in range(1, n + 1):
        for t in trees(k):
            for r in forests(n - k):
                yield (t,) + r
def trees(n):
    if n == 1:
        yield "l"
    for f in forests(n - 1):
        yield ("a", f)
        yield ("d", f)
class Gen:
    def __init__(s, leaf, key, comma): s.leaf, s.key, s.comma = leaf, key, comma
    def tree(s, t):
        if t == "l":
            l = LEAVES[s.leaf % len(LEAVES)]; s.leaf += 1
            return l
        return s.coll(t)
    def coll(s, t):
        k, f = t
        if k == "a":
            xs = [s.tree(x) for x in f]
            inner, doc = [x[0] for x in xs], [x[1] for x in xs]
        else:
            inner, doc = [], {}
            for i, x in enumerate(f):
                key = KEYS[(s.key + i) % len(KEYS)]
                c, d = s.tree(x)
                inner.append(f"{json.dumps(key, ensure_ascii=False)}: {c}"); doc[key] = d
        tail = "," if s.comma and f else ""
        o, c = ("[", "]") if k == "a" else ("{", "}")
        return o + ", ".join(inner) + tail + c, doc
cases = []
def add(t, leaf, key, comma):
    src, doc = Gen(leaf, key, comma).coll(t)
    cases.append((t[0], src, json.dumps(doc, ensure_ascii=False)))
n = 0
for size in range(0, 5):
    for f in forests(size):
        for k in "ad":
            if k == "a" and not f: continue   # fleece![] cannot be told from fleece!{}
            add((k, f), n, n // 3, n % 5 == 0); n += 1
# every leaf in every place
for l in range(len(LEAVES)):
    for t in [("a", ("l",)), ("d", ("l",)), ("a", (("a", ("l",)),)), ("a", (("d", ("l",)),)), ("d", (("a", ("l",)),)), ("d", (("d", ("l",)),))]:
        add(t, l, l, False)
# depth and length
for d in range(5, 13):
    for pat in ("a", "d", "ad", "da", "aad", "dda"):
        t = "l"
        for i in range(d): t = (pat[i % len(pat)], (t,))
        add(t, d, d, False)
for m in (5, 9, 10, 11, 12, 20, 40):
    add(("a", ("l",) * m), m, 0, False)
    add(("a", (("a", ("l",) * m), "l")), m, 0, True)
    add(("d", (("a", ("l",) * m), "l")), m, 0, True)
    add(("d", (("a", (("a", ("l",)),) * m), "l")), m, 0, True)
out = ["// Generated by tools/gen_macros.py", "use super::{a, d, Case};", "use fleece::{fleece, Encoder};", ""]
N = 100
for i in range(0, len(cases), N):
    out.append("#[rustfmt::skip]\npub fn part%d(k: usize) -> Case {\n    let (x, n) = (std::hint::black_box(\"a longer string\"), std::hint::black_box(12345i64));\n    let _ = (x, n);\n    match k {" % (i // N))
    for j, (k, src, doc) in enumerate(cases[i:i + N]):
        o, c = ("{", "}") if src[0] == "{" else ("[", "]")
        out.append(f"        {j if j + 1 < len(cases[i:i+N]) else '_'} => {k}(fleece!{src}, r##\"{src}\"##, r##\"{doc}\"##),")
    out.append("    }\n}")
out.append(f"pub const COUNT: usize = {len(cases)};\npub fn case(k: usize) -> Case {{\n    match k / {N} {{")
for p in range((len(cases) + N - 1) // N):
    out.append(f"        {p if (p + 1) * N < len(cases) else '_'} => part{p}(k % {N}),")
out.append("    }\n}\n")
here = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
open(os.path.join(here, "harness/src/props/c24_cases.rs"), "w").write("\n".join(out))
print(len(cases), "invocations")
