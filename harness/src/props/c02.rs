//! C02: every number of every supported type is preserved exactly.

use crate::doc::{hex, Keys};
use crate::engine::*;
use fleece::encoder::Encodable;
use fleece::{Encoder, MutableArray, MutableDict, Value, ValueType};

/// Numbers as the property sees them.
#[derive(Clone, Copy, Debug, PartialEq)]
enum Num {
    I(i128),
    F32(u32),
    F64(u64),
}

trait Number: Encodable + Copy + std::fmt::Debug {
    fn num(self) -> Num;
}
macro_rules! int { ($($t:ty),*) => { $(impl Number for $t { fn num(self) -> Num { Num::I(self as i128) } })* } }
int!(i8, u8, i16, u16, i32, u32, i64, u64, isize, usize);
impl Number for f32 {
    fn num(self) -> Num {
        Num::F32(self.to_bits())
    }
}
impl Number for f64 {
    fn num(self) -> Num {
        Num::F64(self.to_bits())
    }
}

fn agrees(v: &Value, n: Num) -> Result<(), String> {
    let t = v.value_type();
    match n {
        Num::I(x) => {
            if !matches!(t, ValueType::Short | ValueType::Int | ValueType::UnsignedInt) {
                return Err(format!("{x} reads back as a {t:?}"));
            }
            if x > i128::from(i64::MAX) {
                if t != ValueType::UnsignedInt {
                    return Err(format!("{x} reads back as a {t:?}"));
                }
            } else if i128::from(v.to_int()) != x {
                return Err(format!("{x} reads back as {} (to_int)", v.to_int()));
            }
            if x >= 0 && i128::from(v.to_unsigned_int()) != x {
                return Err(format!("{x} reads back as {} (to_unsigned_int)", v.to_unsigned_int()));
            }
            if x < 0 && t == ValueType::UnsignedInt {
                return Err(format!("{x} reads back as unsigned"));
            }
        }
        Num::F32(b) => {
            let (x, g) = (f32::from_bits(b), v.to_float());
            if t != ValueType::Float || !(g.to_bits() == b || (g.is_nan() && x.is_nan())) {
                return Err(format!("{x:?}f32 reads back as {t:?} {g:?}"));
            }
        }
        Num::F64(b) => {
            let (x, g) = (f64::from_bits(b), v.to_double());
            if !matches!(t, ValueType::Double32 | ValueType::Double64)
                || !(g.to_bits() == b || (g.is_nan() && x.is_nan()))
            {
                return Err(format!("{x:?}f64 reads back as {t:?} {g:?}"));
            }
        }
    }
    Ok(())
}

/// One number through every place it can be stored.
fn everywhere<T: Number>(x: T, deep: bool) -> Result<(), String> {
    let n = x.num();
    // array element, and dict value
    let mut e = Encoder::new();
    let r = (|| {
        e.begin_array(4)?;
        e.write_value(x)?;
        e.write_value(&x)?;
        e.begin_dict()?;
        e.write_key("k")?;
        e.write_value(x)?;
        e.write_key("o")?;
        e.write_value(Some(x))?;
        e.end_dict()?;
        e.end_array()
    })();
    r.map_err(|e: fleece::encoder::EncodeError| format!("{x:?} refused: {e:?}"))?;
    let b = e.finish();
    let v = Value::from_bytes(&b).map_err(|e| format!("{x:?}: document refused: {e:?} {}", hex(&b)))?;
    let a = v.as_array().ok_or("not an array")?;
    agrees(&a[0], n).map_err(|e| format!("array element: {e}; {}", hex(&b)))?;
    agrees(&a[1], n).map_err(|e| format!("array element: {e}; {}", hex(&b)))?;
    let d = a[2].as_dict().ok_or("not a dict")?;
    agrees(d.get("k").ok_or("no k")?, n).map_err(|e| format!("dict value: {e}; {}", hex(&b)))?;
    agrees(d.get("o").ok_or("no o")?, n).map_err(|e| format!("dict value in Option: {e}; {}", hex(&b)))?;
    // mutable collections
    let mut ma = MutableArray::new();
    ma.push(&x);
    ma.push(&Some(x));
    agrees(ma.get(0).ok_or("no element")?, n).map_err(|e| format!("mutable array: {e}"))?;
    agrees(ma.get(1).ok_or("no element")?, n).map_err(|e| format!("mutable array, Option: {e}"))?;
    let mut md = MutableDict::new();
    md.insert("k", x);
    agrees(md.get("k").ok_or("no k")?, n).map_err(|e| format!("mutable dict: {e}"))?;
    // copies
    let m2 = a.to_mutable();
    agrees(m2.get(0).ok_or("no element")?, n).map_err(|e| format!("mutable copy: {e}"))?;
    agrees(m2.get_dict(2).and_then(|d| d.get("k")).ok_or("no k")?, n).map_err(|e| format!("mutable copy: {e}"))?;
    let mut e = Encoder::new();
    e.write_fleece(v).map_err(|e| format!("write_fleece: {e:?}"))?;
    let b2 = e.finish();
    let v2 = Value::from_bytes(&b2).map_err(|e| format!("{x:?}: copy refused: {e:?} {}", hex(&b2)))?;
    agrees(&v2.as_array().ok_or("copy")?[0], n).map_err(|e| format!("copy: {e}"))?;
    if deep {
        ma.set(0, x);
        agrees(ma.get(0).ok_or("no element")?, n).map_err(|e| format!("mutable array set: {e}"))?;
        ma.push_fleece(&a[0]);
        agrees(ma.get(2).ok_or("no element")?, n).map_err(|e| format!("mutable array push_fleece: {e}"))?;
        // wide collections
        for wide_dict in [false, true] {
            let mut e = Encoder::new();
            let big = vec![b'x'; 40_000];
            let r = (|| {
                e.begin_array(4)?;
                e.write_value("far away")?;
                e.write_value(big.as_slice())?;
                if wide_dict {
                    e.begin_dict()?;
                    e.write_key("n")?;
                    e.write_value(x)?;
                    e.write_key("far away")?;
                    e.write_value(big.as_slice())?;
                    e.write_key("zzz")?;
                    e.write_value(x)?;
                    e.end_dict()?;
                } else {
                    e.write_value(x)?;
                }
                e.end_array()
            })();
            r.map_err(|e: fleece::encoder::EncodeError| format!("{x:?} refused: {e:?}"))?;
            let b = e.finish();
            let v = Value::from_bytes(&b).map_err(|e| format!("{x:?}: wide document refused: {e:?}"))?;
            let a = v.as_array().ok_or("not an array")?;
            if !a.is_wide() {
                return Err("ENGINE: the array was meant to be wide".into());
            }
            if wide_dict {
                let d = a[2].as_dict().ok_or("not a dict")?;
                for k in ["n", "zzz"] {
                    agrees(d.get(k).ok_or("no key")?, n).map_err(|e| format!("wide dict value: {e}"))?;
                }
            } else {
                agrees(&a[2], n).map_err(|e| format!("wide array element: {e}"))?;
            }
        }
    }
    let _ = Keys::Plain;
    Ok(())
}

fn one<T: Number>(cx: &mut Cx, x: T, deep: bool) {
    cx.cases(1);
    match guard(|| everywhere(x, deep)) {
        Ok(Ok(())) => {}
        Ok(Err(e)) => cx.fail("number", format!("{}: {e}", std::any::type_name::<T>())),
        Err(e) => cx.fail("number-panic", format!("{x:?} ({}): {e}", std::any::type_name::<T>())),
    }
}

/// A cheaper path for very large sweeps: array element + mutable array.
fn quick_one<T: Number>(x: T) -> Result<(), String> {
    let n = x.num();
    let mut e = Encoder::new();
    e.begin_array(1).map_err(|e| format!("{e:?}"))?;
    e.write_value(x).map_err(|e| format!("{x:?}: {e:?}"))?;
    e.end_array().map_err(|e| format!("{x:?}: {e:?}"))?;
    let b = e.finish();
    let v = Value::from_bytes(&b).map_err(|e| format!("{x:?}: document refused: {e:?} {}", hex(&b)))?;
    agrees(v.as_array().and_then(|a| a.get(0)).ok_or("no element")?, n).map_err(|e| format!("{e}; {}", hex(&b)))?;
    let mut ma = MutableArray::new();
    ma.push(&x);
    agrees(ma.get(0).ok_or("no element")?, n).map_err(|e| format!("mutable: {e}"))
}

fn sweep<T: Number>(cx: &mut Cx, it: impl Iterator<Item = T>) {
    let mut n = 0u64;
    let r = guard(|| {
        for x in it {
            n += 1;
            quick_one(x).map_err(|e| format!("{}: {e}", std::any::type_name::<T>()))?;
        }
        Ok::<(), String>(())
    });
    cx.cases(n);
    match r {
        Ok(Ok(())) => {}
        Ok(Err(e)) => cx.fail("number", e),
        Err(e) => cx.fail("number-panic", e),
    }
}

/// 64-bit patterns around every power of two, and all products of extreme bytes.
pub fn edges() -> Vec<u64> {
    let mut v = vec![];
    for k in 0..64 {
        for d in -3i64..=3 {
            v.push((1u64 << k).wrapping_add_signed(d));
            v.push((1u64 << k).wrapping_add_signed(d).wrapping_neg());
        }
        v.push(u64::MAX >> k);
        v.push(u64::MAX << k);
        v.push(0xA5A5_A5A5_A5A5_A5A5 >> k);
        v.push(0x0102_0304_0506_0708 >> k);
        v.push(0x8070_6050_4030_2010 >> k);
        v.push(0x8181_8181_8181_8181 << k);
    }
    for k in 1..=19u32 {
        for d in -1i64..=1 {
            v.push(10u64.pow(k).wrapping_add_signed(d));
        }
    }
    v.sort_unstable();
    v.dedup();
    v
}

const BYTES: [u8; 5] = [0x00, 0x01, 0x7f, 0x80, 0xff];

fn lattice(hi: usize) -> impl Iterator<Item = u64> {
    // the top three bytes are fixed by `hi` (0..125), the others run over all combinations
    (0..3125usize).map(move |lo| {
        let mut x = 0u64;
        let mut a = hi;
        for k in 0..3 {
            x |= u64::from(BYTES[a % 5]) << (8 * (7 - k));
            a /= 5;
        }
        let mut a = lo;
        for k in 0..5 {
            x |= u64::from(BYTES[a % 5]) << (8 * k);
            a /= 5;
        }
        x
    })
}

fn floats64() -> Vec<u64> {
    let mut v = vec![];
    let mants = [0u64, 1, 0xf_ffff_ffff_ffff, 0x8_0000_0000_0000, 0x1000_0000, 0xfff_ffff, 0x2000_0000, 0x5_5555_5555_5555];
    for sign in [0u64, 1] {
        for exp in 0..2048u64 {
            for m in mants {
                v.push(sign << 63 | exp << 52 | m);
            }
        }
    }
    for x in edges() {
        v.push((x as f64).to_bits());
        v.push((x as i64 as f64).to_bits());
        v.push((x as f64 + 0.5).to_bits());
    }
    v.sort_unstable();
    v.dedup();
    v
}

pub fn scenarios(t: Tier) -> Vec<Scenario> {
    let mut v = vec![
        scen("i8/u8/i16/u16 all", "every value of i8, u8, i16, u16 in arrays, dicts, Options, mutable collections, copies", 1, |cx| {
            let b = cx.choose(256) as u16;
            cx.note(|| format!("16-bit values with high byte {b:#04x}"));
            for lo in 0..256u16 {
                let x = b << 8 | lo;
                one(cx, x, false);
                one(cx, x as i16, false);
                if b == 0 {
                    one(cx, x as u8, true);
                    one(cx, x as u8 as i8, true);
                }
            }
        }),
        scen("edges", "all integer types at +-2^k+-d (k<64, d<=3), runs of ones, powers of ten; every storage place including wide collections", 1, |cx| {
            let e = edges();
            let x = *cx.pick(&e);
            cx.note(|| format!("bit pattern {x:#x}"));
            cx.outcome(x);
            one(cx, x, true);
            one(cx, x as i64, true);
            one(cx, x as usize, true);
            one(cx, x as isize, true);
            one(cx, x as u32, true);
            one(cx, x as i32, true);
            one(cx, x as u16, true);
            one(cx, x as i16, true);
        }),
        scen("byte lattice", "all i64/u64 whose 8 bytes are each one of 00 01 7f 80 ff (390625 patterns)", 1, |cx| {
            let hi = cx.choose(125);
            cx.note(|| format!("top bytes #{hi}"));
            sweep(cx, lattice(hi));
            sweep(cx, lattice(hi).map(|x| x as i64));
        }),
        scen("f64 exponents", "all sign/exponent combinations of f64 x 8 mantissas, and floats of all integer edges", 1, |cx| {
            let e = floats64();
            let chunks = e.len().div_ceil(64);
            let c = cx.choose(chunks);
            cx.note(|| format!("f64 chunk {c}"));
            for b in e.iter().skip(c * 64).take(64) {
                one(cx, f64::from_bits(*b), b % 8 == 1);
            }
        }),
        scen("f32 lattice", "f32: all 512 sign/exponents x 32 mantissas", 1, |cx| {
            let se = cx.choose(512) as u32;
            cx.note(|| format!("f32 sign/exponent {se}"));
            for k in 0..32u32 {
                let m = match k {
                    0..=22 => 1 << k,
                    23 => 0,
                    24 => 0x7f_ffff,
                    _ => (0x12_3456u32.wrapping_mul(k)) & 0x7f_ffff,
                };
                one(cx, f32::from_bits(se << 23 | m), false);
            }
        }),
    ];
    if t.thorough() {
        v.push(scen("u32/i32 all", "every value of u32 and i32 (2^33 cases)", 1, |cx| {
            let hi = cx.choose(1 << 14) as u32;
            cx.note(|| format!("32-bit values with top 14 bits {hi:#x}"));
            sweep(cx, (0..1u32 << 18).map(|lo| hi << 18 | lo));
            cx.beat();
            sweep(cx, (0..1u32 << 18).map(|lo| (hi << 18 | lo) as i32));
        }));
        v.push(scen("f32 all", "every bit pattern of f32", 1, |cx| {
            let hi = cx.choose(1 << 14) as u32;
            cx.note(|| format!("f32 with top 14 bits {hi:#x}"));
            sweep(cx, (0..1u32 << 18).map(|lo| f32::from_bits(hi << 18 | lo)));
        }));
    } else {
        v.push(scen("32-bit strides", "i32/u32/f32: all values whose low 12 bits are one of 16 patterns", 1, |cx| {
            let hi = cx.choose(1 << 8) as u32;
            cx.note(|| format!("32-bit values with top byte {hi:#x}"));
            let lows = [0u32, 1, 0x7f, 0x80, 0xff, 0x100, 0x7fe, 0x7ff, 0x800, 0x801, 0xfff, 0xffe, 0x555, 0xaaa, 0xf00, 0x0f0];
            let it = (0..1u32 << 12).flat_map(move |m| lows.into_iter().map(move |l| hi << 24 | m << 12 | l));
            if hi % 4 == 0 {
                sweep(cx, it.clone());
            }
            sweep(cx, it.clone().map(|x| x as i32));
            if hi % 4 == 1 {
                sweep(cx, it.map(f32::from_bits));
            }
        }));
    }
    v
}
