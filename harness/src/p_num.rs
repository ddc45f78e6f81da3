//! P12, P13, P14: numbers against exact arithmetic.

use crate::en::*;
use crate::engine::*;
use crate::model::*;
use crate::num::*;
use crate::p_fmt::round_trip;
use crate::{Check, Tier};
use kserd::ds::NumberType;
use kserd::parse::parse;
use kserd::{Kserd, Number, Value};
use std::cmp::Ordering;
use std::hash::{Hash, Hasher};

fn ints() -> Vec<u128> {
    let mut v: Vec<u128> = (0..=20).collect();
    for k in 4..128 {
        let p = 1u128 << k;
        v.extend([p - 2, p - 1, p, p + 1, p + 2, p + (p >> 1)]);
        if k > 53 {
            // around the rounding points of floats
            let u = 1u128 << (k - 53);
            v.extend([p + u, p + u - 1, p + u + 1, p - u, p - u / 2, p - u / 2 - 1, p - u / 2 + 1, p + 2 * u, p + 3 * u]);
        }
    }
    let mut d = 1u128;
    for _ in 0..38 {
        v.extend([d - 1, d, d + 1]);
        d *= 10;
    }
    v.extend([u128::MAX, u128::MAX - 1, u128::MAX - (1 << 74), u128::MAX - (1 << 75), u128::MAX - (1 << 75) + 1]);
    v.sort();
    v.dedup();
    v
}

fn floats() -> Vec<f64> {
    let mut v = vec![
        0.0, 0.1, 0.5, 0.75, 0.99, 1.5, 2.5, 1e-10, 9.999999999e-11, 1.0000000001e-10, 5e-11, 1e-9, 3.0 + 5e-11, 3.0 - 5e-11,
        3.0 + 1e-10, 3.0 - 1e-10, 3.0 + 1.1e-10, 1e15 + 0.5, 4503599627370496.5, 4503599627370495.5, 1e22, 1e23, 123456.789, f64::MIN_POSITIVE,
        f64::from_bits(1), f64::from_bits(2), f64::MAX, f64::EPSILON, f64::INFINITY, f64::NAN, 0.3, 1.0 / 3.0, 1e300, 1e-300,
        f64::from_bits(0x7ff0000000000001), f64::from_bits(0x7fffffffffffffff), f64::from_bits(0x000fffffffffffff),
    ];
    for e in -80..140 {
        let p = 2f64.powi(e);
        v.extend([p, f64::from_bits(p.to_bits() - 1), f64::from_bits(p.to_bits() + 1), p * 1.5]);
    }
    for i in 1..40 {
        let f = i as f64;
        v.extend([f, f + 0.5, f + 0.25, f + 9e-11, f - 9e-11, f + 1.1e-10, f - 1.1e-10]);
    }
    let neg: Vec<f64> = v.iter().map(|x| -x).collect();
    v.extend(neg);
    v.sort_by_key(|x| x.to_bits());
    v.dedup_by_key(|x| x.to_bits());
    v
}

fn numbers() -> Vec<Number> {
    let mut v = Vec::new();
    for i in ints() {
        v.push(Number::Uint(i));
        if i <= i128::MAX as u128 {
            v.push(Number::Int(i as i128));
        }
        if i <= 1 << 127 {
            v.push(Number::Int((i as i128).wrapping_neg()));
        }
    }
    v.extend(floats().into_iter().map(Number::Float));
    v
}

#[derive(Default)]
struct Rec(Vec<u8>);
impl Hasher for Rec {
    fn finish(&self) -> u64 {
        0
    }
    fn write(&mut self, b: &[u8]) {
        self.0.push(b.len() as u8);
        self.0.extend_from_slice(b)
    }
}
fn hashed(n: &Number) -> Vec<u8> {
    let mut h = Rec::default();
    n.hash(&mut h);
    h.0
}

fn num_pair(a: &Number, b: &Number, cx: &mut Ctx) -> Res {
    let want = cmp_exact(exact(a), exact(b));
    let fail = |what: String| {
        viol(
            format!("{} {}", show_num(a), show_num(b)),
            format!("{} against {}: exact order {want:?}, {what}", show_num(a), show_num(b)),
        )
    };
    let r = no_panic(|| (a.cmp(b), a.partial_cmp(b), a == b, a != b, a < b, a <= b, a > b, a >= b));
    cx.ops(8);
    match r {
        Err(p) => return fail(format!("but comparing panics: {p}")),
        Ok(r) => {
            let e = want == Ordering::Equal;
            let (l, g) = (want == Ordering::Less, want == Ordering::Greater);
            if r != (want, Some(want), e, !e, l, l || e, g, g || e) {
                return fail(format!("but cmp, partial_cmp, ==, !=, <, <=, >, >= give {r:?}"));
            }
        }
    }
    if want == Ordering::Equal && hashed(a) != hashed(b) {
        return fail("but the hashes differ".into());
    }
    cx.ops(2);
    cx.trace();
    cx.outcome(&[want as i8 as u8]);
    Ok(())
}

fn with_prim<T>(n: &Number, p: T, meant: &Number, cx: &mut Ctx) -> Res
where
    T: Copy + std::fmt::Debug,
    Number: PartialEq<T> + PartialOrd<T>,
{
    let want = cmp_exact(exact(n), exact(meant));
    let r = no_panic(|| (*n == p, *n != p, n.partial_cmp(&p), *n < p, *n > p, *n <= p, *n >= p));
    let e = want == Ordering::Equal;
    let (l, g) = (want == Ordering::Less, want == Ordering::Greater);
    cx.ops(7);
    match r {
        Ok(r) if r == (e, !e, Some(want), l, g, l || e, g || e) => {
            cx.trace();
            Ok(())
        }
        r => viol(
            format!("{} prim {p:?} {}", show_num(n), std::any::type_name::<T>()),
            format!(
                "{} against {p:?} of type {}: exact order {want:?}, but ==, !=, partial_cmp, <, >, <=, >= give {r:?}",
                show_num(n),
                std::any::type_name::<T>()
            ),
        ),
    }
}

/// What a 32-bit float means: the value of its shortest decimal spelling.
/// The shortest decimal of a single float as a double, or its exact value where that decimal would not
/// convert back.
pub fn f32_value(x: f32) -> f64 {
    let y: f64 = format!("{x:e}").parse().unwrap();
    if y as f32 == x {
        y
    } else {
        x as f64
    }
}

fn prims_of(n: &Number, u: u128, cx: &mut Ctx) -> Res {
    macro_rules! go {
        ($($t:ty),*) => {$(
            if let Ok(p) = <$t>::try_from(u) {
                with_prim(n, p, &Number::Uint(u), cx)?;
            }
        )*};
    }
    go!(u8, u16, u32, u64, u128, usize);
    macro_rules! goi {
        ($($t:ty),*) => {$(
            if let Ok(p) = <$t>::try_from(u) {
                with_prim(n, p, &Number::Uint(u), cx)?;
                with_prim(n, -p, &Number::Int(-(p as i128)), cx)?;
                with_prim(n, !p, &Number::Int(!(p as i128)), cx)?;
            }
        )*};
    }
    goi!(i8, i16, i32, i64, i128, isize);
    Ok(())
}

pub fn p12(tier: Tier) -> Check {
    let ns = numbers();
    let n = ns.len() as u64;
    let pairs = ns.clone();
    let mut v = vec![section(
        "pairs",
        format!("all pairs of {n} numbers of the three representations"),
        n * n,
        move |i, cx| {
            let (a, b) = (pairs[(i / n) as usize], pairs[(i % n) as usize]);
            cx.direct_states += 1;
            num_pair(&a, &b, cx)
        },
    )];
    // what matters for primitives: every primitive type against numbers around its limits
    let nums: Vec<Number> = {
        let mut w: Vec<Number> = Vec::new();
        for k in [0u32, 1, 7, 8, 15, 16, 24, 31, 32, 53, 63, 64, 127] {
            let p = 1u128 << k;
            for x in [p - 1, p, p + 1] {
                w.push(Number::Uint(x));
                w.push(Number::Int((x as i128).wrapping_neg()));
                w.push(Number::Float(x as f64));
                w.push(Number::Float(-(x as f64)));
                w.push(Number::Float(x as f64 + 0.5));
            }
        }
        w.extend([0.1, f32_value(0.1), 0.1f32 as f64, f64::INFINITY, f64::NEG_INFINITY, f64::NAN, -0.0].map(Number::Float));
        w
    };
    let us = ints();
    let fs = floats();
    let nn = nums.len() as u64;
    let (nu, nf) = (us.len() as u64, fs.len() as u64);
    v.push(section(
        "primitives",
        format!("{nn} numbers against {nu} integers in all 12 integer types and {nf} floats in both float types"),
        nn * (nu + nf),
        move |i, cx| {
            let a = nums[(i % nn) as usize];
            let j = i / nn;
            cx.direct_states += 1;
            if j < nu {
                prims_of(&a, us[j as usize], cx)
            } else {
                let f = fs[(j - nu) as usize];
                with_prim(&a, f, &Number::Float(f), cx)?;
                let g = f as f32;
                with_prim(&a, g, &Number::Float(f32_value(g)), cx)
            }
        },
    ));
    // dense neighbourhoods: floats around integers of every size, step by step
    let r = tier.pick(12i64, 40);
    v.push(section(
        "steps",
        format!("every float within {r} steps and every integer within {r} of each power of two, both signs, pairwise"),
        129 * (2 * r as u64 + 1).pow(2) * 2,
        move |i, cx| {
            let w = 2 * r as u64 + 1;
            let (neg, i) = (i % 2 == 1, i / 2);
            let (a, i) = ((i % w) as i64 - r, i / w);
            let (b, k) = ((i % w) as i64 - r, i / w);
            let f = f64::from_bits((2f64.powi(k as i32).to_bits() as i64 + a) as u64);
            let p = if k < 128 { Some(1u128 << k) } else { None };
            let x = match (p, b < 0) {
                (Some(p), true) => p.checked_sub(b.unsigned_abs() as u128),
                (Some(p), false) => p.checked_add(b as u128),
                (None, true) => Some(u128::MAX - (b.unsigned_abs() as u128 - 1)),
                (None, false) => None,
            };
            let Some(x) = x else { return Ok(()) };
            let f = Number::Float(if neg { -f } else { f });
            cx.direct_states += 1;
            if !neg {
                num_pair(&f, &Number::Uint(x), cx)?;
                num_pair(&Number::Uint(x), &f, cx)?;
            }
            if x <= i128::MAX as u128 {
                let y = Number::Int(if neg { -(x as i128) } else { x as i128 });
                num_pair(&f, &y, cx)?;
                num_pair(&y, &f, cx)?;
                num_pair(&y, &Number::Uint(x), cx)?;
                num_pair(&Number::Uint(x), &y, cx)?;
            }
            Ok(())
        },
    ));
    Check {
        sections: v,
        assumptions: vec!["laws over triples follow from agreement of every pair with the exact order, which is total"],
        rule: "every pair is compared by every comparison the crate offers and by exact arithmetic",
    }
}

// ---------------------------------------------------------------- P13

/// Exact distance of a finite float from the nearest integer, and that integer (if below 2^128).
fn nearest(f: f64) -> (X, Option<(bool, u128)>) {
    match exact_f64(f) {
        X::Fin(neg, m, e) if e >= 0 => {
            let i = if m == 0 {
                Some(0)
            } else if (e as u32) <= m.leading_zeros() {
                Some(m << e)
            } else {
                None
            };
            (X::Fin(false, 0, 0), i.map(|i| (neg, i)))
        }
        X::Fin(neg, m, e) => {
            if e < -100 {
                return (X::Fin(false, m, e), Some((neg, 0)));
            }
            let s = (-e) as u32;
            let (q, r) = (m >> s, m & ((1 << s) - 1));
            let half = 1u128 << (s - 1);
            if r >= half {
                (norm((1 << s) - r, e), Some((neg, q + 1)))
            } else {
                (norm(r, e), Some((neg, q)))
            }
        }
        _ => unreachable!(),
    }
}

fn norm(m: u128, e: i32) -> X {
    if m == 0 {
        return X::Fin(false, 0, 0);
    }
    let t = m.trailing_zeros();
    X::Fin(false, m >> t, e + t as i32)
}

/// The nearest float of an integer, ties to even.
fn to_float(neg: bool, u: u128) -> f64 {
    if u == 0 {
        return 0.0;
    }
    let bits = 128 - u.leading_zeros();
    let (mut m, mut e) = (u, 0);
    if bits > 53 {
        let s = bits - 53;
        let (q, r) = (u >> s, u & ((1u128 << s) - 1));
        let half = 1u128 << (s - 1);
        m = q + u128::from(r > half || (r == half && q & 1 == 1));
        e = s as i32;
    }
    let f = m as u64 as f64 * 2f64.powi(e);
    if neg {
        -f
    } else {
        f
    }
}

fn convert(n: &Number, cx: &mut Ctx) -> Res {
    let fail = |what: String| viol(format!("convert {}", show_num(n)), format!("{}: {what}", show_num(n)));
    let r = no_panic(|| (n.as_u128().ok(), n.as_i128().ok(), n.as_f64()));
    cx.ops(3);
    let (u, i, f) = match r {
        Ok(x) => x,
        Err(p) => return fail(format!("conversion panics: {p}")),
    };
    // the integer it denotes, and whether refusing it is allowed as well
    let (int, either) = match n {
        Number::Uint(x) => (Some((false, *x)), false),
        Number::Int(x) => (Some((*x < 0, x.unsigned_abs())), false),
        Number::Float(x) if !x.is_finite() => (None, false),
        Number::Float(x) => {
            let (d, i) = nearest(*x);
            match cmp_exact(d, exact_f64(1e-10)) {
                Ordering::Less => (i, *x < 0.0 && matches!(i, Some((_, 0)))),
                Ordering::Equal => (i, true),
                Ordering::Greater => (None, false),
            }
        }
    };
    let wu = int.filter(|x| !x.0 || x.1 == 0).map(|x| x.1);
    let wi = int.and_then(|(neg, x)| {
        if neg && x <= 1 << 127 {
            Some((x as i128).wrapping_neg())
        } else {
            i128::try_from(x).ok().filter(|_| !neg)
        }
    });
    if u != wu && !(either && u.is_none()) {
        return fail(format!("as unsigned gives {u:?}, should be {wu:?}"));
    }
    if i != wi && !(either && i.is_none()) {
        return fail(format!("as signed gives {i:?}, should be {wi:?}"));
    }
    let wf = match n {
        Number::Uint(x) => to_float(false, *x),
        Number::Int(x) => to_float(*x < 0, x.unsigned_abs()),
        Number::Float(x) => *x,
    };
    if f.to_bits() != wf.to_bits() && !(f.is_nan() && wf.is_nan()) {
        return fail(format!("as float gives {f:e}, should be {wf:e}"));
    }
    cx.trace();
    cx.outcome(format!("{} {}", u.is_some(), i.is_some()).as_bytes());
    // the same conversions through a value
    let k = Kserd::new(Value::Num(*n));
    cx.ops(3);
    if k.uint() != u || k.int() != i {
        return fail(format!("value accessors give {:?} and {:?}", k.uint(), k.int()));
    }
    match k.float() {
        Some(g) if g.to_bits() == f.to_bits() => Ok(()),
        g => fail(format!("value accessor gives {g:?} as float")),
    }
}

fn made<T: NumberType + Copy + std::fmt::Debug>(x: T, name: &str, want: Number, cx: &mut Ctx) -> Res {
    let key = format!("{x:?} {name}");
    let n: Number = x.into();
    cx.ops(3);
    let same_form = std::mem::discriminant(&n) == std::mem::discriminant(&want);
    if cmp_exact(exact(&n), exact(&want)) != Ordering::Equal || !same_form {
        return viol(key, format!("{x:?} of type {name} becomes {}", show_num(&n)));
    }
    if x.identity() != name {
        return viol(key, format!("identity of type {name} is {:?}", x.identity()));
    }
    let k = Kserd::new_num(x);
    match (&k.val, k.id()) {
        (Value::Num(m), Some(id)) if id == name && num_same(m, &want) => (),
        _ => return viol(key, format!("new_num({x:?}) of type {name} is {}", show(&k))),
    }
    cx.trace();
    Ok(())
}

fn made_ints(u: u128, cx: &mut Ctx) -> Res {
    macro_rules! go {
        ($($t:ty),*) => {$( made(u as $t, stringify!($t), Number::Uint((u as $t).into_u128()), cx)?; )*};
    }
    trait Up {
        fn into_u128(self) -> u128;
    }
    macro_rules! up { ($($t:ty),*) => {$( impl Up for $t { fn into_u128(self) -> u128 { u128::try_from(self).unwrap() } } )*} }
    up!(u8, u16, u32, u64, u128, usize);
    go!(u8, u16, u32, u64, u128, usize);
    trait Upi {
        fn into_i128(self) -> i128;
    }
    macro_rules! upi { ($($t:ty),*) => {$( impl Upi for $t { fn into_i128(self) -> i128 { i128::try_from(self).unwrap() } } )*} }
    upi!(i8, i16, i32, i64, i128, isize);
    macro_rules! goi {
        ($($t:ty),*) => {$( made(u as $t, stringify!($t), Number::Int((u as $t).into_i128()), cx)?; )*};
    }
    goi!(i8, i16, i32, i64, i128, isize);
    Ok(())
}

fn made_f32(x: f32, cx: &mut Ctx) -> Res {
    cx.op();
    let n = Number::from(x);
    let Number::Float(y) = n else {
        return viol(format!("{x:e}f32"), format!("{x:e} becomes {}", show_num(&n)));
    };
    let ok = if x.is_nan() {
        y.is_nan()
    } else {
        y as f32 == x && y.is_sign_negative() == x.is_sign_negative() && (x.is_infinite() || y == f32_value(x))
    };
    if !ok {
        return viol(format!("{:08x}f32", x.to_bits()), format!("{x:e} becomes {y:e}"));
    }
    cx.trace();
    Ok(())
}

/// Floats by exponent and mantissa family.
fn float_grid(i: u64, wide: u64) -> f64 {
    let (neg, i) = (i % 2, i / 2);
    let (e, j) = (i % 2048, i / 2048);
    let m = if j < 53 {
        if j == 52 {
            0
        } else {
            1u64 << j
        }
    } else if j < 106 {
        (1u64 << 52) - 1 - if j == 105 { 0 } else { 1u64 << (j - 53) }
    } else {
        // spread evenly
        (j - 106) * ((1u64 << 52) / wide)
    };
    f64::from_bits(neg << 63 | e << 52 | (m & ((1 << 52) - 1)))
}

pub fn p13(tier: Tier) -> Check {
    let ns = numbers();
    let us = ints();
    let (n, nu) = (ns.len() as u64, us.len() as u64);
    let wide = tier.pick(64, 2048);
    let grid = 2 * 2048 * (106 + wide);
    let r = tier.pick(200i64, 2000);
    let v = vec![
        section("numbers", format!("{n} numbers around the limits of every representation"), n, move |i, cx| {
            cx.direct_states += 1;
            convert(&ns[i as usize], cx)
        }),
        section(
            "grid",
            format!("floats of both signs, every exponent and {} mantissas", 106 + wide),
            grid,
            move |i, cx| {
                let f = float_grid(i, wide);
                cx.state_hash(mix(f.to_bits()));
                convert(&Number::Float(f), cx)
            },
        ),
        section(
            "near",
            format!("every float within {r} steps of each integer multiple of 1e-10 up to 30 around 0..20 and of each power of two"),
            (21 * 61 + 128) * (2 * r as u64 + 1) * 2,
            move |i, cx| {
                let w = 2 * r as u64 + 1;
                let (neg, i) = (i % 2 == 1, i / 2);
                let (s, c) = ((i % w) as i64 - r, i / w);
                let c = if c < 21 * 61 {
                    (c / 61) as f64 + (c % 61) as f64 * 1e-10 - 30e-10
                } else {
                    2f64.powi((c - 21 * 61) as i32)
                };
                let f = f64::from_bits((c.abs().to_bits() as i64 + s).unsigned_abs());
                let f = if neg { -f } else { f };
                cx.state_hash(mix(f.to_bits()));
                convert(&Number::Float(f), cx)
            },
        ),
        section("integers", "every 16-bit pattern in all 12 integer types", 65536, |i, cx| {
            cx.direct_states += 1;
            made_ints(i as u128, cx)?;
            made_ints((i as i16) as i128 as u128, cx)
        }),
        section("wide-integers", format!("{nu} boundary integers and their negations, cut to all 12 integer types"), nu, move |i, cx| {
            cx.direct_states += 1;
            made_ints(us[i as usize], cx)?;
            made_ints(us[i as usize].wrapping_neg(), cx)
        }),
        section("doubles", "floats of every exponent as primitives", grid, move |i, cx| {
            let f = float_grid(i, wide);
            made(f, "f64", Number::Float(f), cx)?;
            let g = f as f32;
            made(g, "f32", Number::Float(if g.is_finite() { f32_value(g) } else { g as f64 }), cx)
        }),
        section(
            "singles",
            tier.pick("every 32-bit float pattern with 8 mantissa bits varied at the top and 8 at the bottom, and 512 patterns around each of two floats whose shortest decimal does not convert back", "every 32-bit float"),
            tier.pick(512 * 65536 + 1024, 1 << 32),
            move |i, cx| {
                let b = if tier == Tier::Thorough {
                    i as u32
                } else if i >> 25 == 1 {
                    let i = i as u32 & 1023;
                    (0x15ae43fd - 256 + i % 512) | (i / 512) << 31
                } else {
                    // sign and exponent, top 8 bits and bottom 8 bits of the mantissa
                    let (se, m) = ((i >> 16) as u32, (i & 0xffff) as u32);
                    se << 23 | (m >> 8) << 15 | (m & 0xff)
                };
                cx.direct_states += 1;
                made_f32(f32::from_bits(b), cx)
            },
        ),
    ];
    Check {
        sections: v,
        assumptions: vec!["a float at exactly 1e-10 from an integer, or negative and within 1e-10 of zero, may be refused or converted"],
        rule: "every conversion is compared with exact arithmetic on sign, mantissa and exponent",
    }
}

// ---------------------------------------------------------------- P14

fn number_text(n: &Number, cx: &mut Ctx) -> Res {
    let t = n.to_string();
    cx.ops(2);
    match no_panic(|| t.parse::<Number>().ok()) {
        Ok(Some(m)) if num_same(&m, n) => (),
        r => return viol(format!("text {}", show_num(n)), format!("{} is written as {t:?}, read back as {r:?}", show_num(n))),
    }
    cx.state(t.as_bytes());
    cx.trace();
    cx.sample(|| format!("{} <-> {t}", show_num(n)));
    round_trip(&Kserd::new(Value::Num(*n)), [configs_ids(31, None)].into_iter(), true, cx)
}

/// What a numeric text denotes: `None` = nothing; the flag tells that refusing it is allowed too.
fn numeric(s: &str) -> (Option<Number>, bool) {
    let d = s.strip_prefix('-').unwrap_or(s);
    if !d.is_empty() && d.bytes().all(|b| b.is_ascii_digit() || b == b'_') {
        let plain: String = s.chars().filter(|c| *c != '_').collect();
        let inner = d.split('_').all(|p| !p.is_empty());
        let v = crate::refparse::number(&plain);
        return (v, !inner);
    }
    (s.parse::<f64>().ok().map(Number::Float), false)
}

fn read_text(s: &str, cx: &mut Ctx) -> Res {
    let (want, either) = numeric(s);
    let got = no_panic(|| s.parse::<Number>().ok());
    cx.op();
    let ok = match (&want, &got) {
        (_, Err(_)) => false,
        (None, Ok(g)) => g.is_none(),
        (Some(w), Ok(Some(g))) => num_same(w, g),
        (Some(_), Ok(None)) => either,
    };
    if !ok {
        return viol(
            format!("read {s:?}"),
            format!("{s:?} denotes {:?}, is read as {:?}", want.map(|w| show_num(&w)), got.map(|g| g.map(|g| show_num(&g)))),
        );
    }
    cx.trace();
    if let Ok(Some(g)) = got {
        cx.outcome(show_num(&g).as_bytes());
        cx.sample(|| format!("{s:?} -> {}", show_num(&g)));
    }
    Ok(())
}

const NCHARS: &[&str] = &["1", "0", "9", "-", ".", "e", "_", "+", "E", "i", "n", "f", "N", "a", " "];

pub fn p14(tier: Tier) -> Check {
    let ns = numbers();
    let n = ns.len() as u64;
    let wide = tier.pick(40, 1024);
    let grid = 2 * 2048 * (106 + wide);
    let len = tier.pick(6, 8);
    let v = vec![
        section("numbers", format!("{n} numbers around the limits of every representation"), n, move |i, cx| {
            number_text(&ns[i as usize], cx)
        }),
        section(
            "grid",
            format!("floats of both signs, every exponent and {} mantissas", 106 + wide),
            grid,
            move |i, cx| number_text(&Number::Float(float_grid(i, wide)), cx),
        ),
        section("small-integers", "all integers -70000..=70000 in every representation that holds them", 140001, |i, cx| {
            let x = i as i128 - 70000;
            number_text(&Number::Int(x), cx)?;
            number_text(&Number::Float(x as f64), cx)?;
            if x >= 0 {
                number_text(&Number::Uint(x as u128), cx)?;
            }
            Ok(())
        }),
        section("fractions", "all decimal fractions k/1000 and k*1000 with |k| <= 100000", 200001, |i, cx| {
            let x = i as f64 - 100000.0;
            number_text(&Number::Float(x / 1000.0), cx)?;
            number_text(&Number::Float(x * 1e3), cx)
        }),
        section(
            "texts",
            format!("all texts of 0..={len} characters over {} characters", NCHARS.len()),
            strings_count(NCHARS.len() as u64, 0, len),
            move |i, cx| {
                let s: String = nth_string(i, NCHARS.len() as u64, 0, len).iter().map(|&d| NCHARS[d]).collect();
                cx.direct_states += 1;
                read_text(&s, cx)
            },
        ),
        section(
            "long-digits",
            "decimal integers of 1..=45 digits: every first digit, every repeated digit, every last digit, both signs, with and without underscores",
            45 * 10 * 10 * 10 * 4,
            |i, cx| {
                let (sign, i) = (["", "-"][(i % 2) as usize], i / 2);
                let (us, i) = (i % 2 == 1, i / 2);
                let d = digits(i % 1000, 10, 3);
                let n = (i / 1000) as usize + 1;
                let mut s = String::from(sign);
                for k in 0..n {
                    let x = if k == 0 { d[0] } else if k + 1 == n { d[2] } else { d[1] };
                    if us && k > 0 && (n - k) % 3 == 0 {
                        s.push('_');
                    }
                    s.push((b'0' + x as u8) as char);
                }
                cx.state(s.as_bytes());
                read_text(&s, cx)
            },
        ),
        section(
            "limits",
            "every integer within 300 of the limits of the integer representations, as text, both signs",
            601 * 2 * 3,
            |i, cx| {
                let (sign, i) = (["", "-"][(i % 2) as usize], i / 2);
                let d = i % 601;
                // arithmetic on decimal strings, beyond 128 bits
                let base = [u128::MAX - 300, (1 << 127) - 300, (1 << 64) - 300][(i / 601) as usize];
                let t = match base.checked_add(d as u128) {
                    Some(x) => x.to_string(),
                    None => {
                        let over = base.wrapping_add(d as u128);
                        // 2^128 = 340282366920938463463374607431768211456
                        let head = "340282366920938463463374607431768";
                        format!("{head}{}", 211456 + over)
                    }
                };
                let s = format!("{sign}{t}");
                cx.state(s.as_bytes());
                read_text(&s, cx)
            },
        ),
        section(
            "exponents",
            "decimal forms: 40 mantissas x every exponent -345..=320 x 3 spellings x both signs, and parsed as a whole text",
            40 * 666 * 3 * 2,
            |i, cx| {
                const M: [&str; 40] = [
                    "0", "1", "2", "5", "9", "17", "22250738585072014", "22250738585072011", "17976931348623157", "17976931348623159", "179769313486231580793",
                    "4940656458412465", "24703282292062327", "24703282292062328", "9007199254740993", "9007199254740992", "9007199254740991", "18014398509481985",
                    "123456789012345678901234567890", "99999999999999999999", "10000000000000000000000", "00001", "340282366920938463463374607431768211456",
                    "8", "3", "7", "1000", "1001", "33", "66", "55511151231257827", "555111512312578270211815834045410156250", "1234567", "7205759403792793", "7205759403792794",
                    "11111111111111111111", "65536", "4294967297", "6", "4",
                ];
                let (sign, i) = (["", "-"][(i % 2) as usize], i / 2);
                let (sp, i) = (i % 3, i / 3);
                let (e, mt) = ((i % 666) as i64 - 345, M[(i / 666) as usize]);
                let s = match sp {
                    0 => format!("{sign}{mt}e{e}"),
                    1 => format!("{sign}{}.{}e{e}", &mt[..1], &mt[1..]),
                    _ => format!("{sign}.{mt}e{e}"),
                };
                cx.state(s.as_bytes());
                read_text(&s, cx)?;
                let want = numeric(&s).0;
                let got = parse(&s).ok().map(|k| k.val);
                cx.op();
                match (want, got) {
                    (Some(w), Some(Value::Num(g))) if num_same(&w, &g) => Ok(()),
                    (None, None) => Ok(()),
                    (w, g) => viol(format!("parse {s:?}"), format!("{s:?} denotes {w:?}, parsed as {g:?}")),
                }
            },
        ),
    ];
    Check {
        sections: v,
        assumptions: vec![
            "the standard library's float parser is taken as the definition of the nearest float",
            "underscores that are not between digits may be refused",
        ],
        rule: "every number of each family is written and read back; every text of each family is read and compared with what it denotes",
    }
}
