//! Exact reference arithmetic for numbers: every finite number is `sign * mantissa * 2^exp`.

use kserd::Number;
use std::cmp::Ordering;

/// Exact mathematical meaning.
#[derive(Clone, Copy, Debug, PartialEq)]
pub enum X {
    NegInf,
    /// negative?, mantissa, exponent (mantissa odd, or zero with exponent 0)
    Fin(bool, u128, i32),
    PosInf,
    NaN,
}

fn fin(neg: bool, m: u128, e: i32) -> X {
    if m == 0 {
        return X::Fin(false, 0, 0);
    }
    let t = m.trailing_zeros();
    X::Fin(neg, m >> t, e + t as i32)
}

pub fn exact_f64(f: f64) -> X {
    let bits = f.to_bits();
    let neg = bits >> 63 == 1;
    let e = ((bits >> 52) & 0x7ff) as i32;
    let frac = bits & ((1u64 << 52) - 1);
    match e {
        0x7ff if frac != 0 => X::NaN,
        0x7ff if neg => X::NegInf,
        0x7ff => X::PosInf,
        0 => fin(neg, frac as u128, -1074),
        _ => fin(neg, (frac | 1 << 52) as u128, e - 1075),
    }
}

pub fn exact(n: &Number) -> X {
    match n {
        Number::Uint(u) => fin(false, *u, 0),
        Number::Int(i) => fin(*i < 0, i.unsigned_abs(), 0),
        Number::Float(f) => exact_f64(*f),
    }
}

/// Mathematical order, NaN greatest and equal to itself.
pub fn cmp_exact(a: X, b: X) -> Ordering {
    fn rank(x: &X) -> u8 {
        match x {
            X::NegInf => 0,
            X::Fin(..) => 1,
            X::PosInf => 2,
            X::NaN => 3,
        }
    }
    match (a, b) {
        (X::Fin(na, ma, ea), X::Fin(nb, mb, eb)) => {
            if ma == 0 && mb == 0 {
                return Ordering::Equal;
            }
            if ma == 0 {
                return if nb {
                    Ordering::Greater
                } else {
                    Ordering::Less
                };
            }
            if mb == 0 {
                return if na {
                    Ordering::Less
                } else {
                    Ordering::Greater
                };
            }
            if na != nb {
                return if na {
                    Ordering::Less
                } else {
                    Ordering::Greater
                };
            }
            // same sign: compare magnitudes; first by position of the top bit
            let ta = 128 - ma.leading_zeros() as i32 + ea;
            let tb = 128 - mb.leading_zeros() as i32 + eb;
            let mag = ta.cmp(&tb).then_with(|| {
                // align both to the top of a u128
                (ma << ma.leading_zeros()).cmp(&(mb << mb.leading_zeros()))
            });
            if na {
                mag.reverse()
            } else {
                mag
            }
        }
        _ => rank(&a).cmp(&rank(&b)),
    }
}

pub fn num_same(a: &Number, b: &Number) -> bool {
    cmp_exact(exact(a), exact(b)) == Ordering::Equal
}

pub fn show_num(n: &Number) -> String {
    match n {
        Number::Uint(u) => format!("{u}u"),
        Number::Int(i) => format!("{i}i"),
        Number::Float(f) => format!("{f:e}f"),
    }
}
