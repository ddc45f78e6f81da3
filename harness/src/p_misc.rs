//! P23 direct conversion, P24 cost.

use crate::en::*;
use crate::engine::*;
use crate::model::*;
use crate::{Check, Tier};
use kserd::parse::parse;
use kserd::{Kserd, Number, ToKserd, ToKserdErr, Value};

// ------------------------------------------------------------------------------------- P23

/// A Rust value of any supported type. Converting it goes through the implementation for the real
/// type at every level: `Vec<X>`, `[X; N]`, tuples, `Option<X>`, `Result<X, X>`, `Box<X>`.
#[derive(Clone, Debug)]
enum X {
    Unit,
    Bool(bool),
    Char(char),
    Str(&'static str),
    String(&'static str),
    U8(u8),
    U16(u16),
    U32(u32),
    U64(u64),
    U128(u128),
    Usize(usize),
    I8(i8),
    I16(i16),
    I32(i32),
    I64(i64),
    I128(i128),
    Isize(isize),
    F32(f32),
    F64(f64),
    /// a value that is a `Kserd` already
    Raw(u8),
    /// a type whose conversion fails
    Bad(u8),
    Vec(Vec<X>),
    Arr(Vec<X>),
    Tup(Vec<X>),
    Some(Box<X>),
    None,
    Ok(Box<X>),
    Err(Box<X>),
    Boxed(Box<X>),
}

const BAD: [&str; 2] = [".", "a b"];

fn raw(i: u8) -> M {
    match i {
        0 => m(V::Unit).id("Raw"),
        1 => m(V::Seq(vec![uint(1).id("x"), st("y").no_id()])),
        _ => m(V::Cntr(vec![("a".into(), m(V::Tuple(vec![])).id("None"))])).id("C"),
    }
}

macro_rules! array_of {
    ($v:ident: $($n:literal)*) => {
        match $v.len() {
            $( $n => <[X; $n]>::try_from($v).unwrap().into_kserd(), )*
            _ => unreachable!(),
        }
    };
}

macro_rules! tuple_of {
    ($v:ident: $($n:literal => ($($e:tt)*);)*) => {{
        let n = $v.len();
        let mut it = $v.into_iter();
        let mut x = || it.next().unwrap();
        match n {
            $( $n => ($(tuple_of!(@ $e x),)*).into_kserd(), )*
            _ => unreachable!(),
        }
    }};
    (@ $e:tt $x:ident) => { $x() };
}

impl ToKserd<'static> for X {
    fn into_kserd(self) -> Result<Kserd<'static>, ToKserdErr> {
        match self {
            X::Unit => ().into_kserd(),
            X::Bool(x) => x.into_kserd(),
            X::Char(x) => x.into_kserd(),
            X::Str(x) => x.into_kserd(),
            X::String(x) => x.to_string().into_kserd(),
            X::U8(x) => x.into_kserd(),
            X::U16(x) => x.into_kserd(),
            X::U32(x) => x.into_kserd(),
            X::U64(x) => x.into_kserd(),
            X::U128(x) => x.into_kserd(),
            X::Usize(x) => x.into_kserd(),
            X::I8(x) => x.into_kserd(),
            X::I16(x) => x.into_kserd(),
            X::I32(x) => x.into_kserd(),
            X::I64(x) => x.into_kserd(),
            X::I128(x) => x.into_kserd(),
            X::Isize(x) => x.into_kserd(),
            X::F32(x) => x.into_kserd(),
            X::F64(x) => x.into_kserd(),
            X::Raw(i) => raw(i).build().into_kserd(),
            X::Bad(i) => Ok(Kserd::with_id(BAD[i as usize], Value::Unit)?),
            X::Vec(v) => v.into_kserd(),
            X::Arr(v) => array_of!(v: 1 2 3 4 5 6 7 8 9 10 11 12 13 14 15 16 17 18 19 20 21 22 23 24 25 26 27 28 29 30 31 32),
            X::Tup(v) => tuple_of!(v:
                1 => (a); 2 => (a a); 3 => (a a a); 4 => (a a a a); 5 => (a a a a a); 6 => (a a a a a a);
                7 => (a a a a a a a); 8 => (a a a a a a a a); 9 => (a a a a a a a a a); 10 => (a a a a a a a a a a);
                11 => (a a a a a a a a a a a); 12 => (a a a a a a a a a a a a);
            ),
            X::Some(x) => Some(*x).into_kserd(),
            X::None => None::<X>.into_kserd(),
            X::Ok(x) => Ok::<X, X>(*x).into_kserd(),
            X::Err(x) => Err::<X, X>(*x).into_kserd(),
            X::Boxed(x) => x.into_kserd(),
        }
    }
}

/// The value a Rust value denotes, or the first failing conversion in order.
fn denotes(x: &X) -> Result<M, u8> {
    let u = |n: u128, t: &str| Ok(m(V::Num(Number::Uint(n))).id(t));
    let i = |n: i128, t: &str| Ok(m(V::Num(Number::Int(n))).id(t));
    let each = |v: &[X]| v.iter().map(denotes).collect::<Result<Vec<M>, u8>>();
    match x {
        X::Unit => Ok(m(V::Unit)),
        X::Bool(b) => Ok(m(V::Bool(*b)).id("bool")),
        X::Char(c) => Ok(st(&c.to_string()).id("char")),
        X::Str(s) => Ok(st(s).id("str")),
        X::String(s) => Ok(st(s).id("String")),
        X::U8(n) => u(*n as u128, "u8"),
        X::U16(n) => u(*n as u128, "u16"),
        X::U32(n) => u(*n as u128, "u32"),
        X::U64(n) => u(*n as u128, "u64"),
        X::U128(n) => u(*n, "u128"),
        X::Usize(n) => u(*n as u128, "usize"),
        X::I8(n) => i(*n as i128, "i8"),
        X::I16(n) => i(*n as i128, "i16"),
        X::I32(n) => i(*n as i128, "i32"),
        X::I64(n) => i(*n as i128, "i64"),
        X::I128(n) => i(*n, "i128"),
        X::Isize(n) => i(*n as i128, "isize"),
        X::F32(f) => Ok(flt(crate::p_num::f32_value(*f)).id("f32")),
        X::F64(f) => Ok(flt(*f).id("f64")),
        X::Raw(i) => Ok(raw(*i)),
        X::Bad(i) => Err(*i),
        X::Vec(v) => Ok(m(V::Seq(each(v)?)).id("Vec")),
        X::Arr(v) => Ok(m(V::Seq(each(v)?)).id("array")),
        X::Tup(v) => Ok(m(V::Tuple(each(v)?))),
        X::Some(x) | X::Boxed(x) => denotes(x),
        X::None => Ok(m(V::Tuple(vec![])).id("None")),
        X::Ok(x) => Ok(m(V::Tuple(vec![denotes(x)?])).id("Ok")),
        X::Err(x) => Ok(m(V::Tuple(vec![denotes(x)?])).id("Err")),
    }
}

fn converts(x: &X, cx: &mut Ctx) -> Res {
    cx.op();
    let got = x.clone().into_kserd();
    match (got, denotes(x)) {
        (Ok(k), Ok(w)) => {
            let w = w.build();
            if show(&k) != show(&w) {
                return viol(format!("{x:?}"), format!("the conversion gives {}\n instead of {}\n value: {x:?}", show(&k), show(&w)));
            }
            cx.state(show(&k).as_bytes());
            cx.outcome(&[kind(&k.val) as u8, k.id.as_ref().map_or(0, |s| s.len() as u8)]);
        }
        (Err(e), Err(b)) => {
            let w: ToKserdErr = Kserd::with_id(BAD[b as usize], Value::Unit).unwrap_err().into();
            if e != w || e.to_string() != w.to_string() {
                return viol(format!("{x:?}"), format!("the error is {e:?} instead of {w:?}\n value: {x:?}"));
            }
            cx.outcome(&[255, b]);
        }
        (got, want) => {
            return viol(format!("{x:?}"), format!("the conversion gives {got:?}\n instead of {want:?}\n value: {x:?}"));
        }
    }
    cx.trace();
    cx.sample(|| format!("{x:?}"));
    Ok(())
}

fn x_leaves() -> Vec<X> {
    macro_rules! num {
        ($($v:ident $t:ty),*) => { vec![$( X::$v(0), X::$v(1), X::$v(<$t>::MAX), X::$v(<$t>::MIN), X::$v(<$t>::MAX / 2 + 1), )*] };
    }
    let mut l = num!(U8 u8, U16 u16, U32 u32, U64 u64, U128 u128, Usize usize, I8 i8, I16 i16, I32 i32, I64 i64, I128 i128, Isize isize);
    for f in [0.0, -0.0, 0.1, 1.5, f32::MAX, f32::MIN_POSITIVE, 16777217.0, f32::INFINITY, f32::NEG_INFINITY, f32::NAN] {
        l.push(X::F32(f));
        l.push(X::F64(f as f64));
    }
    l.extend([X::F64(0.1), X::F64(f64::MAX), X::F64(5e-324), X::F64(9007199254740993.0)]);
    for s in ["", "a", "None", "é\n\"'", "Vec", "()"] {
        l.push(X::Str(s));
        l.push(X::String(s));
    }
    for c in ['a', '"', '\n', '\0', 'é', '\u{10FFFF}', ' '] {
        l.push(X::Char(c));
    }
    l.extend([X::Unit, X::Bool(true), X::Bool(false), X::None, X::Raw(0), X::Raw(1), X::Raw(2), X::Bad(0), X::Vec(vec![])]);
    l
}

fn xs(leaves: Vec<X>, n: usize) -> E<X> {
    let mut t: Vec<E<X>> = vec![E::empty()];
    let mut f: Vec<E<Vec<X>>> = vec![list(vec![vec![]])];
    for k in 1..=n {
        let mut parts = Vec::new();
        if k == 1 {
            parts.push(list(leaves.clone()));
        } else {
            parts.push(f[k - 1].map(X::Vec));
            parts.push(f[k - 1].map(X::Arr));
            parts.push(f[k - 1].map(X::Tup));
            let c = &t[k - 1];
            parts.push(c.map(|x| X::Some(Box::new(x))));
            parts.push(c.map(|x| X::Ok(Box::new(x))));
            parts.push(c.map(|x| X::Err(Box::new(x))));
            parts.push(c.map(|x| X::Boxed(Box::new(x))));
        }
        t.push(sum(parts));
        let mut fk = Vec::new();
        for j in 1..=k {
            fk.push(t[j].prod(&f[k - j]).map(|(a, mut r)| {
                r.insert(0, a);
                r
            }));
        }
        f.push(sum(fk));
    }
    sum(t)
}

pub fn p23(t: Tier) -> Check {
    let rich = xs(x_leaves(), 3);
    let small = || vec![X::U8(7), X::Str("s"), X::Unit, X::None, X::Bad(0), X::Bad(1), X::Vec(vec![]), X::Raw(1)];
    let deep = xs(small(), t.pick(6, 7));
    // every length of tuple and array x the member kind at each place
    let lens: Vec<(bool, usize)> = (1..=12).map(|n| (true, n)).chain((1..=32).map(|n| (false, n))).collect();
    let nl = lens.len() as u64;
    let chars = 0x110000u64;
    Check {
        sections: vec![
            section("leaves", "every value of up to 3 nodes over all supported primitive types", rich.count, move |i, cx| {
                converts(&rich.get(i), cx)
            }),
            section(
                "lengths",
                "every length of tuple (12) and array (32) x every element x every place, numbered elements elsewhere",
                nl * 32 * x_leaves().len() as u64,
                {
                    let leaves = x_leaves();
                    move |i, cx| {
                        let (tup, n) = lens[(i % nl) as usize];
                        let p = (i / nl % 32) as usize;
                        if p >= n {
                            return Ok(());
                        }
                        let mut v: Vec<X> = (0..n).map(|i| X::U8(i as u8)).collect();
                        v[p] = leaves[(i / nl / 32) as usize].clone();
                        converts(&if tup { X::Tup(v) } else { X::Arr(v) }, cx)
                    }
                },
            ),
            section("characters", "every Unicode scalar as a char", chars, move |i, cx| match char::from_u32(i as u32) {
                Some(c) => converts(&X::Char(c), cx),
                None => Ok(()),
            }),
            section(
                "nested",
                format!("every value of up to {} nodes over 8 leaves, two of them failing", t.pick(6, 7)),
                deep.count,
                move |i, cx| converts(&deep.get(i), cx),
            ),
        ],
        assumptions: vec!["types are the ones the crate implements the conversion for; the derive macro is another crate"],
        rule: "the value converted is compared with a model tree, node by node with identities",
    }
}

// ------------------------------------------------------------------------------------- P24

/// Seconds of processor time of this thread.
fn cpu() -> f64 {
    let mut t = libc::timespec { tv_sec: 0, tv_nsec: 0 };
    // SAFETY: t is a valid timespec
    unsafe { libc::clock_gettime(libc::CLOCK_THREAD_CPUTIME_ID, &mut t) };
    t.tv_sec as f64 + t.tv_nsec as f64 * 1e-9
}

/// No text of a few hundred characters takes this long unless the work is not polynomial.
const LIMIT: f64 = 1.0;

fn timed<T>(key: impl Fn() -> String, cx: &mut Ctx, f: impl FnOnce() -> T) -> Result<T, Viol> {
    let t0 = cpu();
    let r = f();
    let dt = cpu() - t0;
    cx.op();
    if dt > LIMIT {
        return viol(key(), format!("takes {dt:.1} s of processor time: {}", key()));
    }
    Ok(r)
}

const TOKENS: [&str; 22] = [
    "(", ")", "[", "]", "{", "}", ",", ":", "=", " ", "\n", "    ", "a", "1", "\"", "a = ", "[a]", "[[a]]", "1: ", "(a = ", "b91\"", "str\"",
];

/// Texts made of a start, a repeated unit and an ending; repetitions grow so that an explosion shows
/// at the smallest size where it exceeds the limit.
fn repeated(start: &str, unit: &str, mid: &str, close: &str, reps: &[usize], cx: &mut Ctx) -> Res {
    for &n in reps {
        let mut s = String::from(start);
        for _ in 0..n {
            s.push_str(unit);
        }
        s.push_str(mid);
        for _ in 0..n {
            s.push_str(close);
        }
        cx.state(s.as_bytes());
        let ok = timed(
            || format!("parsing {start:?} + {unit:?} x {n} + {mid:?} + {close:?} x {n}"),
            cx,
            || match parse(&s) {
                Ok(k) => {
                    drop(k);
                    true
                }
                Err(e) => e.backtrace().is_empty(),
            },
        )?;
        cx.outcome(&[ok as u8, (n & 255) as u8]);
        cx.trace();
    }
    Ok(())
}

const STARTS: [&str; 6] = ["", "(", "a = ", "[", "x\n", "{"];
const MIDS: [&str; 5] = ["", "1", "a", "\"s\"", "\n"];

pub fn p24(t: Tier) -> Check {
    let k = TOKENS.len() as u64;
    let max = t.pick(3, 4);
    let units = strings_count(k, 1, max);
    let (ns, nm) = (STARTS.len() as u64, MIDS.len() as u64);
    let reps: &[usize] = &[6, 12, 18, 24, 30];
    let text = move |i: u64| -> String { nth_string(i, k, 1, max).into_iter().map(|c| TOKENS[c as usize]).collect() };
    // the closing unit that mirrors an opening one
    let mirror = |u: &str| -> String {
        u.chars()
            .rev()
            .filter_map(|c| match c {
                '(' => Some(')'),
                '[' => Some(']'),
                '{' => Some('}'),
                '"' => Some('"'),
                _ => None,
            })
            .collect()
    };
    let close_n = strings_count(k, 1, 1);
    let wraps: u64 = 15;
    let per = t.pick(3, 4);
    let wn = strings_count(wraps, 1, per);
    let depths: &[usize] = &[8, 16, 24, 32];
    Check {
        sections: vec![
            section(
                "nested",
                format!("every unit of up to {max} of {k} tokens, repeated and closed by its mirror image, {nm} contents, {ns} starts"),
                units * nm * ns,
                move |i, cx| {
                    let u = text(i / nm / ns);
                    repeated(STARTS[(i % ns) as usize], &u, MIDS[(i / ns % nm) as usize], &mirror(&u), reps, cx)
                },
            ),
            section(
                "closers",
                format!("every unit of up to {max} tokens repeated, closed by every repeated token or by nothing, 2 starts"),
                units * (close_n + 1) * 2,
                move |i, cx| {
                    let c = i / 2 % (close_n + 1);
                    let c = if c == close_n { "" } else { TOKENS[c as usize] };
                    repeated(STARTS[(i % 2) as usize], &text(i / 2 / (close_n + 1)), "1", c, reps, cx)
                },
            ),
            section("long", format!("every unit of up to {max} tokens repeated 1000 times"), units * 2, move |i, cx| {
                let u = text(i / 2);
                // unclosed openings nest: their depth is bounded by the section above
                if u.contains(['(', '[', '{']) {
                    return Ok(());
                }
                repeated(["", "["][(i % 2) as usize], &u, "", "", &[1000], cx)
            }),
            section(
                "lines",
                "every document line form repeated at growing indentation, 30 levels",
                (11u64).pow(3),
                move |i, cx| {
                    const L: [&str; 11] = ["a = 1", "[a]", "[[a]]", "[a: 1]", "[[a]]: 1", "a = [", "a = (", "1", "x", "", "a = \"s\""];
                    let l = [L[(i % 11) as usize], L[(i / 11 % 11) as usize], L[(i / 121) as usize]];
                    for n in [6, 12, 18, 24, 30] {
                        let mut s = String::new();
                        for d in 0..n {
                            s.push_str(&"    ".repeat(d));
                            s.push_str(l[d % 3]);
                            s.push('\n');
                        }
                        cx.state(s.as_bytes());
                        timed(|| format!("parsing {l:?} indented {n} levels"), cx, || parse(&s).is_ok())?;
                        cx.trace();
                    }
                    Ok(())
                },
            ),
            section(
                "values",
                format!("chains of nodes nested up to 32 deep with every pattern of up to {per} of {wraps} ways to nest, written at 4 widths and parsed back"),
                wn,
                move |i, cx| {
                    let pat = nth_string(i, wraps, 1, per);
                    for &d in depths {
                        let mut x = uint(1);
                        for j in 0..d {
                            let w = pat[j % pat.len()] as u8;
                            x = wrap(x, Wrap { kind: w % 5, sib: w / 5 }, &st("s").no_id());
                        }
                        let k = x.build();
                        cx.state_hash(mix(i * 64 + d as u64));
                        let key = |what: &str| format!("{what} depth {d} pattern {pat:?}");
                        for w in [None, Some(0), Some(60), Some(200)] {
                            let s = timed(|| key("writing"), cx, || k.as_str_with_config(configs_ids(6, w)))?;
                            let b = timed(|| key("parsing"), cx, || parse(&s).map(|b| b.into_owned()).ok())?;
                            if b.is_none() {
                                return viol(key("written"), format!("the text does not parse back ({})", key("written")));
                            }
                            cx.trace();
                        }
                        timed(|| key("comparing"), cx, || k == k.clone())?;
                    }
                    cx.outcome(&[pat.len() as u8]);
                    Ok(())
                },
            ),
        ],
        assumptions: vec![
            "cost is measured as processor time of the thread: the limit of one second is more than a thousand times what the largest case takes, and a cost that doubles per repetition exceeds it within the sizes explored",
        ],
        rule: "no case takes more than one second of processor time",
    }
}
