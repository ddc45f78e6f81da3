//! What the crate does, case by case, written down as plain text. The same source is compiled into
//! the harness and into the probe of every build configuration; the texts have to be the same.

use crate::en::*;
use crate::model::*;
use kserd::nav::{Navigator, NodeValue};
use kserd::{Kserd, Kstr, Number, ToKserd, Value};
use std::fmt::Write;

pub struct Law {
    pub name: &'static str,
    pub bound: String,
    pub count: u64,
    pub run: Box<dyn Fn(u64) -> String + Send + Sync>,
}

fn law(
    name: &'static str,
    bound: impl Into<String>,
    count: u64,
    run: impl Fn(u64) -> String + Send + Sync + 'static,
) -> Law {
    Law {
        name,
        bound: bound.into(),
        count,
        run: Box::new(run),
    }
}

pub fn transcript(s: &Law, i: u64) -> String {
    std::panic::catch_unwind(std::panic::AssertUnwindSafe(|| (s.run)(i)))
        .unwrap_or_else(|_| "panic".to_string())
}

pub fn digest(s: &str) -> u64 {
    s.bytes().fold(0xcbf29ce484222325, |h, b| {
        (h ^ b as u64).wrapping_mul(0x100000001b3)
    })
}

fn leaves() -> Vec<M> {
    vec![
        m(V::Unit),
        m(V::Bool(true)),
        m(V::Bool(false)),
        uint(0),
        uint(1),
        m(V::Num(Number::Uint(u128::MAX))),
        int(-1),
        m(V::Num(Number::Int(i128::MIN))),
        flt(1.5),
        flt(-0.0),
        flt(f64::NAN),
        flt(f64::INFINITY),
        flt(1e300),
        st(""),
        st("a"),
        st("é\n\"'"),
        ba(&[]),
        ba(&[0, 255]),
        uint(7).id("A"),
        st("b").id("B-c"),
        m(V::Unit).id("U"),
    ]
}

fn few() -> Vec<M> {
    vec![uint(1), m(V::Unit), st("two words"), flt(-2.5).id("F")]
}

fn spec(leaves: Vec<M>) -> Spec {
    Spec {
        leaves,
        ids: vec![None, Some("A")],
        names: vec!["a", "b-c", "_d"],
        empties: true,
    }
}

/// All trees up to `n` nodes over the short list of leaves and up to `l` over the long one.
fn values(n: usize, l: usize) -> E<M> {
    let mut v = trees(&spec(few()), n);
    v.extend(trees(&spec(leaves()), l));
    sum(v)
}

fn value(k: &Kserd) -> String {
    let mut s = format!("{k:?}\n{k:#?}\n{}\n", show(k));
    let v = &k.val;
    let list = |l: Option<&Vec<Kserd>>| l.map(|l| l.iter().map(show).collect::<Vec<_>>());
    let _ = writeln!(s, "{:?} {:?} {:?} {:?} {:?} {:?}", k.id(), v.unit(), v.bool(), v.ch(), v.uint(), v.int());
    let _ = writeln!(s, "{:?} {:?} {:?}", v.float().map(f64::to_bits), v.str(), v.barr());
    let _ = writeln!(s, "{:?} {:?} {:?}", list(v.tuple()), list(v.seq()), list(v.tuple_or_seq()));
    if let Some(c) = v.cntr() {
        for n in ["a", "b-c", "_d", "x"] {
            let _ = writeln!(
                s,
                "{:?} {:?} {:?} {:?} {:?} {:?} {:?} {:?}",
                c.get_unit(n).is_some(),
                c.get_bool(n),
                c.get_num(n).map(|n| crate::num::show_num(&n)),
                c.get_str(n),
                c.get_barr(n),
                list(c.get_tuple_or_seq(n)),
                c.get_cntr(n).map(|x| x.len()),
                c.get_map(n).map(|x| x.len()),
            );
        }
    }
    let mut own = k.clone();
    if let Some(x) = own.num_mut() {
        *x = Number::from(3u8);
    }
    if let Some(x) = own.str_mut() {
        x.push('!');
    }
    if let Some(x) = own.barr_mut() {
        x.push(9);
    }
    if let Some(x) = own.tuple_or_seq_mut() {
        x.reverse();
    }
    if let Some(x) = own.map_mut() {
        let e: Vec<_> = x.iter().map(|(a, b)| (b.clone(), a.clone())).collect();
        x.clear();
        x.extend(e);
    }
    let _ = writeln!(s, "{} {} {}", show(&own), &own == k, show(&k.mk_brw()));
    let _ = writeln!(s, "{}", show(&own.into_owned()));
    s
}

fn ways(k: &Kserd) -> String {
    let nav = Navigator::new(k);
    let mut s = format!("{}\n", nav.len());
    for n in nav.nodes() {
        let _ = writeln!(
            s,
            "{} {} {:?} {} {} {:?} {:?} {:?} {:?}",
            n.index(),
            show(n.kserd()),
            n.parent().map(|p| p.index()),
            n.is_key(),
            n.idx_in_parent(),
            n.key_children().map(|c| c.index()).collect::<Vec<_>>(),
            n.value_children().map(|c| c.index()).collect::<Vec<_>>(),
            n.descendants_depth().iter().map(|c| c.index()).collect::<Vec<_>>(),
            n.descendants_breadth().iter().map(|c| c.index()).collect::<Vec<_>>(),
        );
        let _ = match n.value() {
            NodeValue::Primitive => writeln!(s, "-"),
            NodeValue::Tuple(it) => writeln!(s, "t{}{:?}", it.len(), it.map(|n| n.index()).collect::<Vec<_>>()),
            NodeValue::Seq(it) => writeln!(s, "s{}{:?}", it.len(), it.map(|n| n.index()).collect::<Vec<_>>()),
            NodeValue::Cntr(it) => writeln!(s, "c{}{:?}", it.len(), it.map(|(a, n)| (a.to_string(), n.index())).collect::<Vec<_>>()),
            NodeValue::Map(it) => writeln!(s, "m{}{:?}", it.len(), it.map(|(a, n)| (a.index(), n.index())).collect::<Vec<_>>()),
        };
    }
    s
}

fn numbers() -> Vec<Number> {
    let mut v = Vec::new();
    for e in [0u32, 1, 7, 8, 15, 16, 24, 31, 32, 53, 63, 64, 96, 126, 127] {
        let p = 1u128 << e;
        for u in [p - 1, p, p + 1] {
            v.push(Number::Uint(u));
            if let Ok(i) = i128::try_from(u) {
                v.push(Number::Int(i));
                v.push(Number::Int(-i));
            }
        }
        for f in [p as f64, p as f64 + 0.5, -(p as f64), 1.0 / p as f64] {
            v.push(Number::Float(f));
        }
    }
    v.extend([u128::MAX, u128::MAX - 1].map(Number::Uint));
    v.extend([i128::MIN, i128::MIN + 1, i128::MAX].map(Number::Int));
    v.extend([f64::MAX, f64::MIN, f64::MIN_POSITIVE, 5e-324, -0.0, 0.1, 2f64.powi(128), f64::NAN, -f64::NAN, f64::INFINITY, f64::NEG_INFINITY].map(Number::Float));
    v
}

fn number(n: Number) -> String {
    format!("{n} {n:?} {:?} {:?} {:?}", n.as_u128(), n.as_i128(), n.as_f64().to_bits())
}

fn pair(a: Number, b: Number) -> String {
    use std::hash::{Hash, Hasher};
    let h = |n: Number| {
        let mut h = std::collections::hash_map::DefaultHasher::new();
        n.hash(&mut h);
        h.finish()
    };
    format!("{:?} {:?} {} {}", a.cmp(&b), a.partial_cmp(&b), a == b, h(a) == h(b))
}

const DIGITS: &[&str] = &["0", "1", "9", ".", "-", "+", "e", "_", "i", "x"];
const NAMES: &[&str] = &["a", "Z", "0", "_", "-", " ", ":", "=", "/", "\\", "\"", "'", "\t", "\n", "é", ".", ",", "(", "[", "<"];

fn name(s: &str) -> String {
    let a = Kserd::with_id(s, Value::Unit).map(|k| show(&k)).map_err(|e| e.to_string());
    let b = Value::new_cntr(vec![(s, Kserd::new_unit())]).map(|v| show(&Kserd::new(v))).map_err(|e| e.to_string());
    format!("{a:?} {b:?}")
}

fn converted(i: u64) -> String {
    fn all<T: ToKserd<'static>>(x: T) -> String {
        match x.into_kserd() {
            Ok(k) => show(&k),
            Err(e) => format!("{e} {e:?}"),
        }
    }
    let b = (i / 12) as u8;
    match i % 12 {
        0 => all(b),
        1 => all(vec![Some(b), None]),
        2 => all((b as char, -(b as i64), b as f32 / 3.0)),
        3 => all(if b % 2 == 0 { Ok::<_, String>(b) } else { Err("e".repeat(b as usize)) }),
        4 => all(vec![(b, "k".to_string()), (1, String::new())]),
        5 => all([[b, 1], [2, 3]]),
        6 => all(Box::new(Some(vec![b as u128 * u64::MAX as u128]))),
        7 => all(vec![(); b as usize % 5]),
        8 => all("x".repeat(b as usize)),
        9 => all(vec![b as i8, 0]),
        10 => all(f64::from_bits((b as u64) << 55)),
        _ => all((b, (b, (b, ())))),
    }
}

#[cfg(feature = "format")]
fn text(k: &Kserd) -> String {
    let mut s = format!("{}\n{k}\n", k.as_str());
    for ids in [0, 31, 6, 25] {
        for w in [Some(0), Some(7), Some(13), Some(24), None] {
            s += &k.as_str_with_config(configs_ids(ids, w));
            s += "\n--\n";
        }
    }
    s
}

#[cfg(feature = "format")]
fn requests(k: &Kserd, reqs: &[usize], nodes: usize) -> String {
    let mut f = kserd::fmt::Formatter::new(k);
    for &r in reqs {
        let at = r % nodes;
        let _ = match r / nodes {
            0 => f.inline(at),
            1 => f.concise(at),
            2 => f.verbose(at),
            3 => f.id(at, true),
            _ => f.id(at, false),
        };
    }
    f.write_string(String::from("x"))
}

#[cfg(feature = "parse")]
fn read(t: &str) -> String {
    match kserd::parse::parse(t) {
        Ok(k) => show(&k),
        Err(e) => format!("{e:?}"),
    }
}

#[cfg(feature = "parse")]
const TOKENS: &[&str] = &[
    "a", "1", "-2.5e3", "true", "\"s\"", "b91'", "'", " ", "\n", "    ", "=", ":", ",", "(", ")", "[", "]", "[[", "]]", "{", "}", "<A>", "é",
];

#[cfg(feature = "parse")]
const LINES: &[&str] = &[
    "a = 1", ":A", "[b]", "[b:B]", "    c = (1, 2)", "    [d]", "        e = 3", "[[f]]", "[[f]]\n    1", "[[g]]\n\"k\": 1", "", "x", "a = [\n", "]", "h = \"\"\"t",
];

#[cfg(feature = "encode")]
mod enc {
    use super::*;
    use serde::{de::DeserializeOwned, Deserialize, Serialize};
    use std::collections::BTreeMap;

    #[derive(Serialize, Deserialize, Debug)]
    pub enum En {
        U,
        N(u8),
        T(i64, String),
        S { a: Option<u16>, b: bool },
    }
    #[derive(Serialize, Deserialize, Debug)]
    pub struct St {
        a: u32,
        #[serde(default)]
        b: Option<String>,
    }
    #[derive(Serialize, Deserialize, Debug)]
    pub struct Nt(f64);
    #[derive(Serialize, Deserialize, Debug)]
    pub struct Un;

    pub fn decoded(k: &Kserd<'static>) -> String {
        let mut s = String::new();
        fn go<T: DeserializeOwned + Serialize + std::fmt::Debug>(k: &Kserd<'static>, s: &mut String) {
            match k.clone().decode::<T>() {
                Ok(x) => {
                    let _ = write!(s, "{x:?} -> ");
                    let _ = match Kserd::enc(&x) {
                        Ok(k) => writeln!(s, "{}", show(&k)),
                        Err(e) => writeln!(s, "{e}"),
                    };
                }
                Err(e) => {
                    let _ = writeln!(s, "{e}");
                }
            }
        }
        macro_rules! all {
            ($($t:ty),*) => { $( go::<$t>(k, &mut s); )* };
        }
        all!(
            (), bool, u8, i8, u16, i16, u32, i32, u64, i64, u128, i128, f32, f64, char, String, Option<u8>,
            Option<Option<bool>>, Vec<u8>, Vec<String>, Vec<()>, (u8,), (u8, f64), [u8; 2], BTreeMap<String, u8>,
            BTreeMap<u8, Vec<u8>>, En, Vec<En>, St, Nt, Un, (Un, Nt), BTreeMap<String, En>
        );
        s
    }
}

pub fn sections(thorough: bool) -> Vec<Law> {
    let pick = |a, b| if thorough { b } else { a };
    let mut out = Vec::new();

    let n = pick(3, 4);
    let e = values(n, n - 1);
    out.push(law("values", format!("every accessor and edit on all trees of <= {n} nodes"), e.count, move |i| value(&e.get(i).build())));
    let e = values(n, n - 1);
    out.push(law("navigation", format!("every link of every node of all trees of <= {n} nodes"), e.count, move |i| ways(&e.get(i).build())));
    let e = values(2, pick(1, 2));
    let c = e.count;
    out.push(law("pairs", "equality and order of all pairs of small trees", c * c, move |i| {
        let (a, b) = (e.get(i / c).build(), e.get(i % c).build());
        format!("{:?} {:?} {}", a.cmp(&b), a.partial_cmp(&b), a == b)
    }));
    let v = numbers();
    let c = v.len() as u64;
    let w = v.clone();
    out.push(law("numbers", "every conversion of all boundary numbers", c, move |i| number(w[i as usize])));
    out.push(law("number pairs", "order, equality and hash of all pairs of boundary numbers", c * c, move |i| pair(v[(i / c) as usize], v[(i % c) as usize])));
    let l = pick(5, 6);
    let b = DIGITS.len() as u64;
    out.push(law("number texts", format!("all texts of <= {l} of 10 characters read as a number"), strings_count(b, 0, l), move |i| {
        let t: String = nth_string(i, b, 0, l).iter().map(|&d| DIGITS[d]).collect();
        t.parse::<Number>().map(|n| format!("{n:?}")).unwrap_or_else(|e| format!("{e:?}"))
    }));
    let b = NAMES.len() as u64;
    out.push(law("names", "all names of <= 3 of 20 characters as identity and field name", strings_count(b, 0, 3), move |i| {
        let t: String = nth_string(i, b, 0, 3).iter().map(|&d| NAMES[d]).collect();
        name(&t)
    }));
    out.push(law("conversion", "twelve nested types over all bytes converted directly", 12 * 256, converted));
    let b = 6u64;
    let l = pick(5, 6);
    out.push(law("key histories", format!("all sequences of <= {l} insertions of 6 keys, some of them equal"), strings_count(b, 0, l), move |i| {
        let keys = [uint(1), flt(1.0), m(V::Unit), m(V::Tuple(vec![])), m(V::Cntr(vec![])), flt(f64::NAN)];
        let mut x = std::collections::BTreeMap::new();
        for (j, &d) in nth_string(i, b, 0, l).iter().enumerate() {
            x.insert(keys[d].build(), Kserd::new_num(j as u8));
        }
        show(&Kserd::new(Value::Map(x)))
    }));
    #[cfg(feature = "format")]
    {
        let e = values(pick(3, 4), pick(2, 3));
        out.push(law("texts", format!("the text of all trees of <= {} nodes under 20 configurations", pick(3, 4)), e.count, move |i| text(&e.get(i).build())));
        let e = sum(trees(&spec(vec![uint(1)]), 3));
        let r = pick(2, 3);
        // 5 requests on each of at most 3 nodes
        let h = strings_count(15, 0, r);
        out.push(law("requests", format!("all histories of <= {r} layout and identity requests on all trees of <= 3 nodes"), e.count * h, move |i| {
            requests(&e.get(i / h).build(), &nth_string(i % h, 15, 0, r), 3)
        }));
    }
    #[cfg(feature = "parse")]
    {
        let (b, l) = (TOKENS.len() as u64, pick(4, 5));
        out.push(law("token strings", format!("all texts of <= {l} of {b} tokens parsed"), strings_count(b, 0, l), move |i| {
            let t: String = nth_string(i, b, 0, l).iter().map(|&d| TOKENS[d]).collect();
            read(&t)
        }));
        let (b, l) = (LINES.len() as u64, pick(4, 5));
        out.push(law("documents", format!("all texts of <= {l} of {b} lines parsed"), strings_count(b, 0, l), move |i| {
            let t: String = nth_string(i, b, 0, l).iter().map(|&d| LINES[d].to_string() + "\n").collect();
            read(&t)
        }));
    }
    #[cfg(all(feature = "format", feature = "parse"))]
    {
        let e = values(pick(3, 4), pick(2, 3));
        out.push(law("round trips", format!("all trees of <= {} nodes written at three widths and parsed", pick(3, 4)), e.count, move |i| {
            let k = e.get(i).build();
            [Some(0), Some(20), None].map(|w| read(&k.as_str_with_config(configs_ids(31, w)))).join("\n")
        }));
    }
    #[cfg(feature = "encode")]
    {
        let e = values(3, 2);
        out.push(law("decoding", "all trees of <= 3 nodes decoded to 33 types and encoded again", e.count, move |i| enc::decoded(&e.get(i).build())));
    }
    let _ = Kstr::brwed("");
    out
}
