//! P25 one text per value and configuration; P26 what encoding builds, and how it fails.

use crate::en::*;
use crate::engine::*;
use crate::model::*;
use crate::p_fmt::{leafy, shapes, small, spine, FEW};
use crate::{Check, Tier};
use kserd::fmt::{Formatter, FormattingConfig};
use kserd::nav::Navigator;
use kserd::parse::parse;
use kserd::{Kserd, Value};
use serde::ser::{
    Error as _, SerializeMap, SerializeSeq, SerializeStruct, SerializeStructVariant, SerializeTuple,
    SerializeTupleStruct, SerializeTupleVariant,
};
use serde::{Serialize, Serializer};

// ---------------------------------------------------------------- P25

/// What may already stand in the buffer that is written to.
const BUFS: [&str; 9] = ["", "x", "\n", "a = ", "[[s]]\n", ", ", "(", "    ", "é\r\n\t"];

fn one_text(k: &Kserd, c: FormattingConfig, cx: &mut Ctx) -> Res {
    let text = k.as_str_with_config(c);
    cx.ops(1);
    cx.state(text.as_bytes());
    let bad = |what: String| {
        viol(
            format!("{} {:?}", show(k), c),
            format!("{what}\n value: {}\n config: {c:?}\n text: {text:?}", show(k)),
        )
    };
    let differs = |how: &str, t: &str| bad(format!("{how} gives another text: {t:?}"));
    for (how, t) in [
        ("writing again", k.as_str_with_config(c)),
        ("a clone", k.clone().as_str_with_config(c)),
        ("a borrowed view", k.mk_brw().as_str_with_config(c)),
        ("an owned copy", k.mk_brw().into_owned().as_str_with_config(c)),
    ] {
        cx.op();
        if t != text {
            return differs(how, &t);
        }
    }
    let mut f = Formatter::new(k);
    f.apply_config(c);
    for b in BUFS {
        cx.op();
        let t = f.write_string(b.to_string());
        if t.strip_prefix(b) != Some(&text) {
            return differs(&format!("appending to {b:?}"), &t);
        }
    }
    // the text of what the text denotes is the same text
    if settled(k) {
        let back = match parse(&text) {
            Ok(b) => b,
            Err(e) => return bad(format!("the text does not parse:\n{}", e.backtrace())),
        };
        let t = back.as_str_with_config(c);
        cx.ops(2);
        if t != text {
            return differs("the value read back", &t);
        }
    }
    cx.trace();
    cx.outcome(&[text.lines().count().min(255) as u8, (text.len() / 16).min(255) as u8]);
    cx.sample(|| format!("{} -> {text:?}", show(k)));
    Ok(())
}

/// Whether reading back keeps the spelling: minus zero is read as the integer it equals, and the
/// three empty forms, which are read as one another, differ in spelling and estimated width.
fn settled(k: &Kserd) -> bool {
    let empty = match &k.val {
        Value::Num(kserd::Number::Float(f)) => return *f != 0.0 || f.is_sign_positive(),
        Value::Unit => true,
        Value::Tuple(x) => x.is_empty(),
        Value::Cntr(x) => x.is_empty(),
        _ => false,
    };
    !empty
        && match &k.val {
            Value::Tuple(x) | Value::Seq(x) => x.iter().all(settled),
            Value::Cntr(x) => x.values().all(settled),
            Value::Map(x) => x.iter().all(|(k, v)| settled(k) && settled(v)),
            _ => true,
        }
}

/// The shorthands and views that take no configuration.
fn shorthands(k: &Kserd, cx: &mut Ctx) -> Res {
    let c = FormattingConfig {
        id_on_primitives: false,
        id_on_tuples: true,
        id_on_containers: true,
        id_on_seqs: false,
        id_on_maps: false,
        width_limit: Some(60),
    };
    let text = k.as_str_with_config(c);
    let bad = |what: &str, t: String| {
        viol(
            format!("{} {what}", show(k)),
            format!("{what} gives {t:?}, the documented default configuration gives {text:?}\n value: {}", show(k)),
        )
    };
    cx.ops(8);
    for (how, t) in [
        ("as_str", k.as_str()),
        ("Display", format!("{k}")),
        ("to_string", k.to_string()),
        ("the default configuration", k.as_str_with_config(FormattingConfig::default())),
    ] {
        if t != text {
            return bad(how, t);
        }
    }
    let f = Formatter::new(k);
    let plain = Navigator::new(k);
    let views: [(&str, &Navigator); 2] = [("Deref", &f), ("AsRef", f.as_ref())];
    for (how, n) in views {
        if n.len() != plain.len()
            || f.fmts().len() != plain.len()
            || (0..=plain.len()).any(|i| {
                let (a, b) = (n.get(i), plain.get(i));
                a.map(|a| a.kserd() as *const Kserd as usize) != b.map(|b| b.kserd() as *const Kserd as usize)
            })
        {
            return bad(&format!("the formatter's navigator ({how})"), format!("{} nodes", n.len()));
        }
    }
    cx.trace();
    Ok(())
}

fn sec_text(name: &'static str, bound: String, e: E<M>, ids: &'static [u64], ws: &'static [Option<u16>]) -> Section {
    section(name, bound, e.count, move |i, cx| {
        let k = e.get(i).build();
        shorthands(&k, cx)?;
        for &w in ws {
            for &c in ids {
                one_text(&k, configs_ids(c, w), cx)?;
            }
        }
        Ok(())
    })
}

pub fn p25(t: Tier) -> Check {
    let n = t.pick(3, 4);
    let small = sec_text(
        "small",
        format!("all trees of <= {n} nodes with identities on any subset; 4 identity settings x widths none, 0, 60, 16; 9 buffers"),
        small(n),
        &[0, 31, 6, 25],
        &FEW,
    );
    let leaves = sec_text(
        "leaves",
        "all trees of <= 3 nodes over 55 leaf values".to_string(),
        leafy(3),
        &[0, 31],
        &FEW,
    );
    let n = t.pick(6, 7);
    let shapes = sec_text(
        "shapes",
        format!("all shapes of <= {n} nodes (one leaf value)"),
        shapes(n),
        &[31],
        &FEW,
    );
    let d = t.pick(3usize, 4);
    let spines = section(
        "spines",
        format!("all chains of {d} nesting steps with 2 identity patterns, every width of 0, 8, 16, .., 80"),
        pow(15, d) * 2,
        move |i, cx| {
            let k = spine(i / 2, d, [7, 2][(i % 2) as usize]).build();
            shorthands(&k, cx)?;
            for w in 0..=10 {
                one_text(&k, configs_ids(31, Some(w * 8)), cx)?;
            }
            Ok(())
        },
    );
    Check {
        sections: vec![small, leaves, shapes, spines],
        assumptions: vec![
            "names are spellable in the text grammar ([A-Za-z_][A-Za-z0-9_-]*)",
            "a negative zero equals zero, and the three empty forms are read as one another: values with a negative zero or an empty form need not be spelled the same after reading",
        ],
        rule: "every way to ask for the text of a value under a configuration gives the same text, and so does the value read back from it",
    }
}

// ---------------------------------------------------------------- P26

type Name = &'static str;

/// Data of serde's data model; `Fail` reports an error when it is serialised.
#[derive(Clone, Debug)]
enum S {
    U8(u8),
    I64(i64),
    F64(f64),
    Bool(bool),
    Char(char),
    Str(Name),
    Bytes(&'static [u8]),
    Unit,
    None,
    UnitStruct(Name),
    UnitVar(Name),
    Fail(u8),
    Some(Box<S>),
    NewStruct(Name, Box<S>),
    NewVar(Name, Box<S>),
    Seq(Vec<S>, bool),
    Tuple(Vec<S>),
    TupStruct(Name, Vec<S>),
    TupVar(Name, Vec<S>),
    Struct(Name, Vec<S>),
    StructVar(Name, Vec<S>),
    Map(Vec<(S, S)>, bool),
}

const FIELDS: [Name; 6] = ["p", "q", "r", "s", "t", "u"];

impl Serialize for S {
    fn serialize<Z: Serializer>(&self, z: Z) -> Result<Z::Ok, Z::Error> {
        match self {
            S::U8(n) => z.serialize_u8(*n),
            S::I64(n) => z.serialize_i64(*n),
            S::F64(n) => z.serialize_f64(*n),
            S::Bool(b) => z.serialize_bool(*b),
            S::Char(c) => z.serialize_char(*c),
            S::Str(s) => z.serialize_str(s),
            S::Bytes(b) => z.serialize_bytes(b),
            S::Unit => z.serialize_unit(),
            S::None => z.serialize_none(),
            S::UnitStruct(n) => z.serialize_unit_struct(n),
            S::UnitVar(n) => z.serialize_unit_variant("Enum", 1, n),
            S::Fail(k) => Err(Z::Error::custom(format_args!("boom {k}"))),
            S::Some(x) => z.serialize_some(&**x),
            S::NewStruct(n, x) => z.serialize_newtype_struct(n, &**x),
            S::NewVar(n, x) => z.serialize_newtype_variant("Enum", 1, n, &**x),
            S::Seq(x, hint) => {
                let mut q = z.serialize_seq(hint.then_some(x.len()))?;
                for c in x {
                    q.serialize_element(c)?;
                }
                q.end()
            }
            S::Tuple(x) => {
                let mut q = z.serialize_tuple(x.len())?;
                for c in x {
                    q.serialize_element(c)?;
                }
                q.end()
            }
            S::TupStruct(n, x) => {
                let mut q = z.serialize_tuple_struct(n, x.len())?;
                for c in x {
                    q.serialize_field(c)?;
                }
                q.end()
            }
            S::TupVar(n, x) => {
                let mut q = z.serialize_tuple_variant("Enum", 1, n, x.len())?;
                for c in x {
                    q.serialize_field(c)?;
                }
                q.end()
            }
            S::Struct(n, x) => {
                let mut q = z.serialize_struct(n, x.len())?;
                for (c, f) in x.iter().zip(FIELDS) {
                    q.skip_field("skipped")?;
                    q.serialize_field(f, c)?;
                }
                q.end()
            }
            S::StructVar(n, x) => {
                let mut q = z.serialize_struct_variant("Enum", 1, n, x.len())?;
                for (c, f) in x.iter().zip(FIELDS) {
                    q.serialize_field(f, c)?;
                    q.skip_field("skipped")?;
                }
                q.end()
            }
            S::Map(x, entry) => {
                let mut q = z.serialize_map(None)?;
                for (k, v) in x {
                    if *entry {
                        q.serialize_entry(k, v)?;
                    } else {
                        q.serialize_key(k)?;
                        q.serialize_value(v)?;
                    }
                }
                q.end()
            }
        }
    }
}

/// What encoding must give: the value, or the errors of which one must be reported. The members of
/// a group are looked at in order and the first that fails ends it; whether a refused name is
/// noticed before or after them is left open.
fn expect(s: &S) -> Result<Kserd<'static>, Vec<String>> {
    let named = |n: Name, v: Result<Value<'static>, Vec<String>>| {
        let ok = !n.contains(|c| "(){}[]<> ,./\\=".contains(c));
        match (ok, v) {
            (true, Ok(v)) => {
                let mut k = Kserd::new(v);
                k.id = Some(n.into());
                Ok(k)
            }
            (true, Err(e)) => Err(e),
            (false, Ok(_)) => Err(vec![n.to_string()]),
            (false, Err(mut e)) => {
                e.push(n.to_string());
                Err(e)
            }
        }
    };
    let all = |x: &[S]| x.iter().map(expect).collect::<Result<Vec<_>, _>>();
    let cntr = |x: &[S]| {
        all(x).map(|v| Value::Cntr(FIELDS.iter().map(|&f| f.into()).zip(v).collect()))
    };
    match s {
        S::U8(n) => Ok(Kserd::new_num(*n)),
        S::I64(n) => Ok(Kserd::new_num(*n)),
        S::F64(n) => Ok(Kserd::new_num(*n)),
        S::Bool(b) => Ok(Kserd::new_bool(*b)),
        S::Char(c) => named("char", Ok(Value::new_string(c.to_string()))),
        S::Str(s) => Ok(Kserd::new_str(s)),
        S::Bytes(b) => Ok(Kserd::new_barr(b)),
        S::Unit => Ok(Kserd::new_unit()),
        S::None => named("None", Ok(Value::Tuple(vec![]))),
        S::UnitStruct(n) | S::UnitVar(n) => named(n, Ok(Value::Tuple(vec![]))),
        S::Fail(k) => Err(vec![format!("boom {k}")]),
        S::Some(x) => named("Some", expect(x).map(|k| Value::Tuple(vec![k]))),
        S::NewStruct(n, x) | S::NewVar(n, x) => named(n, expect(x).map(|k| Value::Tuple(vec![k]))),
        S::Seq(x, _) => all(x).map(|v| Kserd::new(Value::Seq(v))),
        S::Tuple(x) => all(x).map(|v| Kserd::new(Value::Tuple(v))),
        S::TupStruct(n, x) | S::TupVar(n, x) => named(n, all(x).map(Value::Tuple)),
        S::Struct(n, x) | S::StructVar(n, x) => named(n, cntr(x)),
        S::Map(x, _) => {
            let mut t = std::collections::BTreeMap::new();
            for (k, v) in x {
                let (k, v) = (expect(k)?, expect(v)?);
                t.insert(k, v);
            }
            Ok(Kserd::new(Value::Map(t)))
        }
    }
}

/// Keys equal up to identities collapse into one entry; which identity it keeps is left open.
fn collapses(s: &S) -> bool {
    match s {
        S::Some(x) | S::NewStruct(_, x) | S::NewVar(_, x) => collapses(x),
        S::Seq(x, _) | S::Tuple(x) | S::TupStruct(_, x) | S::TupVar(_, x) | S::Struct(_, x) | S::StructVar(_, x) => {
            x.iter().any(collapses)
        }
        S::Map(x, _) => {
            x.iter().any(|(k, v)| collapses(k) || collapses(v))
                || match expect(s) {
                    Ok(k) => matches!(&k.val, Value::Map(t) if t.len() < x.len()),
                    Err(_) => false,
                }
        }
        _ => false,
    }
}

fn encodes(s: &S, cx: &mut Ctx) -> Res {
    let got = Kserd::enc(s);
    cx.op();
    let bad = |what: String| viol(format!("{s:?}"), format!("{what}\n data: {s:?}"));
    match (expect(s), &got) {
        (Ok(w), Ok(g)) => {
            let ids = if collapses(s) { Ids::Ignore } else { Ids::Exact };
            if let Err(e) = same(&w, g, &ids, false) {
                return bad(format!("{e}\n expected: {}\n encoded: {}", show(&w), show(g)));
            }
            cx.state(show(g).as_bytes());
        }
        (Err(w), Err(e)) => {
            let t = e.to_string();
            if !w.iter().any(|w| t.contains(w.as_str())) {
                return bad(format!("the error is {t:?}, expected one of {w:?}"));
            }
            cx.state(t.as_bytes());
        }
        (Ok(w), Err(e)) => return bad(format!("refused ({e}), expected {}", show(&w))),
        (Err(w), Ok(g)) => return bad(format!("gives {}, expected one of the errors {w:?}", show(g))),
    }
    cx.trace();
    cx.outcome(&[got.is_ok() as u8, got.as_ref().map(|k| kind(&k.val) as u8).unwrap_or(9)]);
    cx.sample(|| format!("{s:?} -> {}", got.as_ref().map(show).unwrap_or_else(|e| e.to_string())));
    Ok(())
}

fn datas(leaves: Vec<S>, names: &'static [Name], n: usize) -> Vec<E<S>> {
    let mut t: Vec<E<S>> = vec![E::empty()];
    let mut f: Vec<E<Vec<S>>> = vec![list(vec![vec![]])];
    let mut mf: Vec<E<Vec<(S, S)>>> = vec![list(vec![vec![]])];
    let nm = list(names.to_vec());
    for k in 1..=n {
        let mut parts = Vec::new();
        if k == 1 {
            parts.push(list(leaves.clone()));
        } else {
            let c = &t[k - 1];
            parts.push(c.map(|x| S::Some(Box::new(x))));
            parts.push(nm.prod(c).map(|(n, x)| S::NewStruct(n, Box::new(x))));
            parts.push(nm.prod(c).map(|(n, x)| S::NewVar(n, Box::new(x))));
        }
        let c = &f[k - 1];
        parts.push(c.map(|x| S::Seq(x, true)));
        parts.push(c.map(|x| S::Seq(x, false)));
        parts.push(c.map(S::Tuple));
        parts.push(nm.prod(c).map(|(n, x)| S::TupStruct(n, x)));
        parts.push(nm.prod(c).map(|(n, x)| S::TupVar(n, x)));
        parts.push(nm.prod(c).map(|(n, x)| S::Struct(n, x)));
        parts.push(nm.prod(c).map(|(n, x)| S::StructVar(n, x)));
        parts.push(mf[k - 1].map(|x| S::Map(x, true)));
        parts.push(mf[k - 1].map(|x| S::Map(x, false)));
        t.push(sum(parts));
        let mut fk = Vec::new();
        let mut mk = Vec::new();
        for j in 1..=k {
            fk.push(t[j].prod(&f[k - j]).map(|(a, mut r)| {
                r.insert(0, a);
                r
            }));
        }
        for a in 1..k {
            for b in 1..=(k - a) {
                mk.push(t[a].prod(&t[b]).prod(&mf[k - a - b]).map(|((x, y), mut r)| {
                    r.insert(0, (x, y));
                    r
                }));
            }
        }
        f.push(sum(fk));
        mf.push(sum(mk));
    }
    t
}

fn sec_datas(name: &'static str, leaves: Vec<S>, names: &'static [Name], n: usize) -> Section {
    let nl = leaves.len();
    let e = sum(datas(leaves, names, n).split_off(1));
    section(
        name,
        format!("all data of <= {n} nodes over 12 composite forms, {nl} leaves (failing ones included) and {} names", names.len()),
        e.count,
        move |i, cx| encodes(&e.get(i), cx),
    )
}

/// Names with every ASCII character, and some others, in three places.
fn odd_names() -> Vec<Name> {
    let mut v: Vec<Name> = vec!["", "é", "a\u{a0}b", "漢", "a=b", "x y z"];
    for c in 0u8..128 {
        let c = c as char;
        for s in [format!("{c}"), format!("a{c}b"), format!("a{c}"), format!("{c}a")] {
            v.push(Box::leak(s.into_boxed_str()));
        }
    }
    v
}

/// Every history of calls on a map being serialised that an implementor may make, and a value
/// without a key, which must be refused.
struct Calls(Vec<u8>);

const KEYS: [S; 3] = [S::U8(1), S::U8(2), S::Fail(7)];

impl Serialize for Calls {
    fn serialize<Z: Serializer>(&self, z: Z) -> Result<Z::Ok, Z::Error> {
        let mut q = z.serialize_map(None)?;
        for (step, &o) in self.0.iter().enumerate() {
            let v = S::U8(step as u8);
            match o {
                0..=2 => q.serialize_key(&KEYS[o as usize])?,
                3 => q.serialize_value(&v)?,
                4 => q.serialize_value(&S::Fail(8))?,
                5..=7 => q.serialize_entry(&KEYS[o as usize - 5], &v)?,
                _ => q.serialize_entry(&S::U8(1), &S::Fail(8))?,
            }
        }
        q.end()
    }
}

fn calls(ops: &[usize], cx: &mut Ctx) -> Res {
    // model
    let mut pending: Option<u8> = None;
    let mut t: Vec<(u8, u8)> = Vec::new();
    let mut err: Option<&str> = None;
    let mut put = |k: u8, v: u8| {
        t.retain(|e| e.0 != k);
        t.push((k, v));
    };
    for (step, &o) in ops.iter().enumerate() {
        match o {
            // a key while one waits, or an entry between key and value, is not a legal history
            0..=2 | 5..=8 if pending.is_some() => return Ok(()),
            0 | 1 => pending = Some(o as u8 + 1),
            2 | 7 => err = Some("boom 7"),
            3 => match pending.take() {
                Some(k) => put(k, step as u8),
                None => err = Some("no key"),
            },
            4 => match pending.take() {
                Some(_) => err = Some("boom 8"),
                None => err = Some("no key"),
            },
            5 | 6 => put(o as u8 - 4, step as u8),
            _ => err = Some("boom 8"),
        }
        if err.is_some() {
            // what follows an error is never called
            if step + 1 < ops.len() {
                return Ok(());
            }
        }
    }
    if pending.is_some() {
        return Ok(());
    }
    t.sort();
    cx.state(&ops.iter().map(|&o| o as u8).collect::<Vec<_>>());
    cx.ops(ops.len() as u64 + 1);
    let got = Kserd::enc(&Calls(ops.iter().map(|&o| o as u8).collect()));
    let bad = |what: String| viol(format!("calls {ops:?}"), format!("{what}\n calls: {ops:?}"));
    match (err, &got) {
        (Some(w), Err(e)) => {
            if !e.to_string().contains(w) {
                return bad(format!("the error is {e}, expected {w}"));
            }
        }
        (None, Ok(k)) => {
            let Value::Map(g) = &k.val else {
                return bad(format!("gives {}", show(k)));
            };
            let g: Vec<_> = g.iter().map(|(k, v)| (k.uint().map(|n| n as u8), v.uint().map(|n| n as u8))).collect();
            let w: Vec<_> = t.iter().map(|e| (Some(e.0), Some(e.1))).collect();
            if g != w {
                return bad(format!("gives the entries {g:?}, expected {w:?}"));
            }
        }
        (Some(w), Ok(k)) => return bad(format!("gives {}, expected the error {w}", show(k))),
        (None, Err(e)) => return bad(format!("refused: {e}")),
    }
    cx.trace();
    cx.outcome(&[err.map(|e| e.as_bytes()[0] ^ e.as_bytes()[e.len() - 1]).unwrap_or(0), t.len() as u8]);
    Ok(())
}

pub fn p26(t: Tier) -> Check {
    let all_leaves = vec![
        S::U8(3),
        S::Str("s"),
        S::Fail(1),
        S::Unit,
        S::None,
        S::Bool(true),
        S::Char('c'),
        S::Bytes(&[1, 2]),
        S::UnitStruct("N"),
        S::UnitVar("V"),
        S::UnitVar("b d"),
        S::I64(-5),
        S::F64(0.5),
        S::Fail(2),
    ];
    const NAMES: [Name; 2] = ["N", "b=d"];
    let a = sec_datas("kinds", all_leaves, &NAMES, t.pick(3, 4));
    let b = sec_datas("nested", vec![S::U8(3), S::Fail(1), S::Fail(2)], &["N"], t.pick(5, 6));
    let names = odd_names();
    let c = section(
        "names",
        format!("{} names with every ASCII character in 4 places x 8 named forms x whole and failing members", names.len()),
        names.len() as u64 * 16,
        move |i, cx| {
            let n = names[(i / 16) as usize];
            let x = if i % 2 == 0 { S::U8(3) } else { S::Fail(1) };
            let s = match i / 2 % 8 {
                0 => S::UnitStruct(n),
                1 => S::UnitVar(n),
                2 => S::NewStruct(n, Box::new(x)),
                3 => S::NewVar(n, Box::new(x)),
                4 => S::TupStruct(n, vec![S::U8(1), x]),
                5 => S::TupVar(n, vec![S::U8(1), x]),
                6 => S::Struct(n, vec![S::U8(1), x]),
                _ => S::StructVar(n, vec![S::U8(1), x]),
            };
            encodes(&s, cx)
        },
    );
    let hi = t.pick(7usize, 8);
    let d = section(
        "map calls",
        format!("every legal history of up to {hi} calls on a map, and values without a key"),
        strings_count(9, 0, hi),
        move |i, cx| calls(&nth_string(i, 9, 0, hi), cx),
    );
    Check {
        sections: vec![a, b, c, d],
        assumptions: vec![
            "implementors of Serialize follow serde's protocol, except for a value without a key",
            "whether a refused name or a failing member is reported first is left open",
        ],
        rule: "encoding gives exactly the value of the documented form, or the error of the first failing part",
    }
}

// ---------------------------------------------------------------- P18: errors of the type itself

/// A member that refuses numbers from 200 on with an error of its own.
#[derive(Clone, Debug, PartialEq, Eq, PartialOrd, Ord, Serialize)]
struct Picky(u8);

impl<'de> serde::Deserialize<'de> for Picky {
    fn deserialize<Z: serde::Deserializer<'de>>(z: Z) -> Result<Self, Z::Error> {
        use serde::de::Error as _;
        struct Vis;
        impl<'de> serde::de::Visitor<'de> for Vis {
            type Value = Picky;
            fn expecting(&self, f: &mut std::fmt::Formatter) -> std::fmt::Result {
                f.write_str("a small number")
            }
            fn visit_newtype_struct<Z: serde::Deserializer<'de>>(self, z: Z) -> Result<Picky, Z::Error> {
                match <u8 as serde::Deserialize>::deserialize(z)? {
                    n @ 200.. => Err(Z::Error::custom(format_args!("boom {n}"))),
                    n => Ok(Picky(n)),
                }
            }
            fn visit_seq<A: serde::de::SeqAccess<'de>>(self, mut a: A) -> Result<Picky, A::Error> {
                match a.next_element::<u8>()? {
                    Some(n @ 200..) => Err(A::Error::custom(format_args!("boom {n}"))),
                    Some(n) => Ok(Picky(n)),
                    None => Err(A::Error::invalid_length(0, &self)),
                }
            }
        }
        z.deserialize_newtype_struct("Picky", Vis)
    }
}

#[derive(Debug, PartialEq, Serialize, serde::Deserialize)]
struct Pair {
    a: Picky,
    b: Picky,
}

#[derive(Debug, PartialEq, Serialize, serde::Deserialize)]
enum Choice {
    New(Picky),
    Tup(Picky, Picky),
    Rec { a: Picky, b: Picky },
}

fn own_error<T>(data: T, order: &[u8], cx: &mut Ctx) -> Res
where
    T: Serialize + serde::de::DeserializeOwned + PartialEq + std::fmt::Debug,
{
    let bad = |what: String| viol(format!("{data:?}"), format!("{what}\n data: {data:?}"));
    let k = match Kserd::enc(&data) {
        Ok(k) => k,
        Err(e) => return bad(format!("does not encode: {e}")),
    };
    cx.ops(3);
    cx.state(format!("{data:?}").as_bytes());
    for (how, k) in [("owned", k.clone()), ("borrowed", k.mk_brw())] {
        match (order.iter().find(|&&n| n >= 200), k.decode::<T>()) {
            (None, Ok(b)) if b == data => {}
            (None, r) => return bad(format!("decoding the {how} value gives {r:?}")),
            (Some(n), Err(e)) if e.to_string().contains(&format!("boom {n}")) => {}
            (Some(n), r) => return bad(format!("decoding the {how} value gives {r:?}, expected the error boom {n}")),
        }
    }
    cx.trace();
    cx.outcome(&[order.iter().position(|&n| n >= 200).unwrap_or(9) as u8, order.len() as u8]);
    Ok(())
}

pub fn sec_own_errors() -> Section {
    const N: [u8; 4] = [1, 2, 200, 255];
    section(
        "own errors",
        "members that fail by themselves at every place of 11 groups: the first error is the answer",
        11 * 64,
        move |i, cx| {
            let d = digits(i / 11, 4, 3);
            let n: Vec<u8> = d.iter().map(|&d| N[d]).collect();
            let p = |j: usize| Picky(n[j]);
            let (a, b) = (p(0), p(1));
            match i % 11 {
                0 => own_error(p(0), &n[..1], cx),
                1 => own_error(vec![p(0), p(1), p(2)], &n, cx),
                2 => own_error((p(0), p(1), p(2)), &n, cx),
                3 => own_error([p(0), p(1), p(2)], &n, cx),
                4 => own_error(Some(Some(p(0))), &n[..1], cx),
                5 => own_error(Pair { a, b }, &n[..2], cx),
                6 => own_error(Choice::New(a), &n[..1], cx),
                7 => own_error(Choice::Tup(a, b), &n[..2], cx),
                8 => own_error(Choice::Rec { a, b }, &n[..2], cx),
                9 => {
                    let t: std::collections::BTreeMap<u8, Picky> = [(1, p(0)), (2, p(1)), (3, p(2))].into();
                    own_error(t, &n, cx)
                }
                _ => own_error(vec![(Some(p(0)), vec![p(1)])], &n[..2], cx),
            }
        },
    )
}
