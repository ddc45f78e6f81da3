//! Reference reader of the single-line grammar, written from the description of the format:
//!
//! ```text
//! value  := prim | '<' name '>' ws prim | [name ws] group
//! prim   := '(' ws ')' | 'true' | 'false' | number | '"' text '"' | 'str' c text c | "b91'" text "'"
//! group  := '(' list(value) ')' | '(' list1(name ws '=' ws value) ')' | '[' list(value) ']'
//!         | '{' list(value ws ':' ws value) '}'
//! list(x) := ws | ws x (ws ',' ws x)* ws
//! ```
//!
//! A parenthesis is a container exactly when a field assignment follows it. A number is the longest
//! run of characters that can occur in numbers. `true` and `false` are never names of groups.

use crate::model::*;
use crate::num::num_same;
use kserd::{Kserd, Number, Value};

/// Stands for "any identity" (keys that are given more than once).
pub const ANY: &str = "\u{0}";

pub struct Ref {
    /// a string was delimited by a name character, a blank or an equals sign, which other rules of
    /// the grammar claim too: the text is not judged
    pub odd: bool,
}

fn ws(s: &str) -> &str {
    s.trim_start_matches([' ', '\t'])
}

fn name_char(c: char) -> bool {
    c.is_ascii_alphanumeric() || c == '-' || c == '_'
}

fn run(s: &str) -> (&str, &str) {
    s.split_at(s.find(|c| !name_char(c)).unwrap_or(s.len()))
}

fn name(s: &str) -> Option<(&str, &str)> {
    if s.starts_with(|c: char| c.is_ascii_alphabetic() || c == '_') {
        Some(run(s))
    } else {
        None
    }
}

pub fn field_ahead(s: &str) -> bool {
    ws(run(s).1).starts_with('=')
}

/// Meaning of a numeric text.
pub fn number(s: &str) -> Option<Number> {
    let (neg, d) = match s.strip_prefix('-') {
        Some(d) => (true, d),
        None => (false, s),
    };
    if d.bytes().all(|b| b.is_ascii_digit()) {
        if d.is_empty() {
            return None;
        }
        let mut v: u128 = 0;
        for b in d.bytes() {
            v = v.checked_mul(10)?.checked_add((b - b'0') as u128)?;
        }
        if !neg {
            Some(Number::Uint(v))
        } else if v <= 1 << 127 {
            Some(Number::Int((v as i128).wrapping_neg()))
        } else {
            None
        }
    } else {
        s.parse::<f64>().ok().map(Number::Float)
    }
}

pub fn base91_decode(s: &str) -> Option<Vec<u8>> {
    const T: &str = "ABCDEFGHIJKLMNOPQRSTUVWXYZabcdefghijklmnopqrstuvwxyz0123456789!#$%&()*+,./:;<=>?@[]^_`{|}~\"";
    let d: Option<Vec<u32>> = s
        .chars()
        .map(|c| T.chars().position(|t| t == c).map(|p| p as u32))
        .collect();
    let d = d?;
    let (mut acc, mut n, mut out) = (0u32, 0u32, Vec::new());
    for p in d.chunks(2) {
        if p.len() == 2 {
            let v = p[0] + p[1] * 91;
            acc |= v << n;
            n += if v & 8191 > 88 { 13 } else { 14 };
            while n > 7 {
                out.push(acc as u8);
                acc >>= 8;
                n -= 8;
            }
        } else {
            out.push((acc | p[0] << n) as u8);
        }
    }
    Some(out)
}

impl Ref {
    fn prim<'a>(&mut self, s: &'a str) -> Option<(M, &'a str)> {
        if let Some(r) = s.strip_prefix('(') {
            return ws(r).strip_prefix(')').map(|r| (m(V::Unit), r));
        }
        for (w, b) in [("true", true), ("false", false)] {
            if let Some(r) = s.strip_prefix(w) {
                return Some((m(V::Bool(b)), r));
            }
        }
        let (n, r) = s.split_at(
            s.find(|c: char| !(c.is_ascii_digit() || "-.einfNa".contains(c)))
                .unwrap_or(s.len()),
        );
        if let Some(x) = number(n) {
            return Some((m(V::Num(x)), r));
        }
        if let Some(r) = s.strip_prefix("str") {
            let d = r.chars().next()?;
            if name_char(d) || " \t=".contains(d) {
                self.odd = true;
            }
            let r = &r[d.len_utf8()..];
            let e = r.find(d)?;
            return Some((st(&r[..e]), &r[e + d.len_utf8()..]));
        }
        if let Some(r) = s.strip_prefix('"') {
            let e = r.find('"')?;
            return Some((st(&r[..e]), &r[e + 1..]));
        }
        if let Some(r) = s.strip_prefix("b91'") {
            let e = r.find('\'')?;
            match base91_decode(&r[..e]) {
                Some(b) => return Some((ba(&b), &r[e + 1..])),
                None => {
                    self.odd = true; // not the alphabet
                    return Some((ba(&[]), &r[e + 1..]));
                }
            }
        }
        None
    }

    fn list<'a, T>(
        &mut self,
        s: &'a str,
        close: char,
        mut item: impl FnMut(&mut Ref, &'a str) -> Option<(T, &'a str)>,
    ) -> Option<(Vec<T>, &'a str)> {
        let mut v = Vec::new();
        let mut r = ws(s);
        if let Some(r) = r.strip_prefix(close) {
            return Some((v, r));
        }
        loop {
            let (x, rest) = item(self, ws(r))?;
            v.push(x);
            r = ws(rest);
            if let Some(rest) = r.strip_prefix(close) {
                return Some((v, rest));
            }
            r = r.strip_prefix(',')?;
        }
    }

    pub fn value<'a>(&mut self, s: &'a str) -> Option<(M, &'a str)> {
        if let Some(r) = s.strip_prefix('<') {
            let (n, r) = name(r)?;
            let r = r.strip_prefix('>')?;
            let (x, r) = self.prim(ws(r))?;
            return Some((x.id(n), r));
        }
        let mut id = None;
        let mut g = s;
        if let Some((n, r)) = name(s) {
            if n == "true" || n == "false" || !ws(r).starts_with(['(', '[', '{']) {
                return self.prim(s);
            }
            id = Some(n.to_string());
            g = ws(r);
        }
        let (v, r) = match g.chars().next()? {
            '(' => {
                let inside = &g[1..];
                if id.is_none() && ws(inside).starts_with(')') {
                    return self.prim(g);
                }
                if field_ahead(ws(inside)) {
                    let (f, r) = self.list(inside, ')', |p, s| {
                        let (n, r) = run(s);
                        let r = ws(r).strip_prefix('=')?;
                        let (x, r) = p.value(ws(r))?;
                        Some(((n.to_string(), x), r))
                    })?;
                    let mut u: Vec<(String, M)> = Vec::new();
                    for (n, x) in f {
                        u.retain(|y| y.0 != n);
                        u.push((n, x));
                    }
                    (V::Cntr(u), r)
                } else {
                    let (x, r) = self.list(inside, ')', |p, s| p.value(s))?;
                    (V::Tuple(x), r)
                }
            }
            '[' => {
                let (x, r) = self.list(&g[1..], ']', |p, s| p.value(s))?;
                (V::Seq(x), r)
            }
            '{' => {
                let (e, r) = self.list(&g[1..], '}', |p, s| {
                    let (k, r) = p.value(s)?;
                    let r = ws(r).strip_prefix(':')?;
                    let (x, r) = p.value(ws(r))?;
                    Some(((k, x), r))
                })?;
                (V::Map(last_wins(e)), r)
            }
            _ => return self.prim(s),
        };
        Some((M { id, v }, r))
    }
}

/// Entries of a map as written: of equal keys the last one counts.
pub fn last_wins(e: Vec<(M, M)>) -> Vec<(M, M)> {
    let mut u: Vec<(M, M)> = Vec::new();
    for (mut k, x) in e {
        let n = u.len();
        let mut clash = None;
        u.retain(|y| {
            let same = equal(&y.0, &k);
            if same {
                clash = Some(y.0.clone());
            }
            !same
        });
        if u.len() != n {
            // identities do not distinguish keys; which of them stays is not specified
            blend(&mut k, &clash.unwrap());
        }
        u.push((k, x));
    }
    u
}

fn blend(a: &mut M, b: &M) {
    if a.id != b.id {
        a.id = Some(ANY.into());
    }
    match (&mut a.v, &b.v) {
        (V::Tuple(x), V::Tuple(y)) | (V::Seq(x), V::Seq(y)) => {
            x.iter_mut().zip(y).for_each(|(x, y)| blend(x, y))
        }
        (V::Cntr(x), V::Cntr(y)) => x.iter_mut().zip(y).for_each(|(x, y)| blend(&mut x.1, &y.1)),
        (V::Map(x), V::Map(y)) => x.iter_mut().zip(y).for_each(|(x, y)| {
            blend(&mut x.0, &y.0);
            blend(&mut x.1, &y.1)
        }),
        _ => (),
    }
}

/// Equality of values: by kind and content, identities aside; numbers by value.
pub fn equal(a: &M, b: &M) -> bool {
    match (&a.v, &b.v) {
        (V::Unit, V::Unit) => true,
        (V::Bool(x), V::Bool(y)) => x == y,
        (V::Num(x), V::Num(y)) => num_same(x, y),
        (V::Str(x), V::Str(y)) => x == y,
        (V::Barr(x), V::Barr(y)) => x == y,
        (V::Tuple(x), V::Cntr(y)) => x.is_empty() && y.is_empty(),
        (V::Cntr(x), V::Tuple(y)) => x.is_empty() && y.is_empty(),
        (V::Tuple(x), V::Tuple(y)) | (V::Seq(x), V::Seq(y)) => {
            x.len() == y.len() && x.iter().zip(y).all(|(x, y)| equal(x, y))
        }
        (V::Cntr(x), V::Cntr(y)) => {
            x.len() == y.len()
                && x.iter()
                    .all(|(n, v)| y.iter().any(|(n2, v2)| n == n2 && equal(v, v2)))
        }
        (V::Map(x), V::Map(y)) => {
            x.len() == y.len()
                && x.iter()
                    .all(|(k, v)| y.iter().any(|(k2, v2)| equal(k, k2) && equal(v, v2)))
        }
        _ => false,
    }
}

/// The value the text denotes: `None` if it denotes none.
pub fn single_line(s: &str) -> (Option<M>, bool) {
    let mut r = Ref { odd: false };
    let v = r.value(ws(s)).and_then(|(v, rest)| {
        if rest.trim_start_matches([' ', '\t', '\r', '\n']).is_empty() {
            Some(v)
        } else {
            None
        }
    });
    (v, r.odd)
}

fn empty_form(v: &V) -> bool {
    match v {
        V::Unit => true,
        V::Tuple(x) => x.is_empty(),
        V::Cntr(x) => x.is_empty(),
        _ => false,
    }
}

fn empty_value(v: &Value) -> bool {
    match v {
        Value::Unit => true,
        Value::Tuple(x) => x.is_empty(),
        Value::Cntr(x) => x.is_empty(),
        _ => false,
    }
}

/// Whether a parsed value is the denoted one, identities included. Empty forms are interchangeable.
pub fn denotes(a: &M, b: &Kserd) -> bool {
    if a.id.as_deref() != Some(ANY) && a.id.as_deref() != b.id.as_ref().map(|x| x.as_str()) {
        return false;
    }
    if empty_form(&a.v) {
        return empty_value(&b.val);
    }
    match (&a.v, &b.val) {
        (V::Bool(x), Value::Bool(y)) => x == y,
        (V::Num(x), Value::Num(y)) => num_same(x, y),
        (V::Str(x), Value::Str(y)) => x == y.as_str(),
        (V::Barr(x), Value::Barr(y)) => x.as_slice() == y.as_bytes(),
        (V::Tuple(x), Value::Tuple(y)) | (V::Seq(x), Value::Seq(y)) => {
            x.len() == y.len() && x.iter().zip(y).all(|(x, y)| denotes(x, y))
        }
        (V::Cntr(x), Value::Cntr(y)) => {
            x.len() == y.len()
                && x.iter()
                    .all(|(n, v)| y.iter().any(|(n2, v2)| n == n2.as_str() && denotes(v, v2)))
        }
        (V::Map(x), Value::Map(y)) => {
            x.len() == y.len()
                && x.iter()
                    .all(|(k, v)| y.iter().any(|(k2, v2)| denotes(k, k2) && denotes(v, v2)))
        }
        _ => false,
    }
}
