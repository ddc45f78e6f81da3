//! P15: equality and ordering of values; maps keyed by values.

use crate::en::*;
use crate::engine::*;
use crate::model::*;
use crate::num::{cmp_exact, exact};
use crate::{Check, Tier};
use kserd::{Kserd, Kstr, Number, Value};
use std::cmp::Ordering;
use std::collections::BTreeMap;
use std::sync::OnceLock;

/// Reference equality: structure and content, identities ignored, an empty tuple equal to an empty
/// container, numbers by exact value, map entries as a set.
pub fn eqref(a: &Kserd, b: &Kserd) -> bool {
    use Value::*;
    let lists = |x: &Vec<Kserd>, y: &Vec<Kserd>| {
        x.len() == y.len() && x.iter().zip(y).all(|(a, b)| eqref(a, b))
    };
    match (&a.val, &b.val) {
        (Tuple(x), Cntr(y)) => x.is_empty() && y.is_empty(),
        (Cntr(x), Tuple(y)) => x.is_empty() && y.is_empty(),
        (Unit, Unit) => true,
        (Bool(x), Bool(y)) => x == y,
        (Num(x), Num(y)) => cmp_exact(exact(x), exact(y)) == Ordering::Equal,
        (Str(x), Str(y)) => x.as_str() == y.as_str(),
        (Barr(x), Barr(y)) => x.as_bytes() == y.as_bytes(),
        (Tuple(x), Tuple(y)) | (Seq(x), Seq(y)) => lists(x, y),
        (Cntr(x), Cntr(y)) => {
            x.len() == y.len()
                && x.iter().all(|(n, v)| {
                    y.iter()
                        .any(|(m, w)| n.as_str() == m.as_str() && eqref(v, w))
                })
        }
        (Map(x), Map(y)) => {
            x.len() == y.len()
                && x.iter()
                    .all(|(n, v)| y.iter().any(|(m, w)| eqref(n, m) && eqref(v, w)))
        }
        _ => false,
    }
}

/// The answers of every comparison operator on one pair, which must tell one story.
fn pair(a: &Kserd, b: &Kserd, cx: &mut Ctx) -> Result<Ordering, Viol> {
    let bad = |what: String| {
        viol(
            format!("{} ~ {}", show(a), show(b)),
            format!("{what}\n a: {}\n b: {}", show(a), show(b)),
        )
    };
    let c = a.cmp(b);
    let want = eqref(a, b);
    cx.ops(14);
    if (a == b) != want {
        return bad(format!("a == b is {}", a == b));
    }
    if (a != b) == want || (a.val == b.val) != want || (b == a) != want {
        return bad("equality operators disagree".into());
    }
    if (c == Ordering::Equal) != want {
        return bad(format!("cmp gives {c:?} but equality {want}"));
    }
    if b.cmp(a) != c.reverse() {
        return bad(format!("cmp gives {c:?} one way and {:?} the other", b.cmp(a)));
    }
    if a.partial_cmp(b) != Some(c) || a.val.cmp(&b.val) != c || a.val.partial_cmp(&b.val) != Some(c)
    {
        return bad(format!("cmp {c:?}, partial_cmp {:?}, of the values {:?} and {:?}", a.partial_cmp(b), a.val.cmp(&b.val), a.val.partial_cmp(&b.val)));
    }
    if (a < b) != (c == Ordering::Less)
        || (a > b) != (c == Ordering::Greater)
        || (a <= b) != (c != Ordering::Greater)
        || (a >= b) != (c != Ordering::Less)
        || (a.val < b.val) != (c == Ordering::Less)
    {
        return bad("comparison operators disagree with cmp".into());
    }
    Ok(c)
}

fn leaves15() -> Vec<M> {
    vec![
        m(V::Unit),
        m(V::Unit).id("U"),
        m(V::Bool(false)),
        m(V::Bool(true)),
        uint(0),
        uint(1),
        int(1).id("i8"),
        flt(1.0),
        flt(-0.0),
        int(-1),
        flt(f64::NAN),
        flt(f64::INFINITY),
        m(V::Num(Number::Uint(u128::MAX))),
        st("").no_id(),
        st("a").no_id(),
        st("b").no_id(),
        st("ab").no_id(),
        ba(&[]).no_id(),
        ba(&[97]).no_id(),
        ba(&[0]).no_id(),
    ]
}

fn small_leaves15() -> Vec<M> {
    vec![
        m(V::Unit),
        m(V::Bool(true)),
        uint(1),
        flt(1.0).id("f"),
        st("a").no_id(),
        ba(&[97]).no_id(),
    ]
}

fn collect(spec: &Spec, n: usize) -> Vec<M> {
    trees(spec, n)
        .iter()
        .flat_map(|e| (0..e.count).map(move |i| e.get(i)))
        .collect()
}

/// Every pair, and by rows every triple, of the listed values.
fn sec_set(name: &'static str, bound: &str, make: fn() -> Vec<M>) -> Section {
    type Row = (Vec<Kserd<'static>>, Vec<Vec<u64>>, Vec<Vec<u64>>);
    static SETS: OnceLock<std::sync::Mutex<std::collections::HashMap<&'static str, &'static Row>>> =
        OnceLock::new();
    let ms = make();
    let n = ms.len() as u64;
    let get = move || -> &'static Row {
        let mut g = SETS
            .get_or_init(Default::default)
            .lock()
            .unwrap_or_else(|e| e.into_inner());
        if let Some(r) = g.get(name) {
            return r;
        }
        let ks: Vec<Kserd<'static>> = ms.iter().map(|m| m.build()).collect();
        let words = ks.len().div_ceil(64);
        let mut lt = vec![vec![0u64; words]; ks.len()];
        let mut eq = vec![vec![0u64; words]; ks.len()];
        for (i, a) in ks.iter().enumerate() {
            for (j, b) in ks.iter().enumerate() {
                match a.cmp(b) {
                    Ordering::Less => lt[i][j / 64] |= 1 << (j % 64),
                    Ordering::Equal => eq[i][j / 64] |= 1 << (j % 64),
                    _ => (),
                }
            }
        }
        let r: &'static Row = Box::leak(Box::new((ks, lt, eq)));
        g.insert(name, r);
        r
    };
    section(name, bound, n, move |i, cx| {
        let (ks, lt, eq) = get();
        let i = i as usize;
        let a = &ks[i];
        cx.state(show(a).as_bytes());
        for (j, b) in ks.iter().enumerate() {
            let c = pair(a, b, cx)?;
            cx.outcome(&[c as u8, kind(&a.val) as u8, kind(&b.val) as u8]);
            // a < b  =>  everything above or equal to b is above a;  a = b  =>  they compare alike
            let (bad, what) = match c {
                Ordering::Less => (
                    (0..lt[i].len()).find(|&w| (lt[j][w] | eq[j][w]) & !lt[i][w] != 0),
                    "a < b and b <= c but not a < c",
                ),
                Ordering::Equal => (
                    (0..lt[i].len()).find(|&w| lt[j][w] != lt[i][w] || eq[j][w] != eq[i][w]),
                    "a = b but they compare differently with c",
                ),
                _ => (None, ""),
            };
            cx.traces += ks.len() as u64;
            if let Some(w) = bad {
                let c = ks[w * 64..]
                    .iter()
                    .take(64)
                    .find(|c| match a.cmp(b) {
                        Ordering::Less => b.cmp(c) != Ordering::Greater && a.cmp(c) != Ordering::Less,
                        _ => b.cmp(c) != a.cmp(c),
                    });
                let c = c.map_or("?".into(), show);
                return viol(
                    format!("{} ~ {} ~ {c}", show(a), show(b)),
                    format!("{what}\n a: {}\n b: {}\n c: {c}", show(a), show(b)),
                );
            }
        }
        cx.sample(|| show(a));
        Ok(())
    })
}

/// Every assignment of identities to the nodes of small trees: equal to the bare tree, and ordered
/// against every other tree as the bare tree is.
fn sec_ids(n: usize) -> Section {
    let spec = Spec {
        leaves: vec![m(V::Unit), uint(1), st("a").no_id()],
        ids: vec![None],
        names: vec!["a", "b", "c"],
        empties: true,
    };
    let all = sum(trees(&spec, n));
    let others = collect(&spec, 3.min(n));
    const CH: [Option<&str>; 3] = [None, Some("A"), Some("b")];
    section(
        "identities",
        format!("every tree of up to {n} nodes x every assignment of no identity or one of two, against every tree of up to 3 nodes"),
        all.count,
        move |i, cx| {
            let t = all.get(i);
            let bare = t.build();
            let rest: Vec<Kserd> = others.iter().map(|m| m.build()).collect();
            let want: Vec<Ordering> = rest.iter().map(|r| bare.cmp(r)).collect();
            let size = t.size();
            for a in 0..pow(3, size) {
                let d = digits(a, 3, size);
                let mut p = 0;
                let k = named(&t, &d, &CH, &mut p).build();
                cx.state(show(&k).as_bytes());
                if pair(&k, &bare, cx)? != Ordering::Equal {
                    return viol(
                        format!("ids {}", show(&k)),
                        format!("identities change the order: {} and {}", show(&k), show(&bare)),
                    );
                }
                for (r, w) in rest.iter().zip(&want) {
                    if k.cmp(r) != *w || (k == *r) != (*w == Ordering::Equal) || r.cmp(&k) != w.reverse() {
                        return viol(
                            format!("ids {} ~ {}", show(&k), show(r)),
                            format!("{} compares {:?} with {} but without identities {:?}", show(&k), k.cmp(r), show(r), w),
                        );
                    }
                    cx.ops(3);
                }
                cx.trace();
            }
            cx.sample(|| show(&bare));
            Ok(())
        },
    )
}

/// `t` with the identity of its p-th node (depth first, keys before values) chosen by `d`.
pub fn named(t: &M, d: &[usize], ch: &[Option<&str>], p: &mut usize) -> M {
    let id = ch[d[*p]].map(|s| s.to_string());
    *p += 1;
    let v = match &t.v {
        V::Tuple(x) => V::Tuple(x.iter().map(|c| named(c, d, ch, p)).collect()),
        V::Seq(x) => V::Seq(x.iter().map(|c| named(c, d, ch, p)).collect()),
        V::Cntr(x) => V::Cntr(
            x.iter()
                .map(|(n, c)| (n.clone(), named(c, d, ch, p)))
                .collect(),
        ),
        V::Map(x) => V::Map(
            x.iter()
                .map(|(k, c)| (named(k, d, ch, p), named(c, d, ch, p)))
                .collect(),
        ),
        v => v.clone(),
    };
    M { id, v }
}

fn keys15() -> Vec<M> {
    vec![
        uint(1),
        int(1).id("i8"),
        flt(1.0),
        flt(f64::NAN),
        m(V::Tuple(vec![])),
        m(V::Cntr(vec![])).id("E"),
        m(V::Unit),
        m(V::Tuple(vec![m(V::Unit)])),
        m(V::Cntr(vec![("a".into(), m(V::Unit))])),
        st("1").no_id(),
        m(V::Seq(vec![uint(1)])),
        m(V::Map(vec![(uint(1), m(V::Unit))])),
    ]
}

/// A map as an association list under reference equality.
#[derive(Default, Clone)]
struct Assoc(Vec<(Kserd<'static>, u128)>);

impl Assoc {
    fn pos(&self, k: &Kserd) -> Option<usize> {
        self.0.iter().position(|e| eqref(&e.0, k))
    }
    fn insert(&mut self, k: &Kserd<'static>, v: u128) -> Option<u128> {
        match self.pos(k) {
            Some(p) => Some(std::mem::replace(&mut self.0[p].1, v)),
            None => {
                self.0.push((k.clone(), v));
                None
            }
        }
    }
    fn remove(&mut self, k: &Kserd) -> Option<u128> {
        self.pos(k).map(|p| self.0.remove(p).1)
    }
}

fn num_of(k: &Kserd) -> u128 {
    match &k.val {
        Value::Num(Number::Uint(n)) => *n,
        _ => u128::MAX,
    }
}

fn agrees(map: &BTreeMap<Kserd, Kserd>, model: &Assoc, keys: &[Kserd<'static>]) -> Result<(), String> {
    if map.len() != model.0.len() {
        return Err(format!("{} entries where {} are expected", map.len(), model.0.len()));
    }
    for k in keys {
        let got = map.get(k).map(num_of);
        let want = model.pos(k).map(|p| model.0[p].1);
        if got != want {
            return Err(format!("lookup of {} finds {got:?}, expected {want:?}", show(k)));
        }
    }
    let mut last: Option<&Kserd> = None;
    for (k, v) in map {
        match model.pos(k) {
            Some(p) if model.0[p].1 == num_of(v) => (),
            _ => return Err(format!("entry {} => {} is not expected", show(k), show(v))),
        }
        if let Some(l) = last {
            if l.cmp(k) != Ordering::Less {
                return Err(format!("{} stands before {}", show(l), show(k)));
            }
        }
        last = Some(k);
    }
    Ok(())
}

/// Every history of insertions and removals on a live map, and every list of entries given at once.
fn sec_hist(depth: usize) -> Section {
    let keys: Vec<Kserd<'static>> = keys15().iter().map(|m| m.build()).collect();
    let nk = keys.len() as u64;
    section(
        "histories",
        format!("every history of 1 to {depth} insertions or removals over {nk} keys (several of them equal), checked after every step"),
        strings_count(2 * nk, 1, depth),
        move |i, cx| {
            let h = nth_string(i, 2 * nk, 1, depth);
            let mut k = Kserd::new_map(Vec::<(Kserd, Kserd)>::new());
            let mut model = Assoc::default();
            let n = keys.len();
            let bad = |step: usize, e: String| {
                viol(
                    format!("history {:?}", h),
                    format!("after step {step} of {:?} (op < {n}: insert key op, else remove key op-{n}): {e}\n keys: {:?}", h, keys.iter().map(show).collect::<Vec<_>>()),
                )
            };
            for (s, &op) in h.iter().enumerate() {
                let key = &keys[op % n];
                let map = k.map_mut().expect("a map");
                let (got, want) = if op < n {
                    (
                        map.insert(key.clone(), Kserd::new(Value::new_num(s as u64))).map(|v| num_of(&v)),
                        model.insert(key, s as u128),
                    )
                } else {
                    (map.remove(key).map(|v| num_of(&v)), model.remove(key))
                };
                cx.op();
                if got != want {
                    return bad(s, format!("the call gave {got:?}, expected {want:?}"));
                }
            }
            if let Err(e) = agrees(k.map().unwrap(), &model, &keys) {
                return bad(h.len(), e);
            }
            cx.trace();
            cx.outcome(&[model.0.len() as u8, h.len() as u8]);
            let mut st: Vec<String> = model.0.iter().map(|e| format!("{}={}", show(&e.0), e.1)).collect();
            st.sort();
            cx.state(st.join(",").as_bytes());
            cx.sample(|| format!("{:?} -> {}", h, show(&k)));
            // the insertions alone, given at once
            if h.iter().all(|&o| o < n) {
                let mut model = Assoc::default();
                let mut list = Vec::new();
                for (s, &op) in h.iter().enumerate() {
                    model.insert(&keys[op], s as u128);
                    list.push((keys[op].clone(), Kserd::new(Value::new_num(s as u64))));
                }
                let k2 = Kserd::new_map(list.clone());
                cx.op();
                if let Err(e) = agrees(k2.map().expect("a map"), &model, &keys) {
                    return bad(h.len(), format!("given at once: {e}"));
                }
                if !(Value::new_map(list) == k2.val) {
                    return bad(h.len(), "Value::new_map differs from Kserd::new_map".into());
                }
                // the order of insertion does not matter as long as the winners are the same
                let mut rev: Vec<_> = k2.map().unwrap().iter().map(|(a, b)| (a.clone(), b.clone())).collect();
                rev.reverse();
                let k3 = Kserd::new_map(rev);
                if pair(&k2, &k3, cx)? != Ordering::Equal {
                    return bad(h.len(), "order of insertion changes the map".into());
                }
                cx.trace();
            }
            Ok(())
        },
    )
}

/// Borrowed and owned leaves compare alike.
fn sec_brw() -> Section {
    let strs = ["", "a", "b", "ab", "é", "\u{1F600}", "a\0", "A"];
    let n = strs.len() as u64;
    section(
        "borrowed",
        "every pair of 8 strings / byte arrays, borrowed against owned",
        n * n,
        move |i, cx| {
            let (a, b) = (strs[(i / n) as usize], strs[(i % n) as usize]);
            let ks = |s: &'static str| {
                [
                    Kserd::new(Value::Str(Kstr::brwed(s))),
                    Kserd::new(Value::Str(Kstr::owned(s.to_string()))),
                    Kserd::new_str(s),
                    Kserd::new_string(s.to_string()),
                ]
            };
            let bs = |s: &'static str| {
                [
                    Kserd::new_barr(s.as_bytes()),
                    Kserd::new_barrv(s.as_bytes().to_vec()),
                ]
            };
            let mut first = None;
            for x in ks(a) {
                for y in ks(b) {
                    let c = pair(&x, &y, cx)?;
                    if *first.get_or_insert(c) != c {
                        return viol(format!("borrowed {a:?} {b:?}"), "the order depends on who owns the string");
                    }
                    cx.trace();
                }
            }
            let mut first = None;
            for x in bs(a) {
                for y in bs(b) {
                    let c = pair(&x, &y, cx)?;
                    if *first.get_or_insert(c) != c {
                        return viol(format!("borrowed bytes {a:?} {b:?}"), "the order depends on who owns the bytes");
                    }
                    cx.trace();
                }
            }
            cx.state(format!("{a:?}/{b:?}").as_bytes());
            cx.sample(|| format!("{a:?} against {b:?}"));
            Ok(())
        },
    )
}

fn set_leaves() -> Vec<M> {
    collect(
        &Spec {
            leaves: leaves15(),
            ids: vec![None],
            names: vec!["a", "b"],
            empties: true,
        },
        2,
    )
}

fn set_small() -> Vec<M> {
    collect(
        &Spec {
            leaves: small_leaves15(),
            ids: vec![None],
            names: vec!["a", "b"],
            empties: true,
        },
        3,
    )
}

fn set_four() -> Vec<M> {
    collect(
        &Spec {
            leaves: vec![uint(1), flt(1.0).id("f"), st("a").no_id()],
            ids: vec![None],
            names: vec!["a", "b", "c"],
            empties: true,
        },
        4,
    )
}

/// Field names: containers that differ in which names they have.
fn set_names() -> Vec<M> {
    let names = ["a", "b", "aa", "A", "é"];
    let vals = [uint(0), uint(1)];
    let mut v = Vec::new();
    for mask in 0..(1u32 << names.len()) {
        let sel: Vec<_> = (0..names.len()).filter(|i| mask >> i & 1 == 1).collect();
        if sel.len() > 3 {
            continue;
        }
        for x in 0..(1u32 << sel.len()) {
            v.push(m(V::Cntr(
                sel.iter()
                    .enumerate()
                    .map(|(p, &i)| (names[i].to_string(), vals[(x >> p & 1) as usize].clone()))
                    .collect(),
            )));
        }
    }
    // the same entries as a map, a sequence and a tuple
    for c in v.clone() {
        if let V::Cntr(f) = &c.v {
            v.push(m(V::Map(f.iter().map(|(n, c)| (st(n).no_id(), c.clone())).collect())));
            if f.iter().all(|x| x.0.is_ascii()) {
                v.push(m(V::Seq(f.iter().map(|x| x.1.clone()).collect())));
                v.push(m(V::Tuple(f.iter().map(|x| x.1.clone()).collect())));
            }
        }
    }
    v
}

/// A group of `n` members of which number `p` holds `x`, the others their own number.
fn member(kd: u64, n: u64, p: u64, x: usize) -> M {
    let xs = [uint(5000), int(-3), st("a").no_id(), m(V::Tuple(vec![uint(1), uint(2), uint(3), uint(4)]))];
    let at = |i: u64| if i == p { xs[x].clone() } else { uint(i) };
    let field = |i: u64| format!("f{i:04}");
    m(match kd {
        0 => V::Tuple((0..n).map(at).collect()),
        1 => V::Seq((0..n).map(at).collect()),
        2 => V::Cntr((0..n).map(|i| (field(i), at(i))).collect()),
        3 => V::Map((0..n).map(|i| (uint(i), at(i))).collect()),
        4 => V::Map((0..n).map(|i| (at(i), uint(0))).collect()),
        5 => V::Cntr((0..n).map(|i| (if i == p { format!("{}{x}", field(i)) } else { field(i) }, uint(0))).collect()),
        6 => V::Str((0..n).map(|i| if i == p { ['a', 'c', 'é', 'B'][x] } else { 'b' }).collect()),
        _ => V::Barr((0..n).map(|i| if i == p { [0, 2, 128, 255][x] } else { 1 }).collect()),
    })
}

/// Long groups, strings and byte arrays that differ in one member, at every place and length.
fn sec_long(maxn: u64) -> Section {
    section(
        "long",
        format!("groups of 7 forms, strings and byte arrays of 1..={maxn} members, changed at every place in 4 ways, every pair and triple of the variants"),
        8 * maxn,
        move |i, cx| {
            let (kd, n) = (i % 8, i / 8 + 1);
            let plain = member(kd, n, n, 0).build();
            let short = member(kd, n - 1, n, 0).build();
            cx.state(show(&plain).as_bytes());
            if pair(&plain, &short, cx)? == Ordering::Equal {
                return viol(format!("long {kd} {n}"), "a group equals one with a member less".to_string());
            }
            for p in 0..n {
                let mut all = vec![plain.clone(), short.clone()];
                all.extend((0..4).map(|x| member(kd, n, p, x).build()));
                for a in &all {
                    for b in &all {
                        let ab = pair(a, b, cx)?;
                        for c in &all {
                            if ab != Ordering::Greater && b.cmp(c) != Ordering::Greater && a.cmp(c) == Ordering::Greater {
                                return viol(format!("long {kd} {n} {p}"), format!("a <= b and b <= c but a > c\n a: {}\n b: {}\n c: {}", show(a), show(b), show(c)));
                            }
                        }
                        cx.ops(all.len() as u64 * 2);
                    }
                    cx.trace();
                }
            }
            cx.outcome(&[kd as u8]);
            cx.sample(|| show(&plain));
            Ok(())
        },
    )
}

/// Chains of every nesting pattern of period two that differ at the bottom only, or in identities only.
fn sec_deep(maxd: u64) -> Section {
    section(
        "deep",
        format!("chains of every pattern of period two over 5 ways to nest, 1..={maxd} deep, that differ in an identity or in the content at one depth"),
        25 * maxd,
        move |i, cx| {
            let (q, d) = (i / maxd, i % maxd + 1);
            let chain = |bottom: M, at: u64, id: Option<&str>, twin: bool| {
                let mut t = bottom;
                for l in 0..d {
                    let more = twin && l == at;
                    let mut v = match if l % 2 == 0 { q / 5 } else { q % 5 } {
                        0 => V::Tuple(vec![t]),
                        1 => V::Seq(vec![t]),
                        2 => V::Cntr(vec![("a".into(), t)]),
                        3 => V::Map(vec![(uint(1), t)]),
                        _ => V::Map(vec![(t, uint(1))]),
                    };
                    if more {
                        match &mut v {
                            V::Tuple(x) | V::Seq(x) => x.push(uint(1)),
                            V::Cntr(x) => x.push(("b".into(), uint(1))),
                            V::Map(x) => x.push((m(V::Bool(true)), uint(1))),
                            _ => unreachable!(),
                        }
                    }
                    t = m(v);
                    if l == at {
                        t.id = id.map(|s| s.to_string());
                    }
                }
                t.build()
            };
            let plain = chain(uint(1), d, None, false);
            cx.state(show(&plain).as_bytes());
            for at in 0..d {
                let named = chain(uint(1), at, Some("A"), false);
                if pair(&plain, &named, cx)? != Ordering::Equal {
                    return viol(format!("deep {}", show(&named)), format!("an identity changes the order: {} and {}", show(&plain), show(&named)));
                }
                let all = [
                    plain.clone(),
                    chain(uint(2), at, Some("A"), false),
                    chain(uint(1), at, None, true),
                    chain(st("x").no_id(), at, Some("B"), true),
                ];
                for a in &all {
                    for b in &all {
                        let ab = pair(a, b, cx)?;
                        if ab != named.cmp(b) && std::ptr::eq(a, &all[0]) {
                            return viol(format!("deep {}", show(&named)), format!("an identity changes the order against {}", show(b)));
                        }
                        for c in &all {
                            if ab != Ordering::Greater && b.cmp(c) != Ordering::Greater && a.cmp(c) == Ordering::Greater {
                                return viol(format!("deep {} {}", show(a), show(b)), format!("a <= b and b <= c but a > c\n a: {}\n b: {}\n c: {}", show(a), show(b), show(c)));
                            }
                        }
                        cx.ops(9);
                    }
                    cx.trace();
                }
            }
            cx.sample(|| show(&plain));
            Ok(())
        },
    )
}

pub fn p15(t: Tier) -> Check {
    let mut sections = vec![
        sec_brw(),
        sec_set("leaves", "every pair and triple of the trees of up to 2 nodes over 20 leaves", set_leaves),
        sec_set("names", "every pair and triple of containers over 5 field names (up to 3 fields) and the maps, sequences and tuples with the same contents", set_names),
        sec_set("small", "every pair and triple of the trees of up to 3 nodes over 6 leaves", set_small),
        sec_ids(t.pick(4, 5)),
        sec_hist(t.pick(4, 5)),
        sec_long(t.pick(70, 200)),
        sec_deep(t.pick(24, 40)),
    ];
    if t == Tier::Thorough {
        sections.push(sec_set("four", "every pair and triple of the trees of up to 4 nodes over 3 leaves", set_four));
    }
    Check {
        sections,
        assumptions: vec![
            "which of two unequal values is the smaller is not prescribed, only that the order is a total one that agrees with equality",
            "an empty tuple and an empty container are equal, as documented by the equality of the crate",
        ],
        rule: "all comparison operators of every pair agree with a reference equality and with each other; all triples are transitive; identities change nothing; maps behave as an association list under reference equality",
    }
}
