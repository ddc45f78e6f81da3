//! P19 ownership, P20 navigation, P21 accessors and mutation, P22 names.

use crate::en::*;
use crate::engine::*;
use crate::model::*;
use crate::p_val::named;
use crate::{Check, Tier};
use kserd::nav::{Navigator, Node, NodeValue};
use kserd::{Barr, Kserd, Kstr, Number, Value};
use std::borrow::{Borrow, Cow};
use std::collections::hash_map::DefaultHasher;
use std::collections::{BTreeMap, BTreeSet, HashSet};
use std::hash::{Hash, Hasher};

fn mixed_leaves() -> Vec<M> {
    vec![
        m(V::Unit),
        m(V::Bool(true)),
        int(-1),
        st("a\n\"").no_id(),
        ba(&[0, 255]).no_id(),
    ]
}

fn spec(leaves: Vec<M>) -> Spec {
    Spec {
        leaves,
        ids: vec![None],
        names: vec!["a", "b", "c", "d", "e"],
        empties: true,
    }
}

// ------------------------------------------------------------------------------------- P19

/// Builds `m` borrowing from it wherever `own` says no; one question per identity, name and leaf.
fn mixed<'b>(x: &'b M, own: &mut dyn FnMut() -> bool) -> Kserd<'b> {
    let mut s = |s: &'b str| -> Kstr<'b> {
        if own() {
            Kstr::owned(s.to_string())
        } else {
            Kstr::brwed(s)
        }
    };
    let id = x.id.as_ref().map(|i| s(i));
    let val = match &x.v {
        V::Unit => Value::Unit,
        V::Bool(b) => Value::Bool(*b),
        V::Num(n) => Value::Num(*n),
        V::Str(t) => Value::Str(s(t)),
        V::Barr(b) => Value::Barr(if own() {
            Barr::owned(b.clone())
        } else {
            Barr::brwed(b)
        }),
        V::Tuple(c) => Value::Tuple(c.iter().map(|c| mixed(c, own)).collect()),
        V::Seq(c) => Value::Seq(c.iter().map(|c| mixed(c, own)).collect()),
        V::Cntr(c) => {
            let mut t = BTreeMap::new();
            for (n, c) in c {
                let n = if own() {
                    Kstr::owned(n.clone())
                } else {
                    Kstr::brwed(n)
                };
                t.insert(n, mixed(c, own));
            }
            Value::Cntr(t)
        }
        V::Map(c) => {
            let mut t = BTreeMap::new();
            for (k, c) in c {
                let k = mixed(k, own);
                t.insert(k, mixed(c, own));
            }
            Value::Map(t)
        }
    };
    Kserd { id, val }
}

/// The same value in memory of its own, made without the crate's conversions.
fn plain(k: &Kserd) -> M {
    let v = match &k.val {
        Value::Unit => V::Unit,
        Value::Bool(b) => V::Bool(*b),
        Value::Num(n) => V::Num(*n),
        Value::Str(s) => V::Str(s.inner.as_ref().to_string()),
        Value::Barr(b) => V::Barr(b.inner.as_ref().to_vec()),
        Value::Tuple(x) => V::Tuple(x.iter().map(plain).collect()),
        Value::Seq(x) => V::Seq(x.iter().map(plain).collect()),
        Value::Cntr(x) => V::Cntr(
            x.iter()
                .map(|(n, c)| (n.inner.as_ref().to_string(), plain(c)))
                .collect(),
        ),
        Value::Map(x) => V::Map(x.iter().map(|(a, b)| (plain(a), plain(b))).collect()),
    };
    M {
        id: k.id.as_ref().map(|s| s.inner.as_ref().to_string()),
        v,
    }
}

const STEPS: [&str; 9] = [
    "clone",
    "into_owned",
    "mk_brw",
    "value clone",
    "value into_owned",
    "value mk_brw",
    "edit strings",
    "edit bytes",
    "rename",
];

/// Edits every string / byte array / identity of a value that is not a map key.
fn edit(k: &mut Kserd, what: usize) {
    match what {
        0 => {
            if let Some(s) = k.str_mut() {
                s.push_str("!x");
            }
        }
        1 => {
            if let Some(b) = k.barr_mut() {
                b.push(7);
                b[0] ^= 1;
            }
        }
        _ => {
            if let Some(id) = &mut k.id {
                id.to_mut().push('9');
            }
        }
    }
    match &mut k.val {
        Value::Tuple(x) | Value::Seq(x) => x.iter_mut().for_each(|c| edit(c, what)),
        Value::Cntr(x) => x.values_mut().for_each(|c| edit(c, what)),
        Value::Map(x) => x.values_mut().for_each(|c| edit(c, what)),
        _ => (),
    }
}

fn edit_m(k: &mut M, what: usize) {
    match (what, &mut k.v) {
        (0, V::Str(s)) => s.push_str("!x"),
        (1, V::Barr(b)) => {
            b.push(7);
            b[0] ^= 1;
        }
        _ => (),
    }
    if what == 2 {
        if let Some(id) = &mut k.id {
            id.push('9');
        }
    }
    match &mut k.v {
        V::Tuple(x) | V::Seq(x) => x.iter_mut().for_each(|c| edit_m(c, what)),
        V::Cntr(x) => x.iter_mut().for_each(|c| edit_m(&mut c.1, what)),
        V::Map(x) => x.iter_mut().for_each(|c| edit_m(&mut c.1, what)),
        _ => (),
    }
}

fn shown_m(x: &M) -> String {
    show(&x.build())
}

fn walk(k: &Kserd, model: &M, path: &mut Vec<usize>, depth: usize, cx: &mut Ctx) -> Res {
    let want = shown_m(model);
    let bad = |path: &[usize], what: String| {
        let p: Vec<_> = path.iter().map(|&s| STEPS[s]).collect();
        viol(
            format!("{} after {:?}", want, p),
            format!("after {p:?}: {what}"),
        )
    };
    if show(k) != want {
        return bad(path, format!("{} where {} is expected", show(k), want));
    }
    cx.trace();
    cx.outcome(&[path.len() as u8, *path.last().unwrap_or(&99) as u8]);
    if depth == 0 {
        return Ok(());
    }
    for s in 0..STEPS.len() {
        path.push(s);
        cx.op();
        let id = || k.id.clone();
        match s {
            0 => {
                let c = k.clone();
                if !(c == *k) {
                    return bad(path, "a clone is not equal to its source".into());
                }
                walk(&c, model, path, depth - 1, cx)?
            }
            1 => {
                let c: Kserd<'static> = k.clone().into_owned();
                if !(c == *k) {
                    return bad(path, "an owned copy is not equal to its source".into());
                }
                walk(&c, model, path, depth - 1, cx)?
            }
            2 => {
                let c = k.mk_brw();
                if !(c == *k) {
                    return bad(path, "a view is not equal to its source".into());
                }
                walk(&c, model, path, depth - 1, cx)?
            }
            3 => {
                let c = Kserd {
                    id: id(),
                    val: k.val.clone(),
                };
                walk(&c, model, path, depth - 1, cx)?
            }
            4 => {
                let c = Kserd {
                    id: id(),
                    val: k.val.clone().into_owned(),
                };
                walk(&c, model, path, depth - 1, cx)?
            }
            5 => {
                let c = Kserd {
                    id: id(),
                    val: k.val.mk_brw(),
                };
                walk(&c, model, path, depth - 1, cx)?
            }
            _ => {
                let mut c = if path.len() % 2 == 0 {
                    k.clone()
                } else {
                    k.mk_brw()
                };
                edit(&mut c, s - 6);
                let mut mm = model.clone();
                edit_m(&mut mm, s - 6);
                walk(&c, &mm, path, depth - 1, cx)?
            }
        }
        if show(k) != want {
            return bad(path, format!("the source became {}", show(k)));
        }
        path.pop();
    }
    Ok(())
}

fn sec_own(n: usize, depth: usize) -> Section {
    let all = sum(trees(&spec(mixed_leaves()), n));
    const CH: [Option<&str>; 2] = [None, Some("Id")];
    section(
        "conversions",
        format!("every tree of up to {n} nodes x every choice of nodes with identities x leaves, names and identities all borrowed, all owned or alternating x every history of {depth} conversions or edits"),
        all.count,
        move |i, cx| {
            let t = all.get(i);
            let n = t.size();
            for a in 0..pow(2, n) {
                let mut p = 0;
                let t = named(&t, &digits(a, 2, n), &CH, &mut p);
                for style in 0..4u8 {
                    let mut q = 0u32;
                    let mut own = || {
                        q += 1;
                        match style {
                            0 => false,
                            1 => true,
                            2 => q % 2 == 0,
                            _ => q % 2 == 1,
                        }
                    };
                    // the source of the borrows is freed before the owned copy is looked at
                    let src = Box::new(t.clone());
                    let k = mixed(&src, &mut own);
                    // maps drop entries with equal keys
                    let model = plain(&k);
                    cx.state(format!("{style}{}", show(&k)).as_bytes());
                    walk(&k, &model, &mut Vec::new(), depth, cx)?;
                    let copy: Kserd<'static> = k.into_owned();
                    drop(src);
                    let noise: Vec<String> = (0..4).map(|_| "#".repeat(8)).collect();
                    if show(&copy) != shown_m(&model) {
                        return viol(
                            format!("owned {}", shown_m(&model)),
                            format!("an owned copy changed to {} when its source was freed {}", show(&copy), noise.len()),
                        );
                    }
                    cx.trace();
                    cx.sample(|| show(&copy));
                }
            }
            Ok(())
        },
    )
}

fn hash_of<T: Hash + ?Sized>(t: &T) -> u64 {
    let mut h = DefaultHasher::new();
    t.hash(&mut h);
    h.finish()
}

/// Copy-on-write strings and byte arrays: every history of clones, conversions and edits over a
/// family of three live handles, each mirrored by a plain string.
fn sec_cow(depth: usize) -> Section {
    const SRC: [&str; 4] = ["", "a", "é\"\n", "\u{1F600}xyz"];
    // op = (kind, target handle)
    const KINDS: u64 = 6;
    let per = KINDS * 2;
    section(
        "copy-on-write",
        format!("4 sources x every history of 1 to {depth} of {per} operations on two handles of one string and one byte array"),
        4 * strings_count(per, 1, depth),
        move |i, cx| {
            let n = strings_count(per, 1, depth);
            let src = SRC[(i / n) as usize];
            let h = nth_string(i % n, per, 1, depth);
            let buf = src.to_string();
            let bytes = src.as_bytes().to_vec();
            let mut ks: Vec<Kstr> = vec![Kstr::brwed(&buf), Kstr::from(buf.as_str())];
            let mut bs: Vec<Barr> = vec![Barr::brwed(&bytes), Barr::from(bytes.as_slice())];
            let mut ms: Vec<String> = vec![buf.clone(), buf.clone()];
            let mut mb: Vec<Vec<u8>> = vec![bytes.clone(), bytes.clone()];
            for &op in &h {
                let (kind, t) = (op / 2, op % 2);
                let o = 1 - t;
                cx.ops(2);
                match kind {
                    0 => {
                        ks[t].to_mut().push('z');
                        ms[t].push('z');
                        bs[t].to_mut().push(9);
                        mb[t].push(9);
                    }
                    1 => {
                        ks[t] = ks[t].clone().into_owned();
                        bs[t] = bs[t].clone().into_owned();
                    }
                    2 => {
                        ks[o] = ks[t].clone();
                        ms[o] = ms[t].clone();
                        bs[o] = bs[t].clone();
                        mb[o] = mb[t].clone();
                    }
                    3 => {
                        ks[t].to_mut().clear();
                        ms[t].clear();
                        bs[t].to_mut().clear();
                        mb[t].clear();
                    }
                    4 => {
                        ks[t] = Kstr::from(buf.clone());
                        ms[t] = buf.clone();
                        bs[t] = Barr::from(bytes.clone());
                        mb[t] = bytes.clone();
                    }
                    _ => {
                        ks[t].to_mut().insert(0, 'é');
                        ms[t].insert(0, 'é');
                        bs[t].to_mut().insert(0, 255);
                        mb[t].insert(0, 255);
                    }
                }
                let bad = |what: String| {
                    viol(
                        format!("cow {src:?} {h:?}"),
                        format!("source {src:?}, history {h:?} (op/2: push, own, copy to other, clear, fresh, insert; op%2: handle): {what}"),
                    )
                };
                for x in 0..2 {
                    let (k, w) = (&ks[x], &ms[x]);
                    let bw: &str = k.borrow();
                    let rw: &str = k.as_ref();
                    let dw: &str = k;
                    if k.as_str() != w || bw != w || rw != w || dw != w || k.to_string() != *w {
                        return bad(format!("handle {x} reads {:?}, expected {w:?}", k.as_str()));
                    }
                    if format!("{k:?}") != format!("{w:?}") {
                        return bad(format!("debug text {k:?}"));
                    }
                    let same = ms[0].cmp(&ms[1]);
                    if ks[0].cmp(&ks[1]) != same
                        || (ks[0] == ks[1]) != (ms[0] == ms[1])
                        || ks[0].partial_cmp(&ks[1]) != Some(same)
                        || (*k == *ms[1 - x].as_str()) != (ms[x] == ms[1 - x])
                        || hash_of(k) != hash_of(w.as_str())
                    {
                        return bad("comparisons or hashes differ from those of the strings".into());
                    }
                    let (b, w) = (&bs[x], &mb[x]);
                    let rb: &[u8] = b.as_ref();
                    let db: &[u8] = b;
                    if b.as_bytes() != w || rb != w || db != w || format!("{b:?}") != format!("{w:?}") {
                        return bad(format!("byte handle {x} reads {:?}, expected {w:?}", b.as_bytes()));
                    }
                    if bs[0].cmp(&bs[1]) != mb[0].cmp(&mb[1])
                        || (bs[0] == bs[1]) != (mb[0] == mb[1])
                        || (*b == *mb[1 - x].as_slice()) != (mb[x] == mb[1 - x])
                    {
                        return bad("comparisons differ from those of the bytes".into());
                    }
                }
                if ks.iter().any(|k| matches!(&k.inner, Cow::Borrowed(b) if b.as_ptr() != buf.as_ptr() && !b.is_empty())) {
                    return bad("a handle borrows from somewhere else".into());
                }
                if buf != src || bytes != src.as_bytes() {
                    return bad("the source changed".into());
                }
                cx.trace();
            }
            cx.state(format!("{ms:?}{mb:?}").as_bytes());
            cx.sample(|| format!("{src:?} {h:?} -> {ms:?}"));
            let set: HashSet<Kstr> = ks.iter().cloned().collect();
            let ord: BTreeSet<Kstr> = ks.iter().cloned().collect();
            for w in &ms {
                if !set.contains(w.as_str()) || !ord.contains(w.as_str()) {
                    return viol(format!("cow {src:?} {h:?}"), format!("{w:?} is not found in a set that holds it"));
                }
            }
            Ok(())
        },
    )
}

pub fn p19(t: Tier) -> Check {
    Check {
        sections: vec![sec_cow(t.pick(5, 6)), sec_own(3, t.pick(3, 4)), sec_own2(t)],
        assumptions: vec![
            "the language guarantees that a value with static lifetime does not borrow from a shorter-lived buffer, as the crate contains no unsafe code",
        ],
        rule: "after every conversion or edit each live value, source and buffer reads exactly as the plain model says",
    }
}

fn sec_own2(t: Tier) -> Section {
    let mut s = match t {
        Tier::Quick => sec_own(4, 2),
        Tier::Thorough => sec_own(4, 3),
    };
    s.name = "wider".into();
    s
}

// ------------------------------------------------------------------------------------- P20

struct R<'a, 'k> {
    k: &'a Kserd<'k>,
    parent: Option<usize>,
    key: bool,
    pos: usize,
    name: Option<&'a str>,
    keys: Vec<usize>,
    vals: Vec<usize>,
}

fn lay<'a, 'k>(
    k: &'a Kserd<'k>,
    parent: Option<usize>,
    key: bool,
    pos: usize,
    name: Option<&'a str>,
    out: &mut Vec<R<'a, 'k>>,
) -> usize {
    let me = out.len();
    out.push(R {
        k,
        parent,
        key,
        pos,
        name,
        keys: vec![],
        vals: vec![],
    });
    match &k.val {
        Value::Tuple(x) | Value::Seq(x) => {
            for (i, c) in x.iter().enumerate() {
                let j = lay(c, Some(me), false, i, None, out);
                out[me].vals.push(j);
            }
        }
        Value::Cntr(x) => {
            for (i, (n, c)) in x.iter().enumerate() {
                let j = lay(c, Some(me), false, i, Some(n.as_str()), out);
                out[me].vals.push(j);
            }
        }
        Value::Map(x) => {
            for (i, (n, c)) in x.iter().enumerate() {
                let j = lay(n, Some(me), true, i, None, out);
                out[me].keys.push(j);
                let j = lay(c, Some(me), false, i, None, out);
                out[me].vals.push(j);
            }
        }
        _ => (),
    }
    me
}

fn breadth(r: &[R], from: usize) -> Vec<usize> {
    let mut out = Vec::new();
    let mut q = std::collections::VecDeque::new();
    q.push_back(from);
    while let Some(i) = q.pop_front() {
        for &c in r[i].keys.iter().chain(&r[i].vals) {
            out.push(c);
            q.push_back(c);
        }
    }
    out
}

fn below(r: &[R], i: usize) -> usize {
    r[i].keys
        .iter()
        .chain(&r[i].vals)
        .map(|&c| 1 + below(r, c))
        .sum()
}

fn nav_node(r: &[R], n: &Node, i: usize, cx: &mut Ctx) -> Result<(), String> {
    let w = &r[i];
    cx.ops(9);
    if n.index() != i {
        return Err(format!("index {} where {i} is expected", n.index()));
    }
    if !std::ptr::eq(n.kserd(), w.k) {
        return Err(format!("node {i} holds {}, expected {}", show(n.kserd()), show(w.k)));
    }
    if n.parent().map(|p| p.index()) != w.parent {
        return Err(format!("parent of {i} is {:?}, expected {:?}", n.parent().map(|p| p.index()), w.parent));
    }
    if n.is_key() != w.key {
        return Err(format!("is_key of {i} is {}", n.is_key()));
    }
    if n.idx_in_parent() != w.pos {
        return Err(format!("idx_in_parent of {i} is {}, expected {}", n.idx_in_parent(), w.pos));
    }
    let ix = |v: Vec<Node>| v.iter().map(|n| n.index()).collect::<Vec<_>>();
    let vc: Vec<usize> = n.value_children().map(|c| c.index()).collect();
    let kc: Vec<usize> = n.key_children().map(|c| c.index()).collect();
    if vc != w.vals || kc != w.keys {
        return Err(format!("children of {i}: values {vc:?}, keys {kc:?}; expected {:?} and {:?}", w.vals, w.keys));
    }
    if n.value_children().len() != vc.len()
        || n.key_children().len() != kc.len()
        || n.value_children().is_empty() != vc.is_empty()
        || n.key_children().is_empty() != kc.is_empty()
    {
        return Err(format!("lengths of the child iterators of {i}"));
    }
    let dd = ix(n.descendants_depth());
    let want: Vec<usize> = (i + 1..=i + below(r, i)).collect();
    if dd != want {
        return Err(format!("depth-first below {i}: {dd:?}, expected {want:?}"));
    }
    let db = ix(n.descendants_breadth());
    if db != breadth(r, i) {
        return Err(format!("breadth-first below {i}: {db:?}, expected {:?}", breadth(r, i)));
    }
    // the typed view, one element at a time
    match (n.value(), &w.k.val) {
        (NodeValue::Primitive, v) if matches!(kind(v), Kind::Unit | Kind::Prim) => (),
        (NodeValue::Tuple(mut it), Value::Tuple(_)) | (NodeValue::Seq(mut it), Value::Seq(_)) => {
            for (j, &c) in w.vals.iter().enumerate() {
                if it.len() != w.vals.len() - j || it.is_empty() {
                    return Err(format!("list of {i} reports length {} at {j}", it.len()));
                }
                if it.next().map(|n| n.index()) != Some(c) {
                    return Err(format!("element {j} of {i}"));
                }
            }
            if it.len() != 0 || !it.is_empty() || it.next().is_some() {
                return Err(format!("list of {i} does not end"));
            }
        }
        (NodeValue::Cntr(mut it), Value::Cntr(_)) => {
            for (j, &c) in w.vals.iter().enumerate() {
                if it.len() != w.vals.len() - j || it.is_empty() {
                    return Err(format!("fields of {i} report length {} at {j}", it.len()));
                }
                match it.next() {
                    Some((name, n)) if n.index() == c && Some(name.as_str()) == r[c].name => (),
                    _ => return Err(format!("field {j} of {i}")),
                }
            }
            if it.len() != 0 || !it.is_empty() || it.next().is_some() {
                return Err(format!("fields of {i} do not end"));
            }
        }
        (NodeValue::Map(mut it), Value::Map(_)) => {
            for (j, (&kc, &c)) in w.keys.iter().zip(&w.vals).enumerate() {
                if it.len() != w.vals.len() - j || it.is_empty() {
                    return Err(format!("entries of {i} report length {} at {j}", it.len()));
                }
                match it.next() {
                    Some((k, n)) if n.index() == c && k.index() == kc => (),
                    _ => return Err(format!("entry {j} of {i}")),
                }
            }
            if it.len() != 0 || !it.is_empty() || it.next().is_some() {
                return Err(format!("entries of {i} do not end"));
            }
        }
        _ => return Err(format!("the kind of node {i}")),
    }
    Ok(())
}

fn navigate(k: &Kserd, cx: &mut Ctx) -> Res {
    let mut r = Vec::new();
    lay(k, None, false, 0, None, &mut r);
    let nav = Navigator::new(k);
    cx.state(show(k).as_bytes());
    let go = |cx: &mut Ctx| -> Result<(), String> {
        if nav.len() != r.len() || nav.is_empty() {
            return Err(format!("{} nodes, expected {}", nav.len(), r.len()));
        }
        let all: Vec<usize> = nav.nodes().map(|n| n.index()).collect();
        if all != (0..r.len()).collect::<Vec<_>>() {
            return Err(format!("nodes() lists {all:?}"));
        }
        if nav.get(r.len()).is_some() || nav.get(usize::MAX).is_some() {
            return Err("a node beyond the end".into());
        }
        nav_node(&r, &nav.root(), 0, cx)?;
        for (i, n) in nav.nodes().enumerate() {
            nav_node(&r, &n, i, cx)?;
            let g = nav.get(i).ok_or("a missing node")?;
            if g != n || !std::ptr::eq(n.nav(), &nav) {
                return Err(format!("node {i} is not itself"));
            }
            // links: up and down again, sideways through the parent
            if let Some(p) = n.parent() {
                let down = if n.is_key() {
                    p.key_children().nth(n.idx_in_parent()).map(|c| c.index())
                } else {
                    p.value_children().nth(n.idx_in_parent()).map(|c| c.index())
                };
                if down != Some(i) {
                    return Err(format!("up and down from {i} leads to {down:?}"));
                }
            } else if i != 0 {
                return Err(format!("node {i} has no parent"));
            }
            for j in 0..r.len() {
                if (nav.get(j).unwrap() == n) != (i == j) {
                    return Err(format!("nodes {i} and {j} compare wrongly"));
                }
            }
        }
        // every path from a node to the root, level by level
        for i in 0..r.len() {
            let (mut n, mut w) = (nav.get(i).unwrap(), i);
            while let Some(p) = n.parent() {
                w = r[w].parent.ok_or("a parent above the root")?;
                n = p;
                if n.index() != w {
                    return Err(format!("the way up from {i}"));
                }
            }
            if w != 0 {
                return Err(format!("the way up from {i} ends at {w}"));
            }
        }
        Ok(())
    };
    match go(cx) {
        Ok(()) => {
            cx.trace();
            cx.outcome(&[r.len() as u8, kind(&k.val) as u8]);
            cx.sample(|| show(k));
            Ok(())
        }
        Err(e) => viol(format!("nav {}", show(k)), format!("{e}\n value: {}", show(k))),
    }
}

pub fn p20(t: Tier) -> Check {
    let n = t.pick(6, 7);
    let e = sum(trees(
        &spec(vec![uint(1), m(V::Unit)]),
        n,
    ));
    let all = section(
        "trees",
        format!("every tree of up to {n} nodes over two leaves, empty groups included"),
        e.count,
        move |i, cx| navigate(&e.get(i).build(), cx),
    );
    let f = sum(trees(&spec(crate::p_fmt::leaves_full()), 3));
    let kinds = section(
        "leaves",
        "every tree of up to 3 nodes over all leaf kinds",
        f.count,
        move |i, cx| navigate(&f.get(i).build(), cx),
    );
    // wide and deep families
    let lens = 120u64;
    let wide = section(
        "wide and deep",
        format!("every kind of group with 0..{lens} children, and every chain of kinds of depth 0..6 with siblings"),
        4 * lens + strings_count(15, 1, 5),
        move |i, cx| {
            let x = if i < 4 * lens {
                let len = i / 4;
                let items = || (0..len).map(uint);
                m(match i % 4 {
                    0 => V::Tuple(items().collect()),
                    1 => V::Seq(items().collect()),
                    2 => V::Cntr(items().enumerate().map(|(i, c)| (format!("f{i:03}"), c)).collect()),
                    _ => V::Map(items().map(|c| (c.clone(), c)).collect()),
                })
            } else {
                let d = nth_string(i - 4 * lens, 15, 1, 5);
                let sib = uint(5);
                d.iter().fold(uint(0), |c, &w| {
                    wrap(c, Wrap { kind: (w / 3) as u8, sib: (w % 3) as u8 }, &sib)
                })
            };
            navigate(&x.build(), cx)
        },
    );
    Check {
        sections: vec![kinds, wide, all],
        assumptions: vec![],
        rule: "every node, link, child list, descendant list and typed iterator agrees with a recursive reference traversal of the same value",
    }
}

// ------------------------------------------------------------------------------------- P21

fn accessors(k: &Kserd, cx: &mut Ctx) -> Result<(), String> {
    let mut own = k.clone();
    let before = show(k);
    macro_rules! chk {
        ($what:expr, $got:expr, $want:expr) => {{
            cx.op();
            let (g, w) = ($got, $want);
            if g != w {
                return Err(format!("{} gives {:?}, expected {:?}", $what, g, w));
            }
        }};
    }
    let list = |l: Option<&Vec<Kserd>>| l.map(|l| l.iter().map(show).collect::<Vec<_>>());
    let (mut u, mut b, mut c, mut n, mut s, mut ba, mut tu, mut se, mut cn, mut ma) =
        (false, None, None, None, None, None, None, None, None, None);
    match &k.val {
        Value::Unit => u = true,
        Value::Bool(x) => b = Some(*x),
        Value::Num(x) => n = Some(*x),
        Value::Str(x) => {
            s = Some(x.inner.to_string());
            let mut it = x.inner.chars();
            c = it.next();
            if it.next().is_some() {
                c = None;
            }
        }
        Value::Barr(x) => ba = Some(x.inner.to_vec()),
        Value::Tuple(x) => tu = Some(x.iter().map(show).collect::<Vec<_>>()),
        Value::Seq(x) => se = Some(x.iter().map(show).collect::<Vec<_>>()),
        Value::Cntr(x) => cn = Some(x.iter().map(|(a, b)| (a.to_string(), show(b))).collect::<Vec<_>>()),
        Value::Map(x) => ma = Some(x.iter().map(|(a, b)| (show(a), show(b))).collect::<Vec<_>>()),
    }
    let v = &k.val;
    chk!("unit", v.unit(), u);
    chk!("bool", v.bool(), b);
    chk!("ch", v.ch(), c);
    let fits_u = n.and_then(|n| match n {
        Number::Uint(x) => Some(x),
        Number::Int(x) => u128::try_from(x).ok(),
        f => f.as_u128().ok(),
    });
    let fits_i = n.and_then(|n| match n {
        Number::Uint(x) => i128::try_from(x).ok(),
        Number::Int(x) => Some(x),
        f => f.as_i128().ok(),
    });
    chk!("uint", v.uint(), fits_u);
    chk!("int", v.int(), fits_i);
    chk!("float", v.float().map(f64::to_bits), n.map(|n| match n {
        Number::Uint(x) => x as f64,
        Number::Int(x) => x as f64,
        Number::Float(x) => x,
    }.to_bits()));
    chk!("str", v.str().map(str::to_string), s.clone());
    chk!("barr", v.barr().map(<[u8]>::to_vec), ba.clone());
    chk!("tuple", list(v.tuple()), tu.clone());
    chk!("seq", list(v.seq()), se.clone());
    chk!("tuple_or_seq", list(v.tuple_or_seq()), tu.clone().or(se.clone()));
    chk!("cntr", v.cntr().map(|x| x.iter().map(|(a, b)| (a.to_string(), show(b))).collect::<Vec<_>>()), cn.clone());
    chk!("map", v.map().map(|x| x.iter().map(|(a, b)| (show(a), show(b))).collect::<Vec<_>>()), ma.clone());
    // mutable views show the same and taking them changes nothing
    chk!("bool_mut", own.bool_mut().map(|x| *x), b);
    chk!("num_mut", own.num_mut().map(|x| crate::num::show_num(x)), n.map(|x| crate::num::show_num(&x)));
    chk!("str_mut", own.str_mut().map(|x| x.clone()), s);
    chk!("barr_mut", own.barr_mut().map(|x| x.clone()), ba);
    chk!("tuple_mut", list(own.tuple_mut().map(|x| &*x)), tu.clone());
    chk!("seq_mut", list(own.seq_mut().map(|x| &*x)), se.clone());
    chk!("tuple_or_seq_mut", list(own.tuple_or_seq_mut().map(|x| &*x)), tu.or(se));
    chk!("cntr_mut", own.cntr_mut().map(|x| x.iter().map(|(a, b)| (a.to_string(), show(b))).collect::<Vec<_>>()), cn);
    chk!("map_mut", own.map_mut().map(|x| x.iter().map(|(a, b)| (show(a), show(b))).collect::<Vec<_>>()), ma);
    chk!("the value after taking mutable views", show(&own), before.clone());
    chk!("id", k.id(), k.id.as_ref().map(|x| x.inner.as_ref()));
    Ok(())
}

/// Typed field lookups in a container that has `k` as field "a", another value as "b" and a
/// nested container as "c".
fn fields(k: &Kserd<'static>, other: &Kserd<'static>, cx: &mut Ctx) -> Result<(), String> {
    let mut f = BTreeMap::new();
    f.insert(Kstr::brwed("a"), k.clone());
    f.insert(Kstr::owned("b".into()), other.clone());
    let mut c = Kserd::new(Value::Cntr(f));
    let before = show(&c);
    macro_rules! chk {
        ($what:expr, $name:expr, $got:expr, $want:expr) => {{
            cx.op();
            let (g, w) = ($got, $want);
            if g != w {
                return Err(format!("{} of field {:?} gives {:?}, expected {:?}", $what, $name, g, w));
            }
        }};
    }
    let list = |l: Option<&Vec<Kserd>>| l.map(|l| l.iter().map(show).collect::<Vec<_>>());
    for name in ["a", "b", "", "ab", "A", "c"] {
        let here: Option<&Kserd> = match name {
            "a" => Some(k),
            "b" => Some(other),
            _ => None,
        };
        let num = |x: Option<&Kserd>| match x.map(|k| &k.val) {
            Some(Value::Num(n)) => Some(crate::num::show_num(n)),
            _ => None,
        };
        {
            let a = c.cntr().ok_or("cntr() on a container")?;
            chk!("get", name, a.get(name).map(show), here.map(show));
            chk!("get_unit", name, a.get_unit(name).is_some(), here.map_or(false, |k| k.unit()));
            chk!("get_bool", name, a.get_bool(name), here.and_then(|k| k.bool()));
            chk!("get_num", name, a.get_num(name).map(|n| crate::num::show_num(&n)), num(here));
            chk!("get_str", name, a.get_str(name), here.and_then(|k| k.str()));
            chk!("get_barr", name, a.get_barr(name), here.and_then(|k| k.barr()));
            chk!("get_tuple", name, list(a.get_tuple(name)), list(here.and_then(|k| k.tuple())));
            chk!("get_seq", name, list(a.get_seq(name)), list(here.and_then(|k| k.seq())));
            chk!("get_tuple_or_seq", name, list(a.get_tuple_or_seq(name)), list(here.and_then(|k| k.tuple_or_seq())));
            chk!("get_cntr", name, a.get_cntr(name).map(|x| x.len()), here.and_then(|k| k.cntr()).map(|x| x.len()));
            chk!("get_map", name, a.get_map(name).map(|x| x.len()), here.and_then(|k| k.map()).map(|x| x.len()));
            let by_kstr = Kstr::brwed(name);
            chk!("get_bool by Kstr", name, a.get_bool(&by_kstr), here.and_then(|k| k.bool()));
        }
        let mut a = c.cntr_mut().ok_or("cntr_mut() on a container")?;
        chk!("get_bool (mutable)", name, a.get_bool(name), here.and_then(|k| k.bool()));
        chk!("get_bool_mut", name, a.get_bool_mut(name).map(|x| *x), here.and_then(|k| k.bool()));
        chk!("get_num_mut", name, a.get_num_mut(name).map(|n| crate::num::show_num(n)), num(here));
        chk!("get_str_mut", name, a.get_str_mut(name).map(|s| s.as_str()), here.and_then(|k| k.str()));
        chk!("get_barr_mut", name, a.get_barr_mut(name).map(|s| s.as_slice()), here.and_then(|k| k.barr()));
        chk!("get_tuple_mut", name, list(a.get_tuple_mut(name).map(|x| &*x)), list(here.and_then(|k| k.tuple())));
        chk!("get_seq_mut", name, list(a.get_seq_mut(name).map(|x| &*x)), list(here.and_then(|k| k.seq())));
        chk!("get_tuple_or_seq_mut", name, list(a.get_tuple_or_seq_mut(name).map(|x| &*x)), list(here.and_then(|k| k.tuple_or_seq())));
        chk!("get_cntr_mut", name, a.get_cntr_mut(name).map(|x| x.len()), here.and_then(|k| k.cntr()).map(|x| x.len()));
        chk!("get_map_mut", name, a.get_map_mut(name).map(|x| x.len()), here.and_then(|k| k.map()).map(|x| x.len()));
    }
    if show(&c) != before {
        return Err(format!("lookups changed the container to {}", show(&c)));
    }
    Ok(())
}

fn leaves21() -> Vec<M> {
    let mut v = crate::p_fmt::leaves_full();
    for s in ["é", "漢", "\u{1F600}", "e\u{301}", "\0", "ab", "\u{10FFFF}"] {
        v.push(st(s).no_id());
    }
    for n in [
        Number::Uint(i128::MAX as u128),
        Number::Uint(1 << 127),
        Number::Int(i128::MAX),
        Number::Int(0),
        Number::Float(3.0),
        Number::Float(-3.0),
        Number::Float(3.5),
        Number::Float(1e39),
        Number::Float(2f64.powi(127)),
        Number::Float(2f64.powi(128)),
    ] {
        v.push(m(V::Num(n)));
    }
    v
}

/// The start values of the mutation histories.
fn starts() -> Vec<M> {
    vec![
        m(V::Cntr(vec![
            ("a".into(), m(V::Bool(true)).id("B")),
            ("b".into(), m(V::Seq(vec![uint(1), st("s").no_id()])).id("L")),
        ]))
        .id("R"),
        m(V::Tuple(vec![
            m(V::Cntr(vec![("a".into(), st("x").no_id()), ("c".into(), m(V::Map(vec![(uint(1), int(-2))])))])),
            m(V::Map(vec![(st("k").no_id(), ba(&[1]).no_id())])).id("M"),
        ])),
        m(V::Map(vec![
            (uint(1), m(V::Tuple(vec![m(V::Unit), flt(0.5)])).id("T")),
            (st("a").no_id(), m(V::Cntr(vec![("a".into(), uint(3))]))),
        ]))
        .id("R"),
        m(V::Seq(vec![ba(&[0]).no_id(), m(V::Bool(false)), m(V::Seq(vec![]))])),
    ]
}

/// One edit, applied alike to the real value (through its accessors) and to the model. `false` when
/// the edit does not apply; both sides have to agree on that.
fn apply(k: &mut Kserd<'static>, x: &mut M, op: usize, step: u64) -> Result<bool, String> {
    // the place, then the edit
    let (place, op) = (op / EDITS, op % EDITS);
    let (k, x): (&mut Kserd<'static>, &mut M) = match place {
        0 => (k, x),
        1 => match child_mut(k, x, 0)? {
            Some(p) => p,
            None => return Ok(false),
        },
        _ => match child_mut(k, x, 1)? {
            Some(p) => p,
            None => return Ok(false),
        },
    };
    let fresh_k = || Kserd::new(Value::Num(Number::Uint(step as u128 + 100)));
    let fresh_m = || m(V::Num(Number::Uint(step as u128 + 100)));
    let disagree = |what: &str, a: bool, b: bool| {
        if a != b {
            Err(format!("{what}: accessible is {a}, expected {b}"))
        } else {
            Ok(a)
        }
    };
    match op {
        0 => {
            let a = k.bool_mut().map(|b| *b = !*b).is_some();
            let b = if let V::Bool(b) = &mut x.v { *b = !*b; true } else { false };
            disagree("bool_mut", a, b)
        }
        1 => {
            let a = k.num_mut().map(|n| *n = Number::Int(-5 - step as i128)).is_some();
            let b = if let V::Num(n) = &mut x.v { *n = Number::Int(-5 - step as i128); true } else { false };
            disagree("num_mut", a, b)
        }
        2 => {
            let a = k.str_mut().map(|s| s.push('+')).is_some();
            let b = if let V::Str(s) = &mut x.v { s.push('+'); true } else { false };
            disagree("str_mut", a, b)
        }
        3 => {
            let a = k.barr_mut().map(|s| s.insert(0, 200)).is_some();
            let b = if let V::Barr(s) = &mut x.v { s.insert(0, 200); true } else { false };
            disagree("barr_mut", a, b)
        }
        4 => {
            let a = k.tuple_mut().map(|l| l.push(fresh_k())).is_some();
            let b = if let V::Tuple(l) = &mut x.v { l.push(fresh_m()); true } else { false };
            disagree("tuple_mut", a, b)
        }
        5 => {
            let a = k.seq_mut().map(|l| l.insert(0, fresh_k())).is_some();
            let b = if let V::Seq(l) = &mut x.v { l.insert(0, fresh_m()); true } else { false };
            disagree("seq_mut", a, b)
        }
        6 => {
            let a = k.tuple_or_seq_mut().map(|l| { l.pop(); l.reverse(); }).is_some();
            let b = if let V::Seq(l) | V::Tuple(l) = &mut x.v { l.pop(); l.reverse(); true } else { false };
            disagree("tuple_or_seq_mut", a, b)
        }
        7 => {
            let a = k.cntr_mut().map(|mut f| { f.insert(Kstr::brwed("ab"), fresh_k()); }).is_some();
            let b = if let V::Cntr(f) = &mut x.v {
                match f.iter_mut().find(|e| e.0 == "ab") {
                    Some(e) => e.1 = fresh_m(),
                    None => {
                        f.push(("ab".into(), fresh_m()));
                        f.sort_by(|a, b| a.0.cmp(&b.0));
                    }
                }
                true
            } else { false };
            disagree("cntr_mut insert", a, b)
        }
        8 => {
            let a = k.cntr_mut().map(|mut f| f.remove("a").is_some());
            let b = if let V::Cntr(f) = &mut x.v {
                let p = f.iter().position(|e| e.0 == "a");
                p.map(|p| f.remove(p));
                Some(p.is_some())
            } else { None };
            if a != b {
                return Err(format!("removing field a: {a:?}, expected {b:?}"));
            }
            Ok(a.is_some())
        }
        9 => {
            let key = Kserd::new(Value::new_num(1.0));
            let a = k.map_mut().map(|f| f.insert(key, fresh_k()).is_some());
            let b = if let V::Map(f) = &mut x.v {
                match f.iter_mut().find(|e| matches!(&e.0.v, V::Num(n) if *n == Number::Uint(1))) {
                    Some(e) => { e.1 = fresh_m(); Some(true) }
                    None => { f.push((m(V::Num(Number::Float(1.0))), fresh_m())); Some(false) }
                }
            } else { None };
            if a != b {
                return Err(format!("inserting entry 1: {a:?}, expected {b:?}"));
            }
            Ok(a.is_some())
        }
        10 => {
            let key = Kserd::with_id("other", Value::new_str("a")).unwrap();
            let a = k.map_mut().map(|f| f.remove(&key).is_some());
            let b = if let V::Map(f) = &mut x.v {
                let p = f.iter().position(|e| matches!(&e.0.v, V::Str(s) if s == "a"));
                p.map(|p| f.remove(p));
                Some(p.is_some())
            } else { None };
            if a != b {
                return Err(format!("removing entry \"a\": {a:?}, expected {b:?}"));
            }
            Ok(a.is_some())
        }
        11 => {
            // through a typed field lookup
            let Some(mut f) = k.cntr_mut() else {
                return disagree("cntr_mut", false, matches!(x.v, V::Cntr(_)));
            };
            let V::Cntr(g) = &mut x.v else {
                return Err("cntr_mut on another kind".into());
            };
            let mut hit = 0;
            let mirror = |pred: &dyn Fn(&V) -> bool| g.iter().any(|e| e.0 == "a" && pred(&e.1.v));
            if let Some(b) = f.get_bool_mut("a") { *b = false; hit = 1; }
            if (hit == 1) != mirror(&|v| matches!(v, V::Bool(_))) { return Err("get_bool_mut".into()); }
            if let Some(b) = f.get_str_mut("a") { b.clear(); hit = 2; }
            if (hit == 2) != mirror(&|v| matches!(v, V::Str(_))) { return Err("get_str_mut".into()); }
            if let Some(b) = f.get_num_mut("a") { *b = Number::Uint(77); hit = 3; }
            if (hit == 3) != mirror(&|v| matches!(v, V::Num(_))) { return Err("get_num_mut".into()); }
            for e in g.iter_mut().filter(|e| e.0 == "a") {
                match &mut e.1.v {
                    V::Bool(b) => *b = false,
                    V::Str(s) => s.clear(),
                    V::Num(n) => *n = Number::Uint(77),
                    _ => (),
                }
            }
            Ok(hit != 0)
        }
        _ => {
            // replace the value, keeping the identity
            k.val = Value::Bool(step % 2 == 0);
            x.v = V::Bool(step % 2 == 0);
            Ok(true)
        }
    }
}

const EDITS: usize = 13;

type Pair<'a> = (&'a mut Kserd<'static>, &'a mut M);

fn child_mut<'a>(k: &'a mut Kserd<'static>, x: &'a mut M, which: usize) -> Result<Option<Pair<'a>>, String> {
    match &mut x.v {
        V::Tuple(l) => {
            let r = k.val.tuple_mut().ok_or("tuple_mut on a tuple")?;
            Ok(r.get_mut(which).zip(l.get_mut(which)))
        }
        V::Seq(l) => {
            let r = k.val.tuple_or_seq_mut().ok_or("tuple_or_seq_mut on a sequence")?;
            Ok(r.get_mut(which).zip(l.get_mut(which)))
        }
        V::Cntr(f) => {
            let Value::Cntr(r) = &mut k.val else { return Err("not a container".into()) };
            let name = ["a", "b"][which];
            Ok(r.get_mut(name).zip(f.iter_mut().find(|e| e.0 == name).map(|e| &mut e.1)))
        }
        V::Map(f) => {
            let r = k.val.map_mut().ok_or("map_mut on a map")?;
            let key = [Kserd::new(Value::new_num(1u8)), Kserd::new(Value::new_str("a"))];
            let e = f.iter_mut().find(|e| match (&e.0.v, which) {
                (V::Num(n), 0) => *n == Number::Uint(1),
                (V::Str(s), 1) => s == "a",
                _ => false,
            });
            let got = r.get_mut(&key[which]);
            if got.is_some() != e.is_some() {
                return Err(format!("looking up {} finds {}", show(&key[which]), got.is_some()));
            }
            Ok(got.zip(e.map(|e| &mut e.1)))
        }
        _ => Ok(None),
    }
}

fn sec_mut(depth: usize) -> Section {
    let ss = starts();
    let per = (EDITS * 3) as u64;
    let n = strings_count(per, 1, depth);
    section(
        "mutations",
        format!("{} start values x every history of 1 to {depth} of {per} edits (13 edits at the root, the first and the second child)", ss.len()),
        ss.len() as u64 * n,
        move |i, cx| {
            let mut x = ss[(i / n) as usize].clone();
            let mut k = x.build();
            let h = nth_string(i % n, per, 1, depth);
            let key = || format!("start {} edits {:?}", i / n, h);
            for (s, &op) in h.iter().enumerate() {
                cx.op();
                let r = apply(&mut k, &mut x, op, s as u64);
                match r {
                    Err(e) => return viol(key(), format!("edit {s} of {h:?}: {e}\n value: {}", show(&k))),
                    Ok(false) => return Ok(()), // the same history without this edit is another case
                    Ok(true) => (),
                }
                let want = shown_m(&x);
                if show(&k) != want {
                    return viol(key(), format!("after edit {s} of {h:?} the value is {}\n expected {want}", show(&k)));
                }
            }
            cx.trace();
            let s = show(&k);
            cx.state(s.as_bytes());
            cx.outcome(s.as_bytes());
            cx.sample(|| format!("{:?} -> {s}", h));
            Ok(())
        },
    )
}

pub fn p21(t: Tier) -> Check {
    let e = sum(trees(&spec(leaves21()), t.pick(3, 3)));
    let acc = section(
        "accessors",
        format!("every tree of up to {} nodes over all leaf kinds x all accessors", 3),
        e.count,
        move |i, cx| {
            let k = e.get(i).build();
            cx.state(show(&k).as_bytes());
            if let Err(w) = accessors(&k, cx) {
                return viol(format!("accessors {}", show(&k)), format!("{w}\n value: {}", show(&k)));
            }
            cx.trace();
            cx.sample(|| show(&k));
            Ok(())
        },
    );
    let f = sum(trees(&spec(leaves21()), 2));
    let g: Vec<M> = vec![m(V::Unit), m(V::Bool(true)), uint(4), st("q").no_id(), ba(&[4]).no_id(), m(V::Tuple(vec![uint(1)])), m(V::Seq(vec![])), m(V::Cntr(vec![("a".into(), uint(1))])), m(V::Map(vec![(uint(1), uint(1))]))];
    let gn = g.len() as u64;
    let fld = section(
        "fields",
        "every tree of up to 2 nodes as one field and one value of each kind as another x all typed lookups, present and absent names",
        f.count * gn,
        move |i, cx| {
            let k = f.get(i / gn).build();
            let o = g[(i % gn) as usize].build();
            cx.state(format!("{}|{}", show(&k), show(&o)).as_bytes());
            if let Err(w) = fields(&k, &o, cx) {
                return viol(format!("fields {} {}", show(&k), show(&o)), format!("{w}\n a: {}\n b: {}", show(&k), show(&o)));
            }
            cx.trace();
            cx.sample(|| format!("{} and {}", show(&k), show(&o)));
            Ok(())
        },
    );
    Check {
        sections: vec![acc, fld, sec_mut(t.pick(4, 5))],
        assumptions: vec!["which numbers convert to integers is decided by P13; here floats are compared with the conversion of the number itself"],
        rule: "every accessor answers exactly for its kind and content; after every edit the real value equals the plain model, identities included",
    }
}

// ------------------------------------------------------------------------------------- P22

fn id_ok(s: &str) -> bool {
    !s.chars().any(|c| "(){}[]<> ,./\\=".contains(c))
}

fn field_ok(s: &str) -> bool {
    match s.chars().next() {
        None => false,
        Some(c) if c.is_ascii_digit() => false,
        _ => !s.chars().any(|c| " /\\\"\t'".contains(c)),
    }
}

fn spellable(s: &str) -> bool {
    s.starts_with(|c: char| c.is_ascii_alphabetic() || c == '_')
        && s.chars()
            .all(|c| c.is_ascii_alphanumeric() || c == '-' || c == '_')
}

fn name_case(s: &str, cx: &mut Ctx) -> Res {
    let bad = |what: String| viol(format!("name {s:?}"), format!("{what}: name {s:?}"));
    cx.ops(6);
    for (val, owned) in [(Value::Bool(true), false), (Value::Tuple(vec![]), true)] {
        let r = if owned {
            Kserd::with_id(s.to_string(), val.clone())
        } else {
            Kserd::with_id(s, val.clone())
        };
        match r {
            Ok(k) => {
                if !id_ok(s) {
                    return bad("an identity against the rules is accepted".into());
                }
                if k.id() != Some(s) || k.val != val {
                    return bad(format!("the value built is {}", show(&k)));
                }
            }
            Err(e) => {
                if id_ok(s) {
                    return bad(format!("a proper identity is refused ({e})"));
                }
                if !e.to_string().contains(s) {
                    return bad(format!("the error does not name the identity ({e})"));
                }
            }
        }
    }
    let one = || Kserd::new(Value::Num(Number::Uint(1)));
    let two = || Kserd::new(Value::Bool(false));
    let lists: [Vec<(&str, Kserd)>; 4] = [
        vec![(s, one())],
        vec![("k", two()), (s, one())],
        vec![(s, one()), ("zz", two())],
        vec![(s, two()), (s, one())],
    ];
    for (i, l) in lists.iter().enumerate() {
        let r = Kserd::new_cntr(l.clone());
        let r2 = Value::new_cntr(l.clone());
        cx.ops(2);
        match (r, r2) {
            (Ok(k), Ok(v)) => {
                if !field_ok(s) {
                    return bad(format!("a field name against the rules is accepted (form {i})"));
                }
                let c = k.cntr();
                let n = match i {
                    0 | 3 => 1,
                    1 => 1 + (s != "k") as usize,
                    _ => 1 + (s != "zz") as usize,
                };
                let want = if i == 2 && s == "zz" { None } else { Some(1) };
                let got = c.as_ref().and_then(|c| c.get(s)).and_then(|k| k.uint());
                if c.as_ref().map(|c| c.len()) != Some(n) || got != want || k.id().is_some() || k.val != v {
                    return bad(format!("the container built is {} (form {i})", show(&k)));
                }
            }
            (Err(e), Err(e2)) => {
                if field_ok(s) {
                    return bad(format!("a proper field name is refused ({e})"));
                }
                if e != e2 || e.to_string().is_empty() {
                    return bad(format!("two different errors ({e}; {e2})"));
                }
            }
            _ => return bad("Kserd::new_cntr and Value::new_cntr disagree".into()),
        }
    }
    if spellable(s) {
        if !id_ok(s) || !field_ok(s) {
            return bad("the rules refuse a name the text can spell".into());
        }
        cx.ops(6);
        // `true` and `false` are values in the text, so no group can carry them as its name
        let reserved = s == "true" || s == "false";
        let mut f = BTreeMap::new();
        f.insert(Kstr::brwed(s), one());
        let id = |v| Kserd::with_id(s, v).unwrap();
        let mut forms = vec![
            Kserd::new(Value::Cntr(f.clone())),
            id(Value::Bool(true)),
            id(Value::new_str("x")),
        ];
        if !reserved {
            forms.push(id(Value::Cntr(f)));
            forms.push(id(Value::Seq(vec![one()])));
            forms.push(id(Value::Tuple(vec![one()])));
            forms.push(Kserd::new_map(vec![(id(Value::Tuple(vec![one()])), id(Value::Seq(vec![])))]));
        }
        for k in forms {
            let text = k.as_str_with_config(configs_ids(31, Some(60)));
            cx.ops(2);
            let broken = k.as_str_with_config(configs_ids(31, Some(0)));
            for text in [text, broken] {
                match kserd::parse::parse(&text) {
                    Ok(b) => {
                        if let Err(e) = same(&k, &b, &Ids::Exact, true) {
                            return bad(format!("{e} through the text {text:?}"));
                        }
                    }
                    Err(e) => return bad(format!("the text {text:?} does not parse:\n{}", e.backtrace())),
                }
                cx.trace();
            }
        }
    }
    cx.trace();
    cx.outcome(&[id_ok(s) as u8, field_ok(s) as u8, spellable(s) as u8, s.len().min(4) as u8]);
    Ok(())
}

pub fn p22(t: Tier) -> Check {
    let every = section(
        "every character",
        "every Unicode scalar value alone, at the start, in the middle and at the end of a name",
        4 * 0x11_0000,
        move |i, cx| {
            let Some(c) = char::from_u32((i / 4) as u32) else {
                return Ok(());
            };
            let s = match i % 4 {
                0 => c.to_string(),
                1 => format!("{c}a"),
                2 => format!("a{c}b"),
                _ => format!("a{c}"),
            };
            cx.direct_states += 1;
            cx.sample(|| format!("{s:?}"));
            name_case(&s, cx)
        },
    );
    const AL: [&str; 34] = [
        "a", "Z", "_", "-", "0", "9", " ", "\t", "\n", "(", ")", "[", "]", "{", "}", "<", ">", ",", ".", "/", "\\", "=", "'", "\"", ":", "é", "@", "`", "^", "e", "t", "\u{0}", "\u{a0}", "\u{660}",
    ];
    let (b, hi) = (AL.len() as u64, t.pick(4usize, 5));
    let strs = section(
        "strings",
        format!("every string of up to {hi} characters over {b} characters"),
        strings_count(b, 0, hi),
        move |i, cx| {
            let s: String = nth_string(i, b, 0, hi).iter().map(|&d| AL[d]).collect();
            cx.direct_states += 1;
            cx.sample(|| format!("{s:?}"));
            name_case(&s, cx)
        },
    );
    const SP: [&str; 14] = [
        "a", "b", "e", "N", "i", "n", "f", "t", "s", "r", "_", "-", "1", "0",
    ];
    let (sb, shi) = (SP.len() as u64, t.pick(4usize, 5));
    let spell = section(
        "spellable",
        format!("every string of up to {shi} of {sb} name characters, through text in every place"),
        strings_count(sb, 1, shi),
        move |i, cx| {
            let s: String = nth_string(i, sb, 1, shi).iter().map(|&d| SP[d]).collect();
            cx.direct_states += 1;
            cx.sample(|| format!("{s:?}"));
            name_case(&s, cx)
        },
    );
    const WORDS: [&str; 16] = [
        "true", "false", "truex", "falsehood", "inf", "infinity", "nan", "NaN", "str", "strong", "b91", "b91x", "None", "Some", "e9", "in",
    ];
    let words = section(
        "words",
        "words that mean something to the text format, alone and extended by every printable character",
        WORDS.len() as u64 * 96,
        move |i, cx| {
            let w = WORDS[(i / 96) as usize];
            let s = match i % 96 {
                0 => w.to_string(),
                c => format!("{w}{}", (c as u8 + 31) as char),
            };
            cx.direct_states += 1;
            name_case(&s, cx)
        },
    );
    Check {
        sections: vec![words, every, strs, spell],
        assumptions: vec![
            "the rules are those in the documentation of the two error types: an identity has none of ( ) { } [ ] < > space , . / \\ =; a field name is not empty, does not start with an ASCII digit and has none of space / \\ \" tab '",
            "true and false are values in the text and cannot be read back as the identity of a group",
        ],
        rule: "constructors accept exactly the names the rules allow; names of ASCII letters, digits, - and _ starting with a letter or _ read back from text",
    }
}
