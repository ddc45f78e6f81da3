//! The reference view of values: plain trees, comparison by structure, exact number comparison.

use crate::en::*;
use crate::num::{num_same, show_num};
#[cfg(feature = "format")]
use kserd::fmt::FormattingConfig;
use kserd::{Barr, Kserd, Kstr, Number, Value};
use std::collections::BTreeMap;

#[derive(Clone, Debug)]
pub struct M {
    pub id: Option<String>,
    pub v: V,
}

#[derive(Clone, Debug)]
pub enum V {
    Unit,
    Bool(bool),
    Num(Number),
    Str(String),
    Barr(Vec<u8>),
    Tuple(Vec<M>),
    Cntr(Vec<(String, M)>),
    Seq(Vec<M>),
    Map(Vec<(M, M)>),
}

pub fn m(v: V) -> M {
    M { id: None, v }
}

impl M {
    pub fn id(mut self, s: &str) -> M {
        self.id = Some(s.to_string());
        self
    }
    pub fn no_id(mut self) -> M {
        self.id = None;
        self
    }
    pub fn build(&self) -> Kserd<'static> {
        let val = match &self.v {
            V::Unit => Value::Unit,
            V::Bool(b) => Value::Bool(*b),
            V::Num(n) => Value::Num(*n),
            V::Str(s) => Value::Str(Kstr::owned(s.clone())),
            V::Barr(b) => Value::Barr(Barr::owned(b.clone())),
            V::Tuple(x) => Value::Tuple(x.iter().map(|c| c.build()).collect()),
            V::Seq(x) => Value::Seq(x.iter().map(|c| c.build()).collect()),
            V::Cntr(x) => {
                let mut t = BTreeMap::new();
                for (n, c) in x {
                    t.insert(Kstr::owned(n.clone()), c.build());
                }
                Value::Cntr(t)
            }
            V::Map(x) => {
                let mut t = BTreeMap::new();
                for (k, c) in x {
                    t.insert(k.build(), c.build());
                }
                Value::Map(t)
            }
        };
        let mut k = Kserd::new(val);
        k.id = self.id.as_ref().map(|s| Kstr::owned(s.clone()));
        k
    }
    pub fn size(&self) -> usize {
        1 + match &self.v {
            V::Tuple(x) | V::Seq(x) => x.iter().map(|c| c.size()).sum(),
            V::Cntr(x) => x.iter().map(|c| c.1.size()).sum(),
            V::Map(x) => x.iter().map(|c| c.0.size() + c.1.size()).sum(),
            _ => 0usize,
        }
    }
}

#[derive(Copy, Clone, PartialEq, Debug)]
pub enum Kind {
    Prim,
    Unit,
    Tuple,
    Cntr,
    Seq,
    Map,
}

pub fn kind(v: &Value) -> Kind {
    match v {
        Value::Unit => Kind::Unit,
        Value::Bool(_) | Value::Num(_) | Value::Str(_) | Value::Barr(_) => Kind::Prim,
        Value::Tuple(_) => Kind::Tuple,
        Value::Cntr(_) => Kind::Cntr,
        Value::Seq(_) => Kind::Seq,
        Value::Map(_) => Kind::Map,
    }
}

/// How identities are treated by `same`.
pub enum Ids<'a> {
    /// not compared at all
    Ignore,
    /// the same identity on both sides
    Exact,
    /// displayed according to the configuration, otherwise absent
    #[cfg(feature = "format")]
    Config(&'a FormattingConfig),
    /// displayed according to per-node flags, in navigation (depth-first, key before value) order
    Flags(&'a [bool]),
}

#[cfg(feature = "format")]
pub fn shown(cfg: &FormattingConfig, v: &Value) -> bool {
    match kind(v) {
        Kind::Unit => true,
        Kind::Prim => cfg.id_on_primitives,
        Kind::Tuple => cfg.id_on_tuples,
        Kind::Cntr => cfg.id_on_containers,
        Kind::Seq => cfg.id_on_seqs,
        Kind::Map => cfg.id_on_maps,
    }
}

fn is_empty_form(v: &Value) -> bool {
    match v {
        Value::Unit => true,
        Value::Tuple(x) => x.is_empty(),
        Value::Cntr(x) => x.is_empty(),
        _ => false,
    }
}

/// Structural comparison of an original with what came back. `forms`: whether the three empty forms
/// may come back as one another. Returns a description of the first difference.
pub fn same(a: &Kserd, b: &Kserd, ids: &Ids, forms: bool) -> Result<(), String> {
    go(a, b, ids, forms, 0)
}

fn nodes(k: &Kserd) -> usize {
    1 + match &k.val {
        Value::Tuple(x) | Value::Seq(x) => x.iter().map(nodes).sum(),
        Value::Cntr(x) => x.values().map(nodes).sum(),
        Value::Map(x) => x.iter().map(|(k, v)| nodes(k) + nodes(v)).sum(),
        _ => 0,
    }
}

fn go(a: &Kserd, b: &Kserd, ids: &Ids, forms: bool, pos: usize) -> Result<(), String> {
    let ida: Option<&str> = a.id.as_ref().map(|x| x.as_str());
    let idb: Option<&str> = b.id.as_ref().map(|x| x.as_str());
    let want = match ids {
        Ids::Ignore => idb,
        Ids::Exact => ida,
        #[cfg(feature = "format")]
        Ids::Config(c) => {
            if shown(c, &a.val) {
                ida
            } else {
                None
            }
        }
        Ids::Flags(f) => {
            if f[pos] || matches!(a.val, Value::Unit) {
                ida
            } else {
                None
            }
        }
    };
    if want != idb {
        return Err(format!(
            "identity should be {:?} but is {:?} on {}",
            want,
            idb,
            show(b)
        ));
    }
    if forms && is_empty_form(&a.val) {
        return if is_empty_form(&b.val) {
            Ok(())
        } else {
            Err(format!("{} became {}", show(a), show(b)))
        };
    }
    let diff = || Err(format!("{} became {}", show(a), show(b)));
    match (&a.val, &b.val) {
        (Value::Unit, Value::Unit) => Ok(()),
        (Value::Bool(x), Value::Bool(y)) if x == y => Ok(()),
        (Value::Num(x), Value::Num(y)) if num_same(x, y) => Ok(()),
        (Value::Str(x), Value::Str(y)) if x.as_str() == y.as_str() => Ok(()),
        (Value::Barr(x), Value::Barr(y)) if x.as_bytes() == y.as_bytes() => Ok(()),
        (Value::Tuple(x), Value::Tuple(y)) | (Value::Seq(x), Value::Seq(y))
            if x.len() == y.len() =>
        {
            let mut p = pos + 1;
            for (x, y) in x.iter().zip(y) {
                go(x, y, ids, forms, p)?;
                p += nodes(x);
            }
            Ok(())
        }
        (Value::Cntr(x), Value::Cntr(y)) if x.len() == y.len() => {
            let mut p = pos + 1;
            for ((nx, x), (ny, y)) in x.iter().zip(y) {
                if nx.as_str() != ny.as_str() {
                    return diff();
                }
                go(x, y, ids, forms, p)?;
                p += nodes(x);
            }
            Ok(())
        }
        (Value::Map(x), Value::Map(y)) => {
            // Entries are matched by key, wherever they stand. Keys that differ only in their empty
            // forms are one key in text: the last entry written is the one that counts.
            let xs: Vec<_> = x.iter().collect();
            let mut offs = Vec::new();
            let mut p = pos + 1;
            for (k, v) in &xs {
                offs.push(p);
                p += nodes(k) + nodes(v);
            }
            let mut classes = 0;
            let mut used = vec![false; y.len()];
            for (i, (kx, vx)) in xs.iter().enumerate() {
                let later = xs[i + 1..]
                    .iter()
                    .any(|(k2, _)| forms && go(kx, k2, &Ids::Ignore, true, 0).is_ok());
                if later {
                    continue;
                }
                let clash = xs[..i]
                    .iter()
                    .any(|(k2, _)| forms && go(kx, k2, &Ids::Ignore, true, 0).is_ok());
                classes += 1;
                let mut found = false;
                let mut why = String::new();
                for (j, (ky, vy)) in y.iter().enumerate() {
                    if used[j] {
                        continue;
                    }
                    let kids = if clash { &Ids::Ignore } else { ids };
                    match go(kx, ky, kids, forms, offs[i])
                        .and_then(|_| go(vx, vy, ids, forms, offs[i] + nodes(kx)))
                    {
                        Ok(()) => {
                            used[j] = true;
                            found = true;
                            break;
                        }
                        Err(e) => why = e,
                    }
                }
                if !found {
                    return Err(format!(
                        "map entry {}: {} is missing from {} ({why})",
                        show(kx),
                        show(vx),
                        show(b)
                    ));
                }
            }
            if y.len() != classes {
                return diff();
            }
            Ok(())
        }
        _ => diff(),
    }
}

/// An unambiguous rendering that does not use the crate's own formatting.
pub fn show(k: &Kserd) -> String {
    let mut s = String::new();
    show_into(k, &mut s);
    s
}

pub fn show_into(k: &Kserd, s: &mut String) {
    if let Some(id) = &k.id {
        s.push('@');
        s.push_str(id.as_str());
        s.push(' ');
    }
    match &k.val {
        Value::Unit => s.push_str("Unit"),
        Value::Bool(b) => s.push_str(if *b { "true" } else { "false" }),
        Value::Num(n) => s.push_str(&show_num(n)),
        Value::Str(x) => s.push_str(&format!("{:?}", x.as_str())),
        Value::Barr(x) => s.push_str(&format!("b{:?}", x.as_bytes())),
        Value::Tuple(x) => {
            s.push_str("Tuple(");
            for c in x {
                show_into(c, s);
                s.push(';');
            }
            s.push(')');
        }
        Value::Seq(x) => {
            s.push_str("Seq(");
            for c in x {
                show_into(c, s);
                s.push(';');
            }
            s.push(')');
        }
        Value::Cntr(x) => {
            s.push_str("Cntr(");
            for (n, c) in x {
                s.push_str(&format!("{:?}=", n.as_str()));
                show_into(c, s);
                s.push(';');
            }
            s.push(')');
        }
        Value::Map(x) => {
            s.push_str("Map(");
            for (n, c) in x {
                show_into(n, s);
                s.push_str("=>");
                show_into(c, s);
                s.push(';');
            }
            s.push(')');
        }
    }
}

// ---------------------------------------------------------------- enumerations of trees

pub struct Spec {
    pub leaves: Vec<M>,
    /// identities each non-leaf node may carry (None = without)
    pub ids: Vec<Option<&'static str>>,
    pub names: Vec<&'static str>,
    /// include empty tuples, containers, sequences and maps as size-1 nodes
    pub empties: bool,
}

fn with_ids(e: E<V>, ids: &[Option<&'static str>]) -> E<M> {
    let ids = list(ids.to_vec());
    ids.prod(&e).map(|(id, v)| M {
        id: id.map(|s| s.to_string()),
        v,
    })
}

/// `trees(spec, n)[k]` enumerates every tree with exactly `k` nodes (k in 1..=n).
pub fn trees(spec: &Spec, n: usize) -> Vec<E<M>> {
    let mut t: Vec<E<M>> = vec![E::empty()];
    // f[k]: all lists of trees with k nodes in total; mf[k]: all lists of (key, value) pairs
    let mut f: Vec<E<Vec<M>>> = vec![list(vec![vec![]])];
    let mut mf: Vec<E<Vec<(M, M)>>> = vec![list(vec![vec![]])];
    let names: Vec<String> = spec.names.iter().map(|s| s.to_string()).collect();
    for k in 1..=n {
        let mut parts: Vec<E<M>> = Vec::new();
        if k == 1 {
            parts.push(list(spec.leaves.clone()));
        }
        if k > 1 || spec.empties {
            let nm = names.clone();
            let v: Vec<E<V>> = vec![
                f[k - 1].map(V::Tuple),
                f[k - 1].map(V::Seq),
                f[k - 1].map(move |c| {
                    V::Cntr(
                        c.into_iter()
                            .enumerate()
                            .map(|(i, c)| {
                                let n = nm.get(i).cloned().unwrap_or_else(|| format!("n{i}"));
                                (n, c)
                            })
                            .collect(),
                    )
                }),
                mf[k - 1].map(V::Map),
            ];
            parts.push(with_ids(sum(v), &spec.ids));
        }
        t.push(sum(parts));
        let mut fk = Vec::new();
        let mut mk = Vec::new();
        for j in 1..=k {
            fk.push(t[j].prod(&f[k - j]).map(|(a, mut r)| {
                r.insert(0, a);
                r
            }));
        }
        for a in 1..k {
            for b in 1..=(k - a) {
                mk.push(
                    t[a].prod(&t[b])
                        .prod(&mf[k - a - b])
                        .map(|((x, y), mut r)| {
                            r.insert(0, (x, y));
                            r
                        }),
                );
            }
        }
        f.push(sum(fk));
        mf.push(sum(mk));
    }
    t
}

/// One nesting step around a child: which kind, with which siblings.
#[derive(Clone, Copy)]
pub struct Wrap {
    pub kind: u8, // 0 tuple 1 seq 2 cntr 3 map value 4 map key
    pub sib: u8,  // 0 alone 1 sibling before 2 sibling after
}

pub fn wrap(child: M, w: Wrap, sib: &M) -> M {
    let listy = |c: M| match w.sib {
        0 => vec![c],
        1 => vec![sib.clone(), c],
        _ => vec![c, sib.clone()],
    };
    let v = match w.kind {
        0 => V::Tuple(listy(child)),
        1 => V::Seq(listy(child)),
        2 => V::Cntr(
            listy(child)
                .into_iter()
                .enumerate()
                .map(|(i, c)| (["a", "b"][i].to_string(), c))
                .collect(),
        ),
        3 => {
            // keys 1 and 2 order the entries
            let key = |i: u64| m(V::Num(Number::Uint(i as u128)));
            V::Map(
                listy(child)
                    .into_iter()
                    .enumerate()
                    .map(|(i, c)| (key(i as u64 + 1), c))
                    .collect(),
            )
        }
        _ => {
            let v = m(V::Num(Number::Uint(9)));
            // a sibling key: unit sorts first, a map sorts last
            match w.sib {
                0 => V::Map(vec![(child, v)]),
                1 => V::Map(vec![(m(V::Unit), sib.clone()), (child, v)]),
                _ => V::Map(vec![
                    (child, v.clone()),
                    (m(V::Map(vec![(v, sib.clone())])), sib.clone()),
                ]),
            }
        }
    };
    m(v)
}

#[cfg(feature = "format")]
pub fn configs_ids(i: u64, width: Option<u16>) -> FormattingConfig {
    FormattingConfig {
        id_on_primitives: i & 1 != 0,
        id_on_tuples: i & 2 != 0,
        id_on_containers: i & 4 != 0,
        id_on_seqs: i & 8 != 0,
        id_on_maps: i & 16 != 0,
        width_limit: width,
    }
}

pub fn uint(n: u64) -> M {
    m(V::Num(Number::Uint(n as u128)))
}
pub fn int(n: i64) -> M {
    m(V::Num(Number::Int(n as i128)))
}
pub fn flt(n: f64) -> M {
    m(V::Num(Number::Float(n)))
}
pub fn st(s: &str) -> M {
    m(V::Str(s.to_string()))
}
pub fn ba(b: &[u8]) -> M {
    m(V::Barr(b.to_vec()))
}
