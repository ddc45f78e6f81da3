//! P01, P02: text round trips of every tree under every configuration.

use crate::en::*;
use crate::engine::*;
use crate::model::*;
use crate::{Check, Tier};
use kserd::fmt::FormattingConfig;
use kserd::parse::parse;
use kserd::{Kserd, Number};
use std::collections::HashSet;

fn key(k: &Kserd, c: &FormattingConfig) -> String {
    format!(
        "{} p{}t{}c{}s{}m{} w{:?}",
        show(k),
        c.id_on_primitives as u8,
        c.id_on_tuples as u8,
        c.id_on_containers as u8,
        c.id_on_seqs as u8,
        c.id_on_maps as u8,
        c.width_limit
    )
}

/// Write under `cfgs`, parse, compare. Texts already seen for this tree are not parsed again
/// when identities are not compared (the text determines the outcome).
pub fn round_trip(
    k: &Kserd,
    cfgs: impl Iterator<Item = FormattingConfig>,
    ids: bool,
    cx: &mut Ctx,
) -> Res {
    let mut seen = HashSet::new();
    for c in cfgs {
        let text = k.as_str_with_config(c);
        cx.op();
        if !ids && !seen.insert(text.clone()) {
            continue;
        }
        cx.state(text.as_bytes());
        let back = match parse(&text) {
            Ok(b) => b,
            Err(e) => {
                return viol(
                    key(k, &c),
                    format!(
                        "text does not parse\n value: {}\n config: {:?}\n text:\n{}\n error:\n{}",
                        show(k),
                        c,
                        text,
                        e.backtrace()
                    ),
                )
            }
        };
        cx.op();
        let how = if ids { Ids::Config(&c) } else { Ids::Ignore };
        if let Err(e) = same(k, &back, &how, true) {
            return viol(
                key(k, &c),
                format!(
                    "{e}\n value: {}\n config: {:?}\n text:\n{}\n parsed: {}",
                    show(k),
                    c,
                    text,
                    show(&back)
                ),
            );
        }
        cx.trace();
        cx.outcome(&[text.lines().count() as u8, (text.len() / 8) as u8]);
        cx.sample(|| format!("{} -> {:?}", show(k), text));
    }
    Ok(())
}

pub const WIDTHS: [Option<u16>; 8] = [
    None,
    Some(0),
    Some(60),
    Some(6),
    Some(9),
    Some(13),
    Some(20),
    Some(30),
];

pub fn all_cfgs(widths: &'static [Option<u16>]) -> impl Iterator<Item = FormattingConfig> {
    widths
        .iter()
        .flat_map(|&w| (0..32).map(move |i| configs_ids(i, w)))
}

pub fn leaves_full() -> Vec<M> {
    let mut v = vec![
        m(V::Unit),
        m(V::Unit).id("U"),
        m(V::Bool(true)),
        m(V::Bool(false)),
        m(V::Bool(true)).id("bool"),
        uint(0),
        uint(7).id("u8"),
        int(-1),
        int(5).id("i32"),
        flt(0.5),
        flt(-0.0),
        flt(1.0).id("f64"),
        flt(1e300),
        flt(-2.5e-300),
        flt(f64::NAN),
        flt(f64::INFINITY),
        flt(f64::NEG_INFINITY),
        m(V::Num(Number::Uint(u128::MAX))),
        m(V::Num(Number::Int(i128::MIN))),
        st(""),
        st("a"),
        st("a").id("str"),
        st("\""),
        st("a=b"),
        st("\"=\""),
        st("\"'#"),
        st("\n"),
        st("a\r\n\tb"),
        st("[["),
        st("\"]]"),
        st(": "),
        st("é\"漢"),
        ba(&[]),
        ba(&[0]),
        ba(&[255, 0, 1]).id("barr"),
        ba(&[62, 61, 61, 62, 39]),
    ];
    // identities and names that look like other syntax
    for n in [
        "truex", "falsey", "inf", "infx", "NaN", "nan", "e1", "str", "strx", "b91", "a-b", "_",
        "_1", "A9-_z", "None", "Some", "in", "f",
    ] {
        v.push(m(V::Tuple(vec![])).id(n));
    }
    v
}

pub const NAMES: [&str; 6] = ["a", "b", "c", "d", "e", "f"];
pub const ODD_NAMES: [&str; 14] = [
    "true", "false", "inf", "NaN", "e1", "str", "b91", "a-b", "_", "_1", "x9", "Z", "long-field-name_with-9-digits", "f",
];

/// All trees with identities on a subset of nodes, up to `n` nodes.
pub fn small(n: usize) -> E<M> {
    let spec = Spec {
        leaves: vec![
            uint(1),
            st("s").id("S"),
            m(V::Unit),
            m(V::Unit).id("U"),
            m(V::Bool(true)),
        ],
        ids: vec![None, Some("A")],
        names: NAMES.to_vec(),
        empties: true,
    };
    sum(trees(&spec, n).split_off(1))
}

/// All shapes: one leaf, no identities.
pub fn shapes(n: usize) -> E<M> {
    let spec = Spec {
        leaves: vec![uint(1)],
        ids: vec![None],
        names: NAMES.to_vec(),
        empties: false,
    };
    sum(trees(&spec, n).split_off(1))
}

pub fn leafy(n: usize) -> E<M> {
    let spec = Spec {
        leaves: leaves_full(),
        ids: vec![None],
        names: NAMES.to_vec(),
        empties: true,
    };
    sum(trees(&spec, n).split_off(1))
}

fn wraps() -> Vec<Wrap> {
    let mut v = Vec::new();
    for sib in 0..3 {
        for kind in 0..5 {
            v.push(Wrap { kind, sib });
        }
    }
    v
}

/// Every chain of `d` nesting steps (kind x sibling position) around a leaf.
pub fn spine(i: u64, d: usize, ids: u64) -> M {
    let w = wraps();
    let ds = digits(i, w.len() as u64, d);
    let sibs = [
        m(V::Cntr(vec![("x".into(), uint(3)), ("y".into(), st("q"))])),
        uint(2),
        m(V::Seq(vec![uint(4)])),
    ];
    let mut t = m(V::Cntr(vec![("z".into(), uint(1))]));
    for (l, &k) in ds.iter().enumerate() {
        t = wrap(t, w[k], &sibs[l % 3]);
        if ids >> (l % 3) & 1 == 1 {
            t = t.id(["A", "B-b", "C_1"][l % 3]);
        }
    }
    t
}

pub const FEW: [Option<u16>; 4] = [None, Some(0), Some(60), Some(16)];

fn all_ids_on(w: Option<u16>) -> FormattingConfig {
    configs_ids(31, w)
}

pub fn both_ids(ws: &'static [Option<u16>]) -> impl Iterator<Item = FormattingConfig> {
    ws.iter()
        .flat_map(|&w| [configs_ids(0, w), configs_ids(31, w), configs_ids(6, w)])
}

fn sec_trees(name: &str, bound: String, e: E<M>, ws: &'static [Option<u16>], ids: bool) -> Section {
    section(name, bound, e.count, move |i, cx| {
        let k = e.get(i).build();
        round_trip(&k, all_cfgs(ws), ids, cx)
    })
}

/// A nesting pattern of period two repeated to depth `d`.
pub fn deep(a: usize, b: usize, d: usize) -> M {
    let w = wraps();
    let mut t = uint(1);
    for l in 0..d {
        t = wrap(t, w[if l % 2 == 0 { a } else { b }], &uint(2));
    }
    t
}

/// A collection of kind `kind` with `n` items of item kind `item`.
pub fn long(kind: u64, item: u64, n: u64) -> M {
    let it = |i: u64| match item {
        0 => uint(i),
        1 => st(&format!("s{i}")),
        2 => m(V::Cntr(vec![("p".into(), uint(i))])),
        3 => m(V::Seq(vec![uint(i)])),
        4 => m(V::Tuple(vec![uint(i)])).id("T"),
        _ => m(V::Map(vec![(uint(i), uint(0))])),
    };
    let v = match kind {
        0 => V::Tuple((0..n).map(it).collect()),
        1 => V::Seq((0..n).map(it).collect()),
        2 => V::Cntr((0..n).map(|i| (format!("f{i}"), it(i))).collect()),
        3 => V::Map((0..n).map(|i| (uint(i), it(i))).collect()),
        _ => V::Map((0..n).map(|i| (it(i), uint(i))).collect()),
    };
    m(V::Cntr(vec![("c".into(), m(v)), ("d".into(), uint(1))]))
}

fn axis_sections(tier: Tier, ids: bool, v: &mut Vec<Section>) {
    // item count
    let maxn = tier.pick(130, 400);
    v.push(section(
        "axis-count",
        format!("collections of 5 kinds x 6 item kinds with every count 0..={maxn}"),
        30 * (maxn + 1),
        move |i, cx| {
            let (q, n) = (i / (maxn + 1), i % (maxn + 1));
            let k = long(q / 6, q % 6, n).build();
            round_trip(&k, both_ids(&FEW), ids, cx)
        },
    ));
    // depth
    let maxd = tier.pick(24, 40);
    v.push(section(
        "axis-depth",
        format!("every period-two nesting pattern (15 x 15) with depth 1..={maxd}"),
        225 * maxd,
        move |i, cx| {
            let (q, d) = (i / maxd, i % maxd + 1);
            let k = deep((q / 15) as usize, (q % 15) as usize, d as usize).build();
            round_trip(&k, both_ids(&FEW), ids, cx)
        },
    ));
    // width
    let e = {
        let spines: Vec<M> = (0..15u64 * 15).map(|i| spine(i * 15, 3, 7)).collect();
        list(spines)
    };
    let maxw = tier.pick(140, 300);
    v.push(section(
        "axis-width",
        format!("225 three-level trees x every width limit 0..={maxw} and 65535"),
        e.count * (maxw + 2),
        move |i, cx| {
            let (t, w) = (i / (maxw + 2), i % (maxw + 2));
            let w = if w == maxw + 1 { 65535 } else { w };
            let k = e.get(t).build();
            round_trip(
                &k,
                [0u64, 31, 6, 25].into_iter().map(|c| configs_ids(c, Some(w as u16))),
                ids,
                cx,
            )
        },
    ));
    // name lengths and spellings
    let maxl = tier.pick(80u64, 200);
    v.push(section(
        "axis-name",
        format!("identities and field names of every length 1..={maxl} and odd spellings, on 9 kinds in 5 positions"),
        (maxl + ODD_NAMES.len() as u64) * 9 * 5,
        move |i, cx| {
            let (nm, r) = (i / 45, i % 45);
            let name: String = if (nm as usize) < ODD_NAMES.len() {
                ODD_NAMES[nm as usize].to_string()
            } else {
                let l = nm as usize - ODD_NAMES.len() + 1;
                (0..l).map(|j| b"ab-_9Z"[j % 6] as char).collect()
            };
            let mut leaf = match r % 9 {
                0 => m(V::Unit),
                1 => m(V::Bool(false)),
                2 => uint(1),
                3 => st("x"),
                4 => ba(&[1, 2]),
                5 => m(V::Tuple(vec![uint(1), uint(2)])),
                6 => m(V::Seq(vec![uint(1), m(V::Cntr(vec![(name.clone(), uint(1))]))])),
                7 => m(V::Cntr(vec![(name.clone(), uint(1)), ("q".into(), m(V::Seq(vec![uint(1)])))])),
                _ => m(V::Map(vec![(uint(1), uint(2))])),
            };
            // the two reserved words can be field names and angled identities only
            let reserved = name == "true" || name == "false";
            if !reserved || (1..5).contains(&(r % 9)) {
                leaf.id = Some(name.clone());
            }
            let t = match r / 9 {
                0 => leaf,
                1 => m(V::Cntr(vec![(name.clone(), leaf), ("zz".into(), uint(1))])),
                2 => m(V::Seq(vec![leaf.clone(), leaf])),
                3 => m(V::Map(vec![(leaf, uint(1))])),
                _ => m(V::Cntr(vec![("o".into(), m(V::Map(vec![(uint(1), leaf)])).id(if reserved { "x" } else { &name }))])),
            };
            round_trip(&t.build(), both_ids(&FEW), ids, cx)
        },
    ));
}

pub fn p01(tier: Tier) -> Check {
    let mut v = Vec::new();
    let n = tier.pick(3, 4);
    v.push(sec_trees(
        "small",
        format!("all trees of <= {n} nodes, 5 leaf kinds, 4 empties, identities on any subset; 32 id settings x 8 widths"),
        small(n),
        &WIDTHS,
        false,
    ));
    let e = leafy(tier.pick(2, 3));
    v.push(sec_trees(
        "leaves",
        format!("all trees of <= {} nodes over 55 leaf values (all primitive kinds, extremes, odd identities)", tier.pick(2, 3)),
        e,
        &FEW,
        false,
    ));
    let n = tier.pick(7, 8);
    let e = shapes(n);
    v.push(section(
        "shapes",
        format!("all shapes of <= {n} nodes (one leaf value), widths none, 0, 60, 16"),
        e.count,
        move |i, cx| {
            let k = e.get(i).build();
            round_trip(&k, FEW.iter().map(|&w| all_ids_on(w)), false, cx)
        },
    ));
    let d = tier.pick(4, 5);
    v.push(section(
        "spines",
        format!("all chains of {d} nesting steps (5 positions x 3 sibling placements each), ids on alternate levels"),
        pow(15, d),
        move |i, cx| {
            let k = spine(i, d, 5).build();
            round_trip(&k, both_ids(&FEW), false, cx)
        },
    ));
    axis_sections(tier, false, &mut v);
    Check {
        sections: v,
        assumptions: vec![
            "names are spellable in the text grammar ([A-Za-z_][A-Za-z0-9_-]*)",
            "the three empty forms are interchangeable in text",
        ],
        rule: "every tree of each stated family is written under every stated configuration and parsed back",
    }
}

pub fn p02(tier: Tier) -> Check {
    let mut v = Vec::new();
    let n = tier.pick(3, 4);
    v.push(sec_trees(
        "small",
        format!("all trees of <= {n} nodes with identities on any subset of nodes; 32 id settings x widths none, 0, 60, 16"),
        small(n),
        &FEW,
        true,
    ));
    v.push(sec_trees(
        "leaves",
        "all trees of <= 2 nodes over 55 leaf values".into(),
        leafy(2),
        &FEW,
        true,
    ));
    let d = tier.pick(3, 4);
    v.push(section(
        "spines",
        format!("all chains of {d} nesting steps with 8 identity patterns, 32 id settings"),
        pow(15, d) * 8,
        move |i, cx| {
            let k = spine(i / 8, d, i % 8).build();
            round_trip(&k, all_cfgs(&FEW), true, cx)
        },
    ));
    axis_sections(tier, true, &mut v);
    Check {
        sections: v,
        assumptions: vec![
            "names are spellable in the text grammar ([A-Za-z_][A-Za-z0-9_-]*)",
        ],
        rule: "every tree of each stated family is written under every stated configuration and parsed back; identities are predicted from the configuration",
    }
}
