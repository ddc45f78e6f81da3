//! P08, P09: the layout freedom of delimited values, and line-oriented documents.

use crate::en::*;
use crate::engine::*;
use crate::model::*;
use crate::refparse::*;
use crate::{Check, Tier};
use kserd::parse::parse;

fn reads_as(src: &str, want: &M, cx: &mut Ctx) -> Res {
    cx.op();
    match no_panic(|| parse(src).map_err(|e| e.backtrace())) {
        Err(p) => viol(format!("{src:?}"), format!("parsing {src:?} panics: {p}")),
        Ok(Err(e)) => viol(
            format!("{src:?}"),
            format!("refused:\n{src}\n({src:?}) denotes {}\n{e}", show(&want.build())),
        ),
        Ok(Ok(k)) => {
            if !denotes(want, &k) {
                return viol(
                    format!("{src:?}"),
                    format!("{src}\n({src:?}) denotes {} but is read as {}", show(&want.build()), show(&k)),
                );
            }
            cx.trace();
            cx.outcome(show(&k).as_bytes());
            cx.sample(|| format!("{src:?} -> {}", show(&k)));
            Ok(())
        }
    }
}

// ---------------------------------------------------------------- P08

/// Blanks allowed anywhere around tokens.
const INL: &[&str] = &["", " ", "\t", " \t "];
/// Line breaks after the opener and between the items of a broken group.
const BRK: &[&str] = &["\n", "\r\n", "\n\n", " \t\r\n\t", "\n \t\n    ", "\r\n\r\n"];
/// Before the closer of a broken group.
const CLS: &[&str] = &["\n", "\r\n", "  ", "\n\n\t"];
/// After the whole value.
const END: &[&str] = &["", "\n", " ", "\r\n", "\n\n \t\n"];

enum P {
    T(String),
    G(&'static [&'static str]),
}

fn leaf_text(v: &V) -> String {
    match v {
        V::Unit => "()".into(),
        V::Bool(b) => b.to_string(),
        V::Num(n) => n.to_string(),
        V::Str(s) => {
            if s.contains('"') {
                format!("str~{s}~")
            } else {
                format!("\"{s}\"")
            }
        }
        V::Barr(_) => "b91'fPNKd'".into(), // "test"
        _ => unreachable!(),
    }
}

/// The tokens and gaps of a value. `broken` tells for each group (in preorder) whether it is laid
/// out with one item per line, where its surroundings allow it.
fn pieces(x: &M, allow: bool, broken: &mut dyn FnMut() -> bool, out: &mut Vec<P>) {
    let (open, close, n) = match &x.v {
        V::Tuple(c) => ("(", ")", c.len()),
        V::Cntr(c) => ("(", ")", c.len()),
        V::Seq(c) => ("[", "]", c.len()),
        V::Map(c) => ("{", "}", c.len()),
        v => {
            if let Some(id) = &x.id {
                out.push(P::T(format!("<{id}>")));
                out.push(P::G(INL));
            }
            if let V::Unit = v {
                out.push(P::T("(".into()));
                out.push(P::G(INL));
                out.push(P::T(")".into()));
            } else {
                out.push(P::T(leaf_text(v)));
            }
            return;
        }
    };
    if let Some(id) = &x.id {
        out.push(P::T(id.clone()));
        out.push(P::G(INL));
    }
    out.push(P::T(open.into()));
    // an empty pair of parentheses without a name is a unit: no layouts
    let bare = x.id.is_none() && n == 0 && open == "(";
    let b = broken() && allow && !bare;
    out.push(P::G(if b { BRK } else { INL }));
    for i in 0..n {
        if i > 0 {
            if b {
                out.push(P::G(BRK));
            } else {
                out.push(P::G(INL));
                out.push(P::T(",".into()));
                out.push(P::G(INL));
            }
        }
        match &x.v {
            V::Tuple(c) | V::Seq(c) => pieces(&c[i], b, broken, out),
            V::Cntr(c) => {
                out.push(P::T(c[i].0.clone()));
                out.push(P::G(INL));
                out.push(P::T("=".into()));
                out.push(P::G(INL));
                pieces(&c[i].1, b, broken, out);
            }
            V::Map(c) => {
                pieces(&c[i].0, b, broken, out);
                out.push(P::G(INL));
                out.push(P::T(":".into()));
                out.push(P::G(INL));
                pieces(&c[i].1, b, broken, out);
            }
            _ => unreachable!(),
        }
    }
    if n > 0 {
        out.push(P::G(if b { CLS } else { INL }));
    }
    out.push(P::T(close.into()));
}

fn groups(x: &M) -> usize {
    match &x.v {
        V::Tuple(c) | V::Seq(c) => 1 + c.iter().map(groups).sum::<usize>(),
        V::Cntr(c) => 1 + c.iter().map(|c| groups(&c.1)).sum::<usize>(),
        V::Map(c) => 1 + c.iter().map(|c| groups(&c.0) + groups(&c.1)).sum::<usize>(),
        _ => 0,
    }
}

fn laid_out(x: &M, mask: u64) -> Vec<P> {
    let mut out = vec![P::G(INL)];
    let mut i = 0;
    pieces(
        x,
        true,
        &mut || {
            i += 1;
            mask >> (i - 1) & 1 == 1
        },
        &mut out,
    );
    out.push(P::G(END));
    out
}

fn fill(ps: &[P], choice: &dyn Fn(usize, usize) -> usize) -> String {
    let mut s = String::new();
    let mut g = 0;
    for p in ps {
        match p {
            P::T(t) => s.push_str(t),
            P::G(c) => {
                s.push_str(c[choice(g, c.len()) % c.len()]);
                g += 1;
            }
        }
    }
    s
}

fn p08_leaves() -> Vec<M> {
    vec![
        uint(1),
        st(" a\n\tb\r\n c ").id("S"),
        m(V::Unit),
        m(V::Unit).id("U"),
        m(V::Bool(true)),
        ba(b"test"),
        st("\"\n = [1]").no_id(),
        flt(-0.5).id("f"),
    ]
}

fn p08_trees(n: usize, leaves: Vec<M>, ids: Vec<Option<&'static str>>) -> E<M> {
    sum(trees(
        &Spec {
            leaves,
            ids,
            names: vec!["a", "b", "c-_1", "d", "e", "f"],
            empties: true,
        },
        n,
    )
    .split_off(1))
}

fn distinct_keys(x: &mut M) {
    match &mut x.v {
        V::Tuple(c) | V::Seq(c) => c.iter_mut().for_each(distinct_keys),
        V::Cntr(c) => c.iter_mut().for_each(|c| distinct_keys(&mut c.1)),
        V::Map(c) => {
            c.iter_mut().for_each(|c| {
                distinct_keys(&mut c.0);
                distinct_keys(&mut c.1)
            });
            *c = last_wins(std::mem::take(c));
        }
        _ => (),
    }
}

/// All layouts of all trees; every combination of fillings with at most two gaps differing from a
/// uniform base.
fn sec_pairs(name: &str, e: E<M>, two: bool) -> Section {
    section(
        name,
        format!("{} trees, every layout per group, every base filling with any {} changed to anything", e.count, if two { "two gaps" } else { "gap" }),
        e.count * 2,
        move |i, cx| {
            let x = e.get(i / 2);
            let mut want = x.clone();
            distinct_keys(&mut want);
            let rich = i % 2;
            for mask in 0..1u64 << groups(&x) {
                let ps = laid_out(&x, mask);
                let lens: Vec<usize> = ps
                    .iter()
                    .filter_map(|p| if let P::G(c) = p { Some(c.len()) } else { None })
                    .collect();
                let base = |_: usize, n: usize| if rich == 1 { n - 1 } else { 0 };
                for g in 0..lens.len() {
                    for c in 0..lens[g] {
                        for h in g..if two { lens.len() } else { g + 1 } {
                            for d in 0..lens[h] {
                                if h == g && d > 0 {
                                    break;
                                }
                                let s = fill(&ps, &|k, n| {
                                    if k == g {
                                        c
                                    } else if k == h {
                                        d
                                    } else {
                                        base(k, n)
                                    }
                                });
                                cx.state(s.as_bytes());
                                reads_as(&s, &want, cx)?;
                            }
                        }
                    }
                }
            }
            Ok(())
        },
    )
}

/// All layouts of all trees with every gap filled freely from its first two or all choices.
fn sec_full(name: &str, e: E<M>, per: usize) -> Section {
    section(
        name,
        format!("{} trees, every layout per group, all combinations of {per} fillings per gap", e.count),
        e.count,
        move |i, cx| {
            let x = e.get(i);
            let mut want = x.clone();
            distinct_keys(&mut want);
            for mask in 0..1u64 << groups(&x) {
                let ps = laid_out(&x, mask);
                let g = ps.iter().filter(|p| matches!(p, P::G(_))).count();
                for f in 0..pow(per as u64, g) {
                    let d = digits(f, per as u64, g);
                    // the last fillings of each list are the rich ones
                    let s = fill(&ps, &|k, n| if d[k] == 0 { 0 } else { n - d[k] });
                    cx.state(s.as_bytes());
                    reads_as(&s, &want, cx)?;
                }
            }
            Ok(())
        },
    )
}

pub fn p08(tier: Tier) -> Check {
    let v = vec![
        sec_full("free-2", p08_trees(2, p08_leaves(), vec![None, Some("A")]), tier.pick(3, 4)),
        sec_full(
            "free-3",
            p08_trees(3, tier.pick(vec![uint(1)], vec![uint(1), st(" a\n").id("S"), m(V::Unit)]), vec![None, Some("A")]),
            2,
        ),
        sec_pairs(
            "pairs-3",
            p08_trees(3, tier.pick(vec![uint(1), st(" a\n").id("S")], p08_leaves()), vec![None, Some("A")]),
            true,
        ),
        sec_pairs("pairs-4", p08_trees(tier.pick(3, 4), vec![uint(1), m(V::Unit)], vec![None]), true),
        sec_pairs("single-5", p08_trees(tier.pick(4, 5), vec![uint(1)], vec![None]), false),
        sec_pairs(
            "pairs-5",
            sum(trees(
                &Spec {
                    leaves: vec![uint(1)],
                    ids: vec![None],
                    names: vec!["a", "b", "c-_1", "d", "e", "f"],
                    empties: false,
                },
                tier.pick(4, 6),
            )
            .split_off(1)),
            true,
        ),
    ];
    Check {
        sections: v,
        assumptions: vec![
            "a group inside a one-line group is on one line; items of a broken group are separated by at least one line break",
        ],
        rule: "every placement of optional whitespace within the bounds is parsed and must give the tree it was produced from",
    }
}

// ---------------------------------------------------------------- P09

#[derive(Clone, Debug)]
enum Val {
    /// delimited text and what it denotes
    Text(String, M),
    Doc(Vec<Item>),
}

#[derive(Clone, Debug)]
enum Item {
    Id(String),
    Field(String, String, M),
    Nested(String, Option<String>, Vec<Item>),
    Seq(String, Option<String>, Val),
    Map(String, Option<String>, (String, M), Val),
}

#[derive(Clone, Copy, Debug)]
struct Style {
    tab: bool,
    extra: &'static str,
    blank: &'static str,
    crlf: bool,
    loose: bool,
    trail: &'static str,
    last: bool,
}

fn style(i: u64) -> Style {
    let mut i = i;
    let mut d = |n: u64| {
        let r = i % n;
        i /= n;
        r as usize
    };
    Style {
        tab: d(2) == 1,
        extra: ["", "  "][d(2)],
        crlf: d(2) == 1,
        loose: d(2) == 1,
        last: d(2) == 1,
        blank: ["", "\n", " \t\n\n"][d(3)],
        trail: ["", " \t"][d(2)],
    }
}
const STYLES: u64 = 192;
/// One style per axis, and two mixtures.
const SOME: [u64; 8] = [0, 1, 2, 4, 8, 16 + 32, 64 + 96, 1 + 2 + 4 + 8 + 64];

fn write_doc(d: &[Item], level: usize, s: &Style, out: &mut String) {
    let ind = |l: usize| if s.tab { "\t".repeat(l) } else { "    ".repeat(l) };
    let sp = if s.loose { " \t" } else { "" };
    let id_part = |id: &Option<String>| match id {
        Some(id) => format!("{sp}:{sp}{id}"),
        None => String::new(),
    };
    let end = format!("{}\n", s.trail);
    for it in d {
        out.push_str(s.blank);
        out.push_str(&ind(level));
        out.push_str(s.extra);
        match it {
            Item::Id(n) => out.push_str(&format!(":{sp}{n}{end}")),
            Item::Field(n, t, _) => out.push_str(&format!("{n} {sp}={sp}{t}{end}")),
            Item::Nested(n, id, d) => {
                out.push_str(&format!("[{sp}{n}{}{sp}]{end}", id_part(id)));
                write_doc(d, level + 1, s, out);
            }
            Item::Seq(n, id, v) => {
                out.push_str(&format!("[[{sp}{n}{}{sp}]]{end}", id_part(id)));
                match v {
                    Val::Text(t, _) => out.push_str(&format!("{}{t}{end}", ind(level))),
                    Val::Doc(d) => write_doc(d, level + 1, s, out),
                }
            }
            Item::Map(n, id, k, v) => {
                out.push_str(&format!("[[{sp}{n}{}{sp}]]{end}{}{}{sp}:", id_part(id), ind(level), k.0));
                match v {
                    Val::Text(t, _) => out.push_str(&format!("{sp}{t}{end}")),
                    Val::Doc(d) => {
                        out.push_str(&end);
                        write_doc(d, level + 1, s, out)
                    }
                }
            }
        }
    }
}

fn text_of(d: &[Item], s: &Style) -> String {
    let mut t = String::new();
    write_doc(d, 0, s, &mut t);
    if !s.last {
        t.pop();
    }
    if s.crlf {
        t = t.replace('\n', "\r\n");
    }
    t
}

/// What the document describes; `None` where one name is used for different forms of field.
fn meaning(d: &[Item]) -> Option<M> {
    let mut id = None;
    let mut fields: Vec<(String, u8, M)> = Vec::new();
    let put = |fields: &mut Vec<(String, u8, M)>, n: &String, f: u8, x: M| {
        if let Some(old) = fields.iter_mut().find(|o| o.0 == *n) {
            if old.1 != f {
                return None;
            }
            if f == 0 {
                old.2 = x;
            } else {
                match (&mut old.2.v, x.v) {
                    (V::Seq(a), V::Seq(b)) => a.extend(b),
                    (V::Map(a), V::Map(b)) => {
                        a.extend(b);
                        *a = last_wins(std::mem::take(a));
                    }
                    _ => unreachable!(),
                }
                old.2.id = x.id.or(old.2.id.take());
            }
        } else {
            fields.push((n.clone(), f, x));
        }
        Some(())
    };
    let val = |v: &Val| match v {
        Val::Text(_, x) => Some(x.clone()),
        Val::Doc(d) => meaning(d),
    };
    for it in d {
        match it {
            Item::Id(n) => id = Some(n.clone()),
            Item::Field(n, _, x) => put(&mut fields, n, 0, x.clone())?,
            Item::Nested(n, i, d) => {
                let mut x = meaning(d)?;
                x.id = x.id.or(i.clone());
                put(&mut fields, n, 0, x)?
            }
            Item::Seq(n, i, v) => {
                let x = M {
                    id: i.clone(),
                    v: V::Seq(vec![val(v)?]),
                };
                put(&mut fields, n, 1, x)?
            }
            Item::Map(n, i, k, v) => {
                let x = M {
                    id: i.clone(),
                    v: V::Map(vec![(k.1.clone(), val(v)?)]),
                };
                put(&mut fields, n, 2, x)?
            }
        }
    }
    Some(M {
        id,
        v: V::Cntr(fields.into_iter().map(|f| (f.0, f.2)).collect()),
    })
}

struct DocSpec {
    names: Vec<&'static str>,
    entry_ids: Vec<Option<&'static str>>,
    values: Vec<(String, M)>,
    keys: Vec<(String, M)>,
    ids: Vec<&'static str>,
}

/// docs[n] = all documents of exactly n items; items[n] = all items of exactly n items.
fn docs(sp: &DocSpec, n: usize) -> Vec<E<Vec<Item>>> {
    let mut docs: Vec<E<Vec<Item>>> = vec![list(vec![vec![]])];
    let mut items: Vec<E<Item>> = vec![E::empty()];
    let names = list(sp.names.iter().map(|s| s.to_string()).collect());
    let eids = list(sp.entry_ids.iter().map(|s| s.map(String::from)).collect());
    let vals = list(sp.values.clone());
    let keys = list(sp.keys.clone());
    let head = names.prod(&eids);
    for k in 1..=n {
        let it = if k == 1 {
            sum(vec![
                list(sp.ids.iter().map(|s| Item::Id(s.to_string())).collect()),
                names.prod(&vals).map(|(n, v)| Item::Field(n, v.0, v.1)),
                head.prod(&vals).map(|((n, i), v)| Item::Seq(n, i, Val::Text(v.0, v.1))),
                head.prod(&keys)
                    .prod(&vals)
                    .map(|(((n, i), k), v)| Item::Map(n, i, k, Val::Text(v.0, v.1))),
            ])
        } else {
            let d = docs[k - 1].clone();
            sum(vec![
                head.prod(&d).map(|((n, i), d)| Item::Nested(n, i, d)),
                head.prod(&d).map(|((n, i), d)| Item::Seq(n, i, Val::Doc(d))),
                head.prod(&keys)
                    .prod(&d)
                    .map(|(((n, i), k), d)| Item::Map(n, i, k, Val::Doc(d))),
            ])
        };
        items.push(it);
        let mut alts = Vec::new();
        for f in 1..=k {
            alts.push(items[f].prod(&docs[k - f]).map(|(a, mut d)| {
                d.insert(0, a);
                d
            }));
        }
        docs.push(sum(alts));
    }
    docs
}

/// Makes every `0` value distinct so that order is visible.
fn number_values(d: &mut [Item], n: &mut u64) {
    let mut fresh = |t: &mut String, x: &mut M| {
        if t == "0" {
            *n += 1;
            *t = n.to_string();
            *x = uint(*n);
        }
    };
    fn val(v: &mut Val, n: &mut u64) {
        match v {
            Val::Text(t, x) => {
                if t == "0" {
                    *n += 1;
                    *t = n.to_string();
                    *x = uint(*n);
                }
            }
            Val::Doc(d) => number_values(d, n),
        }
    }
    for it in d {
        match it {
            Item::Id(_) => (),
            Item::Field(_, t, x) => fresh(t, x),
            Item::Nested(_, _, d) => {
                let mut k = 10 * (d.len() as u64);
                number_values(d, &mut k)
            }
            Item::Seq(_, _, v) | Item::Map(_, _, _, v) => {
                let mut k = 100;
                if let Val::Text(t, x) = v {
                    fresh(t, x)
                } else {
                    val(v, &mut k)
                }
            }
        }
    }
}

fn t(s: &str, x: M) -> (String, M) {
    (s.to_string(), x)
}

fn small_spec() -> DocSpec {
    DocSpec {
        names: vec!["a", "b"],
        entry_ids: vec![None, Some("I")],
        values: vec![t("0", uint(0))],
        keys: vec![t("7", uint(7)), t("\"k\"", st("k").no_id())],
        ids: vec!["A", "B"],
    }
}

fn lean_spec() -> DocSpec {
    DocSpec {
        names: vec!["a", "b"],
        entry_ids: vec![None],
        values: vec![t("0", uint(0))],
        keys: vec![t("7", uint(7))],
        ids: vec!["A"],
    }
}

fn identity_spec() -> DocSpec {
    DocSpec {
        names: vec!["a"],
        entry_ids: vec![None, Some("I"), Some("J")],
        values: vec![t("0", uint(0))],
        keys: vec![t("7", uint(7)), t("8", uint(8))],
        ids: vec!["A", "B"],
    }
}

fn rich_spec() -> DocSpec {
    let s = |x: &str| st(x).no_id();
    DocSpec {
        names: vec!["a", "c-_1", "X"],
        entry_ids: vec![None, Some("I")],
        values: vec![
            t("1", uint(1)),
            t("()", m(V::Unit)),
            t("<U> ()", m(V::Unit).id("U")),
            t("true", m(V::Bool(true))),
            t("-1.5e3", flt(-1500.0)),
            t("\"x = 1\"", s("x = 1")),
            t("\"x\n    y = 1\n[z]\n\"", s("x\n    y = 1\n[z]\n")),
            t("str#\"#", s("\"")),
            t("str|[a]|", s("[a]")),
            t("b91'fPNKd'", ba(b"test")),
            t("[\n    1\n2\n]", m(V::Seq(vec![uint(1), uint(2)]))),
            t("L [ (1, 2), [] ]", m(V::Seq(vec![m(V::Tuple(vec![uint(1), uint(2)])), m(V::Seq(vec![]))])).id("L")),
            t("(\n x = 1\n\n    y = [\n    ]\n)", m(V::Cntr(vec![("x".into(), uint(1)), ("y".into(), m(V::Seq(vec![])))]))),
            t("{ 1: 2, 1: 3 }", m(V::Map(vec![(uint(1), uint(3))]))),
            t("{\n\t1: [\n2\n]\n\t}", m(V::Map(vec![(uint(1), m(V::Seq(vec![uint(2)])))]))),
            t("T (1, ())", m(V::Tuple(vec![uint(1), m(V::Unit)])).id("T")),
            t("[[1], [2]]", m(V::Seq(vec![m(V::Seq(vec![uint(1)])), m(V::Seq(vec![uint(2)]))]))),
        ],
        keys: vec![
            t("7", uint(7)),
            t("\"k: 1\"", s("k: 1")),
            t("[1, 2]", m(V::Seq(vec![uint(1), uint(2)]))),
            t("K (\n    1\n)", m(V::Tuple(vec![uint(1)])).id("K")),
            t("<s> \"a\nb\"", st("a\nb").id("s")),
            t("{ 1: 2 }", m(V::Map(vec![(uint(1), uint(2))]))),
            t("(q = 1)", m(V::Cntr(vec![("q".into(), uint(1))]))),
        ],
        ids: vec!["A", "true"],
    }
}

/// Strings keep their own line endings, so converting the whole text changes them as well.
fn crlf(x: &mut M) {
    match &mut x.v {
        V::Str(s) => *s = s.replace('\n', "\r\n"),
        V::Tuple(c) | V::Seq(c) => c.iter_mut().for_each(crlf),
        V::Cntr(c) => c.iter_mut().for_each(|c| crlf(&mut c.1)),
        V::Map(c) => c.iter_mut().for_each(|c| {
            crlf(&mut c.0);
            crlf(&mut c.1)
        }),
        _ => (),
    }
}

fn check_doc(d: &[Item], want: &M, s: &Style, cx: &mut Ctx) -> Res {
    let text = text_of(d, s);
    cx.state(text.as_bytes());
    if s.crlf {
        let mut w = want.clone();
        crlf(&mut w);
        reads_as(&text, &w, cx)
    } else {
        reads_as(&text, want, cx)
    }
}

fn sec_docs(name: &str, sp: DocSpec, n: usize, styles: Vec<u64>) -> Section {
    let e = sum(docs(&sp, n).split_off(1));
    section(
        name,
        format!("all {} documents of 1..={n} items (where one name is used for one form of field), in {} styles", e.count, styles.len()),
        e.count,
        move |i, cx| {
            let mut d = e.get(i);
            number_values(&mut d, &mut 0);
            let Some(want) = meaning(&d) else { return Ok(()) };
            for &s in &styles {
                check_doc(&d, &want, &style(s), cx)?;
            }
            Ok(())
        },
    )
}

const JUNK: [&str; 14] = [
    "a", "1", "a =", "[a", "[[a]", "a = 1 2", ")", ": ", "[a] x", "[[a]] 1", "= 1 1", "a = (", ":1", "a := 1",
];

/// Every document with one malformed line added after an item of a document at any depth.
fn junk_at(d: &[Item], at: &mut usize, junk: &str, level: usize, top: bool, out: &mut String) {
    let s = style(16);
    for (k, it) in d.iter().enumerate() {
        // a line before the first line of a nested document would be the value itself
        if top || k > 0 {
            if *at == 0 {
                out.push_str(&format!("{}{junk}\n", "    ".repeat(level)));
            }
            *at = at.wrapping_sub(1);
        }
        match it {
            Item::Nested(_, _, inner) | Item::Seq(_, _, Val::Doc(inner)) | Item::Map(_, _, _, Val::Doc(inner)) => {
                // header lines, then the inner document
                let mut whole = String::new();
                write_doc(std::slice::from_ref(it), level, &s, &mut whole);
                let mut body = String::new();
                write_doc(inner, level + 1, &s, &mut body);
                out.push_str(&whole[..whole.len() - body.len()]);
                junk_at(inner, at, junk, level + 1, false, out);
            }
            _ => write_doc(std::slice::from_ref(it), level, &s, out),
        }
    }
    if *at == 0 {
        out.push_str(&format!("{}{junk}\n", "    ".repeat(level)));
    }
    *at = at.wrapping_sub(1);
}

fn sec_junk(n: usize) -> Section {
    let e = sum(docs(&lean_spec(), n).split_off(1));
    section(
        "malformed",
        format!("all {} documents of 1..={n} items with one of {} malformed lines at any place", e.count, JUNK.len()),
        e.count,
        move |i, cx| {
            let d = e.get(i);
            for j in JUNK {
                for p in 0.. {
                    let mut at = p;
                    let mut s = String::new();
                    junk_at(&d, &mut at, j, 0, true, &mut s);
                    if at < usize::MAX / 2 {
                        break; // no such place
                    }
                    cx.state(s.as_bytes());
                    cx.op();
                    match no_panic(|| parse(&s).map(|k| show(&k)).map_err(|e| e.len())) {
                        Ok(Err(_)) => cx.trace(),
                        Ok(Ok(k)) => {
                            return viol(format!("{s:?}"), format!("{s}\n({s:?}) has the malformed line {j:?} but is read as {k}"))
                        }
                        Err(p) => return viol(format!("{s:?}"), format!("parsing {s:?} panics: {p}")),
                    }
                    cx.outcome(b"refused");
                }
            }
            Ok(())
        },
    )
}

pub fn p09(tier: Tier) -> Check {
    let v = vec![
        sec_docs("styles", small_spec(), 2, (0..STYLES).collect()),
        sec_docs("documents", small_spec(), tier.pick(3, 4), SOME.to_vec()),
        sec_docs("identities", identity_spec(), 4, vec![0, 1 + 2 + 4 + 8 + 64]),
        sec_docs("longer", lean_spec(), tier.pick(5, 6), vec![0, 1 + 2 + 4 + 8 + 64]),
        sec_docs("forms", rich_spec(), 2, vec![0, 1 + 4 + 8, 16 + 64]),
        sec_docs("form-styles", rich_spec(), 1, (0..STYLES).collect()),
        sec_junk(tier.pick(4, 5)),
    ];
    Check {
        sections: v,
        assumptions: vec![
            "one name is used for one form of field within a container; nested containers have at least one line",
            "indentation beyond the required one is less than one level",
        ],
        rule: "every document within the bounds is parsed and must give the container its lines describe; with a malformed line it must be refused",
    }
}
