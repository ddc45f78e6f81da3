//! P03, P04, P05, P27: request histories on the real `Formatter`, explored state by state.

use crate::en::*;
use crate::engine::*;
use crate::model::*;
use crate::p_fmt::{deep, leafy, long, shapes, small, spine};
use crate::{Check, Tier};
use kserd::fmt::{FmtError, Formatter, FormattingConfig, Repr};
use kserd::parse::parse;
use kserd::{Kserd, Value};
use std::collections::HashMap;

/// What the rules say about one node.
struct Info {
    parent: Option<usize>,
    /// most verbose layout by kind and position, without looking at the parent's layout
    max: u8,
    root_seq_map: bool,
    end: usize, // one past the last descendant
    kind: Kind,
}

fn rules(k: &Kserd) -> Vec<Info> {
    fn go(k: &Kserd, parent: Option<(usize, Kind)>, key: bool, out: &mut Vec<Info>) {
        let i = out.len();
        let kd = kind(&k.val);
        let empty = match &k.val {
            Value::Tuple(x) | Value::Seq(x) => x.is_empty(),
            Value::Cntr(x) => x.is_empty(),
            Value::Map(x) => x.is_empty(),
            _ => true,
        };
        let mut max = match kd {
            _ if empty => 0,
            Kind::Tuple => 1,
            _ => 2u8,
        };
        if key {
            max = max.min(1);
        }
        if matches!(kd, Kind::Seq | Kind::Map) && parent.map_or(true, |p| p.1 != Kind::Cntr) {
            max = max.min(1);
        }
        out.push(Info {
            parent: parent.map(|p| p.0),
            max,
            root_seq_map: parent.is_none() && matches!(kd, Kind::Seq | Kind::Map),
            end: 0,
            kind: kd,
        });
        match &k.val {
            Value::Tuple(x) | Value::Seq(x) => x.iter().for_each(|c| go(c, Some((i, kd)), false, out)),
            Value::Cntr(x) => x.values().for_each(|c| go(c, Some((i, kd)), false, out)),
            Value::Map(x) => x.iter().for_each(|(a, b)| {
                go(a, Some((i, kd)), true, out);
                go(b, Some((i, kd)), false, out);
            }),
            _ => (),
        }
        out[i].end = out.len();
    }
    let mut v = Vec::new();
    go(k, None, false, &mut v);
    v
}

fn rn(r: Repr) -> u8 {
    match r {
        Repr::Inline => 0,
        Repr::Concise => 1,
        Repr::Verbose => 2,
    }
}

#[derive(Clone, Copy, Debug, PartialEq)]
pub enum Op {
    Line(usize, u8),
    Id(usize, bool),
    Config(FormattingConfig),
}

/// State: per node layout + 4 * id flag.
type St = Vec<u8>;

fn snap(f: &Formatter) -> St {
    f.fmts()
        .iter()
        .map(|x| rn(x.line) + if x.id { 4 } else { 0 })
        .collect()
}

fn exec(f: &mut Formatter, op: Op) -> Option<Result<(), FmtError>> {
    Some(match op {
        Op::Line(i, 0) => f.inline(i),
        Op::Line(i, 1) => f.concise(i),
        Op::Line(i, _) => f.verbose(i),
        Op::Id(i, b) => f.id(i, b),
        Op::Config(c) => {
            f.apply_config(c);
            return None;
        }
    })
}

fn legal(r: &[Info], s: &[u8]) -> Result<(), String> {
    for (i, x) in r.iter().enumerate() {
        let l = s[i] & 3;
        if l > x.max {
            return Err(format!("node {i} ({:?}) has layout {l}, above {} which its kind and position allow", x.kind, x.max));
        }
        if let Some(p) = x.parent {
            if l > s[p] & 3 {
                return Err(format!("node {i} has layout {l}, above its parent's {}", s[p] & 3));
            }
        }
    }
    Ok(())
}

fn most_verbose(r: &[Info]) -> Vec<u8> {
    let mut v: Vec<u8> = Vec::new();
    for x in r {
        let p = x.parent.map_or(2, |p| v[p]);
        v.push(x.max.min(p));
    }
    v
}

/// The model's step for a request: `Ok(new)` or the set of rules it breaks.
fn model_step(r: &[Info], s: &[u8], op: Op) -> Result<St, Vec<&'static str>> {
    let mut n = s.to_vec();
    match op {
        Op::Id(i, b) => {
            if i >= r.len() {
                return Err(vec!["range"]);
            }
            n[i] = (n[i] & 3) | if b { 4 } else { 0 };
        }
        Op::Line(i, l) => {
            if i >= r.len() {
                return Err(vec!["range"]);
            }
            let mut broken = Vec::new();
            if l > r[i].max {
                broken.push("high");
                if r[i].root_seq_map {
                    broken.push("root");
                }
            }
            if let Some(p) = r[i].parent {
                let pl = s[p] & 3;
                if l > pl {
                    broken.push(if pl == 0 { "inline parent" } else { "concise parent" });
                }
            }
            if !broken.is_empty() {
                return Err(broken);
            }
            n[i] = (n[i] & 4) | l;
            for d in i + 1..r[i].end {
                n[d] = (n[d] & 4) | (n[d] & 3).min(l);
            }
        }
        Op::Config(_) => unreachable!(),
    }
    Ok(n)
}

fn rule_of(e: &FmtError) -> &'static str {
    match e {
        FmtError::IdxOutOfBounds => "range",
        FmtError::ParentIsInline => "inline parent",
        FmtError::ParentIsConcise => "concise parent",
        FmtError::RequestTooHigh(..) => "high",
        FmtError::SeqMapAtRoot => "root",
    }
}

const NAMES: [&str; 3] = ["inline", "concise", "verbose"];

fn check_step(r: &[Info], s: &St, op: Op, got: Option<Result<(), FmtError>>, after: &St) -> Result<(), String> {
    match op {
        Op::Config(c) => {
            legal(r, after)?;
            for (i, x) in r.iter().enumerate() {
                let want = match x.kind {
                    Kind::Prim | Kind::Unit => c.id_on_primitives,
                    Kind::Tuple => c.id_on_tuples,
                    Kind::Cntr => c.id_on_containers,
                    Kind::Seq => c.id_on_seqs,
                    Kind::Map => c.id_on_maps,
                };
                if x.kind != Kind::Unit && (after[i] & 4 != 0) != want {
                    return Err(format!("node {i} ({:?}) displays its identity: {}", x.kind, !want));
                }
                if c.width_limit.is_none() && after[i] & 3 != 0 {
                    return Err(format!("node {i} is not inline without a width limit"));
                }
            }
            Ok(())
        }
        _ => match (model_step(r, s, op), got.unwrap()) {
            (Ok(n), Ok(())) => {
                if n == *after {
                    Ok(())
                } else {
                    Err(format!("the state should become {n:?} but is {after:?}"))
                }
            }
            (Err(b), Err(e)) => {
                if !b.contains(&rule_of(&e)) {
                    return Err(format!("breaks {b:?} but reports {e:?}"));
                }
                if let (Op::Line(i, l), FmtError::RequestTooHigh(m, q)) = (op, &e) {
                    if *m != NAMES[r[i].max as usize] || *q != NAMES[l as usize] {
                        return Err(format!("reports {e:?} where at most {} is allowed", NAMES[r[i].max as usize]));
                    }
                }
                if s != after {
                    return Err(format!("refused ({e:?}) but the state changed from {s:?} to {after:?}"));
                }
                Ok(())
            }
            (Ok(_), Err(e)) => Err(format!("breaks no rule but is refused: {e:?}")),
            (Err(b), Ok(())) => Err(format!("breaks {b:?} but is accepted")),
        },
    }
}

fn replay<'a, 'k>(k: &'a Kserd<'k>, path: &[Op], cx: &mut Ctx) -> Formatter<'a, 'k> {
    let mut f = Formatter::new(k);
    for &o in path {
        exec(&mut f, o);
    }
    cx.ops(1 + path.len() as u64);
    f
}

fn path_to(states: &[(St, Option<(usize, Op)>)], mut i: usize) -> Vec<Op> {
    let mut p = Vec::new();
    while let Some((from, op)) = states[i].1 {
        p.push(op);
        i = from;
    }
    p.reverse();
    p
}

/// Breadth-first search over the states of real formatters for `k`; `visit` sees each state once,
/// with a shortest history leading to it.
fn explore(
    k: &Kserd,
    ops: &[Op],
    check: bool,
    cx: &mut Ctx,
    visit: &mut dyn FnMut(&[Op], &St, &Formatter, &mut Ctx) -> Res,
) -> Res {
    explore_to(k, ops, usize::MAX, check, cx, visit)
}

/// `explore`, but requests are made only in states that fewer than `steps` requests lead to.
fn explore_to(
    k: &Kserd,
    ops: &[Op],
    steps: usize,
    check: bool,
    cx: &mut Ctx,
    visit: &mut dyn FnMut(&[Op], &St, &Formatter, &mut Ctx) -> Res,
) -> Res {
    let r = rules(k);
    let fail = |hist: &[Op], op: Option<Op>, e: String| {
        viol(
            format!("{} {:?} {:?}", show(k), hist, op),
            format!("{e}\n value: {}\n history: {hist:?}\n request: {op:?}", show(k)),
        )
    };
    let f0 = Formatter::new(k);
    cx.op();
    if f0.fmts().len() != r.len() {
        return fail(&[], None, format!("{} formats for {} nodes", f0.fmts().len(), r.len()));
    }
    let s0 = snap(&f0);
    if check {
        let want: St = most_verbose(&r).iter().map(|x| x + 4).collect();
        if s0 != want {
            return fail(&[], None, format!("a new formatter should be at {want:?} but is at {s0:?}"));
        }
    }
    let mut states: Vec<(St, Option<(usize, Op)>)> = vec![(s0.clone(), None)];
    let mut index: HashMap<St, usize> = HashMap::new();
    index.insert(s0, 0);
    let mut done = 0;
    let tree = hash_bytes(show(k).as_bytes());
    while done < states.len() {
        let hist = path_to(&states, done);
        let s = states[done].0.clone();
        cx.state_hash(tree ^ hash_bytes(&s));
        let f = replay(k, &hist, cx);
        if snap(&f) != s {
            return fail(&hist, None, "the same history led to two different states".into());
        }
        visit(&hist, &s, &f, cx)?;
        if hist.len() >= steps {
            done += 1;
            continue;
        }
        for &op in ops {
            let mut f = replay(k, &hist, cx);
            let got = exec(&mut f, op);
            cx.op();
            let after = snap(&f);
            if check {
                if let Err(e) = check_step(&r, &s, op, got, &after) {
                    return fail(&hist, Some(op), e);
                }
            }
            if !index.contains_key(&after) {
                index.insert(after.clone(), states.len());
                states.push((after, Some((done, op))));
            }
        }
        done += 1;
    }
    cx.outcome(&(states.len() as u32).to_le_bytes());
    cx.sample(|| format!("{}: {} states, {} requests each", show(k), states.len(), ops.len()));
    cx.trace();
    Ok(())
}

fn node_ops(n: usize, ids: bool, extra: bool) -> Vec<Op> {
    let mut v = Vec::new();
    let mut idx: Vec<usize> = (0..n).collect();
    if extra {
        idx.extend([n, n + 1, usize::MAX]);
    }
    for i in idx {
        for l in 0..3 {
            v.push(Op::Line(i, l));
        }
        if ids {
            v.push(Op::Id(i, false));
            v.push(Op::Id(i, true));
        }
    }
    v
}

fn cfg_ops(ids: &[u64], ws: &[Option<u16>]) -> Vec<Op> {
    let mut v = Vec::new();
    for &i in ids {
        for &w in ws {
            v.push(Op::Config(configs_ids(i, w)));
        }
    }
    v
}

fn count(k: &Kserd) -> usize {
    rules(k).len()
}

/// What is done in each state of a search: nothing (the transitions are checked), or the text is.
type Visit = fn(&Kserd, &[Op], &St, &Formatter, &mut Ctx) -> Res;

/// Deep chains, searched to the fixpoint, and long groups, searched for a few requests.
fn large(tier: Tier, check: bool, visit: Visit, v: &mut Vec<Section>) {
    let maxd = tier.pick(14, 24);
    v.push(section(
        "deep",
        format!("chains of every pattern of period two over 5 ways to nest, 1..={maxd} deep: every layout state"),
        25 * maxd,
        move |i, cx| {
            let (d, q) = (i / 25 + 1, i % 25);
            let k = deep((q / 5) as usize, (q % 5) as usize, d as usize).build();
            let mut ops = node_ops(count(&k), false, check);
            if check {
                ops.extend(cfg_ops(&[31], &[None, Some(0), Some(20), Some(60)]));
            }
            explore(&k, &ops, check, cx, &mut |h, s, f, cx| visit(&k, h, s, f, cx))
        },
    ));
    let maxn = tier.pick(18, 36);
    v.push(section(
        "long",
        format!("groups of 5 kinds x 6 kinds of members with every count 0..={maxn}: one request on any node, before it all nodes as verbose as possible, inline or as a width limit has them"),
        30 * (maxn + 1),
        move |i, cx| {
            let (n, q) = (i / 30, i % 30);
            let k = long(q / 6, q % 6, n).build();
            let ops = node_ops(count(&k), true, check);
            explore_to(&k, &ops, 1, check, cx, &mut |h, s, f, cx| visit(&k, h, s, f, cx))?;
            let r = rules(&k);
            for c in cfg_ops(&[31], &[None, Some(0), Some(40)]) {
                for o in [None].into_iter().chain(ops.iter().map(Some)) {
                    let mut f = Formatter::new(&k);
                    let mut hist = vec![c];
                    let s0 = snap(&f);
                    exec(&mut f, c);
                    let mut s = snap(&f);
                    let mut e = if check { check_step(&r, &s0, c, None, &s) } else { Ok(()) };
                    if let (Some(&o), true) = (o, e.is_ok()) {
                        hist.push(o);
                        let got = exec(&mut f, o);
                        let after = snap(&f);
                        if check {
                            e = check_step(&r, &s, o, got, &after);
                        }
                        s = after;
                    }
                    cx.ops(3);
                    if let Err(e) = e {
                        return viol(format!("{} {hist:?}", show(&k)), format!("{e}\n value: {}\n history: {hist:?}", show(&k)));
                    }
                    visit(&k, &hist, &s, &f, cx)?;
                    cx.trace();
                }
            }
            Ok(())
        },
    ));
    let maxn = tier.pick(4, 6);
    v.push(section(
        "several",
        format!("groups of 5 kinds x 6 kinds of members with every count 0..={maxn}: all histories of up to 3 layout requests"),
        30 * (maxn + 1),
        move |i, cx| {
            let (n, q) = (i / 30, i % 30);
            let k = long(q / 6, q % 6, n).build();
            let ops = node_ops(count(&k), false, false);
            explore_to(&k, &ops, 3, check, cx, &mut |h, s, f, cx| visit(&k, h, s, f, cx))
        },
    ));
}

pub fn p03(tier: Tier) -> Check {
    let mut v = Vec::new();
    let n = 4;
    let e = small(n);
    v.push(section(
        "full",
        format!("all trees of <= {n} nodes: every state reachable by inline/concise/verbose/id on every node (and 3 out-of-range ones) and 12 configurations"),
        e.count,
        move |i, cx| {
            let k = e.get(i).build();
            let mut ops = node_ops(count(&k), true, true);
            ops.extend(cfg_ops(&[0, 31, 6, 9], &[None, Some(0), Some(10)]));
            explore(&k, &ops, true, cx, &mut |_, _, _, _| Ok(()))
        },
    ));
    let n = tier.pick(7, 8);
    let e = shapes(n);
    v.push(section(
        "layouts",
        format!("all shapes of <= {n} nodes: every layout state reachable by inline/concise/verbose on every node and 6 width limits"),
        e.count,
        move |i, cx| {
            let k = e.get(i).build();
            let mut ops = node_ops(count(&k), false, false);
            ops.extend(cfg_ops(&[31], &[None, Some(0), Some(8), Some(14), Some(20), Some(60)]));
            explore(&k, &ops, true, cx, &mut |_, _, _, _| Ok(()))
        },
    ));
    let d = tier.pick(3, 4);
    v.push(section(
        "spines",
        format!("all chains of {d} nesting steps around a container (siblings before/after): every layout state"),
        pow(15, d),
        move |i, cx| {
            let k = spine(i, d, 5).build();
            let mut ops = node_ops(count(&k), false, true);
            ops.extend(cfg_ops(&[31], &[None, Some(0), Some(20)]));
            explore(&k, &ops, true, cx, &mut |_, _, _, _| Ok(()))
        },
    ));
    // all histories of bounded length, not merged by state: the result must depend on the state only
    let e = shapes(4);
    let len = 3;
    v.push(section(
        "histories",
        format!("all shapes of <= 4 nodes x all request histories of length {len}, stepped against the model without merging states"),
        e.count,
        move |i, cx| {
            let k = e.get(i).build();
            let r = rules(&k);
            let mut ops = node_ops(r.len(), true, true);
            ops.truncate(40);
            let b = ops.len() as u64;
            for h in 0..pow(b, len) {
                let ds = digits(h, b, len);
                let mut f = Formatter::new(&k);
                let mut s = snap(&f);
                for &d in &ds {
                    let got = exec(&mut f, ops[d]);
                    let after = snap(&f);
                    if let Err(e) = check_step(&r, &s, ops[d], got, &after) {
                        let hist: Vec<Op> = ds.iter().map(|&d| ops[d]).collect();
                        return viol(format!("{} {hist:?}", show(&k)), format!("{e}\n value: {}\n history: {hist:?}", show(&k)));
                    }
                    s = after;
                }
                cx.ops(len as u64 + 1);
                cx.trace();
            }
            Ok(())
        },
    ));
    large(tier, true, |_, _, _, _, _| Ok(()), &mut v);
    Check {
        sections: v,
        assumptions: vec!["a request equal to the current layout is an accepted request", "when a request breaks several rules any of them may be reported"],
        rule: "breadth-first search to a fixpoint over the states of the real formatter, every transition compared with the layout model",
    }
}

/// Writes the state, parses it, compares the value and the displayed identities.
fn render(k: &Kserd, hist: &[Op], s: &St, f: &Formatter, cx: &mut Ctx) -> Res {
    let fail = |e: String| {
        viol(
            format!("{} {:?}", show(k), hist),
            format!("{e}\n value: {}\n history: {hist:?}\n state: {s:?}", show(k)),
        )
    };
    let text = f.write_string(String::new());
    let pre = f.write_string("#é\n".to_string());
    cx.ops(2);
    if pre.strip_prefix("#é\n") != Some(&text) {
        return fail(format!("writing after existing text changes the text\n{text}\n---\n{pre}"));
    }
    let back = match parse(&text) {
        Ok(b) => b,
        Err(e) => return fail(format!("text does not parse\n{text}\n{}", e.backtrace())),
    };
    cx.op();
    let flags: Vec<bool> = s.iter().map(|x| x & 4 != 0).collect();
    if let Err(e) = same(k, &back, &Ids::Flags(&flags), true) {
        return fail(format!("{e}\n text:\n{text}"));
    }
    // a state whose nodes are all inline is one line
    if s.iter().all(|x| x & 3 == 0) && text.contains('\n') {
        return fail(format!("inline layout has several lines\n{text}"));
    }
    cx.trace();
    Ok(())
}

pub fn p04(tier: Tier) -> Check {
    let mut v = Vec::new();
    let n = 4;
    let e = small(n);
    v.push(section(
        "full",
        format!("all trees of <= {n} nodes: every state reachable by layout and identity requests is written and parsed"),
        e.count,
        move |i, cx| {
            let k = e.get(i).build();
            let ops = node_ops(count(&k), true, false);
            explore(&k, &ops, false, cx, &mut |h, s, f, cx| render(&k, h, s, f, cx))
        },
    ));
    let n = tier.pick(7, 8);
    let e = shapes(n);
    v.push(section(
        "layouts",
        format!("all shapes of <= {n} nodes: every layout state is written and parsed"),
        e.count,
        move |i, cx| {
            let k = e.get(i).build();
            let ops = node_ops(count(&k), false, false);
            explore(&k, &ops, false, cx, &mut |h, s, f, cx| render(&k, h, s, f, cx))
        },
    ));
    let spines = [("spines", 3, 8), ("longer spines", 4, 3)];
    for (name, d, ids) in &spines[..tier.pick(1, 2) as usize] {
        let (d, ids) = (*d, *ids);
        v.push(section(
            *name,
            format!("all chains of {d} nesting steps with {ids} identity patterns: every layout state"),
            pow(15, d) * ids,
            move |i, cx| {
                let k = spine(i / ids, d, i % ids).build();
                let ops = node_ops(count(&k), false, false);
                explore(&k, &ops, false, cx, &mut |h, s, f, cx| render(&k, h, s, f, cx))
            },
        ));
    }
    large(tier, false, render, &mut v);
    Check {
        sections: v,
        assumptions: vec!["the three empty forms are interchangeable in text"],
        rule: "every state of the breadth-first search is rendered and parsed back",
    }
}

fn line_breaks_in_strings(k: &Kserd) -> usize {
    match &k.val {
        Value::Str(s) => s.as_str().matches('\n').count(),
        Value::Tuple(x) | Value::Seq(x) => x.iter().map(line_breaks_in_strings).sum(),
        Value::Cntr(x) => x.values().map(line_breaks_in_strings).sum(),
        Value::Map(x) => x
            .iter()
            .map(|(a, b)| line_breaks_in_strings(a) + line_breaks_in_strings(b))
            .sum(),
        _ => 0,
    }
}

fn layout(s: &St) -> Vec<u8> {
    s.iter().map(|x| x & 3).collect()
}

/// What stands before a node in its own line: nothing, a field name of some width, or a key.
#[derive(Clone, Copy)]
enum Label {
    None,
    Name(usize),
    Key(usize),
}

fn labels(k: &Kserd) -> Vec<Label> {
    fn go(k: &Kserd, l: Label, out: &mut Vec<Label>) {
        out.push(l);
        match &k.val {
            Value::Tuple(x) | Value::Seq(x) => x.iter().for_each(|c| go(c, Label::None, out)),
            Value::Cntr(x) => x.iter().for_each(|(n, c)| go(c, Label::Name(n.chars().count()), out)),
            Value::Map(x) => x.iter().for_each(|(a, b)| {
                let key = out.len();
                go(a, Label::None, out);
                go(b, Label::Key(key), out);
            }),
            _ => (),
        }
    }
    let mut v = Vec::new();
    go(k, Label::None, &mut v);
    v
}

/// The laws of the width limit for one tree and one id setting, at every width up to beyond its text.
fn widths(k: &Kserd, ids: u64, cx: &mut Ctx) -> Res {
    let r = rules(k);
    let fail = |w: Option<u16>, e: String| {
        viol(
            format!("{} ids {ids} width {w:?}", show(k)),
            format!("{e}\n value: {}\n id setting {ids:05b}, width limit {w:?}", show(k)),
        )
    };
    let apply = |w: Option<u16>| {
        let mut f = Formatter::new(k);
        f.apply_config(configs_ids(ids, w));
        f
    };
    let f = apply(None);
    let one_line = f.write_string(String::new());
    let inline = snap(&f);
    cx.ops(3);
    if layout(&inline).iter().any(|&x| x != 0) {
        return fail(None, format!("not all inline: {inline:?}"));
    }
    let breaks = one_line.matches('\n').count();
    if breaks != line_breaks_in_strings(k) {
        return fail(None, format!("{breaks} line breaks in {one_line:?}"));
    }
    let f = apply(Some(0));
    cx.ops(2);
    if layout(&snap(&f)) != most_verbose(&r) {
        return fail(Some(0), format!("should be as verbose as possible {:?} but is {:?}", most_verbose(&r), layout(&snap(&f))));
    }
    let mut prev = snap(&f);
    // The solver works with estimates: off by up to three columns per node (absent identities,
    // spaces inside braces), and rough for byte arrays and for characters that would be escaped.
    let exact = !has(k, &|x| match &x.val {
        Value::Barr(_) => true,
        Value::Str(y) => !y.chars().all(|c| c.is_ascii_alphanumeric()),
        _ => false,
    });
    let slack = 3 * r.len();
    let len = one_line.chars().count();
    let own = {
        fn go(k: &Kserd, ids: u64, out: &mut Vec<usize>) {
            out.push(k.as_str_with_config(configs_ids(ids, None)).chars().count());
            match &k.val {
                Value::Tuple(x) | Value::Seq(x) => x.iter().for_each(|c| go(c, ids, out)),
                Value::Cntr(x) => x.values().for_each(|c| go(c, ids, out)),
                Value::Map(x) => x.iter().for_each(|(a, b)| {
                    go(a, ids, out);
                    go(b, ids, out);
                }),
                _ => (),
            }
        }
        let mut v = Vec::new();
        go(k, ids, &mut v);
        v
    };
    let label = labels(k);
    let per_item: Vec<usize> = {
        fn go(k: &Kserd, ids: u64, out: &mut Vec<usize>) {
            let mut f = Formatter::new(k);
            f.apply_config(configs_ids(ids, Some(0)));
            f.concise(0).ok();
            let keys: Vec<usize> = (0..f.len()).filter(|&i| f.get(i).unwrap().is_key()).collect();
            for i in keys {
                f.inline(i).ok();
            }
            out.push(f.write_string(String::new()).lines().map(|l| l.chars().count()).max().unwrap_or(0));
            match &k.val {
                Value::Tuple(x) | Value::Seq(x) => x.iter().for_each(|c| go(c, ids, out)),
                Value::Cntr(x) => x.values().for_each(|c| go(c, ids, out)),
                Value::Map(x) => x.iter().for_each(|(a, b)| {
                    go(a, ids, out);
                    go(b, ids, out);
                }),
                _ => (),
            }
        }
        let mut v = Vec::new();
        go(k, ids, &mut v);
        v
    };
    let tall = {
        let mut f = apply(None);
        f.concise(0).ok();
        let mut g = Formatter::new(k);
        g.concise(0).ok();
        for (i, x) in f.fmts().iter().enumerate() {
            g.id(i, x.id).ok();
        }
        g.write_string(String::new()).lines().map(|l| l.chars().count()).max().unwrap_or(0)
    };
    let last = (len * 2 + 24).min(600) as u16;
    let mut distinct = 1;
    for w in (1..=last).chain([1000, 20000, 65535]) {
        let f = apply(Some(w));
        let s = snap(&f);
        cx.ops(2);
        if let Err(e) = legal(&r, &s) {
            return fail(Some(w), e);
        }
        if s[0] & 3 > prev[0] & 3 {
            return fail(Some(w), format!("the value is more verbose than with a smaller limit: {prev:?} then {s:?}"));
        }
        if exact && s[0] & 3 == 0 && r[0].max > 0 && len > w as usize + slack {
            return fail(Some(w), format!("the one-line form has width {len}, yet it is not broken"));
        }
        let shape = Shape::new(&s);
        shape.text(k);
        let cols = shape.cols.into_inner();
        for (i, x) in r.iter().enumerate().skip(1) {
            let free = x.max > 0 && x.parent.map_or(true, |p| s[p] & 3 > 0);
            // beside its field name, or its key where that is on one line
            let beside = match label[i] {
                Label::None => 0,
                Label::Name(n) => n + 3,
                Label::Key(j) if s[j] & 3 == 0 => own[j] + 2,
                Label::Key(_) => 3,
            };
            let nodes = match label[i] {
                Label::Key(j) => x.end - j,
                _ => x.end - i,
            };
            if exact && free && s[i] & 3 == 0 && beside + own[i] > w as usize + 3 * nodes + 4 {
                return fail(Some(w), format!("the one-line form of node {i} has width {}, beside it stand {beside}, yet it is not broken", own[i]));
            }
            if let (true, true, Some(&c)) = (exact, free, cols.get(&i)) {
                if s[i] & 3 > 0 && c + own[i].max(per_item[i]) + slack <= w as usize {
                    return fail(Some(w), format!("the one-line form of node {i} at column {c} has width {} and the other {}, yet it is broken", own[i], per_item[i]));
                }
            }
        }
        if exact && s[0] & 3 != 0 && len.max(tall) + slack <= w as usize {
            return fail(Some(w), format!("the one-line form has width {len}, the one-item-per-line form {tall}, yet it is broken: {s:?}"));
        }
        if exact && r[0].max == 2 {
            if s[0] & 3 == 2 && per_item[0] + slack <= w as usize {
                return fail(Some(w), format!("the one-item-per-line form has width {}, yet the value is line-oriented: {s:?}", per_item[0]));
            }
            if s[0] & 3 < 2 && per_item[0] > w as usize + slack {
                return fail(Some(w), format!("the one-item-per-line form has width {}, yet the value is not line-oriented: {s:?}", per_item[0]));
            }
        }
        if s != prev {
            distinct += 1;
            let mut f = f;
            f.apply_config(configs_ids(ids, Some(w)));
            cx.op();
            if snap(&f) != s {
                return fail(Some(w), format!("applying twice changes {s:?} to {:?}", snap(&f)));
            }
            if f.write_string(String::new()) != k.as_str_with_config(configs_ids(ids, Some(w))) {
                return fail(Some(w), "as_str_with_config differs from applying the configuration to a formatter".into());
            }
            cx.ops(2);
        }
        prev = s;
    }
    if len < 30000 && layout(&prev) != layout(&inline) {
        return fail(Some(65535), format!("not on one line: {prev:?}"));
    }
    cx.outcome(&[distinct as u8]);
    cx.sample(|| format!("{}: {} distinct layouts over widths 0..={last}", show(k), distinct));
    cx.state(format!("{ids} {}", show(k)).as_bytes());
    cx.trace();
    Ok(())
}

fn has(k: &Kserd, p: &dyn Fn(&Kserd) -> bool) -> bool {
    p(k) || match &k.val {
        Value::Tuple(x) | Value::Seq(x) => x.iter().any(|c| has(c, p)),
        Value::Cntr(x) => x.values().any(|c| has(c, p)),
        Value::Map(x) => x.iter().any(|(a, b)| has(a, p) || has(b, p)),
        _ => false,
    }
}

pub fn p05(tier: Tier) -> Check {
    let mut v = Vec::new();
    let n = tier.pick(3, 4);
    let e = small(n);
    v.push(section(
        "small",
        format!("all trees of <= {n} nodes x 32 id settings x every width limit"),
        e.count * 32,
        move |i, cx| widths(&e.get(i / 32).build(), i % 32, cx),
    ));
    let n = tier.pick(7, 8);
    let e = shapes(n);
    v.push(section(
        "shapes",
        format!("all shapes of <= {n} nodes x every width limit"),
        e.count,
        move |i, cx| widths(&e.get(i).build(), 31, cx),
    ));
    let d = tier.pick(3, 4);
    v.push(section(
        "spines",
        format!("all chains of {d} nesting steps x every width limit x 2 id settings"),
        pow(15, d) * 2,
        move |i, cx| widths(&spine(i / 2, d, 5).build(), if i % 2 == 0 { 31 } else { 6 }, cx),
    ));
    let n = tier.pick(4, 5);
    let e = {
        let spec = Spec {
            leaves: vec![st(&"x".repeat(40)), uint(1)],
            ids: vec![None, Some("An-identity-of-thirty-characters")],
            names: vec!["a", "a-field-name-of-twenty-five", "c", "d", "e", "f"],
            empties: false,
        };
        sum(trees(&spec, n).split_off(1))
    };
    v.push(section(
        "wide",
        format!("all shapes of <= {} nodes with wide leaves, identities and names x 7 id settings x every width limit", n),
        e.count * 7,
        move |i, cx| widths(&e.get(i / 7).build(), [31, 0, 1, 2, 4, 8, 16][(i % 7) as usize], cx),
    ));
    v.push(section(
        "items",
        "one group of every kind with 1..=10 items of every combination of 6 widths for names or keys and values, alone, as element, field, key and map value, x every width limit",
        4 * 10 * 36 * 5 * 2,
        |i, cx| {
            const W: [usize; 6] = [1, 2, 5, 9, 17, 30];
            let ids = if i % 2 == 0 { 31 } else { 0 };
            let i = i / 2;
            let (place, i) = (i % 5, i / 5);
            let (wa, wb, n, kd) = (W[(i % 6) as usize], W[(i / 6 % 6) as usize], i / 36 % 10 + 1, i / 360);
            let s = |j: u64, w: usize| st(&format!("{j:x<w$}")).no_id();
            let item = |j: u64| s(j, wb);
            let g = match kd {
                0 => V::Tuple((0..n).map(item).collect()),
                1 => V::Seq((0..n).map(item).collect()),
                2 => V::Cntr((0..n).map(|j| (format!("n{j:x<wa$}"), item(j))).collect()),
                _ => V::Map((0..n).map(|j| (s(j, wa), item(j))).collect()),
            };
            let g = m(g).id("G");
            let x = match place {
                0 => g,
                1 => m(V::Seq(vec![uint(1), g])),
                2 => m(V::Cntr(vec![("f".into(), g), ("z".into(), uint(1))])),
                3 => m(V::Map(vec![(g, uint(1))])),
                _ => m(V::Map(vec![(uint(1), g)])),
            };
            widths(&x.build(), ids, cx)
        },
    ));
    let e = {
        let spec = Spec {
            leaves: vec![uint(1)],
            ids: vec![None, Some("ÄÖÜäöüßéÄÖÜäöüßéÄÖÜäöüßé")],
            names: vec!["a", "名前名前名前名前名前名前名前名前名前名前", "é", "f"],
            empties: false,
        };
        sum(trees(&spec, n).split_off(1))
    };
    v.push(section(
        "wide letters",
        format!("all shapes of <= {n} nodes with names and identities of letters outside ASCII x 7 id settings x every width limit"),
        e.count * 7,
        move |i, cx| widths(&e.get(i / 7).build(), [31, 0, 1, 2, 4, 8, 16][(i % 7) as usize], cx),
    ));
    let maxn = tier.pick(30, 80);
    v.push(section(
        "long",
        format!("groups of 5 kinds x 6 kinds of members with every count 0..={maxn} x every width limit"),
        30 * (maxn + 1),
        move |i, cx| widths(&long(i % 30 / 6, i % 6, i / 30).build(), 31, cx),
    ));
    let maxd = tier.pick(16, 30);
    v.push(section(
        "deep",
        format!("every period-two nesting pattern (15 x 15) with depth 1..={maxd} x every width limit"),
        225 * maxd,
        move |i, cx| widths(&deep((i % 225 / 15) as usize, (i % 15) as usize, (i / 225 + 1) as usize).build(), 31, cx),
    ));
    let e = crate::p_fmt::leafy(2);
    v.push(section(
        "leaves",
        "all trees of <= 2 nodes over 55 leaf values x 4 id settings x every width limit".to_string(),
        e.count * 4,
        move |i, cx| widths(&e.get(i / 4).build(), [31, 0, 6, 1][(i % 4) as usize], cx),
    ));
    Check {
        sections: v,
        assumptions: vec![],
        rule: "every width limit from 0 to beyond the text is applied to a new formatter; the layouts are compared with the rules and with each other",
    }
}

// ---------------------------------------------------------------- P27

/// The documented form of a value in a layout state, written down once more from the description:
/// no buffer, no formatter, lines put together bottom-up.
struct Shape<'s> {
    s: &'s [u8],
    /// the column at which each node that stands in delimiters or is a primitive starts
    cols: std::cell::RefCell<HashMap<usize, usize>>,
}

impl<'s> Shape<'s> {
    fn new(s: &'s [u8]) -> Self {
        Shape { s, cols: Default::default() }
    }

    fn line(&self, at: usize) -> u8 {
        self.s[at] & 3
    }

    fn id<'k>(&self, k: &'k Kserd, at: usize) -> Option<&'k str> {
        match &k.id {
            Some(id) if self.s[at] & 4 != 0 || matches!(k.val, Value::Unit) => Some(id.as_str()),
            _ => None,
        }
    }

    /// A value on one line, or in brackets with one item per line. The first line is not indented.
    fn delimited(&self, k: &Kserd, at: usize, col: usize) -> String {
        self.cols.borrow_mut().insert(at, col);
        let (open, close) = match kind(&k.val) {
            Kind::Unit => return format!("{}()", self.id(k, at).unwrap_or("")),
            Kind::Prim => {
                let bare = Kserd::new(k.val.mk_brw()).as_str_with_config(configs_ids(0, None));
                return match self.id(k, at) {
                    Some(id) => format!("<{id}> {bare}"),
                    None => bare,
                };
            }
            Kind::Tuple | Kind::Cntr => ('(', ')'),
            Kind::Seq => ('[', ']'),
            Kind::Map => ('{', '}'),
        };
        let head = match (self.id(k, at), kind(&k.val)) {
            (None, _) => String::new(),
            (Some(id), Kind::Tuple) => id.to_string(),
            (Some(id), _) => format!("{id} "),
        };
        let one_line = self.line(at) == 0;
        let inner = if one_line { col } else { col + 4 };
        let items = self.items(k, at, inner);
        if one_line {
            let pad = if kind(&k.val) == Kind::Map && !items.is_empty() { " " } else { "" };
            format!("{head}{open}{pad}{}{pad}{close}", items.join(", "))
        } else {
            let mut t = format!("{head}{open}\n");
            for x in items {
                t += &format!("{:inner$}{x}\n", "");
            }
            t + &format!("{:col$}{close}", "")
        }
    }

    fn items(&self, k: &Kserd, at: usize, col: usize) -> Vec<String> {
        let mut at = at + 1;
        let mut out = Vec::new();
        match &k.val {
            Value::Tuple(x) | Value::Seq(x) => {
                for c in x {
                    out.push(self.delimited(c, at, col));
                    at += count(c);
                }
            }
            Value::Cntr(x) => {
                for (n, c) in x {
                    out.push(self.field(n.as_str(), c, at, col));
                    at += count(c);
                }
            }
            Value::Map(x) => {
                for (key, c) in x {
                    out.push(self.entry(key, c, at, col));
                    at += count(key) + count(c);
                }
            }
            _ => (),
        }
        out
    }

    /// `name = value`, further lines of the value aligned with its first
    fn field(&self, name: &str, c: &Kserd, at: usize, col: usize) -> String {
        let head = format!("{name} = ");
        let w = head.chars().count();
        head + &self.delimited(c, at, col + w)
    }

    /// `key: value`, further lines of the value aligned with its first
    fn entry(&self, key: &Kserd, c: &Kserd, at: usize, col: usize) -> String {
        let head = self.delimited(key, at, col) + ": ";
        let w = if self.line(at) == 0 { head.chars().count() } else { 3 };
        head + &self.delimited(c, at + count(key), col + w)
    }

    /// The line-oriented form of a container, below `col` columns of indentation.
    fn lines(&self, k: &Kserd, at: usize, col: usize, headed: bool, out: &mut Vec<String>) {
        let pad = format!("{:col$}", "");
        if let (Some(id), false) = (self.id(k, at), headed) {
            out.push(format!("{pad}:{id}"));
        }
        let Value::Cntr(fields) = &k.val else { unreachable!() };
        let mut at = at + 1;
        for (name, c) in fields {
            if self.line(at) < 2 {
                out.push(pad.clone() + &self.field(name.as_str(), c, at, col));
            } else {
                let name = match self.id(c, at) {
                    Some(id) => format!("{}:{id}", name.as_str()),
                    None => name.as_str().to_string(),
                };
                let mut p = at + 1;
                match &c.val {
                    Value::Cntr(_) => {
                        out.push(format!("{pad}[{name}]"));
                        self.lines(c, at, col + 4, true, out);
                    }
                    Value::Seq(x) => {
                        for x in x {
                            out.push(format!("{pad}[[{name}]]"));
                            if self.line(p) == 2 {
                                self.lines(x, p, col + 4, false, out);
                            } else {
                                out.push(pad.clone() + &self.delimited(x, p, col));
                            }
                            p += count(x);
                        }
                    }
                    Value::Map(x) => {
                        for (key, x) in x {
                            out.push(format!("{pad}[[{name}]]"));
                            let q = p + count(key);
                            if self.line(q) == 2 {
                                out.push(format!("{pad}{}:", self.delimited(key, p, col)));
                                self.lines(x, q, col + 4, false, out);
                            } else {
                                out.push(pad.clone() + &self.entry(key, x, p, col));
                            }
                            p = q + count(x);
                        }
                    }
                    _ => unreachable!(),
                }
            }
            at += count(c);
        }
    }

    fn text(&self, k: &Kserd) -> String {
        if self.line(0) == 2 {
            let mut out = Vec::new();
            self.lines(k, 0, 0, false, &mut out);
            out.join("\n")
        } else {
            self.delimited(k, 0, 0)
        }
    }
}

/// The lines of a text that are not blank; blank lines only set things apart.
fn full_lines(t: &str) -> Vec<&str> {
    t.lines().filter(|l| !l.trim().is_empty()).collect()
}

fn shape(k: &Kserd, hist: &[Op], s: &St, f: &Formatter, cx: &mut Ctx) -> Res {
    let text = f.write_string(String::new());
    let want = Shape::new(s).text(k);
    cx.ops(1);
    if full_lines(&text) != full_lines(&want) {
        return viol(
            format!("{} {:?}", show(k), hist),
            format!("the text does not have the documented form\n value: {}\n history: {hist:?}\n state: {s:?}\n text:\n{text}\n---\n documented form:\n{want}", show(k)),
        );
    }
    cx.trace();
    cx.outcome(&[text.lines().count().min(255) as u8, (text.len() / 16).min(255) as u8]);
    Ok(())
}

pub fn p27(tier: Tier) -> Check {
    let mut v = Vec::new();
    let n = 4;
    let e = small(n);
    v.push(section(
        "full",
        format!("all trees of <= {n} nodes: every state reachable by layout and identity requests"),
        e.count,
        move |i, cx| {
            let k = e.get(i).build();
            let ops = node_ops(count(&k), true, false);
            explore(&k, &ops, false, cx, &mut |h, s, f, cx| shape(&k, h, s, f, cx))
        },
    ));
    let n = 7;
    let e = shapes(n);
    v.push(section(
        "layouts",
        format!("all shapes of <= {n} nodes: every layout state"),
        e.count,
        move |i, cx| {
            let k = e.get(i).build();
            let ops = node_ops(count(&k), false, false);
            explore(&k, &ops, false, cx, &mut |h, s, f, cx| shape(&k, h, s, f, cx))
        },
    ));
    // depth and identity patterns: one nesting step more, with one pattern
    for (name, d, pat) in [("spines", 3, 8), ("long spines", 4, 1)] {
        if d == 4 && tier == Tier::Quick {
            continue;
        }
        v.push(section(
            name,
            format!("all chains of {d} nesting steps with {pat} identity patterns: every layout state"),
            pow(15, d) * pat,
            move |i, cx| {
                let k = spine(i / pat, d, 7 - i % pat).build();
                let ops = node_ops(count(&k), false, false);
                explore(&k, &ops, false, cx, &mut |h, s, f, cx| shape(&k, h, s, f, cx))
            },
        ));
    }
    let e = leafy(tier.pick(2, 3));
    v.push(section(
        "leaves",
        format!("all trees of <= {} nodes over 55 leaf values: every layout state, identities shown and hidden", tier.pick(2, 3)),
        e.count,
        move |i, cx| {
            let k = e.get(i).build();
            let ops = node_ops(count(&k), true, false);
            explore(&k, &ops, false, cx, &mut |h, s, f, cx| shape(&k, h, s, f, cx))
        },
    ));
    let e = sum(trees(
        &Spec {
            leaves: vec![uint(1), st("é漢")],
            ids: vec![None, Some("Aé")],
            names: vec!["é", "漢字x", "z"],
            empties: false,
        },
        4,
    ));
    v.push(section(
        "characters of several bytes",
        "all trees of <= 4 nodes with names, identities and keys of several bytes per character: every layout state",
        e.count,
        move |i, cx| {
            let k = e.get(i).build();
            let ops = node_ops(count(&k), false, false);
            explore(&k, &ops, false, cx, &mut |h, s, f, cx| shape(&k, h, s, f, cx))
        },
    ));
    large(tier, false, shape, &mut v);
    v.push(section(
        "literals",
        "every primitive leaf, and all 2^17 subsets of the characters \"'#`|*^!%~&\\/:<>) as strings, with and without identity",
        2 * ((1 << 17) + 256),
        |i, cx| {
            const D: &str = "\"'#`|*^!%~&\\/:<>)";
            let (id, i) = (i % 2 == 1, i / 2);
            let mut t = if i < 1 << 17 {
                st(&D.chars().enumerate().filter(|(b, _)| i >> b & 1 == 1).map(|(_, c)| c).collect::<String>())
            } else {
                let b = i as u8;
                match b % 4 {
                    0 => int(b as i64 - 128),
                    1 => flt((b as f64 - 100.0) / 8.0),
                    2 => ba(&[b, 255 - b, 7]),
                    _ => m(V::Bool(b > 127)),
                }
            };
            t.id = if id { Some("A".into()) } else { None };
            let text = t.build().as_str_with_config(configs_ids(31, None));
            cx.op();
            cx.state(text.as_bytes());
            let lit = if id { text.strip_prefix("<A> ") } else { Some(&text[..]) };
            let good = match (&t.v, lit) {
                (_, None) => false,
                (V::Str(s), Some(l)) => {
                    l == format!("\"{s}\"") && !s.contains('"')
                        || l.strip_prefix("str").and_then(|r| r.chars().next()).map_or(false, |d| !s.contains(d) && l == format!("str{d}{s}{d}"))
                }
                (V::Num(n), Some(l)) => l == n.to_string() && !l.contains(char::is_whitespace),
                (V::Bool(b), Some(l)) => l == b.to_string(),
                (_, Some(l)) => l.strip_prefix("b91'").and_then(|r| r.strip_suffix('\'')).map_or(false, |r| !r.contains([' ', '\''])),
            };
            if !good {
                return viol(format!("literal {text:?}"), format!("{} is written as {text:?}", show(&t.build())));
            }
            cx.outcome(&text.as_bytes()[..text.len().min(4)]);
            cx.trace();
            Ok(())
        },
    ));
    Check {
        sections: v,
        assumptions: vec![
            "blank lines are left open",
            "inside groups the spelling of a single primitive is taken from the crate (P10, P11, P14 and the literals section decide it)",
        ],
        rule: "every state of the breadth-first search is written and compared line by line with a second writer made from the description of the layouts",
    }
}
