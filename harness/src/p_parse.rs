//! P06, P07: every short text, judged against a line splitter and a reference reader.

use crate::en::*;
use crate::engine::*;
use crate::model::*;
use crate::p_fmt::{deep, long, shapes, small, FEW};
use crate::refparse::*;
use crate::{Check, Tier};
use kserd::parse::{parse, Error};

/// Independent table of lines: (start, text without its line ending).
fn split_lines(src: &str) -> Vec<(usize, &str)> {
    let mut v = Vec::new();
    let mut start = 0;
    for (i, b) in src.bytes().enumerate() {
        if b == b'\n' {
            let end = if i > start && src.as_bytes()[i - 1] == b'\r' {
                i - 1
            } else {
                i
            };
            v.push((start, &src[start..end]));
            start = i + 1;
        }
    }
    if start < src.len() {
        v.push((start, &src[start..]));
    }
    v
}

fn check_error(src: &str, e: &Error) -> Result<(), String> {
    let n = e.len();
    if n == 0 || e.is_empty() {
        return Err("an error without traces".into());
    }
    let all: Vec<_> = e.iter().collect();
    if all.len() != n {
        return Err(format!("len is {n} but iter gives {}", all.len()));
    }
    if e.get(n).is_some() || e.get(usize::MAX).is_some() {
        return Err("a trace beyond the last".into());
    }
    let lines = split_lines(src);
    let bt = e.backtrace();
    let mut rendered = String::new();
    let mut inner = usize::MAX;
    for (i, t) in all.iter().enumerate() {
        if e.get(i).as_ref() != Some(t) {
            return Err(format!("get({i}) and iter disagree"));
        }
        if src.is_empty() {
            if (t.line, t.col, t.linestr) != (0, 0, "") {
                return Err(format!("trace {t:?} of an empty input"));
            }
        } else {
            if t.line == 0 || t.line > lines.len() {
                return Err(format!("trace {i} names line {} of {}", t.line, lines.len()));
            }
            let (start, text) = lines[t.line - 1];
            if t.linestr != text {
                return Err(format!("trace {i} quotes {:?} for line {} which is {text:?}", t.linestr, t.line));
            }
            if t.col == 0 {
                return Err(format!("trace {i} has column 0"));
            }
            let pos = start + t.col - 1;
            let limit = lines.get(t.line).map_or(src.len() + 1, |x| x.0);
            if pos >= limit || !src.is_char_boundary(pos) {
                return Err(format!("trace {i} has column {} in line {:?}", t.col, text));
            }
            if pos > inner {
                return Err(format!("trace {i} at {}:{} lies behind the failure it contains", t.line, t.col));
            }
            inner = pos;
            if let Some(f) = t.msg.split("found '").nth(1) {
                if f.chars().next() != src[pos..].chars().next() {
                    return Err(format!("trace {i} at {}:{} says {:?}", t.line, t.col, t.msg));
                }
            } else if t.msg.starts_with("expected '") && pos < start + text.len() {
                return Err(format!("trace {i} at {}:{} says {:?}", t.line, t.col, t.msg));
            }
        }
        if t.msg.is_empty() {
            return Err(format!("trace {i} has no message"));
        }
        let mut shown = format!("at {}:{} :: {}\n{}\n", t.line, t.col, t.msg, t.linestr);
        if t.col > 0 {
            shown.push_str(&" ".repeat(t.col - 1));
            shown.push('^');
        }
        if t.to_string() != shown {
            return Err(format!("trace {i} is displayed as {:?}, not as {shown:?}", t.to_string()));
        }
        if i > 0 {
            rendered.push_str("\n\n");
        }
        rendered.push_str(&format!("#{i}: {shown}"));
    }
    if bt != rendered {
        return Err(format!("the backtrace is {bt:?}, its traces are {rendered:?}"));
    }
    if format!("{e:?}") != bt {
        return Err("the debug form is not the backtrace".into());
    }
    Ok(())
}

pub fn total(src: &str, cx: &mut Ctx) -> Res {
    cx.op();
    match no_panic(|| parse(src).map(|_| ())) {
        Err(p) => viol(format!("panic {src:?}"), format!("parsing {src:?} panics: {p}")),
        Ok(Ok(())) => {
            cx.outcome(b"ok");
            cx.trace();
            Ok(())
        }
        Ok(Err(e)) => {
            match no_panic(|| check_error(src, &e)) {
                Err(p) => return viol(format!("trace panic {src:?}"), format!("inspecting the error of {src:?} panics: {p}")),
                Ok(Err(m)) => return viol(format!("trace {src:?}"), format!("{m}\n text: {src:?}")),
                Ok(Ok(())) => (),
            }
            cx.ops(3);
            cx.trace();
            if let Some(t) = e.get(0) {
                cx.outcome(t.msg.as_bytes());
            }
            cx.sample(|| format!("{src:?} -> {}", e.backtrace()));
            Ok(())
        }
    }
}

/// All strings over an alphabet of tokens. Distinct index = distinct token list.
pub fn sec_strings(
    name: &str,
    alpha: &'static [&'static str],
    lo: usize,
    hi: usize,
    pre: &'static str,
    post: &'static str,
    f: fn(&str, &mut Ctx) -> Res,
) -> Section {
    let b = alpha.len() as u64;
    section(
        name,
        format!("all {lo}..={hi} token strings over {b} tokens, between {pre:?} and {post:?}"),
        strings_count(b, lo, hi),
        move |i, cx| {
            let mut s = String::from(pre);
            for d in nth_string(i, b, lo, hi) {
                s.push_str(alpha[d]);
            }
            s.push_str(post);
            let t = cx.traces;
            let r = f(&s, cx);
            cx.direct_states += cx.traces - t;
            r
        },
    )
}

pub const CHARS: &[&str] = &[
    "1", "a", "\"", "(", ")", "[", "]", "{", "}", ",", ":", "=", " ", "\n", "<", ">", "'", "-",
    ".", "e", "\t", "\r", "é", "s", "_", "#",
];

pub const TOKENS: &[&str] = &[
    "1", "a", "true", "\"s\"", "()", "(", ")", "[", "]", "{", "}", ", ", ": ", " = ", "\n", "\n    ",
    "<A>", "A ", "str#", "#", "b91'", "'", "[[a]]", "[a]", "[a:B]", ":A", "-", "1e5", "inf", "\r\n",
    "\t", "\"", "\u{a0}", "\u{10ffff}",
];

const LINES: &[&str] = &[
    "a = 1\n", "b = \"x\"\n", "[c]\n", "[[s]]\n", "[[s:I]]\n", ":A\n", "1\n", "1: 2\n", "1:\n", "    d = 1\n",
    "    [c]\n", "        e = 2\n", "\n", "\r\n", "(\n", ")\n", "[1]\n", "    1\n", "a = [\n", "]\n", "a = {\n", "}\n", "{1: 2}\n", "a =\n",
];

/// Valid texts of several layouts, written by the crate itself.
fn corpus(n: usize) -> Vec<String> {
    let mut v = Vec::new();
    let e = shapes(n);
    for i in 0..e.count {
        for &w in &FEW[..2] {
            v.push(e.get(i).build().as_str_with_config(configs_ids(31, w)));
        }
    }
    let e = small(2);
    for i in 0..e.count {
        for &w in &FEW[..2] {
            v.push(e.get(i).build().as_str_with_config(configs_ids(31, w)));
        }
    }
    for s in [
        "a = str#x\ny#\nb = b91'>@'",
        "{\n    1: 2\n    \"k\": [1, 2]\n}",
        ":Root\na = 1\n\n[b:In]\n    c = (1, 2)\n\n[[d]]\n1\n\n[[d]]\n[2]\n\n[[e]]\n\"k\": 5\n",
        "<f64> 1.5e-3",
        "A (x = 1, y = [<u8> 1, <u8> 2], z = { 1: true })",
        "a = \"é漢\"\r\nb = inf\r\n",
    ] {
        v.push(s.to_string());
    }
    v.sort();
    v.dedup();
    v.sort_by_key(|s| s.len());
    v
}

/// Every single edit of every corpus text: remove, replace, insert a character, or cut the rest.
fn sec_edits(name: &str, texts: Vec<String>, alpha: &'static [&'static str], f: fn(&str, &mut Ctx) -> Res) -> Section {
    let per = 2 + 2 * alpha.len() as u64;
    let mut ends = Vec::new();
    let mut tot = 0;
    for t in &texts {
        tot += (t.chars().count() as u64 + 1) * per;
        ends.push(tot);
    }
    section(
        name,
        format!("every one-character edit and every truncation of {} valid texts", texts.len()),
        tot,
        move |i, cx| {
            let k = ends.partition_point(|&e| e <= i);
            let i = if k == 0 { i } else { i - ends[k - 1] };
            let (pos, op) = ((i / per) as usize, i % per);
            let t: Vec<char> = texts[k].chars().collect();
            let mut s: String = t[..pos].iter().collect();
            let tail = |from: usize| t.get(from..).unwrap_or(&[]).iter().collect::<String>();
            match op {
                0 => (), // truncation
                1 => s.push_str(&tail(pos + 1)),
                o if o < 2 + alpha.len() as u64 => {
                    s.push_str(alpha[(o - 2) as usize]);
                    s.push_str(&tail(pos));
                }
                o => {
                    s.push_str(alpha[(o - 2) as usize - alpha.len()]);
                    s.push_str(&tail(pos + 1));
                }
            }
            cx.state(s.as_bytes());
            f(&s, cx)
        },
    )
}

pub fn scalar(i: u64) -> Option<char> {
    char::from_u32(i as u32)
}

pub fn p06(tier: Tier) -> Check {
    let mut v = vec![
        sec_strings("chars", CHARS, 0, tier.pick(5, 6), "", "", total),
        sec_strings("tokens", TOKENS, 0, tier.pick(4, 5), "", "", total),
        sec_strings("lines", LINES, 0, tier.pick(4, 5), "", "", total),
        sec_strings("in-list", CHARS, 0, tier.pick(3, 4), "[\n1\n", "\n]", total),
        sec_strings("in-map", CHARS, 0, tier.pick(3, 4), "{1: ", "}", total),
        sec_strings("in-field", CHARS, 0, tier.pick(4, 5), "q = ", "\nr = 2\n", total),
        sec_strings("in-entry", CHARS, 0, tier.pick(3, 4), "[[s]]\n", "\n    x = 1\n", total),
        sec_edits("edits", corpus(tier.pick(4, 5)), CHARS, total),
    ];
    const CTX: [(&str, &str); 8] = [
        ("", ""),
        ("\"", "\""),
        ("str", "x"),
        ("b91'", "'"),
        ("a = 1\n", "\nb"),
        ("<", "> 1"),
        ("(", " = 1)"),
        ("\n[a", "]\n"),
    ];
    v.push(section(
        "unicode",
        "every Unicode scalar value in 8 surroundings",
        0x110000 * 8,
        |i, cx| {
            let Some(c) = scalar(i / 8) else { return Ok(()) };
            let (a, b) = CTX[(i % 8) as usize];
            cx.direct_states += 1;
            total(&format!("{a}{c}{b}"), cx)
        },
    ));
    // pairs of bytes around the places where positions are computed
    v.push(section(
        "ends",
        "all 3-character texts over 26 characters, each followed by every line ending and end of text",
        pow(26, 3) * 6,
        |i, cx| {
            let mut s: String = digits(i / 6, 26, 3).iter().map(|&d| CHARS[d]).collect();
            s.push_str(["", "\n", "\r\n", "\r", "\n\n", "é"][(i % 6) as usize]);
            cx.state(s.as_bytes());
            total(&s, cx)
        },
    ));
    // far from the start of the text, in both directions
    let far = tier.pick(90, 260);
    v.push(section(
        "far",
        format!("a text with one error in every line 1..={far} and every column up to {far}, 4 kinds of lines before it, 6 errors, lines after it or none"),
        far * far * 4 * 6,
        move |i, cx| {
            const BAD: [&str; 6] = ["$", ")", "é", "", "\"open", "b91'x"];
            let (bad, kd) = (BAD[(i % 6) as usize], i / 6 % 4);
            let (col, line) = (i / 24 % far, i / 24 / far);
            let mut s = String::new();
            for l in 0..line {
                s.push_str(&match kd {
                    0 => format!("f{l} = {l}\n"),
                    1 => format!("f{l} = {l}\r\n"),
                    2 => format!("f{l} = \"é漢{l}\"\n"),
                    _ => if l % 2 == 0 { format!("[[s]]\n{l}\n") } else { "\n".into() },
                });
            }
            s.push_str("g = [");
            s.push_str(&"1, ".repeat(col as usize / 3));
            s.push_str(&" ".repeat(col as usize % 3));
            s.push_str(bad);
            if kd % 2 == 0 {
                s.push_str("]\nh = 1\n");
            }
            cx.direct_states += 1;
            total(&s, cx)
        },
    ));
    Check {
        sections: v,
        assumptions: vec!["columns count bytes", "texts nest less deep than the stack allows"],
        rule: "every text of each stated family is parsed; errors are compared with an independent table of lines",
    }
}

fn judge(src: &str, cx: &mut Ctx) -> Res {
    let s = src.trim_start_matches([' ', '\t']);
    if s.starts_with(':') || field_ahead(s) || src.contains(['\n', '\r']) {
        return Ok(()); // a line-oriented text: decided by P09
    }
    let (want, odd) = single_line(src);
    let got = parse(src);
    cx.op();
    if odd {
        return Ok(());
    }
    cx.trace();
    match (want, got) {
        (None, Err(_)) => Ok(()),
        (Some(w), Ok(g)) => {
            if !denotes(&w, &g) {
                return viol(format!("{src:?}"), format!("{src:?} denotes {} but is read as {}", show(&w.build()), show(&g)));
            }
            cx.outcome(show(&g).as_bytes());
            cx.sample(|| format!("{src:?} -> {}", show(&g)));
            Ok(())
        }
        (Some(w), Err(e)) => viol(
            format!("{src:?}"),
            format!("{src:?} denotes {} but is refused\n{}", show(&w.build()), e.backtrace()),
        ),
        (None, Ok(g)) => viol(format!("{src:?}"), format!("{src:?} is no value but is read as {}", show(&g))),
    }
}

const LCHARS: &[&str] = &[
    "1", "a", "\"", "(", ")", "[", "]", "{", "}", ",", ":", "=", " ", "<", ">", "-", ".", "'",
];
const LTOKENS: &[&str] = &[
    "1", "a", "A ", "\"s\"", "()", "(", ")", "[", "]", "{", "}", ",", ":", "=", " ", "<A>", "true", "false", "truex", "str#",
    "#", "b91'fPNKd'", "-5", "0.5", "1e3", "inf", "NaN", "\t", "_", "é", "b = ", "\"",
];

pub fn p07(tier: Tier) -> Check {
    let inline: Vec<String> = {
        let mut v: Vec<String> = Vec::new();
        for e in [shapes(tier.pick(5, 6)), small(tier.pick(2, 3))] {
            for i in 0..e.count {
                v.push(e.get(i).build().as_str_with_config(configs_ids(31, None)));
            }
        }
        for s in ["<f64> 1.5e-3", "A (x = 1, y = [<u8> 1, <u8> 2], z = { 1: true })", "{\"k\": str#a\"b#, b91'fPNKd': T(1)}"] {
            v.push(s.into());
        }
        v.sort();
        v.dedup();
        v.sort_by_key(|s| s.len());
        v
    };
    let longer: Vec<String> = (0..=tier.pick(8, 16))
        .flat_map(|n| (0..30).map(move |q| long(q / 6, q % 6, n)))
        .chain((1..=tier.pick(4, 10)).flat_map(|d| (0..225).map(move |q| deep(q / 15, q % 15, d))))
        .map(|t| t.build().as_str_with_config(configs_ids(31, None)))
        .collect();
    let (maxn, maxd) = (tier.pick(120, 400), tier.pick(30, 60));
    let v = vec![
        section(
            "long",
            format!("the text of groups of 5 kinds x 6 kinds of members with every count 0..={maxn}, whole and with the last 1 to 12 characters cut off"),
            30 * (maxn + 1),
            move |i, cx| {
                let t = long(i % 30 / 6, i % 6, i / 30).build().as_str_with_config(configs_ids(31, None));
                for cut in 0..=12.min(t.len()) {
                    cx.state(t[..t.len() - cut].as_bytes());
                    judge(&t[..t.len() - cut], cx)?;
                }
                Ok(())
            },
        ),
        section(
            "deep",
            format!("the text of every period-two nesting pattern (15 x 15) with depth 1..={maxd}, whole and with the last 1 to 12 characters cut off or the first closing delimiter left out"),
            225 * maxd,
            move |i, cx| {
                let t = deep((i % 225 / 15) as usize, (i % 15) as usize, (i / 225 + 1) as usize).build();
                let t = t.as_str_with_config(configs_ids(31, None));
                for cut in 0..=12.min(t.len()) {
                    cx.state(t[..t.len() - cut].as_bytes());
                    judge(&t[..t.len() - cut], cx)?;
                }
                judge(&t.replacen([')', ']', '}'], "", 1), cx)
            },
        ),
        sec_edits("longer edits", longer, LCHARS, judge),
        sec_strings("chars", LCHARS, 0, tier.pick(6, 7), "", "", judge),
        sec_strings("tokens", LTOKENS, 0, tier.pick(5, 6), "", "", judge),
        sec_strings("in-seq", LTOKENS, 0, tier.pick(4, 5), "[", "]", judge),
        sec_strings("in-paren", LTOKENS, 0, tier.pick(4, 5), "(", ")", judge),
        sec_strings("in-map", LTOKENS, 0, tier.pick(4, 5), "{", "}", judge),
        sec_strings("in-field", LTOKENS, 0, tier.pick(4, 5), "A (x = ", ", b = 1)", judge),
        sec_strings("in-entry", LTOKENS, 0, tier.pick(3, 4), "{1: ", ", 1: (2, 3)}", judge),
        sec_edits("edits", inline, LCHARS, judge),
    ];
    Check {
        sections: v,
        assumptions: vec![
            "texts starting with a field assignment or ':' are line-oriented and belong to P09",
            "strings delimited by a name character, a blank or an equals sign are not judged (other rules claim the same text)",
        ],
        rule: "every text of each stated family is read by the parser and by the reference reader; acceptance and value must agree",
    }
}
