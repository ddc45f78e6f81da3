//! P10, P11: strings and byte arrays in every position.

use crate::en::*;
use crate::engine::*;
use crate::model::*;
use crate::p_fmt::round_trip;
use crate::p_parse::scalar;
use crate::refparse::base91_decode;
use crate::{Check, Tier};
use kserd::fmt::FormattingConfig;

const PLACES: u64 = 12;

/// The leaf at one of the places a value may stand, with neighbours.
fn place(x: M, p: u64) -> M {
    let one = || uint(1);
    let cntr = |f: Vec<(&str, M)>| m(V::Cntr(f.into_iter().map(|(n, v)| (n.to_string(), v)).collect()));
    match p {
        0 => x,
        1 => cntr(vec![("a", one()), ("b", x), ("c", one())]),
        2 => m(V::Seq(vec![x.clone(), one(), x])),
        3 => m(V::Tuple(vec![x.clone(), one(), x])),
        4 => m(V::Map(vec![(one(), x.clone()), (x, one())])),
        // below a line-oriented container: list entry, map entry, map key, nested fields
        5 => cntr(vec![("a", m(V::Seq(vec![x.clone(), x]))), ("b", one())]),
        6 => cntr(vec![("a", m(V::Map(vec![(x.clone(), x)]))), ("b", one())]),
        7 => cntr(vec![("a", cntr(vec![("x", x.clone()), ("y", x)])), ("b", one())]),
        8 => cntr(vec![("a", m(V::Seq(vec![cntr(vec![("x", x)]), one()])))]),
        9 => cntr(vec![("a", m(V::Map(vec![(m(V::Tuple(vec![x.clone()])), m(V::Seq(vec![x])))])))]),
        10 => cntr(vec![("a", m(V::Map(vec![(x.clone(), cntr(vec![("x", x)]))])))]),
        _ => m(V::Tuple(vec![cntr(vec![("x", x)])])),
    }
}

fn cfgs(n: usize) -> impl Iterator<Item = FormattingConfig> {
    [
        configs_ids(0, None),
        configs_ids(31, Some(0)),
        configs_ids(0, Some(0)),
        configs_ids(31, None),
        configs_ids(31, Some(12)),
        configs_ids(31, Some(30)),
    ]
    .into_iter()
    .take(n)
}

fn put(x: M, p: u64, n: usize, cx: &mut Ctx) -> Res {
    round_trip(&place(x, p).build(), cfgs(n), true, cx)
}

const DELIMS: &str = "\"'#`|*^!%~&\\/:<>)";

const SCHARS: [char; 26] = [
    '"', 'a', '\n', '=', ' ', '\'', '[', ']', ':', '#', '(', ')', '{', '}', '\r', '\t', '1', ',',
    '<', '>', '\\', '`', 'é', '\0', '.', 's',
];

const STOKENS: [&str; 24] = [
    "a = 1", "\n", "[a]", "[[a]]", ":A", "    ", "]", "}", ")", ",", "\"", "'", "str\"", "b91'", "=", ": ",
    "1", "\r\n", "<A>", "(", "{", "[", "#", "\t",
];

pub fn p10(tier: Tier) -> Check {
    let n = tier.pick(3, 4);
    let mut v = vec![section(
        "short",
        format!("all strings of <= {n} of 26 characters x {PLACES} places x 4 configurations"),
        strings_count(26, 0, n) * PLACES,
        move |i, cx| {
            let s: String = nth_string(i / PLACES, 26, 0, n).iter().map(|&d| SCHARS[d]).collect();
            put(st(&s), i % PLACES, 4, cx)
        },
    )];
    let n2 = tier.pick(4, 5);
    v.push(section(
        "longer",
        format!("all strings of <= {n2} of 26 characters as a whole text and as a field of a document"),
        strings_count(26, 0, n2) * 2,
        move |i, cx| {
            let s: String = nth_string(i / 2, 26, 0, n2).iter().map(|&d| SCHARS[d]).collect();
            put(st(&s), i % 2, 2, cx)
        },
    ));
    v.push(section(
        "syntax",
        format!("all strings of <= {n} of 24 pieces of syntax x {PLACES} places x 4 configurations"),
        strings_count(24, 0, n) * PLACES,
        move |i, cx| {
            let s: String = nth_string(i / PLACES, 24, 0, n).iter().map(|&d| STOKENS[d]).collect();
            put(st(&s), i % PLACES, 4, cx)
        },
    ));
    let ps = tier.pick(3, PLACES);
    v.push(section(
        "delimiters",
        format!("all 2^17 subsets of the characters \"'#`|*^!%~&\\/:<>) as strings, in both orders, x {ps} places"),
        (1 << 17) * 2 * ps,
        move |i, cx| {
            let (p, i) = (i % ps, i / ps);
            let (rev, set) = (i % 2 == 1, i / 2);
            let mut s: Vec<char> = DELIMS
                .chars()
                .enumerate()
                .filter(|(b, _)| set >> b & 1 == 1)
                .map(|x| x.1)
                .collect();
            if rev {
                s.reverse();
                s.push('=');
            }
            put(st(&s.iter().collect::<String>()), p, 2, cx)
        },
    ));
    v.push(section(
        "exhausted",
        "strings with every ASCII character and all of U+00A1.. up to n, one of them left out, n < 40",
        40 * 41 * 2,
        |i, cx| {
            let (ascii, i) = (i % 2 == 0, i / 2);
            let (n, gap) = (i / 41, i % 41);
            let mut s: String = if ascii {
                (0u8..128).map(|b| b as char).collect()
            } else {
                DELIMS.into()
            };
            s.extend((0..n).filter(|&j| j != gap).map(|j| char::from_u32(0xa1 + j as u32).unwrap()));
            put(st(&s), i % PLACES, 2, cx)
        },
    ));
    v.push(section(
        "ascii-gaps",
        "strings with every ASCII character but one or two",
        128 * 128,
        |i, cx| {
            let (a, b) = ((i / 128) as u8, (i % 128) as u8);
            if a > b {
                return Ok(());
            }
            let s: String = (0u8..128).filter(|&x| x != a && x != b).map(|x| x as char).collect();
            put(st(&s), 0, 1, cx)?;
            put(st(&s), 1, 2, cx)
        },
    ));
    v.push(section(
        "unicode",
        "every Unicode scalar value alone, beside a double quote, and doubled, as a whole text and as a field",
        0x110000 * 3,
        |i, cx| {
            let Some(c) = scalar(i / 3) else { return Ok(()) };
            let s = match i % 3 {
                0 => c.to_string(),
                1 => format!("{c}\"'"),
                _ => format!("a{c}{c}b"),
            };
            put(st(&s), 0, 1, cx)?;
            put(st(&s), 1, 2, cx)
        },
    ));
    v.push(section(
        "long",
        "strings of every length 0..=1200 of 4 patterns x 12 places",
        1201 * 4 * PLACES,
        |i, cx| {
            let (p, i) = (i % PLACES, i / PLACES);
            let pat = ["x", "é\n", "\"'#", "a = 1\n"][(i % 4) as usize];
            let n = (i / 4) as usize;
            let s: String = pat.chars().cycle().take(n).collect();
            put(st(&s), p, 2, cx)
        },
    ));
    Check {
        sections: v,
        assumptions: vec![],
        rule: "every string of each family is written at each place, parsed and compared with the tree it came from",
    }
}

fn bytes(b: &[u8], cx: &mut Ctx, places: u64) -> Res {
    let x = ba(b);
    // the written text denotes the bytes by an independent decoder
    let t = x.build().as_str_with_config(configs_ids(0, None));
    cx.op();
    let inner = t.strip_prefix("b91'").and_then(|t| t.strip_suffix('\''));
    if inner.and_then(base91_decode).as_deref() != Some(b) {
        return viol(format!("{b:?}"), format!("{b:?} is written as {t:?} which denotes {:?}", inner.and_then(base91_decode)));
    }
    for p in 0..places {
        put(x.clone(), p, if p == 0 { 1 } else { 2 }, cx)?;
    }
    Ok(())
}

const BSET: [u8; 24] = [
    0, 1, 255, 254, 127, 128, 88, 89, 90, 91, 92, 87, 64, 63, 32, 31, 16, 8, 7, 39, 62, 170, 85, 13,
];

pub fn p11(tier: Tier) -> Check {
    let mut v = vec![
        section("two", "all byte arrays of 0..=2 bytes x 4 places", 1 + 256 + 65536, |i, cx| {
            let b: Vec<u8> = nth_string(i, 256, 0, 2).iter().map(|&d| d as u8).collect();
            bytes(&b, cx, 4)
        }),
        section("boundary", "all byte arrays of 0..=4 of 24 boundary bytes x 2 places", strings_count(24, 0, 4), |i, cx| {
            let b: Vec<u8> = nth_string(i, 24, 0, 4).iter().map(|&d| BSET[d]).collect();
            bytes(&b, cx, 2)
        }),
    ];
    let n = tier.pick(16, 20);
    v.push(section("bits", format!("all byte arrays of 0..={n} bytes 00/ff"), strings_count(2, 0, n), move |i, cx| {
        let b: Vec<u8> = nth_string(i, 2, 0, n).iter().map(|&d| [0, 255][d]).collect();
        bytes(&b, cx, 1)
    }));
    v.push(section(
        "prefixes",
        "all 16-bit values after 0..=13 zero bytes, and before one",
        14 * 65536,
        |i, cx| {
            let mut b = vec![0u8; (i / 65536) as usize];
            b.extend((i as u16).to_le_bytes());
            bytes(&b, cx, 1)?;
            b.push(0);
            bytes(&b, cx, 1)
        },
    ));
    v.push(section("lengths", "every length 0..=1500 x 6 patterns x 12 places", 1501 * 6, |i, cx| {
        let n = (i / 6) as usize;
        let b: Vec<u8> = (0..n)
            .map(|j| match i % 6 {
                0 => 0,
                1 => 255,
                2 => j as u8,
                3 => (j * 89 + 88) as u8,
                4 => (j as u8).wrapping_mul(j as u8) ^ 0x5a,
                _ => 0x27,
            })
            .collect();
        bytes(&b, cx, PLACES)
    }));
    if tier == Tier::Thorough {
        v.push(section("three", "all byte arrays of 3 bytes", 1 << 24, |i, cx| {
            bytes(&[(i >> 16) as u8, (i >> 8) as u8, i as u8], cx, 1)
        }));
    }
    Check {
        sections: v,
        assumptions: vec![],
        rule: "every byte array of each family is written, decoded by an independent decoder, parsed at each place and compared",
    }
}
