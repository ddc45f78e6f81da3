//! P28: every build configuration behaves the same. `probe.sh` has run every case of `laws` in each
//! configuration and left one digest per case; here each case is run once more and compared.

use crate::engine::*;
use crate::laws::*;
use crate::{Check, Tier};
use std::collections::HashMap;
use std::sync::{Arc, OnceLock};

const CONFIGS: [&str; 16] = [
    "encode-format-parse-debug",
    "encode-format-parse-release",
    "none-debug",
    "none-release",
    "encode-debug",
    "encode-release",
    "format-debug",
    "format-release",
    "parse-debug",
    "parse-release",
    "encode-format-debug",
    "encode-format-release",
    "encode-parse-debug",
    "encode-parse-release",
    "format-parse-debug",
    "format-parse-release",
];

enum Run {
    /// digests by section
    Done(HashMap<String, Vec<u64>>),
    /// the crate does not build, or the probe died
    Failed(String),
}

fn give_up(why: String) -> ! {
    eprintln!("{why}");
    std::process::exit(2)
}

fn load(cfg: &str) -> Run {
    let base = format!("{}/build/probe/{cfg}", std::env::var("VERIF_DIR").unwrap_or_else(|_| "/verif".into()));
    if let Ok(t) = std::fs::read_to_string(format!("{base}.fail")) {
        return Run::Failed(t);
    }
    let b = std::fs::read(format!("{base}.out")).unwrap_or_else(|e| give_up(format!("{base}.out: {e}")));
    let mut out = HashMap::new();
    let mut at = 0;
    while at < b.len() {
        let end = at + b[at..].iter().position(|&c| c == b'\n').unwrap_or_else(|| give_up(format!("{base}.out is cut")));
        let head = String::from_utf8_lossy(&b[at..end]).to_string();
        let (name, n) = head.split_once(' ').unwrap_or_else(|| give_up(format!("{base}.out: {head}")));
        let n: usize = n.parse().unwrap_or_else(|_| give_up(format!("{base}.out: {head}")));
        at = end + 1;
        if at + 8 * n > b.len() {
            give_up(format!("{base}.out is cut"));
        }
        let v = b[at..at + 8 * n].chunks(8).map(|c| u64::from_le_bytes(c.try_into().unwrap())).collect();
        out.insert(name.replace('_', " "), v);
        at += 8 * n;
    }
    Run::Done(out)
}

/// Whether a configuration has the features a section is about.
fn has(cfg: &str, section: &str) -> bool {
    let needs: &[&str] = match section {
        "texts" | "requests" => &["format"],
        "token strings" | "documents" => &["parse"],
        "round trips" => &["format", "parse"],
        "decoding" => &["encode"],
        _ => &[],
    };
    needs.iter().all(|n| cfg.contains(n))
}

pub fn p28(tier: Tier) -> Check {
    let runs: Arc<OnceLock<Vec<Run>>> = Arc::new(OnceLock::new());
    let mut v = Vec::new();
    let r = runs.clone();
    v.push(section(
        "builds",
        "every subset of the features encode, format and parse, with and without debug assertions and overflow checks",
        16,
        move |i, cx| {
            let runs = r.get_or_init(|| CONFIGS.iter().map(|c| load(c)).collect());
            let cfg = CONFIGS[i as usize];
            cx.state(cfg.as_bytes());
            cx.op();
            match &runs[i as usize] {
                Run::Failed(why) => viol(cfg, format!("configuration {cfg}: {why}")),
                Run::Done(s) => {
                    cx.sample(|| format!("{cfg}: {} sections", s.len()));
                    cx.trace();
                    Ok(())
                }
            }
        },
    ));
    for l in sections(tier == Tier::Thorough) {
        let r = runs.clone();
        let name = l.name;
        v.push(section(name, l.bound.clone(), l.count, move |i, cx| {
            let runs = r.get_or_init(|| CONFIGS.iter().map(|c| load(c)).collect());
            let t = transcript(&l, i);
            let d = digest(&t);
            cx.direct_states += 1;
            cx.op();
            for (cfg, run) in CONFIGS.iter().zip(runs) {
                let Run::Done(s) = run else { continue };
                if !has(cfg, name) {
                    continue;
                }
                let Some(x) = s.get(name).and_then(|v| v.get(i as usize)) else {
                    give_up(format!("{cfg} has not run {name} {i}"))
                };
                cx.op();
                cx.trace();
                if *x != d {
                    let other = std::process::Command::new(format!(
                        "{}/build/probe/{cfg}.bin",
                        std::env::var("VERIF_DIR").unwrap_or_else(|_| "/verif".into())
                    ))
                    .args([tier.name(), name, &i.to_string()])
                    .output()
                    .map(|o| String::from_utf8_lossy(&o.stdout).to_string())
                    .unwrap_or_default();
                    return viol(
                        format!("{name} {i} {cfg}"),
                        format!("the build configuration changes what happens\n case {i} of {name}\n with all features and debug assertions:\n{t}\n in configuration {cfg}:\n{other}"),
                    );
                }
            }
            cx.outcome(&d.to_le_bytes());
            cx.sample(|| format!("{name} {i}: {}", t.chars().take(120).collect::<String>()));
            Ok(())
        }));
    }
    Check {
        sections: v,
        assumptions: vec![
            "the error texts and debug forms count as behaviour",
            "results are compared through 64-bit digests of a full transcript of the case",
        ],
        rule: "every case runs in each of the 16 build configurations that has the features it needs; all transcripts are the same",
    }
}
