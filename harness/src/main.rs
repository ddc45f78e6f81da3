mod en;
mod engine;
mod model;
mod num;
mod p_fmt;
mod p_hist;
mod laws;
mod p_acc;
mod p_conf;
mod p_doc;
mod p_leaf;
mod p_misc;
mod p_more;
mod p_num;
mod p_parse;
mod p_serde;
mod p_val;
mod refparse;

use engine::*;
use std::collections::{HashMap, HashSet};
use std::io::Write;
use std::time::{Duration, Instant};

#[derive(Copy, Clone, PartialEq)]
pub enum Tier {
    Quick,
    Thorough,
}

impl Tier {
    pub fn name(self) -> &'static str {
        match self {
            Tier::Quick => "quick",
            Tier::Thorough => "thorough",
        }
    }
    pub fn pick<T>(self, q: T, t: T) -> T {
        match self {
            Tier::Quick => q,
            Tier::Thorough => t,
        }
    }
}

pub struct Check {
    pub sections: Vec<Section>,
    pub assumptions: Vec<&'static str>,
    pub rule: &'static str,
}

fn check(id: &str, tier: Tier) -> Option<Check> {
    Some(match id {
        "P01" => p_fmt::p01(tier),
        "P02" => p_fmt::p02(tier),
        "P03" => p_hist::p03(tier),
        "P04" => p_hist::p04(tier),
        "P05" => p_hist::p05(tier),
        "P06" => p_parse::p06(tier),
        "P07" => p_parse::p07(tier),
        "P08" => p_doc::p08(tier),
        "P09" => p_doc::p09(tier),
        "P10" => p_leaf::p10(tier),
        "P11" => p_leaf::p11(tier),
        "P12" => p_num::p12(tier),
        "P13" => p_num::p13(tier),
        "P14" => p_num::p14(tier),
        "P15" => p_val::p15(tier),
        "P16" => p_serde::p16(tier),
        "P17" => p_serde::p17(tier),
        "P18" => p_serde::p18(tier),
        "P19" => p_acc::p19(tier),
        "P20" => p_acc::p20(tier),
        "P21" => p_acc::p21(tier),
        "P22" => p_acc::p22(tier),
        "P23" => p_misc::p23(tier),
        "P24" => p_misc::p24(tier),
        "P25" => p_more::p25(tier),
        "P26" => p_more::p26(tier),
        "P27" => p_hist::p27(tier),
        "P28" => p_conf::p28(tier),
        _ => return None,
    })
}

const CASE_LIMIT: Duration = Duration::from_secs(40);
const EXIT_ERR: i32 = 2;

fn verif_dir() -> String {
    std::env::var("VERIF_DIR").unwrap_or_else(|_| "/verif".into())
}

fn json_str(s: &str) -> String {
    let mut o = String::from("\"");
    for c in s.chars() {
        match c {
            '"' => o.push_str("\\\""),
            '\\' => o.push_str("\\\\"),
            '\n' => o.push_str("\\n"),
            '\r' => o.push_str("\\r"),
            '\t' => o.push_str("\\t"),
            c if (c as u32) < 0x20 => o.push_str(&format!("\\u{:04x}", c as u32)),
            c => o.push(c),
        }
    }
    o.push('"');
    o
}

fn clip(s: &str, n: usize) -> String {
    if s.chars().count() <= n {
        s.to_string()
    } else {
        s.chars().take(n).collect::<String>() + "..."
    }
}

/// Known findings: lines `known: property=<id> key=<key> :: <what fails>`.
fn known_findings(id: &str) -> HashMap<String, String> {
    let mut r = HashMap::new();
    let p = format!("{}/known-findings.txt", verif_dir());
    let Ok(t) = std::fs::read_to_string(p) else {
        return r;
    };
    for l in t.lines() {
        if let Some(rest) = l.strip_prefix(&format!("known: property={id} key=")) {
            if let Some((k, what)) = rest.split_once(" :: ") {
                r.insert(k.to_string(), what.to_string());
            }
        }
    }
    r
}

fn seed() -> i64 {
    std::env::var("VERIF_SEED")
        .ok()
        .and_then(|s| s.parse().ok())
        .unwrap_or(0)
}

fn write_replay(id: &str, tier: Tier, sec: &Section, idx: u64, v: &Viol) -> String {
    let dir = format!("{}/evidence/replay", verif_dir());
    std::fs::create_dir_all(&dir).ok();
    let path = format!("{dir}/{id}-{}.json", tier.name());
    let s = format!(
        "{{\n \"property\": {},\n \"tier\": {},\n \"section\": {},\n \"index\": {},\n \"key\": {},\n \"what\": {},\n \"replay_cmd\": {}\n}}\n",
        json_str(id),
        json_str(tier.name()),
        json_str(&sec.name),
        idx,
        json_str(&v.key),
        json_str(&clip(&v.msg, 6000)),
        json_str(&format!("/verif/run.sh {id} {} one {} {}", tier.name(), sec.name, idx)),
    );
    std::fs::write(&path, s).ok();
    path
}

fn write_evidence(
    id: &str,
    tier: Tier,
    chk: &Check,
    out: Option<&Outcome>,
    violations: u64,
    wall: f64,
    note: &str,
) {
    let dir = format!("{}/evidence", verif_dir());
    std::fs::create_dir_all(&dir).ok();
    let mut secs = Vec::new();
    let mut exhaustive = false;
    let mut cov = String::new();
    if let Some(o) = out {
        exhaustive = o.violation.is_none() && !o.time_capped;
        for (i, s) in chk.sections.iter().enumerate() {
            let done = o.completed.get(i).copied().unwrap_or(0);
            secs.push(format!(
                "{{\"section\": {}, \"bound\": {}, \"cases\": {}, \"completed\": {}}}",
                json_str(&s.name),
                json_str(&s.bound),
                s.count,
                done
            ));
        }
        let samples: Vec<String> = o.samples.iter().map(|s| json_str(&clip(s, 400))).collect();
        let known: Vec<String> = o
            .known
            .iter()
            .map(|(k, (n, m))| {
                format!(
                    "{{\"key\": {}, \"hits\": {}, \"what\": {}}}",
                    json_str(k),
                    n,
                    json_str(&clip(m, 400))
                )
            })
            .collect();
        cov.push_str(&format!(
            "\"states\": {}, \"transitions\": {}, \"traces_validated_against_impl\": {}, \"distinct_outcomes\": {}, \"states_set_capped\": {}, \"known_findings\": [{}], \"samples\": [{}], ",
            o.states,
            o.transitions,
            o.traces,
            o.distinct_outcomes,
            o.states_capped,
            known.join(", "),
            samples.join(", ")
        ));
    } else {
        cov.push_str("\"states\": 0, \"transitions\": 0, \"traces_validated_against_impl\": 0, \"samples\": [], ");
    }
    let ass: Vec<String> = chk.assumptions.iter().map(|s| json_str(s)).collect();
    let s = format!(
        "{{\n \"property\": {},\n \"tier\": {},\n \"seed\": {},\n \"level\": \"model_checking\",\n \"coverage\": {{{}\"exhaustive\": {}, \"rule\": {}, \"note\": {}, \"sections\": [{}]}},\n \"assumptions\": [{}],\n \"wall_s\": {:.3},\n \"violations\": {}\n}}\n",
        json_str(id),
        json_str(tier.name()),
        seed(),
        cov,
        exhaustive,
        json_str(chk.rule),
        json_str(note),
        secs.join(",\n   "),
        ass.join(", "),
        wall,
        violations
    );
    let tmp = format!("{dir}/.{id}.tmp");
    std::fs::write(&tmp, s).expect("write evidence");
    std::fs::rename(&tmp, format!("{dir}/{id}.json")).expect("rename evidence");
}

fn limit_as(gb: u64) {
    let l = libc::rlimit {
        rlim_cur: gb << 30,
        rlim_max: gb << 30,
    };
    unsafe {
        libc::setrlimit(libc::RLIMIT_AS, &l);
        let c = libc::rlimit {
            rlim_cur: 0,
            rlim_max: 0,
        };
        libc::setrlimit(libc::RLIMIT_CORE, &c);
    }
}

fn threads() -> usize {
    std::thread::available_parallelism()
        .map(|n| n.get())
        .unwrap_or(4)
        .clamp(1, 16)
}

fn worker(id: &str, tier: Tier, casefile: &str) -> i32 {
    limit_as(16);
    install_panic_hook();
    let start = Instant::now();
    let chk = check(id, tier).expect("unknown property");
    let known = known_findings(id);
    let keys: HashSet<String> = known.keys().cloned().collect();
    let n = threads();
    let cases = Cases::map(casefile, n).expect("case table");
    let wall = Duration::from_secs(tier.pick(400, 800));
    let out = run_sections(&chk.sections, &keys, n, wall, &cases);
    let w = start.elapsed().as_secs_f64();
    if std::env::var_os("MC_SURVEY").is_some() {
        let mut v: Vec<_> = out.known.iter().collect();
        v.sort_by_key(|x| x.0.len());
        println!("{} violations", v.len());
        for (k, (_, m)) in v.iter().take(std::env::var("MC_SURVEY").unwrap().parse().unwrap_or(10)) {
            println!("--- {k}\n{m}");
        }
        return 1;
    }
    for (k, (n, m)) in &out.known {
        println!(
            "KNOWN-FINDING: property={id} {} ({n} cases, first: {})",
            known.get(k).map(|s| s.as_str()).unwrap_or(k),
            clip(m, 200)
        );
    }
    let note = if out.time_capped {
        "wall cap reached: sections not completed are not claimed"
    } else {
        ""
    };
    write_evidence(
        id,
        tier,
        &chk,
        Some(&out),
        out.violation.is_some() as u64,
        w,
        note,
    );
    println!(
        "{id} {} states={} transitions={} traces={} outcomes={} {:.1}s{}",
        tier.name(),
        out.states,
        out.transitions,
        out.traces,
        out.distinct_outcomes,
        w,
        if out.time_capped { " CAPPED" } else { "" }
    );
    if let Some((si, i, v)) = &out.violation {
        let p = write_replay(id, tier, &chk.sections[*si], *i, v);
        println!(
            "section {} index {}: {}",
            chk.sections[*si].name,
            i,
            clip(&v.msg, 3000)
        );
        println!("key: {}", v.key);
        println!("VIOLATION property={id} replay={p}");
        return 1;
    }
    0
}

fn one(id: &str, tier: Tier, sec: &str, idx: u64) -> i32 {
    limit_as(6);
    install_panic_hook();
    let chk = check(id, tier).expect("unknown property");
    let s = chk
        .sections
        .iter()
        .find(|s| s.name == sec)
        .expect("unknown section");
    assert!(idx < s.count, "index out of range");
    let r = std::thread::scope(|sc| {
        std::thread::Builder::new()
            .stack_size(STACK)
            .spawn_scoped(sc, || {
                let mut cx = one_ctx();
                run_case(s, idx, &mut cx)
            })
            .unwrap()
            .join()
            .unwrap()
    });
    match r {
        Ok(()) => {
            println!("held");
            0
        }
        Err(v) => {
            println!("{}\nkey: {}", v.msg, v.key);
            1
        }
    }
}

fn list_sections(id: &str, tier: Tier) {
    for s in check(id, tier).expect("unknown property").sections {
        println!("{:<28} {:>14}  {}", s.name, s.count, s.bound);
    }
}

fn spawn(args: &[&str]) -> std::process::Child {
    std::process::Command::new(std::env::current_exe().unwrap())
        .args(args)
        .spawn()
        .expect("spawn worker")
}

/// Runs the worker in its own process and watches it: a death by signal (stack overflow, abort) or a
/// case that does not finish is re-run alone, and is a violation only if it happens again.
fn supervise(id: &str, tier: Tier) -> i32 {
    let start = Instant::now();
    let dir = format!("{}/evidence", verif_dir());
    std::fs::create_dir_all(&dir).ok();
    // a stale file of an earlier run must not look like this run's evidence
    std::fs::remove_file(format!("{dir}/{id}.json")).ok();
    let casefile = format!("{dir}/.cases-{id}-{}", std::process::id());
    let n = threads();
    let cases = Cases::map(&casefile, n).expect("case table");
    for t in 0..n {
        cases.set(t, IDLE, 0);
    }
    let mut child = spawn(&["worker", id, tier.name(), &casefile]);
    let mut seen: Vec<(u64, Instant)> = vec![(0, Instant::now()); n];
    let mut suspects: Vec<(u64, u64)> = Vec::new();
    let status = loop {
        if let Some(st) = child.try_wait().expect("wait") {
            break Some(st);
        }
        std::thread::sleep(Duration::from_millis(20));
        for t in 0..n {
            let (s, i, q) = cases.get(t);
            if q != seen[t].0 {
                seen[t] = (q, Instant::now());
            } else if s != IDLE && seen[t].1.elapsed() > CASE_LIMIT {
                suspects.push((s, i));
            }
        }
        if !suspects.is_empty() {
            child.kill().ok();
            child.wait().ok();
            break None;
        }
    };
    let code = status.and_then(|s| s.code());
    if let Some(c @ (0 | 1)) = code {
        std::fs::remove_file(&casefile).ok();
        return c;
    }
    if status.is_some() && code.is_some() {
        // an ordinary error exit of the worker: an engine error, not a verdict
        std::fs::remove_file(&casefile).ok();
        eprintln!("worker failed with {:?}", code);
        return EXIT_ERR;
    }
    if suspects.is_empty() {
        for t in 0..n {
            let (s, i, _) = cases.get(t);
            if s != IDLE {
                suspects.push((s, i));
            }
        }
    }
    std::fs::remove_file(&casefile).ok();
    suspects.sort();
    let chk = check(id, tier).expect("unknown property");
    for (s, i) in suspects {
        let sec = &chk.sections[s as usize];
        let mut c = spawn(&["one", id, tier.name(), &sec.name, &i.to_string()]);
        let t0 = Instant::now();
        let what = loop {
            if let Some(st) = c.try_wait().expect("wait") {
                break match st.code() {
                    Some(0) => None,
                    Some(1) => Some("the case violates the property (re-run alone)".to_string()),
                    Some(101) | Some(2) => None,
                    _ => Some(format!(
                        "the process dies while executing this case: {st} (stack overflow or abort)"
                    )),
                };
            }
            if t0.elapsed() > CASE_LIMIT {
                c.kill().ok();
                c.wait().ok();
                break Some(format!(
                    "the case does not terminate within {} s",
                    CASE_LIMIT.as_secs()
                ));
            }
            std::thread::sleep(Duration::from_millis(10));
        };
        if let Some(w) = what {
            let v = Viol {
                key: format!("crash:{}:{i}", sec.name),
                msg: w,
            };
            let p = write_replay(id, tier, sec, i, &v);
            write_evidence(
                id,
                tier,
                &chk,
                None,
                1,
                start.elapsed().as_secs_f64(),
                "the worker process died; counts of the run are lost",
            );
            println!("section {} index {i}: {}", sec.name, v.msg);
            println!("VIOLATION property={id} replay={p}");
            return 1;
        }
    }
    eprintln!("worker died without a reproducible culprit: {status:?}");
    EXIT_ERR
}

fn main() {
    let a: Vec<String> = std::env::args().skip(1).collect();
    let tier = |s: &str| match s {
        "quick" => Tier::Quick,
        "thorough" => Tier::Thorough,
        _ => {
            eprintln!("tier must be quick or thorough");
            std::process::exit(EXIT_ERR)
        }
    };
    let args: Vec<&str> = a.iter().map(|s| s.as_str()).collect();
    let code = match args.as_slice() {
        ["check", id, t] => supervise(id, tier(t)),
        ["worker", id, t, cf] => worker(id, tier(t), cf),
        ["one", id, t, sec, i] => one(id, tier(t), sec, i.parse().expect("index")),
        ["list", id, t] => {
            list_sections(id, tier(t));
            0
        }
        _ => {
            eprintln!("usage: mc check|list ID quick|thorough | mc one ID tier SECTION INDEX");
            EXIT_ERR
        }
    };
    std::io::stdout().flush().ok();
    std::process::exit(code);
}
