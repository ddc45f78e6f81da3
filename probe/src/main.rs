//! Runs every case of every section that this build configuration has and prints, per section, the
//! name and one hash per case; `probe TIER SECTION INDEX` prints the transcript of one case.
#![allow(dead_code)]

#[path = "../../harness/src/en.rs"]
mod en;
#[path = "../../harness/src/laws.rs"]
mod laws;
#[path = "../../harness/src/model.rs"]
mod model;
#[path = "../../harness/src/num.rs"]
mod num;

use std::io::Write;
use std::sync::atomic::{AtomicU64, Ordering};

fn main() {
    std::panic::set_hook(Box::new(|_| ()));
    let args: Vec<String> = std::env::args().collect();
    let secs = laws::sections(args[1] == "thorough");
    if let [_, _, name, i] = &args[..] {
        let i: u64 = i.parse().unwrap();
        for s in secs {
            if s.name == name.as_str() {
                println!("{}", laws::transcript(&s, i));
            }
        }
        return;
    }
    let threads = std::thread::available_parallelism().map_or(4, |n| n.get());
    let mut out = std::io::BufWriter::new(std::io::stdout().lock());
    for s in &secs {
        let slots: Vec<AtomicU64> = (0..s.count).map(|_| AtomicU64::new(0)).collect();
        let next = AtomicU64::new(0);
        std::thread::scope(|sc| {
            for _ in 0..threads {
                std::thread::Builder::new()
                    .stack_size(64 << 20)
                    .spawn_scoped(sc, || loop {
                        let from = next.fetch_add(64, Ordering::Relaxed);
                        if from >= s.count {
                            break;
                        }
                        for i in from..(from + 64).min(s.count) {
                            let h = laws::digest(&laws::transcript(s, i));
                            slots[i as usize].store(h, Ordering::Relaxed);
                        }
                    })
                    .unwrap();
            }
        });
        writeln!(out, "{} {}", s.name.replace(' ', "_"), s.count).unwrap();
        for x in slots {
            out.write_all(&x.into_inner().to_le_bytes()).unwrap();
        }
    }
    out.flush().unwrap();
}
