//! Runtime monitors for undname. See DESIGN.md.

mod compile;
mod compose;
mod cov;
mod dict;
mod enums;
mod file;
mod gen;
mod heap;
mod judge;
mod made;
mod model;
mod props;
mod rng;
mod run;
mod shm;
mod special;
mod worker;

use std::{path::Path, time::Duration};

#[global_allocator]
static ALLOC: heap::Counting = heap::Counting;

fn main() {
    let a: Vec<String> = std::env::args().skip(1).collect();
    let n = |i: usize| a.get(i).and_then(|x| x.parse::<u64>().ok()).unwrap_or(0);
    let code = match a.first().map(String::as_str) {
        Some("run") if a.len() > 1 => run::main(&a[1]),
        Some("worker") if a.len() > 7 => worker::main(worker::Args {
            id: a[1].clone(),
            shard: n(2),
            shards: n(3),
            seed: n(4),
            time: Duration::from_millis(n(5)),
            dir: a[6].clone().into(),
            thorough: a[7] == "thorough",
            known: Path::new(&std::env::var("UNDMON_VERIF").unwrap_or_else(|_| "/verif".into())).join("known_findings.txt"),
        }),
        Some("probe") if a.len() > 2 => run::probe_main(Path::new(&a[1]), n(2)),
        Some("replay") if a.len() > 1 => run::replay(Path::new(&a[1])),
        Some("digest") if a.len() > 2 => {
            special::digest_main(&a[1], n(2), n(3) as usize);
            0
        }
        Some("model") if a.len() > 1 => {
            // what the reference demangler makes of a symbol: `model SYMBOL [FLAGS]`
            let fl = n(2) as u16;
            match model::parse(&a[1]) {
                Ok(p) => println!("{:?} {:?}", p.print(fl), p.feats.list()),
                Err(e) => println!("refused: {:?} at {}", e.why, e.at),
            }
            println!("{:?}", undname::demangle(&a[1], undname::Flags::from_bits_retain(fl)));
            0
        }
        _ => {
            eprintln!("usage: undmon run ID | replay FILE | model SYMBOL [FLAGS]");
            2
        }
    };
    std::process::exit(code);
}
