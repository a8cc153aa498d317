//! G01 in a program of its own: it alone depends on the members of the compiled protocols.
#![allow(dead_code)]

#[path = "../../runner/src/drive.rs"]
mod drive;
#[path = "../../runner/src/env.rs"]
mod env;
mod handed;
#[path = "../../runner/src/known.rs"]
mod known;
#[path = "../../runner/src/pipeline.rs"]
mod pipeline;
#[path = "../../runner/src/report.rs"]
mod report;

use env::Env;
use oracle::json::J;
use report::Report;

fn replay(env: &Env, prop: &str, j: &J) -> Result<String, String> {
    drive::replay(env, prop, &handed::parts(env), j)
}

fn body(args: Vec<String>) -> i32 {
    match args.get(1).map(|v| &**v) {
        Some("check") if args.len() == 3 => {
            let env = Env::new(&args[2]);
            let mut rep = Report::new(&args[2], handed::RULE);
            drive::check(&env, &mut rep);
            known::probe(&env, &mut rep);
            rep.finish(&env)
        }
        Some("parts") if args.len() >= 4 => {
            let env = Env::inner(&args[3]);
            drive::child(&env, &args[2], &handed::parts(&env), args.get(4).map(std::path::Path::new))
        }
        Some("one") if args.len() == 6 => {
            let env = Env::inner(&args[3]);
            drive::one(&handed::parts(&env), &args[4], args[5].parse().expect("seed"))
        }
        Some("replay") if args.len() == 3 => {
            let j = J::parse(&std::fs::read_to_string(&args[2]).expect("replay file")).expect("replay file");
            let prop = j.get("property").and_then(|v| v.str()).expect("property").to_string();
            match replay(&Env::new("replay"), &prop, &j) {
                Ok(m) => {
                    println!("{}\nVIOLATION property={} replay={}", m, prop, args[2]);
                    1
                }
                Err(m) => {
                    println!("{}: {}", prop, m);
                    0
                }
            }
        }
        _ => 2,
    }
}

fn main() {
    let args: Vec<String> = std::env::args().collect();
    oracle::batch::quiet_panics();
    let h = std::thread::Builder::new().stack_size(256 << 20).spawn(move || body(args)).expect("thread");
    std::process::exit(h.join().unwrap_or_else(|_| {
        eprintln!("check error: {}", oracle::batch::last_panic());
        2
    }));
}
