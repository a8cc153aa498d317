mod accept;
mod bits;
mod drive;
mod env;
mod hostile;
mod imports;
mod known;
mod output;
mod pipeline;
mod refuse;
mod report;
mod runtime;
mod template;
mod worlds;

use drive::Part;
use env::Env;
use oracle::json::J;
use report::Report;

fn main() {
    let args: Vec<String> = std::env::args().collect();
    oracle::batch::quiet_panics();
    let h = std::thread::Builder::new().stack_size(256 << 20).spawn(move || body(args)).expect("thread");
    std::process::exit(h.join().unwrap_or_else(|_| {
        eprintln!("check error: {}", oracle::batch::last_panic());
        2
    }));
}

/// The in-process cases of a property, and the rule by which a case is not trivial.
fn parts(env: &Env, prop: &str) -> Option<(Vec<Part>, &'static str)> {
    Some(match prop {
        "T01" => (template::parts(), template::RULE),
        "R02" => (runtime::bytes(), runtime::RULE_BYTES),
        "R03" => (runtime::messages(), runtime::RULE_MESSAGES),
        "C03" => (output::stable_parts(env), output::RULE_STABLE),
        "C05" => (output::flag_parts(env), output::RULE_FLAGS),
        "C07" => (output::fault_parts(env), output::RULE_FAULTS),
        "C06" => (hostile::parts(env), hostile::RULE),
        "C08" => (imports::parts(env), imports::RULE),
        "C02" => (refuse::parts(env), refuse::RULE),
        _ => return None,
    })
}

/// Runs a saved case again: how it fails, or how it passes.
fn replay(env: &Env, prop: &str, j: &J) -> Result<String, String> {
    match j.get("kind").and_then(|v| v.str()).unwrap_or("") {
        "case" => drive::replay(env, prop, &parts(env, prop).expect("parts").0, j),
        "bits" => bits::replay(env, j),
        "accept" if prop == "C01" => accept::replay(env, j),
        _ => worlds::replay(env, prop, j),
    }
}

fn body(args: Vec<String>) -> i32 {
    match args.get(1).map(|v| &**v) {
        Some("check") if args.len() == 3 => {
            let prop = &args[2];
            let env = Env::new(prop);
            let mut rep = match parts(&env, prop) {
                Some((_, rule)) => {
                    let mut rep = Report::new(prop, rule);
                    drive::check(&env, &mut rep);
                    rep
                }
                None if prop == "R01" => bits::check(&env),
                None if prop == "C01" => accept::check(&env),
                None => worlds::check(&env, prop),
            };
            known::probe(&env, &mut rep);
            rep.finish(&env)
        }
        // Children of a check.
        Some("parts") if args.len() >= 4 => {
            let env = Env::inner(&args[3]);
            let (p, _) = parts(&env, &args[2]).expect("parts");
            drive::child(&env, &args[2], &p, args.get(4).map(std::path::Path::new))
        }
        Some("one") if args.len() == 6 => {
            let env = Env::inner(&args[3]);
            let (p, _) = parts(&env, &args[2]).expect("parts");
            drive::one(&p, &args[4], args[5].parse().expect("seed"))
        }
        Some(kind @ ("job" | "script")) if args.len() == 3 => output::child(kind, &args[2]),
        Some("explore") => {
            hostile::explore(&Env::new("explore"), args[2].parse().expect("count"));
            0
        }
        Some("replay") if args.len() == 3 => {
            let t = std::fs::read_to_string(&args[2]).expect("replay file");
            let j = J::parse(&t).expect("replay file");
            let prop = j.get("property").and_then(|v| v.str()).expect("property").to_string();
            let env = Env::new("replay");
            match replay(&env, &prop, &j) {
                Ok(m) => {
                    println!("{}", m);
                    println!("VIOLATION property={} replay={}", prop, args[2]);
                    1
                }
                Err(m) => {
                    println!("{}: {}", prop, m);
                    0
                }
            }
        }
        _ => {
            eprintln!("usage: check.sh PROPERTY | check.sh --replay FILE");
            2
        }
    }
}
