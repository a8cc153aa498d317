//! The main function of a batch program: runs the targets of a property on the worlds compiled into it.

use crate::engines::{self, Cx, Target};
use crate::json::{n, obj, s, J};
use crate::tape::{hash_bytes, hash_words, mix, shrink, Src};
use crate::vt::WorldVt;
use std::cell::RefCell;
use std::collections::HashSet;
use std::io::Write;
use std::panic::{catch_unwind, AssertUnwindSafe};
use std::sync::atomic::{AtomicU64, Ordering};
use std::sync::OnceLock;
use std::time::{Duration, Instant};

thread_local! {
    static PANIC: RefCell<String> = RefCell::new(String::new());
}

pub fn quiet_panics() {
    std::panic::set_hook(Box::new(|i| {
        let m = i.payload().downcast_ref::<&str>().map(|v| v.to_string()).or(i.payload().downcast_ref::<String>().cloned()).unwrap_or_default();
        let at = i.location().map(|l| {
            let f = l.file();
            format!("{}:{}", f.rsplit('/').take(3).collect::<Vec<_>>().into_iter().rev().collect::<Vec<_>>().join("/"), l.line())
        }).unwrap_or_default();
        let text = format!("panic at {}: {}", at, m);
        if let Ok(mut l) = LAST.lock() {
            *l = text.clone();
        }
        PANIC.with(|p| *p.borrow_mut() = text);
    }));
}

pub fn last_panic() -> String {
    LAST.lock().map(|v| v.clone()).unwrap_or_default()
}

static LAST: std::sync::Mutex<String> = std::sync::Mutex::new(String::new());

/// Runs a case; a panic is a failure.
pub fn guarded<T>(f: impl FnOnce() -> Result<T, String>) -> Result<T, String> {
    match catch_unwind(AssertUnwindSafe(f)) {
        Ok(r) => r,
        Err(_) => Err(PANIC.with(|p| p.borrow().clone())),
    }
}

/// When the case being run started, in milliseconds from the start of the program; 0 between cases.
static STARTED: AtomicU64 = AtomicU64::new(0);
const CASE_LIMIT: u64 = 60_000;

fn run_target(t: &Target, src: &mut Src, want: bool) -> engines::Case {
    STARTED.store(now().max(1), Ordering::Relaxed);
    let r = guarded(|| (t.run)(src, want));
    STARTED.store(0, Ordering::Relaxed);
    r
}

fn now() -> u64 {
    static BASE: OnceLock<Instant> = OnceLock::new();
    BASE.get_or_init(Instant::now).elapsed().as_millis() as u64
}

/// Ends the program when a case does not end.
fn watch() {
    now();
    std::thread::spawn(|| loop {
        std::thread::sleep(Duration::from_millis(500));
        let t = STARTED.load(Ordering::Relaxed);
        if t != 0 && now() > t + CASE_LIMIT {
            eprintln!("(a case does not end in {} s)", CASE_LIMIT / 1000);
            std::process::abort();
        }
    });
}

/// Limits the memory of this process, so that code which takes more and more is noticed here.
pub fn limit_memory(gib: u64) {
    #[repr(C)]
    struct Limit {
        now: u64,
        max: u64,
    }
    extern "C" {
        fn setrlimit(what: i32, to: *const Limit) -> i32;
    }
    const RLIMIT_AS: i32 = 9;
    let l = Limit { now: gib << 30, max: gib << 30 };
    unsafe {
        setrlimit(RLIMIT_AS, &l);
    }
}

pub fn tape_json(t: &[u64]) -> J {
    J::Arr(t.iter().map(n).collect())
}

pub fn main(worlds: Vec<(usize, fn() -> WorldVt)>) {
    quiet_panics();
    limit_memory(3);
    watch();
    let h = std::thread::Builder::new().stack_size(1 << 28).spawn(move || body(worlds)).expect("thread");
    if h.join().is_err() {
        std::process::exit(3);
    }
}

fn body(worlds: Vec<(usize, fn() -> WorldVt)>) {
    let args: Vec<String> = std::env::args().collect();
    let prop = &args[2];
    match &*args[1] {
        // run PROP SEED CASES [TRACE]
        "run" => run(worlds, prop, args[3].parse().unwrap(), args[4].parse().unwrap(), args.get(5).map(|v| &**v)),
        // replay PROP WORLD TARGET TAPE
        // case PROP WORLD TARGET SEED
        "replay" | "case" => {
            let id: usize = args[3].parse().unwrap();
            let mut src = if args[1] == "case" {
                Src::random(args[5].parse().unwrap())
            } else {
                let tape: Vec<u64> = args[5].split(',').filter(|v| !v.is_empty()).map(|v| v.parse().unwrap()).collect();
                Src::replay(&tape)
            };
            for (w, vt) in worlds {
                if w != id {
                    continue;
                }
                let cx = Cx::new(vt());
                for t in engines::targets(prop, &cx) {
                    if t.name == args[4] {
                        let r = run_target(&t, &mut src, true);
                        let j = match r {
                            Ok(i) => obj(vec![("ok", s(i.sample))]),
                            Err(e) => obj(vec![("fail", s(e))]),
                        };
                        println!("{}", j.text());
                        return;
                    }
                }
            }
            println!("{}", obj(vec![("missing", J::Bool(true))]).text());
        }
        _ => std::process::exit(3),
    }
}

fn run(worlds: Vec<(usize, fn() -> WorldVt)>, prop: &str, seed: u64, cases: u64, trace: Option<&str>) {
    let mut out = std::io::stdout().lock();
    for (id, vt) in worlds {
        let vt = vt();
        let wh = hash_bytes(vt.json.as_bytes());
        let cx = Cx::new(vt);
        let mut failed = false;
        for (ti, t) in engines::targets(prop, &cx).iter().enumerate() {
            let mut seen: HashSet<u64> = HashSet::new();
            let mut samples = Vec::new();
            let mut done = 0u64;
            let total = cases * t.weight;
            for c in 0..total {
                let cs = mix(seed ^ mix(hash_bytes(prop.as_bytes()) ^ wh ^ mix(ti as u64 ^ (c << 20))));
                if let Some(f) = trace {
                    std::fs::write(f, format!("{} {} {}", id, cs, t.name)).expect("trace");
                }
                let mut src = Src::random(cs);
                let want = samples.is_empty() && c >= total / 2 || samples.len() < 2 && c == total - 1;
                let r = run_target(t, &mut src, want);
                done += 1;
                match r {
                    Ok(i) => {
                        if i.nontrivial {
                            seen.insert(hash_words(src.tape()));
                            if want {
                                samples.push(s(i.sample));
                            }
                        }
                    }
                    Err(first) => {
                        let tape = src.tape().to_vec();
                        let small = shrink(tape, 4000, |t1| run_target(t, &mut Src::replay(t1), false).is_err());
                        let msg = match run_target(t, &mut Src::replay(&small), true) {
                            Err(e) => e,
                            Ok(_) => first,
                        };
                        let j = obj(vec![("world", n(id)), ("target", s(&*t.name)), ("root", obj(vec![("proto", n(t.root.0)), ("type", s(&*t.root.1))])), ("msg", s(msg)), ("tape", tape_json(&small))]);
                        let _ = writeln!(out, "{}", obj(vec![("fail", j)]).text());
                        failed = true;
                        break;
                    }
                }
            }
            let j = obj(vec![("world", n(id)), ("target", s(&*t.name)), ("cases", n(done)), ("distinct", n(seen.len())), ("samples", J::Arr(samples))]);
            let _ = writeln!(out, "{}", obj(vec![("stat", j)]).text());
            if failed {
                break;
            }
        }
        if failed {
            break;
        }
    }
    let _ = writeln!(out, "{}", obj(vec![("end", J::Bool(true))]).text());
    let _ = out.flush();
}
