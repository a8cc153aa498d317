//! In-process generated cases: parallel, deterministic for a seed, shrunk, replayable.
//!
//! The parts run in a child process, so that a case which aborts the process (stack overflow, double panic, memory)
//! or never ends is found and reported like any other failing case.

use crate::env::Env;
use crate::pipeline::fatal;
use crate::report::Report;
use oracle::batch::{limit_memory, guarded, tape_json};
use oracle::json::{n, obj, s, J};
use oracle::tape::{hash_bytes, mix, shrink, Src};
use std::collections::{BTreeMap, HashSet};
use std::path::Path;
use std::process::{Command, Stdio};
use std::sync::atomic::{AtomicU64, Ordering};
use std::sync::Mutex;
use std::time::{Duration, Instant};

#[derive(Default)]
pub struct Info {
    /// Identifies the case among the non-trivial ones; `None` when it is trivial.
    pub key: Option<u64>,
    pub classes: Vec<&'static str>,
    pub sample: String,
}

pub type Case = Result<Info, String>;

/// One kind of generated case of a property.
pub struct Part {
    pub name: &'static str,
    /// Cases of the quick and of the thorough tier.
    pub cases: (u64, u64),
    pub run: Box<dyn Fn(&mut Src, bool) -> Case + Sync + Send>,
}

pub fn part(name: &'static str, cases: (u64, u64), run: impl Fn(&mut Src, bool) -> Case + Sync + Send + 'static) -> Part {
    Part { name, cases, run: Box::new(run) }
}

/// A case may not take longer.
const CASE_LIMIT: Duration = Duration::from_secs(40);

fn case_seed(env: &Env, prop: &str, part: &str, i: u64) -> u64 {
    mix(env.seed ^ mix(hash_bytes(prop.as_bytes()) ^ hash_bytes(part.as_bytes()).rotate_left(17) ^ mix(i)))
}

struct Found {
    index: u64,
    tape: Vec<u64>,
    msg: String,
}

/// Runs in the child: every part, one JSON line each, then an end line.
pub fn child(env: &Env, prop: &str, parts: &[Part], trace: Option<&Path>) -> i32 {
    limit_memory(12);
    for p in parts {
        let total = env.pick(p.cases.0, p.cases.1);
        let next = AtomicU64::new(0);
        let stop = AtomicU64::new(u64::MAX);
        let done = AtomicU64::new(0);
        let found: Mutex<Option<Found>> = Mutex::new(None);
        let seen: Mutex<HashSet<u64>> = Mutex::new(HashSet::new());
        let classes: Mutex<BTreeMap<&'static str, u64>> = Mutex::new(BTreeMap::new());
        let samples: Mutex<Vec<(u64, String)>> = Mutex::new(vec![]);
        let slots: Vec<Mutex<Option<(u64, Instant)>>> = (0..env.jobs).map(|_| Mutex::new(None)).collect();
        let over = std::sync::atomic::AtomicBool::new(false);
        let chunk = (total / (env.jobs as u64 * 16)).clamp(1, 4096);
        std::thread::scope(|sc| {
            // The watchdog ends the process when a case does not.
            let watch = sc.spawn(|| {
                while !over.load(Ordering::SeqCst) {
                    for v in &slots {
                        if let Some((i, t)) = *v.lock().unwrap() {
                            if t.elapsed() > CASE_LIMIT {
                                println!("{}", obj(vec![("stuck", n(i)), ("part", s(p.name))]).text());
                                std::process::exit(1);
                            }
                        }
                    }
                    std::thread::sleep(Duration::from_millis(5));
                }
            });
            let workers: Vec<_> = (0..env.jobs).map(|w| {
                let (next, stop, done, found, seen, classes, samples, slots) = (&next, &stop, &done, &found, &seen, &classes, &samples, &slots);
                std::thread::Builder::new().stack_size(64 << 20).spawn_scoped(sc, move || {
                    let mut lseen = HashSet::new();
                    let mut lclasses: BTreeMap<&'static str, u64> = BTreeMap::new();
                    loop {
                        let a = next.fetch_add(chunk, Ordering::SeqCst);
                        if a >= total {
                            break;
                        }
                        for i in a..(a + chunk).min(total) {
                            if i > stop.load(Ordering::Relaxed) {
                                break;
                            }
                            *slots[w].lock().unwrap() = Some((i, Instant::now()));
                            if let Some(t) = trace {
                                std::fs::write(t.join(format!("{}", w)), format!("{} {}", p.name, i)).expect("trace");
                            }
                            let want = i % (total / 6).max(1) == total / 7;
                            let mut src = Src::random(case_seed(env, prop, p.name, i));
                            let r = guarded(|| (p.run)(&mut src, want));
                            done.fetch_add(1, Ordering::Relaxed);
                            match r {
                                Ok(info) => {
                                    if let Some(k) = info.key {
                                        lseen.insert(k);
                                    }
                                    for c in info.classes {
                                        *lclasses.entry(c).or_insert(0) += 1;
                                    }
                                    if want {
                                        samples.lock().unwrap().push((i, info.sample));
                                    }
                                }
                                Err(msg) => {
                                    stop.fetch_min(i, Ordering::SeqCst);
                                    let mut f = found.lock().unwrap();
                                    if f.as_ref().map(|f| f.index > i).unwrap_or(true) {
                                        *f = Some(Found { index: i, tape: src.tape().to_vec(), msg });
                                    }
                                }
                            }
                        }
                        *slots[w].lock().unwrap() = None;
                    }
                    if let Some(t) = trace {
                        let _ = std::fs::remove_file(t.join(format!("{}", w)));
                    }
                    seen.lock().unwrap().extend(lseen);
                    let mut g = classes.lock().unwrap();
                    for (k, v) in lclasses {
                        *g.entry(k).or_insert(0) += v;
                    }
                }).expect("thread")
            }).collect();
            for w in workers {
                let _ = w.join();
            }
            over.store(true, Ordering::SeqCst);
            let _ = watch.join();
        });
        if let Some(f) = found.into_inner().unwrap() {
            let start = Instant::now();
            // When shrinking meets a case which does not end, the failure as found is reported.
            let over = std::sync::Arc::new(std::sync::atomic::AtomicBool::new(false));
            let first = obj(vec![("fail", s(&*f.msg)), ("part", s(p.name)), ("tape", tape_json(&f.tape))]).text();
            let o = over.clone();
            std::thread::spawn(move || {
                std::thread::sleep(Duration::from_secs(60));
                if !o.load(Ordering::SeqCst) {
                    println!("{}\n{}", first, obj(vec![("end", J::Bool(true))]).text());
                    std::process::exit(1);
                }
            });
            let small = shrink(f.tape, 3000, |t| start.elapsed() < Duration::from_secs(30) && guarded(|| (p.run)(&mut Src::replay(t), false)).is_err());
            let msg = guarded(|| (p.run)(&mut Src::replay(&small), true)).err().unwrap_or(f.msg);
            over.store(true, Ordering::SeqCst);
            println!("{}", obj(vec![("fail", s(msg)), ("part", s(p.name)), ("tape", tape_json(&small))]).text());
        }
        let mut sm = samples.into_inner().unwrap();
        sm.sort();
        let cl = classes.into_inner().unwrap();
        println!("{}", obj(vec![
            ("part", s(p.name)),
            ("cases", n(done.load(Ordering::SeqCst))),
            ("distinct", n(seen.into_inner().unwrap().len())),
            ("classes", J::Obj(cl.into_iter().map(|(k, v)| (k.to_string(), n(v))).collect())),
            ("samples", J::Arr(sm.into_iter().map(|v| s(v.1)).collect())),
        ]).text());
    }
    println!("{}", obj(vec![("end", J::Bool(true))]).text());
    0
}

struct Done {
    lines: Vec<J>,
    end: bool,
    signal: Option<i32>,
}

fn spawn(env: &Env, args: &[String], limit: Duration) -> Done {
    let out = env.work.join(format!("child-{}.out", args[0]));
    let f = std::fs::File::create(&out).expect("output file");
    let mut c = Command::new(std::env::current_exe().expect("own path")).args(args).stdin(Stdio::null()).stdout(f).spawn().expect("child");
    let start = Instant::now();
    let st = loop {
        if let Some(st) = c.try_wait().expect("wait") {
            break st;
        }
        if start.elapsed() > limit {
            let _ = c.kill();
            let _ = c.wait();
            fatal("the generated cases do not finish in time");
        }
        std::thread::sleep(Duration::from_millis(4));
    };
    use std::os::unix::process::ExitStatusExt;
    let lines: Vec<J> = std::fs::read_to_string(&out).unwrap_or_default().lines().filter_map(|l| J::parse(l).ok()).collect();
    let end = lines.iter().any(|l| l.get("end").is_some());
    let signal = st.signal();
    match signal {
        Some(9) | Some(15) | Some(2) => fatal("the child process was killed"),
        None if !end && !lines.iter().any(|l| l.get("stuck").is_some()) => fatal(&format!("the child process ends early with {:?}", st.code())),
        _ => (),
    }
    Done { lines, end, signal }
}

/// Runs the parts of a property, into the report.
pub fn check(env: &Env, rep: &mut Report) {
    let limit = Duration::from_secs(env.pick(700, 6 * 3600));
    let prop = rep.prop.clone();
    let mut d = spawn(env, &["parts".into(), prop.clone(), env.work.display().to_string()], limit);
    if let Some(sig) = d.signal {
        // Which case is it? Once more, each thread leaving the number of its case behind.
        let dir = env.work.join("trace");
        std::fs::create_dir_all(&dir).expect("trace directory");
        let mut hit = None;
        for _ in 0..3 {
            let d2 = spawn(env, &["parts".into(), prop.clone(), env.work.display().to_string(), dir.display().to_string()], limit);
            if d2.signal.is_none() {
                continue;
            }
            let mut cands: Vec<(String, u64)> = std::fs::read_dir(&dir).map(|r| r.filter_map(|e| e.ok()).filter_map(|e| std::fs::read_to_string(e.path()).ok()).filter_map(|t| {
                let (p, i) = t.split_once(' ')?;
                Some((p.to_string(), i.parse().ok()?))
            }).collect()).unwrap_or_default();
            cands.sort();
            hit = cands.into_iter().find(|(p, i)| spawn(env, &["one".into(), prop.clone(), env.work.display().to_string(), p.clone(), case_seed(env, &prop, p, *i).to_string()], limit).signal.is_some());
            if hit.is_some() {
                break;
            }
        }
        match hit {
            Some((p, i)) => {
                let j = obj(vec![("kind", s("case")), ("part", s(&*p)), ("case_seed", n(case_seed(env, &prop, &p, i)))]);
                rep.violation(format!("{}: {}: the process is ended by signal {}", prop, p, sig), j);
            }
            None => fatal(&format!("the child process was ended by signal {}, and no single case does it", sig)),
        }
        d.end = true;
    }
    let mut all = BTreeMap::new();
    for l in &d.lines {
        let part = l.get("part").and_then(|v| v.str()).unwrap_or("").to_string();
        if let Some(i) = l.get("stuck").and_then(|v| v.u64()) {
            let j = obj(vec![("kind", s("case")), ("part", s(&*part)), ("case_seed", n(case_seed(env, &prop, &part, i)))]);
            rep.violation(format!("{}: {}: a case does not end in {} s", prop, part, CASE_LIMIT.as_secs()), j);
        } else if let Some(m) = l.get("fail").and_then(|v| v.str()) {
            let j = obj(vec![("kind", s("case")), ("part", s(&*part)), ("tape", l.get("tape").cloned().unwrap_or(J::Null))]);
            rep.violation(format!("{}: {}: {}", prop, part, m), j);
        } else if l.get("cases").is_some() {
            rep.cov.evaluations += l.get("cases").and_then(|v| v.u64()).unwrap_or(0);
            rep.cov.distinct += l.get("distinct").and_then(|v| v.u64()).unwrap_or(0);
            for v in l.get("samples").map(|v| v.arr()).unwrap_or(&[]).iter().take(2) {
                rep.sample(obj(vec![("part", s(&*part)), ("case", v.clone())]));
            }
            all.insert(part, obj(vec![("cases", l.get("cases").cloned().unwrap_or(J::Null)), ("distinct", l.get("distinct").cloned().unwrap_or(J::Null)), ("classes", l.get("classes").cloned().unwrap_or(J::Null))]));
        }
    }
    rep.cov.extra.push(("parts".into(), J::Obj(all.into_iter().collect())));
    if !d.end && rep.violations.is_empty() {
        fatal("the child process ends without its last line");
    }
}

/// `one PROP WORK PART SEED`: a single case of a seed.
pub fn one(parts: &[Part], part: &str, seed: u64) -> i32 {
    limit_memory(12);
    let p = parts.iter().find(|p| p.name == part).unwrap_or_else(|| fatal("no such part"));
    let over = std::sync::Arc::new(std::sync::atomic::AtomicBool::new(false));
    let o = over.clone();
    std::thread::spawn(move || {
        std::thread::sleep(CASE_LIMIT);
        if !o.load(Ordering::SeqCst) {
            println!("{}", obj(vec![("stuck", n(0))]).text());
            std::process::exit(1);
        }
    });
    let r = guarded(|| (p.run)(&mut Src::random(seed), true));
    if let Err(m) = r {
        println!("{}", obj(vec![("fail", s(m))]).text());
    }
    println!("{}", obj(vec![("end", J::Bool(true))]).text());
    0
}

/// `Ok` is the message of the case which still fails.
pub fn replay(env: &Env, prop: &str, parts: &[Part], j: &J) -> Result<String, String> {
    let part = j.get("part").and_then(|v| v.str()).ok_or("no part")?;
    if let Some(c) = j.get("case_seed").and_then(|v| v.u64()) {
        let d = spawn(env, &["one".into(), prop.into(), env.work.display().to_string(), part.into(), c.to_string()], Duration::from_secs(120));
        if let Some(sig) = d.signal {
            return Ok(format!("the process is ended by signal {}", sig));
        }
        if d.lines.iter().any(|l| l.get("stuck").is_some()) {
            return Ok("the case does not end".into());
        }
        return match d.lines.iter().find_map(|l| l.get("fail")) {
            Some(m) => Ok(m.str().unwrap_or("").into()),
            None => Err("passes".into()),
        };
    }
    let p = parts.iter().find(|p| p.name == part).ok_or("no such part")?;
    let tape: Vec<u64> = j.get("tape").map(|v| v.arr().iter().filter_map(|v| v.u64()).collect()).unwrap_or_default();
    match guarded(|| (p.run)(&mut Src::replay(&tape), true)) {
        Err(m) => Ok(m),
        Ok(i) => Err(format!("passes: {}", i.sample)),
    }
}
