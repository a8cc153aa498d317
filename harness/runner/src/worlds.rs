//! Checks which run generated code: worlds of schemas, batch programs, shrinking of what fails.

use crate::env::{parallel, Env};
use crate::pipeline::{self, fatal, Case, Reject};
use crate::report::Report;
use oracle::json::{n, obj, s, J};
use oracle::schema::World;
use oracle::tape::{hash_bytes, mix, Src};
use std::path::{Path, PathBuf};
use std::time::{Duration, Instant};

/// The hand-written worlds, by file name.
pub fn corpus(env: &Env) -> Vec<World> {
    let dir = env.verif.join("harness/corpus");
    let mut files: Vec<PathBuf> = std::fs::read_dir(&dir).map(|d| d.filter_map(|e| e.ok()).map(|e| e.path()).filter(|p| p.extension().map(|e| e == "json").unwrap_or(false)).collect()).unwrap_or_default();
    files.sort();
    files.iter().map(|f| {
        let t = std::fs::read_to_string(f).unwrap_or_else(|e| fatal(&format!("{}: {}", f.display(), e)));
        let j = J::parse(&t).unwrap_or_else(|e| fatal(&format!("{}: {}", f.display(), e)));
        World::from_json(&j).unwrap_or_else(|| fatal(&format!("{}: not a world", f.display())))
    }).collect()
}

pub fn random_worlds(env: &Env, prop: &str, count: usize, first: usize) -> Vec<Case> {
    let p = oracle::gen::profile(prop);
    parallel(env.jobs, (0..count).collect(), |_, i| {
        let mut src = Src::random(mix(env.seed) ^ hash_bytes(prop.as_bytes()) ^ mix(*i as u64 + 0x77));
        let mut w = oracle::gen::world(&mut src, &p);
        if i % 3 == 2 {
            w = mutated(env, w, &mut src, *i);
        }
        Case::new(first + i, w)
    })
}

/// The world after changes which leave it well-formed for the model and accepted by the schema compiler.
fn mutated(env: &Env, mut w: World, src: &mut Src, i: usize) -> World {
    let dir = env.work.join(format!("mut{}", i));
    let want = 1 + src.below(6);
    let mut done = 0;
    for _ in 0..24 {
        if done == want {
            break;
        }
        let mut c = w.clone();
        oracle::gen::mutate_world(&mut c, src);
        if c == w || !oracle::gen::sane(&c) {
            continue;
        }
        let files = pipeline::write_schemas(&c, &dir);
        if (0..files.len()).all(|k| pipeline::compile(&files, k).is_ok()) {
            w = c;
            done += 1;
        }
    }
    let _ = std::fs::remove_dir_all(&dir);
    w
}

/// What the property can be observed on in a world.
fn useful(prop: &str, w: &World) -> bool {
    let structs = w.protos.iter().any(|p| !p.structs.is_empty());
    let msgs = w.protos.iter().any(|p| !p.msgs.is_empty());
    let unions = w.protos.iter().any(|p| !p.unions.is_empty());
    match prop.as_bytes()[0] {
        b'S' => structs,
        b'U' => unions,
        b'C' => w.protos.len() > 1,
        _ => msgs,
    }
}

pub struct Fail {
    pub world: usize,
    pub target: String,
    pub root: (usize, String),
    pub msg: String,
    pub tape: Vec<u64>,
    /// The seed of the case when it kills the program, so that there is no tape.
    pub seed: Option<u64>,
}

#[derive(Default)]
pub struct Outcome {
    pub fails: Vec<Fail>,
    pub cases: u64,
    pub distinct: u64,
    pub targets: u64,
    pub samples: Vec<(usize, String, J)>,
}

fn parse(o: &pipeline::Output) -> (Outcome, bool) {
    let mut r = Outcome::default();
    let mut end = false;
    for l in &o.lines {
        if let Some(f) = l.get("fail") {
            r.fails.push(Fail {
                world: f.get("world").and_then(|v| v.u64()).unwrap_or(0) as usize,
                target: f.get("target").and_then(|v| v.str()).unwrap_or("").into(),
                root: (
                    f.get("root").and_then(|v| v.get("proto")).and_then(|v| v.u64()).unwrap_or(0) as usize,
                    f.get("root").and_then(|v| v.get("type")).and_then(|v| v.str()).unwrap_or("").into(),
                ),
                msg: f.get("msg").and_then(|v| v.str()).unwrap_or("").into(),
                tape: f.get("tape").map(|v| v.arr().iter().filter_map(|v| v.u64()).collect()).unwrap_or_default(),
                seed: None,
            });
        } else if let Some(f) = l.get("stat") {
            let w = f.get("world").and_then(|v| v.u64()).unwrap_or(0) as usize;
            let t = f.get("target").and_then(|v| v.str()).unwrap_or("").to_string();
            r.cases += f.get("cases").and_then(|v| v.u64()).unwrap_or(0);
            r.distinct += f.get("distinct").and_then(|v| v.u64()).unwrap_or(0);
            r.targets += 1;
            for s in f.get("samples").map(|v| v.arr()).unwrap_or(&[]) {
                r.samples.push((w, t.clone(), s.clone()));
            }
        } else if l.get("end").is_some() {
            end = true;
        }
    }
    (r, end)
}

/// Runs the property on a batch program, finding the case which kills it if it does.
pub fn execute(exe: &Path, prop: &str, seed: u64, cases: u64) -> Outcome {
    let args = vec!["run".to_string(), prop.to_string(), seed.to_string(), cases.to_string()];
    let o = pipeline::run(exe, &args);
    let (mut r, end) = parse(&o);
    match &o.crash {
        None if !end => fatal("a generated program ends without its last line"),
        None => (),
        Some(c) => {
            let trace = exe.with_extension("trace");
            let mut args = args;
            args.push(trace.display().to_string());
            let o = pipeline::run(exe, &args);
            if o.crash.is_none() {
                fatal(&format!("a generated program ended by {} once, but not again", c));
            }
            let t = std::fs::read_to_string(&trace).unwrap_or_default();
            let mut p = t.splitn(3, ' ');
            let (w, cs, name) = (p.next().unwrap_or(""), p.next().unwrap_or(""), p.next().unwrap_or(""));
            r.fails.push(Fail {
                world: w.parse().unwrap_or_else(|_| fatal("no trace of the case which ends the program")),
                target: name.to_string(),
                root: (0, name.rsplit(':').next().and_then(|v| v.split('.').next()).unwrap_or("").to_string()),
                msg: format!("the program is ended by {}", c),
                tape: vec![],
                seed: cs.parse().ok(),
            });
        }
    }
    r
}

/// Builds the program of one world in `dir`; the outer error is a refusal, the inner one of rustc.
fn build_one(env: &Env, c: &Case, dir: &Path) -> Result<Result<PathBuf, String>, Reject> {
    let _ = std::fs::remove_dir_all(dir);
    let m = pipeline::generate(c, dir)? + &pipeline::glue(c);
    let src = dir.join("main.rs");
    std::fs::write(&src, pipeline::program(&[&m], &[c.id])).expect("source file");
    let exe = dir.join("prog");
    Ok(pipeline::rustc(env, &src, &exe, false).map(|_| exe))
}

/// Shrinks the world of a failure: the parts the failing type does not need, then single declarations.
fn shrink(env: &Env, prop: &str, w: &World, f: Fail, cases: u64) -> (World, Fail) {
    let start = Instant::now();
    let mut best = (w.clone(), f);
    let mut step = 0usize;
    let mut candidates = vec![pipeline::slice(w, best.1.root.0, &best.1.root.1)];
    loop {
        if start.elapsed() > Duration::from_secs(45) || best.1.seed.is_some() {
            break;
        }
        candidates.retain(|c| *c != best.0 && oracle::gen::sound(c));
        let mut found = None;
        for chunk in candidates.chunks(env.jobs) {
            if start.elapsed() > Duration::from_secs(45) {
                break;
            }
            step += 1;
            let seed = mix(env.seed ^ step as u64);
            let r = parallel(env.jobs, chunk.to_vec(), |i, c| {
                let case = Case::new(0, c.clone());
                let dir = env.work.join(format!("shrink{}", i));
                match build_one(env, &case, &dir) {
                    Ok(Ok(exe)) => {
                        let o = pipeline::run(&exe, &["run".into(), prop.into(), seed.to_string(), cases.to_string()]);
                        let (mut r, _) = parse(&o);
                        if o.crash.is_some() || r.fails.is_empty() { None } else { Some(r.fails.remove(0)) }
                    }
                    _ => None,
                }
            });
            if let Some((i, f)) = r.into_iter().enumerate().find_map(|(i, f)| f.map(|f| (i, f))) {
                found = Some((chunk[i].clone(), f));
                break;
            }
        }
        let first = step <= 1;
        match found {
            Some(b) => best = b,
            None if !first => break,
            None => (),
        }
        candidates = pipeline::reductions(&best.0);
    }
    best
}

fn violation(rep: &mut Report, w: &World, f: Fail) {
    let mut j = vec![
        ("kind", s("world")),
        ("world", w.to_json()),
        ("target", s(&*f.target)),
        ("tape", oracle::batch::tape_json(&f.tape)),
    ];
    if let Some(c) = f.seed {
        j.push(("case_seed", n(c)));
    }
    rep.violation(format!("{} on {}: {}", rep.prop, f.target, f.msg), obj(j));
}

/// Number of random worlds and of cases per target unit.
fn budget(env: &Env, prop: &str) -> (usize, u64) {
    let (w, c) = match prop {
        "S01" | "S02" | "S08" => (160, 90),
        "S03" | "S04" | "S05" | "S06" | "S07" => (160, 120),
        "M04" | "M07" | "M08" => (120, 40),
        "U01" | "U02" => (140, 200),
        "L01" | "L02" => (100, 100),
        "C04" => (120, 50),
        _ => (140, 100),
    };
    env.pick((w, c), (w * 6, c * 8))
}

pub fn check(env: &Env, prop: &str) -> Report {
    let mut rep = Report::new(prop, oracle::engines::rule(prop));
    let (count, cases) = budget(env, prop);
    let mut worlds: Vec<Case> = corpus(env).into_iter().filter(|w| useful(prop, w)).enumerate().map(|(i, w)| Case::new(i, w)).collect();
    let hand = worlds.len();
    worlds.extend(random_worlds(env, prop, count, hand).into_iter().filter(|c| useful(prop, &c.world)));
    // For work on the machinery: this world only.
    if let Some(p) = std::env::var_os("BP_WORLD") {
        let w = World::from_json(&J::parse(&std::fs::read_to_string(p).expect("world")).expect("world")).expect("world");
        worlds = vec![Case::new(0, w)];
    }
    // Generate the code of each.
    let mods = parallel(env.jobs, worlds.iter().collect(), |_, c| pipeline::generate(c, &env.work.join(format!("w{}", c.id))).map(|m| m + &pipeline::glue(c)));
    let mut usable = Vec::new();
    let mut refused = 0u64;
    for (c, m) in worlds.iter().zip(mods) {
        match m {
            Ok(m) => usable.push((c, m)),
            Err(e) => {
                refused += 1;
                if prop == "C04" || matches!(e, Reject::Panic(_)) && prop == "C01" {
                    rep.violation(format!("{}: a well-formed set of protocols is not accepted: {}", prop, e), obj(vec![("kind", s("accept")), ("world", c.world.to_json())]));
                } else {
                    eprintln!("world {} is left out: {}", c.id, e);
                }
            }
        }
    }
    if !rep.violations.is_empty() {
        rep.cov.evaluations = worlds.len() as u64;
        rep.violations.truncate(1);
        return rep;
    }
    if usable.is_empty() {
        fatal("no world is accepted by the schema compiler");
    }
    // Compile them in batches, and run.
    let per = 7usize;
    let nb = ((usable.len() + per - 1) / per).max(env.jobs.min(usable.len()));
    let mut batches: Vec<Vec<(&Case, &str)>> = vec![Vec::new(); nb];
    for (i, (c, m)) in usable.iter().enumerate() {
        batches[i % nb].push((c, m));
    }
    let timing = std::env::var_os("BP_TIMING").is_some();
    let results = parallel(env.jobs, batches, |i, b| {
        let t0 = Instant::now();
        let mods: Vec<&str> = b.iter().map(|v| v.1).collect();
        let ids: Vec<usize> = b.iter().map(|v| v.0.id).collect();
        let src = env.work.join(format!("batch{}.rs", i));
        std::fs::write(&src, pipeline::program(&mods, &ids)).expect("source file");
        let exe = env.work.join(format!("batch{}", i));
        if let Err(e) = pipeline::rustc(env, &src, &exe, false) {
            return Err((b.iter().map(|v| (v.0, v.1)).collect::<Vec<_>>(), e));
        }
        let t1 = Instant::now();
        let o = execute(&exe, prop, env.seed, cases);
        if timing {
            eprintln!("batch {}: rustc {:.1}s run {:.1}s", i, (t1 - t0).as_secs_f64(), t1.elapsed().as_secs_f64());
        }
        let _ = std::fs::remove_file(&exe);
        Ok(o)
    });
    let mut total = Outcome::default();
    for r in results {
        match r {
            Ok(o) => {
                total.cases += o.cases;
                total.distinct += o.distinct;
                total.targets += o.targets;
                total.samples.extend(o.samples);
                total.fails.extend(o.fails);
            }
            Err((b, e)) => {
                // Which world is it?
                let mut found = false;
                for (c, m) in b {
                    let src = env.work.join(format!("single{}.rs", c.id));
                    std::fs::write(&src, pipeline::program(&[m], &[c.id])).expect("source file");
                    if let Err(e) = pipeline::rustc(env, &src, &src.with_extension("rmeta"), true) {
                        found = true;
                        rep.violation(format!("{}: the code generated for an accepted set of protocols does not compile: {}", prop, e), obj(vec![("kind", s("compile")), ("world", c.world.to_json())]));
                        break;
                    }
                }
                if !found {
                    rep.violation(format!("{}: the code generated for several protocols does not build: {}", prop, e), obj(vec![("kind", s("compile"))]));
                }
            }
        }
    }
    rep.cov.evaluations = total.cases;
    rep.cov.distinct = total.distinct;
    let step = (total.samples.len() / 10).max(1);
    for (w, t, v) in total.samples.iter().step_by(step) {
        rep.sample(obj(vec![("world", n(w)), ("target", s(&**t)), ("case", v.clone())]));
    }
    rep.cov.extra.push(("worlds".into(), n(usable.len())));
    rep.cov.extra.push(("hand_written_worlds".into(), n(hand)));
    rep.cov.extra.push(("worlds_refused_by_the_compiler".into(), n(refused)));
    rep.cov.extra.push(("targets".into(), n(total.targets)));
    rep.cov.extra.push(("schema_features".into(), features(&usable.iter().map(|v| &v.0.world).collect::<Vec<_>>())));
    rep.violations.truncate(2);
    // One violation per failing target is enough; the first is shrunk.
    total.fails.sort_by_key(|f| (f.seed.is_some(), f.tape.len()));
    if let Some(f) = total.fails.into_iter().next() {
        let w = worlds.iter().find(|c| c.id == f.world).expect("failing world").world.clone();
        let (w, f) = shrink(env, prop, &w, f, cases.min(200));
        violation(&mut rep, &w, f);
    }
    rep
}

/// How many times each construct occurs, to see what the generator produces.
pub fn features(ws: &[&World]) -> J {
    use oracle::schema::*;
    use std::collections::BTreeMap;
    let mut m: BTreeMap<&'static str, u64> = BTreeMap::new();
    let mut add = |k: &'static str| *m.entry(k).or_insert(0) += 1;
    for w in ws {
        for p in &w.protos {
            add(if p.endian == Some(Endian::Big) { "big-endian protocols" } else { "little-endian protocols" });
            p.imports.iter().for_each(|_| add("imports"));
            p.enums.iter().for_each(|_| add("enums"));
            for st in &p.structs {
                add("structures");
                let mut off = 0u64;
                for f in &st.fields {
                    match (&f.kind, f.array_len) {
                        (_, Some(_)) => add("array fields"),
                        (SKind::Struct(_), _) => add("nested fields"),
                        (SKind::Signed(_), _) => add("signed fields"),
                        (SKind::Unsigned(_), _) => add("unsigned fields"),
                        (SKind::Float(_), _) => add("float fields"),
                        (SKind::Bool(_), _) => add("boolean fields"),
                    }
                    match &f.view {
                        Some(View::Enum(_)) => add("enum views"),
                        Some(View::Range(..)) => add("float-range views"),
                        Some(View::Mult(_)) => add("float-multiplier views"),
                        None => (),
                    }
                    if let Some((_, b)) = oracle::resolve::scalar_ty(&f.kind) {
                        if off % 8 != 0 {
                            add("fields which start inside a byte");
                        }
                        off += b * f.array_len.unwrap_or(1);
                    } else {
                        off = 0;
                    }
                }
            }
            for u in &p.unions {
                add("unions");
                u.cases.iter().for_each(|_| add("union cases"));
            }
            for ms in &p.msgs {
                add("messages");
                for f in &ms.fields {
                    if f.optional == Some(true) {
                        add("optional fields");
                    }
                    match &f.kind {
                        MKind::Item(_) => add("item fields"),
                        MKind::List(..) => add("list and array fields"),
                        MKind::Str(None) => add("nul-terminated strings"),
                        MKind::Str(_) => add("length-prefixed strings"),
                        MKind::Payload => add("payloads"),
                        MKind::Union { .. } => add("union fields"),
                    }
                }
            }
        }
    }
    J::Obj(m.into_iter().map(|(k, v)| (k.to_string(), n(v))).collect())
}

/// Runs the saved case of a replay file; true if it still fails.
pub fn replay(env: &Env, prop: &str, j: &J) -> Result<String, String> {
    let w = World::from_json(j.get("world").ok_or("no world")?).ok_or("bad world")?;
    let case = Case::new(0, w);
    let exe = match build_one(env, &case, &env.work.join("replay")) {
        Err(e) => return Ok(format!("not accepted: {}", e)),
        Ok(Err(e)) => return Ok(format!("does not compile: {}", e)),
        Ok(Ok(exe)) => exe,
    };
    let kind = j.get("kind").and_then(|v| v.str()).unwrap_or("");
    if kind != "world" {
        return Err("accepted and compiled".into());
    }
    let target = j.get("target").and_then(|v| v.str()).unwrap_or("").to_string();
    let args = match j.get("case_seed").and_then(|v| v.u64()) {
        Some(c) => vec!["case".to_string(), prop.to_string(), "0".into(), target, c.to_string()],
        None => {
            let tape: Vec<String> = j.get("tape").map(|v| v.arr().iter().filter_map(|v| v.u64()).map(|v| v.to_string()).collect()).unwrap_or_default();
            vec!["replay".to_string(), prop.to_string(), "0".into(), target, tape.join(",")]
        }
    };
    let o = pipeline::run(&exe, &args);
    if let Some(c) = o.crash {
        return Ok(format!("the program is ended by {}", c));
    }
    for l in &o.lines {
        if let Some(f) = l.get("fail") {
            return Ok(f.str().unwrap_or("").to_string());
        }
        if let Some(f) = l.get("ok") {
            return Err(format!("passes: {}", f.str().unwrap_or("")));
        }
    }
    Err("the target does not exist".into())
}
