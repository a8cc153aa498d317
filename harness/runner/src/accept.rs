//! C01: well-formed worlds are accepted, and the code generated for them compiles.

use crate::env::{parallel, Env};
use crate::pipeline::{self, Case};
use crate::report::Report;
use crate::worlds;
use bp3d_protoc::Protoc;
use oracle::json::{n, obj, s, J};
use oracle::schema::World;
use oracle::tape::{mix, Src};
use std::path::Path;
use std::time::{Duration, Instant};

pub const RULE: &str = "a case is one well-formed set of protocols, accepted, generated with reading and writing of messages both on, only reading and only writing, and compiled together with code which uses every declared structure, field, enum, union and message; non-trivial: at least two declarations; distinct by schema text";

const MODES: [(&str, bool, bool); 4] = [("", true, true), ("r", true, false), ("x", false, true), ("n", false, false)];

/// The source text of a world in all modes; the error says how it is refused.
fn source(c: &Case, dir: &Path) -> Result<String, String> {
    Ok(modules(c, dir, &MODES)? + &pipeline::glue(c))
}

fn modules(c: &Case, dir: &Path, modes: &[(&str, bool, bool)]) -> Result<String, String> {
    let files = pipeline::write_schemas(&c.world, &dir.join("schema"));
    let mut t = String::new();
    for (tag, r, w) in modes {
        let (r, w) = (*r, *w);
        let conf = |p: Protoc| p.set_reads_messages(r).set_writes_messages(w);
        let um = pipeline::generate_with(&files, &dir.join(format!("out{}", tag)), &conf).map_err(|e| e.to_string())?;
        let m = pipeline::module(c, &um);
        t.push_str(&m.replacen(&format!("pub mod w{} ", c.id), &format!("pub mod w{}{} ", c.id, tag), 1));
    }
    Ok(t)
}

fn compiles(env: &Env, mods: &[&str], ids: &[usize], tag: &str) -> Result<(), String> {
    let src = env.work.join(format!("{}.rs", tag));
    std::fs::write(&src, pipeline::program(mods, ids)).expect("source file");
    pipeline::rustc(env, &src, &src.with_extension("rmeta"), true)
}

/// How a world fails the property.
fn failure(env: &Env, w: &World, tag: &str) -> Option<String> {
    let c = Case::new(0, w.clone());
    let dir = env.work.join(tag);
    let _ = std::fs::remove_dir_all(&dir);
    match source(&c, &dir) {
        Err(e) => Some(format!("a well-formed set of protocols is not accepted: {}", e)),
        Ok(m) => compiles(env, &[&m], &[0], &format!("{}src", tag)).err().map(|e| format!("the generated code does not compile: {}", e)),
    }
}

fn shrink(env: &Env, w: &World, msg: String) -> (World, String) {
    let start = Instant::now();
    let mut best = (w.clone(), msg);
    loop {
        let cands: Vec<World> = pipeline::reductions(&best.0).into_iter().filter(|c| oracle::gen::sound(c)).collect();
        let mut found = None;
        for chunk in cands.chunks(env.jobs) {
            if start.elapsed() > Duration::from_secs(60) {
                break;
            }
            let r = parallel(env.jobs, chunk.to_vec(), |i, c| failure(env, c, &format!("shrink{}", i)));
            found = r.into_iter().zip(chunk).find_map(|(r, c)| r.filter(|m| m[..20] == best.1[..20]).map(|m| (c.clone(), m)));
            if found.is_some() {
                break;
            }
        }
        match found {
            Some(b) => best = b,
            None => return best,
        }
    }
}

pub fn check(env: &Env) -> Report {
    let mut rep = Report::new("C01", RULE);
    let count = env.pick(240, 5000);
    let mut cases: Vec<Case> = worlds::corpus(env).into_iter().enumerate().map(|(i, w)| Case::new(i, w)).collect();
    let hand = cases.len();
    cases.extend(worlds::random_worlds(env, "C01", count, hand));
    let total = cases.len();
    let distinct: std::collections::HashSet<u64> = cases.iter().filter(|c| {
        c.world.protos.iter().map(|p| p.enums.len() + p.structs.len() + p.unions.len() + p.msgs.len()).sum::<usize>() > 1
    }).map(|c| oracle::tape::hash_bytes(c.json.as_bytes())).collect();
    rep.cov.evaluations = total as u64;
    rep.cov.distinct = distinct.len() as u64;
    for c in cases.iter().filter(|c| c.json.len() < 3000).step_by((total / 10).max(1)).take(8) {
        rep.sample(c.world.to_json());
    }
    rep.cov.extra.push(("hand_written_worlds".into(), n(hand)));
    rep.cov.extra.push(("schema_features".into(), worlds::features(&cases.iter().map(|c| &c.world).collect::<Vec<_>>())));
    let per = 9;
    let mut batches: Vec<Vec<&Case>> = cases.chunks(per).map(|c| c.iter().collect()).collect();
    batches.reverse();
    let fails = parallel(env.jobs, batches, |i, b| {
        let mut mods = vec![];
        for c in b {
            let dir = env.work.join(format!("w{}", c.id));
            match source(c, &dir) {
                Err(e) => return Some((c.world.clone(), format!("a well-formed set of protocols is not accepted: {}", e))),
                Ok(m) => mods.push(m),
            }
        }
        let ids: Vec<usize> = b.iter().map(|c| c.id).collect();
        let r = compiles(env, &mods.iter().map(|m| &**m).collect::<Vec<_>>(), &ids, &format!("batch{}", i));
        let r = match r {
            Ok(_) => None,
            Err(e) => Some(b.iter().zip(&mods).find_map(|(c, m)| {
                compiles(env, &[m], &[c.id], &format!("single{}", c.id)).err().map(|e| (c.world.clone(), format!("the generated code does not compile: {}", e)))
            }).unwrap_or((b[0].world.clone(), format!("the code generated for several protocols does not compile: {}", e)))),
        };
        for c in b {
            let _ = std::fs::remove_dir_all(env.work.join(format!("w{}", c.id)));
        }
        r
    });
    let mut fails: Vec<(World, String)> = fails.into_iter().flatten().collect();
    // Many more are only compiled by the schema compiler.
    let more = env.pick(4000, 60_000);
    let p = oracle::gen::profile("C01");
    let refused = parallel(env.jobs, (0..more).collect::<Vec<usize>>(), |i, _| {
        let mut src = Src::random(mix(env.seed) ^ mix(0xACCE97 + i as u64));
        let c = Case::new(0, oracle::gen::world(&mut src, &p));
        let dir = env.work.join(format!("more{}", i));
        let r = pipeline::generate(&c, &dir).err().map(|e| (c.world.clone(), format!("a well-formed set of protocols is not accepted: {}", e)));
        let _ = std::fs::remove_dir_all(&dir);
        r
    });
    fails.extend(refused.into_iter().flatten());
    rep.cov.extra.push(("compiled_by_the_schema_compiler_only".into(), n(more)));
    fails.sort_by_key(|f| f.0.to_json().text().len());
    if let Some((w, m)) = fails.into_iter().next() {
        let (w, m) = shrink(env, &w, m);
        rep.violation(format!("C01: {}", m), obj(vec![("kind", s("accept")), ("world", w.to_json())]));
    }
    rep
}

pub fn replay(env: &Env, j: &J) -> Result<String, String> {
    let w = j.get("world").and_then(World::from_json).ok_or("no world")?;
    failure(env, &w, "replay").ok_or("accepted, and the generated code compiles".into())
}
