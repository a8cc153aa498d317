//! R01: programs instantiating the bit codecs for every carrier, offset and width.

use crate::env::{parallel, Env};
use crate::pipeline::{self, fatal};
use crate::report::Report;
use crate::worlds;
use oracle::json::{n, obj, s, J};

pub const RULE: &str = "a case is one buffer and one value for one instance of a bit codec (byte order, carrier, offset, width); non-trivial: the addressed bits or the value are not all zero; distinct by choice sequence and instance";

type Inst = (bool, usize, usize, usize);

fn instances() -> Vec<Inst> {
    let mut v = vec![];
    for big in [false, true] {
        for t in [8, 16, 32, 64] {
            for off in 0..8 {
                for size in 1..=t {
                    v.push((big, t, off, size));
                }
            }
        }
    }
    v
}

fn program(inst: &[Inst]) -> String {
    let mut t = String::from("use bp3d_proto::codec::{BitCodec, BitCodecBE, BitCodecLE};\nuse oracle::bits::Entry;\n");
    t.push_str("macro_rules! e { ($v:ident, $c:ty, $b:literal, $t:ty, $n:literal, $o:literal, $s:literal) => { $v.push(Entry { big: $b, carrier: $n, off: $o, size: $s, read: |b| <$c>::read::<$t, $o, $s>(b) as u64, write: |b, v| <$c>::write::<$t, $o, $s>(b, v as $t) }) } }\n");
    t.push_str("fn main() {\n    let mut v = Vec::new();\n");
    for (i, (big, c, off, size)) in inst.iter().enumerate() {
        if i % 64 == 0 {
            t.push_str("    (|v: &mut Vec<Entry>| {\n");
        }
        t.push_str(&format!("    e!(v, {}, {}, u{}, {}, {}, {});\n", if *big { "BitCodecBE" } else { "BitCodecLE" }, big, c, c, off, size));
        if i % 64 == 63 || i == inst.len() - 1 {
            t.push_str("    })(&mut v);\n");
        }
    }
    t.push_str("    oracle::bits::main(v);\n}\n");
    t
}

fn build(env: &Env, inst: &[Inst], tag: &str) -> std::path::PathBuf {
    let src = env.work.join(format!("{}.rs", tag));
    std::fs::write(&src, program(inst)).expect("source file");
    let exe = env.work.join(tag);
    if let Err(e) = pipeline::rustc(env, &src, &exe, false) {
        fatal(&format!("the codecs cannot be instantiated: {}", e));
    }
    exe
}

pub fn check(env: &Env) -> Report {
    let mut rep = Report::new("R01", RULE);
    let all = instances();
    let total = all.len();
    let mut groups: Vec<Vec<Inst>> = vec![vec![]; env.jobs];
    for (i, v) in all.into_iter().enumerate() {
        groups[i % env.jobs].push(v);
    }
    let cases = env.pick(400, 20_000);
    let outs = parallel(env.jobs, groups, |i, g| {
        let exe = build(env, g, &format!("bits{}", i));
        worlds::execute(&exe, "R01", env.seed, cases)
    });
    let mut fails = vec![];
    for o in outs {
        rep.cov.evaluations += o.cases;
        rep.cov.distinct += o.distinct;
        let step = (o.samples.len() / 2).max(1);
        for (_, _, v) in o.samples.iter().step_by(step) {
            rep.sample(v.clone());
        }
        fails.extend(o.fails);
    }
    rep.cov.extra.push(("instances".into(), n(total)));
    fails.sort_by(|a, b| (a.tape.len(), &a.target).cmp(&(b.tape.len(), &b.target)));
    if let Some(f) = fails.into_iter().next() {
        rep.violation(format!("R01: {}", f.msg), obj(vec![("kind", s("bits")), ("target", s(&*f.target)), ("tape", oracle::batch::tape_json(&f.tape))]));
    }
    rep
}

pub fn replay(env: &Env, j: &J) -> Result<String, String> {
    let target = j.get("target").and_then(|v| v.str()).ok_or("no target")?;
    let tape: Vec<String> = j.get("tape").map(|v| v.arr().iter().filter_map(|v| v.u64()).map(|v| v.to_string()).collect()).unwrap_or_default();
    let name = |v: &Inst| format!("BitCodec{}::<u{}, {}, {}>", if v.0 { "BE" } else { "LE" }, v.1, v.2, v.3);
    let inst: Vec<Inst> = instances().into_iter().filter(|v| name(v) == target).collect();
    let exe = build(env, &inst, "bits");
    let o = pipeline::run(&exe, &["replay".into(), "R01".into(), target.into(), tape.join(",")]);
    for l in &o.lines {
        if let Some(f) = l.get("fail") {
            return Ok(f.str().unwrap_or("").into());
        }
        if let Some(f) = l.get("ok") {
            return Err(format!("passes: {}", f.str().unwrap_or("")));
        }
    }
    Err("no such instance".into())
}
