//! From a world (schemas) to generated code, compiled programs and their results.

use crate::env::Env;
use bp3d_protoc::util::SimpleImportSolver;
use bp3d_protoc::{gen::GeneratorRust, Loader, Protoc};
use oracle::batch::guarded;
use oracle::json::J;
use oracle::resolve::Res;
use oracle::schema::World;
use std::collections::HashSet;
use std::path::{Path, PathBuf};
use std::process::{Command, Stdio};
use std::time::{Duration, Instant};

pub struct Case {
    pub id: usize,
    pub world: World,
    pub json: String,
}

impl Case {
    pub fn new(id: usize, world: World) -> Case {
        let json = world.to_json().text();
        Case { id, world, json }
    }
}

/// How the schema compiler answered.
#[derive(Debug, Clone, PartialEq)]
pub enum Reject {
    Load(String),
    Compile(String),
    Generate(String),
    Panic(String),
}

impl std::fmt::Display for Reject {
    fn fmt(&self, f: &mut std::fmt::Formatter<'_>) -> std::fmt::Result {
        match self {
            Reject::Load(e) => write!(f, "refused when loading: {}", e),
            Reject::Compile(e) => write!(f, "refused when compiling: {}", e),
            Reject::Generate(e) => write!(f, "refused when generating: {}", e),
            Reject::Panic(e) => write!(f, "the schema compiler panics: {}", e),
        }
    }
}

/// Loads protocol file `i` (the imports before it) and compiles it.
pub fn compile(files: &[(String, PathBuf)], i: usize) -> Result<Protoc, Reject> {
    let r = guarded(|| {
        Ok((|| {
            let mut l = Loader::new();
            for (name, path) in &files[..i] {
                l.import(path, format!("super::{}", name)).map_err(|e| Reject::Load(e.to_string()))?;
            }
            l.load(&files[i].1).map_err(|e| Reject::Load(e.to_string()))?;
            l.compile(SimpleImportSolver::new("::")).map_err(|e| Reject::Compile(e.to_string()))
        })())
    });
    r.unwrap_or_else(|p| Err(Reject::Panic(p)))
}

/// The umbrella file of each protocol (or its directory when it has none).
pub fn generate_with(files: &[(String, PathBuf)], out: &Path, conf: &dyn Fn(Protoc) -> Protoc) -> Result<Vec<PathBuf>, Reject> {
    std::fs::create_dir_all(out).expect("output directory");
    let mut res = Vec::new();
    for i in 0..files.len() {
        let p = conf(compile(files, i)?);
        let r = guarded(|| Ok(p.generate::<GeneratorRust>(out).map_err(|e| Reject::Generate(e.to_string()))));
        let mut protos = r.unwrap_or_else(|p| Err(Reject::Panic(p)))?;
        if protos.len() != 1 || protos[0].name != files[i].0 {
            return Err(Reject::Generate(format!("protocol {} is published as {:?}", files[i].0, protos.iter().map(|v| &v.name).collect::<Vec<_>>())));
        }
        res.push(protos.remove(0).path);
    }
    Ok(res)
}

pub fn full(p: Protoc) -> Protoc {
    p.set_reads_messages(true).set_writes_messages(true)
}

/// Writes the schema files of a world.
pub fn write_schemas(w: &World, dir: &Path) -> Vec<(String, PathBuf)> {
    std::fs::create_dir_all(dir).expect("schema directory");
    w.protos.iter().enumerate().map(|(i, p)| {
        let path = dir.join(format!("{}.json5", i));
        std::fs::write(&path, p.to_json().text()).expect("schema file");
        (p.name.clone(), path)
    }).collect()
}

/// Generates everything for a world under `dir`; gives the Rust module text and the umbrella of each protocol.
pub fn generate(c: &Case, dir: &Path) -> Result<String, Reject> {
    let files = write_schemas(&c.world, &dir.join("schema"));
    let um = generate_with(&files, &dir.join("out"), &full)?;
    Ok(module(c, &um))
}

pub fn module(c: &Case, umbrellas: &[PathBuf]) -> String {
    let mut t = format!("pub mod w{} {{\n", c.id);
    for (i, u) in umbrellas.iter().enumerate() {
        if u.is_dir() {
            t.push_str(&format!("pub mod {} {{}}\n", c.world.protos[i].name));
        } else {
            t.push_str(&format!("include!({:?});\n", u.display().to_string()));
        }
    }
    t.push_str("}\n");
    t
}

pub fn glue(c: &Case) -> String {
    let res = Res::new(&c.world).expect("world resolves");
    oracle::emit::glue(c.id, &c.json, &res)
}

pub fn program(mods: &[&str], ids: &[usize]) -> String {
    let mut t = String::from(oracle::emit::PRELUDE);
    for m in mods {
        t.push_str(m);
    }
    t.push_str("fn main() {\n    oracle::batch::main(vec![\n");
    for i in ids {
        t.push_str(&format!("        ({}, g{}::vt as fn() -> WorldVt),\n", i, i));
    }
    t.push_str("    ]);\n}\n");
    t
}

/// Runs rustc; an error is the text of the first diagnostics.
pub fn rustc(env: &Env, src: &Path, out: &Path, check_only: bool) -> Result<(), String> {
    let mut c = Command::new("rustc");
    c.arg("--edition=2021").arg(src).arg("-o").arg(out);
    c.args(["--crate-name", "generated", "-Awarnings", "--error-format=short", "-Cdebug-assertions=on", "-Coverflow-checks=on", "-Copt-level=0", "-Cdebuginfo=0"]);
    c.arg("-Ccodegen-units=4");
    if check_only {
        c.arg("--emit=metadata").arg("--crate-type=lib");
    } else {
        c.arg("--crate-type=bin");
    }
    c.arg("--extern").arg(format!("oracle={}", env.oracle.display()));
    c.arg("--extern").arg(format!("bp3d_proto={}", env.runtime.display()));
    c.arg("-L").arg(format!("dependency={}", env.deps.display()));
    c.stdin(Stdio::null()).stdout(Stdio::null());
    let o = c.output().unwrap_or_else(|e| fatal(&format!("cannot run rustc: {}", e)));
    if o.status.success() {
        return Ok(());
    }
    let err = String::from_utf8_lossy(&o.stderr).into_owned();
    if o.status.code().is_none() || err.contains("internal compiler error") || err.contains("No space left") {
        fatal(&format!("rustc did not finish: {}", err));
    }
    let first: Vec<&str> = err.lines().filter(|l| l.contains("error")).take(4).collect();
    Err(first.join(" | "))
}

/// An error of the check itself.
pub fn fatal(msg: &str) -> ! {
    eprintln!("check error: {}", msg);
    std::process::exit(2);
}

pub struct Output {
    pub lines: Vec<J>,
    /// A signal or abnormal code when the program did not reach its end.
    pub crash: Option<String>,
}

const PROGRAM_LIMIT: Duration = Duration::from_secs(3600);

/// Runs a batch program to its end.
pub fn run(exe: &Path, args: &[String]) -> Output {
    let out = exe.with_extension(format!("out{}", args[0]));
    let f = std::fs::File::create(&out).expect("output file");
    let e = std::fs::File::create(exe.with_extension("err")).expect("output file");
    let mut child = Command::new(exe).args(args).stdin(Stdio::null()).stdout(f).stderr(e).spawn().unwrap_or_else(|e| fatal(&format!("cannot run {}: {}", exe.display(), e)));
    let start = Instant::now();
    let mut nap = 1;
    let status = loop {
        match child.try_wait() {
            Ok(Some(s)) => break s,
            Ok(None) => (),
            Err(e) => fatal(&format!("wait: {}", e)),
        }
        if start.elapsed() > PROGRAM_LIMIT {
            let _ = child.kill();
            let _ = child.wait();
            fatal("a generated program does not finish");
        }
        std::thread::sleep(Duration::from_millis(nap));
        nap = (nap + 1).min(20);
    };
    let text = std::fs::read_to_string(&out).unwrap_or_default();
    let lines: Vec<J> = text.lines().filter_map(|l| J::parse(l).ok()).collect();
    let crash = if status.success() {
        None
    } else {
        use std::os::unix::process::ExitStatusExt;
        match status.signal() {
            Some(9) | Some(15) | Some(2) => fatal("a generated program was killed"),
            Some(s) => {
                let err = std::fs::read_to_string(exe.with_extension("err")).unwrap_or_default();
                Some(format!("signal {} {}", s, err.lines().find(|l| !l.trim().is_empty()).unwrap_or("")))
            }
            None => fatal(&format!("a generated program ends with code {:?}", status.code())),
        }
    };
    Output { lines, crash }
}

/// The part of a world that the given type needs.
pub fn slice(w: &World, proto: usize, ty: &str) -> World {
    use oracle::schema::*;
    let mut need: HashSet<String> = HashSet::new();
    let mut todo = vec![ty.to_string()];
    while let Some(t) = todo.pop() {
        if !need.insert(t.clone()) {
            continue;
        }
        for p in &w.protos {
            for x in p.structs.iter().filter(|x| x.name == t) {
                for f in &x.fields {
                    if let SKind::Struct(s) = &f.kind {
                        todo.push(s.clone());
                    }
                    if let Some(View::Enum(e)) = &f.view {
                        todo.push(e.clone());
                    }
                }
            }
            for x in p.unions.iter().filter(|x| x.name == t) {
                todo.push(x.disc.split('.').next().unwrap_or("").to_string());
                todo.extend(x.cases.iter().filter_map(|c| c.item.clone()));
            }
            for x in p.msgs.iter().filter(|x| x.name == t) {
                for f in &x.fields {
                    match &f.kind {
                        MKind::Item(t) | MKind::List(_, t) | MKind::Union { item: t, .. } => todo.push(t.clone()),
                        _ => (),
                    }
                }
            }
        }
    }
    let mut out = w.clone();
    for p in &mut out.protos {
        p.enums.retain(|v| need.contains(&v.name));
        p.structs.retain(|v| need.contains(&v.name));
        p.unions.retain(|v| need.contains(&v.name));
        p.msgs.retain(|v| need.contains(&v.name));
        p.imports.retain(|v| need.contains(&v.1));
    }
    let _ = proto;
    // Protocols which became empty and are not imported from.
    let used: HashSet<String> = out.protos.iter().flat_map(|p| p.imports.iter().map(|v| v.0.clone())).collect();
    out.protos.retain(|p| used.contains(&p.name) || !(p.enums.is_empty() && p.structs.is_empty() && p.unions.is_empty() && p.msgs.is_empty()));
    out
}

/// Smaller worlds to try, simplest changes of one declaration each.
pub fn reductions(w: &World) -> Vec<World> {
    use oracle::schema::*;
    let mut out: Vec<World> = Vec::new();
    let mut push = |f: &dyn Fn(&mut World)| {
        let mut c = w.clone();
        f(&mut c);
        if c != *w && Res::new(&c).is_ok() {
            out.push(c);
        }
    };
    for (pi, p) in w.protos.iter().enumerate() {
        if w.protos.len() > 1 {
            push(&|c| {
                c.protos.remove(pi);
            });
        }
        for (i, m) in p.msgs.iter().enumerate() {
            push(&|c| {
                c.protos[pi].msgs.remove(i);
            });
            for j in 0..m.fields.len() {
                push(&|c| {
                    c.protos[pi].msgs[i].fields.remove(j);
                });
                push(&|c| c.protos[pi].msgs[i].fields[j].optional = None);
            }
        }
        for (i, m) in p.unions.iter().enumerate() {
            push(&|c| {
                c.protos[pi].unions.remove(i);
            });
            for j in 0..m.cases.len() {
                if m.cases.len() > 1 {
                    push(&|c| {
                        c.protos[pi].unions[i].cases.remove(j);
                    });
                }
            }
        }
        for (i, m) in p.structs.iter().enumerate() {
            push(&|c| {
                c.protos[pi].structs.remove(i);
            });
            for j in 0..m.fields.len() {
                push(&|c| {
                    c.protos[pi].structs[i].fields.remove(j);
                });
                push(&|c| c.protos[pi].structs[i].fields[j].view = None);
                if m.fields[j].array_len.map(|v| v > 2).unwrap_or(false) {
                    push(&|c| c.protos[pi].structs[i].fields[j].array_len = Some(2));
                }
            }
        }
        for (i, m) in p.enums.iter().enumerate() {
            push(&|c| {
                c.protos[pi].enums.remove(i);
            });
            for j in 0..m.variants.len() {
                if m.variants.len() > 1 {
                    push(&|c| {
                        c.protos[pi].enums[i].variants.remove(j);
                    });
                }
            }
        }
        for i in 0..p.imports.len() {
            push(&|c| {
                c.protos[pi].imports.remove(i);
            });
        }
    }
    out
}
