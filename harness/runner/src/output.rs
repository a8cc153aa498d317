//! C03 (generation is stable) and C05 (output selection), in-process.

use crate::drive::{part, Case, Info, Part};
use crate::env::Env;
use crate::refuse::scratch;
use bp3d_protoc::gen::{File, FileType, Generator, GeneratorRust};
use bp3d_protoc::util::SimpleImportSolver;
use bp3d_protoc::{Loader, Protoc};
use oracle::batch::guarded;
use oracle::gen::{self, Profile};
use oracle::json::J;
use oracle::schema::*;
use oracle::tape::{hash_bytes, Src};
use std::collections::{BTreeMap, HashSet};
use std::path::{Path, PathBuf};
use std::process::{Command, Stdio};

pub const RULE_STABLE: &str = "a case generates the code of a random protocol once, and once more in another way (again in the same directory, keys and variants permuted, the text spelled otherwise, other protocols beside it, another import list, a fresh process) which must give the same bytes; non-trivial: at least two files of code; distinct by schema text and variation";
pub const RULE_FLAGS: &str = "a case is a random protocol generated with each output flag alone and with combinations of flags, or a random set of loaded and imported protocols published together; non-trivial: code of at least two kinds; distinct by schema text and kind of case";

pub type Tree = BTreeMap<String, Vec<u8>>;

pub fn tree(dir: &Path) -> Tree {
    fn walk(dir: &Path, base: &str, out: &mut Tree) {
        for e in std::fs::read_dir(dir).map(|r| r.filter_map(|e| e.ok()).collect::<Vec<_>>()).unwrap_or_default() {
            let name = format!("{}{}", base, e.file_name().to_string_lossy());
            if e.path().is_dir() {
                walk(&e.path(), &format!("{}/", name), out);
            } else if e.path().is_file() {
                // Not devices.
                out.insert(name, std::fs::read(e.path()).unwrap_or_default());
            }
        }
    }
    let mut out = Tree::new();
    walk(dir, "", &mut out);
    out
}

pub fn fresh(dir: &Path) -> PathBuf {
    let _ = std::fs::remove_dir_all(dir);
    std::fs::create_dir_all(dir).expect("scratch directory");
    dir.to_path_buf()
}

/// What is loaded and what is imported, in order, and the flags: reads, writes, enums, structs, messages, unions.
#[derive(Clone, Debug)]
pub struct Job {
    pub imports: Vec<(PathBuf, String)>,
    pub loads: Vec<PathBuf>,
    pub flags: [Option<bool>; 6],
}

pub const FLAGS: [&str; 6] = ["reads_messages", "writes_messages", "use_enums", "use_structs", "use_messages", "use_unions"];

pub fn set(p: Protoc, i: usize, v: bool) -> Protoc {
    match i {
        0 => p.set_reads_messages(v),
        1 => p.set_writes_messages(v),
        2 => p.set_use_enums(v),
        3 => p.set_use_structs(v),
        4 => p.set_use_messages(v),
        _ => p.set_use_unions(v),
    }
}

pub fn configure(mut p: Protoc, flags: &[Option<bool>; 6]) -> Protoc {
    for (i, f) in flags.iter().enumerate() {
        if let Some(v) = f {
            p = set(p, i, *v);
        }
    }
    p
}

pub fn load(j: &Job, l: &mut Loader) -> Result<(), bp3d_protoc::Error> {
    for (p, n) in &j.imports {
        l.import(p, n.clone())?;
    }
    for p in &j.loads {
        l.load(p)?;
    }
    Ok(())
}

/// The published protocols (name and path).
fn run(j: &Job, out: &Path) -> Result<Vec<(String, PathBuf)>, String> {
    guarded(|| {
        let mut l = Loader::new();
        load(j, &mut l).map_err(|e| e.to_string())?;
        let p = l.compile(SimpleImportSolver::new("::")).map_err(|e| e.to_string())?;
        let r = configure(p, &j.flags).generate::<GeneratorRust>(out).map_err(|e| e.to_string())?;
        Ok(r.into_iter().map(|v| (v.name, v.path)).collect())
    })
}

fn job_json(j: &Job, out: &Path) -> J {
    use oracle::json::{obj, s};
    obj(vec![
        ("imports", J::Arr(j.imports.iter().map(|(p, n)| J::Arr(vec![s(p.display().to_string()), s(&**n)])).collect())),
        ("loads", J::Arr(j.loads.iter().map(|p| s(p.display().to_string())).collect())),
        ("flags", J::Arr(j.flags.iter().map(|v| v.map(J::Bool).unwrap_or(J::Null)).collect())),
        ("out", s(out.display().to_string())),
    ])
}

/// `runner job FILE`: a job in a process of its own; `runner script FILE`: through the build-script entry point.
pub fn child(kind: &str, file: &str) -> i32 {
    let j = J::parse(&std::fs::read_to_string(file).expect("job file")).expect("job");
    let st = |v: &J| v.str().unwrap_or("").to_string();
    let arr = |k: &str| j.get(k).map(|v| v.arr().to_vec()).unwrap_or_default();
    let mut flags = [None; 6];
    for (i, v) in arr("flags").iter().enumerate() {
        if let J::Bool(b) = v {
            flags[i] = Some(*b);
        }
    }
    let job = Job { imports: arr("imports").iter().map(|v| (st(&v.arr()[0]).into(), st(&v.arr()[1]))).collect(), loads: arr("loads").iter().map(|v| st(v).into()).collect(), flags };
    if kind == "script" {
        bp3d_protoc::generate_rust(|l| load(&job, l), |p| configure(p, &job.flags));
        return 0;
    }
    match run(&job, Path::new(&st(j.get("out").expect("out")))) {
        Ok(_) => 0,
        Err(e) => {
            println!("{}", e);
            1
        }
    }
}

fn spawn(kind: &str, j: &Job, out: &Path, file: &Path) -> (bool, String) {
    std::fs::write(file, job_json(j, out).text()).expect("job file");
    let o = Command::new(std::env::current_exe().expect("own path")).args([kind.as_ref(), file.as_os_str()]).env("OUT_DIR", out).stdin(Stdio::null()).stderr(Stdio::null()).output().expect("child");
    (o.status.success(), String::from_utf8_lossy(&o.stdout).into_owned())
}

pub fn write(w: &World, dir: &Path) -> Vec<PathBuf> {
    w.protos.iter().enumerate().map(|(i, p)| {
        let path = dir.join(format!("{}.json5", i));
        std::fs::write(&path, p.to_json().text()).expect("schema file");
        path
    }).collect()
}

fn imports(w: &World, files: &[PathBuf], which: &[usize]) -> Vec<(PathBuf, String)> {
    which.iter().map(|i| (files[*i].clone(), format!("super::{}", w.protos[*i].name))).collect()
}

/// The protocols a protocol needs, in order.
fn needs(w: &World, of: &[usize]) -> Vec<usize> {
    let mut seen: HashSet<usize> = HashSet::new();
    let mut todo = of.to_vec();
    while let Some(i) = todo.pop() {
        for (p, _) in &w.protos[i].imports {
            if let Some(k) = w.protos.iter().position(|q| q.name == *p) {
                if seen.insert(k) {
                    todo.push(k);
                }
            }
        }
    }
    let mut v: Vec<usize> = seen.into_iter().collect();
    v.sort();
    v
}

/// Replaces the output directory in the files which name it.
pub fn portable(t: Tree, out: &Path) -> Tree {
    let name = out.display().to_string();
    t.into_iter().map(|(k, v)| {
        let v = match String::from_utf8(v) {
            Ok(s) => s.replace(&name, "$OUT").into_bytes(),
            Err(e) => e.into_bytes(),
        };
        (k, v)
    }).collect()
}

pub fn differ(a: &Tree, b: &Tree) -> Option<String> {
    let (ka, kb): (Vec<_>, Vec<_>) = (a.keys().collect(), b.keys().collect());
    if ka != kb {
        return Some(format!("files {:?} and {:?}", ka, kb));
    }
    a.iter().find(|(k, v)| b[*k] != **v).map(|(k, v)| {
        let (x, y) = (String::from_utf8_lossy(v).into_owned(), String::from_utf8_lossy(&b[k]).into_owned());
        let l = x.lines().zip(y.lines()).find(|(a, b)| a != b);
        format!("{} differs: {:?}", k, l)
    })
}

pub fn shuffle<T>(v: &mut [T], src: &mut Src) {
    for i in (1..v.len()).rev() {
        v.swap(i, src.idx(i + 1));
    }
}

/// Permutes the keys of every object.
fn permute(j: &mut J, src: &mut Src) {
    match j {
        J::Obj(v) => {
            shuffle(v, src);
            v.iter_mut().for_each(|x| permute(&mut x.1, src));
        }
        J::Arr(v) => v.iter_mut().for_each(|x| permute(x, src)),
        _ => (),
    }
}

/// The same value, spelled with the freedoms of JSON5.
fn spell(j: &J, src: &mut Src, o: &mut String) {
    fn gap(src: &mut Src, o: &mut String) {
        match src.below(12) {
            0 => o.push(' '),
            1 => o.push_str("\n  "),
            2 => o.push_str("\r\n\t"),
            3 => o.push_str("/* a, b: [ */"),
            4 => o.push_str("// it's } \" \n"),
            5 => o.push('\u{a0}'),
            _ => (),
        }
    }
    fn text(v: &str, src: &mut Src, o: &mut String) {
        let q = if src.bool() { '\'' } else { '"' };
        o.push(q);
        for c in v.chars() {
            match src.below(24) {
                0 => o.push_str(&format!("\\u{:04x}", c as u32)),
                1 if (c as u32) < 256 => o.push_str(&format!("\\x{:02X}", c as u32)),
                2 => {
                    o.push_str("\\\n");
                    o.push(c);
                }
                _ => o.push(c),
            }
        }
        o.push(q);
    }
    gap(src, o);
    match j {
        J::Str(v) => text(v, src, o),
        J::Num(v) => match v.parse::<u64>() {
            Ok(x) if x <= u32::MAX as u64 => match src.below(4) {
                0 => o.push_str(&format!("0x{:X}", x)),
                1 => o.push_str(&format!("+{}", x)),
                _ => o.push_str(v),
            },
            Ok(_) => o.push_str(v),
            Err(_) => match src.below(4) {
                0 if v.ends_with(".0") => o.push_str(&v[..v.len() - 1]),
                1 if v.ends_with(".0") => o.push_str(&v[..v.len() - 2]),
                0 | 1 if v.starts_with("0.") => o.push_str(&v[1..]),
                2 if !v.starts_with('-') => o.push_str(&format!("+{}", v)),
                _ => o.push_str(v),
            },
        },
        J::Arr(v) => {
            o.push('[');
            for (i, x) in v.iter().enumerate() {
                if i > 0 {
                    o.push(',');
                }
                spell(x, src, o);
            }
            gap(src, o);
            if !v.is_empty() && src.bool() {
                o.push(',');
            }
            o.push(']');
        }
        J::Obj(v) => {
            o.push('{');
            for (i, (k, x)) in v.iter().enumerate() {
                if i > 0 {
                    o.push(',');
                }
                gap(src, o);
                if src.bool() {
                    o.push_str(k);
                } else {
                    text(k, src, o);
                }
                gap(src, o);
                o.push(':');
                spell(x, src, o);
            }
            gap(src, o);
            if !v.is_empty() && src.bool() {
                o.push(',');
            }
            o.push('}');
        }
        J::Null => o.push_str("null"),
        J::Bool(b) => o.push_str(if *b { "true" } else { "false" }),
    }
    gap(src, o);
}

pub fn profile() -> Profile {
    let mut p = Profile::everything();
    p.enums = (0, 3);
    p.msgs = (0, 4);
    p
}

pub fn all_names(w: &World) -> String {
    w.to_json().text()
}

pub fn trivial(why: &'static str) -> Case {
    Ok(Info { key: None, classes: vec![why], sample: String::new() })
}

fn stable(root: &Path, src: &mut Src, want: bool) -> Case {
    let w = gen::world(src, &profile());
    let me = src.idx(w.protos.len());
    let dir = fresh(&scratch(root));
    let files = write(&w, &dir);
    let before: Vec<usize> = (0..me).collect();
    let mut flags = [Some(true); 6];
    if src.one_in(4) {
        flags = std::array::from_fn(|_| Some(src.bool()));
    }
    let job = Job { imports: imports(&w, &files, &before), loads: vec![files[me].clone()], flags };
    let out = fresh(&dir.join("out"));
    let name = &w.protos[me].name;
    if run(&job, &out).is_err() {
        return trivial("refused");
    }
    let first = tree(&out.join(name));
    let mut other = dir.join("other");
    let mut j2 = job.clone();
    let class;
    let r;
    match src.weighted(&[3, 4, 3, 5, 2, 1]) {
        0 => {
            class = "again in the same directory";
            other = out.clone();
            if src.bool() {
                // Over what another protocol or an earlier version left there.
                for (f, now) in &first {
                    let old = match src.below(6) {
                        0 => vec![],
                        1 => vec![b'x'; 100_000],
                        2 => b"pub struct Old;\n".to_vec(),
                        // Of the same length.
                        3 => vec![b' '; now.len()],
                        _ => now.iter().map(|v| if v.is_ascii_digit() { b'0' + (v - b'0' + 1) % 10 } else { *v }).collect(),
                    };
                    let path = out.join(name).join(f);
                    std::fs::write(&path, old).expect("old file");
                    let when = std::time::SystemTime::now();
                    let hour = std::time::Duration::from_secs(3600);
                    let when = match src.below(4) {
                        0 => when + hour,
                        1 => when - hour,
                        _ => when,
                    };
                    std::fs::File::options().write(true).open(&path).and_then(|v| v.set_modified(when)).expect("old file");
                }
            }
            if src.one_in(3) {
                // An earlier version of the schema.
                let mut old = w.clone();
                gen::mutate_world(&mut old, src);
                if old.protos.len() > me && &old.protos[me].name == name {
                    let sub = fresh(&dir.join("earlier"));
                    let files = write(&old, &sub);
                    let j3 = Job { imports: imports(&old, &files, &before), loads: vec![files[me].clone()], flags };
                    let _ = run(&j3, &out);
                    // Files of no use any more may stay.
                    for f in tree(&out.join(name)).keys().filter(|v| !first.contains_key(*v)) {
                        std::fs::remove_file(out.join(name).join(f)).expect("stale file");
                    }
                }
            }
            r = run(&j2, &other).map(|_| ());
        }
        1 => {
            class = "keys and variants permuted";
            let mut t = w.protos[me].to_json();
            permute(&mut t, src);
            std::fs::write(&files[me], t.text()).expect("schema file");
            for i in before {
                let mut t = w.protos[i].to_json();
                permute(&mut t, src);
                std::fs::write(&files[i], t.text()).expect("schema file");
            }
            fresh(&other);
            r = run(&j2, &other).map(|_| ());
        }
        2 => {
            class = "text spelled otherwise";
            let mut t = String::new();
            if src.one_in(4) {
                t.push('\u{feff}');
            }
            spell(&w.protos[me].to_json(), src, &mut t);
            let path = dir.join(*src.pick(&["x", "other name.txt", "é.json"]));
            std::fs::write(&path, &t).expect("schema file");
            j2.loads = vec![path];
            fresh(&other);
            r = run(&j2, &other).map(|_| ()).map_err(|e| format!("{} for {:?}", e, t));
        }
        3 => {
            class = "other protocols beside it";
            // A stranger, of which the names may well be the same.
            let mut o = gen::world(src, &profile());
            o.protos.truncate(1);
            o.protos[0].name = "zstranger".into();
            let so = fresh(&dir.join("stranger"));
            let stranger = write(&o, &so)[0].clone();
            let mut loads: Vec<(usize, PathBuf)> = vec![(me, files[me].clone())];
            let mut with = before.clone();
            for i in 0..w.protos.len() {
                if i != me && src.bool() {
                    loads.push((i, files[i].clone()));
                }
            }
            if src.bool() {
                loads.push((usize::MAX, stranger.clone()));
            }
            let own: Vec<usize> = loads.iter().map(|v| v.0).filter(|v| *v != usize::MAX).collect();
            with.extend(needs(&w, &own));
            if src.one_in(3) {
                with.extend(0..w.protos.len());
            }
            with.sort();
            with.dedup();
            j2.imports = imports(&w, &files, &with);
            if src.bool() {
                let at = src.idx(j2.imports.len() + 1);
                j2.imports.insert(at, (stranger, "super::zstranger".into()));
            }
            shuffle(&mut loads, src);
            j2.loads = loads.into_iter().map(|v| v.1).collect();
            fresh(&other);
            r = run(&j2, &other).map(|_| ());
        }
        4 => {
            class = "only the imports it needs";
            j2.imports = imports(&w, &files, &needs(&w, &[me]));
            fresh(&other);
            r = run(&j2, &other).map(|_| ());
        }
        _ => {
            class = "in a fresh process";
            fresh(&other);
            let (ok, t) = spawn("job", &j2, &other, &dir.join("job"));
            r = if ok { Ok(()) } else { Err(t) };
        }
    }
    let show = || format!("{}: {} of {}", class, name, all_names(&w));
    if let Err(e) = r {
        return Err(format!("refused ({}) {}", e, show()));
    }
    if let Some(d) = differ(&portable(first.clone(), &out), &portable(tree(&other.join(name)), &other)) {
        return Err(format!("{} ({})", d, show()));
    }
    let key = if first.len() > 2 { Some(hash_bytes(show().as_bytes())) } else { None };
    Ok(Info { key, classes: vec![class], sample: if want { show() } else { String::new() } })
}

/// The paths a Rust file includes: the text of its string literals.
fn included(text: &str) -> Vec<String> {
    let mut out = vec![];
    let mut rest = text;
    while let Some(i) = rest.find("include") {
        rest = &rest[i + 7..];
        let Some(a) = rest.find('"') else { break };
        let mut it = rest[a + 1..].chars();
        let mut s = String::new();
        while let Some(c) = it.next() {
            match c {
                '"' => break,
                '\\' => match it.next() {
                    Some('n') => s.push('\n'),
                    Some('t') => s.push('\t'),
                    Some('r') => s.push('\r'),
                    Some('0') => s.push('\0'),
                    Some('u') => {
                        let n: String = it.by_ref().skip_while(|c| *c == '{').take_while(|c| *c != '}').collect();
                        s.push(u32::from_str_radix(&n, 16).ok().and_then(char::from_u32).unwrap_or('?'));
                    }
                    Some(c) => s.push(c),
                    None => (),
                },
                c => s.push(c),
            }
        }
        rest = it.as_str();
        out.push(s);
    }
    out
}

/// Checks the entry file of a published protocol; the files of code beside it.
fn entry(name: &str, path: &Path, out: &Path, expected: Option<&HashSet<String>>) -> Result<Tree, String> {
    let dir = out.join(name);
    if !path.exists() {
        return Err(format!("{} is published with the path {:?}, which does not exist", name, path));
    }
    if std::path::absolute(path).ok().filter(|p| p.starts_with(&std::path::absolute(&dir).unwrap())).is_none() {
        return Err(format!("{} is published with the path {:?}, outside of {:?}", name, path, dir));
    }
    let mut t = tree(&dir);
    let inc: Vec<String> = if path.is_dir() {
        vec![]
    } else {
        let text = std::fs::read_to_string(path).map_err(|e| format!("entry file: {}", e))?;
        if !word(&text, "mod", name) {
            return Err(format!("the entry file of {} does not declare its module: {:?}", name, text));
        }
        t.remove(&path.strip_prefix(&dir).map(|p| p.display().to_string()).unwrap_or_default());
        included(&text)
    };
    // As rustc resolves them: relative to the file which includes.
    let base = if path.is_dir() { path } else { path.parent().unwrap() };
    let canon = |p: &Path| std::fs::canonicalize(p).map_err(|e| format!("the entry file of {} includes {:?}: {}", name, p, e));
    let root = canon(&dir)?;
    let mut got = HashSet::new();
    for i in &inc {
        let c = canon(&base.join(i))?;
        let rel = c.strip_prefix(&root).map_err(|_| format!("the entry file of {} includes {:?}", name, c))?.display().to_string();
        if !got.insert(rel.clone()) {
            return Err(format!("the entry file of {} includes {} twice", name, rel));
        }
    }
    let all: HashSet<String> = match expected {
        Some(e) => e.clone(),
        None => t.keys().cloned().collect(),
    };
    if got != all {
        return Err(format!("the entry file of {} includes {:?}, the files written are {:?}", name, got, all));
    }
    Ok(t)
}

fn word(text: &str, kw: &str, name: &str) -> bool {
    let id = |c: char| c.is_alphanumeric() || c == '_';
    text.match_indices(&format!("{} {}", kw, name)).any(|(i, m)| !text[i + m.len()..].starts_with(id) && !text[..i].ends_with(id))
}

/// Whether a trait, whatever its parameters, is implemented for a type.
fn implements(flat: &str, tr: &str, name: &str) -> bool {
    let id = |c: char| c.is_alphanumeric() || c == '_';
    flat.match_indices(&format!(" for {}", name)).any(|(i, m)| {
        let before = match flat[..i].strip_suffix('>') {
            Some(v) => v.rfind('<').map(|k| &v[..k]).unwrap_or(v),
            None => &flat[..i],
        };
        !flat[i + m.len()..].starts_with(id) && before.strip_suffix(tr).is_some_and(|v| !v.ends_with(id))
    })
}

/// The declarations and implementations of a protocol which show up in some files.
fn kinds(p: &Proto, t: &Tree) -> [bool; 6] {
    let text: String = t.values().map(|v| String::from_utf8_lossy(v).into_owned()).collect::<Vec<_>>().join("\n");
    let flat: String = text.split_whitespace().collect::<Vec<_>>().join(" ");
    let imp = |tr: &str, m: &str| implements(&flat, tr, m);
    let any = |v: Vec<bool>| v.into_iter().any(|v| v);
    [
        any(p.msgs.iter().map(|m| imp("FromSlice", &m.name) || imp("FromSliceWithOffsets", &m.name) || word(&text, "struct", &format!("{}Offsets", m.name))).collect()),
        any(p.msgs.iter().map(|m| text.contains("WriteTo") && imp("WriteTo", &m.name)).collect()),
        any(p.enums.iter().map(|e| word(&text, "enum", &e.name)).collect()),
        any(p.structs.iter().map(|e| word(&text, "struct", &e.name)).collect()),
        any(p.msgs.iter().map(|e| word(&text, "struct", &e.name)).collect()),
        any(p.unions.iter().map(|e| word(&text, "enum", &e.name)).collect()),
    ]
}

fn flags(root: &Path, thorough: bool, src: &mut Src, want: bool) -> Case {
    let w = gen::world(src, &profile());
    let me = src.idx(w.protos.len());
    let p = &w.protos[me];
    let dir = fresh(&scratch(root));
    let files = write(&w, &dir);
    let before: Vec<usize> = (0..me).collect();
    let mut job = Job { imports: imports(&w, &files, &before), loads: vec![files[me].clone()], flags: [None; 6] };
    let show = |c: u32, e: String| format!("{} (flags {:?} of {} in {})", e, (0..6).filter(|i| c >> i & 1 == 1).map(|i| FLAGS[i]).collect::<Vec<_>>(), p.name, all_names(&w));
    // The files for a set of flags, set in any order.
    let relative = src.one_in(3);
    let cwd = std::env::current_dir().expect("directory");
    let place = if src.one_in(4) { *src.pick(&["with space", "quo\"te", "back\\slash", "d\u{e9}j\u{e0}", "brace{}", "new\nline", "a\u{301}", "tab\t", "a'b", "%20", "\u{200b}x", "# [x]"]) } else { "out" };
    let mut gen = |c: u32, job: &mut Job, src: &mut Src| -> Result<Tree, String> {
        let out = fresh(&dir.join(place));
        let given = if relative { relative_to(&out, &cwd) } else { out.clone() };
        for i in 0..6 {
            job.flags[i] = Some(c >> i & 1 == 1);
        }
        // Flags at their default may as well not be set.
        for i in 0..6 {
            if job.flags[i] == Some(i >= 2) && src.one_in(4) {
                job.flags[i] = None;
            }
        }
        let r = run(job, &given).map_err(|e| show(c, e))?;
        if r.len() != 1 || r[0].0 != p.name {
            return Err(show(c, format!("published as {:?}", r)));
        }
        let abs = std::path::absolute(&r[0].1).expect("path");
        entry(&p.name, &clean(&abs), &out, None).map_err(|e| show(c, e))
    };
    let full = match gen(63, &mut job, src) {
        Ok(v) => v,
        Err(e) if e.contains("published") || e.contains("entry file") => return Err(e),
        Err(_) => return trivial("refused"),
    };
    let mut single: Vec<Tree> = vec![];
    for i in 0..6 {
        let t = gen(1 << i, &mut job, src)?;
        let k = kinds(p, &t);
        let declared = [!p.msgs.is_empty(), !p.msgs.is_empty(), !p.enums.is_empty(), !p.structs.is_empty(), !p.msgs.is_empty(), !p.unions.is_empty()];
        for (j, k) in k.iter().enumerate() {
            if *k && i != j {
                return Err(show(1 << i, format!("code of {} is written", FLAGS[j])));
            }
        }
        if k[i] != declared[i] {
            return Err(show(1 << i, format!("code is written: {}, declared: {}", k[i], declared[i])));
        }
        single.push(t);
    }
    let combos: Vec<u32> = if thorough { (0..64).collect() } else { let mut v = vec![0]; v.extend((0..10).map(|_| src.below(64) as u32)); v };
    for c in combos {
        let t = if c == 63 { full.clone() } else { gen(c, &mut job, src)? };
        let mut e = Tree::new();
        for i in 0..6 {
            if c >> i & 1 == 1 {
                for (k, v) in &single[i] {
                    if e.insert(k.clone(), v.clone()).is_some() {
                        return Err(show(c, format!("{} belongs to two flags", k)));
                    }
                }
            }
        }
        if let Some(d) = differ(&e, &t) {
            return Err(show(c, format!("not what the flags give alone: {}", d)));
        }
    }
    // With other flags over what is there: the entry file includes what is asked for now.
    let out = fresh(&dir.join("out"));
    job.flags = [Some(true); 6];
    run(&job, &out)?;
    let c = src.below(64) as u32;
    job.flags = std::array::from_fn(|i| Some(c >> i & 1 == 1));
    let r = run(&job, &out).map_err(|e| show(c, e))?;
    let now: HashSet<String> = (0..6).filter(|i| c >> i & 1 == 1).flat_map(|i| single[i].keys().cloned()).collect();
    entry(&r[0].0, &r[0].1, &out, Some(&now)).map_err(|e| show(c, format!("over all flags: {}", e)))?;
    let n = single.iter().filter(|t| !t.is_empty()).count();
    let key = if n > 1 { Some(hash_bytes(all_names(&w).as_bytes())) } else { None };
    Ok(Info { key, classes: vec![if relative { "relative output directory" } else { "absolute output directory" }], sample: if want { all_names(&w) } else { String::new() } })
}

fn relative_to(p: &Path, cwd: &Path) -> PathBuf {
    let (a, b): (Vec<_>, Vec<_>) = (p.components().collect(), cwd.components().collect());
    let n = a.iter().zip(&b).take_while(|(x, y)| x == y).count();
    let mut r = PathBuf::new();
    for _ in n..b.len() {
        r.push("..");
    }
    for c in &a[n..] {
        r.push(c);
    }
    r
}

/// Without the `..` of a relative path made absolute.
fn clean(p: &Path) -> PathBuf {
    let mut r = PathBuf::new();
    for c in p.components() {
        match c {
            std::path::Component::ParentDir => {
                r.pop();
            }
            c => r.push(c),
        }
    }
    r
}

fn published(root: &Path, src: &mut Src, want: bool) -> Case {
    let mut prof = profile();
    prof.protos = (1, 4);
    let mut w = gen::world(src, &prof);
    for (i, p) in w.protos.clone().iter().enumerate() {
        // Names in any case.
        if src.one_in(3) {
            let new = format!("{}{}", src.pick(&["Net", "MIXED_case", "a_b_", "x"]), i);
            for q in &mut w.protos {
                q.imports.iter_mut().filter(|v| v.0 == p.name).for_each(|v| v.0 = new.clone());
            }
            w.protos[i].name = new;
        }
    }
    let dir = fresh(&scratch(root));
    let files = write(&w, &dir);
    let mut loads: Vec<usize> = (0..w.protos.len()).filter(|_| src.bool()).collect();
    let mut imps = needs(&w, &loads);
    if src.one_in(3) {
        imps = (0..w.protos.len()).collect();
    }
    shuffle(&mut loads, src);
    let job = Job { imports: imports(&w, &files, &imps), loads: loads.iter().map(|i| files[*i].clone()).collect(), flags: std::array::from_fn(|_| if src.bool() { Some(src.bool()) } else { None }) };
    let out = fresh(&dir.join("out"));
    let mut got = match run(&job, &out) {
        Ok(v) => v,
        Err(_) => return trivial("refused"),
    };
    let show = |e: String| format!("{} (loaded {:?}, imported {:?} of {})", e, loads, imps, all_names(&w));
    let mut names: Vec<&String> = loads.iter().map(|i| &w.protos[*i].name).collect();
    names.sort();
    got.sort();
    if got.iter().map(|v| &v.0).collect::<Vec<_>>() != names {
        return Err(show(format!("published: {:?}", got)));
    }
    for (n, p) in &got {
        entry(n, p, &out, None).map_err(&show)?;
    }
    let mut dirs: Vec<String> = std::fs::read_dir(&out).unwrap().map(|e| e.unwrap().file_name().to_string_lossy().into_owned()).collect();
    dirs.sort();
    if dirs.iter().collect::<Vec<_>>() != names {
        return Err(show(format!("the output directory holds {:?}", dirs)));
    }
    let mut class = "published together";
    if src.one_in(6) {
        class = "build script";
        let out2 = fresh(&dir.join("script"));
        let mut j2 = job.clone();
        let broken = src.one_in(4);
        if broken {
            class = "build script which fails";
            let at = src.idx(j2.loads.len() + 1);
            let bad = dir.join("bad");
            match src.below(3) {
                0 => (),
                1 => std::fs::write(&bad, "{").expect("file"),
                _ => std::fs::write(&bad, "{name: 'bad', enums: [{name: 'E', variants: {}}]}").expect("file"),
            }
            j2.loads.insert(at, bad);
        }
        let (ok, text) = spawn("script", &j2, &out2, &dir.join("job"));
        let mut env: Vec<(String, String)> = text.lines().filter_map(|l| l.strip_prefix("cargo::rustc-env=").or(l.strip_prefix("cargo:rustc-env="))).filter_map(|l| l.split_once('=')).map(|(a, b)| (a.to_string(), b.to_string())).collect();
        if broken {
            if ok || !env.is_empty() {
                return Err(show(format!("the build script does not fail on a bad protocol: {}", text)));
            }
        } else {
            let mut e: Vec<(String, String)> = got.iter().map(|(n, p)| (format!("BP3D_PROTOC_{}", n.to_ascii_uppercase()), p.display().to_string().replace(&out.display().to_string(), &out2.display().to_string()))).collect();
            e.sort();
            env.sort();
            if !ok || env != e {
                return Err(show(format!("the build script publishes {:?}, expected {:?}", env, e)));
            }
            if let Some(d) = differ(&portable(tree(&out), &out), &portable(tree(&out2), &out2)) {
                return Err(show(format!("the build script writes other code: {}", d)));
            }
        }
    }
    let key = if got.len() > 1 || class != "published together" { Some(hash_bytes(show(String::new()).as_bytes())) } else { None };
    Ok(Info { key, classes: vec![class], sample: if want { show(class.into()) } else { String::new() } })
}

thread_local! {
    /// What the generator below writes for each protocol, and what it was asked for.
    static OWN: std::cell::RefCell<Own> = Default::default();
}

#[derive(Default)]
struct Own {
    files: BTreeMap<String, Vec<(FileType, String, String)>>,
    entries: BTreeMap<String, String>,
    asked: Vec<(String, Vec<PathBuf>)>,
}

/// A generator which is not part of the code under test.
struct OwnGenerator;

impl Generator for OwnGenerator {
    type Error = std::fmt::Error;

    fn generate(proto: bp3d_protoc::compiler::Protocol) -> Result<Vec<File>, Self::Error> {
        OWN.with(|o| Ok(o.borrow().files.get(&proto.name).ok_or(std::fmt::Error)?.iter().map(|(t, n, d)| File::new(*t, n.clone(), d.clone())).collect()))
    }

    fn generate_umbrella<'a>(name: &str, files: impl Iterator<Item = &'a Path>) -> Result<String, Self::Error> {
        OWN.with(|o| {
            let mut o = o.borrow_mut();
            o.asked.push((name.to_string(), files.map(|f| f.to_path_buf()).collect()));
            o.entries.get(name).cloned().ok_or(std::fmt::Error)
        })
    }
}

const TYPES: [FileType; 6] = [FileType::MessageReading, FileType::MessageWriting, FileType::Enum, FileType::Structure, FileType::Message, FileType::Union];

/// Files of a generator outside of the library, published under the output flags, twice in the same directory.
fn own(root: &Path, src: &mut Src, want: bool) -> Case {
    let dir = fresh(&scratch(root));
    let count = src.range(1, 3) as usize;
    let names: Vec<String> = (0..count).map(|i| format!("p{}", i)).collect();
    let mut loads = vec![];
    for n in &names {
        let f = dir.join(format!("{}.json5", n));
        std::fs::write(&f, format!("{{name: '{}'}}", n)).expect("schema file");
        loads.push(f);
    }
    let out = fresh(&dir.join("out"));
    let mut text = String::new();
    let mut subs = false;
    for round in 0..2 {
        let mut o = Own::default();
        for n in &names {
            let mut used = HashSet::new();
            let mut v = vec![];
            for _ in 0..src.below(7) {
                let name = format!("{}{}", src.pick(&["", "", "sub/", "sub/", "other/", "sub/deep/"]), src.pick(&["a.rs", "b.rs", "c", "d.e.f", "g h"]));
                if used.insert(name.clone()) {
                    subs |= name.contains('/');
                    let len = *src.pick(&[20usize, 2, 3, 1, 0, 5000, 100_000]);
                    let c = *src.pick(&["x", "y\n", "\u{e9}"]);
                    let d: String = c.chars().cycle().take(len).collect();
                    v.push((*src.pick(&TYPES), name, d));
                }
            }
            o.files.insert(n.clone(), v);
            // A text of one character at most is no entry file.
            o.entries.insert(n.clone(), (*src.pick(&["", "\n", "ab", "mod x {}"])).to_string());
        }
        let flags: [Option<bool>; 6] = std::array::from_fn(|_| if src.bool() { Some(src.bool()) } else { None });
        let on = |t: FileType| {
            let i = TYPES.iter().position(|x| *x == t).unwrap();
            flags[i].unwrap_or(i >= 2)
        };
        text = format!("{:?} with {:?} and {:?}", o.files.iter().map(|(k, v)| (k, v.iter().map(|f| (f.0, &f.1, f.2.len())).collect::<Vec<_>>())).collect::<Vec<_>>(), flags, o.entries);
        let (files, entries) = (o.files.clone(), o.entries.clone());
        OWN.with(|x| *x.borrow_mut() = o);
        let before = tree(&out);
        let got = guarded(|| {
            let mut l = Loader::new();
            for f in &loads {
                l.load(f).map_err(|e| e.to_string())?;
            }
            let p = l.compile(SimpleImportSolver::new("::")).map_err(|e| e.to_string())?;
            configure(p, &flags).generate::<OwnGenerator>(&out).map_err(|e| e.to_string())
        }).map_err(|e| format!("{} (round {}: {})", e, round, text))?;
        let asked = OWN.with(|x| std::mem::take(&mut x.borrow_mut().asked));
        let mut expected = before;
        let mut exp_asked = vec![];
        let mut exp_got = vec![];
        for n in &names {
            let mut paths = vec![];
            for (t, f, d) in &files[n] {
                if on(*t) && d.len() > 1 {
                    expected.insert(format!("{}/{}", n, f), d.clone().into_bytes());
                    paths.push(out.join(n).join(f));
                }
            }
            exp_asked.push((n.clone(), paths));
            let e = &entries[n];
            if e.len() > 1 {
                expected.insert(format!("{}/umbrella.rs", n), e.clone().into_bytes());
            }
            exp_got.push((n.clone(), e.len() > 1));
        }
        if asked != exp_asked {
            return Err(format!("the entry files are made for {:?}, expected {:?} (round {}: {})", asked, exp_asked, round, text));
        }
        if let Some(d) = differ(&expected, &tree(&out)) {
            return Err(format!("files: {} (round {}: {})", d, round, text));
        }
        let shape: Vec<(String, bool)> = got.iter().map(|p| (p.name.clone(), p.path.is_file())).collect();
        if shape != exp_got || got.iter().any(|p| !p.path.starts_with(out.join(&p.name))) {
            return Err(format!("published {:?}, expected {:?} (round {}: {})", got.iter().map(|p| (&p.name, &p.path)).collect::<Vec<_>>(), exp_got, round, text));
        }
    }
    Ok(Info { key: Some(hash_bytes(text.as_bytes())), classes: vec![if subs { "with sub-folders" } else { "flat" }], sample: if want { text } else { String::new() } })
}

/// What is in the way when code is written.
#[derive(Clone, Copy, Debug, PartialEq)]
enum Obstacle {
    /// A directory in place of a file.
    Dir,
    /// A directory which is not empty.
    FullDir,
    /// A file on a device without space.
    NoSpace,
    /// A link to nowhere.
    Nowhere,
    /// A loop of links.
    Loop,
    /// No output directory.
    NoOut,
    /// A file in place of the output directory.
    OutFile,
    /// A file in place of the directory of the protocol.
    ProtoFile,
    /// A link to nowhere in place of the directory of the protocol.
    ProtoNowhere,
    /// Files may not exceed a size.
    Limit,
    /// Not in the way: a link to another file, a file without permissions to read it or with other content.
    Harmless,
}

/// Generation into directories where something is in the way.
fn obstacles(root: &Path, src: &mut Src, want: bool) -> Case {
    use Obstacle::*;
    let mut prof = profile();
    prof.protos = (1, 3);
    let w = gen::world(src, &prof);
    let dir = fresh(&scratch(root));
    let files = write(&w, &dir);
    let all: Vec<usize> = (0..w.protos.len()).collect();
    let mut loads = all.clone();
    shuffle(&mut loads, src);
    let n = src.range(1, loads.len() as u64) as usize;
    loads.truncate(n);
    let flags = std::array::from_fn(|i| match src.below(4) {
        0 => Some(false),
        1 => None,
        _ => Some(i < 4 || src.bool()),
    });
    let job = Job { imports: imports(&w, &files, &all), loads: loads.iter().map(|i| files[*i].clone()).collect(), flags };
    let out = fresh(&dir.join("out"));
    let good = match run(&job, &out) {
        Ok(v) => v,
        Err(_) => return trivial("refused"),
    };
    let clean = tree(&out);
    let names: Vec<String> = loads.iter().map(|i| w.protos[*i].name.clone()).collect();
    // The file in question: one which is written, or one which is not asked for.
    let kinds = ["messages.rs", "messages_from_slice.rs", "messages_offsets.rs", "messages_write.rs", "structures.rs", "enums.rs", "unions.rs", "unions_from_slice.rs", "unions_write.rs", "umbrella.rs"];
    let name = src.pick(&names).clone();
    let written: Vec<String> = clean.keys().filter(|k| k.starts_with(&format!("{}/", name))).cloned().collect();
    let file = if written.is_empty() || src.one_in(5) { format!("{}/{}", name, src.pick(&kinds)) } else { src.pick(&written).clone() };
    let what = *src.pick(&[Dir, FullDir, NoSpace, Nowhere, Loop, NoOut, OutFile, ProtoFile, ProtoNowhere, Limit, Limit, Harmless]);
    fresh(&out);
    let _ = std::fs::remove_dir_all(&out);
    let proto = out.join(&name);
    let target = out.join(&file);
    let elsewhere = dir.join("elsewhere");
    let mut fails = clean.contains_key(&file);
    let mut limit = 0u64;
    if !matches!(what, NoOut | OutFile) {
        std::fs::create_dir_all(&out).expect("directory");
    }
    if matches!(what, Dir | FullDir | NoSpace | Nowhere | Loop | Harmless) {
        std::fs::create_dir_all(&proto).expect("directory");
    }
    let link = |a: &Path, b: &Path| std::os::unix::fs::symlink(a, b).expect("link");
    match what {
        Dir => std::fs::create_dir(&target).expect("directory"),
        FullDir => std::fs::create_dir_all(target.join("inside")).expect("directory"),
        NoSpace => link(Path::new("/dev/full"), &target),
        Nowhere => link(&dir.join("none/none"), &target),
        Loop => link(&target, &target),
        NoOut => fails = true,
        OutFile => {
            std::fs::write(&out, "").expect("file");
            fails = true;
        }
        ProtoFile => {
            std::fs::write(&proto, "").expect("file");
            fails = !written.is_empty();
        }
        ProtoNowhere => {
            link(&dir.join("none/none"), &proto);
            fails = true;
        }
        Limit => {
            let sizes: Vec<u64> = clean.values().map(|v| v.len() as u64).collect();
            let max = sizes.iter().max().copied().unwrap_or(0);
            limit = 1 + src.below(max / 1024 + 2);
            fails = sizes.iter().any(|v| *v > limit * 1024);
        }
        Harmless => {
            fails = false;
            std::fs::write(&elsewhere, "old".repeat(src.below(9000) as usize)).expect("file");
            if src.bool() {
                link(&elsewhere, &target);
            } else {
                std::fs::hard_link(&elsewhere, &target).expect("link");
            }
        }
    }
    let show = |e: String| format!("{} ({:?} at {}, limit {} KiB, flags {:?} of {:?} in {})", e, what, file, limit, job.flags, names, all_names(&w));
    let r: Result<(), String> = if what == Limit {
        let f = dir.join("job");
        std::fs::write(&f, job_json(&job, &out).text()).expect("job file");
        let o = Command::new("bash").args(["-c", "trap '' XFSZ; ulimit -f \"$0\"; exec \"$@\"", &limit.to_string()]).arg(std::env::current_exe().expect("own path")).args(["job".as_ref(), f.as_os_str()]).stdin(Stdio::null()).stderr(Stdio::null()).output().expect("child");
        match o.status.code() {
            Some(0) => Ok(()),
            Some(1) => Err(String::from_utf8_lossy(&o.stdout).trim().into()),
            c => return Err(show(format!("generating ends with {:?}", c))),
        }
    } else {
        match std::panic::catch_unwind(std::panic::AssertUnwindSafe(|| {
            let mut l = Loader::new();
            load(&job, &mut l).map_err(|e| e.to_string())?;
            let p = l.compile(SimpleImportSolver::new("::")).map_err(|e| e.to_string())?;
            configure(p, &job.flags).generate::<GeneratorRust>(&out).map(|_| ()).map_err(|e| e.to_string())
        })) {
            Ok(r) => r,
            Err(_) => return Err(show("generating panics".into())),
        }
    };
    if r.is_err() != fails {
        return Err(show(format!("generating gives {:?}, expected {}", r, if fails { "an error" } else { "success" })));
    }
    let after = tree(&out);
    if r.is_ok() {
        for (k, v) in &clean {
            if after.get(k) != Some(v) {
                return Err(show(format!("generating succeeds, and {} is {}", k, if after.contains_key(k) { "not complete" } else { "missing" })));
            }
        }
    } else {
        // What is there of the other files is right.
        for (k, v) in &after {
            let part = what == Limit || *k == file;
            if !part && clean.get(k).map(|c| c != v).unwrap_or(false) {
                return Err(show(format!("{} is not what it is without the obstacle", k)));
            }
        }
    }
    // Without the obstacle, everything is as if it had never been there.
    match what {
        Dir | FullDir => std::fs::remove_dir_all(&target).expect("directory"),
        NoSpace | Nowhere | Loop | Harmless => std::fs::remove_file(&target).expect("file"),
        NoOut => std::fs::create_dir(&out).expect("directory"),
        OutFile => {
            std::fs::remove_file(&out).expect("file");
            std::fs::create_dir(&out).expect("directory");
        }
        ProtoFile | ProtoNowhere => std::fs::remove_file(&proto).expect("file"),
        Limit => (),
    }
    let again = run(&job, &out).map_err(|e| show(format!("without the obstacle: {}", e)))?;
    if again != good {
        return Err(show(format!("without the obstacle: published {:?}, expected {:?}", again, good)));
    }
    if let Some(d) = differ(&clean, &tree(&out)) {
        return Err(show(format!("without the obstacle: {}", d)));
    }
    let _ = std::fs::remove_file(&elsewhere);
    let class = match (what, fails) {
        (Limit, true) => "file too large",
        (NoSpace, true) => "no space",
        (_, true) => "cannot be opened or created",
        (_, false) => "not in the way",
    };
    Ok(Info { key: Some(hash_bytes(show(String::new()).as_bytes())), classes: vec![class], sample: if want { show(format!("{:?}", r)) } else { String::new() } })
}

/// Schemas which cannot be read.
fn unreadable(root: &Path, src: &mut Src, want: bool) -> Case {
    let mut prof = profile();
    prof.protos = (1, 3);
    let w = gen::world(src, &prof);
    let dir = fresh(&scratch(root));
    let files = write(&w, &dir);
    let bad = dir.join("bad.json5");
    let kind = src.below(6);
    let text = std::fs::read(&files[0]).expect("file");
    let mut fails = true;
    match kind {
        0 => (),
        1 => std::fs::create_dir(&bad).expect("directory"),
        2 => std::os::unix::fs::symlink(&bad, &bad).expect("link"),
        3 => {
            let mut t = text.clone();
            let at = src.idx(t.len() + 1);
            // Not valid in any place of a text.
            t.insert(at, *src.pick(&[0xFF, 0xFE, 0xC0, 0xF8]));
            std::fs::write(&bad, t).expect("file");
        }
        4 => {
            // Cut anywhere but after the last brace.
            let end = text.iter().rposition(|b| *b == b'}').unwrap_or(0);
            std::fs::write(&bad, &text[..src.idx(end + 1)]).expect("file");
        }
        _ => {
            fails = false;
            std::fs::write(&bad, &text).expect("file");
        }
    }
    let import = src.bool();
    let what = ["missing", "a directory", "a loop of links", "not UTF-8", "cut", "as it should be"][kind as usize];
    let show = |e: String| format!("{} (a schema which is {}, {})", e, what, if import { "imported" } else { "loaded" });
    let (ok, text) = match std::panic::catch_unwind(std::panic::AssertUnwindSafe(|| {
        let mut l = Loader::new();
        let r = if import { l.import(&bad, "super::x") } else { l.load(&bad) };
        // A loader goes on after an error as if nothing had happened.
        let ok = r.is_ok();
        if !ok {
            let out = fresh(&dir.join("out"));
            let used = l.load(&files[0]).map_err(|e| e.to_string()).and_then(|_| l.compile(SimpleImportSolver::new("::")).map_err(|e| e.to_string())).and_then(|p| p.generate::<GeneratorRust>(&out).map_err(|e| e.to_string()));
            let alone = {
                let job = Job { imports: vec![], loads: vec![files[0].clone()], flags: [None; 6] };
                let o = fresh(&dir.join("alone"));
                run(&job, &o).map(|_| portable(tree(&o), &o))
            };
            match (used, alone) {
                (Ok(v), Ok(a)) => {
                    if v.len() != 1 {
                        return (ok, Err(format!("{} protocols are published after the error, expected 1", v.len())));
                    }
                    if let Some(d) = differ(&a, &portable(tree(&out), &out)) {
                        return (ok, Err(format!("after the error, other code is written: {}", d)));
                    }
                }
                (Err(_), Err(_)) => (),
                (a, b) => return (ok, Err(format!("after the error: {:?}, without it: {:?}", a.map(|_| ()), b.map(|_| ())))),
            }
        }
        (ok, Ok(()))
    })) {
        Ok(v) => v,
        Err(_) => return Err(show("loading panics".into())),
    };
    text.map_err(&show)?;
    if ok == fails {
        return Err(show(format!("loading succeeds: {}", ok)));
    }
    Ok(Info { key: fails.then(|| hash_bytes(show(all_names(&w)).as_bytes())), classes: vec![what], sample: if want { show(String::new()) } else { String::new() } })
}

pub fn sub(env: &Env, n: &str) -> PathBuf {
    let d = env.work.join(n);
    std::fs::create_dir_all(&d).expect("scratch directory");
    d
}

pub fn stable_parts(env: &Env) -> Vec<Part> {
    let d = sub(env, "stable");
    vec![part("variations", (4000, 120_000), move |src: &mut Src, want| stable(&d, src, want))]
}

pub fn flag_parts(env: &Env) -> Vec<Part> {
    let (a, b, c) = (sub(env, "flags"), sub(env, "published"), sub(env, "own"));
    let thorough = !env.quick();
    vec![
        part("flags", (500, 6000), move |src: &mut Src, want| flags(&a, thorough, src, want)),
        part("published", (2000, 60_000), move |src: &mut Src, want| published(&b, src, want)),
        part("other generators", (6000, 120_000), move |src: &mut Src, want| own(&c, src, want)),
    ]
}

pub const RULE_FAULTS: &str = "a case generates the code of random protocols into a directory where one thing is in the way (or is not), or loads one schema which cannot be read, then the same without it; non-trivial: something is in the way or a harmless link is; distinct by protocols, flags, place and kind of obstacle";

pub fn fault_parts(env: &Env) -> Vec<Part> {
    let (a, b) = (sub(env, "obstacles"), sub(env, "unreadable"));
    vec![
        part("obstacles", (2500, 80_000), move |src: &mut Src, want| obstacles(&a, src, want)),
        part("unreadable schemas", (1500, 40_000), move |src: &mut Src, want| unreadable(&b, src, want)),
    ]
}
