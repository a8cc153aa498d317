//! C08: types of other protocols are named through the import solver, in-process.

use crate::drive::{part, Case, Info, Part};
use crate::env::Env;
use crate::output::{all_names, configure, differ, fresh, portable, profile, shuffle, sub, tree, trivial, write, Tree};
use crate::refuse::scratch;
use bp3d_protoc::compiler::util::ImportResolver;
use bp3d_protoc::compiler::Protocol;
use bp3d_protoc::gen::GeneratorRust;
use bp3d_protoc::util::SimpleImportSolver;
use bp3d_protoc::{ImportSolver, Loader};
use oracle::gen::{self, declared, home};
use oracle::schema::*;
use oracle::tape::{hash_bytes, mix, Src};
use std::cell::RefCell;
use std::collections::{BTreeMap, BTreeSet, HashMap};
use std::path::{Path, PathBuf};
use std::rc::Rc;

pub const RULE: &str = "a case compiles random protocols which import from each other, once with marked import paths and once more (other import paths and separators; a solver of our own which names protocols and types in its own way, or is given protocols compiled before; a solver which does not know a protocol or a type), and compares; non-trivial: a loaded protocol uses a type of another one, or an import fails; distinct by protocols and kind of case";

/// A solver of our own.
struct Own {
    seen: Rc<RefCell<Vec<(String, Protocol)>>>,
    known: HashMap<String, Protocol>,
    /// Names under which a protocol is known (by its own name when there is none).
    alias: HashMap<String, String>,
    path: Box<dyn Fn(&str, &str) -> Option<String>>,
}

impl ImportSolver for Own {
    fn register(&mut self, path: String, p: Protocol) {
        self.seen.borrow_mut().push((path, p.clone()));
        let n = self.alias.get(&p.name).unwrap_or(&p.name).clone();
        self.known.insert(n, p);
    }
}

impl ImportResolver for Own {
    fn get_protocol_by_name(&self, name: &str) -> Option<&Protocol> {
        self.known.get(name)
    }

    fn get_full_type_path(&self, protocol: &str, name: &str) -> Option<String> {
        (self.path)(protocol, name)
    }
}

type Paths = Vec<(PathBuf, String)>;

fn generate<S: ImportSolver + ImportResolver>(imports: &Paths, loads: &[PathBuf], out: &Path, solver: S) -> Result<Tree, String> {
    fresh(out);
    match std::panic::catch_unwind(std::panic::AssertUnwindSafe(|| {
        let mut l = Loader::new();
        for (p, n) in imports {
            l.import(p, n.clone()).map_err(|e| e.to_string())?;
        }
        for p in loads {
            l.load(p).map_err(|e| e.to_string())?;
        }
        let p = l.compile(solver).map_err(|e| e.to_string())?;
        configure(p, &[Some(true); 6]).generate::<GeneratorRust>(out).map_err(|e| e.to_string())
    })) {
        Ok(r) => r.map(|_| portable(tree(out), out)),
        Err(_) => Err("panic".into()),
    }
}

/// The name which stands for the protocol of an index in the paths of the first run; in no schema is such a name.
fn mark(i: usize) -> String {
    format!("Zq{}q", i)
}

/// The types the fields of a protocol name: all of them appear in the code, but for structures of one scalar, of which
/// messages hold the scalar.
fn named(w: &World, p: &Proto) -> BTreeSet<String> {
    let mut out = BTreeSet::new();
    for s in &p.structs {
        for f in &s.fields {
            if let SKind::Struct(t) = &f.kind {
                out.insert(t.clone());
            }
            if let Some(View::Enum(t)) = &f.view {
                out.insert(t.clone());
            }
        }
    }
    let scalar = |t: &str| w.protos.iter().any(|p| p.structs.iter().any(|s| s.name == t && s.fields.len() == 1));
    let mut also = |t: &str| {
        if !scalar(t) {
            out.insert(t.to_string());
        }
    };
    for m in &p.msgs {
        for f in &m.fields {
            match &f.kind {
                MKind::Item(t) | MKind::List(_, t) => also(t),
                MKind::Union { item, .. } => also(item),
                _ => (),
            }
        }
    }
    for u in &p.unions {
        u.cases.iter().filter_map(|c| c.item.as_ref()).for_each(|t| also(t));
    }
    out
}

/// Marked types in a text: position, index of the protocol, the name which follows (maybe with more of it).
fn marks(text: &str) -> Vec<(usize, usize, String)> {
    let mut out = vec![];
    let mut at = 0;
    while let Some(i) = text[at..].find("Zq") {
        let start = at + i;
        let digits: String = text[start + 2..].chars().take_while(|c| c.is_ascii_digit()).collect();
        let name = &text[start + 2 + digits.len()..];
        let name = name.strip_prefix("q::").unwrap_or("");
        let name: String = name.chars().take_while(|c| c.is_alphanumeric() || *c == '_').collect();
        out.push((start, digits.parse().unwrap_or(usize::MAX), name));
        at = start + 2;
    }
    out
}

/// The declared type a name starts with, when there is exactly one.
fn of<'a>(types: &'a [String], name: &str) -> Option<&'a String> {
    let v: Vec<&String> = types.iter().filter(|t| name.starts_with(t.as_str())).collect();
    if v.len() == 1 { Some(v[0]) } else { None }
}

/// Puts other paths in place of the marked ones.
fn renamed(t: &Tree, w: &World, path: &dyn Fn(usize, &str) -> String) -> Option<Tree> {
    let mut out = Tree::new();
    for (k, v) in t {
        let text = std::str::from_utf8(v).ok()?;
        let mut res = String::new();
        let mut at = 0;
        for (start, p, name) in marks(text) {
            let t = of(&declared(w.protos.get(p)?), &name)?.clone();
            res.push_str(&text[at..start]);
            res.push_str(&path(p, &t));
            at = start + mark(p).len() + 2 + t.len();
        }
        res.push_str(&text[at..]);
        out.insert(k.clone(), res.into_bytes());
    }
    Some(out)
}

/// Something which stands for a path in code.
fn some_path(src: &mut Src) -> String {
    let mut v = src.pick(&["", "crate", "super", "super::super", "self", "::dep", "$crate", "r#mod", "a.b", "é"]).to_string();
    for _ in 0..src.below(3) {
        v.push_str(src.pick(&["::a", "::proto", "::r#type", "/x", "::String", "::u8", "<u8>", "::Offsets"]));
    }
    v
}

fn solved(root: &Path, src: &mut Src, want: bool) -> Case {
    let mut prof = profile();
    prof.protos = (2, 4);
    let mut w = gen::world(src, &prof);
    if !w.protos.iter().any(|p| !p.imports.is_empty()) {
        return trivial("no imports");
    }
    let dir = fresh(&scratch(root));
    let files = write(&w, &dir);
    let all: Vec<usize> = (0..w.protos.len()).collect();
    let mut loads = all.clone();
    shuffle(&mut loads, src);
    let n = src.range(1, loads.len() as u64) as usize;
    loads.truncate(n);
    let load: Vec<PathBuf> = loads.iter().map(|i| files[*i].clone()).collect();
    let marked: Paths = all.iter().map(|i| (files[*i].clone(), mark(*i))).collect();
    let first = match generate(&marked, &load, &dir.join("out"), SimpleImportSolver::new("::")) {
        Ok(v) => v,
        Err(_) => return trivial("refused"),
    };
    // In the code of a protocol are the paths of what it imports, where that is declared, and no other ones.
    let mut uses = 0;
    for i in &loads {
        let p = &w.protos[*i];
        let may: BTreeSet<(usize, String)> = p.imports.iter().filter_map(|(q, t)| Some((home(&w, q, t)?, t.clone()))).collect();
        let must: BTreeSet<(usize, String)> = {
            let own = declared(p);
            let named = named(&w, p);
            may.iter().filter(|v| named.contains(&v.1) && !own.contains(&v.1)).cloned().collect()
        };
        let mut found = BTreeSet::new();
        for (k, v) in first.iter().filter(|v| v.0.starts_with(&format!("{}/", p.name))) {
            for (_, q, name) in marks(&String::from_utf8_lossy(v)) {
                let t = w.protos.get(q).and_then(|p| of(&declared(p), &name).cloned());
                let t = match t {
                    Some(t) => t,
                    None if w.protos.get(q).map(|p| declared(p).iter().any(|t| name.starts_with(t.as_str()))).unwrap_or(false) => return trivial("similar names"),
                    None => return Err(format!("{} names {} of protocol {}, which has no such type ({})", k, name, q, all_names(&w))),
                };
                found.insert((q, t));
            }
        }
        if let Some(v) = found.iter().find(|v| !may.contains(v)) {
            return Err(format!("the code of {} names {:?}, which it does not import ({})", p.name, v, all_names(&w)));
        }
        if let Some(v) = must.iter().find(|v| !found.contains(v)) {
            return Err(format!("the code of {} does not name {:?}, which it uses ({})", p.name, v, all_names(&w)));
        }
        uses += found.len();
    }
    let seen = Rc::new(RefCell::new(vec![]));
    let none = || HashMap::new();
    let names: Vec<String> = w.protos.iter().map(|p| p.name.clone()).collect();
    let class;
    let kind = src.weighted(&[4, 4, 3, 3, 2, 2, 2, 1]);
    let expected: Result<Option<Tree>, String>;
    let got;
    let mut order: Option<Vec<(String, String)>> = None;
    match kind {
        0 | 7 => {
            class = "other paths";
            let sep = if kind == 7 { "::" } else { *src.pick(&["::", ".", "", "/", "__", "::r#"]) };
            let mut paths: Vec<String> = names.iter().map(|_| some_path(src)).collect();
            if src.one_in(4) {
                // One module for all of them.
                paths = vec![paths[0].clone(); paths.len()];
            }
            let imports: Paths = all.iter().map(|i| (files[*i].clone(), paths[*i].clone())).collect();
            expected = Ok(renamed(&first, &w, &|p, t| format!("{}{}{}", paths[p], sep, t)));
            got = if kind == 7 { generate(&imports, &load, &dir.join("other"), SimpleImportSolver::default()) } else { generate(&imports, &load, &dir.join("other"), SimpleImportSolver::new(sep)) };
        }
        1 => {
            class = "a solver which names types in its own way";
            let salt = src.below(1 << 30);
            let long = src.bool();
            let name = move |p: &str, t: &str| {
                let h = mix(hash_bytes(p.as_bytes()).rotate_left(9) ^ hash_bytes(t.as_bytes()) ^ salt);
                if long { format!("very::long::path::v{:x}::{}::{}", h, p, t) } else { format!("v{:x}", h) }
            };
            let n2 = names.clone();
            expected = Ok(renamed(&first, &w, &move |p, t| name(&n2[p], t)));
            // Independent protocols may be imported in any order; what is imported first is known first.
            let imports: Paths = all.iter().map(|i| (files[*i].clone(), some_path(src))).collect();
            order = Some(all.iter().map(|i| (imports[*i].1.clone(), names[*i].clone())).collect());
            got = generate(&imports, &load, &dir.join("other"), Own { seen: seen.clone(), known: none(), alias: HashMap::new(), path: Box::new(move |p, t| Some(name(p, t))) });
        }
        2 => {
            class = "a solver which knows protocols by other names";
            let alias: HashMap<String, String> = names.iter().map(|n| (n.clone(), format!("{}{}{}", src.pick(&["vendor/", "", "@"]), n, src.pick(&["", "@2", " (new)"])))).collect();
            let back: BTreeMap<String, usize> = names.iter().enumerate().map(|(i, n)| (alias[n].clone(), i)).collect();
            for p in &mut w.protos {
                for v in &mut p.imports {
                    v.0 = alias[&v.0].clone();
                }
            }
            write(&w, &dir);
            expected = Ok(Some(first.clone()));
            order = Some(all.iter().map(|i| (mark(*i), names[*i].clone())).collect());
            got = generate(&marked, &load, &dir.join("other"), Own { seen: seen.clone(), known: none(), alias, path: Box::new(move |p, t| Some(format!("{}::{}", mark(*back.get(p)?), t))) });
        }
        3 => {
            class = "protocols compiled before";
            let n2 = names.clone();
            let own = move |seen: &Rc<RefCell<Vec<(String, Protocol)>>>, known: HashMap<String, Protocol>| {
                let n2 = n2.clone();
                Own { seen: seen.clone(), known, alias: HashMap::new(), path: Box::new(move |p, t| Some(format!("{}::{}", mark(n2.iter().position(|n| n == p)?), t))) }
            };
            // In as many steps as there are.
            let cut = src.idx(all.len()) + 1;
            let early = Rc::new(RefCell::new(vec![]));
            if let Err(e) = generate(&marked[..cut].to_vec(), &[], &dir.join("other"), own(&early, none())) {
                return Err(format!("refused when imported only: {} ({})", e, all_names(&w)));
            }
            let known: HashMap<String, Protocol> = early.borrow().iter().map(|(_, p)| (p.name.clone(), p.clone())).collect();
            expected = Ok(Some(first.clone()));
            order = Some((cut..all.len()).map(|i| (mark(i), names[i].clone())).collect());
            got = generate(&marked[cut..].to_vec(), &load, &dir.join("other"), own(&seen, known));
        }
        4 => {
            class = "a type without a path";
            let p = src.idx(w.protos.len());
            let types = declared(&w.protos[p]);
            if types.is_empty() {
                return trivial("no types");
            }
            let t = src.pick(&types).clone();
            // Any protocol, imported or loaded: everything is imported.
            let asked = w.protos.iter().any(|q| q.imports.iter().any(|(a, b)| *a == names[p] && *b == t));
            expected = if asked { Err(String::new()) } else { Ok(Some(first.clone())) };
            let n2 = names.clone();
            got = generate(&marked, &load, &dir.join("other"), Own { seen: seen.clone(), known: none(), alias: HashMap::new(), path: Box::new(move |a, b| if a == n2[p] && b == t { None } else { Some(format!("{}::{}", mark(n2.iter().position(|n| n == a)?), b)) }) });
        }
        5 => {
            class = "a protocol which is not imported";
            let p = src.idx(w.protos.len());
            let with: Vec<usize> = all.iter().copied().filter(|i| *i != p).collect();
            let used = with.iter().chain(&loads).any(|i| w.protos[*i].imports.iter().any(|v| v.0 == names[p]));
            // Also when it is loaded, or imported after what needs it.
            let mut imports: Paths = with.iter().map(|i| marked[*i].clone()).collect();
            let late = w.protos.iter().rposition(|q| q.imports.iter().any(|v| v.0 == names[p]));
            let mut used = used;
            if let Some(l) = late {
                if src.bool() {
                    let at = imports.iter().position(|v| *v == marked[l]).unwrap_or(imports.len());
                    imports.insert(at + 1, marked[p].clone());
                    used = true;
                }
            }
            expected = if used { Err(names[p].clone()) } else { Ok(Some(first.clone())) };
            got = generate(&imports, &load, &dir.join("other"), SimpleImportSolver::new("::"));
        }
        _ => {
            class = "a type which is not there";
            let p = src.idx(w.protos.len());
            let q = src.idx(w.protos.len().max(2) - 1);
            if q >= p {
                return trivial("not earlier");
            }
            let t = src.pick(&["Missing", "String", "u8", "Zz", "missing::Type"]).to_string();
            let at = src.idx(w.protos[p].imports.len() + 1);
            w.protos[p].imports.insert(at, (names[q].clone(), t.clone()));
            write(&w, &dir);
            expected = Err(t);
            got = generate(&marked, &load, &dir.join("other"), SimpleImportSolver::new("::"));
        }
    }
    let show = |e: String| format!("{} ({}; loaded {:?} of {})", e, class, loads, all_names(&w));
    let failing = expected.is_err();
    match (expected, got) {
        (Ok(None), _) => return trivial("similar names"),
        (Ok(Some(e)), Ok(g)) => {
            if let Some(d) = differ(&e, &g) {
                return Err(show(d));
            }
        }
        (Ok(Some(_)), Err(g)) => return Err(show(format!("refused: {}", g))),
        (Err(e), Err(g)) => {
            if g == "panic" {
                return Err(show(g));
            }
            if !g.contains(&e) {
                return Err(show(format!("the error does not name {:?}: {}", e, g)));
            }
        }
        (Err(_), Ok(_)) => return Err(show("accepted".into())),
    }
    if let Some(o) = order {
        let seen: Vec<(String, String)> = seen.borrow().iter().map(|(n, p)| (n.clone(), p.name.clone())).collect();
        if seen != o {
            return Err(show(format!("registered {:?}, expected {:?}", seen, o)));
        }
    }
    let key = if uses > 0 || failing { Some(hash_bytes(show(String::new()).as_bytes())) } else { None };
    let mut names: Vec<String> = w.protos.iter().flat_map(declared).collect();
    let total = names.len();
    names.sort();
    names.dedup();
    let classes = if names.len() < total { vec![class, "types of one name"] } else { vec![class] };
    Ok(Info { key, classes, sample: if want { show(format!("{} types of other protocols", uses)) } else { String::new() } })
}

pub fn parts(env: &Env) -> Vec<Part> {
    let d = sub(env, "imports");
    vec![part("imports", (6000, 150_000), move |src: &mut Src, want| solved(&d, src, want))]
}
