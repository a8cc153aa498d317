//! T01: templates built from a syntax tree, rendered by the library and by substitution on the tree.

use crate::drive::{part, Case, Info, Part};
use bp3d_protoc::gen::template::{Error, FunctionMap, Scope, Template};
use oracle::tape::{hash_words, Src};
use std::borrow::Cow;
use std::collections::{BTreeSet, HashMap};

pub const RULE: &str = "a case is one template with a history of variable assignments, scopes and renderings (or with one injected fault); non-trivial: at least one rendering which substitutes a variable, or one reported fault; distinct by choice sequence";

#[derive(Clone, Debug)]
enum Comp {
    Text(String),
    Open,
    Close,
    Var(usize, Option<usize>),
}

#[derive(Clone, Debug)]
enum Item {
    Line(Vec<Comp>),
    Sub(Frag),
}

#[derive(Clone, Debug)]
struct Frag {
    name: String,
    items: Vec<Item>,
}

const VARS: [&str; 8] = ["a", "name", "raw_type", "ab", "x1", "Ünit", "_", "a-b"];
const FUNCS: [&str; 7] = ["upper", "lower", "capitalize", "rev", "twice", "up", "fix"];
const TEXTS: [&str; 14] = ["x", " ", "    let ", "impl<'a> ", ";", ".", ":", "é", "fn f() -> u8", "日本", "\t", "a:upper", "name", "//"];
const VALUES: [&str; 14] = ["v", "", "Value", "camelCase", "été", "ß", "{a}", "{{", "}}", "two\nlines", "Zed", "_x", "ÀÉ", "1abc"];

fn rev(v: &str) -> Cow<'_, str> {
    v.chars().rev().collect::<String>().into()
}
fn twice(v: &str) -> Cow<'_, str> {
    format!("{}{}", v, v).into()
}
fn same(v: &str) -> Cow<'_, str> {
    v.into()
}
fn fix(_: &str) -> Cow<'_, str> {
    "fixed".into()
}

/// The functions known to a template: the default ones, or custom ones (which may redefine a default name).
#[derive(Clone, Copy, PartialEq, Debug)]
enum Map {
    Default,
    Custom,
    Both,
}

fn known(m: Map) -> Vec<usize> {
    match m {
        Map::Default => vec![0, 1, 2],
        Map::Custom => vec![0, 3, 4, 6],
        Map::Both => vec![0, 1, 2, 3, 4, 5, 6],
    }
}

fn apply(m: Map, f: usize, v: &str) -> String {
    match (m, FUNCS[f]) {
        (Map::Custom, "upper") => v.to_string(),
        (_, "upper") => v.to_uppercase(),
        (_, "lower") => v.to_lowercase(),
        (_, "capitalize") => {
            let mut c = v.chars();
            match c.next() {
                Some(f) => f.to_ascii_uppercase().to_string() + c.as_str(),
                None => String::new(),
            }
        }
        (_, "rev") => v.chars().rev().collect(),
        (_, "twice") => v.repeat(2),
        (_, "up") => v.to_string(),
        _ => "fixed".into(),
    }
}

fn map(m: Map) -> FunctionMap<'static> {
    match m {
        Map::Default => FunctionMap::default(),
        Map::Custom => {
            let mut f = FunctionMap::new();
            f.add("upper", same).add("rev", rev).add("twice", twice).add("fix", fix);
            f
        }
        Map::Both => {
            let mut f = FunctionMap::new();
            f.add("upper", twice);
            f.add_defaults();
            f.add("rev", twice).add("rev", rev).add("twice", twice).add("up", same).add("fix", fix);
            f
        }
    }
}

fn comp(src: &mut Src, funcs: &[usize]) -> Comp {
    match src.weighted(&[4, 4, 2, 1, 1]) {
        0 => Comp::Text(src.pick(&TEXTS).to_string()),
        1 => Comp::Var(src.idx(VARS.len()), None),
        2 => Comp::Var(src.idx(VARS.len()), Some(*src.pick(funcs))),
        3 => Comp::Open,
        _ => Comp::Close,
    }
}

fn frag(src: &mut Src, depth: usize, funcs: &[usize], name: String) -> Frag {
    let mut items = Vec::new();
    let mut subs = 0;
    for _ in 0..src.below(5) {
        if depth < 3 && src.one_in(3) {
            let name = format!("{}{}", ["s", "sub-", "field "][src.idx(3)], subs);
            items.push(Item::Sub(frag(src, depth + 1, funcs, name)));
            subs += 1;
        } else {
            items.push(Item::Line((0..src.range(1, 6)).map(|_| comp(src, funcs)).collect()));
        }
    }
    Frag { name, items }
}

fn line(c: &[Comp]) -> String {
    c.iter().map(|c| match c {
        Comp::Text(t) => t.clone(),
        Comp::Open => "{{".into(),
        Comp::Close => "}}".into(),
        Comp::Var(v, None) => format!("{{{}}}", VARS[*v]),
        Comp::Var(v, Some(f)) => format!("{{{}:{}}}", VARS[*v], FUNCS[*f]),
    }).collect()
}

fn lines(f: &Frag, out: &mut Vec<String>) {
    out.push(format!("#fragment push {}", f.name));
    for i in &f.items {
        match i {
            Item::Line(c) => out.push(line(c)),
            Item::Sub(f) => lines(f, out),
        }
    }
    // What follows on this line does not count.
    out.push(if f.items.len() % 3 == 2 { "#fragment pop  ".into() } else { "#fragment pop".into() });
}

fn paths<'a>(f: &'a Frag, prefix: &str, out: &mut Vec<(String, &'a Frag)>) {
    let p = if prefix.is_empty() { f.name.clone() } else { format!("{}.{}", prefix, f.name) };
    for i in &f.items {
        if let Item::Sub(s) = i {
            paths(s, &p, out);
        }
    }
    out.push((p, f));
}

/// Substitution on the tree.
fn expect(m: Map, f: &Frag, vars: &HashMap<usize, String>) -> Result<String, BTreeSet<String>> {
    let mut t = String::new();
    let mut missing = BTreeSet::new();
    for i in &f.items {
        if let Item::Line(c) = i {
            for c in c {
                match c {
                    Comp::Text(x) => t.push_str(x),
                    Comp::Open => t.push('{'),
                    Comp::Close => t.push('}'),
                    Comp::Var(v, f) => match vars.get(v) {
                        None => {
                            missing.insert(format!("variable {}", VARS[*v]));
                        }
                        Some(x) => t.push_str(&f.map(|f| apply(m, f, x)).unwrap_or(x.clone())),
                    },
                }
            }
            t.push('\n');
        }
    }
    if missing.is_empty() { Ok(t) } else { Err(missing) }
}

struct Model<'a> {
    m: Map,
    frags: &'a [(String, &'a Frag)],
}

/// One rendering: the arguments, and what is expected of it.
type Want = Result<String, BTreeSet<String>>;

impl Model<'_> {
    fn args(&self, src: &mut Src) -> (String, Vec<String>) {
        // A fragment is addressed by any split of its path.
        let base = &self.frags[src.idx(self.frags.len())].0;
        let parts: Vec<&str> = base.split('.').collect();
        let cut = src.idx(parts.len());
        let path = parts[..cut].join(".");
        let mut names = vec![parts[cut..].join(".")];
        let inside: Vec<String> = self.frags.iter().filter_map(|f| if path.is_empty() { Some(f.0.clone()) } else { f.0.strip_prefix(&format!("{}.", path)).map(|v| v.to_string()) }).collect();
        for _ in 0..src.below(3) {
            names.push(src.pick(&inside).clone());
        }
        if src.one_in(12) {
            let at = src.idx(names.len() + 1);
            names.insert(at, ["nothing", "s0.s0.s0.s0", "S0", ""][src.idx(4)].to_string());
        }
        if src.one_in(20) {
            names.clear();
        }
        (path, names)
    }

    fn want(&self, path: &str, names: &[String], vars: &HashMap<usize, String>) -> Want {
        let mut t = String::new();
        let mut missing = BTreeSet::new();
        for n in names {
            let full = if path.is_empty() { n.clone() } else { format!("{}.{}", path, n) };
            match self.frags.iter().find(|f| f.0 == full) {
                None => {
                    missing.insert(format!("fragment {}", full));
                }
                Some(f) => match expect(self.m, f.1, vars) {
                    Ok(v) => t.push_str(&v),
                    Err(e) => missing.extend(e),
                },
            }
        }
        if missing.is_empty() { Ok(t) } else { Err(missing) }
    }
}

fn compare(what: &str, got: Result<String, Error>, want: &Want) -> Result<(), String> {
    let got = got.map_err(|e| match e {
        Error::FragmentNotFound(n) => format!("fragment {}", n),
        Error::VariableNotFound(n) => format!("variable {}", n),
        e => format!("{}", e),
    });
    match (&got, want) {
        (Ok(a), Ok(b)) if a == b => Ok(()),
        (Err(a), Err(b)) if b.contains(a) => Ok(()),
        _ => Err(format!("{} gives {:?}, expected {:?}", what, got, want)),
    }
}

fn value(src: &mut Src) -> String {
    if src.one_in(6) {
        (0..src.below(6)).map(|_| char::from_u32(src.below(0x2000) as u32 + 32).unwrap_or('?')).collect()
    } else {
        src.pick(&VALUES).to_string()
    }
}

fn tree(src: &mut Src) -> (Map, Vec<Frag>) {
    let m = [Map::Default, Map::Custom, Map::Both][src.weighted(&[3, 1, 2])];
    let funcs = known(m);
    let n = src.range(1, 3);
    (m, (0..n).map(|i| {
        let name = format!("{}{}", ["f", "impl", "struct ", "Ø"][src.idx(4)], i);
        frag(src, 1, &funcs, name)
    }).collect())
}

fn text(src: &mut Src, f: &[Frag]) -> Vec<String> {
    let mut l = Vec::new();
    for f in f {
        for _ in 0..src.below(3) {
            l.push(String::new());
        }
        lines(f, &mut l);
    }
    l
}

fn join(src: &mut Src, l: &[String]) -> String {
    let eol = if src.one_in(4) { "\r\n" } else { "\n" };
    let mut t = l.join(eol);
    if src.bool() {
        t.push_str(eol);
    }
    t
}

fn done(src: &Src, nontrivial: bool, want: bool, classes: Vec<&'static str>, sample: impl FnOnce() -> String) -> Case {
    Ok(Info { key: nontrivial.then(|| hash_words(src.tape())), classes, sample: if want { sample() } else { String::new() } })
}

/// A history over one template: variables of the template, then scopes made of it, clones of them and renderings.
fn history(src: &mut Src, want: bool) -> Case {
    let (m, frags) = tree(src);
    let l = text(src, &frags);
    let data = join(src, &l);
    let mut all = Vec::new();
    for f in &frags {
        paths(f, "", &mut all);
    }
    let model = Model { m, frags: &all };
    let ctx = |e: String| format!("template {:?} ({:?} functions): {}", data, m, e);
    let mut t = match m {
        Map::Default if src.bool() => Template::compile(data.as_bytes()),
        m => Template::compile_with_function_map(data.as_bytes(), map(m)),
    }.map_err(|e| ctx(format!("refused: {}", e)))?;
    let mut vars: HashMap<usize, String> = HashMap::new();
    let mut classes = vec![];
    let mut substituted = false;
    let mut log = String::new();
    for _ in 0..src.range(1, 2) {
        let full = src.one_in(2);
        for v in 0..VARS.len() {
            if full || src.bool() {
                if src.one_in(4) {
                    let x = src.below(1000) as i64 - 500;
                    t.var_d(VARS[v], x);
                    vars.insert(v, x.to_string());
                } else {
                    let x = value(src);
                    t.var(VARS[v], x.clone());
                    vars.insert(v, x);
                }
            }
        }
        let mut scopes: Vec<(Scope, HashMap<usize, String>)> = vec![];
        for _ in 0..src.range(1, 10) {
            let op = src.weighted(&[3, 2, 4, 2, 2, 1]);
            let k = if scopes.is_empty() { 0 } else { src.idx(scopes.len()) };
            match op {
                // Renderings from the template itself see its own variables only.
                0 => {
                    let (p, n) = model.args(src);
                    let n1: Vec<&str> = n.iter().map(|v| &**v).collect();
                    let w = model.want(&p, &n, &vars);
                    substituted |= w.is_ok();
                    classes.push(if w.is_ok() { "rendered" } else { "missing name reported" });
                    compare(&format!("after {}render({:?}, {:?}) of the template with {:?}", log, p, n, vars), t.render(&p, &n1), &w).map_err(ctx)?;
                }
                1 => {
                    scopes.push((t.scope(), vars.clone()));
                    log.push_str("scope; ");
                }
                _ if scopes.is_empty() => (),
                2 => {
                    let (p, n) = model.args(src);
                    let n1: Vec<&str> = n.iter().map(|v| &**v).collect();
                    let w = model.want(&p, &n, &scopes[k].1);
                    substituted |= w.is_ok();
                    classes.push(if w.is_ok() { "rendered" } else { "missing name reported" });
                    compare(&format!("after {}render({:?}, {:?}) of scope {} with {:?}", log, p, n, k, scopes[k].1), scopes[k].0.render(&p, &n1), &w).map_err(ctx)?;
                }
                3 => {
                    let v = src.idx(VARS.len());
                    if src.one_in(3) {
                        let x = src.below(1000);
                        scopes[k].0.var_d(VARS[v], x);
                        scopes[k].1.insert(v, x.to_string());
                    } else {
                        let x = value(src);
                        scopes[k].0.var(VARS[v], x.clone());
                        scopes[k].1.insert(v, x);
                    }
                    log.push_str(&format!("scope {} sets {}; ", k, VARS[v]));
                }
                4 => {
                    let (p, n) = model.args(src);
                    let n1: Vec<&str> = n.iter().map(|v| &**v).collect();
                    let v = src.idx(VARS.len());
                    let w = model.want(&p, &n, &scopes[k].1);
                    let r = scopes[k].0.render_to_var(&p, &n1, VARS[v]).map(|_| String::new());
                    compare(&format!("after {}render_to_var({:?}, {:?}, {}) of scope {}", log, p, n, VARS[v], k), r, &w.clone().map(|_| String::new())).map_err(ctx)?;
                    if let Ok(x) = w {
                        classes.push("rendered to a variable");
                        scopes[k].1.insert(v, x);
                        log.push_str(&format!("scope {} renders {:?} {:?} to {}; ", k, p, n, VARS[v]));
                    }
                }
                _ => {
                    let c = scopes[k].0.clone();
                    let v = scopes[k].1.clone();
                    scopes.push((c, v));
                    log.push_str(&format!("clone of {}; ", k));
                }
            }
        }
    }
    done(src, substituted, want, classes, || format!("{:?}: {}", data, log))
}

/// One fault in a well-formed template.
fn fault(src: &mut Src, want: bool) -> Case {
    let (m, mut frags) = tree(src);
    let kind = src.idx(8);
    let (expected, data): (&'static str, Vec<u8>) = match kind {
        // A pop without a fragment, between, before or after the fragments.
        0 | 1 => {
            let mut l = Vec::new();
            let at = src.idx(frags.len() + 1);
            for (i, f) in frags.iter().enumerate() {
                if i == at {
                    l.push(if kind == 0 { "#fragment pop".into() } else { src.pick(&TEXTS).to_string() });
                }
                lines(f, &mut l);
            }
            if at == frags.len() {
                l.push(if kind == 0 { "#fragment pop".into() } else { src.pick(&TEXTS).to_string() });
            }
            (if kind == 0 { "invalid pop" } else { "no fragment" }, join(src, &l).into_bytes())
        }
        // A function which is not known.
        2 | 3 => {
            let l = text(src, &frags);
            let name = match m {
                Map::Default => ["rev", "uppercase", "Upper", "", " upper"][src.idx(5)],
                _ => ["uppercase", "Rev", "twic", "", "rev "][src.idx(5)],
            };
            let inner: Vec<usize> = (0..l.len()).filter(|i| l[*i].starts_with("#fragment p")).collect();
            // After a push, or before a pop.
            let at = *src.pick(&inner);
            let bad = format!("{}{{{}:{}}}", ["", "x ", "{a}", "{{"][src.idx(4)], src.pick(&VARS), name);
            let mut l = l;
            let pos = if l[at].starts_with("#fragment push") { at + 1 } else { at };
            l.insert(pos, bad);
            let data = join(src, &l).into_bytes();
            let r = Template::compile_with_function_map(&data, map(m));
            return match r {
                Err(Error::FunctionNotFound(n)) if n == name => done(src, true, want, vec!["unknown function"], || format!("{:?}", String::from_utf8_lossy(&data))),
                Err(e) => Err(format!("template {:?}: error {:?}, but the function {:?} is missing", String::from_utf8_lossy(&data), e.to_string(), name)),
                Ok(_) => Err(format!("template {:?}: accepted, but the function {:?} is missing", String::from_utf8_lossy(&data), name)),
            };
        }
        // Not UTF-8: in a text, in the name of a variable, in the name of a fragment.
        4 | 5 => {
            let l = text(src, &frags);
            let inner: Vec<usize> = (0..l.len()).filter(|i| l[*i].starts_with("#fragment push")).collect();
            let at = *src.pick(&inner);
            let bad: &[u8] = [&b"\xff"[..], b"\xc3", b"\xed\xa0\x80", b"\x80"][src.idx(4)];
            let mut out: Vec<u8> = Vec::new();
            let form = src.idx(4);
            for (i, x) in l.iter().enumerate() {
                out.extend_from_slice(x.as_bytes());
                if i == at && form == 0 {
                    out.extend_from_slice(bad);
                }
                out.push(b'\n');
                if i == at && form > 0 {
                    out.extend_from_slice([&b""[..], b"text ", b"text {", b"{a} "][form]);
                    out.extend_from_slice(bad);
                    out.extend_from_slice([&b""[..], b" more", b"}", b"{{"][form]);
                    out.push(b'\n');
                }
            }
            ("invalid UTF-8", out)
        }
        // A fragment which is never closed does not exist; the ones before it and inside it do.
        _ => {
            let last = frags.pop().expect("fragment");
            let mut l = text(src, &frags);
            let mut tail = Vec::new();
            lines(&last, &mut tail);
            tail.pop();
            l.extend(tail);
            let data = join(src, &l);
            let mut t = Template::compile_with_function_map(data.as_bytes(), map(m)).map_err(|e| format!("template {:?}: refused: {}", data, e))?;
            let mut vars = HashMap::new();
            for v in 0..VARS.len() {
                let x = value(src);
                t.var(VARS[v], x.clone());
                vars.insert(v, x);
            }
            let mut all = Vec::new();
            for f in &frags {
                paths(f, "", &mut all);
            }
            paths(&last, "", &mut all);
            for (p, f) in &all {
                let w = if *p == last.name { Err([format!("fragment {}", p)].into_iter().collect()) } else { expect(m, f, &vars).map_err(|_| BTreeSet::new()) };
                compare(&format!("template {:?}: render(\"\", [{:?}])", data, p), t.render("", &[&**p]), &w)?;
                compare(&format!("template {:?}: scope().render(\"\", [{:?}])", data, p), t.scope().render("", &[&**p]), &w)?;
            }
            return done(src, true, want, vec!["unclosed fragment"], || format!("{:?}", data));
        }
    };
    let r = Template::compile_with_function_map(&data, map(m));
    let got = match &r {
        Ok(_) => "accepted",
        Err(Error::InvalidPop) => "invalid pop",
        Err(Error::NoFragment) => "no fragment",
        Err(Error::InvalidUTF8) => "invalid UTF-8",
        Err(_) => "another error",
    };
    if got != expected {
        return Err(format!("template {:?}: {}, expected {}", String::from_utf8_lossy(&data), got, expected));
    }
    done(src, true, want, vec![expected], || format!("{:?}", String::from_utf8_lossy(&data)))
}

/// Any bytes are compiled or refused, and what is compiled renders or names what is missing, without a panic.
fn soup(src: &mut Src, want: bool) -> Case {
    const BITS: [&str; 22] = ["#fragment push ", "#fragment pop", "#fragment ", "\n", "\r\n", "{", "}", "{{", "}}", "{a}", "{a:upper}", "{a:", ":", "a", "b", " ", "é", "\r", ".", "{}", "{:upper}", "#"];
    let mut data: Vec<u8> = vec![];
    for _ in 0..src.below(24) {
        match src.weighted(&[12, 1, 2]) {
            0 => data.extend_from_slice(src.pick(&BITS).as_bytes()),
            1 => data.push(src.below(256) as u8),
            _ => data.extend_from_slice(b"#fragment push a\n"),
        }
    }
    let mut ok = false;
    if let Ok(mut t) = Template::compile(&data) {
        t.var("a", "1");
        for p in ["a", "a.a", "", "b"] {
            ok |= t.render("", &[p]).is_ok();
            let _ = t.scope().render(p, &["a"]);
        }
    }
    done(src, ok, want, vec![], || format!("{:?}", String::from_utf8_lossy(&data)))
}

pub fn parts() -> Vec<Part> {
    vec![
        part("histories", (300_000, 6_000_000), history),
        part("faults", (150_000, 3_000_000), fault),
        part("arbitrary bytes", (150_000, 5_000_000), soup),
    ]
}
