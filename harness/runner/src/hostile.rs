//! C06: loading, compiling and generating from any text, without a panic.

use crate::drive::{part, Case, Info, Part};
use crate::env::Env;
use crate::refuse::{all_places, at, scratch};
use bp3d_protoc::compiler::util::ImportResolver;
use bp3d_protoc::compiler::Protocol;
use bp3d_protoc::gen::GeneratorRust;
use bp3d_protoc::util::SimpleImportSolver;
use bp3d_protoc::{ImportSolver, Loader};
use oracle::batch::guarded;
use oracle::gen::{self, Profile};
use oracle::json::{n, obj, s, J};
use oracle::schema::*;
use oracle::tape::{hash_bytes, Src};
use std::cell::RefCell;
use std::path::{Path, PathBuf};
use std::rc::Rc;

pub const RULE: &str = "a case is one schema file (a random schema with subtrees, values, tokens or bytes changed, a deep chain of types, or random bytes), loaded, compiled and, when accepted, generated; non-trivial: the text loads as a protocol; distinct by text";

/// Remembers the name of the protocol which is imported.
struct Names<'a> {
    inner: SimpleImportSolver<'a>,
    last: Rc<RefCell<String>>,
}
impl ImportSolver for Names<'_> {
    fn register(&mut self, base: String, p: Protocol) {
        *self.last.borrow_mut() = p.name.clone();
        self.inner.register(base, p);
    }
}
impl ImportResolver for Names<'_> {
    fn get_protocol_by_name(&self, name: &str) -> Option<&Protocol> {
        self.inner.get_protocol_by_name(name)
    }
    fn get_full_type_path(&self, protocol: &str, type_name: &str) -> Option<String> {
        self.inner.get_full_type_path(protocol, type_name)
    }
}

/// How far a text gets: 0 not loaded, 1 not compiled, 2 accepted, 3 generated.
fn drive(imports: &[(PathBuf, String)], path: &Path, out: &Path, flags: u64) -> Result<u8, String> {
    let mut l = Loader::new();
    for (p, n) in imports {
        if l.import(p, n.clone()).is_err() {
            return Ok(0);
        }
    }
    if l.import(path, "super::x").is_err() {
        return Ok(0);
    }
    let last = Rc::new(RefCell::new(String::new()));
    if l.compile(Names { inner: SimpleImportSolver::new("::"), last: last.clone() }).is_err() {
        return Ok(1);
    }
    let name = last.borrow().clone();
    let mut l = Loader::new();
    for (p, n) in imports {
        l.import(p, n.clone()).map_err(|e| e.to_string())?;
    }
    if l.load(path).is_err() {
        return Err("the text can be imported, and not loaded".into());
    }
    let p = match l.compile(SimpleImportSolver::new("::")) {
        Err(_) => return Err("the text is accepted when imported, and not when loaded".into()),
        Ok(p) => p,
    };
    // The name is the name of a directory: nothing is written for names which lead elsewhere.
    let plain = !name.is_empty() && name.len() < 64 && name.chars().all(|c| c.is_ascii_alphanumeric() || c == '_');
    if !plain {
        return Ok(2);
    }
    let p = if flags & 1 == 0 { p.set_reads_messages(true).set_writes_messages(true) } else { p.set_reads_messages(flags & 2 == 0).set_use_structs(flags & 4 == 0) };
    Ok(if p.generate::<GeneratorRust>(out).is_ok() { 3 } else { 2 })
}

fn profile(src: &mut Src) -> Profile {
    let mut p = Profile::everything();
    p.exotic = src.bool();
    p.structs = (0, 4);
    p.enums = (0, 3);
    p.msgs = (0, 4);
    p
}

fn number(src: &mut Src) -> J {
    let v = match src.below(6) {
        0 => (*src.pick(&["0", "1", "2", "7", "8", "9", "15", "16", "17", "24", "31", "32", "33", "63", "64", "65", "128", "255", "256", "65535", "65536"])).to_string(),
        1 => (*src.pick(&["4294967295", "4294967296", "9007199254740993", "9223372036854775807", "9223372036854775808", "18446744073709551615", "18446744073709551616", "2305843009213693952"])).to_string(),
        2 => (*src.pick(&["-1", "-8", "0.5", "1e3", "1e308", "-1e308", "1e-320", "1e400", "NaN", "Infinity", "-Infinity", "0x10", "0xFFFFFFFF", "0xFFFFFFFFFF", "-0", "+1", ".5", "5."])).to_string(),
        3 => src.bits(64).to_string(),
        4 => src.bits(8).to_string(),
        _ => {
            let b = src.below(64);
            ((1u64 << b).wrapping_sub(src.below(2))).to_string()
        }
    };
    J::Num(v)
}

fn name(src: &mut Src, all: &[String]) -> String {
    match src.below(8) {
        0 | 1 | 2 | 3 if !all.is_empty() => src.pick(all).clone(),
        4 if all.len() > 1 => format!("{}.{}", src.pick(all), src.pick(all)),
        5 => (*src.pick(&["", ".", "..", "a.b.c", " ", "{x}", "{{", "}", "#fragment push a", "\n", "é", "日本", "\u{0}", "a\"b", "a:b", "::", "😀", "ß", "ŉ", "/", "../x", "\\"])).into(),
        6 => (*src.pick(&["unsigned", "signed", "float", "boolean", "struct", "item", "list", "string", "payload", "union", "enum", "float-range", "float-multiplier", "little", "big"])).into(),
        _ => (*src.pick(&["0", "1", "-1", "255", "-128", "128", "99999999999999999999", "-9223372036854775808", "9223372036854775808", "true", "0x1", "1.0", "self", "fn", "a"])).into(),
    }
}

fn strings(j: &J, out: &mut Vec<String>) {
    match j {
        J::Str(v) => out.push(v.clone()),
        J::Arr(v) => v.iter().for_each(|v| strings(v, out)),
        J::Obj(v) => v.iter().for_each(|v| {
            if v.0.len() < 3 {
                out.push(v.0.clone());
            }
            strings(&v.1, out)
        }),
        _ => (),
    }
}

const KEYS: [&str; 24] = ["name", "endianness", "imports", "enums", "structs", "unions", "messages", "fields", "info", "type", "bits", "view", "array_len", "item_type", "max_len", "optional", "on", "discriminant", "cases", "case", "variants", "min", "max", "multiplier"];

fn mutate(j: &mut J, src: &mut Src) {
    let mut names = vec![];
    strings(j, &mut names);
    let ps = all_places(j);
    if ps.is_empty() {
        return;
    }
    // Scalars are picked as often as everything else.
    let pick = |src: &mut Src, j: &mut J| {
        for _ in 0..3 {
            let p = src.idx(ps.len());
            if matches!(at(j, &ps[p].path), J::Num(_) | J::Str(_) | J::Bool(_)) {
                return p;
            }
        }
        src.idx(ps.len())
    };
    let p = pick(src, j);
    let key = ps[p].key().to_string();
    let path = &ps[p].path;
    match src.weighted(&[16, 6, 6, 4, 4, 2, 4, 3]) {
        0 => {
            let x = at(j, path);
            *x = match x {
                J::Num(_) => number(src),
                J::Str(_) => s(name(src, &names)),
                J::Bool(b) => J::Bool(!*b),
                J::Arr(_) if src.bool() => J::Arr(vec![]),
                J::Obj(_) if src.bool() => J::Obj(vec![]),
                _ => match src.below(5) {
                    0 => J::Null,
                    1 => J::Bool(true),
                    2 => number(src),
                    3 => s(name(src, &names)),
                    _ => J::Arr(vec![]),
                },
            };
        }
        1 => {
            // The value of another place with that key, or of any.
            let same: Vec<usize> = (0..ps.len()).filter(|q| ps[*q].key() == key).collect();
            let q = if src.one_in(5) { src.idx(ps.len()) } else { *src.pick(&same) };
            let v = at(j, &ps[q].path).clone();
            *at(j, path) = v;
        }
        2 => {
            // An item less, more, twice, or moved.
            let arrays: Vec<usize> = (0..ps.len()).filter(|q| matches!(at(j, &ps[*q].path), J::Arr(_))).collect();
            if arrays.is_empty() {
                return;
            }
            let q = *src.pick(&arrays);
            if let J::Arr(v) = at(j, &ps[q].path) {
                if v.is_empty() {
                    return;
                }
                let i = src.idx(v.len());
                match src.below(4) {
                    0 => {
                        v.remove(i);
                    }
                    1 => {
                        let x = v[i].clone();
                        v.insert(i, x);
                    }
                    2 => {
                        let k = src.idx(v.len());
                        v.swap(i, k);
                    }
                    _ => {
                        let mut x = v[i].clone();
                        let fresh = format!("q{}", src.below(4));
                        if x.get("name").is_some() {
                            x.set("name", s(fresh));
                        }
                        v.push(x);
                    }
                }
            }
        }
        3 => {
            // A key less, more or renamed.
            let objs: Vec<usize> = (0..ps.len()).filter(|q| matches!(at(j, &ps[*q].path), J::Obj(_))).collect();
            let q = if objs.is_empty() { return } else { *src.pick(&objs) };
            let key = src.pick(&KEYS).to_string();
            let v = match src.below(4) {
                0 => number(src),
                1 => s(name(src, &names)),
                2 => {
                    let same: Vec<usize> = (0..ps.len()).filter(|q| ps[*q].key() == key).collect();
                    if same.is_empty() { J::Null } else { let k = *src.pick(&same); at(j, &ps[k].path).clone() }
                }
                _ => J::Bool(src.bool()),
            };
            if let J::Obj(o) = at(j, &ps[q].path) {
                match src.below(4) {
                    0 if !o.is_empty() => {
                        let i = src.idx(o.len());
                        o.remove(i);
                    }
                    1 if !o.is_empty() => {
                        let i = src.idx(o.len());
                        o[i].0 = key;
                    }
                    2 => o.push((key, v)),
                    _ => {
                        o.retain(|x| x.0 != key);
                        o.push((key, v));
                    }
                }
            }
        }
        4 => {
            // Another kind of field.
            let infos: Vec<usize> = (0..ps.len()).filter(|q| ps[*q].key() == "info" || ps[*q].key() == "view").collect();
            if infos.is_empty() {
                return;
            }
            let q = *src.pick(&infos);
            let t = name(src, &names);
            let on = name(src, &names);
            let num = number(src);
            let num2 = number(src);
            let v = match src.below(12) {
                0 => obj(vec![("type", s("signed")), ("bits", num)]),
                1 => obj(vec![("type", s("unsigned")), ("bits", num)]),
                2 => obj(vec![("type", s("float")), ("bits", num)]),
                3 => obj(vec![("type", s("boolean")), ("bits", num)]),
                4 => obj(vec![("type", s("struct")), ("item_type", s(t))]),
                5 => obj(vec![("type", s("enum")), ("name", s(t))]),
                6 => obj(vec![("type", s("float-range")), ("min", num), ("max", num2)]),
                7 => obj(vec![("type", s("float-multiplier")), ("multiplier", num)]),
                8 => obj(vec![("type", s("item")), ("item_type", s(t))]),
                9 => obj(vec![("type", s("list")), ("max_len", num), ("item_type", s(t))]),
                10 => obj(vec![("type", s("union")), ("on", s(on)), ("item_type", s(t))]),
                _ => obj(vec![("type", s("payload"))]),
            };
            *at(j, &ps[q].path) = v;
        }
        5 => *at(j, path) = J::Null,
        7 => {
            // A discriminant which leads to some declared field: of a structure, an array, a view or nothing.
            let discs: Vec<usize> = (0..ps.len()).filter(|q| ps[*q].key() == "discriminant").collect();
            if discs.is_empty() {
                return;
            }
            let sts: Vec<J> = j.get("structs").map(|v| v.arr().to_vec()).unwrap_or_default();
            let text = |v: &J, k: &str| v.get(k).and_then(|v| v.str()).unwrap_or("").to_string();
            if sts.is_empty() {
                return;
            }
            let mut st = src.pick(&sts).clone();
            let mut way = text(&st, "name");
            for _ in 0..4 {
                let fs: Vec<J> = st.get("fields").map(|v| v.arr().to_vec()).unwrap_or_default();
                if fs.is_empty() {
                    break;
                }
                let f = src.pick(&fs).clone();
                way = format!("{}.{}", way, text(&f, "name"));
                let to = f.get("info").map(|v| text(v, "item_type")).unwrap_or_default();
                match sts.iter().find(|v| text(v, "name") == to) {
                    Some(v) if !src.one_in(6) => st = v.clone(),
                    _ => break,
                }
            }
            let q = *src.pick(&discs);
            *at(j, &ps[q].path) = s(way);
        }
        _ => {
            // The same name elsewhere: clashes and wrong kinds of reference.
            let all: Vec<usize> = (0..ps.len()).filter(|q| matches!(at(j, &ps[*q].path), J::Str(_))).collect();
            if all.is_empty() {
                return;
            }
            let q = *src.pick(&all);
            *at(j, &ps[q].path) = s(name(src, &names));
        }
    }
}

const TOKENS: [&str; 28] = ["{", "}", "[", "]", ",", ":", "\"", "'", "//", "/*", "*/", "null", "true", "false", "NaN", "Infinity", "-", "+", "0x", "1e9", ".", "\\", "\\u12", "\n", "name", "{}", "[]", "\u{2028}"];

fn scramble(t: &mut Vec<u8>, src: &mut Src) {
    for _ in 0..1 + src.below(4) {
        if t.is_empty() {
            return;
        }
        let i = src.idx(t.len());
        match src.below(6) {
            0 => {
                t.remove(i);
            }
            1 => t[i] = src.below(256) as u8,
            2 => t[i] ^= 1 << src.below(8),
            3 => {
                let n = src.len(12).min(t.len() - i);
                t.drain(i..i + n);
            }
            4 => {
                let tok = src.pick(&TOKENS).as_bytes().to_vec();
                t.splice(i..i, tok);
            }
            _ => {
                let n = src.len(40).min(t.len() - i);
                let part = t[i..i + n].to_vec();
                let k = src.idx(t.len());
                t.splice(k..k, part);
            }
        }
    }
}

fn finish(text: &[u8], imports: &[(PathBuf, String)], dir: &Path, src: &mut Src, want: bool) -> Case {
    let path = dir.join("case.json5");
    std::fs::write(&path, text).expect("schema file");
    let out = dir.join("out");
    let _ = std::fs::remove_dir_all(&out);
    std::fs::create_dir_all(&out).expect("scratch directory");
    let flags = if src.one_in(4) { src.below(8) } else { 0 };
    let show = || String::from_utf8_lossy(text).chars().take(3000).collect::<String>();
    let far = guarded(|| drive(imports, &path, &out, flags)).map_err(|e| format!("{}: {}", e, show()))?;
    Ok(Info {
        key: if far > 0 { Some(hash_bytes(text)) } else { None },
        classes: vec![["not loaded", "loaded and refused", "accepted", "accepted and generated"][far as usize]],
        sample: if want { show() } else { String::new() },
    })
}

fn base(src: &mut Src, dir: &Path) -> (J, Vec<(PathBuf, String)>) {
    let prof = profile(src);
    let w = gen::world(src, &prof);
    let me = src.idx(w.protos.len());
    let mut imports = vec![];
    for (i, p) in w.protos[..me].iter().enumerate() {
        let path = dir.join(format!("i{}.json5", i));
        std::fs::write(&path, p.to_json().text()).expect("schema file");
        imports.push((path, format!("super::{}", p.name)));
    }
    (w.protos[me].to_json(), imports)
}

fn trees(root: &Path, src: &mut Src, want: bool) -> Case {
    let dir = scratch(root);
    let (mut j, imports) = base(src, &dir);
    let path = dir.join("try.json5");
    for _ in 0..1 + src.below(6) {
        let last = j.clone();
        mutate(&mut j, src);
        // Most changes which do not load say nothing more than the deserialiser: they are undone.
        std::fs::write(&path, j.text()).expect("schema file");
        if !src.one_in(8) && !matches!(guarded(|| Ok(Loader::new().load(&path).is_ok())), Ok(true)) {
            j = last;
        }
    }
    let mut t = j.text().into_bytes();
    if src.one_in(12) {
        scramble(&mut t, src);
    }
    finish(&t, &imports, &dir, src, want)
}

fn texts(root: &Path, src: &mut Src, want: bool) -> Case {
    let dir = scratch(root);
    let (j, imports) = base(src, &dir);
    let mut t = j.text().into_bytes();
    scramble(&mut t, src);
    finish(&t, &imports, &dir, src, want)
}

fn soup(root: &Path, src: &mut Src, want: bool) -> Case {
    let dir = scratch(root);
    let mut t: Vec<u8> = vec![];
    let whole = src.bool();
    if whole {
        t.extend_from_slice(b"{name:'q'");
    }
    for _ in 0..src.below(if whole { 6 } else { 40 }) {
        if whole {
            // A member with a plausible or random value.
            t.extend_from_slice(format!(",{}:", src.pick(&KEYS)).as_bytes());
            t.extend_from_slice((*src.pick(&["[]", "{}", "null", "''", "'little'", "'big'", "1", "[{}]", "[{name:'a'}]", "[{name:'a',fields:[]}]", "[{name:'a',variants:{}}]", "[{name:'a',discriminant:'a.b',cases:[]}]", "[null]", "true", "[[]]"])).as_bytes());
            continue;
        }
        match src.below(8) {
            0 => t.push(src.below(256) as u8),
            1 | 2 => t.extend_from_slice(src.pick(&KEYS).as_bytes()),
            _ => t.extend_from_slice(src.pick(&TOKENS).as_bytes()),
        }
    }
    if whole {
        t.push(b'}');
    }
    finish(&t, &[], &dir, src, want)
}

/// Chains of types, each made of several of the one before: sizes and sharing grow without end, the text does not.
fn chains(root: &Path, src: &mut Src, want: bool) -> Case {
    let dir = scratch(root);
    let len = src.range(1, 70);
    let width = src.range(1, 3) as usize;
    let bits = *src.pick(&[0u64, 1, 8, 16, 64]);
    let field = |i: usize, info: J| obj(vec![("name", s(format!("f{}", i))), ("info", info)]);
    let mut structs = vec![obj(vec![("name", s("S0")), ("fields", J::Arr(if bits == 0 { vec![] } else { vec![field(0, obj(vec![("type", s("unsigned")), ("bits", n(bits))]))] }))])];
    let deep = src.bool();
    for i in 1..len {
        if !deep {
            break;
        }
        structs.push(obj(vec![("name", s(format!("S{}", i))), ("fields", J::Arr((0..width).map(|k| field(k, obj(vec![("type", s("struct")), ("item_type", s(format!("S{}", i - 1)))]))).collect()))]));
    }
    let first = match src.below(5) {
        0 => obj(vec![("type", s("item")), ("item_type", s(format!("S{}", structs.len() - 1)))]),
        1 => obj(vec![("type", s("string"))]),
        2 => obj(vec![("type", s("payload"))]),
        3 => obj(vec![("type", s("list")), ("max_len", n(3)), ("item_type", s("S0"))]),
        _ => obj(vec![("type", s("item")), ("item_type", s("S0"))]),
    };
    let mut msgs = vec![obj(vec![("name", s("M0")), ("fields", J::Arr(vec![field(0, first)]))])];
    for i in 1..len {
        let mut fs = vec![];
        for k in 0..width {
            let item = s(format!("M{}", i - 1));
            let mut f = field(k, if src.one_in(8) { obj(vec![("type", s("list")), ("max_len", n(3)), ("item_type", item)]) } else { obj(vec![("type", s("item")), ("item_type", item)]) });
            if src.one_in(4) {
                f.set("optional", J::Bool(true));
            }
            fs.push(f);
        }
        msgs.push(obj(vec![("name", s(format!("M{}", i))), ("fields", J::Arr(fs))]));
    }
    let path = format!("S{}{}", structs.len() - 1, ".f0".repeat(structs.len()));
    let mut o = vec![("name", s("chain")), ("structs", J::Arr(structs))];
    if bits > 0 && src.bool() {
        o.push(("unions", J::Arr(vec![obj(vec![("name", s("U")), ("discriminant", s(path)), ("cases", J::Arr(vec![obj(vec![("name", s("A")), ("case", s("1"))])]))])])));
    }
    o.push(("messages", J::Arr(msgs)));
    finish(obj(o).text().as_bytes(), &[], &dir, src, want)
}

/// Text nested at any depth, loaded on the stack of a usual thread; what is too deep must be refused, not end the process.
fn nests(root: &Path, src: &mut Src, want: bool) -> Case {
    let dir = scratch(root);
    let depth = (1u64 << src.below(17)) + src.below(1 << 12);
    let (open, close) = *src.pick(&[("[", "]"), ("{a:", "}"), ("[{b:", "}]"), ("[1,", "]"), ("{'[':", "}"), ("[/*]*/", "]"), ("{\"\\\"\":[", "]}"), ("[//]\n", "]")]);
    let mut inner = open.repeat(depth as usize);
    inner.push_str(*src.pick(&["1", "", "'x'", "null"]));
    match src.below(4) {
        0 => (),
        1 => inner.push_str(&close.repeat(depth as usize / 2)),
        _ => inner.push_str(&close.repeat(depth as usize)),
    }
    let text = match src.below(8) {
        0 => inner,
        1 => format!("{{name:'q',extra:{}}}", inner),
        2 => format!("{{extra:{},name:'q'}}", inner),
        3 => format!("{{name:'q',structs:[{{name:'A',fields:[{{name:'b',info:{{type:'unsigned',bits:8,x:{}}}}}]}}]}}", inner),
        4 => format!("{{name:'q',structs:[{{name:'A',fields:[{{name:'b',info:{{x:{},type:'unsigned',bits:8}}}}]}}]}}", inner),
        5 => format!("{{name:'q',structs:[{{name:'A',fields:[{{name:'b',info:{{type:'unsigned',bits:8}},view:{{y:{},type:'none'}}}}]}}]}}", inner),
        6 => format!("{{name:'q',messages:[{{name:'A',fields:[{{name:'b',info:{{type:'string',max_len:{}}}}}]}}]}}", inner),
        _ => format!("{{name:'q',enums:[{{name:'A',variants:{{a:{}}}}}]}}", inner),
    };
    let path = dir.join("case.json5");
    std::fs::write(&path, &text).expect("schema file");
    let (size, import) = (if src.bool() { 8 << 20 } else { 2 << 20 }, src.bool());
    let r = std::thread::Builder::new().stack_size(size).spawn(move || {
        guarded(|| {
            let mut l = Loader::new();
            Ok(if import { l.import(&path, "super::q") } else { l.load(&path) }.is_ok())
        })
    }).expect("thread").join().expect("thread");
    let ok = r.map_err(|e| format!("{}: {} levels of {:?}", e, depth, open))?;
    Ok(Info {
        key: Some(hash_bytes(text.as_bytes())),
        classes: vec![if ok { "loaded" } else { "refused" }, if depth > 10_000 { "more than 10000 levels" } else { "up to 10000 levels" }],
        sample: if want { format!("{} levels of {:?} in {}", depth, open, text.chars().take(100).collect::<String>()) } else { String::new() },
    })
}

pub fn parts(env: &Env) -> Vec<Part> {
    let mk = |name: &'static str, q: u64, t: u64, f: fn(&Path, &mut Src, bool) -> Case| {
        let d = env.work.join(name);
        std::fs::create_dir_all(&d).expect("scratch directory");
        part(name, (q, t), move |src: &mut Src, want| f(&d, src, want))
    };
    vec![mk("trees", 20_000, 800_000, trees), mk("texts", 8000, 300_000, texts), mk("bytes", 8000, 300_000, soup), mk("chains", 800, 8000, chains), mk("nests", 2000, 20_000, nests)]
}

/// A change which keeps the identifiers: numbers, flags, references, order, kinds of fields.
fn soft(j: &mut J, src: &mut Src) {
    let ps = all_places(j);
    let keyed = |k: &[&str]| -> Vec<usize> { (0..ps.len()).filter(|q| k.contains(&ps[*q].key())).collect() };
    let names: Vec<String> = keyed(&["name", "item_type", "on", "discriminant"]).iter().filter_map(|q| at(&mut j.clone(), &ps[*q].path).str().map(|v| v.to_string())).collect();
    match src.weighted(&[5, 3, 3, 3, 3, 2]) {
        0 => {
            let v = keyed(&["bits", "max_len", "array_len", "min", "max", "multiplier", "case"]);
            if let Some(q) = (!v.is_empty()).then(|| *src.pick(&v)) {
                let x = at(j, &ps[q].path);
                let num = number(src);
                *x = match x {
                    J::Str(_) => s(num.text()),
                    _ => num,
                };
            }
        }
        1 => {
            let v = keyed(&["item_type", "on", "discriminant"]);
            if let Some(q) = (!v.is_empty()).then(|| *src.pick(&v)) {
                let a = src.pick(&names).clone();
                let b = src.pick(&names).clone();
                *at(j, &ps[q].path) = if ps[q].key() == "discriminant" { s(format!("{}.{}", a, b)) } else { s(a) };
            }
        }
        2 => {
            let arrays: Vec<usize> = (0..ps.len()).filter(|q| matches!(at(j, &ps[*q].path), J::Arr(_))).collect();
            if let Some(q) = (!arrays.is_empty()).then(|| *src.pick(&arrays)) {
                if let J::Arr(v) = at(j, &ps[q].path) {
                    if !v.is_empty() {
                        let i = src.idx(v.len());
                        match src.below(3) {
                            0 => {
                                v.remove(i);
                            }
                            1 => {
                                let k = src.idx(v.len());
                                v.swap(i, k);
                            }
                            _ => {
                                let mut x = v[i].clone();
                                if x.get("name").is_some() {
                                    x.set("name", s(format!("q{}", src.below(1 << 20))));
                                    v.push(x);
                                }
                            }
                        }
                    }
                }
            }
        }
        3 => {
            // The value of another place with that key.
            let v = keyed(&["info", "view", "fields", "optional", "array_len", "endianness", "variants", "bits", "max_len"]);
            if let Some(q) = (!v.is_empty()).then(|| *src.pick(&v)) {
                let same = keyed(&[ps[q].key()]);
                let o = *src.pick(&same);
                let x = at(j, &ps[o].path).clone();
                *at(j, &ps[q].path) = x;
            }
        }
        4 => {
            let infos = keyed(&["info", "view"]);
            if let Some(q) = (!infos.is_empty()).then(|| *src.pick(&infos)) {
                let t = src.pick(&names).clone();
                let on = src.pick(&names).clone();
                let (a, b) = (number(src), number(src));
                *at(j, &ps[q].path) = match src.below(12) {
                    0 => obj(vec![("type", s("signed")), ("bits", a)]),
                    1 => obj(vec![("type", s("unsigned")), ("bits", a)]),
                    2 => obj(vec![("type", s("float")), ("bits", a)]),
                    3 => obj(vec![("type", s("boolean")), ("bits", a)]),
                    4 => obj(vec![("type", s("struct")), ("item_type", s(t))]),
                    5 => obj(vec![("type", s("enum")), ("name", s(t))]),
                    6 => obj(vec![("type", s("float-range")), ("min", a), ("max", b)]),
                    7 => obj(vec![("type", s("float-multiplier")), ("multiplier", a)]),
                    8 => obj(vec![("type", s("item")), ("item_type", s(t))]),
                    9 => obj(vec![("type", s("list")), ("max_len", a), ("item_type", s(t))]),
                    10 => obj(vec![("type", s("union")), ("on", s(on)), ("item_type", s(t))]),
                    _ => obj(vec![("type", s("payload"))]),
                };
            }
        }
        _ => {
            // An attribute more or less.
            let v = keyed(&["info"]);
            if let Some(q) = (!v.is_empty()).then(|| *src.pick(&v)) {
                let parent = &ps[q].path[..ps[q].path.len() - 1];
                let num = number(src);
                let f = at(j, parent);
                match src.below(5) {
                    0 => f.set("optional", J::Bool(src.bool())),
                    1 => f.set("array_len", num),
                    2 => {
                        if let J::Obj(o) = f {
                            o.retain(|x| x.0 != "array_len");
                        }
                    }
                    3 => {
                        if let J::Obj(o) = f {
                            o.retain(|x| x.0 != "view");
                        }
                    }
                    _ => f.set("view", obj(vec![("type", s("transmute"))])),
                }
            }
        }
    }
}

/// Work on the machinery: compiles the mutants which are accepted.
pub fn explore(env: &Env, count: usize) {
    use crate::pipeline::{self, Case};
    let jobs: Vec<usize> = (0..count).collect();
    let mods: Vec<Option<(usize, String, String)>> = crate::env::parallel(env.jobs, jobs, |_, i| {
        let i = *i;
        let mut src = Src::random(oracle::tape::mix(env.seed * 1000003 + i as u64));
        let mut p = Profile::everything();
        p.exotic = false;
        p.structs = (1, 4);
        p.msgs = (0, 4);
        let w = gen::world(&mut src, &p);
        let dir = env.work.join(format!("m{}", i));
        let files = pipeline::write_schemas(&w, &dir.join("schema"));
        let last = files.len() - 1;
        let mut j = w.protos[last].to_json();
        let mut changed = 0;
        for _ in 0..20 {
            let old = j.clone();
            soft(&mut j, &mut src);
            if j == old {
                continue;
            }
            std::fs::write(&files[last].1, j.text()).unwrap();
            if pipeline::compile(&files, last).is_err() {
                j = old;
            } else {
                changed += 1;
                if changed > 4 {
                    break;
                }
            }
        }
        std::fs::write(&files[last].1, j.text()).unwrap();
        println!("# {}", changed);
        let um = match pipeline::generate_with(&files, &dir.join("out"), &pipeline::full) {
            Ok(v) => v,
            Err(e) => {
                println!("{} {}: {}", i, e, j.text());
                return None;
            }
        };
        Some((i, pipeline::module(&Case::new(i, w), &um), j.text()))
    });
    let mods: Vec<_> = mods.into_iter().flatten().collect();
    let chunks: Vec<Vec<(usize, String, String)>> = mods.chunks(12).map(|c| c.to_vec()).collect();
    crate::env::parallel(env.jobs, chunks, |k, c| {
        let comp = |m: &str, tag: &str| {
            let src = env.work.join(format!("x{}.rs", tag));
            std::fs::write(&src, m).unwrap();
            pipeline::rustc(env, &src, &src.with_extension("rmeta"), true)
        };
        let all: String = c.iter().map(|v| &*v.1).collect();
        if comp(&all, &format!("all{}", k)).is_err() {
            for (i, m, j) in c.iter() {
                if let Err(e) = comp(m, &format!("{}", i)) {
                    println!("{} does not compile: {}\n   {}", i, e, j);
                }
            }
        }
    });
}
