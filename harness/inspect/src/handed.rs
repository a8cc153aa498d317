//! G01: what a generator is handed, in-process.

use crate::drive::{part, Case, Info, Part};
use crate::env::Env;
use bp3d_protoc::compiler::message::{FieldType, Message, Referenced};
use bp3d_protoc::compiler::r#enum::Enum;
use bp3d_protoc::compiler::structure::{Field, FieldView, FixedFieldType, Location, Structure};
use bp3d_protoc::compiler::union::Union;
use bp3d_protoc::compiler::Protocol;
use bp3d_protoc::gen::{File, Generator};
use bp3d_protoc::util::SimpleImportSolver;
use bp3d_protoc::Loader;
use oracle::gen::{self, Profile};
use oracle::resolve::*;
use oracle::schema::*;
use oracle::tape::{hash_bytes, Src};
use std::cell::RefCell;
use std::collections::{BTreeMap, BTreeSet};
use std::path::{Path, PathBuf};

pub const RULE: &str = "a case compiles a random set of protocols which import from each other, loads some of them in any order, generates with a generator of our own, and compares every member of every compiled protocol it is handed with the declarations; non-trivial: a loaded protocol declares a structure, union or message with fields; distinct by protocols and loading order";

thread_local! {
    static HANDED: RefCell<Vec<Protocol>> = Default::default();
    static DIR: RefCell<Option<PathBuf>> = Default::default();
}

struct Keep;

impl Generator for Keep {
    type Error = std::fmt::Error;

    fn generate(proto: Protocol) -> Result<Vec<File>, Self::Error> {
        HANDED.with(|h| h.borrow_mut().push(proto));
        Ok(vec![])
    }
}

/// The scratch directory of this thread.
fn scratch(root: &Path) -> PathBuf {
    DIR.with(|d| {
        d.borrow_mut()
            .get_or_insert_with(|| {
                static NEXT: std::sync::atomic::AtomicU64 = std::sync::atomic::AtomicU64::new(0);
                let p = root.join(format!("t{}-{}", std::process::id(), NEXT.fetch_add(1, std::sync::atomic::Ordering::SeqCst)));
                std::fs::create_dir_all(&p).expect("scratch directory");
                p
            })
            .clone()
    })
}

macro_rules! same {
    ($a:expr, $b:expr, $($what:tt)+) => {{
        let (a, b) = (&$a, &$b);
        if a != b {
            return Err(format!("{}: {:?}, expected {:?}", format!($($what)+), a, b));
        }
    }};
}

type R = Result<(), String>;

fn ty(t: &FixedFieldType) -> Ty {
    match t {
        FixedFieldType::Int8 => Ty::I8,
        FixedFieldType::Int16 => Ty::I16,
        FixedFieldType::Int32 => Ty::I32,
        FixedFieldType::Int64 => Ty::I64,
        FixedFieldType::UInt8 => Ty::U8,
        FixedFieldType::UInt16 => Ty::U16,
        FixedFieldType::UInt32 => Ty::U32,
        FixedFieldType::UInt64 => Ty::U64,
        FixedFieldType::Float32 => Ty::F32,
        FixedFieldType::Float64 => Ty::F64,
        FixedFieldType::Bool => Ty::Bool,
    }
}

fn is_type(t: &FixedFieldType, want: Ty, at: &str) -> R {
    same!(ty(t), want, "{}: type", at);
    same!(t.get_byte_size(), want.size(), "{}: bytes of the type", at);
    same!(t.is_signed(), want.is_signed(), "{}: signed", at);
    same!(t.is_float(), want.is_float(), "{}: float", at);
    Ok(())
}

fn location(l: &Location, off: u64, bits: u64, at: &str) -> R {
    same!(l.byte_offset as u64, off / 8, "{}: first byte", at);
    same!(l.bit_offset as u64, off % 8, "{}: first bit", at);
    same!(l.bit_size as u64, bits, "{}: bits", at);
    same!(l.byte_size as u64, (off % 8 + bits + 7) / 8, "{}: bytes touched", at);
    Ok(())
}

fn order(e: &dyn std::fmt::Debug, want: Endian, at: &str) -> R {
    same!(format!("{:?}", e).to_lowercase(), format!("{:?}", want).to_lowercase(), "{}: byte order", at);
    Ok(())
}

fn near(a: f64, b: f64, at: &str) -> R {
    if a != b && (a - b).abs() > 1e-9 * a.abs().max(b.abs()) {
        return Err(format!("{}: {:?}, expected {:?}", at, a, b));
    }
    Ok(())
}

fn enumeration(e: &Enum, want: &REnum) -> R {
    let at = format!("enum {}", want.name);
    same!(e.name, want.name, "{}: name", at);
    let sorted = |mut v: Vec<(String, u64)>| {
        v.sort();
        v
    };
    same!(sorted(e.variants.iter().map(|v| (v.0.clone(), v.1 as u64)).collect()), sorted(want.variants.clone()), "{}: variants", at);
    same!(sorted(e.variants_map.iter().map(|v| (v.0.clone(), *v.1 as u64)).collect()), sorted(want.variants.clone()), "{}: map of variants", at);
    same!(e.largest as u64, want.variants.iter().map(|v| v.1).max().unwrap(), "{}: largest value", at);
    Ok(())
}

fn structure(s: &Structure, want: &RStruct) -> R {
    let at = format!("structure {}", want.name);
    same!(s.name, want.name, "{}: name", at);
    same!(s.bit_size as u64, want.bits, "{}: bits", at);
    same!(s.byte_size, want.size, "{}: bytes", at);
    same!(s.fields.iter().map(|f| f.name()).collect::<Vec<_>>(), want.fields.iter().map(|f| &*f.name).collect::<Vec<_>>(), "{}: fields", at);
    for (f, w) in s.fields.iter().zip(&want.fields) {
        let at = format!("{}.{}", want.name, w.name);
        location(f.loc(), w.off, w.bits(), &at)?;
        same!(f.as_fixed().is_some(), matches!(w.f, RF::Scalar(_)), "{}: is a plain field", at);
        same!(f.loc().is_byte_aligned(), w.off % 8 == 0 && w.bits() % 8 == 0, "{}: is byte-aligned", at);
        match (f, &w.f) {
            (Field::Fixed(f), RF::Scalar(w)) => {
                order(&f.endianness, w.endian, &at)?;
                is_type(&f.ty, w.ty, &at)?;
                same!(ty(&f.loc.get_unsigned_integer_type()), raw_ty(w.bits), "{}: raw type", at);
                let max = u64::MAX >> (64 - w.bits);
                match (&f.view, &w.view) {
                    (FieldView::Enum(e), RView::Enum(x)) => enumeration(e, x)?,
                    (FieldView::Float { a, b, a_inv, b_inv }, RView::Range(lo, hi)) => {
                        let step = (hi - lo) / max as f64;
                        near(*a, step, &format!("{}: step", at))?;
                        near(*b, *lo, &format!("{}: least value", at))?;
                        near(*a_inv, 1.0 / step, &format!("{}: inverse of the step", at))?;
                        near(*b_inv, -lo / step, &format!("{}: raw value of zero", at))?;
                    }
                    (FieldView::Float { a, b, a_inv, b_inv }, RView::Mult(m)) => {
                        near(*a, *m, &format!("{}: step", at))?;
                        near(*b, 0.0, &format!("{}: least value", at))?;
                        near(*a_inv, 1.0 / m, &format!("{}: inverse of the step", at))?;
                        near(*b_inv, 0.0, &format!("{}: raw value of zero", at))?;
                    }
                    (FieldView::SignedCast(m), RView::None) if w.ty.is_signed() => {
                        same!(*m as u64, max >> 1, "{}: largest positive value", at);
                        same!(w.bits == w.ty.size() as u64 * 8, false, "{}: fills its type", at);
                    }
                    (FieldView::None, RView::None) => same!(w.ty.is_signed() || w.ty.is_float() || w.ty == Ty::Bool, false, "{}: needs a view", at),
                    (FieldView::Transmute, RView::None) => same!(w.ty == Ty::Bool || w.bits == w.ty.size() as u64 * 8, true, "{}: may be transmuted", at),
                    (v, x) => return Err(format!("{}: view {:?}, expected {:?}", at, v, x)),
                }
                same!(f.view.is_transmute(), matches!(f.view, FieldView::None | FieldView::Transmute), "{}: is transmuted", at);
            }
            (Field::Array(f), RF::Array(w)) => {
                order(&f.endianness, w.endian, &at)?;
                is_type(&f.ty, w.ty, &at)?;
                same!(f.array_len, w.len, "{}: items", at);
                same!(f.item_bit_size() as u64, w.item_bits, "{}: bits of an item", at);
            }
            (Field::Struct(f), RF::Nested(w)) => structure(&f.r, w)?,
            (f, x) => return Err(format!("{}: {:?}, expected {:?}", at, f, x)),
        }
    }
    Ok(())
}

fn reference(r: &Referenced, want: &RRef, at: &str) -> R {
    match (r, want) {
        (Referenced::Struct(a), RRef::Struct(b)) => {
            same!(r.name(), &*b.name, "{}: referenced type", at);
            structure(a, b)
        }
        (Referenced::Message(a), RRef::Msg(b)) => {
            same!(r.name(), &*b.name, "{}: referenced type", at);
            message(a, b)
        }
        _ => Err(format!("{}: references {:?}, expected {:?}", at, r, want)),
    }
}

fn union(u: &Union, want: &RUnion) -> R {
    let at = format!("union {}", want.name);
    same!(u.name, want.name, "{}: name", at);
    structure(&u.discriminant.root, &want.root)?;
    same!(u.discriminant.index_list, want.path, "{}: path of the discriminant", at);
    same!(u.discriminant.leaf_index, *want.path.last().unwrap(), "{}: last step of the discriminant", at);
    let mut names = vec![want.root.name.clone()];
    let mut off = 0;
    for (i, (f, leaf)) in u.discriminant.iter().enumerate() {
        names.push(f.name().to_string());
        off += (f.loc().byte_offset * 8 + f.loc().bit_offset) as u64;
        same!(leaf, i + 1 == want.path.len(), "{}: step {} is the last one", at, i);
    }
    same!(names.join("."), want.root.path_name(&want.path), "{}: discriminant", at);
    same!(off, want.leaf_off, "{}: first bit of the discriminant", at);
    let leaf = u.discriminant.get_leaf();
    same!(&leaf.name, names.last().unwrap(), "{}: field of the discriminant", at);
    is_type(&leaf.ty, want.leaf.ty, &at)?;
    same!(leaf.loc.bit_size as u64, want.leaf.bits, "{}: bits of the discriminant", at);
    same!(u.size.is_dyn_sized, want.dynsized, "{}: varies in size", at);
    same!(u.size.is_element_dyn_sized, want.elemdyn, "{}: its elements vary in size", at);
    let show = |n: &str, v: u64, i: bool| format!("{} = {} {}", n, v, if i { "with content" } else { "alone" });
    let got: Vec<String> = u.cases.iter().map(|c| show(&c.name, c.case as u64, c.item_type.is_some())).collect();
    same!(got, want.cases.iter().map(|c| show(&c.name, c.raw, c.item.is_some())).collect::<Vec<_>>(), "{}: cases", at);
    for (c, w) in u.cases.iter().zip(&want.cases) {
        if let (Some(a), Some(b)) = (&c.item_type, &w.item) {
            reference(a, b, &format!("{}.{}", want.name, w.name))?;
        }
    }
    Ok(())
}

fn prefix(t: &FixedFieldType, bytes: usize, at: &str) -> R {
    let want = match bytes {
        1 => Ty::U8,
        2 => Ty::U16,
        4 => Ty::U32,
        _ => Ty::U64,
    };
    is_type(t, want, &format!("{}: length", at))
}

fn message(m: &Message, want: &RMsg) -> R {
    let at = format!("message {}", want.name);
    same!(m.name, want.name, "{}: name", at);
    same!(m.size.is_dyn_sized, want.dynsized, "{}: varies in size", at);
    same!(m.size.is_element_dyn_sized, want.elemdyn, "{}: its elements vary in size", at);
    same!(m.fields.iter().map(|f| &*f.name).collect::<Vec<_>>(), want.fields.iter().map(|f| &*f.name).collect::<Vec<_>>(), "{}: fields", at);
    for (f, w) in m.fields.iter().zip(&want.fields) {
        let at = format!("{}.{}", want.name, w.name);
        same!(f.optional, w.optional, "{}: optional", at);
        same!(f.size.is_dyn_sized, w.dynsized, "{}: varies in size", at);
        same!(f.size.is_element_dyn_sized, w.elemdyn, "{}: its elements vary in size", at);
        same!(f.ty.is_message_reference(), matches!(w.kind, RMK::Msg(_)), "{}: references a message", at);
        // A scalar keeps the byte order of its structure, everything else has that of the protocol.
        order(&f.endianness, if let RMK::Flat(_, e) = &w.kind { *e } else { want.endian }, &at)?;
        match (&f.ty, &w.kind) {
            (FieldType::Fixed(f), RMK::Flat(t, _)) => is_type(&f.ty, *t, &at)?,
            (FieldType::Ref(r), RMK::Struct(s)) => reference(r, &RRef::Struct(s.clone()), &at)?,
            (FieldType::Ref(r), RMK::Msg(m)) => reference(r, &RRef::Msg(m.clone()), &at)?,
            (FieldType::NullTerminatedString, RMK::Nts) | (FieldType::Payload, RMK::Payload) => (),
            (FieldType::VarcharString(v), RMK::Varchar(p)) => prefix(&v.ty, *p, &at)?,
            (FieldType::Array(v), RMK::Array(p, s)) => {
                prefix(&v.ty, *p, &at)?;
                structure(&v.item_type, s)?;
            }
            (FieldType::List(v), RMK::List(p, m)) => {
                prefix(&v.ty, *p, &at)?;
                message(&v.item_type, m)?;
            }
            (FieldType::Union(v), RMK::Union(on, u)) => {
                same!(v.on_index, *on, "{}: index of the selecting field", at);
                same!(v.on_name, want.fields[*on].name, "{}: selecting field", at);
                union(&v.r, u)?;
            }
            (a, b) => return Err(format!("{}: {:?}, expected {:?}", at, a, b)),
        }
    }
    Ok(())
}

/// `paths`: the module each protocol is imported under.
fn protocol(p: &Protocol, w: &World, res: &Res, i: usize, paths: &[String]) -> R {
    let (decl, want) = (&w.protos[i], &res.protos[i]);
    same!(p.name, want.name, "name of the protocol");
    order(&p.endianness, decl.endian.unwrap_or(Endian::Little), &want.name)?;
    same!(p.enums.iter().map(|v| &*v.name).collect::<Vec<_>>(), want.enums.iter().map(|v| &*v.name).collect::<Vec<_>>(), "{}: enums", want.name);
    same!(p.structs.iter().map(|v| &*v.name).collect::<Vec<_>>(), want.structs.iter().map(|v| &*v.name).collect::<Vec<_>>(), "{}: structures", want.name);
    same!(p.unions.iter().map(|v| &*v.name).collect::<Vec<_>>(), want.unions.iter().map(|v| &*v.name).collect::<Vec<_>>(), "{}: unions", want.name);
    same!(p.messages.iter().map(|v| &*v.name).collect::<Vec<_>>(), want.msgs.iter().map(|v| &*v.name).collect::<Vec<_>>(), "{}: messages", want.name);
    for (a, b) in p.enums.iter().zip(&want.enums) {
        enumeration(a, b)?;
    }
    for (a, b) in p.structs.iter().zip(&want.structs) {
        structure(a, b)?;
    }
    for (a, b) in p.unions.iter().zip(&want.unions) {
        union(a, b)?;
    }
    for (a, b) in p.messages.iter().zip(&want.msgs) {
        message(a, b)?;
    }
    // Each type in scope is known by its name, whether declared or imported.
    let mut scope: BTreeMap<&str, Option<String>> = BTreeMap::new();
    for (from, t) in &decl.imports {
        let home = gen::home(w, from, t).ok_or("an import without a home")?;
        scope.insert(t, Some(format!("{}::{}", paths[home], t)));
    }
    for e in &want.enums {
        scope.insert(&e.name, None);
    }
    want.structs.iter().for_each(|v| drop(scope.insert(&v.name, None)));
    want.unions.iter().for_each(|v| drop(scope.insert(&v.name, None)));
    want.msgs.iter().for_each(|v| drop(scope.insert(&v.name, None)));
    let mut kinds: [BTreeSet<&str>; 4] = Default::default();
    for (t, path) in &scope {
        let at = format!("{}: type {}", want.name, t);
        same!(p.type_path_by_name.get_imported(t), path.as_deref(), "{}: imported path", at);
        same!(p.type_path_by_name.get(t), path.as_deref().unwrap_or(t), "{}: path", at);
        same!(p.type_path_by_name.get_with_default_prefix(t, "super::"), path.clone().unwrap_or(format!("super::{}", t)), "{}: path with a prefix", at);
        if let Some(x) = want.find_enum(t) {
            kinds[0].insert(t);
            enumeration(p.enums_by_name.get(*t).ok_or(format!("{}: unknown enum", at))?, x)?;
        } else if let Some(x) = want.find_struct(t) {
            kinds[1].insert(t);
            structure(p.structs_by_name.get(*t).ok_or(format!("{}: unknown structure", at))?, x)?;
        } else if let Some(x) = want.find_union(t) {
            kinds[2].insert(t);
            union(p.unions_by_name.get(*t).ok_or(format!("{}: unknown union", at))?, x)?;
        } else if let Some(x) = want.find_msg(t) {
            kinds[3].insert(t);
            message(p.messages_by_name.get(*t).ok_or(format!("{}: unknown message", at))?, x)?;
        }
    }
    same!(p.enums_by_name.keys().map(|v| &**v).collect::<BTreeSet<_>>(), kinds[0], "{}: enums in scope", want.name);
    same!(p.structs_by_name.keys().map(|v| &**v).collect::<BTreeSet<_>>(), kinds[1], "{}: structures in scope", want.name);
    same!(p.unions_by_name.keys().map(|v| &**v).collect::<BTreeSet<_>>(), kinds[2], "{}: unions in scope", want.name);
    same!(p.messages_by_name.keys().map(|v| &**v).collect::<BTreeSet<_>>(), kinds[3], "{}: messages in scope", want.name);
    same!(p.type_path_by_name.get_imported("no such type"), None, "{}: path of an unknown type", want.name);
    same!(p.type_path_by_name.get("no such type"), "no such type", "{}: path of an unknown type", want.name);
    Ok(())
}

fn case(root: &Path, src: &mut Src, prof: &Profile, want: bool) -> Case {
    let mut w = gen::world(src, prof);
    // Changes which leave it well-formed.
    let changed = src.one_in(2);
    if changed {
        for _ in 0..src.range(1, 6) {
            let mut c = w.clone();
            gen::mutate_world(&mut c, src);
            if gen::sane(&c) {
                w = c;
            }
        }
    }
    let res = match Res::new(&w) {
        Ok(v) => v,
        Err(_) => return Ok(Info { key: None, classes: vec!["not resolved"], sample: String::new() }),
    };
    let dir = scratch(root);
    let files: Vec<PathBuf> = w.protos.iter().enumerate().map(|(i, p)| {
        let f = dir.join(format!("{}.json5", i));
        std::fs::write(&f, p.to_json().text()).expect("schema file");
        f
    }).collect();
    let paths: Vec<String> = w.protos.iter().enumerate().map(|(i, p)| format!("{}{}", src.pick(&["super::", "crate::x::", "::ext::y", ""]), if src.bool() { p.name.clone() } else { format!("m{}", i) })).collect();
    // Which protocols are loaded, in which order; a protocol may be loaded more than once.
    let mut loads: Vec<usize> = (0..files.len()).filter(|_| src.below(3) != 0).collect();
    if loads.is_empty() {
        loads.push(src.idx(files.len()));
    }
    if src.one_in(2) {
        for i in (1..loads.len()).rev() {
            loads.swap(i, src.idx(i + 1));
        }
    }
    if src.one_in(4) {
        loads.push(src.idx(files.len()));
    }
    let out = dir.join("out");
    std::fs::create_dir_all(&out).expect("output directory");
    HANDED.with(|h| h.borrow_mut().clear());
    let r = oracle::batch::guarded(|| {
        Ok((|| {
            let mut l = Loader::new();
            for (f, p) in files.iter().zip(&paths) {
                l.import(f, p.clone())?;
            }
            for i in &loads {
                l.load(&files[*i])?;
            }
            l.compile(SimpleImportSolver::new("::"))?.generate::<Keep>(&out)
        })())
    });
    let show = || format!("{:?} of {}", loads, w.to_json().text());
    let done = match r {
        Ok(Ok(v)) => v,
        // Acceptance is the matter of other properties.
        Ok(Err(_)) => return Ok(Info { key: None, classes: vec![if changed { "refused after changes" } else { "refused as made" }], sample: String::new() }),
        Err(p) => return Err(format!("a panic: {} ({})", p, show())),
    };
    let handed = HANDED.with(|h| std::mem::take(&mut *h.borrow_mut()));
    let r = (|| {
        let names: Vec<&str> = loads.iter().map(|i| &*w.protos[*i].name).collect();
        same!(handed.iter().map(|p| &*p.name).collect::<Vec<_>>(), names, "protocols handed to the generator");
        same!(done.iter().map(|p| &*p.name).collect::<Vec<_>>(), names, "protocols published");
        for (p, i) in handed.iter().zip(&loads) {
            protocol(p, &w, &res, *i, &paths)?;
        }
        Ok(())
    })();
    r.map_err(|e: String| format!("{} ({})", e, show()))?;
    let mut classes = vec![];
    let l = || loads.iter().map(|i| &w.protos[*i]);
    let mut class = |c, on: bool| if on { classes.push(c) };
    class("several loaded together", loads.len() > 1);
    class("imports", l().any(|p| !p.imports.is_empty()));
    class("imports through a third protocol", l().any(|p| p.imports.iter().any(|(f, t)| gen::home(&w, f, t).map(|h| w.protos[h].name != *f).unwrap_or(false))));
    class("both byte orders", w.protos.iter().any(|p| p.endian == Some(Endian::Big)) && w.protos.iter().any(|p| p.endian != Some(Endian::Big)));
    class("unions", l().any(|p| !p.unions.is_empty()));
    class("messages", l().any(|p| p.msgs.iter().any(|m| !m.fields.is_empty())));
    class("views", l().any(|p| p.structs.iter().any(|s| s.fields.iter().any(|f| f.view.is_some()))));
    let some = l().any(|p| p.structs.iter().any(|s| !s.fields.is_empty()) || !p.unions.is_empty() || p.msgs.iter().any(|m| !m.fields.is_empty()));
    Ok(Info { key: some.then(|| hash_bytes(show().as_bytes())), classes, sample: if want { show() } else { String::new() } })
}

pub fn parts(env: &Env) -> Vec<Part> {
    let root = env.work.clone();
    let sub = |prof: Profile| {
        let root = root.clone();
        move |src: &mut Src, want: bool| case(&root, src, &prof, want)
    };
    let mut all = Profile::everything();
    all.protos = (1, 4);
    all.unions = (0, 3);
    all.huge = 40;
    let mut structs = Profile::structs();
    structs.structs = (2, 9);
    structs.sfields = (0, 16);
    structs.enums = (0, 5);
    structs.huge = 30;
    let mut wide = Profile::everything();
    wide.protos = (4, 7);
    wide.msgs = (2, 8);
    wide.mfields = (0, 10);
    vec![part("everything", (16_000, 300_000), sub(all)), part("structures", (8_000, 150_000), sub(structs)), part("many protocols", (2_000, 40_000), sub(wide))]
}
