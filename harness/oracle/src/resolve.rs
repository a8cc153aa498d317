//! The reference meaning of a schema: layouts, prefix widths and which lists are open-ended,
//! derived from the documented rules only (never from the compiler under test).

use crate::schema::*;
use std::cell::Cell;
use std::collections::HashMap;
use std::rc::Rc;

#[derive(Clone, Copy, Debug, PartialEq, Eq)]
pub enum Ty {
    I8,
    I16,
    I32,
    I64,
    U8,
    U16,
    U32,
    U64,
    F32,
    F64,
    Bool,
}

impl Ty {
    pub fn size(self) -> usize {
        match self {
            Ty::I8 | Ty::U8 | Ty::Bool => 1,
            Ty::I16 | Ty::U16 => 2,
            Ty::I32 | Ty::U32 | Ty::F32 => 4,
            _ => 8,
        }
    }
    pub fn rust(self) -> &'static str {
        match self {
            Ty::I8 => "i8",
            Ty::I16 => "i16",
            Ty::I32 => "i32",
            Ty::I64 => "i64",
            Ty::U8 => "u8",
            Ty::U16 => "u16",
            Ty::U32 => "u32",
            Ty::U64 => "u64",
            Ty::F32 => "f32",
            Ty::F64 => "f64",
            Ty::Bool => "bool",
        }
    }
    pub fn is_signed(self) -> bool {
        matches!(self, Ty::I8 | Ty::I16 | Ty::I32 | Ty::I64)
    }
    pub fn is_float(self) -> bool {
        matches!(self, Ty::F32 | Ty::F64)
    }
}

/// The unsigned type raw accessors use for a field of that many bits.
pub fn raw_ty(bits: u64) -> Ty {
    match bits {
        0..=8 => Ty::U8,
        9..=16 => Ty::U16,
        17..=32 => Ty::U32,
        _ => Ty::U64,
    }
}

#[derive(Clone, Debug)]
pub enum RView {
    None,
    Enum(Rc<REnum>),
    Range(f64, f64),
    Mult(f64),
}

#[derive(Debug)]
pub struct REnum {
    pub proto: usize,
    pub name: String,
    pub variants: Vec<(String, u64)>,
}

#[derive(Clone, Debug)]
pub struct RScalar {
    pub ty: Ty,
    pub bits: u64,
    pub endian: Endian,
    pub view: RView,
}

#[derive(Clone, Debug)]
pub struct RArray {
    pub ty: Ty,
    pub item_bits: u64,
    pub len: usize,
    pub endian: Endian,
}

#[derive(Clone, Debug)]
pub enum RF {
    Scalar(RScalar),
    Array(RArray),
    Nested(Rc<RStruct>),
}

#[derive(Clone, Debug)]
pub struct RField {
    pub name: String,
    /// First bit, from the start of the declaring structure.
    pub off: u64,
    pub f: RF,
}

impl RField {
    pub fn bits(&self) -> u64 {
        match &self.f {
            RF::Scalar(s) => s.bits,
            RF::Array(a) => a.item_bits * a.len as u64,
            RF::Nested(s) => s.bits,
        }
    }
}

#[derive(Debug)]
pub struct RStruct {
    pub proto: usize,
    pub name: String,
    pub bits: u64,
    pub size: usize,
    pub fields: Vec<RField>,
}

/// A scalar or array reached from a structure through nested structures.
#[derive(Clone, Debug)]
pub struct Leaf {
    pub path: Vec<usize>,
    pub off: u64,
    pub f: RF,
}

impl RStruct {
    pub fn leaves(&self) -> Vec<Leaf> {
        let mut out = Vec::new();
        self.collect(&mut vec![], 0, &mut out);
        out
    }
    fn collect(&self, path: &mut Vec<usize>, base: u64, out: &mut Vec<Leaf>) {
        for (i, f) in self.fields.iter().enumerate() {
            path.push(i);
            match &f.f {
                RF::Nested(s) => s.collect(path, base + f.off, out),
                v => out.push(Leaf { path: path.clone(), off: base + f.off, f: v.clone() }),
            }
            path.pop();
        }
    }
    pub fn path_name(&self, path: &[usize]) -> String {
        let mut s = self;
        let mut out = self.name.clone();
        for p in path {
            let f = &s.fields[*p];
            out = format!("{}.{}", out, f.name);
            if let RF::Nested(n) = &f.f {
                s = n;
            }
        }
        out
    }
    /// The scalar a message field of that type is flattened to, if any.
    pub fn flat(&self) -> Option<&RScalar> {
        match self.fields.as_slice() {
            [RField { f: RF::Scalar(s), .. }] if matches!(s.view, RView::None) && s.bits == s.ty.size() as u64 * 8 => Some(s),
            _ => None,
        }
    }
    pub fn trailing_endian(&self) -> Option<Endian> {
        self.fields.iter().filter_map(|f| match &f.f {
            RF::Scalar(s) => Some(s.endian),
            RF::Array(a) => Some(a.endian),
            RF::Nested(s) => s.trailing_endian(),
        }).last()
    }
    pub fn depth(&self) -> usize {
        1 + self.fields.iter().map(|f| match &f.f {
            RF::Nested(s) => s.depth(),
            _ => 0,
        }).max().unwrap_or(0)
    }
}

#[derive(Clone, Debug)]
pub enum RRef {
    Struct(Rc<RStruct>),
    Msg(Rc<RMsg>),
}

#[derive(Debug)]
pub struct RCase {
    pub name: String,
    pub raw: u64,
    pub item: Option<RRef>,
}

#[derive(Debug)]
pub struct RUnion {
    pub proto: usize,
    pub name: String,
    pub root: Rc<RStruct>,
    pub leaf_off: u64,
    pub leaf: RScalar,
    pub path: Vec<usize>,
    pub cases: Vec<RCase>,
    pub dynsized: bool,
    pub elemdyn: bool,
}

impl RUnion {
    pub fn has_lifetime(&self) -> bool {
        self.cases.iter().any(|c| match &c.item {
            None => false,
            Some(RRef::Struct(_)) => true,
            Some(RRef::Msg(m)) => m.has_lifetime(),
        })
    }
}

#[derive(Clone, Debug)]
pub enum RMK {
    Flat(Ty, Endian),
    Struct(Rc<RStruct>),
    Msg(Rc<RMsg>),
    Nts,
    Varchar(usize),
    Array(usize, Rc<RStruct>),
    List(usize, Rc<RMsg>),
    Union(usize, Rc<RUnion>),
    Payload,
}

#[derive(Debug)]
pub struct RMField {
    pub name: String,
    pub optional: bool,
    pub kind: RMK,
    pub dynsized: bool,
    pub elemdyn: bool,
}

#[derive(Debug)]
pub struct RMsg {
    pub proto: usize,
    pub name: String,
    pub endian: Endian,
    pub fields: Vec<RMField>,
    pub embedded: Cell<bool>,
    pub dynsized: bool,
    pub elemdyn: bool,
}

/// How a message ends.
#[derive(Clone, Copy, Debug, PartialEq, Eq)]
pub enum Tail {
    /// Self-delimited.
    Closed,
    /// A list read lazily up to the end of the input.
    Lazy,
    Payload,
}

impl RMsg {
    pub fn has_lifetime(&self) -> bool {
        self.fields.iter().any(|f| match &f.kind {
            RMK::Flat(..) => false,
            RMK::Msg(m) => m.has_lifetime(),
            RMK::Union(_, u) => u.has_lifetime(),
            _ => true,
        })
    }
    pub fn is_sized(&self, i: usize) -> bool {
        self.embedded.get() || i + 1 != self.fields.len()
    }
    pub fn tail(&self) -> Tail {
        match self.fields.last() {
            None => Tail::Closed,
            Some(f) => match &f.kind {
                RMK::Payload => Tail::Payload,
                RMK::List(..) if !self.embedded.get() => Tail::Lazy,
                RMK::Msg(m) => m.tail(),
                RMK::Union(_, u) => {
                    let t: Vec<Tail> = u.cases.iter().map(|c| match &c.item {
                        Some(RRef::Msg(m)) => m.tail(),
                        _ => Tail::Closed,
                    }).collect();
                    if t.contains(&Tail::Payload) {
                        Tail::Payload
                    } else if t.contains(&Tail::Lazy) {
                        Tail::Lazy
                    } else {
                        Tail::Closed
                    }
                }
                _ => Tail::Closed,
            },
        }
    }
    /// The fewest bytes a value takes.
    pub fn min_size(&self) -> usize {
        self.fields.iter().map(|f| if f.optional { 1 } else {
            match &f.kind {
                RMK::Flat(t, _) => t.size(),
                RMK::Struct(s) => s.size,
                RMK::Msg(m) => m.min_size(),
                RMK::Nts => 1,
                RMK::Varchar(p) | RMK::Array(p, _) | RMK::List(p, _) => *p,
                RMK::Union(..) | RMK::Payload => 0,
            }
        }).sum()
    }
    /// True if the message holds a list which an importing protocol may not rely on being read eagerly.
    fn set_embedded(&self, proto: usize) {
        // Messages of other protocols were generated by their own run.
        if self.proto == proto {
            if self.embedded.replace(true) {
                return;
            }
        }
        for f in &self.fields {
            f.set_embedded(proto);
        }
    }
}

impl RMField {
    fn set_embedded(&self, proto: usize) {
        match &self.kind {
            RMK::Msg(m) => m.set_embedded(proto),
            RMK::Union(_, u) => {
                for c in &u.cases {
                    if let Some(RRef::Msg(m)) = &c.item {
                        m.set_embedded(proto);
                    }
                }
            }
            _ => (),
        }
    }
}

#[derive(Default, Debug)]
pub struct RProto {
    pub name: String,
    pub enums: Vec<Rc<REnum>>,
    pub structs: Vec<Rc<RStruct>>,
    pub unions: Vec<Rc<RUnion>>,
    pub msgs: Vec<Rc<RMsg>>,
    enum_by: HashMap<String, Rc<REnum>>,
    struct_by: HashMap<String, Rc<RStruct>>,
    union_by: HashMap<String, Rc<RUnion>>,
    msg_by: HashMap<String, Rc<RMsg>>,
}

impl RProto {
    pub fn find_struct(&self, n: &str) -> Option<&Rc<RStruct>> {
        self.struct_by.get(n)
    }
    pub fn find_msg(&self, n: &str) -> Option<&Rc<RMsg>> {
        self.msg_by.get(n)
    }
    pub fn find_union(&self, n: &str) -> Option<&Rc<RUnion>> {
        self.union_by.get(n)
    }
    pub fn find_enum(&self, n: &str) -> Option<&Rc<REnum>> {
        self.enum_by.get(n)
    }
}

#[derive(Default, Debug)]
pub struct Res {
    pub protos: Vec<RProto>,
}

pub fn prefix_bytes(max: u64) -> usize {
    if max <= 0xFF {
        1
    } else if max <= 0xFFFF {
        2
    } else if max <= 0xFFFF_FFFF {
        4
    } else {
        8
    }
}

pub fn scalar_ty(k: &SKind) -> Option<(Ty, u64)> {
    let pick = |b: u64, v: [Ty; 4]| if b <= 8 { v[0] } else if b <= 16 { v[1] } else if b <= 32 { v[2] } else { v[3] };
    Some(match k {
        SKind::Bool(b) => (Ty::Bool, *b),
        SKind::Unsigned(b) => (pick(*b, [Ty::U8, Ty::U16, Ty::U32, Ty::U64]), *b),
        SKind::Signed(b) => (pick(*b, [Ty::I8, Ty::I16, Ty::I32, Ty::I64]), *b),
        SKind::Float(b) => (if *b == 32 || *b <= 16 { Ty::F32 } else { Ty::F64 }, *b),
        SKind::Struct(_) => return None,
    })
}

impl Res {
    /// Resolves a well-formed world; the error says what is missing (such worlds are not valid schemas).
    pub fn new(w: &World) -> Result<Res, String> {
        let mut res = Res::default();
        for p in &w.protos {
            let r = res.proto(p)?;
            res.protos.push(r);
        }
        Ok(res)
    }

    fn proto(&self, p: &Proto) -> Result<RProto, String> {
        let me = self.protos.len();
        let endian = p.endian.unwrap_or(Endian::Little);
        let mut r = RProto { name: p.name.clone(), ..Default::default() };
        for (from, t) in &p.imports {
            let src = self.protos.iter().find(|x| x.name == *from).ok_or(format!("import {}", from))?;
            if let Some(v) = src.struct_by.get(t) {
                r.struct_by.insert(t.clone(), v.clone());
            } else if let Some(v) = src.enum_by.get(t) {
                r.enum_by.insert(t.clone(), v.clone());
            } else if let Some(v) = src.union_by.get(t) {
                r.union_by.insert(t.clone(), v.clone());
            } else if let Some(v) = src.msg_by.get(t) {
                r.msg_by.insert(t.clone(), v.clone());
            } else {
                return Err(format!("import {}::{}", from, t));
            }
        }
        for e in &p.enums {
            let v = Rc::new(REnum { proto: me, name: e.name.clone(), variants: e.variants.clone() });
            r.enum_by.insert(e.name.clone(), v.clone());
            r.enums.push(v);
        }
        for s in &p.structs {
            let mut off = 0u64;
            let mut fields = Vec::new();
            for f in &s.fields {
                let rf = match &f.kind {
                    SKind::Struct(t) => RF::Nested(r.struct_by.get(t).ok_or(format!("struct {}", t))?.clone()),
                    k => {
                        let (ty, bits) = scalar_ty(k).unwrap();
                        let len = f.array_len.unwrap_or(1);
                        if len > 1 {
                            RF::Array(RArray { ty, item_bits: bits, len: len as usize, endian })
                        } else {
                            let view = match &f.view {
                                None => RView::None,
                                Some(View::Enum(e)) => RView::Enum(r.enum_by.get(e).ok_or(format!("enum {}", e))?.clone()),
                                Some(View::Range(a, b)) => RView::Range(*a, *b),
                                Some(View::Mult(m)) => RView::Mult(*m),
                            };
                            RF::Scalar(RScalar { ty, bits, endian, view })
                        }
                    }
                };
                let rf = RField { name: f.name.clone(), off, f: rf };
                off += rf.bits();
                fields.push(rf);
            }
            let v = Rc::new(RStruct { proto: me, name: s.name.clone(), bits: off, size: ((off + 7) / 8) as usize, fields });
            r.struct_by.insert(s.name.clone(), v.clone());
            r.structs.push(v);
        }
        for u in &p.unions {
            let mut parts = u.disc.split('.');
            let root = r.struct_by.get(parts.next().unwrap_or("")).ok_or(format!("disc {}", u.disc))?.clone();
            let mut cur = root.clone();
            let mut off = 0;
            let mut leaf = None;
            let mut path = Vec::new();
            for part in parts {
                if leaf.is_some() {
                    return Err("disc past a leaf".into());
                }
                let (i, f) = cur.fields.iter().enumerate().find(|(_, f)| f.name == part).ok_or(format!("disc {}", u.disc))?;
                path.push(i);
                off += f.off;
                let next = match &f.f {
                    RF::Scalar(s) => {
                        leaf = Some(s.clone());
                        None
                    }
                    RF::Nested(s) => Some(s.clone()),
                    RF::Array(_) => return Err("disc is an array".into()),
                };
                if let Some(n) = next {
                    cur = n;
                }
            }
            let leaf = leaf.ok_or("disc has no leaf")?;
            let mask = if leaf.bits == 64 { u64::MAX } else { (1u64 << leaf.bits) - 1 };
            let mut cases = Vec::new();
            for c in &u.cases {
                let raw = match &leaf.view {
                    RView::Enum(e) => e.variants.iter().find(|(k, _)| *k == c.case).ok_or("case name")?.1,
                    _ => match c.case.parse::<i128>() {
                        Ok(v) => (v as u64) & mask,
                        Err(_) => return Err("case number".into()),
                    },
                };
                let item = match &c.item {
                    None => None,
                    Some(t) => Some(match r.struct_by.get(t) {
                        Some(s) => RRef::Struct(s.clone()),
                        None => RRef::Msg(r.msg_by.get(t).ok_or(format!("union item {}", t))?.clone()),
                    }),
                };
                cases.push(RCase { name: c.name.clone(), raw, item });
            }
            let f = |g: fn(&RMsg) -> bool| cases.iter().any(|c| match &c.item {
                Some(RRef::Msg(m)) => g(m),
                _ => false,
            });
            let (dynsized, elemdyn) = (f(|m| m.dynsized), f(|m| m.elemdyn));
            let v = Rc::new(RUnion { proto: me, name: u.name.clone(), root, leaf_off: off, leaf, path, cases, dynsized, elemdyn });
            r.union_by.insert(u.name.clone(), v.clone());
            r.unions.push(v);
        }
        for m in &p.msgs {
            let mut fields: Vec<RMField> = Vec::new();
            for f in &m.fields {
                let (kind, d, e) = match &f.kind {
                    MKind::Item(t) => match r.struct_by.get(t) {
                        Some(s) => (match s.flat() {
                            Some(x) => RMK::Flat(x.ty, x.endian),
                            None => RMK::Struct(s.clone()),
                        }, false, false),
                        None => {
                            let m = r.msg_by.get(t).ok_or(format!("item {}", t))?;
                            (RMK::Msg(m.clone()), m.dynsized, m.elemdyn)
                        }
                    },
                    MKind::List(max, t) => match r.struct_by.get(t) {
                        Some(s) => (RMK::Array(prefix_bytes(*max), s.clone()), true, false),
                        None => {
                            let m = r.msg_by.get(t).ok_or(format!("list item {}", t))?;
                            m.set_embedded(me);
                            (RMK::List(prefix_bytes(*max), m.clone()), true, true)
                        }
                    },
                    MKind::Str(None) => (RMK::Nts, true, false),
                    MKind::Str(Some(m)) => (RMK::Varchar(prefix_bytes(*m)), true, false),
                    MKind::Payload => (RMK::Payload, true, true),
                    MKind::Union { on, item } => {
                        let i = fields.iter().position(|x| x.name == *on).ok_or(format!("on {}", on))?;
                        let u = r.union_by.get(item).ok_or(format!("union {}", item))?;
                        (RMK::Union(i, u.clone()), u.dynsized, u.elemdyn)
                    }
                };
                if let Some(last) = fields.last() {
                    last.set_embedded(me);
                }
                let optional = f.optional.unwrap_or(false) && !matches!(kind, RMK::Union(..));
                fields.push(RMField { name: f.name.clone(), optional, kind, dynsized: d, elemdyn: e });
            }
            let dynsized = fields.iter().any(|f| f.dynsized);
            let elemdyn = fields.iter().any(|f| f.elemdyn);
            let v = Rc::new(RMsg { proto: me, name: m.name.clone(), endian, fields, embedded: Cell::new(false), dynsized, elemdyn });
            r.msg_by.insert(m.name.clone(), v.clone());
            r.msgs.push(v);
        }
        Ok(r)
    }
}
