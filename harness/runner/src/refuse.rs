//! C02: schemas with one injected fault are refused; the same schemas with the fault undone are accepted.

use crate::drive::{part, Case, Info, Part};
use crate::env::Env;
use crate::pipeline::{self, Reject};
use oracle::gen::{self, Profile};
use oracle::json::J;
use oracle::resolve::Res;
use oracle::schema::*;
use oracle::tape::{hash_bytes, Src};
use std::path::{Path, PathBuf};

pub const RULE: &str = "a case is a random accepted set of protocols with one fault injected (every class of fault listed under parts.*.classes); non-trivial: the schema text compiled, and the same schema with the fault undone is accepted; distinct by the faulty schema text";

/// A directory of its own for each thread.
pub fn scratch(root: &Path) -> PathBuf {
    use std::sync::atomic::{AtomicUsize, Ordering};
    static NEXT: AtomicUsize = AtomicUsize::new(0);
    thread_local!(static ID: usize = NEXT.fetch_add(1, Ordering::SeqCst));
    let d = root.join(format!("t{}", ID.with(|v| *v)));
    std::fs::create_dir_all(&d).expect("scratch directory");
    d
}

fn profile() -> Profile {
    let mut p = Profile::everything();
    p.exotic = false;
    p.twins = false;
    p.structs = (1, 4);
    p.unions = (0, 2);
    p.msgs = (0, 3);
    p.sfields = (1, 5);
    p.mfields = (0, 4);
    p
}

struct Ctx<'a> {
    src: &'a mut Src,
    w: World,
    /// The protocol which gets the fault.
    me: usize,
    res: Res,
}

const ZQ: &str = "zq";

fn sf(kind: SKind) -> SField {
    SField { name: ZQ.into(), kind, view: None, array_len: None }
}
fn mf(name: &str, kind: MKind) -> MField {
    MField { name: name.into(), kind, optional: None }
}

impl Ctx<'_> {
    fn p(&self) -> &Proto {
        &self.w.protos[self.me]
    }
    fn edit(&self, f: impl FnOnce(&mut Proto)) -> World {
        let mut w = self.w.clone();
        f(&mut w.protos[self.me]);
        w
    }
    fn endian(&self) -> Endian {
        self.p().endian.unwrap_or(Endian::Little)
    }

    /// The fields a faulty structure starts with, and their bits; whole bytes if `aligned`, else not.
    fn prefix(&mut self, aligned: Option<bool>) -> (Vec<SField>, u64) {
        let rp = &self.res.protos[self.me];
        let own: Vec<_> = rp.structs.iter().filter(|s| s.bits % 8 == 0 || s.trailing_endian() == Some(self.endian())).cloned().collect();
        let (mut f, mut bits) = (vec![], 0);
        if !own.is_empty() && !self.src.one_in(4) {
            let i = self.src.idx(own.len());
            f = self.p().structs.iter().find(|d| d.name == own[i].name).map(|d| d.fields.clone()).unwrap_or_default();
            bits = if f.is_empty() { 0 } else { own[i].bits };
        }
        let pad = |n: u64| SField { name: "zpad".into(), kind: SKind::Unsigned(n), view: None, array_len: None };
        match aligned {
            Some(true) if bits % 8 != 0 => {
                f.push(pad(8 - bits % 8));
                bits += 8 - bits % 8;
            }
            Some(false) if bits % 8 == 0 => {
                let n = self.src.range(1, 7);
                f.push(pad(n));
                bits += n;
            }
            _ => (),
        }
        (f, bits)
    }

    /// Two worlds with one more structure, ending in `bad` and in `good`.
    fn structure(&mut self, aligned: Option<bool>, bad: SField, good: SField) -> Option<(World, World)> {
        let (f, _) = self.prefix(aligned);
        self.structure_after(f, bad, good)
    }
    fn structure_after(&mut self, f: Vec<SField>, bad: SField, good: SField) -> Option<(World, World)> {
        let tail = self.src.one_in(3);
        let make = |x: SField| {
            let mut d = StructD { name: "Zq".into(), fields: f.clone() };
            d.fields.push(x);
            if tail {
                d.fields.push(SField { name: "zend".into(), kind: SKind::Unsigned(3), view: None, array_len: None });
            }
            self.edit(|p| p.structs.push(d))
        };
        Some((make(bad), make(good)))
    }

    fn enum_names(&self) -> Vec<(String, u64)> {
        self.p().enums.iter().map(|e| (e.name.clone(), e.variants.iter().map(|v| v.1).max().unwrap_or(0))).collect()
    }
    /// Names of the protocol which are not of the kind `not`, and names it does not know.
    fn wrong_name(&mut self, kinds: &str) -> String {
        let mut v: Vec<String> = vec!["Nowhere".into(), "".into(), "zq".into()];
        let p = self.p();
        if kinds.contains('e') {
            v.extend(p.enums.iter().map(|x| x.name.clone()));
        }
        if kinds.contains('s') {
            v.extend(p.structs.iter().map(|x| x.name.clone()));
        }
        if kinds.contains('u') {
            v.extend(p.unions.iter().map(|x| x.name.clone()));
        }
        if kinds.contains('m') {
            v.extend(p.msgs.iter().map(|x| x.name.clone()));
        }
        // Declared elsewhere, but not imported.
        for (i, o) in self.w.protos.iter().enumerate() {
            if i != self.me {
                let names = o.enums.iter().map(|x| &x.name).chain(o.structs.iter().map(|x| &x.name)).chain(o.unions.iter().map(|x| &x.name)).chain(o.msgs.iter().map(|x| &x.name));
                v.extend(names.filter(|n| !p.imports.iter().any(|i| i.1 == **n)).cloned());
                v.push(o.name.clone());
            }
        }
        // Nearly right: another case, a part, more.
        if let Some(s) = p.structs.first() {
            v.push(s.name.to_lowercase());
            v.push(format!("{} ", s.name));
            v.push(s.name[1..].into());
            v.push(format!("{}::{}", p.name, s.name));
        }
        self.src.pick(&v).clone()
    }

    /// The name of a structure every protocol can refer to: one of its own, or one declared for it.
    fn with_struct(&mut self, fields: Vec<SField>, name: &str) {
        let d = StructD { name: name.into(), fields };
        self.w.protos[self.me].structs.push(d);
    }
    fn with_msg(&mut self, fields: Vec<MField>, name: &str) {
        self.w.protos[self.me].msgs.push(MsgD { name: name.into(), fields });
    }

    /// The fields a faulty message starts with: those of a message which has no open end.
    fn mprefix(&mut self, closed: bool) -> Vec<MField> {
        let ok: Vec<usize> = self.res.protos[self.me].msgs.iter().enumerate().filter(|(_, m)| !closed || !m.elemdyn).map(|v| v.0).collect();
        if ok.is_empty() || self.src.one_in(4) {
            return vec![];
        }
        let i = *self.src.pick(&ok);
        self.p().msgs[i].fields.clone()
    }
    fn message(&mut self, f: Vec<MField>, bad: Vec<MField>, good: Vec<MField>) -> Option<(World, World)> {
        let make = |x: Vec<MField>| {
            let mut d = MsgD { name: "Zm".into(), fields: f.clone() };
            d.fields.extend(x);
            self.edit(|p| p.msgs.push(d))
        };
        Some((make(bad), make(good)))
    }

    /// A variable-sized field, by construction after everything it refers to.
    fn varsized(&mut self, name: &str) -> MField {
        let k = match self.src.below(6) {
            0 => MKind::Str(None),
            1 => MKind::Str(Some(self.src.bits(20))),
            2 => {
                self.with_struct(vec![sf(SKind::Unsigned(13))], "ZvS");
                MKind::List(self.src.bits(20), "ZvS".into())
            }
            3 => {
                self.with_msg(vec![mf("a", MKind::Str(None))], "ZvM");
                MKind::List(self.src.bits(20), "ZvM".into())
            }
            4 => {
                self.with_msg(vec![mf("a", MKind::Str(Some(7)))], "ZvM");
                MKind::Item("ZvM".into())
            }
            _ => MKind::Payload,
        };
        let optional = if self.src.one_in(4) { Some(true) } else { None };
        MField { name: name.into(), kind: k, optional }
    }

    fn int(&mut self, bits: u64) -> SKind {
        match self.src.below(3) {
            0 => SKind::Signed(bits),
            1 => SKind::Bool(bits),
            _ => SKind::Unsigned(bits),
        }
    }
    fn bits(&mut self) -> u64 {
        match self.src.below(3) {
            0 => *self.src.pick(&[8, 16, 32, 64, 1, 63]),
            _ => self.src.range(1, 64),
        }
    }
    fn float_view(&mut self) -> View {
        match self.src.bool() {
            true => View::Range(-1.0, 3.5),
            false => View::Mult(0.25),
        }
    }

    /// Two worlds with one more union over a discriminant of the given leaf.
    fn union(&mut self, leaf: SField, cases: (Vec<(String, Option<String>)>, Vec<(String, Option<String>)>)) -> Option<(World, World)> {
        let nest = self.src.one_in(3);
        let (mut f, _) = self.prefix(None);
        f.push(leaf);
        self.with_struct(f, "Zroot");
        let mut disc = format!("Zroot.{}", ZQ);
        if nest {
            self.with_struct(vec![SField { name: "inner".into(), kind: SKind::Struct("Zroot".into()), view: None, array_len: None }], "Zouter");
            disc = format!("Zouter.inner.{}", ZQ);
        }
        self.union_on(disc.clone(), disc, cases)
    }
    fn union_on(&mut self, bad: String, good: String, cases: (Vec<(String, Option<String>)>, Vec<(String, Option<String>)>)) -> Option<(World, World)> {
        let make = |disc: String, c: Vec<(String, Option<String>)>| {
            let d = UnionD { name: "Zu".into(), disc, cases: c.into_iter().enumerate().map(|(i, (case, item))| UCase { name: format!("C{}", i), case, item }).collect() };
            self.edit(|p| p.unions.push(d))
        };
        Some((make(bad, cases.0), make(good, cases.1)))
    }
    fn some_struct(&mut self) -> String {
        let v: Vec<String> = self.p().structs.iter().map(|s| s.name.clone()).collect();
        self.src.pick(&v).clone()
    }
}

type Fault = (&'static str, fn(&mut Ctx) -> Option<(World, World)>);

fn too_wide(c: &mut Ctx) -> u64 {
    match c.src.below(4) {
        0 => 0,
        1 => *c.src.pick(&[65, 66, 72, 80, 128, 256, 1000, 1 << 20]),
        2 => 65 + c.src.bits(16),
        _ => *c.src.pick(&[1 << 32, (1 << 32) + 8, 1 << 63, u64::MAX, u64::MAX - 7, u32::MAX as u64]),
    }
}

const STRUCTS: &[Fault] = &[
    ("bit width outside 1 to 64", |c| {
        let (bad, good) = (too_wide(c), c.bits());
        let mut b = sf(c.int(bad));
        let mut g = b.clone();
        g.kind = match b.kind {
            SKind::Signed(_) => SKind::Signed(good),
            SKind::Bool(_) => SKind::Bool(good),
            _ => SKind::Unsigned(good),
        };
        if c.src.one_in(4) {
            let v = Some(c.float_view());
            b = SField { kind: SKind::Float(bad), view: v.clone(), ..b };
            g = SField { kind: SKind::Float(good), view: v, ..g };
        }
        c.structure(None, b, g)
    }),
    ("array item wider than 64 bits or empty", |c| {
        let bad = *c.src.pick(&[0, 72, 80, 128, 1 << 32]);
        let len = Some(c.src.range(2, 9));
        let s = c.src.bool();
        let k = |v| if s { SKind::Signed(v) } else { SKind::Unsigned(v) };
        c.structure(Some(true), SField { array_len: len, ..sf(k(bad)) }, SField { array_len: len, ..sf(k(24)) })
    }),
    ("float without a view which is not 32 or 64 bits", |c| {
        let mut bits = c.bits();
        if bits % 32 == 0 {
            bits -= 1;
        }
        let good = *c.src.pick(&[32, 64]);
        c.structure(None, sf(SKind::Float(bits)), sf(SKind::Float(good)))
    }),
    ("enum view on a field which is not unsigned", |c| {
        let e = c.enum_names();
        if e.is_empty() {
            return None;
        }
        let (name, _) = c.src.pick(&e).clone();
        let bits = if c.src.bool() { 32 } else { 64 };
        let bad = match c.src.below(3) {
            0 => SKind::Signed(bits),
            1 => SKind::Bool(bits),
            _ => SKind::Float(bits),
        };
        let v = Some(View::Enum(name));
        c.structure(None, SField { view: v.clone(), ..sf(bad) }, SField { view: v, ..sf(SKind::Unsigned(64)) })
    }),
    ("float view on a field which is not a float", |c| {
        let bits = c.bits();
        let v = Some(c.float_view());
        let bad = c.int(bits);
        c.structure(None, SField { view: v.clone(), ..sf(bad) }, SField { view: v, ..sf(SKind::Float(bits)) })
    }),
    ("float view on an array", |c| {
        let bits = *c.src.pick(&[8, 16, 24, 32, 64]);
        let v = Some(c.float_view());
        let len = c.src.range(2, 9);
        c.structure(Some(true), SField { view: v.clone(), array_len: Some(len), ..sf(SKind::Float(bits)) }, SField { view: v, array_len: Some(1), ..sf(SKind::Float(bits)) })
    }),
    ("view of an undefined enum", |c| {
        let e = c.enum_names();
        if e.is_empty() {
            return None;
        }
        let (good, _) = c.src.pick(&e).clone();
        let bad = c.wrong_name("sum");
        let k = sf(SKind::Unsigned(64));
        c.structure(None, SField { view: Some(View::Enum(bad)), ..k.clone() }, SField { view: Some(View::Enum(good)), ..k })
    }),
    ("view of an enum declared nowhere, on an array", |c| {
        let e = c.enum_names();
        if e.is_empty() {
            return None;
        }
        let (good, max) = c.src.pick(&e).clone();
        if max > 0xFFFF {
            return None;
        }
        let bad = c.wrong_name("sum");
        let k = SField { array_len: Some(c.src.range(2, 5)), ..sf(SKind::Unsigned(16)) };
        c.structure(Some(true), SField { view: Some(View::Enum(bad)), ..k.clone() }, SField { view: Some(View::Enum(good)), ..k })
    }),
    ("enum which does not fit its field", |c| {
        let b = c.src.range(1, 62);
        let largest = match c.src.below(3) {
            0 => 1u64 << b,
            1 => (1u64 << b) + c.src.below(1 << b),
            _ => c.src.range(1u64 << b, (1u64 << b).saturating_mul(8).min(i64::MAX as u64)),
        };
        let fit = 64 - largest.leading_zeros() as u64;
        let bad = if c.src.bool() { b } else { c.src.range(1, b) };
        let mut variants = vec![("Big".to_string(), largest)];
        if c.src.bool() {
            variants.insert(c.src.idx(2), ("Small".to_string(), 0));
        }
        c.w.protos[c.me].enums.push(EnumD { name: "Ze".into(), variants });
        let good = (fit + c.src.below(3)).min(64);
        let k = |n| SField { view: Some(View::Enum("Ze".into())), ..sf(SKind::Unsigned(n)) };
        c.structure(None, k(bad), k(good))
    }),
    ("nested structure which is not defined", |c| {
        let bad = if c.src.one_in(3) { "Zq".to_string() } else { c.wrong_name("eum") };
        let good = c.some_struct();
        c.structure(Some(true), sf(SKind::Struct(bad)), sf(SKind::Struct(good)))
    }),
    ("nested structure which does not start at a byte", |c| {
        let good = c.some_struct();
        let (f, bits) = c.prefix(Some(false));
        let mut g = f.clone();
        g.push(SField { name: "zfill".into(), kind: SKind::Unsigned(8 - bits % 8), view: None, array_len: None });
        let n = sf(SKind::Struct(good));
        let make = |f: Vec<SField>| {
            let mut d = StructD { name: "Zq".into(), fields: f };
            d.fields.push(n.clone());
            c.edit(|p| p.structs.push(d))
        };
        Some((make(f), make(g)))
    }),
    ("array of structures in a structure", |c| {
        let good = c.some_struct();
        let bad = *c.src.pick(&[0, 2, 3, 100, u64::MAX]);
        let one = if c.src.bool() { Some(1) } else { None };
        let n = sf(SKind::Struct(good));
        c.structure(Some(true), SField { array_len: Some(bad), ..n.clone() }, SField { array_len: one, ..n })
    }),
    ("array which does not start at a byte", |c| {
        let (f, bits) = c.prefix(Some(false));
        let mut g = f.clone();
        g.push(SField { name: "zfill".into(), kind: SKind::Unsigned(8 - bits % 8), view: None, array_len: None });
        let k = c.src.pick(&[SKind::Unsigned(8), SKind::Signed(16), SKind::Float(32), SKind::Bool(8), SKind::Unsigned(24)]).clone();
        let n = SField { array_len: Some(c.src.range(2, 9)), ..sf(k) };
        let make = |f: Vec<SField>| {
            let mut d = StructD { name: "Zq".into(), fields: f };
            d.fields.push(n.clone());
            c.edit(|p| p.structs.push(d))
        };
        Some((make(f), make(g)))
    }),
    ("array whose items are not whole bytes", |c| {
        let mut bits = c.src.range(1, 63);
        if bits % 8 == 0 {
            bits += 1;
        }
        let s = c.src.below(3);
        let k = |v| match s { 0 => SKind::Signed(v), _ => SKind::Unsigned(v) };
        // Also when the whole array is a number of bytes.
        let len = Some(if c.src.bool() { 8 } else { c.src.range(2, 20) });
        c.structure(Some(true), SField { array_len: len, ..sf(k(bits)) }, SField { array_len: len, ..sf(k((bits + 7) / 8 * 8)) })
    }),
    ("array of no items", |c| {
        let bits = *c.src.pick(&[8, 16, 24, 64]);
        let good = c.src.range(1, 3);
        let n = sf(SKind::Unsigned(bits));
        c.structure(Some(true), SField { array_len: Some(0), ..n.clone() }, SField { array_len: Some(good), ..n })
    }),
    ("array larger than the address space", |c| {
        let bits = *c.src.pick(&[8, 16, 32, 64]);
        // More than 2^64 bits.
        let len = match c.src.below(3) {
            0 => u64::MAX,
            1 => u64::MAX / bits + 1 + c.src.bits(30),
            _ => (1 << 63) + c.src.bits(20),
        };
        let n = sf(SKind::Unsigned(bits));
        let good = c.src.range(1, 3);
        c.structure(Some(true), SField { array_len: Some(len), ..n.clone() }, SField { array_len: Some(good), ..n })
    }),
    ("float view which cannot be inverted", |c| {
        let bits = c.bits();
        let bad = match c.src.below(if bits <= 16 || bits == 32 { 10 } else { 7 }) {
            // These views count in single precision.
            7 => View::Mult(*c.src.pick(&[1e39, 1e-39, -3e200, 2e-46])),
            8 => View::Range(0.0, 1e300),
            9 => View::Range(-1e39, 3.0),
            // JSON5 has literals for what is not a number.
            4 => View::Mult(*c.src.pick(&[f64::NAN, f64::INFINITY, f64::NEG_INFINITY])),
            5 => View::Range(*c.src.pick(&[f64::NAN, f64::NEG_INFINITY, f64::INFINITY]), 1.0),
            6 => View::Range(-2.5, *c.src.pick(&[f64::NAN, f64::INFINITY])),
            0 => View::Mult(0.0),
            1 => {
                let v = *c.src.pick(&[0.0, 1.0, -1.0, 1e6, 0.1]);
                View::Range(v, v)
            }
            2 => View::Range(-1.7e308, 1.7e308),
            _ => View::Mult(5e-324),
        };
        let good = c.float_view();
        let k = sf(SKind::Float(bits));
        c.structure(None, SField { view: Some(bad), ..k.clone() }, SField { view: Some(good), ..k })
    }),
    ("field whose first bits are counted otherwise than those of the byte it starts in", |c| {
        // A structure of another byte order which ends inside a byte, then a field.
        let other = if c.endian() == Endian::Little { Endian::Big } else { Endian::Little };
        let bits = c.src.range(1, 31);
        if bits % 8 == 0 {
            return None;
        }
        let mut o = Proto::new("zother");
        o.endian = Some(other);
        o.structs.push(StructD { name: "Zforeign".into(), fields: vec![SField { name: "v".into(), kind: SKind::Unsigned(bits), view: None, array_len: None }] });
        let me = c.me;
        c.w.protos.insert(me, o);
        c.me += 1;
        c.res = Res::new(&c.w).ok()?;
        c.w.protos[me + 1].imports.push(("zother".into(), "Zforeign".into()));
        // The structure may be the last of own ones which begin otherwise.
        let nest = |n: &str| SField { name: "zn".into(), kind: SKind::Struct(n.into()), view: None, array_len: None };
        let mut inner = "Zforeign";
        for name in ["Zw1", "Zw2"] {
            if c.src.one_in(3) {
                let (mut f, _) = c.prefix(Some(true));
                f.push(nest(inner));
                c.with_struct(f, name);
                inner = name;
            }
        }
        let (mut f, _) = c.prefix(Some(true));
        f.push(nest(inner));
        let n = sf(SKind::Unsigned(c.bits()));
        let mut d = StructD { name: "Zq".into(), fields: f };
        let good = c.edit(|p| p.structs.push(d.clone()));
        d.fields.push(n);
        Some((c.edit(|p| p.structs.push(d)), good))
    }),
];

const ENUMS: &[Fault] = &[
    ("empty enum", |c| {
        let k = |v: Vec<(String, u64)>| c.edit(|p| p.enums.push(EnumD { name: "Ze".into(), variants: v }));
        Some((k(vec![]), k(vec![("A".into(), 0)])))
    }),
    ("two variants of one value", |c| {
        let n = c.src.range(2, 7);
        let mut v: Vec<(String, u64)> = (0..n).map(|i| (format!("V{}", i), i * 3 + c.src.below(3))).collect();
        let good = v.clone();
        let a = c.src.idx(n as usize);
        let b = (a + 1 + c.src.idx(n as usize - 1)) % n as usize;
        v[a].1 = v[b].1;
        let k = |v: Vec<(String, u64)>| c.edit(|p| p.enums.push(EnumD { name: "Ze".into(), variants: v }));
        Some((k(v), k(good)))
    }),
    ("variant too large for any field", |c| {
        let v = match c.src.below(3) {
            0 => 1 << 63,
            1 => u64::MAX,
            _ => (1 << 63) | c.src.bits(62),
        };
        let first = c.src.bool();
        let k = |x: u64| {
            let mut v = vec![("A".to_string(), x), ("B".to_string(), 1)];
            if first {
                v.reverse();
            }
            c.edit(|p| p.enums.push(EnumD { name: "Ze".into(), variants: v }))
        };
        Some((k(v), k(2)))
    }),
];

fn plain(cases: &[&str]) -> Vec<(String, Option<String>)> {
    cases.iter().map(|v| (v.to_string(), None)).collect()
}

const UNIONS: &[Fault] = &[
    ("union without cases", |c| {
        let b = c.bits();
        c.union(sf(SKind::Unsigned(b)), (vec![], plain(&["0"])))
    }),
    ("two cases of one discriminant", |c| {
        let b = c.src.range(2, 64);
        let k = if c.src.bool() { SKind::Unsigned(b) } else { SKind::Signed(b) };
        let n = c.src.range(0, 1);
        let (a, o) = (n.to_string(), (1 - n).to_string());
        let same = if c.src.one_in(3) { format!("0{}", a) } else { a.clone() };
        let bad = if c.src.bool() { plain(&[&a, &same]) } else { plain(&[&a, &o, &same]) };
        c.union(sf(k), (bad, plain(&[&a, &o])))
    }),
    ("two cases of one enum variant", |c| {
        c.w.protos[c.me].enums.push(EnumD { name: "Ze".into(), variants: vec![("A".into(), 0), ("B".into(), 3)] });
        let f = SField { view: Some(View::Enum("Ze".into())), ..sf(SKind::Unsigned(c.src.range(2, 64))) };
        c.union(f, (plain(&["B", "A", "B"]), plain(&["B", "A"])))
    }),
    ("union discriminant path which does not name a number", |c| {
        let (mut f, _) = c.prefix(Some(true));
        f.push(sf(SKind::Unsigned(8)));
        f.push(SField { array_len: Some(3), ..SField { name: "zarr".into(), ..sf(SKind::Unsigned(8)) } });
        c.with_struct(f, "Zroot");
        c.with_struct(vec![SField { name: "inner".into(), ..sf(SKind::Struct("Zroot".into())) }], "Zouter");
        let bad = match c.src.below(18) {
            12 => "Zroot.ZQ".into(),
            13 => "Zouter.Inner.zq".into(),
            14 => "Zouter.inner.zQ".into(),
            15 => "Zroot.zq ".into(),
            16 => "zroot.zq".into(),
            17 => "Zroot. zq".into(),
            0 => "Zroot".to_string(),
            1 => "Zouter.inner".into(),
            2 => "Zroot.zarr".into(),
            3 => "Zouter.inner.zarr".into(),
            4 => "Zroot.zq.zq".into(),
            5 => "Zroot.nothing".into(),
            6 => "Zouter.inner.nothing".into(),
            7 => format!("{}.zq", c.wrong_name("eum")),
            8 => "".into(),
            9 => "Zroot.".into(),
            10 => "Zouter.zq".into(),
            _ => ".Zroot.zq".into(),
        };
        let cs = (plain(&["0", "1"]), plain(&["0", "1"]));
        c.union_on(bad, "Zouter.inner.zq".into(), cs)
    }),
    ("union discriminant which is a float", |c| {
        let mut f = sf(SKind::Float(*c.src.pick(&[32, 64])));
        if c.src.bool() {
            f.view = Some(c.float_view());
            f.kind = SKind::Float(c.bits());
        }
        let (mut p, _) = c.prefix(None);
        p.push(SField { name: "zok".into(), ..sf(SKind::Unsigned(8)) });
        p.push(f);
        c.with_struct(p, "Zroot");
        let cs = (plain(&["0", "1"]), plain(&["0", "1"]));
        c.union_on("Zroot.zq".into(), "Zroot.zok".into(), cs)
    }),
    ("union case which does not fit its discriminant", |c| {
        let b = c.src.range(1, 63);
        let signed = c.src.one_in(3);
        let k = if signed { SKind::Signed(b) } else { SKind::Unsigned(b) };
        let v: u64 = match c.src.below(3) {
            0 => 1 << b,
            1 => (1u64 << b) + c.src.below(1 << b),
            _ => c.src.range(1 << b, i64::MAX as u64 + 1),
        };
        // Below the least value of a signed field.
        let low = -(1i128 << (b - 1)) - 1 - c.src.bits(20) as i128;
        let bad = if signed && c.src.bool() && low >= i64::MIN as i128 { low.to_string() } else { v.to_string() };
        let good = if signed { c.src.below(1 << (b - 1)) } else { c.src.below(1 << b) };
        let at = c.src.bool();
        let mk = |v: String| if at || good == 0 { vec![(v, None)] } else { vec![("0".to_string(), None), (v, None)] };
        c.union(sf(k), (mk(bad), mk(good.to_string())))
    }),
    ("union case which is not a number", |c| {
        let bad = *c.src.pick(&["", "a", "1.5", "0x10", " 1", "1 ", "1e2", "one", "99999999999999999999", "18446744073709551616", "--1", "1_0"]);
        let k = if c.src.bool() { SKind::Unsigned(c.bits()) } else { SKind::Signed(c.bits()) };
        c.union(sf(k), (plain(&[bad]), plain(&["0"])))
    }),
    ("negative case of an unsigned discriminant", |c| {
        let b = c.bits();
        let v = format!("-{}", 1 + c.src.bits(20));
        c.union(sf(SKind::Unsigned(b)), (plain(&["0", &v]), plain(&["0", "1"])))
    }),
    ("union case which its enum does not declare", |c| {
        c.w.protos[c.me].enums.push(EnumD { name: "Ze".into(), variants: vec![("A".into(), 0), ("B".into(), 3)] });
        let f = SField { view: Some(View::Enum("Ze".into())), ..sf(SKind::Unsigned(c.src.range(2, 64))) };
        let bad = *c.src.pick(&["C", "", "0", "3", "a", "Ze", "Ze.A", "A "]);
        c.union(f, (plain(&["A", bad]), plain(&["A", "B"])))
    }),
    ("union content which is not defined", |c| {
        let bad = c.wrong_name("eu");
        // Messages of the protocol come after its unions.
        let own: Vec<String> = c.p().msgs.iter().map(|m| m.name.clone()).collect();
        let bad = if !own.is_empty() && c.src.one_in(3) { "Zu".into() } else { bad };
        let good = c.some_struct();
        c.union(sf(SKind::Unsigned(8)), (vec![("0".into(), None), ("1".into(), Some(bad))], vec![("0".into(), None), ("1".into(), Some(good))]))
    }),
];

const MESSAGES: &[Fault] = &[
    ("message item which is not defined", |c| {
        let bad = if c.src.one_in(4) { "Zm".to_string() } else { c.wrong_name("eu") };
        let good = c.some_struct();
        let f = c.mprefix(true);
        let o = if c.src.one_in(3) { Some(true) } else { None };
        let k = |n: String| vec![MField { optional: o, ..mf(ZQ, MKind::Item(n)) }];
        c.message(f, k(bad), k(good))
    }),
    ("list of items which are not defined", |c| {
        let bad = if c.src.one_in(4) { "Zm".to_string() } else { c.wrong_name("eu") };
        c.with_struct(vec![sf(SKind::Unsigned(13))], "Zok");
        let f = c.mprefix(true);
        let n = c.src.bits(20);
        let k = |v: String| vec![mf(ZQ, MKind::List(n, v))];
        c.message(f, k(bad), k("Zok".into()))
    }),
    ("union field with an undefined union or discriminant", |c| {
        c.with_struct(vec![sf(SKind::Unsigned(13)), SField { name: "b".into(), ..sf(SKind::Unsigned(3)) }], "Zroot");
        c.w.protos[c.me].unions.push(UnionD { name: "Zu".into(), disc: format!("Zroot.{}", ZQ), cases: vec![UCase { name: "A".into(), case: "1".into(), item: None }] });
        let f = c.mprefix(true);
        let (on, item) = match c.src.below(10) {
            6 => ("zHead".to_string(), "Zu".to_string()),
            7 => ("zhead ".into(), "Zu".into()),
            8 => ("zhead".into(), "zu".into()),
            0 => ("nothing".to_string(), "Zu".to_string()),
            1 => ("zlater".into(), "Zu".into()),
            2 => (ZQ.into(), "Zu".into()),
            3 => ("".into(), "Zu".into()),
            4 => ("Zroot".into(), "Zu".into()),
            5 => ("zhead.zq".into(), "Zu".into()),
            _ => ("zhead".into(), c.wrong_name("esm")),
        };
        let k = |on: String, item: String| vec![
            mf("zhead", MKind::Item("Zroot".into())),
            mf(ZQ, MKind::Union { on, item }),
            mf("zlater", MKind::Item("Zroot".into())),
        ];
        c.message(f, k(on, item), k("zhead".into(), "Zu".into()))
    }),
    ("union field on a field which is not its discriminant", |c| {
        c.with_struct(vec![sf(SKind::Unsigned(13)), SField { name: "b".into(), ..sf(SKind::Unsigned(3)) }], "Zroot");
        // The same layout, but another structure.
        c.with_struct(vec![sf(SKind::Unsigned(13)), SField { name: "b".into(), ..sf(SKind::Unsigned(3)) }], "Ztwin");
        c.with_struct(vec![SField { name: "inner".into(), ..sf(SKind::Struct("Zroot".into())) }, SField { name: "zb".into(), ..sf(SKind::Unsigned(3)) }], "Zouter");
        c.w.protos[c.me].unions.push(UnionD { name: "Zu".into(), disc: format!("Zroot.{}", ZQ), cases: vec![UCase { name: "A".into(), case: "1".into(), item: None }] });
        c.with_msg(vec![mf("a", MKind::Item("Zroot".into()))], "Zmsg");
        let f = c.mprefix(true);
        let head = mf("zhead", MKind::Item("Zroot".into()));
        let bad = match c.src.below(7) {
            0 => MField { optional: Some(true), ..head.clone() },
            1 => mf("zhead", MKind::Item("Ztwin".into())),
            2 => mf("zhead", MKind::Item("Zouter".into())),
            3 => mf("zhead", MKind::Str(None)),
            4 => mf("zhead", MKind::Str(Some(30))),
            5 => mf("zhead", MKind::List(3, "Zroot".into())),
            _ => mf("zhead", MKind::Item("Zmsg".into())),
        };
        let u = mf(ZQ, MKind::Union { on: "zhead".into(), item: "Zu".into() });
        c.message(f, vec![bad, u.clone()], vec![head, u])
    }),
    ("union field on a structure of the same name in another protocol", |c| {
        let fields = vec![sf(SKind::Unsigned(13)), SField { name: "b".into(), ..sf(SKind::Unsigned(3)) }];
        let root = StructD { name: "Zroot".into(), fields: fields.clone() };
        let mut o = Proto::new("zother");
        o.endian = c.p().endian;
        o.structs.push(root.clone());
        o.unions.push(UnionD { name: "Zu".into(), disc: format!("Zroot.{}", ZQ), cases: vec![UCase { name: "A".into(), case: "1".into(), item: None }] });
        let me = c.me;
        c.w.protos.insert(me, o);
        c.me += 1;
        c.res = Res::new(&c.w).ok()?;
        c.w.protos[me + 1].imports.push(("zother".into(), "Zu".into()));
        let f = c.mprefix(true);
        let v = vec![mf("zhead", MKind::Item("Zroot".into())), mf(ZQ, MKind::Union { on: "zhead".into(), item: "Zu".into() })];
        let (mut bad, mut good) = c.message(f, v.clone(), v)?;
        bad.protos[me + 1].structs.insert(0, root);
        good.protos[me + 1].imports.push(("zother".into(), "Zroot".into()));
        Some((bad, good))
    }),
    ("field after a payload", |c| {
        let f = c.mprefix(true);
        let s = c.some_struct();
        let after = if c.src.bool() { c.varsized(ZQ) } else { mf(ZQ, MKind::Item(s)) };
        let pay = MField { optional: if c.src.one_in(3) { Some(true) } else { None }, ..mf("zpay", MKind::Payload) };
        let good = if after.kind == MKind::Payload || c.src.bool() { pay.clone() } else { after.clone() };
        c.message(f, vec![pay, after], vec![good])
    }),
    ("field after a message which ends in a payload", |c| {
        let f = c.mprefix(true);
        let s = c.some_struct();
        c.with_msg(vec![mf("a", MKind::Payload)], "Zp");
        let mut name = "Zp".to_string();
        for i in 0..c.src.below(3) {
            let n = format!("Zp{}", i);
            c.with_msg(vec![mf("b", MKind::Item(s.clone())), mf("a", MKind::Item(name))], &n);
            name = n;
        }
        let pay = MField { optional: if c.src.one_in(3) { Some(true) } else { None }, ..mf("zpay", MKind::Item(name)) };
        let after = if c.src.bool() { c.varsized(ZQ) } else { mf(ZQ, MKind::Item(s)) };
        c.message(f, vec![pay.clone(), after], vec![pay])
    }),
    ("field after a union with a case which ends in a payload", |c| {
        // The message is declared by a protocol of its own, as unions come before messages.
        let mut o = Proto::new("zother");
        o.endian = c.p().endian;
        o.msgs.push(MsgD { name: "Zp".into(), fields: vec![mf("a", MKind::Payload)] });
        let me = c.me;
        c.w.protos.insert(me, o);
        c.me += 1;
        c.res = Res::new(&c.w).ok()?;
        c.w.protos[me + 1].imports.push(("zother".into(), "Zp".into()));
        c.with_struct(vec![sf(SKind::Unsigned(13)), SField { name: "b".into(), ..sf(SKind::Unsigned(3)) }], "Zroot");
        c.w.protos[c.me].unions.push(UnionD { name: "Zu".into(), disc: format!("Zroot.{}", ZQ), cases: vec![UCase { name: "N".into(), case: "0".into(), item: None }, UCase { name: "A".into(), case: "1".into(), item: Some("Zp".into()) }] });
        let f = c.mprefix(true);
        let mut v = vec![mf("zhead", MKind::Item("Zroot".into())), mf("zu", MKind::Union { on: "zhead".into(), item: "Zu".into() })];
        let good = v.clone();
        let s = c.some_struct();
        v.push(if c.src.bool() { c.varsized(ZQ) } else { mf(ZQ, MKind::Item(s)) });
        c.message(f, v, good)
    }),
    ("variable-sized field after a list of messages", |c| {
        let f = c.mprefix(true);
        c.with_msg(vec![mf("a", MKind::Str(Some(40)))], "Zi");
        let mut l = MField { optional: if c.src.one_in(3) { Some(true) } else { None }, ..mf("zlist", MKind::List(c.src.bits(20), "Zi".into())) };
        if c.src.one_in(3) {
            c.with_msg(vec![l.clone()], "Zl");
            l.kind = MKind::Item("Zl".into());
        }
        let s = c.some_struct();
        let bad = c.varsized(ZQ);
        let mut f = f;
        f.push(l);
        if c.src.one_in(3) {
            f.push(mf("zmid", MKind::Item(s.clone())));
        }
        c.message(f, vec![bad], vec![mf(ZQ, MKind::Item(s))])
    }),
    ("list of messages which end in a payload", |c| {
        let f = c.mprefix(true);
        let s = c.some_struct();
        c.with_msg(vec![mf("a", MKind::Payload)], "Zp");
        let mut name = "Zp".to_string();
        for i in 0..c.src.below(3) {
            let n = format!("Zp{}", i);
            c.with_msg(vec![mf("b", MKind::Item(s.clone())), mf("a", MKind::Item(name))], &n);
            name = n;
        }
        c.with_msg(vec![mf("a", MKind::Str(None))], "Zc");
        let n = c.src.bits(20);
        c.message(f, vec![mf(ZQ, MKind::List(n, name))], vec![mf(ZQ, MKind::List(n, "Zc".into()))])
    }),
    ("list of structures of no bytes", |c| {
        let f = c.mprefix(true);
        c.with_struct(vec![], "Zempty");
        let mut name = "Zempty";
        if c.src.bool() {
            c.with_struct(vec![sf(SKind::Struct("Zempty".into()))], "Zempty2");
            name = "Zempty2";
        }
        c.with_struct(vec![sf(SKind::Unsigned(1))], "Zone");
        let n = c.src.bits(20);
        c.message(f, vec![mf(ZQ, MKind::List(n, name.into()))], vec![mf(ZQ, MKind::List(n, "Zone".into()))])
    }),
];

const IMPORTS: &[Fault] = &[
    ("import which cannot be resolved", |c| {
        let good = c.w.clone();
        let froms: Vec<String> = c.w.protos[..c.me].iter().map(|p| p.name.clone()).collect();
        let names: Vec<String> = c.w.protos[..c.me].iter().flat_map(|p| p.structs.iter().map(|s| s.name.clone())).collect();
        let own = c.some_struct();
        let imp = match c.src.below(5) {
            0 => ("nowhere".to_string(), own),
            1 => (c.p().name.clone(), own),
            2 if !froms.is_empty() => (c.src.pick(&froms).clone(), "Nowhere".to_string()),
            3 if !froms.is_empty() => (c.src.pick(&froms).clone(), own),
            4 if !names.is_empty() => ("".into(), c.src.pick(&names).clone()),
            _ => ("zq".into(), "Zq".into()),
        };
        let at = c.src.idx(c.p().imports.len() + 1);
        Some((c.edit(|p| p.imports.insert(at, imp)), good))
    }),
    ("type of another protocol which is no longer imported", |c| {
        let me = c.me;
        let used = |w: &World, t: &str| {
            let p = &w.protos[me];
            p.structs.iter().flat_map(|s| &s.fields).any(|f| matches!(&f.kind, SKind::Struct(n) if n == t) || matches!(&f.view, Some(View::Enum(n)) if n == t))
                || p.unions.iter().any(|u| u.disc.split('.').next() == Some(t) || u.cases.iter().any(|c| c.item.as_deref() == Some(t)))
                || p.msgs.iter().flat_map(|m| &m.fields).any(|f| matches!(&f.kind, MKind::Item(n) | MKind::List(_, n) | MKind::Union { item: n, .. } if n == t))
        };
        let v: Vec<usize> = c.p().imports.iter().enumerate().filter(|(_, i)| used(&c.w, &i.1)).map(|v| v.0).collect();
        if v.is_empty() {
            return None;
        }
        let at = *c.src.pick(&v);
        Some((c.edit(|p| {
            p.imports.remove(at);
        }), c.w.clone()))
    }),
];

/// How the schema compiler answers to each protocol up to `last`, all others imported before it.
pub fn answer(texts: &[(String, Vec<u8>)], last: usize, dir: &Path) -> Result<(), Reject> {
    let files: Vec<(String, PathBuf)> = texts[..=last].iter().enumerate().map(|(i, (n, t))| {
        let path = dir.join(format!("{}.json5", i));
        std::fs::write(&path, t).expect("schema file");
        (n.clone(), path)
    }).collect();
    pipeline::compile(&files, last).map(|_| ())
}

fn texts(w: &World) -> Vec<(String, Vec<u8>)> {
    w.protos.iter().map(|p| (p.name.clone(), p.to_json().text().into_bytes())).collect()
}

fn show(class: &str, texts: &[(String, Vec<u8>)], me: usize) -> String {
    let t: Vec<_> = texts[..=me].iter().map(|v| String::from_utf8_lossy(&v.1).into_owned()).collect();
    format!("{}: {}", class, t.join(" + "))
}

fn verdict(class: &'static str, bad: &[(String, Vec<u8>)], me: usize, dir: &Path, want: bool) -> Case {
    match answer(bad, me, dir) {
        Ok(()) => return Err(format!("accepted: {}", show(class, bad, me))),
        Err(Reject::Panic(p)) => return Err(format!("the compiler panics ({}): {}", p, show(class, bad, me))),
        Err(_) => (),
    }
    let mut h: Vec<u8> = vec![];
    bad[..=me].iter().for_each(|t| h.extend(&t.1));
    Ok(Info { key: Some(hash_bytes(&h)), classes: vec![class], sample: if want { show(class, bad, me) } else { String::new() } })
}

fn semantic(root: &Path, faults: &'static [Fault], src: &mut Src, want: bool) -> Case {
    let (class, f) = *src.pick(faults);
    let w = gen::world(src, &profile());
    let res = Res::new(&w)?;
    let me = src.idx(w.protos.len());
    let mut c = Ctx { src, w, me, res };
    let (bad, good) = match f(&mut c) {
        Some(v) => v,
        None => return Ok(Info { key: None, classes: vec!["fault not applicable"], sample: String::new() }),
    };
    let me = c.me;
    // Also when the faulty protocol is only imported.
    let by_import = c.src.one_in(4);
    let dir = scratch(root);
    if answer(&texts(&good), me, &dir).is_err() {
        return Ok(Info { key: None, classes: vec!["control refused"], sample: String::new() });
    }
    let mut t = texts(&bad);
    if by_import {
        t.truncate(me + 1);
        t.push(("zuser".into(), b"{name: 'zuser'}".to_vec()));
        return verdict(class, &t, me + 1, &dir, want);
    }
    verdict(class, &t, me, &dir, want)
}

/// A place of a JSON tree: the way to it, and the keys on the way (the empty one in arrays).
pub struct Place {
    pub path: Vec<usize>,
    keys: Vec<String>,
    /// The type tag of the object it is directly in, and the other keys there.
    tag: String,
    beside: Vec<String>,
}
impl Place {
    /// The key it hangs under.
    pub fn key(&self) -> &str {
        self.keys.last().map(|v| &**v).unwrap_or("")
    }
    pub fn parent(&self) -> &str {
        self.keys.iter().rev().nth(1).map(|v| &**v).unwrap_or("")
    }
}
fn places(j: &J, path: &mut Vec<usize>, keys: &mut Vec<String>, out: &mut Vec<Place>) {
    let tag = j.get("type").and_then(|v| v.str()).unwrap_or("").to_string();
    let beside: Vec<String> = match j { J::Obj(v) => v.iter().map(|v| v.0.clone()).collect(), _ => vec![] };
    let items: Vec<(&str, &J)> = match j {
        J::Arr(v) => v.iter().map(|v| ("", v)).collect(),
        J::Obj(v) => v.iter().map(|(k, v)| (&**k, v)).collect(),
        _ => vec![],
    };
    for (i, (k, v)) in items.into_iter().enumerate() {
        path.push(i);
        keys.push(k.into());
        out.push(Place { path: path.clone(), keys: keys.clone(), tag: tag.clone(), beside: beside.clone() });
        places(v, path, keys, out);
        keys.pop();
        path.pop();
    }
}
pub fn all_places(j: &J) -> Vec<Place> {
    let mut out = vec![];
    places(j, &mut vec![], &mut vec![], &mut out);
    out
}
pub fn at<'a>(j: &'a mut J, path: &[usize]) -> &'a mut J {
    match path.split_first() {
        None => j,
        Some((i, rest)) => at(match j { J::Arr(v) => &mut v[*i], J::Obj(v) => &mut v[*i].1, _ => panic!("path") }, rest),
    }
}

const OPTIONAL: [&str; 10] = ["endianness", "imports", "enums", "structs", "unions", "messages", "view", "array_len", "optional", "case_item"];

fn malformed(root: &Path, src: &mut Src, want: bool) -> Case {
    let w = gen::world(src, &profile());
    let me = src.idx(w.protos.len());
    let dir = scratch(root);
    let mut t = texts(&w);
    if answer(&t, me, &dir).is_err() {
        return Ok(Info { key: None, classes: vec!["control refused"], sample: String::new() });
    }
    let mut j = w.protos[me].to_json();
    let ps = all_places(&j);
    let none = |c| Ok(Info { key: None, classes: vec![c], sample: String::new() });
    let class;
    match src.below(8) {
        0 | 1 => {
            class = "required key missing";
            let v: Vec<&Place> = ps.iter().filter(|p| {
                let k = p.key();
                let info = p.parent() == "info";
                // Variants hang under names the user chooses; unbounded strings are those without a length; contents of cases are optional.
                k != "" && !OPTIONAL.contains(&k) && p.parent() != "variants" && (k != "max_len" || p.tag == "list") && (k != "item_type" || info)
            }).collect();
            let p = src.pick(&v).path.clone();
            let (last, up) = p.split_last().unwrap();
            if src.one_in(3) {
                *at(&mut j, &p) = J::Null;
            } else if let J::Obj(v) = at(&mut j, up) {
                if src.bool() {
                    v.remove(*last);
                } else {
                    // Spelled in another way.
                    v[*last].0 = match src.below(3) {
                        0 => v[*last].0.to_uppercase(),
                        1 => format!("{}_", v[*last].0),
                        _ => format!("{} ", v[*last].0),
                    };
                }
            }
        }
        2 | 3 => {
            class = "value of a wrong type";
            let p = src.pick(&ps);
            let key = p.key();
            let x = at(&mut j, &p.path);
            *x = match (&*x, src.below(3)) {
                (J::Num(_), 0) => J::Str("12".into()),
                (J::Num(_), 1) => J::Bool(true),
                (J::Num(v), _) if ["min", "max", "multiplier"].contains(&key) => J::Str(v.clone()),
                (J::Num(_), _) => J::Num((*src.pick(&["-1", "8.5", "1e30", "-0.5", "18446744073709551616", "NaN", "Infinity", "-Infinity"])).into()),
                (J::Str(_), 0) => J::Num("7".into()),
                (J::Str(_), 1) => J::Arr(vec![]),
                (J::Str(_), _) => J::Bool(false),
                (J::Bool(_), 0) => J::Num("1".into()),
                (J::Bool(_), 1) => J::Str("true".into()),
                (J::Bool(_), _) => J::Obj(vec![]),
                (J::Arr(_), 0) => J::Str("x".into()),
                (J::Arr(_), 1) => J::Num("0".into()),
                (J::Arr(_), _) => J::Bool(true),
                (J::Obj(_), 0) => J::Str("x".into()),
                (J::Obj(_), 1) => J::Num("0".into()),
                (J::Obj(_), _) => J::Bool(true),
                (J::Null, _) => return none("fault not applicable"),
            };
        }
        4 => {
            class = "unknown type tag or byte order";
            // Not the type of an import, which is a name.
            let v: Vec<&Place> = ps.iter().filter(|p| matches!(p.key(), "type" | "endianness") && p.parent() != "variants" && !p.beside.iter().any(|k| k == "protocol")).collect();
            if v.is_empty() {
                return none("fault not applicable");
            }
            let x = at(&mut j, &src.pick(&v).path);
            let old = x.str().unwrap_or("").to_string();
            let new = match src.below(5) {
                0 => old.to_uppercase(),
                1 => String::new(),
                2 => (*src.pick(&["integer", "u8", "middle", "float_range", "Unsigned", "enumeration"])).into(),
                3 => format!("{} ", old),
                _ => old[..old.len() - 1].to_string(),
            };
            *x = J::Str(new);
        }
        5 | 6 => {
            class = "text cut or continued";
            let mut b = t[me].1.clone();
            match src.below(4) {
                0 => b.extend_from_slice(src.pick(&[&b"}"[..], b"{}", b"]", b" x", b", {}", b"\"", b"/*"])),
                1 => b.truncate(src.idx(b.len().min(20))),
                _ => b.truncate(src.idx(b.len())),
            }
            t[me].1 = b;
            return verdict(class, &t, me, &dir, want);
        }
        _ => {
            class = "file which is not text or not a file";
            match src.below(4) {
                0 => {
                    let i = src.idx(t[me].1.len() + 1);
                    t[me].1.insert(i, *src.pick(&[0x80, 0xC0, 0xFF, 0xFE, 0xF8]));
                }
                1 => t[me].1 = vec![],
                2 => t[me].1 = src.pick(&[&b"[]"[..], b"null", b"1", b"\"x\"", b"{}", b"[{}]", b"true"]).to_vec(),
                _ => {
                    let mut l = bp3d_protoc::Loader::new();
                    let path = if src.bool() { dir.clone() } else { dir.join("missing.json5") };
                    let by_import = src.bool();
                    let r = oracle::batch::guarded(|| Ok(if by_import { l.import(&path, "super::x").is_ok() } else { l.load(&path).is_ok() }));
                    return match r {
                        Err(p) => Err(format!("loading {:?} panics: {}", path, p)),
                        Ok(true) => Err(format!("{:?} is loaded", path)),
                        Ok(false) => Ok(Info { key: Some(1), classes: vec![class], sample: "missing file or directory".into() }),
                    };
                }
            }
            return verdict(class, &t, me, &dir, want);
        }
    }
    t[me].1 = j.text().into_bytes();
    verdict(class, &t, me, &dir, want)
}

pub fn parts(env: &Env) -> Vec<Part> {
    let dir = |n: &str| {
        let d = env.work.join(n);
        std::fs::create_dir_all(&d).expect("scratch directory");
        d
    };
    let sem = |name: &'static str, n: u64, f: &'static [Fault]| {
        let d = dir(name);
        part(name, (n, n * 40), move |src: &mut Src, want| semantic(&d, f, src, want))
    };
    let d = dir("malformed");
    vec![
        sem("structures", 6000, STRUCTS),
        sem("enums", 1500, ENUMS),
        sem("unions", 4000, UNIONS),
        sem("messages", 5000, MESSAGES),
        sem("imports", 2000, IMPORTS),
        part("malformed", (6000, 240_000), move |src: &mut Src, want| malformed(&d, src, want)),
    ]
}
