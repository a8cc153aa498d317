//! Generators: well-formed worlds (by construction), values of messages, hostile bytes.

use crate::model::*;
use crate::resolve::*;
use crate::schema::*;
use crate::tape::Src;
use std::collections::HashSet;
use std::rc::Rc;

#[derive(Clone, Debug)]
pub struct Profile {
    pub protos: (u64, u64),
    pub enums: (u64, u64),
    pub structs: (u64, u64),
    pub unions: (u64, u64),
    pub msgs: (u64, u64),
    pub sfields: (u64, u64),
    pub mfields: (u64, u64),
    /// Weights of structure fields: unsigned, signed, boolean, float, array, nested.
    pub sw: [u64; 6],
    /// One plain field in that many has a view (when it can).
    pub view_in: u64,
    /// Weights of message fields: item, nul string, varchar, array, list, union, payload.
    pub mw: [u64; 7],
    /// Names which clash with those of generated code or of the standard library.
    pub exotic: bool,
    /// Types of one name in protocols which do not see each other's.
    pub twins: bool,
    /// Arrays of hundreds of items.
    pub long: bool,
    /// One array in that many has more bytes than fit 16 bits.
    pub huge: u64,
}

impl Profile {
    pub fn structs() -> Profile {
        Profile {
            protos: (1, 2),
            enums: (0, 2),
            structs: (3, 6),
            unions: (0, 0),
            msgs: (0, 0),
            sfields: (1, 8),
            mfields: (0, 0),
            sw: [5, 4, 2, 3, 2, 2],
            view_in: 2,
            mw: [1; 7],
            exotic: false,
            twins: false,
            long: true,
            huge: 0,
        }
    }
    pub fn messages() -> Profile {
        Profile {
            protos: (1, 2),
            enums: (0, 1),
            structs: (2, 4),
            unions: (0, 2),
            msgs: (2, 5),
            sfields: (1, 4),
            mfields: (0, 5),
            sw: [5, 3, 1, 2, 1, 1],
            view_in: 3,
            mw: [6, 3, 4, 3, 4, 4, 1],
            exotic: false,
            twins: false,
            long: false,
            huge: 0,
        }
    }
    /// Everything at once, with unusual names.
    pub fn everything() -> Profile {
        Profile {
            protos: (1, 3),
            enums: (0, 2),
            structs: (2, 5),
            unions: (0, 2),
            msgs: (1, 5),
            sfields: (0, 7),
            mfields: (0, 6),
            sw: [5, 4, 2, 3, 2, 2],
            view_in: 2,
            mw: [6, 3, 3, 3, 4, 4, 2],
            exotic: true,
            twins: true,
            long: true,
            huge: 0,
        }
    }
}

/// The profile and the share of worlds a property is explored with.
pub fn profile(prop: &str) -> Profile {
    let mut p = match prop.as_bytes()[0] {
        b'S' => Profile::structs(),
        b'C' => Profile::everything(),
        _ => Profile::messages(),
    };
    match prop {
        "S01" | "S02" | "S08" => p.huge = 60,
        "S07" => p.huge = 150,
        _ => (),
    }
    match prop {
        "S03" => p.sw = [2, 9, 1, 1, 1, 2],
        "S04" => {
            p.sw = [2, 1, 1, 9, 1, 1];
            p.view_in = 1;
        }
        "S05" => {
            p.sw = [9, 1, 1, 1, 1, 1];
            p.view_in = 1;
            p.enums = (1, 4);
        }
        "S06" => p.sw = [2, 1, 9, 1, 1, 1],
        "S07" => p.sw = [1, 1, 1, 1, 9, 2],
        "S08" => {
            p.sw = [2, 2, 1, 1, 1, 6];
            p.structs = (4, 7);
        }
        "U01" | "U02" => {
            p.unions = (2, 4);
            p.msgs = (1, 2);
            p.structs = (3, 6);
        }
        "L01" => {
            p.mw = [4, 2, 2, 1, 9, 3, 0];
            p.msgs = (3, 6);
        }
        "L02" => {
            p.mw = [1, 0, 0, 9, 1, 0, 0];
            p.mfields = (1, 5);
            p.sw = [5, 4, 2, 3, 2, 2];
            p.sfields = (1, 6);
            p.structs = (3, 6);
        }
        "M08" => p.mw = [3, 4, 5, 4, 4, 2, 1],
        "C04" => p.protos = (2, 3),
        _ => (),
    }
    p
}

const TYPE_STEMS: [&str; 11] = ["\u{6f22}", "Header", "Point", "Rec", "data", "Foo_Bar", "X", "Item", "Msg", "Offsets", "Value"];
const PLAIN: [&str; 12] = ["a", "b", "count", "x", "flag", "kind", "val", "hdr", "tail_", "p_q", "aB", "z9"];
const TRICKY: [&str; 51] = [
    "\u{6f22}", "_\u{e9}", "x\u{5b57}",
    "slice", "offsets", "byte_offset", "input", "out", "data", "value", "msg", "size", "len", "discriminant", "std",
    "bp3d_proto", "u8", "str", "item", "inner", "buffer", "index", "raw", "array", "list", "err", "ok", "start", "end",
    "iter", "usize", "message", "writer", "w", "v", "f", "i", "n", "r", "out_buffer", "cur", "pos", "util", "codec",
    "offset", "bool", "f32", "i64", "core", "new", "get",
];
const VARIANTS: [&str; 16] = ["None", "Some", "Ok", "Err", "First", "second", "A", "b", "Unknown", "X_1", "Vec", "Default", "String", "T", "\u{6f22}", "_\u{e9}"];

pub struct G<'a> {
    pub src: &'a mut Src,
    pub p: Profile,
    pub w: World,
    n: usize,
}

/// Builds a well-formed world.
pub fn world(src: &mut Src, p: &Profile) -> World {
    let mut g = G { src, p: p.clone(), w: World { protos: vec![] }, n: 0 };
    let protos = g.src.range(p.protos.0, p.protos.1);
    for i in 0..protos {
        g.proto(i as usize);
    }
    let mut w = g.w;
    if p.twins && w.protos.len() > 1 && src.one_in(3) {
        for _ in 0..src.range(1, 4) {
            twin(&mut w, src);
        }
    }
    w
}

/// The names of the types a protocol declares, in the order of the schema.
pub fn declared(p: &Proto) -> Vec<String> {
    let e = p.enums.iter().map(|v| v.name.clone()).chain(p.structs.iter().map(|v| v.name.clone()));
    e.chain(p.unions.iter().map(|v| v.name.clone())).chain(p.msgs.iter().map(|v| v.name.clone())).collect()
}

/// The protocol which declares a type imported from a protocol.
pub fn home(w: &World, from: &str, t: &str) -> Option<usize> {
    let k = w.protos.iter().position(|p| p.name == from)?;
    if declared(&w.protos[k]).iter().any(|v| v == t) {
        return Some(k);
    }
    let next = w.protos[k].imports.iter().find(|v| v.1 == t)?.0.clone();
    home(w, &next, t)
}

/// Gives a type of one protocol the name of a type of another one, where no protocol sees both.
fn twin(w: &mut World, src: &mut Src) {
    let (p, q) = (src.idx(w.protos.len()), src.idx(w.protos.len()));
    let (a, b) = (declared(&w.protos[p]), declared(&w.protos[q]));
    if p == q || a.is_empty() || b.is_empty() {
        return;
    }
    let (old, new) = (src.pick(&a).clone(), src.pick(&b).clone());
    let sees: Vec<usize> = (0..w.protos.len()).filter(|r| *r == p || w.protos[*r].imports.iter().any(|(f, t)| *t == old && home(w, f, t) == Some(p))).collect();
    let clash = |r: usize| declared(&w.protos[r]).iter().chain(w.protos[r].imports.iter().map(|v| &v.1)).any(|v| v.eq_ignore_ascii_case(&new));
    if sees.iter().any(|r| clash(*r)) {
        return;
    }
    for r in sees {
        rename(&mut w.protos[r], &old, &new);
    }
}

/// Renames a type where a protocol names it.
fn rename(p: &mut Proto, old: &str, new: &str) {
    let set = |v: &mut String| {
        if v == old {
            *v = new.to_string();
        }
    };
    p.imports.iter_mut().for_each(|v| set(&mut v.1));
    p.enums.iter_mut().for_each(|v| set(&mut v.name));
    for s in &mut p.structs {
        set(&mut s.name);
        for f in &mut s.fields {
            if let SKind::Struct(t) = &mut f.kind {
                set(t);
            }
            if let Some(View::Enum(t)) = &mut f.view {
                set(t);
            }
        }
    }
    for u in &mut p.unions {
        set(&mut u.name);
        if let Some(rest) = u.disc.strip_prefix(&format!("{}.", old)) {
            u.disc = format!("{}.{}", new, rest);
        }
        u.cases.iter_mut().filter_map(|c| c.item.as_mut()).for_each(set);
    }
    for m in &mut p.msgs {
        set(&mut m.name);
        for f in &mut m.fields {
            match &mut f.kind {
                MKind::Item(t) | MKind::List(_, t) | MKind::Union { item: t, .. } => set(t),
                _ => (),
            }
        }
    }
}

pub fn fits(v: u64, bits: u64) -> bool {
    v <= mask(bits)
}

/// True if reading `m` as the last field of a chain ends in a lazily read list of another protocol than `proto`.
pub fn foreign_lazy(m: &RMsg, proto: usize) -> bool {
    match m.fields.last().map(|f| &f.kind) {
        Some(RMK::List(..)) => m.proto != proto && !m.embedded.get(),
        Some(RMK::Msg(x)) => foreign_lazy(x, proto),
        Some(RMK::Union(_, u)) => u.cases.iter().any(|c| match &c.item {
            Some(RRef::Msg(x)) => foreign_lazy(x, proto),
            _ => false,
        }),
        _ => false,
    }
}

/// True if the world stays within what the generator builds (worlds obtained by removing parts may not).
pub fn sound(w: &World) -> bool {
    let res = match Res::new(w) {
        Ok(v) => v,
        Err(_) => return false,
    };
    if res.protos.iter().flat_map(|p| &p.unions).any(|u| u.root.flat().is_some() || u.cases.is_empty()) {
        return false;
    }
    if w.protos.iter().flat_map(|p| &p.msgs).flat_map(|m| &m.fields).any(|f| f.name == "offsets" && matches!(f.kind, MKind::List(..))) {
        return false;
    }
    res.protos.iter().flat_map(|p| &p.msgs).all(|m| {
        m.fields.iter().enumerate().all(|(i, f)| {
            let last = i + 1 == m.fields.len();
            match &f.kind {
                RMK::Array(_, s) => s.size > 0,
                RMK::List(p, x) => (x.min_size() > 0 || *p == 1) && x.tail() != Tail::Payload && !foreign_lazy(x, m.proto),
                RMK::Msg(x) => last || (x.tail() != Tail::Payload && !foreign_lazy(x, m.proto)),
                RMK::Union(_, u) => last || u.cases.iter().all(|c| match &c.item {
                    Some(RRef::Msg(x)) => x.tail() != Tail::Payload && !foreign_lazy(x, m.proto),
                    _ => true,
                }),
                _ => true,
            }
        })
    })
}

/// `sound`, for worlds made by `mutate_world`: within the limits of what the model decides.
pub fn sane(w: &World) -> bool {
    let res = match Res::new(w) {
        Ok(v) => v,
        Err(_) => return false,
    };
    sound(w)
        && res.protos.iter().flat_map(|p| &p.unions).all(|u| {
            let mut raws = HashSet::new();
            u.cases.iter().all(|c| raws.insert(c.raw))
                && !u.leaf.ty.is_float()
                && w.protos[u.proto].unions.iter().filter(|x| x.name == u.name).flat_map(|x| &x.cases).all(|c| match &u.leaf.view {
                    RView::Enum(_) => true,
                    _ => match c.case.parse::<i128>() {
                        Err(_) => false,
                        Ok(v) if u.leaf.ty == Ty::Bool => v == 0 || v == 1,
                        Ok(v) if u.leaf.ty.is_signed() => v >= -(1i128 << (u.leaf.bits - 1)) && v < 1i128 << (u.leaf.bits - 1),
                        Ok(v) => v >= 0 && v < 1i128 << u.leaf.bits,
                    },
                })
        })
        && res.protos.iter().flat_map(|p| &p.msgs).all(|m| {
            m.fields.iter().all(|f| match &f.kind {
                RMK::Union(on, u) => m.fields.iter().all(|x| match &x.kind {
                    RMK::Union(o, y) => o != on || Rc::ptr_eq(u, y),
                    _ => true,
                }),
                _ => true,
            })
        })
        && res.protos.iter().flat_map(|p| &p.structs).all(|s| s.size <= 600 && s.depth() <= 6)
}

/// One change of a world which keeps its identifiers, or adds a fresh one; the result may be anything.
pub fn mutate_world(w: &mut World, src: &mut Src) {
    let pi = src.idx(w.protos.len());
    let p = &mut w.protos[pi];
    let fresh = format!("q{}", src.below(1 << 30));
    let enums: Vec<String> = p.enums.iter().map(|v| v.name.clone()).collect();
    let structs: Vec<String> = p.structs.iter().map(|v| v.name.clone()).chain(p.imports.iter().map(|v| v.1.clone())).collect();
    let types: Vec<String> = structs.iter().cloned().chain(p.msgs.iter().map(|v| v.name.clone())).collect();
    let unions: Vec<String> = p.unions.iter().map(|v| v.name.clone()).collect();
    fn shuffle<T: Clone>(v: &mut Vec<T>, src: &mut Src, rename: &dyn Fn(&mut T)) {
        if v.is_empty() {
            return;
        }
        let i = src.idx(v.len());
        match src.below(3) {
            0 if v.len() > 1 => {
                v.remove(i);
            }
            1 => {
                let k = src.idx(v.len());
                v.swap(i, k);
            }
            _ => {
                let mut x = v[i].clone();
                rename(&mut x);
                let k = src.idx(v.len() + 1);
                v.insert(k, x);
            }
        }
    }
    let widths = [1u64, 2, 3, 4, 5, 7, 8, 9, 11, 12, 15, 16, 17, 23, 24, 25, 31, 32, 33, 40, 47, 48, 49, 56, 57, 63, 64];
    match src.weighted(&[2, 8, 5, 8, 2]) {
        0 => match src.below(3) {
            0 => p.endian = *src.pick(&[None, Some(Endian::Big), Some(Endian::Little)]),
            1 => shuffle(&mut p.structs, src, &|x| x.name = format!("T{}", fresh)),
            _ => shuffle(&mut p.msgs, src, &|x| x.name = format!("T{}", fresh)),
        },
        1 if !p.structs.is_empty() => {
            let i = src.idx(p.structs.len());
            let st = &mut p.structs[i];
            if st.fields.is_empty() || src.one_in(3) {
                shuffle(&mut st.fields, src, &|x| x.name = fresh.clone());
                return;
            }
            let i = src.idx(st.fields.len());
            let f = &mut st.fields[i];
            let bits = *src.pick(&widths);
            match src.below(6) {
                0 => f.kind = match &f.kind {
                    SKind::Signed(_) => SKind::Signed(bits),
                    SKind::Unsigned(_) => SKind::Unsigned(bits),
                    SKind::Bool(_) => SKind::Bool(bits),
                    SKind::Float(_) => SKind::Float(bits),
                    SKind::Struct(_) => SKind::Struct(src.pick(&structs).clone()),
                },
                1 => {
                    f.kind = match src.below(5) {
                        0 => SKind::Signed(bits),
                        1 => SKind::Unsigned(bits),
                        2 => SKind::Bool(bits),
                        3 => SKind::Float(bits),
                        _ => SKind::Struct(src.pick(&structs).clone()),
                    };
                    if matches!(f.kind, SKind::Struct(_)) {
                        f.view = None;
                        f.array_len = None;
                    }
                }
                2 => f.view = None,
                3 if !matches!(f.kind, SKind::Struct(_)) => f.view = Some(match src.below(3) {
                    0 if !enums.is_empty() => View::Enum(src.pick(&enums).clone()),
                    1 => View::Mult(*src.pick(&[0.5, 2.0, -0.25, 10.0])),
                    _ => View::Range(*src.pick(&[-1.0, 0.0, 2.5]), *src.pick(&[3.0, 10.0, 360.0])),
                }),
                4 if !matches!(f.kind, SKind::Struct(_)) => {
                    f.array_len = *src.pick(&[None, Some(1), Some(2), Some(3), Some(7), Some(16)]);
                }
                _ => f.array_len = None,
            }
            if f.array_len.unwrap_or(1) > 1 {
                f.view = None;
            }
        }
        2 if !p.unions.is_empty() => {
            let i = src.idx(p.unions.len());
            let u = &mut p.unions[i];
            let num = match src.below(3) {
                0 => src.below(4).to_string(),
                1 => (src.below(300) as i64 - 140).to_string(),
                _ => src.bits(64).to_string(),
            };
            match src.below(4) {
                0 => shuffle(&mut u.cases, src, &|x| {
                    x.name = fresh.clone();
                    x.case = num.clone();
                }),
                1 => {
                    // Another scalar of the structures.
                    let i = src.idx(p.structs.len().max(1));
                    if let Some(st) = p.structs.get(i) {
                        if !st.fields.is_empty() {
                            u.disc = format!("{}.{}", st.name, src.pick(&st.fields).name);
                        }
                    }
                }
                k if !u.cases.is_empty() => {
                    let i = src.idx(u.cases.len());
                    if k == 2 {
                        u.cases[i].case = num;
                    } else {
                        u.cases[i].item = if src.one_in(3) { None } else { Some(src.pick(&types).clone()) };
                    }
                }
                _ => (),
            }
        }
        3 if !p.msgs.is_empty() => {
            let i = src.idx(p.msgs.len());
            let m = &mut p.msgs[i];
            if m.fields.is_empty() || src.one_in(3) {
                shuffle(&mut m.fields, src, &|x| x.name = fresh.clone());
                return;
            }
            let on = src.pick(&m.fields).name.clone();
            let i = src.idx(m.fields.len());
            let f = &mut m.fields[i];
            let max = *src.pick(&[0u64, 1, 3, 255, 256, 65535, 65536, 4294967295, 4294967296]);
            match src.below(3) {
                0 => f.optional = *src.pick(&[None, Some(true), Some(false)]),
                _ => f.kind = match src.below(7) {
                    0 | 1 if !types.is_empty() => MKind::Item(src.pick(&types).clone()),
                    2 | 3 if !types.is_empty() => MKind::List(max, src.pick(&types).clone()),
                    4 if !unions.is_empty() => MKind::Union { on, item: src.pick(&unions).clone() },
                    5 => MKind::Payload,
                    6 => MKind::Str(Some(max)),
                    _ => MKind::Str(None),
                },
            }
        }
        4 if !p.enums.is_empty() => {
            let i = src.idx(p.enums.len());
            let e = &mut p.enums[i];
            let k = src.idx(e.variants.len());
            let mut v = match src.below(3) {
                0 => src.below(8),
                1 => src.bits(16),
                _ => src.bits(58),
            };
            while e.variants.iter().any(|x| x.1 == v) {
                v += 1;
            }
            e.variants[k].1 = v;
        }
        _ => (),
    }
}

/// Resolved names visible to the protocol being built.
struct Scope {
    enums: Vec<Rc<REnum>>,
    structs: Vec<Rc<RStruct>>,
    unions: Vec<Rc<RUnion>>,
    msgs: Vec<Rc<RMsg>>,
}

impl<'a> G<'a> {
    fn type_name(&mut self) -> String {
        self.n += 1;
        let stem = if self.p.exotic { *self.src.pick(&TYPE_STEMS) } else { "Type" };
        format!("{}{}", stem, self.n)
    }

    fn field_name(&mut self, used: &mut HashSet<String>) -> String {
        let base = if self.p.exotic && self.src.one_in(3) { *self.src.pick(&TRICKY) } else { *self.src.pick(&PLAIN) };
        let mut name = base.to_string();
        let mut i = 0;
        while used.contains(&name.to_lowercase()) {
            i += 1;
            name = format!("{}{}", base, i);
        }
        used.insert(name.to_lowercase());
        name
    }

    fn scope(&self) -> Scope {
        let res = Res::new(&self.w).expect("generated world resolves");
        let p = res.protos.last().unwrap();
        // Sorted by the order of declaration, so that the choice does not depend on hashing.
        let all = |f: &dyn Fn(&Proto) -> Vec<String>| -> Vec<String> { self.w.protos.iter().flat_map(|p| f(p)).collect() };
        Scope {
            enums: all(&|p| p.enums.iter().map(|v| v.name.clone()).collect()).iter().filter_map(|k| p.find_enum(k).cloned()).collect(),
            structs: all(&|p| p.structs.iter().map(|v| v.name.clone()).collect()).iter().filter_map(|k| p.find_struct(k).cloned()).collect(),
            unions: all(&|p| p.unions.iter().map(|v| v.name.clone()).collect()).iter().filter_map(|k| p.find_union(k).cloned()).collect(),
            msgs: all(&|p| p.msgs.iter().map(|v| v.name.clone()).collect()).iter().filter_map(|k| p.find_msg(k).cloned()).collect(),
        }
    }

    fn cur(&mut self) -> &mut Proto {
        self.w.protos.last_mut().unwrap()
    }

    fn proto(&mut self, i: usize) {
        let mut p = Proto::new(&format!("{}{}", if self.p.exotic { *self.src.pick(&["proto", "net", "my_proto", "v", "n\u{e9}"]) } else { "proto" }, i));
        p.endian = match self.src.weighted(&[3, 1, 4]) {
            0 => Some(Endian::Little),
            1 => None,
            _ => Some(Endian::Big),
        };
        // Imports: own types of earlier protocols, or types these imported themselves.
        if i > 0 {
            for from in &self.w.protos {
                let mut names: Vec<String> = Vec::new();
                names.extend(from.enums.iter().map(|v| v.name.clone()));
                names.extend(from.structs.iter().map(|v| v.name.clone()));
                names.extend(from.unions.iter().map(|v| v.name.clone()));
                names.extend(from.msgs.iter().map(|v| v.name.clone()));
                names.extend(from.imports.iter().map(|v| v.1.clone()));
                for t in names {
                    if !p.imports.iter().any(|v| v.1 == t) && self.src.below(2) == 0 {
                        p.imports.push((from.name.clone(), t));
                    }
                }
            }
        }
        self.w.protos.push(p);
        for _ in 0..self.src.range(self.p.enums.0, self.p.enums.1) {
            let e = self.enumeration();
            self.cur().enums.push(e);
        }
        for _ in 0..self.src.range(self.p.structs.0, self.p.structs.1) {
            let s = self.structure(i);
            self.cur().structs.push(s);
        }
        // Messages which unions can refer to belong to earlier protocols only: unions come before messages.
        for _ in 0..self.src.range(self.p.unions.0, self.p.unions.1) {
            self.union(i);
        }
        for _ in 0..self.src.range(self.p.msgs.0, self.p.msgs.1) {
            let m = self.message(i);
            self.cur().msgs.push(m);
        }
        if self.p.msgs.1 > 0 && self.src.one_in(4) {
            self.chain(i);
        }
    }

    /// Messages one in the other, the innermost ending in a list, and more after the outermost: a list can be read
    /// lazily by itself and must not be deep in another message.
    fn chain(&mut self, me: usize) {
        let sc = self.scope();
        let items: Vec<String> = sc.msgs.iter().filter(|m| m.tail() != Tail::Payload && !foreign_lazy(m, me) && m.min_size() > 0).map(|m| m.name.clone()).collect();
        let heads: Vec<String> = sc.structs.iter().map(|s| s.name.clone()).collect();
        if items.is_empty() || heads.is_empty() {
            return;
        }
        let mut last: Option<String> = None;
        let depth = if self.src.one_in(8) { self.src.range(5, 9) } else { self.src.range(2, 4) };
        for k in 0..=depth {
            let mut m = MsgD { name: self.type_name(), fields: vec![] };
            let mut used = HashSet::new();
            for _ in 0..self.src.below(3) {
                let kind = if self.src.one_in(4) { MKind::Str(None) } else { MKind::Item(self.src.pick(&heads).clone()) };
                m.fields.push(MField { name: self.field_name(&mut used), kind, optional: None });
            }
            let mut name = self.field_name(&mut used);
            let optional = if self.src.one_in(4) { Some(true) } else { None };
            let kind = match &last {
                None => {
                    if name == "offsets" {
                        name = "offsets_".into();
                    }
                    MKind::List(self.max_len(), self.src.pick(&items).clone())
                }
                Some(v) => MKind::Item(v.clone()),
            };
            m.fields.push(MField { name, kind, optional });
            if k == depth {
                let name = self.field_name(&mut used);
                m.fields.push(MField { name, kind: MKind::Item(self.src.pick(&heads).clone()), optional: None });
            }
            last = Some(m.name.clone());
            self.cur().msgs.push(m);
        }
    }

    fn enumeration(&mut self) -> EnumD {
        let name = self.type_name();
        let many = self.src.one_in(3);
        let n = if self.src.one_in(24) { self.src.range(17, 70) } else { self.src.range(1, if many { 9 } else { 4 }) };
        let mut variants: Vec<(String, u64)> = Vec::new();
        let mut used = HashSet::new();
        let mut next = 0u64;
        let wide = self.src.one_in(4);
        let base = if self.p.exotic { &VARIANTS[..] } else { &VARIANTS[4..10] };
        for i in 0..n {
            let step = match self.src.weighted(&[4, 2, 1, 1]) {
                0 => 0,
                1 => 1,
                2 => self.src.below(8),
                _ if wide => {
                    let n = *self.src.pick(&[20, 40, 54, 58]);
                    self.src.bits(n)
                }
                _ => self.src.below(64),
            };
            let mut v = next + step;
            // The largest of a width.
            if wide && i + 1 == n && self.src.one_in(4) {
                let w = *self.src.pick(&[63, 32, 31, 16, 8]);
                if v < (1 << w) {
                    v = (1 << w) - 1;
                }
            }
            next = v + 1;
            let mut k = self.src.pick(base).to_string();
            if !used.insert(k.clone()) {
                k = format!("{}{}", k, i);
                used.insert(k.clone());
            }
            variants.push((k, v));
        }
        // Declared in any order.
        if self.src.one_in(3) {
            variants.reverse();
        }
        EnumD { name, variants }
    }

    fn width(&mut self) -> u64 {
        match self.src.weighted(&[3, 3, 2, 1]) {
            0 => *self.src.pick(&[8, 16, 32, 64]),
            1 => self.src.range(1, 12),
            2 => self.src.range(1, 64),
            _ => *self.src.pick(&[1, 7, 9, 15, 17, 24, 31, 33, 40, 48, 56, 57, 58, 59, 60, 61, 62, 63]),
        }
    }

    fn float_view(&mut self) -> View {
        let num = |s: &mut Src| -> f64 {
            let m = match s.below(5) {
                0 => *s.pick(&[3.141592653589793, 0.1234567890123, 123456.789012345, 0.3333333333333333]),
                // Six decimals.
                1 => (1 + s.below(1_000_000_000)) as f64 / 1e6,
                _ => *s.pick(&[1.0, 2.0, 0.5, 10.0, 0.1, 3.25, 100.0, 0.001, 360.0, 1e-6, 1e6, 32767.5]),
            };
            if s.one_in(3) { -m } else { m }
        };
        match self.src.weighted(&[3, 2]) {
            0 => loop {
                let a = if self.src.one_in(4) { 0.0 } else { num(self.src) };
                let b = num(self.src);
                if a != b && (a - b).abs() < 1e-3 * a.abs() {
                    continue;
                }
                if a < b {
                    return View::Range(a, b);
                }
                if b < a {
                    return if self.src.one_in(4) { View::Range(a, b) } else { View::Range(b, a) };
                }
                return View::Range(a, a.abs() + 1.0);
            },
            _ => View::Mult(num(self.src)),
        }
    }

    fn structure(&mut self, me: usize) -> StructD {
        let sc = self.scope();
        let endian = self.w.protos[me].endian.unwrap_or(Endian::Little);
        let name = self.type_name();
        let mut used = HashSet::new();
        let mut fields: Vec<SField> = Vec::new();
        let mut off = 0u64;
        // The bit order of the last, partial byte.
        let mut tail = endian;
        let n = if self.src.one_in(20) { self.src.range(17, 40) } else { self.src.range(self.p.sfields.0, self.p.sfields.1) };
        for _ in 0..n {
            if off % 8 != 0 && tail != endian {
                break;
            }
            let mut kind = self.src.weighted(&self.p.sw);
            if kind == 5 && sc.structs.is_empty() {
                kind = 0;
            }
            if kind >= 4 && off % 8 != 0 {
                let pad = 8 - off % 8;
                let name = self.field_name(&mut used);
                fields.push(SField { name, kind: SKind::Unsigned(pad), view: None, array_len: None });
                off += pad;
                tail = endian;
            }
            let mut name = self.field_name(&mut used);
            // Rarely, the name of another field but for its case.
            if !fields.is_empty() && self.src.one_in(12) {
                let other = self.src.pick(&fields).name.clone();
                let twin: String = other.chars().map(|c| if c.is_ascii_lowercase() { c.to_ascii_uppercase() } else { c.to_ascii_lowercase() }).collect();
                if !fields.iter().any(|f: &SField| f.name == twin) {
                    name = twin;
                }
            }
            let mut f = SField { name, kind: SKind::Unsigned(8), view: None, array_len: None };
            let view = self.p.view_in > 0 && self.src.below(self.p.view_in) == 0;
            match kind {
                0 => {
                    let mut bits = self.width();
                    if view && !sc.enums.is_empty() {
                        let e = self.src.pick(&sc.enums).clone();
                        let largest = e.variants.iter().map(|v| v.1).max().unwrap();
                        let least = (64 - largest.leading_zeros() as u64).max(1);
                        if bits < least || self.src.bool() {
                            // as tight as can be, or with a little room
                            bits = (least + self.src.below(3)).min(64);
                        }
                        f.view = Some(View::Enum(e.name.clone()));
                    }
                    f.kind = SKind::Unsigned(bits);
                    off += bits;
                }
                1 => {
                    let bits = self.width();
                    f.kind = SKind::Signed(bits);
                    off += bits;
                }
                2 => {
                    let bits = match self.src.weighted(&[3, 3, 1]) {
                        0 => 1,
                        1 => self.src.range(1, 8),
                        _ => self.width(),
                    };
                    f.kind = SKind::Bool(bits);
                    off += bits;
                }
                3 => {
                    let bits = if view || self.src.one_in(3) {
                        f.view = Some(self.float_view());
                        self.width()
                    } else {
                        *self.src.pick(&[32, 64])
                    };
                    f.kind = SKind::Float(bits);
                    off += bits;
                }
                4 => {
                    let bits = *self.src.pick(&[8, 16, 32, 64, 24, 40, 48, 56]);
                    f.kind = match self.src.weighted(&[4, 2, 1, 1]) {
                        0 => SKind::Unsigned(bits),
                        1 => SKind::Signed(bits),
                        2 => SKind::Float(if bits % 32 == 0 { bits } else { 32 }),
                        _ => SKind::Bool(bits),
                    };
                    let bits = scalar_ty(&f.kind).unwrap().1;
                    let huge = self.p.huge > 0 && off < 8 * 1000 && bits >= 32 && self.src.one_in(self.p.huge);
                    let long = self.p.long && off < 8 * 1000 && self.src.one_in(16);
                    let len = match self.src.weighted(&[5, 3, 1]) {
                        // More bytes than fit 16 bits.
                        _ if huge => 0x10000 / (bits / 8) + self.src.range(0, 9),
                        // More items, or more bytes, than fit a small count.
                        _ if long => *self.src.pick(&[255, 256, 257, 300, 600]),
                        0 => self.src.range(2, 4),
                        1 => self.src.range(2, 9),
                        _ => self.src.range(2, 40),
                    };
                    f.array_len = Some(len);
                    off += len * bits;
                }
                _ => {
                    let s = self.src.pick(&sc.structs).clone();
                    if s.size > 200 || s.depth() > 4 {
                        f.kind = SKind::Unsigned(8);
                        off += 8;
                    } else {
                        f.kind = SKind::Struct(s.name.clone());
                        off += s.bits;
                        if let Some(e) = s.trailing_endian() {
                            tail = e;
                        }
                        fields.push(f);
                        continue;
                    }
                }
            }
            // A field spelled as an array of one item is a plain field.
            if f.array_len.is_none() && self.src.one_in(24) {
                f.array_len = Some(1);
            }
            tail = endian;
            fields.push(f);
        }
        StructD { name, fields }
    }

    fn union(&mut self, me: usize) {
        // The discriminant: an existing structure, or one made for the purpose.
        if self.src.below(3) != 0 || self.scope().structs.is_empty() {
            let d = self.discriminant_struct();
            self.cur().structs.push(d);
            // The discriminant may be found at any depth.
            if self.src.one_in(3) {
                let depth = self.src.range(1, 3);
                for _ in 0..depth {
                    let w = self.wrapper_struct();
                    self.cur().structs.push(w);
                }
            }
        }
        let sc = self.scope();
        let mut cands = Vec::new();
        for s in &sc.structs {
            if s.flat().is_some() {
                continue;
            }
            for l in s.leaves() {
                if let RF::Scalar(x) = &l.f {
                    if !x.ty.is_float() {
                        cands.push((s.clone(), l.path.clone(), x.clone()));
                    }
                }
            }
        }
        if cands.is_empty() {
            return;
        }
        // The latest candidates are those made for the purpose.
        let (root, path, leaf) = if self.src.below(3) != 0 {
            let last = cands.iter().rev().take_while(|c| Rc::ptr_eq(&c.0, &cands.last().unwrap().0)).count();
            cands[cands.len() - 1 - self.src.idx(last)].clone()
        } else {
            self.src.pick(&cands).clone()
        };
        let disc = root.path_name(&path);
        let name = self.type_name();
        let many = self.src.one_in(3);
        let n = if self.src.one_in(16) { self.src.range(9, 40) } else { self.src.range(1, if many { 6 } else { 3 }) };
        let mut raws = HashSet::new();
        let mut used = HashSet::new();
        let mut cases = Vec::new();
        for i in 0..n {
            let (case, raw) = match (&leaf.view, leaf.ty) {
                (RView::Enum(e), _) => {
                    let v = self.src.pick(&e.variants).clone();
                    (v.0, v.1)
                }
                (_, Ty::Bool) => {
                    let v = self.src.below(2);
                    (v.to_string(), v)
                }
                (_, t) if t.is_signed() => {
                    let raw = self.src.bits(leaf.bits as u32);
                    let v = sign(raw, leaf.bits);
                    (v.to_string(), raw)
                }
                _ => {
                    let raw = self.src.bits(leaf.bits as u32);
                    (raw.to_string(), raw)
                }
            };
            if !raws.insert(raw) {
                continue;
            }
            let base = if self.p.exotic { self.src.pick(&VARIANTS).to_string() } else { format!("Case{}", i) };
            let mut k = base.clone();
            if !used.insert(k.to_lowercase()) {
                k = format!("{}{}", base, i);
                used.insert(k.to_lowercase());
            }
            let item = match self.src.weighted(&[3, 2, 1]) {
                0 => Some(self.src.pick(&sc.structs).name.clone()),
                1 if !sc.msgs.is_empty() => Some(self.src.pick(&sc.msgs).name.clone()),
                1 => Some(self.src.pick(&sc.structs).name.clone()),
                _ => None,
            };
            cases.push(UCase { name: k, case, item });
        }
        let u = UnionD { name, disc, cases };
        self.w.protos[me].unions.push(u);
    }

    /// A structure around the last one declared.
    fn wrapper_struct(&mut self) -> StructD {
        let sc = self.scope();
        let inner = sc.structs.last().expect("declared structure").clone();
        let name = self.type_name();
        let mut used = HashSet::new();
        let mut fields = Vec::new();
        if self.src.below(3) != 0 {
            let name = self.field_name(&mut used);
            fields.push(SField { name, kind: SKind::Unsigned(8 * self.src.range(1, 3)), view: None, array_len: None });
        }
        let n = if inner.bits % 8 == 0 && inner.size <= 20 { self.src.range(1, 2) } else { 1 };
        for _ in 0..n {
            let name = self.field_name(&mut used);
            fields.push(SField { name, kind: SKind::Struct(inner.name.clone()), view: None, array_len: None });
        }
        if inner.bits % 8 == 0 && self.src.below(3) == 0 {
            let name = self.field_name(&mut used);
            fields.push(SField { name, kind: SKind::Unsigned(8), view: None, array_len: None });
        }
        StructD { name, fields }
    }

    fn discriminant_struct(&mut self) -> StructD {
        let sc = self.scope();
        let name = self.type_name();
        let mut used = HashSet::new();
        let mut fields = Vec::new();
        let pre = self.src.below(4);
        if pre > 0 {
            let name = self.field_name(&mut used);
            fields.push(SField { name, kind: SKind::Unsigned(if pre == 1 { 8 } else { self.width() }), view: None, array_len: None });
        }
        let name2 = self.field_name(&mut used);
        let mut f = SField { name: name2, kind: SKind::Unsigned(8), view: None, array_len: None };
        match self.src.weighted(&[3, 2, 2, 1]) {
            0 => f.kind = SKind::Unsigned(self.width()),
            1 if !sc.enums.is_empty() => {
                let e = self.src.pick(&sc.enums).clone();
                let largest = e.variants.iter().map(|v| v.1).max().unwrap();
                let least = (64 - largest.leading_zeros() as u64).max(1);
                f.kind = SKind::Unsigned((least + self.src.below(4)).min(64));
                f.view = Some(View::Enum(e.name.clone()));
            }
            1 => (),
            2 => f.kind = SKind::Signed(self.width()),
            _ => f.kind = SKind::Bool(self.src.range(1, 8)),
        }
        fields.push(f);
        let name3 = self.field_name(&mut used);
        fields.push(SField { name: name3, kind: SKind::Unsigned(self.src.range(1, 16)), view: None, array_len: None });
        StructD { name, fields }
    }

    fn max_len(&mut self) -> u64 {
        *self.src.pick(&[255, 10, 256, 65535, 65536, 1, 100, 254, 1000, 100000, 65534, 4294967295, 4294967296, 0, 5000000000])
    }

    fn message(&mut self, me: usize) -> MsgD {
        let name = self.type_name();
        let mut used = HashSet::new();
        let mut m = MsgD { name, fields: vec![] };
        let n = if self.src.one_in(20) { self.src.range(9, 20) } else { self.src.range(self.p.mfields.0, self.p.mfields.1) };
        for _ in 0..n {
            // The state of the message so far is that of the resolved partial world.
            let sc = {
                self.cur().msgs.push(m.clone());
                let sc = self.scope();
                self.cur().msgs.pop();
                sc
            };
            let rm = sc.msgs.last().unwrap().clone();
            let msgs = &sc.msgs[..sc.msgs.len() - 1];
            if rm.tail() == Tail::Payload {
                break;
            }
            if foreign_lazy(&rm, me) {
                break;
            }
            let elemdyn = rm.elemdyn;
            let ok_dyn = |d: bool| !elemdyn || !d;
            let kind = self.src.weighted(&self.p.mw);
            let items: Vec<&Rc<RMsg>> = msgs.iter().filter(|m| ok_dyn(m.dynsized)).collect();
            let item = |g: &mut Self| -> Option<MKind> {
                if !items.is_empty() && (sc.structs.is_empty() || g.src.below(5) < 2) {
                    let m = *g.src.pick(&items);
                    return Some(MKind::Item(m.name.clone()));
                }
                if sc.structs.is_empty() {
                    return None;
                }
                Some(MKind::Item(g.src.pick(&sc.structs).name.clone()))
            };
            let kind = match kind {
                1 if ok_dyn(true) => Some(MKind::Str(None)),
                2 if ok_dyn(true) => Some(MKind::Str(Some(self.max_len()))),
                3 if ok_dyn(true) => {
                    let s: Vec<&Rc<RStruct>> = sc.structs.iter().filter(|s| s.size > 0).collect();
                    if s.is_empty() {
                        None
                    } else {
                        let t = self.src.pick(&s).name.clone();
                        Some(MKind::List(self.max_len(), t))
                    }
                }
                4 if ok_dyn(true) => {
                    let s: Vec<&Rc<RMsg>> = msgs.iter().filter(|m| m.tail() != Tail::Payload && !foreign_lazy(m, me)).collect();
                    if s.is_empty() {
                        item(self)
                    } else {
                        let t = self.src.pick(&s).to_owned().clone();
                        // Items of no bytes are as many as their prefix says: few.
                        let max = self.max_len();
                        Some(MKind::List(if t.min_size() == 0 { max.min(255) } else { max }, t.name.clone()))
                    }
                }
                5 => {
                    let us: Vec<&Rc<RUnion>> = sc.unions.iter().filter(|u| ok_dyn(u.dynsized)).collect();
                    let mut pairs = Vec::new();
                    for u in &us {
                        for (i, f) in rm.fields.iter().enumerate() {
                            if let RMK::Struct(s) = &f.kind {
                                let other = rm.fields.iter().any(|x| match &x.kind {
                                    RMK::Union(on, y) => *on == i && !Rc::ptr_eq(y, u),
                                    _ => false,
                                });
                                if !f.optional && !other && Rc::ptr_eq(s, &u.root) {
                                    pairs.push((f.name.clone(), u.name.clone()));
                                }
                            }
                        }
                    }
                    if pairs.is_empty() || self.src.one_in(4) {
                        // Add what a union needs first; the union may come next.
                        let roots: Vec<&Rc<RUnion>> = us.iter().copied().filter(|u| sc.structs.iter().any(|s| Rc::ptr_eq(s, &u.root))).collect();
                        if roots.is_empty() {
                            item(self)
                        } else {
                            let u = self.src.pick(&roots).to_owned().clone();
                            let on = self.field_name(&mut used);
                            m.fields.push(MField { name: on.clone(), kind: MKind::Item(u.root.name.clone()), optional: None });
                            // Another one like it, its name a longer one.
                            let more = format!("{}{}", on, self.src.pick(&["z", "20", "_", "_id"]));
                            if self.src.one_in(3) && used.insert(more.to_lowercase()) {
                                m.fields.push(MField { name: more.clone(), kind: MKind::Item(u.root.name.clone()), optional: None });
                                if self.src.below(2) == 0 {
                                    let last = m.fields.len() - 1;
                                    m.fields.swap(last - 1, last);
                                }
                                Some(MKind::Union { on: if self.src.below(2) == 0 { more } else { on }, item: u.name.clone() })
                            } else {
                                Some(MKind::Union { on, item: u.name.clone() })
                            }
                        }
                    } else {
                        let (on, item) = self.src.pick(&pairs).clone();
                        Some(MKind::Union { on, item })
                    }
                }
                6 if ok_dyn(true) => Some(MKind::Payload),
                _ => item(self),
            };
            if let Some(kind) = kind {
                let mut name = self.field_name(&mut used);
                // The type of an array field is named after the message and the field: M + Offsets is taken.
                if name == "offsets" && matches!(kind, MKind::List(..)) {
                    name = "offsets_".into();
                    used.insert(name.clone());
                }
                let optional = match &kind {
                    MKind::Union { .. } => None,
                    _ => [None, Some(true), None, Some(false)][self.src.weighted(&[4, 3, 1, 1])],
                };
                m.fields.push(MField { name, kind, optional });
            }
        }
        m
    }
}

// ---------------------------------------------------------------------------------------------
// Values

pub struct Vals<'a> {
    pub src: &'a mut Src,
    /// Roughly how many more bytes the value may take.
    pub budget: i64,
    /// The length one string, array or list of the value is to have, when its prefix allows it.
    pub bulk: Option<usize>,
}

pub fn text(src: &mut Src, n: usize, nul: bool) -> String {
    let style = src.weighted(&[3, 2, 1]);
    (0..n)
        .map(|_| match style {
            0 => (b'a' + src.below(26) as u8) as char,
            1 => *src.pick(&['a', 'é', '漢', '🎉', ' ', '\n', '\u{7f}', '\u{80}', 'Z', '\u{ffff}', '"']),
            _ => {
                let c = if nul { src.below(0x300) } else { src.range(1, 0x300) };
                char::from_u32(c as u32).unwrap_or('?')
            }
        })
        .collect()
}

impl<'a> Vals<'a> {
    pub fn new(src: &'a mut Src, budget: i64) -> Self {
        Vals { src, budget, bulk: None }
    }

    fn count(&mut self, each: usize, cap: u64) -> usize {
        if self.budget <= 0 {
            return 0;
        }
        let most = (self.budget as u64 / (each.max(1) as u64)).min(cap);
        self.src.len(most.min(40) as usize)
    }

    pub fn structure(&mut self, s: &RStruct) -> Vec<u8> {
        self.budget -= s.size as i64;
        self.src.bytes(s.size)
    }

    pub fn reference(&mut self, r: &RRef) -> Val {
        match r {
            RRef::Struct(s) => Val::S(self.structure(s)),
            RRef::Msg(m) => self.message(m),
        }
    }

    /// The length of the field being built, if it is the long one.
    fn long(&mut self, cap: u64, each: usize) -> Option<usize> {
        if self.bulk.is_some() && self.src.below(3) != 0 {
            let n = self.bulk.take()?;
            return Some((n as u64).min(cap).min((600_000 / each.max(1)) as u64) as usize);
        }
        None
    }

    pub fn string(&mut self, cap: u64, nul: bool) -> Val {
        if let Some(n) = self.long(cap, 1) {
            let c = *self.src.pick(&['a', 'é', '漢']);
            let mut t: String = std::iter::repeat(c).take(n / c.len_utf8()).collect();
            t.extend(std::iter::repeat('b').take(n - t.len()));
            return Val::Str(t);
        }
        // Lengths at the edge of a prefix are likely when the budget allows it.
        let n = if self.budget > 300 && self.src.one_in(12) {
            let n = (*self.src.pick(&[255u64, 254, 256, 257])).min(cap) as usize;
            self.budget -= n as i64;
            let c = *self.src.pick(&['a', 'b']);
            return Val::Str(std::iter::repeat(c).take(n).collect());
        } else {
            self.count(1, cap / 4)
        };
        self.budget -= n as i64;
        Val::Str(text(self.src, n, nul))
    }

    pub fn message(&mut self, m: &RMsg) -> Val {
        self.budget -= 1;
        let mut vals: Vec<Val> = Vec::new();
        for i in 0..m.fields.len() {
            let f = &m.fields[i];
            if f.optional {
                let there = self.budget > 0 && self.src.below(3) != 0;
                let v = if there { Some(Box::new(self.field(m, i, &mut vals))) } else { None };
                vals.push(Val::Opt(v));
            } else {
                let v = self.field(m, i, &mut vals);
                vals.push(v);
            }
        }
        Val::Msg(vals)
    }

    fn field(&mut self, m: &RMsg, i: usize, vals: &mut Vec<Val>) -> Val {
        match &m.fields[i].kind {
            RMK::Flat(t, _) => {
                let bits = t.size() as u32 * 8;
                let raw = self.src.bits(bits);
                match t {
                    Ty::Bool => Val::B(raw & 1 == 1),
                    t => plain(*t, bits as u64, raw),
                }
            }
            RMK::Struct(s) => {
                let mut b = self.structure(s);
                // The unions on this field decide its discriminant.
                let u = m.fields.iter().find_map(|f| match &f.kind {
                    RMK::Union(on, u) if *on == i => Some(u),
                    _ => None,
                });
                if let Some(u) = u {
                    let c = self.src.pick(&u.cases);
                    set_bits(&mut b, u.leaf_off, u.leaf.bits, u.leaf.endian, c.raw);
                }
                Val::S(b)
            }
            RMK::Msg(x) => self.message(x),
            RMK::Nts => self.string(u64::MAX, false),
            RMK::Varchar(p) => self.string(mask(*p as u64 * 8), true),
            RMK::Array(p, s) => {
                if let Some(n) = self.long(mask(*p as u64 * 8), s.size) {
                    let some: Vec<Vec<u8>> = (0..3).map(|_| self.src.bytes(s.size)).collect();
                    return Val::Arr((0..n).map(|i| some[i % 3].clone()).collect());
                }
                let n = if self.budget > 300 * s.size as i64 && self.src.one_in(12) { 255 } else { self.count(s.size, 255) };
                Val::Arr((0..n).map(|_| self.structure(s)).collect())
            }
            RMK::List(p, x) => {
                if self.bulk.is_some() {
                    let b = self.bulk.take();
                    let some: Vec<Val> = (0..3).map(|i| Vals::new(self.src, i * 6).message(x)).collect();
                    let each = some.iter().filter_map(|v| encoded(x, v).ok()).map(|b| b.len()).max().unwrap_or(1);
                    self.bulk = b;
                    if let Some(n) = self.long(mask(*p as u64 * 8), each) {
                        return list((0..n).map(|i| some[i % 3].clone()).collect());
                    }
                }
                let n = self.count(x.min_size() + 2, 255).min(8);
                list((0..n).map(|_| self.message(x)).collect())
            }
            RMK::Union(on, u) => {
                let d = match &vals[*on] {
                    Val::S(b) => disc_of(u, b),
                    _ => unreachable!(),
                };
                let c = u.cases.iter().position(|c| c.raw == d).expect("discriminant of a case");
                Val::Un(c, u.cases[c].item.as_ref().map(|r| Box::new(self.reference(r))))
            }
            RMK::Payload => {
                let n = self.count(1, 100);
                Val::Pay(self.src.bytes(n))
            }
        }
    }
}

/// A value of the message; now and then with a long string, array or list.
pub fn value(m: &RMsg, src: &mut Src) -> Val {
    sized(m, src, true)
}

/// `value`, without lengths beyond some hundreds.
pub fn modest(m: &RMsg, src: &mut Src) -> Val {
    sized(m, src, false)
}

fn sized(m: &RMsg, src: &mut Src, huge: bool) -> Val {
    let budget = *src.pick(&[60, 20, 200, 600]);
    let bulk = match src.weighted(&[60, 2, 1]) {
        0 => None,
        2 if huge => Some(*src.pick(&[65536usize, 65535, 65537, 70000])),
        _ => Some(*src.pick(&[256usize, 255, 257, 300])),
    };
    let mut g = Vals::new(src, budget);
    g.bulk = bulk;
    g.message(m)
}

/// Kinds of fields a value exercises, to classify cases.
pub fn richness(m: &RMsg, v: &Val) -> usize {
    let vals = match v {
        Val::Msg(v) => v,
        _ => return 0,
    };
    m.fields.iter().zip(vals).map(|(f, v)| {
        let v = match v {
            Val::Opt(None) => return 0,
            Val::Opt(Some(v)) => v,
            v => v,
        };
        match (&f.kind, v) {
            (RMK::Msg(m), v) => richness(m, v),
            (RMK::Struct(s), _) => (s.size > 0) as usize,
            (_, Val::Str(s)) => !s.is_empty() as usize,
            (_, Val::Arr(s)) => !s.is_empty() as usize,
            (_, Val::List(s)) => !s.items.is_empty() as usize,
            (_, Val::Pay(s)) => !s.is_empty() as usize,
            (_, Val::Un(_, x)) => x.is_some() as usize,
            _ => 1,
        }
    }).sum()
}

// ---------------------------------------------------------------------------------------------
// Hostile bytes

struct Hostile<'a> {
    src: &'a mut Src,
    budget: i64,
}

impl<'a> Hostile<'a> {
    fn evil(&mut self) -> bool {
        self.src.one_in(14)
    }

    fn num(&mut self, out: &mut Vec<u8>, v: u64, size: usize, e: Endian) {
        for i in 0..size {
            let sh = if e == Endian::Little { i } else { size - 1 - i };
            out.push((v >> (8 * sh)) as u8);
        }
    }

    fn length(&mut self, out: &mut Vec<u8>, n: usize, size: usize, e: Endian) {
        let mut v = n as u64;
        if self.evil() {
            v = match self.src.weighted(&[1, 1, 1, 1, 1, 1]) {
                0 => v + 1,
                1 => v.wrapping_sub(1),
                2 => u64::MAX,
                3 => self.src.bits(size as u32 * 8),
                4 => v << 8,
                _ => (1u64 << 63) + v,
            };
        }
        self.num(out, v, size, e);
    }

    fn count(&mut self, each: usize) -> usize {
        if self.budget <= 0 {
            return 0;
        }
        let most = self.budget as usize / each.max(1);
        self.src.len(most.min(12))
    }

    fn text(&mut self, out: &mut Vec<u8>, nul: bool) {
        let n = self.count(1);
        let s = text(self.src, n, nul);
        let at = out.len();
        out.extend_from_slice(s.as_bytes());
        if self.evil() {
            let bad: &[u8] = *self.src.pick(&[&[0xFFu8][..], &[0xC3], &[0xE6, 0xBC], &[0xED, 0xA0, 0x80], &[0xC0, 0x80], &[0xF4, 0x90, 0x80, 0x80]]);
            let p = at + self.src.idx(out.len() - at + 1);
            for (i, b) in bad.iter().enumerate() {
                out.insert(p + i, *b);
            }
        }
    }

    fn reference(&mut self, r: &RRef, out: &mut Vec<u8>) {
        match r {
            RRef::Struct(s) => {
                self.budget -= s.size as i64;
                out.extend(self.src.bytes(s.size));
            }
            RRef::Msg(m) => self.message(m, out),
        }
    }

    fn message(&mut self, m: &RMsg, out: &mut Vec<u8>) {
        self.budget -= 1;
        let mut starts = Vec::new();
        for (i, f) in m.fields.iter().enumerate() {
            if f.optional {
                let v = match self.src.weighted(&[4, 8, 2]) {
                    0 => 0u8,
                    1 => 1,
                    _ => self.src.below(256) as u8,
                };
                out.push(v);
                if v == 0 {
                    starts.push(out.len());
                    continue;
                }
            }
            starts.push(out.len());
            match &f.kind {
                RMK::Flat(t, _) => out.extend(self.src.bytes(t.size())),
                RMK::Struct(s) => {
                    let mut b = self.src.bytes(s.size);
                    let u = m.fields.iter().find_map(|f| match &f.kind {
                        RMK::Union(on, u) if *on == i => Some(u),
                        _ => None,
                    });
                    if let Some(u) = u {
                        let c = self.src.pick(&u.cases);
                        if !self.evil() {
                            set_bits(&mut b, u.leaf_off, u.leaf.bits, u.leaf.endian, c.raw);
                        }
                    }
                    self.budget -= s.size as i64;
                    out.extend(b);
                }
                RMK::Msg(x) => self.message(x, out),
                RMK::Nts => {
                    self.text(out, false);
                    if !self.evil() {
                        out.push(0);
                    }
                }
                RMK::Varchar(p) => {
                    let mut b = Vec::new();
                    self.text(&mut b, true);
                    self.length(out, b.len(), *p, m.endian);
                    out.extend(b);
                }
                RMK::Array(p, s) => {
                    let n = self.count(s.size);
                    self.length(out, n, *p, m.endian);
                    self.budget -= (n * s.size) as i64;
                    out.extend(self.src.bytes(n * s.size));
                }
                RMK::List(p, x) => {
                    let n = self.count(x.min_size() + 2).min(6);
                    self.length(out, n, *p, m.endian);
                    for _ in 0..n {
                        self.message(x, out);
                    }
                }
                RMK::Union(on, u) => {
                    let at = starts[*on];
                    let d = match &m.fields[*on].kind {
                        RMK::Struct(s) if at + s.size <= out.len() => disc_of(u, &out[at..at + s.size]),
                        _ => 0,
                    };
                    if let Some(c) = u.cases.iter().find(|c| c.raw == d) {
                        if let Some(r) = &c.item {
                            self.reference(r, out);
                        }
                    }
                }
                RMK::Payload => {
                    let n = self.count(1);
                    out.extend(self.src.bytes(n));
                }
            }
        }
    }
}

fn mutate(b: &mut Vec<u8>, src: &mut Src) {
    let n = src.below(4);
    for _ in 0..n {
        if b.is_empty() {
            b.push(src.below(256) as u8);
            continue;
        }
        let i = src.idx(b.len());
        match src.weighted(&[3, 3, 2, 2, 2, 1]) {
            0 => b[i] ^= 1 << src.below(8),
            1 => b[i] = *src.pick(&[0, 1, 0xFF, 0x80, 2, 0x7F]),
            2 => b.truncate(i),
            3 => {
                let v = src.below(256) as u8;
                b.insert(i, v);
            }
            4 => {
                b.remove(i);
            }
            _ => b[i] = src.below(256) as u8,
        }
    }
}

/// Bytes to read a message from: nearly valid, random, cut or followed by something.
pub fn hostile(m: &RMsg, src: &mut Src) -> Vec<u8> {
    let mut out = Vec::new();
    match src.weighted(&[120, 60, 20, 3]) {
        0 => {
            let budget = *src.pick(&[40, 15, 150]);
            Hostile { src, budget }.message(m, &mut out);
            match src.weighted(&[4, 2, 2]) {
                0 => (),
                1 => {
                    let n = src.len(8);
                    out.extend(src.bytes(n));
                }
                _ => {
                    let n = src.idx(out.len() + 1);
                    out.truncate(n);
                }
            }
        }
        1 => {
            let budget = *src.pick(&[40, 15, 150]);
            Hostile { src, budget }.message(m, &mut out);
            mutate(&mut out, src);
        }
        2 => {
            let n = src.len(64);
            out = src.bytes(n);
        }
        _ => {
            let n = *src.pick(&[256usize, 255, 300, 65535, 65536, 70000]);
            let mut g = Vals::new(src, 60);
            g.bulk = Some(n);
            let v = g.message(m);
            out = encoded(m, &v).unwrap_or_default();
            if src.bool() {
                mutate(&mut out, src);
            }
        }
    }
    out
}
