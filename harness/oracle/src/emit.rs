//! Emits the glue of a world: Rust text connecting the generated code to the tables of `vt`.

use crate::resolve::*;
use crate::schema::Endian;
use std::fmt::Write as _;

pub const PRELUDE: &str = r#"
#![allow(warnings)]
use oracle::model::*;
use oracle::vt::*;
use bp3d_proto::message::{FromSlice, FromSliceWithOffsets, WriteTo};
use std::io::Write as IoWrite;

fn ek(e: bp3d_proto::message::Error) -> EK {
    use bp3d_proto::message::Error as E;
    match e {
        E::InvalidUtf8 => EK::Utf8,
        E::Truncated => EK::Truncated,
        E::LengthOverflow(_) => EK::LengthOverflow,
        E::InteriorNul => EK::Nul,
        E::InvalidUnionDiscriminant(v) => EK::BadDisc(v as u64),
        E::Io(e) => EK::Io(format!("{:?}", e.kind())),
        e => EK::Other(e.to_string()),
    }
}
fn sb(v: &Val) -> &[u8] { match v { Val::S(b) => b, _ => panic!("oracle: struct value") } }
fn pay(v: &Val) -> &[u8] { match v { Val::Pay(b) => b, _ => panic!("oracle: payload value") } }
fn st(v: &Val) -> &str { match v { Val::Str(b) => b, _ => panic!("oracle: string value") } }
fn opt(v: &Val) -> Option<&Val> { match v { Val::Opt(b) => b.as_deref(), _ => panic!("oracle: optional value") } }
fn fields(v: &Val) -> &[Val] { match v { Val::Msg(b) => b, _ => panic!("oracle: message value") } }
fn cat(v: &Val) -> Vec<u8> { match v { Val::Arr(b) => b.concat(), _ => panic!("oracle: array value") } }
fn count(v: &Val) -> usize { match v { Val::Arr(b) => b.len(), Val::List(l) => l.items.len(), _ => panic!("oracle: list value") } }
fn litems(v: &Val) -> &[Val] { match v { Val::List(l) => &l.items, _ => panic!("oracle: list value") } }
fn lval(len: usize, items: Vec<Val>, r: (usize, usize, bool)) -> Val {
    if r.2 { return Val::Pay(b"list iteration did not end".to_vec()); }
    Val::List(LVal { len: len as u64, items, err: r.1 > 0 })
}
fn aval(len: usize, items: Vec<Vec<u8>>) -> Val {
    if len != items.len() { return Val::Pay(format!("array of {} items yields {}", len, items.len()).into_bytes()); }
    Val::Arr(items)
}
fn sbytes(v: &dyn SView) -> Vec<u8> { v.bytes().expect("writing a structure to a vector") }
fn wr<M: WriteTo<Input = M>>(m: &M) -> Result<Vec<u8>, EK> { let mut o = Vec::new(); M::write_to(m, &mut o).map_err(ek)?; Ok(o) }
fn run_of(items: Vec<Val>, r: (usize, usize, bool)) -> IterRun { IterRun { items, errors: r.1, overrun: r.2 } }
"#;

/// The Rust path of a declared type.
struct Cx {
    w: usize,
    protos: Vec<String>,
}

impl Cx {
    fn p(&self, proto: usize, name: &str) -> String {
        format!("crate::w{}::{}::{}", self.w, self.protos[proto], name)
    }
}

pub fn cap(v: &str) -> String {
    let mut c = v.chars();
    match c.next() {
        None => String::new(),
        Some(f) => format!("{}{}", f.to_ascii_uppercase(), c.as_str()),
    }
}

fn to_val(ty: Ty, e: &str) -> String {
    match ty {
        Ty::Bool => format!("Val::B({})", e),
        Ty::F32 => format!("Val::F32(({}).to_bits())", e),
        Ty::F64 => format!("Val::F64(({}).to_bits())", e),
        t if t.is_signed() => format!("Val::I(({}) as i64)", e),
        _ => format!("Val::U(({}) as u64)", e),
    }
}

fn from_val(ty: Ty, v: &str) -> String {
    match ty {
        Ty::Bool => format!("(unplain({}) != 0)", v),
        Ty::F32 => format!("f32::from_bits(unplain({}) as u32)", v),
        Ty::F64 => format!("f64::from_bits(unplain({}))", v),
        t => format!("(unplain({}) as {})", v, t.rust()),
    }
}

fn arm(out: &mut String, i: usize, body: &str) {
    let _ = writeln!(out, "            {} => {{ {} }}", i, body);
}

fn method(out: &mut String, sig: &str, arms: &str, other: &str) {
    let _ = writeln!(out, "    fn {} {{\n        match f {{\n{}            _ => {}\n        }}\n    }}", sig, arms, other);
}

fn emit_struct(c: &Cx, s: &RStruct, out: &mut String) {
    let path = c.p(s.proto, &s.name);
    let bad = "panic!(\"oracle: no such field\")";
    let mut m: Vec<String> = vec![String::new(); 12];
    for (i, f) in s.fields.iter().enumerate() {
        let n = &f.name;
        match &f.f {
            RF::Scalar(sc) => {
                arm(&mut m[0], i, &format!("self.get_raw_{}() as u64", n));
                let body = match &sc.view {
                    RView::Enum(e) => {
                        let ep = c.p(e.proto, &e.name);
                        let arms: Vec<String> = e.variants.iter().map(|(k, v)| format!("Some({}::{}) => Some({}u64)", ep, k, v)).collect();
                        format!("Val::E(match self.get_{}() {{ None => None, {} }})", n, arms.join(", "))
                    }
                    _ => to_val(sc.ty, &format!("self.get_{}()", n)),
                };
                arm(&mut m[1], i, &body);
                arm(&mut m[7], i, &format!("self.set_raw_{}(v as {});", n, raw_ty(sc.bits).rust()));
                let body = match &sc.view {
                    RView::Enum(e) => {
                        let ep = c.p(e.proto, &e.name);
                        let arms: Vec<String> = e.variants.iter().map(|(k, v)| format!("{}u64 => {}::{}", v, ep, k)).collect();
                        format!("self.set_{}(match unplain(v) {{ {}, _ => {} }});", n, arms.join(", "), bad)
                    }
                    _ => format!("self.set_{}({});", n, from_val(sc.ty, "v")),
                };
                arm(&mut m[8], i, &body);
            }
            RF::Array(a) => {
                arm(&mut m[2], i, &format!("self.get_{}().len()", n));
                arm(&mut m[3], i, &to_val(a.ty, &format!("self.get_{}().get_raw(i)", n)));
                arm(&mut m[4], i, &format!("self.get_{}().iter_raw().map(|v| {}).collect()", n, to_val(a.ty, "v")));
                if a.ty == Ty::U8 && a.item_bits == 8 {
                    arm(&mut m[5], i, &format!("Some(AsRef::<[u8]>::as_ref(&self.get_{}()).to_vec())", n));
                    arm(&mut m[10], i, &format!("AsMut::<[u8]>::as_mut(&mut self.get_{}_mut()).copy_from_slice(b); true", n));
                }
                arm(&mut m[9], i, &format!("self.get_{}_mut().set_raw(i, {});", n, from_val(a.ty, "v")));
            }
            RF::Nested(_) => {
                arm(&mut m[6], i, &format!("g(&self.get_{}())", n));
                arm(&mut m[11], i, &format!("g(&mut self.get_{}_mut())", n));
            }
        }
    }
    let _ = writeln!(out, "impl<T: AsRef<[u8]>> SView for {}<T> {{", path);
    method(out, "get_raw(&self, f: usize) -> u64", &m[0], bad);
    method(out, "get(&self, f: usize) -> Val", &m[1], bad);
    method(out, "arr_len(&self, f: usize) -> usize", &m[2], bad);
    method(out, "arr_get(&self, f: usize, i: usize) -> Val", &m[3], bad);
    method(out, "arr_iter(&self, f: usize) -> Vec<Val>", &m[4], bad);
    method(out, "arr_bytes(&self, f: usize) -> Option<Vec<u8>>", &m[5], "None");
    method(out, "nested(&self, f: usize, g: &mut dyn FnMut(&dyn SView))", &m[6], bad);
    let _ = writeln!(out, "    fn reborrow(&self, g: &mut dyn FnMut(&dyn SView)) {{ g(&self.to_ref()) }}");
    let _ = writeln!(out, "    fn bytes(&self) -> Result<Vec<u8>, EK> {{ wr(&self.to_ref()) }}\n}}");
    let _ = writeln!(out, "impl<T: AsRef<[u8]> + AsMut<[u8]>> SViewMut for {}<T> {{", path);
    method(out, "set_raw(&mut self, f: usize, v: u64)", &m[7], bad);
    method(out, "set(&mut self, f: usize, v: &Val)", &m[8], bad);
    method(out, "arr_set(&mut self, f: usize, i: usize, v: &Val)", &m[9], bad);
    method(out, "arr_fill(&mut self, f: usize, b: &[u8]) -> bool", &m[10], "false");
    method(out, "nested_mut(&mut self, f: usize, g: &mut dyn FnMut(&mut dyn SViewMut))", &m[11], bad);
    let _ = writeln!(out, "    fn reborrow_mut(&mut self, g: &mut dyn FnMut(&mut dyn SViewMut)) {{ g(&mut self.to_mut()) }}\n}}");
    let _ = write!(out, r#"
fn s_{p}_{n}() -> StructVt {{
    type S<T> = {path}<T>;
    fn view(b: &[u8], how: u8, g: &mut dyn FnMut(&dyn SView)) {{
        match how {{
            0 => g(&S::new(b)),
            1 => g(&<S<&[u8]> as From<&[u8]>>::from(b)),
            2 => g(&S::new(b.to_vec())),
            _ => {{ let o = S::new(b); g(&o.to_ref()) }}
        }}
    }}
    fn view_mut(b: &mut [u8], how: u8, g: &mut dyn FnMut(&mut dyn SViewMut)) {{
        match how {{
            0 => g(&mut S::new(b)),
            1 => g(&mut <S<&mut [u8]> as From<&mut [u8]>>::from(b)),
            2 => {{ let mut o = S::new(b); g(&mut o.to_mut()) }}
            _ => g(&mut S::new_on_stack())
        }}
    }}
    fn from_slice(b: &[u8]) -> Result<(usize, Vec<u8>), EK> {{
        let m = <S<&[u8]> as FromSlice>::from_slice(b).map_err(ek)?;
        let n = m.size();
        Ok((n, wr(&m.into_inner())?))
    }}
    fn write(b: &[u8], w: &mut dyn IoWrite) -> Result<(), EK> {{
        <S<&[u8]> as WriteTo>::write_to(&S::new(b), w).map_err(ek)
    }}
    StructVt {{
        proto: {p}, name: "{n}",
        sizes: [{modp}::SIZE_{up}, <S<&[u8]> as bp3d_proto::util::FixedSize>::SIZE, std::mem::size_of_val(&S::new_on_stack())],
        view, view_mut, from_slice, write
    }}
}}
"#, p = s.proto, n = s.name, path = path, modp = format!("crate::w{}::{}", c.w, c.protos[s.proto]), up = s.name.to_uppercase());
}

fn msg_ty(c: &Cx, m: &RMsg, lt: &str) -> String {
    let p = c.p(m.proto, &m.name);
    if m.has_lifetime() { format!("{}<{}>", p, lt) } else { p }
}

fn union_ty(c: &Cx, u: &RUnion, lt: &str) -> String {
    let p = c.p(u.proto, &u.name);
    if u.has_lifetime() { format!("{}<{}>", p, lt) } else { p }
}

fn ext(c: &Cx, m: &RMsg, f: &RMField) -> String {
    c.p(m.proto, &format!("{}{}", m.name, cap(&f.name)))
}

fn mk_ref(c: &Cx, r: &RRef, v: &str) -> String {
    match r {
        RRef::Struct(s) => format!("{}::new(a.bytes(sb({})))", c.p(s.proto, &s.name), v),
        RRef::Msg(m) => format!("mk_{}_{}({}, a)?", m.proto, m.name, v),
    }
}

fn dump_ref(r: &RRef, v: &str) -> String {
    match r {
        RRef::Struct(_) => format!("Val::S(sbytes({}))", v),
        RRef::Msg(m) => format!("d_{}_{}({})", m.proto, m.name, v),
    }
}

fn mk_field(c: &Cx, m: &RMsg, f: &RMField, v: &str) -> String {
    match &f.kind {
        RMK::Flat(t, _) => from_val(*t, v),
        RMK::Struct(s) => mk_ref(c, &RRef::Struct(s.clone()), v),
        RMK::Msg(m) => mk_ref(c, &RRef::Msg(m.clone()), v),
        RMK::Nts | RMK::Varchar(_) => format!("a.str(st({}))", v),
        RMK::Array(..) => format!("bp3d_proto::message::util::Array::from_parts(a.bytes(&cat({v})), count({v})).expect(\"array of the right size\")", v = v),
        RMK::List(_, im) => format!(
            "{{ let mut l = {}::<Vec<u8>>::new(Vec::new()); for it in litems({}) {{ l.write_item(&mk_{}_{}(it, a)?).map_err(ek)?; }} a.alloc(l).to_ref() }}",
            ext(c, m, f), v, im.proto, im.name),
        RMK::Union(_, u) => format!("mku_{}_{}({}, a)?", u.proto, u.name, v),
        RMK::Payload => format!("a.bytes(pay({}))", v),
    }
}

/// `v` is an expression of reference type.
fn dump_field(c: &Cx, f: &RMField, v: &str) -> String {
    match &f.kind {
        RMK::Flat(t, _) => to_val(*t, &format!("*{}", v)),
        RMK::Struct(_) => format!("Val::S(sbytes({}))", v),
        RMK::Msg(m) => format!("d_{}_{}({})", m.proto, m.name, v),
        RMK::Nts | RMK::Varchar(_) => format!("Val::Str({}.to_string())", v),
        RMK::Array(_, s) => format!("aval({v}.len(), {v}.iter::<{}<&[u8]>>().map(|s| sbytes(&s)).collect())", c.p(s.proto, &s.name), v = v),
        RMK::List(_, im) => format!(
            "{{ let mut items = Vec::new(); let r = collect_iter({v}.iter().map(|r| r.map_err(ek)), {v}.len(), |x| items.push(d_{}_{}(&x))); lval({v}.len(), items, r) }}",
            im.proto, im.name, v = v),
        RMK::Union(_, u) => format!("du_{}_{}({})", u.proto, u.name, v),
        RMK::Payload => format!("Val::Pay({}.to_vec())", v),
    }
}

fn emit_msg(c: &Cx, m: &RMsg, out: &mut String) {
    let id = format!("{}_{}", m.proto, m.name);
    let path = c.p(m.proto, &m.name);
    let mut mk = String::new();
    let mut d = String::new();
    let mut o = String::new();
    for (i, f) in m.fields.iter().enumerate() {
        let v = format!("&vals[{}]", i);
        let r = format!("(&m.{})", f.name);
        if f.optional {
            let _ = writeln!(mk, "        {}: match opt({}) {{ None => None, Some(x) => Some({}) }},", f.name, v, mk_field(c, m, f, "x"));
            let _ = writeln!(d, "        Val::Opt(match {} {{ None => None, Some(x) => Some(Box::new({})) }}),", r, dump_field(c, f, "x"));
        } else {
            let _ = writeln!(mk, "        {}: {},", f.name, mk_field(c, m, f, &v));
            let _ = writeln!(d, "        {},", dump_field(c, f, &r));
        }
        let nested = match &f.kind {
            RMK::Msg(n) if f.optional => format!("Some(o.{}_offsets.as_ref().map(|o| o_{}_{}(o)))", f.name, n.proto, n.name),
            RMK::Msg(n) => format!("Some(Some(o_{}_{}(&o.{}_offsets)))", n.proto, n.name, f.name),
            _ => "None".into(),
        };
        let _ = writeln!(o, "        Off {{ start: o.{n}.start, end: if o.{n}.size() == o.{n}.end.wrapping_sub(o.{n}.start) {{ o.{n}.end }} else {{ usize::MAX }}, nested: {} }},", nested, n = f.name);
    }
    let _ = write!(out, r#"
fn mk_{id}<'a>(v: &Val, a: &'a Arena) -> Result<{ty}, EK> {{
    let vals = fields(v);
    Ok({path} {{
{mk}    }})
}}
fn d_{id}(m: &{dty}) -> Val {{
    Val::Msg(vec![
{d}    ])
}}
fn o_{id}(o: &{path}Offsets) -> Vec<Off> {{
    vec![
{o}    ]
}}
fn m_{id}() -> MsgVt {{
    fn write(v: &Val, w: &mut dyn IoWrite) -> Result<(), EK> {{
        let a = Arena::default();
        let m = mk_{id}(v, &a)?;
        <{dty} as WriteTo>::write_to(&m, w).map_err(ek)
    }}
    fn size_of(v: &Val) -> Result<usize, EK> {{
        let a = Arena::default();
        let m = mk_{id}(v, &a)?;
        bp3d_proto::message::util::size_of(&m).map_err(ek)
    }}
    fn read(b: &[u8]) -> Result<(Val, usize), EK> {{
        let m = <{dty} as FromSlice>::from_slice(b).map_err(ek)?;
        let n = m.size();
        Ok((d_{id}(&m.into_inner()), n))
    }}
    fn read_off(b: &[u8]) -> Result<(Val, usize, Vec<Off>), EK> {{
        let m = <{dty} as FromSliceWithOffsets>::from_slice_with_offsets(b).map_err(ek)?;
        let n = m.size();
        let (m, o) = m.into_inner();
        Ok((d_{id}(&m), n, o_{id}(&o)))
    }}
    fn rewrite(b: &[u8]) -> Result<(usize, Result<Vec<u8>, EK>), EK> {{
        let m = <{dty} as FromSlice>::from_slice(b).map_err(ek)?;
        let n = m.size();
        let m = m.into_inner();
        Ok((n, wr(&m)))
    }}
    MsgVt {{ proto: {proto}, name: "{name}", write, size_of, read, read_off, rewrite }}
}}
"#, id = id, ty = msg_ty(c, m, "'a"), dty = msg_ty(c, m, "'_"), path = path, mk = mk, d = d, o = o, proto = m.proto, name = m.name);
    for f in &m.fields {
        match &f.kind {
            RMK::List(_, im) => emit_list(c, m, f, im, out),
            RMK::Array(p, s) => emit_array(c, m, f, *p, s, out),
            _ => (),
        }
    }
}

fn emit_list(c: &Cx, m: &RMsg, f: &RMField, im: &RMsg, out: &mut String) {
    let _ = write!(out, r#"
fn l_{p}_{mn}_{f}() -> ListVt {{
    fn iter_run(l: &{ext}<&[u8]>) -> IterRun {{
        let mut items = Vec::new();
        let r = collect_iter(l.iter().map(|r| r.map_err(ek)), l.len(), |x| items.push(d_{im}(&x)));
        run_of(items, r)
    }}
    fn off_run(l: &{ext}<&[u8]>) -> (IterRun, Vec<Vec<Off>>) {{
        let mut items = Vec::new();
        let mut offs = Vec::new();
        let r = collect_iter(l.iter_offsets().map(|r| r.map_err(ek)), l.len(), |(x, o)| {{ items.push(d_{im}(&x)); offs.push(o_{im}(&o)); }});
        (run_of(items, r), offs)
    }}
    fn run(ops: &[LOp], sink: FaultSink) -> LRun {{
        let a = Arena::default();
        let mut l = {ext}::<FaultSink>::new(sink);
        let mut steps = Vec::new();
        for op in ops {{
            let r = match op {{
                LOp::One(v) => match mk_{im}(v, &a) {{
                    Ok(it) => l.write_item(&it).map_err(ek),
                    Err(e) => Err(e),
                }},
                LOp::Many(vs) => match vs.iter().map(|v| mk_{im}(v, &a)).collect::<Result<Vec<_>, EK>>() {{
                    Ok(its) => l.write_items(&its).map_err(ek),
                    Err(e) => Err(e),
                }},
            }};
            steps.push((r, l.len()));
        }}
        let mut items = Vec::new();
        let r = collect_iter(l.iter().map(|r| r.map_err(ek)), l.len(), |x| items.push(d_{im}(&x)));
        let items = run_of(items, r);
        let r: {ext}<&[u8]> = l.to_ref();
        LRun {{ steps, items, ref_items: iter_run(&r), offs: Some(off_run(&r)), ref_len: r.len(), encoded: wr(&r) }}
    }}
    fn raw(b: &[u8], len: usize) -> (IterRun, (IterRun, Vec<Vec<Off>>)) {{
        let l: {ext}<&[u8]> = unsafe {{ {ext}::<&[u8]>::from_raw_parts(b, len) }};
        (iter_run(&l), off_run(&l))
    }}
    ListVt {{ proto: {p}, msg: "{mn}", field: "{f}", run, raw }}
}}
"#, p = m.proto, mn = m.name, f = f.name, ext = ext(c, m, f), im = format!("{}_{}", im.proto, im.name));
}

fn emit_array(c: &Cx, m: &RMsg, f: &RMField, prefix: usize, s: &RStruct, out: &mut String) {
    let codec = format!("bp3d_proto::message::util::{}<{}>", if m.endian == Endian::Little { "ValueLE" } else { "ValueBE" },
        match prefix { 1 => "u8", 2 => "u16", 4 => "u32", _ => "u64" });
    let _ = write!(out, r#"
impl<'x, B: AsRef<[u8]> + AsMut<[u8]>> AView for {ext}<'x, B> {{
    fn len(&self) -> usize {{ self.len() }}
    fn get(&self, i: usize) -> Vec<u8> {{ sbytes(&self.get(i)) }}
    fn iter(&self) -> Vec<Vec<u8>> {{ self.iter().map(|s| sbytes(&s)).collect() }}
    fn ref_items(&self) -> (usize, Vec<Vec<u8>>, Vec<Vec<u8>>) {{
        let r = self.to_ref();
        (r.len(), (0..r.len()).map(|i| sbytes(&r.get::<{s}<&[u8]>>(i))).collect(), r.iter::<{s}<&[u8]>>().map(|s| sbytes(&s)).collect())
    }}
    fn get_mut(&mut self, i: usize, g: &mut dyn FnMut(&mut dyn SViewMut)) {{ g(&mut self.get_mut(i)) }}
    fn iter_mut(&mut self, g: &mut dyn FnMut(usize, &mut dyn SViewMut)) {{
        for (i, mut s) in self.iter_mut().enumerate() {{ g(i, &mut s) }}
    }}
}}
fn a_{p}_{mn}_{f}() -> ArrVt {{
    fn from_parts(b: &mut [u8], n: usize, g: &mut dyn FnMut(&mut dyn AView)) -> bool {{
        match {ext}::from_parts(b, n) {{
            Some(mut w) => {{ g(&mut w); true }}
            None => false,
        }}
    }}
    fn from_parts_ref(b: &[u8], n: usize) -> Option<(usize, Vec<Vec<u8>>)> {{
        {ext}::from_parts(b, n).map(|w| (w.len(), w.iter().map(|s| sbytes(&s)).collect()))
    }}
    fn build(ops: &[Vec<Vec<u8>>], sink: FaultSink) -> ARun {{
        let mut w = {ext}::<'_, FaultSink>::new(sink);
        let mut steps = Vec::new();
        for op in ops {{
            let its: Vec<{s}<&[u8]>> = op.iter().map(|b| {s}::new(&b[..])).collect();
            let r = if its.len() == 1 {{ w.write_item(&its[0]) }} else {{ w.write_items(&its) }};
            steps.push((r.map_err(ek), w.len()));
        }}
        let r = w.to_ref();
        let n = r.len();
        // A failed append may have left a part of an item behind: only whole items are asked for.
        let items = if steps.iter().all(|(r, _)| r.is_ok()) {{
            (n, (0..n).map(|i| sbytes(&r.get::<{s}<&[u8]>>(i))).collect(), r.iter::<{s}<&[u8]>>().map(|s| sbytes(&s)).collect())
        }} else {{
            (n, vec![], vec![])
        }};
        ARun {{ steps, items, encoded: wr(&r) }}
    }}
    fn read(b: &[u8]) -> Result<(usize, usize, Vec<Vec<u8>>), EK> {{
        let m = <bp3d_proto::message::util::Array<&[u8], {codec}, {s}<&[u8]>> as FromSlice>::from_slice(b).map_err(ek)?;
        let n = m.size();
        let w = {ext}::from_array(m.into_inner());
        Ok((n, w.len(), w.iter().map(|s| sbytes(&s)).collect()))
    }}
    ArrVt {{ proto: {p}, msg: "{mn}", field: "{f}", from_parts, from_parts_ref, build, read }}
}}
"#, p = m.proto, mn = m.name, f = f.name, ext = ext(c, m, f), s = c.p(s.proto, &s.name), codec = codec);
}

fn emit_union(c: &Cx, u: &RUnion, out: &mut String) {
    let id = format!("{}_{}", u.proto, u.name);
    let path = c.p(u.proto, &u.name);
    let disc = c.p(u.root.proto, &u.root.name);
    let (mut mk, mut d, mut acc) = (String::new(), String::new(), String::new());
    for (i, k) in u.cases.iter().enumerate() {
        match &k.item {
            None => {
                let _ = writeln!(mk, "        Val::Un({}, None) => {}::{},", i, path, k.name);
                let _ = writeln!(d, "        {}::{} => Val::Un({}, None),", path, k.name, i);
                let _ = writeln!(acc, "            if u.is_{}() {{ Some(None) }} else {{ None }},", k.name.to_lowercase());
            }
            Some(r) => {
                let _ = writeln!(mk, "        Val::Un({}, Some(x)) => {}::{}({}),", i, path, k.name, mk_ref(c, r, "x"));
                let _ = writeln!(d, "        {}::{}(x) => Val::Un({}, Some(Box::new({}))),", path, k.name, i, dump_ref(r, "x"));
                let _ = writeln!(acc, "            u.as_{}().map(|x| Some({})),", k.name.to_lowercase(), dump_ref(r, "x"));
            }
        }
    }
    let _ = write!(out, r#"
fn mku_{id}<'a>(v: &Val, a: &'a Arena) -> Result<{ty}, EK> {{
    Ok(match v {{
{mk}        _ => panic!("oracle: union value"),
    }})
}}
fn du_{id}(u: &{dty}) -> Val {{
    match u {{
{d}    }}
}}
fn u_{id}() -> UnionVt {{
    fn set_disc(v: &Val, b: &mut [u8]) {{
        let a = Arena::default();
        let u = match mku_{id}(v, &a) {{ Ok(u) => u, Err(_) => return }};
        let mut d = {disc}::new(b);
        u.set_discriminant(&mut d);
    }}
    fn write(v: &Val, disc: &[u8], w: &mut dyn IoWrite) -> Result<(), EK> {{
        let a = Arena::default();
        let u = mku_{id}(v, &a)?;
        {path}::write_to(&u, &{disc}::new(disc), w).map_err(ek)
    }}
    fn read(b: &[u8], disc: &[u8]) -> Result<(Val, usize), EK> {{
        let m = {path}::from_slice(b, &{disc}::new(disc)).map_err(ek)?;
        let n = m.size();
        Ok((du_{id}(&m.into_inner()), n))
    }}
    fn access(v: &Val) -> Vec<Option<Option<Val>>> {{
        let a = Arena::default();
        let u = match mku_{id}(v, &a) {{ Ok(u) => u, Err(_) => return vec![] }};
        vec![
{acc}        ]
    }}
    UnionVt {{ proto: {p}, name: "{n}", set_disc, write, read, access }}
}}
"#, id = id, ty = union_ty(c, u, "'a"), dty = union_ty(c, u, "'_"), mk = mk, d = d, acc = acc, disc = disc, path = path, p = u.proto, n = u.name);
}

/// The glue module of world `w`: `pub fn vt() -> WorldVt`.
pub fn glue(w: usize, json: &str, res: &Res) -> String {
    let c = Cx { w, protos: res.protos.iter().map(|p| p.name.clone()).collect() };
    let mut out = format!("mod g{} {{\nuse super::*;\n", w);
    let mut lists: [Vec<String>; 6] = Default::default();
    for p in &res.protos {
        for e in &p.enums {
            let ep = c.p(e.proto, &e.name);
            let v: Vec<String> = e.variants.iter().map(|(k, _)| format!("{}::{} as u64", ep, k)).collect();
            lists[1].push(format!("EnumVt {{ proto: {}, name: \"{}\", values: vec![{}] }}", e.proto, e.name, v.join(", ")));
        }
        for s in &p.structs {
            emit_struct(&c, s, &mut out);
            lists[0].push(format!("s_{}_{}()", s.proto, s.name));
        }
        for u in &p.unions {
            emit_union(&c, u, &mut out);
            lists[3].push(format!("u_{}_{}()", u.proto, u.name));
        }
        for m in &p.msgs {
            emit_msg(&c, m, &mut out);
            lists[2].push(format!("m_{}_{}()", m.proto, m.name));
            for f in &m.fields {
                match &f.kind {
                    RMK::List(..) => lists[4].push(format!("l_{}_{}_{}()", m.proto, m.name, f.name)),
                    RMK::Array(..) => lists[5].push(format!("a_{}_{}_{}()", m.proto, m.name, f.name)),
                    _ => (),
                }
            }
        }
    }
    let _ = write!(out, "pub fn vt() -> WorldVt {{\n    WorldVt {{ json: {:?}, structs: vec![{}], enums: vec![{}], msgs: vec![{}], unions: vec![{}], lists: vec![{}], arrays: vec![{}] }}\n}}\n}}\n",
        json, lists[0].join(", "), lists[1].join(", "), lists[2].join(", "), lists[3].join(", "), lists[4].join(", "), lists[5].join(", "));
    out
}
