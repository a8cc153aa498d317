//! The reference encoder and decoder, written from the format description.

use crate::resolve::*;
use crate::schema::Endian;

#[derive(Clone, Debug, PartialEq)]
pub enum Val {
    U(u64),
    I(i64),
    /// The bits of a float.
    F32(u32),
    F64(u64),
    B(bool),
    /// The declared number of an enum variant, or no variant.
    E(Option<u64>),
    /// The bytes of a structure.
    S(Vec<u8>),
    Str(String),
    Pay(Vec<u8>),
    Opt(Option<Box<Val>>),
    Msg(Vec<Val>),
    Arr(Vec<Vec<u8>>),
    List(LVal),
    Un(usize, Option<Box<Val>>),
}

#[derive(Clone, Debug, PartialEq)]
pub struct LVal {
    /// The announced length.
    pub len: u64,
    pub items: Vec<Val>,
    /// Iteration ended with an error.
    pub err: bool,
}

pub fn list(items: Vec<Val>) -> Val {
    Val::List(LVal { len: items.len() as u64, items, err: false })
}

/// Errors of the runtime, by kind.
#[derive(Clone, Debug, PartialEq)]
pub enum EK {
    Utf8,
    Truncated,
    LengthOverflow,
    Nul,
    BadDisc(u64),
    Io(String),
    Other(String),
}

#[derive(Clone, Debug, PartialEq)]
pub struct Off {
    pub start: usize,
    pub end: usize,
    /// None: not a message. Some(None): an absent optional message.
    pub nested: Option<Option<Vec<Off>>>,
}

pub fn mask(bits: u64) -> u64 {
    if bits >= 64 {
        u64::MAX
    } else {
        (1u64 << bits) - 1
    }
}

/// Where bit `i` (counted in declaration order) of a buffer lives: (byte, bit from the least significant).
fn place(i: u64, e: Endian) -> (usize, u32) {
    match e {
        Endian::Little => ((i / 8) as usize, (i % 8) as u32),
        Endian::Big => ((i / 8) as usize, 7 - (i % 8) as u32),
    }
}

pub fn get_bits(buf: &[u8], off: u64, bits: u64, e: Endian) -> u64 {
    let mut v = 0u64;
    for k in 0..bits {
        let (b, s) = place(off + k, e);
        let bit = ((buf[b] >> s) & 1) as u64;
        match e {
            Endian::Little => v |= bit << k,
            Endian::Big => v |= bit << (bits - 1 - k),
        }
    }
    v
}

pub fn set_bits(buf: &mut [u8], off: u64, bits: u64, e: Endian, v: u64) {
    for k in 0..bits {
        let (b, s) = place(off + k, e);
        let bit = match e {
            Endian::Little => (v >> k) & 1,
            Endian::Big => (v >> (bits - 1 - k)) & 1,
        } as u8;
        buf[b] = (buf[b] & !(1 << s)) | (bit << s);
    }
}

pub fn sign(v: u64, bits: u64) -> i64 {
    if bits < 64 && (v >> (bits - 1)) & 1 == 1 {
        (v | !mask(bits)) as i64
    } else {
        v as i64
    }
}

/// A view value by the schema; affine views are given as their exact-ish value for comparison with tolerance.
pub fn interp(s: &RScalar, raw: u64) -> Val {
    match &s.view {
        RView::Enum(e) => Val::E(e.variants.iter().find(|(_, v)| *v == raw).map(|(_, v)| *v)),
        RView::Range(..) | RView::Mult(..) => Val::F64(affine(s, raw).to_bits()),
        RView::None => plain(s.ty, s.bits, raw),
    }
}

pub fn affine(s: &RScalar, raw: u64) -> f64 {
    match &s.view {
        RView::Range(a, b) => a + (b - a) * (raw as f64 / mask(s.bits) as f64),
        RView::Mult(m) => raw as f64 * m,
        _ => unreachable!(),
    }
}

pub fn plain(ty: Ty, bits: u64, raw: u64) -> Val {
    match ty {
        Ty::Bool => Val::B(raw != 0),
        Ty::F32 => Val::F32(raw as u32),
        Ty::F64 => Val::F64(raw),
        t if t.is_signed() => Val::I(sign(raw, bits)),
        _ => Val::U(raw),
    }
}

/// The raw bits of a plain value.
pub fn unplain(v: &Val) -> u64 {
    match v {
        Val::U(v) => *v,
        Val::I(v) => *v as u64,
        Val::F32(v) => *v as u64,
        Val::F64(v) => *v,
        Val::B(v) => *v as u64,
        Val::E(Some(v)) => *v,
        _ => unreachable!(),
    }
}

fn put_num(out: &mut Vec<u8>, v: u64, size: usize, e: Endian) {
    for i in 0..size {
        let sh = match e {
            Endian::Little => i,
            Endian::Big => size - 1 - i,
        };
        out.push((v >> (8 * sh)) as u8);
    }
}

fn get_num(b: &[u8], size: usize, e: Endian) -> Result<u64, EK> {
    if b.len() < size {
        return Err(EK::Truncated);
    }
    let mut v = 0u64;
    for i in 0..size {
        let sh = match e {
            Endian::Little => i,
            Endian::Big => size - 1 - i,
        };
        v |= (b[i] as u64) << (8 * sh);
    }
    Ok(v)
}

fn put_len(out: &mut Vec<u8>, len: usize, prefix: usize, e: Endian) -> Result<(), EK> {
    if prefix < 8 && len as u64 > mask(prefix as u64 * 8) {
        return Err(EK::LengthOverflow);
    }
    put_num(out, len as u64, prefix, e);
    Ok(())
}

pub fn encode_ref(r: &RRef, v: &Val, out: &mut Vec<u8>) -> Result<(), EK> {
    match (r, v) {
        (RRef::Struct(_), Val::S(b)) => {
            out.extend_from_slice(b);
            Ok(())
        }
        (RRef::Msg(m), v) => encode(m, v, out, &mut None),
        _ => unreachable!(),
    }
}

pub fn disc_of(u: &RUnion, bytes: &[u8]) -> u64 {
    get_bits(bytes, u.leaf_off, u.leaf.bits, u.leaf.endian)
}

fn encode_field(m: &RMsg, vals: &[Val], i: usize, v: &Val, out: &mut Vec<u8>, off: &mut Option<Vec<Off>>) -> Result<(), EK> {
    match (&m.fields[i].kind, v) {
        (RMK::Flat(t, e), v) => put_num(out, unplain(v), t.size(), *e),
        (RMK::Struct(_), Val::S(b)) => out.extend_from_slice(b),
        (RMK::Msg(m), v) => encode(m, v, out, off)?,
        (RMK::Nts, Val::Str(s)) => {
            if s.as_bytes().contains(&0) {
                return Err(EK::Nul);
            }
            out.extend_from_slice(s.as_bytes());
            out.push(0);
        }
        (RMK::Varchar(p), Val::Str(s)) => {
            put_len(out, s.len(), *p, m.endian)?;
            out.extend_from_slice(s.as_bytes());
        }
        (RMK::Array(p, _), Val::Arr(items)) => {
            put_len(out, items.len(), *p, m.endian)?;
            for b in items {
                out.extend_from_slice(b);
            }
        }
        (RMK::List(p, im), Val::List(l)) => {
            // The items are appended to the list before the message is written.
            let mut body = Vec::new();
            for it in &l.items {
                encode(im, it, &mut body, &mut None)?;
            }
            put_len(out, l.items.len(), *p, m.endian)?;
            out.extend_from_slice(&body);
        }
        (RMK::Union(on, u), Val::Un(c, item)) => {
            let d = match &vals[*on] {
                Val::S(b) => disc_of(u, b),
                _ => unreachable!(),
            };
            if d != u.cases[*c].raw {
                return Err(EK::BadDisc(d));
            }
            if let (Some(r), Some(v)) = (&u.cases[*c].item, item) {
                encode_ref(r, v, out)?;
            }
        }
        (RMK::Payload, Val::Pay(b)) => out.extend_from_slice(b),
        (k, v) => unreachable!("{:?} {:?}", k, v),
    }
    Ok(())
}

/// Appends the encoding of a message; on an error, what was appended is what was written before it.
pub fn encode(m: &RMsg, v: &Val, out: &mut Vec<u8>, offs: &mut Option<Vec<Off>>) -> Result<(), EK> {
    let vals = match v {
        Val::Msg(v) => v,
        _ => unreachable!(),
    };
    let base = out.len();
    let mut all = Vec::new();
    for (i, f) in m.fields.iter().enumerate() {
        let start = out.len() - base;
        let is_msg = matches!(f.kind, RMK::Msg(_));
        let mut nested = Some(Vec::new());
        let mut present = true;
        if f.optional {
            match &vals[i] {
                Val::Opt(None) => {
                    out.push(0);
                    present = false;
                }
                Val::Opt(Some(v)) => {
                    out.push(1);
                    encode_field(m, vals, i, v, out, &mut nested)?;
                }
                _ => unreachable!(),
            }
        } else {
            encode_field(m, vals, i, &vals[i], out, &mut nested)?;
        }
        all.push(Off {
            start,
            end: out.len() - base,
            nested: match is_msg {
                false => None,
                true => Some(if present { nested } else { None }),
            },
        });
    }
    *offs = Some(all);
    Ok(())
}

pub fn encoded(m: &RMsg, v: &Val) -> Result<Vec<u8>, EK> {
    let mut out = Vec::new();
    encode(m, v, &mut out, &mut None)?;
    Ok(out)
}

pub fn decode_ref(r: &RRef, b: &[u8]) -> Result<(Val, usize), EK> {
    match r {
        RRef::Struct(s) => {
            if b.len() < s.size {
                return Err(EK::Truncated);
            }
            Ok((Val::S(b[..s.size].to_vec()), s.size))
        }
        RRef::Msg(m) => decode(m, b).map(|(v, n, _)| (v, n)),
    }
}

pub fn decode_union(u: &RUnion, disc: u64, b: &[u8]) -> Result<(Val, usize), EK> {
    match u.cases.iter().position(|c| c.raw == disc) {
        None => Err(EK::BadDisc(disc)),
        Some(c) => match &u.cases[c].item {
            None => Ok((Val::Un(c, None), 0)),
            Some(r) => decode_ref(r, b).map(|(v, n)| (Val::Un(c, Some(Box::new(v))), n)),
        },
    }
}

fn text(b: &[u8]) -> Result<String, EK> {
    String::from_utf8(b.to_vec()).map_err(|_| EK::Utf8)
}

/// Iterates over the items of a list as announced.
pub fn decode_items(m: &RMsg, len: u64, b: &[u8]) -> (LVal, usize) {
    let mut pos = 0;
    let mut l = LVal { len, items: vec![], err: false };
    while (l.items.len() as u64) < len {
        match decode(m, &b[pos..]) {
            Ok((v, n, _)) => {
                pos += n;
                l.items.push(v);
            }
            Err(_) => {
                l.err = true;
                break;
            }
        }
    }
    (l, pos)
}

fn decode_field(m: &RMsg, vals: &[Val], i: usize, b: &[u8]) -> Result<(Val, usize, Option<Vec<Off>>), EK> {
    let ok = |v: Val, n: usize| Ok((v, n, None));
    match &m.fields[i].kind {
        RMK::Flat(t, e) => {
            let raw = get_num(b, t.size(), *e)?;
            if *t == Ty::Bool {
                mark(b);
            }
            ok(plain(*t, t.size() as u64 * 8, raw), t.size())
        }
        RMK::Struct(s) => decode_ref(&RRef::Struct(s.clone()), b).map(|(v, n)| (v, n, None)),
        RMK::Msg(m) => decode(m, b).map(|(v, n, o)| (v, n, Some(o))),
        RMK::Nts => {
            let n = b.iter().position(|v| *v == 0).ok_or(EK::Truncated)?;
            ok(Val::Str(text(&b[..n])?), n + 1)
        }
        RMK::Varchar(p) => {
            let n = get_num(b, *p, m.endian)?;
            if n > (b.len() - p) as u64 {
                return Err(EK::Truncated);
            }
            let n = n as usize;
            ok(Val::Str(text(&b[*p..*p + n])?), p + n)
        }
        RMK::Array(p, s) => {
            let n = get_num(b, *p, m.endian)?;
            if (n as u128) * (s.size as u128) > (b.len() - p) as u128 {
                return Err(EK::Truncated);
            }
            let n = n as usize;
            ok(Val::Arr((0..n).map(|k| b[p + k * s.size..p + (k + 1) * s.size].to_vec()).collect()), p + n * s.size)
        }
        RMK::List(p, im) => {
            let n = get_num(b, *p, m.endian)?;
            let (l, used) = decode_items(im, n, &b[*p..]);
            if m.is_sized(i) {
                if l.err {
                    return Err(EK::Truncated);
                }
                ok(Val::List(l), p + used)
            } else {
                ok(Val::List(l), b.len())
            }
        }
        RMK::Union(on, u) => {
            let d = match &vals[*on] {
                Val::S(b) => disc_of(u, b),
                _ => unreachable!(),
            };
            decode_union(u, d, b).map(|(v, n)| (v, n, None))
        }
        RMK::Payload => ok(Val::Pay(b.to_vec()), b.len()),
    }
}

pub fn decode(m: &RMsg, b: &[u8]) -> Result<(Val, usize, Vec<Off>), EK> {
    let mut pos = 0;
    let mut vals = Vec::new();
    let mut offs = Vec::new();
    for (i, f) in m.fields.iter().enumerate() {
        let start = pos;
        let is_msg = matches!(f.kind, RMK::Msg(_));
        let (v, n, o) = if f.optional {
            match b.get(pos) {
                None => return Err(EK::Truncated),
                Some(0) => (Val::Opt(None), 1, None),
                Some(_) => {
                    mark(&b[pos..]);
                    let (v, n, o) = decode_field(m, &vals, i, &b[pos + 1..])?;
                    (Val::Opt(Some(Box::new(v))), n + 1, o)
                }
            }
        } else {
            decode_field(m, &vals, i, &b[pos..])?
        };
        pos += n;
        vals.push(v);
        offs.push(Off { start, end: pos, nested: if is_msg { Some(o) } else { None } });
    }
    Ok((Val::Msg(vals), pos, offs))
}

thread_local! {
    static MARKS: std::cell::RefCell<Option<Vec<usize>>> = std::cell::RefCell::new(None);
}

fn mark(b: &[u8]) {
    MARKS.with(|m| {
        if let Some(v) = m.borrow_mut().as_mut() {
            v.push(b.as_ptr() as usize);
        }
    });
}

/// Decodes, and tells the positions of the presence bytes and booleans, which writing may normalise.
pub fn decode_marks(m: &RMsg, b: &[u8]) -> (Result<(Val, usize, Vec<Off>), EK>, Vec<usize>) {
    MARKS.with(|m| *m.borrow_mut() = Some(Vec::new()));
    let r = decode(m, b);
    let v = MARKS.with(|m| m.borrow_mut().take()).unwrap_or_default();
    (r, v.iter().map(|p| p - b.as_ptr() as usize).collect())
}
