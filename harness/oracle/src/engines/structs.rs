use super::*;
use crate::batch::guarded;
use crate::check;
use crate::model::*;
use crate::resolve::*;
use crate::schema::Endian;
use crate::tape::Src;
use crate::vt::*;
use std::rc::Rc;

fn at(v: &dyn SView, path: &[usize], g: &mut dyn FnMut(&dyn SView, usize)) {
    if path.len() == 1 {
        g(v, path[0]);
    } else {
        v.nested(path[0], &mut |n| at(n, &path[1..], g));
    }
}

/// `via`: re-borrow at each level.
fn at_mut(v: &mut dyn SViewMut, path: &[usize], via: bool, g: &mut dyn FnMut(&mut dyn SViewMut, usize)) {
    if via {
        v.reborrow_mut(&mut |v| at_mut(v, path, false, g));
    } else if path.len() == 1 {
        g(v, path[0]);
    } else {
        v.nested_mut(path[0], &mut |n| at_mut(n, &path[1..], via, g));
    }
}

fn scalars(s: &RStruct) -> Vec<(Leaf, RScalar)> {
    s.leaves().into_iter().filter_map(|l| match l.f.clone() {
        RF::Scalar(x) => Some((l, x)),
        _ => None,
    }).collect()
}

fn arrays(s: &RStruct) -> Vec<(Leaf, RArray)> {
    s.leaves().into_iter().filter_map(|l| match l.f.clone() {
        RF::Array(x) => Some((l, x)),
        _ => None,
    }).collect()
}

/// An own field of a nested structure is tried through the declaring structure itself and through one parent at most.
fn shallow(l: &Leaf) -> bool {
    l.path.len() <= 3
}

fn item_bits(a: &RArray, off: u64, i: usize) -> u64 {
    off + a.item_bits * i as u64
}

fn raw_of(s: &RScalar, v: &Val) -> u64 {
    unplain(v) & mask(s.bits)
}

/// A value to write through the typed setter, in range.
fn typed(s: &RScalar, src: &mut Src) -> Option<Val> {
    Some(match &s.view {
        RView::Enum(e) => Val::E(Some(src.pick(&e.variants).1)),
        RView::None => match s.ty {
            Ty::Bool => Val::B(src.bool()),
            t => plain(t, s.bits, src.bits(s.bits as u32)),
        },
        _ => return None,
    })
}

pub fn targets<'a>(prop: &str, cx: &'a Cx) -> Vec<Target<'a>> {
    let mut out: Vec<Target<'a>> = Vec::new();
    let mut k = 0;
    for p in &cx.res.protos {
        for s in &p.structs {
            let vt = &cx.vt.structs[k];
            assert_eq!(vt.name, s.name);
            k += 1;
            let s: &'a Rc<RStruct> = s;
            let root = (s.proto, s.name.clone());
            let mut add = |name: String, weight: u64, run: Box<dyn Fn(&mut Src, bool) -> Case + 'a>| {
                out.push(Target { name, root: root.clone(), weight, run });
            };
            let sc: Vec<(Leaf, RScalar)> = scalars(s).into_iter().filter(|v| shallow(&v.0)).collect();
            match prop {
                "S01" => {
                    if !sc.is_empty() {
                        let n = sc.len() as u64;
                        add(s.name.clone(), 2 + n, Box::new(move |src, want| s01(vt, s, &sc, src, want)));
                    }
                }
                "S02" => add(s.name.clone(), 2 + s.fields.len() as u64, Box::new(move |src, want| s02(vt, s, src, want))),
                "S08" => add(s.name.clone(), 2 + 2 * s.fields.iter().filter(|f| matches!(f.f, RF::Nested(_))).count() as u64,
                    Box::new(move |src, want| s08(vt, s, src, want))),
                "S07" => {
                    for (l, a) in arrays(s).into_iter().filter(|v| shallow(&v.0)) {
                        add(s.path_name(&l.path), 3, Box::new(move |src, want| s07(vt, s, &l, &a, src, want)));
                    }
                }
                _ => {
                    for (l, x) in sc {
                        let name = s.path_name(&l.path);
                        let affine = matches!(x.view, RView::Range(..) | RView::Mult(..));
                        match prop {
                            "S03" if x.ty.is_signed() => add(name, 3, Box::new(move |src, want| s03(vt, s, &l, &x, src, want))),
                            "S04" if affine => add(name, 3, Box::new(move |src, want| s04(vt, s, &l, &x, src, want))),
                            "S04" if x.ty.is_float() => add(name, 1, Box::new(move |src, want| s04_native(vt, s, &l, &x, src, want))),
                            "S05" => {
                                if let RView::Enum(e) = x.view.clone() {
                                    let ev = cx.vt.enums.iter().find(|v| v.name == e.name && v.proto == e.proto).expect("enum table");
                                    add(name, 3, Box::new(move |src, want| s05(vt, ev, s, &l, &x, &e, src, want)));
                                }
                            }
                            "S06" if x.ty == Ty::Bool => add(name, 3, Box::new(move |src, want| s06(vt, s, &l, &x, src, want))),
                            _ => (),
                        }
                    }
                }
            }
        }
    }
    out
}

/// Random bytes for a structure, with some bytes after it.
fn buffer(s: &RStruct, src: &mut Src) -> Vec<u8> {
    let extra = src.below(3) as usize;
    src.bytes(s.size + extra)
}

fn zero(b: &[u8]) -> bool {
    b.iter().all(|v| *v == 0)
}

enum Op {
    Raw(usize, u64),
    Set(usize, Val),
}

fn s01(vt: &StructVt, s: &RStruct, sc: &[(Leaf, RScalar)], src: &mut Src, want: bool) -> Case {
    let mut buf = buffer(s, src);
    let first = buf.clone();
    let mut model = buf.clone();
    let groups = 1 + src.len(4);
    let mut writes = 0;
    let mut log = String::new();
    for _ in 0..groups {
        let mut how = src.weighted(&[4, 1, 2, 1]) as u8;
        let via = src.bool();
        let n = src.range(1, 4);
        let mut ops = Vec::new();
        for _ in 0..n {
            let i = src.idx(sc.len());
            match typed(&sc[i].1, src) {
                Some(v) if src.bool() => ops.push(Op::Set(i, v)),
                _ => {
                    // Through an accessor of the raw type, which may be wider than the field.
                    let t = raw_ty(sc[i].1.bits).size() as u32 * 8;
                    let v = if src.one_in(4) { src.bits(t) } else { src.bits(sc[i].1.bits as u32) };
                    ops.push(Op::Raw(i, v));
                }
            }
        }
        writes += ops.len();
        let mut own = vec![0u8; s.size];
        if how == 3 && s.size == 0 {
            how = 0;
        }
        let stack = how == 3;
        let mdl: &mut Vec<u8> = if stack { &mut own } else { &mut model };
        let mut err: Option<String> = None;
        (vt.view_mut)(&mut buf, how, &mut |v| {
            for op in &ops {
                let (i, raw) = match op {
                    Op::Raw(i, v) => (*i, *v & mask(sc[*i].1.bits)),
                    Op::Set(i, v) => (*i, raw_of(&sc[*i].1, v)),
                };
                let (l, x) = &sc[i];
                set_bits(mdl, l.off, x.bits, x.endian, raw);
                at_mut(v, &l.path, via, &mut |v, f| {
                    match op {
                        Op::Raw(_, v1) => v.set_raw(f, *v1),
                        Op::Set(_, v1) => v.set(f, v1),
                    }
                    let back = v.get_raw(f);
                    if back != raw {
                        err.get_or_insert(format!("{}: wrote raw {:#x}, read raw {:#x} (buffer before {})", s.path_name(&l.path), raw, back, hex(&first)));
                    }
                    if let Op::Set(_, v1) = op {
                        let back = v.get(f);
                        if back != *v1 {
                            err.get_or_insert(format!("{}: wrote {:?}, read {:?}", s.path_name(&l.path), v1, back));
                        }
                    }
                });
                if want {
                    log += &match op {
                        Op::Raw(_, v) => format!(" {}:=raw {:#x}", s.path_name(&l.path), v),
                        Op::Set(_, v) => format!(" {}:={:?}", s.path_name(&l.path), v),
                    };
                }
            }
            // All fields, through the same view.
            for (l, x) in sc {
                let e = get_bits(mdl, l.off, x.bits, x.endian);
                at(v, &l.path, &mut |v, f| {
                    let g = v.get_raw(f);
                    if g != e {
                        err.get_or_insert(format!("{}: reads raw {:#x} after writes to other fields, expected {:#x}", s.path_name(&l.path), g, e));
                    }
                });
            }
            if stack {
                match v.bytes() {
                    Ok(b) if b == *mdl => (),
                    r => {
                        err.get_or_insert(format!("{}: a structure on the stack holds {:?}, expected {}", s.name, r.map(|b| hex(&b)), hex(mdl)));
                    }
                }
            }
        });
        if let Some(e) = err {
            return Err(cut(e));
        }
        check!(buf == model, "{}: after{} the buffer is {}, expected {} (from {})", s.name, log, hex(&buf), hex(&model), hex(&first));
    }
    let odd = sc.iter().any(|(l, x)| l.off % 8 != 0 || x.bits % 8 != 0);
    info(writes >= 2 && (odd || !zero(&first)), want, || format!("{} from {}:{}", s.name, hex(&first), log))
}

fn array_val(a: &RArray, buf: &[u8], off: u64, i: usize) -> Val {
    plain(a.ty, a.item_bits, get_bits(buf, item_bits(a, off, i), a.item_bits, a.endian))
}

/// Compares every field of a view with the model.
fn compare(v: &dyn SView, s: &RStruct, buf: &[u8], base: u64, err: &mut Option<String>) {
    for (i, f) in s.fields.iter().enumerate() {
        let off = base + f.off;
        match &f.f {
            RF::Scalar(x) => {
                let e = get_bits(buf, off, x.bits, x.endian);
                let g = v.get_raw(i);
                if g != e {
                    err.get_or_insert(format!("{}.{}: raw {:#x}, expected {:#x} in {}", s.name, f.name, g, e, hex(buf)));
                }
                if !matches!(x.view, RView::Range(..) | RView::Mult(..)) {
                    let (g, e) = (v.get(i), interp(x, e));
                    if g != e {
                        err.get_or_insert(format!("{}.{}: {:?}, expected {:?} in {}", s.name, f.name, g, e, hex(buf)));
                    }
                }
            }
            RF::Array(a) => {
                let n = v.arr_len(i);
                if n != a.len {
                    err.get_or_insert(format!("{}.{}: length {}, expected {}", s.name, f.name, n, a.len));
                    return;
                }
                let e: Vec<Val> = (0..a.len).map(|k| array_val(a, buf, off, k)).collect();
                let g: Vec<Val> = (0..a.len).map(|k| v.arr_get(i, k)).collect();
                if g != e {
                    err.get_or_insert(format!("{}.{}: items {:?}, expected {:?}", s.name, f.name, g, e));
                }
                let g = v.arr_iter(i);
                if g != e {
                    err.get_or_insert(format!("{}.{}: iterates {:?}, expected {:?}", s.name, f.name, g, e));
                }
            }
            RF::Nested(n) => v.nested(i, &mut |v| compare(v, n, buf, off, err)),
        }
    }
}

fn s02(vt: &StructVt, s: &RStruct, src: &mut Src, want: bool) -> Case {
    check!(vt.sizes == [s.size; 3], "{}: sizes {:?}, expected {}", s.name, vt.sizes, s.size);
    let buf = buffer(s, src);
    let how = src.below(4) as u8;
    let mut err = None;
    (vt.view)(&buf, how, &mut |v| compare(v, s, &buf, 0, &mut err));
    if let Some(e) = err {
        return Err(cut(e));
    }
    // The same layout must hold for a whole structure rebuilt field by field.
    let mut out = vec![0u8; s.size];
    let mut model = vec![0u8; s.size];
    (vt.view_mut)(&mut out, 0, &mut |v| {
        for (l, x) in scalars(s) {
            let raw = get_bits(&buf, l.off, x.bits, x.endian);
            set_bits(&mut model, l.off, x.bits, x.endian, raw);
            at_mut(v, &l.path, false, &mut |v, f| v.set_raw(f, raw));
        }
        for (l, a) in arrays(s) {
            for i in 0..a.len {
                let raw = get_bits(&buf, item_bits(&a, l.off, i), a.item_bits, a.endian);
                let val = plain(a.ty, a.item_bits, raw);
                set_bits(&mut model, item_bits(&a, l.off, i), a.item_bits, a.endian, unplain(&val) & mask(a.item_bits));
                at_mut(v, &l.path, false, &mut |v, f| v.arr_set(f, i, &val));
            }
        }
    });
    check!(out == model, "{}: rebuilt {}, expected {}", s.name, hex(&out), hex(&model));
    info(!zero(&buf) && !s.fields.is_empty(), want, || format!("{} of {}", s.name, hex(&buf)))
}

struct One<'a> {
    vt: &'a StructVt,
    s: &'a RStruct,
    l: &'a Leaf,
}

impl<'a> One<'a> {
    fn read(&self, buf: &[u8]) -> (u64, Val) {
        let mut out = None;
        (self.vt.view)(buf, 0, &mut |v| at(v, &self.l.path, &mut |v, f| out = Some((v.get_raw(f), v.get(f)))));
        out.unwrap()
    }
    fn write(&self, buf: &mut [u8], val: &Val) {
        (self.vt.view_mut)(buf, 0, &mut |v| at_mut(v, &self.l.path, false, &mut |v, f| v.set(f, val)));
    }
    fn name(&self) -> String {
        self.s.path_name(&self.l.path)
    }
}

fn s03(vt: &StructVt, s: &RStruct, l: &Leaf, x: &RScalar, src: &mut Src, want: bool) -> Case {
    let o = One { vt, s, l };
    let mut buf = buffer(s, src);
    let raw = src.bits(x.bits as u32);
    set_bits(&mut buf, l.off, x.bits, x.endian, raw);
    let e = sign(raw, x.bits);
    let (r, g) = o.read(&buf);
    check!(r == raw, "{}: raw {:#x}, expected {:#x}", o.name(), r, raw);
    check!(g == Val::I(e), "{}: raw {:#x} of {} bits reads {:?}, expected {}", o.name(), raw, x.bits, g, e);
    let v = sign(src.bits(x.bits as u32), x.bits);
    let mut model = buf.clone();
    set_bits(&mut model, l.off, x.bits, x.endian, v as u64 & mask(x.bits));
    o.write(&mut buf, &Val::I(v));
    check!(buf == model, "{}: writing {} gives {}, expected {}", o.name(), v, hex(&buf), hex(&model));
    let (_, g) = o.read(&buf);
    check!(g == Val::I(v), "{}: wrote {}, read {:?}", o.name(), v, g);
    info(e < 0 || v < 0, want, || format!("{} ({} bits at bit {}): raw {:#x} reads {}, {} written", o.name(), x.bits, l.off, raw, e, v))
}

fn as_f(v: &Val) -> f64 {
    match v {
        Val::F32(b) => f32::from_bits(*b) as f64,
        Val::F64(b) => f64::from_bits(*b),
        _ => f64::NAN,
    }
}

fn s04(vt: &StructVt, s: &RStruct, l: &Leaf, x: &RScalar, src: &mut Src, want: bool) -> Case {
    let o = One { vt, s, l };
    let top = mask(x.bits);
    let (lo, hi) = (affine(x, 0), affine(x, top));
    let step = (hi - lo).abs() / top as f64;
    let eps = if x.ty == Ty::F32 { f32::EPSILON as f64 } else { f64::EPSILON };
    let tol = 8.0 * eps * lo.abs().max(hi.abs());
    let mut buf = buffer(s, src);
    let raw = src.bits(x.bits as u32);
    set_bits(&mut buf, l.off, x.bits, x.endian, raw);
    let (r, g) = o.read(&buf);
    check!(r == raw, "{}: raw {:#x}, expected {:#x}", o.name(), r, raw);
    let (g, e) = (as_f(&g), affine(x, raw));
    check!((g - e).abs() <= tol, "{}: raw {:#x} of {} bits with {:?} reads {}, expected {}", o.name(), raw, x.bits, x.view, g, e);
    // A value of the representable range, the bounds included.
    let t = match src.weighted(&[3, 1, 1, 2]) {
        0 => src.below(1 << 53) as f64 / (1u64 << 53) as f64,
        1 => 0.0,
        2 => 1.0,
        _ => src.bits(x.bits as u32) as f64 / top as f64,
    };
    let y = lo + (hi - lo) * t;
    let (val, y) = if x.ty == Ty::F32 {
        let v = (y as f32).clamp(lo.min(hi) as f32, lo.max(hi) as f32);
        (Val::F32(v.to_bits()), v as f64)
    } else {
        (Val::F64(y.to_bits()), y)
    };
    let mut model = buf.clone();
    o.write(&mut buf, &val);
    let (r, g) = o.read(&buf);
    let g = as_f(&g);
    check!((g - y).abs() <= step * (1.0 + 1e-9) + 2.0 * tol, "{}: wrote {} with {:?} of {} bits, read {} (raw {:#x}, step {})", o.name(), y, x.view, x.bits, g, r, step);
    set_bits(&mut model, l.off, x.bits, x.endian, r);
    check!(buf == model, "{}: writing {} gives {}, expected {}", o.name(), y, hex(&buf), hex(&model));
    info(raw != 0 && raw != top, want, || format!("{} ({:?}, {} bits): raw {:#x} reads {}, {} written reads {}", o.name(), x.view, x.bits, raw, e, y, g))
}

fn s04_native(vt: &StructVt, s: &RStruct, l: &Leaf, x: &RScalar, src: &mut Src, want: bool) -> Case {
    let o = One { vt, s, l };
    let mut buf = buffer(s, src);
    let special = [0u64, 0x7FC00000, 0xFFC00001, 0x7F800000, 0xFF800000, 0x80000000, 0x7F800001, 1, 0x3F800000];
    let gen = |src: &mut Src| if x.bits == 32 && src.bool() {
        *src.pick(&special)
    } else if src.one_in(3) {
        (*src.pick(&[0x7FF8000000000000u64, 0xFFF0000000000000, 0x7FF0000000000001, 0x8000000000000000, 1, 0x3FF0000000000000])) & mask(x.bits)
    } else {
        src.bits(x.bits as u32)
    };
    let raw = gen(src);
    set_bits(&mut buf, l.off, x.bits, x.endian, raw);
    let e = plain(x.ty, x.bits, raw);
    let (r, g) = o.read(&buf);
    check!(r == raw && g == e, "{}: raw {:#x} reads raw {:#x} and {:x?}", o.name(), raw, r, g);
    let w = gen(src);
    let val = plain(x.ty, x.bits, w);
    let mut model = buf.clone();
    set_bits(&mut model, l.off, x.bits, x.endian, w);
    o.write(&mut buf, &val);
    check!(buf == model, "{}: writing float bits {:#x} gives {}, expected {}", o.name(), w, hex(&buf), hex(&model));
    info(raw != 0 && raw != mask(x.bits), want, || format!("{}: float bits {:#x} and {:#x}", o.name(), raw, w))
}

fn s05(vt: &StructVt, ev: &EnumVt, s: &RStruct, l: &Leaf, x: &RScalar, e: &REnum, src: &mut Src, want: bool) -> Case {
    let o = One { vt, s, l };
    let declared: Vec<u64> = e.variants.iter().map(|v| v.1).collect();
    check!(ev.values == declared, "{}: variants number {:?}, expected {:?}", e.name, ev.values, declared);
    let mut buf = buffer(s, src);
    let raw = match src.weighted(&[2, 3, 2]) {
        0 => *src.pick(&declared),
        1 => src.pick(&declared).wrapping_add(src.range(0, 2)).wrapping_sub(1) & mask(x.bits),
        _ => src.bits(x.bits as u32),
    };
    set_bits(&mut buf, l.off, x.bits, x.endian, raw);
    let (r, g) = o.read(&buf);
    let exp = interp(x, raw);
    check!(r == raw && g == exp, "{}: raw {} reads raw {} and {:?}, expected {:?} (declared {:?})", o.name(), raw, r, g, exp, declared);
    let k = src.idx(declared.len());
    let val = Val::E(Some(declared[k]));
    let mut model = buf.clone();
    set_bits(&mut model, l.off, x.bits, x.endian, declared[k]);
    o.write(&mut buf, &val);
    check!(buf == model, "{}: writing {} gives {}, expected {}", o.name(), e.variants[k].0, hex(&buf), hex(&model));
    let (_, g) = o.read(&buf);
    check!(g == val, "{}: wrote {:?}, read {:?}", o.name(), val, g);
    info(exp == Val::E(None) || k > 0, want, || format!("{} ({} bits, declared {:?}): raw {} reads {:?}, {} written", o.name(), x.bits, declared, raw, exp, e.variants[k].0))
}

fn s06(vt: &StructVt, s: &RStruct, l: &Leaf, x: &RScalar, src: &mut Src, want: bool) -> Case {
    let o = One { vt, s, l };
    let mut buf = buffer(s, src);
    let raw = src.bits(x.bits as u32);
    set_bits(&mut buf, l.off, x.bits, x.endian, raw);
    let around = zero(&buf);
    let (r, g) = o.read(&buf);
    check!(r == raw && g == Val::B(raw != 0), "{}: raw {:#x} of {} bits reads raw {:#x} and {:?}", o.name(), raw, x.bits, r, g);
    let v = src.bool();
    let mut model = buf.clone();
    set_bits(&mut model, l.off, x.bits, x.endian, v as u64);
    o.write(&mut buf, &Val::B(v));
    check!(buf == model, "{}: writing {} gives {}, expected {}", o.name(), v, hex(&buf), hex(&model));
    info(raw > 1 || !around, want, || format!("{} ({} bits): raw {:#x}, {} written", o.name(), x.bits, raw, v))
}

/// An index which an array of `n` items does not have.
pub fn outside(n: usize, src: &mut Src) -> usize {
    match src.below(4) {
        0 => n,
        1 => n + src.below(40) as usize,
        2 => usize::MAX - src.below(3) as usize,
        _ => n.max(src.bits(64) as usize),
    }
}

fn s07(vt: &StructVt, s: &RStruct, l: &Leaf, a: &RArray, src: &mut Src, want: bool) -> Case {
    let name = s.path_name(&l.path);
    let mut buf = buffer(s, src);
    let first = buf.clone();
    let mut model = buf.clone();
    let n = src.below(9);
    let mut log = String::new();
    for step in 0..=n {
        let e: Vec<Val> = (0..a.len).map(|k| array_val(a, &model, l.off, k)).collect();
        let mut err = None;
        let how = src.below(4) as u8;
        (vt.view)(&buf, how, &mut |v| at(v, &l.path, &mut |v, f| {
            let len = v.arr_len(f);
            if len != a.len {
                err = Some(format!("{}: length {}, expected {}", name, len, a.len));
                return;
            }
            let g: Vec<Val> = (0..a.len).map(|k| v.arr_get(f, k)).collect();
            if g != e {
                err = Some(format!("{}: items {:?}, expected {:?}", name, g, e));
            }
            let g = v.arr_iter(f);
            if g != e {
                err = Some(format!("{}: iterates {:?}, expected {:?}", name, g, e));
            }
            if let Some(b) = v.arr_bytes(f) {
                let o = (l.off / 8) as usize;
                if b != model[o..o + a.len] {
                    err = Some(format!("{}: bytes {}, expected {}", name, hex(&b), hex(&model[o..o + a.len])));
                }
            }
        }));
        if let Some(e) = err {
            return Err(cut(e));
        }
        if step == n {
            break;
        }
        if a.ty == Ty::U8 && src.one_in(6) {
            let b = src.bytes(a.len);
            let o = (l.off / 8) as usize;
            model[o..o + a.len].copy_from_slice(&b);
            (vt.view_mut)(&mut buf, 0, &mut |v| at_mut(v, &l.path, false, &mut |v, f| {
                v.arr_fill(f, &b);
            }));
            if want {
                log += &format!(" :={}", hex(&b));
            }
        } else {
            let i = src.idx(a.len);
            let raw = if a.ty == Ty::Bool { src.below(2) } else { src.bits(a.item_bits as u32) };
            let val = plain(a.ty, a.item_bits, raw);
            set_bits(&mut model, item_bits(a, l.off, i), a.item_bits, a.endian, raw);
            let via = src.bool();
            (vt.view_mut)(&mut buf, 0, &mut |v| at_mut(v, &l.path, via, &mut |v, f| v.arr_set(f, i, &val)));
            if want {
                log += &format!(" [{}]:={:?}", i, val);
            }
        }
        check!(buf == model, "{}: after{} the buffer is {}, expected {} (from {})", name, log, hex(&buf), hex(&model), hex(&first));
    }
    if src.one_in(8) {
        let k = outside(a.len, src);
        let val = plain(a.ty, a.item_bits, 0);
        let mut got = None;
        (vt.view)(&buf, 0, &mut |v| at(v, &l.path, &mut |v, f| got = guarded(|| Ok(v.arr_get(f, k))).ok()));
        check!(got.is_none(), "{}: item {} of {} reads {:?}", name, k, a.len, got);
        let mut ok = false;
        (vt.view_mut)(&mut buf, 0, &mut |v| at_mut(v, &l.path, false, &mut |v, f| ok = guarded(|| Ok(v.arr_set(f, k, &val))).is_ok()));
        check!(!ok && buf == model, "{}: writing item {} of {} is accepted or changes {} to {}", name, k, a.len, hex(&model), hex(&buf));
    }
    info(model != first, want, || format!("{} ({} x {} bits {:?}) from {}:{}", name, a.len, a.item_bits, a.endian, hex(&first), log))
}

/// Every nested structure below `s`: (path, first byte, structure).
fn nested(s: &RStruct, path: &mut Vec<usize>, base: u64, out: &mut Vec<(Vec<usize>, usize, Rc<RStruct>)>) {
    for (i, f) in s.fields.iter().enumerate() {
        if let RF::Nested(n) = &f.f {
            path.push(i);
            out.push((path.clone(), ((base + f.off) / 8) as usize, n.clone()));
            nested(n, path, base + f.off, out);
            path.pop();
        }
    }
}

fn s08(vt: &StructVt, s: &RStruct, src: &mut Src, want: bool) -> Case {
    let mut buf = buffer(s, src);
    let first = buf.clone();
    // Reading from slices of any length.
    let n = src.below(s.size as u64 + 4) as usize;
    let mut slice = buf.clone();
    slice.resize(n, 0x5A);
    let r = (vt.from_slice)(&slice);
    if n < s.size {
        check!(r == Err(EK::Truncated), "{}: reading from {} of {} bytes gives {:?}", s.name, n, s.size, r);
    } else {
        check!(r == Ok((s.size, slice[..s.size].to_vec())), "{}: reading from {} bytes ({}) gives {:?}", s.name, n, hex(&slice), r);
    }
    // Writing from a buffer at least as long.
    let mut out = Vec::new();
    let r = (vt.write)(&buf, &mut out);
    check!(r == Ok(()) && out == buf[..s.size], "{}: writing gives {:?} and {}, expected {}", s.name, r, hex(&out), hex(&buf[..s.size]));
    // Re-borrowed views.
    let mut err: Option<String> = None;
    let how = src.below(4) as u8;
    (vt.view)(&buf, how, &mut |v| {
        match v.bytes() {
            Ok(b) if b == buf[..s.size] => (),
            r => err = Some(format!("{}: a view writes {:?}, expected {}", s.name, r, hex(&buf[..s.size]))),
        }
        v.reborrow(&mut |v| compare(v, s, &buf, 0, &mut err));
    });
    if let Some(e) = err {
        return Err(cut(e));
    }
    let mut ns = Vec::new();
    nested(s, &mut vec![], 0, &mut ns);
    let mut log = String::new();
    let mut model = buf.clone();
    if !ns.is_empty() {
        for _ in 0..src.range(1, 4) {
            let (path, byte, n) = src.pick(&ns).clone();
            let name = s.path_name(&path);
            let mut err: Option<String> = None;
            (vt.view)(&buf, how, &mut |v| {
                fn down(v: &dyn SView, path: &[usize], g: &mut dyn FnMut(&dyn SView)) {
                    match path {
                        [] => g(v),
                        [i, rest @ ..] => v.nested(*i, &mut |v| down(v, rest, g)),
                    }
                }
                down(v, &path, &mut |v| {
                    match v.bytes() {
                        Ok(b) if b == model[byte..byte + n.size] => (),
                        r => err = Some(format!("{}: writes {:?}, expected {}", name, r, hex(&model[byte..byte + n.size]))),
                    }
                    compare(v, &n, &model[byte..], 0, &mut err);
                    v.reborrow(&mut |v| compare(v, &n, &model[byte..], 0, &mut err));
                });
            });
            if let Some(e) = err {
                return Err(cut(e));
            }
            // A write through the nested view shows in the parent's bytes.
            let sc = scalars(&n);
            if sc.is_empty() {
                continue;
            }
            let (l, x) = src.pick(&sc).clone();
            let raw = src.bits(x.bits as u32);
            let mut full = path.clone();
            full.extend(&l.path);
            set_bits(&mut model, byte as u64 * 8 + l.off, x.bits, x.endian, raw);
            let via = src.bool();
            let how = src.weighted(&[3, 1, 2]) as u8;
            let mut back = None;
            (vt.view_mut)(&mut buf, how, &mut |v| {
                at_mut(v, &full, via, &mut |v, f| v.set_raw(f, raw));
                at(v, &full, &mut |v, f| back = Some(v.get_raw(f)));
            });
            if want {
                log += &format!(" {}:={:#x}", s.path_name(&full), raw);
            }
            check!(back == Some(raw), "{}: wrote raw {:#x}, the parent reads {:x?}", s.path_name(&full), raw, back);
            check!(buf == model, "{}: after{} the buffer is {}, expected {}", s.name, log, hex(&buf), hex(&model));
        }
    }
    let _ = Endian::Little;
    info(!zero(&first), want, || format!("{} of {}, read from {} bytes;{}", s.name, hex(&first), n, log))
}
