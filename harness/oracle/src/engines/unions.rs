use super::*;
use crate::check;
use crate::gen;
use crate::model::*;
use crate::resolve::*;
use crate::tape::Src;
use crate::vt::*;
use std::rc::Rc;

pub fn targets<'a>(prop: &str, cx: &'a Cx) -> Vec<Target<'a>> {
    let mut out: Vec<Target<'a>> = Vec::new();
    let mut k = 0;
    for p in &cx.res.protos {
        for u in &p.unions {
            let vt = &cx.vt.unions[k];
            assert_eq!(vt.name, u.name);
            k += 1;
            let u: &'a Rc<RUnion> = u;
            let f: fn(&UnionVt, &RUnion, &mut Src, bool) -> Case = if prop == "U01" { u01 } else { u02 };
            out.push(Target {
                name: u.name.clone(),
                root: (u.proto, u.name.clone()),
                weight: 1 + u.cases.len() as u64,
                run: Box::new(move |src, want| f(vt, u, src, want)),
            });
        }
    }
    out
}

fn value(u: &RUnion, src: &mut Src) -> (usize, Val) {
    let c = src.idx(u.cases.len());
    let mut g = gen::Vals::new(src, 60);
    (c, Val::Un(c, u.cases[c].item.as_ref().map(|r| Box::new(g.reference(r)))))
}

fn bytes(u: &RUnion, v: &Val) -> Vec<u8> {
    let mut out = Vec::new();
    if let Val::Un(c, Some(x)) = v {
        encode_ref(u.cases[*c].item.as_ref().unwrap(), x, &mut out).expect("model encodes");
    }
    out
}

fn u01(vt: &UnionVt, u: &RUnion, src: &mut Src, want: bool) -> Case {
    let (c, v) = value(u, src);
    let name = format!("{}::{}", u.name, u.cases[c].name);
    let mut disc = src.bytes(u.root.size);
    let first = disc.clone();
    let mut model = disc.clone();
    set_bits(&mut model, u.leaf_off, u.leaf.bits, u.leaf.endian, u.cases[c].raw);
    (vt.set_disc)(&v, &mut disc);
    check!(disc == model, "{}: setting the discriminant of {} gives {}, expected {}", name, hex(&first), hex(&disc), hex(&model));
    let e = bytes(u, &v);
    let mut out = Vec::new();
    let r = (vt.write)(&v, &disc, &mut out);
    check!(r == Ok(()) && out == e, "{}: writing {:?} gives {:?} and {}, expected {}", name, v, r, hex(&out), hex(&e));
    let r = (vt.read)(&out, &disc);
    check!(r == Ok((v.clone(), e.len())), "{}: wrote {:?} as {}, read {:?}", name, v, hex(&out), r);
    // What follows the value is left alone, unless the content extends to the end.
    let open = match &u.cases[c].item {
        Some(RRef::Msg(m)) => m.tail() != Tail::Closed,
        _ => false,
    };
    if !open {
        let mut long = out.clone();
        let n = src.len(4);
        long.extend(src.bytes(n));
        let r = (vt.read)(&long, &disc);
        check!(r == Ok((v.clone(), e.len())), "{}: {} reads {:?}, expected {:?} ({} bytes)", name, hex(&long), r, v, e.len());
    }
    let acc = (vt.access)(&v);
    for (i, a) in acc.iter().enumerate() {
        let e = if i == c {
            match &v {
                Val::Un(_, x) => Some(x.as_ref().map(|v| (**v).clone())),
                _ => None,
            }
        } else {
            None
        };
        check!(*a == e, "{}: the accessor of {} answers {:?}, expected {:?}", name, u.cases[i].name, a, e);
    }
    check!(acc.len() == u.cases.len(), "{}: no accessors", name);
    info(!e.is_empty() || first.iter().any(|v| *v != 0), want, || cut(format!("{} ({:?}) under {} from {}", name, v, hex(&disc), hex(&first))))
}

fn u02(vt: &UnionVt, u: &RUnion, src: &mut Src, want: bool) -> Case {
    let (c, v) = value(u, src);
    let name = format!("{}::{}", u.name, u.cases[c].name);
    let mut disc = src.bytes(u.root.size);
    // The discriminant of another case, a neighbour, or anything.
    let raw = match src.weighted(&[3, 3, 2]) {
        0 => src.pick(&u.cases).raw,
        1 => src.pick(&u.cases).raw ^ (1u64 << src.below(u.leaf.bits)),
        _ => src.bits(u.leaf.bits as u32),
    };
    set_bits(&mut disc, u.leaf_off, u.leaf.bits, u.leaf.endian, raw);
    if raw != u.cases[c].raw {
        let mut out = Vec::new();
        let r = (vt.write)(&v, &disc, &mut out);
        check!(r == Err(EK::BadDisc(raw)), "{} (declared {}): writing under {} gives {:?}", name, u.cases[c].raw, raw, r);
        check!(out.is_empty(), "{}: writing under {} is refused, but {} was written", name, raw, hex(&out));
    }
    let n = src.len(20);
    let mut b = src.bytes(n);
    if src.bool() {
        b = bytes(u, &v);
    }
    let known = u.cases.iter().any(|c| c.raw == raw);
    if !known {
        let r = (vt.read)(&b, &disc);
        check!(r == Err(EK::BadDisc(raw)), "{}: reading under {}, which no case declares, gives {:?}", u.name, raw, r);
    } else {
        let g = (vt.read)(&b, &disc);
        let e = decode_union(u, raw, &b);
        match (&g, &e) {
            (Ok(a), Ok(b)) => check!(a == b, "{}: reading under {} gives {:?}, expected {:?}", u.name, raw, a, b),
            (Err(_), Err(_)) => (),
            _ => return Err(cut(format!("{}: reading {} under {} gives {:?}, expected {:?}", u.name, hex(&b), raw, g, e))),
        }
    }
    info(raw != u.cases[c].raw, want, || cut(format!("{} (declared {}) under {} ({})", name, u.cases[c].raw, raw, if known { "another case" } else { "no case" })))
}
