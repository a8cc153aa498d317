use super::*;
use super::structs::outside;
use crate::batch::guarded;
use crate::check;
use crate::gen;
use crate::model::*;
use crate::resolve::*;
use crate::tape::Src;
use crate::vt::*;
use std::rc::Rc;

pub fn targets<'a>(prop: &str, cx: &'a Cx) -> Vec<Target<'a>> {
    let mut out: Vec<Target<'a>> = Vec::new();
    let (mut kl, mut ka) = (0, 0);
    for p in &cx.res.protos {
        for m in &p.msgs {
            for f in &m.fields {
                match &f.kind {
                    RMK::List(n, x) => {
                        let vt = &cx.vt.lists[kl];
                        kl += 1;
                        assert_eq!((vt.msg, vt.field), (&*m.name, &*f.name));
                        if prop == "L02" {
                            continue;
                        }
                        let (n, x, m): (usize, &'a Rc<RMsg>, &'a Rc<RMsg>) = (*n, x, m);
                        let faulty = prop == "M07";
                        out.push(Target {
                            name: format!("{}.{}", m.name, f.name),
                            root: (m.proto, m.name.clone()),
                            weight: 3,
                            run: Box::new(move |src, want| {
                                if !faulty && src.below(2) == 1 {
                                    l01_raw(vt, x, src, want)
                                } else {
                                    l01_build(vt, n, x, m, faulty, src, want)
                                }
                            }),
                        });
                    }
                    RMK::Array(n, s) => {
                        let vt = &cx.vt.arrays[ka];
                        ka += 1;
                        assert_eq!((vt.msg, vt.field), (&*m.name, &*f.name));
                        if prop == "L01" {
                            continue;
                        }
                        let (n, s, m): (usize, &'a Rc<RStruct>, &'a Rc<RMsg>) = (*n, s, m);
                        let faulty = prop == "M07";
                        out.push(Target {
                            name: format!("{}.{}", m.name, f.name),
                            root: (m.proto, m.name.clone()),
                            weight: 3,
                            run: Box::new(move |src, want| {
                                if faulty {
                                    l02_build(vt, n, s, m, true, src, want)
                                } else {
                                    match src.weighted(&[3, 2, 2]) {
                                        0 => l02_parts(vt, s, src, want),
                                        1 => l02_build(vt, n, s, m, false, src, want),
                                        _ => l02_read(vt, n, s, m, src, want),
                                    }
                                }
                            }),
                        });
                    }
                    _ => (),
                }
            }
        }
    }
    out
}

fn length(n: usize, prefix: usize, m: &RMsg) -> Option<Vec<u8>> {
    if prefix < 8 && n as u64 > mask(prefix as u64 * 8) {
        return None;
    }
    let mut out = Vec::new();
    for i in 0..prefix {
        let sh = if m.endian == crate::schema::Endian::Little { i } else { prefix - 1 - i };
        out.push(((n as u64) >> (8 * sh)) as u8);
    }
    Some(out)
}

fn sink(src: &mut Src, total: usize, faulty: bool) -> FaultSink {
    let mut s = FaultSink::good();
    if faulty || src.one_in(4) {
        s.fail_at = Some((src.below(total as u64 + 2) as usize, None));
        s.zero = src.bool();
    }
    if src.one_in(3) {
        s.chunk = src.range(1, 4) as usize;
    }
    if src.one_in(3) {
        s.interrupt = src.range(2, 5) as usize;
    }
    s
}

fn l01_build(vt: &ListVt, prefix: usize, x: &RMsg, m: &RMsg, faulty: bool, src: &mut Src, want: bool) -> Case {
    let name = format!("{}.{}", vt.msg, vt.field);
    let mut ops = Vec::new();
    let many = src.one_in(25);
    for _ in 0..src.len(8) {
        let item = |src: &mut Src| {
            let mut v = gen::Vals::new(src, 30).message(x);
            // An item which cannot be written must leave the list as it was.
            if src.one_in(6) {
                if let Val::Msg(vs) = &mut v {
                    if let Some(Val::Str(s)) = vs.iter_mut().find(|v| matches!(v, Val::Str(_))) {
                        *s = format!("a\0{}", "x".repeat(256));
                    }
                }
            }
            v
        };
        if src.bool() {
            ops.push(LOp::One(item(src)));
        } else {
            let n = if many { *src.pick(&[256usize, 255, 257, 256, 300, 257, 255, 300, 65536, 70000]) } else { src.len(5) };
            let v: Vec<Val> = if many {
                let it = item(src);
                let each = encoded(x, &it).map(|b| b.len()).unwrap_or(1).max(1);
                vec![it; n.min(300_000 / each)]
            } else {
                (0..n).map(|_| item(src)).collect()
            };
            ops.push(LOp::Many(v));
        }
    }
    let total: usize = ops.iter().map(|o| match o {
        LOp::One(v) => encoded(x, v).map(|b| b.len()).unwrap_or(0),
        LOp::Many(v) => v.iter().map(|v| encoded(x, v).map(|b| b.len()).unwrap_or(0)).sum(),
    }).sum();
    let s = sink(src, total, faulty);
    let room = s.fail_at.map(|v| v.0);
    let run = (vt.run)(&ops, s);
    // The model: whole items only, until the sink is full.
    let mut items: Vec<Val> = Vec::new();
    let mut data: Vec<u8> = Vec::new();
    let mut broken = false;
    check!(run.steps.len() == ops.len(), "{}: {} steps for {} operations", name, run.steps.len(), ops.len());
    for (op, (r, len)) in ops.iter().zip(&run.steps) {
        let vs: &[Val] = match op {
            LOp::One(v) => std::slice::from_ref(v),
            LOp::Many(v) => v,
        };
        let mut fails = false;
        let mut added: Vec<(Val, Vec<u8>)> = Vec::new();
        let mut size = 0;
        // The glue builds all items first: an item which holds a list that cannot be built is never appended.
        let unbuilt = vs.iter().any(|v| unbuildable(x, v));
        if unbuilt {
            fails = true;
        } else {
            for v in vs {
                match encoded(x, v) {
                    Err(_) => fails = true,
                    Ok(b) => {
                        let full = broken && !b.is_empty() || room.map(|n| data.len() + size + b.len() > n).unwrap_or(false);
                        if full {
                            fails = true;
                            broken = true;
                        } else {
                            size += b.len();
                            added.push((v.clone(), b));
                        }
                    }
                }
                if fails {
                    break;
                }
            }
        }
        check!(r.is_err() == fails, "{}: an append gives {:?}, expected {} ({:?})", name, r, if fails { "an error" } else { "success" }, op);
        for (v, b) in added {
            items.push(v);
            data.extend(b);
        }
        check!(*len == items.len(), "{}: length {} after {} successful appends ({:?}: {:?})", name, len, items.len(), op, r);
    }
    check!(run.ref_len == items.len(), "{}: the view has length {}, expected {}", name, run.ref_len, items.len());
    let e = IterRun { items: items.clone(), errors: 0, overrun: false };
    check!(run.items == e, "{}: iterating gives {:?}, expected {:?}", name, run.items, e);
    check!(run.ref_items == e, "{}: iterating the view gives {:?}, expected {:?}", name, run.ref_items, e);
    if let Some((it, offs)) = &run.offs {
        check!(*it == e, "{}: iterating with offsets gives {:?}, expected {:?}", name, it, e);
        let eo: Vec<Vec<Off>> = items.iter().map(|v| {
            let mut o = None;
            encode(x, v, &mut Vec::new(), &mut o).unwrap();
            o.unwrap()
        }).collect();
        check!(*offs == eo, "{}: offsets of the items are {:?}, expected {:?}", name, offs, eo);
    }
    match (length(items.len(), prefix, m), &run.encoded) {
        (None, r) => check!(r.is_err(), "{}: {} items are written without an error", name, items.len()),
        (Some(mut p), Ok(b)) => {
            p.extend(&data);
            let ok = if broken { b.starts_with(&p) } else { *b == p };
            check!(ok, "{}: {:?} are written as {}, expected {}", name, items, hex(b), hex(&p));
        }
        (Some(_), Err(e)) => return Err(cut(format!("{}: writing {} items fails with {:?}", name, items.len(), e))),
    }
    info(!items.is_empty(), want, || cut(format!("{}: {} operations, {} items kept, sink full at {:?}: {:?}", name, ops.len(), items.len(), room, ops)))
}

/// True if the value holds a list of messages with an item which cannot be written, or a too long one.
fn unbuildable(m: &RMsg, v: &Val) -> bool {
    let vals = match v {
        Val::Msg(v) => v,
        _ => return false,
    };
    m.fields.iter().zip(vals).any(|(f, v)| {
        let v = match v {
            Val::Opt(None) => return false,
            Val::Opt(Some(v)) => v,
            v => v,
        };
        match (&f.kind, v) {
            (RMK::List(_, x), Val::List(l)) => l.items.iter().any(|v| unbuildable(x, v) || encoded(x, v).is_err()),
            (RMK::Msg(x), v) => unbuildable(x, v),
            (RMK::Union(_, u), Val::Un(c, Some(v))) => match &u.cases[*c].item {
                Some(RRef::Msg(x)) => unbuildable(x, v),
                _ => false,
            },
            _ => false,
        }
    })
}

fn l01_raw(vt: &ListVt, x: &RMsg, src: &mut Src, want: bool) -> Case {
    let name = format!("{}.{}", vt.msg, vt.field);
    let mut b = Vec::new();
    let mut n = 0u64;
    if src.one_in(60) {
        let v = gen::Vals::new(src, 10).message(x);
        let e = encoded(x, &v).unwrap_or_default();
        n = (*src.pick(&[256u64, 65535, 65536, 70000])).min(300_000 / e.len().max(1) as u64);
        b = e.repeat(n as usize);
    } else {
        for _ in 0..src.len(6) {
            b.extend(gen::hostile(x, src));
            n += 1;
        }
    }
    let n = match src.weighted(&[4, 1, 1, 1, 1]) {
        0 => n,
        1 => n + 1,
        2 => n.saturating_sub(1),
        3 => u64::MAX,
        _ => src.bits(16),
    };
    // Items of no bytes are as many as announced.
    let n = if x.min_size() == 0 { n.min(1000) } else { n };
    let (it, (io, offs)) = with_guard(&b, |b| (vt.raw)(b, n as usize));
    let (l, _) = decode_items(x, n, &b);
    let e = IterRun { items: l.items.clone(), errors: l.err as usize, overrun: false };
    check!(it == e, "{}: {} as {} items gives {:?}, expected {:?}", name, hex(&b), n, it, e);
    check!(io == e, "{}: {} as {} items with offsets gives {:?}, expected {:?}", name, hex(&b), n, io, e);
    check!(offs.len() == l.items.len(), "{}: {} offsets for {} items", name, offs.len(), l.items.len());
    info(!b.is_empty(), want, || cut(format!("{}: {} as {} items gives {} items and {} errors", name, hex(&b), n, it.items.len(), it.errors)))
}

fn l02_parts(vt: &ArrVt, s: &RStruct, src: &mut Src, want: bool) -> Case {
    let name = format!("{}.{}", vt.msg, vt.field);
    let n = src.len(12);
    let mut buf = src.bytes(n * s.size);
    let first = buf.clone();
    let off = match src.weighted(&[5, 1, 1, 1]) {
        0 => 0i64,
        1 => 1,
        2 => -1,
        _ => src.below(s.size as u64 * 2 + 1) as i64 - s.size as i64,
    };
    let len = (buf.len() as i64 + off).max(0) as usize;
    buf.resize(len, 0x77);
    let count = if src.one_in(6) { n + 1 } else if src.one_in(8) { (usize::MAX / s.size).wrapping_add(2) } else { n };
    let fits = count.checked_mul(s.size) == Some(buf.len());
    let mut model = buf.clone();
    let r = (vt.from_parts_ref)(&buf, count);
    let slots: Vec<Vec<u8>> = model.chunks(s.size).map(|v| v.to_vec()).collect();
    if !fits {
        check!(r.is_none(), "{}: {} bytes are granted as {} items of {} bytes", name, buf.len(), count, s.size);
        let granted = (vt.from_parts)(&mut buf, count, &mut |_| ());
        check!(!granted, "{}: {} bytes are granted as {} items of {} bytes", name, model.len(), count, s.size);
        return info(n > 0, want, || format!("{}: {} bytes refused as {} items of {}", name, model.len(), count, s.size));
    }
    let n = count;
    check!(r == Some((n, slots.clone())), "{}: {} as {} items gives {:?}", name, hex(&buf), n, r);
    let scs: Vec<(usize, RScalar)> = s.fields.iter().enumerate().filter_map(|(i, f)| match &f.f {
        RF::Scalar(x) => Some((i, x.clone())),
        _ => None,
    }).collect();
    let mut ops = Vec::new();
    if n > 0 && !scs.is_empty() {
        for _ in 0..src.len(5) {
            let (f, x) = src.pick(&scs).clone();
            let raw = src.bits(x.bits as u32);
            ops.push((src.idx(n), f, x, raw, src.bool()));
        }
    }
    let mut err: Option<String> = None;
    let granted = (vt.from_parts)(&mut buf, count, &mut |a| {
        let mut look = |a: &dyn AView, model: &[u8]| {
            let slots: Vec<Vec<u8>> = model.chunks(s.size).map(|v| v.to_vec()).collect();
            let len = a.len();
            if len != n {
                err.get_or_insert(format!("{}: length {}, expected {}", name, len, n));
                return;
            }
            let g: Vec<Vec<u8>> = (0..n).map(|i| a.get(i)).collect();
            if g != slots {
                err.get_or_insert(format!("{}: items by index {:?}, expected {:?}", name, g, slots));
            }
            let g = a.iter();
            if g != slots {
                err.get_or_insert(format!("{}: items by iteration {:?}, expected {:?}", name, g, slots));
            }
            let g = a.ref_items();
            if g != (n, slots.clone(), slots.clone()) {
                err.get_or_insert(format!("{}: items of the view {:?}, expected {:?}", name, g, slots));
            }
        };
        look(a, &model);
        for (i, f, x, raw, by_iter) in &ops {
            let off = (*i * s.size) as u64 * 8 + s.fields[*f].off;
            // Bits count within the item, which starts at a byte.
            set_bits(&mut model, off, x.bits, x.endian, *raw);
            if *by_iter {
                a.iter_mut(&mut |k, v| {
                    if k == *i {
                        v.set_raw(*f, *raw);
                    }
                });
            } else {
                a.get_mut(*i, &mut |v| v.set_raw(*f, *raw));
            }
            look(a, &model);
        }
    });
    check!(granted, "{}: {} bytes are refused as {} items of {} bytes", name, model.len(), count, s.size);
    if let Some(e) = err {
        return Err(cut(e));
    }
    check!(buf == model, "{}: the buffer is {}, expected {}", name, hex(&buf), hex(&model));
    if src.one_in(6) {
        let k = outside(n, src);
        let mut got = (false, false);
        (vt.from_parts)(&mut buf, count, &mut |a| {
            got.0 = guarded(|| Ok(a.get(k))).is_ok();
            got.1 = guarded(|| Ok(a.get_mut(k, &mut |v| scs.iter().for_each(|(f, _)| v.set_raw(*f, 1))))).is_ok();
        });
        check!(!got.0 && !got.1 && buf == model, "{}: item {} of {} is given (to read {}, to write {})", name, k, n, got.0, got.1);
    }
    info(n > 0, want, || format!("{}: {} items of {} bytes from {}, {} mutations", name, n, s.size, hex(&first), ops.len()))
}

fn l02_build(vt: &ArrVt, prefix: usize, s: &RStruct, m: &RMsg, faulty: bool, src: &mut Src, want: bool) -> Case {
    let name = format!("{}.{}", vt.msg, vt.field);
    let many = src.one_in(25);
    let mut ops: Vec<Vec<Vec<u8>>> = Vec::new();
    for _ in 0..src.len(6) {
        let n = if src.bool() { 1 } else if many { 256 } else { src.len(5) };
        if n > 100 {
            let b = src.bytes(s.size);
            ops.push(vec![b; n]);
        } else {
            ops.push((0..n).map(|_| src.bytes(s.size)).collect());
        }
    }
    let total: usize = ops.iter().map(|v| v.len() * s.size).sum();
    let sk = sink(src, total, faulty);
    let room = sk.fail_at.map(|v| v.0);
    let run = (vt.build)(&ops, sk);
    let mut items: Vec<Vec<u8>> = Vec::new();
    let mut broken = false;
    for (op, (r, len)) in ops.iter().zip(&run.steps) {
        let mut fails = false;
        for b in op {
            if broken || room.map(|n| (items.len() + 1) * s.size > n).unwrap_or(false) {
                fails = true;
                broken = true;
                break;
            }
            items.push(b.clone());
        }
        check!(r.is_err() == fails, "{}: an append gives {:?}, expected {}", name, r, if fails { "an error" } else { "success" });
        check!(*len == items.len(), "{}: length {} after {} successful appends ({:?})", name, len, items.len(), r);
    }
    check!(run.items.0 == items.len(), "{}: the view has length {}, expected {}", name, run.items.0, items.len());
    if !broken {
        check!(run.items.1 == items && run.items.2 == items, "{}: items {:?} and {:?}, expected {:?}", name, run.items.1, run.items.2, items);
    }
    match (length(items.len(), prefix, m), &run.encoded) {
        (None, r) => check!(r.is_err(), "{}: {} items are written without an error", name, items.len()),
        (Some(mut p), Ok(b)) => {
            p.extend(items.concat());
            let ok = if broken { b.starts_with(&p) } else { *b == p };
            check!(ok, "{}: written as {}, expected {}", name, hex(b), hex(&p));
        }
        (Some(_), Err(e)) => return Err(cut(format!("{}: writing {} items fails with {:?}", name, items.len(), e))),
    }
    info(!items.is_empty(), want, || format!("{}: {} appends, {} items of {} bytes kept, sink full at {:?}", name, ops.len(), items.len(), s.size, room))
}

fn l02_read(vt: &ArrVt, prefix: usize, s: &RStruct, m: &RMsg, src: &mut Src, want: bool) -> Case {
    let name = format!("{}.{}", vt.msg, vt.field);
    let n = src.len(12);
    let mut b = src.bytes(n * s.size);
    let count = match src.weighted(&[5, 1, 1, 1]) {
        0 => n as u64,
        1 => n as u64 + 1,
        2 => (n as u64).saturating_sub(1),
        _ => src.bits(prefix as u32 * 8),
    };
    if src.one_in(4) {
        let k = src.len(5);
        b.extend(src.bytes(k));
    }
    let mut all = Vec::new();
    for i in 0..prefix {
        let sh = if m.endian == crate::schema::Endian::Little { i } else { prefix - 1 - i };
        all.push((count >> (8 * sh)) as u8);
    }
    all.extend(&b);
    if src.one_in(8) {
        let n = src.idx(all.len() + 1);
        all.truncate(n);
    }
    let r = with_guard(&all, |b| (vt.read)(b));
    let fits = all.len() >= prefix && (count as u128) * (s.size as u128) <= (all.len() - prefix) as u128;
    if !fits {
        check!(r == Err(EK::Truncated), "{}: {} ({} items announced) gives {:?}", name, hex(&all), count, r);
    } else {
        let count = count as usize;
        let e: Vec<Vec<u8>> = all[prefix..prefix + count * s.size].chunks(s.size).map(|v| v.to_vec()).collect();
        check!(r == Ok((prefix + count * s.size, count, e.clone())), "{}: {} gives {:?}, expected {:?}", name, hex(&all), r, e);
    }
    info(n > 0, want, || format!("{}: {} items of {} bytes announced in {}", name, count, s.size, hex(&all)))
}
