use super::*;
use crate::check;
use crate::gen;
use crate::model::*;
use crate::resolve::*;
use crate::tape::Src;
use crate::vt::*;
use std::rc::Rc;

pub fn targets<'a>(prop: &str, cx: &'a Cx) -> Vec<Target<'a>> {
    let mut out: Vec<Target<'a>> = Vec::new();
    let mut k = 0;
    for p in &cx.res.protos {
        for m in &p.msgs {
            let vt = &cx.vt.msgs[k];
            assert_eq!(vt.name, m.name);
            k += 1;
            let m: &'a Rc<RMsg> = m;
            let f: fn(&MsgVt, &RMsg, &mut Src, bool) -> Case = match prop {
                "M01" => m01,
                "M02" => m02,
                "M03" => m03,
                "M04" if m.tail() == Tail::Closed => m04,
                "M05" => m05,
                "M06" => m06,
                "M07" => m07,
                "M08" if limits(m, 0) || wide(m).is_some() => m08,
                "M09" => m09,
                _ => continue,
            };
            out.push(Target {
                name: m.name.clone(),
                root: (m.proto, m.name.clone()),
                weight: 1 + m.fields.len() as u64,
                run: Box::new(move |src, want| f(vt, m, src, want)),
            });
        }
    }
    if prop == "M07" {
        let mut k = 0;
        for p in &cx.res.protos {
            for s in &p.structs {
                let vt = &cx.vt.structs[k];
                k += 1;
                let s: &'a Rc<RStruct> = s;
                out.push(Target {
                    name: s.name.clone(),
                    root: (s.proto, s.name.clone()),
                    weight: 1,
                    run: Box::new(move |src, want| m07_struct(vt, s, src, want)),
                });
            }
        }
        out.extend(lists::targets("M07", cx));
    }
    out
}

fn show(m: &RMsg, v: &Val) -> String {
    cut(format!("{}={:?}", m.name, v))
}

fn written(vt: &MsgVt, v: &Val) -> (Result<(), EK>, Vec<u8>) {
    let mut out = Vec::new();
    let r = (vt.write)(v, &mut out);
    (r, out)
}

fn m01(vt: &MsgVt, m: &RMsg, src: &mut Src, want: bool) -> Case {
    let v = gen::value(m, src);
    let (r, b) = written(vt, &v);
    check!(r == Ok(()), "{}: writing fails with {:?}", show(m, &v), r);
    match (vt.read)(&b) {
        Ok((g, n)) => {
            check!(g == v, "{}: reads back {:?} from {}", show(m, &v), g, hex(&b));
            check!(n == b.len(), "{}: wrote {} bytes, reading reports {}", show(m, &v), b.len(), n);
        }
        Err(e) => return Err(cut(format!("{}: reading back {} fails with {:?}", show(m, &v), hex(&b), e))),
    }
    info(gen::richness(m, &v) >= 2, want, || format!("{} as {}", show(m, &v), hex(&b)))
}

fn m02(vt: &MsgVt, m: &RMsg, src: &mut Src, want: bool) -> Case {
    let v = gen::value(m, src);
    let (r, b) = written(vt, &v);
    check!(r == Ok(()), "writing fails with {:?}: {}", r, show(m, &v));
    let e = encoded(m, &v).expect("model encodes");
    check!(b == e, "{}: written as {}, expected {}", show(m, &v), hex(&b), hex(&e));
    info(gen::richness(m, &v) >= 2, want, || format!("{} as {}", show(m, &v), hex(&b)))
}

fn same(vt: &MsgVt, m: &RMsg, b: &[u8]) -> Result<bool, String> {
    let g = (vt.read)(b);
    let e = decode(m, b);
    match (&g, &e) {
        (Ok((gv, gn)), Ok((ev, en, _))) => {
            check!(*gn <= b.len(), "{}: reading {} bytes reports {}", m.name, b.len(), gn);
            check!(gv == ev, "{}: {} reads {:?}, expected {:?}", m.name, hex(b), gv, ev);
            check!(gn == en, "{}: {} has size {}, expected {}", m.name, hex(b), gn, en);
            Ok(true)
        }
        (Err(_), Err(_)) => Ok(false),
        (Ok((gv, _)), Err(e)) => Err(cut(format!("{}: {} reads {:?}, expected an error ({:?})", m.name, hex(b), gv, e))),
        (Err(g), Ok((ev, _, _))) => Err(cut(format!("{}: {} fails with {:?}, expected {:?}", m.name, hex(b), g, ev))),
    }
}

fn m03(vt: &MsgVt, m: &RMsg, src: &mut Src, want: bool) -> Case {
    let b = gen::hostile(m, src);
    let ok = with_guard(&b, |b| same(vt, m, b))?;
    info(b.len() >= 2, want, || format!("{} from {}: {}", m.name, hex(&b), if ok { "accepted" } else { "refused" }))
}

fn m04(vt: &MsgVt, m: &RMsg, src: &mut Src, want: bool) -> Case {
    let v = if src.one_in(8) { gen::value(m, src) } else { gen::modest(m, src) };
    let b = encoded(m, &v).expect("model encodes");
    let (r, w) = written(vt, &v);
    check!(r == Ok(()) && w == b, "{}: written as {}, expected {}", show(m, &v), hex(&w), hex(&b));
    let cuts: Vec<usize> = if b.len() <= 80 {
        (0..b.len()).collect()
    } else {
        let k = if b.len() < 4096 { 40 } else { 6 };
        let mut c: Vec<usize> = (0..k).collect();
        c.extend((0..k).map(|_| src.idx(b.len())));
        c
    };
    for n in &cuts {
        let r = with_guard(&b[..*n], |b| (vt.read)(b));
        check!(r == Err(EK::Truncated), "{}: the first {} of {} bytes of {} give {:?}", m.name, n, b.len(), hex(&b), r);
    }
    let mut long = b.clone();
    let n = src.range(1, 12) as usize;
    long.extend(src.bytes(n));
    let r = (vt.read)(&long);
    check!(r == Ok((v.clone(), b.len())), "{}: {} followed by {} reads {:?}", show(m, &v), hex(&b), hex(&long[b.len()..]), r);
    info(gen::richness(m, &v) >= 2, want, || format!("{} as {}: {} cuts, {} bytes after", show(m, &v), hex(&b), cuts.len(), n))
}

fn tiles(o: &[Off], size: usize) -> bool {
    let mut at = 0;
    for f in o {
        if f.start != at || f.end < f.start {
            return false;
        }
        at = f.end;
    }
    at == size
}

fn m05(vt: &MsgVt, m: &RMsg, src: &mut Src, want: bool) -> Case {
    let b = if src.below(2) == 0 {
        let v = gen::value(m, src);
        encoded(m, &v).expect("model encodes")
    } else {
        gen::hostile(m, src)
    };
    let plain = (vt.read)(&b);
    let offs = (vt.read_off)(&b);
    match (&plain, &offs) {
        (Err(_), Err(_)) => (),
        (Ok((v, n)), Ok((v1, n1, o))) => {
            check!(v == v1 && n == n1, "{}: {} reads {:?} ({}) and with offsets {:?} ({})", m.name, hex(&b), v, n, v1, n1);
            check!(tiles(o, *n), "{}: offsets of {} do not tile {} bytes: {:?}", m.name, hex(&b), n, o);
            if let Ok((_, _, e)) = decode(m, &b) {
                check!(*o == e, "{}: offsets of {} are {:?}, expected {:?}", m.name, hex(&b), o, e);
            }
        }
        _ => return Err(cut(format!("{}: {} reads {:?}, and with offsets {:?}", m.name, hex(&b), plain, offs))),
    }
    info(b.len() >= 2, want, || format!("{} from {}: {:?}", m.name, hex(&b), offs.map(|v| v.2)))
}

fn m06(vt: &MsgVt, m: &RMsg, src: &mut Src, want: bool) -> Case {
    let mut v = gen::value(m, src);
    let broken = src.one_in(3) && spoil(m, &mut v, src, 0).is_some();
    let n = (vt.size_of)(&v);
    let (r, b) = written(vt, &v);
    match (&n, &r) {
        (Ok(n), Ok(())) => check!(*n == b.len(), "computed size {}, {} bytes written: {}", n, b.len(), show(m, &v)),
        (Err(_), Err(_)) => (),
        _ => return Err(cut(format!("computed size {:?}, writing gives {:?}: {}", n, r, show(m, &v)))),
    }
    check!(broken || r == Ok(()), "writing fails with {:?}: {}", r, show(m, &v));
    let e = encoded(m, &v);
    check!(e.is_ok() == n.is_ok(), "computed size {:?}, expected {:?}: {}", n, e.map(|v| v.len()), show(m, &v));
    if let (Ok(n), Ok(e)) = (&n, &e) {
        check!(*n == e.len(), "computed size {}, expected {}: {}", n, e.len(), show(m, &v));
    }
    info(gen::richness(m, &v) >= 2, want, || format!("{}: size {:?}", show(m, &v), n))
}

/// Runs a writer against faults at chosen positions.
pub fn faults(name: &str, e: &[u8], src: &mut Src, write: &mut dyn FnMut(&mut FaultSink) -> Result<(), EK>) -> Result<usize, String> {
    let spots: Vec<usize> = if e.len() <= 40 { (0..e.len()).collect() } else { (0..40).map(|i| if i < 20 { i } else { src.idx(e.len()) }).collect() };
    let mut tried = 0;
    for at in spots {
        for mode in 0..3 {
            let mut s = FaultSink::failing(at, if mode == 1 { FaultKind::Zero } else { FaultKind::Error });
            s.once = mode == 2;
            let r = write(&mut s);
            tried += 1;
            let kind = if mode == 1 { "WriteZero" } else { "Other" };
            check!(r == Err(EK::Io(kind.into())), "{}: a sink failing at byte {} of {} gives {:?}, expected an I/O error {}", name, at, e.len(), r, kind);
            check!(e.starts_with(&s.data), "{}: a sink failing at byte {} received {}, which is no prefix of {}", name, at, hex(&s.data), hex(e));
        }
    }
    for (chunk, interrupt) in [(1, 0), (src.range(1, 7) as usize, 0), (0, 2), (1, 3), (src.range(1, 5) as usize, src.range(2, 5) as usize)] {
        let mut s = FaultSink::good();
        s.chunk = chunk;
        s.interrupt = interrupt;
        let r = write(&mut s);
        tried += 1;
        check!(r == Ok(()) && s.data == e, "{}: a sink accepting {} bytes at once, interrupting every {} calls, gives {:?} and {}, expected {}", name, chunk, interrupt, r, hex(&s.data), hex(e));
    }
    Ok(tried)
}

fn m07(vt: &MsgVt, m: &RMsg, src: &mut Src, want: bool) -> Case {
    let v = gen::modest(m, src);
    let e = encoded(m, &v).expect("model encodes");
    let n = faults(&show(m, &v), &e, src, &mut |s| (vt.write)(&v, s))?;
    info(gen::richness(m, &v) >= 2, want, || format!("{} as {}: {} sinks", show(m, &v), hex(&e), n))
}

fn m07_struct(vt: &StructVt, s: &RStruct, src: &mut Src, want: bool) -> Case {
    let b = src.bytes(s.size);
    let n = faults(&s.name, &b, src, &mut |w| (vt.write)(&b, w))?;
    info(s.size >= 2, want, || format!("{} as {}: {} sinks", s.name, hex(&b), n))
}

/// True if some value of the message cannot be written.
fn limits(m: &RMsg, depth: usize) -> bool {
    depth < 5 && m.fields.iter().any(|f| match &f.kind {
        RMK::Nts | RMK::Union(..) => true,
        RMK::Varchar(p) | RMK::Array(p, _) => *p <= 2,
        RMK::List(p, x) => *p <= 1 || limits(x, depth + 1),
        RMK::Msg(x) => limits(x, depth + 1),
        _ => false,
    })
}

/// The list of the message whose length takes two bytes: filling it is slow, so it is done rarely.
fn wide(m: &RMsg) -> Option<usize> {
    m.fields.iter().position(|f| matches!(f.kind, RMK::List(2, _)))
}

/// Puts such a list at its limit or above it, also by a whole number of turns of its length.
fn overfill(m: &RMsg, v: &mut Val, i: usize, src: &mut Src) -> Option<bool> {
    let (vals, x) = match (v, &m.fields[i].kind) {
        (Val::Msg(v), RMK::List(_, x)) => (v, x),
        _ => return None,
    };
    let over = src.below(3) != 0;
    let n = if over { 65_536 + src.below(3) as usize } else { 65_535 };
    let it = gen::Vals::new(src, 0).message(x);
    let l = list(vec![it; n]);
    vals[i] = if m.fields[i].optional { Val::Opt(Some(Box::new(l))) } else { l };
    Some(over)
}

/// Makes one field of the value impossible to write (Some(true)), or puts it at its limit (Some(false)).
fn spoil(m: &RMsg, v: &mut Val, src: &mut Src, depth: usize) -> Option<bool> {
    let vals = match v {
        Val::Msg(v) => v,
        _ => return None,
    };
    let cands: Vec<usize> = (0..m.fields.len()).filter(|i| match &m.fields[*i].kind {
        RMK::Nts => true,
        RMK::Varchar(p) | RMK::Array(p, _) => *p <= 2,
        RMK::List(p, x) => *p <= 1 || limits(x, depth + 1),
        RMK::Msg(x) => limits(x, depth + 1),
        RMK::Union(_, u) => u.cases.len() > 1,
        _ => false,
    }).collect();
    if cands.is_empty() || depth > 5 {
        return None;
    }
    let i = *src.pick(&cands);
    let f = &m.fields[i];
    let fill = |m: &RMsg, src: &mut Src, big: usize| -> Val {
        let mut g = gen::Vals::new(src, 0);
        let it = g.message(m);
        list(vec![it; big])
    };
    if f.optional {
        if let Val::Opt(o) = &mut vals[i] {
            if o.is_none() {
                *o = Some(Box::new(match &f.kind {
                    RMK::Nts | RMK::Varchar(_) => Val::Str(String::new()),
                    RMK::Array(..) => Val::Arr(vec![]),
                    RMK::List(..) => list(vec![]),
                    RMK::Msg(x) => gen::modest(x, src),
                    _ => return None,
                }));
            }
        }
    }
    let disc = match &f.kind {
        RMK::Union(on, u) => match &vals[*on] {
            Val::S(b) => Some(disc_of(u, b)),
            _ => None,
        },
        _ => None,
    };
    let slot: &mut Val = match &mut vals[i] {
        Val::Opt(Some(b)) => &mut **b,
        v => v,
    };
    match &f.kind {
        RMK::Nts => {
            if let Val::Str(s) = slot {
                let mut p = src.idx(s.len() + 1);
                while !s.is_char_boundary(p) {
                    p -= 1;
                }
                s.insert(p, '\0');
            }
            Some(true)
        }
        RMK::Varchar(p) => {
            let cap = mask(*p as u64 * 8) as usize;
            let over = src.below(3) != 0;
            let n = if over { cap + 1 + if src.one_in(3) { src.below(300) as usize } else { 0 } } else { cap };
            *slot = Val::Str("x".repeat(n));
            Some(over)
        }
        RMK::Array(p, s) => {
            let cap = mask(*p as u64 * 8) as usize;
            if cap * s.size > 400_000 {
                return None;
            }
            let over = src.below(3) != 0;
            let n = if over { cap + 1 + if src.one_in(3) { src.below(300) as usize } else { 0 } } else { cap };
            let b = src.bytes(s.size);
            *slot = Val::Arr(vec![b; n]);
            Some(over)
        }
        RMK::List(p, x) => {
            if *p == 1 && (src.bool() || !limits(x, depth + 1)) {
                let over = src.below(3) != 0;
                let n = if over { 256 + src.below(3) as usize } else { 255 };
                *slot = fill(x, src, n);
                Some(over)
            } else if limits(x, depth + 1) {
                let mut it = gen::modest(x, src);
                let r = spoil(x, &mut it, src, depth + 1);
                if let (Val::List(l), true) = (slot, r.is_some()) {
                    let at = src.idx(l.items.len() + 1);
                    if l.len < mask(*p as u64 * 8) {
                        l.items.insert(at, it);
                        l.len += 1;
                    } else {
                        let at = at.min(l.items.len() - 1);
                        l.items[at] = it;
                    }
                }
                r
            } else {
                None
            }
        }
        RMK::Msg(x) => spoil(x, slot, src, depth + 1),
        RMK::Union(_, u) => {
            let others: Vec<usize> = (0..u.cases.len()).filter(|c| Some(u.cases[*c].raw) != disc).collect();
            let c = *src.pick(&others);
            let mut g = gen::Vals::new(src, 20);
            *slot = Val::Un(c, u.cases[c].item.as_ref().map(|r| Box::new(g.reference(r))));
            Some(true)
        }
        _ => None,
    }
}

fn m08(vt: &MsgVt, m: &RMsg, src: &mut Src, want: bool) -> Case {
    let budget = *src.pick(&[20, 60]);
    let mut v = gen::Vals::new(src, budget).message(m);
    let over = match wide(m) {
        Some(i) if src.one_in(if limits(m, 0) { 50 } else { 12 }) => overfill(m, &mut v, i, src),
        _ => spoil(m, &mut v, src, 0),
    };
    let e = encoded(m, &v);
    let (r, b) = written(vt, &v);
    match (&r, &e) {
        (Ok(()), Ok(e)) => {
            check!(b == *e, "{}: written as {}, expected {}", show(m, &v), hex(&b), hex(e));
            let g = (vt.read)(&b);
            check!(g == Ok((v.clone(), b.len())), "{}: {} reads back {:?}", show(m, &v), hex(&b), g);
        }
        (Err(_), Err(_)) => (),
        (Ok(()), Err(e)) => return Err(cut(format!("{}: written as {} without an error, expected {:?}", show(m, &v), hex(&b), e))),
        (Err(r), Ok(_)) => return Err(cut(format!("{}: writing fails with {:?}, but it can be represented", show(m, &v), r))),
    }
    info(over.is_some(), want, || format!("{}: {:?}", show(m, &v), r))
}

fn m09(vt: &MsgVt, m: &RMsg, src: &mut Src, want: bool) -> Case {
    let b = gen::hostile(m, src);
    let (r, marks) = decode_marks(m, &b);
    let (v, _, _) = match r {
        Ok(v) => v,
        Err(_) => return info(false, want, || format!("{} from {}: refused", m.name, hex(&b))),
    };
    if malformed(&v) {
        return info(false, want, || format!("{} from {}: a list is malformed", m.name, hex(&b)));
    }
    let (n, w) = match (vt.rewrite)(&b) {
        Ok(v) => v,
        Err(e) => return Err(cut(format!("{}: reading {} fails with {:?}", m.name, hex(&b), e))),
    };
    let w = match w {
        Ok(w) => w,
        Err(e) => return Err(cut(format!("{}: writing what was read from {} fails with {:?}", m.name, hex(&b), e))),
    };
    check!(n <= b.len(), "{}: reading {} bytes reports {}", m.name, b.len(), n);
    check!(w.len() == n, "{}: {} bytes of {} were read, {} are written again ({})", m.name, n, hex(&b), w.len(), hex(&w));
    for i in 0..n {
        let ok = w[i] == b[i] || (marks.contains(&i) && b[i] != 0 && w[i] == 1);
        check!(ok, "{}: {} is written again as {} (byte {})", m.name, hex(&b[..n]), hex(&w), i);
    }
    info(n >= 2, want, || format!("{} from {}: {} bytes written again", m.name, hex(&b), n))
}

fn malformed(v: &Val) -> bool {
    match v {
        Val::List(l) => l.err || l.items.iter().any(malformed),
        Val::Msg(v) => v.iter().any(malformed),
        Val::Opt(Some(v)) | Val::Un(_, Some(v)) => malformed(v),
        _ => false,
    }
}
