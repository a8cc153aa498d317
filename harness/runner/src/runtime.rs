//! R02 and R03: the runtime primitives on their own, with item types of the harness.

use crate::drive::{part, Case, Info, Part};
use bp3d_proto::codec::{ArrayCodec, BoolByteCodecBE, BoolByteCodecLE, ByteCodec, ByteCodecBE, ByteCodecLE, SignedByteCodecBE, SignedByteCodecLE};
use bp3d_proto::message::util::{self, list, Array, Buffer, List, NullTerminatedString, Optional, OptionalRef, ValueBE, ValueLE, VarcharString};
use bp3d_proto::message::{Error, FieldOffset, FromSlice, FromSliceWithOffsets, Message, WriteTo};
use bp3d_proto::util::{FixedSize, MultiOptionExt, Size, ToUsize};
use oracle::engines::cut;
use oracle::batch::guarded;
use oracle::engines::hex;
use oracle::tape::{hash_words, Src};

pub const RULE_BYTES: &str = "a case is one buffer and one value for one codec and carrier, or one history of writes and reads on one array; non-trivial: the buffer or the value is not all zero; distinct by choice sequence";
pub const RULE_MESSAGES: &str = "a case is one value encoded and decoded (with every truncation of its encoding), one arbitrary input decoded, or one history of a list; non-trivial: at least one byte is encoded or an error is expected; distinct by choice sequence";

fn done(src: &Src, nontrivial: bool, want: bool, classes: Vec<&'static str>, sample: impl FnOnce() -> String) -> Case {
    Ok(Info { key: nontrivial.then(|| hash_words(src.tape())), classes, sample: if want { sample() } else { String::new() } })
}

/// The unsigned number a buffer holds.
fn number(b: &[u8], big: bool) -> u64 {
    let mut v = 0u64;
    for i in 0..b.len() {
        v = v << 8 | b[if big { i } else { b.len() - 1 - i }] as u64;
    }
    v
}

/// The low bytes of a number.
fn encode(v: u64, n: usize, big: bool) -> Vec<u8> {
    (0..n).map(|i| (v >> (8 * if big { n - 1 - i } else { i })) as u8).collect()
}

fn byte_case(src: &mut Src, want: bool) -> Case {
    let big = src.bool();
    let ty = src.idx(12);
    let size = [1, 2, 4, 8, 1, 2, 4, 8, 4, 8, 8, 4][ty];
    // Signed numbers and floats are only exchanged at their full width.
    let len = if ty < 4 { src.range(1, size as u64) as usize } else { size };
    let buf = src.bytes(len);
    let v = if src.bool() { src.bits(8 * len as u32) } else { src.word() };
    macro_rules! go {
        ($t:ty, $from:expr, $to:expr) => {{
            let from: fn(u64) -> $t = $from;
            let to: fn($t) -> u64 = $to;
            let mut out = buf.clone();
            let (r, w) = if big {
                let r = to(ByteCodecBE::read::<$t>(&buf));
                ByteCodecBE::write::<$t>(&mut out, from(v));
                (r, to(ByteCodecBE::read::<$t>(&out)))
            } else {
                let r = to(ByteCodecLE::read::<$t>(&buf));
                ByteCodecLE::write::<$t>(&mut out, from(v));
                (r, to(ByteCodecLE::read::<$t>(&out)))
            };
            (stringify!($t), r, out, w)
        }};
    }
    let (name, r, out, back) = match ty {
        0 => go!(u8, |v| v as _, |v| v as _),
        1 => go!(u16, |v| v as _, |v| v as _),
        2 => go!(u32, |v| v as _, |v| v as _),
        3 => go!(u64, |v| v as _, |v| v as _),
        4 => go!(i8, |v| v as _, |v| v as u8 as _),
        5 => go!(i16, |v| v as _, |v| v as u16 as _),
        6 => go!(i32, |v| v as _, |v| v as u32 as _),
        7 => go!(i64, |v| v as _, |v| v as _),
        8 | 11 => go!(f32, |v| f32::from_bits(v as u32), |v| v.to_bits() as _),
        _ => go!(f64, f64::from_bits, f64::to_bits),
    };
    let at = format!("ByteCodec{}, {}, buffer {}", if big { "BE" } else { "LE" }, name, hex(&buf));
    let exp = number(&buf, big);
    // Signalling NaNs may not survive a move through a floating point register on every machine.
    let nan = |v: u64| ty >= 8 && if size == 4 { f32::from_bits(v as u32).is_nan() } else { f64::from_bits(v).is_nan() };
    if r != exp && !(nan(r) && nan(exp)) {
        return Err(format!("{}: read gives {:#x}, expected {:#x}", at, r, exp));
    }
    let eout = encode(v, len, big);
    if out != eout && !(nan(number(&out, big)) && nan(number(&eout, big))) {
        return Err(format!("{}: write of {:#x} gives {}, expected {}", at, v, hex(&out), hex(&eout)));
    }
    if back != number(&eout, big) && !(nan(back) && nan(number(&eout, big))) {
        return Err(format!("{}: reads {:#x} after writing {:#x}", at, back, v));
    }
    done(src, exp != 0 || v != 0, want, vec![if len < size { "narrower than the type" } else { "full width" }], || format!("{}: {:#x}; write {:#x} gives {}", at, r, v, hex(&out)))
}

/// What the elements of a buffer stand for.
#[derive(Clone, Copy, PartialEq)]
enum As {
    Unsigned,
    Signed,
    Bool,
}

impl As {
    fn value(self, b: &[u8], big: bool) -> u64 {
        let v = number(b, big);
        let unused = 64 - 8 * b.len() as u32;
        match self {
            As::Unsigned => v,
            As::Signed => (((v << unused) as i64) >> unused) as u64,
            As::Bool => (v != 0) as u64,
        }
    }
    fn bytes(self, v: u64, n: usize, big: bool) -> Vec<u8> {
        encode(if self == As::Bool { (v & 1 != 0) as u64 } else { v }, n, big)
    }
}

fn array_run<C: ByteCodec, T: bytesutil_item::Item, const BITS: usize>(src: &mut Src, want: bool, big: bool, how: As) -> Case {
    let w = BITS / 8;
    let long = src.one_in(2048);
    let n = if long { *src.pick(&[255, 256, 257, 1000, 4096, 65535, 65536, 70000]) } else { src.below(7) as usize };
    let mut model: Vec<u64> = vec![];
    let mut data = match long {
        // A block whose length is prime, over and over.
        true => src.bytes(61).into_iter().cycle().take(n * w).collect(),
        false => src.bytes(n * w),
    };
    let start = data.clone();
    for i in 0..n {
        model.push(how.value(&data[i * w..i * w + w], big));
    }
    let at = format!("ArrayCodec of {} over {} bits {}, buffer {}", std::any::type_name::<T>(), BITS, if big { "BE" } else { "LE" }, cut(hex(&start)));
    let mut log = String::new();
    let mut expected = start.clone();
    let check = |data: &[u8], model: &[u64], e: &[u8], log: &str| -> Result<(), String> {
        let a: ArrayCodec<&[u8], T, C, BITS> = ArrayCodec::new(data);
        if a.len() != n {
            return Err(format!("{}: len() is {}, expected {}", at, a.len(), n));
        }
        let g: Vec<u64> = (0..n).map(|i| a.get_raw(i).to()).collect();
        let it: Vec<u64> = a.iter_raw().map(|v| v.to()).collect();
        if g != model || it != model {
            let first = (0..n).find(|i| g[*i] != model[*i] || it.get(*i) != Some(&model[*i]));
            return Err(cut(format!("{}: after {}(first at {:?}) get_raw gives {:x?}, iter_raw {:x?}, expected {:x?}", at, log, first, g, it, model)));
        }
        if e != data {
            return Err(cut(format!("{}: after {}the buffer is {}, expected {}", at, log, hex(data), hex(e))));
        }
        Ok(())
    };
    check(&data, &model, &expected, &log)?;
    if n > 0 {
        for _ in 0..src.below(5) {
            // One or several writes through the same codec.
            let mut a: ArrayCodec<&mut [u8], T, C, BITS> = ArrayCodec::new(&mut data[..]);
            for _ in 0..src.range(1, 3) {
                let i = src.idx(n);
                let v = if src.bool() { src.bits(BITS as u32) } else { src.word() };
                a.set_raw(i, T::from(v));
                expected[i * w..i * w + w].copy_from_slice(&how.bytes(v, w, big));
                model[i] = how.value(&expected[i * w..i * w + w], big);
                log.push_str(&format!("set_raw({}, {:#x}); ", i, v));
            }
            check(&data, &model, &expected, &log)?;
        }
    }
    if src.one_in(8) {
        let k = oracle::engines::outside(n, src);
        let got = guarded(|| Ok(ArrayCodec::<&[u8], T, C, BITS>::new(&data).get_raw(k).to()));
        if let Ok(v) = got {
            return Err(format!("{}: item {} of {} reads {:#x}", at, k, n, v));
        }
        let r = guarded(|| Ok(drop(ArrayCodec::<&mut [u8], T, C, BITS>::new(&mut data[..]).set_raw(k, T::from(1)))));
        if r.is_ok() {
            return Err(format!("{}: item {} of {} can be written", at, k, n));
        }
        check(&data, &model, &expected, &log)?;
    }
    done(src, n > 0, want, vec![if n == 0 { "empty" } else if long { "hundreds of elements" } else { "elements" }], || format!("{}: {}", at, log))
}

mod bytesutil_item {
    /// The element types of an array codec.
    pub trait Item: bytesutil::ReadBytes + bytesutil::WriteBytes {
        fn from(v: u64) -> Self;
        fn to(self) -> u64;
    }
    macro_rules! im { ($($t:ty)*) => { $(impl Item for $t { fn from(v: u64) -> Self { v as _ } fn to(self) -> u64 { self as _ } })* } }
    im!(u8 u16 u32 u64 i8 i16 i32 i64);
    impl Item for bool {
        fn from(v: u64) -> Self {
            v & 1 != 0
        }
        fn to(self) -> u64 {
            self as _
        }
    }
}

fn array_case(src: &mut Src, want: bool) -> Case {
    let k = src.idx(16);
    macro_rules! go { ($($i:literal => $t:ty, $b:literal;)*) => { match k { $(
        $i => if src.bool() { array_run::<ByteCodecBE, $t, $b>(src, want, true, As::Unsigned) } else { array_run::<ByteCodecLE, $t, $b>(src, want, false, As::Unsigned) },)*
        _ => plain_array(src, want),
    } } }
    go!(0 => u8, 8; 1 => u16, 8; 2 => u16, 16; 3 => u32, 8; 4 => u32, 16; 5 => u32, 24; 6 => u32, 32; 7 => u64, 8; 8 => u64, 24; 9 => u64, 32; 10 => u64, 40; 11 => u64, 48; 12 => u64, 56; 13 => u64, 64;)
}

/// The codecs of signed numbers and booleans whose buffer is not of the size of their type.
fn wide_case(src: &mut Src, want: bool) -> Case {
    macro_rules! go { ($($i:literal => $how:expr, $le:ident, $be:ident, $t:ty, $b:literal;)*) => { match src.idx(22) { $(
        $i => if src.bool() { array_run::<$be, $t, $b>(src, want, true, $how) } else { array_run::<$le, $t, $b>(src, want, false, $how) },)*
        _ => plain_wide(src, want),
    } } }
    go!(0 => As::Signed, SignedByteCodecLE, SignedByteCodecBE, i8, 8; 1 => As::Signed, SignedByteCodecLE, SignedByteCodecBE, i16, 8;
        2 => As::Signed, SignedByteCodecLE, SignedByteCodecBE, i16, 16; 3 => As::Signed, SignedByteCodecLE, SignedByteCodecBE, i32, 8;
        4 => As::Signed, SignedByteCodecLE, SignedByteCodecBE, i32, 16; 5 => As::Signed, SignedByteCodecLE, SignedByteCodecBE, i32, 24;
        6 => As::Signed, SignedByteCodecLE, SignedByteCodecBE, i32, 32; 7 => As::Signed, SignedByteCodecLE, SignedByteCodecBE, i64, 24;
        8 => As::Signed, SignedByteCodecLE, SignedByteCodecBE, i64, 40; 9 => As::Signed, SignedByteCodecLE, SignedByteCodecBE, i64, 48;
        10 => As::Signed, SignedByteCodecLE, SignedByteCodecBE, i64, 56; 11 => As::Signed, SignedByteCodecLE, SignedByteCodecBE, i64, 64;
        12 => As::Bool, BoolByteCodecLE, BoolByteCodecBE, bool, 16; 13 => As::Bool, BoolByteCodecLE, BoolByteCodecBE, bool, 24;
        14 => As::Bool, BoolByteCodecLE, BoolByteCodecBE, bool, 32; 15 => As::Bool, BoolByteCodecLE, BoolByteCodecBE, bool, 40;
        16 => As::Bool, BoolByteCodecLE, BoolByteCodecBE, bool, 48; 17 => As::Bool, BoolByteCodecLE, BoolByteCodecBE, bool, 56;
        18 => As::Bool, BoolByteCodecLE, BoolByteCodecBE, bool, 64;)
}

/// The same without an array.
fn plain_wide(src: &mut Src, want: bool) -> Case {
    fn run<C: ByteCodec, T: bytesutil_item::Item>(src: &mut Src, want: bool, big: bool, how: As) -> Case {
        let size = std::mem::size_of::<T>() as u64;
        let len = if how == As::Bool { src.range(2, 8) } else { src.range(1, size) } as usize;
        let mut buf = src.bytes(len);
        if src.one_in(3) {
            // A single bit.
            buf.fill(0);
            let i = src.idx(len);
            buf[i] = 1 << src.below(8);
        }
        let at = format!("{}, {}, buffer {}", std::any::type_name::<C>(), std::any::type_name::<T>(), hex(&buf));
        let (got, exp) = (C::read::<T>(&buf).to(), how.value(&buf, big));
        if got != exp {
            return Err(format!("{}: read gives {:#x}, expected {:#x}", at, got, exp));
        }
        let v = if src.bool() { src.bits(8 * len as u32) } else { src.word() };
        C::write::<T>(&mut buf, T::from(v));
        let exp = how.bytes(v, len, big);
        if buf != exp {
            return Err(format!("{}: write of {:#x} gives {}, expected {}", at, v, hex(&buf), hex(&exp)));
        }
        done(src, got != 0 || v != 0, want, vec!["single value"], || format!("{}: {:#x}; write {:#x} gives {}", at, got, v, hex(&buf)))
    }
    macro_rules! go { ($how:expr, $le:ident, $be:ident, $t:ty) => { if src.bool() { run::<$be, $t>(src, want, true, $how) } else { run::<$le, $t>(src, want, false, $how) } } }
    match src.idx(5) {
        0 => go!(As::Signed, SignedByteCodecLE, SignedByteCodecBE, i8),
        1 => go!(As::Signed, SignedByteCodecLE, SignedByteCodecBE, i16),
        2 => go!(As::Signed, SignedByteCodecLE, SignedByteCodecBE, i32),
        3 => go!(As::Signed, SignedByteCodecLE, SignedByteCodecBE, i64),
        _ => go!(As::Bool, BoolByteCodecLE, BoolByteCodecBE, bool),
    }
}

/// Byte arrays give access to their buffer.
fn plain_array(src: &mut Src, want: bool) -> Case {
    let n = src.below(9) as usize;
    let mut data = src.bytes(n);
    let a: ArrayCodec<&[u8], u8, ByteCodecLE, 8> = ArrayCodec::new(&data);
    if a.as_ref() != &data[..] {
        return Err(format!("as_ref() of a byte array over {} gives {}", hex(&data), hex(a.as_ref())));
    }
    let new = src.bytes(n);
    {
        let mut a: ArrayCodec<&mut [u8], u8, ByteCodecBE, 8> = ArrayCodec::new(&mut data);
        a.as_mut().copy_from_slice(&new);
    }
    if data != new {
        return Err(format!("after as_mut() of a byte array was set to {}, its buffer is {}", hex(&new), hex(&data)));
    }
    done(src, n > 0, want, vec!["byte array"], || hex(&new))
}

pub fn bytes() -> Vec<Part> {
    vec![part("byte codecs", (600_000, 30_000_000), byte_case), part("array codecs", (400_000, 20_000_000), array_case), part("signed and boolean codecs", (300_000, 15_000_000), wide_case)]
}

// ---------------------------------------------------------------------------------------------------------------
// R03

#[derive(Clone, Copy, PartialEq, Debug)]
enum Kind {
    Utf8,
    Truncated,
    Overflow(usize),
    Nul,
    Io,
    Other,
}

fn kind(e: &Error) -> Kind {
    match e {
        Error::InvalidUtf8 => Kind::Utf8,
        Error::Truncated => Kind::Truncated,
        Error::LengthOverflow(n) => Kind::Overflow(*n),
        Error::InteriorNul => Kind::Nul,
        Error::Io(_) => Kind::Io,
        _ => Kind::Other,
    }
}

/// A writer which takes at most `left` bytes, a few at a time.
struct Small<'a> {
    out: &'a mut Vec<u8>,
    left: usize,
    step: usize,
}

impl std::io::Write for Small<'_> {
    fn write(&mut self, b: &[u8]) -> std::io::Result<usize> {
        let n = b.len().min(self.left).min(self.step);
        self.out.extend_from_slice(&b[..n]);
        self.left -= n;
        if n == 0 && !b.is_empty() {
            return Err(std::io::Error::new(std::io::ErrorKind::WriteZero, "full"));
        }
        Ok(n)
    }
    fn flush(&mut self) -> std::io::Result<()> {
        Ok(())
    }
}

/// Encodes with `W`, compares with `expected` (an error or the bytes); also into a writer which is too small.
fn written<W: WriteTo>(src: &mut Src, what: &str, input: &W::Input, expected: &Result<Vec<u8>, Kind>) -> Result<(), String> {
    let mut out = vec![];
    let r = W::write_to(input, &mut out).map(|_| out).map_err(|e| kind(&e));
    if r != *expected {
        return Err(format!("{}: written as {}, expected {}", what, show(&r), show(expected)));
    }
    if let Ok(e) = expected {
        let left = src.below(e.len() as u64 + 2) as usize;
        let mut part = vec![];
        let r = W::write_to(input, Small { out: &mut part, left, step: 3 }).map_err(|e| kind(&e));
        let ok = if left >= e.len() { r == Ok(()) && part == *e } else { r == Err(Kind::Io) && e.starts_with(&part) };
        if !ok {
            return Err(format!("{}: written to {} bytes gives {:?} with {}, the encoding being {}", what, left, r, hex(&part), hex(e)));
        }
    }
    Ok(())
}

fn show(r: &Result<Vec<u8>, Kind>) -> String {
    match r {
        Ok(b) => hex(b),
        Err(e) => format!("error {:?}", e),
    }
}

/// Decodes with `R`: the value as text and the bytes consumed.
fn read<'a, R: FromSlice<'a>>(b: &'a [u8], f: impl Fn(&R::Output) -> String) -> Result<(String, usize), Kind> {
    R::from_slice(b).map(|m| {
        let n = m.size();
        (f(&m.into_inner()), n)
    }).map_err(|e| kind(&e))
}

/// An encoding followed by other bytes, and all its truncations.
fn around<'a, R: FromSlice<'a>>(what: &str, buf: &'a [u8], len: usize, value: &str, whole: bool, f: impl Fn(&R::Output) -> String) -> Result<(), String> {
    let r = read::<R>(buf, &f);
    let n = if whole { buf.len() } else { len };
    if r != Ok((value.to_string(), n)) {
        return Err(format!("{}: {} is read as {:?}, expected {} in {} bytes", what, hex(buf), r, value, n));
    }
    if !whole {
        let step = (len / 24).max(1);
        for k in (0..len).step_by(step).chain(len.checked_sub(1)) {
            let r = read::<R>(&buf[..k], &f);
            if r != Err(Kind::Truncated) {
                return Err(format!("{}: {} cut to {} bytes is read as {:?}", what, hex(&buf[..len]), k, r));
            }
        }
    }
    Ok(())
}

fn tail(src: &mut Src, b: &[u8]) -> Vec<u8> {
    let mut v = b.to_vec();
    let n = src.below(5) as usize;
    v.extend(src.bytes(n));
    v
}

macro_rules! ints {
    ($k:expr, $src:expr, $f:ident) => {
        match $k {
            0 => $f::<u8>($src, "u8", |v| v as _, |v| *v as u64 as _, 1),
            1 => $f::<u16>($src, "u16", |v| v as _, |v| *v as u64 as _, 2),
            2 => $f::<u32>($src, "u32", |v| v as _, |v| *v as u64 as _, 4),
            3 => $f::<u64>($src, "u64", |v| v as _, |v| *v as u64 as _, 8),
            4 => $f::<i8>($src, "i8", |v| v as _, |v| *v as u8 as _, 1),
            5 => $f::<i16>($src, "i16", |v| v as _, |v| *v as u16 as _, 2),
            6 => $f::<i32>($src, "i32", |v| v as _, |v| *v as u32 as _, 4),
            7 => $f::<i64>($src, "i64", |v| v as _, |v| *v as u64 as _, 8),
            8 => $f::<f32>($src, "f32", |v| f32::from_bits(no_nan32(v as u32)), |v| v.to_bits() as _, 4),
            _ => $f::<f64>($src, "f64", |v| f64::from_bits(no_nan64(v)), |v| v.to_bits() as _, 8),
        }
    };
}

fn no_nan32(v: u32) -> u32 {
    if f32::from_bits(v).is_nan() { v & 0x007F_FFFF } else { v }
}
fn no_nan64(v: u64) -> u64 {
    if f64::from_bits(v).is_nan() { v & 0x000F_FFFF_FFFF_FFFF } else { v }
}

fn value_one<T: bytesutil::ReadBytes + bytesutil::WriteTo>(src: &mut Src, name: &str, from: fn(u64) -> T, to: fn(&T) -> u64, n: usize) -> Result<(u64, String), String> {
    let raw = src.bits(8 * n as u32);
    let v = from(raw);
    let bits = to(&v);
    let some = src.idx(3);
    for big in [false, true] {
        let e = encode(bits, n, big);
        let what = format!("Value{}<{}> {:#x}", if big { "BE" } else { "LE" }, name, bits);
        let buf = tail(src, &e);
        let f = |v: &T| format!("{:#x}", to(v));
        let text = format!("{:#x}", bits);
        // Also optional, once or twice.
        let mut opt = vec![1u8; some];
        opt.extend(&e);
        let obuf = tail(src, &opt);
        if big {
            written::<ValueBE<T>>(src, &what, &v, &Ok(e.clone()))?;
            around::<ValueBE<T>>(&what, &buf, n, &text, false, f)?;
            match some {
                0 => (),
                1 => {
                    written::<Optional<ValueBE<T>>>(src, &what, &Some(from(raw)), &Ok(opt.clone()))?;
                    around::<Optional<ValueBE<T>>>(&what, &obuf, n + 1, &text, false, |v| v.as_ref().map(f).unwrap_or("none".into()))?;
                }
                _ => {
                    written::<Optional<Optional<ValueBE<T>>>>(src, &what, &Some(Some(from(raw))), &Ok(opt.clone()))?;
                    around::<Optional<Optional<ValueBE<T>>>>(&what, &obuf, n + 2, &text, false, |v| v.as_ref().and_then(|v| v.as_ref()).map(f).unwrap_or("none".into()))?;
                }
            }
        } else {
            written::<ValueLE<T>>(src, &what, &v, &Ok(e.clone()))?;
            around::<ValueLE<T>>(&what, &buf, n, &text, false, f)?;
            match some {
                0 => (),
                1 => {
                    written::<Optional<ValueLE<T>>>(src, &what, &Some(from(raw)), &Ok(opt.clone()))?;
                    around::<Optional<ValueLE<T>>>(&what, &obuf, n + 1, &text, false, |v| v.as_ref().map(f).unwrap_or("none".into()))?;
                }
                _ => {
                    written::<Optional<Optional<ValueLE<T>>>>(src, &what, &Some(Some(from(raw))), &Ok(opt.clone()))?;
                    around::<Optional<Optional<ValueLE<T>>>>(&what, &obuf, n + 2, &text, false, |v| v.as_ref().and_then(|v| v.as_ref()).map(f).unwrap_or("none".into()))?;
                }
            }
        }
    }
    Ok((bits, name.to_string()))
}

fn values(src: &mut Src, want: bool) -> Case {
    let k = src.idx(10);
    let (bits, name) = ints!(k, src, value_one)?;
    // Absent values.
    let b = tail(src, &[0]);
    written::<Optional<ValueLE<u32>>>(src, "no value", &None, &Ok(vec![0]))?;
    around::<Optional<ValueLE<u32>>>("no value", &b, 1, "none", false, |v| v.map(|v| v.to_string()).unwrap_or("none".into()))?;
    done(src, bits != 0, want, vec![], || format!("{} {:#x}", name, bits))
}

fn text(src: &mut Src) -> String {
    match src.weighted(&[4, 2, 1]) {
        0 => {
            let n = src.len(40);
            (0..n).map(|_| *src.pick(&['a', 'Z', ' ', 'é', '日', '\u{10FFFF}', '~', '\u{1}', '\u{7f}'])).collect()
        }
        1 => {
            // Around the limits of a one byte prefix.
            let n = src.range(250, 260) as usize;
            let mut t = "x".repeat(n);
            if src.bool() {
                t.pop();
                t.pop();
                t.push('é');
            }
            t
        }
        _ => {
            let n = src.range(65530, 65540) as usize;
            if src.one_in(8) { "y".repeat(n) } else { "y".repeat(n / 256) }
        }
    }
}

fn varchar_one<P: for<'a> FromSlice<'a, Output: ToUsize> + WriteTo<Input: ToUsize + Sized>>(src: &mut Src, name: &str, n: usize, big: bool) -> Case {
    let t = text(src);
    let what = format!("VarcharString<{}> of {} bytes", name, t.len());
    let limit = if n == 8 { u64::MAX } else { (1u64 << (8 * n)) - 1 };
    let classes;
    if t.len() as u64 > limit {
        let e = Err(Kind::Overflow(t.len()));
        written::<VarcharString<P>>(src, &what, &t, &e)?;
        written::<OptionalRef<VarcharString<P>>>(src, &what, &Some(&*t), &e)?;
        classes = "too long for its prefix";
    } else {
        let mut e = encode(t.len() as u64, n, big);
        e.extend(t.as_bytes());
        written::<VarcharString<P>>(src, &what, &t, &Ok(e.clone()))?;
        let buf = tail(src, &e);
        around::<VarcharString<P>>(&what, &buf, e.len(), &t, false, |v| v.to_string())?;
        let mut o = vec![1];
        o.extend(&e);
        written::<OptionalRef<VarcharString<P>>>(src, &what, &Some(&*t), &Ok(o.clone()))?;
        let f = |v: &Option<&str>| v.map(|v| v.to_string()).unwrap_or("none".into());
        let first = src.range(1, 255) as u8;
        let mut obuf = tail(src, &o);
        // Any other first byte than 0 announces a value.
        obuf[0] = first;
        around::<OptionalRef<VarcharString<P>>>(&what, &obuf, o.len(), &t, false, f)?;
        let b0 = tail(src, &[0]);
        written::<OptionalRef<VarcharString<P>>>(src, &what, &None, &Ok(vec![0]))?;
        around::<OptionalRef<VarcharString<P>>>(&what, &b0, 1, "none", false, f)?;
        classes = "round trip";
    }
    done(src, !t.is_empty(), want_false(), vec![classes], String::new).map(|mut i| {
        i.sample = what;
        i
    })
}

fn want_false() -> bool {
    false
}

macro_rules! prefixes {
    ($src:expr, $f:ident) => {{
        let k = $src.idx(8);
        match k {
            0 => $f::<ValueLE<u8>>($src, "ValueLE<u8>", 1, false),
            1 => $f::<ValueLE<u16>>($src, "ValueLE<u16>", 2, false),
            2 => $f::<ValueLE<u32>>($src, "ValueLE<u32>", 4, false),
            3 => $f::<ValueLE<u64>>($src, "ValueLE<u64>", 8, false),
            4 => $f::<ValueBE<u8>>($src, "ValueBE<u8>", 1, true),
            5 => $f::<ValueBE<u16>>($src, "ValueBE<u16>", 2, true),
            6 => $f::<ValueBE<u32>>($src, "ValueBE<u32>", 4, true),
            _ => $f::<ValueBE<u64>>($src, "ValueBE<u64>", 8, true),
        }
    }};
}

fn strings(src: &mut Src, want: bool) -> Case {
    if src.bool() {
        return prefixes!(src, varchar_one);
    }
    let mut t = text(src);
    let nul = src.one_in(5);
    if nul {
        let mut at = src.idx(t.len() + 1);
        while !t.is_char_boundary(at) {
            at -= 1;
        }
        t.insert(at, '\0');
    }
    let what = format!("NullTerminatedString of {} bytes", t.len());
    if nul {
        written::<NullTerminatedString>(src, &what, &t, &Err(Kind::Nul))?;
        written::<OptionalRef<NullTerminatedString>>(src, &what, &Some(&*t), &Err(Kind::Nul))?;
    } else {
        let mut e = t.clone().into_bytes();
        e.push(0);
        written::<NullTerminatedString>(src, &what, &t, &Ok(e.clone()))?;
        let buf = tail(src, &e);
        around::<NullTerminatedString>(&what, &buf, e.len(), &t, false, |v| v.to_string())?;
        // A buffer takes everything.
        written::<Buffer>(src, "Buffer", &e, &Ok(e.clone()))?;
        around::<Buffer>("Buffer", &e, e.len(), &hex(&e), true, |v| hex(v))?;
        let mut o = vec![1];
        o.extend(&e);
        written::<OptionalRef<Buffer>>(src, "OptionalRef<Buffer>", &Some(&e[..]), &Ok(o.clone()))?;
        around::<OptionalRef<Buffer>>("OptionalRef<Buffer>", &o, o.len(), &hex(&e), true, |v| v.map(|v| hex(v)).unwrap_or("none".into()))?;
    }
    done(src, true, want, vec![if nul { "interior nul" } else { "nul terminated" }], || what)
}

/// Arbitrary bytes, decoded as every kind of string and option, against a direct definition.
fn inputs_one<P: for<'a> FromSlice<'a, Output: ToUsize> + WriteTo<Input: ToUsize + Sized>>(src: &mut Src, name: &str, n: usize, big: bool) -> Case {
    let body = src.len(24);
    let mut b: Vec<u8> = (0..body).map(|_| *src.pick(&[0u8, 1, 2, 3, b'a', 0xC3, 0xA9, 0xE6, 0x97, 0xA5, 0xFF, 0x80, 0xED, 0xF4])).collect();
    if src.bool() {
        // A length near the end of the input, or extreme.
        let l = match src.idx(4) {
            0 => (b.len() as u64).saturating_sub(src.below(4)),
            1 => b.len() as u64 + src.below(3),
            2 => u64::MAX - src.below(20),
            _ => 1u64 << src.below(64),
        };
        let mut p = encode(l, n, big);
        p.append(&mut b);
        b = p;
    }
    let varchar = |b: &[u8]| -> Result<(String, usize), Kind> {
        if b.len() < n {
            return Err(Kind::Truncated);
        }
        let l = number(&b[..n], big);
        if l > (b.len() - n) as u64 {
            return Err(Kind::Truncated);
        }
        let s = &b[n..n + l as usize];
        String::from_utf8(s.to_vec()).map(|t| (t, n + l as usize)).map_err(|_| Kind::Utf8)
    };
    let nul = |b: &[u8]| -> Result<(String, usize), Kind> {
        let at = b.iter().position(|v| *v == 0).ok_or(Kind::Truncated)?;
        String::from_utf8(b[..at].to_vec()).map(|t| (t, at + 1)).map_err(|_| Kind::Utf8)
    };
    let opt = |b: &[u8], f: &dyn Fn(&[u8]) -> Result<(String, usize), Kind>| -> Result<(String, usize), Kind> {
        match b.first() {
            None => Err(Kind::Truncated),
            Some(0) => Ok(("none".into(), 1)),
            Some(_) => f(&b[1..]).map(|v| (v.0, v.1 + 1)),
        }
    };
    let f = |v: &&str| v.to_string();
    let fo = |v: &Option<&str>| v.map(|v| v.to_string()).unwrap_or("none".into());
    let all = [
        ("VarcharString", read::<VarcharString<P>>(&b, f), varchar(&b)),
        ("Optional<VarcharString>", read::<Optional<VarcharString<P>>>(&b, fo), opt(&b, &varchar)),
        ("OptionalRef<VarcharString>", read::<OptionalRef<VarcharString<P>>>(&b, fo), opt(&b, &varchar)),
        ("NullTerminatedString", read::<NullTerminatedString>(&b, f), nul(&b)),
        ("Optional<NullTerminatedString>", read::<Optional<NullTerminatedString>>(&b, fo), opt(&b, &nul)),
    ];
    let mut classes = vec![];
    for (w, got, exp) in &all {
        if got != exp {
            return Err(format!("{} with prefix {} of {}: {:?}, expected {:?}", w, name, hex(&b), got, exp));
        }
        classes.push(match exp {
            Ok(_) => "decoded",
            Err(Kind::Utf8) => "invalid UTF-8 refused",
            Err(_) => "truncation refused",
        });
    }
    done(src, !b.is_empty(), true, classes, || hex(&b))
}

fn inputs(src: &mut Src, _want: bool) -> Case {
    prefixes!(src, inputs_one)
}

/// A fixed-size item of N bytes.
#[derive(Clone, Copy, Debug, PartialEq)]
struct Fixed<B, const N: usize>(B);

impl<B, const N: usize> FixedSize for Fixed<B, N> {
    const SIZE: usize = N;
}
impl<'a, const N: usize> From<&'a [u8]> for Fixed<&'a [u8], N> {
    fn from(v: &'a [u8]) -> Self {
        Fixed(v)
    }
}
impl<'a, const N: usize> From<&'a mut [u8]> for Fixed<&'a mut [u8], N> {
    fn from(v: &'a mut [u8]) -> Self {
        Fixed(v)
    }
}
impl<'a, const N: usize> FromSlice<'a> for Fixed<&'a [u8], N> {
    type Output = Self;
    fn from_slice(s: &'a [u8]) -> Result<Message<Self>, Error> {
        if s.len() < N {
            return Err(Error::Truncated);
        }
        Ok(Message::new(N, Fixed(&s[..N])))
    }
}
impl<'a, const N: usize> WriteTo for Fixed<&'a [u8], N> {
    type Input = Self;
    fn write_to<W: std::io::Write>(i: &Self, mut out: W) -> Result<(), Error> {
        out.write_all(i.0)?;
        Ok(())
    }
}

/// An item of variable size: a length and as many bytes; 0xEE in place of the length is invalid.
#[derive(Clone, Debug, PartialEq)]
struct Varied<'a>(&'a [u8]);

impl<'a> FromSlice<'a> for Varied<'a> {
    type Output = Self;
    fn from_slice(s: &'a [u8]) -> Result<Message<Self>, Error> {
        let n = *s.first().ok_or(Error::Truncated)? as usize;
        if n == 0xEE {
            return Err(Error::InvalidUtf8);
        }
        Ok(Message::new(n + 1, Varied(s.get(1..n + 1).ok_or(Error::Truncated)?)))
    }
}
impl<'a> FromSliceWithOffsets<'a> for Varied<'a> {
    type Offsets = FieldOffset;
    fn from_slice_with_offsets(s: &'a [u8]) -> Result<Message<(Self, FieldOffset)>, Error> {
        Varied::from_slice(s).map(|m| {
            let o = FieldOffset { start: 1, end: m.size() };
            m.map(|v| (v, o))
        })
    }
}
impl<'a> WriteTo for Varied<'a> {
    type Input = Self;
    fn write_to<W: std::io::Write>(i: &Self, mut out: W) -> Result<(), Error> {
        out.write_all(&[i.0.len() as u8])?;
        // Fails after a part of it is written.
        if i.0.len() == 0xEE {
            return Err(Error::InteriorNul);
        }
        out.write_all(i.0)?;
        Ok(())
    }
}

/// A number of items: few, as many as a byte counts, as many as two bytes count.
fn many(src: &mut Src) -> usize {
    match src.weighted(&[1900, 100, 4]) {
        0 => src.below(4) as usize,
        1 => src.range(120, 260) as usize,
        _ => src.range(65500, 66000) as usize,
    }
}

fn array_history<P: for<'a> FromSlice<'a, Output: ToUsize> + WriteTo<Input: ToUsize + Sized>, const N: usize>(src: &mut Src, name: &str, n: usize, big: bool) -> Case {
    let mut model: Vec<Vec<u8>> = vec![];
    let mut arr: Array<Vec<u8>, P, Fixed<&[u8], N>> = Array::new(vec![]);
    let what = format!("Array of {} byte items, prefix {}", N, name);
    for _ in 0..src.below(6) {
        let count = many(src);
        let mut items: Vec<Vec<u8>> = (0..count.min(300)).map(|_| src.bytes(N)).collect();
        while items.len() < count {
            items.push(items[items.len() % 300].clone());
        }
        let views: Vec<Fixed<&[u8], N>> = items.iter().map(|v| Fixed(&v[..])).collect();
        if views.len() == 1 {
            arr.write_item(&views[0]).map_err(|e| e.to_string())?;
        } else {
            arr.write_items(&views).map_err(|e| e.to_string())?;
        }
        model.extend(items);
    }
    if arr.len() != model.len() {
        return Err(format!("{}: len() is {} after {} items", what, arr.len(), model.len()));
    }
    let limit = if n == 8 { u64::MAX } else { (1u64 << (8 * n)) - 1 };
    let flat: Vec<u8> = model.concat();
    if model.len() as u64 > limit {
        written::<Array<Vec<u8>, P, Fixed<&[u8], N>>>(src, &what, &arr, &Err(Kind::Overflow(model.len())))?;
        return done(src, true, true, vec!["too many items"], || what);
    }
    let mut e = encode(model.len() as u64, n, big);
    e.extend(&flat);
    written::<Array<Vec<u8>, P, Fixed<&[u8], N>>>(src, &what, &arr, &Ok(e.clone()))?;
    if util::size_of(&arr).map_err(|e| e.to_string())? != e.len() {
        return Err(format!("{}: size_of() is not {}", what, e.len()));
    }
    let r: Array<&[u8], P, Fixed<&[u8], N>> = arr.to_ref();
    written::<Array<&[u8], P, Fixed<&[u8], N>>>(src, &what, &r, &Ok(e.clone()))?;
    let buf = tail(src, &e);
    let f = |a: &Array<&[u8], P, Fixed<&[u8], N>>| {
        let it: Vec<Vec<u8>> = a.iter::<Fixed<&[u8], N>>().map(|v| v.0.to_vec()).collect();
        let g: Vec<Vec<u8>> = (0..a.len()).map(|i| a.get::<Fixed<&[u8], N>>(i).0.to_vec()).collect();
        format!("{} {:?} {}", a.len(), it, if it == g { "same" } else { "get differs" })
    };
    let text = format!("{} {:?} same", model.len(), model);
    around::<Array<&[u8], P, Fixed<&[u8], N>>>(&what, &buf, e.len(), &text, false, f)?;
    // Views over the encoded items, by number of items.
    let extra = src.below(3) as usize;
    let claim = match src.idx(5) {
        0 => model.len() + extra,
        1 => model.len().saturating_sub(extra),
        2 => (usize::MAX / N).wrapping_add(extra),
        3 => (1usize << 63).wrapping_add(model.len()),
        _ => model.len(),
    };
    let p: Option<Array<&[u8], P, Fixed<&[u8], N>>> = Array::from_parts(&flat, claim);
    if p.is_some() != (claim == model.len()) {
        return Err(format!("{}: from_parts of {} bytes and {} items gives {}", what, flat.len(), claim, p.is_some()));
    }
    // In place modification.
    if !model.is_empty() {
        let mut data = flat.clone();
        let mut a: Array<&mut [u8], P, Fixed<&mut [u8], N>> = unsafe { Array::from_raw_parts(&mut data[..], model.len()) };
        let i = src.idx(model.len());
        let new = src.bytes(N);
        a.get_mut::<Fixed<&mut [u8], N>>(i).0.copy_from_slice(&new);
        model[i] = new;
        let mut k = 0;
        for v in a.iter_mut::<Fixed<&mut [u8], N>>() {
            if *v.0 != model[k][..] {
                return Err(format!("{}: iter_mut gives {} at {}, expected {}", what, hex(v.0), k, hex(&model[k])));
            }
            let last = v.0.len() - 1;
            v.0[last] ^= 0x5A;
            model[k][last] ^= 0x5A;
            k += 1;
        }
        if k != model.len() || data != model.concat() {
            return Err(format!("{}: after get_mut({}) and iter_mut the items are {}, expected {}", what, i, hex(&data), hex(&model.concat())));
        }
    }
    done(src, true, true, vec!["arrays"], || format!("{}: {}", what, hex(&e)))
}

fn array_1<P: for<'a> FromSlice<'a, Output: ToUsize> + WriteTo<Input: ToUsize + Sized>>(src: &mut Src, name: &str, n: usize, big: bool) -> Case {
    if src.bool() { array_history::<P, 1>(src, name, n, big) } else { array_history::<P, 3>(src, name, n, big) }
}

fn list_history<P: for<'a> FromSlice<'a, Output: ToUsize> + WriteTo<Input: ToUsize + Sized>>(src: &mut Src, name: &str, n: usize, big: bool) -> Case {
    let mut model: Vec<Vec<u8>> = vec![];
    let mut li: List<Vec<u8>, P, Varied> = List::new(vec![]);
    let what = format!("List of variable items, prefix {}", name);
    for _ in 0..src.below(6) {
        let count = many(src);
        let mut items: Vec<Vec<u8>> = (0..count.min(300)).map(|_| {
            let n = if count > 50 { 1 } else { src.len(20) };
            src.bytes(n)
        }).collect();
        while items.len() < count {
            items.push(items[items.len() % 300].clone());
        }
        // An item which cannot be written leaves the list as it was.
        let bad = src.one_in(6);
        if bad {
            let at = src.idx(items.len() + 1);
            items.insert(at, vec![0; 0xEE]);
            let ok = items[at].clone();
            items.truncate(at);
            items.push(ok);
        }
        let views: Vec<Varied> = items.iter().map(|v| Varied(v)).collect();
        let r = if views.len() == 1 { li.write_item(&views[0]) } else { li.write_items(&views) };
        match (&r, bad) {
            (Ok(_), false) => (),
            (Err(Error::InteriorNul), true) => (),
            _ => return Err(format!("{}: writing items gives {:?}, item which cannot be written: {}", what, r.map_err(|e| kind(&e)), bad)),
        }
        if bad {
            items.pop();
        }
        model.extend(items);
    }
    if li.len() != model.len() {
        return Err(format!("{}: len() is {} after {} items", what, li.len(), model.len()));
    }
    let limit = if n == 8 { u64::MAX } else { (1u64 << (8 * n)) - 1 };
    if model.len() as u64 > limit {
        written::<List<Vec<u8>, P, Varied>>(src, &what, &li, &Err(Kind::Overflow(model.len())))?;
        return done(src, true, true, vec!["too many items"], || what);
    }
    let mut e = encode(model.len() as u64, n, big);
    for v in &model {
        e.push(v.len() as u8);
        e.extend(v);
    }
    written::<List<Vec<u8>, P, Varied>>(src, &what, &li, &Ok(e.clone()))?;
    if util::size_of(&li).map_err(|e| e.to_string())? != e.len() {
        return Err(format!("{}: size_of() is not {}", what, e.len()));
    }
    let r: List<&[u8], P, Varied> = li.to_ref();
    written::<List<&[u8], P, Varied>>(src, &what, &r, &Ok(e.clone()))?;
    let buf = tail(src, &e);
    let text = format!("{} {:?}", model.len(), model);
    around::<List<&[u8], P, Varied>>(&what, &buf, e.len(), &text, false, |l| show_list(l))?;
    around::<list::Unsized<P, Varied>>(&what, &buf, buf.len(), &text, true, |l| show_list(l))?;
    done(src, true, true, vec!["lists"], || format!("{}: {}", what, hex(&e)))
}

/// The items of a list, by its two iterators, and how its iteration ends.
fn show_list<P>(l: &List<&[u8], P, Varied>) -> String {
    let mut v: Vec<Vec<u8>> = vec![];
    let mut end = String::new();
    let mut it = l.iter();
    let mut steps = 0;
    while let Some(r) = it.next() {
        steps += 1;
        if steps > 500_000 {
            return "the iteration does not end".into();
        }
        match r {
            Ok(x) => v.push(x.0.to_vec()),
            Err(e) => end.push_str(&format!(" {:?}", kind(&e))),
        }
    }
    let mut w: Vec<Vec<u8>> = vec![];
    let mut end1 = String::new();
    for r in l.iter_offsets().take(500_001) {
        match r {
            Ok((x, o)) => {
                if o.size() != x.0.len() || o.start != 1 {
                    return format!("offsets {:?} of {:?}", o, x);
                }
                w.push(x.0.to_vec());
            }
            Err(e) => end1.push_str(&format!(" {:?}", kind(&e))),
        }
    }
    if v != w || end != end1 {
        return format!("iter() gives {:?}{}, iter_offsets() {:?}{}", v, end, w, end1);
    }
    format!("{} {:?}{}", l.len(), v, end)
}

/// Arbitrary bytes read as an array, a list and an unsized list, against direct definitions.
fn list_inputs<P: for<'a> FromSlice<'a, Output: ToUsize> + WriteTo<Input: ToUsize + Sized>>(src: &mut Src, name: &str, n: usize, big: bool) -> Case {
    let len = src.len(30);
    let mut b: Vec<u8> = (0..len).map(|_| *src.pick(&[0u8, 1, 2, 3, 4, 5, 0xEE, 0xFF])).collect();
    if src.bool() {
        let l = match src.idx(5) {
            0 => src.below(6),
            1 => (b.len() as u64).saturating_sub(src.below(4)),
            2 => b.len() as u64 / 3 + src.below(2),
            3 => u64::MAX - src.below(20),
            _ => (u64::MAX / 3).wrapping_add(src.below(4)),
        };
        let mut p = encode(l, n, big);
        p.append(&mut b);
        b = p;
    }
    let what = format!("prefix {}, {}", name, hex(&b));
    let count = (b.len() >= n).then(|| number(&b[..n], big));
    // Arrays of three bytes.
    let exp = match count {
        Some(c) if c.checked_mul(3).map(|v| v <= (b.len() - n) as u64).unwrap_or(false) => Ok((format!("{}", hex(&b[n..n + 3 * c as usize])), n + 3 * c as usize)),
        _ => Err(Kind::Truncated),
    };
    let got = read::<Array<&[u8], P, Fixed<&[u8], 3>>>(&b, |a| hex(&a.iter::<Fixed<&[u8], 3>>().flat_map(|v| v.0.to_vec()).collect::<Vec<_>>()));
    if got != exp {
        return Err(format!("Array of three byte items, {}: {:?}, expected {:?}", what, got, exp));
    }
    // Lists: every item must be there.
    let mut classes = vec![if exp.is_ok() { "array decoded" } else { "array refused" }];
    let (mut at, mut items, mut err) = (n, vec![], None);
    if let Some(c) = count {
        for _ in 0..c {
            match b.get(at) {
                None => err = Some(Kind::Truncated),
                Some(0xEE) => err = Some(Kind::Utf8),
                Some(l) => match b.get(at + 1..at + 1 + *l as usize) {
                    None => err = Some(Kind::Truncated),
                    Some(v) => {
                        items.push(v.to_vec());
                        at += 1 + *l as usize;
                    }
                },
            }
            if err.is_some() {
                break;
            }
        }
    }
    let exp = match (count, err) {
        (None, _) => Err(Kind::Truncated),
        (_, Some(e)) => Err(e),
        (Some(c), None) => Ok((format!("{} {:?}", c, items), at)),
    };
    let got = read::<List<&[u8], P, Varied>>(&b, show_list);
    if got != exp {
        return Err(format!("List, {}: {:?}, expected {:?}", what, got, exp));
    }
    classes.push(if exp.is_ok() { "list decoded" } else { "list refused" });
    // Without the size of its items, a list takes everything; its iteration finds the items, then at most one error.
    let exp = match count {
        None => Err(Kind::Truncated),
        Some(c) => Ok((format!("{} {:?}{}", c, items, err.map(|e| format!(" {:?}", e)).unwrap_or_default()), b.len())),
    };
    let got = read::<list::Unsized<P, Varied>>(&b, show_list);
    if got != exp {
        return Err(format!("list::Unsized, {}: {:?}, expected {:?}", what, got, exp));
    }
    done(src, !b.is_empty(), true, classes, || what)
}

fn arrays(src: &mut Src, _want: bool) -> Case {
    prefixes!(src, array_1)
}
fn lists(src: &mut Src, _want: bool) -> Case {
    prefixes!(src, list_history)
}
fn counted(src: &mut Src, _want: bool) -> Case {
    prefixes!(src, list_inputs)
}

/// Small helpers: sizes, mapped messages, joined options, conversions of lengths.
/// An item of no bytes, as a message without fields is.
#[derive(Clone, Debug, PartialEq)]
struct Nothing;

impl<'a> FromSlice<'a> for Nothing {
    type Output = Self;
    fn from_slice(_: &'a [u8]) -> Result<Message<Self>, Error> {
        Ok(Message::new(0, Nothing))
    }
}
impl<'a> FromSliceWithOffsets<'a> for Nothing {
    type Offsets = FieldOffset;
    fn from_slice_with_offsets(_: &'a [u8]) -> Result<Message<(Self, FieldOffset)>, Error> {
        Ok(Message::new(0, (Nothing, FieldOffset { start: 0, end: 0 })))
    }
}

/// Lists of items of no bytes: any number of them is there, and finding their end takes no time.
fn nothing_one<P: for<'a> FromSlice<'a, Output: ToUsize> + WriteTo<Input: ToUsize + Sized>>(src: &mut Src, name: &str, n: usize, big: bool) -> Case {
    let mut b = src.bytes(n);
    let tail = src.len(5);
    let rest = src.bytes(tail);
    b.extend(rest);
    if src.one_in(5) {
        let k = src.idx(b.len() + 1);
        b.truncate(k);
    }
    let what = format!("prefix {}, {}", name, hex(&b));
    let show = |l: &List<&[u8], P, Nothing>| format!("{} {} {}", l.len(), l.iter().take(20).filter(|v| v.is_ok()).count(), l.iter_offsets().take(20).filter(|v| v.is_ok()).count());
    let text = (b.len() >= n).then(|| number(&b[..n], big)).map(|c| format!("{} {} {}", c, c.min(20), c.min(20)));
    let got = read::<List<&[u8], P, Nothing>>(&b, show);
    let exp = text.clone().map(|t| (t, n)).ok_or(Kind::Truncated);
    if got != exp {
        return Err(format!("List of items of no bytes, {}: {:?}, expected {:?}", what, got, exp));
    }
    let got = read::<list::Unsized<P, Nothing>>(&b, show);
    let exp = text.map(|t| (t, b.len())).ok_or(Kind::Truncated);
    if got != exp {
        return Err(format!("list::Unsized of items of no bytes, {}: {:?}, expected {:?}", what, got, exp));
    }
    done(src, b.len() >= n, true, vec![], || what)
}

fn nothings(src: &mut Src, _want: bool) -> Case {
    prefixes!(src, nothing_one)
}

fn helpers(src: &mut Src, want: bool) -> Case {
    let (a, b) = (src.bits(32) as usize, src.bits(16) as usize);
    let o = FieldOffset { start: a, end: a + b };
    if o.size() != b {
        return Err(format!("{:?}.size() is {}", o, o.size()));
    }
    let m = Message::new(a, b).map(|v| v as u64 + 1);
    if m.size() != a || m.into_inner() != b as u64 + 1 {
        return Err(format!("Message::map changes the size {} or the value {}", a, b));
    }
    let (x, y) = (src.bool().then_some(a), src.bool().then_some(b));
    if (x, y).to_single() != x.zip(y) {
        return Err(format!("({:?}, {:?}).to_single() is {:?}", x, y, (x, y).to_single()));
    }
    if Fixed::<&[u8], 5>(&[]).size() != 5 {
        return Err("Size::size() of a fixed size type is not its size".into());
    }
    let v = src.bits(64) as usize;
    if u8::try_from_usize(v) != u8::try_from(v).ok() || u16::try_from_usize(v) != u16::try_from(v).ok() || u32::try_from_usize(v) != u32::try_from(v).ok() || u64::try_from_usize(v) != Some(v as u64) {
        return Err(format!("try_from_usize({}) does not give the value or nothing", v));
    }
    done(src, true, want, vec![], || format!("{} {} {}", a, b, v))
}

pub fn messages() -> Vec<Part> {
    vec![
        part("values", (150_000, 6_000_000), values),
        part("strings", (60_000, 2_000_000), strings),
        part("arbitrary strings", (300_000, 12_000_000), inputs),
        part("arrays", (60_000, 2_500_000), arrays),
        part("lists", (60_000, 2_500_000), lists),
        part("arbitrary arrays and lists", (300_000, 12_000_000), counted),
        part("lists of nothing", (20_000, 400_000), nothings),
        part("helpers", (50_000, 1_000_000), helpers),
    ]
}
