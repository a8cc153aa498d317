//! R01: a batch program over instances of the bit codecs, against a bit-by-bit reference.

use crate::batch::{guarded, quiet_panics, tape_json};
use crate::engines::hex;
use crate::json::{n, obj, s, J};
use crate::tape::{hash_bytes, hash_words, mix, shrink, Src};
use std::collections::HashSet;
use std::io::Write;

pub struct Entry {
    pub big: bool,
    pub carrier: usize,
    pub off: usize,
    pub size: usize,
    pub read: fn(&[u8]) -> u64,
    pub write: fn(&mut [u8], u64),
}

impl Entry {
    pub fn name(&self) -> String {
        format!("BitCodec{}::<u{}, {}, {}>", if self.big { "BE" } else { "LE" }, self.carrier, self.off, self.size)
    }
}

/// The place of bit `i` of the value (0 is the least significant): (byte, bit in the byte).
fn place(e: &Entry, i: usize) -> (usize, usize) {
    if e.big {
        // The first bit of the field is its most significant one, counting from the most significant bit of byte 0.
        let p = e.off + (e.size - 1 - i);
        (p / 8, 7 - p % 8)
    } else {
        let p = e.off + i;
        (p / 8, p % 8)
    }
}

fn case(e: &Entry, src: &mut Src, want: bool) -> Result<(bool, String), String> {
    let least = (e.off + e.size + 7) / 8;
    let len = if least < e.carrier / 8 && src.bool() { e.carrier / 8 } else { least };
    let buf = src.bytes(len);
    let mask = if e.size >= 64 { u64::MAX } else { (1u64 << e.size) - 1 };
    let cmask = if e.carrier >= 64 { u64::MAX } else { (1u64 << e.carrier) - 1 };
    // Also values which do not fit: their low bits are stored.
    let v = if src.one_in(3) { src.bits(e.carrier as u32) & cmask } else { src.bits(e.size as u32) & mask };
    let mut field = 0u64;
    for i in 0..e.size {
        let (b, k) = place(e, i);
        field |= ((buf[b] >> k & 1) as u64) << i;
    }
    let got = (e.read)(&buf);
    if got != field {
        return Err(format!("{}::read of {} gives {:#x}, the addressed bits are {:#x}", e.name(), hex(&buf), got, field));
    }
    let mut out = buf.clone();
    (e.write)(&mut out, v);
    let mut expected = buf.clone();
    for i in 0..e.size {
        let (b, k) = place(e, i);
        expected[b] = expected[b] & !(1 << k) | ((v >> i & 1) as u8) << k;
    }
    if out != expected {
        return Err(format!("{}::write of {:#x} over {} gives {}, expected {}", e.name(), v, hex(&buf), hex(&out), hex(&expected)));
    }
    let back = (e.read)(&out);
    if back != v & mask {
        return Err(format!("{} reads {:#x} after writing {:#x} over {}", e.name(), back, v, hex(&buf)));
    }
    Ok((field != 0 || v != 0, if want { format!("{} over {}: read {:#x}, write {:#x} gives {}", e.name(), hex(&buf), field, v, hex(&out)) } else { String::new() }))
}

pub fn main(entries: Vec<Entry>) {
    quiet_panics();
    let args: Vec<String> = std::env::args().collect();
    match &*args[1] {
        // run PROP SEED CASES
        "run" => {
            let (seed, cases): (u64, u64) = (args[3].parse().unwrap(), args[4].parse().unwrap());
            let mut out = std::io::stdout().lock();
            for e in &entries {
                let mut seen = HashSet::new();
                let mut samples = vec![];
                let mut done = 0u64;
                for c in 0..cases {
                    let cs = mix(seed ^ mix(hash_bytes(e.name().as_bytes()) ^ mix(c)));
                    let mut src = Src::random(cs);
                    let want = c == cases / 2;
                    done += 1;
                    match guarded(|| case(e, &mut src, want)) {
                        Ok((nontrivial, t)) => {
                            if nontrivial {
                                seen.insert(hash_words(src.tape()));
                            }
                            if want {
                                samples.push(s(t));
                            }
                        }
                        Err(first) => {
                            let small = shrink(src.tape().to_vec(), 4000, |t| guarded(|| case(e, &mut Src::replay(t), false)).is_err());
                            let msg = guarded(|| case(e, &mut Src::replay(&small), false)).err().unwrap_or(first);
                            let j = obj(vec![("world", n(0)), ("target", s(e.name())), ("root", obj(vec![("proto", n(0)), ("type", s(""))])), ("msg", s(msg)), ("tape", tape_json(&small))]);
                            let _ = writeln!(out, "{}", obj(vec![("fail", j)]).text());
                            break;
                        }
                    }
                }
                let j = obj(vec![("world", n(0)), ("target", s(e.name())), ("cases", n(done)), ("distinct", n(seen.len())), ("samples", J::Arr(samples))]);
                let _ = writeln!(out, "{}", obj(vec![("stat", j)]).text());
            }
            let _ = writeln!(out, "{}", obj(vec![("end", J::Bool(true))]).text());
        }
        // replay PROP TARGET TAPE
        "replay" => {
            let tape: Vec<u64> = args[4].split(',').filter(|v| !v.is_empty()).map(|v| v.parse().unwrap()).collect();
            for e in entries.iter().filter(|e| e.name() == args[3]) {
                let j = match guarded(|| case(e, &mut Src::replay(&tape), true)) {
                    Ok((_, t)) => obj(vec![("ok", s(t))]),
                    Err(m) => obj(vec![("fail", s(m))]),
                };
                println!("{}", j.text());
            }
        }
        _ => std::process::exit(3),
    }
}
