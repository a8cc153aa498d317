//! The deciding checks: each property gives targets (a type or field of a world), each target runs generated cases.

mod lists;
mod messages;
mod structs;
pub use structs::outside;
mod unions;

use crate::resolve::Res;
use crate::schema::World;
use crate::tape::Src;
use crate::vt::WorldVt;

pub struct Cx {
    pub world: World,
    pub res: Res,
    pub vt: WorldVt,
}

#[derive(Debug)]
pub struct Info {
    pub nontrivial: bool,
    pub sample: String,
}

pub type Case = Result<Info, String>;

pub struct Target<'a> {
    pub name: String,
    /// The declared types the target needs: (protocol, type).
    pub root: (usize, String),
    /// Relative number of cases.
    pub weight: u64,
    pub run: Box<dyn Fn(&mut Src, bool) -> Case + 'a>,
}

impl Cx {
    pub fn new(vt: WorldVt) -> Cx {
        let world = World::parse(vt.json);
        let res = Res::new(&world).expect("world resolves");
        Cx { world, res, vt }
    }
}

pub fn info(nontrivial: bool, want: bool, f: impl FnOnce() -> String) -> Case {
    Ok(Info { nontrivial, sample: if want { f() } else { String::new() } })
}

pub fn hex(b: &[u8]) -> String {
    let mut s = String::new();
    for (i, v) in b.iter().enumerate() {
        if i == 64 {
            s.push_str(&format!("..({} bytes)", b.len()));
            break;
        }
        s.push_str(&format!("{:02x}", v));
    }
    s
}

pub fn cut(s: String) -> String {
    if s.len() > 600 {
        let mut n = 600;
        while !s.is_char_boundary(n) {
            n -= 1;
        }
        format!("{}...", &s[..n])
    } else {
        s
    }
}

/// `check!(condition, "message", ...)`: the case fails unless the condition holds.
#[macro_export]
macro_rules! check {
    ($c: expr, $($arg: tt)*) => {
        if !$c {
            return Err($crate::engines::cut(format!($($arg)*)));
        }
    };
}

pub fn targets<'a>(prop: &str, cx: &'a Cx) -> Vec<Target<'a>> {
    match prop.as_bytes()[0] {
        b'S' => structs::targets(prop, cx),
        b'M' => messages::targets(prop, cx),
        b'U' => unions::targets(prop, cx),
        b'L' => lists::targets(prop, cx),
        // Importing is observed through what messages and structures do.
        b'C' => match prop {
            "C04" => {
                // Targets have names of their own, by which failures are replayed.
                let mut all = vec![];
                for sub in ["M02", "M03", "M01", "S02"] {
                    let mut t = if sub == "S02" { structs::targets(sub, cx) } else { messages::targets(sub, cx) };
                    t.iter_mut().for_each(|t| t.name = format!("{}:{}", sub, t.name));
                    all.extend(t);
                }
                all
            }
            _ => vec![],
        },
        _ => vec![],
    }
}

/// What makes a case of a property non-trivial.
pub fn rule(prop: &str) -> &'static str {
    match prop {
        "S01" => "a case is a random buffer (with 0 to 2 bytes after the structure) and up to 20 writes to fields of one structure, through fresh, owned, re-borrowed and nested views; non-trivial: at least 2 writes, and the structure has a field which is not byte aligned or the buffer is not all zero",
        "S02" => "a case is a random buffer of one structure, all of whose fields are compared with an independent decoder; non-trivial: the buffer is not all zero and the structure has a field",
        "S03" => "a case is a random buffer, a raw value and a value to write in one signed field; non-trivial: the raw value or the value written is negative",
        "S04" => "a case is a random buffer, a raw value and a value to write in one float field; non-trivial: the raw value is neither 0 nor the largest",
        "S05" => "a case is a random buffer, a raw value and a variant to write in one enum-viewed field; non-trivial: the raw value is not declared, or the variant is not the first",
        "S06" => "a case is a random buffer, a raw value and a boolean to write in one boolean field; non-trivial: the raw value is above 1, or the bits around the field are not zero",
        "S07" => "a case is a random buffer and up to 8 element writes in one array field; non-trivial: at least one write of an element that changes the buffer",
        "S08" => "a case is a random buffer of one structure (its nested views, re-borrowed views, reads from slices of all lengths around its size, writes to a sink); non-trivial: the buffer is not all zero",
        "M01" | "M02" | "M04" | "M06" | "M07" => "a case is a generated value of one message; non-trivial: at least 2 of its fields (nested ones included) hold content",
        "M03" | "M05" => "a case is a byte string read as one message: nearly valid encodings with lying lengths, presence bytes, discriminants, invalid text, cuts and insertions, or random bytes; non-trivial: at least 2 bytes long",
        "M08" => "a case is a message value of which one field is made unrepresentable, or put exactly at the limit; non-trivial: always",
        "M09" => "a case is a byte string read as one message and written again; non-trivial: the bytes were accepted and are at least 2 long",
        "U01" => "a case is a value of one union, written under the discriminant set in a random buffer; non-trivial: the case has content or the buffer is not zero",
        "U02" => "a case is a value of one union and a discriminant which is not its case's; non-trivial: always",
        "L01" => "a case is a history of appends to a list builder over a good or failing sink, or raw list bytes with any announced count; non-trivial: at least one item or byte",
        "L02" => "a case is a buffer, a count and a sequence of mutations of one array of structures, or a history of appends; non-trivial: at least one item",
        "C04" => "a case is a value or byte string of a type of a world of 2 or 3 protocols connected by imports; non-trivial: as for M02, M03, M01 and S02",
        _ => "",
    }
}
