//! What a batch program (generated code plus generated glue) offers to the checks.

use crate::model::{Off, Val, EK};
use std::cell::RefCell;
use std::io::{self, Write};

/// A structure seen through one of its borrowed or owned views; fields by declaration index.
pub trait SView {
    fn get_raw(&self, f: usize) -> u64;
    fn get(&self, f: usize) -> Val;
    fn arr_len(&self, f: usize) -> usize;
    fn arr_get(&self, f: usize, i: usize) -> Val;
    fn arr_iter(&self, f: usize) -> Vec<Val>;
    fn arr_bytes(&self, f: usize) -> Option<Vec<u8>>;
    fn nested(&self, f: usize, g: &mut dyn FnMut(&dyn SView));
    /// Through `to_ref`.
    fn reborrow(&self, g: &mut dyn FnMut(&dyn SView));
    /// What writing the structure puts in a sink.
    fn bytes(&self) -> Result<Vec<u8>, EK>;
}

pub trait SViewMut: SView {
    fn set_raw(&mut self, f: usize, v: u64);
    fn set(&mut self, f: usize, v: &Val);
    fn arr_set(&mut self, f: usize, i: usize, v: &Val);
    /// Overwrites the bytes of a byte array; false if the field does not expose its bytes.
    fn arr_fill(&mut self, f: usize, b: &[u8]) -> bool;
    fn nested_mut(&mut self, f: usize, g: &mut dyn FnMut(&mut dyn SViewMut));
    /// Through `to_mut`.
    fn reborrow_mut(&mut self, g: &mut dyn FnMut(&mut dyn SViewMut));
}

pub struct StructVt {
    pub proto: usize,
    pub name: &'static str,
    /// The SIZE_ constant, FixedSize::SIZE and the size of the stack constructor's buffer.
    pub sizes: [usize; 3],
    pub view: fn(&[u8], u8, &mut dyn FnMut(&dyn SView)),
    pub view_mut: fn(&mut [u8], u8, &mut dyn FnMut(&mut dyn SViewMut)),
    pub from_slice: fn(&[u8]) -> Result<(usize, Vec<u8>), EK>,
    pub write: fn(&[u8], &mut dyn Write) -> Result<(), EK>,
}

pub struct EnumVt {
    pub proto: usize,
    pub name: &'static str,
    /// The numeric value of each variant, in declaration order of the schema.
    pub values: Vec<u64>,
}

pub struct MsgVt {
    pub proto: usize,
    pub name: &'static str,
    pub write: fn(&Val, &mut dyn Write) -> Result<(), EK>,
    pub size_of: fn(&Val) -> Result<usize, EK>,
    pub read: fn(&[u8]) -> Result<(Val, usize), EK>,
    pub read_off: fn(&[u8]) -> Result<(Val, usize, Vec<Off>), EK>,
    /// Reads and writes what was read.
    pub rewrite: fn(&[u8]) -> Result<(usize, Result<Vec<u8>, EK>), EK>,
}

pub struct UnionVt {
    pub proto: usize,
    pub name: &'static str,
    pub set_disc: fn(&Val, &mut [u8]),
    pub write: fn(&Val, &[u8], &mut dyn Write) -> Result<(), EK>,
    pub read: fn(&[u8], &[u8]) -> Result<(Val, usize), EK>,
    /// The answer of the accessor of each case.
    pub access: fn(&Val) -> Vec<Option<Option<Val>>>,
}

#[derive(Clone, Debug)]
pub enum LOp {
    One(Val),
    Many(Vec<Val>),
}

#[derive(Debug)]
pub struct LRun {
    pub steps: Vec<(Result<(), EK>, usize)>,
    /// Items by iteration over the builder, and over a borrowed view of it.
    pub items: IterRun,
    pub ref_items: IterRun,
    pub offs: Option<(IterRun, Vec<Vec<Off>>)>,
    pub ref_len: usize,
    pub encoded: Result<Vec<u8>, EK>,
}

#[derive(Debug, PartialEq, Clone, Default)]
pub struct IterRun {
    pub items: Vec<Val>,
    pub errors: usize,
    /// An item came after the end or after an error, or more came than the cap.
    pub overrun: bool,
}

pub struct ListVt {
    pub proto: usize,
    pub msg: &'static str,
    pub field: &'static str,
    pub run: fn(&[LOp], FaultSink) -> LRun,
    /// Iterates over a list made of raw parts.
    pub raw: fn(&[u8], usize) -> (IterRun, (IterRun, Vec<Vec<Off>>)),
}

pub trait AView {
    fn len(&self) -> usize;
    fn get(&self, i: usize) -> Vec<u8>;
    fn iter(&self) -> Vec<Vec<u8>>;
    /// Through `to_ref`: the length, each item by index and by iteration.
    fn ref_items(&self) -> (usize, Vec<Vec<u8>>, Vec<Vec<u8>>);
    fn get_mut(&mut self, i: usize, g: &mut dyn FnMut(&mut dyn SViewMut));
    fn iter_mut(&mut self, g: &mut dyn FnMut(usize, &mut dyn SViewMut));
}

pub struct ArrVt {
    pub proto: usize,
    pub msg: &'static str,
    pub field: &'static str,
    /// Calls back if the array over that buffer is granted.
    pub from_parts: fn(&mut [u8], usize, &mut dyn FnMut(&mut dyn AView)) -> bool,
    pub from_parts_ref: fn(&[u8], usize) -> Option<(usize, Vec<Vec<u8>>)>,
    pub build: fn(&[Vec<Vec<u8>>], FaultSink) -> ARun,
    pub read: fn(&[u8]) -> Result<(usize, usize, Vec<Vec<u8>>), EK>,
}

#[derive(Debug)]
pub struct ARun {
    pub steps: Vec<(Result<(), EK>, usize)>,
    pub items: (usize, Vec<Vec<u8>>, Vec<Vec<u8>>),
    pub encoded: Result<Vec<u8>, EK>,
}

pub struct WorldVt {
    pub json: &'static str,
    pub structs: Vec<StructVt>,
    pub enums: Vec<EnumVt>,
    pub msgs: Vec<MsgVt>,
    pub unions: Vec<UnionVt>,
    pub lists: Vec<ListVt>,
    pub arrays: Vec<ArrVt>,
}

/// Collects an iteration with a cap; `n` is the announced number of items.
pub fn collect_iter<T>(mut it: impl Iterator<Item = Result<T, EK>>, n: usize, mut f: impl FnMut(T)) -> (usize, usize, bool) {
    let (mut items, mut errors, mut overrun) = (0usize, 0usize, false);
    let mut ended = false;
    let mut after_end = 0;
    loop {
        match it.next() {
            None => {
                ended = true;
                after_end += 1;
                if after_end > 2 {
                    break;
                }
            }
            Some(r) => {
                if ended || errors > 0 {
                    overrun = true;
                }
                match r {
                    Ok(v) => {
                        items += 1;
                        f(v);
                    }
                    Err(_) => errors += 1,
                }
                if items > n || errors > 1 {
                    overrun = true;
                }
                if overrun {
                    break;
                }
            }
        }
    }
    (items, errors, overrun)
}

#[derive(Clone, Copy, Debug, PartialEq)]
pub enum FaultKind {
    Error,
    /// `write` returns Ok(0).
    Zero,
}

/// A sink which fails when a byte position is reached, accepts parts of writes, or interrupts.
#[derive(Clone, Debug, Default)]
pub struct FaultSink {
    pub data: Vec<u8>,
    pub fail_at: Option<(usize, Option<()>)>,
    pub zero: bool,
    /// The most bytes accepted per call (0: no limit).
    pub chunk: usize,
    /// Interrupts every n-th call (0: never).
    pub interrupt: usize,
    calls: usize,
    pub failures: usize,
    /// Fail once only, and accept everything afterwards.
    pub once: bool,
}

impl FaultSink {
    pub fn good() -> FaultSink {
        FaultSink::default()
    }
    pub fn failing(at: usize, kind: FaultKind) -> FaultSink {
        FaultSink { fail_at: Some((at, None)), zero: kind == FaultKind::Zero, ..Default::default() }
    }
}

impl AsRef<[u8]> for FaultSink {
    fn as_ref(&self) -> &[u8] {
        &self.data
    }
}

impl Write for FaultSink {
    fn write(&mut self, b: &[u8]) -> io::Result<usize> {
        self.calls += 1;
        if self.interrupt > 0 && self.calls % self.interrupt == 0 {
            return Err(io::Error::new(io::ErrorKind::Interrupted, "interrupted"));
        }
        let mut n = b.len();
        if self.chunk > 0 {
            n = n.min(self.chunk);
        }
        if let Some((at, _)) = self.fail_at {
            let room = at.saturating_sub(self.data.len());
            if room == 0 && !b.is_empty() {
                self.failures += 1;
                if self.once {
                    self.fail_at = None;
                }
                if self.zero {
                    return Ok(0);
                }
                return Err(io::Error::new(io::ErrorKind::Other, "injected fault"));
            }
            n = n.min(room);
        }
        self.data.extend_from_slice(&b[..n]);
        Ok(n)
    }
    fn flush(&mut self) -> io::Result<()> {
        Ok(())
    }
}

/// Keeps values alive for as long as the message borrowing them.
#[derive(Default)]
pub struct Arena {
    items: RefCell<Vec<Box<dyn Held>>>,
}

pub trait Held {}
impl<T> Held for T {}

impl Arena {
    pub fn alloc<'a, T: 'a>(&'a self, v: T) -> &'a mut T {
        let mut b: Box<T> = Box::new(v);
        let p: *mut T = &mut *b;
        let b: Box<dyn Held + 'a> = b;
        // SAFETY: the box is dropped with the arena only, which outlives 'a; the values held here have
        // no destructor that looks at other borrowed values.
        self.items.borrow_mut().push(unsafe { std::mem::transmute::<Box<dyn Held + 'a>, Box<dyn Held + 'static>>(b) });
        unsafe { &mut *p }
    }
    pub fn bytes(&self, b: &[u8]) -> &[u8] {
        self.alloc(b.to_vec())
    }
    pub fn str(&self, s: &str) -> &str {
        self.alloc(s.to_string())
    }
}

extern "C" {
    fn mmap(addr: *mut u8, len: usize, prot: i32, flags: i32, fd: i32, off: i64) -> *mut u8;
    fn mprotect(addr: *mut u8, len: usize, prot: i32) -> i32;
}

const GUARDED: usize = 1 << 20;

thread_local! {
    static REGION: usize = unsafe {
        // PROT_READ | PROT_WRITE, MAP_PRIVATE | MAP_ANONYMOUS
        let p = mmap(std::ptr::null_mut(), GUARDED + 4096, 3, 0x22, -1, 0);
        assert!(p as isize != -1, "mmap");
        assert!(mprotect(p.add(GUARDED), 4096, 0) == 0, "mprotect");
        p as usize
    };
}

/// Hands out a copy of the bytes that ends right before an inaccessible page: reading past its end is fatal.
pub fn with_guard<R>(b: &[u8], f: impl FnOnce(&[u8]) -> R) -> R {
    if b.len() > GUARDED {
        return f(b);
    }
    REGION.with(|p| {
        let at = (*p + GUARDED - b.len()) as *mut u8;
        // SAFETY: the region is private to the thread, and calls do not nest.
        let s = unsafe {
            std::ptr::copy_nonoverlapping(b.as_ptr(), at, b.len());
            std::slice::from_raw_parts(at, b.len())
        };
        f(s)
    })
}
