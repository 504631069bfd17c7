//! Component types used by the drivers. Every value carries a token; reading a value whose bytes do
//! not form exactly one token yields a negative number, dropping one logs (kind, token).
use std::cell::{Cell, RefCell};

thread_local! {
    static DROPS: RefCell<Vec<(usize, i64)>> = RefCell::new(Vec::with_capacity(4096));
}

thread_local! {
    /// The value whose destructor panics
    static FUSE: Cell<Option<(usize, i64)>> = Cell::new(None);
    static BLOWN: Cell<bool> = Cell::new(false);
}

/// The destructor of this value panics, once
pub fn arm(k: usize, t: i64) {
    FUSE.with(|f| f.set(Some((k, t))));
}
/// Whether it did
pub fn disarm() -> bool {
    FUSE.with(|f| f.set(None));
    BLOWN.with(|b| b.replace(false))
}

pub fn log_drop(k: usize, t: i64) {
    crate::alloc::outside(|| {
        let _ = DROPS.try_with(|d| d.borrow_mut().push((k, t)));
    });
    if FUSE.try_with(|f| f.get()) == Ok(Some((k, t))) && !std::thread::panicking() {
        FUSE.with(|f| f.set(None));
        BLOWN.with(|b| b.set(true));
        std::panic::resume_unwind(Box::new("a destructor"));
    }
}

/// Takes the drops logged since the last call, as sorted (kind, token, count).
pub fn take_drops() -> Vec<(usize, i64, usize)> {
    let mut v = DROPS.with(|d| std::mem::take(&mut *d.borrow_mut()));
    v.sort();
    let mut out: Vec<(usize, i64, usize)> = Vec::new();
    for (k, t) in v {
        match out.last_mut() {
            Some(l) if l.0 == k && l.1 == t => l.2 += 1,
            _ => out.push((k, t, 1)),
        }
    }
    out
}

pub trait Tok: 'static + Sized {
    const K: usize;
    const DROPS: bool;
    /// Number of distinct tokens this type can carry (0 for zero-sized types, whose token is 0)
    const CAP: i64;
    fn mk(t: i64) -> Self;
    fn rd(&self) -> i64;
}

pub const CORRUPT: i64 = -777;

/// The bytes of a value that carry its pattern: all, or for a very large one some everywhere
fn marked(len: usize) -> impl Iterator<Item = usize> {
    let (step, tail) = if len < 1000 { (1, len) } else { (61, len - 9) };
    (0..len.min(4)).chain((4..tail).step_by(step)).chain(tail.max(4)..len)
}

fn fill(bytes: &mut [u8], t: i64) {
    let le = (t as u32).to_le_bytes();
    for n in marked(bytes.len()) {
        bytes[n] = if n < 4 { le[n] } else { (t as u8).wrapping_mul(31).wrapping_add(n as u8) ^ le[n % 3] };
    }
}

fn unfill(bytes: &[u8]) -> i64 {
    let mut le = [0u8; 4];
    let n = bytes.len().min(4);
    le[..n].copy_from_slice(&bytes[..n]);
    let t = u32::from_le_bytes(le) as i64;
    for n in marked(bytes.len()).skip(n) {
        if bytes[n] != (t as u8).wrapping_mul(31).wrapping_add(n as u8) ^ le[n % 3] {
            return CORRUPT;
        }
    }
    if t > 50_000_000 { CORRUPT } else { t }
}

macro_rules! tok_bytes {
    ($name:ident, $k:literal, $n:literal, $cap:expr, $drop:tt, $($attr:meta)?) => {
        $(#[$attr])?
        pub struct $name([u8; $n]);
        impl Tok for $name {
            const K: usize = $k;
            const DROPS: bool = $drop;
            const CAP: i64 = $cap;
            fn mk(t: i64) -> Self {
                let mut b = [0u8; $n];
                fill(&mut b, t);
                Self(b)
            }
            fn rd(&self) -> i64 {
                unfill(&self.0)
            }
        }
        tok_bytes!(@drop $name, $drop);
    };
    (@drop $name:ident, true) => {
        impl Drop for $name {
            fn drop(&mut self) {
                log_drop(Self::K, self.rd());
            }
        }
    };
    (@drop $name:ident, false) => {};
}

const BIG: i64 = 10_000_000;
tok_bytes!(D8, 0, 8, BIG, true, repr(align(8)));
tok_bytes!(P4, 1, 4, BIG, false, repr(align(4)));
tok_bytes!(D1, 2, 1, 256, true,);
tok_bytes!(B3, 3, 3, BIG, false,);
tok_bytes!(Large, 5, 320, BIG, true, repr(align(8)));
tok_bytes!(Zd, 6, 0, 0, true,);
tok_bytes!(Zp, 7, 0, 0, false,);
tok_bytes!(Za, 8, 0, 0, true, repr(align(32)));
tok_bytes!(A64, 10, 64, BIG, false, repr(align(64)));
tok_bytes!(H2, 11, 2, 65536, false, repr(align(2)));
tok_bytes!(B33, 14, 33, BIG, true,);
tok_bytes!(A128, 15, 256, BIG, true, repr(align(128)));
tok_bytes!(Huge, 16, 69632, BIG, true, repr(align(4096)));

/// Two types of the same name and layout
pub trait Named {
    type T;
}
pub struct First;
pub struct Second;
const _: () = {
    tok_bytes!(Twin, 4, 16, BIG, true, repr(align(16)));
    impl Named for First {
        type T = Twin;
    }
};
const _: () = {
    tok_bytes!(Twin, 12, 16, BIG, false, repr(align(16)));
    impl Named for Second {
        type T = Twin;
    }
};
pub type A16 = <First as Named>::T;
pub type Q16 = <Second as Named>::T;

/// Owns a heap block
pub struct Bx(Box<u32>);
impl Tok for Bx {
    const K: usize = 9;
    const DROPS: bool = true;
    const CAP: i64 = BIG;
    fn mk(t: i64) -> Self {
        Self(crate::alloc::outside(|| Box::new(t as u32)))
    }
    fn rd(&self) -> i64 {
        let t = *self.0 as i64;
        if t > 50_000_000 { CORRUPT } else { t }
    }
}
impl Drop for Bx {
    fn drop(&mut self) {
        log_drop(Self::K, self.rd());
    }
}

/// Has padding
#[repr(C)]
pub struct Pad {
    a: u8,
    b: u32,
}
impl Tok for Pad {
    const K: usize = 13;
    const DROPS: bool = false;
    const CAP: i64 = BIG;
    fn mk(t: i64) -> Self {
        Self { a: (t % 251) as u8, b: t as u32 }
    }
    fn rd(&self) -> i64 {
        let t = self.b as i64;
        if t % 251 != self.a as i64 || t > 50_000_000 { CORRUPT } else { t }
    }
}

pub const NKINDS: usize = 17;

#[macro_export]
macro_rules! for_kinds {
    ($m:ident) => {
        [
            $m!(D8), $m!(P4), $m!(D1), $m!(B3), $m!(A16), $m!(Large), $m!(Zd), $m!(Zp), $m!(Za), $m!(Bx),
            $m!(A64), $m!(H2), $m!(Q16), $m!(Pad), $m!(B33), $m!(A128), $m!(Huge),
        ]
    };
}
