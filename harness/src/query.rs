//! Uniform access to typed queries of every tuple shape, and to dynamic queries of every arity.
use crate::toks::*;
use arche_tape::{EcsId, FetchType, World};

/// One cell of a query row, independent of its type.
pub trait Cell {
    /// Token, or the raw id of an entity
    fn val(&self) -> Val;
    fn misaligned(&self) -> bool;
    /// Replaces the value without dropping the old one; only for mutable cells
    fn put(&mut self, t: i64);
    fn addr(&self) -> usize;
}

#[derive(Clone, Copy)]
pub enum Val {
    Tok(i64),
    Id(EcsId),
}

impl Cell for EcsId {
    fn val(&self) -> Val {
        Val::Id(*self)
    }
    fn misaligned(&self) -> bool {
        false
    }
    fn put(&mut self, _: i64) {}
    fn addr(&self) -> usize {
        0
    }
}
impl<T: Tok> Cell for &T {
    fn val(&self) -> Val {
        Val::Tok(self.rd())
    }
    fn misaligned(&self) -> bool {
        (*self as *const T as usize) % std::mem::align_of::<T>() != 0
    }
    fn put(&mut self, _: i64) {}
    fn addr(&self) -> usize {
        *self as *const T as usize
    }
}
impl<T: Tok> Cell for &mut T {
    fn val(&self) -> Val {
        Val::Tok(self.rd())
    }
    fn misaligned(&self) -> bool {
        (&**self as *const T as usize) % std::mem::align_of::<T>() != 0
    }
    fn put(&mut self, t: i64) {
        std::mem::forget(std::mem::replace(&mut **self, T::mk(t)));
    }
    fn addr(&self) -> usize {
        &**self as *const T as usize
    }
}

pub type RowFn<'f> = &'f mut dyn FnMut(&mut [&mut dyn Cell]) -> bool;

/// A live query object
pub trait QObj {
    /// Runs to exhaustion (and polls twice more) unless the callback returns false
    fn iter(&mut self, f: RowFn);
    fn get(&mut self, e: EcsId, f: RowFn) -> bool;
    /// Uses the query, in one of several ways, before it is used in earnest
    fn warm(&mut self, how: usize, ids: &[EcsId]) {
        match how % 8 {
            0 => drop(self.iter(&mut |_| true)),
            1 => drop(self.iter(&mut |_| false)),
            2 => {
                let mut n = how / 8 % 5;
                self.iter(&mut |_| {
                    n = n.saturating_sub(1);
                    n > 0
                })
            }
            3 => {
                for e in ids.iter().skip(how / 8 % 4).step_by(1 + how / 32 % 3).take(12) {
                    self.get(*e, &mut |_| true);
                }
            }
            _ => (),
        }
    }
}

pub struct Shape {
    pub cols: &'static [(u8, i64)],
    /// Obtains the query, hands it to the callback, drops it
    pub with: fn(&World, &mut dyn FnMut(&mut dyn QObj)),
}

thread_local! {
    static WAY: std::cell::Cell<usize> = std::cell::Cell::new(0);
}
/// In which of the ways that an iterator can be used the next one is
pub fn way() -> usize {
    WAY.with(|w| {
        w.set(w.get().wrapping_add(1));
        w.get() % 16
    })
}

/// Hands all rows to the callback, until it returns false, in one of the ways that there are to use an iterator
macro_rules! drive {
    (ways $iter:expr, |$row:pat_param| $f:expr) => {
        match $crate::query::way() {
            1 => {
                let _ = $iter.try_for_each(|$row| if $f { Some(()) } else { None });
            }
            2 | 7 => {
                // every n-th, beginning with each of the first n
                let by = 2 + $crate::query::way() % 5;
                for from in 0..by {
                    if !$iter.skip(from).step_by(by).all(|$row| $f) {
                        break;
                    }
                }
            }
            3 => {
                let mut go = true;
                $iter.for_each(|$row| go = go && $f);
            }
            4 => {
                let it = $iter;
                let (lo, hi) = it.size_hint();
                let rows: Vec<_> = it.collect();
                if rows.len() < lo || hi.map_or(false, |hi| rows.len() > hi) {
                    eprintln!("size_hint {lo} {hi:?} and {} rows", rows.len());
                    std::process::abort();
                }
                let _ = rows.into_iter().all(|$row| $f);
            }
            5 => {
                // all but the last, and the last
                let n = $iter.count();
                let mut it = $iter;
                let part = it.by_ref().take(n / 2).fold(0, |k, _| k + 1);
                if part + it.count() != n {
                    eprintln!("{part} rows and the rest are not {n}");
                    std::process::abort();
                }
                if $iter.take(n.max(1) - 1).all(|$row| $f) {
                    if let Some($row) = $iter.last() {
                        $f;
                    }
                }
            }
            6 => {
                // a part, and the rest through another adaptor
                let mut it = $iter;
                let (mut n, mut go) = (0, true);
                while let Some($row) = it.nth(0) {
                    n += 1;
                    go = $f;
                    if !go || n == 3 {
                        break;
                    }
                }
                if go {
                    it.fuse().fold(true, |go, $row| go && $f);
                }
            }
            _ => $crate::query::drive!($iter, |$row| $f),
        }
    };
    ($iter:expr, |$row:pat_param| $f:expr) => {{
        let mut it = $iter;
        let mut after = 0;
        while after < 3 {
            match it.next() {
                Some($row) => {
                    if !$f {
                        break;
                    }
                }
                None => after += 1,
            }
        }
    }};
}
pub(crate) use drive;

#[macro_export]
macro_rules! shapes {
    ($([$($col:expr),*] $ty:tt ($($v:ident),*,) $($ways:ident)?;)*) => {
        pub static SHAPES: &[Shape] = &[$(
            Shape {
                cols: &[$($col),*],
                with: {
                    fn with(world: &arche_tape::World, cb: &mut dyn FnMut(&mut dyn QObj)) {
                        type Q = $ty;
                        struct Wrap<'a>(arche_tape::StaticQuery<'a, Q>);
                        impl<'a> QObj for Wrap<'a> {
                            fn iter(&mut self, f: RowFn) {
                                $crate::query::drive!($($ways)? self.0.iter(), |($(mut $v,)*)| f(&mut [$(&mut $v),*]));
                            }
                            fn get(&mut self, e: arche_tape::EcsId, f: RowFn) -> bool {
                                match self.0.get(e) {
                                    Some(($(mut $v,)*)) => {
                                        f(&mut [$(&mut $v),*]);
                                        true
                                    }
                                    None => false,
                                }
                            }
                        }
                        let q = world.query::<Q>();
                        cb(&mut Wrap(q));
                    }
                    with
                },
            },
        )*];
    };
}

/// What a dynamic query is asked for: `None` is the entity column
pub type DynCols = Vec<Option<(u8, EcsId)>>;

fn fetches<const N: usize>(cols: &DynCols) -> [FetchType; N] {
    crate::alloc::outside(|| fetches_n(cols))
}
fn fetches_n<const N: usize>(cols: &DynCols) -> [FetchType; N] {
    let v: Vec<FetchType> = cols
        .iter()
        .map(|c| match c {
            None => FetchType::EcsId,
            Some((b'W', id)) => FetchType::Mut(*id),
            Some((_, id)) => FetchType::Immut(*id),
        })
        .collect();
    match v.try_into() {
        Ok(a) => a,
        Err(_) => unreachable!(),
    }
}

fn dyn_n<const N: usize>(w: &World, cols: &DynCols, cb: &mut dyn FnMut(&mut dyn DObj)) {
    struct D<'a, const N: usize>(arche_tape::DynQuery<'a, N>);
    impl<'a, const N: usize> DObj for D<'a, N> {
        fn rows(&mut self, f: &mut dyn FnMut(&[*mut u8])) {
            drive!(ways self.0.iter(), |r| {
                f(&r);
                true
            });
        }
        fn columns(&mut self, f: &mut dyn FnMut(&[(*mut u8, usize)])) {
            drive!(ways self.0.column_iter(), |r| {
                        let v: Vec<(*mut u8, usize)> = crate::alloc::outside(|| r
                            .iter()
                            .map(|p| {
                                #[repr(C)]
                                #[derive(Clone, Copy)]
                                struct Pl(*mut u8, usize);
                                assert!(std::mem::size_of_val(p) == std::mem::size_of::<Pl>());
                                // PtrLen is repr(C) with private fields
                                let pl = unsafe { *(p as *const _ as *const Pl) };
                                (pl.0, pl.1)
                            })
                            .collect());
                        f(&v);
                        true
            });
        }
        fn warm(&mut self, how: usize) {
            match how % 8 {
                0 => drop(self.0.iter().count()),
                1 => drop(self.0.iter().next().is_some()),
                2 => drop(self.0.column_iter().count()),
                3 => drop(self.0.column_iter().next().is_some()),
                4 => drop(self.0.iter().take(how / 8 % 5).count()),
                _ => (),
            }
        }
    }
    let q = w.query_dynamic(fetches::<N>(cols));
    cb(&mut D(q));
}

pub trait DObj {
    fn rows(&mut self, f: &mut dyn FnMut(&[*mut u8]));
    fn columns(&mut self, f: &mut dyn FnMut(&[(*mut u8, usize)]));
    /// Uses the query, in one of several ways, before it is used in earnest
    fn warm(&mut self, how: usize);
}

pub fn with_dyn(w: &World, cols: &DynCols, cb: &mut dyn FnMut(&mut dyn DObj)) {
    match cols.len() {
        1 => dyn_n::<1>(w, cols, cb),
        2 => dyn_n::<2>(w, cols, cb),
        3 => dyn_n::<3>(w, cols, cb),
        4 => dyn_n::<4>(w, cols, cb),
        5 => dyn_n::<5>(w, cols, cb),
        6 => dyn_n::<6>(w, cols, cb),
        7 => dyn_n::<7>(w, cols, cb),
        8 => dyn_n::<8>(w, cols, cb),
        12 => dyn_n::<12>(w, cols, cb),
        16 => dyn_n::<16>(w, cols, cb),
        33 => dyn_n::<33>(w, cols, cb),
        70 => dyn_n::<70>(w, cols, cb),
        n => panic!("no dynamic query of {n} columns"),
    }
}
