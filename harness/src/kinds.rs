//! Type-erased operations per component type, and a small random number generator.
use crate::toks::*;
use arche_tape::{spawn, entity_builder::EntityBuilder, world::ComponentMeta, EcsId, World};
use std::mem::ManuallyDrop;

pub struct KindOps {
    pub size: usize,
    pub align: usize,
    pub drops: bool,
    /// owns heap memory
    pub owns: bool,
    pub cap: i64,
    pub with: for<'a> fn(EntityBuilder<'a>, i64) -> EntityBuilder<'a>,
    /// spawn! with one value, and with others behind or around it
    pub spawn: fn(&mut World, i64) -> EcsId,
    pub spawn2: fn(&mut World, i64, i64) -> EcsId,
    pub spawn3: fn(&mut World, i64, i64, i64) -> EcsId,
    pub add: fn(&mut World, EcsId, i64),
    pub rem: fn(&mut World, EcsId),
    pub has: fn(&World, EcsId) -> bool,
    pub reg: fn(&mut World) -> EcsId,
    pub read: unsafe fn(*const u8) -> i64,
    pub put: unsafe fn(*mut u8, i64),
    /// Makes a value and lends its bytes; the value is never dropped here
    pub lend: fn(i64, &mut dyn FnMut(*mut u8)),
    pub meta: fn(bool) -> ComponentMeta,
    pub drop_fn: Option<fn(*mut std::mem::MaybeUninit<u8>)>,
}

fn with<'a, T: Tok>(b: EntityBuilder<'a>, t: i64) -> EntityBuilder<'a> {
    b.with(T::mk(t))
}
fn drop_erased<T>(p: *mut std::mem::MaybeUninit<u8>) {
    unsafe { std::ptr::drop_in_place(p as *mut T) }
}

const fn ops<T: Tok>() -> KindOps {
    KindOps {
        size: std::mem::size_of::<T>(),
        align: std::mem::align_of::<T>(),
        drops: T::DROPS,
        owns: T::K == Bx::K,
        cap: T::CAP,
        with: with::<T>,
        spawn: |mut w, t| spawn!(&mut w, T::mk(t)),
        spawn2: |mut w, t, u| spawn!(&mut w, T::mk(t), P4::mk(u)),
        spawn3: |mut w, s, t, u| spawn!(&mut w, H2::mk(s), T::mk(t), D1::mk(u),),
        add: |w, e, t| w.add_component(e, T::mk(t)),
        rem: |w, e| w.remove_component::<T>(e),
        has: |w, e| w.has_component::<T>(e),
        reg: |w| w.get_or_create_type_id_ecsid::<T>(),
        read: |p| unsafe { (*(p as *const T)).rd() },
        put: |p, t| unsafe { std::mem::forget(std::mem::replace(&mut *(p as *mut T), T::mk(t))) },
        lend: |t, f| {
            let mut v = ManuallyDrop::new(T::mk(t));
            f(&mut *v as *mut T as *mut u8)
        },
        meta: |generic| {
            if generic {
                ComponentMeta::from_generic::<T>()
            } else {
                ComponentMeta::from_size_align(std::mem::size_of::<T>(), std::mem::align_of::<T>())
            }
        },
        drop_fn: if T::DROPS { Some(drop_erased::<T>) } else { None },
    }
}

macro_rules! one {
    ($t:ident) => {
        ops::<$t>()
    };
}
pub static KINDS: [KindOps; NKINDS] = crate::for_kinds!(one);

pub struct Rng(pub u64);
impl Rng {
    pub fn next(&mut self) -> u64 {
        self.0 = self.0.wrapping_add(0x9E3779B97F4A7C15);
        let mut z = self.0;
        z = (z ^ (z >> 30)).wrapping_mul(0xBF58476D1CE4E5B9);
        z = (z ^ (z >> 27)).wrapping_mul(0x94D049BB133111EB);
        z ^ (z >> 31)
    }
    pub fn below(&mut self, n: usize) -> usize {
        (self.next() % n.max(1) as u64) as usize
    }
    pub fn chance(&mut self, pct: usize) -> bool {
        self.below(100) < pct
    }
    pub fn pick<T: Clone>(&mut self, v: &[T]) -> Option<T> {
        if v.is_empty() {
            None
        } else {
            Some(v[self.below(v.len())].clone())
        }
    }
    pub fn shuffle<T>(&mut self, v: &mut [T]) {
        for i in (1..v.len()).rev() {
            let j = self.below(i + 1);
            v.swap(i, j);
        }
    }
}
