//! Two untyped vectors of one element type: replays walks of MCUntypedVec, and records random executions for UVecTrace.
use crate::alloc::api;
use crate::driver::Log;
use crate::kinds::*;
use crate::toks::*;
use core::alloc::Layout;
use std::mem::{ManuallyDrop, MaybeUninit};
use std::panic::{catch_unwind, AssertUnwindSafe};
use untyped_vec::{TypeInfo, UntypedVec};

const FAR: usize = 1 << 30;

pub struct Seen {
    pub a: Vec<i64>,
    pub b: Vec<i64>,
    pub odd: Vec<&'static str>,
    pub mis: Vec<&'static str>,
}

struct Uv<T: Tok> {
    v: [UntypedVec; 2],
    grown: [u32; 2],
    _t: std::marker::PhantomData<T>,
}

fn drop_erased<T>(p: *mut MaybeUninit<u8>) {
    unsafe { std::ptr::drop_in_place(p as *mut T) }
}

// Types of many layouts, some of which differ from any given one in size only or in alignment only
#[repr(align(2))] struct L2<const N: usize>([u8; N]);
#[repr(align(4))] struct L4<const N: usize>([u8; N]);
#[repr(align(8))] struct L8<const N: usize>([u8; N]);
#[repr(align(16))] struct L16<const N: usize>([u8; N]);
#[repr(align(64))] struct L64<const N: usize>([u8; N]);
#[repr(align(4096))] struct L4096<const N: usize>([u8; N]);

/// Whether a view of `v` as elements of type U, whose layout is another one, is refused; and so for moving element i to a vector of U's
fn unfit<U: 'static>(v: &mut UntypedVec, i: usize) -> bool {
    let l = Layout::new::<U>();
    if l == v.get_type_info().layout {
        return true;
    }
    let n = v.len();
    let refused = |f: &mut dyn FnMut()| catch_unwind(AssertUnwindSafe(f)).is_err();
    refused(&mut || { std::hint::black_box(unsafe { v.as_slice::<U>().len() }); })
        & refused(&mut || { std::hint::black_box(unsafe { v.as_slice_mut::<U>().len() }); })
        & {
            let mut other = unsafe { UntypedVec::new_from_raw(TypeInfo::new(l, None)) };
            // `other` is left behind if it took something, it would not know how to destroy it
            let r = refused(&mut || unsafe { v.swap_move_element_to_other_vec(&mut other, i) });
            if other.len() > 0 { std::mem::forget(other); false } else { r }
        }
        & (v.len() == n)
}

impl<T: Tok> Uv<T> {
    fn new() -> Self {
        let mut a = unsafe {
            // nothing is allocated yet
            UntypedVec::new_from_raw(TypeInfo::new(Layout::new::<T>(), if T::DROPS { Some(drop_erased::<T>) } else { None }))
        };
        let b = UntypedVec::new_from_untyped_vec(&mut a);
        Uv { v: [a, b], grown: [0; 2], _t: std::marker::PhantomData }
    }

    fn step(&mut self, op: &str, v: usize, i: usize, t: i64) -> &'static str {
        // an index as large as this stands for one whose offset in bytes does not fit
        let i = match i {
            FAR => 1usize << (64 - std::mem::size_of::<T>().max(2).trailing_zeros().max(1)),
            x if x == FAR + 1 => usize::MAX / std::mem::size_of::<T>().max(2) + 1,
            x if x == FAR + 2 => usize::MAX,
            x => x,
        };
        let r = catch_unwind(AssertUnwindSafe(|| api(|| match op {
            "push" => {
                let mut x = ManuallyDrop::new(T::mk(t));
                unsafe { self.v[v].push_raw(&mut *x as *mut T as *mut MaybeUninit<u8>) };
                // nothing may still depend on the source
                unsafe { std::ptr::write_bytes(&mut x as *mut _ as *mut u8, 0xEE, std::mem::size_of::<T>()) };
                "ok"
            }
            "pop" => {
                if self.v[v].pop() {
                    "true"
                } else {
                    "false"
                }
            }
            "put" => match self.v[v].get_mut_raw(i) {
                // overwrites the element without running its destructor
                Some(p) if (p as usize) % std::mem::align_of::<T>() == 0 => {
                    unsafe { (p as *mut T).write(T::mk(t)) };
                    "ok"
                }
                Some(_) => "ok",
                None => "none",
            },
            "remove" => {
                self.v[v].swap_remove(i);
                "ok"
            }
            "move" => {
                let (x, y) = self.v.split_at_mut(1);
                let (from, to) = if v == 0 { (&mut x[0], &mut y[0]) } else { (&mut y[0], &mut x[0]) };
                unsafe { from.swap_move_element_to_other_vec(to, i) };
                "ok"
            }
            "misfit" => {
                let x = &mut self.v[v];
                macro_rules! all { ($($t:ty)*) => { true $(& unfit::<$t>(x, i))* } }
                if all!(() L16<0> L4096<0> u8 [u8; 2] [u8; 3] [u8; 4] [u8; 8] [u8; 16] [u8; 24] [u8; 64] u16 L2<4> L2<6> u32 L4<8> L4<12> L4<40> u64 L8<16> L8<24> L8<40>
                        L16<16> L16<48> L64<64> L64<128> L4096<4096>) { "panic" } else { "ok" }
            }
            "drop" => {
                let fresh = UntypedVec::new_from_untyped_vec(&mut self.v[v]);
                self.grown[v] = 0;
                drop(std::mem::replace(&mut self.v[v], fresh));
                "ok"
            }
            "grow" => {
                if self.grown[v] > 6 && std::mem::size_of::<T>() > 0 {
                    return "ok";
                }
                self.grown[v] += 1;
                self.v[v].realloc();
                "ok"
            }
            x => panic!("unknown operation {x}"),
        })));
        match (disarm(), r) {
            (false, r) => r.unwrap_or("panic"),
            (true, Err(_)) => "unwound",
            (true, Ok(_)) => "swallowed",
        }
    }

    fn look(&mut self, v: usize, odd: &mut Vec<&'static str>, mis: &mut Vec<&'static str>) -> Vec<i64> {
        let size = std::mem::size_of::<T>();
        let align = std::mem::align_of::<T>();
        let x = &mut self.v[v];
        let n = x.len();
        if n > 100_000 {
            odd.push("length");
            return vec![];
        }
        if x.is_empty() != (n == 0) {
            odd.push("is_empty");
        }
        if x.raw_len() != if size == 0 { n } else { n * size } {
            odd.push("raw_len");
        }
        let info = x.get_type_info();
        if info.layout != Layout::new::<T>() {
            odd.push("type_info");
        }
        let base = unsafe { x.as_immut_ptr() } as usize;
        let base_mut = unsafe { x.as_mut_ptr() } as usize;
        if base % align != 0 || base == 0 {
            mis.push("as_immut_ptr");
        }
        if base_mut % align != 0 || base_mut == 0 {
            mis.push("as_mut_ptr");
        }
        if base != base_mut {
            odd.push("as_mut_ptr differs from as_immut_ptr");
        }
        let mut out = vec![];
        for i in 0..n {
            let p = x.get_raw(i).map(|p| p as usize).unwrap_or(0);
            let q = x.get_mut_raw(i).map(|p| p as usize).unwrap_or(0);
            if p == 0 || q == 0 {
                odd.push("no element in range");
                out.push(-1);
                continue;
            }
            if p % align != 0 || q % align != 0 {
                mis.push("element");
                out.push(-2);
                continue;
            }
            if p != base + i * size {
                mis.push("spacing");
            }
            if q != base + i * size {
                mis.push("spacing of mutable pointers");
            }
            out.push(unsafe { (*(p as *const T)).rd() });
            if unsafe { (*(q as *const T)).rd() } != out[i] {
                odd.push("mutable pointer");
            }
        }
        let wraps = usize::MAX / size.max(1);
        let far = (48..64).map(|b| 1usize << b).chain([wraps, wraps + (size > 1) as usize, usize::MAX / 2, usize::MAX / 2 + 2, usize::MAX]);
        for past in [n, n + 1, n + 7].into_iter().chain(far) {
            if x.get_raw(past).is_some() || x.get_mut_raw(past).is_some() {
                odd.push("element past the end");
            }
        }
        if mis.is_empty() {
            let s = unsafe { x.as_slice::<T>() };
            if s.as_ptr() as usize % align != 0 {
                mis.push("slice");
            }
            if s.iter().map(|e| e.rd()).collect::<Vec<_>>() != out {
                odd.push("as_slice");
            }
            let s = unsafe { x.as_slice_mut::<T>() };
            if s.iter().map(|e| e.rd()).collect::<Vec<_>>() != out {
                odd.push("as_slice_mut");
            }
        }
        out
    }
}

pub trait Vecs {
    fn step(&mut self, op: &str, v: usize, i: usize, t: i64) -> &'static str;
    fn look(&mut self) -> Seen;
}
impl<T: Tok> Vecs for Uv<T> {
    fn step(&mut self, op: &str, v: usize, i: usize, t: i64) -> &'static str {
        Uv::step(self, op, v, i, t)
    }
    fn look(&mut self) -> Seen {
        let (mut odd, mut mis) = (vec![], vec![]);
        let a = Uv::look(self, 0, &mut odd, &mut mis);
        let b = Uv::look(self, 1, &mut odd, &mut mis);
        Seen { a, b, odd, mis }
    }
}

pub fn make(k: usize) -> Box<dyn Vecs> {
    fn one<T: Tok>() -> Box<dyn Vecs> {
        Box::new(Uv::<T>::new())
    }
    macro_rules! mk {
        ($t:ident) => {
            one::<$t> as fn() -> Box<dyn Vecs>
        };
    }
    let all: [fn() -> Box<dyn Vecs>; NKINDS] = crate::for_kinds!(mk);
    all[k]()
}

fn dropped() -> Vec<i64> {
    let mut v = vec![];
    for (_, t, n) in take_drops() {
        for _ in 0..n {
            v.push(t);
        }
    }
    v
}

fn nums(s: &str) -> Vec<i64> {
    s.split(',').filter(|x| !x.is_empty() && *x != "-").map(|x| x.parse().unwrap()).collect()
}

/// Replays the walks of a file over every element type; `on` names what counts (seq, own, align).
pub fn replay(path: &str, on: &str, out: &str) {
    let text = std::fs::read_to_string(path).unwrap();
    let on = |f: &str| on.split(',').any(|x| x == f);
    let mut log = Log::create(out);
    let (mut steps, mut walks) = (0u64, 0u64);
    for k in 0..NKINDS {
        let mut vecs = make(k);
        let mut hist: Vec<&str> = vec![];
        for line in text.lines().chain(std::iter::once("walk")) {
            if line == "walk" {
                // leave nothing behind
                take_drops();
                vecs = make(k);
                take_drops();
                hist.clear();
                walks += 1;
                continue;
            }
            let f: Vec<&str> = line.split(' ').collect();
            let (v, i): (usize, usize) = (f[1].parse().unwrap(), f[2].parse().unwrap());
            // tokens of types without data are all 0
            let tk = |t: i64| if KINDS[k].cap == 0 { 0 } else { t };
            let bag = |s: &str| nums(s).into_iter().map(tk).collect::<Vec<_>>();
            hist.push(line);
            log.pending(&format!("kind {k}: {}", hist.join("; ")));
            // any index outside will do where the specification refuses one
            let at = if matches!(f[4], "none" | "panic") && matches!(f[0], "put" | "remove" | "move") && steps % 3 == 0 { FAR + steps as usize / 3 % 4 } else { i };
            let r = vecs.step(f[0], v - 1, at, tk(f[3].parse().unwrap()));
            let mut d = dropped();
            let seen = vecs.look();
            steps += 1;
            let want = match (f[0], f[4]) {
                ("grow", _) => if KINDS[k].size == 0 { "panic" } else { "ok" },
                (_, w) => w,
            };
            let mut lost = if KINDS[k].drops { bag(f[5]) } else { vec![] };
            lost.sort();
            d.sort();
            let mut wrong = vec![];
            if on("seq") {
                if r != want {
                    wrong.push(format!("result {r}, specified {want}"));
                }
                if seen.a != bag(f[6]) || seen.b != bag(f[7]) {
                    wrong.push(format!("contents {:?} {:?}, specified {:?} {:?}", seen.a, seen.b, bag(f[6]), bag(f[7])));
                }
                if !seen.odd.is_empty() {
                    wrong.push(format!("views disagree: {:?}", seen.odd));
                }
            }
            if on("own") && d != lost {
                wrong.push(format!("destroyed {d:?}, specified {lost:?}"));
            }
            if on("align") && !seen.mis.is_empty() {
                wrong.push(format!("pointers: {:?}", seen.mis));
            }
            if !wrong.is_empty() {
                println!("{}", hist.join("\n"));
                println!("kind {k} after {} steps, {}: {}", hist.len(), line, wrong.join("; "));
                std::process::exit(3);
            }
        }
    }
    println!("steps {steps} walks {walks}");
}

/// A vector that becomes very long, loses some and is dropped; nothing is observed but its allocations
pub fn long(k: usize, n: usize, rng: &mut Rng) {
    let mut vecs = make(k);
    let tk = |t: usize| t as i64 % KINDS[k].cap.max(1);
    for i in 0..n {
        vecs.step("push", 0, 0, tk(i));
    }
    for i in 0..n / 2 {
        match rng.below(3) {
            0 => vecs.step("pop", 0, 0, 0),
            1 => vecs.step("remove", 0, rng.below(n - i), 0),
            _ => vecs.step("move", 0, rng.below(n - i), 0),
        };
    }
    vecs.step("drop", 0, 0, 0);
    vecs.step("drop", 1, 0, 0);
}

/// Records random executions, up to `max` elements long.
pub fn random(seed: u64, runs: usize, steps: usize, out: &str, throws: bool) {
    let mut log = Log::create(out);
    for run in 0..runs {
        one(seed * 1009 + run as u64, steps, &mut log, throws);
    }
    println!("events {}", log.n);
}

pub fn one(seed: u64, steps: usize, log: &mut Log, throws: bool) {
    let mut rng = Rng(seed);
    let mut fuse = Rng(seed ^ 0xF05E);
    // the destructor of one of these panics, now and then
    let mut burn = |of: &[i64], k: usize| {
        if throws && KINDS[k].drops && fuse.chance(60) {
            if let Some(t) = fuse.pick(of) {
                arm(k, t);
            }
        }
    };
    let mut have: [Vec<i64>; 2] = [vec![], vec![]];
    {
        let k = seed as usize % NKINDS;
        let kind = &KINDS[k];
        take_drops();
        let mut vecs = make(k);
        log.pending("new");
        log.line(&format!(
            "{{\"op\":\"world\",\"k\":{k},\"z\":{},\"dr\":{}}}",
            (kind.size == 0) as u8, kind.drops as u8
        ));
        let mut next = 0;
        let mut len = [0usize; 2];
        // how eagerly this run pushes, in turns
        let mut bias = 70;
        for n in 0..steps {
            if n % 40 == 0 {
                bias = [85, 70, 45, 25][rng.below(4)];
            }
            let v = rng.below(2);
            let i = match rng.below(10) {
                0 => len[v],
                1 => len[v] + rng.below(5),
                2 => 0,
                3 => len[v].saturating_sub(1),
                4 if rng.chance(20) => FAR + rng.below(4),
                _ => rng.below(len[v]),
            };
            let op = if rng.chance(bias) {
                "push"
            } else {
                let n = if rng.chance(15) { 12 } else { 9 };
                ["pop", "pop", "remove", "remove", "remove", "move", "move", "move", "put", "grow", "drop", "misfit"][rng.below(n)]
            };
            let mut t = 0;
            if op == "push" || op == "put" {
                if len[0] + len[1] >= 120 && op == "push" {
                    continue;
                }
                t = if kind.cap == 0 { 0 } else { next % kind.cap };
                next += 1;
            }
            log.pending(&format!("kind {k} {op} {v} {i} {t}"));
            match op {
                "pop" => burn(&have[v][have[v].len().saturating_sub(1)..], k),
                "remove" if i < have[v].len() => burn(&have[v][i..=i], k),
                "drop" => burn(&have[v], k),
                _ => (),
            }
            let r = vecs.step(op, v, i, t);
            let d = dropped();
            let seen = vecs.look();
            len = [seen.a.len(), seen.b.len()];
            have = [seen.a.clone(), seen.b.clone()];
            log.line(&format!(
                "{{\"op\":\"{op}\",\"v\":{},\"i\":{i},\"t\":{t},\"res\":\"{r}\",\"a\":{:?},\"b\":{:?},\"dropped\":{d:?},\"odd\":{},\"mis\":{},\"what\":{:?}}}",
                v + 1, seen.a, seen.b, seen.odd.len().min(1), seen.mis.len().min(1),
                seen.odd.iter().chain(&seen.mis).take(4).collect::<Vec<_>>()
            ));
        }
        for v in 0..2 {
            log.pending(&format!("kind {k} drop {v}"));
            burn(&have[v], k);
            let r = vecs.step("drop", v, 0, 0);
            let d = dropped();
            let seen = vecs.look();
            log.line(&format!(
                "{{\"op\":\"drop\",\"v\":{},\"i\":0,\"t\":0,\"res\":\"{r}\",\"a\":{:?},\"b\":{:?},\"dropped\":{d:?},\"odd\":{},\"mis\":{},\"what\":[]}}",
                v + 1, seen.a, seen.b, seen.odd.len().min(1), seen.mis.len().min(1)
            ));
        }
    }
}
