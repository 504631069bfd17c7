//! Many entities and many generations: operations in bulk on one world, one event for each bulk, judged by BulkTrace.
//! Two components, V (a value with a destructor) and Z (no data); a component set is a mask, 1 for V and 2 for Z.
use crate::driver::Log;
use crate::kinds::Rng;
use arche_tape::{EcsId, EcsIds, FetchType, World};
use std::collections::HashMap;
use std::panic::{catch_unwind, AssertUnwindSafe};
use std::sync::atomic::{AtomicI64, Ordering::*};

static LIVE: AtomicI64 = AtomicI64::new(0);

#[repr(C)]
struct V(u64, u32);
impl V {
    fn new(v: u64) -> V {
        LIVE.fetch_add(1, Relaxed);
        V(v, !v as u32)
    }
    fn ok(&self, v: u64) -> bool {
        self.0 == v && self.1 == !v as u32
    }
}
impl Drop for V {
    fn drop(&mut self) {
        LIVE.fetch_sub(1, Relaxed);
    }
}
struct Z;

struct Bulk {
    w: World,
    held: Vec<EcsId>,
    /// held entity -> position in held, mask, value
    of: HashMap<u64, (usize, u8, u64)>,
    v: EcsId,
    z: EcsId,
    ids: Vec<u64>,
    stale: Vec<EcsId>,
    slots: usize,
    next: u64,
    odd: usize,
    rng: Rng,
}

const WINDOW: usize = 620;

impl Bulk {
    fn spawn(&mut self, mask: u8, build: bool) -> Option<EcsId> {
        self.next += 1;
        let v = self.next;
        let b = if self.next % 7 == 0 { self.w.spawn_with_capacity((self.next % 64) as usize) } else { self.w.spawn() };
        let b = match mask {
            0 => b,
            1 => b.with(V::new(v)),
            2 => b.with(Z),
            _ if v % 2 == 0 => b.with(V::new(v)).with(Z),
            _ => b.with(Z).with(V::new(v)),
        };
        if !build {
            drop(b);
            return None;
        }
        let id = b.build();
        self.ids.push(id.as_u64());
        self.slots = self.slots.max(id.uindex() + 1);
        Some(id)
    }
    fn forget(&mut self, id: EcsId) {
        let n = self.ids.len();
        let near = n.next_power_of_two() - n <= 2 || n - n.next_power_of_two() / 2 <= 2;
        if self.stale.len() < WINDOW || near || (self.stale.len() < 3000 && self.rng.chance(1)) {
            self.stale.push(id);
        }
    }
    /// Everything a stale id can still be observed to do
    fn poke(&mut self, id: EcsId) -> bool {
        let mut odd = self.w.is_alive(id) || self.w.has_component::<V>(id) || self.w.has_component::<Z>(id);
        odd |= self.w.query::<(EcsIds, &V)>().get(id).is_some();
        odd |= self.w.get_entity_meta(id).is_some();
        odd |= self.w.get_component_mut_dynamic(id, self.v).is_some();
        // inert, or it would throw away someone else's component
        let z = self.z;
        self.w.remove_component_dynamic(id, z);
        odd | self.w.despawn(id)
    }
    fn poke_all(&mut self) {
        for n in 0..self.stale.len() {
            let id = self.stale[n];
            self.odd += self.poke(id) as usize;
        }
    }
    fn pick(&mut self, mask: u8, how: usize) -> Option<EcsId> {
        let fits = |s: &Self, id: &EcsId| s.of[&id.as_u64()].1 == mask;
        match how {
            0 => (0..self.held.len()).rev().map(|n| self.held[n]).find(|id| fits(self, id)),
            1 => self.held.iter().copied().find(|id| fits(self, id)),
            _ => {
                let from = self.rng.below(self.held.len().max(1));
                (0..self.held.len()).map(|n| self.held[(from + n) % self.held.len()]).find(|id| fits(self, id))
            }
        }
    }
    fn hold(&mut self, id: EcsId, mask: u8, v: u64) {
        self.of.insert(id.as_u64(), (self.held.len(), mask, v));
        self.held.push(id);
    }
    fn unhold(&mut self, id: EcsId) {
        let (n, ..) = self.of.remove(&id.as_u64()).unwrap();
        self.held.swap_remove(n);
        if let Some(m) = self.held.get(n) {
            self.of.get_mut(&m.as_u64()).unwrap().0 = n;
        }
    }
    /// true when all went as it should
    fn step(&mut self, op: &str, n: usize, mask: u8, to: u8, how: usize) -> usize {
        let mut done = 0;
        for i in 0..n {
            match op {
                "grow" => {
                    let id = self.spawn(mask, true).unwrap();
                    let v = self.next;
                    self.hold(id, mask, v);
                    done += 1;
                }
                "abandon" => {
                    self.spawn(mask, false);
                    done += 1;
                }
                "cycle" => {
                    let id = self.spawn(mask, true).unwrap();
                    let c = self.ids.len();
                    self.odd += !self.w.is_alive(id) as usize;
                    // stale ids are looked at often at first, and around every power of two
                    let past = c - if c.is_power_of_two() { c } else { c.next_power_of_two() / 2 };
                    if (past <= WINDOW && (c < 5000 || c >= 60_000)) || i % 50_000 == 0 {
                        for n in 0..self.stale.len() {
                            let s = self.stale[n];
                            if s.index() == id.index() {
                                self.odd += (self.w.is_alive(s) || self.w.has_component::<V>(s) || self.w.despawn(s)) as usize;
                            }
                        }
                    }
                    done += self.w.despawn(id) as usize;
                    self.forget(id);
                }
                "shrink" => match self.pick(mask, how) {
                    Some(id) => {
                        done += self.w.despawn(id) as usize;
                        self.unhold(id);
                        self.forget(id);
                    }
                    None => return done,
                },
                "move" => match self.pick(mask, how) {
                    Some(id) => {
                        let e = self.of.get_mut(&id.as_u64()).unwrap();
                        if (mask ^ to) & 1 != 0 {
                            if to & 1 != 0 {
                                self.next += 1;
                                e.2 = self.next;
                                self.w.add_component(id, V::new(self.next));
                            } else {
                                self.w.remove_component::<V>(id);
                            }
                        }
                        if (mask ^ to) & 2 != 0 {
                            if to & 2 != 0 {
                                self.w.add_component(id, Z);
                            } else {
                                self.w.remove_component_dynamic(id, self.z);
                            }
                        }
                        e.1 = to;
                        done += 1;
                    }
                    None => return done,
                },
                "write" => match self.pick(mask, 2) {
                    Some(id) => {
                        self.next += 1;
                        let e = self.of.get_mut(&id.as_u64()).unwrap();
                        e.2 = self.next;
                        let (a, b) = (self.next, !self.next as u32);
                        if how == 0 {
                            let mut q = self.w.query::<(&mut V,)>();
                            let (v,) = q.get(id).unwrap();
                            (v.0, v.1) = (a, b);
                        } else {
                            let p = self.w.get_component_mut_dynamic(id, self.v).unwrap() as *mut V;
                            unsafe { ((*p).0, (*p).1) = (a, b) };
                        }
                        done += 1;
                    }
                    None => return done,
                },
                _ => unreachable!(),
            }
        }
        done
    }

    fn see(&self, seen: &mut Vec<bool>, mask: u8, id: EcsId, v: Option<&V>) -> usize {
        match self.of.get(&id.as_u64()) {
            Some(&(n, m, want)) => {
                let twice = std::mem::replace(&mut seen[n], true);
                (twice || m & mask != mask || v.map_or(false, |v| !v.ok(want))) as usize
            }
            None if mask == 0 && (id == self.v || id == self.z) => 0,
            None => 1,
        }
    }
    fn observe(&mut self) -> String {
        let alive = self.held.iter().filter(|e| self.w.is_alive(**e)).count()
            + [self.v, self.z].iter().filter(|e| self.w.is_alive(**e)).count();
        self.poke_all();
        let mut out = vec![];
        for mask in 0..4u8 {
            let mut seen = vec![false; self.held.len()];
            let (mut n, mut bad) = (0, 0);
            macro_rules! go {
                ($q:ty, $p:pat, $id:expr, $v:expr) => {
                    for $p in self.w.query::<$q>().iter() {
                        n += 1;
                        bad += self.see(&mut seen, mask, $id, $v);
                    }
                };
            }
            match mask {
                0 => go!((EcsIds,), (e,), e, None),
                1 => go!((EcsIds, &V), (e, v), e, Some(v)),
                2 => go!((&mut Z, EcsIds), (_, e), e, None),
                _ => go!((&Z, &mut V, EcsIds), (_, v, e), e, Some(v)),
            }
            out.push(format!("[{mask},{n},{bad}]"));
        }
        let (mut dy, mut co) = (vec![], vec![]);
        for mask in 1..4u8 {
            let mut seen = vec![false; self.held.len()];
            let (mut n, mut bad) = (0, 0);
            let other = if mask & 1 == 1 { self.v } else { self.z };
            let last = if mask & 2 == 2 { self.z } else { self.v };
            let val = |p: *mut u8| if mask & 1 == 1 { Some(unsafe { &*(p as *const V) }) } else { None };
            let mut q = self.w.query_dynamic([FetchType::Immut(other), FetchType::EcsId, FetchType::Immut(last)]);
            // (naming one component twice is fine for readers)
            for [p, e, _] in q.iter() {
                n += 1;
                bad += self.see(&mut seen, mask, unsafe { *(e as *const EcsId) }, val(p));
            }
            dy.push(format!("[{mask},{n},{bad}]"));
            let mut seen = vec![false; self.held.len()];
            let (mut n, mut bad) = (0, 0);
            for [p, e, z] in q.column_iter() {
                let part = |x: &_| unsafe { std::mem::transmute_copy::<_, (*mut u8, usize)>(x) };
                let ((p, a), (e, b), (_, c)) = (part(&p), part(&e), part(&z));
                bad += (a != b || b != c) as usize;
                for r in 0..a.min(b) {
                    n += 1;
                    let e = unsafe { *(e as *const EcsId).add(r) };
                    let v = if mask & 1 == 1 { Some(unsafe { &*(p as *const V).add(r) }) } else { None };
                    bad += self.see(&mut seen, mask, e, v);
                }
            }
            co.push(format!("[{mask},{n},{bad}]"));
        }
        let (mut n, mut bad, mut has) = (0, 0, 0);
        let mut q = self.w.query::<(&V, EcsIds)>();
        for &id in &self.held {
            let (_, m, want) = self.of[&id.as_u64()];
            has += (self.w.has_component::<V>(id) != (m & 1 == 1)) as usize;
            has += (self.w.has_component::<Z>(id) != (m & 2 == 2)) as usize;
            if let Some((v, e)) = q.get(id) {
                n += 1;
                bad += (m & 1 == 0 || e != id || !v.ok(want)) as usize;
            }
        }
        drop(q);
        let mut at: Vec<(usize, usize)> = vec![];
        let mut groups: HashMap<usize, u8> = HashMap::new();
        let mut off = 0;
        for &id in self.held.iter().chain([&self.v, &self.z]) {
            let m = self.of.get(&id.as_u64()).map_or(0, |x| x.1);
            if let Some(x) = self.w.get_entity_meta(id) {
                at.push((x.instance_meta.archetype.0, x.instance_meta.index));
                off += (*groups.entry(x.instance_meta.archetype.0).or_insert(m) != m) as usize;
            }
        }
        at.sort();
        at.dedup();
        format!(
            r#""alive":{alive},"odd":{},"slots":{},"q":[{}],"d":[{}],"c":[{}],"get":[{n},{bad}],"has":{has},"at":{},"groups":{},"off":{off},"live":{}"#,
            self.odd,
            self.slots,
            out.join(","),
            dy.join(","),
            co.join(","),
            at.len(),
            groups.len(),
            LIVE.load(SeqCst)
        )
    }
}

/// variant 0: one slot, very many generations; 1: very many entities; otherwise moderate mixes
pub fn run(seed: u64, variant: usize, depth: usize, path: &str) {
    let mut log = Log::create(path);
    let mut rng = Rng((seed * 64 + variant as u64).wrapping_mul(0x9E3779B97F4A7C15) ^ 0x5DEECE66D);
    rng.next();
    LIVE.store(0, SeqCst);
    let mut w = World::new();
    let (v, z) = if rng.chance(50) {
        let v = w.get_or_create_type_id_ecsid::<V>();
        (v, w.get_or_create_type_id_ecsid::<Z>())
    } else {
        let z = w.get_or_create_type_id_ecsid::<Z>();
        (w.get_or_create_type_id_ecsid::<V>(), z)
    };
    let slots = v.uindex().max(z.uindex()) + 1;
    let mut b = Bulk {
        w,
        held: vec![],
        of: HashMap::new(),
        v,
        z,
        ids: vec![v.as_u64(), z.as_u64()],
        stale: vec![],
        slots,
        next: 0,
        odd: 0,
        rng: Rng(rng.next()),
    };
    let first = b.observe();
    log.line(&format!(r#"{{"op":"world","variant":{variant},{first}}}"#));
    let mut script: Vec<(&str, usize, u8, u8, usize)> = vec![];
    match variant {
        0 => {
            script.push(("grow", 1 + rng.below(3), 3, 0, 0));
            // with the ids of two types and the ones just made, every power of two up to the depth is passed
            for n in [700, 70_000, depth] {
                script.push(("cycle", n, if n < 100 { 3 } else { (rng.below(2)) as u8 }, 0, 0));
            }
            script.push(("grow", 2, 1, 0, 0));
        }
        1 => {
            let mask = 1 + rng.below(3) as u8;
            script.push(("grow", 66_000 + rng.below(3000), mask, 0, 0));
            if mask & 1 == 1 {
                script.push(("write", 300, mask, 0, 0));
            }
            script.push(("move", 300, mask, 3 - mask % 3, 2));
            script.push(("shrink", 4000, mask, 0, 2));
            script.push(("grow", 3500, 1, 0, 0));
            script.push(("shrink", 60_000, mask, 0, 0));
            script.push(("abandon", 600, 3, 0, 0));
            script.push(("grow", 5000, 0, 0, 0));
        }
        _ => {
            let big = [300, 700, 1500, 3000][rng.below(4)];
            for _ in 0..24 {
                let n = 1 + if rng.chance(50) { rng.below(12) } else { rng.below(big) };
                let (m, t) = (rng.below(4) as u8, rng.below(4) as u8);
                let op = ["grow", "grow", "grow", "shrink", "shrink", "move", "move", "cycle", "abandon", "write"][rng.below(10)];
                script.push((op, n, if op == "write" { m | 1 } else { m }, t, rng.below(3)));
            }
        }
    }
    for (op, n, mask, to, how) in script {
        // at most as many as there are
        let there = b.of.values().filter(|x| x.1 == mask).count();
        let n = match op {
            "shrink" | "move" => n.min(there),
            "write" if there == 0 => 0,
            _ => n,
        };
        if op == "move" && to == mask {
            continue;
        }
        log.pending(&format!("{op} {n} of {mask} to {to}"));
        let r = catch_unwind(AssertUnwindSafe(|| {
            let done = b.step(op, n, mask, to, how);
            (done, b.observe())
        }));
        match r {
            Ok((done, o)) => log.line(&format!(r#"{{"op":"{op}","n":{n},"s":{mask},"to":{to},"done":{done},{o}}}"#)),
            Err(_) => {
                log.line(&format!(r#"{{"op":"panic","in":"{op}"}}"#));
                println!("events {}", log.n);
                std::process::exit(0);
            }
        }
    }
    b.ids.sort_unstable();
    b.ids.dedup();
    let ids = b.ids.len();
    drop(b.w);
    log.line(&format!(r#"{{"op":"end","ids":{ids},"live":{}}}"#, LIVE.load(SeqCst)));
    println!("events {}", log.n);
}
