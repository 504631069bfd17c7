//! Very many component sets: one world with up to tens of thousands of archetypes, looked at through queries over single
//! components and groups of them, judged by WideTrace. Component 0 is V (a value with a destructor), 1 is Z (a type
//! without data), the others are tags (entities). Entities are numbered in the order they were made; a set is a mask.
use crate::driver::Log;
use crate::kinds::Rng;
use arche_tape::{EcsId, EcsIds, FetchType, World};
use std::collections::HashMap;
use std::panic::{catch_unwind, AssertUnwindSafe};
use std::sync::atomic::{AtomicI64, Ordering::*};

static LIVE: AtomicI64 = AtomicI64::new(0);

#[repr(C)]
struct V(u32, u64);
impl V {
    fn new(v: u64) -> V {
        LIVE.fetch_add(1, Relaxed);
        V(!v as u32, v)
    }
    fn ok(&self, v: u64) -> bool {
        self.1 == v && self.0 == !v as u32
    }
}
impl Drop for V {
    fn drop(&mut self) {
        LIVE.fetch_sub(1, Relaxed);
    }
}
struct Z;

struct Wide {
    w: World,
    comps: Vec<EcsId>,
    gone: u32,
    ids: Vec<EcsId>,
    of: HashMap<u64, usize>,
    mask: Vec<i64>,
    val: Vec<u64>,
    next: u64,
    rng: Rng,
}

impl Wide {
    fn value(&mut self) -> u64 {
        self.next += 1;
        self.next
    }
    fn make(&mut self, mask: i64) {
        let v = self.value();
        let mut order: Vec<usize> = (0..self.comps.len()).filter(|c| mask >> c & 1 == 1).collect();
        self.rng.shuffle(&mut order);
        let typed_z = self.rng.chance(50);
        let comps = self.comps.clone();
        let mut b = if v % 5 == 0 { self.w.spawn_with_capacity((v % 40) as usize) } else { self.w.spawn() };
        for c in order {
            b = match c {
                0 => b.with(V::new(v)),
                1 if typed_z => b.with(Z),
                _ => b.with_dynamic(comps[c]),
            };
        }
        let id = b.build();
        self.of.insert(id.as_u64(), self.ids.len());
        self.ids.push(id);
        self.mask.push(mask);
        self.val.push(v);
    }
    fn flip(&mut self, n: usize, c: usize) {
        let (e, id) = (self.ids[n], self.comps[c]);
        let has = self.mask[n] >> c & 1 == 1;
        let typed = self.rng.chance(50);
        match (c, has) {
            (0, false) => {
                let v = self.value();
                self.val[n] = v;
                self.w.add_component(e, V::new(v))
            }
            (1, false) if typed => self.w.add_component(e, Z),
            (0, true) if typed => self.w.remove_component::<V>(e),
            (1, true) if typed => self.w.remove_component::<Z>(e),
            (_, true) => self.w.remove_component_dynamic(e, id),
            _ => self.w.add_component_dynamic(e, id),
        }
        self.mask[n] ^= 1 << c;
    }
    fn alive(&self) -> impl Iterator<Item = usize> + '_ {
        (0..self.ids.len()).filter(|n| self.mask[*n] >= 0)
    }
    /// The number of an entity seen in a row, something else for a row that is wrong
    fn row(&self, e: EcsId, v: Option<&V>) -> i64 {
        match self.of.get(&e.as_u64()) {
            Some(&n) if v.map_or(true, |v| v.ok(self.val[n])) => n as i64,
            Some(&n) => -1 - n as i64,
            None if self.comps.contains(&e) => -2_000_000,
            None => -3_000_000,
        }
    }
    fn dynamic<const N: usize>(&mut self, q: &[Option<usize>], cols: bool) -> Vec<i64> {
        let f: [FetchType; N] = std::array::from_fn(|i| match q[i] {
            None => FetchType::EcsId,
            Some(c) if self.next % 2 == 0 => FetchType::Mut(self.comps[c]),
            Some(c) => FetchType::Immut(self.comps[c]),
        });
        let at = q.iter().position(|x| x.is_none()).unwrap();
        let v = q.iter().position(|x| *x == Some(0));
        let mut out = vec![];
        let mut query = self.w.query_dynamic(f);
        if cols {
            for chunk in query.column_iter() {
                let part = |x: &_| unsafe { std::mem::transmute_copy::<_, (*mut u8, usize)>(x) };
                let parts: Vec<(*mut u8, usize)> = chunk.iter().map(part).collect();
                let len = parts[at].1;
                if parts.iter().any(|p| p.1 != len) {
                    out.push(-4_000_000);
                    continue;
                }
                for r in 0..len {
                    let e = unsafe { *(parts[at].0 as *const EcsId).add(r) };
                    out.push(self.row(e, v.map(|i| unsafe { &*(parts[i].0 as *const V).add(r) })));
                }
            }
        } else {
            for row in query.iter() {
                let e = unsafe { *(row[at] as *const EcsId) };
                out.push(self.row(e, v.map(|i| unsafe { &*(row[i] as *const V) })));
            }
        }
        out
    }
    fn look(&mut self, q: &[usize], how: &str) -> Vec<i64> {
        let mut out = vec![];
        match how {
            "t" => match q {
                [0] => self.w.query::<(&V, EcsIds)>().iter().for_each(|(v, e)| out.push(self.row(e, Some(v)))),
                [1] => self.w.query::<(EcsIds, &mut Z)>().iter().for_each(|(e, _)| out.push(self.row(e, None))),
                _ => self.w.query::<(EcsIds, &mut V, &Z)>().iter().for_each(|(e, v, _)| out.push(self.row(e, Some(v)))),
            },
            "g" => {
                macro_rules! get {
                    ($q:ty, $p:pat => $r:expr) => {{
                        let mut query = self.w.query::<$q>();
                        for &id in self.ids.iter() {
                            if let Some($p) = query.get(id) {
                                out.push($r)
                            }
                        }
                    }};
                }
                match q {
                    [0] => get!((EcsIds, &V), (e, v) => self.row(e, Some(v))),
                    [1] => get!((&Z, EcsIds), (_, e) => self.row(e, None)),
                    _ => get!((&mut Z, &V, EcsIds), (_, v, e) => self.row(e, Some(v))),
                }
            }
            "h" => {
                let has = |n: usize| match q {
                    [0] => self.w.has_component::<V>(self.ids[n]),
                    [1] => self.w.has_component::<Z>(self.ids[n]),
                    _ => self.w.has_component::<V>(self.ids[n]) && self.w.has_component::<Z>(self.ids[n]),
                };
                out = (0..self.ids.len()).filter(|n| has(*n)).map(|n| n as i64).collect();
            }
            "m" => {
                // every component is there
                for n in 0..self.ids.len() {
                    let (id, cs) = (self.ids[n], self.comps.clone());
                    if q.iter().all(|c| self.w.get_component_mut_dynamic(id, cs[*c]).is_some()) {
                        out.push(n as i64)
                    }
                }
            }
            _ => {
                self.next += 1;
                let mut cols: Vec<Option<usize>> = q.iter().map(|c| Some(*c)).collect();
                let at = self.rng.below(cols.len() + 1);
                cols.insert(at, None);
                let c = how == "c";
                out = match cols.len() {
                    2 => self.dynamic::<2>(&cols, c),
                    3 => self.dynamic::<3>(&cols, c),
                    4 => self.dynamic::<4>(&cols, c),
                    5 => self.dynamic::<5>(&cols, c),
                    6 => self.dynamic::<6>(&cols, c),
                    _ => self.dynamic::<7>(&cols, c),
                };
            }
        }
        out.sort();
        out
    }
    fn live_comps(&self) -> Vec<usize> {
        (0..self.comps.len()).filter(|c| self.gone >> c & 1 == 0).collect()
    }
}

fn txt<T: std::fmt::Display>(v: &[T]) -> String {
    format!("[{}]", v.iter().map(|x| x.to_string()).collect::<Vec<_>>().join(","))
}

/// tags: how many, so up to 2^(tags+2) sets; dummies: entities made first so that the tags have far slots
pub fn run(seed: u64, tags: usize, path: &str) {
    let mut log = Log::create(path);
    let mut rng = Rng((seed * 64 + tags as u64).wrapping_mul(0x9E3779B97F4A7C15) ^ 0xFACADE);
    rng.next();
    if tags >= 100 {
        for _ in 0..tags - 100 {
            if !one(&mut rng, 12, true, &mut log) {
                break;
            }
        }
    } else {
        one(&mut rng, tags, false, &mut log);
    }
    println!("events {}", log.n);
}

/// Which of n groups have a component: few or nearly all, at or around multiples of a power of two
fn pattern(rng: &mut Rng, n: usize) -> Vec<bool> {
    let near = |rng: &mut Rng| (rng.below(n / 32 + 2) * 32 + rng.below(5)).saturating_sub(3).min(n - 1);
    let mut v = vec![false; n];
    match rng.below(8) {
        0 => v[near(rng)] = true,
        1 => (0..3).for_each(|_| v[near(rng)] = true),
        2 => {
            let from = near(rng);
            v[from..].iter_mut().for_each(|x| *x = true)
        }
        3 => {
            let to = near(rng);
            v[..to].iter_mut().for_each(|x| *x = true)
        }
        4 => {
            let (a, b) = (near(rng), near(rng));
            v[a.min(b)..a.max(b)].iter_mut().for_each(|x| *x = true)
        }
        5 => {
            let by = [2, 3, 31, 32, 63, 64, 65][rng.below(7)];
            v.iter_mut().step_by(by).for_each(|x| *x = true)
        }
        6 => (),
        _ => v.iter_mut().for_each(|x| *x = rng.chance(85)),
    }
    if rng.chance(25) {
        v.iter_mut().for_each(|x| *x = !*x);
    }
    v
}

/// The first of the components whose groups are chosen by `pattern` are these many; the others make each group another
const PATTERNS: usize = 5;

fn one(rng: &mut Rng, tags: usize, sparse: bool, log: &mut Log) -> bool {
    LIVE.store(0, SeqCst);
    let mut w = World::new();
    let mut dummies = [0, 0, 60, 300, 5000, 70_000][rng.below(6)];
    if tags > 13 {
        dummies = 0;
    }
    for _ in 0..dummies {
        w.spawn().build();
    }
    let mut comps = vec![w.get_or_create_type_id_ecsid::<V>(), w.get_or_create_type_id_ecsid::<Z>()];
    for _ in 0..tags {
        comps.push(w.spawn().build());
    }
    let mut s = Wide { w, comps, gone: 0, ids: vec![], of: HashMap::new(), mask: vec![], val: vec![], next: 0, rng: Rng(rng.next()) };
    log.line(&format!(r#"{{"op":"world","tags":{tags},"dummies":{dummies}}}"#));
    let huge = tags > 13;
    // first: very many sets, by builders or by one entity that walks through them
    let total = 1i64 << (tags + 2);
    let steps = if huge { 14 } else if sparse { 30 } else { 45 };
    for step in 0..steps {
        let op = match step {
            0 if sparse => "make",
            0 => ["make", "make", "walk"][rng.below(if huge { 1 } else { 3 })],
            1 => "where",
            2..=7 | 11.. if huge => "look",
            2..=8 if sparse => "look",
            _ if sparse => ["make", "flip", "kill", "untag", "tag", "look", "look", "look", "look", "look"][rng.below(10)],
            _ => ["make", "flip", "flip", "flip", "kill", "walk", "untag", "tag", "write", "look", "look", "look", "look", "where", "look", "look"][rng.below(16)],
        };
        let live = s.live_comps();
        let dead: i64 = (0..s.comps.len() as i64).filter(|c| s.gone >> c & 1 == 1).map(|c| 1i64 << c).sum();
        let some = |s: &Wide, rng: &mut Rng| {
            let m = [1, 2, 3, 7, 20][rng.below(5)];
            let r = rng.below(m);
            let v: Vec<usize> = s.alive().filter(|n| n % m == r).collect();
            (m, r, v)
        };
        log.pending(op);
        let at = std::cell::Cell::new("");
        let done = catch_unwind(AssertUnwindSafe(|| match op {
            "make" => {
                let (from, n) = match step {
                    _ if sparse => (0, 0),
                    0 if huge => (0, total.min(66_500)),
                    0 => (0, total),
                    _ => (rng.below(total as usize) as i64, 1 + rng.below(60) as i64),
                };
                let mul = if huge { 1 } else { [1, 1, 3, 5][rng.below(4)] };
                let mut masks: Vec<i64> = (from..from + n).map(|i| (i * mul) % total & !dead).collect();
                if sparse {
                    let n = [1, 2, 31, 33, 62, 63, 64, 65, 66, 126, 127, 128, 129, 130, 190, 191, 192, 193, 194, 257, 300][rng.below(21)];
                    let which: Vec<Vec<bool>> = (0..PATTERNS).map(|_| pattern(rng, n)).collect();
                    let code = rng.below(512 - n);
                    masks = (0..n).map(|i| (0..PATTERNS).map(|p| (which[p][i] as i64) << p).sum::<i64>() | ((code + i) as i64) << PATTERNS).collect();
                    masks.iter_mut().for_each(|m| *m &= !dead);
                }
                for m in &masks {
                    s.make(*m);
                }
                Some(format!(r#""masks":{}"#, txt(&masks)))
            }
            "walk" => {
                let n = match s.alive().last() {
                    Some(n) => n,
                    None => {
                        s.make(0);
                        log.line(r#"{"op":"make","masks":[0],"live":0}"#);
                        s.ids.len() - 1
                    }
                };
                let mut order = live.clone();
                rng.shuffle(&mut order);
                let len = if step == 0 { total.min(9000) as usize } else { 1 + rng.below(300) };
                let seq: Vec<usize> = (1..len).map(|i| order[i.trailing_zeros() as usize % order.len()]).collect();
                for c in &seq {
                    s.flip(n, *c);
                }
                Some(format!(r#""e":{n},"seq":{}"#, txt(&seq)))
            }
            "flip" => {
                let c = rng.pick(&live).unwrap();
                let (m, r, v) = some(&s, rng);
                for n in &v {
                    s.flip(*n, c);
                }
                Some(format!(r#""c":{c},"m":{m},"r":{r}"#))
            }
            "kill" => {
                let (m, r, mut v) = some(&s, rng);
                if m < 7 {
                    return None;
                }
                rng.shuffle(&mut v);
                let mut odd = 0;
                for n in v {
                    odd += !s.w.despawn(s.ids[n]) as usize + s.w.is_alive(s.ids[n]) as usize;
                    s.mask[n] = -1;
                }
                Some(format!(r#""m":{m},"r":{r},"odd":{odd}"#))
            }
            "untag" => {
                let c = rng.pick(&live).unwrap();
                if c < 2 || live.len() < 4 {
                    return None;
                }
                let odd = !s.w.despawn(s.comps[c]) as usize;
                s.gone |= 1 << c;
                for m in s.mask.iter_mut().filter(|m| **m >= 0) {
                    *m &= !(1 << c);
                }
                Some(format!(r#""c":{c},"odd":{odd}"#))
            }
            "tag" => {
                if s.comps.len() >= 28 {
                    return None;
                }
                let id = s.w.spawn().build();
                s.comps.push(id);
                Some(format!(r#""c":{}"#, s.comps.len() - 1))
            }
            "write" => {
                let mut new = HashMap::new();
                let mut next = s.next;
                for (e, v) in s.w.query::<(EcsIds, &mut V)>().iter() {
                    next += 1;
                    (v.0, v.1) = (!next as u32, next);
                    new.insert(e.as_u64(), next);
                }
                s.next = next;
                for (e, v) in new {
                    if let Some(n) = s.of.get(&e) {
                        s.val[*n] = v;
                    }
                }
                Some(String::from(r#""c":0"#))
            }
            "look" => {
                let mut how = ["t", "g", "h", "m", "d", "d", "c", "c", "d", "c"][rng.below(10)];
                if huge {
                    // every way to look is used while nearly all the sets are there
                    how = ["t", "d", "c", "g", "t", "m", "h"][(step - 2) % 7];
                }
                let mut q: Vec<usize> = match how {
                    "t" | "g" | "h" => [vec![0], vec![1], vec![0, 1]][rng.below(3)].clone(),
                    _ => {
                        let mut v = if sparse && rng.chance(85) { (0..PATTERNS).collect() } else if rng.chance(12) { (0..s.comps.len()).collect() } else { live.clone() };
                        rng.shuffle(&mut v);
                        v.truncate(1 + rng.below(6));
                        v
                    }
                };
                if how == "m" && huge {
                    q.truncate(2);
                }
                at.set(how);
                let rows = s.look(&q, how);
                Some(format!(r#""how":"{how}","q":{},"rows":{}"#, txt(&q), txt(&rows)))
            }
            _ => {
                let mut at = vec![];
                for n in 0..s.ids.len() {
                    if let Some(x) = s.w.get_entity_meta(s.ids[n]) {
                        at.push(format!("[{n},{},{}]", x.instance_meta.archetype.0, x.instance_meta.index));
                    }
                }
                Some(format!(r#""at":{}"#, txt(&at)))
            }
        }));
        match done {
            Ok(None) => (),
            Ok(Some(x)) => log.line(&format!(r#"{{"op":"{op}",{x},"live":{}}}"#, LIVE.load(SeqCst))),
            Err(_) => {
                log.line(&format!(r#"{{"op":"panic","in":"{op}","how":"{}"}}"#, at.get()));
                std::mem::forget(s);
                return false;
            }
        }
    }
    drop(s.w);
    log.line(&format!(r#"{{"op":"end","live":{}}}"#, LIVE.load(SeqCst)));
    true
}
