//! Interpreter for operations on one `World`, logging one event per operation.
//!
//! Handles are dense numbers given to ids in the order they were first returned. The shadow state below only serves to
//! choose interesting operations and to know how to read a component's bytes; every verdict is the specification's.
use crate::alloc::{api, outside};
use crate::kinds::*;
use crate::query::*;
use crate::shapes::SHAPES;
use crate::toks::*;
use arche_tape::{world::ComponentMeta, EcsId, World};
use std::collections::{BTreeMap, BTreeSet, HashMap};
use std::fmt::Write as _;
use std::fs::File;
use std::io::Write as _;
use std::os::unix::fs::FileExt;
use std::panic::{catch_unwind, resume_unwind, AssertUnwindSafe};

pub type H = usize;

#[derive(Clone, Debug)]
pub enum Part {
    T(usize),
    U(H),
    V(H),
}

#[derive(Clone, Debug)]
pub enum Op {
    New { md: Option<(usize, bool)>, parts: Vec<Part>, cap: Option<usize>, build: bool },
    Despawn(H),
    Add(H, usize),
    AddU(H, H),
    AddV(H, H),
    Rem(H, usize),
    RemD(H, H),
    Reg(usize),
    Alive(H),
    Has(H, usize),
    Getd(H, H),
    Setd(H, H),
    Q { shape: usize, write: usize, stop: Option<usize> },
    QG { shape: usize, e: H, write: bool },
    Dq(Vec<Option<(u8, H)>>, bool),
    Dc(Vec<Option<(u8, H)>>, bool),
    Meta(H),
    Snap,
    Addr,
    Full,
}

#[derive(Clone, Copy, Debug)]
pub struct Desc {
    /// kind, or -1 for an entity that holds no data as a component
    pub k: i64,
    pub drops: bool,
}

pub struct Log {
    pub out: File,
    pub pending: File,
    pub n: usize,
    /// where the lines go that are for later
    pub aside: Option<String>,
}
impl Log {
    pub fn create(path: &str) -> Log {
        Log {
            out: File::create(path).unwrap(),
            pending: File::create(format!("{path}.pending")).unwrap(),
            n: 0,
            aside: None,
        }
    }
    pub fn pending(&mut self, s: &str) {
        let mut b = format!("{:08} {s}\n", self.n);
        b.truncate(4000);
        let _ = self.pending.set_len(0);
        let _ = self.pending.write_all_at(b.as_bytes(), 0);
    }
    pub fn line(&mut self, s: &str) {
        self.n += 1;
        match &mut self.aside {
            Some(a) => {
                a.push_str(s);
                a.push('\n');
            }
            None => self.out.write_all(format!("{s}\n").as_bytes()).unwrap(),
        }
    }
    pub fn flush_aside(&mut self, a: String) {
        self.out.write_all(a.as_bytes()).unwrap();
    }
}

pub struct Sim {
    pub world: Option<World>,
    pub ids: Vec<EcsId>,
    map: HashMap<u64, H>,
    pub desc: Vec<Desc>,
    /// shadow
    pub alive: BTreeSet<H>,
    pub dead: Vec<H>,
    pub comps: BTreeMap<H, BTreeSet<H>>,
    pub types: [Option<H>; NKINDS],
    tok: [i64; NKINDS],
    pub archs: usize,
    ticks: u64,
    /// set when destructors are to panic
    pub throws: Option<Rng>,
}

fn list<T: std::fmt::Display>(v: impl IntoIterator<Item = T>) -> String {
    let mut s = String::from("[");
    for (n, x) in v.into_iter().enumerate() {
        if n > 0 {
            s.push(',');
        }
        let _ = write!(s, "{x}");
    }
    s.push(']');
    s
}

fn drops_json() -> String {
    list(take_drops().into_iter().map(|(k, t, n)| format!("[{k},{t},{n}]")))
}

fn guarded<R>(f: impl FnOnce() -> R) -> Option<R> {
    catch_unwind(AssertUnwindSafe(|| api(f))).ok()
}

/// Whether it was carried out, and what became of it; a destructor that panicked may be why it did not return
fn outcome(returned: bool) -> (bool, &'static str) {
    match (disarm(), returned) {
        (false, r) => (r, res(r)),
        (true, false) => (true, "unwound"),
        (true, true) => (true, "swallowed"),
    }
}

fn res(ok: bool) -> &'static str {
    if ok {
        "ok"
    } else {
        "panic"
    }
}

impl Sim {
    pub fn new() -> Sim {
        take_drops();
        Sim {
            world: Some(api(World::new)),
            ids: vec![],
            map: HashMap::new(),
            desc: vec![],
            alive: BTreeSet::new(),
            dead: vec![],
            comps: BTreeMap::new(),
            types: [None; NKINDS],
            tok: [0; NKINDS],
            archs: 0,
            ticks: 0,
            throws: None,
        }
    }

    /// Values that differ from those of a world beside this one
    pub fn other_values(&mut self) {
        for k in 0..NKINDS {
            if KINDS[k].cap > 0 {
                self.tok[k] = (self.tok[k] + KINDS[k].cap / 2) % KINDS[k].cap;
            }
        }
    }

    /// How a query is used before it is used for the record
    fn tick(&mut self) -> usize {
        self.ticks += 1;
        Rng(self.ticks * 1013 + self.ids.len() as u64).next() as usize % 4096
    }

    fn w(&mut self) -> &mut World {
        self.world.as_mut().unwrap()
    }

    /// Handle of an id that an operation created
    fn learn(&mut self, id: EcsId, d: Desc) -> H {
        let next = self.ids.len();
        let h = *self.map.entry(id.as_u64()).or_insert(next);
        if h == next {
            self.ids.push(id);
            self.desc.push(d);
        } else {
            self.desc[h] = d;
        }
        self.alive.insert(h);
        self.comps.entry(h).or_default();
        h
    }
    fn known(&self, id: EcsId) -> i64 {
        self.map.get(&id.as_u64()).map(|h| *h as i64).unwrap_or(-1)
    }

    pub fn fresh(&mut self, k: i64) -> i64 {
        if k < 0 || KINDS[k as usize].cap == 0 {
            return 0;
        }
        let k = k as usize;
        self.tok[k] = (self.tok[k] + 1) % KINDS[k].cap;
        self.tok[k]
    }

    /// Learns the ids of the types the operation mentioned
    fn regs(&mut self, kinds: &[usize]) -> String {
        let mut out = vec![];
        let mut seen = BTreeSet::new();
        for &k in kinds {
            if !seen.insert(k) {
                continue;
            }
            match guarded(|| (KINDS[k].reg)(self.world.as_mut().unwrap())) {
                Some(id) => {
                    let slot = id.uindex();
                    let h = self.learn(id, Desc { k: k as i64, drops: KINDS[k].drops });
                    self.types[k] = Some(h);
                    out.push(format!("[{k},{h},{slot}]"));
                }
                None => out.push(format!("[{k},-1,-1]")),
            }
        }
        list(out)
    }

    fn read_ptr(&self, c: H, p: *const u8) -> i64 {
        match self.desc[c].k {
            k if k >= 0 => unsafe { (KINDS[k as usize].read)(p) },
            _ => 0,
        }
    }
    fn lay(&self, c: H) -> (usize, usize) {
        match self.desc[c].k {
            k if k >= 0 => (KINDS[k as usize].size, KINDS[k as usize].align),
            _ => (0, 1),
        }
    }

    fn lend(k: i64, t: i64, f: &mut dyn FnMut(*mut u8)) {
        if k >= 0 {
            (KINDS[k as usize].lend)(t, f)
        } else {
            let mut u = ();
            f(&mut u as *mut () as *mut u8)
        }
    }

    fn shadow_despawn(&mut self, h: H) {
        self.alive.remove(&h);
        self.comps.remove(&h);
        for s in self.comps.values_mut() {
            s.remove(&h);
        }
        for t in self.types.iter_mut() {
            if *t == Some(h) {
                *t = None;
            }
        }
        self.dead.push(h);
    }

    fn cells(&self, row: &mut [&mut dyn Cell], mis: &mut usize) -> String {
        list(row.iter().map(|c| {
            *mis += c.misaligned() as usize;
            match c.val() {
                Val::Tok(t) => t,
                Val::Id(id) => self.known(id),
            }
        }))
    }

    pub fn exec(&mut self, op: &Op, log: &mut Log) {
        log.pending(&format!("{op:?}"));
        let line = self.run(op);
        log.line(&line);
    }

    /// Performs the operation without logging it
    pub fn run_quiet(&mut self, op: &Op, _log: &mut Log) {
        self.run(op);
    }

    /// Frees what is known about entities made after the first `keep` ones, all of them dead
    pub fn forget_dead(&mut self, keep: usize) {
        for id in self.ids.drain(keep..) {
            self.map.remove(&id.as_u64());
        }
        self.desc.truncate(keep);
        self.dead.clear();
    }

    /// The values an operation is about to destroy
    fn doomed(&mut self, op: Option<&Op>) -> Vec<(usize, i64)> {
        let held: Vec<(H, H)> = match op {
            Some(&Op::Despawn(h)) if self.comps.values().all(|s| !s.contains(&h)) => {
                self.comps.get(&h).into_iter().flatten().map(|c| (h, *c)).collect()
            }
            Some(&Op::Rem(h, k)) => self.types[k].into_iter().map(|c| (h, c)).collect(),
            Some(&Op::RemD(h, c)) => vec![(h, c)],
            None => self.comps.iter().flat_map(|(h, s)| s.iter().map(|c| (*h, *c))).collect(),
            _ => vec![],
        };
        let mut out = vec![];
        for (h, c) in held {
            if self.desc[c].drops {
                let (id, cid) = (self.ids[h], self.ids[c]);
                if let Some(Some(p)) = guarded(|| self.w().get_component_mut_dynamic(id, cid)) {
                    out.push((self.desc[c].k as usize, self.read_ptr(c, p)));
                }
            }
        }
        out
    }
    /// Lets the destructor of one of them panic, now and then
    fn arm_one(&mut self, of: impl FnOnce(&mut Self) -> Vec<(usize, i64)>) {
        if let Some(mut r) = self.throws.take() {
            if r.chance(60) {
                if let Some((k, t)) = r.pick(&of(self)) {
                    arm(k, t);
                }
            }
            self.throws = Some(r);
        }
    }

    fn run(&mut self, op: &Op) -> String {
        self.arm_one(|s| s.doomed(Some(op)));
        match op {
            Op::New { md, parts, cap, build } => self.new_entity(*md, parts, *cap, *build),
            &Op::Despawn(h) => {
                let id = self.ids[h];
                let r = guarded(|| self.w().despawn(id));
                let blown = disarm();
                if self.alive.contains(&h) && (r == Some(true) || blown) {
                    self.shadow_despawn(h);
                }
                let r = match r {
                    None if blown => "unwound",
                    _ if blown => "swallowed",
                    Some(true) => "true",
                    Some(false) => "false",
                    None => "panic",
                };
                format!(r#"{{"op":"despawn","e":{h},"res":"{r}","dropped":{}}}"#, drops_json())
            }
            &Op::Add(h, k) => {
                let (id, t) = (self.ids[h], self.fresh(k as i64));
                let ok = guarded(|| (KINDS[k].add)(self.w(), id, t)).is_some();
                let d = drops_json();
                let regs = self.regs(&[k]);
                if ok {
                    if let (Some(s), Some(c)) = (self.comps.get_mut(&h), self.types[k]) {
                        s.insert(c);
                    }
                }
                format!(r#"{{"op":"add","e":{h},"k":{k},"t":{t},"res":"{}","regs":{regs},"dropped":{d}}}"#, res(ok))
            }
            &Op::AddU(h, c) => {
                let (id, cid) = (self.ids[h], self.ids[c]);
                let ok = guarded(|| self.w().add_component_dynamic(id, cid)).is_some();
                if ok && self.alive.contains(&c) {
                    if let Some(s) = self.comps.get_mut(&h) {
                        s.insert(c);
                    }
                }
                format!(r#"{{"op":"addu","e":{h},"c":{c},"res":"{}","dropped":{}}}"#, res(ok), drops_json())
            }
            &Op::AddV(h, c) => {
                let (id, cid, k) = (self.ids[h], self.ids[c], self.desc[c].k);
                let t = self.fresh(k);
                let mut ok = false;
                Self::lend(k, t, &mut |p| {
                    ok = guarded(|| unsafe { self.world.as_mut().unwrap().add_component_dynamic_with_data(id, cid, p) })
                        .is_some();
                });
                if ok && self.alive.contains(&c) {
                    if let Some(s) = self.comps.get_mut(&h) {
                        s.insert(c);
                    }
                }
                format!(
                    r#"{{"op":"addv","e":{h},"c":{c},"t":{t},"res":"{}","dropped":{}}}"#,
                    res(ok),
                    drops_json()
                )
            }
            &Op::Rem(h, k) => {
                let id = self.ids[h];
                let ok = guarded(|| (KINDS[k].rem)(self.w(), id)).is_some();
                let (ok, r) = outcome(ok);
                let d = drops_json();
                let regs = self.regs(&[k]);
                if ok {
                    if let (Some(s), Some(c)) = (self.comps.get_mut(&h), self.types[k]) {
                        s.remove(&c);
                    }
                }
                format!(r#"{{"op":"rem","e":{h},"k":{k},"res":"{r}","regs":{regs},"dropped":{d}}}"#)
            }
            &Op::RemD(h, c) => {
                let (id, cid) = (self.ids[h], self.ids[c]);
                let ok = guarded(|| self.w().remove_component_dynamic(id, cid)).is_some();
                let (ok, r) = outcome(ok);
                if ok {
                    if let Some(s) = self.comps.get_mut(&h) {
                        s.remove(&c);
                    }
                }
                format!(r#"{{"op":"remd","e":{h},"c":{c},"res":"{r}","dropped":{}}}"#, drops_json())
            }
            &Op::Reg(k) => {
                let regs = self.regs(&[k]);
                format!(r#"{{"op":"reg","regs":{regs},"dropped":{}}}"#, drops_json())
            }
            &Op::Alive(h) => {
                let id = self.ids[h];
                let r = guarded(|| self.w().is_alive(id));
                let r = r.map(|b| if b { "true" } else { "false" }).unwrap_or("panic");
                format!(r#"{{"op":"alive","e":{h},"res":"{r}"}}"#)
            }
            &Op::Has(h, k) => {
                let id = self.ids[h];
                let r = guarded(|| (KINDS[k].has)(self.w(), id));
                let r = r.map(|b| if b { "true" } else { "false" }).unwrap_or("panic");
                format!(r#"{{"op":"has","e":{h},"k":{k},"res":"{r}"}}"#)
            }
            &Op::Getd(h, c) => {
                let (id, cid) = (self.ids[h], self.ids[c]);
                let p = guarded(|| self.w().get_component_mut_dynamic(id, cid));
                let (r, v, mis) = match p {
                    None => ("panic", 0, 0),
                    Some(None) => ("none", 0, 0),
                    Some(Some(p)) => ("ok", self.read_ptr(c, p), p as usize % self.lay(c).1),
                };
                format!(r#"{{"op":"getd","e":{h},"c":{c},"res":"{r}","v":{v},"mis":{mis}}}"#)
            }
            &Op::Setd(h, c) => {
                let (id, cid, k) = (self.ids[h], self.ids[c], self.desc[c].k);
                let t = self.fresh(k);
                let p = guarded(|| self.w().get_component_mut_dynamic(id, cid));
                let r = match p {
                    None => "panic",
                    Some(None) => "none",
                    Some(Some(p)) => {
                        if k >= 0 {
                            unsafe { (KINDS[k as usize].put)(p, t) }
                        }
                        "ok"
                    }
                };
                format!(r#"{{"op":"setd","e":{h},"c":{c},"res":"{r}","t":{t}}}"#)
            }
            &Op::Q { shape, write, stop } => {
                let s = &SHAPES[shape];
                let world = self.world.take().unwrap();
                let (mut rows, mut writes, mut mis, mut n) = (vec![], vec![], 0, 0);
                let mut rng = Rng(self.ids.len() as u64 * 77 + self.tok[0] as u64);
                let (how, ids) = (self.tick(), self.ids.clone());
                let mut burst = false;
                let ok = guarded(|| {
                    (s.with)(&world, &mut |q| {
                        q.warm(how, &ids);
                        q.iter(&mut |row| outside(|| {
                            rows.push(self.cells(row, &mut mis));
                            let mut wr = vec![];
                            for (i, &(m, k)) in s.cols.iter().enumerate() {
                                if m == b'W' && rng.chance(write) {
                                    let t = self.fresh(k);
                                    row[i].put(t);
                                    wr.push(format!("[{},{t}]", i + 1));
                                }
                            }
                            writes.push(list(wr));
                            n += 1;
                            if Some(n) == stop && rng.chance(40) {
                                // the caller's own code panics while the query exists
                                burst = true;
                                resume_unwind(Box::new(()));
                            }
                            Some(n) != stop
                        }))
                    })
                })
                .is_some()
                    || burst;
                self.world = Some(world);
                let part = stop.is_some() as usize;
                format!(
                    r#"{{"op":"q","cols":{},"res":"{}","part":{part},"stop":{},"rows":{},"w":{},"mis":{mis}}}"#,
                    Self::cols_json(s.cols),
                    res(ok),
                    stop.unwrap_or(0),
                    list(rows),
                    list(writes)
                )
            }
            &Op::QG { shape, e, write } => {
                let s = &SHAPES[shape];
                let world = self.world.take().unwrap();
                let id = self.ids[e];
                let (mut rows, mut wr, mut mis) = (vec![], vec![], 0);
                let (how, ids) = (self.tick(), self.ids.clone());
                let ok = guarded(|| {
                    let mut some = false;
                    (s.with)(&world, &mut |q| {
                        q.warm(how, &ids);
                        some = q.get(id, &mut |row| outside(|| {
                            rows.push(self.cells(row, &mut mis));
                            for (i, &(m, k)) in s.cols.iter().enumerate() {
                                if m == b'W' && write {
                                    let t = self.fresh(k);
                                    row[i].put(t);
                                    wr.push(format!("[{},{t}]", i + 1));
                                }
                            }
                            true
                        }))
                    });
                    some
                });
                self.world = Some(world);
                let r = match ok {
                    None => "panic",
                    Some(false) => "none",
                    Some(true) => "ok",
                };
                format!(
                    r#"{{"op":"qg","e":{e},"cols":{},"res":"{r}","rows":{},"w":{},"mis":{mis}}}"#,
                    Self::cols_json(s.cols),
                    list(rows),
                    list(wr)
                )
            }
            Op::Dq(cols, write) => self.dyn_query(cols, *write, false),
            Op::Dc(cols, write) => self.dyn_query(cols, *write, true),
            &Op::Meta(h) => {
                let id = self.ids[h];
                let m = guarded(|| self.w().get_entity_meta(id).cloned());
                match m {
                    None => format!(r#"{{"op":"meta","e":{h},"res":"panic"}}"#),
                    Some(None) => format!(r#"{{"op":"meta","e":{h},"res":"none"}}"#),
                    Some(Some(m)) => {
                        let ComponentMeta { drop_fn, layout } = m.component_meta;
                        // a drop function on a type without a destructor is as good as none
                        let d = drop_fn.is_some() as usize;
                        format!(
                            r#"{{"op":"meta","e":{h},"res":"ok","arch":{},"row":{},"size":{},"align":{},"dr":{d}}}"#,
                            m.instance_meta.archetype.0 as i64 % 1_000_000_007,
                            m.instance_meta.index as i64 % 1_000_000_007,
                            layout.size(),
                            layout.align()
                        )
                    }
                }
            }
            Op::Snap => {
                let mut out = vec![];
                for h in 0..self.ids.len() {
                    let id = self.ids[h];
                    if let Some(Some(m)) = guarded(|| self.w().get_entity_meta(id).cloned()) {
                        out.push(format!("[{h},{},{}]", m.instance_meta.archetype.0, m.instance_meta.index));
                        self.archs = self.archs.max(m.instance_meta.archetype.0);
                    }
                }
                format!(r#"{{"op":"snap","at":{}}}"#, list(out))
            }
            Op::Addr => {
                let mut iv = vec![];
                let mut mis = 0;
                let alive: Vec<H> = self.alive.iter().copied().collect();
                for &e in &alive {
                    for &c in &alive {
                        let (size, align) = self.lay(c);
                        let (id, cid) = (self.ids[e], self.ids[c]);
                        if let Some(Some(p)) = guarded(|| self.w().get_component_mut_dynamic(id, cid)) {
                            mis += (p as usize % align != 0) as usize;
                            if size > 0 {
                                iv.push((p as usize, size, e, c));
                            }
                        }
                    }
                }
                iv.sort();
                let mut out = vec![];
                for i in 0..iv.len() {
                    let gap = if i + 1 < iv.len() {
                        (iv[i + 1].0 as i64 - iv[i].0 as i64).min(1 << 30)
                    } else {
                        1 << 30
                    };
                    out.push(format!("[{},{},{},{gap}]", iv[i].2, iv[i].3, iv[i].1));
                }
                format!(r#"{{"op":"addr","iv":{},"mis":{mis}}}"#, list(out))
            }
            Op::Full => {
                let (mut alive, mut vals, mut has, mut bad) = (vec![], vec![], vec![], 0);
                let kinds: Vec<usize> = (0..NKINDS).filter(|&k| self.tok[k] > 0 || self.types[k].is_some()).collect();
                for h in 0..self.ids.len() {
                    let id = self.ids[h];
                    match guarded(|| self.w().is_alive(id)) {
                        Some(true) => alive.push(h),
                        Some(false) => continue,
                        None => bad += 1,
                    }
                    for &k in &kinds {
                        match guarded(|| (KINDS[k].has)(self.w(), id)) {
                            Some(true) => has.push(format!("[{h},{k}]")),
                            Some(false) => (),
                            None => bad += 1,
                        }
                    }
                }
                for &h in &alive {
                    for &c in &alive {
                        let (id, cid) = (self.ids[h], self.ids[c]);
                        match guarded(|| self.w().get_component_mut_dynamic(id, cid)) {
                            Some(Some(p)) => vals.push(format!("[{h},{c},{}]", self.read_ptr(c, p))),
                            Some(None) => (),
                            None => bad += 1,
                        }
                    }
                }
                format!(
                    r#"{{"op":"full","alive":{},"vals":{},"has":{},"kinds":{},"bad":{bad}}}"#,
                    list(alive),
                    list(vals),
                    list(has),
                    list(kinds)
                )
            }
        }
    }

    fn cols_json(cols: &[(u8, i64)]) -> String {
        list(cols.iter().map(|(m, k)| format!(r#"["{}",{k}]"#, *m as char)))
    }

    fn new_entity(&mut self, md: Option<(usize, bool)>, parts: &[Part], cap: Option<usize>, build: bool) -> String {
        let toks: Vec<i64> = parts
            .iter()
            .map(|p| match p {
                Part::T(k) => self.fresh(*k as i64),
                Part::V(c) => self.fresh(self.desc[*c].k),
                Part::U(_) => 0,
            })
            .collect();
        if !build {
            self.arm_one(|s| {
                let value = |(p, t): (&Part, &i64)| match *p {
                    Part::T(k) if KINDS[k].drops => Some((k, *t)),
                    Part::V(c) if s.desc[c].drops => Some((s.desc[c].k as usize, *t)),
                    _ => None,
                };
                parts.iter().zip(&toks).filter_map(value).collect()
            });
        }
        let progress = std::cell::Cell::new(0);
        let ids = self.ids.clone();
        let desc = self.desc.clone();
        let mut world = self.world.as_mut().unwrap();
        // entities that only have values of types can be spawned with the macro as well
        let kinds: Option<Vec<usize>> = parts.iter().map(|p| if let Part::T(k) = p { Some(*k) } else { None }).collect();
        let short = match kinds {
            Some(ks) if md.is_none() && cap.is_none() && build && ids.len() % 2 == 0 => ks,
            _ => vec![NKINDS; 9],
        };
        let r = guarded(|| {
            if short.len() <= 3 {
                progress.set(short.len());
            }
            match short[..] {
                [] => return Some(arche_tape::spawn!(&mut world)),
                [k] => return Some((KINDS[k].spawn)(world, toks[0])),
                [k, 1] => return Some((KINDS[k].spawn2)(world, toks[0], toks[1])),
                [11, k, 2] => return Some((KINDS[k].spawn3)(world, toks[0], toks[1], toks[2])),
                _ => progress.set(0),
            }
            let mut b = match (md, cap) {
                (Some((k, g)), _) => unsafe { world.spawn_with_component_meta((KINDS[k].meta)(g)) },
                (None, Some(cap)) => world.spawn_with_capacity(cap),
                (None, None) => world.spawn(),
            };
            for (p, &t) in parts.iter().zip(&toks) {
                progress.set(progress.get() + 1);
                b = match *p {
                    Part::T(k) => (KINDS[k].with)(b, t),
                    Part::U(c) => b.with_dynamic(ids[c]),
                    Part::V(c) => {
                        let mut held = Some(b);
                        Self::lend(desc[c].k, t, &mut |p| {
                            held = Some(unsafe { held.take().unwrap().with_dynamic_with_data(p, ids[c]) })
                        });
                        held.unwrap()
                    }
                };
            }
            if build {
                Some(b.build())
            } else {
                drop(b);
                None
            }
        });
        let (_, outcome) = outcome(r.is_some());
        let d = drops_json();
        let (mut h, mut slot) = (-1, -1);
        let mut made = None;
        if let Some(Some(id)) = r {
            let dd = match md {
                Some((k, g)) => Desc { k: k as i64, drops: g && KINDS[k].drops },
                None => Desc { k: -1, drops: false },
            };
            let hh = self.learn(id, dd);
            h = hh as i64;
            slot = id.uindex() as i64;
            made = Some(hh);
        }
        let kinds: Vec<usize> = parts[..progress.get()]
            .iter()
            .filter_map(|p| if let Part::T(k) = p { Some(*k) } else { None })
            .collect();
        let regs = self.regs(&kinds);
        if let Some(hh) = made {
            let set: BTreeSet<H> = parts
                .iter()
                .filter_map(|p| match *p {
                    Part::T(k) => self.types[k],
                    Part::U(c) | Part::V(c) => Some(c),
                })
                .collect();
            self.comps.insert(hh, set);
        }
        let parts_json = list(parts.iter().zip(&toks).map(|(p, t)| match *p {
            Part::T(k) => format!(r#"["T",{k},{t}]"#),
            Part::U(c) => format!(r#"["U",{c},{t}]"#),
            Part::V(c) => format!(r#"["V",{c},{t}]"#),
        }));
        let (mk, mg) = md.map(|(k, g)| (k as i64, (g && KINDS[k].drops) as usize)).unwrap_or((-1, 0));
        format!(
            r#"{{"op":"new","md":[{mk},{mg}],"parts":{parts_json},"end":"{}","res":"{}","id":{h},"slot":{slot},"regs":{regs},"dropped":{d}}}"#,
            if build { "build" } else { "drop" },
            outcome
        )
    }

    fn dyn_query(&mut self, cols: &[Option<(u8, H)>], write: bool, columns: bool) -> String {
        let world = self.world.take().unwrap();
        let real: DynCols = cols.iter().map(|c| c.map(|(m, h)| (m, self.ids[h]))).collect();
        let mut mis = 0;
        let mut chunks: Vec<String> = vec![];
        let mut all_rows: Vec<String> = vec![];
        let mut all_pos: Vec<String> = vec![];
        let mut writes: Vec<String> = vec![];
        let how = self.tick();
        let ok = guarded(|| {
            with_dyn(&world, &real, &mut |q| {
                q.warm(how);
                let mut cell = |sim: &mut Sim, i: usize, p: *mut u8, wr: &mut Vec<String>| -> i64 {
                    match cols[i] {
                        None => {
                            mis += (p as usize % std::mem::align_of::<EcsId>() != 0) as usize;
                            sim.known(unsafe { *(p as *const EcsId) })
                        }
                        Some((m, c)) => {
                            mis += (p as usize % sim.lay(c).1 != 0) as usize;
                            let v = sim.read_ptr(c, p);
                            let k = sim.desc[c].k;
                            if m == b'W' && write && k >= 0 {
                                let t = sim.fresh(k);
                                unsafe { (KINDS[k as usize].put)(p, t) };
                                wr.push(format!("[{},{t}]", i + 1));
                            }
                            v
                        }
                    }
                };
                if columns {
                    q.columns(&mut |chunk| outside(|| {
                        let lens = list(chunk.iter().map(|c| c.1));
                        let len = chunk.iter().map(|c| c.1).min().unwrap_or(0);
                        let from = all_rows.len() + 1;
                        for r in 0..len {
                            let mut wr = vec![];
                            let mut p = String::from("[-1,-1]");
                            let mut vals = vec![];
                            for (i, &(base, _)) in chunk.iter().enumerate() {
                                let size = match cols[i] {
                                    None => {
                                        let id = unsafe { *(base as *const EcsId).add(r) };
                                        if let Some(m) = world.get_entity_meta(id) {
                                            let m = &m.instance_meta;
                                            p = format!("[{},{}]", m.archetype.0, m.index);
                                        }
                                        std::mem::size_of::<EcsId>()
                                    }
                                    Some((_, c)) => self.lay(c).0,
                                };
                                vals.push(cell(self, i, unsafe { base.add(size * r) }, &mut wr));
                            }
                            all_rows.push(list(vals));
                            all_pos.push(p);
                            writes.push(list(wr));
                        }
                        chunks.push(format!("[{from},{len},{lens}]"));
                    }))
                } else {
                    q.rows(&mut |row| outside(|| {
                        let mut wr = vec![];
                        let vals: Vec<i64> = row.iter().enumerate().map(|(i, &p)| cell(self, i, p, &mut wr)).collect();
                        all_rows.push(list(vals));
                        writes.push(list(wr));
                    }))
                }
            })
        })
        .is_some();
        self.world = Some(world);
        let cj = list(cols.iter().map(|c| match c {
            None => r#"["E",-1]"#.to_string(),
            Some((m, h)) => format!(r#"["{}",{h}]"#, *m as char),
        }));
        let op = if columns { "dc" } else { "dq" };
        format!(
            r#"{{"op":"{op}","cols":{cj},"res":"{}","chunks":{},"rows":{},"pos":{},"w":{},"mis":{mis}}}"#,
            res(ok),
            list(chunks),
            list(all_rows),
            list(all_pos),
            list(writes)
        )
    }

    pub fn finish(&mut self, log: &mut Log) {
        log.pending("drop the world");
        self.arm_one(|s| s.doomed(None));
        let w = self.world.take().unwrap();
        let ok = guarded(|| drop(w)).is_some();
        log.line(&format!(r#"{{"op":"end","res":"{}","dropped":{}}}"#, outcome(ok).1, drops_json()));
    }
}
