//! Random histories. A profile says how often each kind of operation is tried; what is tried is chosen from the shadow
//! state so that operations are mostly meaningful, and deliberately refusable at the rate the profile asks for.
use crate::driver::*;
use crate::kinds::*;
use crate::query::Shape;
use crate::shapes::*;
use crate::toks::*;

#[derive(Clone, Copy, PartialEq, Eq, Debug, Hash, PartialOrd, Ord)]
pub enum G {
    Build,
    Abandon,
    BuildBad,
    Meta,      // build an entity that is a dynamic component
    Despawn,   // any entity
    DespawnComp,
    DespawnDead,
    AddT,
    AddU,
    AddV,
    AddRef,
    RemT,
    RemD,
    RemRef,
    DeadOps,
    Reg,
    Alive,
    Has,
    Getd,
    Setd,
    Q,
    QW,
    QG,
    QGW,
    Dq,
    Dc,
    MetaQ,
    Snap,
    Addr,
    Full,
}
use G::*;

const BASE: &[(G, usize)] = &[
    (Build, 14), (Abandon, 2), (BuildBad, 1), (Meta, 3), (Despawn, 6), (DespawnComp, 2), (DespawnDead, 1), (AddT, 12),
    (AddU, 4), (AddV, 6), (AddRef, 1), (RemT, 8), (RemD, 5), (RemRef, 1), (DeadOps, 2), (Reg, 1), (Alive, 1), (Has, 1),
    (Getd, 2), (Setd, 3), (Q, 3), (QW, 2), (QG, 3), (QGW, 2), (Dq, 3), (Dc, 2), (MetaQ, 1), (Snap, 1), (Addr, 0), (Full, 8),
];

/// Adjustments per property
fn boosts(profile: &str) -> &'static [(G, usize)] {
    match profile {
        "C01" => &[(Build, 20), (Abandon, 8), (Despawn, 20), (DespawnDead, 8), (Alive, 6), (Reg, 3), (DespawnComp, 5), (BuildBad, 4)],
        "C02" => &[(DeadOps, 30), (Despawn, 14), (DespawnComp, 6), (DespawnDead, 5), (Build, 20), (Full, 12)],
        "C03" => &[(AddT, 20), (RemT, 16), (AddU, 10), (RemD, 10), (Has, 6), (Full, 14)],
        "C04" => &[(AddT, 20), (RemT, 16), (AddV, 12), (RemD, 10), (Despawn, 10), (Full, 16)],
        "C05" => &[(Q, 22), (QW, 6), (AddT, 14), (Full, 2), (DespawnComp, 3)],
        "C06" => &[(QG, 30), (QGW, 8), (Q, 6), (Full, 2), (Despawn, 8)],
        "C07" => &[(Dq, 18), (Dc, 14), (Q, 4), (Full, 2), (DespawnComp, 5), (Meta, 6)],
        "C08" => &[(QW, 16), (QGW, 14), (Setd, 14), (Full, 10), (Dq, 8), (Dc, 8)],
        "C09" => &[(Abandon, 10), (BuildBad, 5), (Despawn, 14), (DespawnComp, 6), (RemT, 12), (RemD, 10), (AddRef, 3), (Full, 3)],
        "C11" => &[(BuildBad, 10), (AddRef, 12), (RemRef, 12), (DeadOps, 12), (DespawnDead, 5), (Full, 16)],
        "C12" => &[(Reg, 12), (DespawnComp, 6), (AddT, 14), (AddV, 10), (RemD, 10), (Q, 6), (QG, 5), (Dq, 5)],
        "C13" => &[(DespawnComp, 14), (Meta, 8), (AddU, 10), (AddV, 10), (DeadOps, 8), (Q, 5), (Dq, 6), (Dc, 4), (Full, 12)],
        "C14" => &[(Build, 36), (Abandon, 18), (BuildBad, 6), (Despawn, 14), (Full, 16)],
        "C15" => &[(Snap, 30), (Dc, 10), (MetaQ, 6), (AddT, 16), (RemT, 14), (AddU, 8), (RemD, 10), (Full, 1), (DespawnComp, 4)],
        "C16" => &[(Abandon, 10), (BuildBad, 8), (Despawn, 24), (DespawnComp, 6), (Build, 30), (Full, 1)],
        "C18" => &[(Addr, 26), (Q, 8), (QG, 8), (Dq, 8), (Dc, 8), (Full, 1), (AddT, 18), (Build, 20)],
        "C17" => &[(Full, 0), (Abandon, 12), (BuildBad, 8), (AddRef, 6), (RemRef, 3), (DespawnComp, 4), (Build, 24), (Meta, 5)],
        _ => &[],
    }
}

pub struct Gen {
    pub rng: Rng,
    weights: Vec<(G, usize)>,
    total: usize,
    kinds: Vec<usize>,
    shapes: Vec<usize>,
    lo: usize,
    hi: usize,
    dens: usize,
    metas: usize,
    last_dead: Option<H>,
}

impl Gen {
    pub fn new(seed: u64, profile: &str) -> Gen {
        let mut rng = Rng(seed.wrapping_mul(0x5851F42D4C957F2D) ^ 0xABCDEF);
        rng.next();
        let mut weights: Vec<(G, usize)> = BASE.to_vec();
        for (g, n) in boosts(profile) {
            weights.iter_mut().find(|w| w.0 == *g).unwrap().1 = *n;
        }
        let total = weights.iter().map(|w| w.1).sum();
        let mut base: Vec<usize> = BASES[rng.below(BASES.len())].to_vec();
        rng.shuffle(&mut base);
        base.truncate([2, 3, 4, 5, 6, 7, 9, 9][rng.below(8)]);
        if rng.chance(20) {
            base.push(rng.below(NKINDS));
        }
        let fits = |s: &Shape| s.cols.iter().all(|c| c.1 < 0 || base.contains(&(c.1 as usize)));
        let shapes = (0..SHAPES.len()).filter(|&i| fits(&SHAPES[i])).collect();
        let hi = [3, 5, 8, 12, 20, 30, 45][rng.below(7)];
        Gen { weights, total, kinds: base, shapes, lo: 2.min(hi), hi, dens: [15, 30, 50, 80][rng.below(4)], metas: 1 + rng.below(6), rng, last_dead: None }
    }

    pub fn len(&mut self) -> usize {
        [30, 60, 100, 160, 240][self.rng.below(5)]
    }

    fn shape(&mut self, write: bool) -> usize {
        for _ in 0..40 {
            let s = if self.rng.chance(92) { self.rng.pick(&self.shapes).unwrap_or(0) } else { self.rng.below(SHAPES.len()) };
            let ok = SHAPES[s].cols.iter().any(|c| c.0 == b'W') && SHAPES[s].cols.iter().any(|c| c.0 == b'E');
            if !write || ok {
                // prefer wide shapes a little
                if SHAPES[s].cols.len() > 2 || self.rng.chance(60) {
                    return s;
                }
            }
        }
        0
    }

    fn alive(&mut self, s: &Sim) -> Option<H> {
        let v: Vec<H> = s.alive.iter().copied().collect();
        self.rng.pick(&v)
    }
    /// Entities that are not types or data components, mostly
    fn plain(&mut self, s: &Sim) -> Option<H> {
        if self.rng.chance(8) {
            return self.alive(s);
        }
        let v: Vec<H> = s.alive.iter().copied().filter(|h| s.desc[*h].k < 0).collect();
        self.rng.pick(&v).or_else(|| self.alive(s))
    }
    fn dead(&mut self, s: &Sim) -> Option<H> {
        if s.dead.is_empty() {
            return None;
        }
        // prefer the recently dead and those whose slot is in use again
        let reused: Vec<H> = s
            .dead
            .iter()
            .copied()
            .filter(|d| s.alive.iter().any(|a| s.ids[*a].uindex() == s.ids[*d].uindex()))
            .collect();
        if self.rng.chance(60) && !reused.is_empty() {
            return self.rng.pick(&reused);
        }
        self.rng.pick(&s.dead)
    }
    fn used_as_comp(s: &Sim) -> Vec<H> {
        let mut v: Vec<H> = s.comps.values().flatten().copied().filter(|c| s.alive.contains(c)).collect();
        v.sort();
        v.dedup();
        v
    }
    /// A component id that may be added without data
    fn unit_comp(&mut self, s: &Sim) -> Option<H> {
        let used: Vec<H> = Self::used_as_comp(s)
            .into_iter()
            .filter(|c| Self::unit_ok(s, *c))
            .collect();
        if used.len() >= 3 || (!used.is_empty() && self.rng.chance(60)) {
            return self.rng.pick(&used);
        }
        let v: Vec<H> = s.alive.iter().copied().filter(|c| Self::unit_ok(s, *c)).collect();
        self.rng.pick(&v)
    }
    fn unit_ok(s: &Sim, c: H) -> bool {
        let d = s.desc[c];
        d.k < 0 || (KINDS[d.k as usize].size == 0 && !d.drops)
    }
    /// A component id that holds data
    fn data_comp(&mut self, s: &Sim) -> Option<H> {
        let v: Vec<H> = s.alive.iter().copied().filter(|c| s.desc[*c].k >= 0).collect();
        self.rng.pick(&v)
    }
    fn kind(&mut self) -> usize {
        if self.rng.chance(3) {
            return self.rng.below(NKINDS);
        }
        self.rng.pick(&self.kinds.clone()).unwrap()
    }

    fn parts(&mut self, s: &Sim) -> Vec<Part> {
        if self.rng.chance(8) {
            // what spawn! is tried with
            let k = self.kind();
            let ks = match self.rng.below(4) {
                0 => vec![],
                1 => vec![k],
                2 => vec![k, 1],
                _ => vec![11, k, 2],
            };
            if ks.iter().enumerate().all(|(n, k)| !ks[..n].contains(k)) {
                return ks.into_iter().map(Part::T).collect();
            }
        }
        let mut out = vec![];
        let mut cids = vec![];
        let d = if self.rng.chance(10) { 100 } else { self.dens };
        for k in self.kinds.clone() {
            if self.rng.chance(d) {
                match s.types[k] {
                    Some(c) if self.rng.chance(25) => {
                        out.push(Part::V(c));
                        cids.push(c)
                    }
                    c => {
                        out.push(Part::T(k));
                        cids.extend(c)
                    }
                }
            }
        }
        for _ in 0..2 {
            if self.rng.chance(25) {
                if let Some(c) = self.data_comp(s) {
                    let kind_named = out.iter().any(|p| matches!(p, Part::T(k) if *k as i64 == s.desc[c].k));
                    if !cids.contains(&c) && !(kind_named && s.types[s.desc[c].k as usize] == Some(c)) {
                        cids.push(c);
                        out.push(Part::V(c));
                    }
                }
            }
            if self.rng.chance(20) {
                if let Some(c) = self.unit_comp(s) {
                    let kind_named = out.iter().any(|p| matches!(p, Part::T(k) if *k as i64 == s.desc[c].k));
                    if !cids.contains(&c) && !kind_named {
                        cids.push(c);
                        out.push(Part::U(c));
                    }
                }
            }
        }
        self.rng.shuffle(&mut out);
        out
    }
    fn cap(&mut self) -> Option<usize> {
        if self.rng.chance(30) {
            Some([0, 1, 3, 7, 8, 16, 17, 64, 100, 300, 4096][self.rng.below(11)])
        } else {
            None
        }
    }
    fn dyn_cols(&mut self, s: &Sim) -> Vec<Option<(u8, H)>> {
        let mut cols: Vec<Option<(u8, H)>> = vec![];
        let used = Self::used_as_comp(s);
        // start from the components of some entity so that it often matches
        let mut cs: Vec<H> = match self.plain(s) {
            Some(h) if self.rng.chance(70) => s.comps.get(&h).map(|x| x.iter().copied().collect()).unwrap_or_default(),
            _ => used,
        };
        self.rng.shuffle(&mut cs);
        cs.truncate(self.rng.below(5));
        if self.rng.chance(12) {
            cs.extend(self.dead(s));
        }
        if self.rng.chance(12) {
            cs.extend(self.alive(s));
        }
        cs.sort();
        cs.dedup();
        self.rng.shuffle(&mut cs);
        for c in cs {
            cols.push(Some((if self.rng.chance(40) { b'W' } else { b'R' }, c)));
            if self.rng.chance(5) && matches!(cols.last(), Some(Some((b'R', _)))) {
                cols.push(Some((b'R', c)));
            }
        }
        if cols.is_empty() || self.rng.chance(75) {
            let at = self.rng.below(cols.len() + 1);
            cols.insert(at, None);
        }
        cols.truncate(8);
        cols
    }
    fn maybe_writes(&mut self, cols: &[Option<(u8, H)>]) -> bool {
        cols.iter().any(|c| c.is_none()) && self.rng.chance(40)
    }

    pub fn op(&mut self, s: &Sim) -> Op {
        for _ in 0..200 {
            let mut n = self.rng.below(self.total);
            let mut g = Full;
            for (x, w) in &self.weights {
                if n < *w {
                    g = *x;
                    break;
                }
                n -= w;
            }
            let pop = s.alive.iter().filter(|h| s.desc[**h].k < 0).count();
            if pop < self.lo && matches!(g, Despawn | DespawnComp | Full | Q | Dq) {
                g = Build;
            }
            if pop > self.hi && g == Build {
                g = Despawn;
            }
            if let Some(op) = self.make(g, s) {
                return op;
            }
        }
        Op::Full
    }

    /// Something that leaves the world's entities and components as they are: a look at them, or an operation that is refused
    pub fn look(&mut self, s: &Sim) -> Op {
        const LOOKS: &[G] =
            &[DespawnDead, AddRef, RemRef, DeadOps, Alive, Has, Getd, Setd, Q, QW, QG, QGW, Dq, Dc, MetaQ, Snap, Addr, Full];
        let total: usize = self.weights.iter().filter(|w| LOOKS.contains(&w.0)).map(|w| w.1).sum();
        for _ in 0..50 {
            let mut n = self.rng.below(total);
            let mut g = Full;
            for (x, w) in self.weights.iter().filter(|w| LOOKS.contains(&w.0)) {
                if n < *w {
                    g = *x;
                    break;
                }
                n -= w;
            }
            match self.make(g, s) {
                // would make a type known
                Some(Op::Add(_, k) | Op::Rem(_, k)) if s.types[k].is_none() => (),
                Some(op) => return op,
                None => (),
            }
        }
        Op::Full
    }

    pub fn two_kinds(&mut self) -> [usize; 2] {
        let a = self.kind();
        let mut b = self.kind();
        while b == a {
            b = self.rng.below(NKINDS);
        }
        [a, b]
    }

    fn make(&mut self, g: G, s: &Sim) -> Option<Op> {
        Some(match g {
            Build => Op::New { md: None, parts: self.parts(s), cap: self.cap(), build: true },
            Abandon => Op::New { md: None, parts: self.parts(s), cap: self.cap(), build: false },
            BuildBad => {
                let mut parts = self.parts(s);
                let bad = match self.rng.below(4) {
                    0 => match self.rng.pick(&parts)? {
                        Part::V(c) if s.types.contains(&Some(c)) && self.rng.chance(50) => Part::T(s.desc[c].k as usize),
                        p => p,
                    },
                    1 => Part::U(self.dead(s)?),
                    2 => Part::V(self.dead(s)?),
                    _ => {
                        let c = self.data_comp(s)?;
                        if KINDS[s.desc[c].k as usize].size == 0 {
                            return None;
                        }
                        Part::U(c)
                    }
                };
                let at = self.rng.below(parts.len() + 1);
                parts.insert(at, bad);
                // an accidental no-data component of a zero-sized type with a destructor is out of scope
                Op::New { md: None, parts, cap: self.cap(), build: true }
            }
            Meta => {
                let n = s.alive.iter().filter(|h| s.desc[**h].k >= 0 && !s.types.contains(&Some(**h))).count();
                if n >= self.metas {
                    return None;
                }
                let k = if self.rng.chance(60) { self.kind() } else { self.rng.below(NKINDS) };
                let generic = KINDS[k].drops || self.rng.chance(40);
                let parts = if self.rng.chance(70) { vec![] } else { self.parts(s) };
                Op::New { md: Some((k, generic)), parts, cap: None, build: true }
            }
            Despawn => {
                let h = self.plain(s)?;
                self.last_dead = Some(h);
                Op::Despawn(h)
            }
            DespawnComp => {
                let used = Self::used_as_comp(s);
                let h = self.rng.pick(&used)?;
                self.last_dead = Some(h);
                Op::Despawn(h)
            }
            DespawnDead => Op::Despawn(self.dead(s)?),
            AddT => {
                let (h, k) = (self.plain(s)?, self.kind());
                if s.types[k].map_or(false, |c| s.comps[&h].contains(&c)) {
                    return None;
                }
                Op::Add(h, k)
            }
            AddU => {
                let (h, c) = (self.plain(s)?, self.unit_comp(s)?);
                if s.comps[&h].contains(&c) {
                    return None;
                }
                Op::AddU(h, c)
            }
            AddV => {
                let (h, c) = (self.plain(s)?, self.data_comp(s)?);
                let c = if self.rng.chance(10) { self.unit_comp(s).unwrap_or(c) } else { c };
                if s.comps[&h].contains(&c) {
                    return None;
                }
                Op::AddV(h, c)
            }
            AddRef => {
                let h = self.alive(s)?;
                let cs: Vec<H> = s.comps[&h].iter().copied().collect();
                match self.rng.below(4) {
                    0 | 1 => {
                        let c = self.rng.pick(&cs)?;
                        match s.types.iter().position(|t| *t == Some(c)) {
                            Some(k) if self.rng.chance(60) => Op::Add(h, k),
                            _ if Self::unit_ok(s, c) && self.rng.chance(50) => Op::AddU(h, c),
                            _ => Op::AddV(h, c),
                        }
                    }
                    _ => {
                        // data missing
                        let c = self.data_comp(s)?;
                        if KINDS[s.desc[c].k as usize].size == 0 {
                            return None;
                        }
                        Op::AddU(h, c)
                    }
                }
            }
            RemT => {
                let h = self.plain(s)?;
                let ks: Vec<usize> = (0..NKINDS).filter(|k| s.types[*k].map_or(false, |c| s.comps[&h].contains(&c))).collect();
                Op::Rem(h, self.rng.pick(&ks)?)
            }
            RemD => {
                let h = self.plain(s)?;
                let cs: Vec<H> = s.comps[&h].iter().copied().collect();
                Op::RemD(h, self.rng.pick(&cs)?)
            }
            RemRef => {
                let h = self.alive(s)?;
                if self.rng.chance(50) {
                    let k = self.kind();
                    if s.types[k].map_or(false, |c| s.comps[&h].contains(&c)) {
                        return None;
                    }
                    Op::Rem(h, k)
                } else {
                    let c = self.alive(s)?;
                    if s.comps[&h].contains(&c) {
                        return None;
                    }
                    Op::RemD(h, c)
                }
            }
            DeadOps => {
                let d = self.dead(s)?;
                let e = self.alive(s)?;
                let k = self.kind();
                match self.rng.below(14) {
                    0 => Op::Add(d, k),
                    1 => Op::AddU(d, self.unit_comp(s)?),
                    2 => Op::AddV(d, self.data_comp(s)?),
                    3 => Op::AddU(e, d),
                    4 => Op::AddV(e, d),
                    5 => Op::Rem(d, k),
                    6 => Op::RemD(d, self.rng.pick(&Self::used_as_comp(s))?),
                    7 => Op::RemD(e, d),
                    8 => Op::Has(d, k),
                    9 => Op::Getd(d, self.rng.pick(&Self::used_as_comp(s))?),
                    10 => Op::Getd(e, d),
                    11 => Op::Meta(d),
                    12 => Op::QG { shape: self.shape(false), e: d, write: false },
                    _ => {
                        let mut cols = self.dyn_cols(s);
                        cols.truncate(7);
                        cols.retain(|c| !matches!(c, Some((_, h)) if *h == d));
                        cols.push(Some((b'R', d)));
                        Op::Dq(cols, false)
                    }
                }
            }
            Reg => Op::Reg(if self.rng.chance(50) { self.kind() } else { self.rng.below(NKINDS) }),
            Alive => Op::Alive(if self.rng.chance(50) { self.dead(s)? } else { self.alive(s)? }),
            Has => Op::Has(self.alive(s)?, self.kind()),
            Getd => {
                let h = self.plain(s)?;
                let c = if self.rng.chance(70) { self.rng.pick(&Self::used_as_comp(s))? } else { self.alive(s)? };
                Op::Getd(h, c)
            }
            Setd => {
                let h = self.plain(s)?;
                let cs: Vec<H> = s.comps[&h].iter().copied().collect();
                Op::Setd(h, self.rng.pick(&cs)?)
            }
            Q => {
                let stop = if self.rng.chance(8) { Some(1 + self.rng.below(3)) } else { None };
                Op::Q { shape: self.shape(false), write: 0, stop }
            }
            QW => Op::Q { shape: self.shape(true), write: [100, 40][self.rng.below(2)], stop: None },
            QG => Op::QG { shape: self.shape(false), e: self.plain(s)?, write: false },
            QGW => Op::QG { shape: self.shape(true), e: self.plain(s)?, write: true },
            Dq => {
                let c = self.dyn_cols(s);
                let w = self.maybe_writes(&c);
                Op::Dq(c, w)
            }
            Dc => {
                let c = self.dyn_cols(s);
                let w = self.maybe_writes(&c);
                Op::Dc(c, w)
            }
            MetaQ => Op::Meta(self.alive(s)?),
            Snap => Op::Snap,
            Addr => Op::Addr,
            Full => Op::Full,
        })
    }

    /// A phase that creates many archetypes by walking one or two entities through the subsets of a component set
    pub fn wide(&mut self, s: &mut Sim, log: &mut Log, max: usize) {
        let mut cs: Vec<H> = vec![];
        for k in self.kinds.clone() {
            s.exec(&Op::Reg(k), log);
            cs.extend(s.types[k]);
        }
        while cs.len() < 9 {
            s.exec(&Op::New { md: None, parts: vec![], cap: None, build: true }, log);
            cs.push(s.ids.len() - 1);
        }
        self.rng.shuffle(&mut cs);
        cs.truncate(6 + self.rng.below(4));
        s.exec(&Op::New { md: None, parts: vec![], cap: None, build: true }, log);
        let walker = s.ids.len() - 1;
        for i in 1..(1usize << cs.len()).min(max) {
            let c = cs[i.trailing_zeros() as usize];
            if !s.alive.contains(&walker) || !s.alive.contains(&c) {
                return;
            }
            let op = if s.comps[&walker].contains(&c) { Op::RemD(walker, c) } else { Op::AddV(walker, c) };
            s.exec(&op, log);
            // leave an entity behind in some of the groups
            if self.rng.chance(18) {
                let parts = s.comps[&walker].iter().map(|c| Part::V(*c)).collect();
                s.exec(&Op::New { md: None, parts, cap: None, build: true }, log);
            }
        }
    }
}

impl Gen {
    /// Entities with very many components at once
    fn crowd(&mut self, s: &mut Sim, log: &mut Log) {
        let n = [20, 33, 40, 65, 70, 130, 140, 260][self.rng.below(8)];
        let first = s.ids.len();
        for _ in 0..n {
            s.exec(&Op::New { md: None, parts: vec![], cap: None, build: true }, log);
        }
        let mut cs: Vec<H> = (first..s.ids.len()).collect();
        for _ in 0..2 + self.rng.below(3) {
            self.rng.shuffle(&mut cs);
            let mut parts: Vec<Part> = cs.iter().map(|c| if c % 2 == 0 { Part::U(*c) } else { Part::V(*c) }).collect();
            parts.truncate(if self.rng.chance(70) { n } else { 1 + self.rng.below(n) });
            for p in self.parts(s) {
                let at = self.rng.below(parts.len() + 1);
                if !matches!(p, Part::U(c) | Part::V(c) if cs.contains(&c)) {
                    parts.insert(at, p);
                }
            }
            let build = self.rng.chance(80);
            s.exec(&Op::New { md: None, parts, cap: self.cap(), build }, log);
            let h = s.ids.len() - 1;
            for _ in 0..self.rng.below(5) {
                let c = cs[self.rng.below(n)];
                if s.alive.contains(&h) && build {
                    let op = if s.comps[&h].contains(&c) { Op::RemD(h, c) } else { Op::AddU(h, c) };
                    s.exec(&op, log);
                }
            }
        }
        // entities with as many of the components fewer as a narrow number would not see
        for by in [64, 128, 256] {
            let held = s.comps.values().filter(|c| c.len() > by).map(|c| c.iter().copied().collect::<Vec<H>>()).collect::<Vec<_>>();
            for _ in 0..2 {
                let Some(mut c) = self.rng.pick(&held) else { continue };
                self.rng.shuffle(&mut c);
                c.truncate(c.len() - by);
                let parts = c.into_iter().map(|c| if Self::unit_ok(s, c) && self.rng.chance(50) { Part::U(c) } else { Part::V(c) }).collect();
                let build = self.rng.chance(90);
                s.exec(&Op::New { md: None, parts, cap: None, build }, log);
            }
        }
        for last in [false, true] {
            for w in [12, 16, 33, 70] {
                // a query of very many columns, all of one of these entities most of the time
                let held = s.comps.iter().filter(|(_, c)| c.len() >= w).map(|(_, c)| c.iter().copied().collect::<Vec<H>>()).collect::<Vec<_>>();
                let Some(mut c) = self.rng.pick(&held) else { continue };
                self.rng.shuffle(&mut c);
                c.truncate(w);
                let mut cols: Vec<Option<(u8, H)>> = c.into_iter().map(|c| Some((if self.rng.chance(40) { b'W' } else { b'R' }, c))).collect();
                let at = self.rng.below(w);
                cols[at] = None;
                if self.rng.chance(10) {
                    if let (Some(d), at) = (self.dead(s), self.rng.below(w)) {
                        cols[at] = Some((b'R', d));
                    }
                }
                let write = self.rng.chance(40);
                s.exec(&if self.rng.chance(50) { Op::Dq(cols, write) } else { Op::Dc(cols, write) }, log);
            }
            if last {
                break;
            }
            for _ in 0..3 {
                let c = cs[self.rng.below(n)];
                if self.rng.chance(50) {
                    s.exec(&Op::Despawn(c), log);
                }
            }
        }
    }
}

/// One world, start to end
struct Story {
    g: Gen,
    s: Sim,
    left: usize,
}

impl Story {
    fn new(seed: u64, profile: &str, log: &mut Log) -> Story {
        let mut g = Gen::new(seed, profile);
        let mut s = Sim::new();
        s.throws = (profile == "C21").then(|| Rng(g.rng.next()));
        log.line(&format!(r#"{{"op":"world","seed":{}}}"#, seed % 1_000_000_007));
        if g.rng.chance(6) {
            let max = [70, 140, 200][g.rng.below(3)];
            g.wide(&mut s, log, max);
        }
        if g.rng.chance(2) {
            g.crowd(&mut s, log);
        }
        if g.rng.chance(25) {
            let h = g.hi;
            for _ in 0..h {
                let op = Op::New { md: None, parts: g.parts(&s), cap: g.cap(), build: true };
                s.exec(&op, log);
            }
        }
        let left = g.len();
        Story { g, s, left }
    }
    /// false: it is over
    fn step(&mut self, log: &mut Log) -> bool {
        if self.left == 0 {
            self.s.exec(&Op::Full, log);
            self.s.finish(log);
            return false;
        }
        self.left -= 1;
        let op = self.g.op(&self.s);
        self.s.exec(&op, log);
        true
    }
}

pub fn history(seed: u64, profile: &str, log: &mut Log) {
    let mut a = Story::new(seed, profile, log);
    if !a.g.rng.chance(20) {
        while a.step(log) {}
        return;
    }
    // two worlds side by side, one's log after the other's
    for _ in 0..a.g.rng.below(40) {
        if !a.step(log) {
            return;
        }
    }
    log.aside = Some(String::new());
    let mut b = Story::new(seed ^ 0x5DEECE66D, profile, log);
    b.s.other_values();
    let mut rng = Rng(seed ^ 77);
    let mut two = [Some(a), Some(b)];
    // the lines of the second, and where each of the two is: a world may be moved
    let mut asides = log.aside.take();
    let mut at = [0, 1];
    while two.iter().any(|t| t.is_some()) {
        if rng.chance(10) {
            two.swap(0, 1);
            at.swap(0, 1);
        }
        let n = rng.below(2);
        for _ in 0..1 + rng.below(4) {
            let Some(t) = &mut two[at[n]] else { break };
            if n == 1 {
                log.aside = asides.take();
            }
            if !t.step(log) {
                two[at[n]] = None;
            }
            if n == 1 {
                asides = log.aside.take();
            }
        }
    }
    log.flush_aside(asides.unwrap_or_default());
}
