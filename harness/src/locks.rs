//! Real threads holding real queries over one world, driven by scripts; the log is judged by LockTrace.
use crate::driver::*;
use crate::kinds::*;
use crate::query::*;
use crate::shapes::SHAPES;
use crate::toks::*;
use arche_tape::World;
use std::collections::BTreeSet;
use std::panic::{catch_unwind, resume_unwind, AssertUnwindSafe};
use std::sync::{mpsc, Arc, Condvar, Mutex};
use std::time::{Duration, Instant};

#[derive(Clone, Debug)]
enum Query {
    Static(usize),
    Dyn(Vec<Option<(u8, H)>>, DynCols),
    /// Names a component twice: (kind, modes)
    Twice(usize, usize),
}

fn twice(w: &World, kind: usize, modes: usize, cb: &mut dyn FnMut()) {
    macro_rules! one {
        ($k:literal, $t:ty) => {
            match modes {
                0 => drop((w.query::<(&'static $t, &'static mut $t)>(), cb()).0),
                1 => drop((w.query::<(&'static mut $t, &'static $t)>(), cb()).0),
                _ => drop((w.query::<(&'static mut $t, arche_tape::EcsIds, &'static mut $t)>(), cb()).0),
            }
        };
    }
    match kind {
        0 => one!(0, D8),
        7 => one!(7, Zp),
        _ => one!(2, D1),
    }
}

#[derive(Clone, Copy, PartialEq, Debug)]
enum St {
    Idle,
    Asked,
    Held,
    Dead,
}

struct Shared {
    /// state of each actor, and whether it has been told to let go
    st: Mutex<(Vec<St>, Vec<bool>, Vec<String>)>,
    cv: Condvar,
}

struct WorldPtr(*const World);
unsafe impl Send for WorldPtr {}

struct Ctl {
    sh: Arc<Shared>,
    tx: Vec<mpsc::Sender<(Query, usize)>>,
    asked: Vec<Option<(Vec<(u8, H)>, bool)>>,
    patience: Duration,
    log: Vec<String>,
}

const ACTORS: usize = 6;

fn hold(sh: &Shared, a: usize, burst: bool) {
    let mut g = sh.st.lock().unwrap();
    g.2.push(format!(r#"{{"op":"acq","a":{}}}"#, a + 1));
    g.0[a] = St::Held;
    sh.cv.notify_all();
    while !g.1[a] {
        g = sh.cv.wait(g).unwrap();
    }
    g.2.push(format!(r#"{{"op":"rel","a":{}}}"#, a + 1));
    drop(g);
    if burst {
        // the code that uses the query panics, which drops it all the same
        resume_unwind(Box::new(Burst));
    }
}

struct Burst;

fn actor(a: usize, world: usize, rx: mpsc::Receiver<(Query, usize)>, sh: Arc<Shared>) {
    let world = unsafe { &*(world as *const World) };
    for (q, touch) in rx {
        let r = catch_unwind(AssertUnwindSafe(|| match &q {
            Query::Static(s) => (SHAPES[*s].with)(world, &mut |o| {
                if touch & 1 == 1 {
                    o.iter(&mut |row| {
                        row.iter().for_each(|c| {
                            c.val();
                        });
                        true
                    });
                }
                hold(&sh, a, touch & 4 == 4);
            }),
            Query::Dyn(_, cols) => with_dyn(world, cols, &mut |o| {
                if touch & 1 == 1 {
                    o.rows(&mut |_| ());
                }
                if touch & 2 == 2 {
                    o.columns(&mut |_| ());
                }
                hold(&sh, a, touch & 4 == 4);
            }),
            Query::Twice(k, modes) => twice(world, *k, *modes, &mut || hold(&sh, a, false)),
        }));
        let mut g = sh.st.lock().unwrap();
        g.1[a] = false;
        if r.map_or_else(|p| !p.is::<Burst>(), |_| false) {
            g.2.push(format!(r#"{{"op":"panic","a":{}}}"#, a + 1));
            g.0[a] = St::Dead;
        } else {
            g.0[a] = St::Idle;
        }
        sh.cv.notify_all();
    }
}

fn conflict(a: &[(u8, H)], b: &[(u8, H)]) -> bool {
    a.iter().any(|x| b.iter().any(|y| x.1 == y.1 && (x.0 == b'W' || y.0 == b'W')))
}
fn shares(a: &[(u8, H)], b: &[(u8, H)]) -> bool {
    a.iter().any(|x| b.iter().any(|y| x.1 == y.1))
}

impl Ctl {
    fn new(world: &World) -> Ctl {
        let sh = Arc::new(Shared {
            st: Mutex::new((vec![St::Idle; ACTORS], vec![false; ACTORS], vec![])),
            cv: Condvar::new(),
        });
        let mut tx = vec![];
        for a in 0..ACTORS {
            let (t, r) = mpsc::channel();
            let s = sh.clone();
            let w = WorldPtr(world).0 as usize;
            std::thread::spawn(move || actor(a, w, r, s));
            tx.push(t);
        }
        Ctl { sh, tx, asked: vec![None; ACTORS], patience: Duration::from_secs(20), log: vec![] }
    }
    fn state(&self, a: usize) -> St {
        self.sh.st.lock().unwrap().0[a]
    }
    /// Waits until the actor's state is as wished
    fn until(&self, a: usize, want: &[St], d: Duration) -> bool {
        let end = Instant::now() + d;
        let mut g = self.sh.st.lock().unwrap();
        loop {
            if want.contains(&g.0[a]) {
                return true;
            }
            let now = Instant::now();
            if now >= end {
                return false;
            }
            g = self.sh.cv.wait_timeout(g, end - now).unwrap().0;
        }
    }
    fn say(&self, s: String) {
        self.sh.st.lock().unwrap().2.push(s);
    }
    fn holders(&self, but: usize) -> Vec<usize> {
        (0..ACTORS).filter(|&b| b != but && self.state(b) == St::Held).collect()
    }
    fn waiters(&self, but: usize) -> Vec<usize> {
        (0..ACTORS).filter(|&b| b != but && self.state(b) == St::Asked).collect()
    }
    /// None: the script may not ask this now. Some(true): must be granted
    fn expect(&self, a: usize, cols: &[(u8, H)], weak: bool) -> Option<bool> {
        if self.state(a) != St::Idle {
            return None;
        }
        let of = |b: usize| self.asked[b].clone().unwrap();
        if self.waiters(a).into_iter().any(|b| shares(cols, &of(b).0)) {
            return None;
        }
        let hs = self.holders(a);
        if hs.iter().any(|&b| (weak || of(b).1) && shares(cols, &of(b).0)) {
            return None;
        }
        let clash = hs.iter().any(|&b| conflict(cols, &of(b).0));
        Some(!clash)
    }
    /// false: the script is over, something is stuck or broken
    fn ask(&mut self, a: usize, q: Query, cols: Vec<(u8, H)>, weak: bool, free: bool, touch: usize) -> bool {
        let json: Vec<String> = cols.iter().map(|(m, h)| format!(r#"["{}",{h}]"#, *m as char)).collect();
        let kind = match &q {
            Query::Static(s) => format!("static {:?}", SHAPES[*s].cols.iter().map(|c| (c.0 as char, c.1)).collect::<Vec<_>>()),
            Query::Dyn(c, _) => format!("dynamic {:?}", c.iter().map(|c| c.map(|c| (c.0 as char, c.1))).collect::<Vec<_>>()),
            Query::Twice(k, modes) => format!("static, component {k} twice: {}", ["RW", "WR", "WW"][*modes]),
        }
        .replace('"', "");
        self.asked[a] = Some((cols, weak));
        {
            let mut g = self.sh.st.lock().unwrap();
            g.0[a] = St::Asked;
            g.2.push(format!(
                r#"{{"op":"ask","a":{},"q":[{}],"weak":{},"how":"{kind}"}}"#,
                a + 1,
                json.join(","),
                weak as u8
            ));
        }
        self.tx[a].send((q, touch)).unwrap();
        if free {
            if !self.until(a, &[St::Held, St::Dead], self.patience) {
                self.say(format!(r#"{{"op":"stuck","a":{}}}"#, a + 1));
                return false;
            }
        } else if !self.until(a, &[St::Held, St::Dead], Duration::from_millis(15)) {
            self.say(format!(r#"{{"op":"blocked","a":{}}}"#, a + 1));
        } else {
            return false;
        }
        self.state(a) != St::Dead
    }
    fn release(&mut self, a: usize) -> bool {
        {
            let mut g = self.sh.st.lock().unwrap();
            g.1[a] = true;
            self.sh.cv.notify_all();
        }
        if !self.until(a, &[St::Idle, St::Dead], self.patience) || self.state(a) == St::Dead {
            self.say(format!(r#"{{"op":"panic","a":{}}}"#, a + 1));
            return false;
        }
        for b in self.waiters(a) {
            let clash = self
                .holders(b)
                .into_iter()
                .any(|c| c != a && conflict(&self.asked[c].as_ref().unwrap().0, &self.asked[b].as_ref().unwrap().0));
            if !clash && !self.until(b, &[St::Held, St::Dead], self.patience) {
                self.say(format!(r#"{{"op":"stuck","a":{}}}"#, b + 1));
                return false;
            }
        }
        true
    }
    fn drain(&mut self) {
        let mut g = self.sh.st.lock().unwrap();
        self.log.extend(g.2.drain(..));
    }
}

/// A world with some entities over the given kinds; returns the handles of two data components and a tag too.
fn world(rng: &mut Rng, kinds: &[usize], null: &mut Log) -> (Sim, Vec<H>) {
    let mut s = Sim::new();
    // a type whose entity is despawned, so that using it again gives it another identity
    if rng.chance(40) {
        let k = kinds[rng.below(kinds.len())];
        s.exec(&Op::New { md: None, parts: vec![Part::T(k)], cap: None, build: true }, null);
        let c = s.types[k].unwrap();
        s.exec(&Op::Despawn(c), null);
    }
    // very many components in use
    let mut many: Vec<H> = vec![];
    if rng.chance(20) {
        for _ in 0..[40, 70, 140, 300][rng.below(4)] {
            s.exec(&Op::New { md: None, parts: vec![], cap: None, build: true }, null);
            let d = s.ids.len() - 1;
            s.exec(&Op::New { md: None, parts: vec![Part::U(d)], cap: None, build: true }, null);
            many.push(d);
        }
    }
    let mut ks = kinds.to_vec();
    rng.shuffle(&mut ks);
    for &k in &ks {
        if rng.chance(60) {
            s.exec(&Op::Reg(k), null);
        }
    }
    s.exec(&Op::New { md: Some((1, false)), parts: vec![], cap: None, build: true }, null);
    let data = s.ids.len() - 1;
    s.exec(&Op::New { md: None, parts: vec![], cap: None, build: true }, null);
    let tag = s.ids.len() - 1;
    // components come into use one at a time, in any order and in any way, with others going away in between
    let mut order: Vec<Part> = ks.iter().map(|&k| Part::T(k)).chain([Part::V(data), Part::U(tag)]).collect();
    rng.shuffle(&mut order);
    order.truncate(rng.below(order.len() + 1));
    let mut gone: Vec<H> = vec![];
    let odd = rng.below(60);
    for p in order {
        if rng.chance(odd) {
            s.exec(&Op::New { md: None, parts: vec![], cap: None, build: true }, null);
            let d = s.ids.len() - 1;
            s.exec(&Op::New { md: None, parts: vec![Part::U(d)], cap: None, build: true }, null);
            gone.push(d);
        }
        if rng.chance(50) {
            s.exec(&Op::New { md: None, parts: vec![p], cap: None, build: true }, null);
        } else {
            let e = rng.pick(&s.alive.iter().copied().collect::<Vec<_>>()).unwrap();
            match p {
                Part::T(k) => s.exec(&Op::Add(e, k), null),
                Part::V(c) => s.exec(&Op::AddV(e, c), null),
                Part::U(c) => s.exec(&Op::AddU(e, c), null),
            }
        }
        if !gone.is_empty() && rng.chance(odd) {
            let d = gone.swap_remove(rng.below(gone.len()));
            s.exec(&Op::Despawn(d), null);
        }
    }
    for n in 0..3 + rng.below(12) {
        let mut parts: Vec<Part> = vec![];
        for &k in &ks {
            if n == 0 || rng.chance(50) {
                parts.push(Part::T(k));
            }
        }
        if n == 0 || rng.chance(40) {
            parts.push(Part::V(data));
        }
        if n == 0 || rng.chance(40) {
            parts.push(Part::U(tag));
        }
        if rng.chance(50) {
            rng.shuffle(&mut parts);
        }
        s.exec(&Op::New { md: None, parts, cap: None, build: true }, null);
    }
    if rng.chance(50) {
        s.exec(&Op::Reg(rng.below(NKINDS)), null);
    }
    for d in gone {
        if rng.chance(40) {
            s.exec(&Op::Despawn(d), null);
        }
    }
    let mut extra = vec![data, tag];
    for _ in 0..rng.below(3) {
        s.exec(&Op::New { md: None, parts: vec![], cap: None, build: true }, null);
        let d = s.ids.len() - 1;
        s.exec(&Op::New { md: None, parts: vec![Part::U(d)], cap: None, build: true }, null);
        extra.push(d);
    }
    extra.extend(many);
    (s, extra)
}

/// The components a query names and whether some entity has each of them
fn named(s: &Sim, q: &Query) -> (Vec<(u8, H)>, bool) {
    let had: BTreeSet<H> = s.comps.values().flatten().copied().collect();
    match q {
        Query::Static(n) => {
            let mut cols = vec![];
            let mut weak = false;
            for &(m, k) in SHAPES[*n].cols {
                if k >= 0 {
                    match s.types[k as usize] {
                        Some(h) => {
                            weak |= !had.contains(&h);
                            cols.push((m, h))
                        }
                        None => weak = true,
                    }
                }
            }
            (cols, weak)
        }
        Query::Dyn(c, _) => {
            let cols: Vec<(u8, H)> = c.iter().flatten().copied().collect();
            let weak = cols.iter().any(|c| !had.contains(&c.1));
            (cols, weak)
        }
        Query::Twice(k, modes) => {
            let h = s.types[*k].unwrap();
            let cols = ["RW", "WR", "WW"][*modes].bytes().map(|m| (m, h)).collect();
            (cols, !had.contains(&h))
        }
    }
}

/// A query that names a component twice, once at least to write it. It may never be granted, as it waits for itself; if it
/// is, it excludes others like any query. None: the script is over. Some(false): the world cannot be used any more
fn selfish(ctl: &mut Ctl, s: &Sim, rng: &mut Rng, all: &[H]) -> Option<bool> {
    let h = rng.pick(all)?;
    let k = s.types.iter().position(|t| *t == Some(h));
    let modes = rng.below(3);
    let q = match k {
        Some(k @ (0 | 7 | 2)) if rng.chance(60) => Query::Twice(k, modes),
        _ => {
            let mut cols: Vec<_> = ["RW", "WR", "WW"][modes].bytes().map(|m| Some((m, h))).collect();
            if rng.chance(40) {
                cols.insert(1, Some((b'R', rng.pick(all)?)));
            }
            dynamic(s, rng, cols)
        }
    };
    let (cols, weak) = named(s, &q);
    if weak {
        return Some(true);
    }
    ctl.ask(0, q, cols.clone(), false, false, 0);
    match ctl.state(0) {
        St::Held => {
            for (a, m) in [(1, b'R'), (2, b'W')] {
                let q = dynamic(s, rng, vec![Some((m, h))]);
                ctl.ask(a, q, vec![(m, h)], false, false, 0);
                if ctl.state(a) != St::Asked {
                    return None;
                }
            }
            // who of the two is first is not for us to say
            ctl.sh.st.lock().unwrap().1[0] = true;
            ctl.sh.cv.notify_all();
            Some(false)
        }
        _ => {
            // the others are not hindered
            for (a, &o) in all.iter().filter(|o| cols.iter().all(|c| c.1 != **o)).take(3).enumerate() {
                let m = [b'R', b'W'][rng.below(2)];
                let q = dynamic(s, rng, vec![Some((m, o))]);
                let (cols, weak) = named(s, &q);
                if !weak && !ctl.ask(a + 1, q, cols, false, true, 0) {
                    return None;
                }
            }
            Some(false)
        }
    }
}

fn dynamic(s: &Sim, rng: &mut Rng, mut cols: Vec<Option<(u8, H)>>) -> Query {
    if cols.is_empty() || rng.chance(50) {
        cols.insert(rng.below(cols.len() + 1), None);
    }
    let real = cols.iter().map(|c| c.map(|(m, h)| (m, s.ids[h]))).collect();
    Query::Dyn(cols, real)
}

fn finish(ctl: &mut Ctl, log: &mut Log) {
    ctl.drain();
    for l in ctl.log.drain(..) {
        log.line(&l);
    }
}

/// Scripts from the state graph of MCQueryHold: lines `walk`, `ask A M1C1,M2C2`, `rel A`
pub fn walks(path: &str, seed: u64, out: &str) {
    let text = std::fs::read_to_string(path).unwrap();
    let mut log = Log::create(out);
    let mut null = Log::create("/dev/null");
    null.pending = std::fs::File::create(format!("{out}.pending")).unwrap();
    let mut rng = Rng(seed);
    let mut n = 0;
    for walk in text.split("walk\n").filter(|w| !w.is_empty()) {
        let (kinds, comps) = ([[0, 6], [9, 3]][rng.below(2)], rng.below(3));
        let (s, extra) = world(&mut rng, &kinds, &mut null);
        // what the two components of the model are in this walk
        let c = match comps {
            0 => extra.clone(),
            _ => kinds.iter().map(|&k| s.types[k].unwrap()).collect(),
        };
        log.line(&format!(r#"{{"op":"world","walk":{n}}}"#));
        n += 1;
        let mut ctl = Ctl::new(s.world.as_ref().unwrap());
        let mut ok = true;
        for line in walk.lines() {
            null.pending(line);
            let f: Vec<&str> = line.split(' ').collect();
            let a = f[1].parse::<usize>().unwrap() - 1;
            if f[0] == "rel" {
                ok = ctl.release(a);
            } else {
                let cols: Vec<(u8, H)> =
                    f[2].split(',').map(|x| (x.as_bytes()[0], c[x[1..].parse::<usize>().unwrap() - 1])).collect();
                let fits = |sh: &Shape| {
                    let v: Vec<(u8, i64)> = sh.cols.iter().copied().filter(|c| c.1 >= 0).collect();
                    v.len() == cols.len() && v.iter().zip(&cols).all(|(x, y)| x.0 == y.0 && s.types[x.1 as usize] == Some(y.1))
                };
                let shapes: Vec<usize> = (0..SHAPES.len()).filter(|&i| fits(&SHAPES[i])).collect();
                let q = match rng.pick(&shapes) {
                    Some(x) if rng.chance(65) => Query::Static(x),
                    _ => dynamic(&s, &mut rng, cols.iter().copied().map(Some).collect()),
                };
                match ctl.expect(a, &cols, false) {
                    Some(free) => {
                        let touch = rng.below(4) + 4 * rng.chance(12) as usize;
                        ok = ctl.ask(a, q, cols, false, free, touch)
                    }
                    None => {
                        eprintln!("unknown subcommand: the script is out of step at {line}");
                        std::process::exit(2)
                    }
                }
            }
            if !ok {
                break;
            }
        }
        finish(&mut ctl, &mut log);
        if !ok {
            // threads may hang: the trace says why
            println!("events {} stopped", log.n);
            std::process::exit(0);
        }
        end(&mut ctl);
        finish(&mut ctl, &mut log);
        drop(ctl);
        drop(s);
    }
    println!("events {} walks {n}", log.n);
}

/// Lets go of everything
fn end(ctl: &mut Ctl) -> bool {
    for _ in 0..ACTORS {
        for a in 0..ACTORS {
            if ctl.state(a) == St::Held && !ctl.release(a) {
                return false;
            }
        }
    }
    (0..ACTORS).all(|a| ctl.state(a) == St::Idle)
}

/// Very many readers of the same components at once, all on one thread, one inside the other
fn crowd(ctl: &Ctl, w: &World, qs: &[(Query, Vec<(u8, H)>)], n: usize) {
    let Some((q, cols)) = qs.get(n) else { return };
    let a = ACTORS + 1 + n;
    let json: Vec<String> = cols.iter().map(|(m, h)| format!(r#"["{}",{h}]"#, *m as char)).collect();
    ctl.say(format!(r#"{{"op":"ask","a":{a},"q":[{}],"weak":0,"how":"nested"}}"#, json.join(",")));
    let mut inside = || {
        ctl.say(format!(r#"{{"op":"acq","a":{a}}}"#));
        crowd(ctl, w, qs, n + 1);
        ctl.say(format!(r#"{{"op":"rel","a":{a}}}"#));
    };
    match q {
        Query::Static(s) => (SHAPES[*s].with)(w, &mut |_| inside()),
        Query::Dyn(_, cols) => with_dyn(w, cols, &mut |_| inside()),
        Query::Twice(..) => (),
    }
}

/// Random scripts with wide queries
pub fn random(seed: u64, runs: usize, out: &str) {
    let mut log = Log::create(out);
    let mut null = Log::create("/dev/null");
    null.pending = std::fs::File::create(format!("{out}.pending")).unwrap();
    let mut rng = Rng(seed);
    for run in 0..runs {
        let mut kinds = crate::shapes::BASES[rng.below(crate::shapes::BASES.len())].to_vec();
        rng.shuffle(&mut kinds);
        kinds.truncate(9 - rng.below(2));
        let (s, extra) = world(&mut rng, &kinds, &mut null);
        log.line(&format!(r#"{{"op":"world","run":{run}}}"#));
        let mut ctl = Ctl::new(s.world.as_ref().unwrap());
        let fit: Vec<usize> = (0..SHAPES.len())
            .filter(|&i| SHAPES[i].cols.iter().all(|c| c.1 < 0 || kinds.contains(&(c.1 as usize))))
            .collect();
        let all: Vec<H> = kinds.iter().map(|&k| s.types[k].unwrap()).chain(extra.iter().copied()).collect();
        let mut ok = true;
        let (mut asks, mut blocks) = (0, 0);
        for _ in 0..400 {
            if asks > 60 || blocks > 12 {
                break;
            }
            let a = rng.below(ACTORS);
            if ctl.state(a) == St::Held && rng.chance(40) {
                ok = ctl.release(a);
            } else if ctl.state(a) == St::Idle {
                let q = if rng.chance(60) {
                    Query::Static(if rng.chance(90) { rng.pick(&fit).unwrap() } else { rng.below(SHAPES.len()) })
                } else {
                    let mut cs = all.clone();
                    if cs.len() > 40 && rng.chance(70) {
                        // components that are far apart, by the same distances again and again
                        let (from, by) = (rng.below(4), 1 << (4 + rng.below(5)));
                        cs = cs.into_iter().skip(from).step_by(by).collect();
                    }
                    rng.shuffle(&mut cs);
                    let many = [12, 16, 33, 70].into_iter().filter(|n| *n <= cs.len()).max().filter(|_| rng.chance(15));
                    cs.truncate(many.unwrap_or(1 + rng.below(3)));
                    if many.is_none() && rng.chance(10) {
                        cs.push(rng.pick(&s.alive.iter().copied().collect::<Vec<_>>()).unwrap());
                        cs.sort();
                        cs.dedup();
                    }
                    if many.is_none() && rng.chance(8) {
                        cs.extend(s.dead.first());
                    }
                    let mut cols: Vec<Option<(u8, H)>> =
                        cs.into_iter().map(|c| Some((if rng.chance(35) { b'W' } else { b'R' }, c))).collect();
                    if many.is_none() && rng.chance(20) && cols[0].unwrap().0 == b'R' {
                        let c = cols[0];
                        cols.push(c);
                    }
                    match many {
                        Some(_) => {
                            let real = cols.iter().map(|c| c.map(|(m, h)| (m, s.ids[h]))).collect();
                            Query::Dyn(cols, real)
                        }
                        None => dynamic(&s, &mut rng, cols),
                    }
                };
                let (cols, weak) = named(&s, &q);
                // conflicts cost time, so take them only sometimes
                match ctl.expect(a, &cols, weak) {
                    Some(false) if rng.chance(50) => (),
                    Some(free) => {
                        asks += 1;
                        blocks += !free as usize;
                        let touch = rng.below(4) + 4 * rng.chance(12) as usize;
                        null.pending(&format!("{q:?}"));
                        ok = ctl.ask(a, q, cols, weak, free, touch)
                    }
                    None => (),
                }
            }
            if !ok {
                break;
            }
        }
        ok = ok && end(&mut ctl);
        if ok && rng.chance(30) {
            let n = [10, 40, 140, 300][rng.below(4)];
            let mut cs = all.clone();
            rng.shuffle(&mut cs);
            cs.truncate(1 + rng.below(3));
            let reads: Vec<usize> = (0..SHAPES.len())
                .filter(|&i| {
                    let v: Vec<_> = SHAPES[i].cols.iter().filter(|c| c.1 >= 0).collect();
                    !v.is_empty() && v.iter().all(|c| c.0 == b'R' && s.types[c.1 as usize].map_or(false, |h| cs.contains(&h)))
                })
                .collect();
            let mut qs = vec![];
            for _ in 0..n {
                let q = match rng.pick(&reads) {
                    Some(i) if rng.chance(50) => Query::Static(i),
                    _ => {
                        let mut c: Vec<_> = cs.iter().map(|c| Some((b'R', *c))).collect();
                        c.truncate(1 + rng.below(c.len()));
                        dynamic(&s, &mut rng, c)
                    }
                };
                let (cols, weak) = named(&s, &q);
                if !weak {
                    qs.push((q, cols));
                }
            }
            null.pending(&format!("{} nested readers", qs.len()));
            // in a thread of its own: it may hang
            let w = s.world.as_ref().unwrap() as *const World as usize;
            let (c, q) = (&ctl as *const Ctl as usize, &qs as *const Vec<(Query, Vec<(u8, H)>)> as usize);
            let (tx, rx) = mpsc::channel();
            std::thread::Builder::new()
                .stack_size(256 << 20)
                .spawn(move || {
                    let (w, c, q) = unsafe { (&*(w as *const World), &*(c as *const Ctl), &*(q as *const Vec<(Query, Vec<(u8, H)>)>)) };
                    let r = catch_unwind(AssertUnwindSafe(|| crowd(c, w, q, 0)));
                    let _ = tx.send(r.is_ok());
                })
                .unwrap();
            match rx.recv_timeout(ctl.patience) {
                Ok(true) => (),
                Ok(false) => {
                    ctl.say(r#"{"op":"panic","a":1}"#.into());
                    ok = false
                }
                Err(_) => {
                    let a = qs.len().min(ctl.sh.st.lock().unwrap().2.iter().filter(|l| l.contains("nested")).count()) + ACTORS;
                    ctl.say(format!(r#"{{"op":"stuck","a":{a}}}"#));
                    ok = false
                }
            }
            // and then a writer of the same
            if ok {
                let cols: Vec<(u8, H)> = cs.iter().map(|c| (b'W', *c)).collect();
                let q = dynamic(&s, &mut rng, cols.iter().copied().map(Some).collect());
                let (cols, weak) = named(&s, &q);
                ok = ctl.ask(0, q, cols, weak, true, 0) && end(&mut ctl);
            }
        }
        if ok && rng.chance(35) {
            null.pending("a component named twice");
            match selfish(&mut ctl, &s, &mut rng, &all) {
                Some(true) => (),
                Some(false) => {
                    finish(&mut ctl, &mut log);
                    std::mem::forget((ctl, s));
                    continue;
                }
                None => ok = false,
            }
        }
        finish(&mut ctl, &mut log);
        if !ok {
            println!("events {} stopped", log.n);
            std::process::exit(0);
        }
    }
    println!("events {} runs {runs}", log.n);
}
