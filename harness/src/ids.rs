//! The allocator of ids on its own, arche_tape::entities::Entities: walks of MCEntityAlloc, random executions and bulk
//! ones of millions of ids, judged by IdTrace.
use crate::driver::Log;
use crate::kinds::Rng;
use arche_tape::entities::Entities;
use arche_tape::EcsId;
use std::panic::{catch_unwind, AssertUnwindSafe};

struct Ids {
    e: Entities,
    ids: Vec<EcsId>,
}

impl Ids {
    fn new(log: &mut Log) -> Ids {
        log.line(r#"{"op":"world"}"#);
        Ids { e: Entities::new(), ids: vec![] }
    }
    fn spawn(&mut self, log: &mut Log) {
        let id = self.e.spawn();
        let same = |x: &EcsId| *x == id || x.as_u64() == id.as_u64() || x.cmp(&id).is_eq() || (x.generation(), x.index()) == (id.generation(), id.index());
        let n = self.ids.iter().position(same).unwrap_or(self.ids.len());
        if n == self.ids.len() {
            self.ids.push(id);
        }
        log.line(&format!(r#"{{"op":"spawn","id":{},"slot":{}}}"#, n + 1, id.uindex()));
    }
    fn despawn(&mut self, n: usize, log: &mut Log) {
        let res = self.e.despawn(self.ids[n]);
        log.line(&format!(r#"{{"op":"despawn","e":{},"res":{res}}}"#, n + 1));
    }
    fn alive(&mut self, log: &mut Log) {
        let a: Vec<String> = (0..self.ids.len()).filter(|n| self.e.is_alive(self.ids[*n])).map(|n| (n + 1).to_string()).collect();
        log.line(&format!(r#"{{"op":"alive","set":[{}]}}"#, a.join(",")));
    }
}

fn guarded(log: &mut Log, f: impl FnOnce(&mut Log)) {
    if catch_unwind(AssertUnwindSafe(|| f(log))).is_err() {
        log.line(r#"{"op":"panic"}"#);
    }
}

pub fn walks(path: &str, out: &str) {
    let text = std::fs::read_to_string(path).unwrap();
    let mut log = Log::create(out);
    for walk in text.split("walk\n").filter(|x| !x.is_empty()) {
        guarded(&mut log, |log| {
            let mut s = Ids::new(log);
            for line in walk.lines() {
                log.pending(line);
                match line.split_once(' ') {
                    Some((_, n)) => match n.parse::<usize>().unwrap() {
                        n if n <= s.ids.len() => s.despawn(n - 1, log),
                        _ => return,
                    },
                    None => s.spawn(log),
                }
                s.alive(log);
            }
        });
    }
    println!("events {}", log.n);
}

pub fn random(seed: u64, runs: usize, out: &str) {
    let mut rng = Rng(seed.wrapping_mul(0x9E3779B97F4A7C15) ^ 0x1D5);
    rng.next();
    let mut log = Log::create(out);
    for _ in 0..runs {
        let up = 30 + rng.below(50);
        let steps = 20 + rng.below(120);
        let last = rng.chance(40);
        let seed = rng.next();
        guarded(&mut log, |log| {
            let mut rng = Rng(seed);
            let mut s = Ids::new(log);
            for _ in 0..steps {
                if s.ids.is_empty() || rng.chance(up) {
                    s.spawn(log);
                } else {
                    let near = s.ids.len().min(6);
                    let n = if last && rng.chance(70) { s.ids.len() - 1 - rng.below(near) } else { rng.below(s.ids.len()) };
                    s.despawn(n, log);
                }
                if rng.chance(30) {
                    s.alive(log);
                }
            }
            s.alive(log);
        });
    }
    println!("events {}", log.n);
}

/// size: how many ids are alive at most
pub fn bulk(seed: u64, size: usize, out: &str) {
    let mut rng = Rng(seed.wrapping_mul(0x9E3779B97F4A7C15) ^ 0xB1D5);
    rng.next();
    let mut log = Log::create(out);
    guarded(&mut log, |log| {
        log.line(r#"{"op":"world"}"#);
        let mut e = Entities::new();
        let mut ids: Vec<EcsId> = vec![];
        let mut live: Vec<bool> = vec![];
        let mut slots = 0;
        for step in 0..9 {
            let (mut done, mut again, mut n) = (0, 0, 0);
            let op = ["spawns", "despawns", "spawns", "cycles", "despawns", "spawns"][step % 6];
            log.pending(op);
            match op {
                "spawns" => {
                    let up = live.iter().filter(|x| **x).count();
                    // some are given slots used before, those beyond the size new ones
                    n = if step == 0 { size * 3 / 4 } else { size + rng.below(size / 8 + 1) - up.min(size) };
                    for _ in 0..n {
                        let id = e.spawn();
                        slots = slots.max(id.uindex() + 1);
                        ids.push(id);
                        live.push(true);
                    }
                }
                "cycles" => {
                    n = 1 + rng.below(size);
                    for _ in 0..n {
                        let id = e.spawn();
                        slots = slots.max(id.uindex() + 1);
                        ids.push(id);
                        live.push(false);
                        done += e.despawn(id) as usize;
                    }
                }
                _ => {
                    let (m, few) = ([2, 3, 5, 100][rng.below(4)], rng.below(97));
                    let r = rng.below(m);
                    for i in 0..ids.len() {
                        if live[i] && i % m == r {
                            n += 1;
                            done += e.despawn(ids[i]) as usize;
                            live[i] = false;
                        } else if !live[i] && i % 97 == few {
                            again += e.despawn(ids[i]) as usize;
                        }
                    }
                }
            }
            let (mut alive, mut odd) = (0, 0);
            for i in 0..ids.len() {
                let a = e.is_alive(ids[i]);
                alive += a as usize;
                odd += (a != live[i]) as usize;
            }
            log.line(&format!(r#"{{"op":"{op}","n":{n},"done":{done},"again":{again},"slots":{slots},"alive":{alive},"odd":{odd}}}"#));
        }
        log.pending("comparing all ids");
        // ids whose slots or generations are apart by a power of two
        let apart = |ids: &[EcsId]| {
            let mut same = 0;
            for i in (0..ids.len()).step_by(ids.len() / 5000 + 1).chain(0..ids.len().min(40)) {
                for k in 0..28 {
                    if let Some(x) = ids.get(i + (1 << k)) {
                        same += (*x == ids[i] || x.cmp(&ids[i]).is_eq()) as usize;
                    }
                }
            }
            same
        };
        ids.sort_unstable_by_key(|x| x.as_u64());
        let mut same = ids.windows(2).filter(|w| w[0] == w[1] || w[0].as_u64() == w[1].as_u64()).count();
        same = same.max(apart(&ids));
        ids.sort_unstable_by_key(|x| (x.index(), x.generation()));
        same = same.max(ids.windows(2).filter(|w| w[0] == w[1] || (w[0].index(), w[0].generation()) == (w[1].index(), w[1].generation())).count());
        same = same.max(apart(&ids));
        ids.sort_unstable();
        same = same.max(ids.windows(2).filter(|w| w[0].cmp(&w[1]).is_eq()).count());
        log.line(&format!(r#"{{"op":"end","ids":{}}}"#, ids.len() - same));
    });
    println!("events {}", log.n);
}
