//! Behaviours of the specification ArcheTape, replayed into real worlds. The events are judged by EcsTrace like those of
//! any other history; where the model expects each entity to be is compared and counted, for the record only.
use crate::driver::*;
use crate::gen::Gen;
use crate::kinds::*;
use crate::toks::NKINDS;
use std::collections::HashMap;
use std::panic::{catch_unwind, AssertUnwindSafe};

fn nums(s: &str) -> Vec<i64> {
    s.split(',').filter(|x| *x != "-").map(|x| x.parse().unwrap()).collect()
}

struct Walk {
    s: Sim,
    g: Gen,
    kinds: [usize; 2],
    /// id in the model -> handle
    of: HashMap<i64, H>,
}

impl Walk {
    /// None when the walk cannot go on, because the code did not do what was asked
    fn step(&mut self, f: &[&str], log: &mut Log) -> Option<()> {
        let (a, b): (i64, i64) = (f[1].parse().unwrap(), f[2].parse().unwrap());
        let (ks, cs, new) = (nums(f[3]), nums(f[4]), nums(f[5]));
        let h = |w: &Self, id: i64| w.of.get(&id).copied();
        let kind = |w: &Self, k: i64| w.kinds[k as usize - 1];
        let before = self.s.ids.len();
        let with_data = |w: &Self, c: H| {
            let k = w.s.desc[c].k;
            k >= 0 && (KINDS[k as usize].size > 0 || KINDS[k as usize].drops)
        };
        let type_of = |w: &Self, c: H| w.s.types.iter().position(|t| *t == Some(c));
        match f[0] {
            "reg" => self.s.exec(&Op::Reg(kind(self, a)), log),
            "build" | "abandon" => {
                let mut parts: Vec<Part> = ks.iter().map(|k| Part::T(kind(self, *k))).collect();
                for c in cs {
                    let c = h(self, c)?;
                    let p = if with_data(self, c) || self.g.rng.chance(30) { Part::V(c) } else { Part::U(c) };
                    let at = self.g.rng.below(parts.len() + 1);
                    parts.insert(at, p);
                }
                // some entities can carry data when they are used as components
                let md = match self.g.rng.below(4) {
                    0 => {
                        let k = self.g.two_kinds()[0];
                        Some((k, KINDS[k].drops || self.g.rng.chance(50)))
                    }
                    _ => None,
                };
                let cap = if self.g.rng.chance(20) { Some(self.g.rng.below(40)) } else { None };
                let build = f[0] == "build";
                self.s.exec(&Op::New { md: if build { md } else { None }, parts, cap, build }, log);
                if build {
                    // the entity is learned before the types
                    if self.s.ids.len() == before {
                        return None;
                    }
                    self.of.insert(f[6].parse().unwrap(), before);
                }
            }
            "despawn" => {
                let e = h(self, a)?;
                self.s.exec(&Op::Despawn(e), log);
            }
            "add" => {
                let (e, c) = (h(self, a)?, h(self, b)?);
                let op = match type_of(self, c) {
                    Some(k) if self.g.rng.chance(70) => Op::Add(e, k),
                    _ if with_data(self, c) || self.g.rng.chance(40) => Op::AddV(e, c),
                    _ => Op::AddU(e, c),
                };
                self.s.exec(&op, log);
            }
            "rem" => {
                let (e, c) = (h(self, a)?, h(self, b)?);
                let op = match type_of(self, c) {
                    Some(k) if self.g.rng.chance(70) => Op::Rem(e, k),
                    _ => Op::RemD(e, c),
                };
                self.s.exec(&op, log);
            }
            x => panic!("{x}"),
        }
        for r in new.chunks(2) {
            let c = self.s.types[kind(self, r[0])]?;
            self.of.insert(r[1], c);
        }
        Some(())
    }

    /// How many entities are where the model has them
    fn compare(&mut self, at: &[i64]) -> (usize, usize) {
        let (mut n, mut same) = (0, 0);
        for p in at.chunks(3) {
            n += 1;
            if let Some(&h) = self.of.get(&p[0]) {
                let id = self.s.ids[h];
                let w = self.s.world.as_ref().unwrap();
                let m = catch_unwind(AssertUnwindSafe(|| {
                    w.get_entity_meta(id).map(|m| (m.instance_meta.archetype.0 as i64, m.instance_meta.index as i64))
                }));
                same += (matches!(m, Ok(Some(x)) if x == (p[1], p[2]))) as usize;
            }
        }
        (n, same)
    }
}

pub fn replay(path: &str, profile: &str, seed: u64, out: &str) {
    let mut log = Log::create(out);
    let text = std::fs::read_to_string(path).unwrap();
    let (mut steps, mut compared, mut same, mut cut) = (0, 0, 0, 0);
    for (n, walk) in text.split("walk\n").skip(1).enumerate() {
        let mut g = Gen::new(seed * 1_000_003 + n as u64, profile);
        let kinds = g.two_kinds();
        let mut w = Walk { s: Sim::new(), g, kinds, of: HashMap::new() };
        w.s.throws = (profile == "C21").then(|| Rng(w.g.rng.next()));
        log.line(&format!(r#"{{"op":"world","walk":{n}}}"#));
        let lines: Vec<&str> = walk.lines().collect();
        // short walks end in a state nothing else may reach; long ones are looked at on the way
        let often = if lines.len() > 20 { 35 } else { 10 };
        for l in &lines {
            let f: Vec<&str> = l.split(' ').collect();
            if w.step(&f, &mut log).is_none() {
                cut += 1;
                break;
            }
            steps += 1;
            let (a, b) = w.compare(&nums(f[7]));
            compared += a;
            same += b;
            if w.g.rng.chance(often) {
                let op = w.g.look(&w.s);
                w.s.exec(&op, &mut log);
            }
        }
        for _ in 0..1 + w.g.rng.below(2) {
            let op = w.g.look(&w.s);
            w.s.exec(&op, &mut log);
        }
        w.s.exec(&Op::Full, &mut log);
        w.s.finish(&mut log);
    }
    println!("steps {steps} compared {compared} same {same} cut {cut}");
}

/// Behaviours of the specification Builder: what the buffer goes through is the same for all kinds whose sizes have the
/// proportions of the specification's
pub fn builders(path: &str, seed: u64, heap: bool, out: &str) {
    let mut log = Log::create(out);
    let mut null = Log::create("/dev/null");
    null.pending = std::fs::File::create(format!("{out}.pending")).unwrap();
    let text = std::fs::read_to_string(path).unwrap();
    let (mut steps, mut rng) = (0, Rng(seed));
    if heap {
        for _ in 0..2 {
            let _ = catch_unwind(|| crate::alloc::api(|| -> usize { panic!("warm up {}", 1) }));
        }
        crate::toks::log_drop(0, 0);
        crate::toks::take_drops();
    }
    for (n, walk) in text.split("walk ").skip(1).enumerate() {
        let mut lines = walk.lines();
        let sizes = nums(lines.next().unwrap());
        // bytes for one of the specification
        let units: Vec<usize> = [1, 2, 4, 8, 16, 64]
            .into_iter()
            .filter(|u| sizes.iter().all(|s| KINDS.iter().any(|k| k.size == u * *s as usize)))
            .collect();
        let unit = units[n % units.len()];
        let kinds: Vec<usize> = sizes
            .iter()
            .map(|s| {
                let fit: Vec<usize> = (0..NKINDS).filter(|&k| KINDS[k].size == unit * *s as usize && !(heap && KINDS[k].owns)).collect();
                fit[rng.below(fit.len())]
            })
            .collect();
        let hint = |h: i64| match h {
            0 => None,
            h => Some(unit * h as usize),
        };
        if heap {
            log.line(&format!(r#"{{"op":"world","run":{n}}}"#));
            null.n = n;
            crate::alloc::record();
        } else {
            log.line(&format!(r#"{{"op":"world","walk":{n}}}"#));
        }
        let lg = if heap { &mut null } else { &mut log };
        let mut s = Sim::new();
        if rng.chance(60) {
            for &k in &kinds {
                s.exec(&Op::Reg(k), lg);
            }
        }
        let (mut cap, mut parts) = (None, vec![]);
        for l in lines {
            let (op, c) = l.split_once(' ').unwrap();
            let c: i64 = c.parse().unwrap();
            steps += 1;
            let by_id = rng.chance(30);
            let part = |s: &Sim| {
                let k = kinds[c as usize - 1];
                match s.types[k] {
                    Some(h) if by_id => Part::V(h),
                    _ => Part::T(k),
                }
            };
            let build = match op {
                "start" => {
                    (cap, parts) = (hint(c), vec![]);
                    continue;
                }
                "with" => {
                    parts.push(part(&s));
                    continue;
                }
                "refuse" => {
                    parts.push(part(&s));
                    true
                }
                x => x == "build",
            };
            // a hint of nothing is no hint, and asked for now and then
            let cap = if cap.is_none() && rng.chance(10) { Some(0) } else { cap };
            s.exec(&Op::New { md: None, parts: std::mem::take(&mut parts), cap, build }, lg);
        }
        s.exec(&Op::Full, lg);
        s.finish(lg);
        if heap {
            crate::toks::take_drops();
            match crate::alloc::take_log() {
                Some(evs) => crate::heap::convert(&evs, &mut log),
                None => log.line(r#"{"op":"end"}"#),
            }
        }
    }
    println!("steps {steps}");
}
