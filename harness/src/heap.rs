//! Allocator traffic of whole lives of worlds and vectors, as traces for HeapTrace; and memory held under churn.
use crate::alloc::*;
use crate::driver::*;
use crate::gen;
use crate::kinds::*;
use crate::toks::*;
use std::collections::HashMap;

struct Block {
    n: i64,
    size: usize,
    align: usize,
    api: bool,
    live: bool,
}

/// Writes the blocks that the code under test obtained, and every call that names a block that is not live.
pub fn convert(evs: &[Ev], log: &mut Log) {
    let mut blocks: HashMap<usize, Block> = HashMap::new();
    let mut lines = vec![];
    let mut n = 0;
    for e in evs {
        let num = |blocks: &HashMap<usize, Block>| match blocks.get(&e.ptr) {
            Some(b) if b.api || !b.live => Some(b.n),
            Some(b) if b.size != e.size || b.align != e.align => Some(b.n),
            Some(_) => None, // the driver's own
            None => {
                if e.api {
                    Some(-1)
                } else {
                    None
                }
            }
        };
        let put = |n: i64, p: usize, size: usize, align: usize, blocks: &mut HashMap<usize, Block>| {
            blocks.insert(p, Block { n, size, align, api: e.api, live: true });
        };
        match e.kind {
            0 => {
                n += 1;
                if e.api {
                    lines.push(format!(r#"{{"op":"a","b":{n},"s":{},"al":{}}}"#, e.size, e.align));
                }
                put(n, e.ptr, e.size, e.align, &mut blocks);
            }
            1 => {
                if let Some(b) = num(&blocks) {
                    lines.push(format!(r#"{{"op":"d","b":{b},"s":{},"al":{}}}"#, e.size, e.align));
                }
                if let Some(b) = blocks.get_mut(&e.ptr) {
                    b.live = false;
                }
            }
            _ => {
                n += 1;
                let own = blocks.get(&e.ptr).map(|b| b.api);
                if let Some(b) = num(&blocks) {
                    lines.push(format!(
                        r#"{{"op":"r","b":{b},"s":{},"al":{},"b2":{n},"s2":{}}}"#,
                        e.size, e.align, e.size2
                    ));
                }
                if let Some(b) = blocks.get_mut(&e.ptr) {
                    b.live = false;
                }
                put(n, e.ptr2, e.size2, e.align, &mut blocks);
                if let Some(own) = own {
                    blocks.get_mut(&e.ptr2).unwrap().api = own;
                }
            }
        }
    }
    for l in &lines {
        log.line(l);
    }
    log.line(r#"{"op":"end"}"#);
    for (p, b) in blocks {
        if !b.live {
            crate::alloc::give_back(p)
        }
    }
}

/// Large ones: long columns, long vectors, large builders, many component sets
fn large(seed: u64, null: &mut Log) {
    use arche_tape::World;
    use std::panic::{catch_unwind, AssertUnwindSafe};
    let mut rng = Rng(seed);
    let step = |f: &mut dyn FnMut()| {
        let _ = catch_unwind(AssertUnwindSafe(|| api(|| f())));
    };
    let mut ks: Vec<usize> = (0..NKINDS).filter(|&k| KINDS[k].size <= 64).collect();
    rng.shuffle(&mut ks);
    null.pending(&format!("large {seed} kinds {ks:?}"));
    match seed % 3 {
        0 => {
            let mut w = api(World::new);
            let mut es = vec![];
            let n = 3000 + rng.below(9000);
            for i in 0..n {
                let m = if i % 97 == 0 { rng.below(8) } else { 7 };
                let cap = if i % 1000 == 999 { Some(rng.below(1 << 20)) } else { None };
                step(&mut || {
                    let mut b = match cap {
                        Some(c) => w.spawn_with_capacity(c),
                        None => w.spawn(),
                    };
                    for j in 0..3 {
                        if m >> j & 1 == 1 {
                            b = (KINDS[ks[j]].with)(b, i as i64 % KINDS[ks[j]].cap.max(1));
                        }
                    }
                    let e = b.build();
                    outside(|| es.push(e));
                });
            }
            rng.shuffle(&mut es);
            for (i, &e) in es.iter().enumerate().take(n / 2) {
                let k = ks[rng.below(4)];
                step(&mut || match i % 3 {
                    0 => (KINDS[k].rem)(&mut w, e),
                    1 if !KINDS[k].owns && !(KINDS[k].has)(&w, e) => (KINDS[k].add)(&mut w, e, 1 % KINDS[k].cap.max(1)),
                    _ => {
                        w.despawn(e);
                    }
                });
            }
            api(|| drop(w));
        }
        1 => {
            let mut w = api(World::new);
            let mut tags = vec![];
            for _ in 0..9 {
                tags.push(api(|| w.spawn().build()));
            }
            for m in 0..400usize {
                let k = ks[m % 3];
                let mut e = None;
                step(&mut || {
                    let mut b = w.spawn();
                    for (j, &t) in tags.iter().enumerate() {
                        if m >> j & 1 == 1 {
                            b = b.with_dynamic(t);
                        }
                    }
                    if m % 2 == 0 {
                        b = (KINDS[k].with)(b, m as i64 % KINDS[k].cap.max(1));
                    }
                    e = Some(b.build());
                });
                if let (Some(e), 0) = (e, m % 5) {
                    for &t in &tags {
                        step(&mut || w.add_component_dynamic(e, t));
                        step(&mut || w.remove_component_dynamic(e, t));
                    }
                }
            }
            for t in tags {
                step(&mut || {
                    w.despawn(t);
                });
            }
            api(|| drop(w));
        }
        _ => {
            // a builder with very much in it, kept and thrown away
            let mut w = api(World::new);
            let mut order: Vec<usize> = (0..NKINDS).collect();
            for end in [true, false, true, false] {
                rng.shuffle(&mut order);
                let cap = [0, 1, 4095, 70000, 1 << 17][rng.below(5)];
                step(&mut || {
                    let mut b = if cap == 0 { w.spawn() } else { w.spawn_with_capacity(cap) };
                    for &k in &order {
                        b = (KINDS[k].with)(b, 1 % KINDS[k].cap.max(1));
                    }
                    if end {
                        b.build();
                    }
                });
            }
            api(|| drop(w));
            for &k in ks.iter().take(4) {
                crate::uvec::long(k, 4000 + rng.below(30000), &mut rng);
            }
        }
    }
}

/// Histories of worlds (even) and of vectors (odd)
pub fn heap(seed: u64, runs: usize, out: &str) {
    let mut log = Log::create(out);
    let mut null = Log::create("/dev/null");
    null.pending = std::fs::File::create(format!("{out}.pending")).unwrap();
    // lazily made buffers of the runtime
    for _ in 0..2 {
        let _ = std::panic::catch_unwind(|| api(|| -> usize { panic!("warm up {}", 1) }));
    }
    log_drop(0, 0);
    take_drops();
    let mut skipped = 0;
    for run in 0..runs {
        log.line(&format!(r#"{{"op":"world","run":{run}}}"#));
        null.n = run;
        record();
        if run % 12 == 5 {
            large(seed + run as u64 / 12, &mut null);
        } else if run % 4 == 3 {
            crate::uvec::one(seed * 7919 + run as u64, 90, &mut null, false);
        } else {
            gen::history(seed * 1_000_003 + run as u64, "C17", &mut null);
        }
        take_drops();
        match take_log() {
            Some(evs) => convert(&evs, &mut log),
            None => {
                skipped += 1;
                log.line(r#"{"op":"end"}"#)
            }
        }
    }
    println!("events {} skipped {skipped}", log.n);
}

/// The same workload over a fixed set of components, again and again; after each round the population is what it was.
pub fn churn(seed: u64, rounds: usize, out: &str) {
    let mut log = Log::create(out);
    let mut null = Log::create("/dev/null");
    null.pending = std::fs::File::create(format!("{out}.pending")).unwrap();
    let mut rng = Rng(seed);
    let mut s = Sim::new();
    let kinds: Vec<usize> = (0..4 + rng.below(3)).map(|_| rng.below(NKINDS)).collect();
    for &k in &kinds {
        s.exec(&Op::Reg(k), &mut null);
    }
    // and one dynamic component without data
    s.exec(&Op::New { md: None, parts: vec![], cap: None, build: true }, &mut null);
    let tag = s.ids.len() - 1;
    log.line(&format!(r#"{{"op":"world","rounds":{rounds},"kinds":{kinds:?}}}"#));
    let work = rng.next();
    let keep = s.ids.len();
    for round in 0..rounds {
        null.pending(&format!("round {round}"));
        let mut r = Rng(work);
        let mut made: Vec<H> = vec![];
        let quiet = &mut null;
        let parts = |r: &mut Rng| -> Vec<Part> {
            let mut ks = kinds.clone();
            ks.sort();
            ks.dedup();
            let mut v: Vec<Part> = ks.into_iter().filter(|_| r.chance(50)).map(Part::T).collect();
            if r.chance(30) {
                v.push(Part::U(tag));
            }
            v
        };
        for _ in 0..24 {
            match r.below(12) {
                0..=4 => {
                    let op = Op::New { md: None, parts: parts(&mut r), cap: None, build: true };
                    s.run_quiet(&op, quiet);
                    made.push(s.ids.len() - 1);
                }
                5 => {
                    s.run_quiet(&Op::New { md: None, parts: parts(&mut r), cap: Some(64), build: false }, quiet);
                }
                6 | 7 => {
                    if let Some(h) = r.pick(&made) {
                        let k = kinds[r.below(kinds.len())];
                        // a refused call may forget the value it was given, so none that owns memory is offered
                        if !KINDS[k].owns || !s.types[k].map_or(false, |c| s.comps[&h].contains(&c)) {
                            s.run_quiet(&Op::Add(h, k), quiet);
                        }
                    }
                }
                8 => {
                    if let Some(h) = r.pick(&made) {
                        s.run_quiet(&Op::Rem(h, kinds[r.below(kinds.len())]), quiet);
                    }
                }
                9 => {
                    if let Some(h) = r.pick(&made) {
                        s.run_quiet(&Op::AddU(h, tag), quiet);
                    }
                }
                10 => {
                    s.run_quiet(&Op::Dq(vec![None, Some((b'R', tag))], false), quiet);
                }
                _ => {
                    if !made.is_empty() {
                        let i = r.below(made.len());
                        let h = made.swap_remove(i);
                        s.run_quiet(&Op::Despawn(h), quiet);
                    }
                }
            }
        }
        r.shuffle(&mut made);
        for h in made {
            s.run_quiet(&Op::Despawn(h), quiet);
        }
        s.forget_dead(keep);
        if round % 10 == 9 {
            log.line(&format!(r#"{{"op":"round","n":{},"held":{}}}"#, round + 1, crate::alloc::LIVE.load(std::sync::atomic::Ordering::SeqCst)));
        }
    }
    log.line(r#"{"op":"end"}"#);
    println!("events {}", log.n);
}
