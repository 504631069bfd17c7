#![allow(static_mut_refs)]
mod alloc;
mod bulk;
mod driver;
mod gen;
mod heap;
mod ids;
mod kinds;
mod locks;
mod query;
mod shapes;
mod toks;
mod uvec;
mod walk;
mod wide;

#[global_allocator]
static A: alloc::Watch = alloc::Watch;

fn main() {
    std::panic::set_hook(Box::new(|_| ()));
    let a: Vec<String> = std::env::args().collect();
    let arg = |n: usize| a.get(n).map(|s| s.as_str()).unwrap_or("");
    match arg(1) {
        // world PROFILE SEED HISTORIES OUT
        "world" => {
            let mut log = driver::Log::create(arg(5));
            let seed: u64 = arg(3).parse().unwrap();
            for n in 0..arg(4).parse::<u64>().unwrap() {
                gen::history(seed * 1_000_003 + n, arg(2), &mut log);
            }
            println!("events {}", log.n);
        }
        // world-walks WALKS PROFILE SEED OUT
        "world-walks" => walk::replay(arg(2), arg(3), arg(4).parse().unwrap(), arg(5)),
        // builder-walks WALKS SEED KIND OUT
        "builder-walks" => walk::builders(arg(2), arg(3).parse().unwrap(), arg(4) == "heap", arg(5)),
        // heap SEED RUNS OUT
        "heap" => heap::heap(arg(2).parse().unwrap(), arg(3).parse().unwrap(), arg(4)),
        // bulk SEED VARIANT DEPTH OUT
        "bulk" => bulk::run(arg(2).parse().unwrap(), arg(3).parse().unwrap(), arg(4).parse().unwrap(), arg(5)),
        // wide SEED TAGS OUT
        "wide" => wide::run(arg(2).parse().unwrap(), arg(3).parse().unwrap(), arg(4)),
        // id-walks WALKS OUT
        "id-walks" => ids::walks(arg(2), arg(3)),
        // ids SEED RUNS OUT
        "ids" => ids::random(arg(2).parse().unwrap(), arg(3).parse().unwrap(), arg(4)),
        // id-bulk SEED SIZE OUT
        "id-bulk" => ids::bulk(arg(2).parse().unwrap(), arg(3).parse().unwrap(), arg(4)),
        // churn SEED ROUNDS OUT
        "churn" => heap::churn(arg(2).parse().unwrap(), arg(3).parse().unwrap(), arg(4)),
        // lock-walks WALKS SEED OUT
        "lock-walks" => locks::walks(arg(2), arg(3).parse().unwrap(), arg(4)),
        // locks SEED RUNS OUT
        "locks" => locks::random(arg(2).parse().unwrap(), arg(3).parse().unwrap(), arg(4)),
        // uvec-replay WALKS ON OUT
        "uvec-replay" => uvec::replay(arg(2), arg(3), arg(4)),
        // uvec SEED RUNS STEPS OUT, with destructors that panic for uvec-throws
        "uvec" | "uvec-throws" => uvec::random(arg(2).parse().unwrap(), arg(3).parse().unwrap(), arg(4).parse().unwrap(), arg(5), arg(1) == "uvec-throws"),
        x => {
            eprintln!("unknown subcommand {x}");
            std::process::exit(2);
        }
    }
}
