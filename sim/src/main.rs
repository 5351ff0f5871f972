#![feature(alloc_error_hook, allocator_api, thread_local)]
mod bigint;
mod case;
mod driver;
mod props;
mod rng;
mod sched;
mod seams;

#[global_allocator]
static GLOBAL: seams::SimGlobal = seams::SimGlobal;

fn main() {
    let a: Vec<String> = std::env::args().collect();
    let code = match a.get(1).map(|s| s.as_str()) {
        Some("check") => driver::check(&a[2], a.get(3).map(|s| s.as_str()).unwrap_or("quick")),
        Some("worker") => driver::worker(&a[2], &a[3], a[4].parse().unwrap(), a[5].parse().unwrap(), &a[6]),
        Some("exec") => driver::exec(&a[2]),
        Some("replay") => driver::replay(&a[2]),
        Some("selftest") => driver::selftest(&a[2], a.get(3).and_then(|s| s.parse().ok()).unwrap_or(20)),
        Some("list") => {
            for p in props::all() {
                println!("{}", p.id());
            }
            0
        }
        _ => {
            eprintln!("usage: gpfsim check ID quick|thorough | replay FILE | selftest ID EPOCHS | list");
            2
        }
    };
    std::process::exit(code);
}
