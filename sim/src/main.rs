//! Deterministic simulation of pdf-writer. See /verif/DESIGN.md.
#![feature(alloc_error_hook)]

mod alloc;
mod builders;
mod content;
mod ctx;
mod driver;
mod extremes;
mod memory;
mod merging;
mod model;
mod oracle;
mod plan;
mod props;
mod reader;
mod reject;
mod typed;
mod vast;
mod world;

#[global_allocator]
static A: alloc::SimAlloc = alloc::SimAlloc;

#[repr(C)]
struct RLimit(u64, u64);
extern "C" {
    fn setrlimit(resource: i32, rlim: *const RLimit) -> i32;
}

fn main() {
    alloc::install_hook();
    std::panic::set_hook(Box::new(|_| {}));
    let args: Vec<String> = std::env::args().collect();
    let a: Vec<&str> = args.iter().skip(1).map(|s| s.as_str()).collect();
    if matches!(a.first(), Some(&"worker") | Some(&"attempt")) {
        // A runaway library call ends as a failed allocation, not as a machine without memory.
        unsafe {
            setrlimit(9, &RLimit(10 << 30, 10 << 30));
            setrlimit(4, &RLimit(0, 0));
        }
    }
    let args2 = args.clone();
    let code = std::thread::Builder::new()
        .stack_size(512 << 20)
        .spawn(move || {
            let a: Vec<&str> = args2.iter().skip(1).map(|s| s.as_str()).collect();
            run(&a)
        })
        .unwrap()
        .join()
        .unwrap_or(4);
    std::process::exit(code);
}

fn run(a: &[&str]) -> i32 {
    let n = |i: usize| a.get(i).and_then(|s| s.parse::<u64>().ok()).unwrap_or(0);
    match a.first() {
        Some(&"check") if a.len() == 2 => driver::check(a[1]),
        Some(&"worker") if a.len() == 10 => driver::worker(a[1], n(2), n(3), n(4), n(5), n(6), n(7) as u32, a[8], n(9)),
        Some(&"attempt") if a.len() == 3 => driver::attempt_child(a[1], n(2) as u32),
        Some(&"replay") if a.len() == 2 => driver::replay(a[1]),
        Some(&"list") => {
            for p in props::ALL {
                println!("{}", p.id);
            }
            0
        }
        _ => {
            eprintln!("usage: sim check <ID> | replay <file> | list");
            2
        }
    }
}
