#![allow(dead_code)]
mod alloc;
mod engine;
mod gen;
mod lib_api;
mod model;
mod props;
mod refkdbx;
mod refxml;

use std::path::Path;

#[global_allocator]
static A: alloc::Counting = alloc::Counting;

fn main() {
    let args: Vec<String> = std::env::args().collect();
    let arg = |i: usize| args.get(i).map(|s| s.as_str()).unwrap_or("");
    let find = |id: &str| {
        props::all().into_iter().find(|p| p.id == id).unwrap_or_else(|| {
            println!("ERROR: no property {id}");
            std::process::exit(2)
        })
    };
    let code = match arg(1) {
        "check" => engine::check(&find(arg(2))),
        "worker" => {
            let p = find(arg(2));
            if !p.hang_is_violation && p.id != "C08" {
                alloc::EXIT_ON_LIMIT.store(97, std::sync::atomic::Ordering::Relaxed);
            }
            engine::worker(
                &p,
                engine::Tier::from_env(),
                engine::seed_from_env(),
                Path::new(arg(3)),
                Path::new(arg(4)),
            );
            0
        }
        "replay" => engine::replay(&props::all(), Path::new(arg(2))),
        "list" => {
            for p in props::all() {
                println!("{}", p.id);
            }
            0
        }
        "helper" => props::helper(&args[2..]),
        _ => {
            println!("usage: check ID | replay FILE | list");
            2
        }
    };
    std::process::exit(code);
}
