#![allow(dead_code)]
mod engine;
mod fcb;
mod gen;
mod http;
mod loopback;
mod mem;
mod norm;
mod props;
mod scene;
mod tape;
mod wide;

#[global_allocator]
static ALLOC: mem::Counting = mem::Counting;

use engine::Tier;
use std::path::Path;

fn tier(s: &str) -> Tier {
    match s {
        "quick" => Tier::Quick,
        "thorough" => Tier::Thorough,
        _ => usage(),
    }
}

fn usage() -> ! {
    eprintln!("usage: fcbcheck run ID quick|thorough SEED | replay ID FILE | list");
    std::process::exit(2)
}

fn main() {
    let a: Vec<String> = std::env::args().collect();
    let a: Vec<&str> = a.iter().map(|s| s.as_str()).collect();
    let props = props::all();
    let find = |id: &str| props.iter().find(|p| p.id == id).unwrap_or_else(|| usage());
    match a.as_slice() {
        [_, "list"] => {
            for p in &props {
                println!("{}", p.id);
            }
        }
        [_, "run", id, t, seed] => std::process::exit(engine::parent_main(find(id), tier(t), seed.parse().unwrap_or_else(|_| usage()))),
        [_, "replay", id, file] => std::process::exit(engine::replay_main(find(id), Path::new(file))),
        [_, "worker", id, t, seed, k, n, total, dir] => {
            let n64 = |s: &str| s.parse::<u64>().unwrap_or_else(|_| usage());
            engine::worker_main(find(id), tier(t), n64(seed), n64(k), n64(n), n64(total), Path::new(dir))
        }
        [_, "case", id, t, inp, out] => {
            let v = serde_json::from_str(&std::fs::read_to_string(inp).unwrap()).unwrap();
            engine::case_main(find(id), tier(t), &v, Path::new(out))
        }
        [_, "probe", id, name, out] => engine::probe_main(find(id), name, Path::new(out)),
        _ => usage(),
    }
}
