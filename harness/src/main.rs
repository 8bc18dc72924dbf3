mod alloc;
mod drive;
mod dsl;
mod engine;
mod fsx;
mod logging;
mod props;

use std::path::Path;

#[global_allocator]
static ALLOC: alloc::Counting = alloc::Counting;

fn main() {
    logging::install();
    let args: Vec<String> = std::env::args().skip(1).collect();
    let a: Vec<&str> = args.iter().map(|s| s.as_str()).collect();
    let verif = std::env::var("VERIF_DIR").unwrap_or_else(|_| "/verif".into());
    let code = match a.as_slice() {
        ["run", id, tier, seed] => match props::facets(id) {
            Some(f) => engine::run(id, f, tier, seed.parse().unwrap_or(1), Path::new(&verif)),
            None => {
                eprintln!("unknown property {}", id);
                2
            }
        },
        ["worker", id, tier, seed, shard, n, dir] => {
            engine::worker(id, props::facets(id).expect("property"), tier, seed.parse().unwrap(),
                           shard.parse().unwrap(), n.parse().unwrap(), Path::new(dir));
            0
        }
        ["replay", file] => engine::replay_cmd(file),
        ["replay-inner", file] => engine::replay_inner(props::facets, file),
        ["list"] => {
            for id in props::ALL {
                for f in props::facets(id).unwrap() {
                    println!("{} {} quick={} thorough={}", id, f.name, f.quick, f.thorough);
                }
            }
            0
        }
        other => match props::helper(other) {
            Some(c) => c,
            None => {
                eprintln!("usage: pbt run ID TIER SEED | replay FILE | list");
                2
            }
        },
    };
    std::process::exit(code);
}
