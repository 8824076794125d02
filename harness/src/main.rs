#![recursion_limit = "4096"]
#![cfg_attr(not(feature = "in-process"), allow(dead_code))]

#[cfg(feature = "in-process")]
mod erase;
mod leaf;
mod model;
mod pat;
mod props;
mod rustc;
mod runner;
mod tape;
mod value;

use runner::{Env, Tier};

#[global_allocator]
static ALLOCATOR: runner::Budgeted = runner::Budgeted;

fn main() {
    let args: Vec<String> = std::env::args().collect();
    let arg = |i: usize| args.get(i).map(|s| s.as_str()).unwrap_or("");
    runner::install_panic_hook();
    let code = match arg(1) {
        "run" => {
            let env = Env::from_env(args.get(3).map(|s| s.as_str()));
            match props::find(arg(2)) {
                Some(c) => runner::supervise(&c, &env),
                None => usage(),
            }
        }
        "worker" => {
            let env = Env::from_env(None);
            match props::find(arg(2)) {
                Some(c) => runner::worker(&c, &env, arg(3).as_ref()),
                None => usage(),
            }
        }
        "replay" => {
            let mut env = Env::from_env(None);
            let text = std::fs::read_to_string(arg(2)).expect("cannot read the replay file");
            let data: serde_json::Value = serde_json::from_str(&text).expect("bad replay file");
            if data["tier"] == "thorough" {
                env.tier = Tier::Thorough;
            }
            match props::find(data["property"].as_str().unwrap_or("")) {
                Some(c) => runner::replay(&c, &env, &data),
                None => usage(),
            }
        }
        // For C24.
        #[cfg(feature = "in-process")]
        "history" => props::memory::history_main(arg(2).parse().expect("a number")),
        "list" => {
            for id in props::ids() {
                println!("{id}");
            }
            0
        }
        _ => usage(),
    };
    std::process::exit(code);
}

fn usage() -> i32 {
    eprintln!("usage: check run ID [quick|thorough] | check replay FILE | check list");
    2
}
