mod api;
mod checks;
mod clock;
mod dict;
mod make;
mod inputs;
mod refparse;
mod refres;
mod pty;
mod reflex;
mod rt;
mod small;
mod walk;
mod write;

use rt::Tier;
use std::path::PathBuf;

fn tier(s: &str) -> Tier {
    if s == "thorough" { Tier::Thorough } else { Tier::Quick }
}

fn main() {
    let a: Vec<String> = std::env::args().collect();
    let get = |i: usize| a.get(i).map(String::as_str).unwrap_or("");
    let find = |id: &str| -> &'static rt::Check {
        match checks::all().into_iter().find(|c| c.id == id) {
            Some(c) => Box::leak(Box::new(c)),
            None => {
                eprintln!("no check for {id}");
                std::process::exit(2);
            }
        }
    };
    let code = match get(1) {
        "check" => {
            let seed = std::env::var("VERIF_SEED").ok().and_then(|s| s.parse().ok()).unwrap_or(1);
            rt::check(find(get(2)), tier(get(3)), seed, &PathBuf::from(get(4)))
        }
        "worker" => rt::worker(
            find(get(2)),
            rt::WorkerArgs {
                shard: get(3).parse().unwrap(),
                shards: get(4).parse().unwrap(),
                tier: tier(get(5)),
                seed: get(6).parse().unwrap(),
                dir: PathBuf::from(get(7)),
                limit: get(8).parse().unwrap(),
            },
        ),
        "replay" => rt::replay(find(get(2)), &PathBuf::from(get(3))),
        "helper" => checks::helper(&a[2..]),
        _ => {
            eprintln!("usage: vh check|worker|replay|helper ...");
            2
        }
    };
    std::process::exit(code);
}
