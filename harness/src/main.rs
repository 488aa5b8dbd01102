mod aes;
mod alloc;
mod bfile;
mod faults;
mod field;
mod ints;
mod model;
mod props;
#[cfg(feature = "foreign")]
mod refc;
mod rng;
mod runner;
mod sim;
mod util;

use runner::Tier;
use std::path::PathBuf;

#[global_allocator]
static ALLOC: alloc::Counting = alloc::Counting;

fn tier(s: &str) -> Tier {
    if s == "thorough" {
        Tier::Thorough
    } else {
        Tier::Quick
    }
}

fn main() {
    let a: Vec<String> = std::env::args().collect();
    let root = PathBuf::from(std::env::var("CCMON_ROOT").unwrap_or_else(|_| "/verif".into()));
    let code = match a.get(1).map(|s| s.as_str()) {
        Some("check") => {
            let prop = props::get(&a[2]).expect("unknown property");
            let seed = std::env::var("VERIF_SEED").ok().and_then(|s| s.parse().ok()).unwrap_or(1);
            let t = a.get(3).cloned().or(std::env::var("VERIF_TIER").ok()).unwrap_or_default();
            runner::parent(&prop, seed, tier(&t), &root)
        }
        Some("worker") => {
            let prop = props::get(&a[2]).expect("unknown property");
            let only = a.get(6).map(|k| (k.as_str(), a[7].parse().unwrap()));
            runner::worker(&prop, a[3].parse().unwrap(), tier(&a[4]), &PathBuf::from(&a[5]), only)
        }
        Some("digest") => {
            props::identity::digest_main(a[2].parse().unwrap(), a[3].parse().unwrap());
            0
        }
        Some("replay") => {
            let text = std::fs::read_to_string(&a[2]).expect("replay file");
            let get = |k: &str| text.lines().find_map(|l| l.strip_prefix(&format!("{k}\t"))).unwrap_or("").to_string();
            let prop = props::get(&get("property")).expect("unknown property");
            let dir = root.join(format!("harness/target/run/replay-{}", std::process::id()));
            std::fs::create_dir_all(&dir).unwrap();
            let (k, i) = (get("kind"), get("idx").parse().unwrap());
            let c = runner::worker(&prop, get("seed").parse().unwrap(), tier(&get("tier")), &dir, Some((&k, i)));
            println!("{}", std::fs::read_to_string(dir.join("result")).unwrap().replace("\\n", "\n"));
            let _ = std::fs::remove_dir_all(&dir);
            c
        }
        _ => {
            eprintln!("usage: ccmon check PROP [quick|thorough] | replay FILE");
            2
        }
    };
    std::process::exit(code);
}
