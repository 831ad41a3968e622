//! confmpi MODE INPUT OUTPUT
//!   dist    partitions by Distribution::new for every rank (no MPI)
//!   decomp  programs of Decomp.tla, one log file per rank
//!   misuse  calls of Misuse.tla: arrays that do not fit, wrong roles
//!   space   operations of a distributed space against the serial one
#[path = "../../conf/src/common.rs"]
mod common;
mod decomp;
mod dist;
mod misuse;
mod space;

pub fn lines(path: &str) -> Vec<serde_json::Value> {
    std::fs::read_to_string(path)
        .unwrap_or_else(|e| panic!("harness: {path}: {e}"))
        .lines()
        .filter(|l| !l.is_empty())
        .map(|l| serde_json::from_str(l).unwrap())
        .collect()
}

fn main() {
    let a: Vec<String> = std::env::args().collect();
    if a.len() < 4 {
        eprintln!("usage: confmpi MODE INPUT OUTPUT");
        std::process::exit(2);
    }
    if std::env::var("CONF_VERBOSE").is_err() {
        std::panic::set_hook(Box::new(|i| {
            let s = i.to_string();
            if s.contains("harness") {
                eprintln!("{s}");
            }
        }));
    }
    let ls = lines(&a[2]);
    match a[1].as_str() {
        "dist" => dist::run(&ls, &a[3]),
        "decomp" => decomp::run(&ls, &a[3]),
        "misuse" => misuse::run(&ls, &a[3]),
        "space" => space::run(&ls, &a[3]),
        m => {
            eprintln!("harness: mode {m}");
            std::process::exit(2);
        }
    }
}
