//! conf MODE INPUT REPORT [ARGS]
mod args;
mod common;
mod field;
mod helpers;
mod history;
mod lanes;
mod ops;
use common::Report;

fn lines(path: &str) -> Vec<serde_json::Value> {
    std::fs::read_to_string(path)
        .unwrap_or_else(|e| panic!("harness: {path}: {e}"))
        .lines()
        .filter(|l| !l.is_empty())
        .map(|l| serde_json::from_str(l).unwrap())
        .collect()
}

fn main() {
    let a: Vec<String> = std::env::args().collect();
    if a.len() < 4 {
        eprintln!("usage: conf MODE INPUT REPORT");
        std::process::exit(2);
    }
    if std::env::var("CONF_VERBOSE").is_err() {
        std::panic::set_hook(Box::new(|i| {
            let s = i.to_string();
            if s.contains("harness") {
                eprintln!("{s}");
            }
        }));
    }
    if a[1] == "history-ask" {
        return history::ask(&serde_json::from_str(&a[2]).expect("harness: query"));
    }
    let mut r = Report::new(&a[3]);
    let ls = lines(&a[2]);
    match a[1].as_str() {
        "field" => field::run(&ls, &mut r, &["f64".to_string()]),
        "field32" => field::run(&ls, &mut r, &["f32".to_string()]),
        "lines" => field::lines(&ls, &mut r),
        "par" => field::par(&ls, &mut r),
        "forms" => field::forms(&ls, &mut r),
        "types" => field::types(&ls, &mut r),
        "types_mat" => ops::types_mat(&ls, &mut r),
        "history" => history::run(&ls, &mut r, &a[4]),
        "history-ref" => history::reference(&ls, &mut r, &a[4]),
        "args" => args::run(&ls, &mut r),
        "helpers" => helpers::run(&ls, &mut r),
        "lanes" => lanes::run(&ls, &mut r, &a[4]),
        "sizes" => ops::sizes(&ls, &mut r),
        "matrices" => ops::matrices(&ls, &mut r),
        "bc" => ops::bc(&ls, &mut r),
        "conv4" => ops::conv4(&ls, &mut r),
        "axes" => ops::axis_queries(&ls, &mut r),
        "laws" => ops::laws(&ls, &mut r),
        m => {
            eprintln!("harness: mode {m}");
            std::process::exit(2);
        }
    }
    r.finish();
}
