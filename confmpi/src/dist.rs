//! What Distribution says about a partition
use funspace::space_mpi::decomp2d::Distribution;
use ndarray::Array2;
use serde_json::{json, Value};
use std::io::Write;
use std::panic::{catch_unwind, AssertUnwindSafe};

pub fn table(d: &Distribution<2>) -> Value {
    json!({"sz": d.sz_procs, "st": d.st_procs, "en": d.en_procs})
}

/// own entry of a process; the cut of a global array is logged when `full`, compared otherwise
pub fn own(d: &Distribution<2>, n: [usize; 2], full: bool, shapes: &[[usize; 2]]) -> Value {
    if n[0].saturating_mul(n[1]) > 4_000_000 {
        return json!({"sz": d.sz, "st": d.st, "en": d.en, "np": d.nprocs, "nrank": d.nrank,
                      "axc": d.axis_contig, "len": d.length(), "shapes": shapes, "cutok": true, "cut": []});
    }
    let g = Array2::from_shape_fn((n[0], n[1]), |(i, j)| (i * n[1] + j + 1) as i64);
    let cuts = catch_unwind(AssertUnwindSafe(|| {
        let a: Array2<i64> = d.split_array(&g);
        let mut b = Array2::from_elem((d.sz[0], d.sz[1]), -7i64);
        d.split_array_inplace(&g, &mut b);
        (a, b)
    }));
    let mut ok = false;
    let mut log: Vec<i64> = vec![];
    if let Ok((a, b)) = cuts {
        let want = |i: usize, j: usize| ((i + d.st[0]) * n[1] + j + d.st[1] + 1) as i64;
        ok = a == b && a.shape() == d.sz && a.indexed_iter().all(|((i, j), v)| *v == want(i, j));
        if full {
            log = a.iter().copied().collect();
        }
    }
    json!({"sz": d.sz, "st": d.st, "en": d.en, "np": d.nprocs, "nrank": d.nrank, "axc": d.axis_contig,
           "len": d.length(), "shapes": shapes, "cutok": ok, "cut": log})
}

/// tables that differ, once each
pub fn distinct(ts: Vec<Value>) -> Vec<Value> {
    let mut out: Vec<Value> = vec![];
    for t in ts {
        if !out.contains(&t) {
            out.push(t);
        }
    }
    out
}

pub fn run(lines: &[Value], out: &str) {
    let mut f = std::io::BufWriter::new(std::fs::File::create(out).unwrap());
    for l in lines {
        let n = [l["n"][0].as_u64().unwrap() as usize, l["n"][1].as_u64().unwrap() as usize];
        let np = l["np"].as_u64().unwrap() as usize;
        let full = l["full"].as_bool().unwrap();
        let orient = |axis: usize| -> Result<Value, String> {
            catch_unwind(AssertUnwindSafe(|| {
                let mut tabs = vec![];
                let mut owns = vec![];
                for r in 0..np {
                    let d = Distribution::<2>::new(n, np, r, axis);
                    tabs.push(table(&d));
                    owns.push(own(&d, n, full, &[d.sz]));
                }
                json!({"own": owns, "tabs": distinct(tabs)})
            }))
            .map_err(|e| crate::common::panic_msg(&e))
        };
        let rec = match (orient(0), orient(1)) {
            (Ok(x), Ok(y)) => {
                let said: Vec<Value> = (0..np).map(|r| json!({"np": np, "nrank": r, "glob": []})).collect();
                json!({"n": n, "np": np, "x": x, "y": y, "said": said})
            }
            (a, b) => json!({"n": n, "np": np, "panic": a.err().or(b.err())}),
        };
        writeln!(f, "{rec}").unwrap();
    }
}
