//! Traces of the array operations: a user-defined base that logs every one-dimensional
//! call (worker, lane, memory it reads and writes), checked by ParTrace.tla.
use crate::common::*;
use funspace::{BaseFromOrtho, BaseGradient, BaseSize, BaseTransform};
use ndarray::{Array, Axis, Dimension, Ix1, Ix2, Ix3, Ix4, IxDyn};
use serde_json::{json, Value};
use std::collections::HashMap;
use std::io::Write;
use std::sync::atomic::{AtomicUsize, Ordering::SeqCst};
use std::sync::Mutex;
use std::thread::ThreadId;
use std::time::{Duration, Instant};

enum Ev {
    B { t: ThreadId, l: i64, i: (usize, usize), o: (usize, usize), ok: bool },
    E { t: ThreadId, l: i64, ok: bool },
}
struct Traced {
    phys: usize,
    spec: usize,
    orth: usize,
    overlap: bool,
    log: Mutex<Vec<Ev>>,
    active: AtomicUsize,
    calls: AtomicUsize,
    overlapped: AtomicUsize,
}
const W: f64 = 16.;
const OUT: f64 = 1e6;

fn span(s: &[f64]) -> (usize, usize) {
    let a = s.as_ptr() as usize;
    (a, a + std::mem::size_of_val(s))
}

impl Traced {
    fn run(&self, x: &[f64], y: &mut [f64], nin: usize, nout: usize) {
        let t = std::thread::current().id();
        let v = x.first().copied().unwrap_or(-1.);
        let l = if v >= 0. && (v / W).fract() == 0. { (v / W) as i64 } else { -1 };
        let ok = l >= 0
            && x.len() == nin
            && y.len() == nout
            && x.iter().enumerate().all(|(q, z)| *z == l as f64 * W + q as f64);
        self.log.lock().unwrap().push(Ev::B { t, l, i: span(x), o: span(y), ok });
        self.active.fetch_add(1, SeqCst);
        let c = self.calls.fetch_add(1, SeqCst);
        let h = y.len() / 2;
        let val = |q: usize| OUT + l as f64 * W + q as f64;
        for q in 0..h {
            y[q] = val(q);
        }
        if self.overlap && c < 48 {
            // stay inside until somebody else is inside, too
            let t0 = Instant::now();
            while t0.elapsed() < Duration::from_micros(400) {
                if self.active.load(SeqCst) > 1 {
                    self.overlapped.fetch_add(1, SeqCst);
                    for _ in 0..20 {
                        std::thread::yield_now();
                    }
                    break;
                }
                std::hint::spin_loop();
            }
        }
        for q in h..y.len() {
            y[q] = val(q);
        }
        if self.overlap {
            std::thread::yield_now();
        }
        let ok = (0..y.len()).all(|q| y[q] == val(q))
            && x.iter().enumerate().all(|(q, z)| *z == l as f64 * W + q as f64);
        self.active.fetch_sub(1, SeqCst);
        self.log.lock().unwrap().push(Ev::E { t, l, ok });
    }
}
impl BaseSize for Traced {
    fn len_phys(&self) -> usize {
        self.phys
    }
    fn len_spec(&self) -> usize {
        self.spec
    }
    fn len_orth(&self) -> usize {
        self.orth
    }
}
impl BaseFromOrtho<f64> for Traced {
    fn to_ortho_slice(&self, x: &[f64], y: &mut [f64]) {
        self.run(x, y, self.spec, self.orth);
    }
    fn from_ortho_slice(&self, x: &[f64], y: &mut [f64]) {
        self.run(x, y, self.orth, self.spec);
    }
}
impl BaseTransform for Traced {
    type Physical = f64;
    type Spectral = f64;
    fn forward_slice(&self, x: &[f64], y: &mut [f64]) {
        self.run(x, y, self.phys, self.spec);
    }
    fn backward_slice(&self, x: &[f64], y: &mut [f64]) {
        self.run(x, y, self.spec, self.phys);
    }
}
impl BaseGradient<f64> for Traced {
    fn gradient_slice(&self, x: &[f64], y: &mut [f64], n: usize) {
        assert_eq!(n, 2, "order of differentiation passed on");
        self.run(x, y, self.spec, self.orth);
    }
}

/// lane ids in logical order, `first` being the first one
fn input<D: Dimension>(shape: &[usize], axis: usize, first: usize) -> Array<f64, D> {
    let mut a = Array::<f64, D>::zeros(
        Array::<f64, IxDyn>::zeros(IxDyn(shape)).into_dimensionality::<D>().unwrap().raw_dim(),
    );
    for (z, mut lane) in a.lanes_mut(Axis(axis)).into_iter().enumerate() {
        for (q, x) in lane.iter_mut().enumerate() {
            *x = (first + z) as f64 * W + q as f64;
        }
    }
    a
}
fn placed<D: Dimension>(y: &Array<f64, D>, axis: usize) -> Vec<i64> {
    y.lanes(Axis(axis))
        .into_iter()
        .map(|lane| {
            let v = (lane[0] - OUT) / W;
            if v >= 0.
                && v.fract() == 0.
                && lane.iter().enumerate().all(|(q, x)| *x == OUT + v * W + q as f64)
            {
                v as i64
            } else {
                -1
            }
        })
        .collect()
}

fn call<D: Dimension>(b: &Traced, op: &str, form: &str, x: &Array<f64, D>, axis: usize,
                      oshape: &[usize]) -> Array<f64, D> {
    let mut o = Array::from_elem(IxDyn(oshape), f64::NAN).into_dimensionality::<D>().unwrap();
    match (op, form) {
        ("ToOrtho", "alloc") => return b.to_ortho(x, axis),
        ("ToOrtho", "par") => return b.to_ortho_par(x, axis),
        ("ToOrtho", "inplace") => b.to_ortho_inplace(x, &mut o, axis),
        ("ToOrtho", _) => b.to_ortho_inplace_par(x, &mut o, axis),
        ("FromOrtho", "alloc") => return b.from_ortho(x, axis),
        ("FromOrtho", "par") => return b.from_ortho_par(x, axis),
        ("FromOrtho", "inplace") => b.from_ortho_inplace(x, &mut o, axis),
        ("FromOrtho", _) => b.from_ortho_inplace_par(x, &mut o, axis),
        ("Forward", "alloc") => return b.forward(x, axis),
        ("Forward", "par") => return b.forward_par(x, axis),
        ("Forward", "inplace") => b.forward_inplace(x, &mut o, axis),
        ("Forward", _) => b.forward_inplace_par(x, &mut o, axis),
        ("Backward", "alloc") => return b.backward(x, axis),
        ("Backward", "par") => return b.backward_par(x, axis),
        ("Backward", "inplace") => b.backward_inplace(x, &mut o, axis),
        ("Backward", _) => b.backward_inplace_par(x, &mut o, axis),
        ("Gradient", "alloc") => return b.gradient(x, 2, axis),
        ("Gradient", "par") => return b.gradient_par(x, 2, axis),
        ("Gradient", "inplace") => b.gradient_inplace(x, &mut o, 2, axis),
        ("Gradient", _) => b.gradient_inplace_par(x, &mut o, 2, axis),
        _ => panic!("harness: op {op}"),
    }
    o
}

fn one<D: Dimension + Send + Sync>(v: &Value, pools: &mut HashMap<usize, rayon::ThreadPool>,
                                   r: &mut Report, out: &mut Vec<Value>) {
    let id = v["id"].as_u64().unwrap();
    let op = v["op"].as_str().unwrap();
    let form = v["form"].as_str().unwrap();
    let shape = ints(&v["shape"]); // of the input
    let axis = v["axis"].as_u64().unwrap() as usize;
    let threads = v["threads"].as_u64().unwrap() as usize;
    let nout = v["nout"].as_u64().unwrap() as usize;
    let twice = v["twice"].as_bool().unwrap();
    let nin = shape[axis];
    let (phys, spec, orth) = match op {
        "Forward" => (nin, nout, 99),
        "Backward" => (nout, nin, 99),
        "FromOrtho" => (99, nout, nin),
        _ => (99, nin, nout),
    };
    let lanes: usize = shape.iter().enumerate().filter(|(a, _)| *a != axis).map(|x| x.1).product();
    let b = Traced {
        phys,
        spec,
        orth,
        overlap: threads > 1,
        log: Mutex::new(vec![]),
        active: AtomicUsize::new(0),
        calls: AtomicUsize::new(0),
        overlapped: AtomicUsize::new(0),
    };
    let mut oshape = shape.clone();
    oshape[axis] = nout;
    r.at(format!("trace {id}: {op} {form} {shape:?} axis {axis} threads {threads} twice {twice}"));
    r.cases += 1;
    let xs: Vec<Array<f64, D>> =
        (0..1 + usize::from(twice)).map(|i| input(&shape, axis, i * lanes)).collect();
    let pool = pools
        .entry(threads)
        .or_insert_with(|| rayon::ThreadPoolBuilder::new().num_threads(threads).build().unwrap());
    let res = r.call(op, || {
        pool.install(|| {
            if twice {
                let (a, c) = rayon::join(
                    || call(&b, op, form, &xs[0], axis, &oshape),
                    || call(&b, op, form, &xs[1], axis, &oshape),
                );
                vec![a, c]
            } else {
                vec![call(&b, op, form, &xs[0], axis, &oshape)]
            }
        })
    });
    let Some(res) = res else { return };
    let log = b.log.into_inner().unwrap();
    // worker ids in order of appearance, compressed addresses
    let mut ws: HashMap<ThreadId, usize> = HashMap::new();
    let mut ends: Vec<usize> = vec![];
    for e in &log {
        let t = match e {
            Ev::B { t, i, o, .. } => {
                ends.extend([i.0, i.1, o.0, o.1]);
                t
            }
            Ev::E { t, .. } => t,
        };
        let k = ws.len() + 1;
        ws.entry(*t).or_insert(k);
    }
    ends.sort_unstable();
    ends.dedup();
    let at = |p: usize| ends.binary_search(&p).unwrap();
    let mut ev: Vec<Value> = log
        .iter()
        .map(|e| match e {
            Ev::B { t, l, i, o, ok } => json!({"k": "B", "w": ws[t], "l": l,
                "in": [at(i.0), at(i.1)], "out": [at(o.0), at(o.1)], "ok": ok}),
            Ev::E { t, l, ok } => json!({"k": "E", "w": ws[t], "l": l, "ok": ok}),
        })
        .collect();
    let pl: Vec<i64> = res
        .iter()
        .flat_map(|a| if a.shape() == oshape { placed(a, axis) } else { vec![] })
        .collect();
    ev.push(json!({"k": "R", "placed": pl}));
    r.count(&format!("{form}:{threads}"));
    *r.counts.entry("overlapped calls".into()).or_insert(0) +=
        b.overlapped.load(SeqCst) as u64;
    *r.counts.entry("events".into()).or_insert(0) += ev.len() as u64;
    if r.cases % 41 == 7 {
        r.sample(json!({"trace": id, "ev": ev.iter().take(3).collect::<Vec<_>>()}));
    }
    out.push(json!({"id": id, "lanes": lanes * res.len(), "workers": ws.len().max(1), "ev": ev,
        "what": r.now}));
}

pub fn run(lines: &[Value], r: &mut Report, path: &str) {
    let mut pools = HashMap::new();
    let mut out = vec![];
    for v in lines {
        if v["dyn"].as_bool().unwrap() {
            one::<IxDyn>(v, &mut pools, r, &mut out);
            continue;
        }
        match v["shape"].as_array().unwrap().len() {
            1 => one::<Ix1>(v, &mut pools, r, &mut out),
            2 => one::<Ix2>(v, &mut pools, r, &mut out),
            3 => one::<Ix3>(v, &mut pools, r, &mut out),
            _ => one::<Ix4>(v, &mut pools, r, &mut out),
        }
    }
    let mut f = std::fs::File::create(path).unwrap();
    f.write_all(serde_json::to_string(&out).unwrap().as_bytes()).unwrap();
}
