//! Shared pieces of the replay harness: scalars, tensors, cases, reporting.
#![allow(dead_code)]
use funspace::{BaseC2c, BaseR2c, BaseR2r, FloatNum, ScalarNum};
use ndarray::{Array, ArrayBase, Data, Dimension, IxDyn};
use num_complex::Complex;
use serde_json::{json, Value};
use std::collections::BTreeMap;
use std::io::Write;
use std::panic::{catch_unwind, AssertUnwindSafe};

/// Scalar the code under test can compute with
pub trait Num: ScalarNum {
    const CPLX: bool;
    const NAME: &'static str;
    fn mk(re: f64, im: f64) -> Self;
    fn parts(self) -> (f64, f64);
    fn dirty() -> Self {
        Self::mk(f64::NAN, f64::NAN)
    }
    fn bits(self) -> (u64, u64) {
        let (a, b) = self.parts();
        (a.to_bits(), b.to_bits())
    }
}
impl Num for f64 {
    const CPLX: bool = false;
    const NAME: &'static str = "f64";
    fn mk(re: f64, _: f64) -> Self {
        re
    }
    fn parts(self) -> (f64, f64) {
        (self, 0.)
    }
}
impl Num for f32 {
    const CPLX: bool = false;
    const NAME: &'static str = "f32";
    fn mk(re: f64, _: f64) -> Self {
        re as f32
    }
    fn parts(self) -> (f64, f64) {
        (f64::from(self), 0.)
    }
}
impl Num for Complex<f64> {
    const CPLX: bool = true;
    const NAME: &'static str = "c64";
    fn mk(re: f64, im: f64) -> Self {
        Complex::new(re, im)
    }
    fn parts(self) -> (f64, f64) {
        (self.re, self.im)
    }
}
impl Num for Complex<f32> {
    const CPLX: bool = true;
    const NAME: &'static str = "c32";
    fn mk(re: f64, im: f64) -> Self {
        Complex::new(re as f32, im as f32)
    }
    fn parts(self) -> (f64, f64) {
        (f64::from(self.re), f64::from(self.im))
    }
}

#[derive(Clone, Copy, PartialEq, Eq, Debug, Hash, PartialOrd, Ord)]
pub enum Kind {
    CH,
    DI,
    NE,
    DN,
    BA,
    BB,
    R2,
    C2,
    ID,
}
pub use Kind::*;
pub const KINDS: [Kind; 8] = [CH, DI, NE, DN, BA, BB, R2, C2];

impl Kind {
    pub fn parse(s: &str) -> Kind {
        match s {
            "CH" => CH,
            "DI" => DI,
            "NE" => NE,
            "DN" => DN,
            "BA" => BA,
            "BB" => BB,
            "R2" => R2,
            "C2" => C2,
            "ID" => ID,
            _ => panic!("harness: kind {s}"),
        }
    }
    pub fn is_cheb(self) -> bool {
        matches!(self, CH | DI | NE | DN | BA | BB)
    }
    pub fn is_comp(self) -> bool {
        self.is_cheb() && self != CH
    }
    pub fn nbc(self) -> usize {
        match self {
            DI | NE | DN => 2,
            BA | BB => 4,
            _ => 0,
        }
    }
    pub fn len_orth(self, n: usize) -> usize {
        if self == R2 {
            n / 2 + 1
        } else {
            n
        }
    }
    pub fn len_spec(self, n: usize) -> usize {
        self.len_orth(n) - self.nbc()
    }
}

pub fn r2r<A: FloatNum>(k: Kind, n: usize) -> BaseR2r<A> {
    match k {
        CH => funspace::chebyshev(n),
        DI => funspace::cheb_dirichlet(n),
        NE => funspace::cheb_neumann(n),
        DN => funspace::cheb_dirichlet_neumann(n),
        BA => funspace::cheb_biharmonic_a(n),
        BB => funspace::cheb_biharmonic_b(n),
        _ => panic!("harness: not an r2r base"),
    }
}
pub fn r2c<A: FloatNum>(n: usize) -> BaseR2c<A> {
    funspace::fourier_r2c(n)
}
pub fn c2c<A: FloatNum>(n: usize) -> BaseC2c<A> {
    funspace::fourier_c2c(n)
}

/// Pairs (re, im) in row-major order
#[derive(Clone, Debug, PartialEq)]
pub struct Tensor {
    pub shape: Vec<usize>,
    pub v: Vec<(f64, f64)>,
}

#[derive(Clone, Copy, PartialEq, Eq, Debug)]
pub enum Part {
    Re,
    Im,
    Both,
}

impl Tensor {
    pub fn max(&self) -> f64 {
        self.v.iter().fold(0., |a, x| f64::max(a, mag(*x)))
    }
    pub fn sum_abs(&self) -> f64 {
        self.v.iter().map(|x| mag(*x)).sum()
    }
    pub fn part(&self, p: Part) -> Tensor {
        Tensor {
            shape: self.shape.clone(),
            v: self
                .v
                .iter()
                .map(|x| match p {
                    Part::Re => (x.0, 0.),
                    Part::Im => (x.1, 0.),
                    Part::Both => *x,
                })
                .collect(),
        }
    }
    pub fn arr<T: Num, D: Dimension>(&self) -> Array<T, D> {
        Array::from_shape_vec(IxDyn(&self.shape), self.v.iter().map(|x| T::mk(x.0, x.1)).collect())
            .unwrap()
            .into_dimensionality::<D>()
            .unwrap()
    }
    pub fn of<T: Num, S: Data<Elem = T>, D: Dimension>(a: &ArrayBase<S, D>) -> Tensor {
        Tensor { shape: a.shape().to_vec(), v: a.iter().map(|x| x.parts()).collect() }
    }
    /// apply a matrix (rows x cols) of complex weights along an axis
    pub fn apply(&self, m: &[Vec<(f64, f64)>], a: usize) -> Tensor {
        let l = self.shape[a];
        let inner: usize = self.shape[a + 1..].iter().product();
        let outer: usize = self.shape[..a].iter().product();
        let nr = m.len();
        let mut shape = self.shape.clone();
        shape[a] = nr;
        let mut v = vec![(0., 0.); outer * nr * inner];
        for o in 0..outer {
            for (r, row) in m.iter().enumerate() {
                for i in 0..inner {
                    let (mut re, mut im) = (0., 0.);
                    for q in 0..l {
                        let (x, y) = self.v[(o * l + q) * inner + i];
                        let (c, s) = row[q];
                        re += c * x - s * y;
                        im += c * y + s * x;
                    }
                    v[(o * nr + r) * inner + i] = (re, im);
                }
            }
        }
        Tensor { shape, v }
    }
    /// running maximum of magnitudes along an axis, from the end (or over the whole axis)
    pub fn suffix_max(&self, a: usize, whole: bool) -> Tensor {
        let l = self.shape[a];
        let inner: usize = self.shape[a + 1..].iter().product();
        let outer: usize = self.shape[..a].iter().product();
        let mut t = self.clone();
        for o in 0..outer {
            for i in 0..inner {
                let mut m = 0.;
                for q in (0..l).rev() {
                    let ix = (o * l + q) * inner + i;
                    m = f64::max(m, mag(t.v[ix]));
                    t.v[ix] = (m, 0.);
                }
                if whole {
                    for q in 0..l {
                        t.v[(o * l + q) * inner + i] = (m, 0.);
                    }
                }
            }
        }
        t
    }
}

pub fn mag(x: (f64, f64)) -> f64 {
    x.0.abs().max(x.1.abs())
}

/// cos(pi * a / b) with the argument reduced exactly
pub fn cospi(a: usize, b: usize) -> f64 {
    let a = a % (2 * b);
    let a = if a > b { 2 * b - a } else { a }; // cos is even around b
    // now 0 <= a <= b
    if 2 * a == b {
        0.
    } else if 2 * a < b {
        cos_first(a, b)
    } else {
        -cos_first(b - a, b)
    }
}
fn cos_first(a: usize, b: usize) -> f64 {
    // 0 <= a/b < 1/2
    let pi = std::f64::consts::PI;
    if 4 * a <= b {
        (pi * a as f64 / b as f64).cos()
    } else {
        (pi * (b - 2 * a) as f64 / (2 * b) as f64).sin()
    }
}
pub fn sinpi(a: usize, b: usize) -> f64 {
    // sin(pi a / b) = cos(pi (2a - b) / 2b)
    let s = 2 * a + 3 * b; // cos(pi a/b - pi/2) = cos(pi a/b + 3pi/2)
    cospi(s, 2 * b)
}

/// evaluation matrix of the orthogonal functions on the grid: rows = grid points
pub fn eval_matrix(k: Kind, n: usize) -> Vec<Vec<(f64, f64)>> {
    match k {
        R2 => (0..n)
            .map(|m| {
                (0..n / 2 + 1)
                    .map(|j| {
                        let w = if j == 0 || 2 * j == n { 1. } else { 2. } / n as f64;
                        (w * cospi(2 * j * m, n), w * sinpi(2 * j * m, n))
                    })
                    .collect()
            })
            .collect(),
        C2 => (0..n)
            .map(|m| {
                (0..n)
                    .map(|j| {
                        let w = 1. / n as f64;
                        // e^{i 2 pi k m / n}; index j and its signed wavenumber agree on the grid
                        (w * cospi(2 * j * m, n), w * sinpi(2 * j * m, n))
                    })
                    .collect()
            })
            .collect(),
        ID => panic!("harness: eval of identity axis"),
        _ => (0..n)
            .map(|m| (0..n).map(|j| (cospi(j * (n - 1 - m), n - 1), 0.)).collect())
            .collect(),
    }
}

/// The function with orthogonal coefficients u on the grid: the only real-number
/// oracle of the replay.  The real-to-complex axis comes last and keeps the real part.
pub fn to_grid(ax: &[(Kind, usize)], u: &Tensor) -> Tensor {
    let mut t = u.clone();
    for (a, (k, n)) in ax.iter().enumerate() {
        if *k != R2 && *k != ID {
            t = t.apply(&eval_matrix(*k, *n), a);
        }
    }
    for (a, (k, n)) in ax.iter().enumerate() {
        if *k == R2 {
            t = t.apply(&eval_matrix(*k, *n), a);
            for x in &mut t.v {
                x.1 = 0.;
            }
        }
    }
    t
}
/// bound on the magnitude of any partial sum of that evaluation
pub fn grid_scale(ax: &[(Kind, usize)], u: &Tensor) -> f64 {
    let mut s = u.sum_abs();
    for (k, n) in ax {
        match k {
            R2 => s *= 2. / *n as f64,
            C2 => s *= 2. / *n as f64,
            _ => {}
        }
    }
    // identity axes do not sum, but the bound stays a bound
    s
}

#[derive(Clone, Debug)]
pub struct Case {
    pub i: usize,
    pub cfg: i64,
    pub ax: Vec<(Kind, usize)>,
    pub op: String,
    pub d: Vec<usize>,
    pub scale: Option<Vec<f64>>,
    pub pre: Tensor,
    pub post: Tensor,
    pub prep: String,
    pub postp: String,
    /// magnitude of the data the tolerances refer to, when it is not that of `pre`
    pub premax: Option<f64>,
}

pub fn shape_of(ax: &[(Kind, usize)], rep: &str) -> Vec<usize> {
    ax.iter()
        .map(|(k, n)| match rep {
            "spec" => k.len_spec(*n),
            "grid" => *n,
            _ => k.len_orth(*n),
        })
        .collect()
}

pub fn nums(v: &Value) -> Vec<f64> {
    v.as_array().unwrap().iter().map(|x| x.as_f64().unwrap()).collect()
}
pub fn ints(v: &Value) -> Vec<usize> {
    v.as_array().unwrap().iter().map(|x| x.as_u64().unwrap() as usize).collect()
}
pub fn axes(v: &Value) -> Vec<(Kind, usize)> {
    v.as_array()
        .unwrap()
        .iter()
        .map(|x| (Kind::parse(x[0].as_str().unwrap()), x[1].as_u64().unwrap() as usize))
        .collect()
}
fn tensor(v: &Value, shape: Vec<usize>) -> Tensor {
    let re = nums(&v[0]);
    let im = nums(&v[1]);
    assert_eq!(re.len(), shape.iter().product::<usize>(), "harness: tensor size");
    Tensor { shape, v: re.into_iter().zip(im).collect() }
}

/// outer product (the spaces are tensor products: Field.tla, AxisOrder)
fn outer(a: &Tensor, b: &Tensor) -> Tensor {
    let mul = |x: (f64, f64), y: (f64, f64)| (x.0 * y.0 - x.1 * y.1, x.0 * y.1 + x.1 * y.0);
    Tensor {
        shape: a.shape.iter().chain(&b.shape).copied().collect(),
        v: a.v.iter().flat_map(|x| b.v.iter().map(move |y| mul(*x, *y))).collect(),
    }
}

/// multiples of one line, all different, as many as `m`
fn tile(t: &Tensor, m: &[f64], before: usize, after: usize) -> Tensor {
    let mut shape = t.shape.clone();
    let mut v = Vec::with_capacity(t.v.len() * m.len());
    for b in 0..before {
        for x in &t.v {
            v.extend((0..after).map(|a| (x.0 * m[b * after + a], x.1 * m[b * after + a])));
        }
    }
    if before != 1 {
        shape.insert(0, before);
    }
    if after != 1 {
        shape.push(after);
    }
    Tensor { shape, v }
}

impl Case {
    pub fn parse(v: &Value) -> Case {
        if let Some(parts) = v.get("outer") {
            let ps: Vec<Case> = parts.as_array().unwrap().iter().map(Case::parse).collect();
            let grid = ps[0].op == "Backward" || ps[0].op == "Forward";
            let real = grid && ps.iter().any(|p| p.ax[0].0 == Kind::R2);
            // a grid with a real-to-complex axis is real
            let take = |p: &Case| if real && p.ax[0].0 != Kind::R2 { p.part(Part::Re) } else { p.clone() };
            let mut c = take(&ps[0]);
            for p in &ps[1..] {
                let p = take(p);
                c.ax.extend(&p.ax);
                c.d.extend(&p.d);
                c.pre = outer(&c.pre, &p.pre);
                c.post = outer(&c.post, &p.post);
                assert!(c.op == p.op && c.prep == p.prep && c.postp == p.postp, "harness: outer");
            }
            c.i = v["i"].as_u64().unwrap() as usize;
            c.scale = v.get("scale").map(nums);
            return c;
        }
        if let Some(t) = v.get("tile") {
            let t = ints(t);
            let mut w = v.clone();
            w.as_object_mut().unwrap().remove("tile");
            let mut c = Case::parse(&w);
            let m: Vec<f64> = (0..t[0] * t[1])
                .map(|l| if l % 13 == 12 { 0. } else { (1. + (l % 1021) as f64 / 1024.) * (1. - 2. * (l % 3 / 2) as f64) })
                .collect();
            c.pre = tile(&c.pre, &m, t[0], t[1]);
            c.post = tile(&c.post, &m, t[0], t[1]);
            if t[0] != 1 {
                c.ax.insert(0, (Kind::ID, t[0]));
                c.d.insert(0, 0);
            }
            if t[1] != 1 {
                c.ax.push((Kind::ID, t[1]));
                c.d.push(0);
            }
            return c;
        }
        let ax = axes(&v["ax"]);
        let prep = v["prep"].as_str().unwrap().to_string();
        let postp = v["postp"].as_str().unwrap().to_string();
        // operations are linear: a power of two times the data is as exact as the data
        let mul = 2f64.powi(v.get("pow").map_or(0, |x| x.as_i64().unwrap() as i32));
        let times = |mut t: Tensor| {
            for x in &mut t.v {
                *x = (x.0 * mul, x.1 * mul);
            }
            t
        };
        Case {
            i: v["i"].as_u64().unwrap() as usize,
            cfg: v["cfg"].as_i64().unwrap(),
            pre: times(tensor(&v["pre"], shape_of(&ax, &prep))),
            post: times(tensor(&v["post"], shape_of(&ax, &postp))),
            ax,
            op: v["op"].as_str().unwrap().to_string(),
            d: ints(&v["d"]),
            scale: v.get("scale").map(nums),
            premax: None,
            prep,
            postp,
        }
    }
    pub fn part(&self, p: Part) -> Case {
        let mut c = self.clone();
        c.pre = self.pre.part(p);
        c.post = self.post.part(p);
        c
    }
    pub fn name(&self) -> String {
        let ax: Vec<String> = self.ax.iter().map(|(k, n)| format!("{k:?}{n}")).collect();
        format!("{}[{}] d={:?}", self.op, ax.join("x"), self.d)
    }
}

/// per-element tolerance scale of the expected result
pub fn scales(c: &Case, exp: &Tensor) -> Vec<f64> {
    let premax = c.premax.unwrap_or_else(|| c.pre.max());
    let floor = 1e-12 * (premax + exp.max());
    match c.op.as_str() {
        "Gradient" | "Diffmat" => {
            let mut t = exp.clone();
            for (a, (k, _)) in c.ax.iter().enumerate() {
                if k.is_cheb() {
                    t = t.suffix_max(a, c.d[a] == 0);
                }
            }
            let floor = 1e-12 * premax;
            t.v.iter().map(|x| mag(*x) + floor).collect()
        }
        "Backward" => vec![grid_scale(&c.ax, &c.post) + 1e-300; exp.v.len()],
        _ => {
            let s = exp.max() + premax + floor + 1e-300;
            vec![s; exp.v.len()]
        }
    }
}

pub struct Report {
    pub fails: Vec<Value>,
    pub nfail: usize,
    pub checks: u64,
    pub cases: u64,
    pub counts: BTreeMap<String, u64>,
    pub err: BTreeMap<String, (f64, String)>,
    pub samples: Vec<Value>,
    pub out: String,
    cur: Option<std::fs::File>,
    pub now: String,
    /// when present, results are kept for relative comparison instead of being compared
    pub rec: Option<Vec<Rec>>,
    pub part: String,
    /// a line that is not compared: axis, number
    pub skip: Option<(usize, usize)>,
}

/// one result of one form of an operation; None: it panicked
#[derive(Clone, Debug)]
pub struct Rec {
    pub form: String,
    pub ty: String,
    pub part: String,
    pub res: Option<Tensor>,
    pub sc: Vec<f64>,
    pub tol: f64,
}

impl Report {
    pub fn new(out: &str) -> Self {
        Report {
            fails: vec![],
            nfail: 0,
            checks: 0,
            cases: 0,
            counts: BTreeMap::new(),
            err: BTreeMap::new(),
            samples: vec![],
            out: out.to_string(),
            cur: std::fs::File::create(format!("{out}.current")).ok(),
            now: String::new(),
            rec: None,
            part: String::new(),
            skip: None,
        }
    }
    /// note what is about to run, so that an abort can be attributed
    pub fn at(&mut self, what: String) {
        use std::io::{Seek, SeekFrom};
        if let Some(f) = &mut self.cur {
            let _ = f.seek(SeekFrom::Start(0));
            let mut s = what.clone();
            s.push('\n');
            while s.len() < 400 {
                s.push(' ');
            }
            let _ = f.write_all(s.as_bytes());
        }
        self.now = what;
    }
    pub fn fail(&mut self, what: &str, detail: Value) {
        if let Some(v) = &mut self.rec {
            v.push(Rec {
                form: format!("!{what}"),
                ty: detail.to_string(),
                part: self.part.clone(),
                res: None,
                sc: vec![],
                tol: 0.,
            });
            return;
        }
        self.nfail += 1;
        if self.fails.len() < 40 {
            self.fails.push(json!({"at": self.now, "what": what, "detail": detail}));
        }
    }
    pub fn count(&mut self, k: &str) {
        *self.counts.entry(k.to_string()).or_insert(0) += 1;
    }
    pub fn sample(&mut self, v: Value) {
        if self.samples.len() < 6 {
            self.samples.push(v);
        }
    }
    pub fn stat(&mut self, key: String, e: f64) {
        let at = self.now.clone();
        let s = self.err.entry(key).or_insert((0., String::new()));
        if e > s.0 || e.is_nan() {
            *s = (e, at);
        }
    }
    /// a call that must not panic
    pub fn call<R>(&mut self, what: &str, f: impl FnOnce() -> R) -> Option<R> {
        match catch_unwind(AssertUnwindSafe(f)) {
            Ok(r) => Some(r),
            Err(_) if self.rec.is_some() => None,
            Err(e) => {
                let m = panic_msg(&e);
                self.fail(&format!("{what}: panicked on matching arguments"), json!(m));
                None
            }
        }
    }
    /// a block that must not panic outside its own guarded calls
    pub fn guard(&mut self, f: impl FnOnce(&mut Report)) {
        if let Err(e) = catch_unwind(AssertUnwindSafe(|| f(self))) {
            let m = panic_msg(&e);
            if m.starts_with("harness") {
                std::panic::resume_unwind(e);
            }
            self.fail("panicked on matching arguments", json!(m));
        }
    }
    pub fn close(&mut self, what: &str, key: &str, got: &Tensor, exp: &Tensor, sc: &[f64], tol: f64) {
        self.checks += 1;
        if got.shape != exp.shape {
            self.fail(what, json!({"shape": got.shape, "expected_shape": exp.shape}));
            return;
        }
        let mut worst = 0.;
        for (ix, ((g, e), s)) in got.v.iter().zip(&exp.v).zip(sc).enumerate() {
            if let Some((a, z)) = self.skip {
                let inner: usize = got.shape[a + 1..].iter().product();
                if (ix / (inner * got.shape[a])) * inner + ix % inner == z {
                    continue;
                }
            }
            let diff = (g.0 - e.0).abs().max((g.1 - e.1).abs());
            let diff = if g.0.is_nan() || g.1.is_nan() { f64::INFINITY } else { diff };
            let r = diff / s;
            if r > worst {
                worst = r;
            }
            if !(diff <= tol * s) {
                self.fail(
                    what,
                    json!({"index": ix, "shape": exp.shape, "got": format!("{g:?}"),
                           "expected": format!("{e:?}"), "scale": s, "tol": tol}),
                );
                return;
            }
        }
        self.stat(key.to_string(), worst);
    }
    pub fn finish(&self) {
        let v = json!({
            "done": true, "fails": self.fails, "nfail": self.nfail, "checks": self.checks,
            "cases": self.cases, "counts": self.counts, "samples": self.samples,
            "err": self.err.iter().map(|(k, (e, a))| (k.clone(), json!([format!("{e:e}"), a])))
                .collect::<BTreeMap<_, _>>(),
        });
        std::fs::write(&self.out, serde_json::to_string(&v).unwrap()).unwrap();
    }
}

pub fn panic_msg(e: &Box<dyn std::any::Any + Send>) -> String {
    e.downcast_ref::<String>()
        .cloned()
        .or_else(|| e.downcast_ref::<&str>().map(|s| (*s).to_string()))
        .unwrap_or_else(|| "panic".into())
}
