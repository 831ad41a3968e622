//! Programs of SpaceProg.tla: every operation of a distributed space against the serial space,
//! on every process.
use crate::common::*;
use funspace::space_mpi::*;
use funspace::*;
use ndarray::{s, Array2, ArrayView2, ArrayViewMut2};
use serde_json::{json, Value};
use std::panic::{catch_unwind, AssertUnwindSafe};

struct Run<'u> {
    u: &'u Universe,
    rank: usize,
    cur: String,
}

/// the same on every process
fn rnd(seed: u64, i: usize) -> f64 {
    let mut z = seed.wrapping_mul(0x9E37_79B9_7F4A_7C15).wrapping_add((i as u64 + 1).wrapping_mul(0xBF58_476D_1CE4_E5B9));
    z = (z ^ (z >> 30)).wrapping_mul(0xBF58_476D_1CE4_E5B9);
    z = (z ^ (z >> 27)).wrapping_mul(0x94D0_49BB_1331_11EB);
    z ^= z >> 31;
    ((z >> 11) as f64) / ((1u64 << 53) as f64) * 2. - 1.
}
fn field<T: Num>(seed: u64, n: [usize; 2]) -> Array2<T> {
    Array2::from_shape_fn((n[0], n[1]), |(i, j)| {
        let q = 2 * (i * n[1] + j);
        T::mk(rnd(seed, q), rnd(seed, q + 1))
    })
}

fn dirty<T: Num>(n: [usize; 2]) -> Array2<T> {
    Array2::from_elem((n[0], n[1]), T::dirty())
}

/// an array, or ("V") the middle rows of a larger one; operations need contiguous rows
struct Laid<T> {
    a: Array2<T>,
    from: usize,
    rows: usize,
}
impl<T: Num> Laid<T> {
    fn empty(n: [usize; 2], lay: &str) -> Self {
        let from = if lay == "V" { 2 } else { 0 };
        Laid { a: dirty([n[0] + 2 * from, n[1]]), from, rows: n[0] }
    }
    fn new(x: &Array2<T>, lay: &str) -> Self {
        let mut l = Laid::empty([x.shape()[0], x.shape()[1]], lay);
        l.out().assign(x);
        l
    }
    fn view(&self) -> ArrayView2<'_, T> {
        self.a.slice(s![self.from..self.from + self.rows, ..])
    }
    fn out(&mut self) -> ArrayViewMut2<'_, T> {
        self.a.slice_mut(s![self.from..self.from + self.rows, ..])
    }
    /// what was written, and whether anything outside was
    fn done(self) -> (Array2<T>, bool) {
        let around = self.a.slice(s![..self.from, ..]).iter().chain(self.a.slice(s![self.from + self.rows.., ..]).iter())
            .all(|x| x.parts().0.is_nan());
        (self.view().to_owned(), around)
    }
}

pub fn cut<T: Clone>(g: &Array2<T>, st: [usize; 2], sz: [usize; 2]) -> Array2<T> {
    g.slice(s![st[0]..st[0] + sz[0], st[1]..st[1] + sz[1]]).to_owned()
}

enum Held<P, S> {
    Phys(Array2<P>),
    Coef(Array2<S>, &'static str),
}

fn big<T: Num>(a: &Array2<T>) -> f64 {
    a.iter().map(|x| mag(x.parts())).fold(0., f64::max)
}
fn same<T: Num>(r: &mut Report, what: &str, key: &str, got: &Array2<T>, exp: &Array2<T>, sc: f64, tol: f64) {
    let e = Tensor::of(exp);
    let n = e.v.len();
    r.close(what, key, &Tensor::of(got), &e, &vec![sc + 1e-300; n], tol);
}

fn tk(t: &enums::TransformKind) -> &'static str {
    match t {
        enums::TransformKind::R2r => "R2r",
        enums::TransformKind::R2c => "R2c",
        enums::TransformKind::C2c => "C2c",
    }
}

/// Err: the code panicked
fn tried<R>(f: impl FnOnce() -> R) -> Result<R, String> {
    catch_unwind(AssertUnwindSafe(f)).map_err(|e| panic_msg(&e))
}

fn die(run: &Run, msg: &str) -> ! {
    let _ = std::fs::write(format!("{}.panic", run.cur), msg);
    std::process::exit(if msg.contains("harness") { 2 } else { 3 });
}

fn shapes<A: FloatNum + Num, S: BaseSpaceMpi<A, 2>>(s: &S, rep: &str) -> [usize; 2] {
    match rep {
        "phys" => s.shape_physical(),
        "spec" => s.shape_spectral(),
        _ => s.shape_spectral_ortho(),
    }
}

/// everything that involves no other process is what the serial space answers
fn local<A, S, Q>(run: &Run, r: &mut Report, s: &S, q: &Q, seed: u64, tol: f64)
where
    A: FloatNum + Num,
    S: BaseSpaceMpi<A, 2>,
    Q: BaseSpace<A, 2, Physical = S::Physical, Spectral = S::Spectral>,
    S::Physical: Num,
    S::Spectral: Num,
{
    let same_v = |r: &mut Report, what: &str, a: Value, b: Value| {
        r.checks += 1;
        if a != b {
            r.fail(what, json!({"distributed": a, "serial": b}));
        }
    };
    same_v(r, "shape_physical", json!(s.shape_physical()), json!(q.shape_physical()));
    same_v(r, "shape_spectral", json!(s.shape_spectral()), json!(q.shape_spectral()));
    same_v(r, "shape_spectral_ortho", json!(s.shape_spectral_ortho()), json!(q.shape_spectral_ortho()));
    same_v(r, "ndarray_physical", json!(s.ndarray_physical().shape()), json!(q.ndarray_physical().shape()));
    same_v(r, "ndarray_spectral", json!(s.ndarray_spectral().shape()), json!(q.ndarray_spectral().shape()));
    let xs = s.coords();
    let ys = q.coords();
    for a in 0..2 {
        let f = |v: &ndarray::Array1<A>| v.iter().map(|x| format!("{:?}", x.parts().0)).collect::<Vec<_>>();
        same_v(r, &format!("coords {a}"), json!(f(&xs[a])), json!(f(&ys[a])));
        same_v(r, &format!("coords_axis {a}"), json!(f(&s.coords_axis(a))), json!(f(&ys[a])));
        same_v(r, &format!("base_kind {a}"), json!(format!("{:?}", s.base_kind(a))), json!(format!("{:?}", q.base_kind(a))));
        same_v(r, &format!("transform_kind {a}"), json!(tk(&s.transform_kind(a))),
            json!(tk(&q.transform_kind(a))));
        type M<'a, A> = (&'a str, Box<dyn Fn() -> Array2<A> + 'a>, Box<dyn Fn() -> Array2<A> + 'a>);
        let mats: Vec<M<A>> = vec![
            ("stencil", Box::new(|| s.stencil(a)), Box::new(|| q.stencil(a))),
            ("stencil_inv", Box::new(|| s.stencil_inv(a)), Box::new(|| q.stencil_inv(a))),
            ("laplacian", Box::new(|| s.laplacian(a)), Box::new(|| q.laplacian(a))),
            ("laplacian_pinv.0", Box::new(|| s.laplacian_pinv(a).0), Box::new(|| q.laplacian_pinv(a).0)),
            ("laplacian_pinv.1", Box::new(|| s.laplacian_pinv(a).1), Box::new(|| q.laplacian_pinv(a).1)),
        ];
        for (n, f, g) in mats {
            // what the serial space does not offer the distributed one need not either
            if let Ok(e) = tried(g) {
                match tried(f) {
                    Ok(m) => same(r, &format!("{n} of axis {a}"), "matrix", &m, &e, big(&e), tol),
                    Err(m) => r.fail(&format!("{n} of axis {a} panicked"), json!(m)),
                }
            }
        }
    }
    // operations on undistributed arrays
    let ph: Array2<S::Physical> = field(seed, q.shape_physical());
    let sp: Array2<S::Spectral> = field(seed + 1, q.shape_spectral());
    let or: Array2<S::Spectral> = field(seed + 2, q.shape_spectral_ortho());
    let d = [run.rank % 3, (run.rank + seed as usize) % 4];
    let sc = if seed % 2 == 0 { None } else { Some([A::mk(2., 0.), A::mk(0.5, 0.)]) };
    macro_rules! pairs {
        ($out:ty; $($what:expr, $sf:expr, $qf:expr, $m:expr);* $(;)?) => {$(
            if let Ok(e) = tried(|| -> Array2<$out> { $qf }) {
                match tried(|| -> Array2<$out> { $sf }) {
                    Ok(g) => same(r, concat!("serial ", $what), "serial", &g, &e, big(&e).max($m), tol),
                    Err(m) => r.fail(concat!("serial ", $what, " panicked"), json!(m)),
                }
            }
        )*};
    }
    let (mp, ms, mo) = (big(&ph), big(&sp), big(&or));
    macro_rules! put {
        ($sh:expr, |$o:ident| $e:expr) => {{ let mut $o = dirty($sh); $e; $o }};
    }
    let (nphys, nspec, north) = (q.shape_physical(), q.shape_spectral(), q.shape_spectral_ortho());
    pairs!(S::Spectral;
        "forward", s.forward(&ph), q.forward(&ph), mp;
        "forward_par", s.forward_par(&ph), q.forward_par(&ph), mp;
        "forward_inplace", put!(nspec, |o| s.forward_inplace(&ph, &mut o)), q.forward(&ph), mp;
        "forward_inplace_par", put!(nspec, |o| s.forward_inplace_par(&ph, &mut o)), q.forward(&ph), mp;
        "to_ortho", s.to_ortho(&sp), q.to_ortho(&sp), ms;
        "to_ortho_par", s.to_ortho_par(&sp), q.to_ortho_par(&sp), ms;
        "to_ortho_inplace", put!(north, |o| s.to_ortho_inplace(&sp, &mut o)), q.to_ortho(&sp), ms;
        "to_ortho_inplace_par", put!(north, |o| s.to_ortho_inplace_par(&sp, &mut o)), q.to_ortho(&sp), ms;
        "from_ortho", s.from_ortho(&or), q.from_ortho(&or), mo;
        "from_ortho_par", s.from_ortho_par(&or), q.from_ortho_par(&or), mo;
        "from_ortho_inplace", put!(nspec, |o| s.from_ortho_inplace(&or, &mut o)), q.from_ortho(&or), mo;
        "from_ortho_inplace_par", put!(nspec, |o| s.from_ortho_inplace_par(&or, &mut o)), q.from_ortho(&or), mo;
        "gradient", s.gradient(&sp, d, sc), q.gradient(&sp, d, sc), ms;
        "gradient_par", s.gradient_par(&sp, d, sc), q.gradient_par(&sp, d, sc), ms;
    );
    pairs!(S::Physical;
        "backward", s.backward(&sp), q.backward(&sp), ms;
        "backward_par", s.backward_par(&sp), q.backward_par(&sp), ms;
        "backward_inplace", put!(nphys, |o| s.backward_inplace(&sp, &mut o)), q.backward(&sp), ms;
        "backward_inplace_par", put!(nphys, |o| s.backward_inplace_par(&sp, &mut o)), q.backward(&sp), ms;
    );
}

fn through<A, S, Q>(run: &Run, r: &mut Report, no: usize, p: &Value, s: &S, q: &Q, tol: f64)
where
    A: FloatNum + Num,
    S: BaseSpaceMpi<A, 2>,
    Q: BaseSpace<A, 2, Physical = S::Physical, Spectral = S::Spectral>,
    S::Physical: Num,
    S::Spectral: Num,
{
    let what = format!("program {no}: {} with {} processes", p["ax"], p["np"]);
    r.now = format!("{what}, process {}", run.rank);
    local(run, r, s, q, no as u64, tol);
    // global data, and this process's pencil of it
    let mut glob: Option<Held<S::Physical, S::Spectral>> = None;
    let mut mine: Option<Held<S::Physical, S::Spectral>> = None;
    for (k, st) in p["steps"].as_array().unwrap().iter().enumerate() {
        let op = st["op"].as_str().unwrap();
        let seed = st["seed"].as_u64().unwrap();
        let (li, lo) = (st["li"].as_str().unwrap(), st["lo"].as_str().unwrap());
        let inplace = st["form"] == "inplace";
        let to = match st["to"].as_str().unwrap() {
            "phys" => "phys",
            "spec" => "spec",
            _ => "orth",
        };
        r.now = format!("{what}, step {k} {op} {}, process {}", st["form"], run.rank);
        let _ = std::fs::write(&run.cur, json!({"at": r.now, "step": st}).to_string());
        if st["late"].as_u64().unwrap() as usize == run.rank {
            std::thread::sleep(std::time::Duration::from_micros(500));
        }
        let shape = shapes::<A, S>(s, to);
        if op == "Fill" {
            glob = Some(if to == "phys" { Held::Phys(field(seed, shape)) } else { Held::Coef(field(seed, shape), to) });
        } else {
            let d = [0, 1].map(|a| st["d"][a].as_u64().unwrap() as usize);
            let scale = match st["scale"].as_u64().unwrap() {
                0 => None,
                1 => Some([A::mk(2., 0.), A::mk(1., 0.)]),
                _ => Some([A::mk(0.5, 0.), A::mk(3., 0.)]),
            };
            // the serial space on the whole array
            let want = tried(|| match (&glob, op) {
                (Some(Held::Phys(g)), "Forward") => Held::Coef(q.forward(g), "spec"),
                (Some(Held::Coef(g, _)), "Backward") => Held::Phys(q.backward(g)),
                (Some(Held::Coef(g, _)), "ToOrtho") => Held::Coef(q.to_ortho(g), "orth"),
                (Some(Held::Coef(g, _)), "FromOrtho") => Held::Coef(q.from_ortho(g), "spec"),
                (Some(Held::Coef(g, _)), "Gradient") => Held::Coef(q.gradient(g, d, scale), "orth"),
                _ => panic!("harness: {op} has nothing to work on"),
            });
            let want = match want {
                Ok(w) => w,
                Err(m) if m.contains("harness") => die(run, &m),
                // no serial result to agree with; the same happens on every process
                Err(_) => {
                    r.count("without serial result");
                    return;
                }
            };
            // and the distributed space on the pencil
            let dcp = s.get_decomp_from_global_shape(&shape);
            let osz = if to == "phys" { dcp.y_pencil.sz } else { dcp.x_pencil.sz };
            let scale_in = match &glob {
                Some(Held::Phys(g)) => big(g),
                Some(Held::Coef(g, _)) => big(g),
                None => 0.,
            };
            let mut kept = true;
            let got = tried(|| match (&mine, op) {
                (Some(Held::Phys(m)), "Forward") => {
                    let l = Laid::new(m, li);
                    if inplace {
                        let mut o = Laid::empty(osz, lo);
                        s.forward_inplace_mpi(&l.view(), &mut o.out());
                        let (a, k) = o.done();
                        kept = k;
                        Held::Coef(a, "spec")
                    } else {
                        Held::Coef(s.forward_mpi(&l.view()), "spec")
                    }
                }
                (Some(Held::Coef(m, _)), _) => {
                    let l = Laid::new(m, li);
                    let v = l.view();
                    if op == "Backward" {
                        if inplace {
                            let mut o = Laid::empty(osz, lo);
                            s.backward_inplace_mpi(&v, &mut o.out());
                            let (a, k) = o.done();
                            kept = k;
                            return Held::Phys(a);
                        }
                        return Held::Phys(s.backward_mpi(&v));
                    }
                    if inplace && op != "Gradient" {
                        let mut o = Laid::empty(osz, lo);
                        if op == "ToOrtho" {
                            s.to_ortho_inplace_mpi(&v, &mut o.out());
                        } else {
                            s.from_ortho_inplace_mpi(&v, &mut o.out());
                        }
                        let (a, k) = o.done();
                        kept = k;
                        return Held::Coef(a, to);
                    }
                    Held::Coef(
                        match op {
                            "ToOrtho" => s.to_ortho_mpi(&v),
                            "FromOrtho" => s.from_ortho_mpi(&v),
                            _ => s.gradient_mpi(&v, d, scale),
                        },
                        to,
                    )
                }
                _ => panic!("harness: {op} has no pencil"),
            });
            if !kept {
                r.fail("wrote outside the output", json!(op));
            }
            let mut got = match got {
                Ok(g) => g,
                Err(m) => die(run, &format!("{}: {m}", r.now)),
            };
            // compare, then go on from the serial values in the array the code returned
            let at = s.get_decomp_from_global_shape(&shape);
            match (&mut got, &want) {
                (Held::Phys(g), Held::Phys(w)) => {
                    let e = cut(w, at.y_pencil.st, at.y_pencil.sz);
                    same(r, op, op, g, &e, big(w).max(scale_in), tol);
                    *g = if g.shape() == e.shape() { g.assign(&e); g.clone() } else { e };
                }
                (Held::Coef(g, _), Held::Coef(w, _)) => {
                    let e = cut(w, at.x_pencil.st, at.x_pencil.sz);
                    same(r, op, op, g, &e, big(w).max(scale_in), tol);
                    *g = if g.shape() == e.shape() { g.assign(&e); g.clone() } else { e };
                }
                _ => die(run, "harness: representation"),
            }
            r.count(op);
            glob = Some(want);
            mine = Some(got);
            continue;
        }
        let at = s.get_decomp_from_global_shape(&shape);
        mine = match &glob {
            Some(Held::Phys(g)) => Some(Held::Phys(cut(g, at.y_pencil.st, at.y_pencil.sz))),
            Some(Held::Coef(g, t)) => Some(Held::Coef(cut(g, at.x_pencil.st, at.x_pencil.sz), t)),
            None => None,
        };
    }
    r.cases += 1;
}

fn with<A: FloatNum + Num>(run: &Run, r: &mut Report, no: usize, p: &Value, tol: f64)
where
    num_complex::Complex<A>: Num + std::ops::Mul<A, Output = num_complex::Complex<A>>,
    A: Equivalence,
    num_complex::Complex<A>: Equivalence,
    for<'a> Space2Mpi<'a, BaseR2r<A>, BaseR2r<A>>: BaseSpaceMpi<A, 2, Physical = A, Spectral = A>,
    for<'a> Space2Mpi<'a, BaseR2c<A>, BaseR2r<A>>: BaseSpaceMpi<A, 2, Physical = A, Spectral = num_complex::Complex<A>>,
    for<'a> Space2Mpi<'a, BaseC2c<A>, BaseR2c<A>>: BaseSpaceMpi<A, 2, Physical = A, Spectral = num_complex::Complex<A>>,
    for<'a> Space2Mpi<'a, BaseC2c<A>, BaseC2c<A>>:
        BaseSpaceMpi<A, 2, Physical = num_complex::Complex<A>, Spectral = num_complex::Complex<A>>,
    Space2<BaseR2r<A>, BaseR2r<A>>: BaseSpace<A, 2, Physical = A, Spectral = A>,
    Space2<BaseR2c<A>, BaseR2r<A>>: BaseSpace<A, 2, Physical = A, Spectral = num_complex::Complex<A>>,
    Space2<BaseC2c<A>, BaseR2c<A>>: BaseSpace<A, 2, Physical = A, Spectral = num_complex::Complex<A>>,
    Space2<BaseC2c<A>, BaseC2c<A>>:
        BaseSpace<A, 2, Physical = num_complex::Complex<A>, Spectral = num_complex::Complex<A>>,
{
    let ax = |i: usize| {
        let k = Kind::parse(p["ax"][i][0].as_str().unwrap());
        (k, p["ax"][i][1].as_str().unwrap().parse::<usize>().unwrap())
    };
    let ((k0, n0), (k1, n1)) = (ax(0), ax(1));
    match (k0, k1) {
        (C2, R2) => {
            let (a, b) = (c2c::<A>(n0), r2c::<A>(n1));
            through(run, r, no, p, &Space2Mpi::new(&a, &b, run.u), &Space2::new(&a, &b), tol);
        }
        (C2, C2) => {
            let (a, b) = (c2c::<A>(n0), c2c::<A>(n1));
            through(run, r, no, p, &Space2Mpi::new(&a, &b, run.u), &Space2::new(&a, &b), tol);
        }
        (R2, k) => {
            let (a, b) = (r2c::<A>(n0), r2r::<A>(k, n1));
            through(run, r, no, p, &Space2Mpi::new(&a, &b, run.u), &Space2::new(&a, &b), tol);
        }
        (j, k) => {
            let (a, b) = (r2r::<A>(j, n0), r2r::<A>(k, n1));
            through(run, r, no, p, &Space2Mpi::new(&a, &b, run.u), &Space2::new(&a, &b), tol);
        }
    }
}

pub fn run(lines: &[Value], out: &str) {
    let u = initialize().expect("harness: MPI");
    let rank = u.world().rank() as usize;
    let run = Run { u: &u, rank, cur: format!("{out}/rank{rank}.current") };
    let mut r = Report::new(&format!("{out}/rank{rank}.report.json"));
    for (no, p) in lines.iter().enumerate() {
        let at = json!({"at": format!("program {no}: {} with {} processes, set up", p["ax"], p["np"])});
        let _ = std::fs::write(&run.cur, at.to_string());
        let res = catch_unwind(AssertUnwindSafe(|| {
            // every sixth program in single precision
            if no % 6 == 5 {
                with::<f32>(&run, &mut r, no, p, 2e-3);
            } else {
                with::<f64>(&run, &mut r, no, p, 1e-9);
            }
        }));
        if let Err(e) = res {
            die(&run, &format!("{}: {}", r.now, panic_msg(&e)));
        }
    }
    r.finish();
}
