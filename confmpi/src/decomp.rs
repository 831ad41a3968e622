//! Programs of Decomp.tla on the real decomposition, through Decomp2d and through Space2Mpi.
use crate::common::*;
use crate::dist;
use funspace::space_mpi::*;
use funspace::*;
use ndarray::{Array2, ShapeBuilder};
use num_complex::Complex;
use num_traits::Zero;
use serde_json::{json, Value};
use std::fmt::Debug;
use std::io::Write;
use std::iter::Sum;
use std::panic::{catch_unwind, AssertUnwindSafe};

/// element types; numbers that are not what they should be decode to something impossible.
/// Array elements are stored so that every part of the type carries something.
pub trait Elem: Zero + Clone + Copy + Equivalence + Debug + Sum + 'static {
    fn enc(v: i64) -> Self;
    fn dec(self) -> i64;
    fn dirty() -> Self;
    /// hi * B + lo (Decomp!Value)
    fn wide(v: [i64; 2]) -> Self;
    fn unwide(self) -> [i64; 2];
    const SIGNED: bool = true;
}
const WRONG: i64 = -999_999;
macro_rules! int_elem {
    ($($t:ty, $mul:expr, $sc:expr, $signed:expr);*) => {$(
        impl Elem for $t {
            fn enc(v: i64) -> Self { (v as $t) * $mul + (v as $t) }
            fn dec(self) -> i64 {
                if self % ($mul + 1) == 0 { (self / ($mul + 1)) as i64 } else { WRONG }
            }
            fn dirty() -> Self { 255u8 as $t }
            fn wide(v: [i64; 2]) -> Self { (v[0] as $t) * (1 << $sc) + (v[1] as $t) }
            fn unwide(self) -> [i64; 2] {
                [(self >> $sc) as i64, (self & ((1 << $sc) - 1)) as i64]
            }
            const SIGNED: bool = $signed;
        }
    )*};
}
int_elem!(i32, 1 << 9, 17, true; u32, 1 << 9, 19, false; i64, 1 << 35, 45, true; u64, 1 << 35, 50, false);
impl Elem for u8 {
    fn enc(v: i64) -> Self {
        (v % 251) as u8
    }
    fn dec(self) -> i64 {
        i64::from(self)
    }
    fn dirty() -> Self {
        255
    }
    fn wide(_: [i64; 2]) -> Self {
        unreachable!("harness: wide u8")
    }
    fn unwide(self) -> [i64; 2] {
        unreachable!("harness: wide u8")
    }
    const SIGNED: bool = false;
}
macro_rules! float_elem {
    ($($t:ty, $eps:expr, $sc:expr);*) => {$(
        impl Elem for $t {
            fn enc(v: i64) -> Self { v as $t + $eps }
            fn dec(self) -> i64 {
                let v = self - $eps;
                if v.fract() == 0. && v.abs() < 1e9 as $t { v as i64 } else { WRONG }
            }
            fn dirty() -> Self { <$t>::NAN }
            fn wide(v: [i64; 2]) -> Self { (v[0] as $t) * <$t>::powi(2., $sc) + (v[1] as $t) }
            fn unwide(self) -> [i64; 2] {
                let b = <$t>::powi(2., $sc);
                let hi = (self / b).floor();
                let lo = self - hi * b;
                if self.is_finite() && lo.fract() == 0. { [hi as i64, lo as i64] } else { [WRONG, WRONG] }
            }
        }
        impl Elem for Complex<$t> {
            fn enc(v: i64) -> Self { Complex::new(<$t>::enc(v), -<$t>::enc(v + 1)) }
            fn dec(self) -> i64 {
                let v = self.re.dec();
                if (-self.im).dec() == v + 1 { v } else { WRONG }
            }
            fn dirty() -> Self { Complex::new(<$t>::NAN, <$t>::NAN) }
            fn wide(v: [i64; 2]) -> Self { Complex::new(<$t>::wide(v), <$t>::wide([-v[0], v[1]])) }
            fn unwide(self) -> [i64; 2] {
                let (v, w) = (self.re.unwide(), self.im.unwide());
                if v == [-w[0], w[1]] { v } else { [WRONG, WRONG] }
            }
        }
    )*};
}
float_elem!(f32, 0., 12; f64, 1. / 1073741824., 40);


/// the calls a program makes, wherever they are offered
pub trait Calls<T: Elem> {
    fn transpose(&self, x2y: bool, a: &Array2<T>, b: &mut Array2<T>);
    fn gather(&self, x: bool, a: &Array2<T>);
    fn gather_root(&self, x: bool, alloc: bool, a: &Array2<T>, out: Array2<T>) -> Array2<T>;
    fn all_gather(&self, x: bool, a: &Array2<T>, out: &mut Array2<T>);
    fn scatter(&self, x: bool, alloc: bool, out: Array2<T>) -> Array2<T>;
    fn scatter_root(&self, x: bool, alloc: bool, g: &Array2<T>, out: Array2<T>) -> Array2<T>;
}

impl<T: Elem> Calls<T> for Decomp2d<'_> {
    fn transpose(&self, x2y: bool, a: &Array2<T>, b: &mut Array2<T>) {
        if x2y {
            self.transpose_x_to_y(a, b)
        } else {
            self.transpose_y_to_x(a, b)
        }
    }
    fn gather(&self, x: bool, a: &Array2<T>) {
        if x {
            self.gather_x(a)
        } else {
            self.gather_y(a)
        }
    }
    fn gather_root(&self, x: bool, alloc: bool, a: &Array2<T>, mut out: Array2<T>) -> Array2<T> {
        match (x, alloc) {
            (true, true) => self.gather_x_root(a),
            (false, true) => self.gather_y_root(a),
            (true, false) => {
                self.gather_x_inplace_root(a, &mut out);
                out
            }
            (false, false) => {
                self.gather_y_inplace_root(a, &mut out);
                out
            }
        }
    }
    fn all_gather(&self, x: bool, a: &Array2<T>, out: &mut Array2<T>) {
        if x {
            self.all_gather_x(a, out)
        } else {
            self.all_gather_y(a, out)
        }
    }
    fn scatter(&self, x: bool, alloc: bool, mut out: Array2<T>) -> Array2<T> {
        match (x, alloc) {
            (true, true) => self.scatter_x(),
            (false, true) => self.scatter_y(),
            (true, false) => {
                self.scatter_x_inplace(&mut out);
                out
            }
            (false, false) => {
                self.scatter_y_inplace(&mut out);
                out
            }
        }
    }
    fn scatter_root(&self, x: bool, alloc: bool, g: &Array2<T>, mut out: Array2<T>) -> Array2<T> {
        match (x, alloc) {
            (true, true) => self.scatter_x_root(g),
            (false, true) => self.scatter_y_root(g),
            (true, false) => {
                self.scatter_x_inplace_root(g, &mut out);
                out
            }
            (false, false) => {
                self.scatter_y_inplace_root(g, &mut out);
                out
            }
        }
    }
}

/// a space restricted to its physical / spectral arrays
pub struct PhysOf<'s, S>(pub &'s S);
pub struct SpecOf<'s, S>(pub &'s S);
macro_rules! space_calls {
    ($w:ident, $e:ident, $x2y:ident, $y2x:ident, $gx:ident, $gy:ident, $gxr:ident, $gyr:ident,
     $ax:ident, $ay:ident, $sx:ident, $sy:ident, $sxr:ident, $syr:ident) => {
        impl<S: BaseSpaceMpi<f64, 2>, T: Elem> Calls<T> for $w<'_, S>
        where
            S: BaseSpaceTransform<f64, 2, $e = T>,
        {
            fn transpose(&self, x2y: bool, a: &Array2<T>, b: &mut Array2<T>) {
                if x2y {
                    self.0.$x2y(a, b)
                } else {
                    self.0.$y2x(a, b)
                }
            }
            fn gather(&self, x: bool, a: &Array2<T>) {
                if x {
                    self.0.$gx(a)
                } else {
                    self.0.$gy(a)
                }
            }
            fn gather_root(&self, x: bool, _: bool, a: &Array2<T>, mut out: Array2<T>) -> Array2<T> {
                if x {
                    self.0.$gxr(a, &mut out)
                } else {
                    self.0.$gyr(a, &mut out)
                }
                out
            }
            fn all_gather(&self, x: bool, a: &Array2<T>, out: &mut Array2<T>) {
                if x {
                    self.0.$ax(a, out)
                } else {
                    self.0.$ay(a, out)
                }
            }
            fn scatter(&self, x: bool, _: bool, mut out: Array2<T>) -> Array2<T> {
                if x {
                    self.0.$sx(&mut out)
                } else {
                    self.0.$sy(&mut out)
                }
                out
            }
            fn scatter_root(&self, x: bool, _: bool, g: &Array2<T>, mut out: Array2<T>) -> Array2<T> {
                if x {
                    self.0.$sxr(g, &mut out)
                } else {
                    self.0.$syr(g, &mut out)
                }
                out
            }
        }
    };
}
space_calls!(PhysOf, Physical, transpose_x_to_y_phys, transpose_y_to_x_phys, gather_from_x_pencil_phys,
    gather_from_y_pencil_phys, gather_from_x_pencil_phys_root, gather_from_y_pencil_phys_root,
    all_gather_from_x_pencil_phys, all_gather_from_y_pencil_phys, scatter_to_x_pencil_phys,
    scatter_to_y_pencil_phys, scatter_to_x_pencil_phys_root, scatter_to_y_pencil_phys_root);
space_calls!(SpecOf, Spectral, transpose_x_to_y_spec, transpose_y_to_x_spec, gather_from_x_pencil_spec,
    gather_from_y_pencil_spec, gather_from_x_pencil_spec_root, gather_from_y_pencil_spec_root,
    all_gather_from_x_pencil_spec, all_gather_from_y_pencil_spec, scatter_to_x_pencil_spec,
    scatter_to_y_pencil_spec, scatter_to_x_pencil_spec_root, scatter_to_y_pencil_spec_root);

fn empty<T: Elem>(n: [usize; 2], fortran: bool) -> Array2<T> {
    if fortran {
        Array2::from_elem((n[0], n[1]).f(), T::dirty())
    } else {
        Array2::from_elem((n[0], n[1]), T::dirty())
    }
}
fn copy<T: Elem>(a: &Array2<T>, fortran: bool) -> Array2<T> {
    let mut b = empty([a.shape()[0], a.shape()[1]], fortran);
    b.assign(a);
    b
}
pub fn global<T: Elem>(g: i64, n: [usize; 2]) -> Array2<T> {
    Array2::from_shape_fn((n[0], n[1]), |(i, j)| T::enc((g * n[0] as i64 + i as i64) * n[1] as i64 + j as i64 + 1))
}
fn logged<T: Elem>(a: &Array2<T>) -> Value {
    json!({"n": a.shape(), "d": a.iter().map(|x| x.dec()).collect::<Vec<_>>()})
}

/// what a large array holds: extents, number of wrong elements, some elements
fn digest<T: Elem>(a: &Array2<T>, g: i64, n: [usize; 2], st: [usize; 2]) -> Value {
    let want = |i: usize, j: usize| {
        T::enc((g * n[0] as i64 + (st[0] + i) as i64) * n[1] as i64 + (st[1] + j) as i64 + 1).dec()
    };
    let bad = a.indexed_iter().filter(|((i, j), x)| x.dec() != want(*i, *j)).count();
    let (h, w) = (a.shape()[0], a.shape()[1]);
    let mut s = vec![];
    for p in 0..5 {
        for q in 0..5 {
            let (i, j) = (p * (h - 1) / 4, q * (w - 1) / 4);
            s.push([i as i64, j as i64, a[[i, j]].dec()]);
        }
    }
    for ((i, j), x) in a.indexed_iter() {
        if x.dec() != want(i, j) && s.len() < 30 {
            s.push([i as i64, j as i64, x.dec()]);
        }
    }
    json!({"n": a.shape(), "d": [0], "bad": bad, "s": s})
}

/// the part of a step that does not depend on the element type
struct Step {
    big: bool,
    after: i64,
    op: String,
    x: bool,
    alloc: bool,
    fi: bool,
    fo: bool,
    g: i64,
}

/// one array step; pens: this process's x- and y-pencil
fn array_step<T: Elem>(
    s: &Step,
    root: bool,
    c: &dyn Calls<T>,
    d: &Decomp2d,
    pens: &mut [Option<Array2<T>>; 2],
) -> Value {
    let me = if s.x { &d.x_pencil } else { &d.y_pencil };
    let at = usize::from(!s.x);
    let n = d.n_global;
    let ot = if s.x { &d.y_pencil } else { &d.x_pencil };
    let logged = |a: &Array2<T>| {
        if !s.big {
            return logged(a);
        }
        let st = match s.op.as_str() {
            "Gather" | "AllGather" => [0, 0],
            "Transpose" => ot.st,
            _ => me.st,
        };
        digest(a, s.after, n, st)
    };
    match s.op.as_str() {
        "Fill" => {
            let g: Array2<T> = global(s.g, n);
            let a = Array2::from_shape_fn((me.sz[0], me.sz[1]), |(i, j)| g[[me.st[0] + i, me.st[1] + j]]);
            let l = logged(&a);
            pens[at] = Some(a);
            l
        }
        "Transpose" => {
            let to = if s.x { d.y_pencil.sz } else { d.x_pencil.sz };
            let a = copy(pens[at].as_ref().expect("harness: no pencil"), s.fi);
            let mut b = empty(to, s.fo);
            c.transpose(s.x, &a, &mut b);
            let l = logged(&b);
            pens[1 - at] = Some(b);
            l
        }
        "Gather" => {
            let a = copy(pens[at].as_ref().expect("harness: no pencil"), s.fi);
            if root {
                logged(&c.gather_root(s.x, s.alloc, &a, empty(n, s.fo)))
            } else {
                c.gather(s.x, &a);
                json!({"d": []})
            }
        }
        "AllGather" => {
            let a = copy(pens[at].as_ref().expect("harness: no pencil"), s.fi);
            let mut b = empty(n, s.fo);
            c.all_gather(s.x, &a, &mut b);
            logged(&b)
        }
        "Scatter" => {
            let out = empty(me.sz, s.fo);
            let a = if root {
                c.scatter_root(s.x, s.alloc, &copy(&global(s.g, n), s.fi), out)
            } else {
                c.scatter(s.x, s.alloc, out)
            };
            let l = logged(&a);
            pens[at] = Some(a);
            l
        }
        o => panic!("harness: op {o}"),
    }
}

/// the number a process brings to a scalar step (Decomp!Value)
fn value(s: usize, r: usize, signed: bool, zz: (&str, usize)) -> [i64; 2] {
    match zz.0 {
        "all" => return [0, 0],
        "root" if r == 0 => return [0, 0],
        "others" if r != 0 => return [0, 0],
        "last" if r == zz.1 - 1 => return [0, 0],
        _ => {}
    }
    let hi = ((s * 7 + r * 13) % 50 + 1) as i64;
    let lo = ((s * 11 + r * 17) % 50 + 1) as i64;
    [if signed && (s + r) % 3 == 0 { -hi } else { hi }, lo]
}
fn scalar_step<T: Elem>(u: &Universe, op: &str, s: usize, rank: usize, zz: (&str, usize)) -> Value {
    let mine = T::wide(value(s, rank, T::SIGNED, zz));
    match op {
        "Bcast" => {
            let mut v = mine;
            broadcast_scalar(u, &mut v);
            json!({"d": v.unwide()})
        }
        "GatherSum" => {
            let mut v = T::enc(12_345);
            gather_sum(u, &mine, &mut v);
            if rank != 0 && v.dec() == 12_345 {
                json!({"d": []})
            } else {
                json!({"d": v.unwide()})
            }
        }
        _ => {
            let mut v = T::dirty();
            all_gather_sum(u, &mine, &mut v);
            json!({"d": v.unwide()})
        }
    }
}
/// bytes have no room for both parts of a number
fn bcast_bytes(u: &Universe, s: usize, rank: usize, zz: (&str, usize)) -> Value {
    let mut v = value(s, rank, false, zz).map(|x| x as u8);
    for x in &mut v {
        broadcast_scalar(u, x);
    }
    json!({"d": v})
}
fn scalar(u: &Universe, ty: &str, op: &str, s: usize, rank: usize, zz: (&str, usize)) -> Value {
    match ty {
        "f64" => scalar_step::<f64>(u, op, s, rank, zz),
        "f32" => scalar_step::<f32>(u, op, s, rank, zz),
        "i32" => scalar_step::<i32>(u, op, s, rank, zz),
        "i64" => scalar_step::<i64>(u, op, s, rank, zz),
        "u64" => scalar_step::<u64>(u, op, s, rank, zz),
        "c64" => scalar_step::<Complex<f64>>(u, op, s, rank, zz),
        "c32" => scalar_step::<Complex<f32>>(u, op, s, rank, zz),
        "u8" if op == "Bcast" => bcast_bytes(u, s, rank, zz),
        _ => scalar_step::<u32>(u, op, s, rank, zz),
    }
}

/// pencils of any type
#[derive(Default)]
struct Pens {
    f64s: [Option<Array2<f64>>; 2],
    f32s: [Option<Array2<f32>>; 2],
    i32s: [Option<Array2<i32>>; 2],
    i64s: [Option<Array2<i64>>; 2],
    u8s: [Option<Array2<u8>>; 2],
    c64s: [Option<Array2<Complex<f64>>>; 2],
    c32s: [Option<Array2<Complex<f32>>>; 2],
}

pub struct Run<'u> {
    u: &'u Universe,
    rank: usize,
    np: usize,
    cur: String,
    plain: bool,
}

fn shape2(v: &Value) -> [usize; 2] {
    [v[0].as_u64().unwrap() as usize, v[1].as_u64().unwrap() as usize]
}

/// runs the steps of a program; step() does one
fn steps(run: &Run, no: usize, p: &Value, mut step: impl FnMut(&Step, usize, &Value) -> Value) -> Vec<Value> {
    let mut log = vec![];
    for (k, st) in p["steps"].as_array().unwrap().iter().enumerate() {
        let s = Step {
            big: p["big"] == true,
            after: {
                let o = if (st["o"] == "x") == (st["op"] == "Transpose") { "y" } else { "x" };
                st["after"][st["d"].as_u64().unwrap() as usize - 1][o].as_i64().unwrap()
            },
            op: st["op"].as_str().unwrap().into(),
            x: st["o"] == "x",
            alloc: st["form"] == "alloc",
            fi: st["li"] == "F" && !run.plain,
            fo: st["lo"] == "F" && !run.plain,
            g: st["g"].as_i64().unwrap(),
        };
        let late = st["late"].as_u64().unwrap() as usize;
        if late == run.rank {
            std::thread::sleep(std::time::Duration::from_micros(700));
        }
        mark(run, no, k, &s.op, st);
        let res = catch_unwind(AssertUnwindSafe(|| {
            if ["Bcast", "GatherSum", "AllGatherSum"].contains(&s.op.as_str()) {
                scalar(run.u, st["sty"].as_str().unwrap(), &s.op, k + 1, run.rank, (st["zz"].as_str().unwrap(), run.np))
            } else {
                step(&s, st["d"].as_u64().unwrap() as usize - 1, st)
            }
        }));
        match res {
            Ok(v) => log.push(v),
            Err(e) => die(run, &format!("program {no} step {k} {st}: {}", panic_msg(&e))),
        }
    }
    log
}

fn mark(run: &Run, no: usize, k: usize, op: &str, st: &Value) {
    let f = if run.plain { "plain" } else { "" };
    let _ = std::fs::write(&run.cur, json!({"program": no, "step": k, "op": op, "lay": f, "st": st}).to_string());
}

/// a call panicked here: note it and take everybody down
fn die(run: &Run, msg: &str) -> ! {
    let _ = std::fs::write(format!("{}.panic", run.cur), msg);
    std::process::exit(if msg.contains("harness") { 2 } else { 3 });
}

fn dist_of(d: &Decomp2d, extra: [Vec<[usize; 2]>; 2]) -> Value {
    let n = d.n_global;
    let full = n[0] * n[1] <= 200;
    let mut xs = vec![d.get_x_pencil_shape()];
    xs.extend(&extra[0]);
    let mut ys = vec![d.get_y_pencil_shape()];
    ys.extend(&extra[1]);
    let mut x = dist::own(&d.x_pencil, n, full, &xs);
    let mut y = dist::own(&d.y_pencil, n, full, &ys);
    // the same through the decomposition, also from a strided global array
    let big = Array2::from_shape_fn((2 * n[0], n[1] + 1), |(i, j)| (i, j));
    let g = big.slice(ndarray::s![..;2, ..n[1]]);
    let ids = |a: &Array2<(usize, usize)>| {
        a.iter().map(|(i, j)| ((i / 2) * n[1] + j + 1) as i64).collect::<Vec<i64>>()
    };
    for (o, cut, p) in [(&mut x, d.split_array_x_pencil(&g), &d.x_pencil), (&mut y, d.split_array_y_pencil(&g), &d.y_pencil)] {
        let want: Vec<i64> = (p.st[0]..=p.en[0])
            .flat_map(|i| (p.st[1]..=p.en[1]).map(move |j| (i * n[1] + j + 1) as i64))
            .collect();
        if ids(&cut) != want || cut.shape() != p.sz {
            o["cutok"] = json!(false);
        }
    }
    json!({"n": n, "glob": [n, d.get_global_shape()],
           "x": {"own": x, "tab": dist::table(&d.x_pencil)},
           "y": {"own": y, "tab": dist::table(&d.y_pencil)}})
}

fn plain(run: &Run, no: usize, p: &Value) -> Value {
    let decs = p["dec"].as_array().unwrap();
    let mut handler = DecompHandler::new(run.u);
    let mut ds = vec![];
    for d in decs {
        let n = shape2(&d["n"]);
        ds.push(Decomp2d::new(run.u, n));
        handler.insert(Decomp2d::new(run.u, n));
        if no % 2 == 0 {
            // inserting a shape again changes nothing
            handler.insert(Decomp2d::new(run.u, n));
        }
    }
    let mut look = vec![];
    for d in decs {
        let n = shape2(&d["n"]);
        let g = handler.get_decomp_from_global_shape(&n);
        look.push(json!([n, g.n_global]));
        look.push(json!([g.x_pencil.sz, Decomp2d::new(run.u, n).x_pencil.sz]));
    }
    for d in &ds {
        look.push(json!([[run.rank, run.np], [d.nrank, d.nprocs]]));
    }
    let dist: Vec<Value> = ds.iter().map(|d| dist_of(d, [vec![], vec![]])).collect();
    let mut pens: Vec<Pens> = decs.iter().map(|_| Pens::default()).collect();
    let root = run.rank == 0;
    let log = steps(run, no, p, |s, i, _| {
        let (d, q) = (&ds[i], &mut pens[i]);
        match decs[i]["ty"].as_str().unwrap() {
            "f64" => array_step(s, root, d, d, &mut q.f64s),
            "f32" => array_step(s, root, d, d, &mut q.f32s),
            "i32" => array_step(s, root, d, d, &mut q.i32s),
            "i64" => array_step(s, root, d, d, &mut q.i64s),
            "u8" => array_step(s, root, d, d, &mut q.u8s),
            "c64" => array_step(s, root, d, d, &mut q.c64s),
            "c32" => array_step(s, root, d, d, &mut q.c32s),
            t => panic!("harness: type {t}"),
        }
    });
    json!({"i": no, "dist": dist, "look": look, "log": log})
}

fn through<S>(run: &Run, no: usize, p: &Value, s: &S) -> Value
where
    S: BaseSpaceMpi<f64, 2>,
    S::Physical: Elem,
    S::Spectral: Elem,
{
    let decs = p["dec"].as_array().unwrap();
    let ns: Vec<[usize; 2]> = decs.iter().map(|d| shape2(&d["n"])).collect();
    assert!(ns[0] == s.shape_physical() && ns[1] == s.shape_spectral(), "harness: space shapes");
    let ds: Vec<&Decomp2d> = ns.iter().map(|n| s.get_decomp_from_global_shape(n)).collect();
    let mut look = vec![json!([[run.rank, run.np], [s.get_nrank(), s.get_nprocs()]])];
    for (n, d) in ns.iter().zip(&ds) {
        look.push(json!([n, d.n_global]));
        look.push(json!([[run.rank, run.np], [d.nrank, d.nprocs]]));
    }
    // every shape the bases can produce on the way has its decomposition
    for n in [[ns[0][0], ns[1][1]], [ns[1][0], ns[0][1]], [ns[0][0], ns[0][1]], [ns[1][0], ns[1][1]]] {
        look.push(json!([n, s.get_decomp_from_global_shape(&n).n_global]));
    }
    let sh = |a: &[usize]| [a[0], a[1]];
    let dist = vec![
        dist_of(ds[0], [
            vec![s.shape_physical_x_pen(), sh(s.ndarray_physical_x_pen().shape())],
            vec![s.shape_physical_y_pen(), sh(s.ndarray_physical_y_pen().shape())],
        ]),
        dist_of(ds[1], [
            vec![s.shape_spectral_x_pen(), sh(s.ndarray_spectral_x_pen().shape())],
            vec![s.shape_spectral_y_pen(), sh(s.ndarray_spectral_y_pen().shape())],
        ]),
    ];
    let mut ph: [Option<Array2<S::Physical>>; 2] = [None, None];
    let mut sp: [Option<Array2<S::Spectral>>; 2] = [None, None];
    let root = run.rank == 0;
    let log = steps(run, no, p, |st, i, _| {
        if i == 0 {
            array_step(st, root, &PhysOf(s), ds[0], &mut ph)
        } else {
            array_step(st, root, &SpecOf(s), ds[1], &mut sp)
        }
    });
    json!({"i": no, "dist": dist, "look": look, "log": log})
}

pub fn run(lines: &[Value], out: &str) {
    let u = initialize().expect("harness: MPI");
    let world = u.world();
    let rank = world.rank() as usize;
    let np = world.size() as usize;
    let plainlay = std::env::var("CONF_PLAIN").is_ok();
    let run = Run { u: &u, rank, np, cur: format!("{out}/rank{rank}.current"), plain: plainlay };
    let mut f = std::io::BufWriter::new(std::fs::File::create(format!("{out}/rank{rank}.jsonl")).unwrap());
    for (no, p) in lines.iter().enumerate() {
        let _ = std::fs::write(&run.cur, json!({"program": no, "step": -1, "op": "set up"}).to_string());
        let rec = catch_unwind(AssertUnwindSafe(|| {
            let sp = &p["dec"][0]["sp"];
            if sp.is_null() {
                return plain(&run, no, p);
            }
            let k = [Kind::parse(sp[0].as_str().unwrap()), Kind::parse(sp[2].as_str().unwrap())];
            let len = |v: &Value| v.as_str().unwrap().parse::<usize>().unwrap();
            let n = [len(&sp[1]), len(&sp[3])];
            match (k[0], k[1]) {
                (C2, R2) => through(&run, no, p, &Space2Mpi::new(&c2c::<f64>(n[0]), &r2c::<f64>(n[1]), &u)),
                (C2, C2) => through(&run, no, p, &Space2Mpi::new(&c2c::<f64>(n[0]), &c2c::<f64>(n[1]), &u)),
                (R2, b) => through(&run, no, p, &Space2Mpi::new(&r2c::<f64>(n[0]), &r2r::<f64>(b, n[1]), &u)),
                (a, b) => through(&run, no, p, &Space2Mpi::new(&r2r::<f64>(a, n[0]), &r2r::<f64>(b, n[1]), &u)),
            }
        }));
        match rec {
            Ok(v) => {
                writeln!(f, "{v}").unwrap();
                f.flush().unwrap();
            }
            Err(e) => die(&run, &format!("program {no} set up {}: {}", p["dec"], panic_msg(&e))),
        }
    }
    let _ = std::fs::write(&run.cur, json!({"program": lines.len(), "step": 0, "op": "end"}).to_string());
}
