//! Histories of History.tla on long-lived, cloned and shared objects and reused buffers,
//! against values computed one by one in a process of their own.
use crate::common::*;
use crate::field::class;
use funspace::*;
use ndarray::{Array, ArrayD, Dim, Dimension, Ix1, Ix2, Ix3, IxDyn};
use num_complex::Complex;
use serde_json::{json, Value};
use std::collections::HashMap;
use std::io::Write;
use std::marker::PhantomData;
use std::panic::{catch_unwind, AssertUnwindSafe};
use std::sync::mpsc::{channel, Receiver, Sender};
use std::sync::Arc;

#[derive(Clone, Debug)]
pub enum Buf {
    R(ArrayD<f64>),
    C(ArrayD<Complex<f64>>),
}
type C64 = Complex<f64>;
pub trait Elem: Num {
    fn get(b: &Buf) -> &ArrayD<Self>;
    fn take(b: Buf) -> ArrayD<Self>;
    fn put(a: ArrayD<Self>) -> Buf;
}
impl Elem for f64 {
    fn get(b: &Buf) -> &ArrayD<f64> {
        match b {
            Buf::R(a) => a,
            Buf::C(_) => panic!("harness: buffer type"),
        }
    }
    fn take(b: Buf) -> ArrayD<f64> {
        match b {
            Buf::R(a) => a,
            Buf::C(_) => panic!("harness: buffer type"),
        }
    }
    fn put(a: ArrayD<f64>) -> Buf {
        Buf::R(a)
    }
}
impl Elem for C64 {
    fn get(b: &Buf) -> &ArrayD<C64> {
        match b {
            Buf::C(a) => a,
            Buf::R(_) => panic!("harness: buffer type"),
        }
    }
    fn take(b: Buf) -> ArrayD<C64> {
        match b {
            Buf::C(a) => a,
            Buf::R(_) => panic!("harness: buffer type"),
        }
    }
    fn put(a: ArrayD<C64>) -> Buf {
        Buf::C(a)
    }
}
impl Buf {
    fn tensor(&self) -> Tensor {
        match self {
            Buf::R(a) => Tensor::of(a),
            Buf::C(a) => Tensor::of(a),
        }
    }
    fn same_bits(&self, o: &Buf) -> bool {
        let (a, b) = (self.tensor(), o.tensor());
        a.shape == b.shape
            && a.v
                .iter()
                .zip(&b.v)
                .all(|(x, y)| x.0.to_bits() == y.0.to_bits() && x.1.to_bits() == y.1.to_bits())
    }
    fn make(cplx: bool, t: &Tensor) -> Buf {
        if cplx {
            Buf::C(t.arr())
        } else {
            Buf::R(t.arr())
        }
    }
}

#[derive(Clone, Debug)]
pub struct Grad {
    d: Vec<usize>,
    scale: Option<Vec<f64>>,
}

pub trait Obj: Send + Sync {
    /// dst is what the in-place forms write into
    fn apply(&self, op: &str, form: &str, g: &Grad, src: &Buf, dst: Buf) -> Buf;
    fn dup(&self) -> Box<dyn Obj>;
    /// answer to a query, flattened; d is an order or an axis
    fn ask(&self, q: &str, d: usize) -> Vec<f64>;
}
fn flat<T: Num>(m: &ndarray::Array2<T>) -> Vec<f64> {
    let mut v = vec![m.shape()[0] as f64, m.shape()[1] as f64];
    v.extend(m.iter().flat_map(|x| [x.parts().0, x.parts().1]));
    v
}
fn flat2<T: Num>(m: &(ndarray::Array2<T>, ndarray::Array2<T>)) -> Vec<f64> {
    let mut v = flat(&m.0);
    v.extend(flat(&m.1));
    v
}
fn kinds(a: BaseKind, t: funspace::enums::TransformKind) -> Vec<f64> {
    format!("{a:?} {}", match t {
        funspace::enums::TransformKind::R2r => "R2r",
        funspace::enums::TransformKind::R2c => "R2c",
        funspace::enums::TransformKind::C2c => "C2c",
    }).bytes().map(f64::from).collect()
}

macro_rules! forms {
    ($form:expr, $dst:expr, $T:ty, $D:ty, $alloc:expr, $par:expr, $inp:expr, $inpar:expr, $slice:expr) => {{
        let mut o: Array<$T, $D> =
            <$T as Elem>::take($dst).into_dimensionality::<$D>().expect("harness: dim");
        match $form {
            "alloc" => o = $alloc(),
            "par" => o = $par(),
            "inplace_par" => $inpar(&mut o),
            "slice" if o.ndim() == 1 => $slice(o.as_slice_mut().unwrap()),
            _ => $inp(&mut o),
        }
        <$T as Elem>::put(o.into_dyn())
    }};
}

fn conv_base<B, T, D>(b: &B, axis: usize, op: &str, form: &str, g: &Grad, src: &Buf, dst: Buf) -> Buf
where
    B: BaseFromOrtho<T> + BaseGradient<T> + Sync,
    T: Elem,
    D: Dimension,
{
    let x = T::get(src).view().into_dimensionality::<D>().expect("harness: dim");
    let s = x.as_slice().unwrap();
    let d = g.d.get(axis).copied().unwrap_or(0);
    match op {
        "ToOrtho" => forms!(form, dst, T, D, || b.to_ortho(&x, axis), || b.to_ortho_par(&x, axis),
            |o| b.to_ortho_inplace(&x, o, axis), |o| b.to_ortho_inplace_par(&x, o, axis),
            |o| b.to_ortho_slice(s, o)),
        "FromOrtho" => forms!(form, dst, T, D, || b.from_ortho(&x, axis),
            || b.from_ortho_par(&x, axis), |o| b.from_ortho_inplace(&x, o, axis),
            |o| b.from_ortho_inplace_par(&x, o, axis), |o| b.from_ortho_slice(s, o)),
        _ => forms!(form, dst, T, D, || b.gradient(&x, d, axis), || b.gradient_par(&x, d, axis),
            |o| b.gradient_inplace(&x, o, d, axis), |o| b.gradient_inplace_par(&x, o, d, axis),
            |o| b.gradient_slice(s, o, d)),
    }
}
fn trans_base<B, D>(b: &B, axis: usize, op: &str, form: &str, src: &Buf, dst: Buf) -> Buf
where
    B: BaseTransform + Sync,
    B::Physical: Elem,
    B::Spectral: Elem,
    D: Dimension,
{
    if op == "Forward" {
        let x = B::Physical::get(src).view().into_dimensionality::<D>().expect("harness: dim");
        let s = x.as_slice().unwrap();
        forms!(form, dst, B::Spectral, D, || b.forward(&x, axis), || b.forward_par(&x, axis),
            |o| b.forward_inplace(&x, o, axis), |o| b.forward_inplace_par(&x, o, axis),
            |o| b.forward_slice(s, o))
    } else {
        let x = B::Spectral::get(src).view().into_dimensionality::<D>().expect("harness: dim");
        let s = x.as_slice().unwrap();
        forms!(form, dst, B::Physical, D, || b.backward(&x, axis), || b.backward_par(&x, axis),
            |o| b.backward_inplace(&x, o, axis), |o| b.backward_inplace_par(&x, o, axis),
            |o| b.backward_slice(s, o))
    }
}

struct BaseObj<B, T, D> {
    b: B,
    axis: usize,
    trans: bool,
    p: PhantomData<fn() -> (T, D)>,
}
impl<B, T, D> Obj for BaseObj<B, T, D>
where
    B: BaseTransform + BaseFromOrtho<T> + BaseGradient<T> + Clone + Send + Sync + 'static,
    B: BaseMatOpDiffmat + BaseMatOpLaplacian + BaseMatOpStencil + BaseElements<RealNum = f64>,
    <B as BaseMatOpDiffmat>::NumType: Num,
    <B as BaseMatOpLaplacian>::NumType: Num,
    <B as BaseMatOpStencil>::NumType: Num,
    B::Physical: Elem,
    B::Spectral: Elem,
    T: Elem + 'static,
    D: Dimension + 'static,
{
    fn ask(&self, q: &str, d: usize) -> Vec<f64> {
        let b = &self.b;
        match q {
            "coords" => b.coords(),
            "stencil" => flat(&b.stencil()),
            "steninv" => flat(&b.stencil_inv()),
            "lap" => flat(&b.laplacian()),
            "lapinv" => flat2(&b.laplacian_pinv()),
            "diff" => flat(&b.diffmat(d)),
            "diffinv" => flat2(&b.diffmat_pinv(d)),
            _ => {
                let mut v = kinds(b.base_kind(), b.transform_kind());
                v.extend([b.len_phys(), b.len_spec(), b.len_orth()].map(|x| x as f64));
                v
            }
        }
    }
    fn apply(&self, op: &str, form: &str, g: &Grad, src: &Buf, dst: Buf) -> Buf {
        if op == "Forward" || op == "Backward" {
            assert!(self.trans, "harness: no transform of complex coefficients");
            trans_base::<B, D>(&self.b, self.axis, op, form, src, dst)
        } else {
            conv_base::<B, T, D>(&self.b, self.axis, op, form, g, src, dst)
        }
    }
    fn dup(&self) -> Box<dyn Obj> {
        Box::new(BaseObj::<B, T, D> { b: self.b.clone(), axis: self.axis, trans: self.trans, p: PhantomData })
    }
}

struct SpaceObj<S, T, const N: usize> {
    s: S,
    trans: bool,
    p: PhantomData<fn() -> T>,
}
impl<S, T, const N: usize> Obj for SpaceObj<S, T, N>
where
    S: BaseSpaceTransform<f64, N> + BaseSpaceFromOrtho<f64, T, N> + BaseSpaceGradient<f64, T, N>
        + BaseSpaceMatOpStencil<NumType = f64> + BaseSpaceMatOpLaplacian<NumType = f64>
        + BaseSpaceElements<N, RealNum = f64> + Clone + Send + Sync + 'static,
    S::Physical: Elem,
    S::Spectral: Elem,
    T: Elem + 'static,
    Dim<[usize; N]>: Dimension,
{
    fn ask(&self, q: &str, d: usize) -> Vec<f64> {
        let (s, a) = (&self.s, d % N);
        match q {
            "coords" => {
                let mut v = s.coords_axis(a).to_vec();
                s.coords().iter().for_each(|c| v.extend(c));
                v
            }
            "stencil" => flat(&s.stencil(a)),
            "steninv" => flat(&s.stencil_inv(a)),
            "lap" | "diff" => flat(&s.laplacian(a)),
            "lapinv" | "diffinv" => flat2(&s.laplacian_pinv(a)),
            _ => {
                let mut v = kinds(s.base_kind(a), s.transform_kind(a));
                for x in [s.shape_physical(), s.shape_spectral(), s.shape_spectral_ortho()] {
                    v.extend(x.map(|y| y as f64));
                }
                v
            }
        }
    }
    fn apply(&self, op: &str, form: &str, g: &Grad, src: &Buf, dst: Buf) -> Buf {
        type D<const N: usize> = Dim<[usize; N]>;
        let s = &self.s;
        let no = |_: &mut [T]| panic!("harness: spaces have no slice form");
        match op {
            "Forward" => {
                assert!(self.trans, "harness: no transform");
                let x = S::Physical::get(src).view().into_dimensionality::<D<N>>().unwrap();
                let form = if form == "slice" { "inplace" } else { form };
                forms!(form, dst, S::Spectral, D<N>, || s.forward(&x), || s.forward_par(&x),
                    |o| s.forward_inplace(&x, o), |o| s.forward_inplace_par(&x, o),
                    |_: &mut [S::Spectral]| ())
            }
            "Backward" => {
                assert!(self.trans, "harness: no transform");
                let x = S::Spectral::get(src).view().into_dimensionality::<D<N>>().unwrap();
                let form = if form == "slice" { "inplace" } else { form };
                forms!(form, dst, S::Physical, D<N>, || s.backward(&x), || s.backward_par(&x),
                    |o| s.backward_inplace(&x, o), |o| s.backward_inplace_par(&x, o),
                    |_: &mut [S::Physical]| ())
            }
            "ToOrtho" => {
                let x = T::get(src).view().into_dimensionality::<D<N>>().unwrap();
                let form = if form == "slice" { "inplace" } else { form };
                forms!(form, dst, T, D<N>, || BaseSpaceFromOrtho::<f64, T, N>::to_ortho(s, &x),
                    || s.to_ortho_par(&x), |o| s.to_ortho_inplace(&x, o),
                    |o| s.to_ortho_inplace_par(&x, o), no)
            }
            "FromOrtho" => {
                let x = T::get(src).view().into_dimensionality::<D<N>>().unwrap();
                let form = if form == "slice" { "inplace" } else { form };
                forms!(form, dst, T, D<N>, || s.from_ortho(&x), || s.from_ortho_par(&x),
                    |o| s.from_ortho_inplace(&x, o), |o| s.from_ortho_inplace_par(&x, o), no)
            }
            _ => {
                let x = T::get(src).view().into_dimensionality::<D<N>>().unwrap();
                let mut d = [0; N];
                d.copy_from_slice(&g.d);
                let sc = g.scale.as_ref().map(|v| {
                    let mut a = [1.; N];
                    a.copy_from_slice(v);
                    a
                });
                // spaces have no in-place gradient: the output buffer is dropped
                let o = if form.contains("par") { s.gradient_par(&x, d, sc) } else { s.gradient(&x, d, sc) };
                T::put(o.into_dyn())
            }
        }
    }
    fn dup(&self) -> Box<dyn Obj> {
        Box::new(SpaceObj::<S, T, N> { s: self.s.clone(), trans: self.trans, p: PhantomData })
    }
}

#[derive(Clone, Debug)]
struct Cfg {
    id: u64,
    ax: Vec<(Kind, usize)>,
    space: bool,
    cplx: bool,
    grads: Vec<Grad>,
}
impl Cfg {
    fn parse(v: &Value) -> Cfg {
        Cfg {
            id: v["id"].as_u64().unwrap(),
            ax: axes(&v["ax"]),
            space: v["space"].as_bool().unwrap(),
            cplx: v["cplx"].as_bool().unwrap(),
            grads: v["grads"]
                .as_array()
                .unwrap()
                .iter()
                .map(|g| Grad {
                    d: ints(&g["d"]),
                    scale: if g["scale"].is_null() { None } else { Some(nums(&g["scale"])) },
                })
                .collect(),
        }
    }
    /// is the representation complex?
    fn is_c(&self, rep: &str) -> bool {
        if rep == "phys" {
            // real unless all axes are complex Fourier
            self.ax.iter().all(|x| x.0 == C2 || x.0 == ID)
        } else {
            self.cplx || self.ax.iter().any(|x| x.0 == R2 || x.0 == C2)
        }
    }
    fn shape(&self, rep: &str) -> Vec<usize> {
        shape_of(&self.ax, if rep == "phys" { "grid" } else { rep })
    }
    fn object(&self) -> Box<dyn Obj> {
        let a = &self.ax;
        if !self.space {
            let axis = a.iter().position(|x| x.0 != ID).unwrap();
            let (k, n) = a[axis];
            macro_rules! base {
                ($b:expr, $T:ty, $trans:expr) => {
                    match a.len() {
                        1 => Box::new(BaseObj::<_, $T, Ix1> { b: $b, axis, trans: $trans, p: PhantomData }),
                        2 => Box::new(BaseObj::<_, $T, Ix2> { b: $b, axis, trans: $trans, p: PhantomData }),
                        3 => Box::new(BaseObj::<_, $T, Ix3> { b: $b, axis, trans: $trans, p: PhantomData }),
                        _ => Box::new(BaseObj::<_, $T, IxDyn> { b: $b, axis, trans: $trans, p: PhantomData }),
                    }
                };
            }
            return match k {
                R2 => base!(r2c::<f64>(n), C64, true),
                C2 => base!(c2c::<f64>(n), C64, true),
                _ if self.cplx => base!(r2r::<f64>(k, n), C64, false),
                _ => base!(r2r::<f64>(k, n), f64, true),
            };
        }
        let n = |i: usize| a[i].1;
        let rr = |i: usize| r2r::<f64>(a[i].0, a[i].1);
        let rc = |i: usize| r2c::<f64>(n(i));
        let cc = |i: usize| c2c::<f64>(n(i));
        macro_rules! sp {
            ($s:expr, $N:expr, real) => {
                if self.cplx {
                    Box::new(SpaceObj::<_, C64, $N> { s: $s, trans: false, p: PhantomData })
                } else {
                    Box::new(SpaceObj::<_, f64, $N> { s: $s, trans: true, p: PhantomData })
                }
            };
            ($s:expr, $N:expr) => {
                Box::new(SpaceObj::<_, C64, $N> { s: $s, trans: true, p: PhantomData })
            };
        }
        match class(a).as_str() {
            "r" => sp!(Space1::new(&rr(0)), 1, real),
            "R" => sp!(Space1::new(&rc(0)), 1),
            "C" => sp!(Space1::new(&cc(0)), 1),
            "rr" => sp!(Space2::new(&rr(0), &rr(1)), 2, real),
            "Rr" => sp!(Space2::new(&rc(0), &rr(1)), 2),
            "CR" => sp!(Space2::new(&cc(0), &rc(1)), 2),
            "CC" => sp!(Space2::new(&cc(0), &cc(1)), 2),
            "rrr" => sp!(Space3::new(&rr(0), &rr(1), &rr(2)), 3, real),
            "Rrr" => sp!(Space3::new(&rc(0), &rr(1), &rr(2)), 3),
            "CRr" => sp!(Space3::new(&cc(0), &rc(1), &rr(2)), 3),
            "CCR" => sp!(Space3::new(&cc(0), &cc(1), &rc(2)), 3),
            "CCC" => sp!(Space3::new(&cc(0), &cc(1), &cc(2)), 3),
            x => panic!("harness: no space {x}"),
        }
    }
    fn data(&self, rep: &str, k: usize) -> Buf {
        let shape = self.shape(rep);
        let n: usize = shape.iter().product();
        // the data 1 with two neighbours exchanged in the middle of every lane of the last
        // proper axis: equal ends, sums, norms and extrema, another value
        if k == 5 {
            let axis = self.ax.iter().rposition(|x| x.0 != ID).unwrap();
            let mut t = self.data(rep, 1).tensor();
            let inner: usize = shape[axis + 1..].iter().product();
            let (m, j) = (shape[axis], (shape[axis] / 2).max(1) - 1);
            if j + 1 < m {
                for o in 0..n / (m * inner) {
                    for i in 0..inner {
                        let p = (o * m + j) * inner + i;
                        t.v.swap(p, p + inner);
                    }
                }
            }
            return Buf::make(self.is_c(rep), &t);
        }
        let mut s = (self.id * 7919 + k as u64 * 104729 + rep.len() as u64 * 31 + rep.as_bytes()[0] as u64) | 1;
        let mut rnd = move || {
            s = s.wrapping_mul(6364136223846793005).wrapping_add(1442695040888963407);
            ((s >> 33) % 4001) as f64 / 1000. - 2.
        };
        let v = (0..n)
            .map(|i| {
                let (a, b) = (rnd(), rnd());
                match k {
                    1 => (a, b),
                    // mostly zero lines
                    2 => if i % 5 == 3 { (a, b) } else { (0., 0.) },
                    // data that nothing good can come of
                    4 => match i % 7 { 0 => (f64::NAN, a), 3 => (b, f64::INFINITY), _ => (a, b) },
                    _ => (0., 0.),
                }
            })
            .collect();
        Buf::make(self.is_c(rep), &Tensor { shape, v })
    }
    fn garbage(&self, rep: &str, i: usize) -> Buf {
        let shape = self.shape(rep);
        let n: usize = shape.iter().product();
        let v = (0..n)
            .map(|q| if i % 2 == 0 { (f64::NAN, f64::NAN) } else { (1e3 + q as f64, -1e3) })
            .collect();
        Buf::make(self.is_c(rep), &Tensor { shape, v })
    }
}

#[derive(Clone, Debug)]
struct Term {
    op: String,
    rep: String,
    d: usize,
    src: usize,
}
fn terms(v: &Value) -> Vec<Term> {
    v.as_array()
        .unwrap()
        .iter()
        .map(|t| Term {
            op: t["op"].as_str().unwrap().into(),
            rep: t["rep"].as_str().unwrap().into(),
            d: t["d"].as_u64().unwrap() as usize,
            src: t["src"].as_u64().unwrap() as usize,
        })
        .collect()
}
fn keys(ts: &[Term]) -> Vec<String> {
    let mut k: Vec<String> = vec![];
    for t in ts {
        k.push(if t.op == "ask" {
            format!("ask {} {}", t.rep, t.d)
        } else if t.op == "data" {
            format!("{}{}", t.rep, t.d)
        } else {
            format!("{}{}({})", t.op, t.d, k[t.src - 1])
        });
    }
    k
}
fn no_grad() -> Grad {
    Grad { d: vec![], scale: None }
}
fn grad_of(c: &Cfg, op: &str, d: usize) -> Grad {
    if op == "Gradient" {
        c.grads[d - 1].clone()
    } else {
        no_grad()
    }
}

/// values of all terms of one configuration, one by one: a new object for each
pub fn reference(lines: &[Value], r: &mut Report, path: &str) {
    let mut done: HashMap<String, Option<Buf>> = HashMap::new();
    let mut f = std::io::BufWriter::new(std::fs::File::create(path).unwrap());
    for v in lines {
        let c = Cfg::parse(&v["cfg"]);
        let ts = terms(&v["terms"]);
        let ks = keys(&ts);
        for (i, t) in ts.iter().enumerate() {
            if done.contains_key(&ks[i]) {
                continue;
            }
            r.at(format!("reference {:?} {}", c.ax, ks[i]));
            let val = if t.op == "ask" {
                Some(ask_alone(&v["cfg"], &t.rep, t.d))
                    .filter(|a| !a.is_empty())
                    .map(|a| Buf::R(ArrayD::from_shape_vec(IxDyn(&[a.len()]), a).unwrap()))
            } else if t.op == "data" {
                Some(c.data(&t.rep, t.d))
            } else {
                done[&ks[t.src - 1]].as_ref().and_then(|src| {
                    catch_unwind(AssertUnwindSafe(|| {
                        let o = c.object();
                        o.apply(&t.op, "alloc", &grad_of(&c, &t.op, t.d), src, c.garbage(&t.rep, 0))
                    }))
                    .ok()
                })
            };
            let j = match &val {
                None => json!({"key": ks[i], "v": null}),
                Some(b) => {
                    let t = b.tensor();
                    let bits: Vec<u64> =
                        t.v.iter().flat_map(|x| [x.0.to_bits(), x.1.to_bits()]).collect();
                    json!({"key": ks[i], "v": bits, "c": matches!(b, Buf::C(_)), "shape": t.shape})
                }
            };
            writeln!(f, "{j}").unwrap();
            done.insert(ks[i].clone(), val);
            r.cases += 1;
        }
    }
}

/// the answer of a new object, asked in a process of its own; empty: it panics
fn ask_alone(cfg: &Value, q: &str, d: usize) -> Vec<f64> {
    let me = std::env::current_exe().expect("harness: exe");
    let o = std::process::Command::new(me)
        .args(["history-ask", &json!({"cfg": cfg, "q": q, "d": d}).to_string(), "-"])
        .output()
        .expect("harness: cannot start a process");
    assert!(o.status.success(), "harness: history-ask {q} {d}");
    String::from_utf8(o.stdout)
        .unwrap()
        .split_whitespace()
        .map(|x| f64::from_bits(x.parse().unwrap()))
        .collect()
}
pub fn ask(v: &Value) {
    let c = Cfg::parse(&v["cfg"]);
    let a = catch_unwind(AssertUnwindSafe(|| {
        c.object().ask(v["q"].as_str().unwrap(), v["d"].as_u64().unwrap() as usize)
    }));
    if let Ok(a) = a {
        let s: Vec<String> = a.iter().map(|x| x.to_bits().to_string()).collect();
        println!("{}", s.join(" "));
    }
}

fn load_ref(path: &str) -> HashMap<String, Option<Buf>> {
    let mut m = HashMap::new();
    for l in std::fs::read_to_string(path).unwrap_or_else(|e| panic!("harness: {path} {e}")).lines() {
        let v: Value = serde_json::from_str(l).unwrap();
        let val = if v["v"].is_null() {
            None
        } else {
            let bits: Vec<f64> = v["v"]
                .as_array()
                .unwrap()
                .iter()
                .map(|x| f64::from_bits(x.as_u64().unwrap()))
                .collect();
            let t = Tensor {
                shape: ints(&v["shape"]),
                v: bits.chunks(2).map(|c| (c[0], c[1])).collect(),
            };
            Some(Buf::make(v["c"].as_bool().unwrap(), &t))
        };
        m.insert(v["key"].as_str().unwrap().to_string(), val);
    }
    m
}

type Job = Box<dyn FnOnce() -> Result<(Buf, bool), String> + Send>;
struct Worker {
    tx: Sender<Job>,
    rx: Receiver<Result<(Buf, bool), String>>,
}
fn worker() -> Worker {
    let (tx, jobs) = channel::<Job>();
    let (out, rx) = channel();
    std::thread::spawn(move || {
        for j in jobs {
            let _ = out.send(j());
        }
    });
    Worker { tx, rx }
}

/// objects of the other precision (and other kinds, other sizes) are made, asked and used
fn others(c: &Cfg, q: &str, d: usize, i: usize) {
    type C32 = Complex<f32>;
    fn one<B, T, P, S>(b: &B, q: &str, d: usize)
    where
        B: BaseTransform<Physical = P, Spectral = S> + BaseFromOrtho<T> + BaseGradient<T> + Sync,
        B: BaseMatOpDiffmat + BaseMatOpLaplacian + BaseMatOpStencil + BaseElements<RealNum = f32>,
        T: Num,
        P: Num,
        S: Num,
    {
        let quiet = |f: &mut dyn FnMut()| {
            let _ = catch_unwind(AssertUnwindSafe(f));
        };
        quiet(&mut || match q {
            "coords" => drop(b.coords()),
            "stencil" => drop(b.stencil()),
            "steninv" => drop(b.stencil_inv()),
            "lap" => drop(b.laplacian()),
            "lapinv" => drop(b.laplacian_pinv()),
            "diff" => drop(b.diffmat(d)),
            "diffinv" => drop(b.diffmat_pinv(d)),
            _ => drop((b.len_phys(), b.len_spec(), b.len_orth())),
        });
        quiet(&mut || {
            let x = ndarray::Array2::<P>::from_elem((b.len_phys(), 2), P::mk(0.3, 0.7));
            let _ = b.backward(&b.forward(&x, 0), 0);
        });
        quiet(&mut || {
            let x = ndarray::Array2::<T>::from_elem((b.len_spec(), 2), T::mk(0.3, 0.7));
            let _ = b.from_ortho(&b.to_ortho(&x, 0), 0);
            let _ = b.gradient_par(&x, d, 0);
        });
    }
    fn kind(k: Kind, n: usize, q: &str, d: usize) {
        match k {
            ID => {}
            R2 => one::<_, C32, f32, C32>(&r2c::<f32>(n), q, d),
            C2 => one::<_, C32, C32, C32>(&c2c::<f32>(n), q, d),
            _ => one::<_, f32, f32, f32>(&r2r::<f32>(k, n), q, d),
        }
    }
    let all = [CH, DI, NE, DN, BA, BB, R2, C2];
    for (k, n) in &c.ax {
        let _ = catch_unwind(AssertUnwindSafe(|| kind(*k, *n, q, d)));
        if *k != ID && i % 3 == 0 {
            let _ = catch_unwind(AssertUnwindSafe(|| kind(all[i / 3 % 8], n + i % 2, q, d)));
        }
    }
}

/// histories of all configurations in one process
pub fn run(lines: &[Value], r: &mut Report, refdir: &str) {
    let ws: Vec<Worker> = (0..4).map(|_| worker()).collect();
    let mut objects: HashMap<u64, HashMap<u64, Arc<dyn Obj>>> = HashMap::new();
    let mut refs: HashMap<u64, HashMap<String, Option<Buf>>> = HashMap::new();
    for (hi, v) in lines.iter().enumerate() {
        let c = Arc::new(Cfg::parse(&v["cfg"]));
        let ts = terms(&v["terms"]);
        let ks = keys(&ts);
        let rf = refs.entry(c.id).or_insert_with(|| load_ref(&format!("{refdir}/{}.ref", c.id)));
        if hi % 2 == 0 && !objects.contains_key(&c.id) {
            // a prefix of Other steps
            for q in ["coords", "stencil", "steninv", "lap", "lapinv", "diff", "diffinv", "sizes"] {
                (1..5).for_each(|d| others(&c, q, d, 1));
            }
            r.count("Other first");
        }
        let objs = objects.entry(c.id).or_insert_with(|| {
            let o: Arc<dyn Obj> = Arc::from(c.object());
            HashMap::from([(1, o.clone()), (2, Arc::from(o.dup()))])
        });
        r.cases += 1;
        let name = format!("history {hi} on {}{:?}", if c.space { "space " } else { "base " }, c.ax);
        r.at(name.clone());
        let bname = |b: &Value| (b[0].as_str().unwrap().to_string(), b[1].as_u64().unwrap());
        let mut bufs: HashMap<(String, u64), (usize, Arc<Buf>)> = HashMap::new();
        for rep in ["spec", "orth", "phys"] {
            for i in 1..=2 {
                bufs.insert((rep.into(), i), (0, Arc::new(c.garbage(rep, hi))));
            }
        }
        let mut live: HashMap<u64, (String, String, (String, u64), (String, u64))> = HashMap::new();
        let mut poisoned = false;
        for (si, s) in v["steps"].as_array().unwrap().iter().enumerate() {
            r.now = format!("{name}, step {si}");
            match s["a"].as_str().unwrap() {
                "Load" => {
                    let b = bname(&s["b"]);
                    let k = s["k"].as_u64().unwrap() as usize;
                    let d = c.data(&b.0, k);
                    let ix = 1 + ts
                        .iter()
                        .position(|t| t.op == "data" && t.rep == b.0 && t.d == k)
                        .expect("harness: term of a load");
                    bufs.insert(b, (ix, Arc::new(d)));
                }
                "Spoil" => {
                    let b = bname(&s["b"]);
                    let g = c.garbage(&b.0, si);
                    bufs.insert(b, (0, Arc::new(g)));
                }
                "Clone" => {
                    let o = objs[&s["o"].as_u64().unwrap()].clone();
                    objs.insert(s["o2"].as_u64().unwrap(), Arc::from(o.dup()));
                    r.count("Clone");
                }
                "New" => {
                    objs.insert(s["o"].as_u64().unwrap(), Arc::from(c.object()));
                    r.count("New");
                }
                "Refused" => {
                    let t = s["t"].as_u64().unwrap();
                    let o = objs[&s["o"].as_u64().unwrap()].clone();
                    let op = s["op"].as_str().unwrap().to_string();
                    let form = s["form"].as_str().unwrap().to_string();
                    let c2 = c.clone();
                    let job: Job = Box::new(move || {
                        let (rep, to) = match op.as_str() {
                            "FromOrtho" => ("orth", "spec"),
                            "Forward" => ("phys", "spec"),
                            "Backward" => ("spec", "phys"),
                            _ => ("spec", "orth"),
                        };
                        let mut t = c2.garbage(rep, si).tensor();
                        for (a, x) in t.shape.iter_mut().enumerate() {
                            *x += usize::from(c2.ax[a].0 != ID);
                        }
                        t.v = vec![(1., f64::NAN); t.shape.iter().product()];
                        let src = Buf::make(c2.is_c(rep), &t);
                        let g = grad_of(&c2, &op, 1);
                        // whether it is refused is not this check's business
                        let _ = catch_unwind(AssertUnwindSafe(|| o.apply(&op, &form, &g, &src, c2.garbage(to, si))));
                        Ok((Buf::R(ArrayD::zeros(IxDyn(&[0]))), true))
                    });
                    ws[t as usize].tx.send(job).unwrap();
                    let _ = ws[t as usize].rx.recv().unwrap();
                    r.count("Refused");
                }
                "Other" => {
                    let t = s["t"].as_u64().unwrap();
                    let q = s["q"].as_str().unwrap().to_string();
                    let d = s["d"].as_u64().unwrap() as usize;
                    let c2 = c.clone();
                    let job: Job = Box::new(move || {
                        others(&c2, &q, d, si);
                        Ok((Buf::R(ArrayD::zeros(IxDyn(&[0]))), true))
                    });
                    ws[t as usize].tx.send(job).unwrap();
                    let _ = ws[t as usize].rx.recv().unwrap();
                    r.count("Other");
                }
                "Ask" => {
                    let t = s["t"].as_u64().unwrap();
                    let o = objs[&s["o"].as_u64().unwrap()].clone();
                    let q = s["q"].as_str().unwrap().to_string();
                    let d = s["d"].as_u64().unwrap() as usize;
                    let q2 = q.clone();
                    let job: Job = Box::new(move || {
                        catch_unwind(AssertUnwindSafe(|| o.ask(&q2, d)))
                            .map(|a| (Buf::R(ArrayD::from_shape_vec(IxDyn(&[a.len()]), a).unwrap()), true))
                            .map_err(|e| panic_msg(&e))
                    });
                    ws[t as usize].tx.send(job).unwrap();
                    let res = ws[t as usize].rx.recv().unwrap();
                    let want = &rf[&ks[s["term"].as_u64().unwrap() as usize - 1]];
                    r.now = format!("{name}, step {si}: {q}({d})");
                    r.count(&format!("Ask:{q}"));
                    r.checks += 1;
                    match (res, want) {
                        (Ok((b, _)), Some(w)) => {
                            let (x, y) = (w.tensor(), b.tensor());
                            if x.shape != y.shape {
                                r.fail("answer differs from the one of a new object in a new process",
                                    json!([x.shape, y.shape]));
                            } else {
                                let sc = vec![x.max() + 1e-300; x.v.len()];
                                let sc: Vec<f64> = sc.iter().zip(&x.v).map(|(m, p)| p.0.abs() + 1e-9 * m).collect();
                                r.close("answer differs from the one of a new object in a new process",
                                    &q, &y, &x, &sc, 1e-9);
                            }
                        }
                        (Err(_), None) => {}
                        (Err(m), Some(_)) => r.fail("panics, a new object in a new process does not", json!(m)),
                        (Ok(_), None) => r.fail("answers, a new object in a new process panics", json!(null)),
                    }
                }
                "Begin" => {
                    let t = s["t"].as_u64().unwrap();
                    let o = objs[&s["o"].as_u64().unwrap()].clone();
                    let op = s["op"].as_str().unwrap().to_string();
                    let form = s["form"].as_str().unwrap().to_string();
                    let (sb, db) = (bname(&s["s"]), bname(&s["dst"]));
                    let src = bufs[&sb].1.clone();
                    let (_, dst) = bufs.remove(&db).expect("harness: output buffer in use");
                    let dst = Arc::try_unwrap(dst).unwrap_or_else(|a| (*a).clone());
                    let g = grad_of(&c, &op, s["d"].as_u64().unwrap() as usize);
                    let (op2, form2) = (op.clone(), form.clone());
                    let job: Job = Box::new(move || {
                        let before = (*src).clone();
                        match catch_unwind(AssertUnwindSafe(|| o.apply(&op2, &form2, &g, &src, dst))) {
                            Ok(b) => Ok((b, before.same_bits(&src))),
                            Err(e) => Err(panic_msg(&e)),
                        }
                    });
                    ws[t as usize].tx.send(job).unwrap();
                    live.insert(t, (op, form, sb, db));
                }
                "End" => {
                    let t = s["t"].as_u64().unwrap();
                    let term = s["term"].as_u64().unwrap() as usize;
                    let res = ws[t as usize].rx.recv().unwrap();
                    let (op, form, sb, db) = live.remove(&t).unwrap();
                    let want = rf[&ks[term - 1]].clone();
                    r.now = format!("{name}, step {si}: {op} ({form}) {:?} -> {:?} = {}", sb, db, ks[term - 1]);
                    r.count(&format!("{op}:{form}"));
                    if let Err(m) = &res {
                        if m.starts_with("harness") {
                            panic!("{m}");
                        }
                    }
                    match (res, want) {
                        (Ok((b, kept)), Some(w)) => {
                            if !kept {
                                r.fail("input modified", json!(null));
                            }
                            let (x, y) = (w.tensor(), b.tensor());
                            let m = x.max() + 1e-300;
                            let sc = vec![m; x.v.len()];
                            if x.v.iter().all(|p| p.0.is_finite() && p.1.is_finite()) {
                                r.close("result differs from the one of a new object in a new process",
                                    &op, &y, &x, &sc, 1e-9);
                            }
                            bufs.insert(db, (term, Arc::new(w)));
                        }
                        (Err(m), Some(_)) => {
                            r.fail("panicked, a new object in a new process does not", json!(m));
                            poisoned = true;
                        }
                        (Ok(_), None) => {
                            r.fail("returns, a new object in a new process panics", json!(null));
                            poisoned = true;
                        }
                        (Err(_), None) => poisoned = true,
                    }
                    // every buffer that is not being written holds the value of its term
                    for (b, (ix, val)) in &bufs {
                        if *ix > 0 {
                            if let Some(w) = &rf[&ks[ix - 1]] {
                                r.checks += 1;
                                if !val.same_bits(w) {
                                    r.fail("a buffer changed that no call was given for output", json!(b));
                                }
                            }
                        }
                    }
                }
                "Stop" => break,
                x => panic!("harness: step {x}"),
            }
            if poisoned {
                break;
            }
        }
        // let unfinished calls end
        for t in live.keys() {
            let _ = ws[*t as usize].rx.recv();
        }
        if hi % 53 == 3 {
            r.sample(json!({"history": name, "steps": v["steps"].as_array().unwrap().iter().take(6).collect::<Vec<_>>()}));
        }
    }
}
