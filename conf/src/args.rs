//! Calls of Args.tla: matching arguments are accepted with a complete result, others are
//! rejected by a panic; nothing outside the given data is touched.
use crate::common::*;
use crate::field::class;
use funspace::*;
use ndarray::{ArrayD, ArrayView, ArrayViewMut, Dim, Dimension, Ix1, Ix2, Ix3, Ix4, IxDyn, ShapeBuilder, Slice, Axis};
use num_complex::Complex;
use serde_json::{json, Value};
use std::panic::{catch_unwind, AssertUnwindSafe};

const PAD: usize = 16;
const CANARY: (f64, f64) = (-7.25e88, 3.5e77);

#[derive(Debug)]
struct Call {
    lvl: String,
    ax: Vec<(Kind, usize)>,
    op: String,
    d: usize,
    form: String,
    axis: usize,
    i: Vec<usize>,
    o: Vec<usize>,
    lay: String,
    verdict: String,
    no: usize,
}

fn value<T: Num>(ix: usize) -> T {
    T::mk(((ix * 7) % 11) as f64 - 5., ((ix * 5) % 7) as f64 - 3.)
}

/// memory with canaries around (and, for strided layouts, between) the elements
struct Mem<T> {
    v: Vec<T>,
    shape: Vec<usize>,
    lay: char,
}
impl<T: Num> Mem<T> {
    fn new(shape: &[usize], lay: char) -> Mem<T> {
        let mut n: usize = shape.iter().product();
        if lay == 'S' {
            n *= 2;
        }
        Mem { v: vec![T::mk(CANARY.0, CANARY.1); n + 2 * PAD], shape: shape.to_vec(), lay }
    }
    fn view_mut<D: Dimension>(&mut self) -> ArrayViewMut<'_, T, D> {
        let e = self.v.len() - PAD;
        let s = &mut self.v[PAD..e];
        let a = match self.lay {
            'F' => ArrayViewMut::from_shape(IxDyn(&self.shape).f(), s).unwrap(),
            'S' => {
                let mut sh = self.shape.clone();
                let l = sh.len() - 1;
                sh[l] *= 2;
                let mut a = ArrayViewMut::from_shape(IxDyn(&sh), s).unwrap();
                a.slice_axis_inplace(Axis(l), Slice::new(0, None, 2));
                a
            }
            _ => ArrayViewMut::from_shape(IxDyn(&self.shape), s).unwrap(),
        };
        a.into_dimensionality::<D>().expect("harness: dim")
    }
    fn view<D: Dimension>(&self) -> ArrayView<'_, T, D> {
        let e = self.v.len() - PAD;
        let s = &self.v[PAD..e];
        let a = match self.lay {
            'F' => ArrayView::from_shape(IxDyn(&self.shape).f(), s).unwrap(),
            'S' => {
                let mut sh = self.shape.clone();
                let l = sh.len() - 1;
                sh[l] *= 2;
                let mut a = ArrayView::from_shape(IxDyn(&sh), s).unwrap();
                a.slice_axis_inplace(Axis(l), Slice::new(0, None, 2));
                a
            }
            _ => ArrayView::from_shape(IxDyn(&self.shape), s).unwrap(),
        };
        a.into_dimensionality::<D>().expect("harness: dim")
    }
    fn fill(&mut self, f: impl Fn(usize) -> T) {
        let mut a = self.view_mut::<IxDyn>();
        for (i, x) in a.iter_mut().enumerate() {
            *x = f(i);
        }
    }
    /// number of canaries that are gone
    fn broken(&self) -> usize {
        let is = |x: &T| {
            let c: T = T::mk(CANARY.0, CANARY.1);
            x.parts().0.to_bits() != c.parts().0.to_bits() || x.parts().1.to_bits() != c.parts().1.to_bits()
        };
        let e = self.v.len() - PAD;
        let mut b = self.v[..PAD].iter().filter(|x| is(x)).count()
            + self.v[e..].iter().filter(|x| is(x)).count();
        if self.lay == 'S' {
            b += self.v[PAD..e].iter().skip(1).step_by(2).filter(|x| is(x)).count();
        }
        b
    }
}

/// runs one call, given how to make it
fn judge<TI: Num, TO: Num, D: Dimension>(
    c: &Call,
    r: &mut Report,
    alloc: impl Fn(&ArrayView<TI, D>) -> Option<ArrayD<TO>>,
    inplace: impl Fn(&ArrayView<TI, D>, &mut ArrayViewMut<TO, D>),
    slice: impl Fn(&[TI], &mut [TO]),
    reference: impl Fn(&ArrayView<TI, D>) -> ArrayD<TO>,
) {
    let (li, lo) = match c.lay.as_str() {
        "F" => ('F', 'F'),
        "S" => ('S', 'S'),
        "Fin" => ('F', 'C'),
        "Fout" => ('C', 'F'),
        "Sin" => ('S', 'C'),
        "Sout" => ('C', 'S'),
        _ => ('C', 'C'),
    };
    let mut x: Mem<TI> = Mem::new(&c.i, li);
    x.fill(value::<TI>);
    let mut y: Mem<TO> = Mem::new(&c.o, lo);
    y.fill(|_| TO::dirty());
    let got = catch_unwind(AssertUnwindSafe(|| match c.form.as_str() {
        "slice" => {
            let xi = x.view::<Ix1>();
            let mut yo = y.view_mut::<Ix1>();
            slice(xi.as_slice().unwrap(), yo.as_slice_mut().unwrap());
            None
        }
        "alloc" | "par" => alloc(&x.view()),
        _ => {
            inplace(&x.view(), &mut y.view_mut());
            None
        }
    }));
    r.checks += 1;
    if x.broken() + y.broken() > 0 {
        r.fail("memory outside the given data was written", json!(c.verdict));
    }
    let xs = Tensor::of(&x.view::<IxDyn>());
    if xs.v.iter().enumerate().any(|(i, v)| *v != value::<TI>(i).parts()) {
        r.fail("input was modified", json!(null));
    }
    match got {
        Err(e) => {
            let m = panic_msg(&e);
            if m.starts_with("harness") {
                panic!("{m}");
            }
            if c.verdict == "accept" {
                r.fail("matching arguments were rejected", json!(m));
            }
            r.count(&format!("{}:{}:panic", c.lvl, c.verdict));
        }
        Ok(res) => {
            if c.verdict == "reject" {
                r.fail("mismatched arguments were accepted", json!({"in": c.i, "out": c.o}));
                return;
            }
            r.count(&format!("{}:{}:result", c.lvl, c.verdict));
            let got = match res {
                Some(a) => Tensor::of(&a),
                None => Tensor::of(&y.view::<IxDyn>()),
            };
            let mut s: Mem<TI> = Mem::new(&c.i, 'C');
            s.fill(value::<TI>);
            let Ok(want) = catch_unwind(AssertUnwindSafe(|| reference(&s.view()))) else { return };
            let want = Tensor::of(&want);
            let m = want.max() + 1e-300;
            r.close("result on accepted arguments", &c.form, &got, &want, &vec![m; want.v.len()], 1e-9);
        }
    }
}

fn conv<B, T, D>(b: &B, c: &Call, r: &mut Report)
where
    B: BaseFromOrtho<T> + BaseGradient<T> + Sync,
    T: Num,
    D: Dimension,
{
    let (a, d) = (c.axis, c.d);
    let p = c.form.contains("par");
    macro_rules! j {
        ($al:ident, $alp:ident, $in:ident, $inp:ident, $sl:ident $(, $d:expr)?) => {
            judge::<T, T, D>(c, r,
                |x| Some(if p { b.$alp(x, $($d,)? a) } else { b.$al(x, $($d,)? a) }.into_dyn()),
                |x, y| if p { b.$inp(x, y, $($d,)? a) } else { b.$in(x, y, $($d,)? a) },
                |x, y| b.$sl(x, y $(, $d)?),
                |x| b.$al(x, $($d,)? a).into_dyn())
        };
    }
    match c.op.as_str() {
        "ToOrtho" => j!(to_ortho, to_ortho_par, to_ortho_inplace, to_ortho_inplace_par, to_ortho_slice),
        "FromOrtho" => j!(from_ortho, from_ortho_par, from_ortho_inplace, from_ortho_inplace_par, from_ortho_slice),
        "Gradient" => j!(gradient, gradient_par, gradient_inplace, gradient_inplace_par, gradient_slice, d),
        _ => {}
    }
}
fn trans<B, D>(b: &B, c: &Call, r: &mut Report)
where
    B: BaseTransform + Sync,
    B::Physical: Num,
    B::Spectral: Num,
    D: Dimension,
{
    let a = c.axis;
    let p = c.form.contains("par");
    match c.op.as_str() {
        "Forward" => judge::<B::Physical, B::Spectral, D>(c, r,
            |x| Some(if p { b.forward_par(x, a) } else { b.forward(x, a) }.into_dyn()),
            |x, y| if p { b.forward_inplace_par(x, y, a) } else { b.forward_inplace(x, y, a) },
            |x, y| b.forward_slice(x, y),
            |x| b.forward(x, a).into_dyn()),
        "Backward" => judge::<B::Spectral, B::Physical, D>(c, r,
            |x| Some(if p { b.backward_par(x, a) } else { b.backward(x, a) }.into_dyn()),
            |x, y| if p { b.backward_inplace_par(x, y, a) } else { b.backward_inplace(x, y, a) },
            |x, y| b.backward_slice(x, y),
            |x| b.backward(x, a).into_dyn()),
        _ => {}
    }
}
fn base<D: Dimension>(c: &Call, r: &mut Report) {
    let (k, n) = c.ax[0];
    match k {
        R2 => {
            let b = r2c::<f64>(n);
            trans::<_, D>(&b, c, r);
            conv::<_, Complex<f64>, D>(&b, c, r);
        }
        C2 => {
            let b = c2c::<f64>(n);
            trans::<_, D>(&b, c, r);
            conv::<_, Complex<f64>, D>(&b, c, r);
        }
        _ => {
            let b = r2r::<f64>(k, n);
            trans::<_, D>(&b, c, r);
            if c.no % 3 == 0 {
                conv::<_, Complex<f64>, D>(&b, c, r);
            } else {
                conv::<_, f64, D>(&b, c, r);
            }
        }
    }
}

fn space_trans<S, const N: usize>(s: &S, c: &Call, r: &mut Report)
where
    S: BaseSpaceTransform<f64, N>,
    S::Physical: Num,
    S::Spectral: Num,
    Dim<[usize; N]>: Dimension,
{
    let p = c.form.contains("par");
    match c.op.as_str() {
        "Forward" => judge::<S::Physical, S::Spectral, Dim<[usize; N]>>(c, r,
            |x| Some(if p { s.forward_par(x) } else { s.forward(x) }.into_dyn()),
            |x, y| if p { s.forward_inplace_par(x, y) } else { s.forward_inplace(x, y) },
            |_, _| panic!("harness: slice"),
            |x| s.forward(x).into_dyn()),
        "Backward" => judge::<S::Spectral, S::Physical, Dim<[usize; N]>>(c, r,
            |x| Some(if p { s.backward_par(x) } else { s.backward(x) }.into_dyn()),
            |x, y| if p { s.backward_inplace_par(x, y) } else { s.backward_inplace(x, y) },
            |_, _| panic!("harness: slice"),
            |x| s.backward(x).into_dyn()),
        _ => {}
    }
}
fn space_conv<S, T, const N: usize>(s: &S, c: &Call, r: &mut Report)
where
    S: BaseSpaceFromOrtho<f64, T, N> + BaseSpaceGradient<f64, T, N>,
    T: Num,
    Dim<[usize; N]>: Dimension,
{
    let p = c.form.contains("par");
    let d = [c.d; N];
    let sc = if c.no % 2 == 0 { Some([2.; N]) } else { None };
    macro_rules! go {
        ($al:expr, $in:expr, $re:expr) => {
            judge::<T, T, Dim<[usize; N]>>(c, r, $al, $in, |_, _| panic!("harness: slice"), $re)
        };
    }
    match c.op.as_str() {
        "ToOrtho" => go!(
            |x: &ArrayView<T, Dim<[usize; N]>>| Some(if p { s.to_ortho_par(x) } else {
                BaseSpaceFromOrtho::<f64, T, N>::to_ortho(s, x) }.into_dyn()),
            |x, y| if p { s.to_ortho_inplace_par(x, y) } else { s.to_ortho_inplace(x, y) },
            |x| BaseSpaceFromOrtho::<f64, T, N>::to_ortho(s, x).into_dyn()),
        "FromOrtho" => go!(
            |x: &ArrayView<T, Dim<[usize; N]>>| Some(if p { s.from_ortho_par(x) } else { s.from_ortho(x) }.into_dyn()),
            |x, y| if p { s.from_ortho_inplace_par(x, y) } else { s.from_ortho_inplace(x, y) },
            |x| s.from_ortho(x).into_dyn()),
        "Gradient" => go!(
            |x: &ArrayView<T, Dim<[usize; N]>>| Some(if p { s.gradient_par(x, d, sc) } else { s.gradient(x, d, sc) }.into_dyn()),
            |_, _| panic!("harness: form"),
            |x| s.gradient(x, d, sc).into_dyn()),
        _ => {}
    }
}
fn space_r<S, const N: usize>(s: &S, c: &Call, r: &mut Report)
where
    S: BaseSpaceTransform<f64, N, Physical = f64, Spectral = f64>
        + BaseSpaceFromOrtho<f64, f64, N>
        + BaseSpaceGradient<f64, f64, N>
        + BaseSpaceFromOrtho<f64, Complex<f64>, N>
        + BaseSpaceGradient<f64, Complex<f64>, N>,
    Dim<[usize; N]>: Dimension,
{
    space_trans::<S, N>(s, c, r);
    if c.no % 3 == 0 {
        space_conv::<S, Complex<f64>, N>(s, c, r);
    } else {
        space_conv::<S, f64, N>(s, c, r);
    }
}
fn space_c<S, const N: usize>(s: &S, c: &Call, r: &mut Report)
where
    S: BaseSpaceTransform<f64, N, Spectral = Complex<f64>>
        + BaseSpaceFromOrtho<f64, Complex<f64>, N>
        + BaseSpaceGradient<f64, Complex<f64>, N>,
    S::Physical: Num,
    Dim<[usize; N]>: Dimension,
{
    space_trans::<S, N>(s, c, r);
    space_conv::<S, Complex<f64>, N>(s, c, r);
}
fn space(c: &Call, r: &mut Report) {
    let a = &c.ax;
    let rr = |i: usize| r2r::<f64>(a[i].0, a[i].1);
    let rc = |i: usize| r2c::<f64>(a[i].1);
    let cc = |i: usize| c2c::<f64>(a[i].1);
    match class(a).as_str() {
        "r" => space_r::<_, 1>(&Space1::new(&rr(0)), c, r),
        "R" => space_c::<_, 1>(&Space1::new(&rc(0)), c, r),
        "C" => space_c::<_, 1>(&Space1::new(&cc(0)), c, r),
        "rr" => space_r::<_, 2>(&Space2::new(&rr(0), &rr(1)), c, r),
        "Rr" => space_c::<_, 2>(&Space2::new(&rc(0), &rr(1)), c, r),
        "CR" => space_c::<_, 2>(&Space2::new(&cc(0), &rc(1)), c, r),
        "CC" => space_c::<_, 2>(&Space2::new(&cc(0), &cc(1)), c, r),
        "rrr" => space_r::<_, 3>(&Space3::new(&rr(0), &rr(1), &rr(2)), c, r),
        "Rrr" => space_c::<_, 3>(&Space3::new(&rc(0), &rr(1), &rr(2)), c, r),
        "CRr" => space_c::<_, 3>(&Space3::new(&cc(0), &rc(1), &rr(2)), c, r),
        "CCR" => space_c::<_, 3>(&Space3::new(&cc(0), &cc(1), &rc(2)), c, r),
        "CCC" => space_c::<_, 3>(&Space3::new(&cc(0), &cc(1), &cc(2)), c, r),
        x => panic!("harness: no space {x}"),
    }
}

pub fn run(lines: &[Value], r: &mut Report) {
    for (no, l) in lines.iter().enumerate() {
        let v = &l["c"];
        let st = |k: &str| v[k].as_str().unwrap().to_string();
        let kn = |v: &Value| (Kind::parse(v["k"].as_str().unwrap()), v["n"].as_u64().unwrap() as usize);
        let c = Call {
            lvl: st("lvl"),
            ax: if v.get("ax").is_some() { v["ax"].as_array().unwrap().iter().map(kn).collect() } else { vec![kn(v)] },
            op: st("op"),
            d: v["d"].as_u64().unwrap() as usize,
            form: st("form"),
            axis: v["axis"].as_u64().unwrap() as usize,
            i: ints(&v["in"]),
            o: ints(&v["out"]),
            lay: st("lay"),
            verdict: l["v"].as_str().unwrap().into(),
            no,
        };
        r.at(format!("{} {} {:?} {:?} d={} axis={} in={:?} out={:?} layout={} ({})", c.op, c.form, c.lvl, c.ax,
            c.d, c.axis, c.i, c.o, c.lay, c.verdict));
        r.cases += 1;
        if no % 9001 == 17 {
            let s = json!({"call": r.now});
            r.sample(s);
        }
        if c.lvl == "space" {
            space(&c, r);
            continue;
        }
        match c.i.len() {
            1 => base::<Ix1>(&c, r),
            2 => base::<Ix2>(&c, r),
            3 => base::<Ix3>(&c, r),
            _ => base::<Ix4>(&c, r),
        }
    }
}
