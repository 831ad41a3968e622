//! Replays transitions of Field.tla: every form of every operation against the
//! values the specification emitted.
use crate::common::*;
use funspace::*;
use ndarray::{Array, Dim, Dimension, Ix1, Ix2, Ix3, Ix4, IxDyn};
use num_complex::Complex;
use num_traits::Zero;
use serde_json::json;

/// relative tolerance for an operation (see DESIGN.md: 100 to 1000 times what the
/// unchanged code needs)
pub fn tol(c: &Case, single: bool) -> f64 {
    let comp = c.ax.iter().any(|(k, _)| k.is_comp());
    let nmax = c.ax.iter().filter(|x| x.0 != ID).map(|x| x.1).max().unwrap() as f64;
    if single {
        return match c.op.as_str() {
            "FromOrtho" | "Forward" if comp => f64::max(5e-6, 2e-8 * nmax.powi(3)),
            "Gradient" if comp => f64::max(5e-6, 2e-7 * nmax.powi(2)),
            _ => 5e-6,
        };
    }
    match c.op.as_str() {
        "ToOrtho" | "Gradient" => 1e-12,
        "Diffmat" => 1e-11,
        "FromOrtho" | "Forward" if comp => f64::max(1e-11, 1e-14 * nmax.powi(3)),
        "Forward" | "Backward" => 1e-14 * nmax.max(100.),
        _ => 1e-11,
    }
}

fn dirty<T: Num, D: Dimension>(shape: &[usize]) -> Array<T, D> {
    Array::from_elem(IxDyn(shape), T::dirty()).into_dimensionality::<D>().unwrap()
}

pub struct Exp {
    pub t: Tensor,
    pub sc: Vec<f64>,
    pub tol: f64,
    pub key: String,
}
pub fn expect(c: &Case, t: Tensor, single: bool) -> Exp {
    let kinds: Vec<String> = c.ax.iter().map(|x| format!("{:?}", x.0)).collect();
    Exp {
        sc: scales(c, &t),
        t,
        tol: tol(c, single),
        key: format!("{}/{}{}", c.op, kinds.join("x"), if single { "/f32" } else { "" }),
    }
}
impl Report {
    pub fn cmp<T: Num, D: Dimension>(&mut self, form: &str, got: Option<Array<T, D>>, e: &Exp) {
        if self.rec.is_some() {
            let part = self.part.clone();
            if let Some(v) = &mut self.rec {
                v.push(Rec {
                    form: form.to_string(),
                    ty: T::NAME.to_string(),
                    part,
                    res: got.map(|a| Tensor::of(&a)),
                    sc: e.sc.clone(),
                    tol: e.tol,
                });
            }
            return;
        }
        if let Some(a) = got {
            let what = format!("{form} <{}>", T::NAME);
            self.close(&what, &e.key, &Tensor::of(&a), &e.t, &e.sc, e.tol);
        }
    }
}

/// conversions, gradients and matrices of a base along one axis
fn conv_base<B, T, D>(b: &B, axis: usize, c: &Case, single: bool, r: &mut Report)
where
    B: BaseFromOrtho<T> + BaseGradient<T> + Sync,
    T: Num,
    D: Dimension,
{
    let e = expect(c, c.post.clone(), single);
    let x: Array<T, D> = c.pre.arr();
    let keep = x.clone();
    let sh = &c.post.shape;
    match c.op.as_str() {
        "ToOrtho" => {
            let y = r.call("to_ortho", || b.to_ortho(&x, axis));
            r.cmp("to_ortho", y, &e);
            let y = r.call("to_ortho_inplace", || {
                let mut o = dirty(sh);
                b.to_ortho_inplace(&x, &mut o, axis);
                o
            });
            r.cmp("to_ortho_inplace", y, &e);
            let y = r.call("to_ortho_par", || b.to_ortho_par(&x, axis));
            r.cmp("to_ortho_par", y, &e);
            let y = r.call("to_ortho_inplace_par", || {
                let mut o = dirty(sh);
                b.to_ortho_inplace_par(&x, &mut o, axis);
                o
            });
            r.cmp("to_ortho_inplace_par", y, &e);
            if c.ax.len() == 1 {
                let y = r.call("to_ortho_slice", || {
                    let mut o: Array<T, D> = dirty(sh);
                    b.to_ortho_slice(x.as_slice().unwrap(), o.as_slice_mut().unwrap());
                    o
                });
                r.cmp("to_ortho_slice", y, &e);
            }
        }
        "FromOrtho" => {
            let y = r.call("from_ortho", || b.from_ortho(&x, axis));
            r.cmp("from_ortho", y, &e);
            let y = r.call("from_ortho_inplace", || {
                let mut o = dirty(sh);
                b.from_ortho_inplace(&x, &mut o, axis);
                o
            });
            r.cmp("from_ortho_inplace", y, &e);
            let y = r.call("from_ortho_par", || b.from_ortho_par(&x, axis));
            r.cmp("from_ortho_par", y, &e);
            let y = r.call("from_ortho_inplace_par", || {
                let mut o = dirty(sh);
                b.from_ortho_inplace_par(&x, &mut o, axis);
                o
            });
            r.cmp("from_ortho_inplace_par", y, &e);
            if c.ax.len() == 1 {
                let y = r.call("from_ortho_slice", || {
                    let mut o: Array<T, D> = dirty(sh);
                    b.from_ortho_slice(x.as_slice().unwrap(), o.as_slice_mut().unwrap());
                    o
                });
                r.cmp("from_ortho_slice", y, &e);
            }
        }
        "Gradient" => {
            let d = c.d[axis];
            let y = r.call("gradient", || b.gradient(&x, d, axis));
            r.cmp("gradient", y, &e);
            let y = r.call("gradient_inplace", || {
                let mut o = dirty(sh);
                b.gradient_inplace(&x, &mut o, d, axis);
                o
            });
            r.cmp("gradient_inplace", y, &e);
            let y = r.call("gradient_par", || b.gradient_par(&x, d, axis));
            r.cmp("gradient_par", y, &e);
            let y = r.call("gradient_inplace_par", || {
                let mut o = dirty(sh);
                b.gradient_inplace_par(&x, &mut o, d, axis);
                o
            });
            r.cmp("gradient_inplace_par", y, &e);
            if c.ax.len() == 1 {
                let y = r.call("gradient_slice", || {
                    let mut o: Array<T, D> = dirty(sh);
                    b.gradient_slice(x.as_slice().unwrap(), o.as_slice_mut().unwrap(), d);
                    o
                });
                r.cmp("gradient_slice", y, &e);
            }
        }
        _ => return,
    }
    if keep.iter().zip(x.iter()).any(|(a, b)| a.bits() != b.bits()) {
        r.fail("input modified", json!(T::NAME));
    }
    r.count(&format!("{}:{}", c.op, T::NAME));
}

fn trans_base<B, D>(b: &B, axis: usize, c: &Case, single: bool, r: &mut Report)
where
    B: BaseTransform + Sync,
    B::Physical: Num,
    B::Spectral: Num,
    D: Dimension,
{
    match c.op.as_str() {
        "Backward" => {
            let e = expect(c, to_grid(&c.ax, &c.post), single);
            let x: Array<B::Spectral, D> = c.pre.arr();
            let sh = &e.t.shape;
            let y = r.call("backward", || b.backward(&x, axis));
            r.cmp("backward", y, &e);
            let y = r.call("backward_inplace", || {
                let mut o = dirty(sh);
                b.backward_inplace(&x, &mut o, axis);
                o
            });
            r.cmp("backward_inplace", y, &e);
            let y = r.call("backward_par", || b.backward_par(&x, axis));
            r.cmp("backward_par", y, &e);
            let y = r.call("backward_inplace_par", || {
                let mut o = dirty(sh);
                b.backward_inplace_par(&x, &mut o, axis);
                o
            });
            r.cmp("backward_inplace_par", y, &e);
            if c.ax.len() == 1 {
                let y = r.call("backward_slice", || {
                    let mut o: Array<B::Physical, D> = dirty(sh);
                    b.backward_slice(x.as_slice().unwrap(), o.as_slice_mut().unwrap());
                    o
                });
                r.cmp("backward_slice", y, &e);
            }
            if c.pre.arr::<B::Spectral, D>().iter().zip(x.iter()).any(|(a, b)| a.bits() != b.bits()) {
                r.fail("input modified", json!("backward"));
            }
        }
        "Forward" => {
            let e = expect(c, c.post.clone(), single);
            let g = to_grid(&c.ax, &c.pre);
            let x: Array<B::Physical, D> = g.arr();
            let sh = &e.t.shape;
            let y = r.call("forward", || b.forward(&x, axis));
            r.cmp("forward", y, &e);
            let y = r.call("forward_inplace", || {
                let mut o = dirty(sh);
                b.forward_inplace(&x, &mut o, axis);
                o
            });
            r.cmp("forward_inplace", y, &e);
            let y = r.call("forward_par", || b.forward_par(&x, axis));
            r.cmp("forward_par", y, &e);
            let y = r.call("forward_inplace_par", || {
                let mut o = dirty(sh);
                b.forward_inplace_par(&x, &mut o, axis);
                o
            });
            r.cmp("forward_inplace_par", y, &e);
            if c.ax.len() == 1 {
                let y = r.call("forward_slice", || {
                    let mut o: Array<B::Spectral, D> = dirty(sh);
                    b.forward_slice(x.as_slice().unwrap(), o.as_slice_mut().unwrap());
                    o
                });
                r.cmp("forward_slice", y, &e);
            }
            if g.arr::<B::Physical, D>().iter().zip(x.iter()).any(|(a, b)| a.bits() != b.bits()) {
                r.fail("input modified", json!("forward"));
            }
        }
        _ => return,
    }
    r.count(&format!("{}:{}", c.op, B::Physical::NAME));
}

/// matrix-vector replay of the reported operators (1-D)
fn mat_base<B>(b: &B, c: &Case, k: Kind, r: &mut Report)
where
    B: BaseMatOpDiffmat,
    B::NumType: Num,
{
    let n = c.pre.shape[0];
    let d = c.d[0];
    let row = |m: &ndarray::Array2<B::NumType>, p: usize, u: &[(f64, f64)]| {
        let (mut re, mut im, mut ab) = (0., 0., 0.);
        for (q, x) in u.iter().enumerate() {
            let (a, b) = m[[p, q]].parts();
            re += a * x.0 - b * x.1;
            im += a * x.1 + b * x.0;
            ab += (a.abs() + b.abs()) * mag(*x);
        }
        ((re, im), ab)
    };
    match c.op.as_str() {
        "Diffmat" => {
            if let Some(m) = r.call("diffmat", || b.diffmat(d)) {
                if m.shape() != [n, n] {
                    r.fail("diffmat shape", json!(m.shape()));
                    return;
                }
                let mut got = c.post.clone();
                let mut sc = vec![0.; n];
                for p in 0..n {
                    let (v, ab) = row(&m, p, &c.pre.v);
                    got.v[p] = v;
                    sc[p] = ab + 1e-300;
                }
                r.close("diffmat * u", &format!("Diffmat/{k:?}"), &got, &c.post, &sc, 1e-13);
            }
        }
        "PInv" => {
            let res = r.call("diffmat_pinv", || (b.diffmat(d), b.diffmat_pinv(d)));
            if let Some((m, (pinv, peye))) = res {
                let z = if k.is_cheb() { d } else { 1 };
                if pinv.shape() != [n, n] || peye.shape() != [n - z, n] {
                    r.fail("pinv shapes", json!([pinv.shape(), peye.shape()]));
                    return;
                }
                for ((i, j), x) in peye.indexed_iter() {
                    let want = if j == i + z { 1. } else { 0. };
                    if x.parts() != (want, 0.) {
                        r.fail("truncated identity", json!([i, j, format!("{x:?}")]));
                        return;
                    }
                }
                let mut du = vec![(0., 0.); n];
                let mut da = vec![(0., 0.); n];
                for p in 0..n {
                    let (v, ab) = row(&m, p, &c.pre.v);
                    du[p] = v;
                    da[p] = (ab, 0.);
                }
                let mut got = c.post.clone();
                let mut sc = vec![0.; n];
                for p in 0..n {
                    let (v, _) = row(&pinv, p, &du);
                    let (_, ab) = row(&pinv, p, &da);
                    got.v[p] = v;
                    sc[p] = ab + 1e-300;
                }
                r.close("pinv * D * u", &format!("PInv/{k:?}"), &got, &c.post, &sc, 1e-13);
            }
        }
        _ => return,
    }
    r.count(&c.op);
}

fn base_dim<A, D>(c: &Case, axis: usize, single: bool, r: &mut Report)
where
    A: FloatNum + Num,
    Complex<A>: Num,
    D: Dimension,
{
    let (k, n) = c.ax[axis];
    match k {
        R2 => {
            let Some(b) = r.call("fourier_r2c", || r2c::<A>(n)) else { return };
            trans_base::<_, D>(&b, axis, c, single, r);
            conv_base::<_, Complex<A>, D>(&b, axis, c, single, r);
            if c.ax.len() == 1 && !single {
                if let Some(b) = r.call("fourier_r2c", || r2c::<f64>(n)) {
                    mat_base(&b, c, k, r);
                }
            }
        }
        C2 => {
            let Some(b) = r.call("fourier_c2c", || c2c::<A>(n)) else { return };
            trans_base::<_, D>(&b, axis, c, single, r);
            conv_base::<_, Complex<A>, D>(&b, axis, c, single, r);
            if c.ax.len() == 1 && !single {
                if let Some(b) = r.call("fourier_c2c", || c2c::<f64>(n)) {
                    mat_base(&b, c, k, r);
                }
            }
        }
        _ => {
            let Some(b) = r.call("chebyshev", || r2r::<A>(k, n)) else { return };
            for p in [Part::Re, Part::Im] {
                let cp = c.part(p);
                r.part = format!("{p:?}");
                trans_base::<_, D>(&b, axis, &cp, single, r);
                conv_base::<_, A, D>(&b, axis, &cp, single, r);
            }
            r.part.clear();
            conv_base_cplx::<A, D>(&b, axis, c, single, r);
            if c.ax.len() == 1 && !single {
                if let Some(b) = r.call("chebyshev", || r2r::<f64>(k, n)) {
                    mat_base(&b, c, k, r);
                }
            }
        }
    }
}

/// the base types themselves, without the enum around them
fn struct_dim<A, D>(c: &Case, axis: usize, single: bool, r: &mut Report)
where
    A: FloatNum + Num,
    Complex<A>: Num,
    D: Dimension,
{
    use funspace::chebyshev::{Chebyshev, ChebyshevComposite as Co};
    use funspace::fourier::{FourierC2c, FourierR2c};
    let (k, n) = c.ax[axis];
    match k {
        R2 => {
            let Some(b) = r.call("FourierR2c::new", || FourierR2c::<A>::new(n)) else { return };
            trans_base::<_, D>(&b, axis, c, single, r);
            conv_base::<_, Complex<A>, D>(&b, axis, c, single, r);
        }
        C2 => {
            let Some(b) = r.call("FourierC2c::new", || FourierC2c::<A>::new(n)) else { return };
            trans_base::<_, D>(&b, axis, c, single, r);
            conv_base::<_, Complex<A>, D>(&b, axis, c, single, r);
        }
        CH => {
            let Some(b) = r.call("Chebyshev::new", || Chebyshev::<A>::new(n)) else { return };
            let cp = c.part(Part::Re);
            trans_base::<_, D>(&b, axis, &cp, single, r);
            conv_base::<_, A, D>(&b, axis, &cp, single, r);
            conv_base::<_, Complex<A>, D>(&b, axis, c, single, r);
        }
        _ => {
            let new = || match k {
                DI => Co::<A>::dirichlet(n),
                NE => Co::<A>::neumann(n),
                DN => Co::<A>::dirichlet_neumann(n),
                BA => Co::<A>::biharmonic_a(n),
                _ => Co::<A>::biharmonic_b(n),
            };
            let Some(b) = r.call("ChebyshevComposite::new", new) else { return };
            let cp = c.part(Part::Re);
            trans_base::<_, D>(&b, axis, &cp, single, r);
            conv_base::<_, A, D>(&b, axis, &cp, single, r);
            conv_base::<_, Complex<A>, D>(&b, axis, c, single, r);
        }
    }
}

fn conv_base_cplx<A, D>(b: &BaseR2r<A>, axis: usize, c: &Case, single: bool, r: &mut Report)
where
    A: FloatNum + Num,
    Complex<A>: Num,
    D: Dimension,
{
    // the code accepts T with T (op) A -> T
    conv_base::<BaseR2r<A>, Complex<A>, D>(b, axis, c, single, r);
}

// ---------------------------------------------------------------------------------
// spaces
// ---------------------------------------------------------------------------------
fn conv_space<S, A, T, const N: usize>(s: &S, c: &Case, single: bool, r: &mut Report)
where
    S: BaseSpaceFromOrtho<A, T, N> + BaseSpaceGradient<A, T, N>,
    A: FloatNum + Num,
    T: Num,
    Dim<[usize; N]>: Dimension,
{
    let mut cc = c.clone();
    if let Some(sc) = &c.scale {
        let f: f64 = sc.iter().zip(&c.d).map(|(s, d)| s.powi(*d as i32)).product();
        for v in &mut cc.post.v {
            *v = (v.0 / f, v.1 / f);
        }
    }
    let e = expect(&cc, cc.post.clone(), single);
    let x: Array<T, Dim<[usize; N]>> = c.pre.arr();
    let keep = x.clone();
    let sh = &c.post.shape;
    match c.op.as_str() {
        "ToOrtho" => {
            let y = r.call("space.to_ortho", || BaseSpaceFromOrtho::<A, T, N>::to_ortho(s, &x));
            r.cmp("space.to_ortho", y, &e);
            let y = r.call("space.to_ortho_inplace", || {
                let mut o = dirty(sh);
                s.to_ortho_inplace(&x, &mut o);
                o
            });
            r.cmp("space.to_ortho_inplace", y, &e);
            let y = r.call("space.to_ortho_par", || s.to_ortho_par(&x));
            r.cmp("space.to_ortho_par", y, &e);
            let y = r.call("space.to_ortho_inplace_par", || {
                let mut o = dirty(sh);
                s.to_ortho_inplace_par(&x, &mut o);
                o
            });
            r.cmp("space.to_ortho_inplace_par", y, &e);
        }
        "FromOrtho" => {
            let y = r.call("space.from_ortho", || s.from_ortho(&x));
            r.cmp("space.from_ortho", y, &e);
            let y = r.call("space.from_ortho_inplace", || {
                let mut o = dirty(sh);
                s.from_ortho_inplace(&x, &mut o);
                o
            });
            r.cmp("space.from_ortho_inplace", y, &e);
            let y = r.call("space.from_ortho_par", || s.from_ortho_par(&x));
            r.cmp("space.from_ortho_par", y, &e);
            let y = r.call("space.from_ortho_inplace_par", || {
                let mut o = dirty(sh);
                s.from_ortho_inplace_par(&x, &mut o);
                o
            });
            r.cmp("space.from_ortho_inplace_par", y, &e);
        }
        "Gradient" => {
            let mut d = [0; N];
            d.copy_from_slice(&c.d);
            let sc: Option<[A; N]> = c.scale.as_ref().map(|v| {
                let mut a = [A::mk(1., 0.); N];
                for (x, y) in a.iter_mut().zip(v) {
                    *x = A::mk(*y, 0.);
                }
                a
            });
            let y = r.call("space.gradient", || s.gradient(&x, d, sc));
            r.cmp("space.gradient", y, &e);
            let y = r.call("space.gradient_par", || s.gradient_par(&x, d, sc));
            r.cmp("space.gradient_par", y, &e);
        }
        _ => return,
    }
    if keep.iter().zip(x.iter()).any(|(a, b)| a.bits() != b.bits()) {
        r.fail("input modified", json!(T::NAME));
    }
    r.count(&format!("space.{}:{}", c.op, T::NAME));
}

fn trans_space<S, A, const N: usize>(s: &S, c: &Case, single: bool, r: &mut Report)
where
    S: BaseSpaceTransform<A, N>,
    S::Physical: Num,
    S::Spectral: Num,
    A: FloatNum + Num,
    Dim<[usize; N]>: Dimension,
{
    match c.op.as_str() {
        "Backward" => {
            let e = expect(c, to_grid(&c.ax, &c.post), single);
            let x: Array<S::Spectral, Dim<[usize; N]>> = c.pre.arr();
            let sh = &e.t.shape;
            let y = r.call("space.backward", || s.backward(&x));
            r.cmp("space.backward", y, &e);
            let y = r.call("space.backward_inplace", || {
                let mut o = dirty(sh);
                s.backward_inplace(&x, &mut o);
                o
            });
            r.cmp("space.backward_inplace", y, &e);
            let y = r.call("space.backward_par", || s.backward_par(&x));
            r.cmp("space.backward_par", y, &e);
            let y = r.call("space.backward_inplace_par", || {
                let mut o = dirty(sh);
                s.backward_inplace_par(&x, &mut o);
                o
            });
            r.cmp("space.backward_inplace_par", y, &e);
            let keep: Array<S::Spectral, Dim<[usize; N]>> = c.pre.arr();
            if keep.iter().zip(x.iter()).any(|(a, b)| a.bits() != b.bits()) {
                r.fail("input modified", json!("backward"));
            }
        }
        "Forward" => {
            let e = expect(c, c.post.clone(), single);
            let g = to_grid(&c.ax, &c.pre);
            let x: Array<S::Physical, Dim<[usize; N]>> = g.arr();
            let sh = &e.t.shape;
            let y = r.call("space.forward", || s.forward(&x));
            r.cmp("space.forward", y, &e);
            let y = r.call("space.forward_inplace", || {
                let mut o = dirty(sh);
                s.forward_inplace(&x, &mut o);
                o
            });
            r.cmp("space.forward_inplace", y, &e);
            let y = r.call("space.forward_par", || s.forward_par(&x));
            r.cmp("space.forward_par", y, &e);
            let y = r.call("space.forward_inplace_par", || {
                let mut o = dirty(sh);
                s.forward_inplace_par(&x, &mut o);
                o
            });
            r.cmp("space.forward_inplace_par", y, &e);
            let keep: Array<S::Physical, Dim<[usize; N]>> = g.arr();
            if keep.iter().zip(x.iter()).any(|(a, b)| a.bits() != b.bits()) {
                r.fail("input modified", json!("forward"));
            }
        }
        _ => return,
    }
    r.count(&format!("space.{}:{}", c.op, S::Physical::NAME));
}

/// all-real space: real data twice, complex data through conversions and gradients
fn space_r<S, A, const N: usize>(s: &S, c: &Case, single: bool, r: &mut Report)
where
    S: BaseSpaceTransform<A, N, Physical = A, Spectral = A>
        + BaseSpaceFromOrtho<A, A, N>
        + BaseSpaceGradient<A, A, N>
        + BaseSpaceFromOrtho<A, Complex<A>, N>
        + BaseSpaceGradient<A, Complex<A>, N>,
    A: FloatNum + Num,
    Complex<A>: Num,
    Dim<[usize; N]>: Dimension,
{
    for p in [Part::Re, Part::Im] {
        let cp = c.part(p);
        r.part = format!("{p:?}");
        trans_space::<S, A, N>(s, &cp, single, r);
        conv_space::<S, A, A, N>(s, &cp, single, r);
    }
    r.part.clear();
    conv_space::<S, A, Complex<A>, N>(s, c, single, r);
}
fn space_c<S, A, const N: usize>(s: &S, c: &Case, single: bool, r: &mut Report)
where
    S: BaseSpaceTransform<A, N, Spectral = Complex<A>>
        + BaseSpaceFromOrtho<A, Complex<A>, N>
        + BaseSpaceGradient<A, Complex<A>, N>,
    S::Physical: Num,
    A: FloatNum + Num,
    Complex<A>: Num,
    Dim<[usize; N]>: Dimension,
{
    trans_space::<S, A, N>(s, c, single, r);
    conv_space::<S, A, Complex<A>, N>(s, c, single, r);
}

fn kind_class(k: Kind) -> char {
    match k {
        R2 => 'R',
        C2 => 'C',
        _ => 'r',
    }
}
pub fn class(ax: &[(Kind, usize)]) -> String {
    ax.iter().map(|x| kind_class(x.0)).collect()
}

pub fn space_case<A>(c: &Case, single: bool, r: &mut Report)
where
    A: FloatNum + Num + ScalarNum,
    Complex<A>: Num,
{
    let a = &c.ax;
    let n = |i: usize| a[i].1;
    let rr = |i: usize| r2r::<A>(a[i].0, a[i].1);
    match class(a).as_str() {
        "r" => space_r::<_, A, 1>(&Space1::new(&rr(0)), c, single, r),
        "R" => space_c::<_, A, 1>(&Space1::new(&r2c::<A>(n(0))), c, single, r),
        "C" => space_c::<_, A, 1>(&Space1::new(&c2c::<A>(n(0))), c, single, r),
        "rr" => space_r::<_, A, 2>(&Space2::new(&rr(0), &rr(1)), c, single, r),
        "Rr" => space_c::<_, A, 2>(&Space2::new(&r2c::<A>(n(0)), &rr(1)), c, single, r),
        "CR" => space_c::<_, A, 2>(&Space2::new(&c2c::<A>(n(0)), &r2c::<A>(n(1))), c, single, r),
        "CC" => space_c::<_, A, 2>(&Space2::new(&c2c::<A>(n(0)), &c2c::<A>(n(1))), c, single, r),
        "rrr" => space_r::<_, A, 3>(&Space3::new(&rr(0), &rr(1), &rr(2)), c, single, r),
        "Rrr" => space_c::<_, A, 3>(&Space3::new(&r2c::<A>(n(0)), &rr(1), &rr(2)), c, single, r),
        "CRr" => space_c::<_, A, 3>(
            &Space3::new(&c2c::<A>(n(0)), &r2c::<A>(n(1)), &rr(2)),
            c,
            single,
            r,
        ),
        "CCR" => space_c::<_, A, 3>(
            &Space3::new(&c2c::<A>(n(0)), &c2c::<A>(n(1)), &r2c::<A>(n(2))),
            c,
            single,
            r,
        ),
        "CCC" => space_c::<_, A, 3>(
            &Space3::new(&c2c::<A>(n(0)), &c2c::<A>(n(1)), &c2c::<A>(n(2))),
            c,
            single,
            r,
        ),
        x => panic!("harness: no space {x}"),
    }
}

pub fn base_case<A>(c: &Case, single: bool, r: &mut Report)
where
    A: FloatNum + Num + ScalarNum,
    Complex<A>: Num,
{
    let axis = c.ax.iter().position(|x| x.0 != ID).unwrap();
    match c.ax.len() {
        1 => base_dim::<A, Ix1>(c, axis, single, r),
        2 => base_dim::<A, Ix2>(c, axis, single, r),
        3 => base_dim::<A, Ix3>(c, axis, single, r),
        4 => base_dim::<A, Ix4>(c, axis, single, r),
        _ => base_dim::<A, IxDyn>(c, axis, single, r),
    }
    if c.i % 7 == 0 && c.ax.len() < 5 {
        base_dim::<A, IxDyn>(c, axis, single, r);
    }
    if c.i % 7 == 3 && r.rec.is_none() {
        r.part = "type".into();
        match c.ax.len() {
            1 => struct_dim::<A, Ix1>(c, axis, single, r),
            2 => struct_dim::<A, Ix2>(c, axis, single, r),
            _ => struct_dim::<A, IxDyn>(c, axis, single, r),
        }
        r.part.clear();
    }
}

pub fn one<A>(c: &Case, single: bool, r: &mut Report)
where
    A: FloatNum + Num + ScalarNum,
    Complex<A>: Num,
{
    let idaxes = c.ax.iter().filter(|x| x.0 == ID).count();
    if idaxes == c.ax.len() - 1 {
        base_case::<A>(c, single, r);
    }
    if idaxes == 0 && c.op != "Diffmat" && c.op != "PInv" {
        r.guard(|r| space_case::<A>(c, single, r));
    }
}

pub fn run(lines: &[serde_json::Value], r: &mut Report, types: &[String]) {
    for v in lines {
        let c = Case::parse(v);
        r.at(format!("case {} {}", c.i, c.name()));
        r.cases += 1;
        if r.cases % 97 == 1 {
            let s = json!({"case": c.name(), "cfg": c.cfg,
                "pre": c.pre.v.iter().take(4).collect::<Vec<_>>(),
                "post": c.post.v.iter().take(4).collect::<Vec<_>>()});
            r.sample(s);
        }
        for t in types {
            match t.as_str() {
                "f64" => one::<f64>(&c, false, r),
                "f32" => one::<f32>(&c, true, r),
                x => panic!("harness: type {x}"),
            }
        }
    }
    let _ = f64::zero();
}

/// one line of an array holds values that spread (infinities, NaN): the others do not notice
pub fn lines(lines: &[serde_json::Value], r: &mut Report) {
    for v in lines {
        let c = Case::parse(v);
        let real: Vec<usize> = (0..c.ax.len()).filter(|a| c.ax[*a].0 != ID).collect();
        let [a] = real[..] else { continue };
        let nl = c.pre.v.len() / c.pre.shape[a].max(1);
        if nl < 2 {
            continue;
        }
        let at = |t: &Tensor, z: usize| -> Vec<bool> {
            let inner: usize = t.shape[a + 1..].iter().product();
            let l = t.shape[a];
            (0..t.v.len()).map(|p| (p / (inner * l)) * inner + p % inner == z).collect()
        };
        for (q, z) in [0, nl / 2, nl - 1].into_iter().enumerate() {
            let mut b = c.clone();
            b.premax = Some(c.pre.max());
            for (x, bad) in b.pre.v.iter_mut().zip(at(&c.pre, z)) {
                if bad {
                    *x = match q {
                        0 => (f64::INFINITY, 1.),
                        1 => (f64::NAN, f64::NAN),
                        _ => (-1e300, 1e300),
                    };
                }
            }
            r.at(format!("case {} {} line {z} spoilt", c.i, c.name()));
            r.cases += 1;
            r.count(&c.op);
            r.skip = Some((a, z));
            base_case::<f64>(&b, false, r);
            r.skip = None;
        }
    }
}

/// what one case gives in every form, without comparing
fn record<A>(c: &Case, single: bool, r: &mut Report) -> Vec<Rec>
where
    A: FloatNum + Num + ScalarNum,
    Complex<A>: Num,
{
    r.rec = Some(vec![]);
    r.part.clear();
    one::<A>(c, single, r);
    r.rec.take().unwrap()
}

fn relate(r: &mut Report, key: &str, a: &Rec, b: &Rec, tol: f64) {
    let what = format!("{} <{}> {} against {} <{}>", b.form, b.ty, b.part, a.form, a.ty);
    match (&a.res, &b.res) {
        (Some(x), Some(y)) => r.close(&what, key, y, x, &a.sc, tol),
        (None, None) => {}
        _ => r.fail(&format!("{what}: only one of them panicked"), json!(null)),
    }
    r.count(key);
}

fn group(v: Vec<Rec>) -> std::collections::BTreeMap<(String, String, String), Vec<Rec>> {
    let mut m = std::collections::BTreeMap::new();
    for x in v {
        m.entry((x.form.clone(), x.ty.clone(), x.part.clone())).or_insert_with(Vec::new).push(x);
    }
    m
}

/// C08: parallel against serial, under several pools
pub fn par(lines: &[serde_json::Value], r: &mut Report) {
    let pools: Vec<_> = [1usize, 2, 3, 5, 8, 16]
        .iter()
        .map(|n| rayon::ThreadPoolBuilder::new().num_threads(*n).build().unwrap())
        .collect();
    for v in lines {
        let c = Case::parse(v);
        r.cases += 1;
        for p in [c.i % 6, (c.i * 5 + 3) % 6] {
            r.at(format!("case {} {} with pool {}", c.i, c.name(), p));
            let mut rr = Report::new("/dev/null");
            let rec = pools[p].install(|| record::<f64>(&c, false, &mut rr));
            let g = group(rec);
            for (k, bs) in &g {
                if let Some(f) = k.0.strip_suffix("_par") {
                    let Some(a) = g.get(&(f.to_string(), k.1.clone(), k.2.clone())) else {
                        panic!("harness: no serial {f}");
                    };
                    for (x, y) in a.iter().zip(bs) {
                        relate(r, "par=serial", x, y, 1e-12);
                    }
                }
            }
        }
    }
}

/// C09: all forms against the allocating one, inputs unmodified
pub fn forms(lines: &[serde_json::Value], r: &mut Report) {
    for v in lines {
        let c = Case::parse(v);
        r.cases += 1;
        r.at(format!("case {} {}", c.i, c.name()));
        let g = group(record::<f64>(&c, false, r));
        for (k, bs) in &g {
            if k.0.starts_with("!input") {
                r.fail("input modified", json!(k.1));
            }
            for s in ["_inplace", "_slice", "_inplace_par", "_par"] {
                if let Some(f) = k.0.strip_suffix(s) {
                    if let Some(a) = g.get(&(f.to_string(), k.1.clone(), k.2.clone())) {
                        for (x, y) in a.iter().zip(bs) {
                            relate(r, "forms", x, y, 1e-12);
                        }
                    }
                }
            }
        }
    }
}

/// C11: complex against two real arrays, single against double precision
pub fn types(lines: &[serde_json::Value], r: &mut Report) {
    for v in lines {
        let c = Case::parse(v);
        r.cases += 1;
        r.at(format!("case {} {}", c.i, c.name()));
        let big = c.pre.max().max(c.post.max()) > 1e30;
        for single in [false, true] {
            if single && big {
                continue;
            }
            let g = group(if single {
                record::<f32>(&c, true, r)
            } else {
                record::<f64>(&c, false, r)
            });
            let (rt, ct) = if single { ("f32", "c32") } else { ("f64", "c64") };
            for (k, cs) in &g {
                if k.1 != ct || !k.2.is_empty() {
                    continue;
                }
                let key = |p: &str| (k.0.clone(), rt.to_string(), p.to_string());
                let (Some(re), Some(im)) = (g.get(&key("Re")), g.get(&key("Im"))) else { continue };
                for ((x, y), z) in re.iter().zip(im).zip(cs) {
                    let res = match (&x.res, &y.res) {
                        (Some(a), Some(b)) => Some(Tensor {
                            shape: a.shape.clone(),
                            v: a.v.iter().zip(&b.v).map(|(p, q)| (p.0, q.0)).collect(),
                        }),
                        _ => None,
                    };
                    let mut a = z.clone();
                    a.res = res;
                    a.ty = format!("two {rt}");
                    relate(r, "complex=two reals", &a, z, z.tol);
                }
            }
            if single {
                let d = group(record::<f64>(&c, false, r));
                for (k, ss) in &g {
                    if k.0.starts_with('!') {
                        continue;
                    }
                    let ty = k.1.replace("32", "64");
                    let Some(ds) = d.get(&(k.0.clone(), ty, k.2.clone())) else {
                        panic!("harness: no double {}", k.0);
                    };
                    for (x, y) in ds.iter().zip(ss) {
                        let comp = c.ax.iter().any(|(k, _)| k.is_comp());
                        let n = c.ax.iter().map(|x| x.1).max().unwrap();
                        let key = format!("f32=f64 {} {}{}", c.op, comp, n / 20 * 20);
                        relate(r, &key, x, y, y.tol);
                    }
                }
            }
        }
    }
}
