//! Sizes, grids, matrices, boundary conditions and per-axis queries.
use crate::common::*;
use crate::field::class;
use funspace::enums::TransformKind;
use funspace::*;
use ndarray::{Array, Array1, Array2, Dim, Dimension};
use num_complex::Complex;
use serde_json::{json, Value};

fn tk(t: &TransformKind) -> &'static str {
    match t {
        TransformKind::R2r => "R2r",
        TransformKind::R2c => "R2c",
        TransformKind::C2c => "C2c",
    }
}

// ------------------------------------------------------------------ sizes (C02)
fn grid_exp(k: Kind, n: usize) -> Vec<f64> {
    (0..n)
        .map(|j| {
            if k.is_cheb() {
                -cospi(j, n - 1)
            } else {
                2. * std::f64::consts::PI * j as f64 / n as f64
            }
        })
        .collect()
}
fn check_coords<A: Num>(x: &[A], k: Kind, n: usize, r: &mut Report) {
    r.checks += 1;
    let tol = if A::NAME == "f32" { 2e-6 } else { 4e-15 };
    if x.len() != n {
        r.fail("number of coordinates", json!([x.len(), n]));
        return;
    }
    let e = grid_exp(k, n);
    for j in 0..n {
        if !((x[j].parts().0 - e[j]).abs() <= tol) {
            r.fail("coordinate", json!([j, format!("{:?}", x[j]), e[j]]));
            return;
        }
        if j > 0 && !(x[j].parts().0 > x[j - 1].parts().0) {
            r.fail("coordinates not increasing", json!([j, format!("{:?}", x[j])]));
            return;
        }
    }
}
fn eq(r: &mut Report, what: &str, got: Value, exp: &Value) {
    r.checks += 1;
    if got != *exp {
        r.fail(what, json!({"got": got, "expected": exp}));
    }
}
fn size_base<A, B>(b: &B, k: Kind, n: usize, v: &Value, r: &mut Report)
where
    A: Num,
    B: BaseSize + BaseElements<RealNum = A>,
{
    eq(r, "len_phys", json!(b.len_phys()), &v["phys"][0]);
    eq(r, "len_spec", json!(b.len_spec()), &v["spec"][0]);
    eq(r, "len_orth", json!(b.len_orth()), &v["orth"][0]);
    eq(r, "base_kind", json!(format!("{:?}", b.base_kind())), &v["kind"][0]);
    eq(r, "transform_kind", json!(tk(&b.transform_kind())), &v["tkind"][0]);
    check_coords(&b.coords(), k, n, r);
}
fn size_space<S, A, const N: usize>(s: &S, ax: &[(Kind, usize)], v: &Value, r: &mut Report)
where
    S: BaseSpaceTransform<A, N> + BaseSpaceElements<N, RealNum = A>,
    S::Physical: Num,
    S::Spectral: Num,
    A: FloatNum + Num,
    Dim<[usize; N]>: Dimension,
{
    eq(r, "shape_physical", json!(s.shape_physical().to_vec()), &v["phys"]);
    eq(r, "shape_spectral", json!(s.shape_spectral().to_vec()), &v["spec"]);
    eq(r, "shape_spectral_ortho", json!(s.shape_spectral_ortho().to_vec()), &v["orth"]);
    let p: Array<S::Physical, Dim<[usize; N]>> = s.ndarray_physical();
    eq(r, "ndarray_physical", json!(p.shape()), &v["phys"]);
    let q: Array<S::Spectral, Dim<[usize; N]>> = s.ndarray_spectral();
    eq(r, "ndarray_spectral", json!(q.shape()), &v["spec"]);
    let o: Array<S::Spectral, Dim<[usize; N]>> = s.ndarray_from_shape(s.shape_spectral_ortho());
    eq(r, "ndarray_from_shape", json!(o.shape()), &v["orth"]);
    let zero = p.iter().all(|x| x.parts() == (0., 0.))
        && q.iter().all(|x| x.parts() == (0., 0.))
        && o.iter().all(|x| x.parts() == (0., 0.));
    eq(r, "created arrays are zero", json!(zero), &json!(true));
    let all: [Array1<A>; N] = s.coords();
    for a in 0..N {
        eq(r, "base_kind(axis)", json!(format!("{:?}", s.base_kind(a))), &v["kind"][a]);
        eq(r, "transform_kind(axis)", json!(tk(&s.transform_kind(a))), &v["tkind"][a]);
        check_coords(s.coords_axis(a).as_slice().unwrap(), ax[a].0, ax[a].1, r);
        check_coords(all[a].as_slice().unwrap(), ax[a].0, ax[a].1, r);
    }
}

/// dispatch over the space types
macro_rules! with_space {
    ($A:ty, $ax:expr, $f:ident, $($arg:expr),*) => {{
        let a = $ax;
        let n = |i: usize| a[i].1;
        let rr = |i: usize| r2r::<$A>(a[i].0, a[i].1);
        match class(a).as_str() {
            "r" => $f::<_, $A, 1>(&Space1::new(&rr(0)), $($arg),*),
            "R" => $f::<_, $A, 1>(&Space1::new(&r2c::<$A>(n(0))), $($arg),*),
            "C" => $f::<_, $A, 1>(&Space1::new(&c2c::<$A>(n(0))), $($arg),*),
            "rr" => $f::<_, $A, 2>(&Space2::new(&rr(0), &rr(1)), $($arg),*),
            "Rr" => $f::<_, $A, 2>(&Space2::new(&r2c::<$A>(n(0)), &rr(1)), $($arg),*),
            "CR" => $f::<_, $A, 2>(&Space2::new(&c2c::<$A>(n(0)), &r2c::<$A>(n(1))), $($arg),*),
            "CC" => $f::<_, $A, 2>(&Space2::new(&c2c::<$A>(n(0)), &c2c::<$A>(n(1))), $($arg),*),
            "rrr" => $f::<_, $A, 3>(&Space3::new(&rr(0), &rr(1), &rr(2)), $($arg),*),
            "Rrr" => $f::<_, $A, 3>(&Space3::new(&r2c::<$A>(n(0)), &rr(1), &rr(2)), $($arg),*),
            "CRr" => $f::<_, $A, 3>(&Space3::new(&c2c::<$A>(n(0)), &r2c::<$A>(n(1)), &rr(2)), $($arg),*),
            "CCR" => $f::<_, $A, 3>(&Space3::new(&c2c::<$A>(n(0)), &c2c::<$A>(n(1)), &r2c::<$A>(n(2))), $($arg),*),
            "CCC" => $f::<_, $A, 3>(&Space3::new(&c2c::<$A>(n(0)), &c2c::<$A>(n(1)), &c2c::<$A>(n(2))), $($arg),*),
            x => panic!("harness: no space {x}"),
        }
    }};
}

pub fn sizes(lines: &[Value], r: &mut Report) {
    for v in lines {
        let ax = axes(&v["ax"]);
        r.at(format!("sizes {}", v["ax"]));
        r.cases += 1;
        if r.cases % 1999 == 1 {
            r.sample(v.clone());
        }
        if ax.len() == 1 {
            let (k, n) = ax[0];
            // beyond, neighbours fall together in single precision
            let f32s = n <= 4100;
            r.guard(|rr| match k {
                R2 => {
                    check_coords(&funspace::fourier::FourierR2c::<f64>::nodes(n), k, n, rr);
                    if f32s { check_coords(&funspace::fourier::FourierR2c::<f32>::nodes(n), k, n, rr); }
                    size_base(&r2c::<f64>(n), k, n, v, rr);
                    if f32s { size_base(&r2c::<f32>(n), k, n, v, rr); }
                }
                C2 => {
                    check_coords(&funspace::fourier::FourierC2c::<f64>::nodes(n), k, n, rr);
                    if f32s { check_coords(&funspace::fourier::FourierC2c::<f32>::nodes(n), k, n, rr); }
                    size_base(&c2c::<f64>(n), k, n, v, rr);
                    if f32s { size_base(&c2c::<f32>(n), k, n, v, rr); }
                }
                _ => {
                    check_coords(&funspace::chebyshev::Chebyshev::<f64>::nodes(n), k, n, rr);
                    if f32s { check_coords(&funspace::chebyshev::Chebyshev::<f32>::nodes(n), k, n, rr); }
                    size_base(&r2r::<f64>(k, n), k, n, v, rr);
                    if f32s { size_base(&r2r::<f32>(k, n), k, n, v, rr); }
                }
            });
            r.count("base");
        }
        let small = ax.len() > 1 || ax[0].1 <= 40 || ax[0].1 % 5 == 0 && ax[0].1 < 4100;
        if small {
            r.guard(|rr| {
                with_space!(f64, &ax, size_space, &ax, v, rr);
                with_space!(f32, &ax, size_space, &ax, v, rr);
            });
            r.count(&format!("space{}", ax.len()));
        }
    }
}

// ------------------------------------------------------------------ matrices (C03, C04, C06)
struct Col {
    j: usize,
    e: Vec<(usize, f64, f64)>,
}
fn cols(v: &Value) -> Vec<Col> {
    v.as_array()
        .unwrap()
        .iter()
        .map(|c| Col {
            j: c["j"].as_u64().unwrap() as usize,
            e: c["col"]
                .as_array()
                .unwrap()
                .iter()
                .map(|e| (e[0].as_u64().unwrap() as usize, e[1].as_f64().unwrap(), e[2].as_f64().unwrap()))
                .collect(),
        })
        .collect()
}
fn cmp_cols<T: Num>(what: &str, m: &Array2<T>, shape: [usize; 2], cs: &[Col], r: &mut Report) {
    r.checks += cs.len() as u64;
    if m.shape() != shape {
        r.fail(&format!("{what}: shape"), json!([m.shape(), shape]));
        return;
    }
    let single = T::NAME.ends_with("32");
    let tol = if single { 1e-5 } else { 1e-12 };
    for c in cs {
        let mut want = vec![(0., 0.); shape[0]];
        let mut big = 0f64;
        for (i, re, im) in &c.e {
            want[*i] = (*re, *im);
            big = big.max(mag((*re, *im)));
        }
        for (i, w) in want.iter().enumerate() {
            let g = m[[i, c.j]].parts();
            let err = (g.0 - w.0).abs().max((g.1 - w.1).abs());
            let sc = mag(*w) + 1e-4 * tol * big;
            if !(err <= tol * sc) {
                r.fail(
                    &format!("{what} <{}>", T::NAME),
                    json!({"row": i, "column": c.j, "got": format!("{g:?}"), "expected": format!("{w:?}")}),
                );
                return;
            }
        }
    }
    r.count(what);
}

fn mat_stencil<B, A>(b: &B, k: Kind, n: usize, v: &Value, r: &mut Report)
where
    B: BaseMatOpStencil<NumType = A> + BaseSize,
    A: FloatNum + Num,
{
    let m = k.len_spec(n);
    let nn = k.len_orth(n);
    let cs = cols(&v["cols"]);
    if let Some(s) = r.call("stencil", || b.stencil()) {
        cmp_cols("stencil", &s, [nn, m], &cs, r);
    }
}

fn peye_ok<T: Num>(p: &Array2<T>, z: usize, n: usize) -> bool {
    p.shape() == [n - z, n]
        && p.indexed_iter().all(|((i, j), x)| x.parts() == (if j == i + z { 1. } else { 0. }, 0.))
}

fn mat_diff<B, T, A>(b: &B, k: Kind, n: usize, d: usize, what: &str, v: &Value, r: &mut Report)
where
    B: BaseMatOpDiffmat<NumType = T> + BaseMatOpLaplacian<NumType = A>,
    T: Num,
    A: Num,
{
    let nn = k.len_orth(n);
    let cs = cols(&v["cols"]);
    if what == "diffmat" {
        if let Some(m) = r.call("diffmat", || b.diffmat(d)) {
            cmp_cols(&format!("diffmat({d})"), &m, [nn, nn], &cs, r);
        }
        if d == 2 {
            if let Some(m) = r.call("laplacian", || b.laplacian()) {
                cmp_cols("laplacian", &m, [nn, nn], &cs, r);
            }
        }
    } else {
        let z = if k.is_cheb() { d } else { 1 };
        // rows of the kernel are not determined by the operator
        let cut = |m: &Array2<T>| m.slice(ndarray::s![z.., ..]).to_owned();
        let cs: Vec<Col> = cs
            .into_iter()
            .map(|c| Col { j: c.j, e: c.e.into_iter().map(|(i, a, b)| (i - z, a, b)).collect() })
            .collect();
        if let Some((m, p)) = r.call("diffmat_pinv", || b.diffmat_pinv(d)) {
            if m.shape() != [nn, nn] || !peye_ok(&p, z, nn) {
                r.fail("pinv shape or truncated identity", json!([m.shape(), p.shape()]));
            } else {
                cmp_cols(&format!("pinv({d})"), &cut(&m), [nn - z, nn], &cs, r);
            }
        }
        if d == 2 {
            if let Some((m, p)) = r.call("laplacian_pinv", || b.laplacian_pinv()) {
                if m.shape() != [nn, nn] || !peye_ok(&p, z, nn) {
                    r.fail("laplacian_pinv shape or truncated identity", json!([m.shape(), p.shape()]));
                } else {
                    let m = m.slice(ndarray::s![z.., ..]).to_owned();
                    cmp_cols("laplacian_pinv", &m, [nn - z, nn], &cs, r);
                }
            }
        }
    }
}

pub fn matrices(lines: &[Value], r: &mut Report) {
    for v in lines {
        let k = Kind::parse(v["k"].as_str().unwrap());
        let n = v["n"].as_u64().unwrap() as usize;
        let d = v["d"].as_u64().unwrap() as usize;
        let what = v["what"].as_str().unwrap().to_string();
        r.at(format!("{what} {k:?}{n} d={d}"));
        r.cases += 1;
        macro_rules! go {
            ($b:expr, $b32:expr) => {{
                let Some((b, b32)) = r.call("construct", || ($b, $b32)) else { continue };
                if what == "stencil" {
                    mat_stencil(&b, k, n, v, r);
                    mat_stencil(&b32, k, n, v, r);
                } else {
                    mat_diff(&b, k, n, d, &what, v, r);
                    if n <= 64 && d <= 4 {
                        mat_diff(&b32, k, n, d, &what, v, r);
                    }
                }
            }};
        }
        match k {
            R2 => go!(r2c::<f64>(n), r2c::<f32>(n)),
            C2 => go!(c2c::<f64>(n), c2c::<f32>(n)),
            _ => go!(r2r::<f64>(k, n), r2r::<f32>(k, n)),
        }
    }
}

// ------------------------------------------------------------------ boundary conditions (C03)
fn functional(f: &str, q: usize) -> f64 {
    let q = q as f64;
    let s = if q % 2. == 0. { 1. } else { -1. };
    match f {
        "v+" => 1.,
        "v-" => s,
        "d+" => q * q,
        "d-" => -s * q * q,
        "s+" => q * q * (q * q - 1.) / 3.,
        "s-" => s * q * q * (q * q - 1.) / 3.,
        _ => panic!("harness: functional"),
    }
}
fn bcs(k: Kind) -> &'static [&'static str] {
    match k {
        DI => &["v-", "v+"],
        NE => &["d-", "d+"],
        DN => &["v-", "d+"],
        BA => &["v-", "v+", "d-", "d+"],
        BB => &["v-", "v+", "s-", "s+"],
        _ => &[],
    }
}
/// all boundary functionals vanish on the orthogonal coefficients u, along every composite axis
pub fn bc_hold(u: &Tensor, ax: &[(Kind, usize)], what: &str, tol: f64, r: &mut Report) {
    for (a, (k, n)) in ax.iter().enumerate() {
        for f in bcs(*k) {
            r.checks += 1;
            let row: Vec<(f64, f64)> = (0..*n).map(|q| (functional(f, q), 0.)).collect();
            let res = u.apply(&[row.clone()], a);
            let ua = Tensor { shape: u.shape.clone(), v: u.v.iter().map(|x| (mag(*x), 0.)).collect() };
            let ra: Vec<(f64, f64)> = row.iter().map(|x| (x.0.abs(), 0.)).collect();
            let ab = ua.apply(&[ra], a);
            let floor = ab.max() * 1e-6 + 1e-300;
            for (x, s) in res.v.iter().zip(&ab.v) {
                let e = mag(*x) / (s.0 + floor);
                if !(e <= tol) {
                    r.fail(
                        what,
                        json!({"condition": f, "kind": format!("{k:?}"), "n": n, "axis": a,
                               "value": format!("{x:?}"), "scale": s.0}),
                    );
                    return;
                }
                r.stat(format!("bc/{what}/{k:?}/{f}"), e);
            }
        }
    }
}
/// grid values -> orthogonal coefficients along the composite axes by the plain cosine sum
fn from_grid(g: &Tensor, ax: &[(Kind, usize)]) -> Tensor {
    let mut t = g.clone();
    for (a, (k, n)) in ax.iter().enumerate() {
        if k.is_cheb() {
            let m = n - 1;
            let mat: Vec<Vec<(f64, f64)>> = (0..*n)
                .map(|q| {
                    (0..*n)
                        .map(|p| {
                            let mut w = 2. / m as f64 * cospi(q * (m - p), m);
                            if q == 0 || q == m {
                                w /= 2.;
                            }
                            if p == 0 || p == m {
                                w /= 2.;
                            }
                            (w, 0.)
                        })
                        .collect()
                })
                .collect();
            t = t.apply(&mat, a);
        }
    }
    t
}

fn bc_space<S, A, const N: usize>(s: &S, c: &Case, r: &mut Report)
where
    S: BaseSpaceTransform<A, N> + BaseSpaceFromOrtho<A, <S as BaseSpaceTransform<A, N>>::Spectral, N>,
    S::Physical: Num,
    S::Spectral: Num,
    A: FloatNum + Num,
    Dim<[usize; N]>: Dimension,
{
    bc_space_t::<S, A, N>(s, c, r);
}
fn bc_space_t<S, A, const N: usize>(s: &S, c: &Case, r: &mut Report)
where
    S: BaseSpaceTransform<A, N> + BaseSpaceFromOrtho<A, <S as BaseSpaceTransform<A, N>>::Spectral, N>,
    S::Physical: Num,
    S::Spectral: Num,
    A: FloatNum + Num,
    Dim<[usize; N]>: Dimension,
{
    type D<const N: usize> = Dim<[usize; N]>;
    let tol = 1e-9;
    let spec: Option<Array<S::Spectral, D<N>>> = match c.op.as_str() {
        "ToOrtho" | "Backward" => Some(c.pre.arr()),
        // whatever comes back from transforming arbitrary grid data
        "Forward" => {
            let x: Array<S::Physical, D<N>> = to_grid(&c.ax, &c.pre).arr();
            r.call("forward", || s.forward(&x))
        }
        "FromOrtho" => {
            let x: Array<S::Spectral, D<N>> = c.pre.arr();
            r.call("from_ortho", || s.from_ortho(&x))
        }
        _ => None,
    };
    let Some(spec) = spec else { return };
    if let Some(u) = r.call("to_ortho", || BaseSpaceFromOrtho::<A, S::Spectral, N>::to_ortho(s, &spec)) {
        bc_hold(&Tensor::of(&u), &c.ax, "orthogonal coefficients", tol, r);
    }
    if let Some(g) = r.call("backward", || s.backward(&spec)) {
        let g = Tensor::of(&g);
        // values at the ends straight from the grid
        for (a, (k, n)) in c.ax.iter().enumerate() {
            for f in bcs(*k) {
                let p = match *f {
                    "v-" => 0,
                    "v+" => *n - 1,
                    _ => continue,
                };
                let mut row = vec![(0., 0.); *n];
                row[p] = (1., 0.);
                let res = g.apply(&[row], a);
                let sc = grid_scale(&c.ax, &c.post).max(g.max()) + 1e-300;
                let e = res.max() / sc;
                r.checks += 1;
                if !(e <= 1e-11) {
                    r.fail("grid value at the boundary", json!({"axis": a, "end": f, "value": res.max(), "scale": sc}));
                    return;
                }
                r.stat(format!("bc/grid/{k:?}/{f}"), e);
            }
        }
        let u = from_grid(&g, &c.ax);
        let sc = u.max();
        if sc > 0. {
            bc_hold_grid(&u, &c.ax, r);
        }
    }
    r.count(&format!("bc:{}", c.op));
}
/// as bc_hold, for coefficients recovered from grid values: the error of every coefficient is
/// relative to the largest one
fn bc_hold_grid(u: &Tensor, ax: &[(Kind, usize)], r: &mut Report) {
    for (a, (k, n)) in ax.iter().enumerate() {
        for f in bcs(*k) {
            r.checks += 1;
            let row: Vec<(f64, f64)> = (0..*n).map(|q| (functional(f, q), 0.)).collect();
            let tot: f64 = row.iter().map(|x| x.0.abs()).sum();
            let e = u.apply(&[row], a).max() / (tot * u.max());
            if !(e <= 1e-10) {
                r.fail("derivative condition on grid values", json!({"axis": a, "condition": f, "kind": format!("{k:?}"), "n": n, "relative": e}));
                return;
            }
            r.stat(format!("bc/from-grid/{k:?}/{f}"), e);
        }
    }
}

pub fn bc(lines: &[Value], r: &mut Report) {
    for v in lines {
        let c = Case::parse(v);
        r.at(format!("case {} {}", c.i, c.name()));
        r.cases += 1;
        if r.cases % 97 == 1 {
            r.sample(json!({"case": c.name()}));
        }
        let rc = class(&c.ax);
        let parts: &[Part] = if rc.chars().all(|x| x == 'r') { &[Part::Re, Part::Im] } else { &[Part::Both] };
        for p in parts {
            let cp = c.part(*p);
            r.guard(|rr| {
                let cc = &cp;
                with_space!(f64, &cc.ax, bc_space, cc, rr);
            });
        }
        // columns of the reported stencil
        if c.ax.len() == 1 && c.ax[0].0.is_comp() {
            let (k, n) = c.ax[0];
            let b = r2r::<f64>(k, n);
            if let Some(s) = r.call("stencil", || b.stencil()) {
                let t = Tensor::of(&s.t().as_standard_layout().to_owned());
                bc_hold(&t, &[(ID, t.shape[0]), (k, n)], "stencil columns", 1e-9, r);
            }
        }
    }
}

// ------------------------------------------------------------------ conversions vs reported stencil (C04)
fn conv4_base<T, B>(b: &B, c: &Case, r: &mut Report)
where
    B: BaseMatOpStencil<NumType = f64> + BaseFromOrtho<T>,
    T: Num,
{
    let (k, n) = c.ax[0];
    let (nn, m) = (k.len_orth(n), k.len_spec(n));
    let Some(s) = r.call("stencil", || b.stencil()) else { return };
    if s.shape() != [nn, m] {
        r.fail("stencil shape", json!([s.shape(), [nn, m]]));
        return;
    }
    let mat: Vec<Vec<(f64, f64)>> = (0..nn).map(|i| (0..m).map(|j| (s[[i, j]], 0.)).collect()).collect();
    let matt: Vec<Vec<(f64, f64)>> = (0..m).map(|j| (0..nn).map(|i| (s[[i, j]], 0.)).collect()).collect();
    let n3 = (n as f64).powi(3);
    match c.op.as_str() {
        "ToOrtho" => {
            let v: Array1<T> = c.pre.arr();
            let Some(u) = r.call("to_ortho", || b.to_ortho(&v, 0)) else { return };
            let u = Tensor::of(&u);
            let e = Tensor::of(&v).apply(&mat, 0);
            let sc = vec![c.pre.max() + 1e-300; nn];
            r.close("to_ortho = stencil * v", &format!("S*v/{k:?}"), &u, &e, &sc, 1e-12);
            let ua: Array1<T> = u.arr();
            if n < min_solve(k) {
                return;
            }
            if let Some(w) = r.call("from_ortho", || b.from_ortho(&ua, 0)) {
                let sc = vec![c.pre.max() + 1e-300; m];
                r.close("from_ortho(to_ortho(v)) = v", &format!("round/{k:?}"), &Tensor::of(&w), &Tensor::of(&v), &sc, 1e-13 * n3);
            }
        }
        "FromOrtho" => {
            let u: Array1<T> = c.pre.arr();
            let Some(v) = r.call("from_ortho", || b.from_ortho(&u, 0)) else { return };
            let v = Tensor::of(&v);
            // normal equations: S^T (u - S v) = 0
            let sv = v.apply(&mat, 0);
            let res = Tensor {
                shape: sv.shape.clone(),
                v: Tensor::of(&u).v.iter().zip(&sv.v).map(|(a, b)| (a.0 - b.0, a.1 - b.1)).collect(),
            };
            let g = res.apply(&matt, 0);
            let zero = Tensor { shape: g.shape.clone(), v: vec![(0., 0.); m] };
            let sc = vec![c.pre.max() + 1e-300; m];
            r.close("normal equations", &format!("lsq/{k:?}"), &g, &zero, &sc, 1e-13 * n3);
            if let Some(si) = r.call("stencil_inv", || b.stencil_inv()) {
                if si.shape() != [m, nn] {
                    r.fail("stencil_inv shape", json!([si.shape(), [m, nn]]));
                    return;
                }
                // the product with the stencil is the identity
                let p = si.dot(&s);
                let eye = Tensor::of(&Array2::<f64>::eye(m));
                let big = si.iter().fold(0., |a: f64, x| a.max(x.abs())).max(1.);
                r.close("stencil_inv * stencil = 1", &format!("inv/{k:?}"), &Tensor::of(&p), &eye, &vec![big; m * m], 1e-11);
            }
        }
        _ => return,
    }
    if !k.is_comp() {
        // orthogonal bases: the identity, exactly
        let x: Array1<T> = c.pre.arr();
        let y = if c.op == "ToOrtho" { r.call("to_ortho", || b.to_ortho(&x, 0)) } else { r.call("from_ortho", || b.from_ortho(&x, 0)) };
        if !y.is_some_and(|y| y.iter().zip(x.iter()).all(|(a, b)| a.parts() == b.parts())) {
            r.fail("conversion of an orthogonal base is the identity", json!(c.op));
        }
    }
    r.count(&format!("{}:{}", c.op, T::NAME));
}
pub fn min_solve(k: Kind) -> usize {
    match k {
        CH => 2,
        DI | NE => 5,
        DN => 6,
        BA | BB => 10,
        _ => 1,
    }
}

pub fn conv4(lines: &[Value], r: &mut Report) {
    for v in lines {
        let c = Case::parse(v);
        if c.ax.len() != 1 {
            continue;
        }
        r.at(format!("case {} {}", c.i, c.name()));
        r.cases += 1;
        let (k, n) = c.ax[0];
        match k {
            R2 => conv4_base::<Complex<f64>, _>(&r2c::<f64>(n), &c, r),
            C2 => conv4_base::<Complex<f64>, _>(&c2c::<f64>(n), &c, r),
            _ => {
                let b = r2r::<f64>(k, n);
                for p in [Part::Re, Part::Im] {
                    conv4_base::<f64, _>(&b, &c.part(p), r);
                }
                conv4_base::<Complex<f64>, _>(&b, &c, r);
            }
        }
    }
}

// ------------------------------------------------------------------ per-axis queries (C07)
type M = Array2<f64>;
struct AxisMats {
    st: M,
    sti: Option<M>,
    la: M,
    lp: Option<(M, M)>,
}
fn base_mats(k: Kind, n: usize) -> AxisMats {
    fn go<B>(b: &B, k: Kind, n: usize) -> AxisMats
    where
        B: BaseMatOpStencil<NumType = f64> + BaseMatOpLaplacian<NumType = f64>,
    {
        AxisMats {
            st: b.stencil(),
            sti: (n >= min_solve(k)).then(|| b.stencil_inv()),
            la: b.laplacian(),
            lp: (!k.is_cheb() || n >= 4).then(|| b.laplacian_pinv()),
        }
    }
    match k {
        R2 => go(&r2c::<f64>(n), k, n),
        C2 => go(&c2c::<f64>(n), k, n),
        _ => go(&r2r::<f64>(k, n), k, n),
    }
}
fn same(what: &str, axis: usize, got: Option<M>, want: &M, r: &mut Report) {
    r.checks += 1;
    let Some(g) = got else { return };
    let ok = g.shape() == want.shape()
        && g.iter().zip(want.iter()).all(|(a, b)| (a - b).abs() <= 1e-13 * b.abs() || a == b);
    if !ok {
        r.fail(what, json!({"axis": axis, "shape": g.shape(), "expected_shape": want.shape()}));
    }
}
fn axis_space<S, A, const N: usize>(s: &S, ax: &[(Kind, usize)], r: &mut Report)
where
    S: BaseSpaceMatOpStencil<NumType = f64> + BaseSpaceMatOpLaplacian<NumType = f64>,
    A: Num,
{
    for a in 0..N {
        let b = base_mats(ax[a].0, ax[a].1);
        let x = r.call("stencil(axis)", || s.stencil(a));
        same("stencil(axis)", a, x, &b.st, r);
        if let Some(m) = &b.sti {
            let x = r.call("stencil_inv(axis)", || s.stencil_inv(a));
            same("stencil_inv(axis)", a, x, m, r);
        }
        let x = r.call("laplacian(axis)", || s.laplacian(a));
        same("laplacian(axis)", a, x, &b.la, r);
        if let Some((m, e)) = &b.lp {
            let x = r.call("laplacian_pinv(axis)", || s.laplacian_pinv(a));
            if let Some((y, z)) = x {
                same("laplacian_pinv(axis)", a, Some(y), m, r);
                same("laplacian_pinv(axis) identity", a, Some(z), e, r);
            }
        }
    }
}
pub fn axis_queries(lines: &[Value], r: &mut Report) {
    for v in lines {
        let ax = axes(&v["ax"]);
        r.at(format!("axis queries {}", v["ax"]));
        r.cases += 1;
        r.guard(|rr| {
            with_space!(f64, &ax, axis_space, &ax, rr);
        });
        r.count(&format!("axis-queries-{}d", ax.len()));
    }
}

// ------------------------------------------------------------------ matrices in f32 (C11)
fn mats_of<B, T, A>(b: &B, ds: &[usize]) -> Vec<(String, Tensor)>
where
    B: BaseMatOpDiffmat<NumType = T> + BaseMatOpLaplacian<NumType = A> + BaseMatOpStencil<NumType = A>
        + BaseElements<RealNum = A>,
    T: Num,
    A: Num,
{
    let mut v = vec![];
    for d in ds {
        v.push((format!("diffmat({d})"), Tensor::of(&b.diffmat(*d))));
        let (p, e) = b.diffmat_pinv(*d);
        v.push((format!("diffmat_pinv({d})"), Tensor::of(&p)));
        v.push((format!("diffmat_pinv({d}).1"), Tensor::of(&e)));
    }
    v.push(("laplacian".into(), Tensor::of(&b.laplacian())));
    let (p, e) = b.laplacian_pinv();
    v.push(("laplacian_pinv".into(), Tensor::of(&p)));
    v.push(("laplacian_pinv.1".into(), Tensor::of(&e)));
    v.push(("stencil".into(), Tensor::of(&b.stencil())));
    v.push(("coords".into(), Tensor::of(&Array1::from(b.coords()))));
    v
}
pub fn types_mat(lines: &[Value], r: &mut Report) {
    for v in lines {
        let k = Kind::parse(v["k"].as_str().unwrap());
        let n = v["n"].as_u64().unwrap() as usize;
        let ds = ints(&v["ds"]);
        r.at(format!("matrices {k:?}{n} in single precision"));
        r.cases += 1;
        macro_rules! go {
            ($b:expr, $b32:expr) => {{
                use std::panic::{catch_unwind, AssertUnwindSafe};
                let a = catch_unwind(AssertUnwindSafe(|| mats_of(&$b, &ds))).ok();
                let b = catch_unwind(AssertUnwindSafe(|| mats_of(&$b32, &ds))).ok();
                match (a, b) {
                    (Some(a), Some(b)) => {
                        for ((w, x), (_, y)) in a.iter().zip(&b) {
                            // relative to each entry, and a little of the largest
                            let m = x.max();
                            let sc: Vec<f64> =
                                x.v.iter().map(|e| mag(*e) + 1e-6 * m + 1e-300).collect();
                            r.close(w, &format!("{w}/{k:?}"), y, x, &sc, 1e-4);
                            r.count("f32 matrix");
                        }
                    }
                    (None, None) => {}
                    _ => r.fail("only one precision panicked", json!(null)),
                }
            }};
        }
        match k {
            R2 => go!(r2c::<f64>(n), r2c::<f32>(n)),
            C2 => go!(c2c::<f64>(n), c2c::<f32>(n)),
            _ => go!(r2r::<f64>(k, n), r2r::<f32>(k, n)),
        }
    }
}

// ------------------------------------------------------------------ laws on many points (C04, C05)
// Field!RoundTrip and the closed form of the derivative (Operators!DCol) need no values from the
// specification, so they are replayed on sizes TLC does not reach.
fn noise(m: usize, salt: u64) -> Vec<f64> {
    let mut z = salt.wrapping_mul(0x9e37_79b9_7f4a_7c15) | 1;
    (0..m)
        .map(|_| {
            z = z.wrapping_mul(6_364_136_223_846_793_005).wrapping_add(1_442_695_040_888_963_407);
            ((z >> 33) % 13) as f64 - 6.
        })
        .collect()
}
fn picks(m: usize, salt: u64) -> Vec<Vec<f64>> {
    let mut out = vec![noise(m, salt), vec![1.; m]];
    for at in [0, 1, m / 2, m - 2, m - 1] {
        let mut e = vec![0.; m];
        e[at] = 1.;
        out.push(e);
    }
    out
}
fn round_base<B, T>(b: &B, k: Kind, n: usize, salt: u64, r: &mut Report)
where
    B: BaseFromOrtho<T>,
    T: Num,
{
    let m = k.len_spec(n);
    let nf = n as f64;
    let tol = if matches!(k, BA | BB) { 1e-15 * nf.powi(3) } else { 3e-14 * nf };
    for (q, re) in picks(m, salt).into_iter().enumerate() {
        let im = noise(m, salt + 7 + q as u64);
        let t = Tensor { shape: vec![m], v: re.iter().zip(&im).map(|(a, b)| (*a, if T::NAME.starts_with('c') { *b } else { 0. })).collect() };
        let v: Array1<T> = t.arr();
        let Some(u) = r.call("to_ortho", || b.to_ortho(&v, 0)) else { return };
        let Some(w) = r.call("from_ortho", || b.from_ortho(&u, 0)) else { return };
        let sc = vec![t.max() + 1e-300; m];
        r.close("from_ortho(to_ortho(v)) = v", &format!("round/{k:?}"), &Tensor::of(&w), &t, &sc, tol);
    }
    r.count(&format!("round:{k:?}:{}", T::NAME));
}
/// coefficients of the derivative from the sum of the closed forms of its columns
fn deriv(u: &[f64]) -> Vec<f64> {
    let n = u.len();
    let mut out = vec![0.; n];
    let mut s = [0., 0.];
    for p in (0..n).rev() {
        out[p] = s[(p + 1) % 2] * if p == 0 { 1. } else { 2. };
        s[p % 2] += p as f64 * u[p];
    }
    out
}
/// cos(2 pi a / b), sin(2 pi a / b)
fn turn(a: usize, b: usize) -> (f64, f64) {
    let x = 2. * std::f64::consts::PI * (a % b) as f64 / b as f64;
    (x.cos(), x.sin())
}
/// the value at point j of the function the orthogonal coefficients u denote (Bases.tla)
fn value_at(k: Kind, n: usize, u: &[(f64, f64)], j: usize) -> (f64, f64) {
    let mut s = (0., 0.);
    for (q, c) in u.iter().enumerate() {
        let (co, si) = match k {
            R2 | C2 => turn(q * j, n),
            _ => (turn(q * (n - 1 - j), 2 * (n - 1)).0, 0.),
        };
        if k == R2 {
            let twice = if q == 0 || 2 * q == n { 1. } else { 2. };
            s.0 += twice * (c.0 * co - c.1 * si);
        } else {
            s.0 += c.0 * co - c.1 * si;
            s.1 += c.0 * si + c.1 * co;
        }
    }
    if matches!(k, R2 | C2) {
        s = (s.0 / n as f64, s.1 / n as f64);
    }
    s
}
fn eval_base<B, P, S>(b: &B, k: Kind, n: usize, salt: u64, r: &mut Report)
where
    B: BaseTransform<Physical = P, Spectral = S>,
    P: Num,
    S: Num,
{
    let m = k.len_spec(n);
    let nf = n as f64;
    for (q, re) in picks(m, salt).into_iter().enumerate() {
        let mut im = if S::NAME.starts_with('c') { noise(m, salt + 7 + q as u64) } else { vec![0.; m] };
        if k == R2 {
            im[0] = 0.;
            if n % 2 == 0 {
                im[m - 1] = 0.;
            }
        }
        let t = Tensor { shape: vec![m], v: re.into_iter().zip(im).collect() };
        let v: Array1<S> = t.arr();
        let Some(g) = r.call("backward", || b.backward(&v, 0)) else { return };
        let gt = Tensor::of(&g);
        if gt.v.len() != n {
            r.fail("backward", json!({"shape": gt.shape}));
            return;
        }
        let mut u = t.v.clone();
        if k == DI {
            u.extend([(0., 0.); 2]);
            for i in 0..m {
                u[i + 2] = (u[i + 2].0 - t.v[i].0, u[i + 2].1 - t.v[i].1);
            }
        }
        if matches!(k, CH | DI | R2 | C2) {
            let js = [0, 1 % n, n / 2, n - 1, (salt as usize * 7 + q * 5) % n];
            let got = Tensor { shape: vec![5], v: js.iter().map(|j| gt.v[*j]).collect() };
            let exp = Tensor { shape: vec![5], v: js.iter().map(|j| value_at(k, n, &u, *j)).collect() };
            let size = u.iter().map(|z| z.0.abs() + z.1.abs()).sum::<f64>() / if matches!(k, R2 | C2) { nf } else { 1. };
            r.close("backward is the function's value at the point", &format!("value/{k:?}"), &got, &exp, &vec![size + 1e-300; 5], 1e-13);
        }
        if n > 1500 && k.is_comp() {
            continue;
        }
        let Some(w) = r.call("forward", || b.forward(&g, 0)) else { return };
        let tol = match k {
            BA | BB => 2e-15 * nf.powi(3).max(1e4),
            _ if k.is_comp() => 1e-13 * nf.max(100.),
            _ => 3e-14 * nf.max(100.),
        };
        let sc = vec![t.max() + 1e-300; m];
        r.close("forward(backward(v)) = v", &format!("interp/{k:?}"), &Tensor::of(&w), &t, &sc, tol);
    }
    r.count(&format!("evaluate:{k:?}"));
}
pub fn laws(lines: &[Value], r: &mut Report) {
    for v in lines {
        let k = Kind::parse(v["k"].as_str().unwrap());
        let n = v["n"].as_u64().unwrap() as usize;
        let salt = v["salt"].as_u64().unwrap();
        r.at(format!("law {} on {k:?}{n}", v["law"]));
        r.cases += 1;
        if v["law"] == "bc" {
            let b = r2r::<f64>(k, n);
            for x in picks(k.len_spec(n), salt) {
                let a = Array1::from(x);
                let Some(u) = r.call("to_ortho", || BaseFromOrtho::<f64>::to_ortho(&b, &a, 0)) else { break };
                bc_hold(&Tensor::of(&u), &[(k, n)], "orthogonal coefficients", 1e-12, r);
            }
            r.count(&format!("bc:{k:?}"));
        } else if v["law"] == "evaluate" {
            match k {
                R2 => eval_base(&r2c::<f64>(n), k, n, salt, r),
                C2 => eval_base(&c2c::<f64>(n), k, n, salt, r),
                _ => eval_base(&r2r::<f64>(k, n), k, n, salt, r),
            }
        } else if v["law"] == "round" {
            match k {
                R2 => round_base::<_, Complex<f64>>(&r2c::<f64>(n), k, n, salt, r),
                C2 => round_base::<_, Complex<f64>>(&c2c::<f64>(n), k, n, salt, r),
                _ => {
                    let b = r2r::<f64>(k, n);
                    round_base::<_, f64>(&b, k, n, salt, r);
                    round_base::<_, Complex<f64>>(&b, k, n, salt, r);
                }
            }
        } else {
            let b = r2r::<f64>(k, n);
            for x in picks(k.len_spec(n), salt) {
                // a difference of two, or the coefficients themselves
                let mut u = x.clone();
                if k == DI {
                    u.extend([0., 0.]);
                    for i in 0..x.len() {
                        u[i + 2] -= x[i];
                    }
                }
                for d in 0..4 {
                    let a = Array1::from(x.clone());
                    let Some(g) = r.call("gradient", || BaseGradient::<f64>::gradient(&b, &a, d, 0)) else { return };
                    let e = Tensor { shape: vec![n], v: u.iter().map(|z| (*z, 0.)).collect() };
                    let sc = e.suffix_max(0, d == 0).v.iter().map(|z| z.0.abs() + 1e-300).collect::<Vec<_>>();
                    r.close(&format!("gradient of order {d}"), &format!("deriv/{k:?}/{d}"), &Tensor::of(&g), &e, &sc, 1e-11);
                    u = deriv(&u);
                }
            }
            r.count(&format!("deriv:{k:?}"));
        }
    }
}
