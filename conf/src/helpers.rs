//! Cases of Helpers.tla: every comparison and axis helper, element type, layout and dimension.
use crate::common::*;
use funspace::utils::*;
use ndarray::{Array, ArrayD, Dimension, Ix1, Ix2, Ix3, Ix4, IxDyn, ShapeBuilder};
use num_complex::Complex;
use serde_json::{json, Value};
use std::panic::{catch_unwind, AssertUnwindSafe};

const NAN: i64 = 999_999;
const INF: i64 = 888_888;
fn value(t: i64) -> f64 {
    match t {
        NAN => f64::NAN,
        INF => f64::INFINITY,
        x if x == -INF => f64::NEG_INFINITY,
        x => x as f64 / 1e4,
    }
}

fn passed(f: impl FnOnce()) -> bool {
    catch_unwind(AssertUnwindSafe(f)).is_ok()
}

fn lay<T: Num>(v: &[(i64, i64)], shape: &[usize], fortran: bool) -> ArrayD<T> {
    let mut a = if fortran { ArrayD::from_elem(IxDyn(shape).f(), T::mk(0., 0.)) } else { ArrayD::from_elem(IxDyn(shape), T::mk(0., 0.)) };
    for (x, t) in a.iter_mut().zip(v) {
        *x = T::mk(value(t.0), value(t.1));
    }
    a
}

fn nd<T: Num, D: Dimension>(a: ArrayD<T>) -> Array<T, D> {
    a.into_dimensionality::<D>().expect("harness: dim")
}

fn equal(c: &Value, pass: bool, r: &mut Report) {
    let shape = ints(&c["shape"]);
    let pairs = |k: &str| -> Vec<(i64, i64)> {
        c[k].as_array().unwrap().iter().map(|p| (p[0].as_i64().unwrap(), p[1].as_i64().unwrap())).collect()
    };
    let (a, b) = (pairs("a"), pairs("b"));
    let cplx = c["cplx"].as_bool().unwrap();
    let mut say = |what: &str, got: bool| {
        r.checks += 1;
        if got != pass {
            r.fail(what, json!({"expected": if pass { "accept" } else { "reject" }, "a": c["a"], "b": c["b"]}));
        }
    };
    let slice = shape.len() == 1;
    // both orders of the arguments decide the same
    for (x, y, o) in [(&a, &b, "ab"), (&b, &a, "ba")] {
        macro_rules! one {
            ($t:ty, $f:ident, $fs:ident, $name:expr) => {{
                if slice {
                    let (p, q) = (lay::<$t>(x, &shape, false), lay::<$t>(y, &shape, false));
                    let (p, q) = (p.as_slice().unwrap(), q.as_slice().unwrap());
                    say(&format!("{}<{}> {o}", stringify!($fs), $name), passed(|| $fs(p, q)));
                }
                for (fx, fy) in [(false, false), (true, true), (true, false), (false, true)] {
                    if slice && (fx || fy) {
                        continue;
                    }
                    let (p, q) = (lay::<$t>(x, &shape, fx), lay::<$t>(y, &shape, fy));
                    let got = match shape.len() {
                        1 => passed(|| $f(&nd::<$t, Ix1>(p), &nd::<$t, Ix1>(q))),
                        2 => passed(|| $f(&nd::<$t, Ix2>(p), &nd::<$t, Ix2>(q))),
                        3 => passed(|| $f(&nd::<$t, Ix3>(p).view(), &nd::<$t, Ix3>(q).view())),
                        4 => passed(|| $f(&nd::<$t, Ix4>(p), &nd::<$t, Ix4>(q))),
                        _ => panic!("harness: dim"),
                    };
                    say(&format!("{}<{}> {o} {fx}{fy}", stringify!($f), $name), got);
                }
                if shape.len() == 2 {
                    let (p, q) = (lay::<$t>(x, &shape, false), lay::<$t>(y, &shape, false));
                    say(&format!("{}<{}> {o} dynamic", stringify!($f), $name), passed(|| $f(&p, &q)));
                }
            }};
        }
        if cplx {
            one!(Complex<f64>, approx_eq_complex_ndarray, approx_eq_complex, "c64");
            one!(Complex<f32>, approx_eq_complex_ndarray, approx_eq_complex, "c32");
        } else {
            one!(f64, approx_eq_ndarray, approx_eq, "f64");
            one!(f32, approx_eq_ndarray, approx_eq, "f32");
        }
    }
}

fn axis<D: Dimension>(c: &Value, pass: bool, out: &[usize], r: &mut Report) {
    let shape = ints(&c["shape"]);
    let ax = c["axis"].as_u64().unwrap() as usize;
    let size = c["size"].as_u64().unwrap() as usize;
    let n: usize = shape.iter().product();
    for f in [false, true] {
        let v: Vec<(i64, i64)> = (0..n as i64).map(|i| (i + 1, -i)).collect();
        let x: Array<f64, D> = nd(lay(&v, &shape, f));
        let z: Array<Complex<f64>, D> = nd(lay(&v, &shape, f));
        if c["h"] == "check" {
            for (name, got) in [
                ("f64", passed(|| check_array_axis(&x, size, ax, "x"))),
                ("c64", passed(|| check_array_axis(&z, size, ax, ""))),
                ("view", passed(|| check_array_axis(&z.view(), size, ax, ""))),
            ] {
                r.checks += 1;
                if got != pass {
                    r.fail("check_array_axis", json!({"type": name, "expected": if pass { "accept" } else { "reject" }}));
                }
            }
            continue;
        }
        macro_rules! one {
            ($in:expr, $t:ty, $name:expr) => {{
                r.checks += 1;
                match catch_unwind(AssertUnwindSafe(|| array_resized_axis::<_, _, _, $t>($in, size, ax))) {
                    Ok(y) => {
                        if y.shape() != out {
                            r.fail("array_resized_axis: shape", json!({"type": $name, "got": y.shape(), "expected": out}));
                        }
                        let z: $t = num_traits::Zero::zero();
                        if y.iter().any(|v| *v != z) || y.len() != out.iter().product::<usize>() {
                            r.fail("array_resized_axis: not zero", json!({"type": $name}));
                        }
                    }
                    Err(e) => r.fail("array_resized_axis failed", json!(panic_msg(&e))),
                }
            }};
        }
        one!(&x, f64, "f64 from f64");
        one!(&x, Complex<f64>, "c64 from f64");
        one!(&z, f32, "f32 from c64");
        one!(&z, Complex<f32>, "c32 from c64");
        one!(&z.view(), i32, "i32 from a view");
    }
}

pub fn run(lines: &[Value], r: &mut Report) {
    for (no, l) in lines.iter().enumerate() {
        let c = &l["c"];
        let pass = l["v"] == "passed";
        r.at(if c["h"] == "eq" {
            format!("comparison #{no} of shape {} ({})", c["shape"], l["v"])
        } else {
            format!("{} {} axis={} size={}", c["h"], c["shape"], c["axis"], c["size"])
        });
        r.cases += 1;
        r.count(&format!("{}:{}", c["h"].as_str().unwrap(), l["v"].as_str().unwrap()));
        if no % 3001 == 5 {
            r.sample(l.clone());
        }
        if c["h"] == "eq" {
            equal(c, pass, r);
            continue;
        }
        let out = ints(&l["out"]);
        match c["shape"].as_array().unwrap().len() {
            1 => axis::<Ix1>(c, pass, &out, r),
            2 => axis::<Ix2>(c, pass, &out, r),
            3 => axis::<Ix3>(c, pass, &out, r),
            _ => axis::<Ix4>(c, pass, &out, r),
        }
    }
}
