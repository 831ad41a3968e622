//! Calls of Misuse.tla: operations handed arrays that do not fit, or called in the wrong role.
//! One record per call and process: shapes held, shapes handed over, what became of the call.
use crate::common::*;
use crate::decomp::{global, Calls, Elem, PhysOf, SpecOf};
use crate::space::cut;
use funspace::space_mpi::*;
use funspace::*;
use ndarray::Array2;
use serde_json::{json, Value};
use std::io::Write;
use std::panic::{catch_unwind, AssertUnwindSafe};

type Sh = [usize; 2];

/// what a process holds of one representation
#[derive(Clone, Copy)]
struct Held {
    x: Sh,
    y: Sh,
    glb: Sh,
    xst: Sh,
    yst: Sh,
}
impl Held {
    fn of(d: &Decomp2d) -> Self {
        let (x, y) = (&d.x_pencil, &d.y_pencil);
        Held { x: x.sz, y: y.sz, glb: d.n_global, xst: x.st, yst: y.st }
    }
    fn kind(&self, k: &str) -> Sh {
        match k {
            "x" => self.x,
            "y" => self.y,
            _ => self.glb,
        }
    }
    fn json(&self) -> Value {
        json!({"x": self.x, "y": self.y, "glb": self.glb})
    }
}

struct All {
    dec: Held,
    phys: Held,
    spec: Held,
    orth: Held,
}
impl All {
    fn rep(&self, r: &str) -> &Held {
        match r {
            "dec" => &self.dec,
            "phys" => &self.phys,
            "spec" => &self.spec,
            "orth" => &self.orth,
            _ => panic!("harness: representation {r}"),
        }
    }
}

fn other(o: &str) -> &'static str {
    if o == "x" {
        "y"
    } else {
        "x"
    }
}

/// Misuse!Takes
fn takes(c: &Value, input: bool, root: bool) -> Option<(String, &'static str)> {
    let lvl = c["lvl"].as_str().unwrap().to_string();
    let o = if c["o"] == "x" { "x" } else { "y" };
    let inplace = c["form"] == "inplace";
    let opt = |yes: bool, k: &'static str| if yes { Some(k) } else { None };
    let k = match c["op"].as_str().unwrap() {
        "Transpose" => Some(if input { o } else { other(o) }),
        "AllGather" => Some(if input { o } else { "glb" }),
        "Gather" => if input { Some(o) } else { opt(root && inplace, "glb") },
        "Scatter" => if input { opt(root, "glb") } else { opt(inplace, o) },
        "CheckShape" => opt(input, o),
        "Lookup" => opt(input, "glb"),
        op => {
            let (r, k) = match (op, input) {
                ("Forward", true) | ("Backward", false) => ("phys", "y"),
                ("FromOrtho", true) | ("ToOrtho", false) | ("Gradient", false) => ("orth", "x"),
                _ => ("spec", "x"),
            };
            return if input || inplace { Some((r.to_string(), k)) } else { None };
        }
    };
    k.map(|k| (lvl, k))
}

/// Misuse!Given; None: the slot takes nothing
fn given(c: &Value, input: bool, root: bool, a: &All) -> (Option<Sh>, Option<Sh>) {
    let Some((rep, k)) = takes(c, input, root) else { return (None, None) };
    let h = a.rep(&rep);
    let w = h.kind(k);
    let g = match c[if input { "in" } else { "out" }].as_str().unwrap() {
        "ok" => w,
        "r+" => [w[0] + 1, w[1]],
        "r-" => [w[0].saturating_sub(1), w[1]],
        "c+" => [w[0], w[1] + 1],
        "c-" => [w[0], w[1].saturating_sub(1)],
        "rc" => [w[0] + 1, w[1].saturating_sub(1)],
        "T" => [w[1], w[0]],
        "oth" => h.kind(if k == "glb" { "y" } else { other(k) }),
        "glb" => h.glb,
        "pen" => h.x,
        "flat" => [1, w[0] * w[1]],
        "x2" => [2 * w[0], w[1]],
        "rep" => a.rep(match rep.as_str() {
            "phys" => "orth",
            "orth" => "spec",
            "spec" => "phys",
            r => r,
        })
        .kind(k),
        s => panic!("harness: spoilt {s}"),
    };
    (Some(w), Some(g))
}

/// the array handed over: the right elements if it fits
fn array<T: Elem>(g: Option<Sh>, w: Option<Sh>, st: Sh, n: Sh) -> Array2<T> {
    match (g, w) {
        (Some(g), Some(w)) if g == w => cut(&global(1, n), st, w),
        (Some(g), _) => Array2::from_elem((g[0], g[1]), T::enc(3)),
        _ => Array2::from_elem((0, 0), T::enc(3)),
    }
}

/// a collective call; Ok(true): it returned what it should
fn collective<T: Elem>(c: &Value, root: bool, t: &dyn Calls<T>, h: &Held, s: &[(Option<Sh>, Option<Sh>); 2]) -> bool {
    let x = c["o"] == "x";
    let alloc = c["form"] == "alloc";
    let (at, ot) = if x { (h.xst, h.yst) } else { (h.yst, h.xst) };
    let out = |n: Sh| Array2::from_elem((n[0], n[1]), T::dirty());
    let same = |a: &Array2<T>, st: Sh, sz: Sh| {
        let e = cut(&global::<T>(1, h.glb), st, sz);
        a.shape() == e.shape() && a.iter().zip(e.iter()).all(|(p, q)| p.dec() == q.dec())
    };
    let me = if x { h.x } else { h.y };
    match c["op"].as_str().unwrap() {
        "Transpose" => {
            let mut b = out(s[1].1.unwrap());
            t.transpose(x, &array(s[0].1, s[0].0, at, h.glb), &mut b);
            same(&b, ot, if x { h.y } else { h.x })
        }
        "AllGather" => {
            let mut b = out(s[1].1.unwrap());
            t.all_gather(x, &array(s[0].1, s[0].0, at, h.glb), &mut b);
            same(&b, [0, 0], h.glb)
        }
        "Gather" => {
            let a = array(s[0].1, s[0].0, at, h.glb);
            if root {
                let b = t.gather_root(x, alloc, &a, out(s[1].1.unwrap_or(h.glb)));
                same(&b, [0, 0], h.glb)
            } else {
                t.gather(x, &a);
                true
            }
        }
        "Scatter" => {
            let o = out(s[1].1.unwrap_or(me));
            let b = if root {
                t.scatter_root(x, alloc, &array(s[0].1, s[0].0, [0, 0], h.glb), o)
            } else {
                t.scatter(x, alloc, o)
            };
            same(&b, at, me)
        }
        o => panic!("harness: {o}"),
    }
}

fn spatial<S>(c: &Value, k: usize, sp: &S, s: &[(Option<Sh>, Option<Sh>); 2])
where
    S: BaseSpaceMpi<f64, 2>,
    S::Physical: Elem,
    S::Spectral: Elem,
{
    fn arr<T: Elem>(g: Option<Sh>) -> Array2<T> {
        let g = g.unwrap_or([0, 0]);
        Array2::from_elem((g[0], g[1]), T::enc(2))
    }
    let (i, o) = (s[0].1, s[1].1);
    let inplace = o.is_some();
    match (c["op"].as_str().unwrap(), inplace) {
        ("Forward", false) => drop(sp.forward_mpi(&arr(i))),
        ("Forward", true) => sp.forward_inplace_mpi(&arr(i), &mut arr(o)),
        ("Backward", false) => drop(sp.backward_mpi(&arr(i))),
        ("Backward", true) => sp.backward_inplace_mpi(&arr(i), &mut arr(o)),
        ("ToOrtho", false) => drop(sp.to_ortho_mpi(&arr(i))),
        ("ToOrtho", true) => sp.to_ortho_inplace_mpi(&arr(i), &mut arr(o)),
        ("FromOrtho", false) => drop(sp.from_ortho_mpi(&arr(i))),
        ("FromOrtho", true) => sp.from_ortho_inplace_mpi(&arr(i), &mut arr(o)),
        ("Gradient", _) => drop(sp.gradient_mpi(&arr(i), [k % 3, (k / 3) % 3], if k % 2 == 0 { None } else { Some([2., 3.]) })),
        (o, _) => panic!("harness: {o}"),
    }
}

struct Run<'u> {
    u: &'u Universe,
    rank: usize,
    cur: String,
}

fn die(run: &Run, msg: &str) -> ! {
    let _ = std::fs::write(format!("{}.panic", run.cur), msg);
    std::process::exit(if msg.contains("harness") { 2 } else { 3 });
}

fn program<S>(run: &Run, no: usize, p: &Value, sp: &S, f: &mut impl Write)
where
    S: BaseSpaceMpi<f64, 2>,
    S::Physical: Elem,
    S::Spectral: Elem,
{
    let world = run.u.world();
    let np = world.size() as usize;
    let held = |n: Sh| Held::of(sp.get_decomp_from_global_shape(&n));
    let dec = Decomp2d::new(run.u, sp.shape_physical());
    let mut handler = DecompHandler::new(run.u);
    handler.insert(Decomp2d::new(run.u, dec.n_global));
    let a = All {
        dec: Held::of(&dec),
        phys: held(sp.shape_physical()),
        spec: held(sp.shape_spectral()),
        orth: held(sp.shape_spectral_ortho()),
    };
    let sh = json!({"dec": a.dec.json(), "phys": a.phys.json(), "spec": a.spec.json(), "orth": a.orth.json()});
    for (k, c) in p["calls"].as_array().unwrap().iter().enumerate() {
        let what = format!("program {no} {} call {k} {c}, process {} of {np}", p["sp"], run.rank);
        let _ = std::fs::write(&run.cur, json!({"at": what}).to_string());
        let op = c["op"].as_str().unwrap();
        let misfit = c["role"] == "misfit";
        let root = if op == "Gather" || op == "Scatter" { (run.rank == 0) != misfit } else { true };
        let s = [given(c, true, root, &a), given(c, false, root, &a)];
        let fits = s.iter().all(|(w, g)| w == g) && !misfit;
        let local = op == "CheckShape" || op == "Lookup";
        if !local {
            // only calls that go the same way on every process: others would wait for ever
            let mut all = vec![0u8; np];
            world.all_gather_into(&u8::from(fits), &mut all[..]);
            if all.iter().any(|v| *v != all[0]) {
                continue;
            }
        }
        let res = catch_unwind(AssertUnwindSafe(|| match op {
            "CheckShape" => {
                let d = if c["o"] == "x" { &dec.x_pencil } else { &dec.y_pencil };
                let g = s[0].1.unwrap();
                d.check_shape(&Array2::<f64>::zeros((g[0], g[1])));
                true
            }
            "Lookup" => handler.get_decomp_from_global_shape(&s[0].1.unwrap()).n_global == s[0].1.unwrap(),
            "Transpose" | "Gather" | "AllGather" | "Scatter" => match c["lvl"].as_str().unwrap() {
                "dec" => collective::<f64>(c, root, &dec, &a.dec, &s),
                "phys" => collective::<S::Physical>(c, root, &PhysOf(sp), &a.phys, &s),
                _ => collective::<S::Spectral>(c, root, &SpecOf(sp), &a.spec, &s),
            },
            _ => {
                spatial(c, k + no, sp, &s);
                true
            }
        }));
        let (got, good, msg) = match &res {
            Ok(g) => ("returned", *g, String::new()),
            Err(e) => ("refused", true, panic_msg(e)),
        };
        if msg.contains("harness") {
            die(run, &msg);
        }
        let sj = |x: Option<Sh>| x.map_or(json!([]), |v| json!(v));
        let rec = json!({"call": c, "prog": no, "k": k, "rank": run.rank, "np": np, "sp": p["sp"], "sh": sh,
            "gin": sj(s[0].1), "gout": sj(s[1].1), "got": got, "good": good});
        writeln!(f, "{rec}").unwrap();
        f.flush().unwrap();
        if (got == "returned") != fits {
            die(run, &format!("{what}: {got}, handed {:?} and {:?} where {:?} and {:?} fit. {msg}",
                s[0].1, s[1].1, s[0].0, s[1].0));
        }
    }
}

pub fn run(lines: &[Value], out: &str) {
    let u = initialize().expect("harness: MPI");
    let rank = u.world().rank() as usize;
    let run = Run { u: &u, rank, cur: format!("{out}/rank{rank}.current") };
    let mut f = std::io::BufWriter::new(std::fs::File::create(format!("{out}/rank{rank}.jsonl")).unwrap());
    for (no, p) in lines.iter().enumerate() {
        let _ = std::fs::write(&run.cur, json!({"at": format!("program {no}, set up")}).to_string());
        let k = [0, 2].map(|i| Kind::parse(p["sp"][i].as_str().unwrap()));
        let n = [1, 3].map(|i: usize| p["sp"][i].as_str().unwrap().parse::<usize>().unwrap());
        let res = catch_unwind(AssertUnwindSafe(|| match (k[0], k[1]) {
            (C2, R2) => program(&run, no, p, &Space2Mpi::new(&c2c::<f64>(n[0]), &r2c::<f64>(n[1]), &u), &mut f),
            (C2, C2) => program(&run, no, p, &Space2Mpi::new(&c2c::<f64>(n[0]), &c2c::<f64>(n[1]), &u), &mut f),
            (R2, b) => program(&run, no, p, &Space2Mpi::new(&r2c::<f64>(n[0]), &r2r::<f64>(b, n[1]), &u), &mut f),
            (a, b) => program(&run, no, p, &Space2Mpi::new(&r2r::<f64>(a, n[0]), &r2r::<f64>(b, n[1]), &u), &mut f),
        }));
        if let Err(e) = res {
            die(&run, &format!("program {no} set up {}: {}", p["sp"], panic_msg(&e)));
        }
    }
}
