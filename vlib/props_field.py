"""Checks C01..C07: the algebra of bases and spaces (Field, Operators, Sizes)."""
import itertools, random
from .common import *
from .field import *

R2R = ["CH", "DI", "NE", "DN", "BA", "BB"]
FOUR = ["R2", "C2"]
ALL = R2R + FOUR


def legal(ks):
    t = ["r" if k in CHEB else ("R" if k == "R2" else "C") for k in ks]
    return "".join(t) in {"r", "R", "C", "rr", "Rr", "CR", "CC", "rrr", "Rrr", "CRr", "CCR", "CCC"}


def combos(dim):
    return [c for c in itertools.product(ALL, repeat=dim) if legal(c)]


def ops_for(ax, ops):
    """restrict to what is defined at these sizes"""
    ok = all(n >= MINSIZE[k] for k, n in ax)
    return [o for o in ops if ok or o not in ("FromOrtho", "Forward")]


def minspec(k):
    return max(MINTO[k], {"R2": 1, "C2": 1}.get(k, 2))


def sizes_1d(rng, k, top, extra):
    lo = minspec(k)
    s = set(range(lo, top + 1)) | set(x for x in extra if x >= lo)
    return sorted(s)


def gen_1d(ctx, ops, dsf=lambda k, n: [[0]], top=26, extra=(31, 32, 33, 48, 63, 64, 65),
           kinds=ALL, data=("rnd",)):
    rng = random.Random(ctx.seed * 1009 + 7)
    extra = list(extra) + [rng.randrange(34, 100) for _ in range(2)]
    out = []
    for k in kinds:
        for n in sizes_1d(rng, k, top, extra):
            ax = [(k, n)]
            for m in data:
                if m != "rnd" and n > 16 and not (m in ("decay", "grow") and n % 5 == 0):
                    continue
                out.append(cfg(ax, ops_for(ax, ops), dsf(k, n), m))
    return out


def gen_dense(ctx, ops, lo, hi, dsf=lambda k, n: [[0]], kinds=ALL, data="rnd"):
    """every base of every size in a range, once"""
    return [cfg([(k, n)], ops_for([(k, n)], ops), dsf(k, n), data)
            for n in range(lo, hi + 1) for k in kinds if n >= minspec(k)]


def small_n(rng, k, span=5, lo=None):
    base = MINSIZE[k] if lo is None else lo
    return max(base, minspec(k)) + rng.randrange(span)


def gen_id(ctx, ops, dsf, kinds=ALL, per=4):
    """a base along one axis of an array with 2..4 axes"""
    rng = random.Random(ctx.seed * 1013 + 3)
    out = []
    for k in kinds:
        places = [(d, a) for d in (2, 3, 4) for a in range(d)]
        if per < len(places):
            must = [(2, 0), (2, 1), (3, 1)]
            rest = [p for p in places if p not in must]
            places = must + rng.sample(rest, max(0, per - len(must)))
        for dim, a in places + [(rng.choice([5, 6]), rng.randrange(5))]:
            n = small_n(rng, k)
            ax = [("ID", rng.choice([1, 2, 3, 4, 5]) if dim < 4 else rng.choice([1, 2, 3]) if dim == 4 else rng.choice([1, 2]))
                  for _ in range(dim)]
            ax[a] = (k, n)
            d = [0] * dim
            ds = []
            for x in dsf(k, n):
                e = list(d)
                e[a] = x[0]
                ds.append(e)
            out.append(cfg(ax, ops_for(ax, ops), ds, rng.choice(["rnd", "rnd", "sparse"])))
    return out


def gen_nd(ctx, ops, dvec, dim, limit=None, span=4, salt=0, data=("rnd", "rnd", "sparse", "decay", "grow")):
    """spaces with 2 or 3 axes: every legal combination of kinds (or a sample of them)"""
    rng = random.Random(ctx.seed * 1019 + dim + salt)
    cs = combos(dim)
    if limit and limit < len(cs):
        # keep all kinds of spaces and every base on every axis
        groups = {}
        for c in cs:
            groups.setdefault("".join("r" if k in CHEB else k for k in c), []).append(c)
        pick = []
        for g in groups.values():
            rng.shuffle(g)
            pick += g[:max(2, limit * len(g) // len(cs))]
        cs = pick
    out = []
    for c in cs:
        while True:
            ns = [small_n(rng, k, span) for k in c]
            # different extents on the axes, so that no mix-up goes unnoticed
            if len(set(ns)) == len(ns) or rng.random() < 0.02:
                break
        ax = list(zip(c, ns))
        out.append(cfg(ax, ops_for(ax, ops), dvec(rng, dim), rng.choice(data)))
        if rng.random() < 0.25:
            # and the same extent on all axes
            ax = [(k, max(ns)) for k in c]
            out.append(cfg(ax, ops_for(ax, ops), dvec(rng, dim), "rnd"))
    return out


def with_scales(trans, seed, every=1):
    """space gradients are replayed with and without a scale"""
    rng = random.Random(seed)
    out = []
    for t in trans:
        out.append(t)
        if t["op"] == "Gradient" and all(a[0] != "ID" for a in t["ax"]) and t["i"] % every == 0:
            u = dict(t)
            u["scale"] = [rng.choice([0.5, 2.0, 3.0, 0.25, 7.5, -2.0, -0.5]) for _ in t["ax"]]
            out.append(u)
    for i, t in enumerate(out):
        t["i"] = i
    return out


def with_powers(trans, seed, every=4):
    """the same transitions with all data multiplied by a power of two"""
    rng = random.Random(seed * 7 + 1)
    out = list(trans)
    for t in trans:
        if rng.randrange(every) == 0:
            out.append(dict(t, pow=rng.choice([-60, -44, -30, -30, -20, 20, 36])))
    for i, t in enumerate(out):
        t["i"] = i
    return out


def large(ctx, count=2, dims=(2, 3), ops=ALLOPS, reps=1, extra=()):
    """large arrays: multiples of exact lines along a further axis, and outer products of exact
    lines (operations act along one axis each, so these results are as exact as the lines)"""
    rng = random.Random(ctx.seed * 2029 + 17)
    cf = []
    for k in ALL:
        lo = MINSIZE[k]
        for n in (lo + rng.randrange(4, 9), rng.randrange(40, 70), rng.choice([128, 129, 130, 131]), *extra):
            cf.append(cfg([(k, n)], ops, [[1], [2]], "rnd"))
    tr = run_field(ctx, cf, "large", inv_every=97)
    out = []
    by = {}
    for t in tr:
        n = t["ax"][0][1]
        t = dict(t)
        for part in ("pre", "post"):
            t[part] = [[float(x) for x in col] for col in t[part]]
        by.setdefault((t["op"], t["ax"][0][0]), []).append(t)
        few = [(40, 1), (1, 70), (9, 11)] if n > 100 else [(300, 1), (1, 310), (17, 19), (35, 4)]
        for b, a in rng.sample(few, min(len(few), count if t["op"] != "Gradient" else 1)):
            out.append(dict(t, tile=[b, a]))
        if n < 40:
            out.append(dict(t, tile=rng.choice([[1031, 1], [1, 1500], [60, 50]])))
            # no line at all
            out.append(dict(t, tile=rng.choice([[0, 1], [1, 0], [3, 0], [0, 2]])))
    for dim in dims:
        cs = [c for c in combos(dim)]
        for op in ops:
            # a grid of a complex and a real axis is real: no products there
            ok = [c for c in cs if not (op in ("Backward", "Forward") and "C2" in c and "R2" in c)]
            for c in rng.sample(ok, min(len(ok), 6 * count if dim == 2 else 2 * count)) * (reps if dim == 2 else 1):
                pick = []
                for a, k in enumerate(c):
                    ts = [t for t in by.get((op, k), []) if dim == 2 or t["ax"][0][1] < (70 if a == 0 else 40)]
                    pick.append(rng.choice(ts))
                if len({(t["prep"], t["postp"]) for t in pick}) == 1:
                    out.append({"outer": pick})
    renumber(out)
    ctx.extra["large_arrays"] = len(out)
    return out


def renumber(trans):
    for i, t in enumerate(trans):
        t["i"] = i
    return trans


def replay(ctx, trans, modes, binary, name="cases"):
    f = ctx.path(name + ".jsonl")
    if name == "large":
        with open(f, "w") as fh:
            for t in trans:
                fh.write(json.dumps(t) + "\n")
    else:
        write_cases(f, trans)
    for m in modes:
        r = harness_sharded(ctx, binary, m, f, name=f"{name}-{m}")
        if r is None:
            continue
        ctx.traces += r["cases"]
        ctx.report(r, f)
        if not ctx.samples:
            ctx.samples = r["samples"]
        ctx.extra.setdefault("replayed", {}).update({f"{m}:{k}": v for k, v in r["counts"].items()})
        ctx.extra["comparisons"] = ctx.extra.get("comparisons", 0) + r["checks"]
        top = sorted(r["err"].items(), key=lambda kv: -float(kv[1][0]))[:4]
        ctx.log(f"{m}: {r['cases']} transitions, {r['checks']} comparisons, {r['nfail']} failures; "
                "largest errors " + ", ".join(f"{k} {v[0]}" for k, v in top))


TR = ["Backward", "Forward"]
CV = ["FromOrtho", "ToOrtho"]


def C01(ctx):
    prebuild(ctx, "conf")
    ops = TR + ["FromOrtho"]
    big = [("CH", 129), ("CH", 257), ("CH", 500), ("R2", 128), ("R2", 255), ("R2", 600),
           ("C2", 127), ("C2", 256), ("C2", 601), ("DI", 128), ("NE", 129), ("DN", 130),
           ("BA", 96), ("BB", 97), ("CH", 1000), ("CH", 1025), ("R2", 1024), ("R2", 2047),
           ("C2", 1000), ("C2", 1025), ("CH", 3001), ("R2", 4096), ("C2", 3000), ("DI", 513), ("NE", 600), ("DN", 301), ("BB", 200)]
    if ctx.thorough:
        big += [("CH", 2049), ("CH", 4099), ("R2", 4096), ("R2", 6561), ("C2", 4099), ("DI", 2050), ("R2", 1024), ("C2", 1023), ("DI", 300), ("NE", 257), ("DN", 258),
                ("BA", 160), ("BB", 161)]
    top = 60 if ctx.thorough else 26
    cf = gen_1d(ctx, ops, top=top, data=("rnd", "unit", "ones", "zero", "decay", "grow"))
    cf += [cfg([a], ops) for a in big]
    cf += gen_id(ctx, ops, lambda k, n: [[0]], per=9 if ctx.thorough else 5)
    z = lambda rng, dim: [[0] * dim]
    cf += gen_nd(ctx, ops, z, 2)
    cf += gen_nd(ctx, ops, z, 3, limit=None if ctx.thorough else 36, span=2)
    tr = run_field(ctx, cf, inv_every=4 if not ctx.thorough else 3)
    tr += run_field(ctx, gen_dense(ctx, TR, top + 1, 300 if ctx.thorough else 130), "dense", inv_every=97)
    tr = renumber([t for t in tr if t["op"] in TR])
    b = cargo(ctx, "conf")
    replay(ctx, with_powers(tr, ctx.seed), ["field", "field32"], b)
    replay(ctx, large(ctx, 4 if ctx.thorough else 2, (2,), TR), ["field"], b, "large")
    laws(ctx, b, "evaluate", ALL)


def C03(ctx):
    prebuild(ctx, "conf")
    ops = CV + TR
    comp = ["DI", "NE", "DN", "BA", "BB"]
    cf = gen_1d(ctx, ops, kinds=comp, top=48 if ctx.thorough else 30, extra=(40, 64, 65),
                data=("rnd", "unit", "sparse"))
    cf += [c for c in gen_nd(ctx, ops, lambda r, d: [[0] * d], 2)
           if any(a["k"] in COMP for a in c["ax"])]
    cf += [c for c in gen_nd(ctx, ops, lambda r, d: [[0] * d], 3,
                             limit=200 if ctx.thorough else 40, span=2)
           if any(a["k"] in COMP for a in c["ax"])]
    tr = run_field(ctx, cf, inv_every=2)
    tr += run_field(ctx, gen_dense(ctx, ops, 31, 256 if ctx.thorough else 120, kinds=comp), "dense",
                    inv_every=97)
    high = [("DI", 600), ("NE", 601), ("NE", 1030), ("DN", 402), ("DN", 601), ("BA", 300), ("BB", 303)]
    if ctx.thorough:
        high += [("DI", 2050), ("NE", 2050), ("DN", 1030), ("BA", 1030), ("BB", 1030)]
    tr += run_field(ctx, [cfg([a], ops, data=m) for a in high for m in ("rnd", "sparse")], "high", inv_every=97)
    renumber(tr)
    b = cargo(ctx, "conf")
    replay(ctx, tr, ["bc"], b)
    laws(ctx, b, "bc", comp)


def laws(ctx, b, law, kinds):
    """laws of the specification that need no values from it, on sizes TLC does not reach"""
    rng = random.Random(ctx.seed * 331 + 5)
    f = ctx.path("laws.jsonl")
    sizes = set(range(300)) | {511, 512, 513, 1023, 1024, 1025, 1030, 2047, 2048, 2051, 4099, 4200}
    sizes |= {rng.randrange(300, 5000) for _ in range(400 if ctx.thorough else 25)}
    if ctx.thorough:
        sizes |= set(range(1100)) | {8200, 16400}
    with open(f, "w") as fh:
        for n in sorted(sizes):
            for k in kinds:
                if n >= {"CH": 3, "DI": 6, "NE": 6, "DN": 6, "BA": 10, "BB": 10}.get(k, 4):
                    fh.write(json.dumps({"law": law, "k": k, "n": n, "salt": ctx.seed * 1000 + n}) + "\n")
    r = harness_sharded(ctx, b, "laws", f, name="laws")
    if r:
        ctx.traces += r["cases"]
        ctx.report(r, f)
        ctx.extra.setdefault("replayed", {}).update(r["counts"])
        ctx.extra["comparisons"] = ctx.extra.get("comparisons", 0) + r["checks"]
        ctx.log(f"laws: {r['cases']} bases of up to {max(sizes)} points, {r['nfail']} failures; largest errors {r['err']}")


def C04(ctx):
    prebuild(ctx, "conf")
    cf = gen_1d(ctx, CV, top=70 if ctx.thorough else 34, extra=(64, 65, 96, 100),
                data=("rnd", "unit", "sparse", "decay", "grow"))
    for k, n in [("CH", 1030), ("DI", 1030), ("NE", 601), ("DN", 402), ("BA", 260), ("BB", 203),
                 ("R2", 1030), ("C2", 1030), ("DI", 257), ("NE", 130), ("DN", 131), ("BA", 129)]:
        cf += [cfg([(k, n)], CV, data=m) for m in ("rnd", "sparse")]
    cf += gen_id(ctx, CV, lambda k, n: [[0]], per=9 if ctx.thorough else 5)
    cf += gen_nd(ctx, CV, lambda r, d: [[0] * d], 2)
    cf += gen_nd(ctx, CV, lambda r, d: [[0] * d], 3, limit=None if ctx.thorough else 40, span=2)
    tr = run_field(ctx, cf, inv_every=2)
    tr += run_field(ctx, gen_dense(ctx, CV, 35, 256 if ctx.thorough else 125), "dense", inv_every=97)
    renumber(tr)
    b = cargo(ctx, "conf")
    replay(ctx, with_powers(tr, ctx.seed), ["conv4", "field", "field32"], b)
    replay(ctx, large(ctx, 4 if ctx.thorough else 2, (2,), CV), ["field"], b, "large")
    laws(ctx, b, "round", ALL)
    operators(ctx, b, ["stencil"], ALL)


def C05(ctx):
    prebuild(ctx, "conf")
    def dsf(k, n):
        d = {0, 1, 2, 3, 4}
        if n <= 16:
            d |= {5, 6, 7, n - 1, n, n + 2}
        return [[x] for x in sorted(x for x in d if x >= 0)]
    cf = gen_1d(ctx, ["Gradient"], dsf, top=50 if ctx.thorough else 26,
                extra=(32, 33, 40, 64, 65), data=("rnd", "unit", "grow"))
    big = [("CH", 128), ("CH", 301), ("R2", 128), ("C2", 129), ("C2", 300), ("DI", 129)]
    cf2 = [cfg([a], ["Gradient"], [[1], [2]]) for a in big]
    # high orders on many points, where powers leave the integers
    cf2 += [cfg([a], ["Gradient"], [[d] for d in ds]) for a, ds in [
        (("R2", 140), (5, 6, 8)), (("R2", 601), (4, 5, 7)), (("R2", 2048), (3, 4, 6)),
        (("C2", 140), (5, 6, 8)), (("C2", 601), (4, 5, 7)), (("C2", 2047), (3, 4, 6)),
        (("CH", 90), (5, 6)), (("CH", 600), (3, 4)), (("CH", 1100), (2, 3)),
        (("DI", 600), (2, 3)), (("NE", 200), (4,)), (("DN", 300), (3,)), (("BA", 200), (3,)),
        (("BB", 130), (4,))]]
    cf += gen_id(ctx, ["Gradient"], lambda k, n: [[0], [1], [2], [3]], per=9 if ctx.thorough else 5)

    def dv(rng, dim):
        vs = [[0] * dim, [1] * dim]
        for a in range(dim):
            e = [0] * dim
            e[a] = rng.choice([1, 2, 3, 4])
            vs.append(e)
        vs.append([rng.randrange(4) for _ in range(dim)])
        return vs
    cf2 += gen_nd(ctx, ["Gradient"], dv, 2)
    cf2 += gen_nd(ctx, ["Gradient"], dv, 3, limit=None if ctx.thorough else 30, span=2)
    tr = run_field(ctx, cf, "one", inv_every=4)
    dn = gen_dense(ctx, ["Gradient"], 27, 200 if ctx.thorough else 110,
                   lambda k, n: [[1 + n % 4], [1 + (n // 4) % 2]] if n % 8 else [[0], [3], [1]])
    tr += run_field(ctx, dn, "dense", inv_every=97)
    renumber(tr)
    tr2 = run_field(ctx, cf2, "many", inv_every=6)
    b = cargo(ctx, "conf")
    replay(ctx, with_powers(with_scales(tr, ctx.seed, 3), ctx.seed), ["field", "field32"], b, "one")
    replay(ctx, with_powers(with_scales(tr2, ctx.seed), ctx.seed), ["field", "field32"], b, "many")
    replay(ctx, large(ctx, 4 if ctx.thorough else 2, (2,), ["Gradient"]), ["field"], b, "large")
    laws(ctx, b, "derivative", ["CH", "DI"])


def C06(ctx):
    prebuild(ctx, "conf")
    prebuild(ctx, "conf", "release")
    def dsf(k, n):
        if k in CHEB:
            return [[d] for d in (1, 2, 3, 4) if n >= 2 * d]
        return [[d] for d in (1, 2, 3, 4, 5, 7) + ((8, 11, 12) if n <= 24 else ())]
    cf = gen_1d(ctx, ["Diffmat", "PInv"], dsf, top=44 if ctx.thorough else 24, extra=(32, 33, 40),
                data=("rnd",))
    cf = [c for c in cf if c["ds"]]
    tr = run_field(ctx, cf, inv_every=3)
    b = cargo(ctx, "conf")
    replay(ctx, tr, ["field"], b)
    operators(ctx, b, ["diffmat", "pinv"], ALL)
    # release arithmetic (no overflow checks)
    b2 = cargo(ctx, "conf", "release")
    operators(ctx, b2, ["diffmat", "pinv"], ALL, tag="release")


_ops_cache = {}


def operators(ctx, binary, whats, kinds, tag="dev"):
    """Operators.tla: matrices column by column"""
    if tag == "dev":
        rng = random.Random(ctx.seed * 31 + 5)
        cf = []
        for k in kinds:
            ns = list(range(minspec(k), 21)) + [24, 31, 32, 33, 64, 65, 128]
            big = [rng.randrange(256, 400), 600] if k not in ("BA", "BB") else [200]
            if ctx.thorough:
                big += [1100] if k in ("CH", "R2", "C2", "DI") else [400]
                ns += [100]
            ns += range(21, 161 if ctx.thorough else 81)
            for n in sorted(set(ns)) + big:
                L = n // 2 + 1 if k == "R2" else n
                if L <= 11:
                    js = list(range(L))
                else:
                    js = sorted(set([0, 1, 2, 3, 4, 5, L // 2, L - 5, L - 4, L - 3, L - 2, L - 1]
                                    + [rng.randrange(L) for _ in range(2)]))
                    if n > 32 and n % 32 > 1:
                        js = sorted({L // 2, L - 6, L - 4, L - 3, L - 2, L - 1, rng.randrange(L)})
                    if n >= 128:
                        js = [1, 2, L // 2, L - 9, L - 5, L - 4, L - 3, L - 2, L - 1]
                if k in CHEB:
                    # the composite bases report the matrices of the orthogonal one
                    ds = [1, 2, 3, 4] if k in ("CH", "DI") or n < 16 else [rng.randrange(1, 5), 2]
                else:
                    # numerators and denominators up to (n/2)^d have to be determined
                    ds = list(range(1, 18)) + [20, 31, 33] if n <= 20 else [1, 2, 3, 4, 6, 7, 8 + n % 3]
                    ds = [d for d in ds if (n // 2) ** d < 2 ** 50]
                cf.append({"id": len(cf) + 1, "k": k, "n": n, "js": js, "ds": sorted(set(ds)),
                           "what": whats})
            if "diffmat" in whats:
                # entries grow like n^3, n^5, n^7 and (k n)^d: beyond 32 and 53 bits
                many = k in ("CH", "R2", "C2") or ctx.thorough
                for n in ([1700] if many else []) + [rng.randrange(1720, 2300)] + \
                        ([3300] if ctx.thorough else []):
                    L = n // 2 + 1 if k == "R2" else n
                    cf.append({"id": len(cf) + 1, "k": k, "n": n, "js": [L // 2, L - 2, L - 1],
                               "ds": [2] if k not in ("CH", "R2", "C2") else [1, 2, 3, 4],
                               "what": ["diffmat"]})
        f = ctx.path("ops.cfgs.json")
        json.dump(cf, open(f, "w"))
        K = 8 if "pinv" in whats else 4
        sub = ("SPECIFICATION Spec\nCONSTANT P = {}\n{}CHECK_DEADLOCK FALSE\n")
        invs = "INVARIANTS DiffmatIsD PinvInverts StencilBC\n"
        small = [c for c in cf if c["n"] <= 40 and c["id"] % 3 == ctx.seed % 3]
        pool = Pool(9)
        for j in range(K):
            out = ctx.path(f"ops.{j}.csv")
            if os.path.exists(out):
                os.remove(out)
            pool.add(lambda j=j, out=out: Tlc(
                ctx, "Operators", sub.format(PRIMES[j], ""), f"ops-{j}", {"CFGS": f, "OUT": out}),
                (lambda t: account(ctx, t)) if j == 0 else None)
        g = ctx.path("ops.inv.json")
        json.dump(small, open(g, "w"))
        tis = []
        pool.add(lambda: Tlc(ctx, "Operators", sub.format(PRIMES[K], invs), "ops-inv",
                             {"CFGS": g, "OUT": ctx.path("ops.inv.csv")}), tis.append)
        pool.go()
        ti = tis[0]
        ctx.extra["invariant_run_states"] = ctx.extra.get("invariant_run_states", 0) + ti.distinct
        tabs = [read_csv(ctx.path(f"ops.{j}.csv")) for j in range(K)]
        for j in range(K):
            os.remove(ctx.path(f"ops.{j}.csv"))
        _ops_cache["rows"] = recombine_ops(tabs, K)
        ctx.log(f"TLC Operators: {len(cf)} bases, {len(_ops_cache['rows'])} columns; "
                f"invariants on {ti.distinct} states")
    groups = {}
    for x in _ops_cache["rows"]:
        if x["what"] in whats:
            groups.setdefault((x["k"], x["n"], x["d"], x["what"]), []).append(
                {"j": x["j"], "col": x["col"]})
    f = ctx.path(f"ops-{tag}.jsonl")
    with open(f, "w") as fh:
        for (k, n, d, w), cols in groups.items():
            # an inverse that only some columns determine is still reported for n >= 2d only
            if w != "stencil" and k in CHEB and n < 2 * d and w == "pinv":
                continue
            fh.write(json.dumps({"k": k, "n": n, "d": d, "what": w, "cols": cols}) + "\n")
    r = harness_sharded(ctx, binary, "matrices", f, name=f"matrices-{tag}")
    if r:
        ctx.traces += r["cases"]
        ctx.report(r, f)
        ctx.extra.setdefault("replayed", {}).update({f"matrices-{tag}:{k}": v for k, v in r["counts"].items()})
        ctx.extra["comparisons"] = ctx.extra.get("comparisons", 0) + r["checks"]
        ctx.log(f"matrices ({tag}): {r['cases']} matrices, {r['checks']} columns, {r['nfail']} failures")


def ratrec(a, m):
    """rational number num/den = a mod m with small numerator and denominator"""
    a %= m
    bound = int((m // 2) ** 0.5)
    r0, r1, s0, s1 = m, a, 0, 1
    while r1 > bound:
        q = r0 // r1
        r0, r1 = r1, r0 - q * r1
        s0, s1 = s1, s0 - q * s1
    if s1 == 0:
        raise ToolError("rational reconstruction failed")
    if s1 < 0:
        r1, s1 = -r1, -s1
    return r1, s1


def recombine_ops(tabs, K):
    """emission order is the same in all runs; entries that vanish modulo one prime only would
    show up as different row sets"""
    out = []
    index = []
    for t in tabs:
        index.append({(x["cfg"], x["what"], x["d"], x["j"]): x for x in t})
    M = prod(PRIMES[:K])
    M1 = prod(PRIMES[:K - 1])
    for key, x0 in index[0].items():
        xs = [ix[key] for ix in index]
        rows = set(e[0] for x in xs for e in x["col"])
        col = []
        for row in sorted(rows):
            es = []
            for x in xs:
                m = [e for e in x["col"] if e[0] == row]
                es.append(m[0] if m else [row, 0, 0, None])
            den = [e[3] for e in es if e[3] is not None]
            val = []
            for w in (1, 2):
                res = [e[w] for e in es]
                if x0["what"] == "pinv":
                    full = crt_combine([[r] for r in res], PRIMES[:K])[0]
                    nu, de = ratrec(full, M)
                    part = crt_combine([[r] for r in res[:-1]], PRIMES[:K - 1])[0]
                    if (nu, de) != ratrec(part, M1):
                        raise ToolError(f"rational entry not determined {key} {row}")
                    val.append(nu / de)
                else:
                    v = crt_combine([[r] for r in res], PRIMES[:K])[0]
                    if v != crt_combine([[r] for r in res[:-1]], PRIMES[:K - 1])[0]:
                        raise ToolError(f"entry not determined {key} {row}")
                    if any(e[3] is None for e in es):
                        # zero modulo that prime: denominators are recombined from the others
                        dd = [(e[3], p) for e, p in zip(es, PRIMES) if e[3] is not None]
                        d = crt_combine([[a] for a, _ in dd], [p for _, p in dd])[0]
                    else:
                        d = crt_combine([[e[3]] for e in es], PRIMES[:K])[0]
                    val.append(v / d)
            if val != [0.0, 0.0]:
                col.append([row, val[0], val[1]])
        out.append({"k": x0["k"], "n": x0["n"], "what": x0["what"], "d": x0["d"], "j": x0["j"],
                    "col": col})
    return out


def C02(ctx):
    prebuild(ctx, "conf")
    nmax = 2000 if ctx.thorough else 1100
    sparse = "1999, 2048, 4097, 10007, 65537" + (", 131072" if ctx.thorough else "")
    out = ctx.path("sizes.csv")
    text = (f"SPECIFICATION Spec\nCONSTANTS P = 0  NMax = {nmax}  Sparse = {{{sparse}}}  SpaceSizes = {{0, 3}}\n"
            "INVARIANTS SizesOK GridOK\nCHECK_DEADLOCK FALSE\n")
    t = Tlc(ctx, "Sizes", text, "sizes", {"OUT": out}, workers=8, heap="6g").wait().must_pass()
    account(ctx, t)
    rows = read_csv(out)
    ctx.log(f"TLC Sizes: {t.distinct} states, {len(rows)} reports")
    f = ctx.path("sizes.jsonl")
    with open(f, "w") as fh:
        for x in rows:
            fh.write(json.dumps(x) + "\n")
    os.remove(out)
    b = cargo(ctx, "conf")
    r = harness_sharded(ctx, b, "sizes", f, block=4000)
    if r:
        ctx.traces += r["cases"]
        ctx.report(r, f)
        ctx.samples = r["samples"]
        ctx.extra["replayed"] = r["counts"]
        ctx.extra["comparisons"] = r["checks"]
        ctx.extra["exhaustive_sizes_up_to"] = nmax


def C07(ctx):
    prebuild(ctx, "conf")
    def dv(rng, dim):
        return [[1] + [0] * (dim - 1), [0] * (dim - 1) + [2], [rng.randrange(1, 4) for _ in range(dim)]]
    ops = ALLOPS
    cf = gen_nd(ctx, ops, dv, 2, span=4)
    cf += gen_nd(ctx, ops, dv, 2, span=9, salt=77)
    cf += gen_nd(ctx, ops, dv, 3, limit=None if ctx.thorough else 60, span=2)
    cf += gen_id(ctx, ops, lambda k, n: [[1], [2]], per=9 if ctx.thorough else 5)
    tr = run_field(ctx, cf, inv_every=5)
    b = cargo(ctx, "conf")
    replay(ctx, with_powers(with_scales(tr, ctx.seed, 2), ctx.seed), ["field", "field32"], b)
    replay(ctx, [t for t in tr if any(x[0] == "ID" for x in t["ax"])], ["lines"], b, "spoilt")
    replay(ctx, large(ctx, 8 if ctx.thorough else 4, reps=2), ["field"], b, "large")
    # per-axis queries on every legal combination
    rng = random.Random(ctx.seed + 11)
    f = ctx.path("axes.jsonl")
    with open(f, "w") as fh:
        for dim in (1, 2, 3):
            for c in combos(dim):
                ns = [max(5, MINSIZE[k]) + i + 3 * rng.randrange(3) for i, k in enumerate(c)]
                fh.write(json.dumps({"ax": list(zip(c, ns))}) + "\n")
    r = harness(ctx, b, "axes", f)
    if r:
        ctx.traces += r["cases"]
        ctx.report(r, f)
        ctx.extra.setdefault("replayed", {}).update(r["counts"])
        ctx.extra["comparisons"] = ctx.extra.get("comparisons", 0) + r["checks"]
