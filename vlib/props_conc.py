"""Checks C08 (parallel lanes), C11 (scalar types)."""
import random
from .common import *
from .field import *
from .props_field import large, gen_1d, gen_id, gen_nd, with_scales, with_powers, combos, ALL, R2R

PD = """SPECIFICATION Spec
CONSTANTS Workers = {{{w}}}  N = {n}  LenIn = 2  LenOut = {lo}  Shared = {sh}  NoCall = NoCall
INVARIANTS FinalOK InputKept
PROPERTIES Terminates Refines
CHECK_DEADLOCK FALSE
"""


def par_design(ctx):
    """the design itself, all interleavings; and the check that sharing a line is noticed"""
    runs = [(1, 3, 2, True), (3, 3, 2, False), (2, 4, 2, False)]
    if ctx.thorough:
        runs += [(3, 4, 2, False), (4, 4, 1, False), (2, 5, 3, False)]
    out = []
    for w, n, lo, sh in runs:
        ws = ", ".join(str(i) for i in range(w))
        t = Tlc(ctx, "ParDesign", PD.format(w=ws, n=n, lo=lo, sh=str(sh).upper()),
                f"pardesign-{w}-{n}", workers=4, heap="6g" if ctx.thorough else "3g",
                extra=["-noGenerateSpecTE"]).wait().must_pass()
        account(ctx, t)
        out.append({"workers": w, "lanes": n, "shared_scratch": sh, "states": t.distinct})
    # one shared scratch line with two workers must be rejected by the same specification
    t = Tlc(ctx, "ParDesign", PD.format(w="0, 1", n=2, lo=2, sh="TRUE"), "pardesign-neg",
            extra=["-noGenerateSpecTE"]).wait()
    if "is violated" not in t.text:
        raise ToolError("the specification does not notice a shared scratch line:\n" + t.text[-800:])
    ctx.extra["design_models"] = out
    ctx.log("TLC ParDesign:", out)


OPS5 = ["ToOrtho", "FromOrtho", "Backward", "Forward", "Gradient"]


def lane_traces(ctx, binary):
    rng = random.Random(ctx.seed * 271 + 9)
    cs = []

    def add(op, form, shape, axis, threads, nout, twice=False, dyn=False):
        cs.append({"id": len(cs) + 1, "op": op, "form": form, "shape": shape, "axis": axis,
                   "threads": threads, "nout": nout, "twice": twice, "dyn": dyn})

    threads = [1, 2, 3, 8]
    for op in OPS5:
        # every operation and form, all placements of the axis
        for dim in (1, 2, 3, 4):
            for axis in range(dim):
                for form in ("alloc", "inplace", "par", "inplace_par"):
                    shape = [rng.choice([1, 2, 3, 4, 5]) for _ in range(dim)]
                    shape[axis] = rng.randrange(1, 8)
                    add(op, form, shape, axis, rng.choice(threads) if "par" in form else 1,
                        rng.randrange(1, 8), twice=rng.random() < 0.15, dyn=rng.random() < 0.1)
        # the number of lanes
        some = sorted(set(rng.sample(range(1, 34), 6) + [rng.randrange(34, 200)]))
        for n in some:
            axis = rng.randrange(2)
            shape = [n, n]
            shape[axis] = rng.randrange(2, 5)
            add(op, rng.choice(["par", "inplace_par"]), shape, axis, rng.choice([2, 3, 5, 8]),
                rng.randrange(2, 6), twice=rng.random() < 0.2)
    edges = [63, 64, 65, 127, 128, 129, 255, 256, 257, 511, 513, 1000, 1024, 1025]
    if ctx.thorough:
        edges += [2047, 2048, 2049, 4096, 4097, 5001]
    for n in edges:
        for op in (OPS5 if ctx.thorough else rng.sample(OPS5, 2)):
            axis = rng.randrange(2)
            shape = [n, n]
            shape[axis] = 2
            add(op, "inplace_par" if n % 2 else "par", shape, axis, rng.choice([2, 4, 8]), 3)
    if ctx.thorough:
        for rep in range(60):
            for op in OPS5:
                dim = rng.choice([2, 3])
                axis = rng.randrange(dim)
                shape = [rng.randrange(1, 9) for _ in range(dim)]
                add(op, rng.choice(["par", "inplace_par"]), shape, axis, rng.choice([2, 3, 5, 8]),
                    rng.randrange(1, 6), twice=rng.random() < 0.4, dyn=rng.random() < 0.2)
    f = ctx.path("lanes.jsonl")
    with open(f, "w") as fh:
        for c in cs:
            fh.write(json.dumps(c) + "\n")
    tf = ctx.path("lane-traces.json")
    r = harness(ctx, binary, "lanes", f, args=[tf])
    if r is None:
        return
    ctx.report(r, f)
    ctx.samples = r["samples"] or ctx.samples
    ctx.extra["traced_calls"] = r["counts"]
    if r["counts"].get("overlapped calls", 0) == 0:
        ctx.log("note: no two lanes of a call were observed to overlap in time")
    trs = json.load(open(tf))
    validate(ctx, trs, tf)


def validate(ctx, trs, source):
    """ParTrace.tla accepts a trace or stops in the state before the offending event"""
    parts = [[], [], [], []]
    for i, t in enumerate(sorted(trs, key=lambda t: -len(t["ev"]))):
        parts[i % 4].append(t)
    runs = []
    for k, p in enumerate(parts):
        g = ctx.path(f"lane-traces.{k}.json")
        json.dump(p, open(g, "w"))
        runs.append((p, Tlc(ctx, "ParTrace", "SPECIFICATION TraceSpec\nCONSTANT NoCall = NoCall\n",
                            f"partrace-{k}", {"TRACES": g}, heap="4g",
                            extra=["-noGenerateSpecTE"])))
    for p, t in runs:
        t.wait()
        account(ctx, t)
        if t.ok:
            ctx.traces += len(p)
            continue
        m = re.findall(r"/\\ ti = (\d+)", t.text)
        q = re.findall(r"/\\ pos = (\d+)", t.text)
        if "Deadlock reached" not in t.text or not m:
            raise ToolError("ParTrace:\n" + t.text[-3000:])
        tr = p[int(m[-1]) - 1]
        pos = int(q[-1])
        ctx.violate(f"{tr['what']}: event {pos} is not allowed by ParLanes.tla",
                    {"event": tr["ev"][pos - 1] if pos <= len(tr["ev"]) else "end of trace",
                     "before": tr["ev"][max(0, pos - 6):pos - 1], "source": source})
    ctx.log(f"TLC ParTrace: {len(trs)} traces, {sum(len(t['ev']) for t in trs)} events")


def relative(ctx, trans, mode, binary, name="cases"):
    f = ctx.path(name + ".jsonl")
    if name == "large":
        with open(f, "w") as fh:
            for t in trans:
                fh.write(json.dumps(t) + "\n")
    else:
        write_cases(f, trans)
    r = harness_sharded(ctx, binary, mode, f, name=f"{name}-{mode}")
    if r is None:
        return
    ctx.traces += r["cases"]
    ctx.report(r, f)
    ctx.extra.setdefault("compared", {}).update(r["counts"])
    ctx.extra["comparisons"] = ctx.extra.get("comparisons", 0) + r["checks"]
    if not ctx.samples:
        ctx.samples = r["samples"] or [{"transition": {k: t[k] for k in ("op", "ax", "d")}}
                                       for t in trans[:5]]
    ctx.log(f"{mode}: {r['cases']} transitions, {r['counts']}, {r['nfail']} failures; largest "
            "differences " + str(r["err"]))


def small_dv(rng, dim):
    e = [0] * dim
    e[rng.randrange(dim)] = rng.choice([1, 2, 3])
    return [e, [rng.randrange(3) for _ in range(dim)]]


def C08(ctx):
    prebuild(ctx, "conf")
    par_design(ctx)
    cf = gen_1d(ctx, ALLOPS, lambda k, n: [[1]], top=8, extra=(17, 33))
    orders = lambda k, n: [[0], [2], [3], [4], [5], [6]]
    cf += gen_1d(ctx, ["Gradient"], orders, top=11, extra=(24,))
    cf += gen_id(ctx, ALLOPS, lambda k, n: [[1], [2]], per=9)
    cf += gen_nd(ctx, ALLOPS, small_dv, 2, span=6)
    cf += gen_nd(ctx, ALLOPS, small_dv, 2, limit=12, span=24, salt=5)
    cf += gen_nd(ctx, ALLOPS, small_dv, 3, limit=None if ctx.thorough else 24, span=2)
    rng = random.Random(ctx.seed + 41)
    # many lanes
    for k in ALL:
        for lanes in rng.sample([65, 128, 257, 300, 511], 3 if ctx.thorough else 1):
            ax = [(k, MINSIZE[k] + 3), ("ID", lanes)]
            d = [1, 0]
            if rng.random() < 0.5:
                ax, d = ax[::-1], d[::-1]
            cf.append(cfg(ax, ALLOPS, [d]))
    tr = run_field(ctx, cf, inv_every=9)
    b = cargo(ctx, "conf")
    lane_traces(ctx, b)
    relative(ctx, with_powers(with_scales(tr, ctx.seed, 2), ctx.seed), "par", b)
    relative(ctx, large(ctx, 8, reps=6 if ctx.thorough else 3, extra=[rng.choice([65, 67, 71]), rng.choice([64, 66, 72])]),
             "par", b, "large")


def C11(ctx):
    prebuild(ctx, "conf")
    ops = ALLOPS
    dsf = lambda k, n: [[d] for d in (1, 2, 3, 4)]
    cf = gen_1d(ctx, ops, dsf, top=40 if ctx.thorough else 22, extra=(32, 33, 48, 64),
                data=("rnd", "unit"))
    cf += gen_id(ctx, ops, lambda k, n: [[1], [2]], per=9 if ctx.thorough else 5)
    cf += gen_nd(ctx, ops, small_dv, 2, span=5)
    cf += gen_nd(ctx, ops, small_dv, 3, limit=None if ctx.thorough else 30, span=2)
    tr = run_field(ctx, cf, inv_every=9)
    b = cargo(ctx, "conf")
    relative(ctx, with_powers(with_scales(tr, ctx.seed, 2), ctx.seed, 3), "types", b)
    relative(ctx, large(ctx, 6 if ctx.thorough else 3), "types", b, "large")
    f = ctx.path("mats.jsonl")
    rng = random.Random(ctx.seed + 97)
    with open(f, "w") as fh:
        for k in ALL:
            for n in sorted({MINSIZE[k] + 3, 11, 12, 17, 32, 33, rng.randrange(34, 64)}):
                ds = [1, 2, 3, 4] if n >= 8 else [1, 2]
                fh.write(json.dumps({"k": k, "n": n, "ds": ds}) + "\n")
    r = harness(ctx, b, "types_mat", f)
    if r:
        ctx.report(r, f)
        ctx.extra["compared"].update(r["counts"])


# ---- C09 -----------------------------------------------------------------------------
HIST = """SPECIFICATION {spec}
CONSTANTS Objects = {{1, 2}}  Threads = {{{thr}}}  PerRep = {per}  NData = {nd}  NGrad = {ng}
  Depth = {depth}  Emitting = {em}  Ops = {{{ops}}}  Queries = {{{qs}}}  NOrd = {no}
INVARIANTS TypeOK Canonical NoRace
{props}CHECK_DEADLOCK FALSE
"""


QUERIES = ["coords", "stencil", "steninv", "lap", "lapinv", "diff", "diffinv", "sizes"]


def quoted(xs):
    return ", ".join(f'"{x}"' for x in xs)


def history_model(ctx):
    d = 5 if ctx.thorough else 4
    t = Tlc(ctx, "History", HIST.format(spec="Spec", thr="1, 2", per=1, nd=1, ng=1, depth=d,
                                        em="FALSE", ops=quoted(OPS5), qs='"diff"', no=1,
                                        props="PROPERTIES Frame Pure Silent\n"),
            "history", workers=8, heap="8g", extra=["-noGenerateSpecTE"])
    return t


def histories(ctx, ops, num, depth, tag):
    out = ctx.path(f"hist-{tag}.csv")
    t = Tlc(ctx, "History", HIST.format(spec="SpecSim", thr="1, 2, 3", per=2, nd=5, ng=3,
                                        depth=depth, em="TRUE", ops=quoted(ops), qs=quoted(QUERIES), no=4,
                                        props=""),
            f"hist-{tag}", {"OUT": out},
            extra=["-noGenerateSpecTE", "-simulate", f"num={num}", "-depth", str(depth + 20),
                   "-seed", str(ctx.seed * 17 + len(tag))])
    return t, out


def hist_configs(ctx):
    rng = random.Random(ctx.seed * 53 + 1)
    cs = []

    def add(ax, space, cplx):
        dim = len(ax)
        real = [i for i, a in enumerate(ax) if a[0] != "ID"]
        grads = []
        for j in range(3):
            d = [0] * dim
            for i in real:
                d[i] = rng.randrange(0, 4)
            if j == 0:
                d = [1 if i in real else 0 for i in range(dim)]
            sc = [rng.choice([0.5, 2.0, 3.0]) for _ in range(dim)] if space and j == 2 else None
            grads.append({"d": d, "scale": sc})
        cs.append({"id": len(cs) + 1, "ax": [list(a) for a in ax], "space": space, "cplx": cplx,
                   "grads": grads})

    # the same sizes recur for different kinds, on purpose
    for k in ALL:
        n = 12
        add([(k, n)], False, False)
        add([(k, rng.choice([11, 13, 16, 17]))], False, False)
        if k in R2R:
            add([(k, n)], False, True)
        add([(k, n)], True, False)
        a = [(k, n), ("ID", rng.choice([3, 5, 12]))]
        add(a, False, False)
        add(a[::-1], False, k in R2R and rng.random() < 0.5)
    for k in rng.sample(ALL, 4):
        a = [("ID", 2), (k, 11), ("ID", 3)]
        rng.shuffle(a)
        add(a, False, False)
    cl = {}
    for c in combos(2) + combos(3):
        cl.setdefault("".join("r" if k in R2R else k for k in c), []).append(c)
    for g, members in sorted(cl.items()):
        dim = len(members[0])
        for c in rng.sample(members, min(len(members), 4 if dim == 2 else 2)):
            ns = [max(MINSIZE[k], 5) + rng.randrange(4 if dim == 2 else 2) for k in c]
            if rng.random() < 0.3:
                ns = [max(ns)] * dim
            add(list(zip(c, ns)), True, False)
            if g.count("r") == dim and rng.random() < 0.5:
                add(list(zip(c, ns)), True, True)
    return cs


def C09(ctx):
    prebuild(ctx, "conf")
    tm = history_model(ctx)
    cs = hist_configs(ctx)
    per = 40 if ctx.thorough else 10
    depth = 70 if ctx.thorough else 44
    real = [c for c in cs if not c["cplx"]]
    cplx = [c for c in cs if c["cplx"]]
    t1, o1 = histories(ctx, OPS5, per * len(real), depth, "all")
    t2, o2 = histories(ctx, OPS5[:2] + OPS5[4:], per * len(cplx), depth, "conv")
    cf = gen_1d(ctx, ALLOPS, lambda k, n: [[1], [2]], top=14, extra=(32, 33),
                data=("rnd", "zero", "sparse"))
    cf += gen_id(ctx, ALLOPS, lambda k, n: [[1]], per=6)
    cf += gen_nd(ctx, ALLOPS, small_dv, 2, span=4, data=("rnd", "sparse", "zero"))
    cf += gen_nd(ctx, ALLOPS, small_dv, 3, limit=24, span=2, data=("rnd", "sparse", "zero"))
    tr = run_field(ctx, cf, inv_every=12)
    account(ctx, tm.wait().must_pass())
    lines = []
    for t, o, cl in ((t1, o1, real), (t2, o2, cplx)):
        t.wait().must_pass()
        hs = read_csv(o)
        ctx.states += len(hs) * depth
        for i, h in enumerate(hs):
            lines.append({"cfg": cl[i % len(cl)], "terms": h["terms"], "steps": h["steps"]})
    ctx.log(f"TLC History: {tm.distinct} states, {len(lines)} histories of {depth} steps")
    random.Random(ctx.seed).shuffle(lines)
    b = cargo(ctx, "conf")
    relative(ctx, with_scales(tr, ctx.seed, 2), "forms", b)
    relative(ctx, large(ctx, 6 if ctx.thorough else 3), "forms", b, "large")
    # values by fresh objects, one process per configuration
    refdir = ctx.path("refs")
    os.makedirs(refdir)
    by = {}
    for x in lines:
        by.setdefault(x["cfg"]["id"], []).append(x)
    procs = []
    e = env()
    e["RAYON_NUM_THREADS"] = "2"
    for i, xs in by.items():
        f = os.path.join(refdir, f"{i}.jsonl")
        with open(f, "w") as fh:
            for x in xs:
                fh.write(json.dumps({"cfg": x["cfg"], "terms": x["terms"]}) + "\n")
        while len([p for p in procs if p[1].poll() is None]) >= 8:
            time.sleep(0.005)
        procs.append((i, subprocess.Popen(
            [b, "history-ref", f, f + ".rep", os.path.join(refdir, f"{i}.ref")], env=e,
            stdout=subprocess.DEVNULL, stderr=subprocess.PIPE)))
    for i, p in procs:
        p.wait(300)
        if p.returncode != 0:
            cur = read_current(os.path.join(refdir, f"{i}.jsonl.rep"))
            ctx.violate(f"{cur}: the process died (rc={p.returncode})",
                        {"stderr": p.stderr.read().decode()[-800:]})
            lines = [x for x in lines if x["cfg"]["id"] != i]
    f = ctx.path("histories.jsonl")
    with open(f, "w") as fh:
        for x in lines:
            fh.write(json.dumps(x) + "\n")
    r = harness(ctx, b, "history", f, args=[refdir])
    if r:
        ctx.traces += r["cases"]
        ctx.report(r, f)
        ctx.samples = r["samples"] or ctx.samples
        ctx.extra["history_calls"] = r["counts"]
        ctx.log(f"history: {r['cases']} histories, {r['checks']} comparisons, {r['nfail']} failures, "
                + str(r["err"]))


# ---- C10 -----------------------------------------------------------------------------
ARGS = """SPECIFICATION Spec
CONSTANTS P = 0  Levels = {{"{lv}"}}  Deep = {deep}
INVARIANTS Sound Decided SliceExact
CHECK_DEADLOCK FALSE
"""


def C10(ctx):
    prebuild(ctx, "conf")
    runs = []
    for lv in ("slice", "array", "space"):
        out = ctx.path(f"args-{lv}.csv")
        runs.append((lv, out, Tlc(ctx, "Args", ARGS.format(lv=lv, deep=str(ctx.thorough).upper()),
                                  f"args-{lv}", {"OUT": out}, workers=3, heap="4g",
                                  extra=["-noGenerateSpecTE"])))
    files = []
    for lv, out, t in runs:
        account(ctx, t.wait().must_pass())
        calls = read_csv(out)
        n = {v: sum(1 for c in calls if c["v"] == v) for v in ("accept", "reject", "either")}
        ctx.extra[f"calls_{lv}"] = n
        ctx.log(f"TLC Args ({lv}): {n}")
        if min(n["accept"], n["reject"]) == 0:
            raise ToolError("no calls")
        f = ctx.path(f"args-{lv}.jsonl")
        with open(f, "w") as fh:
            for c in sorted(calls, key=lambda c: json.dumps(c, sort_keys=True)):
                fh.write(json.dumps(c) + "\n")
        files.append((lv, f))
    for profile in ("dev", "release"):
        b = cargo(ctx, "conf", profile)
        for lv, f in files:
            r = harness(ctx, b, "args", f, name=f"args-{lv}-{profile}")
            if r:
                ctx.traces += r["cases"]
                ctx.report(r, f)
                ctx.samples = (ctx.samples + r["samples"])[:6]
                ctx.log(f"args {lv} ({profile}): {r['cases']} calls, {r['counts']}, "
                        f"{r['nfail']} failures")


# ---- C17 -----------------------------------------------------------------------------
HELP = """SPECIFICATION {spec}
CONSTANTS Deep = {deep}  Mode = "{mode}"
INVARIANTS Exactly Symmetric NoTie OneAxis
{props}CHECK_DEADLOCK FALSE
"""


def C17(ctx):
    prebuild(ctx, "conf")
    runs = []
    for mode in ("eq", "axis"):
        for spec, props in (("SpecEmit", ""), ("Spec", "PROPERTIES Decides\n")):
            deep = str(ctx.thorough and spec == "SpecEmit").upper()
            out = ctx.path(f"helpers-{mode}.csv")
            runs.append((mode, spec, out, Tlc(
                ctx, "Helpers", HELP.format(spec=spec, deep=deep, mode=mode, props=props),
                f"helpers-{mode}-{spec}", {"OUT": out}, workers=2, heap="4g",
                extra=["-noGenerateSpecTE"])))
    b = cargo(ctx, "conf")
    for mode, spec, out, t in runs:
        account(ctx, t.wait().must_pass())
        if spec == "Spec":
            continue
        cases = read_csv(out)
        f = ctx.path(f"helpers-{mode}.jsonl")
        with open(f, "w") as fh:
            for c in sorted(cases, key=lambda c: json.dumps(c, sort_keys=True)):
                fh.write(json.dumps(c) + "\n")
        r = harness(ctx, b, "helpers", f, name=f"helpers-{mode}")
        if r:
            ctx.traces += r["cases"]
            ctx.report(r, f)
            ctx.samples = (ctx.samples + r["samples"])[:6]
            ctx.extra[f"helpers_{mode}"] = r["counts"]
            ctx.log(f"helpers {mode}: {r['cases']} cases, {r['checks']} calls, {r['counts']}, "
                    f"{r['nfail']} failures")
