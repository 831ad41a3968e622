"""Runs Field.tla on a list of configurations and returns its transitions with exact integers."""
import json, os, random
from .common import *

COMP = {"DI", "NE", "DN", "BA", "BB"}
CHEB = COMP | {"CH"}
MINSIZE = {"CH": 2, "DI": 5, "NE": 5, "DN": 6, "BA": 10, "BB": 10, "R2": 1, "C2": 1, "ID": 1}
MINTO = {"CH": 2, "DI": 4, "NE": 4, "DN": 4, "BA": 8, "BB": 8, "R2": 1, "C2": 1, "ID": 1}
ALLOPS = ["ToOrtho", "FromOrtho", "Backward", "Forward", "Gradient"]


def cfg(ax, ops, ds=None, data="rnd"):
    ax = [{"k": k, "n": n} for k, n in ax]
    return {"ax": ax, "ops": list(ops), "ds": ds or [[0] * len(ax)], "data": data}


def field_cfg_text(P, invariants):
    inv = ("INVARIANTS TypeOK BCHold Projects AxisOrder DerivLaw ClosedForm RealField Identity\n"
           if invariants else "")
    return f"SPECIFICATION Spec\nCONSTANT P = {P}\n{inv}CHECK_DEADLOCK FALSE\n"


EXPO = {"CH": 0, "DI": 0, "NE": 2, "DN": 2, "BA": 2, "BB": 4}


def bound_bits(c):
    """log2 bound of the integers a configuration can produce"""
    import math
    b = 29.0 if c["data"] in ("decay", "grow") else 3.0
    for i, a in enumerate(c["ax"]):
        n = a["n"]
        dmax = max([d[i] for d in c["ds"]] + [0])
        if a["k"] in CHEB:
            dmax = min(dmax, n)
            b += math.log2(max(n, 2)) * (2 * dmax + EXPO[a["k"]]) + 4
        elif a["k"] in ("R2", "C2"):
            b += math.log2(max(n / 2, 1)) * dmax + 1
    return b


def run_field(ctx, cfgs, name="field", inv_every=3):
    """modular runs in parallel, runs that check the invariants, recombination.  Configurations
    are grouped by the number of primes their integers need (the last one is redundant)."""
    for i, c in enumerate(cfgs):
        c["id"] = i + 1
    groups = {}
    for c in cfgs:
        need = int(bound_bits(c) / 15.4) + 2
        need = next(x for x in (3, 4, 6, 8, 11, 15, 19) if x >= need)
        groups.setdefault(need, []).append(c)
    pool = Pool(8)
    inv = [c for i, c in enumerate(cfgs) if i % inv_every == ctx.seed % inv_every] or cfgs[:1]
    ti = []
    # two invariant jobs, so that none is much longer than the others
    for part in (0, 1):
        sub = inv[part::2]
        if not sub:
            continue
        g = ctx.path(f"{name}.inv{part}.json")
        json.dump(sub, open(g, "w"))
        pool.add(lambda g=g, part=part: Tlc(
            ctx, "Field", field_cfg_text(PRIMES[19], True), f"{name}-inv{part}",
            {"CFGS": g, "OUT": g + ".csv", "SEED": str(ctx.seed)}), ti.append)
    outs = {}
    for k, cs in sorted(groups.items(), reverse=True):
        f = ctx.path(f"{name}.{k}.cfgs.json")
        json.dump(cs, open(f, "w"))
        for j in range(k):
            out = ctx.path(f"{name}.{k}.{j}.csv")
            if os.path.exists(out):
                os.remove(out)
            outs[k, j] = out
            pool.add(lambda f=f, out=out, k=k, j=j: Tlc(
                ctx, "Field", field_cfg_text(PRIMES[j], False), f"{name}-{k}-{j}",
                {"CFGS": f, "OUT": out, "SEED": str(ctx.seed)}),
                (lambda t: account(ctx, t)) if j == 0 else None)
    pool.go()
    ninv = sum(t.distinct for t in ti)
    ctx.extra["invariant_run_states"] = ctx.extra.get("invariant_run_states", 0) + ninv
    trans = []
    for k, cs in sorted(groups.items()):
        trans += combine(ctx, [outs[k, j] for j in range(k)], cfgs)
    for i, t in enumerate(trans):
        t["i"] = i
    ctx.log(f"TLC {name}: {len(cfgs)} configurations, {len(trans)} transitions, groups "
            + ", ".join(f"{len(v)}x{k} primes" for k, v in sorted(groups.items()))
            + f"; invariants on {ninv} states")
    return trans


def combine(ctx, files, cfgs):
    k = len(files)
    tabs = []
    for f in files:
        tabs.append(read_csv(f))
        os.remove(f)
    n = len(tabs[0])
    if any(len(t) != n for t in tabs):
        raise ToolError("modular runs emitted different numbers of transitions")
    trans = []
    seen = set()
    full_m, part_m = Crt(PRIMES[:k]), Crt(PRIMES[:k - 1])
    for rows in zip(*tabs):
        r0 = rows[0]
        keys = {(r["cfg"], r["op"], json.dumps(r["d"]), len(r["pre"])) for r in rows}
        if len(keys) != 1:
            raise ToolError("modular runs emitted different transitions")
        tr = {"cfg": r0["cfg"], "op": r0["op"], "d": r0["d"], "prep": r0["prep"],
              "postp": r0["postp"],
              "ax": [[a["k"], a["n"]] for a in cfgs[r0["cfg"] - 1]["ax"]]}
        for part in ("pre", "post"):
            cols = []
            for w in (0, 1):
                res = [[g[w] for g in r[part]] for r in rows]
                full = full_m.list(res)
                # the last prime must be redundant: otherwise the values were not determined
                if max(map(abs, full), default=0) >= part_m.M // 2:
                    raise ToolError(f"integers of {tr['ax']} {tr['op']} exceed the modulus")
                cols.append(full)
            tr[part] = cols
        key = json.dumps([tr["cfg"], tr["op"], tr["d"], tr["pre"]])
        if key in seen:
            continue
        seen.add(key)
        trans.append(tr)
    return trans


def prod(xs):
    p = 1
    for x in xs:
        p *= x
    return p


def write_cases(path, trans):
    with open(path, "w") as f:
        for t in trans:
            o = dict(t)
            for part in ("pre", "post"):
                o[part] = [[float(x) for x in col] for col in t[part]]
            f.write(json.dumps(o) + "\n")
