"""Checks C12-C16: the distributed part, run under mpirun."""
import glob, random, signal
from .common import *

TYPES = ["f64", "f32", "i32", "c64", "c32", "u8", "i64"]
ALL8 = ["Fill", "Scatter", "Transpose", "Gather", "AllGather", "Bcast", "GatherSum", "AllGatherSum"]
SMALL = range(1, 12)
LIMIT = 150          # seconds; a batch takes a few


def quoted(xs):
    return ", ".join(f'"{x}"' for x in xs)


def nums(xs):
    return ", ".join(str(x) for x in xs)


DEC = """SPECIFICATION {spec}
CONSTANTS NProcs = {{{np}}}  Extents = {{{ext}}}  NDec = {nd}  Types = {{{ty}}}  Depth = {depth}
  Planning = {plan}  Ops = {{{ops}}}
{rest}"""


def decomp_model(ctx, ops, np="1, 2, 3", depth=2, ext="3, 4", name="decomp"):
    """every interleaving of short programs over every balanced partition"""
    return Tlc(ctx, "Decomp", DEC.format(
        spec="Spec", np=np, ext=ext, nd=1, ty='"f64"', depth=depth, plan="FALSE", ops=quoted(ops),
        rest="INVARIANTS Tiles Coherent Results Bounded\nPROPERTY Finishes\n"),
        name, workers=6, heap="6g", extra=["-noGenerateSpecTE"])


DES = """SPECIFICATION Spec
CONSTANTS NProcs = {{{np}}}  Extents = {{{ext}}}  Wrong = {wrong}  Operations <- {ops}
INVARIANTS Correct CountsMatch Dealt
PROPERTY Finishes
CHECK_DEADLOCK FALSE
"""


def design(ctx, ops):
    """packing, counts and displacements, messages in any order; wrong counts are noticed"""
    runs = [Tlc(ctx, "DecompDesign", DES.format(np="1, 2, 3", ext="3, 4, 5", wrong="FALSE", ops=ops),
                "design", workers=4, heap="4g", extra=["-noGenerateSpecTE"])]
    if ctx.thorough:
        runs.append(Tlc(ctx, "DecompDesign", DES.format(np="2", ext="2, 3, 4, 5, 6, 7", wrong="FALSE",
                                                        ops=ops),
                        "design2", workers=4, heap="4g", extra=["-noGenerateSpecTE"]))
    neg = Tlc(ctx, "DecompDesign", DES.format(np="2", ext="3, 4", wrong="TRUE", ops=ops),
              "design-neg", extra=["-noGenerateSpecTE"])
    return runs, neg


def design_done(ctx, runs, neg):
    for t in runs:
        account(ctx, t.wait().must_pass())
        ctx.log(f"TLC DecompDesign: {t.distinct} states")
    neg.wait()
    if "is violated" not in neg.text:
        raise ToolError("DecompDesign does not notice wrong counts:\n" + neg.text[-800:])


def plan(ctx, np, ops, num, depth, nd, ext, spec="SpecPlan", tag=""):
    out = ctx.path(f"plan-{spec}-{np}{tag}.csv")
    t = Tlc(ctx, "Decomp", DEC.format(
        spec=spec, np=np, ext=nums(ext), nd=nd, ty=quoted(TYPES), depth=depth, plan="TRUE",
        ops=quoted(ops), rest="CHECK_DEADLOCK FALSE\n"),
        f"plan-{spec}-{np}{tag}", {"OUT": out}, heap="2g",
        extra=["-noGenerateSpecTE", "-simulate", f"num={num}", "-depth", str(depth + nd + 12),
               "-seed", str(ctx.seed * 1009 + np * 31 + len(tag) + num)])
    return t, out


def mpienv(plain=False):
    e = env()
    e.update({"OMPI_MCA_btl_vader_single_copy_mechanism": "none", "OMPI_MCA_btl": "self,vader",
              "OMPI_MCA_mpi_yield_when_idle": "1", "OMPI_MCA_rmaps_base_oversubscribe": "1",
              "OMPI_ALLOW_RUN_AS_ROOT": "1", "OMPI_ALLOW_RUN_AS_ROOT_CONFIRM": "1",
              "RAYON_NUM_THREADS": "2"})
    e.pop("CONF_PLAIN", None)
    if plain:
        e["CONF_PLAIN"] = "1"
    return e


class Mpi:
    """one mpirun: a batch of programs with one process count"""

    def __init__(self, ctx, binary, mode, lines, np, tag, plain=False):
        self.ctx, self.np, self.lines, self.mode, self.tag = ctx, np, lines, mode, tag
        self.binary = binary
        self.out = ctx.path(f"mpi-{tag}-{np}" + ("-plain" if plain else ""))
        shutil.rmtree(self.out, ignore_errors=True)
        os.makedirs(self.out)
        self.file = os.path.join(self.out, "programs.jsonl")
        with open(self.file, "w") as f:
            for x in lines:
                f.write(json.dumps(x) + "\n")
        self.plain = plain
        self.log = open(os.path.join(self.out, "mpirun.txt"), "w")
        # the session directory must not be shared between concurrent runs
        e = mpienv(plain)
        e["TMPDIR"] = self.out
        if len(self.out) > 60:
            e["TMPDIR"] = "/tmp"
        self.t0 = time.time()
        self.p = subprocess.Popen(
            ["mpirun", "--allow-run-as-root", "--oversubscribe", "--bind-to", "none", "-np", str(np),
             binary, mode, self.file, self.out], env=e, stdout=self.log, stderr=subprocess.STDOUT,
            start_new_session=True)

    def read(self, what):
        out = []
        for f in sorted(glob.glob(os.path.join(self.out, "rank*." + what))):
            try:
                out.append(open(f).read().strip())
            except OSError:
                pass
        return out

    def wait(self):
        """'ok' | 'panic' | 'hang' | 'died'"""
        try:
            rc = self.p.wait(max(1, LIMIT - (time.time() - self.t0)))
        except subprocess.TimeoutExpired:
            os.killpg(self.p.pid, signal.SIGTERM)
            try:
                self.p.wait(10)
            except subprocess.TimeoutExpired:
                os.killpg(self.p.pid, signal.SIGKILL)
            self.state = "hang" if self.read("current") else "none"
        else:
            self.state = "ok" if rc == 0 else "panic" if self.read("current.panic") else "died"
        # whatever is left of the batch
        subprocess.run(["pkill", "-9", "-f", self.file], stdout=subprocess.DEVNULL,
                       stderr=subprocess.DEVNULL)
        self.log.close()
        text = open(os.path.join(self.out, "mpirun.txt")).read()
        if self.state == "none" or "harness" in text + " ".join(self.read("current.panic")) \
                or (self.state == "died" and not self.read("current")):
            raise ToolError(f"mpirun {self.tag} np={self.np} rc={self.p.returncode}:\n" + text[-1500:]
                            + " ".join(self.read("current.panic"))[-600:])
        return self.state

    def blame(self):
        what = {"panic": "a call panicked", "hang": f"does not return (stopped after {LIMIT}s)",
                "died": "a process died"}[self.state]
        msgs = self.read("current.panic") or [c[:200] for c in self.read("current")]
        self.ctx.violate(f"{self.mode}, {self.np} processes: {what}: {msgs[0][:300]}",
                         {"processes": msgs[:8], "programs": self.file,
                          "run": f"mpirun -np {self.np} {self.binary} {self.mode} {self.file} OUT"})


def run_batches(ctx, binary, mode, batches, tag, slots=16):
    """batches: np -> programs; returns finished runs.  Unusual layouts may be refused: if a call
    panics, the batch is repeated with plain ones, and only then it counts"""
    todo = [(np, ls) for np, ls in sorted(batches.items(), key=lambda x: -x[0]) if ls]
    live, done = [], []

    def settle(m):
        if m.wait() == "panic" and not m.plain and mode == "decomp":
            m = Mpi(ctx, binary, mode, m.lines, m.np, tag, plain=True)
            m.wait()
        if m.state == "ok":
            done.append(m)
        else:
            m.blame()

    while todo or live:
        while todo and (not live or sum(m.np for m in live) + todo[0][0] <= slots):
            np, ls = todo.pop(0)
            live.append(Mpi(ctx, binary, mode, ls, np, tag))
        for m in list(live):
            if m.p.poll() is not None or time.time() - m.t0 > LIMIT:
                live.remove(m)
                settle(m)
        time.sleep(0.02)
    return done


def records(m):
    """per program the records of all processes"""
    per = []
    for r in range(m.np):
        per.append(read_csv(os.path.join(m.out, f"rank{r}.jsonl")))
    if any(len(x) != len(m.lines) for x in per):
        raise ToolError(f"records missing in {m.out}")
    return [[per[r][i] for r in range(m.np)] for i in range(len(m.lines))]


def chunks(xs, k):
    out = [[] for _ in range(min(k, max(1, len(xs))))]
    for i, x in enumerate(xs):
        out[i % len(out)].append(x)
    return out


def rejected(t):
    """the record TLC stopped in front of, or None"""
    if t.ok:
        return None
    q = re.findall(r"ti \|?[-=>]+ (\d+)", t.text)
    if "Deadlock reached" not in t.text or not q:
        raise ToolError(f"TLC {t.name} ({t.module}) rc={t.rc}:\n" + t.text[-3000:])
    return int(q[-1])


def parts_ok(ctx, recs):
    """C12: the reported partitions against PartTrace.tla"""
    bad = [r for r in recs if "panic" in r]
    for r in bad[:5]:
        ctx.violate(f"partition of {r['n']} over {r['np']} processes: panicked", r)
    recs = [r for r in recs if "panic" not in r]
    runs = []
    for k, c in enumerate(chunks(recs, 8)):
        f = ctx.path(f"parts.{k}.json")
        json.dump(c, open(f, "w"))
        runs.append((c, f, Tlc(ctx, "PartTrace", DEC.format(
            spec="TraceSpec", np="1", ext="1", nd=1, ty='"f64"', depth=1, plan="FALSE", ops='"Fill"',
            rest="ALIAS Short\n"), f"parttrace-{k}", {"RECS": f}, heap="3g",
            extra=["-noGenerateSpecTE"])))
    for c, f, t in runs:
        bad = rejected(t.wait())
        if bad is not None:
            r = c[bad - 1]
            ctx.violate(f"partition of {r['n']} over {r['np']} processes: not a balanced partition all "
                        "processes agree on",
                        {"x": [(w["st"], w["sz"]) for w in r["x"]["own"]][:8],
                         "y": [(w["st"], w["sz"]) for w in r["y"]["own"]][:8], "file": f})
        else:
            account(ctx, t)
    ctx.traces += len(recs)
    ctx.log(f"TLC PartTrace: {len(recs)} partitions")


def distinct(xs):
    out = []
    for x in xs:
        if x not in out:
            out.append(x)
    return out


def part_records(m):
    out = []
    for pr, rs in zip(m.lines, records(m)):
        for d in range(len(pr["dec"])):
            ds = [r["dist"][d] for r in rs]
            out.append({"n": pr["dec"][d]["n"], "np": m.np,
                        "said": [{"np": w["x"]["own"]["np"], "nrank": w["x"]["own"]["nrank"],
                                  "glob": w["glob"]} for w in ds],
                        **{o: {"own": [w[o]["own"] for w in ds],
                               "tabs": distinct([w[o]["tab"] for w in ds])} for o in "xy"}})
    return out


def traces_of(ctx, m, look):
    out = []
    for pr, rs in zip(m.lines, records(m)):
        part = []
        for d in range(len(pr["dec"])):
            n = pr["dec"][d]["n"]
            s = {}
            for o, a in (("x", 1), ("y", 0)):
                own = [r["dist"][d][o]["own"] for r in rs]
                s[o] = [w["sz"][a] for w in own]
                at = 0
                ok = True
                for w in own:
                    ok = ok and w["st"][a] == at and w["st"][1 - a] == 0 and w["sz"][1 - a] == n[1 - a]
                    at += w["sz"][a]
                if not ok or at != n[a] or min(s[o]) < 1:
                    ctx.violate(f"{o}-pencils of {n} over {m.np} processes do not hold the array",
                                {"own": [(w["st"], w["sz"]) for w in own]})
                    part = None
                    break
            if part is None:
                break
            part.append(s)
        if part is None:
            continue
        out.append({"np": m.np, "dec": pr["dec"], "part": part, "steps": pr["steps"],
                    "log": [r["log"] for r in rs],
                    "look": [q for r in rs for q in r["look"]] if look else []})
    return out


def validate(ctx, trs, width=8):
    """DecompTrace.tla accepts every trace or stops in the state before the offending step"""
    trs = sorted(trs, key=lambda t: -t["np"] * len(t["steps"]))
    runs = []
    for k, c in enumerate(chunks(trs, width)):
        f = ctx.path(f"traces.{k}.json")
        json.dump(c, open(f, "w"))
        runs.append((c, f, Tlc(ctx, "DecompTrace", DEC.format(
            spec="TraceSpec", np="1", ext="1", nd=max(len(t["dec"]) for t in c), ty='"f64"', depth=1,
            plan="FALSE", ops='"Fill"', rest="ALIAS Short\n"), f"trace-{k}", {"TRACES": f}, heap="3g",
            extra=["-noGenerateSpecTE"])))
    for c, f, t in runs:
        bad = rejected(t.wait())
        if bad is None:
            account(ctx, t)
            continue
        last = t.text.split("State ")[-1]
        i = bad - 1
        done = re.search(r"pc \|?[-=>]+ (.*)", last)
        pcs = [int(x) for x in re.findall(r"(?:\d+ :> )?(\d+)(?: @@|[)>,\n]|$)", done.group(1))] if done else []
        if bad == 0 or (pcs and min(pcs[-c[i]["np"]:]) > len(c[i]["steps"])):
            tr = c[bad]
            wrong = [q for q in tr["look"] if q[0] != q[1]]
            ctx.violate(f"{tr['np']} processes, {tr['dec']}: a lookup answers for something else",
                        {"asked, got": wrong[:4], "file": f})
            continue
        tr = c[i]
        at = min(pcs[-tr["np"]:]) if pcs else 1
        ctx.violate(f"{tr['np']} processes, step {at} {short(tr['steps'][at - 1])} on {tr['dec']}: "
                    "the result is not what Decomp.tla allows",
                    {"results": [l[at - 1] for l in tr["log"]], "part": tr["part"], "steps": at,
                     "before": [short(s) for s in tr["steps"][:at]], "file": f})
    ctx.traces += len(trs)
    steps = sum(len(t["steps"]) * t["np"] for t in trs)
    ctx.log(f"TLC DecompTrace: {len(trs)} runs, {steps} calls")
    ctx.extra["calls_validated"] = steps


def short(s):
    return f"{s['op']} {s['o']} {s['form']} {s['li']}{s['lo']} dec {s['d']}"


def nprocs(ctx):
    return [1, 2, 3, 4, 5, 6, 7, 8, 11] if ctx.thorough else [1, 2, 3, 4, 5, 6, 8]


def programs(ctx, ops, depth, num, nd=2, space=True):
    """np -> programs, through the decomposition and through a space"""
    jobs = []
    for np in nprocs(ctx):
        big = [np, np + 1, 2 * np - 1, 2 * np + 1, 3 * np - 1] if np > 2 else []
        ext = sorted({e for e in SMALL if e >= np} | set(big))
        jobs.append((np, plan(ctx, np, ops, num, depth, nd, ext)))
        jobs.append((np, plan(ctx, np, ops, max(2, num // 6), depth, 1,
                              sorted({np, 16, 17, 23, 2 * np + 1, 32}), tag="b")))
        if ctx.thorough:
            jobs.append((np, plan(ctx, np, ops, 2, depth, 1, [61, 90], tag="c")))
        if space:
            e = sorted(set(range(max(2, np), 15)) | {np + 4, 2 * np + 1, 2 * np + 4, 2 * np + 6})
            jobs.append((np, plan(ctx, np, ops, num, depth, 2, e, spec="SpecPlanSpace")))
    out = {}
    for np, (t, f) in jobs:
        t.wait().must_pass()
        ls = read_csv(f)
        if not ls:
            raise ToolError("no programs")
        out.setdefault(np, []).extend(ls)
    for ls in out.values():
        random.Random(ctx.seed).shuffle(ls)
    return out


def big_programs(ctx, ops, depth, num):
    """arrays whose messages exceed what a send can buffer"""
    jobs = []
    for np in (2, 3, 4, 5, 8) if ctx.thorough else (2, 3, 4):
        ext = [150, 263, 301, 512] + ([1030] if ctx.thorough else [])
        jobs.append((np, plan(ctx, np, ops, num, depth, 1, ext, tag="big")))
        jobs.append((np, plan(ctx, np, ops, max(2, num // 2), depth, 2, [150, 263], spec="SpecPlanSpace",
                              tag="big")))
        if np < 4:
            # blocks of more than 65536 elements
            jobs.append((np, plan(ctx, np, ops, 12 if ctx.thorough else 3, 6, 1, [601, 1031][np - 2:] + [930],
                                  tag="huge")))
    out = {}
    for np, (t, f) in jobs:
        t.wait().must_pass()
        out.setdefault(np, []).extend(dict(x, big=True) for x in read_csv(f))
    return out


def validate_big(ctx, trs):
    runs = []
    for k, c in enumerate(chunks(trs, 4)):
        f = ctx.path(f"big.{k}.json")
        json.dump(c, open(f, "w"))
        runs.append((c, f, Tlc(ctx, "BigTrace", DEC.format(
            spec="TraceSpec", np="1", ext="1", nd=2, ty='"f64"', depth=1, plan="FALSE", ops='"Fill"',
            rest="ALIAS Short\n"), f"big-{k}", {"TRACES": f}, heap="2g", extra=["-noGenerateSpecTE"])))
    for c, f, t in runs:
        bad = rejected(t.wait())
        if bad is None:
            account(ctx, t)
            continue
        tr = c[bad]
        at = [int(x) for x in re.findall(r"first \|?[-=>]+ <<(\d+), (\d+)>>", t.text)[-1]]
        st = tr["steps"][at[0] - 1]
        ctx.violate(f"{tr['np']} processes, step {at[0]} {short(st)} on {tr['dec']}: process {at[1]} does "
                    "not hold what Decomp.tla says", {"result": tr["log"][at[1]][at[0] - 1], "file": f})
    ctx.traces += len(trs)
    ctx.log(f"TLC BigTrace: {len(trs)} runs on large arrays")


def sample(ctx, ps):
    ctx.samples = [{"np": l["np"], "dec": l["dec"], "steps": [short(s) for s in l["steps"]][:6]}
                   for ls in ps.values() for l in ls[:1]][:6]
    ctx.extra["programs"] = {str(np): len(ls) for np, ls in ps.items()}


def proof(ctx):
    """Balance.tla: the closed form of the partition, for every extent and process count"""
    d = ctx.path("proof")
    os.makedirs(d, exist_ok=True)
    shutil.copy(os.path.join(SPEC, "Balance.tla"), d)
    try:
        p = subprocess.run(["tlapm", "--cache-dir", os.path.join(d, "cache"), "Balance.tla"], cwd=d, env=env(),
                           stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True, timeout=300)
        said = [x for x in p.stdout.splitlines() if "obligations" in x][-1:]
    except (OSError, subprocess.TimeoutExpired) as e:
        said = [str(e)]
    ctx.extra["proof"] = "Balance.tla: " + " ".join(said)
    ctx.log("tlapm " + ctx.extra["proof"])
    if said and "All" not in said[0]:
        ctx.log("the proof did not go through here; the verdict rests on TLC alone")


def C12(ctx):
    prebuild(ctx, "confmpi")
    out = ctx.path("parts.csv")
    small, large = (14, 40) if ctx.thorough else (9, 24)
    procs = [13, 16, 31, 33, 47, 64, 97] + ([127, 128, 129, 200, 256] if ctx.thorough else [128])
    wide = [65537, 1000003, 16777219, 60000011]
    t = Tlc(ctx, "Partition", f"SPECIFICATION Spec\nCONSTANTS Small = {small}  Large = {large}\n"
            f"Procs = {{{nums(procs)}}}  Wide = {{{nums(wide)}}}\n"
            "INVARIANT Legal\nCHECK_DEADLOCK FALSE\n", "partition", {"OUT": out},
            extra=["-noGenerateSpecTE"])
    tm = decomp_model(ctx, ["Fill"], np="1, 2, 3, 4", depth=1, ext="4, 5, 7" )
    if ctx.thorough:
        proof(ctx)
    ps = programs(ctx, ["Fill"], 1, 40 if ctx.thorough else 12)
    account(ctx, t.wait().must_pass())
    account(ctx, tm.wait().must_pass())
    b = cargo(ctx, "confmpi")
    cfgs = read_csv(out)
    f = ctx.path("parts.jsonl")
    with open(f, "w") as fh:
        for c in cfgs:
            fh.write(json.dumps(c) + "\n")
    g = ctx.path("parts.out")
    p = subprocess.run([b, "dist", f, g], env=env(), stdout=subprocess.PIPE, stderr=subprocess.STDOUT,
                       text=True, timeout=300)
    if p.returncode != 0:
        raise ToolError(f"confmpi dist rc={p.returncode}\n" + p.stdout[-1500:])
    recs = read_csv(g)
    ctx.log(f"{len(recs)} partitions without MPI")
    for m in run_batches(ctx, b, "decomp", ps, "parts"):
        recs += part_records(m)
    sample(ctx, ps)
    ctx.samples = [{"n": r["n"], "np": r["np"], "x": [w.get("sz") for w in r.get("x", {"own": []})["own"]]}
                   for r in random.Random(ctx.seed).sample(recs, 4)]
    parts_ok(ctx, recs)


def exchange(ctx, ops, depth, num, model_ops, des, look=False, model_depth=2, big=None):
    prebuild(ctx, "confmpi")
    tm = decomp_model(ctx, model_ops, depth=model_depth + (1 if ctx.thorough else 0))
    runs, neg = design(ctx, des) if des else ([], None)
    ps = programs(ctx, ops, depth, num * (4 if ctx.thorough else 1))
    b = cargo(ctx, "confmpi")
    sample(ctx, ps)
    trs = []
    for m in run_batches(ctx, b, "decomp", ps, "prog"):
        trs += traces_of(ctx, m, look)
    bigs = []
    if big:
        for m in run_batches(ctx, b, "decomp", big(), "big"):
            bigs += traces_of(ctx, m, look)
    ctx.log(f"{sum(len(x) for x in ps.values())} programs run")
    account(ctx, tm.wait().must_pass())
    ctx.log(f"TLC Decomp: {tm.distinct} states")
    if des:
        design_done(ctx, runs, neg)
    validate(ctx, trs + ([] if not look else bigs))
    if bigs and not look:
        validate_big(ctx, bigs)


def C13(ctx):
    ops = ["Fill", "Transpose"]
    exchange(ctx, ops, 14, 40, ops, "Transpose",
             big=lambda: big_programs(ctx, ops, 12, 16 if ctx.thorough else 5))


def C14(ctx):
    ops = ["Fill", "Scatter", "Gather", "AllGather"]
    exchange(ctx, ops, 14, 36, ops, "RootOps",
             big=lambda: big_programs(ctx, ops, 12, 16 if ctx.thorough else 5))


def C16(ctx):
    ops = ["Bcast", "GatherSum", "AllGatherSum"]

    def shapes():
        """handlers holding many shapes that are easily taken for one another"""
        jobs = [(np, plan(ctx, np, ops, 60 if ctx.thorough else 25, 1, 16,
                          [e for e in (2, 3, 4, 5, 6, 7, 8, 10, 12, 15, 16, 33, 64, 65, 130) if e >= np],
                          spec="SpecPlanNear")) for np in ((1, 2, 3, 5, 8) if ctx.thorough else (1, 2, 3))]
        out = {}
        for np, (t, f) in jobs:
            t.wait().must_pass()
            out[np] = read_csv(f)
        return out
    exchange(ctx, ops, 20, 30, ops, None, look=True, model_depth=3, big=shapes)


DF = """SPECIFICATION Spec
CONSTANTS NProcs = {{{np}}}  Lens <- {lens}  Operations <- AllOps
INVARIANTS SameAsSerial Prepared Fits
PROPERTY Finishes
CHECK_DEADLOCK FALSE
"""
SP = """SPECIFICATION {spec}
CONSTANTS NProcs = {{{np}}}  Sizes = {{{sizes}}}  Depth = {depth}
{rest}CHECK_DEADLOCK FALSE
"""


def C15(ctx):
    prebuild(ctx, "confmpi")
    runs = [Tlc(ctx, "DistField", DF.format(np="1, 2", lens="Axes23"), "distfield12", workers=2,
                extra=["-noGenerateSpecTE"]),
            Tlc(ctx, "DistField", DF.format(np="3", lens="Axes34"), "distfield3", workers=4, heap="5g",
                extra=["-noGenerateSpecTE"]),
            Tlc(ctx, "SpaceProg", SP.format(spec="Spec", np=nums(range(1, 9)), sizes=nums(range(1, 19)),
                                            depth=1, rest="INVARIANTS Prepared Shares\n"),
                "spaceprog", workers=4, extra=["-noGenerateSpecTE"])]
    jobs = []
    num, depth = (400, 24) if ctx.thorough else (150, 18)
    def plan_space(np, sizes, num, depth, tag):
        out = ctx.path(f"space-{np}{tag}.csv")
        jobs.append((np, out, Tlc(
            ctx, "SpaceProg", SP.format(spec="SpecSim", np=np, sizes=nums(sizes), depth=depth, rest=""),
            f"spacesim-{np}{tag}", {"OUT": out}, heap="2g",
            extra=["-noGenerateSpecTE", "-simulate", f"num={num}", "-depth", str(depth + 10), "-seed",
                   str(ctx.seed * 211 + np + len(tag))])))
    for np in nprocs(ctx):
        plan_space(np, sorted(set(range(1, 17)) | {17, 20, 2 * np, 2 * np + 1, 2 * np + 3, 2 * np + 6}),
                   num, depth, "")
        # arrays whose parts exceed what a send can buffer
        plan_space(np, [31, 40, 64, 65, 97, 128, 130] + ([257, 300] if ctx.thorough else []),
                   max(6, num // 10), 10, "big")
    ps = {}
    for np, out, t in jobs:
        t.wait().must_pass()
        ls = read_csv(out)
        if not ls:
            raise ToolError("no programs")
        ps.setdefault(np, []).extend(ls)
    for ls in ps.values():
        random.Random(ctx.seed).shuffle(ls)
    b = cargo(ctx, "confmpi")
    counts = {}
    checks = 0
    for m in run_batches(ctx, b, "space", ps, "space"):
        reps = [json.loads(x) for x in m.read("report.json")]
        if len(reps) != m.np:
            raise ToolError("reports missing")
        for r in reps:
            ctx.report(r, m.file)
            checks += r["checks"]
            for k, v in r["counts"].items():
                counts[k] = counts.get(k, 0) + v
        ctx.traces += reps[0]["cases"]
    ctx.extra["distributed_calls"] = counts
    ctx.extra["comparisons"] = checks
    ctx.extra["programs"] = {str(np): len(ls) for np, ls in ps.items()}
    ctx.samples = [{"np": l["np"], "ax": l["ax"], "steps": [s["op"] for s in l["steps"]]}
                   for ls in ps.values() for l in ls[:1]][:6]
    ctx.log(f"{sum(len(x) for x in ps.values())} programs, {counts}, {checks} comparisons")
    for t in runs:
        account(ctx, t.wait().must_pass())
        ctx.log(f"TLC {t.name}: {t.distinct} states")


MIS = """SPECIFICATION {spec}
CONSTANTS NProcs = {{{np}}}  Extents = {{{ext}}}  Depth = {depth}  Levels = {{{lv}}}  LateCheck = {late}
{rest}"""


def C18(ctx):
    prebuild(ctx, "confmpi")
    inv = "INVARIANTS NothingSent Decided Sound Complete\nPROPERTY Finishes\n"
    tm = Tlc(ctx, "Misuse", MIS.format(spec="Spec", np="1, 2" if not ctx.thorough else "1, 2, 3", ext="3, 4",
                                       depth=2, lv='"dec"', late="FALSE", rest=inv),
             "misuse", workers=6, heap="6g", extra=["-noGenerateSpecTE"])
    neg = Tlc(ctx, "Misuse", MIS.format(spec="Spec", np="2", ext="3, 4", depth=2, lv='"dec"', late="TRUE",
                                        rest="INVARIANT NothingSent\n"),
              "misuse-neg", workers=2, extra=["-noGenerateSpecTE"])
    jobs = []
    num, depth = (60, 60) if ctx.thorough else (14, 40)
    for np in ([1, 2, 3, 4, 5, 7, 8] if ctx.thorough else [1, 2, 3, 4, 6]):
        out = ctx.path(f"misuse-{np}.csv")
        ext = sorted(set(range(4, 15)) | {np + 4, 2 * np + 1, 2 * np + 4})
        jobs.append((np, out, Tlc(
            ctx, "Misuse", MIS.format(spec="SpecPlan", np=np, ext=nums(ext), depth=depth, lv='"dec"',
                                      late="FALSE", rest="CHECK_DEADLOCK FALSE\n"),
            f"misplan-{np}", {"OUT": out}, heap="2g",
            extra=["-noGenerateSpecTE", "-simulate", f"num={num * (3 if np == 1 else 1)}",
                   "-depth", str(depth + 10), "-seed", str(ctx.seed * 307 + np)])))
    ps = {}
    for np, out, t in jobs:
        t.wait().must_pass()
        ps[np] = read_csv(out)
        if not ps[np]:
            raise ToolError("no programs")
    b = cargo(ctx, "confmpi")
    recs = []
    for m in run_batches(ctx, b, "misuse", ps, "misuse"):
        for r in range(m.np):
            recs += read_csv(os.path.join(m.out, f"rank{r}.jsonl"))
        ctx.traces += len(m.lines)
    # the same call with the same arrays once
    for q in recs:
        q.pop("k"), q.pop("prog"), q.pop("sp")
    uniq = {json.dumps(q, sort_keys=True): q for q in recs}
    out = {}
    for q in uniq.values():
        k = f"{q['call']['op']} {q['call']['role']} {q['got']}"
        out[k] = out.get(k, 0) + 1
    ctx.extra["calls"] = dict(sorted(out.items()))
    ctx.extra["programs"] = {str(np): len(ls) for np, ls in ps.items()}
    runs = []
    for k, c in enumerate(chunks(list(uniq.values()), 6)):
        f = ctx.path(f"misuse.{k}.json")
        json.dump(c, open(f, "w"))
        runs.append((c, f, Tlc(ctx, "MisuseTrace", MIS.format(
            spec="TraceSpec", np="1", ext="1", depth=1, lv='"dec"', late="FALSE", rest="ALIAS Short\n"),
            f"misusetrace-{k}", {"RECS": f}, heap="2g", extra=["-noGenerateSpecTE"])))
    for c, f, t in runs:
        bad = rejected(t.wait())
        if bad is None:
            account(ctx, t)
            continue
        q = c[bad]
        ctx.violate(f"{q['np']} processes, process {q['rank']}: {q['call']} handed {q['gin']} and {q['gout']}: "
                    f"{q['got']}" + ("" if q["good"] else " with a wrong result"), {"record": q, "file": f})
    ctx.samples = random.Random(ctx.seed).sample(list(uniq.values()), min(4, len(uniq)))
    ctx.log(f"TLC MisuseTrace: {len(uniq)} different calls of {len(recs)}: {ctx.extra['calls']}")
    account(ctx, tm.wait().must_pass())
    ctx.log(f"TLC Misuse: {tm.distinct} states")
    neg.wait()
    if "NothingSent is violated" not in neg.text:
        raise ToolError("Misuse does not notice late checks:\n" + neg.text[-800:])
