"""Shared driver pieces: environment, build, TLC runs, verdicts, evidence."""
from concurrent.futures import ThreadPoolExecutor
import json, os, re, shutil, subprocess, sys, time, hashlib

VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
REPO = "/repo"
SPEC = os.path.join(VERIF, "spec")
JARS = "/opt/veriftools/tla/tla2tools.jar:/opt/veriftools/tla/CommunityModules-deps.jar"
PRIMES = [46337, 46327, 46309, 46307, 46301, 46279, 46273, 46271, 46261, 46237, 46229, 46219,
          46199, 46187, 46183, 46181, 46171, 46153, 46147, 46141]


class ToolError(Exception):
    pass


def env():
    e = dict(os.environ)
    e["HOME"] = "/root"
    e["LANG"] = e.get("LANG", "C.UTF-8")
    e["PATH"] = ("/root/.cargo/bin:/usr/local/sbin:/usr/local/bin:/usr/sbin:/usr/bin:/sbin:/bin:"
                 + e.get("PATH", ""))
    e["RUSTUP_TOOLCHAIN"] = "stable-x86_64-unknown-linux-gnu"
    e["CARGO_NET_OFFLINE"] = "true"
    e["CARGO_TERM_COLOR"] = "never"
    e["RUSTC_WRAPPER"] = ""
    e["LIBCLANG_PATH"] = "/usr/lib/llvm-14/lib"
    e["CARGO_TARGET_DIR"] = os.path.join(VERIF, "target")
    e["RUST_BACKTRACE"] = "0"
    e.pop("RUSTFLAGS", None)
    return e


class Ctx:
    """One run of one check."""

    def __init__(self, prop, level="model_checking"):
        self.prop = prop
        self.tier = os.environ.get("VERIF_TIER", "quick")
        if self.tier not in ("quick", "thorough"):
            self.tier = "quick"
        self.seed = int(os.environ.get("VERIF_SEED", "1") or "1")
        self.level = level
        self.t0 = time.time()
        self.work = os.path.join(VERIF, "work", prop)
        shutil.rmtree(self.work, ignore_errors=True)
        os.makedirs(self.work, exist_ok=True)
        self.states = 0
        self.distinct = 0
        self.transitions = 0
        self.traces = 0
        self.samples = []
        self.extra = {}
        self.assumptions = []
        self.violations = []
        self.known = load_known(prop)
        self.known_hit = []
        self.builds = {}

    @property
    def thorough(self):
        return self.tier == "thorough"

    def log(self, *a):
        print(f"[{self.prop} {time.time()-self.t0:6.1f}s]", *a, flush=True)

    def path(self, name):
        return os.path.join(self.work, name)

    # ---- verdicts --------------------------------------------------------------
    def violate(self, what, detail):
        key = what if isinstance(what, str) else json.dumps(what)
        for k in self.known:
            if k["match"] in key or k["match"] in json.dumps(detail):
                if k not in self.known_hit:
                    self.known_hit.append(k)
                return
        self.violations.append({"what": what, "detail": detail})

    def report(self, rep, source):
        """take over the failures of a harness report"""
        for f in rep["fails"]:
            self.violate(f"{f['at']}: {f['what']}", {"detail": f["detail"], "source": source})
        hidden = rep["nfail"] - len(rep["fails"])
        if hidden > 0:
            self.extra["further_failures"] = self.extra.get("further_failures", 0) + hidden

    def finish(self):
        for k in self.known_hit:
            print(f"KNOWN-FINDING: property={self.prop} {k['what']}")
        cov = {"states": self.distinct, "transitions": self.transitions,
               "traces_validated_against_impl": self.traces,
               "states_generated": self.states,
               "samples": self.samples[:8] or ["none"]}
        cov.update(self.extra)
        ev = {"property": self.prop, "tier": self.tier, "seed": self.seed, "level": self.level,
              "coverage": cov, "assumptions": self.assumptions,
              "wall_s": round(time.time() - self.t0, 2), "violations": len(self.violations)}
        os.makedirs(os.path.join(VERIF, "evidence"), exist_ok=True)
        with open(os.path.join(VERIF, "evidence", f"{self.prop}.json"), "w") as f:
            json.dump(ev, f, indent=1)
        if self.violations:
            replay = os.path.join(VERIF, "work", f"{self.prop}-violation.json")
            with open(replay, "w") as f:
                json.dump({"property": self.prop, "seed": self.seed, "tier": self.tier,
                           "violations": self.violations[:60]}, f, indent=1)
            for v in self.violations[:5]:
                print("  ", str(v["what"])[:300], "|", json.dumps(v["detail"])[:400])
            print(f"VIOLATION property={self.prop} replay={replay}", flush=True)
            return 1
        self.log("ok", {k: cov[k] for k in ("states", "transitions",
                                             "traces_validated_against_impl")})
        return 0


def load_known(prop):
    out = []
    p = os.path.join(VERIF, "known-findings.txt")
    if os.path.exists(p):
        for line in open(p):
            line = line.strip()
            m = re.match(r"known: property=(\S+) match=\[(.*?)\] (.*)", line)
            if m and m.group(1) == prop:
                out.append({"match": m.group(2), "what": m.group(3)})
    return out


# ---- build -------------------------------------------------------------------------
def fresh(crate):
    """cargo trusts modification times; a copied tree may carry misleading ones.  Whenever the
    content of /repo differs from what was last built, what cargo has of it is dropped."""
    h = hashlib.sha256()
    files = [os.path.join(REPO, "Cargo.toml")]
    for d, _, fs in sorted(os.walk(os.path.join(REPO, "src"))):
        files += [os.path.join(d, f) for f in sorted(fs)]
    for f in files:
        h.update(f.encode() + b"\0")
        h.update(open(f, "rb").read())
    mark = os.path.join(VERIF, "target", f".{crate}-content")
    old = open(mark).read() if os.path.exists(mark) else ""
    if old != h.hexdigest():
        for rel in ([], ["--release"]):
            subprocess.run(["cargo", "clean", "--offline", "--quiet", "-p", "funspace",
                            "--manifest-path", os.path.join(VERIF, crate, "Cargo.toml"), *rel],
                           env=env(), stdout=subprocess.DEVNULL, stderr=subprocess.DEVNULL)
        os.makedirs(os.path.dirname(mark), exist_ok=True)
        with open(mark, "w") as f:
            f.write(h.hexdigest())


def prebuild(ctx, crate, profile="dev"):
    """start the build while TLC is working; cargo() picks up the result"""
    fresh(crate)
    cmd = ["nice", "-n", "5", "cargo", "build", "--offline", "--quiet",
           "--manifest-path", os.path.join(VERIF, crate, "Cargo.toml")]
    if profile == "release":
        cmd.append("--release")
    f = open(ctx.path(f"build-{crate}-{profile}.txt"), "w")
    ctx.builds[(crate, profile)] = subprocess.Popen(cmd, env=env(), stdout=f,
                                                    stderr=subprocess.STDOUT)


def cargo(ctx, crate, profile="dev", features=None, timeout=800):
    """build a harness crate against /repo's working tree; returns the binary"""
    if (crate, profile) not in ctx.builds:
        fresh(crate)
    cmd = ["cargo", "build", "--offline", "--quiet",
           "--manifest-path", os.path.join(VERIF, crate, "Cargo.toml")]
    if profile == "release":
        cmd.append("--release")
    t = time.time()
    bg = ctx.builds.pop((crate, profile), None)
    if bg:
        bg.wait(timeout)
    p = subprocess.run(cmd, env=env(), stdout=subprocess.PIPE, stderr=subprocess.STDOUT,
                       text=True, timeout=timeout)
    if p.returncode != 0:
        raise ToolError(f"build of {crate} ({profile}) failed:\n" + p.stdout[-4000:])
    ctx.log(f"built {crate} ({profile}) in {time.time()-t:.1f}s")
    d = "release" if profile == "release" else "debug"
    return os.path.join(VERIF, "target", d, crate)


def harness(ctx, binary, mode, cases, timeout=600, name=None, args=(), extra_env=None):
    """run the harness on a case file; a crash of the code under test is a violation"""
    name = name or mode
    rep = ctx.path(f"{name}.report.json")
    for f in (rep, rep + ".current"):
        if os.path.exists(f):
            os.remove(f)
    e = env()
    if extra_env:
        e.update(extra_env)
    cmd = [binary, mode, cases, rep, *map(str, args)]
    try:
        p = subprocess.run(cmd, env=e, stdout=subprocess.PIPE, stderr=subprocess.PIPE,
                           text=True, timeout=timeout)
    except subprocess.TimeoutExpired:
        cur = read_current(rep)
        if cur:
            # nothing the harness runs takes anywhere near this long
            ctx.violate(f"{cur}: does not return (stopped after {timeout}s)", {"cmd": cmd})
            return None
        raise ToolError(f"{cmd} timed out before its first case")
    if os.path.exists(rep):
        r = json.load(open(rep))
        if r.get("done"):
            return r
    cur = read_current(rep)
    err = p.stderr[-1500:]
    if "harness" in err and p.returncode in (101, 2):
        raise ToolError(f"{cmd}: rc={p.returncode}\n{err}")
    if cur and (p.returncode < 0 or p.returncode in (101, 134, 139)):
        ctx.violate(f"{cur}: the process died (rc={p.returncode})",
                    {"stderr": err, "cmd": cmd})
        return None
    raise ToolError(f"{cmd}: rc={p.returncode}\n{err}")


def harness_sharded(ctx, binary, mode, cases, shards=5, block=40, name=None, **kw):
    """the harness on parts of a case file, each in a process of its own"""
    name = name or mode
    with open(cases) as f:
        rows = f.readlines()
    if len(rows) < 2 * block:
        return harness(ctx, binary, mode, cases, name=name, **kw)
    block = min(block, -(-len(rows) // shards))
    parts = [[] for _ in range(shards)]
    for i in range(0, len(rows), block):
        parts[i // block % shards] += rows[i:i + block]
    files = []
    for j, p in enumerate(parts):
        if p:
            files.append(f"{cases}.{j}")
            with open(files[-1], "w") as f:
                f.writelines(p)
    with ThreadPoolExecutor(shards) as ex:
        reps = list(ex.map(lambda a: harness(ctx, binary, mode, a[1], name=f"{name}.{a[0]}", **kw),
                           enumerate(files)))
    for g in files:
        os.remove(g)
    reps = [r for r in reps if r is not None]
    if not reps:
        return None
    out = reps[0]
    for r in reps[1:]:
        for k in ("cases", "checks", "nfail"):
            out[k] += r[k]
        for k in ("fails", "samples"):
            out[k] = out[k] + r[k]
        for k, v in r["counts"].items():
            out["counts"][k] = out["counts"].get(k, 0) + v
        for k, v in r["err"].items():
            if k not in out["err"] or not float(out["err"][k][0]) >= float(v[0]):
                out["err"][k] = v
    out["samples"] = out["samples"][:6]
    return out


def read_current(rep):
    try:
        return open(rep + ".current").read().strip()
    except OSError:
        return None


# ---- TLC ---------------------------------------------------------------------------
def tlc_cmd(cfg, module, metadir, workers=1, heap="3g", extra=(), jvm=()):
    return ["java", "-XX:+UseSerialGC" if workers == 1 else "-XX:+UseParallelGC", f"-Xmx{heap}",
            "-Xss32m", *jvm, "-cp", JARS, f"-DTLA-Library={SPEC}", "tlc2.TLC",
            "-workers", str(workers), "-nowarning", "-metadir", metadir, "-config", cfg,
            *extra, os.path.join(SPEC, module + ".tla")]


STATS = re.compile(r"(\d+) states generated, (\d+) distinct states found, (\d+) states left")


class Pool:
    """runs TLC jobs, at most `width` at a time, in submission order"""

    def __init__(self, width=8):
        self.width, self.q, self.run, self.done = width, [], [], []

    def add(self, make, after=None):
        self.q.append((make, after))

    def go(self, timeout=850):
        end = time.time() + timeout
        while self.q or self.run:
            while self.q and len(self.run) < self.width:
                make, after = self.q.pop(0)
                self.run.append((make(), after))
            for r in list(self.run):
                if r[0].p.poll() is not None:
                    self.run.remove(r)
                    r[0].wait(10).must_pass()
                    if r[1]:
                        r[1](r[0])
            if time.time() > end:
                for r in self.run:
                    r[0].p.kill()
                raise ToolError("TLC jobs timed out")
            time.sleep(0.02)


class Tlc:
    """a TLC process"""

    def __init__(self, ctx, module, cfg_text, name, envs=None, workers=1, heap="3g", extra=(),
                 jvm=()):
        self.ctx, self.module, self.name = ctx, module, name
        self.dir = ctx.path("tlc-" + name)
        shutil.rmtree(self.dir, ignore_errors=True)
        os.makedirs(self.dir)
        cfg = os.path.join(self.dir, module + ".cfg")
        with open(cfg, "w") as f:
            f.write(cfg_text)
        e = env()
        e.update(envs or {})
        self.out = open(os.path.join(self.dir, "out.txt"), "w")
        jt = ["-Djava.io.tmpdir=" + self.dir]
        self.p = subprocess.Popen(
            tlc_cmd(cfg, module, os.path.join(self.dir, "md"), workers, heap, extra,
                    list(jvm) + jt),
            env=e, stdout=self.out, stderr=subprocess.STDOUT, cwd=self.dir)

    def wait(self, timeout=800):
        try:
            rc = self.p.wait(timeout)
        except subprocess.TimeoutExpired:
            self.p.kill()
            raise ToolError(f"TLC {self.name} timed out")
        self.out.close()
        self.text = open(os.path.join(self.dir, "out.txt")).read()
        self.rc = rc
        self.ok = rc == 0
        m = None
        for m in STATS.finditer(self.text):
            pass
        self.generated = int(m.group(1)) if m else 0
        self.distinct = int(m.group(2)) if m else 0
        shutil.rmtree(os.path.join(self.dir, "md"), ignore_errors=True)
        return self

    def must_pass(self):
        """the specification itself has to satisfy its properties: anything else is our error"""
        if not self.ok:
            raise ToolError(f"TLC {self.name} ({self.module}) rc={self.rc}:\n" + self.text[-3500:])
        return self


def account(ctx, t, emitted=None):
    ctx.states += t.generated
    ctx.distinct += t.distinct
    # every generated state beyond the initial ones is the target of an evaluated transition
    m = re.search(r"(\d+) distinct states? generated at", t.text)
    init = int(m.group(1)) if m else 1
    ctx.transitions += max(0, t.generated - init)


def read_csv(path):
    out = []
    if not os.path.exists(path):
        return out
    with open(path) as f:
        for line in f:
            line = line.strip()
            if line:
                x = json.loads(line)
                out.append(json.loads(x) if isinstance(x, str) else x)
    return out


class Crt:
    def __init__(self, primes):
        self.M = 1
        for p in primes:
            self.M *= p
        self.coef = []
        for p in primes:
            q = self.M // p
            self.coef.append(q * pow(q, -1, p) % self.M)

    def list(self, residues):
        M, half, out = self.M, self.M // 2, []
        for rs in zip(*residues):
            r0 = rs[0]
            if r0 < 23000 and rs.count(r0) == len(rs):
                out.append(r0)      # a small non-negative integer
                continue
            v = sum(map(lambda r, c: r * c, rs, self.coef)) % M
            out.append(v - M if v > half else v)
        return out


def crt_combine(residues, primes):
    """list of residue lists -> list of centred integers"""
    M = 1
    for p in primes:
        M *= p
    coef = []
    for p in primes:
        q = M // p
        coef.append(q * pow(q, -1, p) % M)
    half = M // 2
    out = []
    for rs in zip(*residues):
        v = sum(r * c for r, c in zip(rs, coef)) % M
        out.append(v - M if v > half else v)
    return out


def main(run):
    """wrap a check: exit codes"""
    try:
        rc = run()
    except ToolError as e:
        print("TOOL-ERROR", e, flush=True)
        rc = 2
    except subprocess.TimeoutExpired as e:
        print("TOOL-ERROR timeout", e, flush=True)
        rc = 2
    sys.exit(rc)
