"""Shared infrastructure: building E from /repo's working tree, running TLC, evidence, verdicts."""
import os, sys, json, time, subprocess, shutil, random, re, fcntl, hashlib
from concurrent.futures import ThreadPoolExecutor

VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
REPO = os.environ.get("VERIF_REPO", "/repo")
WORK = os.environ.get("VERIF_WORK", os.path.join(VERIF, "_work"))
SPEC = os.path.join(VERIF, "spec")
JARS = "/opt/veriftools/tla/tla2tools.jar:/opt/veriftools/tla/CommunityModules-deps.jar"
NCPU = max(2, min(8, os.cpu_count() or 4))
T0 = time.time()

def seed():
    try: return int(os.environ.get("VERIF_SEED", "1"))
    except ValueError: return 1

class CheckError(Exception): pass

# ---------------------------------------------------------------- build
SYNC = ["rsync", "-rlpci", "--delete", "--omit-dir-times",
        "--exclude=/.git", "--exclude=/_build", "--exclude=/include", "--exclude=/lib",
        "--exclude=/DOC", "--exclude=/EXAMPLE_PROBLEMS", "--exclude=/PYTHON",
        "--exclude=/development_tools", "--exclude=/etc", "--exclude=/.depend_done", "--exclude=/.verif_done",
        "--exclude=*.o", "--exclude=*.a", "--exclude=Makefile.dependencies",
        "--exclude=/CONTRIB/picosat-965/makefile", "--exclude=/CONTRIB/picosat-965/config.h",
        "--include=*/", "--include=*.*", "--include=Makefile", "--include=VERSION", "--exclude=*"]

def sh(cmd, **kw):
    kw.setdefault("stdout", subprocess.PIPE); kw.setdefault("stderr", subprocess.STDOUT)
    kw.setdefault("text", True)
    return subprocess.run(cmd, **kw)

# variant -> (extra make variables, directory of /repo/_build to start from)
# The instrumented variants pass the hook guard through EXTINCLUDES-style NODEBUG additions.
NODEBUG = "-DNDEBUG -DFAST_EXIT"
VARIANTS = {
    "fo": (["ENABLE_LFHO=", "EPROVER_BIN=eprover"], "fo"),
    "ho": (["ENABLE_LFHO=-DENABLE_LFHO", "EPROVER_BIN=eprover-ho"], "ho"),
    "fotrace": (["ENABLE_LFHO=", "EPROVER_BIN=eprover", "NODEBUG=" + NODEBUG + " -DVERIF_TRACE"], None),
    "hotrace": (["ENABLE_LFHO=-DENABLE_LFHO", "EPROVER_BIN=eprover-ho", "NODEBUG=" + NODEBUG + " -DVERIF_TRACE"], None),
    # libraries only, every cell a separate allocation, memory errors are fatal
    "asan": (["ENABLE_LFHO=", "EPROVER_BIN=eprover", "OPTFLAGS=-O1", "NODEBUG=" + NODEBUG + " -DUSE_SYSTEM_MEM -fsanitize=address"], None),
}

def build(variant="fo"):
    """Bring a private copy of the tree up to date with /repo's working tree and build it.
    Returns the directory. Raises CheckError if the tree does not build."""
    vars_, base = VARIANTS[variant]
    root = os.path.join(WORK, "build"); os.makedirs(root, exist_ok=True)
    d = os.path.join(root, variant)
    env = {k: v for k, v in os.environ.items() if k not in ("CFLAGS", "LDFLAGS", "CC", "MAKEFLAGS", "MAKELEVEL")}
    env["LC_ALL"] = "C"
    with open(os.path.join(root, variant + ".lock"), "w") as lk:
        fcntl.flock(lk, fcntl.LOCK_EX)
        start = time.time()
        if not os.path.isdir(d):
            src = os.path.join(REPO, "_build", base) if base else None
            if src and os.path.isfile(os.path.join(src, ".depend_done")) or (src and os.path.isdir(os.path.join(src, "include"))):
                sh(["cp", "-a", src, d])
                open(os.path.join(d, ".verif_done"), "w").close()
            else:
                os.makedirs(d)
        def once(fresh):
            if fresh:
                shutil.rmtree(d, ignore_errors=True); os.makedirs(d)
            had = os.path.exists(os.path.join(d, ".verif_done"))
            try: os.unlink(os.path.join(d, ".verif_done"))
            except OSError: pass
            r = sh(SYNC + [REPO + "/", d + "/"], stderr=subprocess.PIPE)
            if r.returncode != 0: raise CheckError("rsync failed: " + (r.stderr or ""))
            ch = [l for l in r.stdout.splitlines() if re.match(r"^(>f|\*deleting|cL|\.f...p)", l)]
            if not fresh and any(re.search(r"^\*deleting|Makefile|makefile\.in|configure|mkconfig\.sh|VERSION", l) for l in ch):
                return once(True)
            if not had or ch:
                if sh(["make"] + vars_ + ["links"], cwd=d, env=env).returncode != 0: return "links failed"
                code = "BASICS INOUT TERMS ORDERINGS CLAUSES PROPOSITIONAL LEARN PCL2 HEURISTICS CONTROL SIMPLE_APPS EXTERNAL PROVER".split()
                def dep(x):
                    open(os.path.join(d, x, "Makefile.dependencies"), "a").close()
                    return sh(["make"] + vars_ + ["-C", x, "depend"], cwd=d, env=env).returncode
                with ThreadPoolExecutor(NCPU) as ex: rcs = list(ex.map(dep, code))
                if any(rcs): return "depend failed"
            log = ""
            def mk(x, j=NCPU):
                r = sh(["make"] + vars_ + ["-j%d" % j, "-C", x], cwd=d, env=env)
                return None if r.returncode == 0 else "make in %s failed:\n%s" % (x, r.stdout[-3000:])
            # the libraries only depend on headers, so their directories build concurrently
            for group in (["CLAUSES", "CONTRIB", "TERMS", "CONTROL", "HEURISTICS", "BASICS", "INOUT", "ORDERINGS", "PROPOSITIONAL", "LEARN", "PCL2"], ["EXTERNAL", "PROVER"]):
                if variant == "asan" and group[0] == "EXTERNAL": continue
                with ThreadPoolExecutor(len(group)) as ex:
                    for e in ex.map(lambda x: mk(x, 4), group):
                        if e: return e
            open(os.path.join(d, ".verif_done"), "w").close()
            return None
        err = once(False)
        if err: err = once(True)
        if err: raise CheckError(err)
        sys.stderr.write("[build %s %.1fs]\n" % (variant, time.time() - start))
    return d

BUILDFLAGS = "-DPRINT_SOMEERRORS_STDOUT -DMEMORY_RESERVE_PARANOID -DPRINT_TSTP_STATUS -DSTACK_SIZE=32768 -DCLAUSE_PERM_IDENT -DTAGGED_POINTERS".split()

def harness(name, variant="fo", extra=()):
    """Compile /verif/harness/<name>.c (or a program of the tree, given as DIR/file.c) against the libraries of the built variant."""
    d = build(variant)
    out = os.path.join(WORK, "bin"); os.makedirs(out, exist_ok=True)
    src = os.path.join(d, name) if "/" in name else os.path.join(VERIF, "harness", name + ".c")
    exe = os.path.join(out, "%s.%s" % (os.path.basename(name), variant))
    libs = ["CONTROL", "HEURISTICS", "LEARN", "PCL2", "CLAUSES", "PROPOSITIONAL", "ORDERINGS", "TERMS", "INOUT", "BASICS"]
    cmd = ["gcc", "-O1", "-g", "-w", "-std=gnu99", "-DNDEBUG", "-DFAST_EXIT"] + BUILDFLAGS + \
          (["-DENABLE_LFHO"] if variant.startswith("ho") else []) + (["-DUSE_SYSTEM_MEM", "-fsanitize=address"] if variant == "asan" else []) + list(extra) + \
          ["-I" + os.path.join(d, "include"), "-I" + os.path.join(d, "PROVER"), "-I" + os.path.join(d, "EXTERNAL"),
           src, "-o", exe + ".tmp%d" % os.getpid()] + \
          ["-Wl,--start-group"] + [os.path.join(d, "lib", l + ".a") for l in libs] + \
          [os.path.join(d, "CONTRIB", "picosat-965", "libpicosat.a"), "-Wl,--end-group", "-lm"]
    r = sh(cmd)
    if r.returncode != 0: raise CheckError("harness %s: %s" % (name, r.stdout[-3000:]))
    os.replace(exe + ".tmp%d" % os.getpid(), exe)
    return exe

# ---------------------------------------------------------------- running things
def run(cmd, inp=None, timeout=20, cwd=None, env=None):
    """returns (rc, stdout, stderr); rc = None on timeout"""
    try:
        r = subprocess.run(cmd, input=inp, stdout=subprocess.PIPE, stderr=subprocess.PIPE, timeout=timeout, cwd=cwd, env=env)
        return r.returncode, r.stdout.decode("utf8", "replace"), r.stderr.decode("utf8", "replace")
    except subprocess.TimeoutExpired as e:
        return None, (e.stdout or b"").decode("utf8", "replace"), (e.stderr or b"").decode("utf8", "replace")

def pmap(f, xs, n=None):
    with ThreadPoolExecutor(n or NCPU) as ex: return list(ex.map(f, xs))

# ---------------------------------------------------------------- TLC
class Tlc:
    """Accumulates what TLC explored over a check."""
    def __init__(self): self.states = 0; self.distinct = 0; self.runs = []

def log(*a):
    sys.stderr.write("[%6.1fs] %s\n" % (time.time() - T0, " ".join(str(x) for x in a))); sys.stderr.flush()

def tlc_run(module, cfg_text, data=None, workers=1, heap="1500m", timeout=600, tag="", extra=(), acc=None, keep=False):
    """Run TLC on spec/<module>.tla in a scratch directory. `data`: {filename: list of records} written as ndjson.
    Returns dict(ok, bad=[printed BAD tuples], prints, states, distinct, out)."""
    d = os.path.join(WORK, "tlc", "%s.%s.%d.%d" % (module, tag, os.getpid(), random.SystemRandom().randrange(10**9)))
    os.makedirs(d)
    for f in os.listdir(SPEC):
        if f.endswith(".tla"): shutil.copy(os.path.join(SPEC, f), d)
    with open(os.path.join(d, "M.cfg"), "w") as f: f.write(cfg_text)
    for fn, recs in (data or {}).items():
        with open(os.path.join(d, fn), "w") as f:
            for r in recs: f.write(json.dumps(r, separators=(",", ":")) + "\n")
    cmd = ["java", "-XX:+UseSerialGC" if workers == 1 else "-XX:+UseParallelGC", "-Xmx" + heap, "-Xss64m", "-XX:TieredStopAtLevel=4", "-cp", JARS,
           "tlc2.TLC", "-workers", str(workers), "-deadlock", "-nowarning", "-metadir", os.path.join(d, "st"), "-config", "M.cfg"] + list(extra) + [module + ".tla"]
    try:
        r = subprocess.run(cmd, cwd=d, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, timeout=timeout, text=True)
        out = r.stdout; rc = r.returncode
    except subprocess.TimeoutExpired as e:
        out = (e.stdout or b"").decode() if isinstance(e.stdout, bytes) else (e.stdout or ""); rc = -1
    m = None
    for m in re.finditer(r"(\d+) states generated, (\d+) distinct states found", out): pass
    st, di = (int(m.group(1)), int(m.group(2))) if m else (0, 0)
    ok = "No error has been found" in out
    res = dict(ok=ok, rc=rc, out=out, states=st, distinct=di, prints=re.findall(r"^<<.*>>$", out, re.M))
    if acc is not None: acc.states += st; acc.distinct += di; acc.runs.append((module, st, di))
    log("TLC", module, "states", st, "distinct", di, "ok", ok)
    if not keep: shutil.rmtree(d, ignore_errors=True)
    return res

CHAIN_CFG = "INIT Init\nNEXT Next\nINVARIANT Inv\n"

def tlc_validate(module, recs, cfg=CHAIN_CFG, fname="r.ndjson", jobs=None, acc=None, timeout=600, heap="1500m", cost=None):
    """Trace validation of records by a chain spec: every record is judged by TLC; the module prints
    <<"BAD", id, ...>> for each record that is not a behaviour the specification allows.
    Returns list of bad tuples as raw strings with ids. Every record must have a unique integer field `id`."""
    if not recs: return []
    jobs = jobs or NCPU
    jobs = max(1, min(jobs, (len(recs) + 3) // 4))
    if cost:
        order = sorted(recs, key=cost, reverse=True); parts = [order[i::jobs] for i in range(jobs)]
    else: parts = [recs[i::jobs] for i in range(jobs)]
    parts = [p for p in parts if p]
    def one(p):
        r = tlc_run(module, cfg, {fname: p}, tag="v", acc=None, timeout=timeout, heap=heap)
        if not r["ok"] or r["distinct"] < len(p) + 1:
            tail = r["out"][-1500:]
            raise CheckError("TLC did not complete on %s (%d/%d): %s" % (module, r["distinct"], len(p) + 1, tail))
        return r
    rs = pmap(one, parts, jobs)
    bad = []
    for r in rs:
        if acc is not None: acc.states += r["states"]; acc.distinct += r["distinct"]; acc.runs.append((module, r["states"], r["distinct"]))
        for l in r["prints"]:
            m = re.match(r'^<<"BAD", (\d+)(?:, )?(.*)>>$', l)
            if m: bad.append((int(m.group(1)), m.group(2)))
    return bad

# ---------------------------------------------------------------- verdict / evidence
class Check:
    def __init__(self, prop, level="model_checking"):
        self.prop = prop; self.tier = os.environ.get("VERIF_TIER", "quick"); self.seed = seed()
        if "--thorough" in sys.argv: self.tier = "thorough"
        if self.tier not in ("quick", "thorough"): self.tier = "quick"
        self.rng = random.Random("%s/%d" % (prop, self.seed)); self.level = level
        self.acc = Tlc(); self.cov = {}; self.samples = []; self.viol = []; self.known = []; self.assumptions = []
        self.traces = 0; self.t0 = time.time(); self.notes = []
        self.known_list = load_known(prop)
    @property
    def thorough(self): return self.tier == "thorough"
    def scale(self, quick, thorough): return thorough if self.thorough else quick
    def sample(self, s, n=4):
        if len(self.samples) < n: self.samples.append(s)
    def violation(self, what, files):
        """files: {name: content}; stored under _work/replay."""
        h = hashlib.sha1((what + json.dumps(files, sort_keys=True, default=str)).encode()).hexdigest()[:10]
        for k in self.known_list:
            if k["match"] and re.search(k["match"], what):
                if k["id"] not in [x["id"] for x in self.known]: self.known.append(k)
                return
        d = os.path.join(WORK, "replay", self.prop, h); os.makedirs(d, exist_ok=True)
        for n, c in files.items():
            with open(os.path.join(d, n), "w") as f: f.write(c if isinstance(c, str) else json.dumps(c, indent=1))
        with open(os.path.join(d, "what.txt"), "w") as f: f.write(what + "\n")
        self.viol.append((what, d))
    def finish(self):
        cov = dict(states=self.acc.distinct, transitions=self.acc.states, traces_validated_against_impl=self.traces, samples=self.samples or ["none"])
        cov.update(self.cov)
        ev = dict(property=self.prop, tier=self.tier, seed=self.seed, level=self.level, coverage=cov,
                  assumptions=self.assumptions, wall_s=round(time.time() - self.t0, 2), violations=len(self.viol))
        os.makedirs(os.path.join(VERIF, "evidence"), exist_ok=True)
        with open(os.path.join(VERIF, "evidence", self.prop + ".json"), "w") as f: json.dump(ev, f, indent=1)
        for k in self.known: print("KNOWN-FINDING: property=%s %s" % (self.prop, k["what"]))
        seen = 0
        for what, d in self.viol:
            print("VIOLATION property=%s replay=%s" % (self.prop, d)); print("   " + what[:600]); seen += 1
            if seen >= 10: break
        print("%s %s: %d states, %d traces validated, %d violations, %.1fs" % (self.prop, self.tier, cov["states"], self.traces, len(self.viol), time.time() - self.t0))
        for n in self.notes: print("  note: " + n)
        sys.stdout.flush()
        sys.exit(1 if self.viol else 0)

def load_known(prop):
    """known_findings.txt: 'known: property=<id> match=/<regex>/ <text>' and 'fixed: property=<id> <commit> <text>'"""
    out = []
    try:
        for l in open(os.path.join(VERIF, "known_findings.txt")):
            m = re.match(r"^known: property=(\S+) match=/(.*?)/ (.*)$", l.strip())
            if m and m.group(1) == prop: out.append(dict(id=m.group(2), match=m.group(2), what=m.group(3)))
    except OSError: pass
    return out

def tla(x):
    """python value -> TLA+ literal"""
    if isinstance(x, bool): return "TRUE" if x else "FALSE"
    if isinstance(x, int): return str(x)
    if isinstance(x, str): return json.dumps(x)
    if isinstance(x, (list, tuple)): return "<<" + ", ".join(tla(y) for y in x) + ">>"
    if isinstance(x, (set, frozenset)): return "{" + ", ".join(sorted(tla(y) for y in x)) + "}"
    if isinstance(x, dict): return "[" + ", ".join("%s |-> %s" % (k, tla(v)) for k, v in x.items()) + "]"
    raise TypeError(type(x))

def guard(main):
    """an error of the check itself is neither 0 nor 1"""
    try: main()
    except SystemExit: raise
    except BaseException:
        import traceback
        traceback.print_exc(); sys.exit(3)
