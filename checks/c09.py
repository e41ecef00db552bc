"""C09 strategy scheduling.  See DESIGN.md."""
import sys, os, re, random, shutil, tempfile, subprocess, signal, time
sys.path.insert(0, os.path.join(os.path.dirname(os.path.abspath(__file__)), "..", "lib"))
import vlib
from multiprocessing.pool import ThreadPool

WORD = dict(t="Theorem", u="Unsatisfiable", s="Satisfiable", c="CounterSatisfiable", x="ContradictoryAxioms", g="GaveUp")
def scenario(rng):
    cores = rng.choice([1, 1, 2, 2, 3, 4, 6, 8]); pre = int(rng.random() < .4); ser = int(pre and rng.random() < .3)
    n = rng.choice([1, 2, 2, 3, 3, 4, 5, 6, 8, 12]); limit = rng.choice([1, 2, 5, 10, 30, 64, 100, 300]); st = []
    fr = [rng.choice([1, 2, 3] if n * cores > 8 and rng.random() < .7 else [1, 2, 4, 8, 16, 24, 32, 48, 64]) for _ in range(n)]
    if pre:                                     # fractions of preprocessing schedules add up to at most one
        fr = [rng.randint(1, 20) for _ in range(n)]; s = sum(fr); fr = [max(1, x * 64 // s) for x in fr]
        while sum(fr) > 64: fr[fr.index(max(fr))] -= 1
    ps = rng.choice([0, .1, .3, .6])
    for i in range(n):
        ok = rng.random() < ps; how = rng.choice("tuscx") if ok else rng.choice("nggakm")
        big = rng.random() < .15
        st.append(dict(name="s%d_%s" % (i, "".join(rng.choice("abXY09_") for _ in range(rng.randint(1, 12)))), frac=fr[i], cores=rng.randint(1, cores) if rng.random() < .5 else 1,
            delay=rng.choice([0, 0, 0, 5, 20, 60, 120, 120 if ps == 0 else 600]), before=rng.choice([0, 1, 3]) if not big else rng.randint(20, 400), after=rng.choice([0, 1, 2, 5]) if not big else rng.randint(20, 400),
            size=rng.choice([0, 10, 60]) if not big else rng.choice([100, 400]), pause=rng.choice([0, 0, 0, 1, 3]) if not big else 0, how=how, status=rng.choice([0, 0, 1, 2, 8, 9, 3, 134]) if ok else rng.choice([1, 8, 0, 5, 6, 9])))
    if rng.random() < .3:                       # everything at once
        for s in st: s["delay"] = 0
    return dict(cores=cores, pre=pre, ser=ser, limit=limit, st=st, term=rng.choice([0, 1, 10, 30, 70]) if rng.random() < .15 else None)
def text(i, s):
    l = lambda a, b: "".join("w%d:%d:%s\n" % (i, j, "".join(chr(97 + (i + j + k) % 26) for k in range(s["size"]))) for j in range(a, b))
    if s["how"] == "m": return ""
    return l(0, s["before"]) + ("%% SZS status %s\n" % WORD[s["how"]] if s["how"] in WORD else "") + l(s["before"], s["before"] + s["after"])
HUNG = []
def job(a):
    if len(HUNG) > 30: return None              # enough violations
    H, tag = a; rng = random.Random(tag); sc = scenario(rng); st = sc["st"]; d = tempfile.mkdtemp(prefix="sched", dir=vlib.WORK); log = os.path.join(d, "log"); res = dict(sc=sc)
    inp = "%d %d %d %d %d %s\n" % (sc["cores"], sc["pre"], sc["ser"], sc["limit"], len(st), log) + "".join("%(name)s %(frac)d %(cores)d %(delay)d %(before)d %(after)d %(size)d %(pause)d %(how)s %(status)d\n" % s for s in st)
    res["inp"] = inp
    try:
        open(log, "w").close(); open(os.path.join(d, "in"), "w").write(inp)
        p = subprocess.Popen([H], stdin=open(os.path.join(d, "in")), stdout=open(os.path.join(d, "out"), "wb"), stderr=open(os.path.join(d, "err"), "wb"), start_new_session=True, env=dict(os.environ, LINEBUF="1") if sc["term"] is not None else None)
        rd = lambda f: open(os.path.join(d, f), errors="replace").read()
        t0 = time.time(); sent = False
        while p.poll() is None and time.time() - t0 < 30:
            if sc["term"] is not None and not sent and "% Starting" in rd("out"): time.sleep(sc["term"] / 1000); sent = True; p.send_signal(signal.SIGTERM)
            time.sleep(.002)
        hung = p.poll() is None
        if hung:
            HUNG.append(tag)
            os.killpg(p.pid, signal.SIGKILL); p.wait(); res["out"] = rd("out"); raise AssertionError("coordinator did not end")
        out = rd("out"); logl = [x.split() for x in rd("log").splitlines()]; res["out"] = out; res["log"] = logl
        def living(pid):
            try: f = open("/proc/%s/stat" % pid).read().rsplit(")", 1)[1].split(); return int(f[3]) == p.pid and f[0] != "Z"
            except OSError: return False
        for _ in range(25):                     # workers of the session that are still there (a killed one may take a moment)
            alive = sum(living(x[2]) for x in logl if x[0] == "S")
            if not alive: break
            time.sleep(.01)
        try: os.killpg(p.pid, signal.SIGKILL)
        except OSError: pass
        names = {s["name"]: i + 1 for i, s in enumerate(st)}; ev = []; started = []; sched = lim = -1; whole = 0; pos = 0; lines = out.splitlines(keepends=True)
        while pos < len(lines):
            l = lines[pos].rstrip("\n"); pos += 1
            m = re.fullmatch(r"% Scheduled (\d+) strats onto (\d+) cores with .*", l)
            if m: sched, lim = int(m[1]), int(m[2]); continue
            m = re.fullmatch(r"% Starting (\S+) with (\d+)s \((\d+)\) cores", l)
            if m: ev.append(["S", names.get(m[1], 0), 0]); started.append(dict(c=int(m[3]), t=int(m[2]))); continue
            m = re.fullmatch(r"% (\S+) with pid (\d+) completed with status (-?\d+)", l)
            if m: ev.append(["C", names.get(m[1], 0), int(m[3])]); continue
            m = re.fullmatch(r"% Result found by (\S+)", l)
            if m:
                i = names.get(m[1], 0); ev.append(["R", i, 0]); rest = "".join(lines[pos:]); whole = int(i > 0 and rest == text(i - 1, st[i - 1])); break
            if l == "% Schedule exhausted": ev.append(["X", 0, 0]); continue
            if l == "returned" and ev and ev[-1][0] == "X" and pos == len(lines): continue
            raise AssertionError("unexpected output %r" % l[:80])
        rc = p.returncode
        if sent and rc == -signal.SIGTERM and (ev[-1][0] == "X" or sum(e[0] == "C" for e in ev) == sum(e[0] == "S" for e in ev) == sched):     # request after the last worker failed: the coordinator is ending anyway
            rc = 77
            if ev[-1][0] != "X": ev.append(["X", 0, 0])
        if sc["term"] is not None and rc == 14 and not any(e[0] in "RX" for e in ev): ev.append(["T", 0, 0])
        lims = {i + 1: x["t"] for i, x in enumerate(started)}
        wrong = sum(1 for x in logl if x[0] == "S" and (len(x) < 5 or st[int(x[1])]["name"] != x[3] or lims.get(int(x[1]) + 1) != int(x[4]))) + (len({x[1] for x in logl if x[0] == "S"}) != sum(x[0] == "S" for x in logl))
        E = {int(x[1]) + 1 for x in logl if x[0] == "E"}; early = sum(1 for e in ev if e[0] == "C" and e[1] not in E and not (sent and e[2] == 14))
        res["rec"] = dict(n=len(st), max=sc["cores"], pre=sc["pre"], ser=sc["ser"], limit=sc["limit"], frac=[s["frac"] for s in st], cores=[s["cores"] for s in st], succ=[int(s["how"] in "tuscx") for s in st],
            exit=[-1 if s["how"] in "ak" else s["status"] for s in st], sched=sched, lim=lim, started=started, ev=ev, rc=rc, whole=whole, alive=alive, wrong=wrong, kind="c", early=early, term=int(sent))
    except (AssertionError, ValueError, IndexError, KeyError) as x: res["bad"] = "%s %s" % (type(x).__name__, x)
    finally: shutil.rmtree(d, ignore_errors=True)
    return res

def e2e(a):
    if len(HUNG) > 30: return None
    """the prover itself with a schedule, on a propositional problem"""
    E, tag = a; rng = random.Random(tag); v = rng.randint(2, 5); cl = [[rng.choice([1, -1]) * rng.randint(1, v) for _ in range(rng.choice([1, 2, 2, 3]))] for _ in range(rng.randint(2, 12))]; conj = rng.random() < .4
    lit = lambda x: ("~" if x < 0 else "") + "p%d" % abs(x)
    txt = "".join("fof(a%d,axiom,(%s)).\n" % (i, "|".join(map(lit, c))) for i, c in enumerate(cl)) + ("fof(c,conjecture,p1).\n" if conj else "")
    if conj: cl.append([-1])
    o = ["--%s=%d" % (rng.choice(["auto-schedule", "auto-schedule", "satauto-schedule"]), rng.choice([1, 2, 3, 4, 8]))] + (["-s"] if rng.random() < .3 else []) + (["--serialize-schedule=true"] if rng.random() < .25 else []) + (["--force-preproc-sched=%s" % rng.choice(["true", "false"])] if rng.random() < .3 else []) + (["--cpu-limit=%d" % rng.choice([20, 60])] if rng.random() < .4 else []) + (["-p"] if rng.random() < .3 else [])
    d = tempfile.mkdtemp(prefix="sched", dir=vlib.WORK); f = os.path.join(d, "t.p"); open(f, "w").write(txt); res = dict(inp=" ".join(o) + "\n" + txt, sc={})
    if rng.random() < .2: o += ["-o", os.path.join(d, "of")]
    try:
        p = subprocess.Popen([E] + o + [f], stdout=open(os.path.join(d, "out"), "wb"), stderr=subprocess.DEVNULL, stdin=subprocess.DEVNULL, start_new_session=True)
        try: p.wait(45)
        except subprocess.TimeoutExpired: HUNG.append(tag); os.killpg(p.pid, signal.SIGKILL); p.wait(); raise AssertionError("schedule on a propositional problem did not end")
        out = open(os.path.join(d, "out"), errors="replace").read() + (open(os.path.join(d, "of"), errors="replace").read() if "-o" in o else ""); res["out"] = out
        def living():
            n = 0
            for q in os.listdir("/proc"):
                if q.isdigit():
                    try:
                        g = open("/proc/%s/stat" % q).read().rsplit(")", 1)[1].split(); n += int(g[3]) == p.pid and g[0] != "Z"
                    except OSError: pass
            return n
        for _ in range(20):
            alive = living()
            if not alive: break
            time.sleep(.01)
        try: os.killpg(p.pid, signal.SIGKILL)
        except OSError: pass
        st = re.findall(r"^% SZS status (\w+)", out, re.M); ls = [l for l in out.splitlines() if re.match(r"% (Starting|Scheduled|Result found|Preprocessing class|Search class)", l)]
        nest = [l.split()[1] for l in ls if not re.match("% (Start)", l)]
        res["rec"] = dict(kind="e", P=cl, vars=v, conj=int(conj), status=st, rc=p.returncode, alive=alive, res=nest.count("Result"), classes=nest.count("Preprocessing"))
    except AssertionError as x: res["bad"] = str(x)
    finally: shutil.rmtree(d, ignore_errors=True)
    return res

def main():
    ck = vlib.Check("C09")
    r = vlib.tlc_run("SchedMC", "SPECIFICATION Spec\nINVARIANTS CoresOk Once Right NoStray ExhaustedOk\nPROPERTY Decides\nCHECK_DEADLOCK FALSE\n", workers=8, acc=ck.acc)
    if not r["ok"]: raise vlib.CheckError("Sched: " + r["out"][-600:])
    E = os.path.join(vlib.build("fo"), "PROVER", "eprover"); H = vlib.harness("sched")
    n = ck.scale(2000, 20000)
    with ThreadPool(16) as pool:
        res = pool.map(job, [(H, "C09/%d/%d" % (ck.seed, i)) for i in range(n)], chunksize=4)
        vlib.log("schedules", n)
        res += pool.map(e2e, [(E, "C09/e/%d/%d" % (ck.seed, i)) for i in range(ck.scale(600, 6000))], chunksize=4)
    vlib.log("prover runs"); recs = []; res = [x for x in res if x]
    def files(x): return {"input.txt": x["inp"], "output.txt": x.get("out", ""), "record.json": x.get("rec", {})}
    for i, x in enumerate(res):
        if "bad" in x: ck.violation("schedule: %s" % x["bad"], files(x)); continue
        x["rec"]["id"] = i; recs.append(x["rec"])
    for id_, info in vlib.tlc_validate("SchedTrace", recs, acc=ck.acc)[:40]: ck.violation("schedule: %s" % info, files(res[id_]))
    ck.traces = len(recs); ck.cov.update(prover_runs=sum(r['kind'] == 'e' for r in recs)); recs = [r for r in recs if r['kind'] == 'c']; ck.cov.update(schedules=len(recs), results=sum(any(e[0] == "R" for e in r["ev"]) for r in recs), exhausted=sum(any(e[0] == "X" for e in r["ev"]) for r in recs), terminated=sum(any(e[0] == "T" for e in r["ev"]) for r in recs),
        workers=sum(len(r["started"]) for r in recs), several_running=sum(r["max"] > 1 and r["n"] > 1 for r in recs), shuffled=sum([e[1] for e in r["ev"] if e[0] == "C"] != sorted(e[1] for e in r["ev"] if e[0] == "C") for r in recs), preprocessing=sum(r["pre"] for r in recs))
    for x in res[:2]: ck.sample(dict(input=x["inp"]))
    ck.finish()

if __name__ == "__main__": vlib.guard(main)
