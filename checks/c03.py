"""C03 limits, incompleteness, statuses and exit codes.  See DESIGN.md."""
import sys, os, re, random
sys.path.insert(0, os.path.join(os.path.dirname(os.path.abspath(__file__)), "..", "lib"))
import vlib, tptp, gen, unsat
from multiprocessing import Pool
sys.path.insert(0, os.path.dirname(os.path.abspath(__file__)))
from c02 import closed, as_text, PEQ

SINE = "gf500_gu_R04_F100_L20000 gf120_gu_RUU_F100_L00500 gf120_gu_R02_F100_L20000 gf150_gu_RUU_F100_L20000 gf120_gu_RUU_F100_L00100 gf200_gu_R03_F100_L20000 gf600_gu_R05_F100_L20000 gf120_h_gu_R02_F100_L20000 gf200_h_gu_R03_F100_L20000 gf120_h_gu_RUU_F100_L00100 Auto".split()
BASE = ["-l", "1", "--print-statistics", "--cpu-limit=4", "--memory-limit=768", "--tstp-in"]

def problem(rng):
    """text, conj, sat, axsat, certificate or None"""
    r = rng.random()
    if r < .5:
        st = rng.choice(["epr", "fun", "eq", "mix", "mix"]); sig = gen.rand_sig(rng, st)
        pb = unsat.problem(rng, sig, PEQ[st]); txt = as_text(rng, pb["clauses"])
        enc = tptp.Enc(sig.syms); inp, nodes = unsat.encode(pb, enc)
        return txt, 0, 2, ("h", dict(inp=inp, nodes=nodes, claimsat=1))
    if r < .65:
        kp = gen.killer_problem(rng)
        if kp:
            sig, cs = kp; enc = tptp.Enc(sig.syms)
            return as_text(rng, cs), 0, 2, ("f", dict(inp=[enc.clause(c) for c in cs], maxD=len(sig.consts), far=[sig.funs[s] if s in sig.funs else -1 for s in sig.syms], sat=1, unsat=0))
    st = rng.choice(["epr", "fun", "eq", "mix", "mix"]); sig = gen.rand_sig(rng, st)
    D = rng.choice([1, 2, 2, 3]); I = gen.rand_interp(rng, sig, D); enc = tptp.Enc(sig.syms)
    fs = []
    for _ in range(rng.randint(2, 6)):
        f = gen.rand_formula(rng, sig, rng.randint(1, 3), [], .25); fs.append(f if gen.fval(f, {}, I, D) else ("~", f))
    txt = "".join("fof(a%d,%s,%s).\n" % (i, rng.choice(["axiom", "axiom", "hypothesis", "lemma"]), tptp.show(f)) for i, f in enumerate(fs))
    sat = 1
    allf = list(fs)
    if rng.random() < .65:
        f = gen.rand_formula(rng, sig, rng.randint(1, 3), [], .25)
        if rng.random() < .35 : f = (rng.choice("|"), f, rng.choice(fs))       # provable
        if gen.fval(f, {}, I, D): sat = 2
        else: allf.append(("~", f))
        txt += "fof(g,%s,%s).\n" % ("conjecture", tptp.show(f))
    return txt, sat, 1, ("m", dict(D=[D], I=[gen.enc_interp(I, sig.syms)], inp=[], inf=[enc.formula(f) for f in (allf if sat == 1 else fs)], der=[], refuted=0, need=1))

def options(rng):
    """options, flags"""
    k = rng.choice(["lim", "lim", "prune", "prune", "drop", "drop", "restr", "restr", "inc", "none", "none", "service", "watch", "auto"])
    fl = dict(limited=1, restr=0, lost=0, service=0, maxproc=-1)
    o = gen.rand_options(rng, autos=False) if rng.random() < .7 else []
    o = [x for x in o if not x.startswith("--delete-bad")]
    lims = ["-C", "300", "--generated-limit=3000"]; fl["maxproc"] = 300
    if k in ("lim", "watch") or rng.random() < .1:
        lims = []; fl["maxproc"] = -1
        for _ in range(rng.choice([1, 1, 2])):
            x = rng.choice(["-C", "-P", "-U", "-T", "g", "t"])
            if x == "-C":
                if fl["maxproc"] >= 0: continue
                fl["maxproc"] = rng.choice([0, 1, 2, 3, 5, 10, 30]); lims += [x, str(fl["maxproc"])]
            elif x in ("-P", "-U", "-T"): lims += [x, str(rng.choice([1, 2, 3, 5, 10, 30]))]
            elif x == "g": lims.append("--generated-limit=%d" % rng.choice([0, 1, 3, 10, 100]))
            else: lims.append("--tb-insert-limit=%d" % rng.choice([1, 20, 100, 1000]))
        if fl["maxproc"] < 0: lims += ["-C", "300"]; fl["maxproc"] = 300
    if k == "prune":
        if rng.random() < .75: o.append("--sine=" + rng.choice(SINE))
        else: o.append("--rel-pruning-level=%d" % rng.choice([1, 2, 3, 4]))
    if k == "drop": o.append("--delete-bad-limit=%d" % rng.choice([1, 1000, 10000, 100000, 300000]))
    if k == "restr":
        x = rng.choice(["W", "f", "p", "l"]); fl["restr"] = 1
        if x == "W":
            if "-W" in o: o[o.index("-W") + 1] = "NoGeneration"
            else: o += ["-W", "NoGeneration"]
        elif x == "f": o.append("--disable-eq-factoring")
        elif x == "p": o.append("--disable-paramod-into-neg-units")
        else: o = [y for y in o if not y.startswith("--literal-comparison") and y != "--restrict-literal-comparisons"] + ["--literal-comparison=TFOEqMax"]
        if rng.random() < .15: o.append("--assume-completeness")
    if k == "inc": o.append("--assume-incompleteness"); fl["lost"] = 1
    if k == "auto": o = ["--auto"]
    if k == "service": o = [rng.choice(["--cnf", "--syntax-only", "--prune"])]; fl["service"] = 1
    if k == "watch": o.append(rng.choice(["--watchlist=Use inline watchlist type", "--static-watchlist=Use inline watchlist type"]))
    if rng.random() < .3: o.append(rng.choice(["--proof-object", "--print-saturated", "-R", "--print-strategy", "--force-deriv=1", "--print-pid", "--proof-statistics"]))
    if any(x.startswith("--print-strategy") for x in o): o = [x for x in o if not x.startswith("--print-strategy")]
    return k, lims + o, fl

def job(a):
    E, seed = a
    rng = random.Random(seed)
    txt, sat, axsat, cert = problem(rng); k, opts, fl = options(rng)
    if k == "watch":
        src = re.findall(r"^cnf\(\w+,\s*\w+,(.*)\)\.$", txt, re.M)
        if not src: return None
        txt += "".join("cnf(w%d,watchlist,%s).\n" % (i, rng.choice(src)) for i in range(rng.randint(1, 3)))
    conj = 1 if re.search(r"^fof\(\w+,conjecture", txt, re.M) else 0
    if rng.random() < .04:          # uninterpreted arithmetic: the calculus is not complete for it
        txt += "tff(ar,axiom,(%s)).\n" % rng.choice(["$less(1,2)", "![X:$int]:$lesseq(X,X)", "?[X:$int]:$greater(X,1)"]); fl["restr"] = 1; sat = 2
    cmd = [E] + BASE + opts + ["-"]
    rc, out, err = vlib.run(cmd, inp=txt.encode(), timeout=30)
    return finish(txt, cmd, rc, out, err, conj, sat, axsat, cert, fl, k)

def finish(txt, cmd, rc, out, err, conj, sat, axsat, cert, fl, k):
    st = re.findall(r"^\s*[%#]+ SZS status (\w+)", out, re.M)
    m = re.search(r"Removed by relevancy pruning/SinE\s*: (\d+)", out)
    lost = fl["lost"] or (1 if m and int(m.group(1)) > 0 else 0)
    m = re.findall(r"orphaned clauses and (\d+) bad", out)
    lost = lost or (1 if any(int(x) for x in m) else 0)
    m = re.search(r"Processed clauses\s*: (\d+)", out)
    np_ = int(m.group(1)) if m and "--presat-simplify" not in cmd and "-R" not in cmd else -1
    rec = dict(st=st, rc=rc if rc is not None else 999, conj=conj, lost=lost, restr=fl["restr"], limited=fl["limited"], service=fl["service"], sat=sat, axsat=axsat, nproc=np_, maxproc=fl["maxproc"], ext=0)
    return dict(rec=rec, txt=txt, cmd=cmd, cert=cert, kind=k, err=err[-300:])

HARD = """cnf(a,axiom,(p(X,Y,Z)|~q(X,Y)|~q(Y,Z))). cnf(b,axiom,(q(f(X,Y),g(Y))|~q(X,Y))). cnf(b2,axiom,(q(X,f(Y,X))|~q(Y,X)|r(Y))). cnf(b3,axiom,(q(g(X),Y)|~q(Y,X))).
cnf(b4,axiom,(f(f(X,Y),Z)=f(X,f(Y,Z)))). cnf(b5,axiom,(f(X,Y)=f(Y,X))). cnf(c,axiom,(q(a,b))). cnf(d,axiom,(~r(g(g(a))))).
"""
def timed(a):
    E, conj, opts = a
    txt = HARD + ("fof(g,conjecture,(?[X]:z(X))).\n" if conj else "")
    cmd = [E, "--tstp-in"] + opts + ["-"]
    rc, out, err = vlib.run(cmd, inp=txt.encode(), timeout=120)
    return finish(txt, cmd, rc, out, err, conj, 2, 2, None, dict(limited=1, restr=0, lost=0, service=0, maxproc=-1), "timed")

def main():
    ck = vlib.Check("C03")
    bd = vlib.build("fo"); E = os.path.join(bd, "PROVER", "eprover")
    r = vlib.tlc_run("Verdict", "SPECIFICATION Spec\nCONSTANT MaxSteps = %d\nINVARIANTS NoDefiniteWhenIncomplete Truth ConjForm ExitOk\nPROPERTY Ends\n" % ck.scale(4, 12), workers=8, acc=ck.acc)
    if not r["ok"]: raise vlib.CheckError("Verdict: " + r["out"][-2000:])
    n = ck.scale(24000, 250000)
    tm = [(E, c, o) for c in (0, 1) for o in (["-s", "--cpu-limit=1"], ["-s", "--soft-cpu-limit=1", "--cpu-limit=6"], ["--soft-cpu-limit=1", "--cpu-limit=6", "--proof-object"], ["--cpu-limit=1", "--auto"])]
    with Pool(vlib.NCPU) as pool:
        res = [x for x in pool.map(job, [(E, "C03/%d/%d" % (ck.seed, i)) for i in range(n)], chunksize=16) if x]
        res += pool.map(timed, tm, chunksize=1)
    vlib.log("runs", len(res))
    for i, x in enumerate(res): x["rec"]["id"] = i
    bad = vlib.tlc_validate("VerdictTrace", [x["rec"] for x in res], acc=ck.acc)
    stat = {}
    for x in res:
        s = "%s/%s" % (x["kind"], ",".join(x["rec"]["st"]) or "none"); stat[s] = stat.get(s, 0) + 1
    ck.cov.update(runs=len(res), outcomes=stat, pruned_or_dropped=sum(x["rec"]["lost"] for x in res))
    # a verdict contradicting the constructed truth counts only if the specification confirms the construction
    for id_, info in bad[:12]:
        x = res[id_]
        if "claimed-for" in info and x["cert"]:
            kind, c = x["cert"]; c["id"] = 0
            b = vlib.tlc_validate({"h": "HerbrandCert", "f": "FinDecide", "m": "SearchTrace"}[kind], [c])
            if kind == "h" and any("oracle" in i for _, i in b) or kind == "f" and not b or kind == "m" and b:
                raise vlib.CheckError("generator's claim rejected by the specification: " + x["txt"])
        ck.violation("%s: statuses %s, exit code %s; options %s" % (info, x["rec"]["st"], x["rec"]["rc"], " ".join(x["cmd"][1:-1])), {"problem.p": x["txt"], "cmd.txt": " ".join("'%s'" % c for c in x["cmd"]), "record.json": x["rec"], "stderr.txt": x["err"]})
    ck.traces = len(res)
    for x in res[:3]: ck.sample(dict(problem=x["txt"], options=" ".join(x["cmd"][1:-1]), record=x["rec"]))
    ck.finish()

if __name__ == "__main__": vlib.guard(main)
