"""C01 refutational soundness.  See DESIGN.md."""
import sys, os, re, random, itertools
sys.path.insert(0, os.path.join(os.path.dirname(os.path.abspath(__file__)), "..", "lib"))
import vlib, tptp, gen
from multiprocessing import Pool

REFUTED = re.compile(r"SZS status (Unsatisfiable|Theorem|ContradictoryAxioms)")
LIM = ["--cpu-limit=1", "--memory-limit=768", "--tb-insert-limit=60000"]

def make(seed, kind):
    """(problem text, sig, inp clauses, inf formulas, models[(I,D)])"""
    rng = random.Random(seed)
    st = rng.choice(["epr", "fun", "eq", "mix", "mix"]); sig = gen.rand_sig(rng, st)
    D = rng.choice([1, 2, 2, 2, 3, 3]); I = gen.rand_interp(rng, sig, D)
    if kind == "kill":
        sig, cs, ms = gen.killer_problem(rng, True)
        if not cs: return None
        return gen.cnf_problem(cs), sig, cs, [], ms
    if kind == "cnf":
        if rng.random() < .25: sig, D, I, cs = gen.congruence_problem(rng)
        else: cs = gen.planted_clauses(rng, sig, [(I, D)], rng.randint(3, 10), st)
        if not cs: return None
        keep = lambda J: all(gen.ctrue(c, J, D) for c in cs)
        ms = [(I, D)] + [(J, D) for J in gen.perturb(rng, sig, I, D, keep)]
        roles = [rng.choice(["axiom", "axiom", "hypothesis", "negated_conjecture"]) for _ in cs]
        return gen.cnf_problem(cs, roles), sig, cs, [], ms
    fs = []; n = rng.randint(2, 5)
    for _ in range(200):
        if len(fs) >= n: break
        f = gen.rand_formula(rng, sig, rng.randint(2, 4), [], .25)
        if gen.fval(f, {}, I, D): fs.append(f)
        else: fs.append(("~", f))
    conj = rng.random() < .6
    txt = ""; inf = []
    for i, f in enumerate(fs):
        if conj and i == len(fs) - 1: txt += "fof(c%d,conjecture,%s).\n" % (i, tptp.show(("~", f) if rng.random() < .5 or f[0] != "~" else f[1]))
        else: txt += "fof(c%d,axiom,%s).\n" % (i, tptp.show(f))
    keep = lambda J: all(gen.fval(f, {}, J, D) for f in fs)
    ms = [(I, D)] + [(J, D) for J in gen.perturb(rng, sig, I, D, keep, 8)]
    return txt, sig, [], fs, ms

CNFLINE = re.compile(r"^cnf\(")
def derived(out, cap, rng):
    ls = [l for l in out.split("\n") if l.startswith("cnf(") and len(l) < 1500 and "inference(" in l]
    if len(ls) > 4 * cap: ls = ls[:cap] + rng.sample(ls[cap:], 3 * cap)
    seen = {}; 
    for l in ls:
        m = re.match(r"^cnf\([^,]+,\s*[a-z_]+,\s*(.*?),\s*inference\(", l)
        body = m.group(1) if m else l
        if body in seen: continue
        try: seen[body] = tptp.Parser(tptp.tokens(body)).formula()
        except tptp.ParseError: continue
        if len(seen) >= cap: break
    return list(seen.values())

def job(a):
    E, seed, kind, deep, cap = a
    mk = make(seed, kind)
    if not mk: return None
    txt, sig, inp, inf, ms = mk
    rng = random.Random(seed + "/o")
    opts = gen.rand_options(rng)
    cmd = [E] + LIM + ["-C", str(60 if deep else 100), "--generated-limit=1200", "--tstp-in"] + opts
    cmd += (["-l", "6", "--tstp-out"] if deep else ["-s"]) + ["-"]
    rc, out, err = vlib.run(cmd, inp=txt.encode(), timeout=20)
    ref = 1 if REFUTED.search(out) else 0
    status = re.search(r"SZS status (\w+)", out)
    res = dict(txt=txt, cmd=cmd, ref=ref, status=status.group(1) if status else "rc%s" % rc, seed=seed, kind=kind)
    if deep or ref:
        enc = tptp.Enc(sig.syms); ar = {**sig.funs, **sig.preds}; der = []; ders = []
        if deep:
            for f in derived(out, cap, rng):
                if all(n in ar and ar[n] == a for n, a in tptp.symbols(f)):
                    try: c = enc.clause(f)
                    except (tptp.ParseError, KeyError): continue
                    if c and c[0] <= {1: 6, 2: 6, 3: 5, 4: 4, 5: 3}[max(d for _, d in ms)]: der.append(c); ders.append(tptp.show(f) if f != ("Fa",) else "$false")
        res["rec"] = dict(D=[d for _, d in ms], I=[gen.enc_interp(i, sig.syms) for i, _ in ms],
                          inp=[enc.clause(c) or [0, [[1, [0, 1], [0, 1]]]] for c in inp], inf=[enc.formula(f) for f in inf], der=der, refuted=ref, need=1)
        for c in res["rec"]["inp"]:
            if c == [0, [[1, [0, 1], [0, 1]]]]: c[0] = 1
        res["ders"] = ders
    return res

def main():
    ck = vlib.Check("C01")
    bd = vlib.build("fo"); E = os.path.join(bd, "PROVER", "eprover")
    # 1. the specification itself
    cfgs = [("{1, 2}", 4)] if not ck.thorough else [("{1, 2}", 9), ("{1, 2, 3}", 3)]
    for A, mi in cfgs:
        r = vlib.tlc_run("GivenClause", "SPECIFICATION Spec\nCONSTANTS Atoms = %s\nMaxInput = %d\nINVARIANTS TypeOk Sound NoLoss ActiveSaturated VerdictOk\n" % (A, mi), workers=8, acc=ck.acc, heap="4g")
        if not r["ok"]: raise vlib.CheckError("GivenClause: " + r["out"][-2000:])
    # 2. recorded searches
    nd, nv = ck.scale((3500, 6000), (20000, 100000))
    jobs = [(E, "C01/%d/%d" % (ck.seed, i), ("fof", "cnf", "cnf", "kill", "cnf", "cnf", "fof", "cnf")[i % 8], i < nd, 60) for i in range(nd + nv)]
    with Pool(vlib.NCPU) as pool: res = [r for r in pool.imap(job, jobs, chunksize=16) if r]
    vlib.log("runs done", len(res))
    recs = []; by = {}
    for i, r in enumerate(res):
        if "rec" in r: r["rec"]["id"] = i; recs.append(r["rec"]); by[i] = r
    stat = {}
    for r in res: stat[r["status"]] = stat.get(r["status"], 0) + 1
    ck.cov.update(runs=len(res), statuses=stat, derived_clauses_judged=sum(len(r["der"]) for r in recs), options_sampled=len({" ".join(r["cmd"][5:-1]) for r in res}))
    bad = []
    for i in range(0, len(recs), 8000):
        bad += vlib.tlc_validate("SearchTrace", recs[i:i+8000], acc=ck.acc, cost=lambda r: len(r["der"]))
    ck.traces = len(recs)
    for id_, info in bad:
        r = by[id_]
        if info.startswith('"oracle"'): raise vlib.CheckError("planted model rejected by the specification: %s" % r["txt"])
        what = "%s; options %s" % (info, " ".join(r["cmd"][1:-1]))
        m = re.match(r'"unsound-clause", (\d+)', info)
        if m: what = "derived clause not a consequence of the input: %s; %s" % (r["ders"][int(m.group(1)) - 1], what)
        elif "refuted" in info: what = "status %s although the input has a finite model; %s" % (r["status"], what)
        ck.violation(what, {"problem.p": r["txt"], "cmd.txt": " ".join("'%s'" % c for c in r["cmd"]), "record.json": r["rec"]})
    for r in res[:2]: ck.sample(dict(problem=r["txt"], options=" ".join(r["cmd"][1:-1]), status=r["status"], derived=r.get("ders", [])[:5]))
    ck.finish()

if __name__ == "__main__": vlib.guard(main)
