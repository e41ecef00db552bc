"""C05 clausification preserves models.  See DESIGN.md."""
import sys, os, re, random
sys.path.insert(0, os.path.join(os.path.dirname(os.path.abspath(__file__)), "..", "lib"))
import vlib, tptp, gen, extend
from multiprocessing import Pool

def sig_of(rng):
    funs = {"a": 0}; preds = {}
    if rng.random() < .4: funs["b"] = 0
    if rng.random() < .35: funs["f"] = 1
    if rng.random() < .1: funs["h"] = 2
    for p, a, pr in (("p", 1, .8), ("q", 2, .6), ("r", 1, .4), ("s", 0, .4), ("t", 0, .2)):
        if rng.random() < pr: preds[p] = a
    # names the clausifier would pick itself
    if rng.random() < .3: funs[rng.choice(["esk1_0", "esk2_0", "esk3_0"])] = 0
    if rng.random() < .15: funs["esk1_1"] = 1
    if rng.random() < .3: preds[rng.choice(["epred1_0", "epred2_0"])] = 0
    if rng.random() < .15: preds["epred1_1"] = 1
    if not preds: preds["p"] = 1
    return gen.Sig(funs, preds)

def formula(rng, sig, depth):
    r = rng.random()
    if r < .25:            # equivalence chains and disjunctions of conjunctions: definitions become worthwhile
        fs = [gen.rand_formula(rng, sig, rng.choice([1, 2]), [], .2) for _ in range(rng.randint(2, 4))]
        f = fs[0]
        for g in fs[1:]: f = (rng.choice(["<=>", "<=>", "<~>", "|", "&"]), f, g)
        return f
    if r < .5:             # deep quantifier prefix with a matrix
        vs = ["Y%d" % i for i in range(rng.randint(2, 4))]
        m = gen.rand_formula(rng, sig, rng.choice([1, 2, 3]), vs, .2)
        for v in reversed(vs): m = (rng.choice("!?"), [(v, None)], m)
        if rng.random() < .3: m = ("~", m)
        return m
    return gen.rand_formula(rng, sig, depth, [], .2)

def shared(rng, sig):
    """formulas built over a few common subformulas in mixed polarity: definitions are shared between formulas"""
    vs = rng.sample(["Y0", "Y1"], rng.choice([0, 0, 1, 1, 2]))
    pool = [gen.rand_formula(rng, sig, rng.choice([1, 2]), vs, .2) for _ in range(rng.randint(1, 3))]
    def comb(d):
        if d == 0: return rng.choice(pool) if rng.random() < .75 else gen.rand_formula(rng, sig, 1, vs, .2)
        o = rng.choice(["&", "|", "|", "=>", "<=>", "~", "<~>", "<="])
        return ("~", comb(d - 1)) if o == "~" else (o, comb(d - 1), comb(d - 1))
    out = []
    for _ in range(rng.randint(1, 3)):
        f = comb(rng.choice([1, 2, 2, 3]))
        for v in vs: f = (rng.choice("!!?"), [(v, None)], f)
        out.append(f)
    return out

def job(a):
    E, seed, nI = a
    rng = random.Random(seed); sig = sig_of(rng)
    n = rng.choice([1, 1, 2, 3]); fs = [formula(rng, sig, rng.randint(2, 5)) for _ in range(n)]
    if rng.random() < .5: fs = shared(rng, sig); n = len(fs)
    conj = rng.random() < .5
    txt = "".join("fof(c%d,%s,%s).\n" % (i, "conjecture" if conj and i == n - 1 else rng.choice(["axiom", "hypothesis"]), tptp.show(f)) for i, f in enumerate(fs))
    if conj: fs = fs[:-1] + [("~", fs[-1])]
    opts = []
    if rng.random() < .8: opts.append("--definitional-cnf=%d" % rng.choice([0, 1, 1, 1, 2, 3, 5, 24]))
    if rng.random() < .5: opts.append("--miniscope-limit=%d" % rng.choice([0, 1, 5, 20, 256, 100000]))
    opts += ["--no-eq-unfolding"]           # unfolding removes definitions: a preprocessing step after clausification
    if rng.random() < .7: opts.append("--no-preprocessing")
    cmd = [E, "--cnf", "-s", "--tstp-format", "--cpu-limit=10"] + opts + ["-"]
    rc, out, err = vlib.run(cmd, inp=txt.encode(), timeout=20)
    res = dict(txt=txt, cmd=cmd, recs=[], skipped=0)
    if rc != 0 or "CNFization successful" not in out and "Proof found" not in out:
        res["crash"] = "rc %s: %s" % (rc, (err or out)[-200:]); return res
    body = [l for l in out.split("\n") if l.startswith("cnf(")]
    if "Proof found" in out and "CNFization successful" not in out: cls = [("Fa",)]
    else: cls = [x["f"] for x in tptp.parse_all("\n".join(body))]
    used = set(s for f in fs for s, _ in tptp.symbols(f))       # only these are input symbols: E may introduce the others
    sig = gen.Sig({f: a for f, a in sig.funs.items() if f in used}, {q: a for q, a in sig.preds.items() if q in used})
    pp = set()           # names at predicate position
    new = {}
    for f in cls:
        for l in tptp.lits(f):
            at = l[1] if l[0] == "~" else l
            if at[0] == "F": pp.add(at[1])
        for s, ar in tptp.symbols(f):
            if s not in sig.funs and s not in sig.preds: new[s] = ar
    nin = len(sig.syms); news = sorted(new)
    enc = tptp.Enc(sig.syms + news)
    try:
        cl = [c for c in (enc.clause(f) for f in cls) if c is not None]; inf = [enc.formula(f) for f in fs]
    except (KeyError, tptp.ParseError) as x: res["crash"] = "unreadable clause form %r" % x; return res
    if any(tptp.maxvar(f) > 40 for f in inf): return res
    isp = [1 if s in pp else 0 for s in news]; res["new"] = len(news); res["ncl"] = len(cl)
    for _ in range(nI):
        D = rng.choice([1, 1, 2, 2, 2, 3]); mv = max([c[0] for c in cl], default=0)
        if D * mv > 20 or D ** mv * max(1, len(cl)) > 3000: D = 2
        if D * mv > 12: D = 1
        if D * mv > 20 or any(a > 3 for a in new.values()) or mv > 6: res["skipped"] += 1; continue
        I = gen.rand_interp(rng, sig, D); tv = all(gen.fval(f, {}, I, D) for f in fs)
        if rng.random() < .7:
            for _ in range(6):
                if tv: break
                I = gen.rand_interp(rng, sig, D); tv = all(gen.fval(f, {}, I, D) for f in fs)
        Ie = gen.enc_interp(I, sig.syms)
        A = extend.solve(cl, Ie, D, nin, isp)
        if A == "?": res["skipped"] += 1; continue
        rec = dict(D=D, I=Ie, inf=inf, cl=cl, isp=isp, has=0 if A is None else 1, ext=[] if A is None else extend.tables(A, D, nin, [new[s] for s in news]))
        res["tv"] = res.get("tv", 0) + tv
        if A is None and not tv: res["none"] = res.get("none", 0) + 1; continue        # as required: no extension, formula false
        # both agree: the specification judges a sample of these; every disagreement is judged
        if tv == (A is not None) and len(res["recs"]) >= 2: res["agree"] = res.get("agree", 0) + 1; continue
        res["recs"].append(rec)
    return res

def main():
    ck = vlib.Check("C05")
    bd = vlib.build("fo"); E = os.path.join(bd, "PROVER", "eprover")
    n, nI = ck.scale((20000, 10), (200000, 14))
    with Pool(vlib.NCPU) as pool: res = pool.map(job, [(E, "C05/%d/%d" % (ck.seed, i), nI) for i in range(n)], chunksize=16)
    vlib.log("clausified", n)
    recs = []; own = []
    for x in res:
        if "crash" in x: ck.violation("clausification failed: %s; options %s" % (x["crash"], " ".join(x["cmd"][1:-1])), {"problem.p": x["txt"], "cmd.txt": " ".join(x["cmd"])})
        for r in x["recs"]: r["id"] = len(recs); recs.append(r); own.append(x)
    bad = []
    for i in range(0, len(recs), 20000):
        bad += vlib.tlc_validate("ModExt", recs[i:i+20000], acc=ck.acc, cost=lambda r: len(r["cl"]) * r["D"] ** max([c[0] for c in r["cl"]], default=0))
    for id_, info in bad[:12]:
        x = own[id_]
        if "oracle" in info: raise vlib.CheckError("extension certificate rejected: " + x["txt"])
        ck.violation("%s; options %s" % (info, " ".join(x["cmd"][1:-1])), {"problem.p": x["txt"], "cmd.txt": " ".join(x["cmd"]), "record.json": recs[id_]})
    ck.traces = len(recs)
    ck.cov.update(problems=len(res), interpretations_with_clause_model=sum(r["has"] for r in recs), agreeing_not_resubmitted=sum(x.get('agree', 0) for x in res), refuted_both_ways=sum(x.get("none", 0) for x in res), skipped_too_large=sum(x["skipped"] for x in res),
                  problems_with_introduced_symbols=sum(1 for x in res if x.get("new")), max_clauses=max(x.get("ncl", 0) for x in res))
    for x in res[:3]: ck.sample(dict(problem=x["txt"], options=" ".join(x["cmd"][1:-1]), clauses=x.get("ncl")))
    ck.finish()

if __name__ == "__main__": vlib.guard(main)
