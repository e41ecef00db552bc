"""C02 no false saturation.  See DESIGN.md."""
import sys, os, re, random
sys.path.insert(0, os.path.join(os.path.dirname(os.path.abspath(__file__)), "..", "lib"))
import vlib, tptp, gen, unsat
from multiprocessing import Pool

SATCLAIM = re.compile(r"SZS status (Satisfiable|CounterSatisfiable)")
UNSATCLAIM = re.compile(r"SZS status (Unsatisfiable|Theorem|ContradictoryAxioms)")
LIM = ["-s", "-C", "1000", "--generated-limit=10000", "--cpu-limit=2", "--memory-limit=768", "--tstp-in"]
LIMD = ["-s", "-C", "120", "--generated-limit=1000", "--cpu-limit=2", "--memory-limit=768", "--tstp-in"]
LIMK = ["-s", "-C", "300", "--generated-limit=3000", "--cpu-limit=2", "--memory-limit=768", "--tstp-in"]
PEQ = {"epr": .15, "fun": .15, "eq": .95, "mix": .4}

def closed(c):
    vs = gen.cvars(c)
    f = c[0] if c else ("Fa",)
    for l in c[1:]: f = ("|", f, l)
    return ("!", [(v, None) for v in vs], f) if vs else f

def as_text(rng, cs):
    """the clause set as cnf or as an equivalent fof problem, possibly with a conjecture"""
    r = rng.random()
    if r < .6: return gen.cnf_problem(cs, [rng.choice(["axiom", "axiom", "hypothesis", "negated_conjecture"]) for _ in cs] if rng.random() < .5 else None)
    txt = ""; n = len(cs); i = 0; conj = rng.randrange(n) if rng.random() < .7 else -1
    while i < n:
        f = closed(cs[i]); c = i == conj
        while rng.random() < .15 and i + 1 < n: i += 1; c = c or i == conj; f = ("&", f, closed(cs[i])) if rng.random() < .5 else ("~", ("=>", f, ("~", closed(cs[i]))))
        if rng.random() < .2: f = ("~", ("~", f))
        if c: f = ("~", f)
        txt += "fof(f%d,%s,%s).\n" % (i, "conjecture" if c else "axiom", tptp.show(f)); i += 1
    return txt

def call(E, rng, txt, opts, lim=LIM):
    cmd = [E] + lim + opts + ["-"]
    rc, out, err = vlib.run(cmd, inp=txt.encode(), timeout=20)
    m = re.search(r"SZS status (\w+)", out)
    return cmd, (m.group(1) if m else "rc%s" % rc), bool(SATCLAIM.search(out)), bool(UNSATCLAIM.search(out))

def options(rng):
    r = rng.random()
    o = gen.rand_options(rng)
    if r < .16 and not any(x.startswith(("--pm-", "--fp-index")) for x in o): o.append("--fp-index=NoIndex")
    return o

def ujob(a):
    E, seed, want = a
    rng = random.Random(seed)
    st = rng.choice(["epr", "fun", "eq", "mix", "mix"]); sig = gen.rand_sig(rng, st)
    pb = unsat.problem(rng, sig, PEQ[st])
    txt = as_text(rng, pb["clauses"])
    cmd, status, sat, un = call(E, rng, txt, options(rng))
    res = dict(txt=txt, cmd=cmd, status=status, sat=sat)
    if sat or want:
        enc = tptp.Enc(sig.syms); inp, nodes = unsat.encode(pb, enc)
        res["rec"] = dict(inp=inp, nodes=nodes, claimsat=1 if sat else 0)
    return res

def djob(a):
    """decidable problems: function-free, or with a domain closure axiom"""
    E, seed, nst = a
    rng = random.Random(seed)
    fin = rng.random() < .35
    if fin:
        nc = rng.choice([2, 2, 2, 3])
        funs = {c: 0 for c in "abc"[:nc]}
        funs["f"] = 1
        if rng.random() < .4: funs["g"] = 1
        if nc == 2 and rng.random() < .4: funs["h"] = 2
        preds = {p: a for p, a, pr in (("p", 1, .8), ("q", 2, .4)) if rng.random() < pr}
        sig = gen.Sig(funs, preds)
    else:
        sig = gen.rand_sig(rng, "epr")
        if rng.random() < .2: sig.funs["d"] = 0; sig = gen.Sig(sig.funs, sig.preds)
    n = rng.randint(4, 11); cs = []
    if fin: cs.append([("=", ("V", "X1"), ("F", c, [])) for c in sig.consts])
    for g in gen.special_clauses(rng, sig):
        if rng.random() < .25 and len(cs) < n: cs += g
    # mostly Horn-poor, short clauses: near the satisfiability threshold
    peq = .5 if fin else rng.choice([.1, .3, .5]); ppos = rng.choice([.4, .5, .6])
    while len(cs) < n:
        c = gen.rand_clause(rng, sig, rng.randint(0, 2), rng.choice([1, 2, 2, 2, 3]), 1 if fin else 0, peq, ppos)
        if any(l[0] == "=" and l[1] == l[2] for l in c) or len(gen.cvars(c)) > 3: continue
        cs.append(c)
    rng.shuffle(cs)
    runs = []
    for _ in range(nst):
        txt = as_text(rng, cs)
        runs.append((txt,) + call(E, rng, txt, options(rng), LIMD))
    enc = tptp.Enc(sig.syms)
    rec = dict(inp=[enc.clause(c) for c in cs], maxD=max(1, len(sig.consts)), far=[sig.funs[s] if s in sig.funs else -1 for s in sig.syms],
               sat=1 if any(r[3] for r in runs) else 0, unsat=1 if any(r[4] for r in runs) else 0)
    if not rec["sat"] and not rec["unsat"]: rec = None
    return dict(rec=rec, runs=runs, cs=cs, d=1)

def kjob(a):
    """clause sets grown until no interpretation is left"""
    E, seed, want = a
    rng = random.Random(seed); kp = gen.killer_problem(rng)
    if not kp: return None
    sig, cs = kp; txt = as_text(rng, cs)
    cmd, status, sat, un = call(E, rng, txt, options(rng), LIMK)
    res = dict(rec=None, runs=[(txt, cmd, status, sat, un)], cs=cs)
    if sat or want:
        enc = tptp.Enc(sig.syms)
        res["rec"] = dict(inp=[enc.clause(c) for c in cs], maxD=len(sig.consts), far=[sig.funs[s] if s in sig.funs else -1 for s in sig.syms], sat=1 if sat else 0, unsat=1 if un else 0, must=0)
    return res

def main():
    ck = vlib.Check("C02")
    bd = vlib.build("fo"); E = os.path.join(bd, "PROVER", "eprover")
    cfg = "SPECIFICATION FairSpec\nCONSTANTS Atoms = {1, 2}\nMaxInput = %d\nINVARIANTS TypeOk Sound NoLoss ActiveSaturated VerdictOk\nPROPERTY Terminates\n"
    r = vlib.tlc_run("GivenClause", cfg % ck.scale(2, 4), workers=8, acc=ck.acc, heap="4g")
    if not r["ok"]: raise vlib.CheckError("GivenClause: " + r["out"][-2000:])
    # 1. problems that are unsatisfiable by construction
    nu, every = ck.scale((22000, 16), (600000, 60))
    with Pool(vlib.NCPU) as pool:
        res = pool.map(ujob, [(E, "C02/%d/%d" % (ck.seed, i), i % every == 0) for i in range(nu)], chunksize=32)
        vlib.log("unsat runs", nu)
        nd, nst = ck.scale((1400, 5), (30000, 8))
        dres = pool.map(djob, [(E, "C02d/%d/%d" % (ck.seed, i), nst) for i in range(nd)], chunksize=8)
        vlib.log("decidable runs", nd)
        nk, ek = ck.scale((9000, 60), (200000, 200))
        kres = [r for r in pool.map(kjob, [(E, "C02k/%d/%d" % (ck.seed, i), i % ek == 0) for i in range(nk)], chunksize=16) if r]
        vlib.log("grown unsatisfiable runs", len(kres))
        dres += kres
    stat = {}
    for r in res: stat[r["status"]] = stat.get(r["status"], 0) + 1
    recs = [r for r in res if "rec" in r]
    for i, r in enumerate(recs): r["rec"]["id"] = i
    bad = vlib.tlc_validate("HerbrandCert", [r["rec"] for r in recs], acc=ck.acc)
    for id_, info in bad:
        r = recs[id_]
        if '"oracle"' in info: raise vlib.CheckError("certificate rejected by the specification: " + r["txt"])
        ck.violation("status %s for an unsatisfiable input; options %s" % (r["status"], " ".join(r["cmd"][1:-1])), {"problem.p": r["txt"], "cmd.txt": " ".join("'%s'" % c for c in r["cmd"]), "record.json": r["rec"]})
    # 2. exact decision
    drecs = [d for d in dres if d["rec"]]
    for i, d in enumerate(drecs): d["rec"]["id"] = i
    dstat = dict(problems=len(dres) - len(kres), grown_unsat_problems=len(kres), claimed_sat=sum(d["rec"]["sat"] for d in drecs), claimed_unsat=sum(d["rec"]["unsat"] for d in drecs))
    bad = vlib.tlc_validate("FinDecide", [d["rec"] for d in drecs], acc=ck.acc, timeout=3000)
    for id_, info in bad:
        d = drecs[id_]; want = 3 if "claimed-satisfiable" in info else 4
        for r in d["runs"]:
            if r[want]:
                if want == 4: ck.notes.append("refuted a satisfiable problem (property C01): " + " ".join(r[1][1:-1])); continue
                ck.violation("status %s for an unsatisfiable input; options %s" % (r[2], " ".join(r[1][1:-1])), {"problem.p": r[0], "cmd.txt": " ".join("'%s'" % c for c in r[1]), "record.json": d["rec"]})
    ck.traces = len(recs) + len(drecs)
    ck.cov.update(unsat_by_construction_runs=len(res), statuses=stat, decided_exactly=dstat, strategies_per_decided_problem=nst)
    for r in recs[:2]: ck.sample(dict(problem=r["txt"], options=" ".join(r["cmd"][1:-1]), status=r["status"]))
    for d in drecs[:2]: ck.sample(dict(problem=gen.cnf_problem(d["cs"]), statuses=[r[2] for r in d["runs"]]))
    ck.finish()

if __name__ == "__main__": vlib.guard(main)
