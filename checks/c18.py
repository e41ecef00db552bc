"""C18 clause selection.  See DESIGN.md."""
import sys, os, re, random
sys.path.insert(0, os.path.join(os.path.dirname(os.path.abspath(__file__)), "..", "lib"))
import vlib, tptp
from multiprocessing import Pool

PRIO = ["ConstPrio", "PreferGoals", "PreferNonGoals", "PreferUnits", "PreferNonUnits", "PreferGround", "PreferNonGround", "PreferGroundGoals", "PreferUnitGroundGoals", "PreferMixed", "PreferPositive", "PreferNegative", "PreferHorn", "PreferNonHorn", "ByLiteralNumber"]
OTHER = ["Refinedweight(%s,2,1,1.5,1.1,2)", "OrientLMaxWeight(%s,2,1,2,1,1)", "PNRefinedweight(%s,2,1,1,1,2,2,1)", "SymbolTypeweight(%s,7,3,5,1,1,1.5,1.5)", "Depthweight(%s,2,1,1.5,1,1.2,3)", "Uniqweight(%s)"]
def queues(rng, exact):
    q = []; t = []
    for _ in range(rng.choice([1, 1, 2, 2, 2, 3, 4])):
        p = rng.choice(PRIO) if rng.random() < .5 else "ConstPrio"; w = rng.choice([1, 1, 2, 3, 5]); d = dict(w=w, prio=p, fw=0, vw=0, pm=10); x = rng.random()
        if x < .5: d.update(fun="Clauseweight", fw=rng.randint(1, 3), vw=rng.randint(0, 3), pm=rng.choice([5, 10, 15, 20, 30])); s = "Clauseweight(%s,%d,%d,%s)" % (p, d["fw"], d["vw"], d["pm"] / 10)
        elif x < .75: d.update(fun="FIFOWeight"); s = "FIFOWeight(%s)" % p
        elif x < .83 and exact: d.update(fun="LIFOWeight"); s = "LIFOWeight(%s)" % p
        elif exact: d.update(fun="other"); s = rng.choice(OTHER) % p
        else: d.update(fun="Clauseweight", fw=1, vw=1); s = "Clauseweight(%s,1,1,1)" % p
        q.append(d); t.append("%d*%s" % (w, s))
    return q, "(" + ",".join(t) + ")"
def term(rng, d):
    x = rng.random()
    if d == 0 or x < .5: return rng.choice(["a", "b", "X", "Y", "c"])
    return "f(%s)" % term(rng, d - 1) if x < .8 else "g(%s,%s)" % (term(rng, d - 1), term(rng, d - 1))
def clause(rng):
    l = []
    for _ in range(rng.choice([1, 1, 1, 2, 2, 3])):
        s = rng.random() < .5; x = rng.random()
        if x < .25: a, b = term(rng, 2), term(rng, 2); l.append(a + ("=" if s else "!=") + b)
        else: l.append(("" if s else "~") + ("q" if x < .35 else "p(%s)" % term(rng, 2) if x < .75 else "r(%s,%s)" % (term(rng, 2), term(rng, 1))))
    return "|".join(l)
def shape(f):
    """formula of the TPTP reader -> literals"""
    c = []
    def cnt(t):
        if t[0] == "V": return 0, 1
        r = [cnt(x) for x in t[2]]; return 1 + sum(x[0] for x in r), sum(x[1] for x in r)
    for l in tptp.lits(f):
        s = 1
        while l[0] == "~": s = 1 - s; l = l[1]
        eq = 0
        if l[0] in ("=", "!="): eq = 1; s = s if l[0] == "=" else 1 - s; a, b = cnt(l[1]), cnt(l[2]); n = (a[0] + b[0], a[1] + b[1])
        else: n = cnt(l)
        c.append(dict(s=s, eq=eq, f=n[0], v=n[1]))
    return c
def shp(txt): return shape(tptp.parse_all("cnf(a,axiom,(%s))." % txt)[0]["f"])
def evs(w): return [dict(p=int(w[i]), h=float(w[i + 1])) for i in range(0, len(w), 2)]
def job(a):
    H, tag = a; rng = random.Random(tag); q, d = queues(rng, True); inp = ["H " + d]; live = []; n = 0; plan = []; pool = [clause(rng) for _ in range(rng.randint(2, 12))]
    grow = rng.choice([.5, .6, .75])
    for _ in range(rng.choice([10, 30, 60, 90])):
        x = rng.random()
        if x < grow or not live: c = rng.choice(pool) if rng.random() < .4 else clause(rng); inp.append("I cnf(a,axiom,(%s))." % c); plan.append(("I", n, c)); live.append(n); n += 1; continue
        if x < grow + .02: inp.append("W"); plan.append(("W",)); continue
        inp.append("S"); plan.append(("S",)); live.append(None); live.pop(0)     # which one is not known here: only the number counts
    res = dict(inp="\n".join(inp) + "\n", out="")
    # removals need to know who is there: a second pass with removals of clauses the first run did not select
    try:
        def runit(text):
            rc, out, err = vlib.run([H], inp=text.encode(), timeout=30); res["out"] = out
            if rc != 0: raise AssertionError("harness ended with %s %s" % (rc, err[-200:]))
            return out.splitlines()
        o1 = runit(res["inp"]); sel = [int(l.split()[1]) for l in o1 if l.startswith("s ")]
        rest = [i for i in range(n) if i not in sel]; rm = set(x for x in rest if rng.random() < .4)
        if rm:
            ins2 = [inp[0]]; plan2 = []; pend = []
            for l, pl in zip(inp[1:], plan):
                ins2.append(l); plan2.append(pl)
                if pl[0] == "I" and pl[1] in rm: pend.append(pl[1])
                if pl[0] != "I" and pend and rng.random() < .5: x = pend.pop(rng.randrange(len(pend))); ins2.append("X %d" % x); plan2.append(("X", x))
            # a removal of a clause never selected changes nothing for the others
            inp, plan = ins2, plan2; res["inp"] = "\n".join(inp) + "\n"; o1 = runit(res["inp"])
        it = iter(o1); assert next(it) == "ready %d" % len(q), "heuristic not accepted as given"; ops = []
        for pl in plan:
            if pl[0] == "I":
                w = next(it).split(); ops.append(dict(o="I", id=int(w[1]), c=shp(pl[2]), ev=evs(w[2:])))
            elif pl[0] == "X": ops.append(dict(o="X", id=pl[1]))
            elif pl[0] == "W":
                al = []
                for l in it:
                    if l == "end": break
                    w = l.split(); al.append(dict(id=int(w[1]), ev=evs(w[2:])))
                ops.append(dict(o="W", all=al))
            else: ops.append(dict(o="S", id=int(next(it).split()[1])))
        al = [e["ev"] for o in ops if o["o"] == "I" for e in [o]] + [e["ev"] for o in ops if o["o"] == "W" for e in o["all"]]
        for j, x in enumerate(q):               # unspecified functions: only the order of their values counts
            rk = {v: i for i, v in enumerate(sorted({e[j]["h"] for e in al}))}
            for e in al: e[j]["h"] = rk[e[j]["h"]] if x["fun"] == "other" else round(e[j]["h"] * 10)
        res["rec"] = dict(kind="h", q=q, ops=ops, left=int(next(it).split()[1]))
    except (AssertionError, ValueError, IndexError, StopIteration, tptp.ParseError) as x: res["bad"] = "%s %s" % (type(x).__name__, x)
    return res
def e2e(a):
    """a saturation, watched through the step listing of level 6"""
    E, tag = a; rng = random.Random(tag); q, d = queues(rng, False); cl = [clause(rng) for _ in range(rng.randint(3, 9))]
    txt = "".join("cnf(n%d,%s,(%s)).\n" % (i, rng.choice(["axiom", "negated_conjecture"]), c) for i, c in enumerate(cl))
    o = ["-l6", "-H" + d, "--cpu-limit=3", "--generated-limit=1500", "--processed-clauses-limit=%d" % rng.choice([20, 40]), "-t" + rng.choice(["KBO6", "LPO4"]), "-W" + rng.choice(["NoSelection", "SelectNegativeLiterals", "SelectLargestNegLit"])] + (["--no-preprocessing"] if rng.random() < .5 else [])
    res = dict(inp=" ".join(o) + "\n" + txt, out="")
    rc, out, err = vlib.run([E] + o, inp=txt.encode(), timeout=30); res["out"] = out
    try:
        par = {}; ev = {}; cls = []; step = 0
        for l in out.splitlines():
            m = re.match(r"cnf\((c_0_\d+), \w+, \((.*?)\), ?(c_0_\d+),\['(\w+)'\]\)\.$", l)
            if not m:
                m = re.match(r"cnf\((c_0_\d+), \w+, .*inference\((\w+), ?\[status\(\w+\)\],\[(c_0_\d+)", l)
                if m: par[m[1]] = (m[2], m[3])
                continue
            step += 1
            if m[4] == "eval": ev[m[1]] = len(cls); cls.append(dict(c=shp(m[2]), at=step, sel=0))
            elif m[4] == "new_given":
                x = m[3]
                while x not in ev and x in par: x = par[x][1]       # simplified after selection: the first parent is the clause itself
                if x in ev: cls[ev[x]]["sel"] = cls[ev[x]]["sel"] or step
                else: raise AssertionError("given clause %s was never evaluated" % m[1])
            else: par[m[1]] = (m[4], m[3])
        if "$" in "".join(l for l in out.splitlines() if "['eval']" in l): return None       # t != t is printed as $false: its weight is not visible
        res["rec"] = dict(kind="e", q=q, cl=cls)
    except (AssertionError, tptp.ParseError, IndexError) as x: res["bad"] = "%s %s" % (type(x).__name__, x)
    return res

def main():
    ck = vlib.Check("C18")
    for fifo in ("TRUE", "FALSE"):
        r = vlib.tlc_run("SelectMC", "SPECIFICATION Spec\nCONSTANT Fifo = %s\nPROPERTY Fair\nCHECK_DEADLOCK FALSE\n" % fifo, workers=8, acc=ck.acc)
        if r["ok"] != (fifo == "TRUE"): raise vlib.CheckError("SelectMC: " + r["out"][-600:])
    H = vlib.harness("sel"); E = os.path.join(vlib.build("fo"), "PROVER", "eprover")
    n = ck.scale(4000, 40000)
    with Pool(vlib.NCPU) as pool: res = pool.map(job, [(H, "C18/%d/%d" % (ck.seed, i)) for i in range(n)], chunksize=16) + pool.map(e2e, [(E, "C18/e/%d/%d" % (ck.seed, i)) for i in range(ck.scale(1500, 15000))], chunksize=16)
    vlib.log("histories", n); recs = []; res = [x for x in res if x]
    for i, x in enumerate(res):
        if "bad" in x: ck.violation("selection: %s" % x["bad"], {"input.txt": x["inp"], "output.txt": x["out"]}); continue
        x["rec"]["id"] = i; recs.append(x["rec"])
    for id_, info in vlib.tlc_validate("SelectTrace", recs, acc=ck.acc, timeout=2000)[:40]: x = res[id_]; ck.violation("selection: %s" % info, {"input.txt": x["inp"], "output.txt": x["out"], "record.json": x["rec"]})
    hs = [r for r in recs if r["kind"] == "h"]; es = [r for r in recs if r["kind"] == "e"]
    if not sum(c["sel"] > 0 for r in es for c in r["cl"]): raise vlib.CheckError("no selections seen in saturations")
    ck.traces = len(recs); ck.cov.update(histories=len(hs), selections=sum(o["o"] == "S" for r in hs for o in r["ops"]), evaluated_again=sum(o["o"] == "W" for r in hs for o in r["ops"]), removals=sum(o["o"] == "X" for r in hs for o in r["ops"]), saturations=len(es), selected_in_saturations=sum(c["sel"] > 0 for r in es for c in r["cl"]))
    for x in res[:2]: ck.sample(dict(input=x["inp"][:800]))
    ck.finish()

if __name__ == "__main__": vlib.guard(main)
