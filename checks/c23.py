"""C23 grounding.  See DESIGN.md."""
import sys, os, re, random, shutil, tempfile
sys.path.insert(0, os.path.join(os.path.dirname(os.path.abspath(__file__)), "..", "lib"))
import vlib, tptp
from multiprocessing import Pool

def problem(rng):
    """random clause set; literal = (sign, predicate, args), argument > 0 constant, < 0 variable"""
    K = rng.choice([0, 1, 1, 2, 2, 2, 3, 3]); ar = [rng.choice([0, 1, 1, 1, 2, 2, 3]) for _ in range(rng.randint(1, 4))]
    if K == 3: ar = [min(a, 2) for a in ar]
    def arg(vs): return rng.choice(vs) if K == 0 or rng.random() < .65 else rng.randint(1, K)
    P = []; pn = rng.choice([.3, .5, .5, .7])
    for _ in range(rng.randint(1, 9)):
        vs = list(range(-rng.choice([1, 2, 2, 3, 3, 4 if K < 3 else 3] if K < 3 or rng.random() < .2 else [1, 2]), 0)); n = rng.choice([1, 1, 2, 2, 2, 3, 3, 4, 5] if rng.random() < .98 else [0])
        c = []
        for _ in range(n):
            p = rng.randrange(len(ar)); c.append((int(rng.random() >= pn), p + 1, [arg(vs) for _ in range(ar[p])]))
            if rng.random() < .05: c.append((1 - c[-1][0], p + 1, [x if rng.random() < .8 else arg(vs) for x in c[-1][2]]))
        P.append(c)
    return P, K
def fmt(P):
    def a(x): return "c%d" % x if x > 0 else "X%d" % -x
    def l(x): return ("" if x[0] else "~") + "p%d" % x[1] + ("(" + ",".join(map(a, x[2])) + ")" if x[2] else "")
    return "".join("cnf(n%d,%s,(%s)).\n" % (i, "axiom" if i % 3 else "negated_conjecture", "|".join(map(l, c)) or "$false") for i, c in enumerate(P))
def read(out, cm, new):
    """textual output -> clauses; cm: constant name -> number; predicates p1.. known, others new"""
    r = []
    for a in tptp.parse_all(tptp.strip_comments(out)):
        if a["role"] == "type": continue
        c = []
        for l in tptp.lits(a["f"]):
            s = 1
            while l[0] == "~": s = 1 - s; l = l[1]
            if l == ("F", "$false", []) and s: continue
            n = l[1]; args = []
            for t in l[2]:
                if t[0] != "F" or t[2]: raise AssertionError("argument %s is no constant" % (t,))
                if t[1] not in cm:
                    if re.fullmatch(r"c\d+", t[1]): raise AssertionError("constant " + t[1])
                    cm[t[1]] = len(cm) + 1
                args.append(cm[t[1]])
            if re.fullmatch(r"p\d+", n): p = int(n[1:])
            else: p = new.setdefault(n, 100 + len(new))
            c.append(dict(s=s, p=p, a=args))
        r.append(c)
    return r
def job(a):
    E, tag = a; rng = random.Random(tag); P, K = problem(rng); txt = fmt(P); used = sorted({x for c in P for l in c for x in l[2] if x > 0})
    cm0 = {"c%d" % x: i + 1 for i, x in enumerate(used)}; res = dict(txt=txt, opts="", out="", runs=0); runs = []
    PE = [[dict(s=s, p=p, a=[cm0["c%d" % x] if x > 0 else x for x in aa]) for s, p, aa in c] for c in P]
    d = tempfile.mkdtemp(prefix="gnd", dir=vlib.WORK)
    try:
        open(os.path.join(d, "t.p"), "w").write(txt)
        for _ in range(rng.randint(1, 3)):
            o = []; sp = rng.choice([0, 0, 0, 1, 1, 2, 4]); opt = dict(split=sp, usub=1, ures=1, taut=1, con=0)
            if sp: o.append("--split-tries=%d" % sp)
            for k, n, v in (("usub", ["-U", "--no-unit-subsumption"], 0), ("ures", ["-r", "--no-unit-resolution"], 0), ("taut", ["-t", "--no-tautology-detection"], 0), ("con", ["-c", "--constraints"], 1)):
                if rng.random() < .4: opt[k] = v; o.append(rng.choice(n))
            if rng.random() < .1: o.append("-i")
            if rng.random() < .1: o += ["-g", "1000000"]
            res["opts"] += " ".join(o) + "\n"
            of = rng.random() < .3
            def call(extra, name):
                cmd = [E, "--tstp-format", "-s"] + o + extra + (["-o", name] if of else []) + ["t.p"]
                rc, out, err = vlib.run(cmd, timeout=20, cwd=d)
                if of: out = open(os.path.join(d, name)).read()
                res["out"] += " ".join(cmd[1:]) + "\n" + out
                if rc != 0: raise AssertionError("eground ended with %s %s" % (rc, err[-200:]))
                if "Full and complete proof state written" not in out: raise AssertionError("output not declared complete")
                return out
            cm = dict(cm0); new = {}; cl = read(call([], "o1"), cm, new)
            if len(cm) > max(1, len(cm0)): raise AssertionError("new constants besides the problem's")
            if new and not sp: raise AssertionError("new predicates %s without splitting" % sorted(new))
            m = rng.random() < .4; dm = call(["--dimacs"] + (["-M"] if m else []), "o2")
            lines = [x for x in dm.splitlines() if x.strip() and not x.startswith("%")]
            h = lines[0].split()
            if h[:2] != ["p", "cnf"] or len(h) != 4: raise AssertionError("DIMACS header %r" % lines[0])
            nums = [int(x) for l in lines[1:] for x in l.split()]; dim = []; cur = []
            for x in nums:
                if x == 0: dim.append(cur); cur = []
                else: cur.append(x)
            if cur: raise AssertionError("unterminated DIMACS clause")
            runs.append(dict(opt=opt, new=sorted(new.values()), out=cl, dim=dim, dvars=int(h[2]), dcls=int(h[3])))
        res["rec"] = dict(P=PE, K=max(1, len(cm0)), runs=runs)
    except (AssertionError, ValueError, KeyError, IndexError, OSError, tptp.ParseError) as x: res["bad"] = "%s %s" % (type(x).__name__, x)
    finally: shutil.rmtree(d, ignore_errors=True)
    return res

def main():
    ck = vlib.Check("C23"); E = os.path.join(vlib.build("fo"), "PROVER", "eground")
    n = ck.scale(6000, 60000)
    with Pool(vlib.NCPU) as pool: res = pool.map(job, [(E, "C23/%d/%d" % (ck.seed, i)) for i in range(n)], chunksize=16)
    vlib.log("problems", n); recs = []
    for i, x in enumerate(res):
        if "bad" in x: ck.violation("grounder run: %s" % x["bad"], {"t.p": x["txt"], "options": x["opts"], "output.txt": x["out"]}); continue
        x["rec"]["id"] = i; recs.append(x["rec"])
    for id_, info in vlib.tlc_validate("GroundTrace", recs, acc=ck.acc, timeout=3000, cost=lambda r: sum(r["K"] ** len({v for l in c for v in l["a"] if v < 0}) for c in r["P"]) * len(r["runs"]))[:40]:
        x = res[id_]; ck.violation("grounding: run, %s" % info, {"t.p": x["txt"], "options": x["opts"], "output.txt": x["out"], "record.json": x["rec"]})
    rs = [x for r in recs for x in r["runs"]]
    ck.traces = len(rs); ck.cov.update(problems=len(recs), groundings=len(rs), split=sum(x["opt"]["split"] > 0 for x in rs), with_new_predicates=sum(bool(x["new"]) for x in rs), constrained=sum(x["opt"]["con"] for x in rs), empty_clause=sum([] in x["out"] for x in rs), clauses=sum(len(x["out"]) for x in rs))
    for x in res[:2]: ck.sample(dict(problem=x["txt"], options=x["opts"]))
    ck.finish()

if __name__ == "__main__": vlib.guard(main)
