"""C22 axiom filtering.  See DESIGN.md."""
import sys, os, re, random, shutil, tempfile
sys.path.insert(0, os.path.join(os.path.dirname(os.path.abspath(__file__)), "..", "lib")); sys.path.insert(0, os.path.dirname(os.path.abspath(__file__)))
import vlib, tptp, gen
from c02 import closed
from multiprocessing import Pool

def occ(f, acc):
    """occurrences of the problem's symbols"""
    if isinstance(f, tuple):
        if f[0] == "F": acc[f[1]] = acc.get(f[1], 0) + 1
        for x in f[1:]: occ(x, acc)
    elif isinstance(f, list):
        for x in f: occ(x, acc)
    return acc

def alpha(f, env=None):
    """formula with variables numbered in order of binding / occurrence"""
    env = {} if env is None else env
    def go(f, env, free):
        if isinstance(f, list): return [go(x, env, free) for x in f]
        if not isinstance(f, tuple): return f
        if f[0] == "V": return ("V", env[f[1]]) if f[1] in env else ("V", free.setdefault(f[1], -len(free) - 1))
        if f[0] in "!?" and len(f) == 3 and isinstance(f[1], list):
            e = dict(env); vs = []
            for v in f[1]: e[v[0]] = len(e) + 100; vs.append(e[v[0]])
            return quant(f[0], vs, go(f[2], e, free))
        return (f[0],) + tuple(go(x, env, free) for x in f[1:])
    return go(f, {}, {})
def quant(q, vs, b):
    for v in reversed(vs): b = (q, v, b)
    return b
def strip(f):
    while f[0] == "!": f = f[2]
    r = []
    def go(x):
        if x[0] == "|": go(x[1]); go(x[2])
        else: r.append(x)
    go(f); return r
def variant(A, B, m=None):
    """clauses equal up to order of literals, sides of equations and a renaming of variables"""
    def tm(s, t, m):
        if s[0] == "V" or t[0] == "V":
            if s[0] != t[0]: return None
            if s[1] in m or t[1] in m.values(): return m if m.get(s[1]) == t[1] else None
            return {**m, s[1]: t[1]}
        if s[1] != t[1] or len(s[2]) != len(t[2]): return None
        for x, y in zip(s[2], t[2]):
            m = tm(x, y, m)
            if m is None: return None
        return m
    def lt(a, b, m):
        if (a[0] == "~") != (b[0] == "~"): return []
        if a[0] == "~": a, b = a[1], b[1]
        if (a[0] == "=") != (b[0] == "="): return []
        if a[0] != "=": return [x for x in [tm(a, b, m)] if x is not None]
        r = []
        for p, q in ((b[1], b[2]), (b[2], b[1])):
            x = tm(a[1], p, m); x = tm(a[2], q, x) if x is not None else None
            if x is not None: r.append(x)
        return r
    if len(A) != len(B): return False
    if not A: return True
    return any(variant_(A[1:], B[:j] + B[j + 1:], x, lt) for j, b in enumerate(B) for x in lt(A[0], b, {}))
def variant_(A, B, m, lt):
    return not A or any(variant_(A[1:], B[:j] + B[j + 1:], x, lt) for j, b in enumerate(B) for x in lt(A[0], b, m))

def job(a):
    E, seed = a
    rng = random.Random(seed); names = [("c%d" % i, 0, 0) for i in range(rng.randint(1, 4))] + [("f%d" % i, rng.choice([1, 2]), 0) for i in range(rng.randint(0, 3))] + [("p%d" % i, rng.choice([0, 1, 1, 2]), 1) for i in range(rng.randint(2, 8))]
    if not any(a and p for _, a, p in names): names.append(("p9", 1, 1))
    sub = lambda k: rng.sample(names, min(k, len(names)))
    def term(S, vs, d):
        if rng.random() < .5 or d == 0:
            c = [n for n, a, p in S if not p and not a]
            return ("V", rng.choice(vs)) if not c or rng.random() < .5 else ("F", rng.choice(c), [])
        fs = [x for x in S if not x[2] and x[1]]
        if not fs: return term(S, vs, 0)
        n, a, _ = rng.choice(fs); return ("F", n, [term(S, vs, d - 1) for _ in range(a)])
    def lit(S, vs):
        ps = [x for x in S if x[2]]
        if not ps or rng.random() < .2: l = ("=", term(S, vs, 1), term(S, vs, 1))
        else: n, a, _ = rng.choice(ps); l = ("F", n, [term(S, vs, rng.randint(0, 2)) for _ in range(a)])
        return l if rng.random() < .7 else ("~", l)
    def form(S, vs, d):
        if d == 0 or rng.random() < .3: return lit(S, vs)
        o = rng.choice(["&", "|", "=>", "<=>", "!", "?"])
        if o in "!?": return (o, [("Y%d" % d, None)], form(S, vs + ["Y%d" % d], d - 1))
        return (o, form(S, vs, d - 1), form(S, vs, d - 1))
    P = []; lines = []; pnull = rng.choice([0, 0, .1])
    for i in range(rng.randint(2, 14)):
        S = sub(rng.choice([1, 2, 2, 3, 4])) if rng.random() >= pnull else []
        role = rng.choice(["axiom"] * 6 + ["hypothesis", "definition", "lemma"]) if i else rng.choice(["conjecture"] * 8 + ["negated_conjecture", "axiom"])
        cnf = rng.random() < .4 and role != "conjecture"
        if cnf: f = lit(S, ["X1", "X2"]); f = [f] + [lit(S, ["X1", "X2"]) for _ in range(rng.choice([0, 1, 1, 2]))]
        else: f = ("!", [("X1", None)], form(S, ["X1"], rng.randint(0, 2)))
        P.append(dict(f=f, role=role, cnf=cnf)); lines.append("%s(n%d,%s,(%s)).\n" % ("cnf" if cnf else "fof", i, role, "|".join(tptp.show(l) for l in f) if cnf else tptp.show(f)))
    order = list(range(len(P))); rng.shuffle(order); txt = "".join(lines[i] for i in order)
    sy = [n for n, _, _ in names]; runs = []; spec = ""
    for k in range(rng.randint(2, 5)):
        if rng.random() < .12: t = rng.randint(0, len(P) + 2); runs.append(dict(kind="threshold", thr=t, fl=0)); spec += "f%d = Threshold(%d)\n" % (k, t); continue
        fl = dict(terms=rng.randint(0, 1), hypos=rng.randint(0, 1), ben=rng.choice([4, 4, 5, 6, 8, 12, 24, 400]), gen=rng.choice([1, 2, 3, 10, 10, 100]), depth=rng.choice([1, 2, 3, 5, 20, 20]), size=rng.choice([1, 2, 3, 5, 8, 100, 100, 100]), frac=rng.choice([1, 2, 3, 4, 4, 4, 4]), nosym=rng.randint(0, 1))
        runs.append(dict(kind="gsine", thr=0, fl=fl))
        spec += "f%d = GSinE(%s,%s,%s,%d,%d,%d,%s,%s)\n" % (k, ["CountFormulas", "CountTerms"][fl["terms"]], ["nohypos", "hypos"][fl["hypos"]], fl["ben"] / 4, fl["gen"], fl["depth"], fl["size"], fl["frac"] / 4, ["ignorenosymb", "addnosymb"][fl["nosym"]])
    d = tempfile.mkdtemp(prefix="axf", dir=vlib.WORK); res = dict(txt=txt, spec=spec, out="")
    try:
        open(os.path.join(d, "t.p"), "w").write(txt); open(os.path.join(d, "s"), "w").write(spec)
        rc, out, err = vlib.run([E, "--tstp-in", "-f", "s", "t.p"], timeout=20, cwd=d)
        if rc != 0: res["bad"] = "e_axfilter ended with %s %s" % (rc, err[-200:]); return res
        for k, r in enumerate(runs):
            if "goes into file t_f%d.p" % k not in out: raise AssertionError("result file of f%d not announced" % k)
            o = open(os.path.join(d, "t_f%d.p" % k)).read(); res["out"] += o; r["res"] = []
            for a in tptp.parse_all(tptp.strip_comments(o)):
                if a["role"] == "type": continue
                i = int(a["name"][1:]); r["res"].append(i + 1); p = P[i]
                ok = variant(strip(a["f"]), p["f"]) if p["cnf"] else alpha(a["f"]) == alpha(p["f"])
                if not ok or not same_role(a["role"], p["role"]): raise AssertionError("formula n%d not passed on unchanged: %s" % (i, a))
        res["rec"] = dict(P=[dict(seed={"conjecture": 1, "negated_conjecture": 1, "hypothesis": 2}.get(p["role"], 0), cnt=[occ(p["f"], {}).get(s, 0) for s in sy]) for p in P], runs=runs)
    except (AssertionError, ValueError, KeyError, IndexError, OSError, tptp.ParseError) as x: res["bad"] = "%s %s" % (type(x).__name__, x)
    finally: shutil.rmtree(d, ignore_errors=True)
    return res
def same_role(got, want): return got == want or (want in ("axiom", "definition", "lemma") and got == "axiom") or (want in ("definition", "lemma") and got == "plain")

def main():
    ck = vlib.Check("C22"); E = os.path.join(vlib.build("fo"), "PROVER", "e_axfilter")
    n = ck.scale(5000, 60000)
    with Pool(vlib.NCPU) as pool: res = pool.map(job, [(E, "C22/%d/%d" % (ck.seed, i)) for i in range(n)], chunksize=16)
    vlib.log("problems", n); recs = []
    for i, x in enumerate(res):
        if "bad" in x: ck.violation("filter run: %s" % x["bad"], {"t.p": x["txt"], "filters": x["spec"], "output.txt": x["out"]}); continue
        x["rec"]["id"] = i; recs.append(x["rec"])
    for id_, info in vlib.tlc_validate("SineTrace", recs, acc=ck.acc, timeout=3000, cost=lambda r: len(r["P"]) * len(r["runs"]))[:40]:
        x = res[id_]; ck.violation("axiom selection: run, %s" % info, {"t.p": x["txt"], "filters": x["spec"], "output.txt": x["out"], "record.json": x["rec"]})
    rs = [(len(r["P"]), x) for r in recs for x in r["runs"]]
    ck.traces = len(rs); ck.cov.update(problems=len(recs), selections=len(rs), thresholds=sum(x["kind"] == "threshold" for _, x in rs), proper=sum(0 < len(x["res"]) < m for m, x in rs), everything=sum(len(x["res"]) == m for m, x in rs))
    for x in res[:2]: ck.sample(dict(problem=x["txt"], filters=x["spec"]))
    ck.finish()

if __name__ == "__main__": vlib.guard(main)
