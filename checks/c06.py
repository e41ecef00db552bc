"""C06 answers to questions.  See DESIGN.md."""
import sys, os, re, random
sys.path.insert(0, os.path.join(os.path.dirname(os.path.abspath(__file__)), "..", "lib")); sys.path.insert(0, os.path.dirname(os.path.abspath(__file__)))
import vlib, tptp, gen
from c02 import closed
from multiprocessing import Pool
LIM = ["--cpu-limit=3", "--memory-limit=768", "--generated-limit=3000"]
PEQ = {"epr": .1, "fun": .1, "eq": .7, "mix": .3}

def varside(l, signs):
    """l is an equation with a variable as a side and of a polarity in signs.  Such equations bound the domain and are left out, see the known finding."""
    p = l[0] != "~"; l = l if p else l[1]
    return l[0] == "=" and p in signs and any(t[0] == "V" for t in l[1:3])

def problem(rng):
    """axioms (ASTs, no existential quantifiers to skolemise), existential variables, body, models"""
    st = rng.choice(["epr", "epr", "fun", "fun", "eq", "mix", "mix"]); sig = gen.rand_sig(rng, st); peq = PEQ[st]
    D = rng.choice([1, 2, 2, 3, 3]); I = gen.rand_interp(rng, sig, D)
    for p in sig.preds: I[p] = [int(rng.random() < .7) for _ in I[p]]
    ax = []
    for _ in range(rng.randint(2, 8)):
        for _ in range(20):
            if rng.random() < .55: c = [gen.rand_lit(rng, sig, ["X1"] if rng.random() < .3 else [], rng.choice([0, 1, 1, 2]), peq, .95) for _ in range(rng.choice([1, 1, 1, 2, 2, 3]))]
            else: c = gen.rand_clause(rng, sig, rng.randint(1, 2), rng.randint(2, 3), 1, peq, .5)
            if any(varside(l, [True]) for l in c): continue
            if gen.ctrue(c, I, D) and len(gen.cvars(c)) <= 3: ax.append(c); break
    if not ax: return None
    n = rng.choice([1, 1, 2, 2, 3]); vs = ["Y%d" % i for i in range(1, n + 1)]
    ops = [rng.choice(["&", "&", "&", "|", "=>"]) for _ in range(rng.choice([0, 0, 1, 1, 2]))]; z = rng.random()
    def lit(vs, pp=.85):
        while True:
            l = gen.rand_lit(rng, sig, vs, rng.choice([0, 0, 1]), peq * .7, pp)
            if not varside(l, [True, False] if "=>" in ops else [False]): return l
    body = lit(vs)
    for o in ops: body = (o, body, lit(vs))
    inner = vs
    if z < .08: body = ("!", [("Z", None)], ("|", body, lit(vs + ["Z"], .5)))
    elif z < .12: inner = vs + ["Z"]; body = ("|", body, lit(inner, .8))
    elif z < .16: body = ("&", ("?", [("Z", None)], lit(vs + ["Z"], .8)), body)
    ms = [(I, D)]; ok = lambda J, d: all(gen.ctrue(c, J, d) for c in ax)
    for _ in range(6):          # models with few true atoms, other functions, other sizes
        d = rng.choice([D, D, 1, 2, 2, 3]); J = {s: list(t) for s, t in I.items()} if d == D else gen.rand_interp(rng, sig, d)
        if d == D:
            for f in sig.funs:
                K = {**J, f: [rng.randrange(d) for _ in J[f]]}
                if ok(K, d): J = K
        else:
            for p in sig.preds: J[p] = [1] * len(J[p])
            if not ok(J, d): continue
        cells = [(p, i) for p in sig.preds for i in range(len(J[p])) if J[p][i]]; rng.shuffle(cells)
        for p, i in cells[:40]:
            J[p][i] = 0
            if not ok(J, d): J[p][i] = 1
        if (J, d) not in ms: ms.append((J, d))
    return sig, ax, vs, inner, body, ms

def tuples(line):
    """disjunction of tuples of terms in an SZS answers line"""
    m = re.search(r"SZS answers Tuple \[(.*)\|_\]\s*$", line)
    if not m: raise tptp.ParseError("answer line " + line)
    s = m.group(1); p = tptp.Parser(tptp.tokens(s)); out = []
    def tup():
        p.eat("["); ts = []
        if p.peek() == "]": p.next(); return ts
        while True:
            ts.append(p.appl()); t = p.next()
            if t == "]": return ts
            if t != ",": raise tptp.ParseError("tuple " + s)
    if p.peek() == "(":
        p.next(); out.append(tup())
        while p.peek() == "|": p.next(); out.append(tup())
        p.eat(")")
    else: out.append(tup())
    if p.peek() is not None: raise tptp.ParseError("trailing text in " + s)
    return out

def job(a):
    E, seed = a
    rng = random.Random(seed); pb = problem(rng)
    if not pb: return None
    sig, ax, vs, inner, body, ms = pb
    asq = rng.random() < .8; lines = []
    for i, c in enumerate(ax):
        lines.append("cnf(a%d,axiom,(%s)).\n" % (i, "|".join(tptp.show(l) for l in c)) if rng.random() < .6 else "fof(a%d,axiom,%s).\n" % (i, tptp.show(closed(c))))
    core = tptp.show(body) if inner is vs else "?[Z]:(%s)" % tptp.show(body); q = "?[%s]:(%s)" % (",".join(vs), core)
    if len(vs) > 1 and rng.random() < .2: q = "?[%s]:(?[%s]:(%s))" % (vs[0], ",".join(vs[1:]), core)
    lines.insert(rng.randint(0, len(lines)), "fof(q,%s,(%s)).\n" % ("question" if asq else "conjecture", q)); txt = "".join(lines)
    opts = [o for o in gen.rand_options(rng) if not o.startswith("--goal-")] if rng.random() < .7 else []
    n = rng.choice([1, 1, 2, 3, 6, 6]); cmd = [E, "-s", "-C", str(rng.choice([60, 200]))] + LIM + ["--tstp-format"] + (["--answers=%d" % n] if n > 1 or rng.random() < .5 else []) + ([] if asq else ["--conjectures-are-questions"]) + opts + ["-"]
    rc, out, err = vlib.run(cmd, inp=txt.encode(), timeout=30)
    res = dict(txt=txt, cmd=cmd, out=out); A = [l for l in out.split("\n") if "SZS answers" in l]
    m = re.search(r"SZS status (\w+)", out); res["status"] = m.group(1) if m else "rc%s" % rc; res["answers"] = A; res["sk"] = 0
    if not A: return res
    try:
        enc = tptp.Enc(sig.syms); ans = []
        if len(A) > max(n, 1) and "--presat-simplify" not in opts: raise tptp.ParseError("%d answers, %d requested" % (len(A), n))
        for l in A:
            vm = {}; T = tuples(l)
            if any(s not in enc.n for t in T for x in t for s, _ in tptp.symbols(x)):
                unknown = [s for t in T for x in t for s, _ in tptp.symbols(x) if s not in enc.n]
                if all(re.match(r"^esk\d+_\d+$", s) for s in unknown) and body[0] in ("!", "?", "&"): res["sk"] += 1; continue
                raise tptp.ParseError("answer with symbol %s" % unknown)
            ans.append(dict(tup=[[enc.term(x, vm) for x in t] for t in T], nv=len(vm)))
            if len(vm) > 5: ans.pop()
        ex = {v: i + 1 for i, v in enumerate(inner)}
        res["rec"] = dict(inp=[enc.formula(closed(c)) for c in ax], n=len(inner), body=enc.formula(body, ex, [len(inner)]), ans=ans, D=[d for _, d in ms], I=[gen.enc_interp(j, sig.syms) for j, _ in ms])
    except (tptp.ParseError, KeyError, IndexError) as x: res["bad"] = "%s %s" % (type(x).__name__, x)
    return res

# the inputs of the known finding: an equation that bounds the domain rewrites the answer tuple itself
COLLAPSE = [("collapse-1", "fof(a0,axiom,q(c,b)).\nfof(q,question,(?[Y1]:(q(g(c),Y1)))).\ncnf(a1,axiom,(X1=c)).\ncnf(a2,axiom,(q(X1,b)|~q(g(a),h(a,b))|q(c,b))).\ncnf(a3,axiom,(q(h(b,b),c))).\n", ["--answers=6"], 1, {"a", "b", "c", "g", "h"})]

def main():
    ck = vlib.Check("C06"); E = os.path.join(vlib.build("fo"), "PROVER", "eprover")
    for name, txt, o, k, syms in COLLAPSE:
        rc, out, err = vlib.run([E, "-s", "-C", "60"] + LIM + ["--tstp-format"] + o + ["-"], inp=txt.encode(), timeout=30)
        for l in out.split("\n"):
            if "SZS answers" in l:
                T = tuples(l); bad = [s for t in T for x in t for s, _ in tptp.symbols(x) if s not in syms]
                if bad or any(len(t) != k for t in T): ck.violation("input %s: the tuple itself was rewritten: %s" % (name, l), {"problem.p": txt, "output.txt": out}); break
    n = ck.scale(12000, 150000)
    with Pool(vlib.NCPU) as pool: res = [x for x in pool.map(job, [(E, "C06/%d/%d" % (ck.seed, i)) for i in range(n)], chunksize=8) if x]
    vlib.log("runs", len(res)); recs = []
    files = lambda x: {"problem.p": x["txt"], "cmd.txt": " ".join("'%s'" % c for c in x["cmd"]), "output.txt": x["out"]}
    for i, x in enumerate(res):
        if "bad" in x: ck.violation("malformed answer: %s; options %s" % (x["bad"], " ".join(x["cmd"][1:-1])), files(x))
        if "rec" in x: x["rec"]["id"] = i; recs.append(x["rec"])
    for id_, info in vlib.tlc_validate("AnswerTrace", recs, acc=ck.acc, timeout=3000, cost=lambda r: 3 + len(r["ans"])):
        x = res[id_]; w, k = [z.strip().strip('"') for z in info.split(",")[:2]]
        ck.violation("%s: %s; options %s" % (w, x["answers"][int(k) - 1] if not x["sk"] else x["answers"], " ".join(x["cmd"][1:-1])), {**files(x), "record.json": x["rec"]})
    ck.traces = len(recs); stat = {}
    for x in res: stat[x["status"]] = stat.get(x["status"], 0) + 1
    ck.cov.update(runs=len(res), statuses=stat, answers=sum(len(r["ans"]) for r in recs), disjunctive=sum(len(a["tup"]) > 1 for r in recs for a in r["ans"]), with_variables=sum(a["nv"] > 0 for r in recs for a in r["ans"]), skolem_skipped=sum(x["sk"] for x in res), models=sum(len(r["I"]) for r in recs))
    for x in [y for y in res if y["answers"]][:3]: ck.sample(dict(problem=x["txt"], options=" ".join(x["cmd"][1:-1]), answers=x["answers"]))
    ck.finish()

if __name__ == "__main__": vlib.guard(main)
