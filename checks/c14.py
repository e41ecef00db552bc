"""C14 rewriting.  See DESIGN.md."""
import sys, os, re, random
sys.path.insert(0, os.path.join(os.path.dirname(os.path.abspath(__file__)), "..", "lib"))
import vlib, tptp, gen
from multiprocessing import Pool
VS = ["X1", "X2", "X3"]
def size(t): return 1 if t[0] != "F" else 1 + sum(size(a) for a in t[2])
def subterms(t): return [t] + [x for a in (t[2] if t[0] == "F" else []) for x in subterms(a)]
def subs(t, s): return s.get(t[1], t) if t[0] == "V" else t if t[0] == "T" else ("F", t[1], [subs(a, s) for a in t[2]])
def put(rng, t, u):
    if t[0] != "F" or not t[2] or rng.random() < .25: return u
    i = rng.randrange(len(t[2])); return ("F", t[1], [put(rng, a, u) if j == i else a for j, a in enumerate(t[2])])
def sig_of(rng):
    funs = {c: 0 for c in "abc"[:rng.randint(1, 3)]}
    for f, a, p in (("f", 1, .8), ("g", 1, .5), ("h", 2, .8), ("k", 2, .3)):
        if rng.random() < p: funs[f] = a
    if not any(funs.values()): funs["f"] = 1; funs["h"] = 2
    preds = {"p": 1}
    if rng.random() < .5: preds["q"] = 2
    return gen.Sig(funs, preds)
CLASSIC = ["h(X1,X2)=h(X2,X1)", "h(h(X1,X2),X3)=h(X1,h(X2,X3))", "h(X1,h(X2,X3))=h(X2,h(X1,X3))", "f(f(X1))=X1", "h(X1,X1)=X1", "h(a,X1)=X1", "f(h(X1,X2))=h(f(X2),f(X1))", "h(X1,f(X1))=a", "h(X1,f(X1))=h(X2,f(X2))", "k(X1,X2)=k(X1,X3)"]
def demod(rng, sig, pool):
    if rng.random() < .3:
        c = [x for x in CLASSIC if all(s in sig.funs for s in re.findall(r"\b[a-z]\b", x))]
        if c: return ("=",) + tuple(tptp.parse_term(z) for z in rng.choice(c).split("="))
    if rng.random() < .12: return gen.rand_lit(rng, sig, VS, 2, 0, 1)
    while True:
        l = gen.rand_term(rng, sig, VS, rng.randint(1, 2))
        if pool and rng.random() < .5:        # left sides that occur in the terms, generalised
            l = rng.choice(subterms(rng.choice(pool)))
            if l[0] == "F" and l[2] and rng.random() < .7:
                v = rng.choice(VS); x = rng.choice(l[2]); l = ("F", l[1], [("V", v) if a == x else a for a in l[2]])
        r = gen.rand_term(rng, sig, VS, rng.randint(0, 2)) if rng.random() < .6 else rng.choice(subterms(l)) if rng.random() < .5 else put(rng, l, gen.rand_term(rng, sig, VS, 1))
        if l != r and l[0] == "F" and size(l) <= 8 and size(r) <= 8: return ("=", l, r)

def job(a):
    H, seed = a
    rng = random.Random(seed); sig = sig_of(rng); kind = rng.choice(["KBO", "KBO", "LPO"]); strong = int(rng.random() < .15)
    lines = ["O %s %s %s %d" % (kind + ("6" if kind == "KBO" else "4"), rng.choice(["modarity", "freqrank", "constant", "invfreqrank", "precedence", "firstmaximal0"]), rng.choice(["unary_first", "freq", "invfreq", "arity", "const_min", "invfreqconstmin"]), strong)]
    for f, n in sig.funs.items():
        t = tptp.show(("F", f, [("V", "X%d" % (i + 1)) for i in range(n)])); lines += ["A cnf(z,axiom,(%s=%s))." % (t, t)] * rng.randint(1, 3)
    for p, n in sig.preds.items(): lines.append("A cnf(z,axiom,(%s))." % tptp.show(("F", p, [("V", "X%d" % (i + 1)) for i in range(n)])))
    ts = []
    while len(ts) < 9:
        t = gen.rand_term(rng, sig, VS if rng.random() < .5 else [], rng.randint(1, 4)) if rng.random() < .85 or not ts else put(rng, rng.choice(ts), rng.choice(subterms(rng.choice(ts))))
        if 2 <= size(t) <= 11: ts.append(t)
    atoms = [gen.rand_lit(rng, sig, VS, 2, 0, 1) for _ in range(2)]; atoms = [x for x in atoms if size(x) <= 9]
    nds = rng.randint(2, 7); demods = [demod(rng, sig, ts) for _ in range(nds)]
    if rng.random() < .5:                     # instances of left sides in the terms
        for d in rng.sample(demods, min(2, len(demods))):
            if d[0] == "=":
                u = subs(rng.choice(d[1:3]), {v: gen.rand_term(rng, sig, VS[:1], rng.randint(0, 2)) for v in VS})
                u = put(rng, rng.choice(ts), u) if rng.random() < .6 else u
                if 2 <= size(u) <= 12: ts.append(u)
    for x in atoms: lines.append("a cnf(a,axiom,(%s))." % tptp.show(x))
    for t in ts: lines.append("t " + tptp.show(t))
    lines.append("!"); plan = []
    nt = len(atoms) + len(ts); nk = 0
    def clause():
        return "cnf(a,axiom,(%s))." % "|".join(tptp.show(rng.choice([gen.rand_lit(rng, sig, VS, 2, .6, .6), ("=", rng.choice(ts), gen.rand_term(rng, sig, VS, 1)), ("~", ("=", rng.choice(ts), rng.choice(ts)))])) for _ in range(rng.randint(1, 3)))
    bwmode = rng.choice([0, 1, 1, 2])
    for d in demods:
        for _ in range(rng.randint(0, 5)):
            x = rng.random()
            if x < .6: q = (rng.randrange(nt), rng.choice([1, 2, 2, 2]), rng.randint(0, 1)); plan.append(("N",) + q); lines.append("N %d %d %d" % q)
            elif x < .8: c = clause(); q = (rng.choice([1, 2, 2]), rng.randint(0, 1)); plan.append(("c",) + q + (c,)); lines.append("c %d %d %s" % (q + (c,)))
            else: c = clause(); plan.append(("K", c)); lines.append("K 2 " + c); nk += 1
        nf = int(bwmode == 2 or rng.random() < .7);   # the prover adds normalised demodulators only, and backward rewriting relies on it
        plan.append(("D", d, nf, bwmode)); lines.append("D %d %d cnf(d,axiom,(%s))." % (nf, bwmode, tptp.show(d)))
        if bwmode:
            for i in range(nk): plan.append(("M", i)); lines.append("M %d" % i)
    for i in range(nt): q = (i, rng.choice([1, 2, 2]), rng.randint(0, 1)); plan.append(("N",) + q); lines.append("N %d %d %d" % q)
    txt = "\n".join(lines) + "\n"
    rc, out, err = vlib.run([H], inp=txt.encode(), timeout=110)
    res = dict(txt=txt)
    if rc != 0: res["crash"] = "rc %s %s" % (rc, err[-200:]); return res
    try:
        L = [l for l in out.split("\n") if l]; S = [l.split() for l in L if l.startswith("S ")]; P = [[int(x) for x in l.split()[1:]] for l in L if l.startswith("P ")]
        keep = [i for i, s in enumerate(S) if s[1] in sig.syms or s[1] == "$true"]; nm = [S[i][1] for i in keep]; enc = tptp.Enc(nm); vm = {}
        mt = [l for l in L if l.startswith("m ")][0][2:].strip()
        C = dict(kind=kind, w=[int(S[i][3]) for i in keep], vw=int([l for l in L if l.startswith("V ")][0][2:]), p=[[P[i][j] for j in keep] for i in keep], min=0, pr=[j + 1 for j, x in enumerate(nm) if x in sig.preds or x == "$true"])
        if strong:
            if mt not in nm: res["skipped"] = 1; return res
            C["min"] = nm.index(mt) + 1
        E = lambda s: (lambda t: [1] if t[0] == "T" else enc.term(t, vm))(tptp.parse_term(s.strip()))
        tp = [l[2:] for l in L if l.startswith("t ")]; assert len(tp) == nt
        ans = [l for l in L if l[0] in "nckdfM" and not l.startswith("t ")]; ev = []; desc = []; pos = 0
        def lits(l):                                  # " | flag term | term"
            f = l.split(" | ")[1:]; return [(int(f[i].split(" ", 1)[0]), f[i].split(" ", 1)[1], f[i + 1]) for i in range(0, len(f), 2)]
        def inlits(c):
            c = re.match(r"cnf\(a,axiom,\((.*)\)\)\.$", c).group(1); return c
        K = {}
        for x in plan:
            l = ans[pos]; pos += 1
            if x[0] == "N":
                u, v = l[2:].split(" | "); ev.append(dict(t="n", s=E(tp[x[1]]), u=E(u), v=E(v), lvl=x[2])); desc.append("%s normalises to %s (level %d)" % (tp[x[1]], u, x[2])); assert l[0] == "n"
            elif x[0] in ("c", "K", "M"):
                assert l[0] == ("M" if x[0] == "M" else x[0].lower()), (l, x)
                out_ = lits(l)
                if x[0] == "c":
                    for (sg, s, t) in out_:                     # every side of the result is irreducible
                        for z in (s, t): ev.append(dict(t="n", s=E(z), u=E(z), v=E(z), lvl=x[1])); desc.append("%s in a normalised clause (level %d)" % (z, x[1]))
                if x[0] == "K": K[int(l.split()[1])] = out_
                if x[0] == "M":
                    K[int(l.split()[1])] = out_
                    for (sg, s, t) in out_:
                        for z in ([t] if sg else [s, t]): ev.append(dict(t="n", s=E(z), u=E(z), v=E(z), lvl=2)); desc.append("%s in a processed clause" % z)
            elif x[0] == "D":
                if l == "d -1": continue
                found = None; gone = []
                if l[0] == "f":
                    found = [int(z) for z in l.split()[1:]]; gone = [-z - 1 for z in found if z < 0]; found = set(z for z in found if z >= 0); l = ans[pos]; pos += 1
                assert l[0] == "d", l
                h = l.split(" ", 3); (sg, s, t), = lits(l); i = int(h[1])
                if found is not None:
                    ks = sorted(K); ev.append(dict(t="b", l=E(s), r=E(t), c=[[[E(z), int(y == 0 and q[0])] for q in K[k] for y, z in enumerate(q[1:])] for k in ks], f=[int(k in found) for k in ks])); desc.append("backward rewriting with %s = %s" % (s, t))
                ev.append(dict(t="d", i=i, l=E(s), r=E(t), o=int(h[2]))); desc.append("demodulator %s = %s, oriented %s" % (s, t, h[2]))
                for g in gone: ev.append(dict(t="x", i=g)); desc.append("demodulator %d taken out" % g)
        assert pos == len(ans)
    except (AssertionError, IndexError, ValueError, KeyError, tptp.ParseError) as x: res["crash"] = "unreadable output %r" % x; return res
    res["rec"] = dict(C=C, ev=ev); res["desc"] = desc
    return res

def ejob(a):
    """enormalizer: left-to-right rules (size-decreasing, so that every ordering of the specification orients them), terms or clauses."""
    EN, D, seed = a
    rng = random.Random(seed); sig = sig_of(rng); rules = []
    vs = lambda t: [x[1] for x in subterms(t) if x[0] == "V"]
    while len(rules) < rng.randint(1, 6):
        l = gen.rand_term(rng, sig, VS, rng.randint(1, 3)); r = gen.rand_term(rng, sig, VS, rng.randint(0, 2)) if rng.random() < .5 else put(rng, l, rng.choice(subterms(l)))
        if l[0] == "F" and size(r) < size(l) <= 9 and all(vs(l).count(v) >= vs(r).count(v) for v in vs(r)): rules.append((l, r))
    ts = []
    while len(ts) < 12:
        t = gen.rand_term(rng, sig, VS if rng.random() < .5 else [], rng.randint(1, 4)) if rng.random() < .5 else subs(rng.choice(rules)[0], {v: gen.rand_term(rng, sig, VS[:1], rng.randint(0, 2)) for v in VS})
        if rng.random() < .3 and ts: t = put(rng, rng.choice(ts), t)
        if size(t) <= 14 and t[0] == "F": ts.append(t)
    f = os.path.join(D, seed.replace("/", "_")); clause = rng.random() < .4
    open(f + ".r", "w").write("".join("cnf(r,axiom,(%s=%s)).\n" % (tptp.show(l), tptp.show(r)) for l, r in rules))
    if clause: txt = "".join("cnf(c%d,axiom,(p(%s))).\n" % (i, tptp.show(t)) for i, t in enumerate(ts))
    else: txt = "\n".join(tptp.show(t) for t in ts) + "\n"
    open(f + ".t", "w").write(txt)
    rc, out, err = vlib.run([EN, "--tptp3-format", "-c" if clause else "-t", f + ".t", f + ".r"], timeout=60)
    res = dict(txt="rules:\n" + open(f + ".r").read() + "input:\n" + txt)
    os.remove(f + ".r"); os.remove(f + ".t")
    if rc != 0: res["crash"] = "enormalizer rc %s %s" % (rc, err[-200:]); return res
    nm = sorted(sig.funs) + sorted(sig.preds) + ["$true"]; enc = tptp.Enc(nm); vm = {}; n = len(nm)
    C = dict(kind="KBO", w=[1] * n, vw=1, p=[[2 if i == j else 3 if i > j else 4 for j in range(n)] for i in range(n)], min=0, pr=[j + 1 for j, x in enumerate(nm) if x in sig.preds or x == "$true"])
    E = lambda t: enc.term(t, vm)
    try:
        ev = [dict(t="d", i=i, l=E(l), r=E(r), o=1) for i, (l, r) in enumerate(rules)]; desc = ["rule"] * len(rules)
        L = [l.split(" ==> ") for l in out.split("\n") if " ==> " in l]; assert len(L) == len(ts)
        if clause: L = [[re.fullmatch(r"cnf\(\w+, axiom, \((.*)\)\)\.", x.strip()).group(1) for x in l] for l in L]
        if 1:
            for t, (a_, u) in zip(ts, L):
                if clause: t = ("F", "p", [t])
                z = tptp.parse_term(a_.strip()); assert re.sub("X[0-9]+", "X", tptp.show(z)) == re.sub("X[0-9]+", "X", tptp.show(t)); t = z
                u = tptp.parse_term(u.strip().rstrip(".")); ev.append(dict(t="n", s=E(t), u=E(u), v=E(u), lvl=1)); desc.append("enormalizer: %s normalised to %s" % (tptp.show(t), tptp.show(u)))
    except (AssertionError, IndexError, ValueError, KeyError, AttributeError, tptp.ParseError) as x: res["crash"] = "unreadable output %r" % x; return res
    res["rec"] = dict(C=C, ev=ev); res["desc"] = desc
    return res

def main():
    ck = vlib.Check("C14"); H = vlib.harness("rw")
    n = ck.scale(1500, 30000)
    with Pool(vlib.NCPU) as pool: res = pool.map(job, [(H, "C14/%d/%d" % (ck.seed, i)) for i in range(n)], chunksize=16)
    EN = os.path.join(vlib.build("fo"), "PROVER", "enormalizer"); SD = ck.scratch() if hasattr(ck, "scratch") else vlib.WORK; ne = ck.scale(250, 4000)
    with Pool(vlib.NCPU) as pool: res += pool.map(ejob, [(EN, SD, "C14E/%d/%d" % (ck.seed, i)) for i in range(ne)], chunksize=8)
    vlib.log("histories", n); recs = []
    for i, x in enumerate(res):
        if "crash" in x: ck.violation("rewriting history failed: %s" % x["crash"], {"input.txt": x["txt"]}); continue
        if "rec" in x: x["rec"]["id"] = i; recs.append(x["rec"])
    for id_, info in vlib.tlc_validate("RewriteTrace", recs, acc=ck.acc, timeout=3000, cost=lambda r: len(r["ev"]) + 3 * sum(e["t"] == "n" and e["s"] != e["u"] for e in r["ev"]))[:20]:
        k = int(info.split(",")[0]) - 1
        ck.violation("%s: %s" % (info.split(",")[1].strip(), res[id_]["desc"][k]), {"input.txt": res[id_]["txt"], "history.txt": "\n".join(res[id_]["desc"][:k + 1]) + "\n"})
    nn = [e for r in recs for e in r["ev"] if e["t"] == "n"]
    ck.traces = len(recs); ck.cov.update(histories=len(recs), normalisations=len(nn), changed=sum(e["s"] != e["u"] for e in nn), demodulators=sum(e["t"] == "d" for r in recs for e in r["ev"]), unoriented=sum(e["t"] == "d" and not e["o"] for r in recs for e in r["ev"]), removed=sum(e["t"] == "x" for r in recs for e in r["ev"]), backward=sum(len(e["c"]) for r in recs for e in r["ev"] if e["t"] == "b"))
    for x in res[:2]: ck.sample(dict(history=x.get("desc", [])[:12]))
    ck.finish()

if __name__ == "__main__": vlib.guard(main)
