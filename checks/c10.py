"""C10 term orderings.  See DESIGN.md."""
import sys, os, re, random
sys.path.insert(0, os.path.join(os.path.dirname(os.path.abspath(__file__)), "..", "lib"))
import vlib, tptp, gen
sys.setrecursionlimit(20000)
from multiprocessing import Pool

WG = "none firstmaximal0 arity aritymax0 modarity modaritymax0 aritysquared aritysquaredmax0 invarity invaritymax0 invaritysquared invaritysquaredmax0 precedence invprecedence precrank5 precrank10 precrank20 freqcount invfreqcount freqrank invfreqrank invconjfreqrank freqranksquare invfreqranksquare invmodfreqrank invmodfreqrankmax0 constant".split()
PG = "none unary_first unary_freq arity invarity const_max const_min freq invfreq invconjfreq invfreqconjmax invfreqconjmin invfreqconstmin invfreqhack arrayopt".split()
ORD = "KBO KBO6 KBO6 KBO6 LPO LPOCopy LPO4 LPO4Copy".split()

def sig_of(rng):
    funs = {c: 0 for c in "abc"[:rng.randint(1, 3)]}
    for f, a, p in (("f", 1, .8), ("g", 1, .4), ("h", 2, .7), ("k", 2, .3), ("j", 3, .15)):
        if rng.random() < p: funs[f] = a
    preds = {p: a for p, a, pr in (("p", 1, .7), ("q", 2, .5), ("s", 0, .3)) if rng.random() < pr}
    if not preds: preds["p"] = 1
    return gen.Sig(funs, preds)

def subs(t, s):
    if t[0] == "T": return t
    if t[0] == "V": return s.get(t[1], t)
    return ("F", t[1], [subs(a, s) for a in t[2]])
def subterms(t): return [t] + [x for a in (t[2] if t[0] == "F" else []) for x in subterms(a)]
def size(t): return 1 if t[0] != "F" else 1 + sum(size(a) for a in t[2])
def replace1(rng, t, u):
    if t[0] == "V" or not t[2] or rng.random() < .3: return u
    i = rng.randrange(len(t[2])); return ("F", t[1], [replace1(rng, a, u) if j == i else a for j, a in enumerate(t[2])])
VS = ["X1", "X2", "X3"]
def related(rng, sig, t):
    r = rng.random()
    if r < .15: return rng.choice(subterms(t))
    if r < .3: return subs(t, {v: gen.rand_term(rng, sig, VS, 1) for v in rng.sample(VS, rng.randint(1, 2))})
    if r < .55: return replace1(rng, t, gen.rand_term(rng, sig, VS, rng.randint(0, 2)))
    if r < .7 and t[0] == "F" and len(t[2]) > 1: a = list(t[2]); rng.shuffle(a); return ("F", t[1], a)
    if r < .8 and t[0] == "F":
        o = [f for f, n in sig.funs.items() if n == len(t[2])]
        if o: return ("F", rng.choice(o), t[2])
    if r < .9:
        u = [f for f, n in sig.funs.items() if n == 1]
        if u: return ("F", rng.choice(u), [t])
    return gen.rand_term(rng, sig, VS, rng.randint(0, 3))

def job(a):
    H, seed = a
    rng = random.Random(seed); sig = sig_of(rng)
    o = rng.choice(ORD); kind = "KBO" if o.startswith("KBO") else "LPO"
    wg = rng.choice(WG); pg = rng.choice(PG); cw = rng.choice([0, 0, -1, 1, 2, 5]); fv = rng.choice([0, 1]) if cw != -1 else 0; lc = 0 if rng.random() < .1 else 1
    lines = ["O %s %s %s %d %d %d" % (o, wg, pg, cw, fv, lc)]
    up = []; uw = []; names = list(sig.syms)
    total = 1
    if rng.random() < .35:
        ns = list(names); rng.shuffle(ns); m = rng.randint(2, len(ns)) if len(ns) > 1 else 1
        if m > 1:
            lines.append("p " + ">".join(ns[:m])); up = [(ns[i], ns[j]) for i in range(m) for j in range(i + 1, m)]
            if pg == "none": total = 0
    if kind == "KBO" and rng.random() < .3:
        # admissible user weights: constants heavy, others positive (the variable weight is at most 5)
        for s in names:
            if rng.random() < .5: w = rng.choice([5, 6, 7, 9]) if sig.arity(s) == 0 else rng.choice([1, 2, 3, 4, 8]); uw.append((s, w))
        if uw: lines.append("w " + ",".join("%s:%d" % x for x in uw))
    for i in range(rng.randint(1, 5)):
        lines.append("A cnf(a%d,%s,(%s))." % (i, rng.choice(["axiom", "negated_conjecture"]), "|".join(tptp.show(gen.rand_lit(rng, sig, VS, 2, .4, .6)) for _ in range(rng.randint(1, 3)))))
    for f, n in sig.funs.items():        # every symbol occurs in the axioms
        t = tptp.show(("F", f, [("V", "X%d" % (i + 1)) for i in range(n)])); lines.append("A cnf(z,axiom,(%s=%s))." % (t, t))
    atoms = [gen.rand_lit(rng, sig, VS, 2, 0, 1) for _ in range(3)]
    for x in atoms: lines.append("a cnf(a,axiom,(%s))." % tptp.show(x))
    lines.append("T")
    big = rng.random() < .1 and "h" in sig.funs       # many variables in use
    if big:
        t = ("V", "Y0")
        for i in range(1, rng.choice([20, 70, 140])): t = ("F", "h", [("V", "Y%d" % i), t])
        lines.append("t " + tptp.show(t))
    deep = kind == "LPO" and rng.random() < .1 and "f" in sig.funs      # comparisons cut off at the recursion limit come first
    if deep:
        lines.append("R 200")
        for v in VS[:2]: lines.append("t " + "f(" * 300 + v + ")" * 300)
    ts = [("V", v) for v in VS] + [gen.rand_term(rng, sig, VS, rng.randint(1, 3)) for _ in range(5)]
    for _ in range(18):
        t = related(rng, sig, rng.choice(ts[3:]))
        if size(t) <= 14: ts.append(t)
    # every symbol occurs before the ordering is built
    for s in sig.funs: ts.append(("F", s, [rng.choice([("V", v) for v in VS]) for _ in range(sig.funs[s])]))
    for p, n in sig.preds.items(): lines.append("A cnf(z,axiom,(%s))." % tptp.show(("F", p, [("V", "X%d" % (i + 1)) for i in range(n)])))
    for t in ts: lines.append("t " + tptp.show(t))
    lines.append("!")
    base = len(atoms) + 1 + (1 if big else 0) + (2 if deep else 0); n = base + len(ts)
    qs = []
    if deep: qs = [("c", base - 2, base - 1, 0, 0, None), ("c", base - 1, base - 2, 2, 2, None)] * 120
    for _ in range(45):
        i, j = rng.randrange(n), rng.randrange(n)
        if rng.random() < .5: i, j = base + rng.randrange(len(ts)), base + rng.randrange(len(ts))
        qs.append(("c", i, j, rng.choice([0, 2]), rng.choice([0, 2]), None))
        if rng.random() < .2: qs.append(("c", j, i, 0, 0, None))
        if rng.random() < .25: qs.append(rng.choice([q for q in qs if q[0] == "c" and q[5] is None]))
        if rng.random() < .3:       # under bindings
            vs = rng.sample(range(3), rng.randint(1, 2)); bind = {}
            for v in vs: bind[v] = rng.choice([x for x in range(3, len(ts))])
            free = lambda t: set(u[1] for u in subterms(t) if u[0] == "V")
            if any(free(ts[b]) & set(VS[v] for v in vs) for b in bind.values()): continue
            for v, b in bind.items(): qs.append(("b", base + v, base + b))
            for _ in range(3):
                d = [rng.choice([0, 1, 2]), rng.choice([0, 1, 2])]
                x, y = base + rng.randrange(len(ts)), base + rng.randrange(len(ts))
                # identical shared terms under different views are compared by structure; keep one view per query
                if d[0] == 0 or d[1] == 0: d = [2, 2]
                qs.append(("c", x, y, d[0], d[1], dict(bind)))
            for v in bind: qs.append(("u", base + v))
    for q in qs:
        lines.append(" ".join(str(x) for x in q[:5]) if q[0] == "c" else " ".join(str(x) for x in q))
    nl = rng.randint(2, 4)
    for _ in range(nl):
        ls = [gen.rand_lit(rng, sig, VS, 2, .6, .5) for _ in range(rng.randint(1, 4))]
        if rng.random() < .3: ls.append(rng.choice(ls))
        if rng.random() < .3 and ls[0][0] != "~": ls.append(("~", ls[0]))
        lines.append("l cnf(a,axiom,(%s))." % "|".join(tptp.show(l) for l in ls))
    txt = "\n".join(lines) + "\n"
    rc, out, err = vlib.run([H], inp=txt.encode(), timeout=60)
    res = dict(txt=txt, o=o, wg=wg, pg=pg)
    if rc != 0: res["crash"] = "rc %s %s" % (rc, err[-200:]); return res
    try:
        L = out.split("\n"); vw = int([l for l in L if l.startswith("V ")][0][2:])
        S = [l.split() for l in L if l.startswith("S ")]; P = [[int(x) for x in l.split()[1:]] for l in L if l.startswith("P ")]
        keep = [i for i, s in enumerate(S) if s[1] in sig.syms or s[1] == "$true"]
        nm = [S[i][1] for i in keep]; enc = tptp.Enc(nm); vm = {}
        C = dict(kind=kind, w=[int(S[i][3]) for i in keep], vw=vw, p=[[P[i][j] for j in keep] for i in keep])
        tp = [tptp.parse_term(l[2:]) for l in L if l.startswith("t ")]
        assert len(tp) == n, (len(tp), n)
        def E(t): return [1] if t[0] == "T" else enc.term(t, vm)
        ans = [l.split() for l in L if l.startswith("c ")]; k = 0; q = []; back = []
        for x in qs:
            if x[0] != "c": continue
            s, t = tp[x[1]], tp[x[2]]
            if x[5]:
                sb = {tp[base + v][1]: tp[base + b] for v, b in x[5].items()}
                s, t = subs(s, sb), subs(t, sb)
            if size(s) + size(t) <= 44: q.append([E(s), E(t), int(ans[k][1]), int(ans[k][2])]); back.append((tptp.show(s), tptp.show(t)))
            k += 1
        l = []; cur = []
        for z in L:
            if z.startswith("L "):
                h, s, t = z.split(" | "); cur.append((h.split()[1:], tptp.parse_term(s), tptp.parse_term(t)))
            elif z.startswith("M"):
                ms = z.split()[1:]; m = len(cur); assert len(ms) == m * m
                lv = {}
                l.append(dict(n=[[int(h[0]), E(s), E(t)] for h, s, t in cur], flags=[[int(h[1]), int(h[2]), int(h[3])] for h, s, t in cur],
                              m=[[[int(ms[i * m + j][0]), int(ms[i * m + j][1])] for j in range(m)] for i in range(m)])); cur = []
        assert len(l) == nl
    except (AssertionError, IndexError, ValueError, KeyError, tptp.ParseError) as x: res["crash"] = "unreadable output %r" % x; return res
    res["rec"] = dict(C=C, ar=[int(S[i][2]) for i in keep], isp=[1 if S[i][1] in sig.preds else 0 for i in keep], total=total,
                      up=[[enc[a], enc[b]] for a, b in up], uw=[[enc[a], b] for a, b in uw], q=q, l=l, nocmp=1 - lc)
    res["back"] = back; res["names"] = nm
    return res

def main():
    ck = vlib.Check("C10")
    H = vlib.harness("ord")
    for K in ("LPO", "KBO"):
        r = vlib.tlc_run("TermOrdLaws", "INIT Init\nNEXT Next\nCONSTANTS Kind = \"%s\"\n MaxW = %d\nINVARIANTS Irreflexive Transitive Total Stable Monotone Subterm LitOrder\n" % (K, ck.scale(1, 2)), workers=8, acc=ck.acc, timeout=3000)
        if not r["ok"]: raise vlib.CheckError("TermOrdLaws: " + r["out"][-2000:])
    n = ck.scale(2500, 40000)
    with Pool(vlib.NCPU) as pool: res = pool.map(job, [(H, "C10/%d/%d" % (ck.seed, i)) for i in range(n)], chunksize=16)
    vlib.log("groups", n)
    recs = []
    for i, x in enumerate(res):
        if "crash" in x: ck.violation("ordering run failed: %s (%s %s %s)" % (x["crash"], x["o"], x["wg"], x["pg"]), {"input.txt": x["txt"]}); continue
        x["rec"]["id"] = i; recs.append(x["rec"])
    bad = vlib.tlc_validate("OrdTrace", recs, acc=ck.acc, timeout=3000)
    for id_, info in bad[:12]:
        x = res[id_]; m = re.match(r'"comparison", (\d+), (\d+)', info); w = ""
        if m: w = "%s vs %s: got %s, definition %s" % (x["back"][int(m.group(1)) - 1] + (x["rec"]["q"][int(m.group(1)) - 1][2:], m.group(2)))
        ck.violation("%s %s (ordering %s, weights %s, precedence %s)" % (info, w, x["o"], x["wg"], x["pg"]), {"input.txt": x["txt"], "record.json": x["rec"]})
    ck.traces = sum(len(r["q"]) for r in recs) + sum(len(r["l"]) for r in recs)
    st = {}
    for r in recs:
        for q in r["q"]: st[q[2]] = st.get(q[2], 0) + 1
    ck.cov.update(configurations=len(recs), comparisons=sum(len(r["q"]) for r in recs), clauses_with_literal_order=sum(len(r["l"]) for r in recs), results=st)
    for x in res[:2]: ck.sample(dict(ordering=x["o"], weights=x["wg"], precedence=x["pg"], queries=x.get("back", [])[:5]))
    ck.finish()

if __name__ == "__main__": vlib.guard(main)
