"""C13 subsumption.  See DESIGN.md."""
import sys, os, random
sys.path.insert(0, os.path.join(os.path.dirname(os.path.abspath(__file__)), "..", "lib"))
import vlib, tptp, tterm
from multiprocessing import Pool

def job(a):
    H, seed = a
    rng = random.Random(seed); S = tterm.TSig(rng, ["$i"] if rng.random() < .7 else ["$i", "nat"], maxc=2)
    nv = rng.randint(2, 4); S.v = {"X%d" % i: S.sorts[0] if i == 0 else rng.choice(S.sorts) for i in range(nv)}; VS = list(S.v)
    pre = ["D nat: $tType)."] if len(S.sorts) > 1 else []
    pre += ["D " + d + ")." for d in S.decls()] + ["V %s %s)." % x for x in S.v.items()] + ["O " + rng.choice("LK")]
    eqp = rng.choice([.2, .5, .8]); dep = rng.choice([1, 1, 2]); pv = rng.choice([.3, .6, .8])
    atom = lambda l: l[1] if l[0] == "~" else l
    triv = lambda l: atom(l)[0] == "=" and atom(l)[1] == atom(l)[2]
    def lit():
        while 1:
            l = S.lit(rng, VS, rng.randint(0, dep), eqp, rng.choice([.3, .5, .8]), pv)
            if not triv(l): return l
    clauses = [[lit() for _ in range(rng.choice([1, 1, 2, 2, 3]))] for _ in range(rng.randint(2, 4))]
    if rng.random() < .3:    # unorientable unit equations
        f = [(n, x) for n, x in S.f.items() if len(x[0]) == 2 and x[0][0] == x[0][1]]
        if f:
            n, (ar, _) = rng.choice(f); vs = [v for v in VS if S.v[v] == ar[0]]
            if vs:
                t = lambda: ("F", n, [("V", rng.choice(vs)), ("V", rng.choice(vs))]); l = ("=", t(), t())
                if not triv(l): clauses.append([l])
    def rep(t, x, y): return y if t == x else ("F", t[1], [rep(a, x, y) for a in t[2]]) if t[0] == "F" else t
    def inst(c):
        sg = S.randsub(rng, rng.sample(VS, rng.randint(1, nv)), VS, rng.choice([0, 1]))
        c = [tterm.subst(l, sg) for l in c]; rng.shuffle(c)
        r = rng.random()
        if r < .5: c = c + [lit() for _ in range(rng.randint(1, 2))]
        elif r < .6: c = c + [rng.choice(c)]
        if rng.random() < .5: c = [(l[0], l[2], l[1]) if l[0] == "=" else l for l in c]
        if rng.random() < .25 and atom(c[0])[0] == "=":      # put the equation into a context
            e = atom(c[0]); so = S.type(e[1]); fs = [(n, x) for n, x in S.f.items() if so in x[0]]
            if fs:
                n, (ar, _) = rng.choice(fs); i = rng.choice([j for j, x in enumerate(ar) if x == so])
                args = [S.term(rng, x, VS, 0) for x in ar]; l, r = list(args), list(args); l[i] = e[1]; r[i] = e[2]
                if rng.random() < .3:
                    ot = [j for j in range(len(ar)) if j != i]
                    if ot: j = rng.choice(ot); r[j] = S.term(rng, ar[j], VS, 0)
                ne = ("=", ("F", n, l), ("F", n, r)); c[0] = ne if c[0][0] == "=" else ("~", ne)
        if rng.random() < .25: i = rng.randrange(len(c)); c[i] = c[i][1] if c[i][0] == "~" else ("~", c[i])
        if rng.random() < .25:
            i = rng.randrange(len(c)); e = atom(c[i]); m = ("=", S.mutate(rng, e[1], VS, 0), e[2]) if e[0] == "=" else ("F", e[1], [S.mutate(rng, x, VS, 0) for x in e[2]])
            c[i] = m if c[i][0] != "~" else ("~", m)
        return c
    while len(clauses) < 12:
        c = inst(rng.choice(clauses))
        if len(c) <= 4 and not any(triv(l) for l in c) and sum(tterm.size(l) for l in c) <= 34: clauses.append(c)
    rng.shuffle(clauses); n = len(clauses); units = [i for i in range(n) if len(clauses[i]) == 1]
    lines = pre + ["C " + " | ".join(tptp.show(l) for l in c) for c in clauses]
    feat = rng.choice([0, 1, 1, 2, 3, 4, 4, 5, 6, 7])
    ks = rng.randint(1, n)
    lines += ["I %d %d %d %d %d" % (feat, rng.choice([3, 8, 17, 200]), rng.choice([0, 0, 5]), rng.randint(0, 1), ks), "u"]
    ops = []; cur = set(); us = set()
    for _ in range(rng.randint(20, 36)):
        r = rng.random(); free = [i for i in range(n) if i not in cur and i not in us]
        fu = [i for i in free if i in units]; big = [i for i in free if len(clauses[i]) > 1]
        if r < .12: i, j = rng.randrange(n), rng.randrange(n); ops.append(("s", i, j)) if i != j else 0
        elif r < .35 and free: i = rng.choice(free); ops.append(("+", i, 0)); cur.add(i)
        elif r < .45 and fu: i = rng.choice(fu); ops.append(("*", i, 0)); us.add(i)
        elif r < .52 and (cur or us): i = rng.choice(sorted(cur | us)); ops.append(("-", i, 0)); cur.discard(i); us.discard(i)
        elif free:
            o = rng.choice("fFbbBlvUUPPNSXx"); src = big if o in "fFX" else free
            if src: ops.append((o, rng.choice(src), rng.randint(0, 1) if o in "UPS" else 0))
    lines += ["%s %d %d" % x for x in ops]
    res = dict(txt="\n".join(lines) + "\n", feat=feat)
    rc, out, err = vlib.run([H], inp=res["txt"].encode(), timeout=90)
    if rc != 0: res["crash"] = "rc %s %s" % (rc, err[-200:]); return res
    try:
        L = out.split("\n"); V = [l[2:] for l in L if l[:1] == "V"]
        names = list(S.allf()) + ["$true"]; enc = tptp.Enc(names); vm = {v: i + 1 for i, v in enumerate(V)}
        E = lambda t: [enc["$true"]] if t[0] == "T" else enc.term(t, vm)
        so = {s: i + 1 for i, s in enumerate(S.sorts + ["$o"])}
        def cl(l):
            r = []
            for x in l.split(" | ")[1:]: p, lt, rt = x.split(" ; "); r.append(dict(p=int(p), l=E(tptp.parse_term(lt)), r=E(tptp.parse_term(rt))))
            return r
        C = [cl(l) for l in L if l[:2] == "C "]; A = [l for l in L if l[:1] in "rc" and l[:1]]
        assert len(C) == n and len(A) == sum(o[0] not in "+*-" for o in ops), (len(C), len(A))
        rec = []; k = 0
        for o, c, d in ops:
            x = dict(o=o, c=c + 1, d=d + 1 if o == "s" else d, res=[], cl=[], sub=0)
            if o not in "+*-":
                l = A[k]; k += 1
                if l == "c subsumed": x["sub"] = 1
                elif l[0] == "c": x["cl"] = cl(l)
                else: x["res"] = [int(z) for z in l.split()[1:]]
            rec.append(x)
        res["rec"] = dict(vt=[so[x] for x in S.v.values()], ft=[so[S.allf()[f][1]] if f in S.allf() else so["$o"] for f in names], cl=C, ops=rec)
    except (AssertionError, ValueError, KeyError, IndexError, tptp.ParseError) as x: res["crash"] = "unreadable output %r" % x
    return res

def main():
    ck = vlib.Check("C13")
    H = vlib.harness("sub")
    r = vlib.tlc_run("SubsumeLaws", "INIT Init\nNEXT Next\nINVARIANTS Refl Stable Weaken Trans\n", workers=8, acc=ck.acc, timeout=3000)
    if not r["ok"]: raise vlib.CheckError("SubsumeLaws: " + r["out"][-2000:])
    n = ck.scale(3000, 40000)
    with Pool(vlib.NCPU) as pool: res = pool.map(job, [(H, "C13/%d/%d" % (ck.seed, i)) for i in range(n)], chunksize=16)
    vlib.log("histories", n)
    recs = []
    for i, x in enumerate(res):
        if "crash" in x: ck.violation("subsumption run failed: %s" % x["crash"], {"input.txt": x["txt"]}); continue
        x["rec"]["id"] = i; recs.append(x["rec"])
    for id_, info in vlib.tlc_validate("SubsumeTrace", recs, acc=ck.acc, timeout=3000)[:40]:
        x = res[id_]; ck.violation("subsumption answer %s (feature type %d)" % (info, x["feat"]), {"input.txt": x["txt"], "record.json": x["rec"]})
    q = [o for r in recs for o in r["ops"] if o["o"] not in "+*-"]; by = {}
    for o in q: y = by.setdefault(o["o"], [0, 0]); y[0] += 1; y[1] += bool(o["sub"] or o["cl"] or any(z > 0 for z in o["res"]))
    ck.traces = len(q); ck.cov.update(histories=len(recs), queries=len(q), by_query={k: "%d (%d with a result)" % tuple(v) for k, v in sorted(by.items())})
    for x in res[:2]: ck.sample(dict(input=x["txt"][-600:]))
    ck.finish()

if __name__ == "__main__": vlib.guard(main)
