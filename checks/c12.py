"""C12 term indexes.  See DESIGN.md."""
import sys, os, random
sys.path.insert(0, os.path.join(os.path.dirname(os.path.abspath(__file__)), "..", "lib"))
import vlib, tptp, tterm
from multiprocessing import Pool
FP = "FP0 FPfp FP1 FP2 FP3D FP3W FP4D FP4W FP4M FP5M FP6M FP7 FP7M FP4X2_2 FP3DFlex NPDT".split()
KN = dict(s="sub", i="into", f="from", p="pdt")

def job(a):
    H, seed = a
    rng = random.Random(seed); S = tterm.TSig(rng, ["$i"] if rng.random() < .7 else ["$i", "nat"], maxc=2)
    nv = rng.randint(2, 4); S.v = {"X%d" % i: S.sorts[0] if i == 0 else rng.choice(S.sorts) for i in range(nv)}; VS = list(S.v)
    kind = rng.choice("sifppp"); fp = rng.choice(FP)
    lines = ["D nat: $tType)."] if len(S.sorts) > 1 else []
    lines += ["D " + d + ")." for d in S.decls()] + ["V %s %s)." % x for x in S.v.items()]
    pool = [S.term(rng, rng.choice(S.sorts), VS, rng.randint(1, 3), .5) for _ in range(6)]
    def rel():
        t = rng.choice(pool)
        for _ in range(rng.randint(0, 2)):
            r = rng.random()
            if r < .4: t = S.mutate(rng, t, VS, rng.randint(0, 1))
            elif r < .6: t = tterm.subst(t, S.randsub(rng, rng.sample(VS, rng.randint(1, nv)), VS, 1))
            elif r < .8: t = rng.choice(tterm.subterms(t))
        return t if tterm.size(t) <= 12 else rng.choice(pool)
    def same(t):        # a term of the same sort
        so = S.type(t); o = [x for x in (rel() for _ in range(4)) if S.type(x) == so]
        return o[0] if o else S.term(rng, so, VS, 1)
    def lit():
        if rng.random() < .65 or kind == "p":
            x = rel(); y = same(x)
            if kind == "p" and x == y: y = S.term(rng, S.type(x), [], 0); x = rng.choice([x, ("V", rng.choice(VS))]) if x == y else x
            if kind == "p" and x == y: return lit()         # trivial equations never get into the demodulator index
            if S.type(x) != S.type(y): return lit()
            l = ("=", x, y)
        else: l = S.atom(rng, VS, 2, .5)
        return l if rng.random() < .7 else ("~", l)
    ncl = rng.randint(3, 14)
    for _ in range(ncl):
        n = 1 if kind == "p" else rng.randint(1, 3); ls = []
        for _ in range(n):
            l = lit(); atom = l if l[0] != "~" else l[1]
            # literals over predicates are always oriented
            ls.append("%d%d%d %s" % (rng.random() < .7, 1 if atom[0] == "F" else rng.random() < .5, rng.random() < .2, tptp.show(l)))
        lines.append("C " + " | ".join(ls))
    ts = [rel() for _ in range(8)] + ([("V", v) for v in VS] if rng.random() < .3 else [])
    lines += ["t " + tptp.show(t) for t in ts]; at = [S.atom(rng, VS, 2, .5) for _ in range(3)]; lines += ["a " + tptp.show(t) for t in at]
    nt = len(ts) + len(at)
    lines.append("K %s %s" % (kind, fp))
    req = []; cur = set(); date = 0
    for _ in range(rng.randint(15, 40)):
        r = rng.random(); out = [c for c in range(ncl) if c not in cur]
        if r < .4 and out: c = rng.choice(out); date += rng.choice([0, 0, 1, 1, 3]); d = date + 1 if rng.random() < .8 else rng.randint(1, date + 1); req.append((1, c, d, "+ %d %d" % (c, d))); cur.add(c)
        elif r < .6 and cur: c = rng.choice(sorted(cur)); req.append((2, c, 0, "- %d" % c)); cur.discard(c)
        else:
            i = rng.randrange(nt)
            if kind == "p":
                age = 0 if rng.random() < .5 else rng.randint(1, date + 2); stop = 0 if rng.random() < .8 else rng.randint(1, 3)
                req.append((5, i, (age, stop), "d %d %d %d %d" % (i, age, rng.randint(0, 1), stop)))
            else: o = rng.choice([3, 4]) ; req.append((o, i, 0, "%s %d" % ("u" if o == 3 else "m", i)))
    res = dict(kind=kind, fp=fp, txt="\n".join(lines + [r[3] for r in req]) + "\n")
    rc, out, err = vlib.run([H], inp=res["txt"].encode(), timeout=90)
    if rc != 0: res["crash"] = "rc %s %s" % (rc, err[-200:]); return res
    try:
        L = out.split("\n"); V = [l[2:] for l in L if l[:1] == "V"]; T = [tptp.parse_term(l[2:]) for l in L if l[:1] == "t"]
        names = list(S.allf()) + ["$true"]; enc = tptp.Enc(names); vm = {v: i + 1 for i, v in enumerate(V)}; vq = {v: i + 1 + nv for i, v in enumerate(V)}
        E = lambda t, m=vm: [enc["$true"]] if t[0] == "T" else enc.term(t, m)
        so = {s: i + 1 for i, s in enumerate(S.sorts + ["$o"])}
        vt = [so[x] for x in S.v.values()] * 2; ft = [so[S.allf()[f][1]] if f in S.allf() else so["$o"] for f in names]
        cl = []
        for l in L:
            if l[:2] != "C ": continue
            c = []
            for x in l.split(" | ")[1:]:
                f, lt, rt = x.split(" ; "); f = [int(z) for z in f.split()]
                c.append(dict(p=f[0], mx=f[1], o=f[2], sel=f[3], l=E(tptp.parse_term(lt)), r=E(tptp.parse_term(rt))))
            cl.append(c)
        R = [l for l in L if l == "r" or l[:2] == "r "]; assert len(cl) == ncl and len(T) == nt and len(R) == sum(r[0] > 2 for r in req), (len(cl), len(T), len(R))
        ops = []; k = 0
        for o, x, y, _ in req:
            if o == 1: ops.append(dict(o=1, c=x + 1, age=y)); continue
            if o == 2: ops.append(dict(o=2, c=x + 1)); continue
            ents = [e.split(" ", 2) for e in R[k].split(" | ")[1:]]; k += 1
            if o == 5: ops.append(dict(o=5, t=E(T[x]), age=y[0], full=1 if y[1] == 0 or len(ents) < y[1] else 0, res=[[int(e[0]), int(e[1])] for e in ents], inst=[E(tptp.parse_term(e[2])) for e in ents]))
            else: ops.append(dict(o=o, t=E(T[x], vq), res=[[int(e[0]), int(e[1]), E(tptp.parse_term(e[2]))] for e in ents]))
        res["rec"] = dict(kind=KN[kind], vt=vt, ft=ft, cl=cl, ops=ops)
    except (AssertionError, ValueError, KeyError, IndexError, tptp.ParseError) as x: res["crash"] = "unreadable output %r" % x
    return res

def main():
    ck = vlib.Check("C12")
    H = vlib.harness("ix")
    r = vlib.tlc_run("FingerprintLaws", "INIT Init\nNEXT Next\nINVARIANTS UnifSound MatchSound\n", workers=8, acc=ck.acc, timeout=3000)
    if not r["ok"]: raise vlib.CheckError("FingerprintLaws: " + r["out"][-2000:])
    n = ck.scale(5000, 60000)
    with Pool(vlib.NCPU) as pool: res = pool.map(job, [(H, "C12/%d/%d" % (ck.seed, i)) for i in range(n)], chunksize=16)
    vlib.log("histories", n)
    recs = []
    for i, x in enumerate(res):
        if "crash" in x: ck.violation("index run failed: %s (%s %s)" % (x["crash"], KN[x["kind"]], x["fp"]), {"input.txt": x["txt"]}); continue
        x["rec"]["id"] = i; recs.append(x["rec"])
    bad = vlib.tlc_validate("IndexTrace", recs, acc=ck.acc, timeout=3000)
    bad.sort(key=lambda b: "deep" in b[1])
    for id_, info in bad[:40]:
        x = res[id_]; ck.violation("retrieval %s from the %s index (%s)" % (info, KN[x["kind"]], x["fp"]), {"input.txt": x["txt"], "record.json": x["rec"]})
    q = [o for r in recs for o in r["ops"] if o["o"] > 2]
    ck.traces = len(q); ck.cov.update(histories=len(recs), retrievals=len(q), nonempty=sum(bool(o["res"]) for o in q), by_kind={k: sum(r["kind"] == k for r in recs) for k in KN.values()})
    for x in res[:2]: ck.sample(dict(kind=x["kind"], input=x["txt"][-500:]))
    ck.finish()

if __name__ == "__main__": vlib.guard(main)
