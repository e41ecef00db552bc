"""C11 matching and unification.  See DESIGN.md."""
import sys, os, random
sys.path.insert(0, os.path.join(os.path.dirname(os.path.abspath(__file__)), "..", "lib"))
import vlib, tptp, tterm
from multiprocessing import Pool
LIM = 60

def job(a):
    H, seed = a
    rng = random.Random(seed); S = tterm.TSig(rng, ["$i"] if rng.random() < .5 else ["$i", "nat"])
    nv = rng.randint(2, 7); S.v = {"X%d" % i: rng.choice(S.sorts) for i in range(nv)}; VS = list(S.v)
    lines = ["D nat: $tType)."] if len(S.sorts) > 1 else []
    lines += ["D " + d + ")." for d in S.decls()] + ["V %s %s)." % x for x in S.v.items()]
    ts = [("V", v) for v in VS]
    for _ in range(8): ts.append(S.term(rng, rng.choice(S.sorts), VS, rng.randint(1, 3), .6))
    for _ in range(3): ts.append(S.atom(rng, VS, 2, .6))
    for _ in range(12):
        t = rng.choice(ts[nv:])
        if rng.random() < .6: t = tterm.subst(t, S.randsub(rng, rng.sample(VS, rng.randint(1, nv)), VS, rng.randint(0, 2)))
        if rng.random() < .5: t = S.mutate(rng, t, VS, rng.randint(0, 2))
        if rng.random() < .2: t = rng.choice(tterm.subterms(t))
        if tterm.size(t) <= 16: ts.append(t)
    lines += ["t " + tptp.show(t) for t in ts]
    qs = []
    for _ in range(5):
        l = S.lit(rng, VS, 2, .8, 1, .6)
        if qs and rng.random() < .6:
            l = tterm.subst(rng.choice(qs), S.randsub(rng, rng.sample(VS, rng.randint(1, nv)), VS, 1))
            if l[0] == "=" and rng.random() < .6: l = ("=", l[2], l[1])
        qs.append(l)
    lines += ["q " + tptp.show(l) for l in qs]
    mode = rng.choice("mu"); lines.append("M " + mode)
    return H, lines, mode, len(ts), len(qs), S, seed

def drive(a):
    H, lines, mode, nt, nq, S, seed = job(a); rng = random.Random(seed + "/ops"); n = 60
    req = []; stack = [0]       # requests whose state can be returned to
    for i in range(1, n + 1):
        r = rng.random()
        if r < .3 and len(stack) > 1 or i == n:
            j = 0 if i == n else rng.randrange(len(stack)); req.append((2, stack[j], 0, "k %d" % stack[j])); stack = stack[:j + 1]
        elif mode == "u" and r < .5: x, y = rng.randrange(nq), rng.randrange(nq); req.append((3, x, y, "e %d %d" % (x, y))); stack.append(i)
        else: x, y = rng.randrange(nt), rng.randrange(nt); req.append((1, x, y, "m %d %d" % (x, y))); stack.append(i)
    res = dict(mode=mode, txt="\n".join(lines + [r[3] for r in req]) + "\n")
    rc, out, err = vlib.run([H] + (["ho"] if H.endswith(".ho") else []), inp=res["txt"].encode(), timeout=90)
    if rc != 0: res["crash"] = "rc %s %s" % (rc, err[-200:]); return res
    try:
        L = out.split("\n"); V = [l[2:] for l in L if l[:1] == "V"]; T = [tptp.parse_term(l[2:]) for l in L if l[:1] == "t"]
        Q = [[tptp.parse_term(x) for x in l[2:].split(" | ")] for l in L if l[:1] == "q"]; A = [l.split(" | ") for l in L if l[:2] == "s "]
        assert len(V) == len(S.v) and len(T) == nt and len(Q) == nq and len(A) == n
        names = list(S.allf()) + ["$true"]; enc = tptp.Enc(names); vm = {v: i + 1 for i, v in enumerate(V)}
        E = lambda t: [enc["$true"]] if t[0] == "T" else enc.term(t, vm)
        so = {s: i + 1 for i, s in enumerate(S.sorts + ["$o"])}
        vt = [so[x] for x in S.v.values()]; ft = [so[S.allf()[f][1]] if f in S.allf() else so["$o"] for f in names]
        ops = []
        for (o, x, y, c), f in zip(req, A):
            st = [([] if mode == "m" else [0, i + 1]) if z == "-" else E(tptp.parse_term(z)) for i, z in enumerate(f[1:])]
            s, t = ([], []) if o == 2 else (E(T[x]), E(T[y])) if o == 1 else ([E(z) for z in Q[x]], [E(z) for z in Q[y]])
            ops.append(dict(o=o, s=s, t=t, ok=int(f[0].split()[2]), st=st, b=x if o == 2 else 0))
            if sum(len(x) for x in f) > 600: break          # keep values small enough to judge
        res["rec"] = dict(vt=vt, ft=ft, mode=1 if mode == "m" else 2, ops=ops)
    except (AssertionError, ValueError, KeyError, IndexError, tptp.ParseError) as x: res["crash"] = "unreadable output %r" % x
    return res

def main():
    ck = vlib.Check("C11")
    H = vlib.harness("uni"); HH = vlib.harness("uni", "ho")
    r = vlib.tlc_run("SubstLaws", "INIT Init\nNEXT Next\nCONSTANTS Big = %s\nINVARIANTS Sound General MatchRight\n" % ck.scale("FALSE", "TRUE"), workers=8, acc=ck.acc, timeout=3000)
    if not r["ok"]: raise vlib.CheckError("SubstLaws: " + r["out"][-2000:])
    n = ck.scale(4000, 40000)
    with Pool(vlib.NCPU) as pool: res = pool.map(drive, [(H if i % 4 else HH, "C11/%d/%d" % (ck.seed, i)) for i in range(n)], chunksize=16)
    vlib.log("histories", n)
    recs = []
    for i, x in enumerate(res):
        if "crash" in x: ck.violation("substitution run failed: " + x["crash"], {"input.txt": x["txt"]}); continue
        x["rec"]["id"] = i; recs.append(x["rec"])
    bad = vlib.tlc_validate("SubstTrace", recs, acc=ck.acc, timeout=3000)
    for id_, info in bad[:12]:
        x = res[id_]; ck.violation("request %s (%s) of a history gives a result that is not the most general one (or the bindings are not restored)" % (info, "matching" if x["mode"] == "m" else "unification"), {"input.txt": x["txt"], "record.json": x["rec"]})
    ck.traces = sum(len(r["ops"]) for r in recs)
    st = {}
    for r in recs:
        for o in r["ops"]: k = "%s/%d/%d" % ("match" if r["mode"] == 1 else "mgu", o["o"], o["ok"]); st[k] = st.get(k, 0) + 1
    ck.cov.update(histories=len(recs), requests=ck.traces, by_kind=st)
    for x in res[:2]: ck.sample(dict(input=x["txt"][-400:]))
    ck.finish()

if __name__ == "__main__": vlib.guard(main)
