"""C15 shared term bank.  See DESIGN.md."""
import sys, os, random
sys.path.insert(0, os.path.join(os.path.dirname(os.path.abspath(__file__)), "..", "lib"))
import vlib, tptp, tterm
from multiprocessing import Pool
ENV = dict(os.environ, ASAN_OPTIONS="detect_leaks=0:abort_on_error=0:exitcode=77:symbolize=0:quarantine_size_mb=8")

def job(a):
    H, seed = a
    rng = random.Random(seed); S = tterm.TSig(rng, ["$i"] if rng.random() < .7 else ["$i", "nat"], preds=False, maxc=3)
    s0 = S.sorts[0]; S.f["m4"] = ([rng.choice(S.sorts) for _ in range(4)], s0); S.f["m3"] = ([s0, s0, s0], s0)   # same bucket when only late arguments differ
    S.p = {"p1": ([s0], "$o")}
    nv = rng.randint(2, 4); S.v = {"X%d" % i: s0 if i == 0 else rng.choice(S.sorts) for i in range(nv)}; VS = list(S.v)
    lines = ["D nat: $tType)."] if len(S.sorts) > 1 else []
    lines += ["D " + d + ")." for d in S.decls()] + ["V %s %s)." % x for x in S.v.items()]
    names = list(S.allf()); enc = tptp.Enc(names); vm = {v: i + 1 for i, v in enumerate(VS)}
    R = []; ops = [dict(o="0")]; lines.append("0 ")          # R: python mirror used only to choose sensible requests
    links = {}
    live = lambda f=lambda t: True: [i for i, t in enumerate(R) if t is not None and f(t)]
    flat = rng.random() < .5
    def mk():
        if rng.random() < .25 or flat and rng.random() < .7:
            f = rng.choice(["m3", "m4"]); return ("F", f, [S.term(rng, x, VS if i > 1 else VS[:1], rng.choice([0, 0, 1]) if i > 1 else 0) for i, x in enumerate(S.f[f][0])])
        t = S.term(rng, rng.choice(S.sorts), VS, rng.randint(0, 3)); return t if tterm.size(t) < 25 else ("V", VS[0])
    def rel():
        o = live()
        if not o or rng.random() < .4: return mk()
        t = R[rng.choice(o)]; r = rng.random()
        return rng.choice(tterm.subterms(t)) if r < .4 else t if r < .5 or t[0] == "V" else S.mutate(rng, t, VS, rng.randint(0, 1))
    def rep(t, x, y): return y if t == x else ("F", t[1], [rep(z, x, y) for z in t[2]]) if t[0] == "F" else t
    def add(o, l, t): ops.append(o); lines.append(l); R.append(t)
    fresh = lambda: rng.choice([o for o in [live()] if o] or [None])
    for _ in range(rng.randint(15, 40)):
        r = rng.random(); o = live(); nonv = live(lambda t: t[0] == "F")
        if r < .25 or not nonv: t = rel(); add(dict(o="i", t=enc.term(t, vm)), "i " + tptp.show(t), t)
        elif r < .35: t = rel(); add(dict(o="j", t=enc.term(t, vm)), "j %d %s" % (rng.randint(0, 2), tptp.show(t)), t)
        elif r < .42: k = rng.choice(nonv); add(dict(o="c", k=k + 1), "c %d %d" % (k, rng.randint(0, 2)), R[k])
        elif r < .57:
            k = rng.choice(o); dom = rng.sample(VS, rng.randint(1, nv)); b = {}
            for v in dom:
                c = live(lambda t: S.type(t) == S.v[v] and not (tterm.vars_of(t) & set(dom)))
                if c: b[v] = rng.choice(c)
            t = tterm.subst(R[k], {v: R[i] for v, i in b.items()})
            if tterm.size(t) > 40: continue
            add(dict(o="n", k=k + 1, b=[b.get(v, -1) + 1 for v in VS]), "n %d %d %d %s" % (rng.randint(0, 6), k, len(b), " ".join("%d %d" % (VS.index(v), i) for v, i in b.items())), t)
        elif r < .67:
            k = rng.choice(nonv); x = rng.choice([i for i in o if R[i] in tterm.subterms(R[k])]); y = [i for i in o if S.type(R[i]) == S.type(R[x])]
            y = rng.choice(y); t = rep(R[k], R[x], R[y])
            if tterm.size(t) > 40: continue
            plain = rng.randint(0, 1) if R[x][0] == "F" else 0
            add(dict(o="r", k=k + 1, x=x + 1, y=y + 1), "r %d %d %d %d" % (plain, k, x, y), t)
        elif r < .75: t = rel(); ops.append(dict(o="q", t=enc.term(t, vm))); lines.append("q " + tptp.show(t))
        elif r < .81:
            k = rng.choice(nonv); x = rng.choice(o)       # rewrite links point to smaller terms, so they are acyclic
            if tterm.size(R[x]) < tterm.size(R[k]) and S.type(R[x]) == S.type(R[k]): links[repr(R[k])] = 1; ops.append(dict(o="w", k=k + 1, x=x + 1)); lines.append("w %d %d" % (k, x))
        elif r < .84:
            c = [i for i in nonv if repr(R[i]) in links]
            if c: k = rng.choice(c); links.pop(repr(R[k])); ops.append(dict(o="W", k=k + 1)); lines.append("W %d" % k)
        elif r < .92:
            ks = sorted(rng.sample(o, rng.randint(0, len(o)))); m = rng.choice("gG")
            if m == "G" and any(R[i][0] == "V" for i in ks): m = "g"
            ops.append(dict(o="g", ks=[i + 1 for i in ks])); lines.append("%s %d %s" % (m, len(ks), " ".join("%d %d" % (i, rng.randrange(12)) for i in ks)))
            for i in range(len(R)):
                if i not in ks: R[i] = None
            # links of collected terms are gone with them
            alive = set(); todo = [R[i] for i in ks]
            links = {} if not ks else links
        else: ops += [dict(o="d"), dict(o="K")]; lines.append("d ")
    ops += [dict(o="d"), dict(o="K")]; lines.append("d ")
    res = dict(txt="\n".join(lines) + "\n")
    rc, out, err = vlib.run([H], inp=res["txt"].encode(), timeout=90, env=ENV)
    if rc != 0:
        i = err.find("ERROR: AddressSanitizer"); res["crash"] = "rc %s %s" % (rc, err[i:i + 700] if i >= 0 else err[-200:]); return res
    try:
        L = [l for l in out.split("\n") if l]; k = 0
        def nodes(l):
            r = []
            for x in l.split(" | ")[1:]:
                y = x.split(); n = int(y[2]); r.append(dict(i=int(y[0]), f=enc[y[1]], a=[int(z) for z in y[3:3 + n]], w=int(y[3 + n]), v=int(y[4 + n]), c=int(y[5 + n]), g=int(y[6 + n])))
            return r
        for o in ops:
            if o["o"] in "wW": continue
            l = L[k]; k += 1
            if o["o"] in "0Kg": z = l.split(); assert z[0] == ("g" if o["o"] == "g" else "K"); o.update(rec=int(z[1]), n=int(z[2]), cn=int(z[3]), ac=int(z[4]))
            elif o["o"] == "d": assert l[0] == "d"; o["ns"] = nodes(l)
            else: assert l[0] == "t"; o["r"] = int(l.split()[1]); o["ns"] = nodes(l)
        assert k == len(L), (k, len(L))
        res["rec"] = dict(ops=ops)
    except (AssertionError, ValueError, KeyError, IndexError) as x: res["crash"] = "unreadable output %r" % x
    return res

def main():
    ck = vlib.Check("C15")
    H = vlib.harness("tb"); HA = vlib.harness("tb", "asan")
    r = vlib.tlc_run("TermBank", "INIT Init\nNEXT Next\nCONSTANT MaxId = %d\nINVARIANTS Sharing Closed NoDangling\nPROPERTY StableIds\n" % ck.scale(5, 6), workers=8, acc=ck.acc, timeout=3000)
    if not r["ok"]: raise vlib.CheckError("TermBank: " + r["out"][-2000:])
    n = ck.scale(3000, 40000)
    with Pool(vlib.NCPU) as pool: res = pool.map(job, [(H if i % 6 else HA, "C15/%d/%d" % (ck.seed, i)) for i in range(n)], chunksize=16)
    vlib.log("histories", n)
    recs = []
    for i, x in enumerate(res):
        if "crash" in x: ck.violation("term bank run failed: %s" % x["crash"], {"input.txt": x["txt"]}); continue
        x["rec"]["id"] = i; recs.append(x["rec"])
    for id_, info in vlib.tlc_validate("TermBankTrace", recs, acc=ck.acc, timeout=3000)[:40]:
        x = res[id_]; ck.violation("term bank %s" % info, {"input.txt": x["txt"], "record.json": x["rec"]})
    q = [o for r in recs for o in r["ops"]]
    ck.traces = len(q); ck.cov.update(histories=len(recs), collections=sum(o["o"] == "g" for o in q), objects=sum(len(o.get("ns", [])) for o in q), recovered=sum(o.get("rec", 0) for o in q))
    for x in res[:2]: ck.sample(dict(input=x["txt"][-600:]))
    ck.finish()

if __name__ == "__main__": vlib.guard(main)
