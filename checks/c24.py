"""C24 clause collection filter.  See DESIGN.md."""
import sys, os, re, random
sys.path.insert(0, os.path.join(os.path.dirname(os.path.abspath(__file__)), "..", "lib"))
import vlib, tptp, tterm
from multiprocessing import Pool
NV = 4
atom = lambda l: l[1] if l[0] == "~" else l

def session(rng):
    S = tterm.TSig(rng, ["$i"], maxc=2); S.v = {"X%d" % i: "$i" for i in range(NV)}; VS = list(S.v)
    eqp = rng.choice([0, .2, .5]); dep = rng.choice([1, 1, 2]); pv = rng.choice([.3, .6, .8])
    triv = lambda l: l[0] == "~" and atom(l)[0] == "=" and atom(l)[1] == atom(l)[2]      # printed as $false
    def lit():
        while 1:
            l = S.lit(rng, VS, rng.randint(0, dep), eqp, .5, pv)
            if not triv(l): return l
    base = [[lit() for _ in range(rng.choice([1, 1, 1, 2, 2, 3, 3, 4]))] for _ in range(rng.randint(2, 4))]
    def variant(c):
        r = rng.random(); c = list(c)
        if r < .6:
            sg = S.randsub(rng, rng.sample(VS, rng.randint(1, NV)), VS, rng.choice([0, 1])); c = [tterm.subst(l, sg) for l in c]
        elif r < .8:      # generalise: replace a subterm by a variable
            i = rng.randrange(len(c)); v = ("V", rng.choice(VS)); a = atom(c[i])
            if a[0] == "F" and a[2]:
                j = rng.randrange(len(a[2])); b = ("F", a[1], [v if k == j else x for k, x in enumerate(a[2])]); c[i] = b if c[i][0] != "~" else ("~", b)
            elif a[0] == "=": b = ("=", v, a[2]) if rng.random() < .5 else ("=", a[1], v); c[i] = b if c[i][0] != "~" else ("~", b)
        r = rng.random()
        if r < .3: c = c + [lit() for _ in range(rng.randint(1, 2))]
        elif r < .55 and len(c) > 1: c.pop(rng.randrange(len(c)))
        elif r < .62: c = c + [rng.choice(c)]
        if rng.random() < .6: rng.shuffle(c)
        if rng.random() < .3: c = [(l[0], l[2], l[1]) if l[0] == "=" else l for l in c]
        if rng.random() < .25: i = rng.randrange(len(c)); c[i] = atom(c[i]) if c[i][0] == "~" else ("~", c[i])
        if rng.random() < .06: c = c + [atom(c[0]) if c[0][0] == "~" else ("~", c[0])]
        return c
    cls = []; ops = []
    for _ in range(rng.randint(8, 20)):
        r = rng.random()
        if r < .12: ops.append(("s", 0, 0, 0, 0)); continue
        if r < .14: ops.append(("p", 0, 0, 0, 0)); continue
        c = rng.choice(base) if rng.random() < .2 or not base else variant(rng.choice(base + [x for x in cls if x]))
        if len(c) > 4 or sum(tterm.size(l) for l in c) > 34 or any(triv(l) for l in c): c = [lit()]
        cls.append(c)
        d = (rng.choice([0, 1, 2, 4, 8]), rng.choice([0, 0, 1, 2])) if rng.random() < .35 else (0, 0)
        ops.append((rng.choice("aac"), len(cls), rng.choice([0, 0, 2, 7, 15])) + d)
    return S, cls, ops

PLEASE = "Please process clauses now, I beg you, great shining CSSCPA, wonder of the world, most beautiful program ever written.\n"
def text(cls, ops):
    t = ""
    for o, c, src, wd, ad in ops:
        if o == "s": t += "state:\n"
        elif o == "p": t += PLEASE
        else: t += "%s%s%s: cnf(c%d,axiom,(%s)).\n" % ("accept" if o == "a" else "check", " from %d" % src if src else "", " improve(%s,%s)" % (wd / 4, ad / 4) if wd or ad else "", c, "|".join(tptp.show(l) for l in cls[c - 1]) or "$false")
    return t

def job(a):
    F, seed = a
    rng = random.Random(seed); S, cls, ops = session(rng); txt = text(cls, ops)
    res = dict(txt=txt); rc, out, err = vlib.run([F, "-l", "1", "-"], inp=txt.encode(), timeout=20); res["out"] = out
    if rc != 0: res["crash"] = "rc %s %s" % (rc, err[-200:]); return res
    try:
        names = list(S.allf()) + ["$true"]; enc = tptp.Enc(names); vm = {v: i + 1 for i, v in enumerate(S.v)}
        def cl(c, vm):
            r = []
            for l in c:
                p = 0 if l[0] == "~" else 1; l = atom(l)
                r.append(dict(p=p, l=enc.term(l[1], vm), r=enc.term(l[2], vm)) if l[0] == "=" else dict(p=p, l=enc.term(l, vm), r=[enc["$true"]]))
            return r
        head, tail = out.split("% Resulting clause set:"); L = [l for l in head.split("\n") if l.strip()]; idn = {}; rec = []; i = 0
        M = lambda p: re.match(p, L[i]) if i < len(L) else None
        for o, c, src, wd, ad in ops:
            if o == "p": continue
            x = dict(o=o, c=c, wd=wd, ad=ad, out="", by=0, rem=[], cnt=[])
            if o == "s":
                m = M(r"^% CSSCPAState: requested +by (\d+), (-?\d+), (-?\d+), (-?\d+) "); x["cnt"] = [int(z) for z in m.groups()[1:]]; i += 1
                rec.append(x); continue
            while M(r"^% Unit contradiction found!"): i += 1; x["contra"] = 1
            m = M(r"^% Clause (-?\d+) removed from list \(subsumed by (-?\d+)\)")
            while m: x["rem"].append(idn[m.group(1)]); me = m.group(2); i += 1; m = M(r"^% Clause (-?\d+) removed from list \(subsumed by (-?\d+)\)")
            m = M(r"^% Clause (-?\d+) accepted from (\d+) \((\w+)\)")
            if m:
                x["out"] = m.group(3); assert int(m.group(2)) == src, "source"; idn[m.group(1)] = c; i += 1
                if x["rem"]: assert m.group(1) == me
                m = M(r"^% CSSCPAState: (\w+) +by (\d+), (-?\d+), (-?\d+), (-?\d+) ")
                if m and m.group(1) != "requested": assert m.group(1) == x["out"] and int(m.group(2)) == src, "state line"; x["cnt"] = [int(z) for z in m.groups()[2:]]; i += 1
            else:
                m = M(r"^% Clause (-?\d+) rejected \((Tautology|weighty|subsumed by (-?\d+))\)"); i += 1; idn[m.group(1)] = c
                x["out"] = m.group(2).split()[0].lower(); x["by"] = idn[m.group(3)] if m.group(3) else 0
            assert ("contra" in x) == (x["out"] == "contradicts"), "contradiction message"
            x.pop("contra", 0); rec.append(x)
        assert i == len(L), "extra line " + L[i]
        fin = []
        for l in tail.split("\n"):
            if not l.startswith("cnf"): continue
            fin.append(cl(tptp.lits(tptp.parse_all(l)[0]["f"]), {}))
        res["rec"] = dict(vt=[1] * (2 * NV), ft=[1 if S.allf().get(f, ([], "$o"))[1] == "$i" else 2 for f in names], cl=[cl(c, vm) for c in cls], ops=rec, fin=fin)
    except (AssertionError, ValueError, KeyError, IndexError, AttributeError, tptp.ParseError) as x: res["crash"] = "unreadable output %r" % x
    return res

def main():
    ck = vlib.Check("C24"); F = os.path.join(vlib.build("fo"), "EXTERNAL", "CSSCPA_filter")
    r = vlib.tlc_run("CsscpaModel", "INIT Init\nNEXT Next\nINVARIANTS NoTautology Antichain Announced\n", workers=8, acc=ck.acc)
    if not r["ok"]: raise vlib.CheckError("CsscpaModel: " + r["out"][-2000:])
    n = ck.scale(12000, 150000)
    with Pool(vlib.NCPU) as pool: res = pool.map(job, [(F, "C24/%d/%d" % (ck.seed, i)) for i in range(n)], chunksize=16)
    vlib.log("sessions", n); recs = []
    for i, x in enumerate(res):
        if "crash" in x: ck.violation("filter session failed: %s" % x["crash"], {"input.txt": x["txt"], "output.txt": x["out"]}); continue
        x["rec"]["id"] = i; recs.append(x["rec"])
    for id_, info in vlib.tlc_validate("CsscpaTrace", recs, acc=ck.acc, timeout=3000, cost=lambda r: len(r["ops"]))[:40]:
        x = res[id_]; ck.violation("filter session: %s" % info, {"input.txt": x["txt"], "output.txt": x["out"], "record.json": x["rec"]})
    by = {}
    for r in recs:
        for o in r["ops"]: by[o["out"] or "state"] = by.get(o["out"] or "state", 0) + 1
    ck.traces = len(recs); ck.cov.update(sessions=len(recs), statements=by, removed=sum(len(o["rem"]) for r in recs for o in r["ops"]))
    for x in res[:2]: ck.sample(dict(input=x["txt"]))
    ck.finish()

if __name__ == "__main__": vlib.guard(main)
