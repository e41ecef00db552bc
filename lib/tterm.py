"""typed random terms for the harness-driven checks; terms as in tptp.py: ("V", name) / ("F", sym, args)"""
import tptp
class TSig:
    def __init__(s, rng, sorts=("$i",), preds=True, maxc=3):
        s.sorts = list(sorts); s.f = {}      # name -> (arg sorts, result)
        names = iter("abcdefghjklmn")
        for so in s.sorts:
            for _ in range(rng.randint(1, maxc)): s.f["c%s" % next(names)] = ([], so)
        for _ in range(rng.randint(1, 2)): s.f["u%s" % next(names)] = ([rng.choice(s.sorts)], rng.choice(s.sorts))
        for _ in range(rng.randint(1, 2)): s.f["w%s" % next(names)] = ([rng.choice(s.sorts), rng.choice(s.sorts)], rng.choice(s.sorts))
        if rng.random() < .25: s.f["t3"] = ([rng.choice(s.sorts) for _ in range(3)], rng.choice(s.sorts))
        s.p = {}
        if preds:
            s.p["p1"] = ([rng.choice(s.sorts)], "$o")
            if rng.random() < .6: s.p["p2"] = ([rng.choice(s.sorts), rng.choice(s.sorts)], "$o")
            if rng.random() < .2: s.p["p0"] = ([], "$o")
        s.v = {}
    def allf(s): d = dict(s.f); d.update(s.p); return d
    def decls(s):
        for f, (a, r) in s.allf().items(): yield "%s: %s" % (f, r if not a else ("%s > %s" % (a[0] if len(a) == 1 else "(" + " * ".join(a) + ")", r)))
    def type(s, t): return s.v[t[1]] if t[0] == "V" else s.allf()[t[1]][1]
    def var(s, rng, so, vs):
        o = [v for v in vs if s.v[v] == so]
        return ("V", rng.choice(o)) if o else None
    def term(s, rng, so, vs, d, pv=.4):
        if d <= 0 or rng.random() < .15:
            if rng.random() < pv:
                v = s.var(rng, so, vs)
                if v: return v
            c = [f for f, (a, r) in s.f.items() if r == so and not a]
            return ("F", rng.choice(c), [])
        o = [f for f, (a, r) in s.f.items() if r == so and a]
        if not o: return s.term(rng, so, vs, 0, pv)
        f = rng.choice(o); return ("F", f, [s.term(rng, x, vs, d - 1, pv) for x in s.f[f][0]])
    def atom(s, rng, vs, d, pv=.4):
        p = rng.choice(list(s.p)); return ("F", p, [s.term(rng, x, vs, d, pv) for x in s.p[p][0]])
    def lit(s, rng, vs, d, eq=.5, pos=.5, pv=.4):
        if rng.random() < eq or not s.p:
            so = rng.choice(s.sorts); l = ("=", s.term(rng, so, vs, d, pv), s.term(rng, so, vs, d, pv))
        else: l = s.atom(rng, vs, d, pv)
        return l if rng.random() < pos else ("~", l)
    def mutate(s, rng, t, vs, d=1):
        if t[0] == "V" or not t[2] or rng.random() < .3:
            so = s.type(t); return s.term(rng, so, vs, d) if so != "$o" else s.atom(rng, vs, d)
        i = rng.randrange(len(t[2])); a = list(t[2]); a[i] = s.mutate(rng, a[i], vs, d); return ("F", t[1], a)
    def randsub(s, rng, dom, vs, d=1): return {v: s.term(rng, s.v[v], vs, d) for v in dom}
def subst(t, sg):
    if t[0] == "V": return sg.get(t[1], t)
    if t[0] == "F": return ("F", t[1], [subst(a, sg) for a in t[2]])
    return (t[0],) + tuple(subst(x, sg) for x in t[1:])
def size(t): return 1 + sum(size(x) for x in t[2]) if t[0] == "F" else 1 if t[0] in "VT" else 1 + sum(size(x) for x in t[1:])
def subterms(t): return [t] + [x for a in (t[2] if t[0] == "F" else []) for x in subterms(a)]
def vars_of(t): return {x[1] for x in subterms(t) if x[0] == "V"}
