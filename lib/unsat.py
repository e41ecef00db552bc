"""Generator of unsatisfiable clause sets together with a ground refutation: start from the empty clause and
run resolution / paramodulation / equality resolution backwards, then generalise the leaves."""
import random
import gen
from gen import V, F, NOT, EQ

def neg(l): return l[1] if l[0] == "~" else ("~", l)

def subterms(t, acc):
    if t[0] == "F":
        acc.append(t)
        for a in t[2]: subterms(a, acc)
    return acc

def lit_subterms(l):
    a = l[1] if l[0] == "~" else l
    acc = []
    if a[0] == "=": subterms(a[1], acc); subterms(a[2], acc)
    else:
        for x in a[2]: subterms(x, acc)
    return acc

def repl(t, old, new):
    if t == old: return new
    if t[0] == "F": return ("F", t[1], [repl(a, old, new) for a in t[2]])
    return t

def repl_lit(l, old, new):
    if l[0] == "~": return ("~", repl_lit(l[1], old, new))
    if l[0] == "=": return ("=", repl(l[1], old, new), repl(l[2], old, new))
    return ("F", l[1], [repl(a, old, new) for a in l[2]])

def depth(t): return 1 + max([depth(a) for a in t[2]], default=0) if t[0] == "F" else 1

def add(c, l): return c if l in c else c + [l]

def gterm(rng, sig, d): return gen.rand_term(rng, sig, [], d)

def make(rng, sig, steps, peq, maxlen=4):
    """returns (nodes in derivation order, list of leaf indices); node = [kind, i, j, lits]"""
    # tree: each node dict(kind, ps, c)
    root = dict(kind=0, ps=[], c=[]); leaves = [root]; nodes = [root]
    for _ in range(steps):
        lf = rng.choice(leaves); c = lf["c"]
        r = rng.random(); ps = None
        cand = [(m, t) for m in c for t in lit_subterms(m)]
        def part(excl=None):
            a, b = [], []
            for l in c:
                if l is excl: continue
                x = rng.random()
                if x < .45: a.append(l)
                elif x < .9: b.append(l)
                else: a.append(l); b.append(l)
            return a, b
        if cand and r < peq * 1.2:
            m, t = rng.choice(cand)
            for _ in range(8):
                s = gterm(rng, sig, rng.choice([0, 1, 1, 2]))
                if s != t: break
            if s == t: continue
            m2 = repl_lit(m, t, s)
            a, b = part(m)
            e = EQ(s, t) if rng.random() < .5 else EQ(t, s)
            p1, p2 = add(a, e), add(b, m2)
            if e in a: continue
            if m2 in b and False: continue
            ps = [p1, p2]; kind = 2
            # check exactness: c = (p1-{e}) u (p2-{m2}) u {m}
            S = [l for l in p1 if l != e] + [l for l in p2 if l != m2] + [m]
            if sorted(map(repr, {repr(x) for x in S})) != sorted(map(repr, {repr(x) for x in c})): continue
        elif r < .95 or not c:
            A = gen.rand_atom(rng, sig, [], rng.choice([0, 1, 1, 2]), peq)
            if A[0] == "=" and A[1] == A[2]: continue
            if A in c or neg(A) in c: continue
            a, b = part()
            ps = [add(a, A), add(b, neg(A))]; kind = 1
        else:
            t = gterm(rng, sig, 1); l = NOT(EQ(t, t))
            if l in c: continue
            ps = [add(c, l)]; kind = 3
        if any(len(p) > maxlen for p in ps): continue
        lf["kind"] = kind; lf["ps"] = [dict(kind=0, ps=[], c=p) for p in ps]
        leaves.remove(lf); leaves += lf["ps"]; nodes += lf["ps"]
    return root, leaves

def generalise(rng, lits, p=.6):
    """replace some ground subterms by variables: returns (clause, substitution {var: ground term})"""
    sub = {}; c = list(lits); n = 0
    for _ in range(3):
        if rng.random() > p: continue
        st = []
        for l in c: st += [t for t in lit_subterms(l) if not has_var(t)]
        if not st: break
        t = rng.choice(st); n += 1; v = "X%d" % n
        if rng.random() < .8: c2 = [repl_lit(l, t, V(v)) for l in c]
        else:
            i = rng.randrange(len(c)); c2 = [repl_lit(l, t, V(v)) if j == i else l for j, l in enumerate(c)]
        if any(isbare(l) for l in c2) and rng.random() < .7: n -= 1; continue
        c = c2; sub[v] = t
    return c, sub

def isbare(l):
    a = l[1] if l[0] == "~" else l
    return l[0] == "=" and (a[1][0] == "V" or a[2][0] == "V")

def has_var(t): return t[0] == "V" or any(has_var(a) for a in t[2])

def problem(rng, sig, peq, noise=True, steps=None):
    """returns dict(clauses=[...], nodes=[[kind,i,j,lits or (idx,subst)]])"""
    root, leaves = make(rng, sig, steps or rng.randint(3, 11), peq)
    clauses = []; pg = rng.choice([.2, .5, .8])
    for lf in leaves:
        c, sub = generalise(rng, lf["c"], pg)
        lf["inp"] = len(clauses); lf["sub"] = sub; clauses.append(c)
    if noise:
        for _ in range(rng.choice([0, 0, 1, 2, 4])):
            r = rng.random()
            if r < .3: clauses.append(gen.related_clause(rng, sig, clauses, peq))
            elif r < .5: clauses.append(gen.rand_clause(rng, sig, rng.randint(0, 2), rng.randint(1, 3), 2, peq))
            elif r < .75:      # instance or weakening of an existing clause
                c = list(rng.choice(clauses))
                c = c + [gen.rand_lit(rng, sig, ["X1"], 1, peq)]; clauses.append(c)
            else:
                g = gen.special_clauses(rng, sig)
                if g: clauses += g[0]
    # derivation order
    order = []
    def visit(n):
        for p in n["ps"]: visit(p)
        n["idx"] = len(order) + 1; order.append(n)
    visit(root)
    return dict(clauses=clauses, order=order)

def encode(pb, enc, perm=None):
    """TLA+ record parts; clauses in original order"""
    inp = []; vms = []
    for c in pb["clauses"]:
        vm = {}; ls = []
        for l in c: ls.append(enc.lit(l, vm))
        inp.append([len(vm), ls]); vms.append(vm)
    nodes = []
    for n in pb["order"]:
        lits = [enc.lit(l, {}) for l in n["c"]]
        if n["kind"] == 0:
            vm = vms[n["inp"]]; s = [None] * len(vm)
            for v, i in vm.items(): s[i - 1] = enc.term(n["sub"][v], {})
            nodes.append([0, n["inp"] + 1, s, lits])
        else:
            ps = [p["idx"] for p in n["ps"]] + [0]
            nodes.append([n["kind"], ps[0], ps[1], lits])
    return inp, nodes
