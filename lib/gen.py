"""Seeded generators of problems, interpretations and option sets."""
import itertools, random
import tptp

V = lambda n: ("V", n)
F = lambda n, *a: ("F", n, list(a))
NOT = lambda f: ("~", f)
EQ = lambda a, b: ("=", a, b)

class Sig:
    def __init__(self, funs, preds):
        self.funs = dict(funs); self.preds = dict(preds)       # name -> arity
        self.consts = [f for f, a in self.funs.items() if a == 0]
        self.nfuns = [(f, a) for f, a in self.funs.items() if a > 0]
        self.syms = list(self.funs) + list(self.preds)
    def arity(self, s): return self.funs[s] if s in self.funs else self.preds[s]

def rand_sig(rng, style):
    """style: epr | fun | eq | mix"""
    nc = rng.randint(1, 3) if style != "epr" else rng.randint(2, 3)
    funs = {c: 0 for c in "abcd"[:nc]}
    if style != "epr":
        for f, p in (("f", .8), ("g", .5)):
            if rng.random() < p: funs[f] = 1
        if rng.random() < (.7 if style == "eq" else .35): funs["h"] = 2
        if "h" in funs and rng.random() < .35: funs["k"] = 2
        if not any(funs.values()): funs["f"] = 1
    preds = {}
    if style != "eq":
        for p, a, pr in (("p", 1, .9), ("q", 2, .7), ("r", 1, .5), ("s", 0, .3), ("t", 2, .2)):
            if rng.random() < pr: preds[p] = a
        if not preds: preds["p"] = 1
    elif rng.random() < .4: preds["p"] = 1
    return Sig(funs, preds)

def rand_term(rng, sig, vars_, depth):
    r = rng.random()
    if depth <= 0 or not sig.nfuns or r < .4:
        if vars_ and (rng.random() < .6 or not sig.consts): return V(rng.choice(vars_))
        return F(rng.choice(sig.consts)) if sig.consts else V("X1")
    f, a = rng.choice(sig.nfuns)
    return F(f, *[rand_term(rng, sig, vars_, depth - 1) for _ in range(a)])

def rand_atom(rng, sig, vars_, depth, peq):
    if not sig.preds or rng.random() < peq:
        return EQ(rand_term(rng, sig, vars_, depth), rand_term(rng, sig, vars_, depth))
    p = rng.choice(list(sig.preds))
    return F(p, *[rand_term(rng, sig, vars_, depth - (1 if rng.random() < .5 else 0)) for _ in range(sig.preds[p])])

def rand_lit(rng, sig, vars_, depth, peq, ppos=.5):
    a = rand_atom(rng, sig, vars_, depth, peq)
    return a if rng.random() < ppos else NOT(a)

def rand_clause(rng, sig, nv, nl, depth, peq, ppos=.5):
    vs = ["X%d" % (i + 1) for i in range(nv)]
    return [rand_lit(rng, sig, vs, depth, peq, ppos) for _ in range(nl)]

def clause_str(c): return "|".join(tptp.show(l) for l in c) if c else "$false"

def cnf_problem(clauses, roles=None):
    return "".join("cnf(c%d,%s,(%s)).\n" % (i + 1, roles[i] if roles else "axiom", clause_str(c)) for i, c in enumerate(clauses))

# ---- interpretations: {sym: table}, table indexed by Horner value of the arguments in base D
def rand_interp(rng, sig, D):
    I = {}
    for f, a in sig.funs.items():
        I[f] = [rng.randrange(D) for _ in range(D ** a)]
        if a == 2 and rng.random() < .5:
            op = rng.choice([min, max, lambda x, y: (x + y) % D, lambda x, y: x, lambda x, y: 0])
            I[f] = [op(x, y) for x in range(D) for y in range(D)]
        if a == 1 and rng.random() < .3: I[f] = [(x + rng.choice([0, 1])) % D for x in range(D)]
    for p, a in sig.preds.items(): I[p] = [rng.randrange(2) for _ in range(D ** a)]
    return I

def tval(t, e, I, D):
    if t[0] == "V": return e[t[1]]
    k = 0
    for a in t[2]: k = k * D + tval(a, e, I, D)
    return I[t[1]][k]

def ltrue(l, e, I, D):
    if l[0] == "~": return not ltrue(l[1], e, I, D)
    if l[0] == "=": return tval(l[1], e, I, D) == tval(l[2], e, I, D)
    if l[0] == "T": return True
    if l[0] == "Fa": return False
    return tval(l, e, I, D) == 1

def cvars(c):
    acc = []
    for l in c: tptp.fvars(l, (), acc)
    return acc

def ctrue(c, I, D):
    vs = cvars(c)
    for vals in itertools.product(range(D), repeat=len(vs)):
        e = dict(zip(vs, vals))
        if not any(ltrue(l, e, I, D) for l in c): return False
    return True

def fval(f, e, I, D):
    o = f[0]
    if o in ("F", "="): return ltrue(f, e, I, D)
    if o == "T": return True
    if o == "Fa": return False
    if o == "~": return not fval(f[1], e, I, D)
    if o == "&": return fval(f[1], e, I, D) and fval(f[2], e, I, D)
    if o == "|": return fval(f[1], e, I, D) or fval(f[2], e, I, D)
    if o == "=>": return (not fval(f[1], e, I, D)) or fval(f[2], e, I, D)
    if o == "<=": return (not fval(f[2], e, I, D)) or fval(f[1], e, I, D)
    if o == "<=>": return fval(f[1], e, I, D) == fval(f[2], e, I, D)
    if o == "<~>": return fval(f[1], e, I, D) != fval(f[2], e, I, D)
    if o == "~&": return not (fval(f[1], e, I, D) and fval(f[2], e, I, D))
    if o == "~|": return not (fval(f[1], e, I, D) or fval(f[2], e, I, D))
    if o in ("!", "?"):
        vs = [v for v, _ in f[1]]
        g = (fval(f[2], {**e, **dict(zip(vs, vals))}, I, D) for vals in itertools.product(range(D), repeat=len(vs)))
        return all(g) if o == "!" else any(g)
    raise ValueError(o)

def enc_interp(I, order): return [I[s] for s in order]

def special_clauses(rng, sig):
    """structured clauses worth having: AC axioms, units, finite-domain axioms, definitions, transitivity"""
    X, Y, Z = V("X1"), V("X2"), V("X3"); out = []
    if "h" in sig.funs:
        out.append([[EQ(F("h", X, Y), F("h", Y, X))], [EQ(F("h", F("h", X, Y), Z), F("h", X, F("h", Y, Z)))]])
        out.append([[EQ(F("h", X, Y), F("h", Y, X))]])
        if sig.consts: out.append([[EQ(F("h", X, F(sig.consts[-1])), F("h", F(sig.consts[-1]), X))]])
        out.append([[EQ(F("h", X, X), X)]])
        if sig.consts: out.append([[EQ(F("h", X, F(sig.consts[0])), X)]])
        if sig.consts and "f" in sig.funs: out.append([[EQ(F("h", F("f", X), X), F(sig.consts[0]))]])
    if "k" in sig.funs:
        out.append([[EQ(F("k", X, Y), F("k", Y, X))]]); out.append([[EQ(F("k", X, F("h", Y, Z)), F("k", Y, F("h", X, Z)))]])
        out.append([[EQ(F("h", X, Y), F("k", Y, X))]])
    for f in ("f", "g"):
        if f in sig.funs:
            out.append([[EQ(F(f, F(f, X)), X)]]); out.append([[EQ(F(f, F(f, X)), F(f, X))]])
            out.append([[NOT(EQ(F(f, X), F(f, Y))), EQ(X, Y)]])
    if len(sig.consts) >= 2: out.append([[EQ(X, F(sig.consts[0])), EQ(X, F(sig.consts[1]))]])
    if len(sig.consts) >= 3: out.append([[EQ(X, F(c)) for c in sig.consts]])
    for q in ("q", "t"):
        if q in sig.preds:
            out.append([[NOT(F(q, X, Y)), NOT(F(q, Y, Z)), F(q, X, Z)]]); out.append([[NOT(F(q, X, Y)), F(q, Y, X)]])
            out.append([[F(q, X, X)]]); out.append([[NOT(F(q, X, X))]]); out.append([[F(q, X, Y), F(q, Y, X)]])
            out.append([[NOT(F(q, X, Y)), NOT(F(q, Y, X)), EQ(X, Y)]])
    if "f" in sig.funs and "g" in sig.funs: out.append([[EQ(F("f", X), F("g", F("g", X)))]])
    rng.shuffle(out)
    return out

def rand_formula(rng, sig, depth, vars_, peq=.2, cnt=None):
    """random formula, free variables among vars_"""
    cnt = cnt if cnt is not None else [0]
    r = rng.random()
    if depth <= 0 or r < .12: return rand_lit(rng, sig, vars_, rng.choice([0, 1, 1, 2]), peq, .7)
    if r < .42 and len(vars_) < 4:
        cnt[0] += 1; v = "X%d" % cnt[0]
        n = [v]
        if rng.random() < .25: cnt[0] += 1; n.append("X%d" % cnt[0])
        if rng.random() < .1 and vars_: n[0] = rng.choice(vars_)          # shadowing
        return (rng.choice("!?"), [(x, None) for x in dict.fromkeys(n)], rand_formula(rng, sig, depth - 1, list(dict.fromkeys(vars_ + n)), peq, cnt))
    if r < .5: return NOT(rand_formula(rng, sig, depth - 1, vars_, peq, cnt))
    if r < .51: return rng.choice([("T",), ("Fa",)])
    o = rng.choice(["&", "|", "&", "|", "=>", "<=>", "<=", "<~>", "~&", "~|", "=>", "<=>"])
    return (o, rand_formula(rng, sig, depth - 1, vars_, peq, cnt), rand_formula(rng, sig, depth - 1, vars_, peq, cnt))

def perturb(rng, sig, I, D, keep, tries=12):
    """other models near I: change table entries while keep(I') holds"""
    out = []; cur = {k: list(v) for k, v in I.items()}
    for _ in range(tries):
        J = {k: list(v) for k, v in cur.items()}
        for _ in range(rng.randint(1, 2)):
            s = rng.choice(list(J)); i = rng.randrange(len(J[s])); J[s][i] = rng.randrange(D if s in sig.funs else 2)
        if J != cur and keep(J):
            cur = J
            if J not in out: out.append(J)
    return out[-3:]

def subst_term(t, s):
    if t[0] == "V": return s.get(t[1], t)
    return ("F", t[1], [subst_term(a, s) for a in t[2]])

def map_lit(l, f):
    if l[0] == "~": return ("~", map_lit(l[1], f))
    if l[0] == "=": return ("=", f(l[1]), f(l[2]))
    if l[0] == "F": return ("F", l[1], [f(a) for a in l[2]])
    return l

def mutate_term(rng, sig, t, vars_):
    if t[0] == "F" and t[2] and rng.random() < .75:
        a = list(t[2]); i = rng.randrange(len(a)); a[i] = mutate_term(rng, sig, a[i], vars_)
        if len(a) == 2 and rng.random() < .2: a = a[::-1]
        return ("F", t[1], a)
    return rand_term(rng, sig, vars_, rng.choice([0, 0, 1]))

def wrap(rng, sig, pair, vars_, pdiff=.4):
    """the two terms in a common context; sometimes the context differs in one more place"""
    a, b = pair
    for _ in range(rng.choice([0, 1, 1, 2])):
        if not sig.nfuns: break
        f, n = rng.choice(sig.nfuns); i = rng.randrange(n)
        x = [rand_term(rng, sig, vars_, rng.choice([0, 0, 1])) for _ in range(n)]; y = list(x)
        if n > 1 and rng.random() < pdiff: j = (i + 1) % n; y[j] = mutate_term(rng, sig, y[j], vars_)
        x[i] = a; y[i] = b; a, b = ("F", f, x), ("F", f, y)
    return a, b

def related_clause(rng, sig, cs, peq):
    """a clause built from the material of cs: instances, near-instances, equations in context, resolved-upon partners"""
    vs = ["X1", "X2", "X3"][:rng.randint(1, 3)]
    def inst(c): 
        s = {v: (V(rng.choice(vs)) if rng.random() < .6 else rand_term(rng, sig, vs, 1)) for v in cvars(c)}
        return [map_lit(l, lambda t: subst_term(t, s)) for l in c]
    cs = [c for c in cs if c]
    if not cs: return rand_clause(rng, sig, 1, 2, 1, peq)
    r = rng.random(); c = rng.choice(cs); d = inst(c)
    eqs = [c2 for c2 in cs if len(c2) == 1 and c2[0][0] == "="]
    if eqs and r < .4:
        e = inst(rng.choice(eqs))[0]; p = (e[1], e[2]) if rng.random() < .5 else (e[2], e[1])
        a, b = wrap(rng, sig, p, vs)
        l = EQ(a, b); l = l if rng.random() < .3 else NOT(l)
        u = [m for m in cs if len(m) == 1]
        k = [l] + [x for x in (inst(rng.choice(u))[:1] if u and rng.random() < .3 else [])]
        while len(k) < 3 and rng.random() < .5: k.append(rand_lit(rng, sig, vs, 1, peq))
        return k
    if r < .6:      # flip one literal, keep or extend the rest
        i = rng.randrange(len(d)); d[i] = d[i][1] if d[i][0] == "~" else NOT(d[i])
    elif r < .8:    # change one term
        i = rng.randrange(len(d)); d[i] = map_lit(d[i], lambda t: mutate_term(rng, sig, t, vs) if rng.random() < .6 else t)
    else:           # union of two
        d = d + inst(rng.choice(cs))
    if len(d) < 4 and rng.random() < .4: d.append(rand_lit(rng, sig, vs, 1, peq))
    rng.shuffle(d)
    return d[:4]

def congruence_problem(rng):
    """unorientable unit equations and literals that differ by an instance of one of them and, perhaps, in one more
    place: what unit simplification, demodulation with instances and AC reasoning must tell apart"""
    sig = Sig({**{c: 0 for c in "abcd"[:rng.randint(2, 4)]}, "h": 2, "k": 2, **({"f": 1} if rng.random() < .5 else {})}, {"p": 1} if rng.random() < .5 else {})
    D = rng.choice([2, 2, 3]); I = rand_interp(rng, sig, D)
    I["h"] = [min(x, y) if rng.random() < 2 else 0 for x in range(D) for y in range(D)] if rng.random() < .4 else [(x + y) % D for x in range(D) for y in range(D)]
    if rng.random() < .6:
        op = rng.choice([lambda x, y: y, lambda x, y: (x + 2 * y) % D, lambda x, y: max(x, y), lambda x, y: x, lambda x, y: (x - y) % D])
        I["k"] = [op(x, y) for x in range(D) for y in range(D)]
    ms = [(I, D)]; cs = []; n = rng.randint(3, 7)
    for grp in special_clauses(rng, sig):
        if len(cs) < 3 and all(len(c) == 1 and c[0][0] == "=" and ctrue(c, I, D) for c in grp): cs += grp
    if not cs: cs = [[EQ(F("h", V("X1"), V("X2")), F("h", V("X2"), V("X1")))]]
    vs = ["X1", "X2", "X3"][:rng.randint(2, 3)]; base = list(cs); tries = 0
    while len(cs) < n + len(base) and tries < 80:
        tries += 1
        e = rng.choice(base)[0]; v = cvars([e]); tgt = [V(x) for x in vs] + [F(c) for c in sig.consts[:1]]
        rng.shuffle(tgt); s = {x: tgt[i % len(tgt)] for i, x in enumerate(v)}
        p = (subst_term(e[1], s), subst_term(e[2], s)); p = p if rng.random() < .5 else p[::-1]
        a, b = wrap(rng, sig, p, vs if rng.random() < .3 else [], .7)
        l = EQ(a, b) if rng.random() < .25 else NOT(EQ(a, b))
        c = [l] + [rand_lit(rng, sig, vs, 1, .6) for _ in range(rng.choice([0, 1, 1, 2]))]
        if rng.random() < .2: c = rand_clause(rng, sig, 2, rng.choice([1, 2]), 1, .6)
        if len(cvars(c)) <= 3 and not any(x[0] == "=" and x[1] == x[2] for x in c) and ctrue(c, I, D): cs.append(c)
    rng.shuffle(cs)
    return sig, D, I, cs

def planted_clauses(rng, sig, models, n, style):
    """clauses true in every given (I, D)"""
    out = []; tries = 0; rel = rng.choice([0, .3, .6, .9])
    if rng.random() < .6:
        for grp in special_clauses(rng, sig)[:rng.randint(1, 6)]:
            if len(out) < n and all(ctrue(c, I, D) for c in grp for I, D in models): out += grp
    peq = {"epr": .15, "fun": .2, "eq": .95, "mix": .4}[style]
    while len(out) < n and tries < n * 60:
        tries += 1
        nl = rng.choice([1, 1, 2, 2, 3, 3, 4]); nv = rng.randint(0, 3)
        if out and rng.random() < rel: c = related_clause(rng, sig, out, peq)
        else: c = rand_clause(rng, sig, nv, nl, rng.choice([1, 1, 2, 2, 3]), peq)
        if len(cvars(c)) > 3: continue
        if any(l[0] == "=" and l[1] == l[2] for l in c): continue
        if all(ctrue(c, I, D) for I, D in models): out.append(c)
        else:
            c = [l[1] if l[0] == "~" else NOT(l) for l in c]
            if all(ctrue(c, I, D) for I, D in models) and not any(l[0] == "=" and l[1] == l[2] for l in c): out.append(c)
    return out

# ---------------------------------------------------------------- option sets
LITSEL = """NoSelection SelectNegativeLiterals PSelectNegativeLiterals SelectPureVarNegLiterals PSelectPureVarNegLiterals SelectLargestNegLit PSelectLargestNegLit SelectSmallestNegLit PSelectSmallestNegLit SelectLargestOrientable PSelectLargestOrientable MSelectLargestOrientable SelectSmallestOrientable PSelectSmallestOrientable MSelectSmallestOrientable SelectDiffNegLit PSelectDiffNegLit SelectGroundNegLit PSelectGroundNegLit SelectOptimalLit PSelectOptimalLit SelectMinOptimalLit PSelectMinOptimalLit SelectMinOptimalNoTypePred PSelectMinOptimalNoTypePred SelectMinOptimalNoXTypePred PSelectMinOptimalNoXTypePred SelectMinOptimalNoRXTypePred PSelectMinOptimalNoRXTypePred SelectCondOptimalLit PSelectCondOptimalLit SelectAllCondOptimalLit PSelectAllCondOptimalLit SelectOptimalRestrDepth2 PSelectOptimalRestrDepth2 SelectOptimalRestrPDepth2 PSelectOptimalRestrPDepth2 SelectOptimalRestrNDepth2 PSelectOptimalRestrNDepth2 SelectNonRROptimalLit PSelectNonRROptimalLit SelectNonStrongRROptimalLit PSelectNonStrongRROptimalLit SelectAntiRROptimalLit PSelectAntiRROptimalLit SelectNonAntiRROptimalLit PSelectNonAntiRROptimalLit SelectStrongRRNonRROptimalLit PSelectStrongRRNonRROptimalLit SelectUnlessUniqMax PSelectUnlessUniqMax SelectUnlessPosMax PSelectUnlessPosMax SelectUnlessUniqPosMax PSelectUnlessUniqPosMax SelectUnlessUniqMaxPos PSelectUnlessUniqMaxPos SelectComplex PSelectComplex SelectComplexExceptRRHorn PSelectComplexExceptRRHorn SelectLComplex PSelectLComplex SelectMaxLComplex PSelectMaxLComplex SelectMaxLComplexNoTypePred PSelectMaxLComplexNoTypePred SelectMaxLComplexNoXTypePred PSelectMaxLComplexNoXTypePred SelectComplexPreferNEQ PSelectComplexPreferNEQ SelectComplexPreferEQ PSelectComplexPreferEQ SelectComplexExceptUniqMaxHorn PSelectComplexExceptUniqMaxHorn MSelectComplexExceptUniqMaxHorn SelectNewComplex PSelectNewComplex SelectNewComplexExceptUniqMaxHorn PSelectNewComplexExceptUniqMaxHorn SelectMinInfpos PSelectMinInfpos HSelectMinInfpos GSelectMinInfpos SelectMinInfposNoTypePred PSelectMinInfposNoTypePred SelectMin2Infpos PSelectMin2Infpos SelectComplexExceptUniqMaxPosHorn PSelectComplexExceptUniqMaxPosHorn SelectUnlessUniqMaxSmallestOrientable PSelectUnlessUniqMaxSmallestOrientable SelectDivLits SelectDivPreferIntoLits SelectMaxLComplexG SelectMaxLComplexAvoidPosPred SelectMaxLComplexAPPNTNp SelectMaxLComplexAPPNoType SelectMaxLComplexAvoidPosUPred SelectComplexG SelectComplexAHP PSelectComplexAHP SelectNewComplexAHP PSelectNewComplexAHP SelectComplexAHPExceptRRHorn PSelectComplexAHPExceptRRHorn SelectNewComplexAHPExceptRRHorn PSelectNewComplexAHPExceptRRHorn SelectNewComplexAHPExceptUniqMaxHorn PSelectNewComplexAHPExceptUniqMaxHorn SelectNewComplexAHPNS SelectVGNonCR SelectCQArEqLast SelectCQArEqFirst SelectCQIArEqLast SelectCQIArEqFirst SelectCQAr SelectCQIAr SelectCQArNpEqFirst SelectCQIArNpEqFirst SelectGrCQArEqFirst SelectCQGrArEqFirst SelectCQArNTEqFirst SelectCQIArNTEqFirst SelectCQArNTNpEqFirst SelectCQIArNTNpEqFirst SelectCQArNXTEqFirst SelectCQIArNXTEqFirst SelectCQArNTNp SelectCQIArNTNp SelectCQArNT SelectCQIArNT SelectCQArNp SelectCQIArNp SelectCQArNpEqFirstUnlessPDom SelectCQArNTEqFirstUnlessPDom SelectCQPrecW SelectCQIPrecW SelectCQPrecWNTNp SelectCQIPrecWNTNp""".split()
PRECGEN = "unary_first unary_freq arity invarity const_max const_min freq invfreq invconjfreq invfreqconjmax invfreqconjmin invfreqconstmin".split()
WGEN = "firstmaximal0 arity aritymax0 modarity modaritymax0 aritysquared aritysquaredmax0 invarity invaritymax0 invaritysquared precedence invprecedence precrank5 precrank10 freqcount invfreqcount freqrank invfreqrank invconjfreqrank invmodfreqrank invmodfreqrankmax0 constant".split()
FPIDX = "FP0 FPfp FP1 FP2 FP3D FP3W FP4D FP4W FP4M FP5M FP6M FP7 FP7M FP4X2_2 FP3DFlex NPDT NoIndex".split()
FVT = "None AC SS All Bill BillPlus ACFold ACStagger".split()
HEUR = ["(1*FIFOWeight(ConstPrio))", "(1*LIFOWeight(ConstPrio),1*Clauseweight(ConstPrio,1,1,1))", "(5*Clauseweight(ConstPrio,1,1,1),1*FIFOWeight(ConstPrio))",
        "(3*Refinedweight(PreferGoals,1,2,2,2,0.5),1*FIFOWeight(ConstPrio))", "(10*ConjectureRelativeSymbolWeight(ConstPrio,0.1,100,100,100,100,1.5,1.5,1.5),1*FIFOWeight(ConstPrio))",
        "(4*Clauseweight(PreferUnitGroundGoals,2,1,1),1*FIFOWeight(PreferNonGoals))", "(2*Orientweight(ConstPrio,2,1,2,1.2,1.1),1*FIFOWeight(SimulateSOS))",
        "(7*StaggeredWeight(ConstPrio,1),2*Clauseweight(PreferGround,1,1,1),1*FIFOWeight(ConstPrio))"]

def rand_options(rng, wild=True, split=True, autos=True):
    """a random strategy that E itself regards as complete and sound"""
    if autos and rng.random() < .12: return ["--auto"]
    o = ["-W", rng.choice(LITSEL)]
    r = rng.random()
    if r < .5: o += ["-t", "KBO6"]
    elif r < .6: o += ["-t", "KBO"]
    elif r < .9: o += ["-t", "LPO4"]
    else: o += ["-t", "LPO"]
    if rng.random() < .7: o += ["-G", rng.choice(PRECGEN)]
    if rng.random() < .6: o += ["-w", rng.choice(WGEN)]
    o += ["-H", rng.choice(HEUR)]
    def maybe(p, *x):
        if rng.random() < p: o.extend(x)
    maybe(.25, rng.choice(["--simul-paramod", "--oriented-simul-paramod", "--supersimul-paramod", "--oriented-supersimul-paramod"]))
    maybe(.2, rng.choice(["--condense", "--condense-aggressive"]))
    maybe(.3, rng.choice(["--destructive-er", "--strong-destructive-er", "--destructive-er-aggressive"]))
    if "--strong-destructive-er" in o or "--destructive-er-aggressive" in o:
        if "--destructive-er" not in o: o.append("--destructive-er")
    maybe(.25, "--forward-context-sr"); maybe(.1, "--forward-context-sr-aggressive"); maybe(.2, "--backward-context-sr")
    maybe(.2, "--fw-subsumption-aggressive")
    maybe(.2, "--prefer-general-demodulators"); maybe(.25, "-F", rng.choice("012")); maybe(.1, "--strong-rw-inst")
    maybe(.15, "-u"); maybe(.15, "--conventional-subsumption")
    maybe(.3, "--subsumption-indexing=" + rng.choice(["None", "Direct", "Perm", "PermOpt"]))
    maybe(.3, "--fvindex-featuretypes=" + rng.choice(FVT[1:]))
    maybe(.1, "--fvindex-maxfeatures=%d" % rng.choice([2, 5, 20]))
    maybe(.4, "--fp-index=" + rng.choice(FPIDX))
    maybe(.2, "--rw-bw-index=" + rng.choice(FPIDX)); 
    if "--fp-index=NoIndex" not in o:
        maybe(.2, "--pm-from-index=" + rng.choice(FPIDX[:-1])); maybe(.2, "--pm-into-index=" + rng.choice(FPIDX[:-1]))
    maybe(.1, "--fp-no-size-constr"); maybe(.1, "--pdt-no-size-constr"); maybe(.1, "--pdt-no-age-constr")
    maybe(.1, "--detsort-rw"); maybe(.1, "--detsort-new")
    maybe(.2, "--ac-handling=" + rng.choice(["None", "KeepUnits", "KeepOrientable", "DiscardAll"])); maybe(.1, "--ac-non-aggressive")
    maybe(.15, "--no-preprocessing"); maybe(.15, "--no-eq-unfolding"); maybe(.1, "--eq-unfold-limit=%d" % rng.choice([0, 2, 10, 100]))
    maybe(.05, "--presat-simplify"); maybe(.15, rng.choice(["--goal-defs=All", "--goal-defs=Neg"])); maybe(.05, "--goal-subterm-defs")
    maybe(.15, "--select-on-processing-only"); maybe(.1, "-i"); maybe(.1, "-j")
    maybe(.1, "--prefer-initial-clauses"); maybe(.1, "--disable-given-clause-fw-contraction")
    maybe(.1, "--literal-comparison=" + rng.choice(["None", "Normal", "TFOEqMin"])); maybe(.05, "--restrict-literal-comparisons")
    maybe(.1, "--sos-uses-input-types"); maybe(.1, "--disequality-decomposition=%d" % rng.choice([1, 4, 1024])); maybe(.1, "--filter-orphans-limit=%d" % rng.choice([1, 5]))
    maybe(.1, "--forward-contract-limit=%d" % rng.choice([2, 10]))
    if rng.random() < .12: o += ["--satcheck-proc-interval=%d" % rng.choice([1, 3, 10]), "--satcheck=" + rng.choice(["FirstConst", "ConjMinMinFreq", "GlobalMin"][:2])]
    maybe(.1, "--bce=true"); maybe(.1, "--pred-elim=true")
    if split and rng.random() < .3:
        o += ["--split-clauses=%d" % rng.choice([1, 2, 4, 7, 7, 31]), "--split-method=%d" % rng.choice([0, 1, 2])]
        maybe(.4, "--split-aggressive"); maybe(.4, "--split-reuse-defs")
    return o

# ---- problems grown until no interpretation of a finite signature survives
def all_interps(sig, maxD):
    """interpretations in which every element is named by a constant, constants in restricted-growth order"""
    def rgs(n):
        if n == 0: yield []; return
        for p in rgs(n - 1):
            for k in range(max(p, default=-1) + 2): yield p + [k]
    for g in rgs(len(sig.consts)):
        D = max(g) + 1
        if D > maxD: continue
        rest = [(s, a, D) for s, a in sig.nfuns] + [(s, a, 2) for s, a in sig.preds.items()]
        for tabs in itertools.product(*[itertools.product(range(r), repeat=D ** a) for _, a, r in rest]):
            I = {c: [v] for c, v in zip(sig.consts, g)}
            for (s, _, _), t in zip(rest, tabs): I[s] = t
            yield I, D

def killer_problem(rng, leave=False):
    """(sig, clauses): unsatisfiable, every clause needed to exclude some interpretation that the earlier ones allow;
    with leave: (sig, clauses, models), satisfiable, but only by the few models that are left"""
    kind = rng.choice(["geq", "geq", "geqp", "fun", "epr", "epr2"])
    if kind in ("geq", "geqp"):
        sig = Sig({c: 0 for c in "abcde"[:rng.choice([3, 4, 4, 5, 5])]}, {p: 0 for p in "stu"[:rng.randint(1, 3) if kind == "geqp" else 0]}); nv = [0]; dep = 0; peq = .8 if kind == "geqp" else 1
    elif kind == "fun":
        sig = Sig({"a": 0, "b": 0, "f": 1, **({"g": 1} if rng.random() < .5 else {})}, rng.choice([{}, {"p": 1}, {"p": 1, "s": 0}])); nv = [0, 1, 1, 2]; dep = 2; peq = .6
    elif kind == "epr": sig = Sig({"a": 0, "b": 0}, rng.choice([{"q": 2}, {"p": 1, "q": 2}, {"p": 1, "r": 1, "s": 0}])); nv = [0, 1, 2, 2]; dep = 0; peq = .25
    else: sig = Sig({"a": 0, "b": 0, "c": 0}, rng.choice([{"p": 1}, {"p": 1, "r": 1}])); nv = [0, 1, 1, 2]; dep = 0; peq = .4
    ms = list(all_interps(sig, 9))
    cs = []
    if kind == "fun":
        cs.append([EQ(V("X1"), F("a")), EQ(V("X1"), F("b"))])
        if rng.random() < .5: cs.append([NOT(EQ(F("a"), F("b")))]); ms = [(I, D) for I, D in ms if D == 2]
    lens = rng.choice([[2], [2, 3], [3], [3], [3, 4], [1, 2, 3]]); ppos = rng.choice([.35, .5, .6, .7]); tries = 0
    while ms and tries < 400:
        tries += 1
        c = rand_clause(rng, sig, rng.choice(nv), rng.choice(lens), dep if rng.random() < .5 else min(dep, 1), peq, ppos)
        if any(l[0] == "=" and l[1] == l[2] for l in c): continue
        m2 = [(I, D) for I, D in ms if ctrue(c, I, D)]
        if leave and (not m2 or (len(ms) <= 2 and tries > 30)):
            if len(ms) <= 4: break
            continue
        if len(m2) == len(ms) or (len(m2) < .4 * len(ms) and len(ms) > 3): continue
        cs.append(c); ms = m2
    if leave:
        rng.shuffle(cs); rng.shuffle(ms)
        return sig, cs, ms[:3]
    if ms: return None
    rng.shuffle(cs)
    return sig, cs
