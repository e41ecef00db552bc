"""Reading printed TSTP derivations and proposing interpretations that may separate a step from its parents (the specification judges them)."""
import re, random, itertools
import tptp, gen

class BadProof(Exception): pass

def sources(g, st):
    """leaves of an annotation: names; st collects inference statuses and rule names"""
    if g is None: return []
    if g[0] == "list": return [x for y in g[1] for x in sources(y, st)]
    if g[0] == ":": return sources(g[1], st)
    n, a = g[1], g[2]
    if n == "inference":
        st["rules"].append(a[0][1])
        for x in (a[1][1] if a[1][0] == "list" else []):
            if x[0] == "g" and x[1] == "status": st["status"].add(x[2][0][1])
        return sources(a[2], st)
    if n in ("theory",): return []
    if n == "introduced": st["intro"] = 1; return []
    if n == "file": st["file"] = (a[0][1], a[1][1] if len(a) > 1 else None); return []
    if a: return [x for y in a for x in sources(y, st)]
    return [n]

def closure(f, lang):
    if lang != "cnf": return f
    vs = tptp.fvars(f)
    return ("!", [(v, None) for v in vs], f) if vs else f

def body(out):
    m = re.search(r"SZS output start (\w+)[^\n]*\n(.*?)^[%#]+ SZS output end", out, re.S | re.M)
    return (m.group(1), m.group(2)) if m else (None, None)

def steps(txt, inputs):
    """txt: derivation; inputs: {name: index}; -> list of steps (f is an AST)"""
    S = []; idx = {}; seen = set()
    for a in inputs["ast"]: tptp.symbols(a, seen)
    for an in tptp.parse_all(txt):
        if an["role"] == "type": continue
        st = dict(rules=[], status=set()); ps = sources(an["src"], st); f = closure(an["f"], an["lang"])
        syms = tptp.symbols(f); new = 1 if syms - seen else 0; seen |= syms
        s = dict(name=an["name"], role=an["role"], f=f, cl=1 if an["lang"] == "cnf" else 0, new=new, rules=st["rules"], src=0, par=[], lang=an["lang"], proof=an["extra"])
        if "file" in st:
            s["k"] = "in"; s["src"] = inputs["name"].get(st["file"][1], 0); s["file"] = st["file"][0]
        elif st.get("intro") and not ps: s["k"] = "def"
        else:
            s["k"] = "esa" if "esa" in st["status"] else "cth" if "cth" in st["status"] else "thm"
            if "cth" in st["status"] and len(st["rules"]) > 1 or st["status"] - {"thm", "esa", "cth"}: raise BadProof("status %s of %s" % (st["status"], an["name"]))
        s["par"] = [idx.get(p, 0) for p in ps]
        if an["name"] in idx: raise BadProof("name %s used twice" % an["name"])
        S.append(s); idx[an["name"]] = len(S)
    return S

# ---- proposals
def dpll(cls, rng, lim):
    """cls: list of frozensets of nonzero ints; model dict or None (also None when lim is used up)"""
    asg = {}
    def prop(cl, asg):
        while True:
            unit = None; nxt = []
            for c in cl:
                if any(asg.get(abs(l)) == (l > 0) for l in c): continue
                r = [l for l in c if abs(l) not in asg]
                if not r: return None
                nxt.append(r)
                if len(r) == 1: unit = r[0]
            cl = nxt
            if unit is None: return cl
            asg[abs(unit)] = unit > 0
    def go(cl, asg):
        lim[0] -= 1
        if lim[0] < 0: return None
        cl = prop(cl, asg)
        if cl is None: return None
        if not cl: return asg
        l = rng.choice(min(cl, key=len))
        for v in (l > 0, l < 0):
            b = dict(asg); b[abs(l)] = v; r = go(cl, b)
            if r is not None: return r
        return None
    return go(cls, asg)

def ground(lits, F, D, num, env=None):
    """ground instances of a clause over function tables F; None entries dropped (true)"""
    vs = gen.cvars(lits)
    for vals in ([tuple(env[v] for v in vs)] if env is not None else itertools.product(range(D), repeat=len(vs))):
        e = dict(zip(vs, vals)); g = set(); true = False
        for l in lits:
            s = True
            while l[0] == "~": s = not s; l = l[1]
            if l[0] in ("T", "Fa"):
                if (l[0] == "T") == s: true = True; break
                continue
            if l[0] == "=":
                if (gen.tval(l[1], e, F, D) == gen.tval(l[2], e, F, D)) == s: true = True; break
                continue
            k = 0
            for a in l[2]: k = k * D + gen.tval(a, e, F, D)
            n = num.setdefault((l[1], k), len(num) + 1); g.add(n if s else -n)
        if not true and not any(-x in g for x in g): yield frozenset(g)

def hunt(rng, sig, parents, child, tries, sizes=(1, 2, 2, 3)):
    """clauses: interpretation with all parents true and (child given) child false, or None"""
    for t in range(tries):
        D = rng.choice(sizes); I = gen.rand_interp(rng, sig, D); num = {}
        if sum(D ** len(gen.cvars(c)) for c in parents) > 400: continue
        cls = [g for c in parents for g in ground(c, I, D, num)]
        if frozenset() in cls: continue
        if child is not None:
            vs = gen.cvars(child); e = {v: rng.randrange(D) for v in vs}; g = list(ground(child, I, D, num, e))
            if not g: continue
            cls += [frozenset([-l]) for l in g[0]]
        m = dpll(cls, rng, [200])
        if m is None: continue
        for (p, k), n in num.items():
            if n in m: I[p][k] = int(m[n])
        return I, D
    return None

def sig_of(S, extra=()):
    """functions and predicates occurring in the formulas, or None if the encoding cannot hold them"""
    funs, preds = {}, {}
    def term(t):
        if t[0] == "F":
            funs[t[1]] = max(funs.get(t[1], 0), len(t[2]))
            for a in t[2]: term(a)
        elif t[0] != "V": raise tptp.ParseError("term")
    def walk(f):
        o = f[0]
        if o == "F":
            preds[f[1]] = len(f[2])
            for a in f[2]: term(a)
        elif o == "=": term(f[1]); term(f[2])
        elif o in ("!", "?"): walk(f[2])
        elif o in ("T", "Fa"): pass
        elif o == "V": raise tptp.ParseError("variable as formula")
        else:
            for a in f[1:]: walk(a)
    for f in S: walk(f)
    if set(funs) & set(preds): raise tptp.ParseError("symbol used as function and predicate")
    return gen.Sig(funs, preds)

def record(rng, S, inputs, fin, full, tries=6, nrand=3, cap=40):
    """TLA+ record of a derivation with proposed interpretations"""
    sig = sig_of([s["f"] for s in S] + inputs["ast"]); enc = tptp.Enc(sig.syms); ar = {**sig.funs, **sig.preds}
    for s in S:
        s["e"] = enc.formula(s["f"]); s["ok"] = int(tptp.maxvar(s["e"]) <= 36 and all(a <= 3 for _, a in tptp.symbols(s["f"])) and qdepth(s["f"]) <= 7)
        s["lits"] = tptp.lits(s["f"]) if s["cl"] else None
    big = [n for n, a in ar.items() if a > 3]
    ms = []; small = gen.Sig({f: a for f, a in sig.funs.items() if a <= 3}, {p: a for p, a in sig.preds.items() if a <= 3}) if big else sig
    cand = [(gen.rand_interp(rng, small, D), D) for D in (1, 2, 2, 3)[:nrand]]
    order = list(range(len(S))); rng.shuffle(order)
    for i in order:
        if len(cand) >= cap: break
        s = S[i]
        if s["k"] == "in" or s["k"] == "def" or not s["ok"]: continue
        ps = [S[j - 1] for j in s["par"] if j]
        if not ps or not all(p["ok"] for p in ps): continue
        if s["cl"] and all(p["cl"] for p in ps):
            m = hunt(rng, small, [p["lits"] for p in ps], s["lits"], tries)
            if m is None and rng.random() < .3: m = hunt(rng, small, [p["lits"] for p in ps], None, 2, (2, 2, 3))
            if m: cand.append(m)
        else:
            best = None
            for _ in range(tries * 3):
                D = rng.choice([1, 2, 2]); I = gen.rand_interp(rng, small, D)
                if s["k"] == "esa":
                    if fsafe(s["f"], I, D) and not all(fsafe(p["f"], I, D) for p in ps): best = (I, D); break
                elif s["k"] == "cth":
                    if fsafe(s["f"], I, D) == fsafe(ps[0]["f"], I, D): best = (I, D); break
                elif all(fsafe(p["f"], I, D) for p in ps):
                    if not fsafe(s["f"], I, D): best = (I, D); break
                    if best is None: best = (I, D)
            if best: cand.append(best)
    insy = set()
    for f in inputs["ast"]: tptp.symbols(f, insy)
    I = [[i.get(n, [0]) for n in sig.syms] for i, _ in cand]
    st = [dict(k=s["k"], par=s["par"], pok=[S[j - 1]["ok"] if j else 0 for j in s["par"]], f=s["e"], new=s["new"], ds=sorted(enc[n] for n, a in tptp.symbols(s["f"]) - insy) if s["k"] == "def" else [], cl=s["cl"], ok=s["ok"], src=s["src"]) for s in S]
    return dict(inp=[enc.formula(f) for f in inputs["ast"]], steps=st, fin=fin, full=full, ar=[[int(n in sig.preds), ar[n]] for n in sig.syms], D=[d for _, d in cand], I=I)

def qdepth(f):
    o = f[0]
    if o in ("!", "?"): return len(f[1]) + qdepth(f[2])
    if o in ("F", "=", "V", "T", "Fa"): return 0
    return max(qdepth(a) for a in f[1:])
def fsafe(f, I, D): return gen.fval(f, {}, I, D)

def read_inputs(txt):
    nm = {}; ast = []; roles = []; langs = []
    for a in tptp.parse_all(tptp.strip_comments(txt)):
        if a["role"] == "type": continue
        ast.append(closure(a["f"], a["lang"])); nm[a["name"]] = len(ast); roles.append(a["role"]); langs.append(a["lang"])
    return dict(name=nm, ast=ast, role=roles, lang=langs)
