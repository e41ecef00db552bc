"""Search for an extension of an interpretation to introduced symbols (the certificate TLC checks)."""
import itertools
def solve(clauses, I, D, nin, isp, budget=20000):
    """clauses in the TLA+ encoding [nvars, lits]; I: list of tables; introduced symbols nin+1..; isp: list of 0/1.
    Returns dict cell->value, None if there is none, or "?" if the budget ran out"""
    A = {}
    class Und(Exception): pass
    def val(t, e):
        if t[0] == 0: return e[t[1] - 1]
        h = 0
        for a in t[1:]: h = h * D + val(a, e)
        if t[0] <= nin: return I[t[0] - 1][h]
        c = (t[0], h)
        if c in A: return A[c]
        raise Und(c)
    G = []
    for c in clauses:
        for e in itertools.product(range(D), repeat=c[0]): G.append((c[1], e))
    if len(G) > 4000: return "?"
    cnt = [0]
    def status(g):
        und = []
        for l in g[0]:
            try:
                if len(l) == 2: v = val(l[1], g[1]) == l[0]
                else: v = (val(l[1], g[1]) == val(l[2], g[1])) == (l[0] == 1)
                if v: return True, None
            except Und as u: und.append(u.args[0])
        return False, und
    def rec(G):
        cnt[0] += 1
        if cnt[0] > budget: raise TimeoutError
        rest = []; best = None; trail = []
        work = G
        while True:
            rest = []; best = None; unit = None
            for g in work:
                ok, und = status(g)
                if ok: continue
                if not und:
                    for c in trail: del A[c]
                    return False
                rest.append(g)
                if len(und) == 1:
                    # literal with one undetermined cell: try to propagate
                    c = und[0]; vals = [0, 1] if isp[c[0] - nin - 1] else list(range(D)); good = []
                    for v in vals:
                        A[c] = v; ok, u2 = status(g)
                        if ok or u2: good.append(v)
                        del A[c]
                    if not good:
                        for c in trail: del A[c]
                        return False
                    if len(good) == 1: unit = (c, good[0]); A[c] = good[0]; trail.append(c); continue
                if best is None or len(und) < best[0]: best = (len(und), und[0])
            work = rest
            if unit is None: break
        if not rest: return True
        c = best[1]
        for v in ([0, 1] if isp[c[0] - nin - 1] else range(D)):
            A[c] = v
            if rec(rest): return True
            del A[c]
        for c in trail: del A[c]
        return False
    try: return dict(A) if rec(G) else None
    except TimeoutError: return "?"

def tables(A, D, nin, arities):
    out = []
    for i, a in enumerate(arities): out.append([A.get((nin + 1 + i, h), 0) for h in range(D ** a)])
    return out
