"""C21 protocol listings and proof extraction.  See DESIGN.md."""
import sys, os, re, random, shutil, tempfile
sys.path.insert(0, os.path.join(os.path.dirname(os.path.abspath(__file__)), "..", "lib")); sys.path.insert(0, os.path.dirname(os.path.abspath(__file__)))
import vlib, tptp, gen, unsat
from c22 import alpha, variant
from multiprocessing import Pool

# ---- reading listings
EX = r"(?:[a-z_]+(?:\(.*\))?|[0-9.]+)"
LINE = re.compile(r"^ *([0-9.]+) : *([a-z,]*) ?: ?(.*?) *: (%s)(?: : ('[^']*'|[a-z]+|[0-9]+))? *$" % EX)
def noeq(f):
    """equal(s,t) -> s=t, nested single-variable quantifiers"""
    if isinstance(f, list): return [noeq(x) for x in f]
    if not isinstance(f, tuple): return f
    if f[0] in ("T", "Fa"): return ("F", "$true" if f[0] == "T" else "$false", [])
    if f[0] == "F" and f[1] == "equal" and len(f[2]) == 2: return ("=", noeq(f[2][0]), noeq(f[2][1]))
    if f[0] in "!?" and len(f) == 3 and isinstance(f[1], list): return (f[0], [(v[0], None) for v in f[1]], noeq(f[2]))
    if f[0] == "~":
        x = noeq(f[1]); return ("F", {"$true": "$false", "$false": "$true"}[x[1]], []) if x[0] == "F" and x[1] in ("$true", "$false") else ("~", x)
    if f[0] in ("&", "|") and len(f) == 3:                       # association is not kept
        r = []
        def go(x):
            if isinstance(x, tuple) and x[0] == f[0]: go(x[1]); go(x[2])
            else: r.append(noeq(x))
        go(f); e = r[-1]
        for x in reversed(r[:-1]): e = (f[0], x, e)
        return e
    return tuple(noeq(x) for x in f)
def formula(s): return noeq(tptp.parse_all("fof(x,axiom,(%s))." % s)[0]["f"])
def split_top(s):
    r = []; d = 0; cur = ""
    for ch in s:
        d += ch in "(["; d -= ch in ")]"
        if ch == "," and d == 0: r.append(cur); cur = ""
        else: cur += ch
    return r + [cur] if cur.strip() else r
def pcl_clause(s):
    s = s.strip(); assert s[0] == "[" and s[-1] == "]", s; r = []
    for l in split_top(s[1:-1]):
        l = l.strip(); a = formula(l[2:]); assert l[:2] in ("++", "--"), l
        r.append(a if l[:2] == "++" else ("~", a))
    return r
def expr(s, par):
    """justification -> canonical form, quoted ids collected"""
    s = s.strip(); m = re.fullmatch(r"([a-z_]+)(?:\((.*)\))?", s)
    if not m: par.append([int(x) for x in s.split(".")]); return "#"
    if m[1] == "initial": return "initial(%s)" % ",".join(x.strip().strip("\"'") for x in split_top(m[2] or ""))
    if m[1] == "introduced": return "introduced"
    return m[1] + "(" + ",".join(expr(x, par) for x in split_top(m[2] or "")) + ")"
def pcl(txt):
    L = []
    for l in txt.splitlines():
        if not re.match(r"\s*[0-9.]+ :", l): continue
        m = LINE.match(l)
        if not m: raise AssertionError("unreadable step %r" % l)
        par = []; rule = expr(m[4], par); b = m[3].strip(); ro = set(m[2].split(",")) - {""}
        if not b: kind, body = "shell", None
        elif b[0] == "[": kind, body = "cnf", pcl_clause(b)
        else: kind, body = "fof", formula(b)
        ex = (m[5] or "").strip("'")
        L.append(dict(id=[int(x) for x in m[1].split(".")], kind=kind, body=body, role=",".join(sorted(ro)), rule=rule, par=par, extra=ex or ("lemma" if "lemma" in ro else "")))
    return L
def gexpr(t, par):
    """TSTP source -> canonical form"""
    if t[0] in "FTN" and isinstance(t[1], str) and re.fullmatch(r"\d+", t[1]): par.append([int(t[1])]); return "#"
    raise AssertionError("source %r" % (t,))
def tstp_src(s, par):
    s = s.strip()
    m = re.fullmatch(r"(?:pclid)?(\d+(?:_\d+)*)", s)
    if m: par.append([int(x) for x in m[1].split("_")]); return "#"
    if s.startswith("file("): return "initial(%s)" % ",".join(x.strip().strip("\"'") for x in split_top(s[5:-1]))
    if s == "unknown()": return "initial()"
    if s.startswith("introduced("): return "introduced"
    m = re.fullmatch(r"inference\((.*)\)", s)
    if not m: raise AssertionError("source %r" % s)
    a = split_top(m[1]); n = a[0].strip(); ps = [x for x in split_top(a[-1].strip()[1:-1]) if x.strip() not in ("theory(answers)", "theory(equality)")]
    if n == "ar": ps = [x for x in ps if not x.strip().startswith("theory(")]
    return n + "(" + ",".join(tstp_src(x, par) for x in ps) + ")"
def tstp(txt):
    L = []
    for l in txt.splitlines():
        if not l.strip() or l.startswith("%") or l.startswith("#"): continue
        m = re.fullmatch(r"(cnf|fof)\((.*)\)\.\s*", l)
        if not m: raise AssertionError("unreadable step %r" % l)
        a = split_top(m[2]); par = []; i = re.fullmatch(r"(?:pclid)?(\d+(?:_\d+)*)", a[0].strip())
        f = a[2]; 
        L.append(dict(id=[int(x) for x in i[1].split("_")], kind=m[1], role=a[1].strip(), rule=tstp_src(a[3], par), par=par, extra=a[4].strip("[]'") if len(a) > 4 else "",
                      body=[noeq(x) for x in tptp.lits(formula(f))] if m[1] == "cnf" else formula(f)))
        if L[-1]["body"] == [("F", "$false", [])]: L[-1]["body"] = []
    return L
def tstp_role(s):
    ro = s["role"].split(",")
    for a, b in (("conj", "conjecture"), ("que", "question"), ("neg", "negated_conjecture"), ("lemma", "lemma")):
        if a in ro: return b
    return "axiom" if s["rule"].startswith("initial") else "plain"
def tf(c):
    """trivial literals: s=s is $true, false literals dropped"""
    r = []
    for l in c:
        n = l[0] == "~"; a = l[1] if n else l; v = None
        if a[0] == "=" and a[1] == a[2]: v = True
        elif a[0] == "F" and a[1] in ("$true", "$false"): v = a[1] == "$true"
        if v is None: r.append(l)
        elif v != n: r.append(("F", "$true", []))
    return r
def isroot(e): return bool(re.match("proof|final|extract", e))

# ---- writing listings
def ptm(t): return t[1] if t[0] == "V" else t[1] + ("(" + ",".join(map(ptm, t[2])) + ")" if t[2] else "")
def pat(a): return "equal(%s,%s)" % (ptm(a[1]), ptm(a[2])) if a[0] == "=" else ptm(a)
def pfm(f):
    if f[0] == "~": return "~(%s)" % pfm(f[1])
    if f[0] in "!?" and len(f) == 3 and isinstance(f[1], list): return "%s[%s]:(%s)" % (f[0], ",".join(v[0] for v in f[1]), pfm(f[2]))
    if f[0] in ("&", "|", "=>", "<=>", "<~>", "<=", "~&", "~|"): return "(%s%s%s)" % (pfm(f[1]), f[0], pfm(f[2]))
    return {"T": "$true", "Fa": "$false"}.get(f[0]) or pat(f)
R1 = "er ef cn split split_conjunct split_equiv fof_simplification fof_nnf shift_quantors variable_rename skolemize distribute assume_negation condense evalgc".split()
R2 = "pm spm rw sr csr apply_def".split(); RN = ["ar", "cdclpropres"]
def write(rng, fast, shell):
    sig = gen.rand_sig(rng, rng.choice(["mix", "fun", "eq"])); ids = []; cur = [rng.randint(1, 3)]; n = rng.randint(2, 18)
    for _ in range(n):
        ids.append(list(cur))
        if not fast and rng.random() < .25: cur = cur + [rng.randint(0, 4)]
        else:
            if len(cur) > 1 and rng.random() < .4: cur = cur[:rng.randint(1, len(cur) - 1)]
            cur = cur[:-1] + [cur[-1] + rng.choice([1, 1, 1, 1, 2, 7, 200 if rng.random() < .1 else 1])]
    fwd = rng.random() < .15; tail = rng.choice([1, 1, 2, 3]) if rng.random() < .93 else 0; lines = []; bushy = rng.random() < .5
    for k, i in enumerate(ids):
        prev = ids[:k] if not (fwd and rng.random() < .3) else [x for x in ids if x != i]
        def ex(d):
            r = rng.random()
            if d == 0 or r < .3: return ".".join(map(str, rng.choice(prev if bushy or rng.random() < .5 else prev[-3:])))
            if r < .35: return rng.choice(RN) + "(" + ",".join(ex(d - 1) for _ in range(rng.randint(1, 4))) + ")"
            if r < .65: return rng.choice(R1) + "(" + ex(d - 1) + ")"
            return rng.choice(R2) + "(" + ex(d - 1) + "," + ex(d - 1) + ")"
        if not prev or rng.random() < .25: j = rng.choice(["initial", 'initial("a.p",n%d)' % k, 'initial("dir/b.p", \'odd name\')', "introduced"])
        else: j = ex(rng.choice([0, 1, 1, 2, 3]))
        if shell and rng.random() < .3: b = ""
        elif rng.random() < .7:
            c = gen.rand_clause(rng, sig, 3, rng.choice([0, 1, 1, 2, 3, 4]), 2, .3) if rng.random() < .95 else []
            b = "[" + ",".join(("--" if l[0] == "~" else "++") + pat(l[1] if l[0] == "~" else l) for l in c) + "]"
        else: b = pfm(("!", [("X1", None)], gen.rand_formula(rng, sig, 2, ["X1"])))
        ro = rng.choice(["", "", "", "conj", "neg", "que", "lemma", "lemma,neg"])
        e = " : " + rng.choice(["'proof'", "'final'", "'final'", "'extract'"]) if (k >= n - tail or (not fast and rng.random() < .06)) else " : " + rng.choice(["'lemma'", "'wl'", "'unproof'", "'1'"]) if rng.random() < .08 else ""
        lines.append("%s : %s : %s : %s%s\n" % (".".join(map(str, i)), ro, b, j, e))
    if rng.random() < .3: rng.shuffle(lines)
    if rng.random() < .2: lines.insert(rng.randrange(len(lines)), "% a comment\n")
    return "".join(lines)
def job(a):
    B, tag, real = a; rng = random.Random(tag); d = tempfile.mkdtemp(prefix="pcl", dir=vlib.WORK); res = dict(txt="", out="", real=real); X = os.path.join(B, "epclextract")
    try:
        fastable = rng.random() < .5; shell = not real and rng.random() < .1
        if real:
            sig = gen.rand_sig(rng, rng.choice(["mix", "fun", "eq", "epr"])); p = rng.random()
            txt = unsat.problem(rng, sig, .3)
            cl = [gen.rand_clause(rng, sig, 2, rng.choice([1, 1, 2, 2, 3]), 2, .3) for _ in range(rng.randint(2, 7))]
            txt = gen.cnf_problem(cl) if p < .5 else "".join("fof(f%d,%s,%s).\n" % (i, "conjecture" if i == 3 else "axiom", tptp.show(("!", [("X1", None)], gen.rand_formula(rng, sig, 2, ["X1"])))) for i in range(rng.randint(2, 5)))
            open(os.path.join(d, "t.p"), "w").write(txt); res["prob"] = txt; fastable = True
            rc, log, err = vlib.run([os.path.join(B, "eprover"), "-l4", "--pcl-out", "--tstp-in", "--cpu-limit=10", "--processed-clauses-limit=40"] + rng.choice([[], [], ["--auto"], ["--satauto"]]) + ["t.p"], timeout=30, cwd=d)
            txt = log
            if rc not in (0, 1, 9) or log.count("\n") > 160: return dict(skip=1)
        else: txt = write(rng, fastable, shell)
        res["txt"] = txt; open(os.path.join(d, "l.pcl"), "w").write(txt); L = pcl(txt); runs = []; bodies = []; rules = {}
        if not L: return dict(skip=1)
        for s in L: s["root"] = int(isroot(s["extra"])); s["empty"] = int(s["kind"] == "cnf" and not s["body"] or s["kind"] == "shell" and s["extra"] == "proof")
        byid = {tuple(s["id"]): s for s in L}
        def code(s, src):
            """number of the content: the source step's when equal to it"""
            t = byid.get(tuple(s["id"]))
            if t is None: return -1
            if s["kind"] != t["kind"]: return -2
            if s["kind"] == "shell": return 0
            if s["kind"] == "cnf": return 0 if variant(tf(s["body"]), tf(t["body"])) else -3
            return 0 if alpha(s["body"]) == alpha(t["body"]) else -3
        Lr = [dict(s, body=0, rule=rules.setdefault(s["rule"], len(rules))) for s in L]
        def fin(O): return [dict(id=s["id"], kind=s["kind"], body=code(s, L), role=s["role"], rule=rules.setdefault(s["rule"], len(rules)), par=s["par"], extra=s["extra"]) for s in O]
        for _ in range(rng.randint(2, 4)):
            how = rng.choice(["normal", "normal", "all"] + ["fast"] * 3 * fastable); ts = not shell and rng.random() < .4; fr = rng.random() < .3; o = []
            if how == "fast": o.append("-f")
            if how == "all": o += ["-n"] + (["-f"] if fastable and rng.random() < .5 else [])
            if ts: o.append("--tstp-out")
            if fr: o.append("-c")
            of = rng.random() < .2
            if of: o += ["-o", "out"]
            rc, out, err = vlib.run([X, "-s"] + o + ["l.pcl"], timeout=20, cwd=d)
            if of: out = open(os.path.join(d, "out")).read()
            res["out"] += "epclextract " + " ".join(o) + "\n" + out
            if rc != 0: raise AssertionError("epclextract %s ended with %s %s" % (" ".join(o), rc, err[-200:]))
            m = re.findall(r"^% SZS output (start|end) (\w+)", out, re.M); frame = ""
            if fr:
                if [x[0] for x in m] != ["start", "end"] or m[0][1] != m[1][1]: raise AssertionError("framing %s" % m)
                frame = m[0][1]
            elif m: raise AssertionError("framing not asked for")
            again = 1
            if ts:
                O = tstp(out)
                for s in O:
                    t = byid.get(tuple(s["id"]))
                    if t is None: continue
                    s["role"] = t["role"] if s["role"] == tstp_role(t) else "?" + s["role"]
                    if s["extra"] == "" and t["extra"] == "lemma": s["extra"] = "lemma"
                    s["rule"] = s["rule"].replace("fof_split(", "split_equiv(") if False else s["rule"]
                    if "split(" in t["rule"]: pass
            else:
                O = pcl(out)
                if rng.random() < .4:
                    open(os.path.join(d, "o.pcl"), "w").write(out); rc, o2, err = vlib.run([X, "-s"] + [x for x in o if x not in ("-o", "out")] + ["o.pcl"], timeout=20, cwd=d)
                    again = int(rc == 0 and fin(pcl(o2)) == fin(O))
            runs.append(dict(how=how, out=fin(O), frame=frame, again=again))
        res["rec"] = dict(L=Lr, runs=runs)
    except (AssertionError, ValueError, KeyError, IndexError, OSError, TypeError, tptp.ParseError) as x: res["bad"] = "%s %s" % (type(x).__name__, x)
    finally: shutil.rmtree(d, ignore_errors=True)
    return res

def main():
    ck = vlib.Check("C21"); B = os.path.join(vlib.build("fo"), "PROVER")
    n = ck.scale(4000, 40000)
    with Pool(vlib.NCPU) as pool: res = [x for x in pool.map(job, [(B, "C21/%d/%d" % (ck.seed, i), i % 5 == 0) for i in range(n)], chunksize=16) if "skip" not in x]
    vlib.log("listings", len(res)); recs = []
    for i, x in enumerate(res):
        if "bad" in x: ck.violation("listing: %s" % x["bad"], {"l.pcl": x["txt"], "t.p": x.get("prob", ""), "output.txt": x["out"]}); continue
        x["rec"]["id"] = i; recs.append(x["rec"])
    for id_, info in vlib.tlc_validate("PclTrace", recs, acc=ck.acc, timeout=3000, cost=lambda r: len(r["L"]) ** 2 * len(r["runs"]))[:40]:
        x = res[id_]; ck.violation("extraction: run, %s" % info, {"l.pcl": x["txt"], "t.p": x.get("prob", ""), "output.txt": x["out"], "record.json": x["rec"]})
    rs = [(len(r["L"]), x) for r in recs for x in r["runs"]]
    ck.traces = len(rs); ck.cov.update(listings=len(recs), from_prover=sum(x["real"] for x in res), runs=len(rs), fast=sum(x["how"] == "fast" for _, x in rs), proper=sum(0 < len(x["out"]) < m for m, x in rs), steps=sum(len(r["L"]) for r in recs))
    for x in res[:2]: ck.sample(dict(listing=x["txt"][:1500]))
    ck.finish()

if __name__ == "__main__": vlib.guard(main)
