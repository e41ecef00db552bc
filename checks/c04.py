"""C04 proof objects.  See DESIGN.md."""
import sys, os, re, random
sys.path.insert(0, os.path.join(os.path.dirname(os.path.abspath(__file__)), "..", "lib")); sys.path.insert(0, os.path.dirname(os.path.abspath(__file__)))
import vlib, tptp, gen, unsat, proof
from c02 import as_text, PEQ
from multiprocessing import Pool
LIM = ["--cpu-limit=3", "--memory-limit=768", "-C", "400", "--generated-limit=4000"]

def wrap(rng, t, top=True):
    """the term with some subterms u replaced by w1(u), w2(u) or w3(u,v), which the added equations undo"""
    if t[0] == "V": u = t
    else: u = ("F", t[1], [wrap(rng, a, False) for a in t[2]])
    r = rng.random()
    if top or r < .7: return u
    return ("F", "w1", [u]) if r < .82 else ("F", "w2", [u]) if r < .93 else ("F", "w3", [u, ("F", "w1", [u])])
def wlit(rng, l):
    if l[0] == "~": return ("~", wlit(rng, l[1]))
    if l[0] == "=": return ("=", wrap(rng, l[1], False), wrap(rng, l[2], False))
    return wrap(rng, l)
X = ("V", "X1"); Y = ("V", "X2")
WEQ = [[("=", ("F", "w1", [X]), X)], [("=", ("F", "w2", [X]), X)], [("=", ("F", "w3", [X, Y]), X)]]
def problem(rng):
    st = rng.choice(["epr", "fun", "eq", "mix", "mix"]); sig = gen.rand_sig(rng, st)
    pb = unsat.problem(rng, sig, PEQ[st], steps=rng.choice([None, rng.randint(6, 14), rng.randint(10, 22)]))
    cs = pb["clauses"]
    if rng.random() < .35: cs = [[wlit(rng, l) for l in c] for c in cs] + WEQ; rng.shuffle(cs)
    return as_text(rng, cs)

def job(a):
    E, seed = a
    rng = random.Random(seed); r = rng.random()
    if r < .88: txt = problem(rng)
    else:
        st = rng.choice(["epr", "fun", "mix"]); sig = gen.rand_sig(rng, st); txt = "".join("fof(f%d,%s,%s).\n" % (i, "conjecture" if i == 0 and rng.random() < .5 else "axiom", tptp.show(gen.rand_formula(rng, sig, 3, [], .25))) for i in range(rng.randint(2, 4)))
    opts = gen.rand_options(rng) if rng.random() < .75 else []
    if "--split-clauses" not in " ".join(opts) and rng.random() < .15: opts.append("--split-clauses=%d" % rng.choice([4, 7, 15]))
    if rng.random() < .3: opts.append("--definitional-cnf=%d" % rng.choice([1, 2, 3]))
    full = int(rng.random() < .12)
    if rng.random() < .25:                    # the derivations of all clauses of a longer search
        full = 1; opts = [x for x in opts if not x.startswith("--auto")] + ["--force-deriv=2"]
        if rng.random() < .7:
            st = rng.choice(["epr", "fun", "eq", "mix", "mix"]); sig = gen.rand_sig(rng, st); D = rng.choice([1, 2, 2, 3]); cs = gen.planted_clauses(rng, sig, [(gen.rand_interp(rng, sig, D), D)], rng.randint(4, 10), st)
            if cs: txt = as_text(rng, cs)
    cmd = [E, "-s"] + (["-C", "%d" % rng.randint(5, 40), "--generated-limit=300"] + LIM[:2] if "--force-deriv=2" in opts else LIM) + ["--tstp-format", "--proof-object=%d" % rng.choice([1, 1, 2, 3])] + (["--full-deriv"] if full else []) + opts + ["-"]
    rc, out, err = vlib.run(cmd, inp=txt.encode(), timeout=30)
    return judge(rng, txt, cmd, rc, out, err, full)

def judge(rng, txt, cmd, rc, out, err, full, fname="<stdin>", tries=6, cap=40):
    res = dict(txt=txt, cmd=cmd, rc=rc, out=out)
    m = re.search(r"SZS status (\w+)", out); status = m.group(1) if m else None
    ref = status in ("Unsatisfiable", "Theorem", "ContradictoryAxioms"); res["status"] = status
    kind, b = proof.body(out)
    if not ref and b is None: return res
    if ref and (b is None or kind != "CNFRefutation"): res["bad"] = "no derivation printed (status %s)" % status; return res
    try:
        inputs = proof.read_inputs(txt); S = proof.steps(tptp.strip_comments(b), inputs)
        if full: S = S[:110]
        for s in S:
            if s["k"] == "in":
                if s["src"] == 0: raise proof.BadProof("%s cites input %s which does not exist" % (s["name"], s["file"]))
                if s["file"].strip("'") != fname: raise proof.BadProof("%s cites file %s" % (s["name"], s["file"]))
                want = inputs["role"][s["src"] - 1]
                if s["role"] != want: raise proof.BadProof("%s is printed as %s, the input says %s" % (s["name"], s["role"], want))
        if ref and not full and not any(s["f"] == ("Fa",) for s in S): raise proof.BadProof("no empty clause in the derivation")
        res["rec"] = proof.record(rng, S, inputs, int(ref and not full), full, tries=tries, cap=cap if len(S) < 50 else cap // 2); res["steps"] = S
    except (proof.BadProof, tptp.ParseError, KeyError, IndexError) as x: res["bad"] = "derivation not readable or malformed: %s %s" % (type(x).__name__, x)
    return res

def main():
    ck = vlib.Check("C04")
    E = os.path.join(vlib.build("fo"), "PROVER", "eprover")
    n = ck.scale(3000, 60000)
    with Pool(vlib.NCPU) as pool: res = pool.map(job, [(E, "C04/%d/%d" % (ck.seed, i)) for i in range(n)], chunksize=8)
    vlib.log("runs", len(res)); recs = []; rules = {}; nst = 0
    for i, x in enumerate(res):
        if "bad" in x: ck.violation("%s; options %s" % (x["bad"], " ".join(x["cmd"][1:-1])), {"problem.p": x["txt"], "cmd.txt": " ".join("'%s'" % c for c in x["cmd"]), "output.txt": x["out"]})
        if "rec" in x:
            x["rec"]["id"] = i; recs.append(x["rec"]); nst += len(x["steps"])
            for s in x["steps"]:
                for r in s["rules"]: rules[r] = rules.get(r, 0) + 1
    for id_, info in vlib.tlc_validate("ProofTrace", recs, acc=ck.acc, timeout=3000, cost=lambda r: 5 + len(r["steps"]) * len(r["I"])):
        x = res[id_]; w, k = [z.strip().strip('"') for z in info.split(",")[:2]]; s = x["steps"][int(k) - 1]
        ck.violation("%s: step %s (%s) from %s: %s; options %s" % (w, s["name"], ",".join(s["rules"]) or s["k"], ",".join(x["steps"][j - 1]["name"] for j in s["par"] if j), tptp.show(s["f"]), " ".join(x["cmd"][1:-1])), {"problem.p": x["txt"], "cmd.txt": " ".join("'%s'" % c for c in x["cmd"]), "output.txt": x["out"], "record.json": x["rec"]})
    ck.traces = len(recs); stat = {}
    for x in res: stat[str(x["status"])] = stat.get(str(x["status"]), 0) + 1
    ck.cov.update(derivations=len(recs), steps=nst, interpretations=sum(len(r["I"]) for r in recs), rules=rules, statuses=stat)
    for x in res[:2]: ck.sample(dict(problem=x["txt"], options=" ".join(x["cmd"][1:-1]), status=x["status"], steps=["%s %s: %s" % (s["name"], s["k"], tptp.show(s["f"])) for s in x.get("steps", [])][:12]))
    ck.finish()

if __name__ == "__main__": vlib.guard(main)
