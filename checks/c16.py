"""C16 base containers.  See DESIGN.md."""
import sys, os, random, struct
sys.path.insert(0, os.path.join(os.path.dirname(os.path.abspath(__file__)), "..", "lib"))
import vlib
from multiprocessing import Pool
ENV = dict(os.environ, ASAN_OPTIONS="detect_leaks=0:abort_on_error=0:exitcode=77:symbolize=0:quarantine_size_mb=8")
KINDS = ["num", "numx", "str", "flt", "quad", "obj", "omap", "set", "imap", "stk", "que", "heap", "dstr", "arr", "parr", "rarr", "darr", "bag", "plist"]
MAPS = ("num", "numx", "str", "flt", "quad", "obj", "omap")

def keys(rng, kind):
    n = rng.choice([3, 8, 8, 20, 60])
    if kind in ("num", "numx", "obj"):
        if rng.random() < .3: return [x - n // 2 for x in range(n)]
        return sorted({rng.choice([rng.randint(-50, 50), rng.randint(-2**31, 2**31 - 1) // 3]) for _ in range(n)})
    if kind == "omap": return sorted({rng.randint(1, 4 * n) for _ in range(n)})
    if kind == "flt": return sorted({rng.choice([rng.randint(-40, 40) / 4, rng.randint(-9, 9) * 1e5]) for _ in range(n)})
    if kind == "str": return sorted({"".join(rng.choice("abAB_z0") for _ in range(rng.choice([1, 1, 2, 3, 5]))) for _ in range(n)})
    if kind == "quad": return sorted({(rng.randint(1, 3), rng.randint(-1, 2), rng.randint(1, 3), rng.randint(-1, 2)) for _ in range(n)})
def lit(kind, k): return "%g" % k if kind == "flt" else ":".join(map(str, k)) if kind == "quad" else str(k)

def job(x):
    H, kind, seed = x; rng = random.Random(seed); ops = []; lines = [kind]; N = rng.choice([10, 30, 30, 80])
    def put(o, a, l, fmt="ints"): ops.append(dict(o=o, a=a, _f=fmt)); lines.append(l)
    K = None
    if kind in MAPS:
        K = keys(rng, kind); W = {"num": "ssssfxdntmlr", "numx": "ssssfxdntmlr", "str": "sssfxdt", "flt": "sssfxdnt", "quad": "sssfxdt", "obj": "sssfFbxrnt", "omap": "uuugfxt"}[kind]
        asc = rng.choice([0, 0, 1, -1]); c = 0
        grow = rng.random() < .5
        for _ in range(N):
            o = rng.choice(W)
            if o in "xdr" and grow and rng.random() < .6: o = W[0]
            i = rng.randrange(len(K))
            if asc and o in "su": i = c % len(K) if asc > 0 else len(K) - 1 - c % len(K); c += 1
            v = rng.randint(1, 99)
            a = [] if o in "ntmr" else [i + 1] if o not in "sug" else [i + 1, v]
            put(o, a, o + " " + (lit(kind, K[i]) if a else "") + (" %d" % v if len(a) > 1 else ""), "keys" if o in "tmlr" else "ints")
        put("t", [], "t ", "keys")
    elif kind == "set":
        n = rng.choice([3, 10, 40])
        for _ in range(N):
            o = rng.choice("ssssssfbxdrntTIM&DC=<#P"); i = rng.choice("AB"); v = rng.randint(1, n)
            if o in "rMD" and rng.random() < .5: o = "s"
            put(o, [1 if i == "A" else 2, v], "%s %s%d" % (o, i, v))
    elif kind == "imap":
        mode = rng.choice(["dense", "sparse", "mixed", "shift"]); base = rng.choice([0, 0, 5, 1000])
        for j in range(N):
            def key():
                return base + (rng.randint(0, 12) if mode == "dense" else rng.randint(0, 2000) if mode == "sparse" else rng.choice([rng.randint(0, 10), rng.randint(0, 10), rng.randint(0, 3000)]) if mode == "mixed" else rng.randint(j, j + 9))
            o = rng.choice("aaaaagrRRdii"); k = key()
            if rng.random() < .4 and ops: k = rng.choice([p["a"][0] for p in ops])
            if o == "i": lo = rng.choice([0, k, max(0, k - 3)]); hi = rng.choice([k, k + 5, 10**6]); put(o, [lo, hi], "i %d %d" % (lo, hi))
            elif o in "aR": v = rng.randint(1, 99); put(o, [k, v], "%s %d %d" % (o, k, v))
            else: put(o, [k], "%s %d" % (o, k))
        put("i", [0, 10**6], "i 0 1000000")
    elif kind == "stk":
        if rng.random() < .2: N = 300
        r = rng.choice([5, 30])
        for _ in range(N):
            o = rng.choice("pppppoktueadnlSC+?BM") if N < 300 else rng.choice("pppppppppppppppppppppppoed"); i = rng.choice("AB"); v = rng.randint(0, r); w = rng.randint(1, r)
            if o in "S+BM" and rng.random() < .6: o = "p"
            if o == "+" and sum(p["o"] == "+" for p in ops) > 3: o = "p"
            if o == "p" and rng.random() < .02: o = "R"
            put(o, [1 if i == "A" else 2, v, w], "%s %s%d %d" % (o, i, v, w))
        put("l", [1, 0, 0], "l A"); put("l", [2, 0, 0], "l B")
    elif kind == "que":
        N = rng.choice([40, 300, 700])
        for _ in range(N):
            o = rng.choice("sssssssbbbbgghhlmn" if rng.random() < .5 else "ssbbgghhhlm"); v = rng.randint(1, 99)
            if rng.random() < .01: o = "t"
            if rng.random() < .002: o = "R"
            put(o, [v], "%s %d" % (o, v))
        put("t", [0], "t 0"); put("n", [0], "n 0")
    elif kind == "heap":
        n = 0; r = rng.choice([3, 20, 1000])
        for _ in range(N):
            o = rng.choice("aaaaapuurnDI")
            if o == "a": v = rng.randint(0, r); put(o, [n, v], "a %d %d" % (n, v)); n += 1
            elif o in "uDIr": i = rng.randint(0, max(0, n)); v = rng.randint(0, r); put(o, [i, v], "%s %d %d" % (o, i, v))
            else: put(o, [], o + " ")
        for _ in range(min(n, 60) + 1): put("p", [], "p ")
    elif kind == "dstr":
        S = lambda m=12: "".join(rng.choice("abcxyz .,'()") for _ in range(rng.choice([0, 1, 5, m])))
        for _ in range(N):
            o = rng.choice("sscciibdde=RmvanyzAwg"); cod = lambda t: [ord(c) for c in t]
            if o == "R" and rng.random() < .6: o = "s"
            if o in "s=": t = S(rng.choice([12, 70, 130])); put(o, cod(t), "%s %s" % (o, t))
            elif o == "w": t = S(rng.choice([12, 254, 255, 256, 257, 700])); put(o, cod(t), "w " + t)
            elif o == "c": t = rng.choice("abcxyz()"); put(o, cod(t), "c " + t)
            elif o == "i": v = rng.choice([0, -1, 7, 12345678901, -98765]); put(o, cod(str(v)), "i %d" % v)
            elif o == "b": t = S(80); n = rng.randint(0, len(t)); put(o, cod(t[:n]), "b %d %s" % (n, t))
            elif o == "a": v = rng.choice([0, 1, 3, 60]); put(o, [v], "a %d" % v, "str")
            elif o == "A": l = ["".join(rng.choice("pqr") for _ in range(rng.randint(1, 4))) for _ in range(rng.randint(0, 4))]; put(o, cod(", ".join(l)), "A " + ",".join(l))
            elif o in "vyz": put(o, [], o + " ", "str" if o != "z" else "zstr")
            else: put(o, [], o + " ")
        put("v", [], "v ", "str"); put("n", [], "n ")
    elif kind in ("arr", "parr", "rarr", "darr"):
        n0 = rng.randint(1, 6) if kind != "rarr" else rng.randint(-10, 10); g = rng.choice([0, 1, 3, 8]) if kind != "darr" else rng.choice([1, 3, 8])
        if kind == "rarr": g = rng.choice([1, 4, 8])
        lines.append("%d %d" % (n0, g)); W = dict(arr="aaaaggiid+C", parr="aaaaggdmusC", rarr="aaaaggiidC", darr="aaaagg+")[kind]
        for _ in range(N):
            o = rng.choice(W); i = rng.choice("AB") if kind != "rarr" else "A"; k = rng.choice([rng.randint(0, 5), rng.randint(0, 20), rng.randint(0, 200)]); v = rng.randint(1, 99)
            if kind == "rarr" and rng.random() < .4: k = -k
            if o == "s": k = v
            if o == "i" and rng.random() < .3: v = -v
            put(o, [1 if i == "A" else 2, k, v], "%s %s%d %d" % (o, i, k, v))
    elif kind == "bag":
        for _ in range(N):
            o = rng.choice("ssdfawq"); P = [j for j in range(8) if rng.random() < .3]; Q = [j for j in range(8) if rng.random() < .5]
            put(o, [P, Q], "%s %d %d" % (o, sum(1 << j for j in P), sum(1 << j for j in Q)), "bag")
    elif kind == "plist":
        n = 0
        for _ in range(N):
            if n == 0 or rng.random() < .6: put("s", [rng.randint(0, n), 5 + len(ops)], ""); lines[-1] = "s %d %d" % tuple(ops[-1]["a"]); n += 1
            else: o = rng.choice("xd"); i = rng.randint(1, n); put(o, [i], "%s %d" % (o, i)); n -= 1
    res = dict(txt="\n".join(lines) + "\n", kind=kind)
    rc, out, err = vlib.run([H], inp=res["txt"].encode(), timeout=60, env=ENV)
    if rc != 0: i = err.find("ERROR: AddressSanitizer"); res["crash"] = "rc %s %s" % (rc, err[i:i + 700] if i >= 0 else err[-200:]); return res
    L = out.split("\n")[:-1]
    if len(L) != len(ops): res["crash"] = "%d answers for %d operations" % (len(L), len(ops)); return res
    rank = {lit(kind, k): i + 1 for i, k in enumerate(K)} if K else {}
    try:
        for o, l in zip(ops, L):
            f = o.pop("_f")
            if f == "str": o["r"] = [10 if c == "\x01" else ord(c) for c in l]
            elif f == "zstr": o["r"] = [-1] if l == "-" and True else [10 if c == "\x01" else ord(c) for c in l]
            elif f == "bag": w = l.split(); bits = lambda t: [j for j in range(32) if int(t) >> j & 1]; o["r"] = [bits(w[0]), [int(w[1])], [int(w[2])], bits(w[3]), [int(w[4])]]
            elif l.strip() == "-": o["r"] = []
            elif f == "keys": w = l.split(); o["r"] = [rank.get(t, 0) if j % 2 == 0 else int(t) for j, t in enumerate(w)]
            else: o["r"] = [int(t) for t in l.split()]
    except (ValueError, IndexError) as e: res["crash"] = "unreadable answer %r" % e; return res
    res["rec"] = dict(kind="map" if kind in MAPS else "arr" if kind.endswith("arr") else kind, ops=ops)
    return res

def main():
    ck = vlib.Check("C16")
    H = vlib.harness("ct", "asan")
    c = lambda l, k, s: "CONSTANT MaxLen = %d\nCONSTANT MaxKey = %d\nCONSTANT MaxSize0 = %d\n" % (l, k, s)
    for nx, inv, cs in (("RingNext", "RInv", c(ck.scale(5, 7), 2, 3)), ("HeapNext", "HInv", c(ck.scale(5, 7), 3, 1))):
        r = vlib.tlc_run("ContainerImpl", "INIT Init\nNEXT %s\n%sINVARIANT %s\n" % (nx, cs, inv), workers=8, acc=ck.acc, timeout=3000)
        if not r["ok"]: raise vlib.CheckError("ContainerImpl: " + r["out"][-2000:])
    n = ck.scale(400, 5000)
    with Pool(vlib.NCPU) as pool: res = pool.map(job, [(H, k, "C16/%s/%d/%d" % (k, ck.seed, i)) for i in range(n) for k in KINDS], chunksize=16)
    vlib.log("histories", len(res)); recs = []
    for i, x in enumerate(res):
        if "crash" in x: ck.violation("container %s: %s" % (x["kind"], x["crash"]), {"input.txt": x["txt"]}); continue
        x["rec"]["id"] = i; recs.append(x["rec"])
    for id_, info in vlib.tlc_validate("ContainersTrace", recs, acc=ck.acc, timeout=3000, cost=lambda r: len(r["ops"]) ** 2)[:40]:
        x = res[id_]; ck.violation("container %s wrong answer %s" % (x["kind"], info), {"input.txt": x["txt"], "record.json": x["rec"]})
    ck.traces = sum(len(r["ops"]) for r in recs); ck.cov.update(histories=len(recs), operations=ck.traces, containers=len(KINDS))
    for x in res[:3]: ck.sample(dict(input=x["txt"][-300:]))
    ck.finish()

if __name__ == "__main__": vlib.guard(main)
