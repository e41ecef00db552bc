"""C19 deduction server sessions.  See DESIGN.md."""
import sys, os, random, re, socket, struct, subprocess, time, shutil, collections
sys.path.insert(0, os.path.join(os.path.dirname(os.path.abspath(__file__)), "..", "lib"))
import vlib
from concurrent.futures import ThreadPoolExecutor

class Conn:
    def __init__(s, port):
        s.s = socket.create_connection(("127.0.0.1", port)); s.s.settimeout(100); s.s.setsockopt(socket.IPPROTO_TCP, socket.TCP_NODELAY, 1)
    def send(s, t):
        b = t.encode()
        try: s.s.sendall(struct.pack(">I", len(b) + 4) + b)
        except OSError: pass
    def exact(s, n):
        d = b""
        while len(d) < n:
            s.s.setsockopt(socket.IPPROTO_TCP, socket.TCP_QUICKACK, 1)
            try: x = s.s.recv(n - len(d))
            except ConnectionError: return None
            if not x: return None
            d += x
        return d
    def recv(s):
        h = s.exact(4)
        if h is None: return None
        n = struct.unpack(">I", h)[0]
        return s.exact(n - 4).decode("utf8", "replace") if n > 4 else ""
    def cmd(s, msgs):
        """all messages up to and including the response line; None at the end if the server closed the connection"""
        for t in msgs: s.send(t)
        r = []
        while True:
            m = s.recv(); r.append(m)
            if m is None or re.match(r"^\d\d\d (ok|Err) : .*\n$", m): return r

FAKE = """#!/bin/sh
for f; do :; done
cat "$f" > "$VERIF_LOG/$$.tmp" && mv "$VERIF_LOG/$$.tmp" "$VERIF_LOG/$$.job"
echo "% Pid: $$"
echo "% SZS status Theorem for $f"
echo "% some proof"
"""

class Server:
    def __init__(s, exe, d, lib):
        s.d = d; s.lib = lib; os.makedirs(d + "/tmp"); os.makedirs(d + "/log")
        open(d + "/fake", "w").write(FAKE); os.chmod(d + "/fake", 0o755)
        if lib is not None:
            os.makedirs(d + "/lib/subdir")
            for n, (t, f) in lib.items(): open(d + "/lib/" + n, "w").write(t)
        env = dict(os.environ, TMPDIR=d + "/tmp", VERIF_LOG=d + "/log")
        for _ in range(20):
            x = socket.socket(); x.bind(("127.0.0.1", 0)); s.port = x.getsockname()[1]; x.close()
            s.p = subprocess.Popen([exe, d + "/fake", "-p", str(s.port)] + (["-L", d + "/lib"] if lib is not None else []), stdout=subprocess.DEVNULL, stderr=subprocess.DEVNULL, env=env, cwd=d, start_new_session=True)
            for _ in range(200):
                if s.p.poll() is not None: break
                try: socket.create_connection(("127.0.0.1", s.port)).close(); return
                except OSError: time.sleep(.05)
            s.stop()
        raise vlib.CheckError("server does not start")
    def stop(s):
        try: os.killpg(s.p.pid, 9)
        except OSError: pass
        s.p.wait()

norm = lambda t: re.sub(r"[\s()]", "", t)
def forms_of(text):
    """formulas of a file as 'name,role,formula' without white space and parentheses; type declarations left out"""
    out = []
    for m in re.finditer(r"^(?:fof|cnf|tff|tcf)\((.*)\)\.\s*$", text, re.M):
        if ",type," not in norm(m.group(1)): out.append(norm(m.group(1)))
    return sorted(set(out))

def text(rng, tag, k, short=False):
    fs = []
    for i in range(k):
        a = "%s(%s)" % (rng.choice("pqrs"), rng.choice(["a", "b", "c", "f(a)", "f(f(b))"])); b = "%s(%s)" % (rng.choice("pqrs"), rng.choice(["a", "b", "c", "f(c)"]))
        fs.append("%s(%s_%d, %s, %s)." % (("cnf", tag, i, "axiom", a) if rng.random() < .4 else ("fof", tag, i, rng.choice(["axiom", "axiom", "hypothesis"]), rng.choice([a, "(%s=>%s)" % (a, b) if a != b else a]))))
    return rng.choice(["\n", "\n", "\n\n"] if not short else ["\n"]).join(fs) + ("\n" if rng.random() < .8 else "")

ERRS = ["FOO", "", "stage n1", "%STAGE n1", "123", "QUITX", "list", "ADDX n1", ". LIST", "n1 STAGE", "GO\n"]
def walks(edges, rng, maxlen):
    """sessions that together take every transition of the model"""
    out = collections.defaultdict(list)
    for i, e in enumerate(edges): out[e[0]].append(i)
    todo = set(range(len(edges))); init = "<<>>"; pend = {s: [i for i in v] for s, v in out.items()}
    for v in pend.values(): rng.shuffle(v)
    while todo:
        w, s = [], init
        while len(w) < maxlen and todo:
            p = pend.get(s, [])
            loops = [i for i in p if edges[i][5] == s]
            if p:
                i = loops[0] if loops else p[0]; p.remove(i)
            else:                                      # nearest state with something left
                seen = {s: None}; q = collections.deque([s]); t = None
                while q and t is None:
                    x = q.popleft()
                    for j in out[x]:
                        y = edges[j][5]
                        if y not in seen:
                            seen[y] = j; q.append(y)
                            if pend.get(y): t = y; break
                if t is None: break
                path = []
                while t != s: path.append(seen[t]); t = edges[seen[t]][0]
                w += path[::-1]; s = edges[w[-1]][5]; continue
            todo.discard(i); w.append(i); s = edges[i][5]
        yield [edges[i] for i in w]

def main():
    ck = vlib.Check("C19"); d = vlib.build("fo"); exe = d + "/PROVER/e_deduction_server"
    rng = random.Random("C19/%d" % ck.seed)
    cfg = "INIT Init\nNEXT Next\nVIEW View\nACTION_CONSTRAINT Edges\nPROPERTIES OneCode RunUsesStaged Frame ErrorChangesNothing ReadOnly TextFixed StagedStays\nCONSTANT Names = {%s}\nCONSTANT Texts = {\"t0\", \"t1\"}\nCONSTANT LibNames = {\"n3\", \"n4\"}\n" % ck.scale('"n1", "n2", "n3"', '"n1", "n2", "n3", "n4"')
    r = vlib.tlc_run("ServerModel", cfg, workers=1, acc=ck.acc, timeout=900)
    if not r["ok"]: raise vlib.CheckError("ServerModel: " + r["out"][-2000:])
    edges = []
    for l in r["prints"]:
        m = re.match(r'^<<"EDGE", "(.*)", "(\w+)", "(\w*)", "(\w*)", (\d+), "(.*)">>$', l)
        if m: edges.append((m.group(1), m.group(2), m.group(3), m.group(4), int(m.group(5)), m.group(6)))
    ck.cov["model_transitions"] = len(edges)
    sessions = []           # (haslib, [op dict])
    def op(o, n="", t="", msgs=None, raw=None):
        return dict(o=o, n=n, t=t, f=forms_of(t) if t else [], raw=raw, msgs=msgs)
    jobno = [0]
    def job(n):
        jobno[0] += 1
        return op("RUN", n, "fof(job%d, conjecture, %s(a)).\n" % (jobno[0], rng.choice("pq")) + ("fof(jax%d, axiom, q(c)).\n" % jobno[0] if rng.random() < .3 else ""))
    for w in walks(edges, rng, 170):
        nm = {"n%d" % i: x for i, x in enumerate(rng.choice([("n1", "n"), ("lib1", "lib1.a"), ("ax2", "ax"), ("s", "s.1"), ("A-b+3", "b+3"), ("x" * rng.randint(240, 300), "x" * 5), ("axioms_2", "Axioms_2")]), 1)}; nm.update(n3="lib1.ax", n4="lib2")
        tx = {"t0": "", "t1": text(rng, "w%d" % len(sessions), 2)}; ops = []
        for (s, o, n, t, code, s2) in w:
            if o == "RUN": ops.append(job("j%d" % len(ops)))
            elif o == "FOO": ops.append(op("?", raw=rng.choice(ERRS)))
            else: ops.append(op(o, nm.get(n, ""), tx.get(t, "")))
            if s2 != s: ops.append(op("LIST"))
        ops += [op("LIST")] + [op("DOWNLOAD", n) for n in nm.values()]
        sessions.append((True, ops))
    ck.cov["model_sessions"] = len(sessions)
    for i in range(ck.scale(60, 600)):
        names = ["m%d" % j for j in range(rng.randint(1, 6))] + rng.sample(["lib1.ax", "lib2", "subdir", "nofile", "1", "a.b.c", "k" * 600, "M1", "m", "m1.0", "m11", "lib"], rng.randint(2, 4)); ops = []; here = set()
        for _ in range(rng.randint(30, 140)):
            n = rng.choice(names); x = rng.random()
            if x < .26:
                big = rng.random() < .1; ops.append(op("ADD", n, text(rng, "r%d_%d" % (i, len(ops)), rng.choice([0, 1, 2, 3, 6]) if not big else 120)))
            elif x < .34: ops.append(op("LOAD", rng.choice(["lib1.ax", "lib2", "subdir", "nofile", n])))
            elif x < .52: ops.append(op("STAGE", n))
            elif x < .66: ops.append(op("UNSTAGE", n))
            elif x < .78: ops.append(op("REMOVE", n))
            elif x < .86: ops.append(op("DOWNLOAD", n))
            elif x < .9: ops.append(op("LIST"))
            elif x < .96: ops.append(job(rng.choice(["job", "J" * 400, "x1"])))
            elif x < .98: ops.append(op("?", raw=rng.choice(ERRS)))
            else: ops.append(op("HELP"))
        ops += [op("LIST")] + [op("DOWNLOAD", n) for n in names] + [job("last")]
        sessions.append((i % 4 != 3, ops))
    L = {n: (t, forms_of(t)) for n, t in (("lib1.ax", text(rng, "l1", 3)), ("lib2", text(rng, "l2", 40)))}
    tmp = os.path.join(vlib.WORK, "srv.%d" % os.getpid()); shutil.rmtree(tmp, ignore_errors=True); os.makedirs(tmp)
    servers = {True: Server(exe, tmp + "/a", L), False: Server(exe, tmp + "/b", None)}
    def messages(o, srng):
        if o["raw"] is not None: return [o["raw"]]
        l = [o["o"] + srng.choice([" ", " ", "  ", "\t"]) + o["n"] + srng.choice(["", "", "\n"]) if o["n"] else o["o"]]
        if o["o"] in ("ADD", "RUN"):
            t = o["t"]
            while t:                              # the text arrives in any number of messages
                k = srng.choice([len(t), len(t), srng.randint(1, len(t)), min(len(t), srng.randint(1, 9) if len(t) < 400 else 900)])
                if t[:k] == "GO\n": k = 1
                l.append(t[:k]); t = t[k:]
            l.append("GO\n")
        return l
    def play(i):
        haslib, ops = sessions[i]; srng = random.Random("C19/s/%d/%d" % (ck.seed, i)); c = Conn(servers[haslib].port); ev = []; script = []
        for o in ops:
            ms = messages(o, srng); script.append(ms); r = c.cmd(ms)
            e = dict(o=o["o"], n=o["n"], t=o["t"], f=o["f"], code=-1, noise=0, stg=[], uns=[], disk=[], text="", used=[], job=0)
            if r[-1] is not None: e["code"] = int(r[-1][:3])
            body = r[:-1]; sec = None
            if o["o"] == "LIST":
                for m in body:
                    if m in ("Staged :\n", "Unstaged :\n", "On Disk :\n"): sec = m[0]
                    elif m.startswith("No Axiom Sets"): e["noise"] += bool(e["stg"] or e["uns"])
                    elif m.startswith("\tNo axioms directory"): e["noise"] += haslib
                    elif sec == "S" and m[:2] == "  ": e["stg"].append(m[2:-1])
                    elif sec == "U" and m[:2] == "  ": e["uns"].append(m[2:-1])
                    elif sec == "O" and m[:1] == "\t": e["disk"].append(m[1:-1])
                    else: e["noise"] += 1
            elif o["o"] == "DOWNLOAD" and e["code"] == 204: e["text"] = "".join(body); e["noise"] = len(body) - 1
            elif o["o"] == "RUN":
                a = [k for k, m in enumerate(body) if m == "\n%% Processing started for %s\n" % o["n"]]; z = [k for k, m in enumerate(body) if m == "\n%% Processing finished for %s\n\n" % o["n"]]; s = [k for k, m in enumerate(body) if "SZS status Theorem" in m and "some proof" in m]
                e["job"] = 3 if a == [0] and s == [1] and z == [2] else 1; e["noise"] = max(0, len(body) - 3)
            elif o["o"] == "HELP": e["noise"] = len(body) != 1
            else: e["noise"] = len(body)
            e["noise"] = int(e["noise"]); ev.append(e)
            if r[-1] is None: break
        end = None
        if ev[-1]["code"] != -1: c.send("QUIT"); end = c.recv()
        c.s.close()
        return i, ev, end, script
    def probe(ms, key, what):
        c = Conn(servers[True].port); c.cmd(["ADD a", "fof(x, axiom, p(a)).\n", "GO\n"]); c.cmd(["STAGE a"])
        r = c.cmd(ms); r2 = c.cmd(["LIST"]) if r[-1] else [None]; c.s.close()
        code = r[-1][:3] if r[-1] else "none"; state = "kept" if r2 == ["Staged :\n", "  a\n", "On Disk :\n"] + [m for m in r2[3:-1] if m and m[0] == "\t"] + ["200 ok : success\n"] else "lost"
        if code[0] != "4" or state == "lost": ck.violation("malformed input (%s): response %s, session %s" % (key, code, state), {"session.txt": repr(ms) + "\n"})
    try:
        with ThreadPoolExecutor(16) as ex: res = list(ex.map(play, range(len(sessions))))
        probe(["ADD b", "fof(x, axi", "GO\n"], "ADD unparsable", "")
        probe(["RUN j", "fof(x, conj", "GO\n"], "RUN unparsable", "")
        probe(["'abc"], "unterminated quote", "")
    finally:
        for s in servers.values(): s.stop()
    logs = {}
    for k, s in servers.items():
        for f in os.listdir(s.d + "/log"):
            fs = forms_of(open(s.d + "/log/" + f).read())
            js = [x.split(",")[0] for x in fs if x.startswith("job") and ",conjecture," in x or x.startswith("job") and ",question," in x]
            for j in js or ["?"]: logs.setdefault(j, []).append(fs)
    recs = []; scripts = {}
    for i, ev, end, script in res:
        for e in ev:
            if e["o"] == "RUN": e["used"] = logs.get(re.match(r"fof\((job\d+)", e["t"]).group(1), [])
        if end is not None: ev.append(dict(ev[-1], o="QUIT", code=int(end[:3]) if end[:3].isdigit() else -2))
        haslib = sessions[i][0]; scripts[i] = script
        recs.append(dict(id=i, haslib=haslib, lib=[dict(n=n, t=t, f=f) for n, (t, f) in L.items()] if haslib else [], ops=ev))
    vlib.log("sessions", len(recs), "commands", sum(len(r["ops"]) for r in recs))
    for id_, info in vlib.tlc_validate("ServerTrace", recs, acc=ck.acc, timeout=2000, cost=lambda r: len(r["ops"])):
        ck.violation("session %s" % info, {"session.txt": "\n".join(repr(m) for m in scripts[id_]) + "\n"})
    ck.traces = len(recs)
    cnt = collections.Counter("%s %d" % (e["o"] if e["o"] != "?" else "unknown", e["code"]) for r in recs for e in r["ops"])
    ck.cov.update(sessions=len(recs), commands=sum(len(r["ops"]) for r in recs), answers=dict(sorted(cnt.items())), provers_started=sum(len(v) for v in logs.values()))
    ck.sample(dict(session=scripts[0][:12]))
    shutil.rmtree(tmp, ignore_errors=True)
    ck.finish()

if __name__ == "__main__": vlib.guard(main)
