"""C20 messages over TCP.  See DESIGN.md."""
import sys, os, random, re
sys.path.insert(0, os.path.join(os.path.dirname(os.path.abspath(__file__)), "..", "lib"))
import vlib
ENV = dict(os.environ, ASAN_OPTIONS="detect_leaks=0:abort_on_error=0:exitcode=77:symbolize=0")
hx = lambda p: "".join("%02x" % c for c in p)
unhx = lambda s: list(bytes.fromhex(s))

def script(i, s):
    l = ["S %d" % i] + ["M " + hx(p) for p in s["sent"]]
    if s.get("raw"): l.append("X " + hx(s["raw"]))
    if s.get("W"): l.append("W " + " ".join(map(str, s["W"])))
    if s.get("R"): l.append("R " + " ".join(map(str, s["R"])))
    if s.get("C") is not None: l.append("C %d" % s["C"])
    return l + ["G %d" % s["mode"]]

def scenarios(ck):
    """Behaviours of the specification: TLC prints every sequence of read sizes on every cut of every conversation, then random larger ones."""
    out = []
    cfg = "INIT GenInit\nNEXT GenNext\nINVARIANTS GenPrint InOrder\nCONSTANT MaxMsgs = 2\nCONSTANT MaxChunk = %d\nCONSTANT MaxWire = 20\nCONSTANT Payloads <- PP\n"
    r = vlib.tlc_run("TcpMsgGen", cfg % 8, workers=1, acc=ck.acc, timeout=900)
    if not r["ok"]: raise vlib.CheckError("TcpMsg: " + r["out"][-2000:])
    for l in r["prints"]:
        m = re.match(r'^<<"GEN", "(.*)", (\d+), "(.*)", (\d+)>>$', l)
        if not m: continue
        ps = re.findall(r"<<([\d, ]*)>>", m.group(1)[2:-2]); sent = [[int(x) for x in p.split(",") if x.strip()] for p in ps]
        sz = [int(x) for x in re.findall(r"\d+", m.group(3))]
        out.append(dict(sent=sent, C=int(m.group(2)), R=sz, mode=1 if len(out) % 3 else 0))
    ck.cov["model_behaviours"] = len(out)
    rng = random.Random("C20/%d" % ck.seed)
    for i in range(ck.scale(1500, 20000)):
        sent = []
        for _ in range(rng.choice([1, 1, 2, 3, 5])):
            n = rng.choice([0, 0, 1, 2, 3, 10, 60, 1015, 1018, 1019, 1020, 1021, 1022, 1023, 1024, 1025, 2045, 2046, 2047, 2050, 3500])
            if n > 2000 and rng.random() < .8: n //= 3
            sent.append([rng.choice([10, 32, 65, 71, 79, 90, 200, 255, 1, rng.randint(1, 255)]) for _ in range(n)])
        s = dict(sent=sent, mode=rng.choice([0, 1, 1, 2, 3])); tot = sum(len(p) + 4 for p in sent)
        if s["mode"] == 3:
            if rng.random() < .5: sent.insert(rng.randint(0, len(sent)), [71, 79, 10])
            else: sent.append([71, 79, 10])
            if rng.random() < .3: sent.insert(0, rng.choice([[71, 79], [71, 79, 10, 10], [32, 71, 79, 10], [71, 79, 13, 10]]))
        st = rng.choice(["one", "small", "mid", "big", "mix"]); size = lambda: 1 if st == "one" else rng.randint(1, 4) if st == "small" else rng.randint(1, 200) if st == "mid" else rng.randint(500, 3000) if st == "big" else rng.choice([1, 2, 3, 4, 5, 100, 1000, 1020, 1023, 1024])
        if tot < 1200 or st != "one": s["R"] = [size() for _ in range(min(tot + 9, 1500))]
        if rng.random() < .6: s["W"] = [size() for _ in range(min(tot, 300))]
        if rng.random() < .08: s.setdefault("W", [size()]).insert(rng.randint(0, len(s["W"]) if "W" in s else 0), -1)
        if rng.random() < .08 and s["mode"] != 3: s.setdefault("R", [size()]).insert(rng.randint(0, min(8, len(s["R"]))), -1)
        if rng.random() < .35 and s["mode"] != 3: s["C"] = rng.randint(0, tot)
        if rng.random() < .05 and s["mode"] != 3: s["sent"] = []; s["raw"] = list((rng.choice([0, 1, 2, 3, 4, 5, 9])).to_bytes(4, "big")) + [65] * rng.randint(0, 12)
        out.append(s)
    return out

def parse(s, lines):
    ws, ev, wire, block, bn = [], [], None, [-1], 0
    for l in lines:
        t = l.split(" ")
        if l[0] == "w" and len(t) == 3: ws.append([int(t[1]), int(t[2])])
        elif l[0] == "W": wire = unhx(t[1])
        elif l[0] == "r" and len(t) == 4 and t[0] == "r": ev.append(dict(t="r", s=int(t[1]), n=int(t[2]), p=[], err=-1 in s.get("R", [])))
        elif l[0] == "m" and t[0] == "m": ev.append(dict(t="m", s=0, n=int(t[2]), p=unhx(t[1]), err=False))
        elif t[0] == "b": block = unhx(t[1]); bn = int(t[2])
        elif l[0] == "!": raise ValueError(l)
    cut = len(wire) if s.get("C") is None else min(s["C"], len(wire))
    if s.get("raw") is None and any(w[0] == 1 for w in ws) and -1 not in s.get("W", []): raise ValueError("send reported an error without one")
    return dict(sent=s["sent"], raw=bool(s.get("raw")), wire=wire, cut=cut, ws=ws, ev=ev, mode=s["mode"], block=block, bn=bn, sentok=-1 not in s.get("W", []))

def main():
    ck = vlib.Check("C20")
    H = vlib.harness("net", "asan", extra=["-Wl,--wrap=read,--wrap=write,--wrap=recv,--wrap=send,--wrap=__read_chk,--wrap=__recv_chk"])
    r = vlib.tlc_run("TcpMsgGen", "INIT Init\nNEXT Next\nVIEW View\nINVARIANTS InOrder NoTruncation BoundedWant Conserved\nCONSTANT MaxMsgs = 2\nCONSTANT MaxChunk = 4\nCONSTANT MaxWire = %d\nCONSTANT Payloads <- PP\n" % ck.scale(5, 12), workers=8, acc=ck.acc, timeout=2000)
    if not r["ok"]: raise vlib.CheckError("TcpMsg: " + r["out"][-2000:])
    sc = scenarios(ck); recs = []; G = 60
    # scenarios whose text block never ends make the real reader exit: they run alone
    alone = [i for i, s in enumerate(sc) if s["mode"] == 3 or s.get("raw") or -1 in s.get("W", [])]; al = set(alone); rest = [i for i in range(len(sc)) if i not in al]
    jobs = [[i] for i in alone] + [rest[i:i + G] for i in range(0, len(rest), G)]
    def one(ids):
        return vlib.run([H], inp=("\n".join(x for i in ids for x in script(i, sc[i])) + "\n").encode(), timeout=110, env=ENV)
    for ids, (rc, out, err) in zip(jobs, vlib.pmap(one, jobs)):
        parts = re.split(r"^S (\d+)\n", out, flags=re.M)
        got = {int(parts[j]): [l for l in parts[j + 1].split("\n") if l] for j in range(1, len(parts) - 1, 2)}
        for i in ids:
            s = sc[i]; txt = "\n".join(script(i, s)) + "\n"
            try:
                if rc != 0 and len(ids) > 1 or rc == 77 or i not in got: raise ValueError("rc %s %s" % (rc, err[-400:]))
                q = parse(s, got[i]); q["id"] = i; recs.append(q)
            except (ValueError, TypeError, IndexError) as x: ck.violation("transfer failed: %s" % x, {"input.txt": txt if i in got else "\n".join(z for j in ids for z in script(j, sc[j])) + "\n"})
    vlib.log("transfers", len(recs))
    for id_, info in vlib.tlc_validate("TcpMsgTrace", recs, acc=ck.acc, timeout=2000, cost=lambda r: len(r["wire"]) + 20)[:40]:
        ck.violation("transfer %s" % info, {"input.txt": "\n".join(script(id_, sc[id_])) + "\n"})
    ck.traces = len(recs); ck.cov.update(transfers=len(recs), bytes=sum(len(r["wire"]) for r in recs), delivered=sum(e["t"] == "m" for r in recs for e in r["ev"]), closed=sum(e["s"] == 2 for r in recs for e in r["ev"]))
    for i in (0, len(sc) - 1): ck.sample(dict(script=script(i, sc[i])[:6]))
    ck.finish()

if __name__ == "__main__": vlib.guard(main)
