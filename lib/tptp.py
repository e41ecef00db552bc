"""Reader for the TPTP subset E prints and reads (cnf, fof, tff, tcf, thf) and encoder into the
tuple encoding of the TLA+ modules."""
import re
TOK = re.compile(r"""\s+|%[^\n]*|/\*.*?\*/|(?P<w>\$?\$?[A-Za-z0-9_]+(?:\.[0-9]+)?|'(?:[^'\\]|\\.)*'|"(?:[^"\\]|\\.)*")|(?P<p><=>|<~>|=>|<=|~\||~&|!=|-->|:=|==|!>|\?\*|@@|@\+|@-|@=|!!|\?\?|[-+]?\d+(?:/\d+)?|[()\[\],.:&|~=!?@^<>*+;#/-])""", re.S)

class ParseError(Exception): pass

def tokens(s):
    i = 0; out = []
    while i < len(s):
        m = TOK.match(s, i)
        if not m: raise ParseError("bad char %r at %d" % (s[i:i+20], i))
        t = m.group("w") or m.group("p")
        if t: out.append(t)
        i = m.end()
    return out

def isvar(t): return t[0].isupper() or t[0] == "_"

class Parser:
    def __init__(self, toks): self.t = toks; self.i = 0
    def peek(self, k=0): return self.t[self.i + k] if self.i + k < len(self.t) else None
    def next(self):
        if self.i >= len(self.t): raise ParseError("eof")
        self.i += 1; return self.t[self.i - 1]
    def eat(self, x):
        t = self.next()
        if t != x: raise ParseError("expected %s got %s near %s" % (x, t, " ".join(self.t[max(0, self.i-8):self.i+5])))
    # ---- formulas
    def formula(self):
        l = self.unitary()
        t = self.peek()
        if t in ("&", "|"):
            r = [l]
            while self.peek() == t: self.next(); r.append(self.unitary())
            f = r[0]
            for x in r[1:]: f = (t, f, x)
            if self.peek() in ("&", "|"): raise ParseError("mixed & |")
            return f
        if t in ("=>", "<=", "<=>", "<~>", "~&", "~|"):
            self.next(); r = self.unitary(); return (t, l, r)
        return l
    def unitary(self):
        t = self.peek()
        if t in ("!", "?", "^", "@+", "@-") and self.peek(1) == "[":
            self.next(); vs = self.varlist(); self.eat(":"); return (t, vs, self.unitary())
        if t == "~":
            if self.peek(1) == ")" or (self.peek(1) == "@"):   # THF connective as term
                self.next(); return ("F", "~", [])
            self.next(); return ("~", self.unitary())
        a = self.appl()
        t = self.peek()
        if t == "=": self.next(); return ("=", a, self.eqrhs())
        if t == "!=": self.next(); return ("~", ("=", a, self.eqrhs()))
        return a
    def eqrhs(self):
        t = self.peek()
        if t in ("!", "?", "^", "@+", "@-") and self.peek(1) == "[": return self.unitary()
        if t == "~": return self.unitary()
        return self.appl()
    def appl(self):
        a = self.prim()
        while self.peek() == "@":
            self.next()
            t = self.peek()
            if t in ("^", "!", "?") and self.peek(1) == "[": b = self.unitary()
            elif t == "~" and self.peek(1) not in (")", "@"): b = self.unitary()
            else: b = self.prim()
            a = ("@", a, b)
        return a
    def prim(self):
        t = self.next()
        if t == "(":
            # connective in parentheses, e.g. (&), (~)
            if self.peek(1) == ")" and self.peek() in ("&", "|", "~", "=>", "<=>", "=", "!=", "<=", "<~>", "~&", "~|"):
                c = self.next(); self.eat(")"); return ("F", c, [])
            f = self.formula(); self.eat(")"); return f
        if t in ("!!", "??", "&", "|", "=>", "<=>", "~", "=", "!="): return ("F", t, [])
        if not re.match(r"^[A-Za-z0-9_$'\"+-]", t): raise ParseError("unexpected %s near %s" % (t, " ".join(self.t[max(0, self.i-8):self.i+5])))
        if t == "$true": return ("T",)
        if t == "$false": return ("Fa",)
        if isvar(t):
            return ("V", t)
        args = []
        if self.peek() == "(":
            self.next(); args.append(self.arg())
            while self.peek() == ",": self.next(); args.append(self.arg())
            self.eat(")")
        return ("F", t, args)
    def arg(self): return self.formula()
    def varlist(self):
        self.eat("["); vs = []
        while True:
            v = self.next(); ty = None
            if self.peek() == ":": self.next(); ty = self.type()
            vs.append((v, ty))
            t = self.next()
            if t == "]": return vs
            if t != ",": raise ParseError("varlist")
    # ---- types
    def type(self):
        a = self.type1()
        if self.peek() == ">": self.next(); return (">", a, self.type())
        return a
    def type1(self):
        if self.peek() == "(":
            self.next(); a = self.type(); xs = [a]
            while self.peek() == "*": self.next(); xs.append(self.type())
            self.eat(")")
            return xs[0] if len(xs) == 1 else ("*", xs)
        return self.next()
    # ---- general terms of annotations
    def general(self):
        t = self.next()
        if t == "[":
            xs = []
            if self.peek() == "]": self.next(); return ("list", xs)
            while True:
                xs.append(self.general()); t = self.next()
                if t == "]": return ("list", xs)
                if t != ",": raise ParseError("list")
        if t == "(":
            # formula or parenthesised
            f = self.general()
            self.eat(")"); return f
        r = t; args = None
        if self.peek() == "(":
            self.next(); args = []
            if self.peek() == ")": self.next()
            else:
                while True:
                    args.append(self.general()); t = self.next()
                    if t == ")": break
                    if t != ",": raise ParseError("general %s" % t)
        g = ("g", r, args)
        if self.peek() == ":": self.next(); return (":", g, self.general())
        return g
    def annotated(self):
        lang = self.next(); self.eat("(")
        if lang == "include":
            fn = self.next(); sel = None
            if self.peek() == ",": self.next(); sel = self.general()
            self.eat(")"); self.eat("."); return dict(lang="include", name=fn, role=None, f=sel, src=None, extra=None)
        name = self.next(); self.eat(","); role = self.next()
        while self.peek() == "-": self.next(); role += "-" + self.next()
        self.eat(",")
        if role == "type":
            par = 0
            while self.peek() == "(": self.next(); par += 1
            s = self.next(); self.eat(":"); ty = self.type()
            for _ in range(par): self.eat(")")
            f = ("type", s, ty)
        else: f = self.formula()
        src = extra = None
        if self.peek() == ",":
            self.next(); src = self.general()
            if self.peek() == ",": self.next(); extra = self.general()
        self.eat(")"); self.eat(".")
        return dict(lang=lang, name=name, role=role, f=f, src=src, extra=extra)

def parse_all(s):
    p = Parser(tokens(s)); out = []
    while p.peek() is not None: out.append(p.annotated())
    return out

def strip_comments(out):
    return "\n".join(l for l in out.split("\n") if not l.startswith(("%", "#")))

def lits(f):
    """flat literal list of a clause-shaped formula (outer universal quantifiers stripped)"""
    while f[0] == "!": f = f[2]
    if f[0] == "|": return lits(f[1]) + lits(f[2])
    if f == ("Fa",): return []
    return [f]

def fvars(f, bound=(), acc=None):
    acc = acc if acc is not None else []
    if f[0] == "V":
        if f[1] not in bound and f[1] not in acc: acc.append(f[1])
    elif f[0] in ("!", "?", "^"): fvars(f[2], tuple(bound) + tuple(v for v, _ in f[1]), acc)
    elif f[0] == "F":
        for a in f[2]: fvars(a, bound, acc)
    elif f[0] in ("T", "Fa"): pass
    else:
        for a in f[1:]: fvars(a, bound, acc)
    return acc

def symbols(f, acc=None):
    """{(name, arity)} of all function/predicate symbols"""
    acc = acc if acc is not None else set()
    if f[0] == "F":
        acc.add((f[1], len(f[2])))
        for a in f[2]: symbols(a, acc)
    elif f[0] in ("!", "?", "^"): symbols(f[2], acc)
    elif f[0] not in ("V", "T", "Fa"):
        for a in f[1:]: symbols(a, acc)
    return acc

class Enc:
    """symbol numbering for the TLA+ encoding; sym numbers start at 1"""
    def __init__(self, syms=()): self.n = {s: i + 1 for i, s in enumerate(syms)}
    def __getitem__(self, s):
        return self.n[s]
    def term(self, t, vm):
        if t[0] == "V":
            if t[1] not in vm: vm[t[1]] = len(vm) + 1
            return [0, vm[t[1]]]
        if t[0] == "F": return [self.n[t[1]]] + [self.term(a, vm) for a in t[2]]
        raise ParseError("not a term: %r" % (t,))
    def lit(self, l, vm):
        s = 1
        while l[0] == "~": s = 1 - s; l = l[1]
        if l[0] == "=": return [s, self.term(l[1], vm), self.term(l[2], vm)]
        if l[0] == "T": return None if s == 0 else "TRUE"
        if l[0] == "Fa": return None if s == 1 else "TRUE"
        return [s, self.term(l, vm)]
    def clause(self, f):
        """-> [nvars, lits] or None for a trivially true clause"""
        vm = {}; ls = []
        for l in (lits(f) if not isinstance(f, list) else f):
            e = self.lit(l, vm)
            if e == "TRUE": return None
            if e is not None: ls.append(e)
        return [len(vm), ls]
    # formulas: [op, ...]; op codes: 1 atom, 2 eq, 3 not, 4 and, 5 or, 6 imp, 7 iff, 8 all, 9 ex, 10 true, 11 false
    def formula(self, f, vm=None, cnt=None):
        vm = vm if vm is not None else {}; cnt = cnt if cnt is not None else [0]
        def term(t):
            if t[0] == "V": return [0, vm[t[1]]]
            if t[0] == "F": return [self.n[t[1]]] + [term(a) for a in t[2]]
            raise ParseError("not a term: %r" % (t,))
        o = f[0]
        if o == "T": return [10]
        if o == "Fa": return [11]
        if o == "F": return [1, term(f)]
        if o == "=": return [2, term(f[1]), term(f[2])]
        if o == "~": return [3, self.formula(f[1], vm, cnt)]
        if o in ("!", "?"):
            r = f[2]; vm2 = dict(vm); ids = []
            for v, ty in f[1]: cnt[0] += 1; vm2[v] = cnt[0]; ids.append((cnt[0], ty))
            b = self.formula(r, vm2, cnt)
            for i, ty in reversed(ids): b = [8 if o == "!" else 9, i, b]
            return b
        a, b = self.formula(f[1], vm, cnt), self.formula(f[2], vm, cnt)
        if o == "&": return [4, a, b]
        if o == "|": return [5, a, b]
        if o == "=>": return [6, a, b]
        if o == "<=": return [6, b, a]
        if o == "<=>": return [7, a, b]
        if o == "<~>": return [3, [7, a, b]]
        if o == "~&": return [3, [4, a, b]]
        if o == "~|": return [3, [5, a, b]]
        raise ParseError("formula op %r" % (o,))

def maxvar(e):
    """largest variable index in an encoded formula"""
    m = 0
    st = [e]
    while st:
        x = st.pop()
        if isinstance(x, list):
            if len(x) == 3 and x[0] in (8, 9) and isinstance(x[1], int): m = max(m, x[1])
            st.extend(y for y in x if isinstance(y, list))
    return m

# ---- printing (used by generators; fully parenthesised)
def show(f):
    o = f[0]
    if o == "V": return f[1]
    if o == "T": return "$true"
    if o == "Fa": return "$false"
    if o == "F": return f[1] + ("(" + ",".join(show(a) for a in f[2]) + ")" if f[2] else "")
    if o == "=": return "%s=%s" % (show(f[1]), show(f[2]))
    if o == "~":
        if f[1][0] == "=": return "%s!=%s" % (show(f[1][1]), show(f[1][2]))
        return "~" + ("(%s)" % show(f[1]) if f[1][0] in ("&", "|", "=>", "<=>", "<=", "<~>", "~&", "~|") else show(f[1]))
    if o in ("!", "?"):
        return "(%s[%s]: %s)" % (o, ",".join(v if not t else "%s:%s" % (v, t) for v, t in f[1]), "(" + show(f[2]) + ")")
    return "(%s %s %s)" % (show(f[1]), o, show(f[2]))

def parse_term(s):
    p = Parser(tokens(s)); t = p.appl()
    if p.peek() is not None: raise ParseError("trailing " + str(p.peek()))
    return t
