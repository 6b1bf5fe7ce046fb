"""Lines of input: each handed on once, whole, in order; exactly its bytes are consumed; the position advances line by line."""
from ista.model import detmpl, short
from ista.facts import facts, entails
from ista.flow import Flow
from ista.throws import is_fake, throws
from ista.util import loops

ASSUME = ["one event of a connection is handled at a time (strand, checked: E07, C04)", "peekIn() copies from the front of what is pending and removes nothing"]


def skip(f):
    return is_fake(f) or f.file.startswith(("tool", "perf", "ftest")) or f.f.startswith("test_")


# linear forms: ("L", frozenset of (symbol, coefficient), constant)
def lin(c=0, *syms):
    return ("L", frozenset((s, 1) for s in syms), c)


def add(a, b, k=1):
    if a is None or b is None or a[0] != "L" or b[0] != "L":
        return None
    d = dict(a[1])
    for s, c in b[1]:
        d[s] = d.get(s, 0) + k * c
    return ("L", frozenset((s, c) for s, c in d.items() if c), a[2] + k * b[2])


def is_int(t):
    t = t.replace("const ", "").strip()
    return t in ("int", "unsigned int", "long", "unsigned long", "size_t", "unsigned long long", "long long", "ssize_t", "short", "unsigned short", "std::size_t")


def is_ptr(t):
    t = t.replace("const ", "").replace(" ", "")
    return t in ("char*", "unsignedchar*") or "iterator" in t or t.startswith("char[")


def is_str(t):
    return "basic_string" in t or "std::string" in t


class Scan(Flow):
    """values of positions as linear forms over the values at the head of the scanning loop"""
    exceptions = True

    def __init__(self, P, v, head, body):
        super().__init__(P, v)
        self.T = throws(P)
        self.head, self.body = head, body
        self.modified = set()
        for i, n in v.nodes.items():
            d = None
            if n["k"] == "asg" or n["k"] == "un" and n["op"] in ("++", "--"):
                d = self.var(n["x"])
            elif n["k"] == "call" and n.get("o") is not None and n.get("op") in ("=", "++", "--", "+=", "-="):
                d = self.var(n["o"])
            elif n["k"] == "decl":
                for q in n["ds"]:
                    self.modified.add(q["d"])
            if d is not None:
                self.modified.add(d)
        self.inloop = set()
        for i, n in v.nodes.items():
            e = v.elem_of.get(i)
            if e is None or e[0] not in body:
                continue
            if n["k"] == "asg" or n["k"] == "un" and n["op"] in ("++", "--"):
                d = self.var(n["x"])
            elif n["k"] == "call" and n.get("o") is not None and n.get("op") in ("=", "++", "--", "+=", "-="):
                d = self.var(n["o"])
            else:
                continue
            if d is not None:
                self.inloop.add(d)
        self.handles, self.consumes, self.leaves, self.backs, self.entries, self.finds, self.refills = {}, {}, {}, {}, [], {}, {}
        self.ends, self.twice = [], set()
        self.fills = any(n["k"] == "call" and short(P.callee(n) or "") in ("peekIn", "readIn") and v.elem_of.get(i, (None,))[0] in body for i, n in v.nodes.items())

    def var(self, i):
        n = self.f.nodes[i]
        while n["k"] == "cast":
            n = self.f.nodes[n["x"]]
        return n["d"] if n["k"] == "ref" and n.get("d") in self.f.vars else None

    # state: frozenset of (ghost tuple, frozenset of (var, value)); ghosts = (line end, tested, handled, consumed, short)
    def init(self):
        return frozenset([((None, 0, (), (), None), frozenset())])

    def join(self, a, b):
        g = {}
        for k, m in list(a) + list(b):
            g[k] = m if k not in g else g[k] & m
        return frozenset(g.items())

    def base(self, i):
        n = self.f.nodes[i]
        while n["k"] == "cast":
            n = self.f.nodes[n["x"]]
        if n["k"] == "ref" and n.get("d") in self.f.vars:
            v = self.f.vars[n["d"]]
            if v.get("ref") and len(v["inits"]) == 1:
                return self.base(v["inits"][0])
            return ("v", n["d"])
        if n["k"] == "mem":
            return ("f", n["n"])
        return None

    def ev(self, i, m, depth=0):
        f, P = self.f, self.P
        n = f.nodes[i]
        if depth > 30:
            return None
        if "cv" in n and not isinstance(n["cv"], float):
            return lin(n["cv"])
        k = n["k"]
        if k == "cast":
            return self.ev(n["x"], m, depth + 1)
        if k == "int":
            return lin(n["cv"])
        if k == "ref" and n.get("d") in f.vars:
            d = n["d"]
            if d in m:
                return m[d]
            v = f.vars[d]
            if v.get("ref") and len(v["inits"]) == 1:
                return self.ev(v["inits"][0], m, depth + 1)
            if d not in self.modified:
                return lin(0, ("v", d)) if is_int(v["t"]) else ("P", ("v", d), lin(0)) if is_ptr(v["t"]) else None
            if "[" in v["t"]:
                return ("P", ("v", d), lin(0))
            return None
        if k == "asg":
            return self.ev(n["x"], m, depth + 1)    # the element has run
        if k == "mem":
            if "[" in n.get("t", ""):
                return ("P", ("f", n["n"]), lin(0))
            return lin(0, ("f", n["n"])) if is_int(n.get("t", "")) else None
        if k == "bin":
            a, b = self.ev(n["x"], m, depth + 1), self.ev(n["r"], m, depth + 1)
            return self.arith(n["op"], a, b)
        if k == "un" and n["op"] == "&":
            x = f.nodes[n["x"]]
            if x["k"] == "idx":
                return self.arith("+", self.ptr(x["b"], m), self.ev(x["i"], m, depth + 1))
            if x["k"] == "call" and x.get("op") == "[]":
                return self.arith("+", self.ptr(x["o"], m), self.ev(x["a"][0], m, depth + 1))
            if x["k"] == "un" and x["op"] == "*" or x["k"] == "call" and x.get("op") == "*":
                return self.ev(x.get("x", x.get("o")), m, depth + 1)
            return None
        if k == "un" and n["op"] in ("++", "--"):
            a = self.ev(n["x"], m, depth + 1)
            # the value after the change is in the state once the element ran
            return a if not n.get("post") else self.arith("-" if n["op"] == "++" else "+", a, lin(1))
        if k == "un" and n["op"] == "+":
            return self.ev(n["x"], m, depth + 1)
        if k == "ctor" and is_str(n.get("c", "") or n.get("t", "")):
            a = [x for x in n["a"] if not (f.nodes[x]["k"] == "other" or "allocator" in f.nodes[x].get("t", ""))]
            vs = [self.ev(x, m, depth + 1) for x in a]
            if len(vs) >= 2 and vs[0] and vs[0][0] == "P":
                if vs[1] and vs[1][0] == "P" and vs[1][1] == vs[0][1]:
                    return ("R", vs[0][1], vs[0][2], vs[1][2])
                if vs[1] and vs[1][0] == "L":
                    return ("R", vs[0][1], vs[0][2], add(vs[0][2], vs[1]))
                return None
            if len(vs) == 3 and vs[1] and vs[2] and vs[1][0] == "L" and vs[2][0] == "L" and self.base(a[0]):
                return ("R", self.base(a[0]), vs[1], add(vs[1], vs[2]))
            if len(vs) == 1:
                return vs[0] if vs[0] and vs[0][0] == "R" else None
            return None
        if k == "ctor" and len(n["a"]) >= 1:
            return self.ev(n["a"][0], m, depth + 1)
        if k == "call":
            s = short(P.callee(n))
            o = n.get("o")
            if o is not None and s in ("size", "length") and not n["a"]:
                r = self.ev(o, m, depth + 1)
                if r and r[0] == "R":
                    return add(r[3], r[2], -1)
                b = self.base(o)
                return lin(0, ("size", b)) if b else lin(0, ("e", i))
            if o is not None and s in ("begin", "cbegin", "data", "c_str"):
                return ("P", self.base(o), lin(0)) if self.base(o) else None
            if o is not None and s in ("end", "cend"):
                return ("P", self.base(o), lin(0, ("size", self.base(o)))) if self.base(o) else None
            if o is not None and s == "substr" and n["a"]:
                b = self.base(o)
                a = self.ev(n["a"][0], m, depth + 1)
                c = self.ev(n["a"][1], m, depth + 1) if len(n["a"]) > 1 else None
                if b and a and c and a[0] == "L" and c[0] == "L":
                    return ("R", b, a, add(a, c))
                return None
            if n.get("op") in ("+", "-"):
                xs = ([o] if o is not None else []) + list(n["a"])
                if len(xs) == 2:
                    return self.arith(n["op"], self.ev(xs[0], m, depth + 1), self.ev(xs[1], m, depth + 1))
            if n.get("op") in ("++", "--") and o is not None:
                a = self.ev(o, m, depth + 1)
                return a if not n["a"] else self.arith("-" if n["op"] == "++" else "+", a, lin(1))
            if o is not None and s == "find" and n["a"] and self.base(o) and self.nl(n["a"][0]):
                fr = self.ev(n["a"][1], m, depth + 1) if len(n["a"]) > 1 and f.nodes[n["a"][1]]["k"] != "other" else lin(0)
                self.finds[("e", i)] = (self.base(o), fr)
                return lin(0, ("e", i))
            if detmpl(P.callee(n) or n.get("f") or "") in ("std::find", "find") and len(n["a"]) == 3 and self.nl(n["a"][2]):
                a = self.ev(n["a"][0], m, depth + 1)
                if a and a[0] == "P":
                    self.finds[("e", i)] = (a[1], a[2])
                    return ("P", a[1], lin(0, ("e", i)))
            if s in ("memchr",) and len(n["a"]) == 3 and self.nl(n["a"][1]):
                a = self.ev(n["a"][0], m, depth + 1)
                if a and a[0] == "P":
                    self.finds[("e", i)] = (a[1], a[2])
                    return ("P", a[1], lin(0, ("e", i)))
            if is_int(n.get("t", "")):
                return lin(0, ("e", i))
        return None

    def nl(self, i):
        for j in self.f.subtree(i):
            if self.f.nodes[j].get("cv") == 10:
                return True
        return False

    def ptr(self, i, m):
        r = self.ev(i, m)
        if r and r[0] == "P":
            return r
        b = self.base(i)
        return ("P", b, lin(0)) if b else None

    def arith(self, op, a, b):
        if a is None or b is None or op not in ("+", "-"):
            return None
        k = 1 if op == "+" else -1
        if a[0] == "L" and b[0] == "L":
            return add(a, b, k)
        if a[0] == "P" and b[0] == "L":
            r = add(a[2], b, k)
            return ("P", a[1], r)
        if a[0] == "L" and b[0] == "P" and op == "+":
            return ("P", b[1], add(b[2], a))
        if a[0] == "P" and b[0] == "P" and op == "-" and a[1] == b[1]:
            return add(a[2], b[2], -1)
        return None

    def elem_access(self, i, m):
        """(buffer, position) if the expression is one element of a buffer"""
        n = self.f.nodes[i]
        while n["k"] == "cast":
            n = self.f.nodes[n["x"]]
        p = None
        if n["k"] == "idx":
            p = self.arith("+", self.ptr(n["b"], m), self.ev(n["i"], m))
        elif n["k"] == "call" and (n.get("op") == "[]" or short(self.P.callee(n)) == "at") and n.get("o") is not None and n["a"]:
            p = self.arith("+", self.ptr(n["o"], m), self.ev(n["a"][0], m))
        elif n["k"] == "un" and n["op"] == "*":
            p = self.ev(n["x"], m)
        elif n["k"] == "call" and n.get("op") == "*" and n.get("o") is not None:
            p = self.ev(n["o"], m)
        elif n["k"] == "ref" and n.get("d") in self.f.vars and len(self.f.vars[n["d"]]["inits"]) == 1 and not self.f.vars[n["d"]]["assigned"]:
            return self.elem_access(self.f.vars[n["d"]]["inits"][0], m)
        return (p[1], p[2]) if p and p[0] == "P" and p[2] else None

    # ---- effects
    def elem(self, s, e, b):
        if not isinstance(e, int):
            return s
        out = []
        for g, mm in s:
            g, m = self.step(g, dict(mm), e)
            out.append((g, frozenset(m.items())))
        r = {}
        for g, m in out:
            r[g] = m if g not in r else r[g] & m
        return frozenset(r.items())

    def excs(self, s, e):
        if isinstance(e, int) and self.f.nodes[e]["k"] in ("call", "ctor", "new", "throw"):
            if self.f.nodes[e].get("y") is not None and (self.f.nodes[e]["k"] == "throw" or set(self.T.node(self.f, e)) - {"std::bad_alloc"}):
                return (("*", self.elem(s, e, None)),)
        return ()

    def step(self, g, m, e):
        f = self.f
        n = f.nodes[e]
        k = n["k"]
        line, tested, handled, consumed, brief = g
        if k == "decl":
            for q in n["ds"]:
                if q.get("ref"):
                    continue
                x = self.ev(q["i"], m) if q.get("i") is not None else None
                if x is None:
                    x = lin(0, ("e", q["i"])) if q.get("i") is not None and is_int(q["t"]) else None
                if x is None:
                    m.pop(q["d"], None)
                else:
                    m[q["d"]] = x
        elif k == "asg":
            d = self.var(n["x"])
            if d is not None:
                op = n.get("op", "=")
                r = self.ev(n["r"], m)
                if op in ("+=", "-="):
                    r = self.arith(op[0], m.get(d), r)
                elif op != "=":
                    r = None
                m.pop(d, None)
                if r is not None:
                    m[d] = r
        elif k == "un" and n["op"] in ("++", "--"):
            d = self.var(n["x"])
            if d is not None:
                r = self.arith(n["op"][0], m.get(d), lin(1))
                m.pop(d, None)
                if r is not None:
                    m[d] = r
        elif k in ("call", "ctor"):
            line, tested, handled, consumed, brief = self.call(g, m, e, n)
            if k == "call" and n.get("o") is not None:
                d = self.var(n["o"])
                if d is not None:
                    if n.get("op") in ("++", "--"):
                        r = self.arith(n["op"][0], m.get(d), lin(1))
                    elif n.get("op") in ("+=", "-="):
                        r = self.arith(n["op"][0], m.get(d), self.ev(n["a"][0], m)) if (m.get(d) or "?")[0] in ("L", "P") else None
                    elif n.get("op") == "=" or short(self.P.callee(n)) == "assign":
                        xs = [self.ev(a, m) for a in n["a"]]
                        r = xs[0] if len(xs) == 1 else None
                        if len(xs) == 2 and xs[0] and xs[1] and xs[0][0] == "P" and xs[1][0] == "P" and xs[0][1] == xs[1][1]:
                            r = ("R", xs[0][1], xs[0][2], xs[1][2])
                        elif len(xs) == 2 and xs[0] and xs[1] and xs[0][0] == "P" and xs[1][0] == "L":
                            r = ("R", xs[0][1], xs[0][2], add(xs[0][2], xs[1]))
                    elif n.get("const"):
                        r = m.get(d)
                    else:
                        r = None
                    m.pop(d, None)
                    if r is not None:
                        m[d] = r
            for a, pk in zip(n["a"], n.get("pk", ())):
                if pk in ("r", "p"):
                    x = f.nodes[a]
                    if x["k"] == "un" and x["op"] == "&":
                        a = x["x"]
                    d = self.var(a)
                    if d is not None:
                        m.pop(d, None)
        return (line, tested, handled, consumed, brief), m

    def call(self, g, m, e, n):
        line, tested, handled, consumed, brief = g
        f, P = self.f, self.P
        if n["k"] != "call":
            return g
        s = short(P.callee(n) or "")
        if s in ("peekIn", "readIn"):
            self.refills.setdefault(e, set()).add(g)
            self.filled = e
            return (None, 0, (), (), None)
        if n.get("op") and n["op"] != "()":
            return g
        functor = n.get("op") == "()" or "function" in n.get("c", "")
        if s == "consume" or functor and len(n["a"]) == 1 and is_int(f.nodes[n["a"][0]].get("t", "")):
            x = self.ev(n["a"][0], m)
            self.consumes.setdefault(e, set()).add((g, x))
            return (line, tested, handled, consumed + (x,) if len(consumed) < 2 else consumed, brief)
        ts = [t for t in P.targets(f, n)]
        if functor or ts and all(not t.file.startswith("lib/") and not t.file.startswith("include/") and not t.f.startswith("istat::") for t in ts):
            for a in n["a"]:
                x = self.ev(a, m)
                if x and x[0] == "R" and (line is None or x[1] == line[0]):
                    self.handles.setdefault(e, set()).add((g, x))
                    return (line, tested, handled + ((x[2], x[3]),) if len(handled) < 2 else handled, consumed, brief)
        return g

    # ---- branches
    def edge(self, s, b, k, succ):
        out = []
        for g, mm in s:
            m = dict(mm)
            keep = False
            g = self.branch(g, m, b, k)
            if g is None:
                continue
            if succ == self.head:
                if b in self.body and self.fills:
                    keep = True
                elif b in self.body:
                    self.backs.setdefault(b, set()).add((g, mm))
                else:
                    self.entries.append(mm)
                # values at the head of the next round
                m2 = {}
                for d, x in m.items():
                    if d in self.inloop:
                        continue
                    m2[d] = x
                for d in self.inloop:
                    v = self.f.vars[d]
                    if is_int(v["t"]):
                        m2[d] = lin(0, ("h", d))
                    elif m.get(d) and m[d][0] == "P":
                        m2[d] = ("P", m[d][1], lin(0, ("h", d)))
                m = m2
                g = g if keep else (None, 0, (), (), None)
            elif b in self.body and succ not in self.body:
                self.leaves.setdefault((b, k), set()).add((g, mm))
            if succ == self.f.exit:
                self.ends.append((b, g))
            out.append((g, frozenset(m.items())))
        r = {}
        for g, m in out:
            r[g] = m if g not in r else r[g] & m
        return frozenset(r.items()) or None

    def again(self, g):
        if g[0] is not None:
            self.twice.add(g)

    def told(self, n, neg, depth=0):
        """the condition says that an earlier line was answered by: hand no more on, the connection is closed"""
        f = self.f
        while n["k"] == "cast":
            n = f.nodes[n["x"]]
        if n["k"] == "un" and n["op"] == "!":
            return self.told(f.nodes[n["x"]], not neg, depth)
        if n["k"] == "ref" and n.get("d") in f.vars and depth < 3:
            q = f.vars[n["d"]]
            src = [f.nodes[i] for i in q["inits"]]
            rest = [x for x in src if "cv" not in x]
            return not neg and bool(rest) and all(not x.get("cv") for x in src if "cv" in x) and all(self.told(x, False, depth + 1) for x in rest)
        if n["k"] == "bin" and n["op"] in ("==", "!="):
            if (n["op"] == "==") == neg:
                return False
            for a, b in ((n["x"], n["r"]), (n["r"], n["x"])):
                c = f.nodes[b].get("cv")
                if c is None:
                    continue
                i = core(f, a)
                x = f.nodes[i]
                if x["k"] == "call":
                    return refusal(self.P, x.get("t", ""), c)
                if x["k"] == "ref" and x.get("d") in f.vars:
                    q = f.vars[x["d"]]
                    vs = [f.nodes[core(f, j)] for j in q["inits"]]
                    if any(y["k"] == "call" for y in vs) and all(y["k"] == "call" or y.get("cv") is not None and y["cv"] != c for y in vs):
                        return refusal(self.P, q["t"], c)
        return False

    def branch(self, g, m, b, k):
        f = self.f
        blk = f.blocks[b]
        tc = blk.get("tc")
        if tc is None or len(blk["to"]) != 2:
            return g
        line, tested, handled, consumed, brief = g
        neg = k == 1
        n = f.nodes[tc]
        while True:
            if n["k"] == "cast":
                n = f.nodes[n["x"]]
            elif n["k"] == "un" and n["op"] == "!":
                n = f.nodes[n["x"]]
                neg = not neg
            elif n["k"] == "bin" and n["op"] in ("&&", "||"):
                n = f.nodes[n["r"]]
            else:
                break
        xs = None
        if line is not None and self.told(n, neg):
            return (line, tested, handled, consumed, "refused")
        if n["k"] == "bin":
            xs = n["x"], n["r"], n["op"]
        elif n["k"] == "call" and n.get("op") in ("==", "!=", "<", ">", "<=", ">="):
            a = ([n["o"]] if n.get("o") is not None else []) + list(n["a"])
            if len(a) == 2:
                xs = a[0], a[1], n["op"]
        if xs is None:
            if n["k"] == "call" and short(self.P.callee(n)) == "empty" and n.get("o") is not None:
                r = self.ev(n["o"], m)
                if r and r[0] == "R" and not neg:
                    brief = (add(r[3], r[2], -1)[1], 0)
                    return (line, tested, handled, consumed, brief)
            return g
        x, y, op = xs
        if neg:
            op = {"==": "!=", "!=": "==", "<": ">=", ">": "<=", "<=": ">", ">=": "<"}.get(op)
        for p, q in ((x, y), (y, x)):
            c = f.nodes[q].get("cv")
            if c == 10 and op in ("==", "!="):
                el = self.elem_access(p, m)
                if el:
                    if op == "==":
                        self.again(g)
                        return (el, 1, (), (), None)
                    return (line, 1, handled, consumed, brief)
        a, c = self.ev(x, m), self.ev(y, m)
        # a successful search
        for p, q in ((a, c), (c, a)):
            z = p[2] if p and p[0] == "P" else p
            if z and z[0] == "L" and len(z[1]) == 1 and z[2] == 0:
                sy = list(z[1])[0][0]
                if sy in self.finds and op in ("==", "!=") and (not q or q[0] == "P" or not q[1]):
                    if op == "!=":
                        self.again(g)
                        return ((self.finds[sy][0], z), 1, (), (), None)
                    return (line, "end", handled, consumed, brief)
        d = None
        if a and c and a[0] == "L" and c[0] == "L":
            d = add(a, c, -1)
        elif a and c and a[0] == "P" and c[0] == "P" and a[1] == c[1]:
            d = add(a[2], c[2], -1)
        if d is not None and line is not None:
            if op in ("<=", "==", "<"):
                brief = (d[1], -d[2] - (1 if op == "<" else 0))
            elif op in (">=", ">"):
                nd = frozenset((s, -w) for s, w in d[1])
                brief = (nd, d[2] - (1 if op == ">" else 0))
        return (line, tested, handled, consumed, brief)


def refusal(P, t, c):
    """functions that answer with a t answer c only when the connection was closed"""
    t = t.replace("const ", "").strip()
    seen = False
    for f in P.funcs.values():
        if f.rt != t or skip(f):
            continue
        for i, n in f.nodes.items():
            if n["k"] != "ret" or f.nodes[n["x"]].get("cv") != c:
                continue
            s = facts(P, f).before(i)
            if s is None:
                continue
            seen = True
            if not all(any(op == "!=" and (closes(P, f, p) or closes(P, f, q)) and ("c", 0) in (p, q) for op, p, q in a) for a in s):
                return False
    return seen


def closes(P, f, t):
    i = t[1] if t[0] == "e" else None
    if i is None or f.nodes[i]["k"] != "call":
        return False
    return any(short(g.f) == "close" and (g.cls or "") in ("ConnectionInfo", "EagerConnection", "AbstractConnectionInfo") or "ConnectionInfo" in (g.cls or "") and short(g.f) == "close"
               for u in P.reach(P.targets(f, f.nodes[i])) for g in [P.funcs[u]] if u in P.funcs)


def single(x):
    """the symbol, if the form is one symbol"""
    if x and x[0] == "L" and x[2] == 0 and len(x[1]) == 1:
        s, c = list(x[1])[0]
        if c == 1:
            return s
    return None


def scanners(P):
    r = []
    for v in P.roots():
        if skip(v):
            continue
        for head, body, _ in loops(v):
            if not any(looks(P, v, b) for b in body):
                continue
            S = Scan(P, v, head, body)
            S.run()
            if S.handles:
                r.append(S)
    # of nested loops the innermost that scans counts
    out = []
    for S in r:
        if not any(T is not S and T.f.u == S.f.u and T.body < S.body and set(T.handles) & set(S.handles) for T in r):
            out.append(S)
    return out


def looks(P, v, b):
    blk = v.blocks[b]
    for e in list(blk["s"]) + ([blk["tc"]] if blk.get("tc") is not None else []):
        if not isinstance(e, int):
            continue
        for j in v.subtree(e):
            n = v.nodes[j]
            if n["k"] == "bin" and n["op"] in ("==", "!=") and 10 in (v.nodes[n["x"]].get("cv"), v.nodes[n["r"]].get("cv")):
                return True
            if n["k"] == "call" and short(P.callee(n) or "") in ("find", "memchr") and any(v.nodes[k].get("cv") == 10 for a in n["a"] for k in v.subtree(a)):
                return True
    return False


def run(P, R):
    R.rule("line", "a line is handed on from right behind the previous line end up to its own", 3)
    R.rule("once", "each line is handed on exactly once (a line of at most one character may be dropped)", 3)
    R.rule("next", "after a line the next one starts right behind its line end; no character is skipped", 3)
    R.rule("consume", "exactly the bytes of the line and its line end are taken from the input, before it is handed on or although handing it on cannot fail", 2)
    R.rule("whole", "the scan starts at the front of the input and ends only at its end", 3)
    R.rule("seen", "all pending input is looked at", 2)
    names = set()
    for S in scanners(P):
        check(P, R, S)
    peeks(P, R)


def check(P, R, S):
    v = S.f
    where = v.loc(min(S.handles))
    starts = set()
    bad_line = []
    for e, gs in S.handles.items():
        for g, x in gs:
            if g[0] is None:
                bad_line.append((e, "it is handed on where no line end was found"))
                continue
            if x[3] != g[0][1]:
                bad_line.append((e, "it does not end at the line end that was found"))
            starts.add(x[2])
    sym = set(single(x) for x in starts)
    const0 = starts == {lin(0)}
    ok_start = const0 or len(sym) == 1 and None not in sym and list(sym)[0][0] == "h"
    if not ok_start:
        bad_line.append((min(S.handles), "it does not begin at the start of the line"))
    R.ob("line", where, "%s hands on whole lines" % v.f, not bad_line, func=v.f, detail="line",
         msg="%s: the text handed on as a line is not exactly the line: %s" % (v.f, "; ".join(sorted(set("%s at %s" % (w, v.loc(e)) for e, w in bad_line)))))
    if not ok_start:
        return
    B = list(starts)[0]
    sv = None if const0 else list(sym)[0][1]
    eaters = bool(S.consumes)
    problems = {"once": [], "next": [], "consume": [], "whole": []}

    def finish(g, b, what):
        line, tested, handled, consumed, brief = g
        e = line[1]
        if len(handled) == 0:
            short_line = brief == "refused" or brief is not None and brief[0] == add(e, B, -1)[1] and brief[1] - add(e, B, -1)[2] <= 1
            if not short_line:
                problems["once"].append("a line may be passed over %s" % what)
        elif len(handled) > 1:
            problems["once"].append("a line may be handed on twice %s" % what)
        if eaters:
            want = add(add(e, B, -1), lin(1))
            if len(consumed) != 1:
                problems["consume"].append("a line's bytes are taken %s %s" % ("twice or more" if consumed else "not at all", what))
            elif consumed[0] != want:
                problems["consume"].append("not exactly the bytes of the line and its line end are taken %s" % what)

    pos = set()
    for g in [g for st in S.backs.values() for g, mm in st] + [g for st in S.handles.values() for g, x in st]:
        if g[0] is not None:
            s = single(g[0][1])
            if s and s[0] == "h":
                pos.add(s[1])
    for b, st in S.backs.items():
        for g, mm in st:
            m = dict(mm)
            line, tested, handled, consumed, brief = g
            loc = v.loc(v.blocks[b]["s"][-1]) if [x for x in v.blocks[b]["s"] if isinstance(x, int)] and isinstance(v.blocks[b]["s"][-1], int) else where
            if line is None:
                if handled:
                    problems["once"].append("something is handed on without a line end")
                if consumed:
                    problems["consume"].append("input is taken without a line end")
                if not tested:
                    problems["next"].append("a character may be passed over without being looked at")
                for p in pos:
                    if off(m.get(p)) != add(lin(0, ("h", p)), lin(1)):
                        problems["next"].append("the position does not advance by one character")
                if sv is not None and off(m.get(sv)) != lin(0, ("h", sv)) and sv not in pos:
                    problems["next"].append("the start of the line moves without a line end")
            else:
                nxt = add(line[1], lin(1))
                finish(g, b, "on the way to the next round")
                if sv is None:
                    problems["next"].append("the next line is taken to start at the front again although the input was not looked at again")
                elif off(m.get(sv)) != nxt:
                    problems["next"].append("the next line does not start right behind the line end")
                s = single(line[1])
                if s and s[0] == "h" and off(m.get(s[1])) != nxt:
                    problems["next"].append("the scan does not go on right behind the line end")
                if s and s[0] == "e" and s in S.finds and S.finds[s][1] != B:
                    problems["next"].append("the line end is not looked for from the start of the line")
    for e, gs in S.refills.items():
        for g in gs:
            if g[0] is not None:
                finish(g, None, "before the input is looked at again")
                if not eaters:
                    problems["consume"].append("a line is not taken from the input before that is looked at again")
    for g in S.twice:
        problems["next"].append("the next line is looked for although the input was not looked at again")
    for b, g in S.ends:
        if g[0] is not None:
            problems["whole"].append("%s stops after a line although further lines may be waiting" % v.f)
    # leaving the loop
    for (b, k), st in S.leaves.items():
        for g, mm in st:
            if g[0] is not None or g[1] == "end":
                continue
            if not at_end(P, S, b, k, dict(mm), pos):
                problems["whole"].append("the scan can stop before the end of the input (at %s)" % v.loc(v.blocks[b]["tc"] if v.blocks[b].get("tc") is not None else min(S.handles)))
    for mm in S.entries:
        m = dict(mm)
        for d in pos | ({sv} if sv is not None else set()):
            if off(m.get(d)) != lin(0):
                problems["whole"].append("the scan does not start at the front of the input")
    esc = throws(P)
    for e, gs in S.handles.items():
        n = v.nodes[e]
        may = can_throw(P, esc, v, e)
        for g, x in gs:
            if eaters and not g[3] and may:
                problems["consume"].append("a line is handed on before its bytes are taken: when handing it on fails it is handed on again")
    for r, ps in problems.items():
        if r == "consume" and not eaters:
            continue
        R.ob(r, where, "%s: %s" % (v.f, r), not ps, func=v.f, detail=r, msg="%s: %s" % (v.f, "; ".join(sorted(set(ps)))))


def off(x):
    return x[2] if x and x[0] == "P" else x


def can_throw(P, T, v, e):
    n = v.nodes[e]
    ts = P.targets(v, n)
    if not ts:
        return False        # a functor: the bound handlers catch everything (checked: R05)
    return any(T.esc.get(t.u) for t in ts) and v.nodes[e].get("y") is None


def at_end(P, S, b, k, m, pos):
    """leaving here means that the position reached the end, or that no line end was found"""
    f = S.f
    blk = f.blocks[b]
    tc = blk.get("tc")
    if tc is None:
        return False
    n = f.nodes[tc]
    neg = k == 1
    while True:
        if n["k"] == "cast":
            n = f.nodes[n["x"]]
        elif n["k"] == "un" and n["op"] == "!":
            n = f.nodes[n["x"]]
            neg = not neg
        elif n["k"] == "bin" and n["op"] in ("&&", "||"):
            n = f.nodes[n["r"]]
        else:
            break
    if n["k"] == "bin":
        x, y, op = n["x"], n["r"], n["op"]
    elif n["k"] == "call" and n.get("op"):
        a = ([n["o"]] if n.get("o") is not None else []) + list(n["a"])
        if len(a) != 2:
            return False
        x, y, op = a[0], a[1], n["op"]
    else:
        return False
    if neg:
        op = {"==": "!=", "!=": "==", "<": ">=", ">": "<=", "<=": ">", ">=": "<"}.get(op)
    a, c = off(S.ev(x, m)), off(S.ev(y, m))
    for p, q, o in ((a, c, op), (c, a, {"<": ">", ">": "<", "<=": ">=", ">=": "<="}.get(op, op))):
        s = single(p)
        if s in S.finds and o == "==":
            return True
        if s and s[0] == "h" and s[1] in pos and o in ("==", ">=") and single(q) and single(q)[0] != "h":
            return extent(P, S, single(q))
    return False


def extent(P, S, s):
    """the symbol is the size of the input"""
    if s[0] == "size":
        return True
    if s[0] == "v":
        return True         # a parameter of the handler: the number of bytes received
    if s[0] == "e":
        n = S.f.nodes[s[1]]
        while n["k"] == "cast":
            n = S.f.nodes[n["x"]]
        return n["k"] == "call" and short(P.callee(n)) in ("peekIn", "pendingIn", "readIn")
    return False


def peeks(P, R):
    for v in P.roots():
        if skip(v):
            continue
        for i, n in v.nodes.items():
            if n["k"] != "call" or short(P.callee(n)) not in ("peekIn",) or len(n["a"]) != 2 or n.get("l") is None or not any(b in (n.get("c") or "") for b in ("ConnectionInfo", "EagerConnection")):
                continue
            if v.cls in ("EagerConnection",) or "Fake" in (v.cls or ""):
                continue
            if len(n["a"]) < 2:
                continue
            F = facts(P, v)
            t = F.term(n["a"][1])
            ok = pending(P, v, n["a"][1])
            if not ok:
                # otherwise it must be known at the end that less than that was pending
                res = [d for d, q in v.vars.items() if any(core(v, x) == i for x in q["inits"])]
                s = F.inb.get(v.exit)
                ok = bool(res) and s is not None and all(any(entails(a, "!=", ("v", d), t) or entails(a, "<", ("v", d), t) for d in res) for a in s)
            R.ob("seen", v.loc(i), "%s looks at everything that is pending" % v.f, ok, func=v.f, detail="seen",
                 msg="%s looks only at a part of what is pending: a line that is longer is never handled" % v.f)


def core(v, i):
    while v.nodes[i]["k"] == "cast":
        i = v.nodes[i]["x"]
    return i


def pending(P, v, i, depth=0):
    i = core(v, i)
    n = v.nodes[i]
    if n["k"] == "call" and short(P.callee(n)) == "pendingIn":
        return True
    if n["k"] == "ref" and n.get("d") in v.vars and depth < 6:
        q = v.vars[n["d"]]
        return len(q["inits"]) == 1 and not q["assigned"] and pending(P, v, q["inits"][0], depth + 1)
    if n["k"] == "call" and short(P.callee(n)) == "size" and n.get("o") is not None and v.nodes[core(v, n["o"])]["k"] == "ref" and depth < 6:
        d = v.nodes[core(v, n["o"])]["d"]
        rs = [m for m in v.nodes.values() if m["k"] == "call" and short(P.callee(m)) == "resize" and m.get("o") is not None and v.nodes[core(v, m["o"])].get("d") == d]
        return len(rs) >= 1 and all(pending(P, v, m["a"][0], depth + 1) for m in rs)
    return False
