"""Value numbering along the (acyclic) paths of one function view: what every location holds at the end, as a polynomial
over the values at entry.  Used for small arithmetic functions; gives up (None) on loops or too many paths."""
from .model import short, detmpl
from .util import loops

MAXP = 400


def const(k):
    return frozenset([((), k)]) if k else frozenset()


def at(a):
    return frozenset([((a,), 1)])


def add(p, q, s=1):
    d = dict(p)
    for m, c in q:
        d[m] = d.get(m, 0) + s * c
        if d[m] == 0:
            del d[m]
    return frozenset(d.items())


def mul(p, q):
    d = {}
    for m, c in p:
        for n, e in q:
            k = tuple(sorted(m + n, key=repr))
            d[k] = d.get(k, 0) + c * e
            if d[k] == 0:
                del d[k]
    return frozenset(d.items())


def flat(op, a, b):
    s = set()
    for x in (a, b):
        if len(x) == 1:
            (m, c), = x
            if c == 1 and len(m) == 1 and m[0][0] == op:
                s |= m[0][1]
                continue
        s.add(x)
    return at((op, frozenset(s)))


class Path:
    __slots__ = ("st", "conds", "pol", "ret", "exc")

    def __init__(self, st, conds, pol):
        self.st, self.conds, self.pol, self.ret, self.exc = st, conds, pol, None, False

    def copy(self):
        return Path(dict(self.st), list(self.conds), dict(self.pol))


class Sym:
    def __init__(self, P, v):
        self.P, self.v = P, v
        self.getters = {}

    # ---- locations: ("this",) / ("v", d) / (base, "f", field)
    def loc(self, i, pt, depth=0):
        P, v = self.P, self.v
        j = P.strip_smart(v, i)
        n = v.nodes[j]
        k = n["k"]
        if k == "this":
            return ("this",)
        if k == "cast":
            return self.loc(n["x"], pt, depth + 1)
        if k == "un" and n["op"] in ("*", "&"):
            return self.loc(n["x"], pt, depth + 1)
        if k == "ref" and isinstance(n.get("d"), int):
            a = pt.st.get(("alias", n["d"]))
            return a if a is not None else ("v", n["d"])
        if k == "mem":
            b = self.loc(n["b"], pt, depth + 1)
            return None if b is None else (b, "f", n["n"].split("::")[-1] if "::" in n["n"] else n["n"])
        return None

    def getter(self, u):
        """field a no-argument const member returns, if it does nothing else"""
        if u in self.getters:
            return self.getters[u]
        r = None
        f = self.P.funcs.get(u)
        if f is not None and not f.params:
            rets = [n for n in f.nodes.values() if n["k"] == "ret" and n.get("x") is not None]
            if len(rets) == 1 and not any(n["k"] in ("asg", "call") for n in f.nodes.values()):
                pass
            if len(rets) == 1 and not any(n["k"] == "asg" for n in f.nodes.values()):
                n = f.nodes[self.P.strip_smart(f, rets[0]["x"])]
                while n["k"] == "cast":
                    n = f.nodes[n["x"]]
                if n["k"] == "call" and n.get("o") is None and len(n["a"]) == 1 and "stabilize" in short(self.P.callee(n)):
                    m = f.nodes[self.P.strip_smart(f, n["a"][0])]
                    if m["k"] == "mem" and m.get("t", "").replace("const ", "") == "float":     # only infinities are changed
                        n = m
                if n["k"] == "mem" and f.nodes[self.P.strip_smart(f, n["b"])]["k"] == "this":
                    r = n["n"].split("::")[-1]
        self.getters[u] = r
        return r

    def val(self, i, pt):
        P, v = self.P, self.v
        n = v.nodes[i]
        k = n["k"]
        if n.get("cv") is not None:
            return const(n["cv"])
        if k == "cast":
            return self.val(n["x"], pt)
        if k == "int":
            return const(n.get("cv", 0))
        if k == "flt" or k == "float":
            return const(n.get("v", 0))
        if k in ("ref", "mem", "this") or k == "un" and n["op"] == "*":
            l = self.loc(i, pt)
            if l is None:
                return at(("opaque", i))
            return pt.st.get(l, at(("init", l)))
        if k == "un":
            if n["op"] == "-":
                return add(frozenset(), self.val(n["x"], pt), -1)
            if n["op"] == "+":
                return self.val(n["x"], pt)
            return at(("u" + n["op"], self.val(n["x"], pt)))
        if k == "asg":
            l = self.loc(n["x"], pt)
            return pt.st.get(l, at(("init", l)))
        if k == "bin":
            a, b = self.val(n["x"], pt), self.val(n["r"], pt)
            if n["op"] == "+":
                return add(a, b)
            if n["op"] == "-":
                return add(a, b, -1)
            if n["op"] == "*":
                return mul(a, b)
            return at(("op" + n["op"], a, b))
        if k == "cond":
            pol = pt.pol.get(n["c"])
            kids = [n["x"], n["r"]]
            if pol is None:
                return at(("opaque", i))
            return self.val(kids[0] if pol else kids[1], pt)
        if k == "call":
            s = short(P.callee(n))
            if s in ("min", "max", "fmin", "fmax", "fminf", "fmaxf") and n.get("o") is None and len(n["a"]) == 2:
                return flat(s.strip("f") if s in ("fmin", "fmax") else s.replace("fminf", "min").replace("fmaxf", "max"), self.val(n["a"][0], pt), self.val(n["a"][1], pt))
            if n.get("o") is not None and not n["a"] and n.get("u"):
                g = self.getter(n["u"])
                l = self.loc(n["o"], pt)
                if g and l is not None:
                    l = (l, "f", g)
                    return pt.st.get(l, at(("init", l)))
            r = pt.st.get(("res", i))
            return r if r is not None else at(("opaque", i))
        if k == "ctor" and len(n["a"]) == 1:
            return self.val(n["a"][0], pt)
        m = P.strip_smart(v, i)
        if m != i:
            return self.val(m, pt)
        return at(("opaque", i))

    def base_init(self, n, pt):
        """constructor of the base: its members in terms of the arguments"""
        if n["k"] != "ctor":
            return
        if n.get("copy") and len(n["a"]) == 1:
            l = self.loc(n["a"][0], pt)
            if l is not None:
                self.setobj(pt, ("this",), l)
            return
        f = self.P.funcs.get(n.get("u"))
        if f is None or f.u == self.v.u:
            return
        g = self.P.view(f)
        S = Sym(self.P, g)
        ps = S.run(self.cls, self.fields, {("v", q["d"]): self.val(a, pt) for q, a in zip(f.params, n["a"])})
        if ps and len(ps) == 1:
            for k, x in ps[0].st.items():
                if len(k) == 3 and k[0] == ("this",):
                    pt.st[k] = x

    def setobj(self, pt, dst, src):
        for k in [k for k in pt.st if isinstance(k, tuple) and len(k) == 3 and k[0] == dst]:
            del pt.st[k]
        for f in self.fields:
            x = (src, "f", f)
            pt.st[(dst, "f", f)] = pt.st.get(x, at(("init", x)))

    def elem(self, e, pt):
        P, v = self.P, self.v
        if isinstance(e, dict):
            if e.get("e") == "init" and e.get("x") is not None:
                if e.get("n"):
                    pt.st[(("this",), "f", e["n"].split("::")[-1])] = self.val(e["x"], pt)
                elif e.get("base"):
                    self.base_init(v.nodes[e["x"]], pt)
            return
        n = v.nodes[e]
        k = n["k"]
        if k == "asg":
            l = self.loc(n["x"], pt)
            if l is None:
                return
            r = self.val(n["r"], pt)
            old = pt.st.get(l, at(("init", l)))
            op = n["op"]
            if op == "=":
                x = r
            elif op == "+=":
                x = add(old, r)
            elif op == "-=":
                x = add(old, r, -1)
            elif op == "*=":
                x = mul(old, r)
            else:
                x = at(("op" + op, old, r))
            pt.st[l] = x
        elif k == "un" and n["op"] in ("++", "--"):
            l = self.loc(n["x"], pt)
            if l is not None:
                pt.st[l] = add(pt.st.get(l, at(("init", l))), const(1), 1 if n["op"] == "++" else -1)
        elif k == "decl":
            for q in n["ds"]:
                if q.get("i") is None:
                    continue
                if q.get("ref") or q.get("t", "").endswith("&") or q.get("t", "").endswith("*"):
                    l = self.loc(q["i"], pt)
                    if l is not None:
                        pt.st[("alias", q["d"])] = l
                        continue
                tc = detmpl(q.get("tc", ""))
                if tc and any(f for f in self.fields) and tc.split("::")[-1] in self.cls:
                    m = v.nodes[P.strip_smart(v, q["i"])]
                    src = self.loc(m["a"][0], pt) if m["k"] == "ctor" and len(m["a"]) == 1 else self.loc(q["i"], pt)
                    if src is not None:
                        self.setobj(pt, ("v", q["d"]), src)
                        continue
                pt.st[("v", q["d"])] = self.val(q["i"], pt)
        elif k == "call":
            s = short(P.callee(n))
            if n.get("op") == "=" and n.get("o") is not None or s == "operator=" and n.get("o") is not None:
                d, r = self.loc(n["o"], pt), self.loc(n["a"][0], pt)
                if d is not None and r is not None:
                    self.setobj(pt, d, r)
                return
            if s in ("memcpy", "memmove") and len(n["a"]) == 3:
                d, r = self.loc(n["a"][0], pt), self.loc(n["a"][1], pt)
                if d is not None and r is not None:
                    self.setobj(pt, d, r)
                return
            if s == "memset":
                d = self.loc(n["a"][0], pt)
                if d is not None:
                    for f in self.fields:
                        pt.st[(d, "f", f)] = const(0)
                return
            if s == "swap":
                return
            # anything else may change what it gets by reference or pointer
            for a, pk in zip(n["a"], n.get("pk", ())):
                if pk in ("r", "p"):
                    l = self.loc(a, pt)
                    if l is not None:
                        pt.st[l] = at(("opaque", e))
                        for f in self.fields:
                            pt.st[(l, "f", f)] = at(("opaque", e))
            if n.get("o") is not None and not n.get("const") and not n.get("static") and n.get("inl") is None:
                l = self.loc(n["o"], pt)
                if l is not None:
                    for f in self.fields:
                        pt.st[(l, "f", f)] = at(("opaque", e))
        elif k == "ret" and n.get("x") is not None:
            pt.ret = self.val(n["x"], pt)

    def cond(self, i, pol, pt):
        """[(op, a, b)] atoms that hold"""
        n = self.v.nodes[i]
        if n["k"] == "cast":
            return self.cond(n["x"], pol, pt)
        if n["k"] == "un" and n["op"] == "!":
            return self.cond(n["x"], not pol, pt)
        if n["k"] == "bin" and n["op"] in ("==", "!=", "<", "<=", ">", ">="):
            a, b = self.val(n["x"], pt), self.val(n["r"], pt)
            op = n["op"]
            if not pol:
                op = {"==": "!=", "!=": "==", "<": ">=", "<=": ">", ">": "<=", ">=": "<"}[op]
            if op in (">", ">="):
                a, b, op = b, a, {">": "<", ">=": "<="}[op]
            return [(op, a, b)]
        return [("!=" if pol else "==", self.val(i, pt), const(0))]

    def run(self, cls, fields, init=None):
        """[Path at the exit]; None if not decidable this way"""
        v = self.v
        self.cls, self.fields = cls, fields
        if loops(v):
            return None
        out, n = [], 0
        p0 = Path(dict(init or {}), [], {})
        st = [(v.entry, p0)]
        while st:
            b, pt = st.pop()
            n += 1
            if n > 20000 or len(out) > MAXP:
                return None
            blk = v.blocks[b]
            for e in blk["s"]:
                self.elem(e, pt)
            if b == v.exit:
                out.append(pt)
                continue
            succ = [(k, t) for k, t in enumerate(blk["to"]) if t is not None]
            if blk.get("nr"):
                continue
            if any(isinstance(e, int) and v.nodes[e]["k"] == "throw" for e in blk["s"]):
                continue
            tc = blk.get("tc")
            if tc is not None and len(blk["to"]) == 2 and blk.get("tk") != "SwitchStmt":
                for k, t in succ:
                    q = pt.copy()
                    q.pol[tc] = k == 0
                    c = q.pol
                    a = self.cond(tc, k == 0, q)
                    neg = {"==": "!=", "!=": "=="}
                    bad = False
                    for (op, x, y) in a:
                        if (neg.get(op), x, y) in q.conds or op == "<" and (("<=", y, x) in q.conds or ("<", y, x) in q.conds) or op == "<=" and ("<", y, x) in q.conds:
                            bad = True
                        d = add(x, y, -1)
                        if all(m == () for m, _ in d):
                            k0 = sum(cc for _, cc in d)
                            if not {"==": k0 == 0, "!=": k0 != 0, "<": k0 < 0, "<=": k0 <= 0}[op]:
                                bad = True
                    if bad:
                        continue
                    q.conds += a
                    st.append((t, q))
            else:
                for k, t in succ:
                    st.append((t, pt.copy() if len(succ) > 1 else pt))
        return out
