"""Definite assignment: locals, out parameters and members of *this, interprocedural by must-assign summaries."""
import re
from .model import detmpl, short
from .flow import Flow
from .util import loops, dominators, dominates

TOP = None          # "everything" (unreachable / not yet known)
SCALAR = ("int", "long", "short", "char", "bool", "float", "double", "unsigned", "size_t", "time_t")


def is_scalar(t):
    t = t.replace("const ", "").replace("volatile ", "").strip()
    if t.endswith("*"):
        return True
    if t.endswith("&") or "[" in t or "<" in t:
        return False
    return all(w in ("unsigned", "signed", "int", "long", "short", "char", "bool", "float", "double") for w in t.split()) or t.startswith("enum ")


class Assign:
    def __init__(self, P):
        self.P = P
        self.sum = {}           # u -> (this fields, {param idx}, {idx: fields})
        self.flows = {}
        self.spec = {}
        self.enums = set()
        fs = [f for f in P.funcs.values()]
        for f in fs:
            self.sum[f.u] = TOP
        work = list(fs)
        rounds = 0
        dirty = set(f.u for f in fs)
        while dirty and rounds < 30:
            rounds += 1
            nd = set()
            for f in fs:
                if f.u not in dirty:
                    continue
                fl = AF(P, f, self)
                fl.run()
                self.flows[f.u] = fl
                s = fl.summary()
                if s != self.sum[f.u]:
                    self.sum[f.u] = s
                    for g, _ in P.callers.get(f.u, []):
                        nd.add(g.u)
                    for b in self.overriders(f):
                        nd.add(b)
            dirty = nd

    def overriders(self, f):
        return ()

    def missing(self, u, site=None, g=None):
        """plain members of its class a constructor leaves unset (called with these arguments)"""
        s = self.sum.get(u.u, TOP)
        if s is TOP:
            return set()
        c = detmpl(u.cls or "")
        have = s[0]
        if site is not None and not ("*" in have):
            tr = [u.params[k]["d"] for k, a in enumerate(site["a"]) if k < len(u.params) and u.params[k]["t"] in ("bool", "const bool") and g.nodes[self.P.strip_smart(g, a)].get("cv") in (1, "1", True)]
            if tr:
                key = (u.u, tuple(tr))
                if key not in self.spec:
                    fl = AF(self.P, u, self, tr)
                    fl.run()
                    x = fl.summary()
                    self.spec[key] = x[0] if x is not TOP else frozenset(["*"])
                have = self.spec[key]
        if "*" in have:
            return set()
        r = set()
        for fl in all_fields(self.P, c):
            if detmpl(fl) not in have:
                r.add(fl)
        # record members that are themselves left unset
        for b in u.blocks.values():
            for e in b["s"]:
                if isinstance(e, dict) and e.get("e") == "init" and e.get("n") and e.get("x") is not None and u.nodes[e["x"]]["k"] == "ctor":
                    w = self.P.funcs.get(u.nodes[e["x"]].get("u"))
                    if w is not None and w.u != u.u and detmpl(e["n"]) not in have and self.missing(w, u.nodes[e["x"]], u):
                        r.add(e["n"])
        return r

    def of(self, ts, what, k=None):
        """intersection over targets; TOP ignored"""
        r = TOP
        for t in ts:
            s = self.sum.get(t.u, TOP)
            if s is TOP:
                continue
            x = s[0] if what == "this" else (frozenset(["*"]) if k in s[1] else s[2].get(k, frozenset()))
            r = x if r is TOP else r & x
        return r


def all_fields(P, c, depth=0):
    """scalar members of a plain record, nested ones included"""
    C = P.classes.get(c)
    r = set()
    if C is None or depth > 4:
        return r
    for fl in C["fields"]:
        if fl.get("scalar"):
            r.add(detmpl(fl["n"]))
    for b in P.all_bases(c):
        B = P.classes.get(detmpl(b))
        if B and detmpl(b) != c:
            r |= set(detmpl(fl["n"]) for fl in B["fields"] if fl.get("scalar"))
    return r


class AF(Flow):
    def __init__(self, P, f, A, true=()):
        super().__init__(P, f)
        self.A = A
        self.true = set(true)   # parameters taken to be true
        self.loop = {}          # (loop head, outside block) -> arrays every element of which the loop has assigned
        self.find_loops()
        self.at = {}            # call -> what is assigned there
        self.reads = {}         # (node, token) -> True if assigned on every path
        self.par = f.parents
        self.pidx = {q["d"]: k for k, q in enumerate(f.params)}

    def init(self):
        return frozenset()

    def join(self, a, b):
        return a & b

    def find_loops(self):
        """for (i = 0; i < N; ++i) a[i] = ...; with N the constant size of a: the array is assigned behind the loop"""
        f, P = self.f, self.P
        if len(f.blocks) < 4:
            return
        for head, body, latches in loops(f):
            c = f.nodes.get(f.blocks[head].get("tc"))
            if not c or c["k"] != "bin" or c["op"] not in ("<", "!="):
                continue
            iv = f.nodes[P.strip_smart(f, c["x"])]
            cv = f.nodes[P.strip_smart(f, c["r"])].get("cv")
            if iv["k"] != "ref" or not isinstance(iv.get("d"), int) or cv is None:
                continue
            v = f.vars.get(iv["d"])
            if v is None or not any(f.nodes[P.strip_smart(f, x)].get("cv") in (0, "0") for x in v["inits"] if x is not None):
                continue
            idom = dominators(f)[0]
            for b in body:
                if not all(dominates(idom, b, x) for x in latches):
                    continue
                for e in f.blocks[b]["s"]:
                    n = f.nodes.get(e) if isinstance(e, int) else None
                    if not n:
                        continue
                    t = n["x"] if n["k"] == "asg" and n["op"] == "=" else n["o"] if n["k"] == "call" and n.get("op") == "=" and n.get("o") is not None else None
                    if t is None:
                        continue
                    m = f.nodes[P.strip_smart(f, t)]
                    if m["k"] != "idx":
                        continue
                    ix = f.nodes[P.strip_smart(f, m["i"])]
                    base = P.strip_smart(f, m["b"])
                    sz = re.search(r"\[(\d+)\]", f.nodes[base].get("t", ""))
                    if ix["k"] == "ref" and ix.get("d") == iv["d"] and sz and int(sz.group(1)) == int(cv):
                        k = self.tok(base)
                        if k:
                            for x in f.blocks[head]["to"]:
                                if x is not None and x not in body:
                                    self.loop.setdefault((head, x), set()).add(k)

    def edge(self, s, b, k, succ):
        f = self.f
        blk = f.blocks[b]
        c = blk.get("tc")
        if c is not None and len(blk["to"]) == 2 and not blk.get("case"):
            truth = k == 0
            i = self.P.strip_smart(f, c)
            n = f.nodes[i]
            while n["k"] == "un" and n["op"] == "!":
                truth = not truth
                i = self.P.strip_smart(f, n["x"])
                n = f.nodes[i]
            null = None
            if n["k"] == "bin" and n["op"] in ("==", "!="):
                x, y = f.nodes[self.P.strip_smart(f, n["x"])], f.nodes[self.P.strip_smart(f, n["r"])]
                if x.get("cv") is not None and x["k"] != "ref":
                    x, y = y, x
                if y.get("cv") in (0, "0") and x["k"] == "ref":
                    null, n = truth == (n["op"] == "=="), x
            elif n["k"] == "ref":
                null = not truth
            if n["k"] == "ref" and isinstance(n.get("d"), int):
                if n["d"] in self.true and null:
                    return None
                if null and n["d"] in self.pidx and "*" in n.get("t", ""):
                    s = s | {("l", n["d"])}
        x = self.loop.get((b, succ))
        return s | x if x else s

    # -- tokens
    def tok(self, i):
        f = self.f
        n = f.nodes[i]
        if n["k"] == "ref" and isinstance(n.get("d"), int):
            return ("l", n["d"])
        if n["k"] == "mem":
            q = self.P.strip_smart(f, n["b"])
            if f.nodes[q]["k"] == "mem":
                t = self.tok(q)
                return ("p", t, detmpl(n["n"])) if t else None
            b = f.nodes[self.P.strip_smart(f, n["b"])]
            if b["k"] == "this":
                return ("t", detmpl(n["n"]))
            if b["k"] == "un" and b["op"] == "*" and f.nodes[b["x"]]["k"] == "this":
                return ("t", detmpl(n["n"]))
            if b["k"] == "ref" and isinstance(b.get("d"), int):
                return ("l", b["d"], detmpl(n["n"]))
        if n["k"] == "un" and n["op"] == "*":
            m = f.nodes[self.P.strip_smart(f, n["x"])]
            if m["k"] == "ref" and isinstance(m.get("d"), int) and m.get("dk") == "param":
                return ("l", m["d"])
        if n["k"] == "cast":
            return self.tok(n["x"])
        if n["k"] == "idx":
            return self.tok(n["b"])
        return None

    def has(self, s, t):
        if t[0] == "p" and "*" not in t[1] and self.has(s, t[1]) and self.rec(t[1]):
            return True
        return t in s or t[0] == "l" and ("l", t[1]) in s or t[0] == "t" and ("this",) in s

    def rec(self, t):
        """a record held by value: assigned as a whole, its members are"""
        return False

    def note(self, s, i):
        t = self.tok(i)
        if t is not None:
            ok = self.has(s, t)
            self.reads[(i, t)] = self.reads.get((i, t), True) and ok

    def elem(self, s, e, b):
        f, P = self.f, self.P
        if isinstance(e, dict):
            if e.get("e") == "init":
                if e.get("n") and not (e.get("implicit") and self.raw(e)) and not (e.get("x") is not None and self.raw(e)):
                    return s | {("t", detmpl(e["n"]))}
                if e.get("base") and e.get("x") is not None and not e.get("implicit2"):
                    n = f.nodes[e["x"]]
                    ts = [P.funcs[n["u"]]] if n.get("u") in P.funcs else []
                    if n["k"] == "ctor" and n.get("copy"):
                        return s | set(("t", x) for x in all_fields(P, detmpl(e["base"])))
                    x = self.A.of(ts, "this")
                    if x is TOP:
                        return s | set(("t", y) for y in all_fields(P, detmpl(e["base"]))) if not ts else s
                    return s | set(("t", y) for y in x)
            return s
        n = f.nodes[e]
        k = n["k"]
        if k == "call":
            self.at[e] = s & self.at[e] if e in self.at else s
        if k == "decl":
            add, rem = set(), set()
            for q in n["ds"]:
                if q.get("i") is not None and not (f.nodes[q["i"]]["k"] == "ctor" and self.trivial(f.nodes[q["i"]])) or q.get("static") or q.get("ref"):
                    add.add(("l", q["d"]))
                else:
                    rem.add(q["d"])
            return frozenset(t for t in s if not (t[0] == "l" and t[1] in rem)) | add
        if k == "asg":
            t = self.tok(n["x"])
            if t is not None:
                if n["op"] != "=":
                    self.note(s, n["x"])
                return frozenset(x for x in s if not (x[0] == "p" and x[1] == t)) | {t}
            return s
        if k == "un" and n["op"] in ("++", "--"):
            self.note(s, n["x"])
            return s
        if k in ("ref", "mem") or k == "un" and n["op"] == "*":
            if self.is_read(e):
                self.note(s, e)
            return s
        if k in ("call", "ctor"):
            return self.call(s, e, n)
        return s

    def raw(self, e):
        """initialised by a constructor that leaves plain members unset, or not at all"""
        if e.get("x") is None:
            return True
        n = self.f.nodes[e["x"]]
        if n["k"] != "ctor":
            return False
        u = self.P.funcs.get(n.get("u"))
        if u is None:
            return e.get("implicit") and self.trivial(n)
        return bool(self.A.missing(u, n, self.f))

    def trivial(self, n):
        """a constructor that leaves plain members alone"""
        c = self.P.classes.get(detmpl(n.get("c", "")))
        if n["a"] or c is None:
            return False
        u = self.P.funcs.get(n.get("u"))
        return u is None or u.implicit

    def is_read(self, i):
        f = self.f
        c, p = i, self.par.get(i)
        while p is not None:
            if isinstance(p, (list, tuple, set)):
                p = list(p)[0]
            n = f.nodes[p]
            if n["k"] == "asg" and n["x"] == c:
                return False
            if n["k"] == "un" and n["op"] in ("&", "++", "--"):
                return False
            if n["k"] in ("cast",):
                if n.get("to") == "void":
                    return False
                c, p = p, self.par.get(p)
                continue
            if n["k"] == "mem" and n.get("b") == c:
                return False            # the member is what is used
            if n["k"] == "idx" and n.get("b") == c:
                return "*" in f.nodes[c].get("t", "") and "[" not in f.nodes[c].get("t", "")
            if n["k"] == "sizeof":
                return False
            if n["k"] in ("call", "ctor"):
                if n.get("o") == c:
                    return False
                if c in n["a"]:
                    pk = n.get("pk", [])
                    x = n["a"].index(c)
                    if x < len(pk) and pk[x] in ("r",):
                        return False
                    if n["k"] == "ctor" and n.get("copy"):
                        return "obj"
            if n["k"] == "decl":
                q = [q for q in n["ds"] if q.get("i") == c]
                if q and q[0].get("ref"):
                    return False
            return True
        return False

    def tok_node(self, m):
        for i, n in self.f.nodes.items():
            if n is m:
                return self.tok(i)
        return None

    def call(self, s, e, n):
        f, P = self.f, self.P
        add = set()
        ts = P.targets(f, n)
        nm = short(P.callee(n))
        if n["k"] == "call" and nm in ("memset", "memcpy", "bzero", "strncpy", "memmove") and n["a"]:
            m = f.nodes[P.strip_smart(f, n["a"][0])]
            while m["k"] in ("cast",) or m["k"] == "un" and m["op"] == "&":
                m = f.nodes[P.strip_smart(f, m["x"])]
            if m["k"] == "this":
                return s | {("this",)}
            t = self.tok_node(m)
            if t is not None:
                add.add(t)
        if n["k"] == "call" and (n.get("op") == "=" or nm == "swap") and n.get("o") is not None:
            t = self.tok(n["o"])
            m = f.nodes[P.strip_smart(f, n["o"])]
            if t is not None:
                add.add(t)
            elif m["k"] == "un" and m["op"] == "*" and f.nodes[m["x"]]["k"] == "this":
                add.add(("this",))
        if n["k"] == "call" and n.get("op") in (">>",):
            for a in n["a"]:
                t = self.tok(a)
                if t is not None:
                    add.add(t)
        # methods of this
        if n["k"] == "call" and n.get("o") is not None and ts:
            m = f.nodes[P.strip_smart(f, n["o"])]
            if m["k"] == "this":
                x = self.A.of(ts, "this")
                if x is not TOP:
                    add |= set(("this",) if y == "*" else ("t", y) for y in x)
            elif m["k"] == "ref" and isinstance(m.get("d"), int):
                x = self.A.of(ts, "this")
                if x is not TOP:
                    add |= set(("l", m["d"], y) for y in x)
        # what the callee assigns through its parameters
        for k, a in enumerate(n["a"]):
            pk = (n.get("pk") or [])
            pk = pk[k] if k < len(pk) else "v"
            x = P.strip_smart(f, a)
            m = f.nodes[x]
            while m["k"] == "cast":
                x = P.strip_smart(f, m["x"])
                m = f.nodes[x]
            tgt = None
            if pk == "r":
                tgt = x
            elif m["k"] == "un" and m["op"] == "&":
                tgt = P.strip_smart(f, m["x"])
            elif pk == "p" and m["k"] == "ref":
                tgt = x
            if tgt is None:
                continue
            t = self.tok(tgt)
            if t is None:
                continue
            known = [g for g in ts if g.u in self.A.sum]
            if not known or n["k"] == "ctor" and not ts:
                add.add(t)
                continue
            if len(f.nodes) and any(k >= len(g.params) for g in known):
                add.add(t)
                continue
            y = self.A.of(known, "par", k)
            if y is TOP:
                add.add(t)
            elif "*" in y:
                add.add(t)
            else:
                add |= set(("l", t[1], z) for z in y) if t[0] == "l" else set()
                self.reads[(a, t)] = self.reads.get((a, t), True)
        # bound or stored by reference: out of reach, taken as assigned
        return s | add

    def excs(self, s, e):
        if isinstance(e, int) and self.f.nodes[e]["k"] in ("call", "ctor", "throw", "new") and self.f.nodes[e].get("y") is not None and not self.f.nodes[e].get("nothrow"):
            yield ("*", s)

    def summary(self):
        s = self.exit_state
        if s is None:
            return TOP
        this = frozenset(["*"]) if ("this",) in s else frozenset(t[1] for t in s if t[0] == "t")
        outs, flds = set(), {}
        for d, k in self.pidx.items():
            if ("l", d) in s:
                outs.add(k)
            x = frozenset(t[2] for t in s if t[0] == "l" and len(t) == 3 and t[1] == d)
            if x:
                flds[k] = x
        return (this, frozenset(outs), flds)
