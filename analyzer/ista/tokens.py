"""Counting what happens to one object on a path: a completion callback that must be called, an object that must free
itself.  A mode is (kind, token): kind "done" counts calls of on_complete on the token, "free" counts its deletion; the
token is ("param", d), ("field", name) of this, ("this",), or ("node", i) for the value of a new-expression."""
import re
from .model import detmpl, short
from .facts import atom
from .once import Once, is_async, callable_arg
from .throws import is_fake, class_of_ptr

ONE = (frozenset([(None, 1)]), frozenset([0]))


def icomplete(P, c):
    return c and ("IComplete" in [detmpl(x) for x in P.all_bases(c)] or detmpl(c) == "IComplete")


def is_ic_ptr(t):
    return re.sub(r"\b(const|class|struct)\b|\s", "", t or "") in ("IComplete*", "IComplete*&")


def value(f, i):
    """the node an expression copies its value from: casts, copies, locals initialised once"""
    for _ in range(12):
        n = f.nodes[i]
        if n["k"] == "cast":
            i = n["x"]
        elif n["k"] == "ctor" and n.get("copy") and len(n["a"]) == 1:
            i = n["a"][0]
        elif n["k"] == "ref" and n.get("dk") == "local":
            v = f.vars.get(n["d"])
            if v and len(v["inits"]) == 1 and not v.get("assigned"):
                i = v["inits"][0]
            else:
                return i
        else:
            return i
    return i


def made(f, i):
    """class made by new expression i"""
    for j in f.kids(i):
        if f.nodes[j]["k"] == "ctor":
            return f.nodes[j]["c"]
    return None


class Tokens(Once):
    def __init__(self, P):
        super().__init__(P)
        self._hold = {}

    # ---- what an expression denotes
    def token(self, f, i):
        P = self.P
        for _ in range(8):
            i = value(f, P.strip_smart(f, i))
            n = f.nodes[i]
            if n["k"] == "ctor" and detmpl(n.get("c", "")).split("::")[-1] in ("shared_ptr", "scoped_ptr", "auto_ptr", "unique_ptr") and n["a"]:
                i = n["a"][0]
                continue
            j = P.strip_smart(f, i)
            if j == i:
                break
            i = j
        n = f.nodes[i]
        if n["k"] == "this" or n["k"] == "call" and short(P.callee(n)) == "shared_from_this":
            return ("this",)
        if n["k"] == "ref" and n.get("dk") == "param":
            return ("param", n["d"])
        if n["k"] == "mem" and n.get("b") is not None and f.nodes[P.strip_smart(f, n["b"])]["k"] == "this":
            return ("field", short(n["n"]))
        return ("node", i)

    def is_tok(self, f, mode, i):
        t = self.token(f, i)
        if t == mode[1]:
            return True
        return False

    def carrier(self, f, mode, i):
        """the object that owns the token, when that is this"""
        return mode[1][0] in ("field", "this") and self.token(f, i) == ("this",)

    def stored(self, c, k):
        """field of class c that constructor argument k is stored in: following base constructors"""
        P = self.P
        r = set()
        for g in P.funcs.values():
            if g.is_ctor and g.cls == c and k < len(g.params) and not g.implicit:
                d = g.params[k]["d"]
                for b in g.blocks.values():
                    for e in b["s"]:
                        if isinstance(e, dict) and e.get("e") == "init" and e.get("x") is not None:
                            x = value(g, e["x"])
                            n = g.nodes[x]
                            if n["k"] == "ref" and n.get("d") == d and e.get("n"):
                                r.add(short(e["n"]))
                            elif n["k"] == "ctor" and e.get("base"):
                                for kk, a in enumerate(n["a"]):
                                    m = g.nodes[value(g, a)]
                                    if m["k"] == "ref" and m.get("d") == d:
                                        q = self.stored(n["c"], kk)
                                        if q:
                                            r.add(q)
        return next(iter(r)) if len(r) == 1 else None

    def holder(self, f, mode, i, depth=0):
        """(class, field) if expression i is an object of a project class constructed with the token"""
        P = self.P
        if depth > 8:
            return None
        i = value(f, i)
        n = f.nodes[i]
        if n["k"] in ("ctor", "new"):
            c, args = n.get("c"), n.get("a", [])
            if n["k"] == "new":
                x = n.get("x") if n.get("x") is not None else n.get("i")
                for j in f.kids(i):
                    if f.nodes[j]["k"] == "ctor":
                        c, args = f.nodes[j]["c"], f.nodes[j]["a"]
            if c in P.classes:
                for k, a in enumerate(args):
                    if self.is_tok(f, mode, a):
                        g = self.stored(c, k)
                        if g:
                            return (c, g)
            if n["k"] == "ctor" and len(args) >= 1:
                return self.holder(f, mode, args[0], depth + 1)
            return None
        j = P.strip_smart(f, i)
        if j != i:
            return self.holder(f, mode, j, depth + 1)
        if n["k"] == "call" and n.get("a"):
            if short(P.callee(n)) == "make_shared":
                c = class_of_ptr(n.get("t"))
                if c in P.classes:
                    for k, a in enumerate(n["a"]):
                        if self.is_tok(f, mode, a):
                            g = self.stored(c, k)
                            if g:
                                return (c, g)
                return None
            for t in P.targets(f, n):
                rets = [m["x"] for m in t.nodes.values() if m["k"] == "ret" and m.get("x") is not None]
                if len(rets) == 1:
                    for k, a in enumerate(n["a"]):
                        if k < len(t.params) and self.is_tok(f, mode, a):
                            h = self.holder(t, (mode[0], ("param", t.params[k]["d"])), rets[0], depth + 1)
                            if h:
                                return h
        return None

    def method(self, c, name):
        """the function run for method name on an object of dynamic class c"""
        P = self.P
        for b in [c] + list(P.all_bases(c)):
            for g in P.funcs.values():
                if g.cls == b and short(g.f) == name and not is_fake(g):
                    return g
        return None

    def method_made(self, f, i, name):
        """method name of the object made by new expression i: of the right instance of a class template"""
        c = made(f, i)
        for j in f.kids(i):
            if f.nodes[j]["k"] == "ctor":
                for t in self.P.targets(f, f.nodes[j]):
                    k = t.u.rfind("@F@")
                    for g in self.P.funcs.values():
                        if short(g.f) == name and g.cls == t.cls and g.u.startswith(t.u[:k + 3] + name + "#") and not is_fake(g):
                            return g
        return self.method(c, name) if c else None

    def cls_of(self, f, tok):
        if tok == ("this",):
            return f.cls
        return None

    # ---- events
    def direct(self, f, mode, i, F):
        P, n = self.P, f.nodes[i]
        kind, tok = mode
        if tok == ("node", i):
            return [(frozenset([(None, -1)]), frozenset([0]))]      # made here: consumed exactly once when the count is 0 again
        if n["k"] == "delete":
            return [ONE] if kind == "free" and n.get("x") is not None and self.is_tok(f, mode, n["x"]) else []
        if n["k"] == "bin":
            return []
        r = []
        if n["k"] == "ctor" and detmpl(n.get("c", "")).split("::")[-1] == "shared_ptr" and n["a"] and not n.get("copy"):
            # owned by reference counting: the destructor runs once
            h = self.holder(f, mode, n["a"][0])
            if h and f.nodes[value(f, n["a"][0])]["k"] == "new":
                d = [g for g in P.funcs.values() if g.cls == h[0] and g.is_dtor]
                for g in d:
                    o, ex = self.summary(g, (kind, ("field", h[1])))
                    if o != {(None, 0)}:
                        r.append((o, None))
            return r
        if n["k"] != "call":
            return r
        name = short(P.callee(n))
        args = n.get("a", [])
        # closures run later
        if is_async(n):
            for a in args:
                r += self.handed(f, mode, a)
            return r
        ts = [t for t in self.T.sync(f, i)]
        o = n.get("o")
        if not n.get("u") and o is None:
            # call through a member pointer: the object hangs in the ->* expression
            for j in f.kids(i):
                for x in f.subtree(j):
                    if f.nodes[x]["k"] == "bin" and f.nodes[x]["op"] in ("->*", ".*"):
                        o = f.nodes[x]["x"]
        if o is not None and ts or o is not None and name == "on_complete":
            h = self.holder(f, mode, o) if f.nodes[value(f, o)]["k"] in ("new", "ctor", "call") else None
            if h:
                t = self.method(h[0], name) or (ts[0] if ts else None)
                if t:
                    r.append(self.follow_to(t, (kind, ("field", h[1]))))
            elif self.is_tok(f, mode, o) or self.carrier(f, mode, o):
                m = mode
                if self.is_tok(f, mode, o) and mode[1] != ("this",):
                    if kind == "done":
                        if name == "on_complete":
                            r.append(ONE)
                        return r
                    m = (kind, ("this",))
                elif kind == "done" and mode[1] == ("this",):
                    if name == "on_complete":
                        r.append(ONE)
                    return r
                outs = []
                for t in ts:
                    outs.append(self.follow_to(t, m))
                if outs:
                    r.append((frozenset().union(*[x[0] for x in outs]), frozenset().union(*[x[1] or {0} for x in outs])))
        # arguments
        for k, a in enumerate(args):
            is_tok = self.is_tok(f, mode, a)
            h = None if is_tok else self.holder(f, mode, a) if is_ic_ptr(f.nodes[a].get("t")) or "*" in f.nodes[a].get("t", "") else None
            car = not is_tok and not h and self.carrier(f, mode, a)
            if not (is_tok or h or car):
                continue
            for t in ts[:1] if ts else []:
                if k >= len(t.params):
                    continue
                if is_ic_ptr(t.params[k]["t"]):
                    if is_tok and kind == "done":
                        r.append(ONE)
                    elif h:
                        g = self.method(h[0], "on_complete")
                        if g:
                            r.append((self.follow_to(g, (kind, ("field", h[1])))[0], frozenset([0])))
                    elif is_tok or car:
                        c = f.cls if self.token(f, a) == ("this",) else self.static_class(f, a)
                        g = self.method(c, "on_complete") if c else None
                        if g:
                            m = mode if car else (kind, ("this",))
                            r.append((self.follow_to(g, m)[0], frozenset([0])))
                elif is_tok:
                    o2 = [self.follow_to(x, (kind, ("param", x.params[k]["d"]))) for x in ts if k < len(x.params)]
                    r.append((frozenset().union(*[x[0] for x in o2]), frozenset().union(*[x[1] or {0} for x in o2])))
        return r

    def static_class(self, f, a):
        m = re.match(r"(?:const )?(?:class |struct )?([\w:]+)", f.nodes[a].get("t", ""))
        c = m.group(1) if m else None
        v = value(f, a)
        if f.nodes[v]["k"] == "new":
            return made(f, v)
        if f.nodes[v]["k"] == "call":
            for t in self.P.targets(f, f.nodes[v]):
                for x in t.nodes.values():
                    if x["k"] == "ret" and x.get("x") is not None and t.nodes[value(t, x["x"])]["k"] == "new":
                        return made(t, value(t, x["x"]))
        if c in self.P.classes:
            return c
        q = [x for x in self.P.classes if short(x) == c]
        return q[0] if len(q) == 1 else None

    def follow_to(self, t, m):
        outs, ex = self.summary(t, m)
        e = set()
        for v in ex.values():
            e |= v
        return outs, frozenset(e or {0})

    def handed(self, f, mode, a):
        """contributions of a callable handed to the event loop, which runs it once"""
        P = self.P
        c = P.closure(f, a)
        r = []
        if c:
            ts = [t for t in P.targets(f, f.nodes[c[0]]) if not is_fake(t)]
            fn = f.nodes[c[0]]
            name = short(P.callee(fn)) if fn.get("f") else ""
            for k, b in enumerate(c[1]):
                tok = self.is_tok(f, mode, b)
                car = not tok and self.carrier(f, mode, b)
                h = self.holder(f, mode, b) if not tok and not car else None
                if not (tok or car or h):
                    continue
                meth = bool(ts) and (ts[0].cls and not ts[0].__dict__.get("static")) or name == "on_complete"
                if k == 0 and meth:
                    if tok and mode[0] == "done" and name == "on_complete":
                        r.append(ONE)
                        continue
                    m = (mode[0], ("field", h[1])) if h else mode if car else (mode[0], ("this",))
                    if h:
                        g = self.method(h[0], name)
                        ts = [g] if g else ts
                    outs = [self.follow_to(t, m) for t in ts]
                else:
                    kk = k - (1 if meth else 0)
                    outs = [self.follow_to(t, (mode[0], ("param", t.params[kk]["d"]))) for t in ts if kk < len(t.params)] if tok else []
                if outs:
                    cs = set(x for o in outs for _, x in o[0])
                    for o in outs:
                        cs |= set() if o[1] is None else set(o[1]) - {0}
                    r.append((frozenset((None, x) for x in cs), None))
            return r
        x, seen = f.nodes[a], 0
        i = a
        while seen < 6:
            seen += 1
            h = self.holder(f, mode, i)
            if h:
                g = self.method(h[0], "operator()")
                if g:
                    outs, _ = self.follow_to(g, (mode[0], ("field", h[1])))
                    r.append((frozenset((None, x) for _, x in outs), None))
                return r
            x = f.nodes[i]
            if x["k"] == "ctor" and x["a"]:
                i = x["a"][0]
            elif x["k"] == "cast":
                i = x["x"]
            elif x["k"] == "call" and short(P.callee(x)) in ("wrap", "bind_executor") and x["a"]:
                return r + self.handed(f, mode, callable_arg(f, x))
            else:
                break
        return r

    def dtor(self, f, mode, e):
        return ()

    def assume(self, f, mode):
        if mode[1][0] == "param":
            return [atom("!=", ("v", mode[1][1]), ("c", 0))]
        if mode[0] == "done" and mode[1][0] == "field":
            return []
        return ()

    def follow(self, f, mode, i):
        return []

    def later(self, f, mode, i):
        return []
