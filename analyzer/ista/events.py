"""Counting events of one kind wherever they happen: in the function, in what it calls, in the completion callbacks it
makes and hands on, and in what it hands to the event loop."""
from .model import detmpl, short
from .tokens import Tokens, is_ic_ptr, icomplete, made, value, ONE
from .once import Once, is_async
from .throws import is_fake


class Events(Tokens):
    """event(f, i, ctx) -> number of events node i is (None: not one)"""
    follow_signals = True
    last = frozenset([0])

    def __init__(self, P):
        Tokens.__init__(self, P)
        self._rel = None

    def event(self, f, i, ctx):
        return None

    def maybe(self, f, i):
        """may node i be an event? (without context)"""
        return self.event(f, i, ())

    def relevant(self, t, mode):
        if self._rel is None:
            P = self.P
            back, work = {}, set()
            for f in P.funcs.values():
                if is_fake(f):
                    continue
                for i, n in f.nodes.items():
                    if n["k"] in ("call", "ctor", "new", "fn"):
                        ts = P.targets(f, n) if n["k"] == "fn" else self.T.sync(f, i)
                        for t2 in ts:
                            back.setdefault(t2.u, set()).add(f.u)
                        if n["k"] == "new":
                            g = self.method_made(f, i, "on_complete") if made(f, i) in P.classes else None
                            if g:
                                back.setdefault(g.u, set()).add(f.u)
                        if n["k"] == "ctor" and n.get("c") in P.classes:
                            g = self.method(n["c"], "operator()")
                            if g:
                                back.setdefault(g.u, set()).add(f.u)
                    if n["k"] in ("call", "ctor", "bin", "asg", "un") and self.maybe(f, i):
                        work.add(f.u)
            seen = set()
            while work:
                u = work.pop()
                seen.add(u)
                work |= back.get(u, set()) - seen
            self._rel = seen
        return t.u in self._rel

    # ---- completion callbacks
    def completes(self, f, a):
        """the on_complete run when the callback a is completed, if made here"""
        v = value(f, a)
        n = f.nodes[v]
        c = None
        if n["k"] == "this":
            c = f.cls
        elif n["k"] == "new":
            return self.method_made(f, v, "on_complete")
        elif n["k"] == "call":
            for t in self.P.targets(f, n):
                for x in t.nodes.values():
                    if x["k"] == "ret" and x.get("x") is not None and t.nodes[value(t, x["x"])]["k"] == "new":
                        return self.method_made(t, value(t, x["x"]), "on_complete")
        return self.method(c, "on_complete") if c else None

    def contributions(self, f, mode, i, F):
        n = f.nodes[i]
        if n["k"] not in ("call", "ctor", "new", "delete", "bin", "asg", "un"):
            return ()
        e = self.event(f, i, mode[1])
        if e is not None:
            return [(frozenset([(None, e)]), frozenset([0]))] if e else ()
        if n["k"] == "call":
            r = []
            for k, a in enumerate(n.get("a", [])):
                if is_ic_ptr(f.nodes[a].get("t")) or "*" in f.nodes[a].get("t", ""):
                    ts = [t for t in self.T.sync(f, i) if k < len(t.params) and is_ic_ptr(t.params[k]["t"])]
                    if ts:
                        g = self.completes(f, a)
                        if g and self.relevant(g, mode):
                            r.append((self.follow_to(g, self.fresh(mode))[0], frozenset([0])))
            if r:
                return r
            if short(self.P.callee(n)) == "on_complete" and n.get("o") is not None and n.get("virt"):
                g = self.completes(f, n["o"])
                if not g:
                    return ()
                return [self.follow_to(g, self.fresh(mode))] if self.relevant(g, mode) else ()
        if n["k"] in ("delete", "bin", "asg", "un"):
            return ()
        return Once.contributions(self, f, mode, i, F)

    def direct(self, f, mode, i, F):
        return None

    def fresh(self, mode):
        return (mode[0], ())

    def later(self, f, mode, i):
        return [(t, self.fresh(mode)) for t, m in Once.later(self, f, mode, i)]

    def bound(self, f, mode, c, t):
        return mode

    def enter(self, f, mode, i, t):
        return self.fresh(mode)

    def follow(self, f, mode, i):
        if not self.follow_signals and self.P.signal_targets(f, f.nodes[i]):
            return []
        return Once.follow(self, f, mode, i)

    def assume(self, f, mode):
        return ()


# ---- constant text
def prefix(P, f, i, ctx=(), depth=0):
    """the beginning of the text expression i evaluates to: a string, or a set of strings of its cases; None if unknown"""
    if depth > 12:
        return None
    n = f.nodes[i]
    k = n["k"]
    if k == "str":
        return [n.get("v", "")]
    if k == "cast":
        return prefix(P, f, n["x"], ctx, depth + 1)
    if k == "cond":
        kids = [n.get("x"), n.get("r")]
        r = [prefix(P, f, x, ctx, depth + 1) for x in kids if x is not None]
        return sum(r, []) if all(x is not None for x in r) else None
    if k == "ctor" and detmpl(n.get("c", "")).endswith("basic_string") and n["a"]:
        return prefix(P, f, n["a"][0], ctx, depth + 1)
    if k == "call" and n.get("op") == "+":
        a = ([n["o"]] if n.get("o") is not None else []) + n.get("a", [])
        return prefix(P, f, a[0], ctx, depth + 1)
    if k == "call" and short(P.callee(n)) in ("c_str", "data", "str") and n.get("o") is not None:
        return prefix(P, f, n["o"], ctx, depth + 1)
    if k == "ref":
        d = n.get("d")
        for (x, t) in ctx:
            if x == d:
                return list(t)
        v = f.vars.get(d)
        if v and not v.get("param") and len(v["inits"]) == 1 and not v.get("assigned"):
            return prefix(P, f, v["inits"][0], ctx, depth + 1)
        g = P.globals.get(d) if hasattr(P, "globals") and isinstance(P.globals, dict) else None
        if g and g.get("s") is not None:
            return [g["s"]]
    return None
