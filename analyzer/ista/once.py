"""How often something happens on a path: summaries of counts over functions, what they call, and what they hand to the
event loop.  A function's summary is the set of (constant it returns or None, count) on its normal exits and the counts
with which each exception leaves it."""
from .model import detmpl, short
from .facts import atom, entails, classes_of
from .flow import handler_targets
from .util import Counts
from .throws import throws, is_fake

ASYNC = {"post", "dispatch", "defer"}
MOST = 2          # counts saturate here
NOCONST = -12345


def is_async(n):
    """is this library call one that hands a callable to the event loop, to be run once?"""
    if n["k"] != "call":
        return False
    q = detmpl(n.get("f", ""))
    return q.startswith("boost::asio") and (short(q) in ASYNC or short(q).startswith("async_"))


def callable_arg(f, n):
    """the callable among the arguments of bind_executor/wrap (default arguments may follow it)"""
    for a in reversed(n["a"]):
        if f.nodes[a]["k"] not in ("int", "other") and "cv" not in f.nodes[a]:
            return a
    return n["a"][-1]


def consts_returned(f):
    """the constants f returns, if it returns only constants"""
    c = f.__dict__.get("_consts", 0)
    if c != 0:
        return c
    r = set()
    for i, n in f.nodes.items():
        if n["k"] == "ret":
            if n.get("x") is None:
                r = None
                break
            x = f.nodes[n["x"]]
            while x["k"] == "cast" and "cv" not in x:
                x = f.nodes[x["x"]]
            if "cv" not in x:
                r = None
                break
            r.add(x["cv"])
    f._consts = r = (frozenset(r) if r else None)
    return r


class Flow1(Counts):
    def __init__(self, eng, f, mode, assume=()):
        super().__init__(eng.P, f, ["n", "ret"], None, assume=assume)
        self.eng, self.mode = eng, mode
        self._c = {}
        self._x = {}

    def ghost(self, e):
        return ()

    def contrib(self, e):
        c = self._c.get(e, 0)
        if c == 0:
            c = self._c[e] = self.eng.contributions(self.f, self.mode, e, self)
        return c

    def elem(self, s, e, b):
        s = super().elem(s, e, b)
        if s is None or not isinstance(e, int) and not (isinstance(e, dict) and e.get("e") in ("dtor", "tdtor")):
            return s
        if isinstance(e, int) and self.f.nodes[e]["k"] == "ret":
            x = self.f.nodes[e].get("x")
            if x is None:
                return s
            t, out = self.term(x), frozenset()
            for a in s:
                v = NOCONST
                for c in classes_of(a, t):
                    if c[0] == "c" and isinstance(c[1], int):
                        v = c[1]
                if v == NOCONST and entails(a, "!=", t, ("c", 0)):
                    v = 1 if self.f.nodes[x].get("t") == "bool" else NOCONST
                out |= self.gset(frozenset([a]), "ret", v)
            return out
        cs = self.contrib(e) if isinstance(e, int) else self.eng.dtor(self.f, self.mode, e)
        for outs, _ in cs:
            r = frozenset()
            for (ret, d) in outs:
                s2 = s
                if ret is not None and isinstance(e, int):
                    s2 = self.add(s2, [[atom("==", self.term(e), ("c", ret))]])
                if s2 and d:
                    s2 = self.bump_ghosts(s2, [("n", d)])
                if s2:
                    r |= s2
            if not r:
                return None
            s = self.trim(r)
        return s

    def edge(self, s, b, k, succ):
        blk = self.f.blocks[b]
        if blk.get("tk") == "SwitchStmt" and blk.get("tc") is not None and "case" not in self.f.blocks[succ]:
            cases = [self.f.blocks[x]["case"] for x in blk["to"] if x is not None and "case" in self.f.blocks[x]]
            t = self.term(blk["tc"])
            s = frozenset(a for a in s if not any(entails(a, "==", t, ("c", c)) for c in cases))
            return s or None
        return super().edge(s, b, k, succ)

    def excs(self, s, e):
        if not isinstance(e, int):
            return
        n = self.f.nodes[e]
        if n["k"] not in ("call", "ctor", "new", "throw"):
            return
        ts = self._x.get(e)
        if ts is None:
            ts = sorted(self.eng.T.node(self.f, e))
            if n["k"] == "throw" and n.get("x") is None:
                ts = ["std::exception"]
            self._x[e] = ts
        if not ts:
            # a handler is there for calls made through an interface, whatever today's implementations do
            if self.eng.virtual_throws and n.get("virt") and n.get("y") is not None and not n.get("nothrow") and not self.contrib(e) and \
                    not handler_targets(self.P, self.f, n["y"], "std::exception")[1]:
                yield "std::exception", s
            return
        ds = {0}
        for _, ex in self.contrib(e):
            if ex:
                ds = {min(MOST, a + b) for a in ds for b in ex}
        for t in ts:
            for d in ds:
                yield t, (self.bump_ghosts(s, [("n", d)]) if d else s)

    def summary(self):
        outs, ex = set(), {}
        s = self.inb.get(self.f.exit)
        valued = any(n["k"] == "ret" and n.get("x") is not None for n in self.f.nodes.values())
        for alt in s or ():
            c = self.gval(alt, "ret")
            outs.add((None if c == NOCONST or not valued else c, self.gval(alt, "n")))
        for t, st in self.exc_exit.items():
            ex[t] = frozenset(self.gval(a, "n") for a in st)
        return frozenset(outs), ex


class Once:
    """counts of events of one kind; subclasses say what an event is"""
    virtual_throws = True       # a virtual call inside a try may throw, whatever today's implementations do

    def __init__(self, P):
        self.P, self.T = P, throws(P)
        self.memo = {}
        self.busy = set()
        self.assumed = set()

    # ---- to be overridden
    def direct(self, f, mode, i, F):
        """contributions [(outcomes, exceptional counts)] of node i by itself, or None: look at what it calls"""
        return None

    def follow(self, f, mode, i):
        """[(function, mode)] run synchronously by node i that are of interest"""
        return [(t, self.enter(f, mode, i, t)) for t in self.T.sync(f, i)]

    def enter(self, f, mode, i, t):
        return mode

    def later(self, f, mode, i):
        """[(function, mode)] node i hands to the event loop to be run once"""
        n = f.nodes[i]
        r = []
        if is_async(n):
            for a in n["a"]:
                c = self.P.closure(f, a)
                if c:
                    for t in self.P.targets(f, f.nodes[c[0]]):
                        if not is_fake(t):
                            r.append((t, self.bound(f, mode, c, t)))
                    continue
                for t, m in self.functors(f, mode, a):
                    r.append((t, m))
        return r

    def functors(self, f, mode, a):
        """operator() of objects of project classes handed over"""
        P, x = self.P, f.nodes[a]
        for _ in range(5):
            if x["k"] == "ctor":
                c = detmpl(x.get("c", ""))
                ts = [t for t in P.funcs.values() if t.cls and detmpl(t.cls) == c and short(t.f) == "operator()"]
                if ts:
                    return [(t, self.functor_mode(f, mode, x, t)) for t in ts]
                if not x["a"]:
                    return []
                x = f.nodes[x["a"][0]]
            elif x["k"] == "cast":
                x = f.nodes[x["x"]]
            elif x["k"] == "call" and short(P.callee(x)) in ("wrap", "bind_executor") and x["a"]:
                x = f.nodes[callable_arg(f, x)]
            elif x["k"] == "ref" and x.get("dk") == "local" and len(f.vars.get(x["d"], {}).get("inits", [])) == 1:
                x = f.nodes[f.vars[x["d"]]["inits"][0]]
            else:
                return []
        return []

    def functor_mode(self, f, mode, x, t):
        return mode

    def bound(self, f, mode, c, t):
        return mode

    def dtor(self, f, mode, e):
        return ()

    def relevant(self, t, mode):
        """may t have events at all?  (cheap)"""
        return True

    def recursive(self, t, mode):
        return frozenset([(None, 1)]), {}

    # ---- engine
    def contributions(self, f, mode, i, F):
        n = f.nodes[i]
        if n["k"] not in ("call", "ctor", "new", "delete", "bin"):
            return ()
        d = self.direct(f, mode, i, F)
        if d is not None:
            return d
        if n["k"] not in ("call", "ctor", "new"):
            return ()
        r = []
        for t, m in self.later(f, mode, i):
            if m is None or not self.relevant(t, m):
                continue
            outs, ex = self.summary(t, m)
            cs = set(c for _, c in outs)
            for v in ex.values():
                cs |= v
            if cs and cs != {0}:
                r.append((frozenset((None, c) for c in cs), None))
        fo = [(t, m) for t, m in self.follow(f, mode, i) if m is not None]
        if fo:
            outs, exs = set(), set()
            for t, m in fo:
                if not self.relevant(t, m):
                    c = consts_returned(t)
                    outs |= set((k, 0) for k in c) if c and len(c) <= 4 else {(None, 0)}
                    exs.add(0)
                    continue
                o, ex = self.summary(t, m)
                outs |= o
                for v in ex.values():
                    exs |= v
            if not outs:
                return r + [(frozenset(), frozenset(exs or {0}))]
            if outs != {(None, 0)} or exs - {0}:
                r.append((frozenset(outs), frozenset(exs or {0})))
        return r

    def assume(self, f, mode):
        return ()

    def flow(self, t, mode):
        F = self.memo.get((t.u, mode))
        if isinstance(F, Flow1):
            return F
        F = Flow1(self, t, mode, self.assume(t, mode))
        F.solve()
        return F

    def summary(self, t, mode):
        k = (t.u, mode)
        F = self.memo.get(k)
        if F is None:
            if k in self.busy:
                self.assumed.add(k)
                return self.recursive(t, mode)
            self.busy.add(k)
            F = Flow1(self, t, mode, self.assume(t, mode))
            F.solve()
            F.result = F.summary()
            self.busy.discard(k)
            self.memo[k] = F
        return F.result

    def normal(self, t, mode):
        return set(c for _, c in self.summary(t, mode)[0])

    def where(self, t, mode):
        """places with events, for messages"""
        F = self.memo.get((t.u, mode))
        return ["%s: %s" % (t.loc(i), self.P.render(t, i)[:100]) for i, c in sorted(F._c.items()) if c] if F else []
