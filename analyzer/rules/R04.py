"""Recurring activities: every round schedules the next one."""
from ista.model import detmpl, short
from ista.facts import atom, entails
from ista.once import is_async, Flow1
from ista.events import Events
from ista.throws import is_fake, throws
from ista.util import Sets
from ista import throws as _t

ASSUME = _t.ASSUME + ["a timer's wait fails only because it was cancelled", "running out of memory is not considered",
                      "an accept, a datagram receive and a read may fail at any time"]
# not recurring: they end with what they belong to
ONDEMAND = {"RealSettings": "a save is started by a change and repeated only while it fails (D06)",
            "HttpRequest": "the steps of one request (R01)"}
# what says that a connection is not to be connected or read again: field -> value (size terms: of strings and buffers)
CONN = "EagerConnection"
GONE = {"retry": [("size", "resolveHost_", 0), ("size", "resolvePort_", 0), ("is", "opened_", 0)],
        "read": []}


def skip(f):
    return is_fake(f) or f.file.startswith(("tool", "perf", "ftest"))


def targets(P, f, i):
    n = f.nodes[i]
    r = []
    if is_async(n) and short(detmpl(n["f"])).startswith("async_"):
        for a in n["a"]:
            c = P.closure(f, a)
            if c:
                r += [t for t in P.targets(f, f.nodes[c[0]]) if not skip(t)]
    return r


def op(n):
    return short(detmpl(n["f"]))


class Model:
    def __init__(self, P):
        self.P, self.T = P, throws(P)
        self.reg = {}
        for f in P.funcs.values():
            if not skip(f):
                for i, n in f.nodes.items():
                    for t in targets(P, f, i):
                        self.reg.setdefault(t.u, []).append((f, i))
        edges = {}
        for u in self.reg:
            r = self.reach(u)
            edges[u] = set(k for k, v in self.reg.items() if any(f.u in r for f, _ in v))
        cl = {}
        for u in self.reg:
            s, st = set(), [u]
            while st:
                for k in edges[st.pop()]:
                    if k not in s:
                        s.add(k)
                        st.append(k)
            cl[u] = s
        self.activities = sorted(set(frozenset(k for k in cl[u] if u in cl[k]) for u in self.reg if u in cl[u]), key=lambda c: sorted(c))
        # flags saying that a round is outstanding: (class field, round function) -> [function that sets it and starts the round]
        self.flags = {}
        for u, v in self.reg.items():
            for f, i in v:
                for j, n in f.nodes.items():
                    if n["k"] == "asg" and n.get("op", "=") == "=" and self.const(f, n["r"]) == 1:
                        x = f.nodes[n["x"]]
                        if x["k"] == "mem" and f.nodes[x["b"]]["k"] == "this" and x.get("t", "") in ("bool", "volatile bool"):
                            self.flags.setdefault((x["n"], u), set()).add(f.u)

    def const(self, f, i):
        n = f.nodes[i]
        while n["k"] == "cast" and "cv" not in n:
            n = f.nodes[n["x"]]
        return n.get("cv")

    def reach(self, u):
        P = self.P
        seen, st = set(), [u]
        while st:
            x = st.pop()
            if x in seen:
                continue
            seen.add(x)
            f = P.funcs[x]
            for i, n in f.nodes.items():
                if n["k"] in ("call", "ctor", "new"):
                    st += [t.u for t in self.T.sync(f, i) if not skip(t)]
                    if is_async(n):
                        for a in n["a"]:
                            c = P.closure(f, a)
                            if c:
                                st += [t.u for t in P.targets(f, f.nodes[c[0]]) if t.u not in self.reg and not skip(t)]
        return seen


class Flow2(Flow1):
    """counts of rounds scheduled ("n"), whether the path says none is due ("x"), flags cleared or set ("c", "s")"""

    def __init__(self, eng, f, mode, assume=(), flag=None):
        self.flag = flag
        self.late = []
        super().__init__(eng, f, mode, assume)
        self.ghosts = ("n", "ret", "x", "c", "s")

    def edge(self, s, b, k, succ):
        s = super().edge(s, b, k, succ)
        if s is None:
            return s
        out = set()
        for a in s:
            if not self.gval(a, "x") and self.eng.excuse(self.f, self.mode, a):
                out |= self.bump_ghosts(frozenset([a]), [("x", "=", 1)])
            else:
                out.add(a)
        return frozenset(out)

    def elem(self, s, e, b):
        s = super().elem(s, e, b)
        if s is not None and self.flag and isinstance(e, int):
            n = self.f.nodes[e]
            if n["k"] == "asg" and n.get("op", "=") == "=":
                x = self.f.nodes[n["x"]]
                if x["k"] == "mem" and x["n"] == self.flag:
                    v = self.eng.M.const(self.f, n["r"])
                    s = self.bump_ghosts(s, [("c", "=", 1 if v == 0 else 0), ("s", "=", 1 if v == 1 else 0)])
        return s

    def summary(self):
        outs, ex = set(), {}
        for alt in self.inb.get(self.f.exit) or ():
            n = self.gval(alt, "n")
            outs.add((None, 1 if n == 0 and self.gval(alt, "x") else n))
        for t, st in self.exc_exit.items():
            ex[t] = frozenset(1 if self.gval(a, "n") == 0 and self.gval(a, "x") else self.gval(a, "n") for a in st)
        return frozenset(outs), ex


class Rounds(Events):
    """rounds of one activity scheduled; mode[0]: its kind"""
    follow_signals = True
    virtual_throws = False

    def __init__(self, P, M, C, ops=None):
        Events.__init__(self, P)
        self.M, self.C, self.ops = M, C, ops

    def event(self, f, i, ctx):
        n = f.nodes[i]
        if n["k"] == "call" and is_async(n) and (self.ops is None or op(n).startswith(self.ops)):
            if any(t.u in self.C for t in targets(self.P, f, i)):
                return 1
        return None

    def error(self, f):
        """parameters holding the error of the completed operation"""
        return [p["d"] for p in f.params if "error_code" in p["t"]]

    def failed(self, f, alt, yes):
        for d in self.error(f):
            v = ("v", d)
            if entails(alt, "==" if yes else "!=", ("m", "operator!", v), ("c", 0)):
                return True
            for t in (("m", "value", v), ("m", "operator bool", v), ("m", "failed", v), v):
                if entails(alt, "!=" if yes else "==", t, ("c", 0)):
                    return True
        return False

    def excuse(self, f, mode, alt):
        k = mode[0]
        if k == "timer":
            if self.failed(f, alt, True):
                return True
        if k == "read" and self.failed(f, alt, True) or k == "retry" and self.failed(f, alt, False):
            return True
        if k in GONE:
            for how, x, v in GONE[k]:
                t = ("f", ("this",), CONN + "::" + x)
                if entails(alt, "==", ("m", "size", t) if how == "size" else t, ("c", v)) or \
                        how == "size" and entails(alt, "!=", ("m", "empty", t), ("c", 0)):
                    return True
            for (x, u) in self.M.flags:
                if u in self.C and x.startswith(CONN) and entails(alt, "!=", ("f", ("this",), x), ("c", 0)):
                    return True
        if k == "accept":
            for t in (("m", "*", P_), ("m", "get", P_), P_):
                if entails(alt, "!=", t, ("c", 0)):
                    return True
        return False

    def make(self, t, mode, flag=None):
        F = Flow2(self, self.P.view(t), mode, self.assume(t, mode), flag)
        F.solve()
        return F

    def flow(self, t, mode):
        k = (t.u, mode)
        if k not in self.memo:
            self.summary(t, mode)
        return self.memo[k]

    def summary(self, t, mode):
        k = (t.u, mode)
        F = self.memo.get(k)
        if F is None:
            if k in self.busy:
                return frozenset([(None, 0)]), {}
            self.busy.add(k)
            F = self.make(t, mode)
            F.result = F.summary()
            self.busy.discard(k)
            self.memo[k] = F
        return F.result

    def assume(self, f, mode):
        """arguments every registration of f passes as nonzero"""
        r = []
        regs = self.M.reg.get(f.u, ())
        for j, p in enumerate(f.params):
            if "*" not in p["t"] or not regs or not self.C & {f.u}:
                continue
            ok = True
            for g, i in regs:
                c = next(c for c in (self.P.closure(g, a) for a in g.nodes[i]["a"]) if c)
                args = c[1]
                a = args[j] if j < len(args) else None
                ok = ok and a is not None and self.nonnull(g, i, a)
            if ok:
                r.append(atom("!=", ("v", p["d"]), ("c", 0)))
        return r

    def nonnull(self, g, i, a):
        from ista.facts import facts
        n = g.nodes[a]
        while n["k"] == "cast":
            n = g.nodes[n["x"]]
        if n["k"] == "un" and n["op"] == "&":
            return True
        F = facts(self.P, g)
        s = F.before(i)
        t = F.term(a)
        return s is not None and all(entails(x, "!=", t, ("c", 0)) for x in s)


P_ = ("f", ("this",), "EagerConnectionFactory::pending_")


def bad_exits(F):
    """[(text)] of the exits without a next round"""
    outs, ex = F.summary()
    r = []
    if any(k == 0 for _, k in outs):
        r.append("a path that returns")
    for t, v in sorted(ex.items()):
        if 0 in v:
            r.append("%s leaving it" % t)
    return r


def where(E, t, mode):
    F = E.memo.get((t.u, mode))
    if not F:
        return []
    f = F.f
    return ["%s: %s (%s)" % (f.loc(i), E.P.render(f, i)[:90], ",".join(str(k) for k in sorted(set(x[1] for o, _ in c for x in o))))
            for i, c in sorted(F._c.items()) if c]


def run(P, R):
    M = Model(P)
    R.rule("again", "every round of a recurring activity schedules the next one, on every path", 8)
    R.rule("once", "a round of a timer or accept loop schedules one next round, not several", 8)
    R.rule("start", "every recurring activity is started from outside", 5)
    R.rule("timer", "a timer is used by one activity only, and set before it is waited for", 5)
    R.rule("connection", "a connection is read again after each successful read and tried again after each failure", 3)
    R.rule("accept", "an accept loop continues whatever happens to the accepted connection", 2)
    R.rule("flag", "the flag saying that an operation is outstanding is set with it and cleared by its handler", 2)
    for C in M.activities:
        cls = set((P.funcs[u].cls or "").split("::")[0] for u in C)
        if cls & set(ONDEMAND):
            continue
        if CONN in cls:
            connection(P, R, M, C)
            continue
        if cls == {"EagerConnectionFactory"}:
            accept(P, R, M, C)
            start(P, R, M, C)
            continue
        kinds = set(op(f.nodes[i]) for u in C for f, i in M.reg[u])
        mode = ("timer" if kinds == {"async_wait"} else "io", ())
        E = Rounds(P, M, C)
        for u in sorted(C):
            t = P.funcs[u]
            outs, ex = E.summary(t, mode)
            b = bad_exits(E.flow(t, mode))
            R.ob("again", t.loc(), "%s schedules the next round" % t.f, not b, func=t.f, detail="again", path=where(E, t, mode),
                 msg="%s may end without scheduling its next round: %s" % (t.f, ", ".join(b)))
            many = any(k >= 2 for _, k in outs)
            R.ob("once", t.loc(), "%s schedules one next round" % t.f, not many, func=t.f, detail="once", path=where(E, t, mode),
                 msg="%s may schedule more than one next round: the activity multiplies" % t.f)
        start(P, R, M, C)
    flags(P, R, M)
    timers(P, R, M)


def related(P, a, b):
    return a == b or a in P.all_bases(b) or b in P.all_bases(a)


def start(P, R, M, C):
    # a base class may start what its virtual functions continue
    cls = set(P.funcs[u].cls for u in C if P.funcs[u].cls)
    C = frozenset(C).union(*[D for D in M.activities if any(P.funcs[u].cls and related(P, P.funcs[u].cls, c) and short(P.funcs[u].f) in
                             set(short(P.funcs[w].f) for w in C) for u in D for c in cls)])
    inner = set()
    for u in C:
        inner |= M.reach(u)
    arming = set(f.u for u in C for f, _ in M.reg[u])
    # functions that arm and are only reached from inside are not starts
    def outside(u, seen):
        if u in seen:
            return False
        seen.add(u)
        for g, _ in P.callers[u]:
            if not skip(g) and (g.u not in inner or outside(g.u, seen)):
                return True
        return u not in inner
    ok = any(outside(a, set()) for a in arming)
    names = ", ".join(sorted(P.funcs[u].f for u in C))
    t = P.funcs[min(C)]
    R.ob("start", t.loc(), "%s is started" % names, ok, func=names, detail="start", msg="nothing starts %s" % names)


def connection(P, R, M, C):
    # kinds: read = reads again; retry = waits, connects
    E = {"read": Rounds(P, M, C, ("async_read",)), "retry": Rounds(P, M, C, ("async_wait", "async_connect"))}
    for e in E.values():
        e.follow_signals = False        # what the users of a connection do with an event is no substitute
    for u in sorted(C):
        t = P.funcs[u]
        ops = set(op(f.nodes[i]) for f, i in M.reg[u])
        kinds = []
        if any(o.startswith("async_read") for o in ops):
            kinds = ["read", "retry"]
        elif any(o.startswith("async_connect") for o in ops):
            kinds = ["read", "retry"]
        else:
            kinds = ["retry"]
        for k in kinds:
            m = (k, ())
            E[k].summary(t, m)
            b = bad_exits(E[k].flow(t, m))
            R.ob("connection", t.loc(), "%s: %s" % (t.f, "the next read is started" if k == "read" else "the connection is tried again after an error"),
                 not b, func=t.f, detail=k, path=where(E[k], t, m),
                 msg="%s may end without %s: %s" % (t.f, "starting the next read" if k == "read" else "another attempt to connect after an error", ", ".join(b)))


def accept(P, R, M, C):
    class Accepts(Rounds):
        def event(self, f, i, ctx):
            n = f.nodes[i]
            if n["k"] == "call" and short(P.callee(n)) == "nextConn":
                return 1
            return Rounds.event(self, f, i, ctx)
    E = Accepts(P, M, C)
    m = ("accept", ())
    for u in sorted(C):
        t = P.funcs[u]
        E.summary(t, m)
        b = bad_exits(E.flow(t, m))
        R.ob("accept", t.loc(), "%s accepts again" % t.f, not b, func=t.f, detail="again", path=where(E, t, m),
             msg="%s may end without accepting again: %s" % (t.f, ", ".join(b)))
    # the failed one is forgotten before the wait, as nothing is accepted while one is pending
    for u in sorted(C):
        v = P.view(P.funcs[u])
        waits = [i for i, n in v.nodes.items() if is_async(n) and op(n) == "async_wait" and any(t.u in C for t in targets(P, v, i))]
        if not waits:
            continue
        S = Sets(P, v, ["c"], lambda w, e: [("c", "=", 1)] if isinstance(e, int) and forgets(P, w, e) else ())
        S.solve()
        for i in waits:
            s = S.before(i)
            R.ob("accept", v.loc(i), "%s forgets the failed connection before it waits to accept again" % v.f, not s or 0 not in S.values(s, "c"), func=v.f, detail="forget",
                 msg="%s may wait to accept again with the failed connection still pending: nothing is accepted any more" % v.f)
    # taking the accepted connection starts the next accept
    E2 = Rounds(P, M, C)
    for t in P.funcs.values():
        if t.cls != "EagerConnectionFactory" or skip(t) or t.u in C or t.is_ctor or t.is_dtor:
            continue
        v = P.view(t)
        if not any(takes(P, v, i) for i in v.nodes):
            continue
        class F3(Flow2):
            def elem(self, s, e, b):
                s = Flow2.elem(self, s, e, b)
                if s is not None and isinstance(e, int) and takes(P, self.f, e):
                    s = self.bump_ghosts(s, [("s", "=", 1), ("n", "=", 0), ("x", "=", 0)])
                return s
        F = F3(E2, v, ("accept", ()), ())
        F.solve()
        bad = []
        for a in F.inb.get(v.exit) or ():
            if F.gval(a, "s") and F.gval(a, "n") == 0:
                bad.append("a path that returns")
        for x, st in F.exc_exit.items():
            if any(F.gval(a, "s") and F.gval(a, "n") == 0 for a in st):
                bad.append("%s leaving it" % x)
        R.ob("accept", t.loc(), "%s starts the next accept when it takes the accepted connection" % t.f, not bad, func=t.f, detail="take",
             msg="%s may take the accepted connection without accepting the next: %s" % (t.f, ", ".join(sorted(set(bad)))))


def forgets(P, f, i):
    """does node i empty pending_?"""
    n = f.nodes[i]
    if n["k"] != "call" or n.get("o") is None:
        return False
    if takes(P, f, i):
        return True
    x = f.nodes[P.strip_smart(f, n["o"])]
    if x["k"] == "mem" and short(x["n"]) == "pending_" and n.get("op") == "=" and n["a"]:
        a = n["a"][0]
        while f.nodes[a]["k"] == "cast":
            a = f.nodes[a]["x"]
        y = f.nodes[a]
        return y["k"] == "ctor" and not y["a"] or y.get("cv") == 0
    return False


def takes(P, f, i):
    """is node i one that moves pending_ out?"""
    n = f.nodes[i]
    if n["k"] != "call" or n.get("o") is None:
        return False
    def isp(j):
        x = f.nodes[P.strip_smart(f, j)]
        return x["k"] == "mem" and short(x["n"]) == "pending_"
    s = short(P.callee(n))
    if s == "swap":
        return isp(n["o"]) or any(isp(a) for a in n["a"])
    if s == "reset" and not n["a"]:
        return isp(n["o"])
    return False


def flags(P, R, M):
    for (x, u), setters in sorted(M.flags.items()):
        t = P.funcs[u]
        if skip(t):
            continue
        E = Rounds(P, M, frozenset([u]))
        E.follow_signals = False
        F = E.make(t, ("flag", ()), x)
        f = F.f
        bad = [a for a in F.inb.get(f.exit) or () if not F.gval(a, "c") and not F.gval(a, "s")]
        R.ob("flag", t.loc(), "%s clears %s" % (t.f, short(x)), not bad, func=t.f, detail="clear " + x,
             msg="%s may return with %s still set: the operation is never started again" % (t.f, x))
        late = []
        for b, blk in f.blocks.items():
            if blk.get("tc") is None or F.inb.get(b) is None:
                continue
            if not any(f.nodes[j]["k"] == "mem" and f.nodes[j]["n"] == x for j in f.subtree(blk["tc"])):
                continue
            s = F.before(blk["tc"]) if blk["tc"] in f.elem_of else F.inb[b]
            if s and any(not F.gval(a, "c") and not F.gval(a, "s") for a in s):
                late.append(f.loc(blk["tc"]))
        R.ob("flag", t.loc(), "%s clears %s before it is looked at" % (t.f, short(x)), not late, func=t.f, detail="late " + x,
             msg="%s looks at %s (at %s) before clearing it: the operation is not started again" % (t.f, x, ", ".join(late)))
        for g in P.funcs.values():
            if skip(g) or g.u == u or not any(n["k"] == "asg" and g.nodes[n["x"]]["k"] == "mem" and g.nodes[n["x"]]["n"] == x and M.const(g, n["r"]) == 1 for n in g.nodes.values()):
                continue
            G = Flow2(E, P.view(g), ("flag", ()), (), x)
            G.solve()
            bad = [a for a in G.inb.get(G.f.exit) or () if G.gval(a, "s") and G.gval(a, "n") == 0]
            R.ob("flag", g.loc(), "%s sets %s only with the operation it stands for" % (g.f, short(x)), not bad, func=g.f, detail="set " + x,
                 msg="%s may set %s without starting the operation: it is never started again" % (g.f, x))


def timer_of(P, f, n):
    if n["k"] != "call" or n.get("o") is None:
        return None
    x = f.nodes[P.strip_smart(f, n["o"])]
    if x["k"] == "mem":
        return x["n"]
    if x["k"] == "ref" and x.get("dk") in ("global", "static", "var") or x["k"] == "ref" and x.get("dk") not in ("local", "param"):
        return x.get("n")
    return None


def timers(P, R, M):
    used = {}
    for C in M.activities:
        for u in C:
            for f, i in M.reg[u]:
                n = f.nodes[i]
                if op(n) == "async_wait":
                    t = timer_of(P, f, n)
                    if t:
                        used.setdefault(t, {}).setdefault(C, []).append((f, i))
    for t, cs in sorted(used.items()):
        sites = [x for v in cs.values() for x in v]
        f, i = sites[0]
        one = len(cs) == 1 or all(g.cls and h.cls and g.cls != h.cls and related(P, g.cls, h.cls) for (x, v) in cs.items() for (y, w) in cs.items()
                                  if x != y for g, _ in v for h, _ in w)
        R.ob("timer", f.loc(i), "%s drives one activity" % t, one, func=t, detail="shared",
             msg="%s is used by %d activities: arming one cancels the other" % (t, len(cs)), path=["%s: %s" % (g.loc(j), g.f) for g, j in sites])
        for f, i in sites:
            v = P.view(f)
            ev = {}
            for j, n in v.nodes.items():
                if n["k"] == "call" and timer_of(P, v, n) == t:
                    o = short(detmpl(n.get("f", "")))
                    if o.startswith("expires_") and n["a"]:
                        ev[j] = [("e", "=", 1)]
                    elif o == "async_wait":
                        ev[j] = [("e", "=", 0)]
            C = Sets(P, v, ["e"], lambda w, e: ev.get(e, ()) if isinstance(e, int) else ())
            C.solve()
            for j in ev:
                if short(detmpl(v.nodes[j].get("f", ""))) == "async_wait":
                    s = C.before(j)
                    R.ob("timer", v.loc(j), "%s is set before it is waited for" % t, not s or 0 not in C.values(s, "e"), func=f.f, detail="set " + t,
                         msg="%s waits for %s without setting it: the round starts at once, for ever" % (f.f, t))
            s = C.inb.get(v.exit)
            R.ob("timer", f.loc(i), "%s: a timer that is set is waited for" % f.f, not s or 1 not in C.values(s, "e"), func=f.f, detail="wait " + t,
                 msg="%s may set %s, which cancels the wait in progress, without waiting for it" % (f.f, t))
