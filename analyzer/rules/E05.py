"""Counts of things in flight: what begins a thing counts it once, and the one handler that is bound to its end takes it off
again exactly once, on every path; counts shared by threads change atomically."""
from ista.model import detmpl, short
from ista.once import Once
from ista.throws import is_fake
from ista.flow import Flow
from ista.util import dominators, dominates
from ista.guarded import locks
from ista import throws as _t

ASSUME = _t.ASSUME + ["a callable handed to the event loop or connected to a connection's end is run once (R01, R03, R04, E07)"]
#  counts whose both ends are known; one that loses an end is no longer recognised as a count by its uses
EXPECT = {"IStatCounter::eagerconns_", "IStatCounter::queueLenRecords_", "StatServer::numConnected_", "StatStore::queuedRefreshes_", "HttpServerInfo::current",
          "ReplicaServer::numConnections_", "EagerConnection::interlock_", "istat::stderrDisableCount_"}


def skip(f):
    return is_fake(f) or f.file.startswith(("tool", "perf", "ftest", "/usr")) or "json" in f.file or f.f.startswith("test_")


def bare(f, i):
    while f.nodes[i]["k"] == "cast":
        i = f.nodes[i]["x"]
    return i


def delta(P, f, i):
    """(place, constant added, atomically?) if node i adds a constant to a place"""
    n = f.nodes[i]
    k = n["k"]
    if k == "un" and n["op"] in ("++", "--"):
        return n["x"], 1 if n["op"] == "++" else -1, False
    if k == "asg" and n["op"] in ("+=", "-="):
        c = f.nodes[n["r"]].get("cv")
        return (n["x"], int(c) * (1 if n["op"] == "+=" else -1), False) if c is not None else None
    if k == "asg" and n["op"] == "=":
        r = f.nodes[bare(f, n["r"])]
        if r["k"] == "bin" and r["op"] in ("+", "-"):
            c = f.nodes[r["r"]].get("cv")
            if c is not None and P.path(f, bare(f, r["x"])) == P.path(f, n["x"]):
                return n["x"], int(c) * (1 if r["op"] == "+" else -1), False
        return None
    if k != "call":
        return None
    if n.get("op") in ("++", "--") and n.get("o") is not None:
        return n["o"], 1 if n["op"] == "++" else -1, True
    if n.get("op") in ("+=", "-=") and n.get("o") is not None and n["a"]:
        c = f.nodes[n["a"][0]].get("cv")
        return (n["o"], int(c) * (1 if n["op"] == "+=" else -1), True) if c is not None else None
    s = short(P.callee(n) or "")
    if len(n["a"]) >= 2 and f.nodes[n["a"][1]].get("cv") is not None:
        c = int(f.nodes[n["a"][1]]["cv"])
        m = f.nodes[bare(f, n["a"][0])]
        if m["k"] == "un" and m["op"] == "&":
            if s == "atomic_add" or s.startswith(("__sync_fetch_and_add", "__sync_add_and_fetch", "__atomic_fetch_add", "__atomic_add_fetch")):
                return m["x"], c, True
            if s.startswith(("__sync_fetch_and_sub", "__sync_sub_and_fetch", "__atomic_fetch_sub", "__atomic_sub_fetch")):
                return m["x"], -c, True
    return None


def key(P, f, x):
    p = P.path(f, x)
    k = next((c for c in reversed(p) if isinstance(c, str) and "::" in c), None)
    return k or (p[0][1] if isinstance(p[0], tuple) and p[0][0] == "g" else None)


class Net(Once):
    """change of one count, less the ends bound on the way"""

    def __init__(self, P, g, regs, less=()):
        Once.__init__(self, P)
        self.g, self.regs, self.less = g, regs, less
        self._rel = None

    def event(self, f, i):
        n = f.nodes[i]
        if n["k"] == "fn":
            return -1 if (f.u, i) in self.regs or n.get("_o") in self.regs else None
        if n["k"] in ("un", "asg", "call"):
            d = delta(self.P, f, i)
            if d and key(self.P, f, d[0]) == self.g:
                if self.less and (d[1] > 0 or (n["_o"][0] if n.get("_o") else getattr(f, "u", None)) in self.less):
                    return None
                return d[1]
        return None

    def relevant(self, t, mode):
        if self._rel is None:
            back, work = {}, set()
            for f in self.P.funcs.values():
                if is_fake(f):
                    continue
                for i, n in f.nodes.items():
                    if n["k"] in ("call", "ctor", "new"):
                        for t2 in self.T.sync(f, i):
                            back.setdefault(t2.u, set()).add(f.u)
                    if n["k"] in ("call", "asg", "un", "fn") and self.event(f, i) is not None:
                        work.add(f.u)
            seen = set()
            while work:
                u = work.pop()
                seen.add(u)
                work |= back.get(u, set()) - seen
            self._rel = seen
        return t.u in self._rel

    def follow(self, f, mode, i):
        if self.P.signal_targets(f, f.nodes[i]):
            return []
        return Once.follow(self, f, mode, i)

    def later(self, f, mode, i):
        return []

    def recursive(self, t, mode):
        return frozenset([(None, 0)]), {}

    def contributions(self, f, mode, i, F):
        n = f.nodes[i]
        if n["k"] in ("un", "asg", "call", "fn"):
            e = self.event(f, i)
            if e is not None:
                return [(frozenset([(None, e)]), frozenset([0]))] if e else ()
        if n["k"] in ("un", "asg", "fn"):
            return ()
        return Once.contributions(self, f, mode, i, F)


def all_counts(N, t):
    """changes at normal exits, and at exits by exception"""
    outs, ex = N.summary(t, "n")
    e = set()
    for v in ex.values():
        e |= v
    return set(c for _, c in outs), e


def opened_first(P, v, i):
    """was the connection open when it was closed here, on the way to i?"""
    idom, succ, rpo = dominators(v)
    b = v.elem_of.get(i, (None,))[0]
    for j, n in v.nodes.items():
        if n["k"] != "call" or short(P.callee(n) or "") != "close" or n.get("o") is None or j not in v.elem_of:
            continue
        o = P.path(v, n["o"])
        cb, ck = v.elem_of[j]
        if not (cb == b and ck < v.elem_of[i][1] or cb != b and dominates(idom, cb, b)):
            continue
        for t, blk in v.blocks.items():
            c = blk.get("tc")
            if c is None or len(blk["to"]) != 2:
                continue
            want, x = 0, v.nodes[c]
            while x["k"] == "un" and x["op"] == "!":
                want, x = 1 - want, v.nodes[x["x"]]
            if x["k"] == "bin" and x["op"] == "&&" and want == 0:
                x = v.nodes[x["r"]]
            if x["k"] == "ref" and x.get("d") in v.vars and len(v.vars[x["d"]]["inits"]) == 1:
                x = v.nodes[v.vars[x["d"]]["inits"][0]]
            if x["k"] == "call" and short(P.callee(x) or "") == "opened" and x.get("o") is not None and P.path(v, x["o"]) == o:
                s = blk["to"][want]
                if s is not None and dominates(idom, s, cb) and [p for p in v.preds.get(s, ())] == [t]:
                    return True
    return False


def run(P, R):
    R.rule("balance", "what counts a thing binds its end exactly once, and what ends it takes it off exactly once, on every path", 6)
    R.rule("atomic", "a count that several threads change is changed atomically or under a lock", 6)
    sites = {}
    for f in P.funcs.values():
        if skip(f):
            continue
        for i in f.nodes:
            d = delta(P, f, i) if f.nodes[i]["k"] in ("un", "asg", "call") else None
            if d and d[1] in (1, -1):
                k = key(P, f, d[0])
                if k:
                    sites.setdefault(k, []).append((f, i, d[1], d[2]))
    taken = {}
    for u, l in P.taken.items():
        taken[u] = [(f, i) for f, i in l if not skip(f)]
    L = locks(P)
    names = set(detmpl(q["n"]) for c in P.classes.values() for q in c.get("fields", ())) | set(k for k in sites)
    for g in sorted(set(sites) | (EXPECT & names)):
        ss = sites.get(g, [])
        ups, downs = [s for s in ss if s[2] > 0], [s for s in ss if s[2] < 0]
        if g in EXPECT and g in names and not (ups and downs):
            where = ss[0][0].loc(ss[0][1]) if ss else g
            R.ob("balance", where, "%s goes up and down" % g, False, func=g, detail="one way", msg="%s only goes %s: what it counts is %s" % (short(g), "up" if ups else "down" if downs else "nowhere", "never taken off again" if ups else "never counted"))
            continue
        if not ups or not downs:
            continue
        t = ups[0][0].nodes[delta(P, ups[0][0], ups[0][1])[0]].get("t", "")
        if "*" in t or "iterator" in t:
            continue
        for f, i, c, atomic in ss:
            life = f.is_ctor or f.is_dtor
            static = not g.startswith(f.cls + "::") if f.cls else True
            if life and not static:
                continue
            held = bool(held_locks(P, L, f, i))
            R.ob("atomic", f.loc(i), "%s %s in %s" % (short(g), "up" if c > 0 else "down", f.f), atomic or held, func=f.f, detail=g,
                 msg="%s changes %s without a lock and not atomically; two threads can lose a change" % (f.f, short(g)))
        # ---- a count of objects
        if all(f.is_ctor for f, _, _, _ in ups) and all(f.is_dtor for f, _, _, _ in downs):
            N = Net(P, g, set())
            cls = set(f.cls for f, _, _, _ in ups + downs)
            for f in P.funcs.values():
                if f.cls in cls and (f.is_ctor or f.is_dtor) and not f.implicit and not is_fake(f):
                    want = 1 if f.is_ctor else -1
                    c, e = all_counts(N, f)
                    ok = c == {want} and (f.is_ctor or e <= {want})
                    R.ob("balance", "%s:%s" % (f.file, f.line), "%s %s %s once" % (f.f, "adds to" if want > 0 else "takes off", short(g)), ok, func=f.f, detail=g,
                         msg="%s changes %s by %s, not always by %d" % (f.f, short(g), ", ".join(map(str, sorted(c | (e if f.is_dtor else set())))), want))
            continue
        # ---- a count of things that are begun here and ended there
        upf = set(f.u for f, _, _, _ in ups)
        N0 = Net(P, g, set())
        N1 = Net(P, g, set(), upf)
        heads = [P.funcs[u] for u, l in taken.items() if u in P.funcs and l and not is_fake(P.funcs[u]) and N1.relevant(P.funcs[u], "n")]
        enders = {}
        for h in heads:
            c, e = all_counts(N1, h)
            if c == {-1} and e <= {-1}:
                enders[h.u] = h
        regs = set()
        for u in enders:
            for f, i in taken[u]:
                regs.add((f.u, i))
        views = [v for v in P.roots() if not skip(v) and any(N0.event(v, i) == 1 for i in v.nodes if v.nodes[i]["k"] in ("un", "asg", "call"))]
        chain = not any(n["k"] == "fn" and ((v.u, i) in regs or n.get("_o") in regs) for v in views for i, n in v.nodes.items()) \
            and not all(any(N0.event(v, i) == -1 for i in v.nodes if v.nodes[i]["k"] in ("un", "asg", "call")) for v in views)
        N = N0 if chain else Net(P, g, regs)
        tops = {}
        for u in set(P.funcs):
            f = P.funcs[u]
            if skip(f) or not N.relevant(f, "n"):
                continue
            if taken.get(u) or not [c for c in P.callers.get(u, ()) if not is_fake(c[0])]:
                tops[u] = f
        for u, f in sorted(tops.items()):
            c, e = all_counts(N, f)
            if u in enders:
                R.ob("balance", "%s:%s" % (f.file, f.line), "%s takes one off %s" % (f.f, short(g)), True, func=f.f, detail=g)
                continue
            if c <= {0} and e <= {0}:
                R.ob("balance", "%s:%s" % (f.file, f.line), "%s leaves %s balanced" % (f.f, short(g)), True, func=f.f, detail=g)
                continue
            if all(x <= 0 for x in c | e):
                # ends under a condition: only what was still open is counted off
                bad = None
                for v, i in [(v, i) for (df, di, _, _) in downs for (v, i) in conditional(P, N0, df, di, f, enders)]:
                    if not opened_first(P, v, i):
                        bad = v, i
                ok = bad is None and c != {0}
                R.ob("balance", bad[0].loc(bad[1]) if bad else "%s:%s" % (f.file, f.line), "%s takes off %s what it closes" % (f.f, short(g)), ok, func=f.f, detail=g,
                     msg="%s takes %s off %s, not always exactly one" % (f.f, "/".join(str(-x) for x in sorted(c | e, reverse=True)), short(g)),
                     path=N0.where(f, "n"))
                continue
            if chain and all(x >= 0 for x in c | e):
                ok, msg = begun(P, N0, f, g, upf, set(d[0].u for d in downs))
                R.ob("balance", "%s:%s" % (f.file, f.line), "%s counts in %s what it begins" % (f.f, short(g)), ok, func=f.f, detail=g, msg=msg)
                continue
            R.ob("balance", "%s:%s" % (f.file, f.line), "%s leaves %s balanced" % (f.f, short(g)), False, func=f.f, detail=g,
                 msg="on some path of %s, %s is changed by %s more than ends are bound to take off" % (f.f, short(g), "/".join("%+d" % x for x in sorted((c | e) - {0}))), path=N.where(f, "n"))


def held_locks(P, L, f, i):
    """locks held at node i of f in every context"""
    r = None
    for v, x in P.contexts(f, i):
        h = set(L.held_at(v).get(x, ()))
        r = h if r is None else r & h
    return r or set()


def conditional(P, N0, df, di, top, enders):
    """contexts of a decrement in views that are run from `top` other than through a handler that always takes one off"""
    for v, i in P.contexts(df, di):
        if v.u in enders:
            continue
        yield v, i


def begun(P, N0, f, g, upf, downf):
    """every path that counts a thing starts what ends with its count taken off, and no other path does"""
    D = P.__dict__.setdefault("_e05reach", {})
    if g not in D:
        back = {}
        for h in P.funcs.values():
            if is_fake(h) or h.u in upf:
                continue
            for i, n in h.nodes.items():
                if n["k"] in ("call", "ctor", "new", "fn"):
                    ts = list(P.targets(h, n)) + (list(P.signal_targets(h, n)) if n["k"] == "call" else [])
                    for t in ts:
                        t = t[0] if isinstance(t, tuple) else t
                        back.setdefault(t.u, set()).add(h.u)
        seen, work = set(), set(downf)
        while work:
            u = work.pop()
            seen.add(u)
            work |= back.get(u, set()) - seen
        D[g] = seen
    R = D[g]

    def ev(v, e):
        if not isinstance(e, int):
            return ()
        n = v.nodes[e]
        r = []
        if n["k"] in ("un", "asg", "call"):
            c = N0.event(v, e)
            if c:
                r.append(("n", c))
        if n["k"] in ("call", "fn"):
            ts = list(P.targets(v, n)) + (list(P.signal_targets(v, n)) if n["k"] == "call" else [])
            if any((t[0] if isinstance(t, tuple) else t).u in R for t in ts):
                r.append(("go", "=", 1))
        return r
    F = Pairs(P, P.view(f), ev)
    F.run()
    for n, go in F.inb.get(F.f.exit) or ():
        if n not in (0, 1) or (n == 1) != go:
            return False, "a path of %s counts %s in %s but %s" % (f.f, n, short(g), "begins it" if go else "begins nothing that takes it off again")
    return True, ""


class Pairs(Flow):
    """(change of the count, has something been begun) on every path"""
    exceptions = False

    def __init__(self, P, v, ev):
        super().__init__(P, v)
        self.ev = ev

    def init(self):
        return frozenset([(0, False)])

    def join(self, a, b):
        return a | b

    def elem(self, s, e, b):
        for k in self.ev(self.f, e):
            s = frozenset((max(-3, min(3, n + k[1])), go) if k[0] == "n" else (n, True) for n, go in s)
        return s
