"""Interprocedural must/may lockset analysis."""
from collections import defaultdict
from .model import GUARD_RE, detmpl, short
from .flow import Flow

MUTEX = ("boost::recursive_mutex", "boost::mutex", "std::mutex", "std::recursive_mutex", "boost::shared_mutex",
         "boost::recursive_timed_mutex", "boost::timed_mutex")


def is_mutex_type(t):
    t = detmpl(t).replace("const ", "").rstrip("&* ").strip()
    return t in MUTEX


class Locks:
    def __init__(self, P, private=None):
        self.P = P
        self.private = private        # Private instance: calls on unshared objects do not weaken a method's entry lockset
        self.flows = {}
        self._lockname = {}
        self.compute()

    # ---- naming
    def lock_name(self, f, i):
        """Identify the mutex denoted by expression i: qualified field / global name."""
        P = self.P
        p = P.path(f, i)
        pr = P.pair_projection(f, p)
        if pr:
            return self.lock_name(*pr)
        for c in reversed(p):
            if isinstance(c, str) and c not in ("[]", "this"):
                return c
        r = p[0]
        if isinstance(r, tuple):
            if r[0] == "g":
                return r[1]
            if r[0] == "e":
                n = f.nodes[r[1]]
                if n["k"] == "call":
                    # accessor returning a reference to a mutex: name by what it returns
                    for t in P.targets(f, n):
                        for m in t.nodes.values():
                            if m["k"] == "ret" and m.get("x") is not None:
                                return self.lock_name(t, m["x"])
                    return "call:" + P.callee(n)
            if r[0] == "v":
                v = f.vars.get(r[1])
                if v:
                    if v["param"]:
                        # parameter: bound by the caller; resolve through call sites if unanimous
                        names = set()
                        idx = [q["d"] for q in f.params].index(r[1])
                        for (cf, ci) in P.callers[f.u]:
                            a = cf.nodes[ci].get("a", [])
                            if idx < len(a):
                                names.add(self.lock_name(cf, a[idx]))
                        if len(names) == 1:
                            return names.pop()
                        return "param:%s:%s" % (f.f, v["n"])
                    if len(v["inits"]) == 1:
                        return self.lock_name(f, v["inits"][0])
                    return "local:%s:%s" % (f.f, v["n"])
        return "?"

    def guard_events(self, f):
        """node/elem based lock events for a function: dict elem-> list of ('+'|'-', lockname, guardvar)"""
        P = self.P
        ev = defaultdict(list)
        gv = {}
        ctor_node = {}
        for i, n in f.nodes.items():
            if n["k"] == "decl":
                for q in n["ds"]:
                    if GUARD_RE.match(q["t"]) and q.get("i") is not None:
                        c = f.nodes[q["i"]]
                        if c["k"] == "ctor" and c.get("a"):
                            deferred = any("defer_lock" in f.nodes[x].get("t", "") + f.nodes[x].get("n", "") for x in c["a"][1:])
                            nm = self.lock_name(f, c["a"][0])
                            gv[q["d"]] = (nm, i)
                            if not deferred:
                                ev[i].append(("+", nm, q["d"]))
        for i, n in f.nodes.items():
            if n["k"] == "call" and n.get("o") is not None:
                m = short(P.callee(n))
                if m in ("lock", "unlock", "try_lock"):
                    c = detmpl(n.get("c", ""))
                    o = f.nodes[P.strip_smart(f, n["o"])]
                    if o["k"] == "ref" and o.get("d") in gv and GUARD_RE.match(f.vars[o["d"]]["t"]):
                        nm = gv[o["d"]][0]
                        ev[i].append(("+" if m == "lock" else "-", nm, o["d"]))
                    elif c in MUTEX:
                        nm = self.lock_name(f, n["o"])
                        if m == "lock":
                            ev[i].append(("+", nm, None))
                        elif m == "unlock":
                            ev[i].append(("-", nm, None))
        return ev, gv

    def ev(self, f):
        """(events, guard variables) of a function or an inlined view of one"""
        r = getattr(f, "_lev", None)
        if r is None or r[0] is not self:
            r = f._lev = (self, self.guard_events(f))
        return r[1]

    def compute(self):
        P = self.P
        self.events = {}
        self.gvars = {}
        for u, f in P.funcs.items():
            self.events[u], self.gvars[u] = self.ev(f)
        # entry locksets (must): None = top (not yet known)
        ROOT = frozenset()
        self.entry = {}
        self.root_reason = {}
        for u, f in P.funcs.items():
            if not P.callers[u] and not self._sig_callers(f):
                self.entry[u] = ROOT
                self.root_reason[u] = "no direct caller"
            elif self._async_ref(f):
                self.entry[u] = ROOT
                self.root_reason[u] = "address taken"
            else:
                self.entry[u] = None
        work = [u for u in P.funcs if self.entry[u] is not None]
        self.site = {}
        changed = True
        rounds = 0
        while changed:
            changed = False
            rounds += 1
            for u, f in P.funcs.items():
                if self.entry[u] is None:
                    continue
                fl = self.flow(f, self.entry[u])
                for (i, t, held) in fl.callsites:
                    e = self.entry[t.u]
                    if t.u in self.root_reason:
                        continue
                    if self.private is not None and (self.private.receiver(f, i) or t.cls and "INIT:" + t.cls in held):
                        continue        # construction and destruction are not shared yet / any more
                    # class-level pseudo lock for construction/destruction of the same object
                    ne = held if e is None else e & held
                    if ne != e:
                        self.entry[t.u] = ne
                        changed = True
            if rounds > 50:
                raise RuntimeError("lockset fixpoint")
        self.unentered = set(u for u in P.funcs if self.entry[u] is None)
        for u in P.funcs:
            if self.entry[u] is None:
                self.entry[u] = ROOT

    def _sig_callers(self, f):
        return False

    def _async_ref(self, f):
        """f is referenced as a function value somewhere (bind, callback table)."""
        return bool(self.P.taken[f.u])

    def flow(self, f, entry):
        key = (f.u, entry, id(f) if hasattr(f, "base") else 0)
        r = self.flows.get(key)
        if r is None:
            r = self.flows[key] = LockFlow(self, f, entry).solve()
        return r

    def result(self, f):
        return self.flow(f, self.entry[f.u])

    def held_at(self, f):
        """elem -> set of lock names held just before it executes."""
        return self.result(f).held


class LockFlow(Flow):
    """state: frozenset of (lock, guard-id); guard-id: decl id, or 'e' entry, or ('x',) manual."""
    exceptions = True

    def __init__(self, L, f, entry):
        super().__init__(L.P, f)
        self.L = L
        self.entry_set = entry
        self.ev, self.gv = L.ev(f)

    def init(self):
        s = set((l, "e") for l in self.entry_set)
        if self.f.is_ctor or self.f.is_dtor:
            s.add(("INIT:" + (self.f.cls or ""), "e"))
        return frozenset(s)

    def join(self, a, b):
        return a & b

    def elem(self, s, e, b):
        if isinstance(e, int):
            for (op, nm, g) in self.ev.get(e, ()):
                if op == "+":
                    s = s | {(nm, g if g is not None else "x")}
                else:
                    if g is not None:
                        s = frozenset(x for x in s if x != (nm, g))
                    else:
                        s = frozenset(x for x in s if x != (nm, "x"))
        elif e.get("e") == "dtor" and e["d"] in self.gv:
            s = frozenset(x for x in s if x[1] != e["d"])
        return s

    def excs(self, s, e):
        if isinstance(e, int):
            k = self.f.nodes[e]["k"]
            if k in ("call", "ctor", "new", "throw") and self.f.nodes[e].get("y") is not None:
                return (("*", s),)
        return ()

    def at_handler(self, s, t):
        r = []
        for (l, g) in s:
            if isinstance(g, int) and not isinstance(g, bool) and g in self.gv:
                y = self.f.nodes[self.gv[g][1]].get("y")
                from .flow import try_chain
                if t in try_chain(self.f, y):
                    continue
            r.append((l, g))
        return frozenset(r)

    def solve(self):
        self.run()
        self.held = {}
        self.callsites = []
        P = self.P

        def cb(s, e, b):
            names = frozenset(l for l, g in s)
            if isinstance(e, int):
                n = self.f.nodes[e]
                if e in self.held:
                    self.held[e] = self.held[e] & names
                else:
                    self.held[e] = names
                if n["k"] in ("call", "ctor"):
                    ts = P.targets(self.f, n)
                    for t in ts:
                        self.callsites.append((e, t, self.xfer(n, t, names)))
                    for t in P.signal_targets(self.f, n):
                        pass
        self.visit(cb)
        return self

    def xfer(self, n, t, names):
        # construction/destruction pseudo-locks are only inherited by calls on this
        r = set(x for x in names if not x.startswith("INIT:"))
        init = [x for x in names if x.startswith("INIT:")]
        if init and n["k"] == "call" and n.get("o") is not None:
            o = self.P.path(self.f, n["o"])
            if o == ("this",):
                r.update(init)
        return frozenset(r)
