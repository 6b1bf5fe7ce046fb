"""Locks are taken in one order, also through callbacks, signal slots and destructors; nothing sleeps or waits under one."""
import re
from ista.model import detmpl, short
from ista.locks import LockFlow, MUTEX
from ista.guarded import locks
from ista.facts import facts, Facts
from ista.throws import throws, is_fake
from rules.R05 import functor
from ista import throws as _t

ASSUME = ["locks are named by the field or global that holds them: two locks of one name are told apart only by the object they are reached through",
          "a slot of a signal, a bound callback and a completion run where they are invoked; work handed to the event loop runs later, without the poster's locks",
          "writing to files and to the log under a lock is not waiting for the network"]
WAIT = {"sleep", "usleep", "nanosleep", "sleep_for", "sleep_until", "system", "popen", "waitpid", "getaddrinfo", "gethostbyname", "gethostbyname_r",
        "select", "poll", "ppoll", "epoll_wait", "pause", "sigwait", "getnameinfo", "gethostbyaddr"}
SOCK = {"connect", "resolve", "read_some", "write_some", "receive", "send", "receive_from", "send_to", "accept", "wait", "run", "run_one", "poll", "poll_one", "read", "write", "read_until"}
CSOCK = {"connect", "recv", "recvfrom", "recvmsg", "send", "sendto", "sendmsg", "accept", "accept4"}


def skip(f):
    return is_fake(f) or f.file.startswith(("tool", "perf", "ftest"))


def waits(P, f, n):
    """what the call waits for, or None"""
    if n["k"] != "call" or not n.get("ext"):
        return None
    q = detmpl(n.get("f") or "")
    s = short(q)
    if q.startswith(("boost::asio::", "std::experimental::net")):
        if s in SOCK or q.endswith(("::read", "::write", "::read_until", "::connect")):
            return q
        return None
    if s in ("sleep", "sleep_for", "sleep_until", "join", "timed_join", "join_all", "wait", "timed_wait", "get", "wait_for") and q.startswith(("boost::this_thread", "boost::thread", "std::this_thread", "std::thread",
            "boost::condition", "std::condition", "std::future", "boost::future", "boost::unique_future", "std::shared_future", "boost::thread_group", "boost::barrier", "std::__future_base", "std::__basic_future")):
        return q
    if "::" not in q.lstrip(":") and (s in WAIT or s in CSOCK):
        return q
    return None


class May(LockFlow):
    """which locks may be held"""

    def join(self, a, b):
        return a | b


class Order:
    def __init__(self, P):
        self.P, self.T, self.L = P, throws(P), locks(P)
        self.acq = {u: {} for u in P.funcs}      # u -> {(lock, instance): where}
        self.blk = {u: {} for u in P.funcs}      # u -> {what: where}
        self.fs = [f for f in P.funcs.values() if not skip(f)]
        self.dt, self.cache, self._ended = {}, {}, {}
        for f in self.fs:
            if f.is_dtor and f.cls:
                self.dt.setdefault(f.cls, []).append(f)
        for f in self.fs:
            for i, n in f.nodes.items():
                if f.cls and n["k"] == "ctor" and detmpl(n.get("c", "")).endswith("shared_ptr") and len(n["a"]) >= 2:
                    self.dt.setdefault(f.cls, []).extend(self.deleter(f, n["a"][1]))
        self.here = {f.u: self.own(f) for f in self.fs}
        self.callees = {f.u: self.calls(f) for f in self.fs}
        ch = True
        while ch:
            ch = False
            for f in self.fs:
                for (i, t, m) in self.callees[f.u]:
                    for (k, inst), w in list(self.acq[t.u].items()):
                        key = (k, self.subst(inst, m))
                        if key not in self.acq[f.u]:
                            self.acq[f.u][key] = self.chain(f, i, t, w)
                            ch = True
                    for k, w in list(self.blk[t.u].items()):
                        if k not in self.blk[f.u]:
                            self.blk[f.u][k] = self.chain(f, i, t, w)
                            ch = True

    def deleter(self, f, i):
        x = f.nodes[i]
        while x["k"] in ("ctor", "cast"):
            ts = functor(self.P, f, x)
            if ts:
                return [t for t in ts if not skip(t)]
            nx = x.get("x") if x["k"] == "cast" else (x["a"][0] if x["a"] else None)
            if nx is None:
                break
            x = f.nodes[nx]
        return []

    def ended(self, t):
        """what runs when an object of the type is destroyed: its destructor, its pointers' deleters, its members'"""
        c = re.sub(r"[ *&]|class |struct |const ", "", detmpl(t or ""))
        if c not in self._ended:
            self._ended[c] = []
            r = list(self.dt.get(c, ()))
            for x in self.P.classes.values():
                if detmpl(x.get("n", "")) == c:
                    for q in x["fields"]:
                        if "*" not in q["t"] and "&" not in q["t"]:
                            r += self.ended(q["t"])
            self._ended[c] = r
        return self._ended[c]

    def chain(self, f, i, t, w):
        s = "%s (%s) > %s" % (self.loc(f, i), detmpl(t.f), w)
        return s if s.count(">") < 8 else w

    def loc(self, f, e):
        return f.loc(e) if isinstance(e, int) and e in f.nodes else "%s:%s" % (f.file, f.line)

    def inst(self, f, p):
        """the object a lock is reached through, in terms of the function's own object and parameters"""
        if not p:
            return "?"
        if any(c == "[]" for c in p):
            return "?"
        r = p[0]
        if r == "this" or isinstance(r, tuple) and r[0] == "g":
            return tuple(p)
        if isinstance(r, tuple) and r[0] == "v":
            for k, q in enumerate(f.params):
                if q["d"] == r[1] and not f.vars[r[1]]["assigned"]:
                    return (("p", k),) + tuple(p[1:])
            return (("l", f.u, r[1]),) + tuple(p[1:])
        return "?"

    def subst(self, inst, m):
        if inst == "?" or inst is None:
            return "?"
        r = inst[0]
        if isinstance(r, tuple) and r[0] == "g":
            return inst
        k = "this" if r == "this" else r[1] if r[0] == "p" else None
        b = m.get(k) if k is not None else None
        return "?" if not b or b == "?" else b + inst[1:]

    def own(self, f):
        ev, gv = self.L.ev(f)
        r = {}
        for i, es in ev.items():
            for (o, nm, g) in es:
                if o == "+":
                    n = f.nodes[i]
                    x = None
                    if g is not None:
                        c = [q for j, nn in f.nodes.items() if nn["k"] == "decl" for q in nn["ds"] if q["d"] == g]
                        if c and c[0].get("i") is not None:
                            x = f.nodes[c[0]["i"]]["a"][0]
                    elif n["k"] == "call":
                        x = n["o"]
                    inst = self.inst(f, self.P.path(f, x)) if x is not None else "?"
                    r.setdefault(i, []).append((nm, inst, g))
                    self.acq[f.u].setdefault((nm, inst), "%s takes %s" % (self.loc(f, i), nm))
        for b in f.blocks.values():
            for i in b["s"]:
                if isinstance(i, int):
                    w = waits(self.P, f, f.nodes[i])
                    if w:
                        self.blk[f.u].setdefault(w, "%s calls %s" % (f.loc(i), w))
        return r

    def calls(self, f):
        P = self.P
        r = []
        for b in f.blocks.values():
            for e in b["s"]:
                if isinstance(e, int):
                    n = f.nodes[e]
                    if n["k"] == "delete":
                        for t in self.ended(f.nodes[n["x"]].get("t", "")):
                            r.append((e, t, {"this": self.inst(f, P.path(f, n["x"]))}))
                        continue
                    if n["k"] not in ("call", "ctor"):
                        continue
                    for t in self.T.sync(f, e):
                        if skip(t):
                            continue
                        m = {}
                        if n["k"] == "call" and t in P.targets(f, n):
                            if n.get("o") is not None:
                                m["this"] = self.inst(f, P.path(f, n["o"]))
                            for k, a in enumerate(n["a"]):
                                m[k] = self.inst(f, P.path(f, a))
                        elif n["k"] == "ctor":
                            for k, a in enumerate(n["a"]):
                                m[k] = self.inst(f, P.path(f, a))
                        r.append((e, t, m))
                elif e.get("e") in ("dtor", "tdtor"):
                    for t in self.ended(e.get("tc")):
                        r.append((id(e), t, {"this": (("l", f.u, e["d"]),)} if "d" in e else {}))
        return r

    def edges(self):
        """(held, taken) -> [(function, where, what, same object?)] and waits under a lock"""
        E, W, S = {}, [], []
        for f in self.fs:
            self.nsites = getattr(self, "nsites", 0)
            byc = {}
            for (i, t, m) in self.callees[f.u]:
                byc.setdefault(i, []).append((t, m))
            if not self.here[f.u]:
                continue
            fl = May(self.L, f, frozenset())
            fl.run()
            own = {}
            for i, es in self.here[f.u].items():
                for (nm, inst, g) in es:
                    own[(nm, g if g is not None else "x")] = inst

            def cb(s, e, b):
                held = {}
                for (l, g) in s:
                    if not l.startswith("INIT:"):
                        held.setdefault(l, set()).add(own.get((l, g), "?"))
                if not held:
                    return
                k = e if isinstance(e, int) else id(e)
                got = []
                if isinstance(e, int):
                    for (nm, inst, g) in self.here[f.u].get(e, ()):
                        got.append((nm, inst, "%s takes %s" % (f.loc(e), nm)))
                    w = waits(self.P, f, f.nodes[e])
                    if w:
                        W.append((f, e, sorted(held), w, f.loc(e)))
                for (t, m) in byc.get(k, ()):
                    for (nm, inst), why in self.acq[t.u].items():
                        got.append((nm, self.subst(inst, m), self.chain(f, e, t, why)))
                    for w, why in self.blk[t.u].items():
                        W.append((f, e, sorted(held), w, self.chain(f, e, t, why)))
                for (nm, inst, why) in got:
                    for h, hi in held.items():
                        if h == nm and inst != "?" and hi == {inst}:
                            S.append((f, e, nm, why))
                            continue
                        E.setdefault((h, nm), []).append((f, e, why))
            fl.visit(cb)
            self.nsites += len(self.here[f.u])
        return E, W, S


    def feasible(self, f, e, nm):
        """is a path from element e that takes nm consistent with what is known about the objects on the way?"""
        if any(k[0] == nm for k in self.here[f.u].get(e, ())):
            return True
        return self.via(f, e, nm, facts(self.P, f), frozenset([f.u]))

    def via(self, f, e, nm, F, busy):
        if isinstance(e, int) and F.before(e) is None:
            return False
        for (i, t, m) in self.callees[f.u]:
            if i != e and i != id(e) or not any(k[0] == nm for k in self.acq[t.u]):
                continue
            if t.u in busy or len(busy) > 10:
                return True
            known = self.carried(f, e, F, m)
            key = (t.u, known)
            if key not in self.cache:
                self.cache[key] = facts(self.P, t) if not known else Facts(self.P, t, assume=sorted(known, key=repr)).solve()
            G = self.cache[key]
            for j in self.here[t.u]:
                if any(k[0] == nm for k in self.here[t.u][j]) and G.before(j) is not None:
                    return True
            for j in set(c[0] for c in self.callees[t.u]):
                x = next((x for b in t.blocks.values() for x in b["s"] if x == j or id(x) == j), None)
                if x is not None and self.via(t, x, nm, G, busy | {t.u}):
                    return True
        return False

    def carried(self, f, e, F, m):
        """what is known about the members of the object itself, for a method called on it"""
        if not isinstance(e, int) or m.get("this") != ("this",):
            return frozenset()
        alts = F.before(e)
        if not alts:
            return frozenset()
        return frozenset(a for a in frozenset.intersection(*alts) if all(self.own_term(x) for x in a[1:]))

    def own_term(self, x):
        if not isinstance(x, tuple) or not x:
            return False
        return x[0] == "c" or x == ("this",) or x[0] == "f" and self.own_term(x[1])


def sccs(E):
    succ = {}
    for (a, b) in E:
        succ.setdefault(a, set()).add(b)

    def reach(a):
        seen, st = set(), [a]
        while st:
            for y in succ.get(st.pop(), ()):
                if y not in seen:
                    seen.add(y)
                    st.append(y)
        return seen
    return {a: reach(a) for a in set(x for e in E for x in e)}


def run(P, R):
    R.rule("order", "the lock that is taken here while another is held is never held, on any other path, while that other one is taken (no cycle in the lock order; one lock of two objects is never taken one inside the other)", need=3)
    R.rule("again", "a lock that is taken again by the thread that holds it is one that allows it (recursive mutex of the same object)", need=1)
    R.rule("wait", "nothing sleeps, waits for another thread or for the network while a lock is held", need=20)
    O = Order(P)
    E, W, S = O.edges()
    rc = sccs(E)
    while True:
        drop = [(k, x) for k, v in E.items() if k[0] == k[1] or k[0] in rc.get(k[1], ()) for x in v if not O.feasible(x[0], x[1], k[1])]
        for k, x in drop:
            E[k].remove(x)
        E = {k: v for k, v in E.items() if v}
        if not drop:
            break
        rc = sccs(E)
    for (h, nm), sites in sorted(E.items()):
        bad = h in rc.get(nm, ()) or h == nm
        seen = set()
        for (f, e, why) in sites:
            if f.u in seen:
                continue
            seen.add(f.u)
            path = ""
            if bad and h != nm:
                back = [(k, v) for k, v in E.items() if k[0] == nm]
                path = "; ".join("%s while holding %s: %s" % (k[1], k[0], v[0][2]) for k, v in back if k[1] == h or h in rc.get(k[1], ()))
            R.ob("order", O.loc(f, e), "%s taken while %s is held: %s" % (nm, h, why), not bad, func=f.f, detail="%s -> %s" % (h, nm),
                 msg="%s is taken while %s is held (%s)%s" % (nm, h, why, "; the other order: " + path if path else ""))
    for (f, e, nm, why) in S:
        t = next((x.get("t", "") for x in P.globals.values() if x.get("n") == nm), "")
        for c in P.classes.values():
            for q in c["fields"]:
                if detmpl(q["n"]) == nm:
                    t = q["t"]
        R.ob("again", O.loc(f, e), "%s taken again: %s" % (nm, why), "recursive" in t, func=f.f, detail=nm, msg="%s (%s) is taken by the thread that already holds it: %s" % (nm, t, why))
    bad = {}
    for (f, e, held, w, why) in W:
        bad.setdefault(f.u, []).append((f, e, held, w, why))
    for f in O.fs:
        if not O.here[f.u]:
            continue
        b = bad.get(f.u)
        if not b:
            R.ob("wait", "%s:%s" % (f.file, f.line), "%d sections, none waits" % len(O.here[f.u]), True, func=f.f)
        for (f, e, held, w, why) in b or ():
            R.ob("wait", O.loc(f, e), "%s while %s is held" % (w, ", ".join(held)), False, func=f.f, detail=w, msg="%s while %s is held: %s" % (w, ", ".join(held), why))
    R.note("functions analysed: %d; functions that take a lock: %d; lock order pairs: %s" % (len(O.fs), sum(1 for u in O.here if O.here[u]), ", ".join("%s > %s" % k for k in sorted(E))))
