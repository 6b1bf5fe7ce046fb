"""HTTP: every accepted request is answered exactly once."""
import re
from ista.model import detmpl, short
from ista.facts import atom, entails, classes_of
from ista.util import Counts, loops
from ista.once import is_async
from ista.events import Events
from ista.tokens import value
from ista.throws import is_fake
from ista import throws as _t

ASSUME = _t.ASSUME + ["a callable handed to the event loop is run once", "a callback handed to an operation is called once (R03)",
                      "a completion error of an asynchronous read or write still runs its handler"]
CNT = {0: "not at all", 1: "once", 2: "twice or more", -1: "one time too few", -2: "several times too few"}


def tell(cs):
    return " or ".join(CNT.get(c, str(c)) for c in sorted(cs)) or "(no path ends)"


def skip(f):
    return is_fake(f) or f.file.startswith(("tool", "perf", "ftest"))


def decrement(n):
    """atomic decrement by one: the node's value is the new count"""
    if n["k"] != "call":
        return None
    s = short(detmpl(n.get("f", "")))
    return s in ("atomic_add", "__sync_add_and_fetch", "__sync_sub_and_fetch") and len(n["a"]) >= 2


def field_of(P, f, i):
    """field name of this that expression i (a pointer to it, or it) denotes"""
    n = f.nodes[P.strip_smart(f, i)]
    if n["k"] == "mem" and n.get("b") is not None and f.nodes[P.strip_smart(f, n["b"])]["k"] == "this":
        return n["n"]
    return None


class Replies(Events):
    """replies to the request a path deals with"""
    follow_signals = False

    def __init__(self, P):
        Events.__init__(self, P)
        self.fan = {}
        self.fanned = []        # (function, post node, worker function, field)
        self._fields = None

    def event(self, f, i, ctx):
        n = f.nodes[i]
        if n["k"] == "call" and n.get("o") is not None:
            q = detmpl(n.get("f", ""))
            if q in ("IHttpRequest::reply", "HttpRequest::reply"):
                return 1
            if short(q) == "readBody" and q.split("::")[0] in ("IHttpRequest", "HttpRequest"):
                return 1
            return None
        if n["k"] in ("asg", "bin") and n["k"] == "asg" and n.get("op", "=") == "=":
            g = field_of(self.P, f, n["x"])
            if g and g in self.pending_fields():
                return 1
        return None

    def pending_fields(self):
        """fields counting the parts of an answer still to come: field -> [function that takes one off]"""
        if self._fields is None:
            r = {}
            for f in self.P.funcs.values():
                if skip(f) or not f.cls:
                    continue
                for i, n in f.nodes.items():
                    if decrement(n):
                        g = field_of(self.P, f, n["a"][0])
                        # part of one answer: the function also answers, and the value is used
                        if g and f.parents.get(i) and (self.P.taken[f.u]):
                            r.setdefault(g, []).append((f, i))
            ok = {}
            for g, v in r.items():
                if all(any(n["k"] == "call" and self.answer_call(f, j) for j, n in f.nodes.items()) for f, i in v):
                    ok[g] = v
            self._fields = ok
        return self._fields

    def answer_call(self, f, j):
        q = detmpl(f.nodes[j].get("f", ""))
        return q.startswith("RequestInFlight::") or q in ("IHttpRequest::reply",)

    def assume(self, f, mode):
        # what a first answer meets: the flags of the request that its constructor clears
        r = []
        for c in self.P.classes:
            if c == "RequestInFlight" and f.cls == c:
                for x in self.P.classes[c]["fields"]:
                    if x.get("t") == "bool":
                        r.append(atom("==", ("f", ("this",), x["n"] if "::" in x["n"] else c + "::" + x["n"]), ("c", 0)))
        return r

    def later(self, f, mode, i):
        r = Events.later(self, f, mode, i)
        out = []
        for t, m in r:
            w = [(g, v) for g, v in self.pending_fields().items() if any(x is t for x, _ in v)]
            if w:
                if (f, i, t, w[0][0]) not in self.fanned:
                    self.fanned.append((f, i, t, w[0][0]))
                continue        # counted where the number of parts is set
            out.append((t, m))
        return out


class Steps(Events):
    """what keeps a request of the server going: a read or write started, a signal raised"""
    follow_signals = False

    def event(self, f, i, ctx):
        n = f.nodes[i]
        if n["k"] != "call":
            return None
        if is_async(n) and short(detmpl(n["f"])).startswith(("async_read", "async_write", "async_send", "async_receive")):
            return 1
        s = self.P.emissions(f, n)
        if s:
            return 1 if short(s) in ("onHeader_", "onBody_", "onError_") else 0
        return None


class Posts(Events):
    """a request's work posted to the event loop"""
    follow_signals = False

    def event(self, f, i, ctx):
        n = f.nodes[i]
        if is_async(n):
            for a in n["a"]:
                c = self.P.closure(f, a)
                if c and any(t.cls == "RequestInFlight" for t in self.P.targets(f, f.nodes[c[0]])):
                    return 1
            return None
        return None


def signal_of_connect(P, f, n):
    if n["k"] != "call" or short(P.callee(n)) != "connect" or n.get("o") is None:
        return None
    x = f.nodes[P.strip_smart(f, n["o"])]
    return short(x["n"]) if x["k"] == "mem" else None


def run(P, R):
    E = Replies(P)
    m = ("reply", ())
    R.rule("answer", "a function that is given a request to serve answers it, or hands it on to one function that does, exactly once on every path", 5)
    R.rule("throws", "a handler of a request that ends with an exception has not answered", 5)
    R.rule("body", "reading a request's body is started as often as a handler for it is connected", 1)
    R.rule("parts", "an answer made of several parts is given by the part that finishes last", 1)
    R.rule("server", "each step of a connection leads to exactly one next step: a read, a write or an event", 5)
    R.rule("serve", "each event of a request starts serving it exactly once", 2)
    R.rule("slots", "a request's handlers are dropped before, not after, the event that may connect new ones", 1)
    ents = []
    for t in P.funcs.values():
        if t.cls == "RequestInFlight" and not skip(t) and (P.taken[t.u]):
            ents.append(t)
    for t in ents:
        outs, ex = E.summary(t, m)
        cs = set(k for _, k in outs)
        R.ob("answer", t.loc(), "%s answers its request once" % t.f, cs <= {1}, func=t.f, detail="answer",
             msg="%s may answer its request %s" % (t.f, tell(cs)), path=trace(E, t, m))
        es = sorted(x for x, v in ex.items() if set(v) - {0})
        R.ob("throws", t.loc(), "%s: an exception leaves it only before it answered" % t.f, not es, func=t.f, detail="throws",
             msg="%s may let %s out after it answered: the request would be answered again" % (t.f, ", ".join(es)), path=trace(E, t, m))
    # workers: steps that are run later
    done = set(t.u for t in ents)
    for (u, mm), F in sorted(E.memo.items(), key=lambda x: x[1].f.f):
        t = F.f
        if u in done or skip(t) or not (P.taken[u] or short(t.f) == "on_complete") or t.cls is None:
            continue
        done.add(u)
        if any(t is x for v in E.pending_fields().values() for x, _ in v):
            continue
        cs = set(k for _, k in F.result[0])
        if cs == {0}:
            continue
        R.ob("answer", t.loc(), "%s answers the request it works for once" % t.f, cs <= {1}, func=t.f, detail="answer",
             msg="%s may answer its request %s" % (t.f, tell(cs)), path=trace(E, t, mm))
    # bodies
    for f in P.funcs.values():
        if skip(f):
            continue
        ev = {}
        for i, n in f.nodes.items():
            if n["k"] != "call":
                continue
            if signal_of_connect(P, f, n) == "onBody_":
                ev[i] = [("c", 1)]
            elif short(P.callee(n)) == "readBody" and n.get("o") is not None:
                ev[i] = [("c", -1)]
        if not ev:
            continue
        C = Counts(P, f, ["c"], lambda v, e: ev.get(e, ()) if isinstance(e, int) else ())
        C.solve()
        vs = C.values(C.inb.get(f.exit), "c")
        R.ob("body", f.loc(), "%s reads a body for each handler it connects" % f.f, vs in ([], [0]), func=f.f, detail="body",
             msg="%s connects a handler for the body without reading the body, or reads it without a handler, or twice" % f.f,
             path=["%s: %s" % (f.loc(i), P.render(f, i)[:100]) for i in ev])
    parts(P, R, E)
    server(P, R)


def parts(P, R, E):
    m = ("reply", ())
    for g, v in E.pending_fields().items():
        for t, dec in v:
            F = E.flow(t, m)
            r = ("e", dec) if F.term(dec)[0] != "e" else F.term(dec)
            s = F.inb.get(t.exit) or ()
            bad = []
            for a in s:
                n = F.gval(a, "n")
                z = entails(a, "==", F.term(dec), ("c", 0))
                nz = entails(a, "!=", F.term(dec), ("c", 0))
                if n == 1 and not z or n == 0 and not nz or n not in (0, 1):
                    bad.append("answered %s when %s" % (CNT[n], "it is known to be the last part" if z else "other parts are still to come" if nz else "it is not known whether it is the last part"))
            args = t.nodes[dec]["a"]
            dv = t.nodes[args[1]].get("cv")
            s2 = short(detmpl(t.nodes[dec]["f"]))
            one = dv == (1 if s2 == "__sync_sub_and_fetch" else -1)
            if s2 == "atomic_add":
                body = [x for x in P.targets(t, t.nodes[dec])]
                one = one and all(any(y["k"] == "ret" and y.get("x") is not None and "__sync_add_and_fetch" in P.render(b, y["x"]) for y in b.nodes.values()) for b in body)
            R.ob("parts", t.loc(dec), "%s: the part that takes the count to zero answers, the others do not" % t.f, not bad and one and bool(s), func=t.f, detail="last part",
                 msg="%s: %s" % (t.f, "; ".join(sorted(set(bad))) or "the count of parts is not taken down by one"), path=trace(E, t, m))
            lo = [b for h, body, l in loops(t) for b in body]
            R.ob("parts", t.loc(dec), "%s takes one off on every path" % t.f, t.elem_of.get(dec, (None,))[0] not in lo and always(P, t, dec), func=t.f, detail="one off",
                 msg="%s does not take exactly one off the count of parts on every path: the answer is never completed" % t.f)
            ex = E.T.esc[t.u]
            R.ob("parts", t.loc(), "%s lets no exception out" % t.f, not ex, func=t.f, detail="part throws",
                 msg="%s may let %s out: its part is never counted and the request never answered" % (t.f, ", ".join(ex)))
    for (f, i, t, g) in E.fanned:
        F = E.flow(f, m)
        ok, why = fan(P, f, i, g, F)
        R.ob("parts", f.loc(i), "%s: as many parts are started as are counted" % f.f, ok, func=f.f, detail="fan out",
             msg="%s: %s" % (f.f, why))


def always(P, f, e):
    C = Counts(P, f, ["c"], lambda v, x: [("c", 1)] if x == e else ())
    C.solve()
    return C.values(C.inb.get(f.exit), "c") == [1]


def root_text(P, f, i):
    return P.render(f, P.strip_smart(f, i))


def fan(P, f, post, g, F):
    """the loop around the post runs it once per element of the container whose size was stored in the count"""
    asg = [(i, n) for i, n in f.nodes.items() if n["k"] == "asg" and n.get("op", "=") == "=" and field_of(P, f, n["x"]) == g]
    if len(asg) != 1:
        return False, "the count of parts is not set exactly once"
    ai, an = asg[0]
    x = f.nodes[value(f, an["r"])]
    if not (x["k"] == "call" and short(P.callee(x)) == "size" and x.get("o") is not None):
        return False, "the count of parts is not the size of the container that is walked"
    cont = root_text(P, f, x["o"])
    b = f.elem_of.get(post, (None,))[0]
    ls = [(h, body, l) for h, body, l in loops(f) if b in body]
    if len(ls) != 1:
        return False, "the parts are not started in one loop"
    h, body, latches = ls[0]
    if f.elem_of[ai][0] in body:
        return False, "the count of parts is set while parts are being started"
    # nonempty when the count is set
    t = F.term(value(f, an["r"]))
    s = F.before(ai)
    if not s or not all(entails(a, "!=", t, ("c", 0)) for a in s):
        return False, "the count of parts may be zero: nobody would answer"
    # set before any part starts, on every path to the loop
    C = Counts(P, f, ["set", "it"], lambda v, e: [("set", "=", 1)] if e == ai else [("it", 1)] if e == post else ())
    C.edge_ev = lambda bb, succ: [("it", "=", 0)] if succ == h else None
    C.solve()
    sp = C.before(post)
    if C.values(sp, "set") != [1]:
        return False, "a part may be started before the number of parts is stored"
    for lt in latches:
        sl = C.inb.get(lt)
        for e in f.blocks[lt]["s"]:
            sl = C.elem(sl, e, lt)
        if C.values(sl, "it") != [1]:
            return False, "not every element starts exactly one part"
    # the walk: an iterator from begin() to end(), one step a round
    tc = f.blocks[h].get("tc")
    if tc is None:
        return False, "the loop has no condition"
    its, ends = [], []
    for j in f.subtree(tc):
        n = f.nodes[j]
        if n["k"] == "ref" and n.get("dk") == "local":
            v = f.vars.get(n["d"])
            for ini in (v or {}).get("inits", []):
                y = f.nodes[value(f, ini)]
                while y["k"] in ("ctor", "cast") and (y.get("a") or y.get("x") is not None):
                    y = f.nodes[y["a"][0] if y["k"] == "ctor" else y["x"]]
                if y["k"] == "call" and y.get("o") is not None and root_text(P, f, y["o"]) == cont:
                    if short(P.callee(y)) == "begin":
                        its.append(n["d"])
                    if short(P.callee(y)) == "end":
                        ends.append(n["d"])
        if n["k"] == "call" and short(P.callee(n)) == "end" and n.get("o") is not None and root_text(P, f, n["o"]) == cont:
            ends.append(j)
    if len(set(its)) != 1 or not ends:
        return False, "the loop does not walk %s from begin() to end()" % cont
    d = its[0]
    inc = [j for j, n in f.nodes.items() if (n["k"] == "call" and n.get("op") == "++" or n["k"] == "un" and n["op"] == "++") and
           f.nodes[value(f, n["o"] if n["k"] == "call" and n.get("o") is not None else n["a"][0] if n["k"] == "call" else n["x"])].get("d") == d or
           n["k"] == "call" and n.get("op") == "++" and n.get("o") is not None and f.nodes[n["o"]].get("d") == d]
    other = [j for j, n in f.nodes.items() if n["k"] == "asg" and f.nodes[value(f, n["x"])].get("d") == d]
    C2 = Counts(P, f, ["it"], lambda v, e: [("it", 1)] if e in inc else ())
    C2.edge_ev = lambda bb, succ: [("it", "=", 0)] if succ == h else None
    C2.solve()
    for lt in latches:
        sl = C2.inb.get(lt)
        for e in f.blocks[lt]["s"]:
            sl = C2.elem(sl, e, lt)
        if C2.values(sl, "it") != [1] or other:
            return False, "the loop does not step through %s one element at a time" % cont
    # leaving only at the end, and nothing else changes the container
    for bb in body:
        for s2 in f.blocks[bb]["to"]:
            if s2 is not None and s2 not in body and bb != h:
                return False, "the loop may end before every part was started"
    for j, n in f.nodes.items():
        if n["k"] == "call" and n.get("o") is not None and root_text(P, f, n["o"]) == cont and not n.get("const") and \
                short(P.callee(n)) not in ("begin", "end", "size", "empty", "operator[]") and f.elem_of.get(j, (None,))[0] in body:
            return False, "%s changes while its elements are walked" % cont
    return True, ""


def server(P, R):
    S = Steps(P)
    m = ("step", ())
    for t in P.funcs.values():
        if t.cls != "HttpRequest" or skip(t) or t.is_ctor or t.is_dtor:
            continue
        outs, ex = S.summary(t, m)
        cs = set(k for _, k in outs)
        if cs <= {0} or not cs:
            if P.taken[t.u] and short(t.f) not in ("on_reply",) and any(t is x for f, i, n, x in handlers(P, ("async_read", "async_read_until", "async_read_some"))):
                R.ob("server", t.loc(), t.f, False, func=t.f, detail="step", msg="%s never leads to a next step: the request hangs" % t.f)
            continue
        R.ob("server", t.loc(), "%s leads to one next step" % t.f, cs <= {1}, func=t.f, detail="step",
             msg="%s may lead to a next step %s" % (t.f, tell(cs)), path=trace(S, t, m))
        es = sorted(x for x, v in ex.items() if set(v) - {0})
        R.ob("server", t.loc(), "%s fails only before its next step" % t.f, not es, func=t.f, detail="step throws",
             msg="%s may let %s out after its next step" % (t.f, ", ".join(es)), path=trace(S, t, m))
    # accept handlers
    for t in P.funcs.values():
        if skip(t) or not any(P.emissions(t, n) and short(P.emissions(t, n)) == "onRequest_" for n in t.nodes.values()):
            continue
        C = Counts(P, t, ["a", "r"], lambda v, e: () if not isinstance(e, int) else [("a", 1)] if P.emissions(v, v.nodes[e]) and short(P.emissions(v, v.nodes[e])) == "onRequest_" else
                   [("r", 1)] if v.nodes[e]["k"] == "call" and short(P.callee(v.nodes[e])) == "readHeaders" else ())
        C.solve()
        s = C.inb.get(t.exit) or ()
        vs = set((C.gval(a, "a"), C.gval(a, "r")) for a in s)
        R.ob("server", t.loc(), "%s announces an accepted request and starts reading it, each once, or neither" % t.f, vs <= {(0, 0), (1, 1)}, func=t.f, detail="accept",
             msg="%s: an accepted request may be announced or read %s" % (t.f, vs))
    # events start serving
    Q = Posts(P)
    mq = ("post", ())
    seen = set()
    for sig in ("onHeader_", "onError_"):
        for s, cs in P.slots.items():
            if short(s) != sig:
                continue
            for f, n, c in cs:
                if not c:
                    continue
                for t in P.targets(f, f.nodes[c[0]]):
                    if t.u in seen or skip(t):
                        continue
                    seen.add(t.u)
                    vs = Q.normal(t, mq)
                    R.ob("serve", t.loc(), "%s starts serving the request once" % t.f, vs <= {1}, func=t.f, detail="serve",
                         msg="%s may start serving the request %s" % (t.f, tell(vs)), path=trace(Q, t, mq))
    for s, cs in P.slots.items():
        if short(s) != "onRequest_":
            continue
        for f, n, c in cs:
            for t in (P.targets(f, f.nodes[c[0]]) if c else []):
                if skip(t):
                    continue
                C = Counts(P, P.view(t), ["h", "e"], lambda v, e: [({"onHeader_": "h", "onError_": "e"}[signal_of_connect(P, v, v.nodes[e])], 1)]
                           if isinstance(e, int) and signal_of_connect(P, v, v.nodes[e]) in ("onHeader_", "onError_") else ())
                C.solve()
                s2 = C.inb.get(C.f.exit) or ()
                vs = set((C.gval(a, "h"), C.gval(a, "e")) for a in s2)
                R.ob("serve", t.loc(), "%s connects one handler to each event of the request" % t.f, vs <= {(1, 1)}, func=t.f, detail="connect",
                     msg="%s connects (%s) handlers to the header and error events of a request" % (t.f, vs))
    # dropped before, not after
    for t in P.funcs.values():
        if t.cls != "HttpRequest" or skip(t):
            continue
        drops = [i for i, n in t.nodes.items() if n["k"] == "call" and short(P.callee(n)) == "disconnect_all_slots" and dropped(P, t, n) == "onBody_"]
        if not drops:
            continue
        C = Counts(P, t, ["e"], lambda v, e: [("e", "=", 1)] if isinstance(e, int) and P.emissions(v, v.nodes[e]) and short(P.emissions(v, v.nodes[e])) in ("onHeader_", "onError_") else ())
        C.solve()
        for i in drops:
            bad = 1 in C.values(C.before(i), "e")
            R.ob("slots", t.loc(i), "%s drops the body handlers before it raises an event" % t.f, not bad, func=t.f, detail="late drop",
                 msg="%s drops the body handlers after an event whose handler may already have connected one from another thread: that request is never answered" % t.f)


def dropped(P, t, n):
    for a in ([n["o"]] if n.get("o") is not None else []) + n["a"]:
        x = t.nodes[P.strip_smart(t, a)]
        if x["k"] == "mem":
            return short(x["n"])
    return None


def handlers(P, names):
    for f in P.funcs.values():
        for i, n in f.nodes.items():
            if is_async(n) and short(detmpl(n["f"])) in names:
                for a in n["a"]:
                    c = P.closure(f, a)
                    if c:
                        for t in P.targets(f, f.nodes[c[0]]):
                            yield f, i, n, t


def trace(E, t, m, depth=0, seen=None):
    r = []
    seen = set() if seen is None else seen
    F = E.memo.get((t.u, m))
    if not F or t.u in seen:
        return r
    seen.add(t.u)
    for i, c in sorted(F._c.items()):
        if c:
            k = sorted(set(x[1] for o, _ in c for x in o))
            r.append("%s%s: %s (%s)" % ("  " * depth, t.loc(i), E.P.render(t, i)[:90], ",".join(map(str, k))))
            if k != [1] and depth < 4:
                for x in E.T.sync(t, i):
                    r += trace(E, x, m, depth + 1, seen)
    return r[:80]
