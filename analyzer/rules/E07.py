"""Connections: at most one read and one write outstanding, bytes in order, bounded output cut at line ends."""
from ista.model import detmpl, short
from ista.facts import facts, entails
from ista.guarded import locks
from ista.once import is_async
from ista.throws import is_fake
from ista.util import Counts, loops

ASSUME = ["an asynchronous operation calls its handler once and uses its buffer until then or until the socket is closed (asio)",
          "writing to a vector within its size does not move it"]
ZERO, ONE = ("c", 0), ("c", 1)
BASE = "ConnectionInfo"


def skip(f):
    return is_fake(f) or f.file.startswith(("tool", "perf", "ftest"))


def connection_classes(P):
    return [c for c in P.classes if BASE in P.all_bases(c) and "Fake" not in c]


def strip(v, i):
    while v.nodes[i]["k"] == "cast":
        i = v.nodes[i]["x"]
    return i


def memf(v, i, cls):
    """the member of this that the expression denotes"""
    i = strip(v, i)
    n = v.nodes[i]
    if n["k"] == "mem" and n["n"].startswith(cls + "::"):
        b = v.nodes[strip(v, n["b"])]
        if b["k"] == "this" or b["k"] == "ref":
            return n["n"]
    return None


class Site:
    pass


def sites(P, cls):
    """asynchronous reads and writes on a socket of this class"""
    r = []
    for v in P.roots():
        if skip(v):
            continue
        for i, n in v.nodes.items():
            if not is_async(n) or n.get("l") is None:
                continue
            s = short(detmpl(n["f"]))
            kind = "write" if s in ("async_write", "async_write_some", "async_send") else "read" if s in ("async_read", "async_read_some", "async_read_until", "async_receive") else None
            if not kind:
                continue
            obj = n["a"][0] if n.get("o") is None else n["o"]
            sock = memf(v, obj, cls)
            if not sock:
                continue
            x = Site()
            x.v, x.i, x.n, x.kind, x.sock = v, i, n, kind, sock
            x.args = n["a"][1:] if n.get("o") is None else n["a"]
            x.handlers = []
            for a in n["a"]:
                c = P.closure(v, a)
                if c:
                    x.handlers += [t for t in P.targets(v, v.nodes[c[0]]) if not skip(t)]
            x.buf = buffer_of(P, v, x.args, cls)
            r.append(x)
    return r


def buffer_of(P, v, args, cls):
    """(field, size expression node or None, buffer call) of boost::asio::buffer(...)"""
    for a in args:
        for j in v.subtree(a):
            n = v.nodes[j]
            if n["k"] == "call" and short(detmpl(P.callee(n) or "")) == "buffer" and n["a"]:
                fld = data_of(P, v, n["a"][0], cls, 0)
                size = n["a"][1] if len(n["a"]) > 1 and v.nodes[n["a"][1]]["k"] != "other" else None
                return fld, size, j
    return None, None, None


def data_of(P, v, i, cls, depth):
    """the vector or string member whose elements the pointer points to"""
    i = strip(v, i)
    n = v.nodes[i]
    if depth > 8:
        return None
    if n["k"] == "mem":
        return memf(v, i, cls)
    if n["k"] == "un" and n["op"] in ("&", "*"):
        return data_of(P, v, n["x"], cls, depth + 1)
    if n["k"] == "call" and n.get("o") is not None and (n.get("op") == "[]" or short(P.callee(n)) in ("data", "front", "c_str", "begin")):
        return data_of(P, v, n["o"], cls, depth + 1)
    if n["k"] == "idx":
        return data_of(P, v, n["b"], cls, depth + 1)
    if n["k"] == "ref" and n.get("d") in v.vars:
        q = v.vars[n["d"]]
        if len(q["inits"]) == 1:
            return data_of(P, v, q["inits"][0], cls, depth + 1)
    return None


def assigns(v, cls, fld=None):
    for i, n in v.nodes.items():
        if n["k"] == "asg" and n.get("op", "=") == "=":
            x = memf(v, n["x"], cls)
            if x and (fld is None or x == fld):
                yield i, n, x


def const(v, i):
    n = v.nodes[strip(v, i)]
    return n.get("cv") if "cv" in n else v.nodes[i].get("cv")


def bools(P, cls):
    return [x["n"] for x in P.classes[cls]["fields"] if x["t"] in ("bool", "volatile bool")]


def run(P, R):
    R.rule("flag", "an operation is started only where the flag of its kind was found clear and is set, under the lock that guards the flag", 2)
    R.rule("done", "the flag is cleared only by the handler of the operation or before there was one", 2)
    R.rule("idle", "the buffer of an operation is changed only while none is outstanding, by its handler, or after the socket was closed", 3)
    R.rule("extent", "an operation is given exactly its buffer", 2)
    R.rule("order", "data is queued at the end, taken from the front, and the sent bytes are forgotten", 3)
    R.rule("cut", "too much output is cut right behind a line end, or dropped when there is none", 1)
    R.rule("bound", "data is queued only where the queue is below its limit or was just cut", 1)
    L = None
    for cls in connection_classes(P):
        S = sites(P, cls)
        if not S:
            continue
        L = L or locks(P)
        used = {}
        for x in S:
            used.setdefault(x.kind, {})[x.i, x.v.u] = flag_of(P, R, L, cls, x)
        bufs = {}
        for x in S:
            fl = used[x.kind][x.i, x.v.u]
            if fl:
                cleared(P, R, cls, x, fl)
            extent(P, R, cls, x)
            if x.buf[0]:
                bufs.setdefault(x.buf[0], []).append((x, fl))
        for k, m in used.items():
            fs = set(m.values()) - {None}
            if len(fs) > 1:
                x = [y for y in S if y.kind == k][0]
                R.ob("flag", x.v.loc(x.i), "one flag stands for all %ss" % k, False, func=x.v.f, detail="flags:" + k,
                     msg="the %ss of %s are started under different flags %s, so two may be outstanding" % (k, cls, ", ".join(sorted(fs))))
        # moves between the queues and the buffers an operation works on
        for b, xs in bufs.items():
            idle(P, R, cls, b, xs)
        queues(P, R, cls, S, bufs)


def flag_of(P, R, L, cls, x):
    v = x.v
    best = None
    for fld in bools(P, cls):
        sets = [i for i, n, f in assigns(v, cls, fld) if const(v, n["r"]) == 1]
        if not sets:
            continue

        def ev(vv, e, sets=sets):
            if e == x.i:
                return [("op", 1)]
            if e in sets:
                return [("set", 1)]
            return ()
        C = Counts(P, v, ["op", "set"], ev)
        C.solve()
        end = C.inb.get(v.exit)
        paired = end is not None and all(C.gval(a, "op") == C.gval(a, "set") for a in end)
        clear = all(C.before(i) is None or all(entails(a, "==", ("f", ("this",), fld), ZERO) or falsy(a, fld) for a in C.before(i)) for i in sets)
        why = []
        if not paired:
            why.append("it is not set exactly where the operation is started")
        if not clear:
            why.append("it is not known to be clear where it is set")
        if not why:
            if not one_section(P, L, v, sets + [x.i], fld):
                why.append("no lock is held from looking at it to starting the operation")
        if best is None or len(why) < len(best[1]):
            best = (fld, why)
    if best is None:
        R.ob("flag", v.loc(x.i), "the %s is guarded by a flag" % x.kind, False, func=v.f, detail="noflag:" + x.kind,
             msg="%s starts a %s without a flag saying that one is outstanding: two may be outstanding at once" % (v.f, x.kind))
        return None
    fld, why = best
    R.ob("flag", v.loc(x.i), "the %s is started under %s" % (x.kind, fld), not why, func=v.f, detail="flag:" + x.kind,
         msg="%s may start a %s while one is outstanding: the flag %s: %s" % (v.f, x.kind, fld, "; ".join(why)))
    return fld


def falsy(a, fld):
    t = ("f", ("this",), fld)
    return any(op == "==" and (x == t and y == ZERO or y == t and x == ZERO) or op == "!=" and (x == t and y == ONE or y == t and x == ONE) for (op, x, y) in a)


class Section(Counts):
    """is this lock held (h: how many times), and was the flag looked at since it was taken (fr)?"""

    def __init__(self, P, L, v, lock, fld):
        super().__init__(P, v, ["h", "fr"], None)
        self.lev, self.gv = L.ev(v)
        self.lock, self.fld = lock, fld
        self.held0 = lock in (L.entry.get(v.u) or ())

    def ghost(self, e):
        return ()

    def init(self):
        s = super().init()
        return self.gset(s, "h", 1) if self.held0 else s

    def elem(self, s, e, b):
        d = 0
        if isinstance(e, int):
            for (op, nm, g) in self.lev.get(e, ()):
                if nm == self.lock:
                    d += 1 if op == "+" else -1
        elif e.get("e") == "dtor" and e["d"] in self.gv and self.gv[e["d"]][0] == self.lock:
            d = -1
        if d:
            out = set()
            for a in s:
                h = max(0, self.gval(a, "h") + d)
                x = self.gset(frozenset([a]), "h", h)
                if not h:
                    x = self.gset(x, "fr", 0)
                out |= x
            s = frozenset(out)
        return super().elem(s, e, b)

    def edge(self, s, b, k, succ):
        s = super().edge(s, b, k, succ)
        tc = self.f.blocks[b].get("tc")
        if s is not None and tc is not None and any(self.f.nodes[j]["k"] == "mem" and self.f.nodes[j]["n"] == self.fld for j in self.f.subtree(tc)):
            out = set()
            for a in s:
                out |= self.gset(frozenset([a]), "fr", 1) if self.gval(a, "h") else frozenset([a])
            s = frozenset(out)
        return s


def one_section(P, L, v, nodes, fld):
    locks = set(nm for evs in L.ev(v)[0].values() for _, nm, _ in evs) | set(L.entry.get(v.u) or ())
    for l in sorted(locks):
        F = Section(P, L, v, l, fld)
        F.solve()
        if all(F.before(i) is None or all(F.gval(a, "h") > 0 and F.gval(a, "fr") for a in F.before(i)) for i in nodes):
            return l
    return None


def cleared(P, R, cls, x, fld):
    hs = set(t.u for t in x.handlers)
    for f in P.funcs.values():
        if skip(f):
            continue
        for i, n, _ in assigns(f, cls, fld):
            if const(f, n["r"]) == 1:
                continue
            ok = allowed(P, f, hs, set())
            R.ob("done", f.loc(i), "%s clears %s as the handler of the %s, or before there was one" % (f.f, fld, x.kind), ok, func=f.f, detail="clear:" + fld,
                 msg="%s clears %s although a %s may still be outstanding: a second one can be started" % (f.f, fld, x.kind))


def allowed(P, f, hs, seen):
    if f.u in hs or f.is_ctor:
        return True
    if f.u in seen:
        return True
    seen.add(f.u)
    cs = P.callers[f.u]
    return bool(cs) and not P.taken[f.u] and all(allowed(P, g, hs, seen) for g, _ in cs if not skip(g))


def extent(P, R, cls, x):
    v = x.v
    fld, size, j = x.buf
    if j is None:
        R.ob("extent", v.loc(x.i), "the %s has a buffer" % x.kind, False, func=v.f, detail="nobuf:" + x.kind, msg="the buffer of the %s cannot be identified" % x.kind)
        return
    if fld is None:
        R.ob("extent", v.loc(x.i), "the %s works on a buffer of the connection" % x.kind, False, func=v.f, detail="extent:" + x.kind,
             msg="the %s started by %s does not work on a buffer that belongs to the connection" % (x.kind, v.f))
        return
    if size is None:
        R.ob("extent", v.loc(x.i), "the %s works on all of %s" % (x.kind, fld), True, func=v.f, detail="extent:" + x.kind)
        return
    F = facts(P, v)
    t = F.term(size)
    want = ("m", "size", ("f", ("this",), fld))
    ok = t == want
    s = F.before(x.i)
    if not ok and s is not None:
        ok = all(entails(a, "==", t, want) for a in s)
    if not ok and x.kind == "read" and t[0] == "c":
        # the buffer was given that size just before
        C = Counts(P, v, ["room"], lambda vv, e: room(P, vv, e, cls, fld, t[1]))
        C.solve()
        s = C.before(x.i)
        ok = s is None or all(C.gval(a, "room") == 1 for a in s)
    if not ok and size is not None:
        ok = same_value(P, v, size, cls, fld)
    R.ob("extent", v.loc(x.i), "the %s is given the size of %s" % (x.kind, fld), ok, func=v.f, detail="extent:" + x.kind,
         msg="the %s started by %s is given a length that is not known to be the size of %s" % (x.kind, v.f, fld))


def same_value(P, v, i, cls, fld):
    n = v.nodes[strip(v, i)]
    if n["k"] == "ref" and n.get("d") in v.vars:
        q = v.vars[n["d"]]
        if len(q["inits"]) == 1 and not q["assigned"]:
            return same_value(P, v, q["inits"][0], cls, fld)
    return n["k"] == "call" and short(P.callee(n)) == "size" and n.get("o") is not None and memf(v, n["o"], cls) == fld


def room(P, v, e, cls, fld, k):
    if not isinstance(e, int):
        return ()
    n = v.nodes[e]
    if n["k"] == "call" and n.get("o") is not None and memf(v, n["o"], cls) == fld:
        s = short(P.callee(n))
        if s in ("resize", "assign") and n["a"]:
            c = const(v, n["a"][0])
            return [("room", "=", 1 if c is not None and c >= k else 0)]
        if s in ("clear", "swap", "erase", "pop_back", "shrink_to_fit") or n.get("op") == "=":
            return [("room", "=", 0)]
    return ()


MUT = ("swap", "resize", "clear", "insert", "erase", "push_back", "assign", "reserve", "pop_back", "append")


def changes(P, v, cls, fld):
    for i, n in v.nodes.items():
        if n["k"] != "call" or n.get("l") is None:
            continue
        s = short(P.callee(n))
        if n.get("o") is not None and memf(v, n["o"], cls) == fld and (s in MUT or n.get("op") in ("=", "+=")):
            yield i, n, s
        elif s == "swap" and any(memf(v, a, cls) == fld for a in n["a"]):
            yield i, n, s


def idle(P, R, cls, fld, xs):
    hs = set(t.u for x, _ in xs for t in x.handlers)
    flags = set(f for _, f in xs if f)
    for v in P.roots():
        if skip(v):
            continue
        cs = list(changes(P, v, cls, fld))
        if not cs:
            continue
        socks = set(x.sock for x, _ in xs)
        handler_flags = [i for f in flags for i, n, _ in assigns(v, cls, f) if const(v, n["r"]) != 1]
        started = [x.i for x, _ in xs if x.v.u == v.u]

        def ev(vv, e):
            if not isinstance(e, int):
                return ()
            n = vv.nodes[e]
            if n["k"] == "call" and short(P.callee(n)) in ("close", "cancel") and n.get("o") is not None and memf(vv, n["o"], cls) in socks:
                return [("closed", "=", 1)]
            if e in started:
                return [("on", "=", 1)]
            return ()
        C = Counts(P, v, ["closed", "on"], ev)
        C.solve()
        for i, n, s in cs:
            st = C.before(i)
            if st is None:
                continue
            ok = all(C.gval(a, "closed") == 1 or C.gval(a, "on") == 0 and (v.u in hs or any(falsy(a, f) or f_set(a, f) and fresh(P, v, C, i, f) for f in flags)) for a in st) or v.is_ctor
            R.ob("idle", v.loc(i), "%s changes %s while no operation uses it" % (P.render(v, i)[:60], fld), ok, func=v.f, detail="%s:%s" % (fld, s),
                 msg="%s changes %s (%s) while an operation that uses it may be outstanding" % (v.f, fld, s))


def f_set(a, f):
    t = ("f", ("this",), f)
    return any(op == "==" and (x == t and y == ONE or y == t and x == ONE) for (op, x, y) in a)


def fresh(P, v, C, i, f):
    """the flag was set on this path after it was found clear, and the operation is not started yet"""
    sets = [j for j, n in v.nodes.items() if n["k"] == "asg" and v.nodes[strip(v, n["x"])].get("n") == f and const(v, n["r"]) == 1]
    return bool(sets) and all(C.before(j) is None or all(falsy(a, f) for a in C.before(j)) for j in sets) and \
        all(j in v.elem_of for j in sets) and dominated(v, i, sets)


def dominated(v, i, sets):
    from ista.util import dominators, dominates
    idom = dominators(v)[0]
    e = i
    while e not in v.elem_of:
        e = v.parents[e][0]
    b, k = v.elem_of[e]
    for j in sets:
        c, m = v.elem_of[j]
        if c == b and m < k or c != b and dominates(idom, c, b):
            return True
    return False


def queues(P, R, cls, S, bufs):
    """queue members: those whose content is moved into a buffer that is written, or that take what was read"""
    wb = set(x.buf[0] for x in S if x.kind == "write" and x.buf[0])
    rb = set(x.buf[0] for x in S if x.kind == "read" and x.buf[0])
    outq, inq = set(), set()
    roots = [v for v in P.roots() if not skip(v)]
    for v in roots:
        for i, n in v.nodes.items():
            if n["k"] != "call":
                continue
            s = short(P.callee(n))
            ops = ([n["o"]] if n.get("o") is not None else []) + list(n["a"])
            fs = [memf(v, a, cls) for a in ops]
            fs = [f for f in fs if f]
            if (s == "swap" or n.get("op") == "=") and len(fs) == 2 and set(fs) & wb:
                outq |= set(fs) - wb
            if s in ("insert", "append", "assign") and n.get("o") is not None and memf(v, n["o"], cls):
                src = set(data_of(P, v, b, cls, 0) or base_iter(P, v, b, cls) for b in n["a"][1:]) - {None}
                if src & rb:
                    inq.add(memf(v, n["o"], cls))
    outq |= set(b for b in wb if not outq)
    for v in roots:
        for q in outq | inq:
            ops = list(changes(P, v, cls, q))
            if not ops:
                continue
            for i, n, s in ops:
                if s in ("insert", "push_back", "append") or n.get("op") == "+=":
                    at_end = s != "insert" or (n["a"] and is_call_on(P, v, n["a"][0], "end", cls, q))
                    pre = not at_end and q in outq and all(base_iter(P, v, a, cls) not in outq | inq | {None} for a in n["a"][1:]) and len(n["a"]) > 1
                    R.ob("order", v.loc(i), "%s adds to %s at its end" % (P.render(v, i)[:60], q), bool(at_end or pre), func=v.f, detail="add:" + q,
                         msg="%s adds data to %s somewhere else than at its end: bytes are sent or read out of order" % (v.f, q))
                    if q in outq and at_end:
                        bound(P, R, v, cls, q, i, n)
                elif s == "erase":
                    ok = n["a"] and is_call_on(P, v, n["a"][0], "begin", cls, q)
                    R.ob("order", v.loc(i), "%s takes from the front of %s" % (P.render(v, i)[:60], q), bool(ok), func=v.f, detail="take:" + q,
                         msg="%s removes bytes from the middle of %s" % (v.f, q))
                    if q in outq:
                        cut(P, R, v, cls, q, i, n)
                elif s == "clear" and q in outq:
                    dropped(P, R, v, cls, q, i)
                elif s == "swap" and q in outq:
                    other = [f for f in (memf(v, a, cls) for a in ([n["o"]] if n.get("o") is not None else []) + list(n["a"])) if f and f != q]
                    forgotten(P, R, v, cls, q, other, i)
    for x in S:
        if x.kind != "read":
            continue
        for t in x.handlers:
            received(P, R, P.view(t), cls, x, inq)


def base_iter(P, v, i, cls):
    """the member a iterator expression iterates over"""
    i = strip(v, i)
    n = v.nodes[i]
    if n["k"] == "call" and n.get("o") is not None:
        return base_iter(P, v, n["o"], cls)
    if n["k"] == "call" and n.get("op") == "+" and n["a"]:
        return base_iter(P, v, n["a"][0], cls)
    if n["k"] == "ctor" and n["a"]:
        return base_iter(P, v, n["a"][0], cls)
    if n["k"] == "mem":
        return memf(v, i, cls)
    return None


def is_call_on(P, v, i, name, cls, q):
    i = strip(v, i)
    n = v.nodes[i]
    if n["k"] == "ctor" and n["a"]:
        return is_call_on(P, v, n["a"][0], name, cls, q)
    if n["k"] == "ref" and n.get("d") in v.vars and len(v.vars[n["d"]]["inits"]) == 1 and not v.vars[n["d"]]["assigned"]:
        return is_call_on(P, v, v.vars[n["d"]]["inits"][0], name, cls, q)
    return n["k"] == "call" and short(P.callee(n)) in (name, "c" + name) and n.get("o") is not None and memf(v, n["o"], cls) == q


def one_past(P, v, F, i, depth=0):
    """the expression is the place right behind an element known to be a line end"""
    i = strip(v, i)
    n = v.nodes[i]
    if depth > 8:
        return False
    if n["k"] == "ctor" and n["a"]:
        return one_past(P, v, F, n["a"][0], depth + 1)
    k = behind(F, i)
    if k is not None:
        s = F.before(i)
        return s is None or all(any(op == "==" and ("c", 10) in (p, q) and any(y[0] == "i" and y[2] == k for y in (p, q)) for (op, p, q) in a) for a in s)
    x = None
    if n["k"] == "call" and n.get("op") == "++" and not n["a"] and n.get("o") is not None:
        x = n["o"]
    elif n["k"] == "un" and n["op"] == "++" and not n.get("post"):
        x = n["x"]
    elif n["k"] == "call" and n.get("op") == "+":
        args = ([n["o"]] if n.get("o") is not None else []) + list(n["a"])
        if len(args) == 2 and const(v, args[1]) == 1:
            x = args[0]
    elif n["k"] == "bin" and n["op"] == "+" and const(v, n["r"]) == 1:
        x = n["x"]
    elif n["k"] == "call" and short(P.callee(n)) == "next" and len([a for a in n["a"] if v.nodes[a]["k"] != "other"]) == 1:
        x = n["a"][0]
    if x is not None:
        s = F.before(i)
        if s is None:
            return True
        t = F.term(x)
        if all(entails(a, "==", ("d", t), ("c", 10)) for a in s):
            return True
        m = v.nodes[strip(v, x)]
        if m["k"] == "ref" and m.get("d") in v.vars:
            q = v.vars[m["d"]]
            if len(q["inits"]) == 1 and not q["assigned"] and found_newline(P, v, q["inits"][0]):
                return all(any(op == "!=" and t in (p, q2) and any(y[0] == "m" and y[1] == "end" for y in (p, q2)) for (op, p, q2) in a) for a in s)
        return False
    if n["k"] == "ref" and n.get("d") in v.vars:
        d = n["d"]
        q = v.vars[d]
        vals = list(q["inits"])
        for j, m in v.nodes.items():
            if m["k"] == "asg" and v.nodes[m["x"]]["k"] == "ref" and v.nodes[m["x"]].get("d") == d:
                vals.append(m["r"])
            if m["k"] == "call" and m.get("op") == "=" and m.get("o") is not None and v.nodes[m["o"]]["k"] == "ref" and v.nodes[m["o"]].get("d") == d:
                vals.append(m["a"][0])
            if m["k"] == "call" and m.get("op") in ("++", "--", "+=", "-=") and m.get("o") is not None and v.nodes[m["o"]]["k"] == "ref" and v.nodes[m["o"]].get("d") == d:
                # moved on: judged by the facts at the place of use
                s = F.before(i)
                return False
        rest = [x for x in vals if not (v.nodes[core(v, x)]["k"] == "call" and short(P.callee(v.nodes[core(v, x)])) in ("begin", "end"))]
        return bool(rest) and all(one_past(P, v, F, x, depth + 1) for x in rest)
    return False


def behind(F, i):
    """k, if the expression is begin() + k + 1"""
    t = F.term(i)
    parts = []

    def flat(t):
        if t[0] == "m" and t[1] == "operator+" or t[0] == "o" and t[1] == "+":
            flat(t[2])
            flat(t[3])
        elif t[0] == "m" and t[1] == "begin":
            parts.append("begin")
        else:
            parts.append(t)
    flat(t)
    rest = [p for p in parts if p not in ("begin", ("c", 1))]
    if "begin" in parts and parts.count(("c", 1)) == 1 and len(rest) == 1:
        return rest[0]
    return None


def core(v, i):
    i = strip(v, i)
    while v.nodes[i]["k"] == "ctor" and v.nodes[i]["a"]:
        i = strip(v, v.nodes[i]["a"][0])
    return i


def found_newline(P, v, i):
    i = core(v, i)
    n = v.nodes[i]
    return n["k"] == "call" and detmpl(P.callee(n) or n.get("f") or "") in ("std::find", "find") and len(n["a"]) == 3 and const_deep(v, n["a"][2]) == 10


def const_deep(v, i):
    for j in v.subtree(i):
        c = v.nodes[j].get("cv")
        if c is not None:
            return c
    return None


def cut(P, R, v, cls, q, i, n):
    if len(n["a"]) < 2:
        R.ob("cut", v.loc(i), "output is cut at a line end", False, func=v.f, detail="cut", msg="%s removes single bytes from %s" % (v.f, q))
        return
    F = facts(P, v)
    R.ob("cut", v.loc(i), "%s cuts %s right behind a line end" % (P.render(v, i)[:60], q), one_past(P, v, F, n["a"][1]), func=v.f, detail="cut",
         msg="%s cuts the pending output %s at a place that is not known to be right behind a line end" % (v.f, q))


def dropped(P, R, v, cls, q, i):
    """all of the queue is dropped: after its content was taken, with the connection, or because no line end was found"""
    socks = True
    cuts = [j for j, n, s in changes(P, v, cls, q) if s == "erase"]
    takes = [j for j, n, s in changes(P, v, cls, q) if s == "swap" or n.get("op") == "="]

    def ev(vv, e):
        if not isinstance(e, int):
            return ()
        n = vv.nodes[e]
        if e in cuts:
            return [("cut", "=", 1)]
        if e in takes:
            return [("taken", "=", 1)]
        if n["k"] == "call" and short(P.callee(n)) == "close" and n.get("o") is not None and memf(vv, n["o"], cls):
            return [("closed", "=", 1)]
        return ()
    scan = scans(P, v, cls, q)
    C = Counts(P, v, ["cut", "taken", "closed", "scanned"], ev)
    C.edge_ev = lambda b, s: [("scanned", "=", 1)] if (b, s) in scan else ()
    C.solve()
    s = C.before(i)
    if s is None:
        return
    bad = [a for a in s if not (C.gval(a, "taken") or C.gval(a, "closed") or C.gval(a, "scanned") and not C.gval(a, "cut"))]
    R.ob("cut", v.loc(i), "all of %s is dropped only after looking for a line end in vain" % q, not bad, func=v.f, detail="drop",
         msg="%s drops all pending output %s on a path on which no line end was looked for, or one was found and cut at" % (v.f, q))


def scans(P, v, cls, q):
    """edges that leave a search for a line end in the queue because the end was reached"""
    r = set()
    for head, body, _ in loops(v):
        if not any(const_cmp10(v, j) for b in body for e in v.blocks[b]["s"] + ([v.blocks[b]["tc"]] if v.blocks[b].get("tc") is not None else []) if isinstance(e, int) for j in v.subtree(e)):
            continue
        if not any(n["k"] == "call" and n.get("o") is not None and memf(v, n["o"], cls) == q for n in v.nodes.values()):
            continue
        for b in body:
            for s in v.blocks[b]["to"]:
                if s is not None and s not in body:
                    r.add((b, s))
    for b, blk in v.blocks.items():
        tc = blk.get("tc")
        if tc is None or len(blk["to"]) != 2:
            continue
        for j in v.subtree(tc):
            n = v.nodes[j]
            if n["k"] == "ref" and n.get("d") in v.vars and any(found_newline(P, v, x) for x in v.vars[n["d"]]["inits"]):
                r |= set((b, s) for s in blk["to"] if s is not None)
    return r


def const_cmp10(v, j):
    n = v.nodes[j]
    return n["k"] == "bin" and n["op"] in ("==", "!=") and 10 in (const(v, n["x"]), const(v, n["r"]))


def bound(P, R, v, cls, q, i, n):
    ends = [j for j, m, s in changes(P, v, cls, q) if s in ("erase", "clear", "swap")]
    C = Counts(P, v, ["cut"], lambda vv, e: [("cut", "=", 1)] if e in ends else ())
    C.solve()
    s = C.before(i)
    size = ("m", "size", ("f", ("this",), q))

    def below(a):
        for (op, x, y) in a:
            if op in ("<", "<=") and x == size and (y[0] in ("c", "g", "f")):
                return True
        return False
    R.ob("bound", v.loc(i), "%s grows only below its limit" % q, s is None or all(C.gval(a, "cut") or below(a) for a in s), func=v.f, detail="bound",
         msg="%s adds to the pending output %s without the limit having been checked: it can grow without bound" % (v.f, q))


def forgotten(P, R, v, cls, q, other, i):
    """after the queue was exchanged with the buffer of the last write, that old content is dropped"""
    if not other:
        return
    o = other[0]
    def ev(vv, e):
        if not isinstance(e, int):
            return ()
        n = vv.nodes[e]
        if e == i:
            return [("stale", "=", 1)]
        if n["k"] == "call" and short(P.callee(n)) == "clear" and n.get("o") is not None:
            f = memf(vv, n["o"], cls)
            if f == q:
                return [("stale", "=", 0)]
            if f == o:
                return [("empty", "=", 1)]
        return ()
    C = Counts(P, v, ["stale", "empty"], ev)
    C.solve()
    s = C.inb.get(v.exit)
    bad = [a for a in s or () if C.gval(a, "stale") and not C.gval(a, "empty")]
    R.ob("order", v.loc(i), "the bytes of the last write are forgotten when the next is prepared", not bad, func=v.f, detail="stale:" + q,
         msg="%s leaves the bytes of the last write in %s: they are sent again" % (v.f, q))


def received(P, R, v, cls, x, inq):
    rb = x.buf[0]
    for i, n, s in [c for q in inq for c in changes(P, v, cls, q)]:
        if s not in ("insert", "append") or len(n["a"]) < 2:
            continue
        a = n["a"][-2:]
        if base_iter(P, v, a[0], cls) != rb and data_of(P, v, a[0], cls, 0) != rb:
            continue
        F = facts(P, v)
        e = strip(v, a[1])
        e = core(v, e)
        m = v.nodes[e]
        ok = False
        if m["k"] == "call" and m.get("op") == "+" or m["k"] == "bin" and m["op"] == "+":
            args = ([m["o"]] if m.get("o") is not None else []) + list(m.get("a", ())) if m["k"] == "call" else [m["x"], m["r"]]
            k = v.nodes[strip(v, args[1])]
            ok = k["k"] == "ref" and k.get("d") in [p["d"] for p in v.params] and "size_t" in k.get("t", "size_t").replace("unsigned long", "size_t")
            first = core(v, a[0])
            ok = ok and (is_call_on(P, v, first, "begin", cls, rb) or data_of(P, v, first, cls, 0) == rb) and base_same(P, v, args[0], a[0], cls)
        R.ob("extent", v.loc(i), "exactly the bytes that were received are taken over", ok, func=v.f, detail="received",
             msg="%s does not take over exactly the bytes that the read put into %s" % (v.f, rb))


def base_same(P, v, a, b, cls):
    F = facts(P, v)
    return F.term(core(v, a)) == F.term(core(v, b))
