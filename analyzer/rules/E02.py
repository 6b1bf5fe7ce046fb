"""Samples on their way from the text received to the store, to the forward buffer and to the text sent on: each statistic comes from
the field the format gives it, nothing is left out, and the text sent on has the fields in the order they are parsed, in full."""
from ista.facts import entails
from ista.flow import Flow
from ista.model import detmpl, short
from ista.throws import is_fake
from ista.util import Counts, dominates, dominators, loops

ASSUME = ["to_double, to_time_t, to_size_t convert the text they are given", "a bucket keeps the values it is made of (D09)"]
ROLES = ("name", "time", "val", "sq", "min", "max", "cnt")
# received formats: number of fields -> what each statistic is
FORMATS = {2: {"val": ("p", 1), "time": None}, 3: {"time": ("p", 1), "val": ("p", 2)},
           7: {"time": ("p", 1), "val": ("p", 2), "sq": ("p", 3), "min": ("p", 4), "max": ("p", 5), "cnt": ("p", 6)}}
MAXD = 12


def full(fmt):
    r = dict(fmt)
    v = r["val"]
    r.setdefault("sq", ("*", v, v))
    r.setdefault("min", v)
    r.setdefault("max", v)
    r.setdefault("cnt", ("c", 1))
    return r


def leaves(P, v, i, depth=0, seen=()):
    """where a value comes from: a set of ("p", k) (text field k), ("q", k) (parameter k), ("c", value), ("now",), ("*", a, b), ("?",)"""
    if i is None or depth > MAXD:
        return {("?",)}
    n = v.nodes[i]
    if n.get("cv") is not None and n["k"] != "ref" or n["k"] in ("int", "flt"):
        try:
            c = float(n.get("cv") if n.get("cv") is not None else n.get("v"))
            return {("c", int(c) if c == int(c) else c)}
        except (TypeError, ValueError):
            return {("?",)}
    if n["k"] == "cast" or n["k"] == "un" and n["op"] in ("&", "*"):
        return leaves(P, v, n["x"], depth + 1, seen)
    if n["k"] == "ctor" and len(n["a"]) >= 1 and (n.get("copy") or n.get("conv")):
        return leaves(P, v, n["a"][0], depth + 1, seen)
    if n["k"] == "bin" and n["op"] == "*":
        return set(("*", a, b) for a in leaves(P, v, n["x"], depth + 1, seen) for b in leaves(P, v, n["r"], depth + 1, seen))
    if n["k"] == "cond":
        return leaves(P, v, n["x"], depth + 1, seen) | leaves(P, v, n["r"], depth + 1, seen)
    if n["k"] == "idx" or n["k"] == "call" and short(P.callee(n) or "") in ("operator[]", "at"):
        b = n["b"] if n["k"] == "idx" else n.get("o")
        k = n["i"] if n["k"] == "idx" else n["a"][0]
        x = v.nodes[b]
        cv = v.nodes[k].get("cv")
        if x["k"] == "ref" and cv is not None and "string" in str((v.vars.get(x.get("d")) or {}).get("t", "")):
            return {("p", int(cv))}
        return {("?",)}
    if n["k"] == "call":
        m = short(P.callee(n) or "")
        if m == "istattime":
            return {("now",)}
        if n.get("o") is None and len(n["a"]) == 1 and m.startswith(("to_", "ato", "strto", "lexical")):
            return leaves(P, v, n["a"][0], depth + 1, seen)
        return {("?",)}
    if n["k"] == "ref" and n["dk"] in ("local", "param"):
        d = n["d"]
        if d in seen:
            return set()
        q = v.vars.get(d)
        if q is None:
            return {("?",)}
        r = set()
        src = [x for x in q["inits"] if x is not None] + [a["r"] for a in v.nodes.values() if a["k"] == "asg" and a["op"] == "=" and v.nodes[a["x"]].get("d") == d and v.nodes[a["x"]]["k"] == "ref"]
        for x in src:
            r |= leaves(P, v, x, depth + 1, seen + (d,))
        for c in v.nodes.values():
            if c["k"] == "call" and short(P.callee(c) or "") == "istattime" and any(v.nodes[a]["k"] == "un" and v.nodes[a]["op"] == "&" and v.nodes[v.nodes[a]["x"]].get("d") == d for a in c["a"]):
                r.add(("now",))
        ps = [p["d"] if isinstance(p, dict) else p for p in v.params]
        r.discard(("?",)) if d in ps and rounded(v, d) else None
        if d in ps:
            r.add(("q", ps.index(d)))
        return r or {("?",)}
    if n["k"] == "bin" and n["op"] in ("-", "/", "+", "%"):
        return leaves(P, v, n["x"], depth + 1, seen) if n["op"] in ("/",) else {("?",)}
    return {("?",)}


def rounded(v, d):
    """x -= x % n, the only changes made to it"""
    xs = [a for a in v.nodes.values() if a["k"] == "asg" and v.nodes[a["x"]]["k"] == "ref" and v.nodes[a["x"]].get("d") == d]
    return all(a["op"] == "-=" for a in xs)


def agrees(got, want, role):
    if role == "time":
        if want is None:
            return bool(got) and got <= {("c", 0), ("now",)}
        return want in got and got <= {want, ("c", 0), ("now",)}
    return got == {want}


def sinks(P, v):
    """[(node, what, {role: node})]: where a sample is handed on"""
    r = []
    for i, n in v.nodes.items():
        if n["k"] == "call":
            m, c = short(P.callee(n) or ""), P.callee(n) or ""
            k = len(n["a"])
            if m == "record" and k in (2, 3, 7) and "Stat" in c:
                names = {2: ("name", "val"), 3: ("name", "time", "val"), 7: ROLES}[k]
                r.append((i, "store", dict(zip(names, n["a"]))))
            elif m == "record" and k == 6:
                r.append((i, "counter", dict(zip(ROLES[1:], n["a"]))))
            elif m == "storeMetrics" and k == 5:
                r.append((i, "exporter", {"time": n["a"][3], "val": n["a"][4]}))
            elif m == "collatedUpdate" and k == 2:
                r.append((i, "bucket", {"val": n["a"][0]}))
        elif n["k"] == "ctor" and n["c"].endswith("Bucket") and len(n["a"]) == 6:
            r.append((i, "bucket", dict(zip(("val", "sq", "min", "max", "cnt", "time"), n["a"]))))
    return r


def number(P, v, F, i, dom):
    """how many fields does the text have here?"""
    s = F.before(i)
    for k in FORMATS:
        if s and all(any(op == "==" and ("c", k) in (a, b) and any(t[0] == "v" for t in (a, b)) and counter(v, a if b == ("c", k) else b) for op, a, b in alt) for alt in s):
            return k
    b = v.elem_of.get(i)
    if b:
        idom, rpo = dom[0], dom[2]
        for c, blk in v.blocks.items():
            if "case" in blk and dominates(idom, c, b[0]):
                return blk["case"]
    return None


def counter(v, t):
    q = v.vars.get(t[1]) if t[0] == "v" else None
    return q is not None and str(q["t"]).replace("const", "").strip() in ("unsigned int", "int", "size_t", "unsigned long", "std::size_t")


def tells(P, f, t):
    """a term that is zero when there is no agent: the size of the list, or a method that says whether it has anything in it"""
    if t[0] != "m":
        return False
    if t[1] == "size":
        return "forward_" in str(t[2])
    g = (P.fn("%s::%s" % (f.cls, t[1])) or [None])[0]
    if g is None:
        return False
    rs = [n["x"] for n in g.nodes.values() if n["k"] == "ret" and n.get("x") is not None]
    if len(rs) != 1:
        return False
    n = g.nodes[rs[0]]
    if n["k"] == "un" and n["op"] == "!":
        n = g.nodes[n["x"]]
        return n["k"] == "call" and short(P.callee(n) or "") == "empty" and "forward_" in P.render(g, n["o"])
    if n["k"] == "bin" and n["op"] in ("!=", ">"):
        a, b = g.nodes[n["x"]], g.nodes[n["r"]]
        return a["k"] == "call" and short(P.callee(a) or "") == "size" and "forward_" in P.render(g, a["o"]) and str(b.get("cv")) == "0"
    return False


def raw(P, v, i):
    o = v.nodes[i].get("_o")
    return P.funcs[o[0]].f if o and o[0] in P.funcs else v.f


def run(P, R):
    R.rule("fields", "each statistic of a sample handed on comes from the field of the text, or the parameter, that is meant for it", 6)
    R.rule("both", "every sample received is given to the store, and to the forward buffer when there is one", 2)
    R.rule("order", "the text sent on has the fields in the order they are parsed", 2)
    R.rule("digits", "the values in the text sent on have all their digits", 1)
    seen = {}
    for v in P.roots():
        if is_fake(v) or v.implicit or v.file.startswith(("tool", "perf", "ftest")):
            continue
        ss = sinks(P, v)
        if not ss:
            continue
        got = [(i, w, {r: leaves(P, v, x) for r, x in roles.items()}) for i, w, roles in ss]
        texts = [g for g in got if any(l[0] in ("p", "*") and has_p(l) for ls in g[2].values() for l in ls)]
        if texts:
            from ista.facts import facts
            F = facts(P, v)
            dom = dominators(v)
            for i, w, g in texts:
                k = number(P, v, F, elem(v, i), dom)
                fmt = full(FORMATS[k]) if k in FORMATS else None
                # one place for several formats: each field must fit one of them, all fields the same
                cand = [fmt] if fmt else [full(f) for f in FORMATS.values()]
                if w == "exporter":
                    cand = [full(f) for f in FORMATS.values()]
                ok = any(all(agrees(ls, f[role], role) for role, ls in g.items() if role != "name") for f in cand)
                if "name" in g and any(l[0] == "p" for l in g["name"]):
                    ok, cand = False, []
                bad = [] if ok else [role for role, ls in g.items() if role != "name" and not any(agrees(ls, f[role], role) for f in cand)] or ["the format"]
                o = seen.setdefault((v.nodes[i].get("_o") or (v.u, i), k), [v, i, w, True, [], k])
                o[3] = o[3] and ok
                o[4] += bad
    for (key, k), (v, i, w, ok, bad, k2) in sorted(seen.items(), key=lambda x: str(x[0])):
        R.ob("fields", v.loc(i), "sample of %s fields to the %s" % (k, w), ok, func=raw(P, v, i), detail="%s:%s" % (w, k),
             msg="%s of a sample handed to the %s is not what the format says (%s fields)" % (", ".join(sorted(set(bad))), w, k))
    params(P, R)
    both(P, R)
    text(P, R)


def has_p(l):
    return l[0] == "p" or any(isinstance(x, tuple) and has_p(x) for x in l[1:])


def elem(v, i):
    st, seen = [i], set()
    while st:
        x = st.pop(0)
        if x in v.elem_of:
            return x
        if x not in seen:
            seen.add(x)
            st.extend(v.parents.get(x, []))
    return i


def params(P, R):
    """the functions that pass a sample on by parameters"""
    order = {2: ("name", "val"), 3: ("name", "time", "val"), 7: ROLES}
    for f in sorted(P.funcs.values(), key=lambda f: (f.f, f.line)):
        if is_fake(f) or f.implicit or short(f.f) != "record" or f.cls not in ("StatStore", "StatCounter"):
            continue
        names = order.get(len(f.params)) if f.cls == "StatStore" else ROLES[1:] if len(f.params) == 6 else None
        if names is None:
            continue
        pos = {r: ("q", k) for k, r in enumerate(names)}
        if "val" not in pos:
            continue
        want = full({k: x for k, x in pos.items() if k != "name"} if "time" in pos else dict({k: x for k, x in pos.items() if k != "name"}, time=None))
        v = P.view(f)
        out = []
        for i, w, roles in sinks(P, v):
            out.append((i, w, {r: leaves(P, v, x) for r, x in roles.items()}))
        for i, n in v.nodes.items():
            if n["k"] == "call" and short(P.callee(n) or "") == "bind":
                c = P.closure(v, i)
                if c is None:
                    continue
                fn, args, _ = c
                g = P.funcs.get(v.nodes[fn].get("u")) if fn is not None and fn in v.nodes else None
                if g is None:
                    continue
                gv = P.view(g)
                gp = [p["d"] if isinstance(p, dict) else p for p in gv.params]
                for j, w, roles in sinks(P, gv):
                    if w != "counter":
                        continue
                    m = {}
                    for r, x in roles.items():
                        ls = set()
                        for l in leaves(P, gv, x):
                            ls |= leaves(P, v, args[l[1]]) if l[0] == "q" and l[1] < len(args) else {("?",)}
                        m[r] = ls
                    out.append((i, w, m))
        for i, w, g in out:
            if w == "bucket" and f.cls == "StatCounter" and "time" in g:
                # the time of a collated sample is rounded down
                pass
            bad = [r for r, ls in g.items() if r != "name" and not agrees(ls, want.get(r), r)]
            R.ob("fields", v.loc(i), "sample of %s to the %s" % (f.f, w), not bad, func=f.f, detail="%s:%d" % (w, len(f.params)),
                 msg="%s of a sample handed on is not the value it was given" % ", ".join(bad))


def both(P, R):
    """each function of the server that stores a sample forwards it too"""
    for f in sorted(P.funcs.values(), key=lambda f: (f.f, f.line)):
        if is_fake(f) or f.cls != "StatServer" or f.implicit:
            continue
        mine = [i for i, n in f.nodes.items() if n["k"] == "call" and short(P.callee(n) or "") == "record" and len(n["a"]) in (2, 3, 7)]
        if not mine:
            continue
        v = P.view(f)
        st = [i for i, n in v.nodes.items() if n["k"] == "call" and i in v.elem_of and short(P.callee(n) or "") == "record" and len(n["a"]) in (2, 3, 7)]
        fw = set(elem(v, i) for i, w, r in sinks(P, v) if w == "bucket") | set(i for i, n in v.nodes.items() if n["k"] == "call" and i in v.elem_of and any(
            any(m["k"] == "ctor" and m["c"].endswith("Bucket") and len(m["a"]) == 6 for m in t.nodes.values()) for t in P.targets(v, n)))
        lone = len(loops(v)) == 0 or not any(v.elem_of[i][0] in body for i in st for h, body, l in loops(v))
        F = Counts(P, v, ["stored", "sent"], lambda g, e: ([("stored", 1)] if e in st else []) + ([("sent", "=", 1)] if e in fw else []) if isinstance(e, int) else ())
        F.solve()
        s = F.inb.get(v.exit)

        def ok(a):
            if lone and F.gval(a, "stored") != 1:
                return False
            none = any(op == "==" and ("c", 0) in (x, y) and any(tells(P, f, t) for t in (x, y)) for op, x, y in a)
            return not lone or F.gval(a, "sent") == 1 or none
        names = [v.nodes[i]["a"][0] for i in st] + [n["a"][0] for i, n in v.nodes.items() if n["k"] == "call" and n.get("o") is not None and n["a"] and
                                                    short(P.callee(n) or "") in ("find", "operator[]", "insert") and "forwardBuckets_" in P.render(v, n["o"])]
        R.ob("fields", f.loc(), "name of the samples of %s" % f.f, all(("q", 0) in leaves(P, v, x) and leaves(P, v, x) <= {("q", 0)} for x in names), func=f.f, detail="name:%d" % len(f.params),
             msg="a sample is stored or put in the forward buffer under another name than it was received with")
        R.ob("both", f.loc(), f.f, s is None or all(ok(a) for a in s), func=f.f, detail="both:%d" % len(f.params),
             msg="a sample may not reach the store exactly once, or not the forward buffer although there is an agent to forward to")
    # all names of a line
    for f in sorted(P.funcs.values(), key=lambda f: (f.f, f.line)):
        if is_fake(f) or f.cls != "StatServer" or f.implicit:
            continue
        hand = [i for i, n in f.nodes.items() if n["k"] == "call" and i in f.elem_of and any(
            g.cls == "StatServer" and any(m["k"] == "call" and short(P.callee(m) or "") == "record" and len(m["a"]) in (2, 3, 7) for m in g.nodes.values()) for g in P.targets(f, n))
            or n["k"] == "call" and i in f.elem_of and short(P.callee(n) or "") == "record" and len(n["a"]) in (2, 3, 7)]
        bad = [i for i, n in f.nodes.items() if n["k"] == "call" and i in f.elem_of and short(P.callee(n) or "") == "operator++" and n.get("o") is not None and short(str(f.nodes[n["o"]].get("n", ""))).startswith("bad")
               or n["k"] == "un" and n["op"] == "++" and i in f.elem_of and short(str(f.nodes[n["x"]].get("n", ""))).startswith("bad")]
        for head, body, latches in loops(f):
            hs = [i for i in hand if f.elem_of[i][0] in body]
            if not hs:
                continue
            blocks = set(f.elem_of[i][0] for i in hs + bad)
            miss = None
            stack, seen = [head], set()
            while stack:
                x = stack.pop()
                for t in f.blocks[x]["to"]:
                    if t is None or t in blocks:
                        continue
                    if t == head:
                        miss = "a name of a received line can be passed over without being counted as bad"
                    elif t not in body:
                        if x != head and not f.blocks[x].get("nr"):
                            miss = "the loop over the names of a received line can end early"
                    elif t not in seen:
                        seen.add(t)
                        stack.append(t)
            for b in body:
                for t in f.blocks[b]["to"]:
                    if t is not None and t not in body and b != head and not f.blocks[b].get("nr") and not f.blocks[t].get("nr"):
                        miss = "the loop over the names of a received line can end early"
            R.ob("both", f.loc(hs[0]), "all names of a line in %s" % f.f, miss is None, func=f.f, detail="names", msg=miss)


ACC = {"time": "time", "sum": "val", "sumSq": "sq", "min": "min", "max": "max", "count": "cnt"}
LINES = (("name", "time", "val"), ROLES)


class Lines(Flow):
    """what has been written to each stream since the last line end"""
    exceptions = False

    def __init__(self, P, f, writes):
        super().__init__(P, f)
        self.writes, self.ends = writes, []

    def init(self):
        return frozenset([(False, ())])

    def join(self, a, b):
        return a | b

    def edge(self, s, b, k, succ):
        blk = self.f.blocks[b]
        tc = blk.get("tc")
        if tc is None or len(blk["to"]) != 2 or "case" in self.f.blocks.get(succ, {}):
            return s
        if implies(self.f, tc, k == 0):
            return frozenset((True, t) for c, t in s)
        if implies(self.f, tc, k != 0):         # the test is redone: known or not, it came out the other way
            return frozenset((c, t) for c, t in s if not c) or frozenset((False, t) for c, t in s)
        return s

    def elem(self, s, e, b):
        if not isinstance(e, int):
            return s
        n = self.f.nodes[e]
        if n["k"] == "call" and short(n.get("f") or "") == "operator++" or n["k"] == "decl" and any(implies(self.f, q["i"], True) or implies(self.f, q["i"], False) for q in n["ds"] if q.get("i") is not None):
            s = frozenset((False, t) for c, t in s)     # another name
        if e in self.writes:
            out = set()
            for c, t in s:
                for x in self.writes[e]:
                    t = t + (x,)
                    if x == "\n":
                        self.ends.append((e, c, t[:-1]))
                        t = ()
                    t = t[-24:]
                out.add((c, t))
            return frozenset(out)
        return s


def implies(v, i, pol, depth=0):
    """the condition coming out this way means that the name starts with '*'"""
    n = v.nodes.get(i)
    if n is None or depth > 8:
        return False
    if n["k"] == "un" and n["op"] == "!":
        return implies(v, n["x"], not pol, depth + 1)
    if n["k"] == "cast":
        return implies(v, n["x"], pol, depth + 1)
    if n["k"] == "ref" and n["dk"] == "local" and n.get("d") in v.vars and len(v.vars[n["d"]]["inits"]) == 1 and not v.vars[n["d"]]["addr"] and v.vars[n["d"]]["t"].replace("const ", "") == "bool":
        return implies(v, v.vars[n["d"]]["inits"][0], pol, depth + 1)
    if n["k"] == "bin" and n["op"] in ("&&", "||"):
        return (pol == (n["op"] == "&&")) and (implies(v, n["x"], pol, depth + 1) or implies(v, n["r"], pol, depth + 1))
    if n["k"] == "bin" and n["op"] in ("==", "!="):
        return pol == (n["op"] == "==") and any(str(v.nodes[y].get("cv")) == "42" for y in (n["x"], n["r"]))
    return False


def text(P, R):
    for v in P.roots():
        if is_fake(v) or v.implicit or v.cls != "StatServer":
            continue
        w, streams = {}, {}
        for i, n in v.nodes.items():
            if n["k"] != "call" or i not in v.elem_of or short(P.callee(n) or "") != "operator<<":
                continue
            arg = n["a"][-1] if n["a"] else None
            x = v.nodes[arg] if arg is not None else None
            if x is None:
                continue
            base = stream(P, v, i)
            if base is None:
                continue
            item = None
            if x["k"] == "str":
                item = pieces(x["v"] if "v" in x else bytes.fromhex(x["hx"]).decode("latin1") if x.get("hx") else x.get("s", ""))
            elif x["k"] == "int" and str(x.get("cv", x.get("v"))).isdigit() and x.get("t", "").replace("const ", "") == "char":
                item = pieces(chr(int(x.get("cv", x.get("v")))))
            elif x["k"] == "call" and short(P.callee(x) or "") in ACC and "Bucket" in (P.callee(x) or ""):
                item = (ACC[short(P.callee(x))],)
            elif x["k"] == "call" and short(P.callee(x) or "") == "operator()":
                item = None
            elif is_name(P, v, arg):
                item = ("name",)
            elif x["k"] == "ref" and x["dk"] == "local" and var_acc(P, v, x["d"]):
                item = (var_acc(P, v, x["d"]),)
            elif x["k"] == "ref" and "endl" in str(x.get("n", "")):
                item = ("\n",)
            elif "setprecision" in P.render(v, arg) or x["k"] == "ref" and x["dk"] == "global":
                item = ()
            else:
                item = ("?",)
            streams.setdefault(base, {})[i] = item
        for base, items in streams.items():
            if not any(it and any(y in ACC.values() for y in it) for it in items.values()):
                continue
            L = Lines(P, v, items)
            L.run()
            ends = {}
            for e, c, t in L.ends:
                ends.setdefault(e, set()).add((c, t))
            for e, cts in sorted(ends.items()):
                fn, ts = raw(P, v, e), set(t for c, t in cts)
                wrong = [t for t in ts if t and not line(t)]
                R.ob("order", v.loc(e), "line sent on", not wrong, func=fn, detail="order", msg="a line sent on has the fields %s" % " ".join(x for x in (wrong[0] if wrong else ())))
                # the short line only for what is collated
                if any(tuple(y for y in t if y != " ") == LINES[0] for t in ts):
                    R.ob("order", v.loc(e), "short line only for a collated counter", all(c for c, t in cts if tuple(y for y in t if y != " ") == LINES[0]), func=fn, detail="short", msg="a counter that is not collated is sent on without its statistics")
            first = min((e for e, it in items.items() if it and it[0] in ("val", "sq", "min", "max")), default=None)
            if first is not None:
                R.ob("digits", v.loc(first), "precision of the stream", precise(P, v, base, [e for e, it in items.items() if it and it[0] in ("val", "sq", "min", "max")]), func=raw(P, v, first), detail="digits",
                     msg="the values are sent on with the default six digits")


def pieces(s):
    s = s.replace("\\r", "\r").replace("\\n", "\n")
    r = []
    for c in s:
        if c == "\n":
            r.append("\n")
        elif c in " \t":
            r.append(" ")
        elif c == "\r":
            pass
        else:
            r.append("?")
    return tuple(r)


def line(t):
    """fields with something between each two"""
    out = []
    for x in t:
        if x == " ":
            if out and out[-1] != " ":
                out.append(" ")
        else:
            if out and out[-1] != " ":
                return False
            out.append(x)
    return tuple(x for x in out if x != " ") in LINES


def base_of(v, i):
    while True:
        n = v.nodes[i]
        if n["k"] == "cast" or n["k"] == "un" and n["op"] in ("*", "&"):
            i = n["x"]
        elif n["k"] == "idx":
            i = n["b"]
        elif n["k"] == "call" and short(n.get("f") or "") in ("operator[]", "at") and n.get("o") is not None:
            i = n["o"]
        elif n["k"] == "ref" and n["dk"] == "local" and n.get("d") in v.vars and str(v.vars[n["d"]]["t"]).rstrip().endswith("&") and len([x for x in v.vars[n["d"]]["inits"] if x is not None]) == 1:
            i = [x for x in v.vars[n["d"]]["inits"] if x is not None][0]
        else:
            return i


def stream(P, v, i):
    """the string stream a << b << c writes to"""
    n = v.nodes[i]
    while n["k"] == "call" and short(P.callee(n) or "") == "operator<<":
        i = n["o"] if n.get("o") is not None else n["a"][0]
        i = base_of(v, i)
        n = v.nodes[i]
    if n["k"] == "ref" and n["dk"] in ("local",) and "stream" in str(v.vars.get(n["d"], {}).get("t", "")):
        return n["d"]
    return None


def is_name(P, v, i):
    n = v.nodes[i]
    for _ in range(4):
        if n["k"] == "mem":
            return short(n["n"]) == "first"
        if n["k"] == "cast":
            n = v.nodes[n["x"]]
        elif n["k"] == "ref" and n["dk"] == "local" and n.get("d") in v.vars:
            xs = [x for x in v.vars[n["d"]]["inits"] if x is not None]
            if len(xs) != 1:
                return False
            n = v.nodes[xs[0]]
            if n["k"] == "ctor" and n["a"]:
                n = v.nodes[n["a"][0]]
        else:
            return False
    return False


def var_acc(P, v, d):
    xs = [x for x in v.vars[d]["inits"] if x is not None]
    if len(xs) == 1:
        n = v.nodes[xs[0]]
        while n["k"] == "cast":
            n = v.nodes[n["x"]]
        if n["k"] == "call" and short(P.callee(n) or "") in ACC and "Bucket" in (P.callee(n) or ""):
            return ACC[short(P.callee(n))]
    return None


def precise(P, v, base, uses):
    idom, succ, rpo = dominators(v)
    good = []
    for i, n in v.nodes.items():
        if n["k"] != "call" or i not in v.elem_of:
            continue
        m = short(P.callee(n) or "")
        if m == "precision" and n["a"] and n.get("o") is not None:
            o = base_of(v, n["o"])
            cv = v.nodes[n["a"][0]].get("cv")
            if v.nodes[o].get("d") == base and cv is not None and int(cv) >= 15:
                good.append(i)
        elif m == "operator<<" and n["a"] and stream(P, v, i) == base:
            a = v.nodes[n["a"][-1]]
            if a["k"] == "call" and short(P.callee(a) or "") == "setprecision" and int(v.nodes[a["a"][0]].get("cv") or 0) >= 15:
                good.append(i)
    def covers(g, u):
        bg, bu = v.elem_of[g], v.elem_of[u]
        if bg[0] == bu[0]:
            return bg[1] < bu[1]
        if dominates(idom, bg[0], bu[0]):
            return True
        # once for each stream, in a loop before
        for head, body, latches in loops(v):
            if bg[0] in body and bu[0] not in body and dominates(idom, head, bu[0]) and all(dominates(idom, bg[0], l) for l in latches):
                return True
        return False
    return all(any(covers(g, u) for g in good) for u in uses)
