"""Buckets: an index becomes an address only when it is in the file, a file opened for reading is never changed, a slot that holds
another time is cleared before it is merged into, and no address is used after its page may have been unmapped."""
from ista.facts import classes_of, entails, facts
from ista.flow import Flow
from ista.model import detmpl, short
from ista.throws import is_fake
from ista.util import Counts, alt_terms, subterms

ASSUME = ["the header a file was opened with is valid (D01)", "pages are unmapped only through istat::Mmap"]
CLS = "istat::StatFile"
ZERO = ("c", 0)
MERGE = ("update", "expUpdate", "collatedUpdate", "setCount", "count", "sum", "sumSq", "min", "max", "avg", "sdev")


def linear(alt, t, k=1, out=None, depth=0):
    """t as a sum of terms; L the last bucket, N the number of buckets"""
    out = {} if out is None else out
    if t[0] == "c" and isinstance(t[1], int):
        out[None] = out.get(None, 0) + k * t[1]
        return out
    if t[0] == "o" and t[1] in ("+", "-"):
        linear(alt, t[2], k, out, depth + 1)
        linear(alt, t[3], k if t[1] == "+" else -k, out, depth + 1)
        return out
    n = t
    for c in classes_of(alt, t):
        if c[0] == "f" and c[2].endswith("::last_bucket"):
            n = "L"
        elif c[0] == "f" and c[2].rsplit("::", 1)[-1] in ("numSamples", "bucketCount_"):
            n = "N"
        elif c[0] == "o" and c[1] in ("+", "-") and depth < 4:
            return linear(alt, c, k, out, depth + 1)
    out[n] = out.get(n, 0) + k
    return out


def window(alt, of=None):
    """is some index (the variable `of`) known not to be older than everything in the file?"""
    for (op, a, b) in alt:
        if op not in ("<", "<="):
            continue
        lf = linear(alt, a, -1, linear(alt, b))
        lf = {x: c for x, c in lf.items() if c}
        slack = lf.pop(None, 0) - (1 if op == "<" else 0)
        if lf.get("L") == -1 and lf.get("N") == 1 and len(lf) == 3 and slack <= -1:
            x = [t for t in lf if t not in ("L", "N")][0]
            if lf[x] == 1 and (of is None or of in classes_of(alt, x)):
                return True
    return False


class Marked(Counts):
    preds = ()

    def edge(self, s, b, k, succ):
        s = super().edge(s, b, k, succ)
        if s:
            for name, p in self.preds:
                good = frozenset(a for a in s if self.gval(a, name) != 1 and p(a))
                if good:
                    s = (s - good) | self.bump_ghosts(good, [(name, "=", 1)])
        return s


def contracts(P):
    """(names of functions that are true only for an index in the file, names of functions that are negative for any other)"""
    W, X = {}, {}
    for rnd in (0, 1):
        for f in P.funcs.values():
            if f.cls != CLS or is_fake(f) or f.implicit or len(f.params) != 1 or short(f.f) in W or not str(f.rt).replace("_t", "").startswith(("bool", "int", "long", "_Bool", "std::int")):
                continue
            rets = [(i, n) for i, n in f.nodes.items() if n["k"] == "ret" and n.get("x") is not None]
            p = ("v", f.params[0]["d"] if isinstance(f.params[0], dict) else f.params[0])
            v = P.view(f)
            rets = [(i, n) for i, n in v.nodes.items() if n["k"] == "ret" and n.get("x") is not None]
            F = Marked(P, v, ["w"], lambda g, e: ())
            F.preds = [("w", lambda a: window(a, p) or any(t[0] == "m" and t[1] in W and len(t) > 3 and p in classes_of(a, t[3]) and entails(a, "!=", t, ZERO) for t in alt_terms(a)))]
            F.solve()
            isb = str(f.rt) in ("bool", "_Bool")
            ok, some = True, False
            for i, n in rets:
                t = F.term(n["x"])
                for a in F.before(i) or ():
                    if F.gval(a, "w") == 1 or window(a, p):
                        some = True
                    elif isb and (t == ZERO or entails(a, "==", t, ZERO)) or not isb and (t[0] == "c" and t[1] < 0 or entails(a, "<", t, ZERO)):
                        pass
                    else:
                        ok = False
            if ok and some:
                (W if isb else X)[short(f.f)] = f
    return W, X


def bucket_ptr(v, i):
    """is node i a pointer or reference to a bucket held in a variable or a field (not an array of its own)?"""
    n = v.nodes[i]
    if n["k"] == "ref" and n["dk"] in ("local", "param"):
        q = v.vars.get(n["d"])
        t = q and str(q["t"])
        return bool(t) and "Bucket" in t and t.rstrip().endswith(("*", "&"))
    if n["k"] == "mem":
        return n["n"].endswith("BucketPage::ptr")
    return False


def run(P, R):
    R.rule("slot", "an index becomes the address of a bucket only when it is not negative and within its page", 1)
    R.rule("window", "what a sample changes in a file is changed only for a time the file still covers", 2)
    R.rule("readonly", "a bucket or the header is changed only in a file opened for writing", 4)
    R.rule("cleared", "data is merged into a slot only when the slot holds the same time or was cleared", 1)
    R.rule("page", "the address of a bucket is not used after another page may have replaced its page", 1)
    W, X = contracts(P)
    R.note("functions that tell whether an index is in the file: %s; that map it to a place in the file: %s" % (", ".join(sorted(W)), ", ".join(sorted(X))))

    def infile(a):
        for t in alt_terms(a):
            if t[0] == "m" and t[1] in W and entails(a, "!=", t, ZERO) or t[0] == "m" and t[1] in X and entails(a, ">=", t, ZERO):
                return True
        return window(a)

    def writable(a):
        return any(t[0] == "f" and t[2] == CLS + "::fileWritable_" and entails(a, "!=", t, ZERO) for t in alt_terms(a))

    for v in P.roots():
        if v.cls != CLS or is_fake(v) or v.implicit or v.is_ctor or v.is_dtor:
            continue
        # what is changed
        events, slots = {}, {}
        for i, n in v.nodes.items():
            if i not in v.elem_of:
                continue
            if n["k"] == "asg":
                x = v.nodes[n["x"]]
                if x["k"] == "mem" and "Header" in x["n"]:
                    events[i] = ("header", P.render(v, n["x"]))
            elif n["k"] == "call":
                c = detmpl(P.callee(n) or "")
                m = short(c)
                if m in ("memset", "memcpy", "memmove") and n["a"]:
                    x = base(v, n["a"][0])
                    if bucket_ptr(v, x) and not callers_own(v, x):
                        events[i] = ("clear" if m != "memmove" else "write", P.render(v, x))
                elif "Bucket" in c and n.get("o") is not None:
                    x = base(v, n["o"])
                    if bucket_ptr(v, x) and not callers_own(v, x):
                        if m == "operator=" :
                            events[i] = ("clear", P.render(v, x))
                        elif m in MERGE:
                            events[i] = ("merge" if not n.get("const") else "look", P.render(v, x))
                    elif m == "operator=" and own_array(v, n["o"]):
                        events[i] = ("own", "")
            elif n["k"] == "idx" and bucket_ptr(v, n["b"]) and not callers_own(v, n["b"]):
                slots[i] = n["i"]
            elif n["k"] == "bin" and n["op"] == "+" and bucket_ptr(v, n["x"]) and not callers_own(v, n["x"]) and not only_read(P, v, i):
                slots[i] = n["r"]
        for i, n in v.nodes.items():
            if n["k"] == "idx" and i not in slots and bucket_ptr(v, n["b"]) and not callers_own(v, n["b"]):
                slots[i] = n["i"]
        if not events and not slots:
            continue

        def ev(g, e):
            if not isinstance(e, int):
                return ()
            k = events.get(e)
            if k and k[0] in ("clear", "own"):
                return [("fresh", "=", 1)]
            if v.nodes[e]["k"] in ("un", "ret", "iret", "decl", "asg") and any(s in slots for s in sub(v, e)):
                return [("fresh", "=", 0)]
            return ()

        def fresh(a):
            return any(op == "==" and (tm(x) and y[0] != "c" or tm(y) and x[0] != "c") for (op, x, y) in a)
        F = Marked(P, v, ["in", "rw", "fresh"], ev)
        F.preds = [("in", infile), ("rw", writable), ("fresh", fresh)]
        F.solve()
        for i, x in sorted(slots.items()):
            s = F.before(i)
            ok = s is None or all(in_page(F, v, a, F.term(x)) and infile(a) for a in s) or alone(P, v, i, infile)
            R.ob("slot", v.loc(i), P.render(v, i), ok, func=raw(P, v, i), detail="slot", msg="a bucket that is not in the file gets an address")
        for i, (k, what) in sorted(events.items()):
            s = F.before(i)
            if s is None or k == "own":
                continue
            fn = raw(P, v, i)
            if k != "look":
                R.ob("readonly", v.loc(i), "%s (%s)" % (P.render(v, i)[:70], k), all(F.gval(a, "rw") == 1 or writable(a) for a in s), func=fn, detail="%s:%s" % (k, what),
                     msg="%s is changed although the file may have been opened for reading only" % what)
            if k == "merge" or k == "look":
                R.ob("cleared", v.loc(i), P.render(v, i)[:70], all(F.gval(a, "fresh") == 1 for a in s), func=fn, detail="%s:%s" % (k, what),
                     msg="a slot of %s that may hold data of another time is merged into or looked at" % what)
            if k in ("merge", "clear"):
                R.ob("window", v.loc(i), P.render(v, i)[:70], all(F.gval(a, "in") == 1 or infile(a) for a in s), func=fn, detail="%s:%s" % (k, what),
                     msg="%s is changed for a time that may not be in the file" % what)
        pages(P, R, v)


def alone(P, v, i, infile):
    """does it hold in the function itself, whoever calls it?"""
    o = v.nodes[i].get("_o")
    if not o or o[0] not in P.funcs:
        return False
    f = P.view(P.funcs[o[0]])
    F = facts(P, f)
    s = F.before(o[1])
    n = f.nodes[o[1]]
    return s is not None and all(in_page(F, f, a, F.term(n["i"] if n["k"] == "idx" else n["r"])) and infile(a) for a in s)


def tm(t):
    return t[0] == "f" and t[2].endswith("::time_")


def raw(P, v, i):
    o = v.nodes[i].get("_o")
    return P.funcs[o[0]].f if o and o[0] in P.funcs else v.f


def base(v, i):
    while True:
        n = v.nodes[i]
        if n["k"] == "cast":
            i = n["x"]
        elif n["k"] == "un" and n["op"] in ("*", "&"):
            i = n["x"]
        elif n["k"] == "idx":
            i = n["b"]
        else:
            return i


def own_array(v, i):
    x = v.nodes[base(v, i)]
    return x["k"] == "mem" and x["n"].startswith(CLS) and not x["n"].endswith("::ptr")


def callers_own(v, i):
    """a buffer of the caller's"""
    for _ in range(6):
        n = v.nodes[i]
        if n["k"] == "ref" and n["dk"] == "param":
            return True
        if n["k"] != "ref" or n["dk"] != "local":
            return False
        a = assigned(v, n["d"])
        if len(a) != 1:
            return False
        i = base(v, a[0])
    return False


def only_read(P, v, i):
    """the address is only copied from"""
    ps = v.parents.get(i, [])
    while ps and v.nodes[ps[0]]["k"] == "cast":
        i, ps = ps[0], v.parents.get(ps[0], [])
    return bool(ps) and all(v.nodes[p]["k"] == "call" and short(P.callee(v.nodes[p]) or "") in ("memcpy", "memmove") and v.nodes[p]["a"][1] == i for p in ps)


def sub(v, e):
    st, seen = [e], set()
    while st:
        x = st.pop()
        if x in seen:
            continue
        seen.add(x)
        st.extend(k for k in v.kids(x))
    return seen


def expand(F, v, alt, t):
    """what a variable that is set once was set to"""
    r = set(classes_of(alt, t))
    for c in list(r):
        if c[0] == "v":
            q = v.vars.get(c[1])
            if q and len(q["inits"]) == 1 and q["inits"][0] is not None and not q.get("assigned"):
                r.add(F.term(q["inits"][0]))
    return r


def nonneg(F, v, alt, t, d=0):
    if entails(alt, ">=", t, ZERO) or t[0] == "c" and isinstance(t[1], int) and t[1] >= 0:
        return True
    if d > 5:
        return False
    for c in expand(F, v, alt, t):
        if entails(alt, ">=", c, ZERO):
            return True
        if c[0] == "o" and c[1] in ("%",) and nonneg(F, v, alt, c[2], d + 1):
            return True
        if c[0] == "o" and c[1] in ("+", "*", "/") and nonneg(F, v, alt, c[2], d + 1) and nonneg(F, v, alt, c[3], d + 1):
            return True
    return False


def same(F, v, alt, a, b):
    return bool(expand(F, v, alt, a) & expand(F, v, alt, b))


def in_page(F, v, alt, t):
    """0 <= t < buckets per page"""
    for c in expand(F, v, alt, t):
        if c[0] == "o" and c[1] == "%" and perpage(F, v, alt, c[3]) and nonneg(F, v, alt, c[2]):
            return True
        if c[0] == "o" and c[1] == "-":
            for m in expand(F, v, alt, c[3]):
                if m[0] != "o" or m[1] != "*":
                    continue
                for q, n in ((m[2], m[3]), (m[3], m[2])):
                    if perpage(F, v, alt, n) and nonneg(F, v, alt, c[2]) and any(
                            x[0] == "o" and x[1] == "/" and same(F, v, alt, x[2], c[2]) and perpage(F, v, alt, x[3]) for x in expand(F, v, alt, q)):
                        return True
    return False


def perpage(F, v, alt, t):
    return any(c[0] == "f" and c[2] == CLS + "::bucketsPerPage_" for c in expand(F, v, alt, t))


class Pages(Flow):
    """variables that hold an address in a page -> may the page be gone?"""
    exceptions = False

    def __init__(self, P, f):
        self.P, self.bad = P, {}
        super().__init__(P, f)

    def init(self):
        return frozenset()

    def join(self, a, b):
        return a | b

    def elem(self, s, e, b):
        if not isinstance(e, int):
            return s
        v, n = self.f, self.f.nodes[e]
        if n["k"] == "decl":
            for d in n["ds"]:
                s = frozenset(x for x in s if x[0] != d["d"])
                if d.get("i") is not None and is_ptr(v, d["d"]) and mapped(self.P, v, d["i"]):
                    s |= {(d["d"], False)}
            return s
        if n["k"] == "asg" and v.nodes[n["x"]]["k"] == "ref" and is_ptr(v, v.nodes[n["x"]].get("d")):
            d = v.nodes[n["x"]]["d"]
            return frozenset(x for x in s if x[0] != d) | ({(d, False)} if mapped(self.P, v, n["r"]) else set())
        if n["k"] == "call" and e in self.unmaps:
            return frozenset((d, True) for d, _ in s)
        return s


def is_ptr(v, d):
    q = v.vars.get(d)
    t = q and str(q["t"])
    return bool(t) and "Bucket" in t and "BucketPage" not in t and t.rstrip().endswith(("*", "&")) and not q.get("param")


def pages(P, R, v):
    unm = set()
    for i, n in v.nodes.items():
        if n["k"] == "call" and i in v.elem_of:
            if short(P.callee(n) or "") == "unmap" and "Mmap" in (P.callee(n) or ""):
                unm.add(i)
            else:
                ts = [t for t in P.targets(v, n) if t.cls == CLS] if n.get("f", "").startswith(CLS) else []
                if ts and any(short(P.callee(m) or "") == "unmap" for g in P.reach(ts) for m in P.funcs[g].nodes.values() if m["k"] == "call"):
                    unm.add(i)
    if not unm:
        return
    A = Pages(P, v)
    A.unmaps = unm
    A.run()
    uses = {}

    def cb(s, e, b):
        if not isinstance(e, int):
            return
        n = v.nodes[e]
        gone = set(d for d, g in s if g)
        for i in sub(v, e):
            m = v.nodes[i]
            if m["k"] != "ref" or not is_ptr(v, m.get("d")):
                continue
            if n["k"] == "asg" and n["x"] == i:
                continue
            q = v.vars[m["d"]]
            if q["inits"] and not any(x is not None and mapped(P, v, x) for x in assigned(v, m["d"])):
                continue
            o = uses.setdefault((m["d"]), [i, True])
            if m["d"] in gone and e not in unm:
                o[0], o[1] = i, False
    A.visit(cb)
    for d, (i, ok) in sorted(uses.items()):
        R.ob("page", v.loc(i), "%s in %s" % (v.vars[d]["n"], v.f), ok, func=raw(P, v, i), detail=str(v.vars[d]["n"]),
             msg="%s points into a page that may have been unmapped when another page was mapped" % v.vars[d]["n"])


def assigned(v, d):
    r = [x for x in v.vars[d]["inits"] if x is not None]
    r += [n["r"] for n in v.nodes.values() if n["k"] == "asg" and v.nodes[n["x"]]["k"] == "ref" and v.nodes[n["x"]].get("d") == d]
    return r


def mapped(P, v, i):
    """does the value come from a mapped page (or is it unknown)? an address in an array of the object itself does not"""
    n = v.nodes[i]
    if n["k"] == "cast":
        return mapped(P, v, n["x"])
    if n["k"] == "un" and n["op"] in ("&", "*"):
        return mapped(P, v, n["x"])
    if n["k"] == "idx":
        return mapped(P, v, n["b"])
    if n["k"] == "int":
        return False
    if n["k"] == "mem":
        return n["n"].endswith("BucketPage::ptr")
    if n["k"] == "ref":
        return n["dk"] == "local"
    return True
