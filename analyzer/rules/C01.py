"""Work on one counter is serialised on that counter's own strand."""
from collections import defaultdict
from ista.model import detmpl, short
from ista.util import Counts

OPS = {"record", "flush", "forceFlush", "maybeShiftCollated", "select", "purge"}
BASE = "IStatCounter"
AC = "StatStore::AsyncCounter"
STRAND, CNT = AC + "::strand_", AC + "::statCounter_"
ASSUME = ["a function posted through bind_executor(strand, f), strand.wrap(f) or strand.post(f) runs on that strand, one at a time (Boost.Asio)",
          "an AsyncCounter keeps its strand for life (checked: the strand is a plain member, never assigned)"]
WRAP = {"bind_executor", "wrap"}
POST = {"post", "dispatch", "defer"}


def is_strand_t(t):
    return "strand" in (t or "")


def is_cnt_cls(P, c):
    c = detmpl(c or "")
    return c == BASE or BASE in [detmpl(x) for x in P.all_bases(c)]


def origin(v, d):
    """initialiser of a local that is never changed afterwards"""
    q = v.vars.get(d)
    if q and not q["param"] and len(q["inits"]) == 1 and q["assigned"] == 0:
        return q["inits"][0]
    return None


def outs(P, v):
    """local d -> set of find() calls that set it (None: also changed otherwise); role per call"""
    c = v.__dict__.get("_c01outs")
    if c is None:
        c = defaultdict(set)
        for i, n in v.nodes.items():
            if n["k"] == "call" and i in v.elem_of:
                fd = short(P.callee(n)) == "find" and detmpl(n.get("c") or P.callee(n) or "").split("::")[0] in ("IStatStore", "StatStore", "NullStatStore")
                for a, pk in zip(n["a"], n.get("pk", ())):
                    m = v.nodes[a]
                    if pk in ("r",) and m["k"] == "ref" and isinstance(m.get("d"), int):
                        c[m["d"]].add(i if fd else None)
                if n.get("op") == "=" and n.get("o") is not None and v.nodes[n["o"]]["k"] == "ref" and isinstance(v.nodes[n["o"]].get("d"), int):
                    c[v.nodes[n["o"]]["d"]].add(None)
                elif short(P.callee(n)) in ("swap", "reset") and n.get("o") is not None and v.nodes[n["o"]]["k"] == "ref" and isinstance(v.nodes[n["o"]].get("d"), int):
                    c[v.nodes[n["o"]]["d"]].add(None)
            elif n["k"] == "asg" and v.nodes[n["x"]]["k"] == "ref" and isinstance(v.nodes[n["x"]].get("d"), int):
                c[v.nodes[n["x"]]["d"]].add(None)
        v._c01outs = c
    return c


def apath(P, v, i, depth=0):
    """access path; value copies of never-changed locals stand for their source"""
    p = P.path(v, i)
    if p and isinstance(p[0], tuple) and p[0][0] == "v" and depth < 6:
        o = origin(v, p[0][1])
        q = v.vars.get(p[0][1])
        if o is not None and not outs(P, v).get(p[0][1]):
            j = P.strip_smart(v, o)
            n = v.nodes[j]
            if n["k"] == "ctor" and len(n["a"]) == 1 or n["k"] in ("ref", "mem") or n["k"] == "call" and short(P.callee(n)) in ("front", "back"):
                k = n["a"][0] if n["k"] == "ctor" else j
                r = apath(P, v, k, depth + 1)
                if r and not (isinstance(r[0], tuple) and r[0][0] == "e"):
                    return r + p[1:]
    return p


class Pairs:
    def __init__(self, P):
        self.P = P

    def cnt(self, v, i, depth=0):
        """identity of the AsyncCounter a counter expression belongs to"""
        P = self.P
        j = P.strip_smart(v, i)
        n = v.nodes[j]
        if n["k"] == "ctor" and len(n["a"]) == 1 and depth < 8:
            return self.cnt(v, n["a"][0], depth + 1)
        if n["k"] == "cond" and depth < 8:
            a, b = self.cnt(v, n["x"], depth + 1), self.cnt(v, n["r"], depth + 1)
            return a if a == b else None
        if n["k"] == "call" and n.get("o") is not None and short(P.callee(n)) in ("counter", "replaceCounter") and detmpl(n.get("c") or "") in (AC, "AsyncCounter"):
            return ("AC", apath(P, v, n["o"]))
        if n["k"] == "mem" and detmpl(n["n"]) == CNT:
            return ("AC", apath(P, v, n["b"]))
        if n["k"] == "ref" and n.get("d") is not None:
            d = n["d"]
            o = origin(v, d)
            calls = outs(P, v).get(d)
            if calls:
                return ("find", frozenset(calls)) if None not in calls else None
            if o is not None and depth < 8:
                r = self.cnt(v, o, depth + 1)
                if r:
                    return r
            q = v.vars.get(d)
            if q and q["param"]:
                return ("param", d)
        p = apath(P, v, i)
        if p and p[-1] == "std::pair::first":
            return ("elem", p[:-1])
        if n["k"] == "mem":
            fld = self.paired(detmpl(n["n"]))
            if fld:
                return ("AC", apath(P, v, n["b"]) + (fld,))
            return ("field", apath(P, v, n["b"]), detmpl(n["n"]))
        return None

    def strand(self, v, i, depth=0):
        P = self.P
        j = P.strip_smart(v, i)
        n = v.nodes[j]
        if n["k"] == "ctor" and len(n["a"]) == 1 and depth < 8:
            return self.strand(v, n["a"][0], depth + 1)
        if n["k"] == "mem" and detmpl(n["n"]) == STRAND:
            return ("AC", apath(P, v, n["b"]))
        if n["k"] == "ref" and n.get("d") is not None:
            d = n["d"]
            calls = outs(P, v).get(d)
            if calls:
                return ("find", frozenset(calls)) if None not in calls else None
            o = origin(v, d)
            if o is not None and depth < 8:
                r = self.strand(v, o, depth + 1)
                if r:
                    return r
            q = v.vars.get(d)
            if q and q["param"]:
                return ("param", d)
        p = apath(P, v, i)
        if p and len(p) > 2 and p[-2:] == ("std::pair::second", "std::pair::first"):
            return ("elem", p[:-2])
        if p and p[-1] == "std::pair::second":
            return ("elem", p[:-1])
        return None

    _paired = None

    def paired(self, fld):
        """field G of the same record that always holds the AsyncCounter of the counter in field fld"""
        P = self.P
        if self._paired is None:
            self._paired = {}
        if fld in self._paired:
            return self._paired[fld]
        self._paired[fld] = None
        cand = None
        for v in P.roots():
            st = defaultdict(dict)
            hit = False
            for i, n in v.nodes.items():
                if i not in v.elem_of:
                    continue
                x = val = None
                if n["k"] == "asg":
                    x, val = n["x"], n["r"]
                elif n["k"] == "call" and n.get("op") == "=" and n.get("o") is not None and n["a"]:
                    x, val = n["o"], n["a"][0]
                if x is None or v.nodes[x]["k"] != "mem":
                    continue
                b = apath(P, v, v.nodes[x]["b"])
                m = detmpl(v.nodes[x]["n"])
                st[b].setdefault(m, []).append(val)
                hit = hit or m == fld
            if not hit:
                continue
            for b, d in st.items():
                if fld not in d:
                    continue
                if len(d[fld]) != 1:
                    return None
                c = self.cnt(v, d[fld][0])
                g = [m for m, vals in d.items() if m != fld and len(vals) == 1 and c and c[0] == "AC" and apath(P, v, vals[0]) == c[1]]
                if not g or cand not in (None, g[0]):
                    return None
                cand = g[0]
        self._paired[fld] = cand
        return cand

    def elem_ok(self, v, e, R=None):
        """containers of (counter, strand) pairs: every insertion puts a matching pair"""
        P = self.P
        root = e[0]
        flds = set()
        if isinstance(root, tuple) and root[0] == "v":
            q = v.vars.get(root[1])
            for x in (q or {}).get("inits", ()):
                for j in v.subtree(x):
                    m = v.nodes[j]
                    if m["k"] == "mem":
                        flds.add(detmpl(m["n"]))
        for c in e:
            if isinstance(c, str) and not c.startswith("std::"):
                flds.add(c)
        ok, n0 = True, 0
        for w in P.roots():
            for i, n in w.nodes.items():
                if n["k"] != "call" or i not in w.elem_of or n.get("o") is None:
                    continue
                s = short(P.callee(n))
                if n.get("op") == "=" or s in ("insert", "push_back"):
                    o = w.nodes[n["o"]]
                    if n.get("op") == "=":
                        if o["k"] != "call" or o.get("op") != "[]":
                            continue
                        tgt, parts = o["o"], [o["a"][0], n["a"][0]]
                    else:
                        tgt, parts = n["o"], list(n["a"])
                    p = P.path(w, tgt)
                    if not p or p[-1] not in flds:
                        continue
                    n0 += 1
                    cs, ss = self.find_pair(w, parts)
                    if cs is None or ss is None or not self.match(w, cs, w, ss):
                        ok = False
        return ok and n0 > 0

    def find_pair(self, w, parts):
        P = self.P
        cs = ss = None
        st = list(parts)
        while st:
            j = st.pop()
            n = w.nodes[j]
            t = n.get("tc", "") + " " + n.get("t", "")
            if n["k"] in ("ref", "mem") or n["k"] == "call":
                if "strand" in t and "pair" not in t:
                    ss = j
                    continue
                if BASE in t and "pair" not in t and "map" not in t:
                    cs = j
                    continue
            if n["k"] == "ref" and origin(w, n.get("d")) is not None:
                st.append(origin(w, n["d"]))
            st.extend(w.kids(j))
        return cs, ss

    def match(self, v, c, w, s, depth=0):
        """counter expression c of view v and strand expression s of view w (same view) belong together"""
        a, b = self.cnt(v, c), self.strand(w, s)
        if a is None or b is None:
            return False
        if a[0] == "param" and b[0] == "param" and v is w:
            return depth < 4 and self.args_match(v, a[1], b[1], depth)
        if a != b or v is not w:
            return False
        if a[0] == "elem":
            return self.elem_ok(v, a[1])
        if a[0] == "AC":
            return a[1] is not None and not (isinstance(a[1][0], tuple) and a[1][0][0] == "e")
        return True

    def args_match(self, v, dc, ds, depth):
        P = self.P
        idx = {q["d"]: k for k, q in enumerate(v.params)}
        if dc not in idx or ds not in idx:
            return False
        f = P.funcs[v.u]
        if P.taken[f.u]:
            return False
        n0 = 0
        for g, i in P.callers[f.u]:
            for w, j in P.contexts(g, i):
                n = w.nodes[j]
                if n["k"] != "call":
                    return False
                n0 += 1
                if not self.match(w, n["a"][idx[dc]], w, n["a"][idx[ds]], depth + 1):
                    return False
        return n0 > 0


def skipped(f):
    return f.implicit or f.file.startswith(("tool/", "test/")) or "test" in f.file or (f.cls or "").startswith("Fake")


def run(P, R):
    R.rule("bound", "a counter operation bound for later runs only through the strand of the counter it is bound to", 0)
    R.rule("direct", "a counter operation called directly runs in a handler posted only through the strand of that counter", 6)
    R.rule("pairing", "looking up a counter hands out the counter and the strand of one and the same entry", 1)
    R.rule("own-strand", "every entry has a strand of its own that never changes", 1)
    R.rule("refresh", "the refresh of the key index runs only on the refresh strand", 1)
    X = Pairs(P)
    for f in list(P.funcs.values()):
        if skipped(f):
            continue
        for i, n in list(f.nodes.items()):
            if n["k"] == "call" and n.get("o") is not None and i in f.elem_of and short(P.callee(n)) in OPS and is_cnt_cls(P, detmpl(P.callee(n) or "").rsplit("::", 1)[0]):
                if is_cnt_cls(P, f.cls or ""):
                    m = f.nodes[P.strip_smart(f, n["o"])]
                    if m["k"] == "this":
                        continue            # part of the same operation
                for v, j in P.contexts(f, i):
                    ok, why = direct(P, X, v, j, v.nodes[j]["o"])
                    R.ob("direct", f.loc(i), P.render(f, i), ok, func=f.f, detail=short(P.callee(n)),
                         msg="%s runs %s" % (P.render(f, i), why))
            elif n["k"] == "fn" and short(P.callee(n)) in OPS and is_cnt_cls(P, detmpl(P.callee(n) or "").rsplit("::", 1)[0]) and f.parents.get(i):
                for v, j in P.contexts(f, i):
                    c = bind_of(P, v, j)
                    if c is None:
                        R.ob("bound", f.loc(i), P.render(f, i), False, func=f.f, detail="escape", msg="a counter operation is passed on in a way that cannot be followed")
                        continue
                    ss, why = wraps(P, v, c[2])
                    ok = bool(ss) and not why and all(c[1] and X.match(v, c[1][0], v, s) for s in ss)
                    R.ob("bound", f.loc(i), P.render(v, c[2]), ok, func=f.f, detail="bound " + short(P.callee(n)),
                         msg="%s is scheduled %s" % (P.callee(n), why or "without the strand of its counter"))
    # find(): both results from one entry
    for f in P.funcs.values():
        if short(f.f) != "find" or skipped(f) or len(f.params) != 3 or "IStatStore" not in [detmpl(b) for b in P.all_bases(f.cls or "")]:
            continue
        v = P.view(f)
        dc, ds = f.params[1]["d"], f.params[2]["d"]
        cs, ss = [], []
        for i, n in v.nodes.items():
            x = None
            if n["k"] == "asg":
                x, val = n["x"], n["r"]
            elif n["k"] == "call" and n.get("op") == "=" and n.get("o") is not None and n["a"]:
                x, val = n["o"], n["a"][0]
            if x is None or i not in v.elem_of or v.nodes[x]["k"] != "ref":
                continue
            if v.nodes[x].get("d") == dc:
                cs.append((i, X.cnt(v, val)))
            elif v.nodes[x].get("d") == ds:
                ss.append((i, X.strand(v, val)))
        cs = [(i, c) for i, c in cs if c or not null_set(v, i)]
        if not cs:
            continue
        ok = len(set(c for _, c in cs if c)) == 1 and len(ss) == 1 and ss[0][1] == [c for _, c in cs if c][0]
        if ok:
            good = [i for i, c in cs if c]
            C = Counts(P, v, ["c", "s"], lambda g, e: [("c", "=", 1)] if e in good else [("s", "=", 1)] if e == ss[0][0] else ()).solve()
            s = C.inb.get(v.exit) or ()
            ok = all(C.gval(a, "c") <= C.gval(a, "s") for a in s)
        R.ob("pairing", f.loc(), f.f, ok, func=f.f, detail="find", msg="find() may hand out a counter with the strand of another entry, or without one")
    c = P.classes.get(AC)
    t = ""
    for q in (c or {}).get("fields", ()):
        if detmpl(q["n"]) == STRAND:
            t = q["t"]
    R.ob("own-strand", "daemon/StatStore.h", "strand_ : " + t, "strand" in t and not t.rstrip().endswith(("&", "*")) and "_ptr" not in t, detail="member",
         msg="a counter's strand is not its own member any more")
    for f in P.funcs.values():
        for i, n in f.nodes.items():
            tgt = n["x"] if n["k"] == "asg" else n["o"] if n["k"] == "call" and n.get("op") == "=" and n.get("o") is not None else None
            if tgt is not None and f.nodes[tgt]["k"] == "mem" and detmpl(f.nodes[tgt]["n"]) == STRAND and not f.implicit:
                R.ob("own-strand", f.loc(i), P.render(f, i), False, func=f.f, detail="assigned", msg="a counter's strand is replaced")
        if f.is_ctor and detmpl(f.cls or "") == AC and not f.implicit:
            own = False
            for e in f.inits if hasattr(f, "inits") else ():
                pass
    refresh(P, R)


def null_set(v, i):
    n = v.nodes[i]
    val = n["r"] if n["k"] == "asg" else n["a"][0]
    leaf = [v.nodes[j] for j in v.subtree(val) if v.nodes[j]["k"] in ("ref", "mem", "call", "int", "this")]
    return all(m["k"] == "int" and m.get("cv") == 0 for m in leaf)


def refresh(P, R):
    KW = "StatStore::keysWA_"
    for f in P.funcs.values():
        if skipped(f) or f.is_ctor or f.is_dtor:
            continue
        hit = [i for i, n in f.nodes.items() if n["k"] == "mem" and detmpl(n["n"]) == KW]
        if not hit:
            continue
        for v, j in P.contexts(f, hit[0]):
            g = P.funcs[v.u]
            ok, why = True, ""
            if not P.taken[g.u] or any(True for c, i in P.callers[g.u] if not skipped(c)):
                ok, why = False, "is called directly"
            for b, i in P.taken[g.u]:
                if skipped(b):
                    continue
                for w, k in P.contexts(b, i):
                    c = bind_of(P, w, k)
                    ss, bad = wraps(P, w, c[2]) if c else ([], "unknown")
                    if not ss or bad or any((P.path(w, s) or ("",))[-1] != "StatStore::refreshStrand_" for s in ss):
                        ok, why = False, "is posted without the refresh strand"
            R.ob("refresh", f.loc(hit[0]), "keysWA_", ok, func=f.f, detail="keysWA " + f.f, msg="the key index under construction is used in code that %s" % why)


def bind_of(P, v, i):
    """the bind() call a function reference is the target of"""
    st, seen = [i], set()
    while st:
        x = st.pop()
        for p in v.parents.get(x, ()):
            if p in seen:
                continue
            seen.add(p)
            c = P.closure(v, p)
            if c and c[0] == i:
                if c[1] or v.nodes[c[2]]["k"] == "call":
                    return c
                st.append(p)
            elif v.nodes[p]["k"] in ("un", "cast"):
                st.append(p)
    return None


def wraps(P, v, i):
    """strand expressions a closure is scheduled through; second: reason it may run outside one"""
    ss, bad = [], ""
    st, seen = [(i, False)], set()
    while st:
        x, wrapped = st.pop()
        if (x, wrapped) in seen:
            continue
        seen.add((x, wrapped))
        ps = v.parents.get(x, ())
        used = False
        for p in ps:
            n = v.nodes[p]
            if n["k"] == "call":
                s = short(P.callee(n))
                if s in WRAP and x in n["a"]:
                    used = True
                    if s == "bind_executor":
                        if is_strand_t(v.nodes[n["a"][0]].get("tc", "") + v.nodes[n["a"][0]].get("t", "")):
                            ss.append(n["a"][0])
                            st.append((p, True))
                        else:
                            return ss, "on an executor that is no strand"
                    else:
                        ss.append(n["o"])
                        st.append((p, True))
                elif s in POST and x in n["a"]:
                    used = True
                    if wrapped:
                        continue
                    o = n.get("o") if n.get("o") is not None else (n["a"][0] if n["a"][0] != x else None)
                    if o is not None and is_strand_t(v.nodes[P.strip_smart(v, o)].get("tc", "") + v.nodes[o].get("tc", "") + v.nodes[o].get("t", "")):
                        ss.append(o)
                    else:
                        return ss, "without a strand"
                elif n.get("op") == "()" and n.get("o") == x:
                    return ss, "at once, outside any strand"
                elif s in ("move", "ref", "cref", "protect"):
                    used = True
                    st.append((p, wrapped))
                elif n.get("op") == "=":
                    return ss, "through a variable that cannot be followed"
                else:
                    return ss, "through %s" % s
            elif n["k"] in ("ctor", "cast"):
                used = True
                st.append((p, wrapped))
            elif n["k"] == "decl":
                for q in n["ds"]:
                    if q.get("i") == x:
                        used = True
                        for j, m in v.nodes.items():
                            if m["k"] == "ref" and m.get("d") == q["d"]:
                                if v.vars[q["d"]]["assigned"]:
                                    return ss, "through a variable that changes"
                                st.append((j, wrapped))
            elif n["k"] in ("ret",):
                return ss, "by a caller that cannot be followed"
        if not used and not ps and not wrapped:
            bad = bad or "never"
    return ss, "" if ss else bad or "without a strand"


def direct(P, X, v, i, o):
    """the op on receiver o in view v: every way into v's function is through the strand of that counter"""
    f = P.funcs[v.u]
    if is_cnt_cls(P, f.cls or "") and apath(P, v, o)[0] == "this":
        return True, ""
    c = X.cnt(v, o)
    if c is None:
        return False, "on a counter whose strand is unknown"
    if any(not skipped(g) for g, _ in P.callers[f.u]):
        return False, "in a function that is also called directly, outside the counter's strand"
    if not P.taken[f.u]:
        return False, "outside the counter's strand"
    for b, k in P.taken[f.u]:
        if skipped(b):
            continue
        for w, j in P.contexts(b, k):
            cl = bind_of(P, w, j)
            if cl is None:
                return False, "in a handler that cannot be followed"
            ss, why = wraps(P, w, cl[2])
            if why or not ss:
                return False, "in a handler scheduled %s" % (why or "without a strand")
            for s in ss:
                if c[0] == "param":
                    idx = [k2 for k2, q in enumerate(v.params) if q["d"] == c[1]]
                    args = cl[1][1:] if f.cls and not f.static else cl[1]
                    if not idx or idx[0] >= len(args) or not X.match(w, args[idx[0]], w, s):
                        return False, "in a handler that is posted through a strand of another counter"
                elif c[0] in ("AC",) and c[1] and c[1][0] == "this":
                    obj = apath(P, w, cl[1][0]) if cl[1] else None
                    t = X.strand(w, s)
                    if t is None or t[0] != "AC" or obj is None or t[1] != obj + c[1][1:]:
                        return False, "in a handler that is posted through a strand of another counter"
                    if "[]" in c[1] and not front(P, v, w, i, cl[2], c[1]):
                        return False, "on an entry that may not be the one it was posted for"
                else:
                    return False, "on a counter that is not tied to the strand of the handler"
    return True, ""


def front(P, v, w, i, post, path):
    """the queue's first entry at posting is the one the handler takes: nothing removed before it is read, nor after it was posted"""
    k = path.index("[]")
    fld = path[k - 1]

    def pops(g, e):
        n = g.nodes.get(e) if isinstance(e, int) else None
        if n is not None and n["k"] == "call" and n.get("o") is not None and short(P.callee(n)) in ("pop_front", "pop_back", "erase", "clear", "push_front", "insert", "swap", "sort", "reverse", "splice", "remove", "operator="):
            p = P.path(g, n["o"])
            return bool(p) and p[-1] == fld
        return False

    def reads(g, e):
        n = g.nodes.get(e) if isinstance(e, int) else None
        if n is not None and n["k"] == "call" and n.get("o") is not None and short(P.callee(n)) in ("front", "back"):
            p = P.path(g, n["o"])
            return bool(p) and p[-1] == fld
        return False
    names = set(short(P.callee(n)) for g in (v, w) for e, n in g.nodes.items() if reads(g, e))
    if names != {"front"}:
        return False
    C = Counts(P, v, ["popped"], lambda g, e: [("popped", "=", 1)] if pops(g, e) else ()).solve()
    for e in v.nodes:
        if reads(v, e) and e in v.elem_of and C.before(e) is not None and any(C.gval(a, "popped") for a in C.before(e)):
            return False
    C = Counts(P, w, ["posted"], lambda g, e: [("posted", "=", 1)] if e == post else ()).solve()
    for e in w.nodes:
        if pops(w, e) and e in w.elem_of and C.before(e) is not None and any(C.gval(a, "posted") for a in C.before(e)):
            return False
    return True
