"""No leftover memory: locals are assigned before they are read, objects leave their constructor with every plain member set."""
from ista.model import detmpl, short
from ista.assign import Assign, TOP, is_scalar, all_fields
from ista.util import Counts, dominators, dominates
from ista.flow import Flow

ASSUME = ["a callee outside the program that is given the address of, or a non-const reference to, a variable assigns it",
          "elements a standard container creates itself are value-initialised or overwritten by the reader that fills them",
          "arrays of characters used as raw text buffers are outside the rule"]

# Members that are set in a later phase than construction; the phase function must have set them wherever it hands on to
# (fires the signal), and only functions that come after that phase read them.
PHASE = {
    "HttpRequest::headerSize_": {"by": "HttpRequest::on_header", "signal": "HttpRequest::onHeader_", "after": {"HttpRequest::readBody"},
                                 "why": "readBody is called by the handlers of onHeader_"},
    "HttpRequest::bodyRead_": {"by": "HttpRequest::readBody", "signal": None, "after": {"HttpRequest::on_body"},
                               "why": "on_body is called or registered by readBody"},
}


def skipped(f):
    return f.implicit or f.file.startswith("tool/") or "test" in f.file or "Fake" in f.file or f.file.startswith("splitter/test")


def is_ctor(P, f):
    c = detmpl(f.cls or "")
    return bool(c) and short(f.f) == c.split("::")[-1]


class AssignedAfter(Flow):
    """from the construction on, is member F of the object set on every path?"""

    def __init__(self, P, f, node, fld):
        super().__init__(P, f)
        self.node, self.fld = node, fld

    def init(self):
        return True

    def join(self, a, b):
        return a and b

    def elem(self, s, e, b):
        if e == self.node:
            return False
        n = self.f.nodes[e] if isinstance(e, int) else None
        if n and n["k"] == "asg" and n["op"] == "=":
            m = self.f.nodes[self.P.strip_smart(self.f, n["x"])]
            if m["k"] == "mem" and detmpl(m["n"]) == self.fld:
                return True
        return s


def read_sites(P, A):
    """member -> [(function, node, assigned before in the function)]"""
    r = {}
    for f in P.funcs.values():
        if f.implicit or f.u not in A.flows:
            continue
        fl = A.flows[f.u]
        own = {}
        for (i, t), ok in fl.reads.items():
            if t[0] in ("t", "p"):
                own[i] = ok
            elif t[0] == "l" and len(t) == 3:
                own[i] = ok
        for i, n in f.nodes.items():
            if n["k"] == "mem" and i in f.elem_of:
                if fl.is_read(i) or i in own:
                    r.setdefault(detmpl(n["n"]), []).append((f, i, own.get(i, False)))
    return r


def allowed_after(P, f, names, depth=0):
    if f.f in names or detmpl(f.f) in names:
        return True
    cs = P.callers.get(f.u, [])
    return depth < 4 and bool(cs) and all(allowed_after(P, g, names, depth + 1) for g, _ in cs)


def run(P, R):
    R.rule("local", "a local variable of plain type is assigned on every path before it is read", 6)
    R.rule("member", "a constructor leaves every plain member set, or the member is set before anything can read it", 60)
    R.rule("raw", "an object of a type that can be constructed without being set is set where it is constructed", 4)
    A = Assign(P)
    # -- locals
    for f in P.funcs.values():
        if skipped(f):
            continue
        fl = A.flows.get(f.u)
        if fl is None:
            continue
        locs = {}
        for n in f.nodes.values():
            if n["k"] == "decl":
                for q in n["ds"]:
                    if not q.get("static") and not q.get("ref") and q.get("i") is None and is_scalar(q["t"]):
                        locs[q["d"]] = q
        bad = {}
        seen = set()
        for (i, t), ok in fl.reads.items():
            if t[0] == "l" and len(t) == 2 and t[1] in locs:
                seen.add(t[1])
                if not ok:
                    bad.setdefault(t[1], []).append(i)
        for d in sorted(seen):
            nodes = bad.get(d, [])
            if nodes:
                nodes = [i for i in nodes if not path_sensitive(P, f, d, i, fl)]
            R.ob("local", f.loc(nodes[0]) if nodes else f.loc(), "local %s of %s" % (locs[d]["n"], f.f), not nodes, func=f.f, detail=locs[d]["n"],
                 msg="%s is read here although no value was assigned to it on some path" % locs[d]["n"])
    # -- members
    reads = read_sites(P, A)
    sites = {}          # ctor u -> [(function, node or init elem)]
    for f in P.funcs.values():
        if "test" in f.file or f.file.startswith("tool/"):
            continue
        for i, n in f.nodes.items():
            if n["k"] == "ctor" and n.get("u") in P.funcs:
                sites.setdefault(n["u"], []).append((f, i, n))
    for f in P.funcs.values():
        if skipped(f) or not is_ctor(P, f):
            continue
        c = detmpl(f.cls)
        C = P.classes.get(c)
        if C is None or A.sum.get(f.u, TOP) is TOP:
            continue
        miss = A.missing(f)
        for fl in sorted(all_fields(P, c) | miss):
            ok, why = fl not in miss, "set by the constructor"
            if not ok:
                ok, why = excused(P, A, R, f, c, fl, reads, sites)
            R.ob("member", f.loc(), "%s: %s%s" % (f.f, fl, "" if fl not in miss else " (%s)" % why), ok, func=f.f, detail=fl,
                 msg="%s is not set by this constructor, and %s" % (fl, why))


def path_sensitive(P, f, d, i, fl):
    """the same question with branch conditions taken into account"""
    def ev(v, e):
        if not isinstance(e, int):
            return []
        n = v.nodes[e]
        if n["k"] == "decl":
            return [("g", "=", 0) for q in n["ds"] if q["d"] == d]
        if n["k"] == "asg" and n["op"] == "=" and fl.tok(n["x"]) == ("l", d):
            return [("g", "=", 1)]
        if n["k"] in ("call", "ctor"):
            if ("l", d) in fl.call(frozenset(), e, n):
                return [("g", "=", 1)]
        return []
    F = Counts(P, f, ["g"], ev)
    F.solve()
    s = F.before(i)
    return s is None or all(F.gval(a, "g") for a in s)


def excused(P, A, R, f, c, fl, reads, sites):
    rs = [(g, i, ok) for g, i, ok in reads.get(fl, []) if not (g.u == f.u)]
    if not rs and fl not in (x for x in A.missing(f) if not any(fl == y for y in all_fields(P, c))):
        if fl in all_fields(P, c):
            return True, "never read"
    if rs and all(ok for _, _, ok in rs):
        return True, "assigned before every read in the reading function"
    ph = PHASE.get(fl)
    if ph:
        bad = [(g, i) for g, i, ok in rs if not ok and not allowed_after(P, g, ph["after"] | {ph["by"]})]
        own = [(g, i) for g, i, ok in rs if not ok and detmpl(g.f) == ph["by"]]
        if bad or own:
            g, i = (bad + own)[0]
            return False, "it is read at %s where its value need not have been set" % g.loc(i)
        by = [g for g in P.funcs.values() if detmpl(g.f) == ph["by"]]
        for g in by:
            if not handed_on_set(P, A, g, fl, ph):
                return False, "%s hands on without having set it" % g.f
        if by:
            return True, ph["why"]
    # every place that constructs such an object sets it there
    ss = sites.get(f.u, [])
    if not ss:
        if f.params and not used_by_make(P, f, c):
            return True, "this constructor is not used by the program"
        if not f.params and by_container_assigned(P, c):
            return True, "made only by containers, and overwritten at once"
        return False, "it may be read with whatever the memory held"
    for g, i, n in ss:
        ok = site_sets(P, A, g, i, n, f, fl)
        R.ob("raw", g.loc(i), "%s constructed in %s" % (c, g.f), ok, func=g.f, detail=c + ":" + fl,
             msg="%s of the object constructed here is not set on every path" % fl)
    return True, "every construction is judged where it happens"


def handed_on_set(P, A, g, fl, ph):
    F = A.flows[g.u]
    pts = []
    for i, n in g.nodes.items():
        if n["k"] != "call" or i not in g.elem_of:
            continue
        if ph["signal"]:
            if detmpl(P.emissions(g, n) or "").split("::")[-1] == ph["signal"].split("::")[-1]:
                pts.append(i)
            continue
        if any(detmpl(t.f) in ph["after"] for t in P.targets(g, n)):
            pts.append(i)
        for a in n["a"]:
            cl = P.closure(g, a)
            if cl and any(detmpl(t.f) in ph["after"] for t in P.targets(g, g.nodes[cl[0]])):
                pts.append(i)
    s = F.exit_state
    if pts:
        return all(F.has(F.at.get(i, frozenset()), ("t", fl)) for i in pts)
    return s is not None and ("t", fl) in s


def by_container_assigned(P, c):
    """every operator[] of a map to this type is the target of an assignment, or comes after one to the same element"""
    n0 = 0
    for f in P.funcs.values():
        hits = []
        for i, n in f.nodes.items():
            if n["k"] == "call" and n.get("op") == "[]" and detmpl(n.get("t", "")).replace("&", "").replace("const", "").strip() in (c, c.split("::")[-1]) and "ap" in (P.callee(n) or ""):
                hits.append(i)
        if not hits:
            continue
        n0 += len(hits)
        key = lambda i: (P.render(f, f.nodes[i]["o"]), P.render(f, f.nodes[i]["a"][0]))
        tgt = {}
        for m in f.nodes.items():
            if m[1]["k"] == "call" and m[1].get("op") == "=" and m[1].get("o") is not None:
                tgt[m[1]["o"]] = m[0]
        idom = dominators(f)[0]
        for i in hits:
            if i in tgt:
                continue
            b, k = f.elem_of[i]
            ok = False
            for j in hits:
                if j in tgt and key(j) == key(i) and tgt[j] in f.elem_of:
                    b2, k2 = f.elem_of[tgt[j]]
                    ok = ok or (b2 == b and k2 < k) or (b2 != b and dominates(idom, b2, b))
            if not ok:
                return False
    return n0 > 0


def compatible(P, f, a, q):
    """could this argument initialise this parameter? (only two different library or program classes are told apart)"""
    def cl(t):
        t = detmpl(t).replace("const ", "").replace("&", "").strip()
        return None if "*" in t or is_scalar(t) else t.split("::")[-1].replace("basic_string", "string")
    x, y = cl(f.nodes[P.strip_smart(f, a)].get("t", "")), cl(q["t"])
    return x is None or y is None or x == y or x == "reference_wrapper" or not (x in ("string", "shared_ptr", "vector", "map") and y in ("string", "shared_ptr", "vector", "map"))


def used_by_make(P, u, c):
    for f in P.funcs.values():
        if skipped(f):
            continue
        for i, n in f.nodes.items():
            if n["k"] == "call" and short(P.callee(n)) in ("make_shared", "allocate_shared") and n.get("t", "").find("<" + c + ">") >= 0 and len(n["a"]) == len(u.params):
                if all(compatible(P, f, a, q) for a, q in zip(n["a"], u.params)):
                    return True
    return False


def site_sets(P, A, g, i, n, ctor, fl):
    # a member or base of g's object: judged for g's constructor (missing() follows them)
    for b in g.blocks.values():
        for e in b["s"]:
            if isinstance(e, dict) and e.get("e") == "init" and e.get("x") == i:
                return True
    if not A.missing(ctor, n, g) or fl not in A.missing(ctor, n, g):
        return True
    # a local: its reads are judged one by one
    for q in g.nodes.values():
        if q["k"] == "decl" and any(x.get("i") == i for x in q["ds"]):
            d = [x["d"] for x in q["ds"] if x.get("i") == i][0]
            F = A.flows[g.u]
            return all(ok for (_, t), ok in F.reads.items() if t[0] == "l" and t[1] == d and (len(t) == 2 or t[2] == fl))
    F = AssignedAfter(P, g, i, fl)
    F.run()
    return bool(F.exit_state)
