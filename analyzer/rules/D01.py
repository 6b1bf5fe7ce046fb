"""Opening a counter file: nothing is believed before it has been checked, every failed step refuses the file, a new file has its
full size before its header is written."""
from ista.model import detmpl, short
from ista.facts import entails
from ista.util import Counts, subterms
from ista.throws import is_fake
from . import D04

ASSUME = D04.ASSUME
CLS = "istat::StatFile"
STEPS = ("istat::Mmap::open", "istat::Mmap::map", "istat::Mmap::truncate", "istat::Mmap::write")


def field(t, name):
    return isinstance(t, tuple) and t[0] == "f" and t[2].rsplit("::", 1)[-1] == name and "Header" in t[2]


def bounds(alt, name, want):
    """is there an atom that compares header field `name` as wanted? want(op, other, field on the left?)"""
    for (op, a, b) in alt:
        if field(a, name) and want(op, b, True):
            return True
        if field(b, name) and want(op, a, False):
            return True
    return False


def has_call(t, name):
    return any(x[0] in ("m", "e") and x[1] == name for x in subterms(t) if isinstance(x, tuple) and len(x) > 1)


def checks(P, v, F):
    """name -> (what, predicate on an alternative)"""
    ver, size = constants(P)

    def sysc(t):
        return any(x[0] == "m" and x[1] == "sysconf" for x in subterms(t)) or any(x[0] == "e" and short(P.callee(v.nodes[x[1]]) or "") == "sysconf" for x in subterms(t)
                                                                                 if x[0] == "e" and isinstance(x[1], int) and x[1] in v.nodes and v.nodes[x[1]]["k"] == "call")
    def var_of(t):
        q = v.vars.get(t[1]) if t[0] == "v" else None
        return q is not None and len(q["inits"]) == 1 and q["inits"][0] is not None and any(
            v.nodes[j]["k"] == "call" and short(P.callee(v.nodes[j]) or "") == "sysconf" for j in D04.leaves(v, q["inits"][0]))
    c = {}
    c["magic"] = ("the magic number", lambda a: any(op == "==" and ("c", 0) in (x, y) and any(z[0] == "m" and z[1] in ("memcmp", "strncmp", "bcmp") and any(field(w, "magic") for w in subterms(z)) for z in (x, y)) for op, x, y in a)
              or bounds(a, "magic", lambda op, o, l: op == "=="))
    c["version"] = ("the version needed to read it", lambda a: bounds(a, "rd_version", lambda op, o, l: o[0] == "c" and (op == "==" and o[1] <= ver or l and (op == "<=" and o[1] <= ver or op == "<" and o[1] <= ver + 1))))
    c["page"] = ("the page size", lambda a: bounds(a, "page_size", lambda op, o, l: (sysc(o) or var_of(o)) and (op == "==" or not l and op in ("<=", "<"))))
    c["header"] = ("the header size", lambda a: bounds(a, "hdr_size", lambda op, o, l: op == "==" and o[0] == "c" and o[1] == size)
                   or bounds(a, "cr_version", lambda op, o, l: o[0] == "c" and (op == "!=" and o[1] == ver or op == "==" and o[1] != ver or op == "<" and (l and o[1] <= ver or not l and o[1] >= ver)
                                                                              or op == "<=" and (l and o[1] < ver or not l and o[1] > ver))))
    c["interval"] = ("the interval", lambda a: bounds(a, "cfg_interval", lambda op, o, l: not l and o[0] == "c" and (op == "<=" and o[1] >= 1 or op == "<" and o[1] >= 0)))
    c["pages"] = ("the number of pages", lambda a: bounds(a, "page_count", lambda op, o, l: not l and o[0] == "c" and (op == "<=" and o[1] >= 1 or op == "<" and o[1] >= 0)))
    return c


def constants(P):
    """(current header version, sizeof(Header)) from what a new header is given"""
    ver = size = None
    for f in P.funcs.values():
        if f.cls == CLS and not is_fake(f):
            for i, n in f.nodes.items():
                if n["k"] == "asg" and n["op"] == "=" and f.nodes[n["x"]]["k"] == "mem":
                    m = short(f.nodes[n["x"]]["n"])
                    cv = f.nodes[n["r"]].get("cv")
                    if cv is not None and m == "cr_version":
                        ver = max(ver or 0, int(cv))
                    if cv is not None and m == "hdr_size":
                        size = int(cv)
    return ver if ver is not None else 8, size if size is not None else 464


class Checked(Counts):
    """facts plus, per alternative, which conditions have been seen to hold on the way"""
    preds = ()

    def mark(self, s):
        for name, when, p in self.preds:
            good = frozenset(a for a in s if self.gval(a, name) == when and p(a))
            if good:
                s = (s - good) | self.bump_ghosts(good, [(name, "=", 2)])
        return s

    def edge(self, s, b, k, succ):
        s = super().edge(s, b, k, succ)
        return self.mark(s) if s else s


def succeeded(P, v, F, i):
    """predicate: call i is known to have worked"""
    n = v.nodes[i]
    t = ("e", i)
    m = short(P.callee(n))
    names = [t]
    for d, q in v.vars.items():
        if any(x is not None and i in D04.leaves(v, x) for x in q["inits"]):
            names.append(("v", d))
    for j, a in v.nodes.items():
        if a["k"] == "asg" and i in D04.leaves(v, a["r"]):
            names.append(F.term(a["x"]))

    def p(alt):
        for x in names:
            if m in ("open", "truncate") and (entails(alt, ">=", x, ("c", 0)) or entails(alt, "!=", x, ("c", -1))):
                return True
            if m == "map" and entails(alt, "!=", x, ("c", 0)):
                return True
            if m == "write":
                w = F.term(n["a"][2])
                if entails(alt, "==", x, w) or entails(alt, ">=", x, w):
                    return True
        return False
    return p


class Proxy:
    """obligations of D04 about StatFile, as part of this property"""

    def __init__(self, R):
        self.R = R

    def rule(self, *a):
        pass

    def note(self, s):
        pass

    def ob(self, rule, where, what, ok, func="", detail="", msg="", **k):
        if func.startswith(CLS) or func.startswith("istat::MmapImpl"):
            self.R.ob("clean", where, what, ok, func=func, detail=detail, msg=msg, **k)


def run(P, R):
    R.rule("validated", "a counter file is accepted only if its header passed every check", 6)
    R.rule("steps", "every step of opening or creating a counter file that fails refuses the file", 3)
    R.rule("sized", "the header of a new file is written only after the file has got its full size", 1)
    R.rule("clean", "what a refused file had opened or mapped is released", 2)
    done = {}
    for f in sorted(P.funcs.values(), key=lambda f: (f.f, f.line)):
        if f.cls != CLS or not f.is_ctor or f.implicit or is_fake(f):
            continue
        v = P.view(f)
        calls = {}
        for i, n in v.nodes.items():
            if n["k"] == "call" and i in v.elem_of and detmpl(P.callee(n) or "") in STEPS:
                calls[i] = "%s:%d" % (short(P.callee(n)), i)
        F0 = Checked(P, v, [], lambda g, e: ())
        cs = checks(P, v, F0)
        # the checks of the header
        G = Checked(P, v, list(cs), lambda g, e: ())
        G.preds = [(k, 0, p) for k, (w, p) in cs.items()]
        G.solve()
        s = G.inb.get(v.exit)
        for k, (w, p) in cs.items():
            ok = s is not None and all(G.gval(a, k) == 2 or p(a) for a in s)
            R.ob("validated", "%s:%s" % (f.file, f.line), "%s is checked before %s returns" % (w, f.f), ok, func=f.f, detail=k,
                 msg="a counter file is used although %s was not checked on every path" % w)
        # the steps
        H = Checked(P, v, list(calls.values()), lambda g, e: [(calls[e], "=", 1)] if isinstance(e, int) and e in calls else ())
        H.preds = [(g, 1, succeeded(P, v, H, i)) for i, g in calls.items()]
        H.solve()
        s = H.inb.get(v.exit)
        for i, g in sorted(calls.items()):
            ok = s is None or all(H.gval(a, g) != 1 for a in s)
            o = done.setdefault(v.nodes[i].get("_o") or (v.u, i), [v, i, True])
            o[2] = o[2] and ok
            if short(P.callee(v.nodes[i])) == "write":
                before = H.before(i)
                sizes = [j for j in calls if short(P.callee(v.nodes[j])) == "truncate" and v.nodes[v.nodes[j]["a"][1]].get("cv") != 0 and str(v.nodes[v.nodes[j]["a"][1]].get("cv")) != "0"]
                ok = before is None or all(any(H.gval(a, calls[j]) == 2 for j in sizes) for a in before)
                R.ob("sized", v.loc(i), P.render(v, i), ok, func=v.f, detail="sized", msg="the header is written although the file may not have its full size: a crash or a full disk leaves a file that looks valid")
    for key, (v, i, ok) in sorted(done.items(), key=lambda x: str(x[0])):
        R.ob("steps", v.loc(i), P.render(v, i)[:80], ok, func=CLS + "::open", detail=short(P.callee(v.nodes[i])), msg="the file is used although this step may have failed")
    D04.run(P, Proxy(R))
