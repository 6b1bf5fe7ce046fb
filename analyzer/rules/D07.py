"""Retention policies: an interval joins a policy only where the facts on the path say it has been validated."""
from ista.model import detmpl, short
from ista.facts import Facts, facts, entails, atom
from ista.util import Counts, loops

VEC = "RetentionPolicy::intervals"
IV, SAMP, LAM = "RetentionInterval::interval", "RetentionInterval::samples", "RetentionInterval::lambda"
GROW = {"push_back", "insert", "resize", "assign", "push_front", "emplace_back", "swap", "operator="}
ASSUME = ["the vector of intervals is private to RetentionPolicy (checked: every growth site is an obligation)",
          "a lambda given as text that strtod reads as NaN is outside this rule"]
ZERO = ("c", 0)


def is_vec(t):
    return t[0] == "f" and t[2] == VEC


def fld(b, name):
    return ("f", b, name)


def num(alt, op, t, k):
    if entails(alt, op, t, ("c", k)):
        return True
    return entails(alt, op, t, ("c", float(k)))


def run(P, R):
    R.rule("coarser", "an interval is appended only to an empty policy, or when it is trailing or longer than the last and no trailing one precedes it", 1)
    R.rule("positive", "an interval built from text has a nonzero length and a nonzero sample count when it is added", 2)
    R.rule("lambda", "a trailing factor built from text is 0 or strictly between 0 and 1 when the interval is added", 1)
    R.rule("growth", "a policy grows only by appending one interval", 1)
    R.rule("units", "interval text contributes every number with a known unit or is refused", 1)
    for v in P.roots():
        if not any(n["k"] == "mem" and detmpl(n["n"]) == VEC for n in v.nodes.values()):
            continue
        if v.implicit:
            continue
        F = None
        for i, n in v.nodes.items():
            if n["k"] == "call" and n.get("o") is not None and short(P.callee(n)) in GROW | {"operator ="} and v.elem_of.get(i):
                p = P.path(v, n["o"])
                if not p or p[-1] != VEC:
                    continue
                R.ob("growth", v.loc(i), P.render(v, i), short(P.callee(n)) == "push_back", func=v.f, detail="growth",
                     msg="the list of intervals is changed by %s, which is not validated" % short(P.callee(n)))
                if short(P.callee(n)) != "push_back":
                    continue
                F = F or facts(P, v)
                s = F.before(i)
                if s is None:
                    continue
                vec = F.term(n["o"])
                x = F.term(n["a"][0])
                back = ("m", "back", vec)
                bad = None
                for alt in s:
                    if entails(alt, "==", ("m", "size", vec), ZERO):
                        continue
                    trailing = num(alt, "!=", fld(x, LAM), 0)
                    longer = entails(alt, "<", fld(back, IV), fld(x, IV))
                    order = num(alt, "<=", fld(back, LAM), 0)
                    if not (trailing or longer and order):
                        bad = "longer than the last one" if not longer else "preceded by regular intervals only"
                R.ob("coarser", v.loc(i), P.render(v, i), bad is None, func=v.f, detail="coarser",
                     msg="an interval is added although it is not known to be trailing or %s" % bad)
    # intervals built here from text: a local RetentionInterval given to addInterval
    for v in P.roots():
        for i, n in v.nodes.items():
            if n["k"] in ("call", "ref") and v.elem_of.get(i) and (short(P.callee(n)) == "addInterval" if n["k"] == "call" else False):
                if not n["a"]:
                    continue
                m = v.nodes[P.strip_smart(v, n["a"][0])]
                if m["k"] == "ref" and m.get("dk") == "local" and detmpl(m.get("tc", "")) == "RetentionInterval" and not v.vars[m["d"]].get("ref"):
                    text_obj(P, R, v, i, ("v", m["d"]))
            elif n["k"] == "decl" and n.get("_param"):
                # addInterval(ri) spliced in: its parameter is bound to the local
                for q in n["ds"]:
                    if q.get("i") is not None and detmpl(q.get("tc", "")) == "RetentionInterval" and q["n"] != "this":
                        m = v.nodes[P.strip_smart(v, q["i"])]
                        if m["k"] == "ref" and m.get("dk") == "local" and not v.vars[m["d"]].get("ref") and not v.vars[m["d"]]["param"]:
                            text_obj(P, R, v, i, ("v", m["d"]))
    units(P, R)


def text_obj(P, R, v, i, x):
    F = facts(P, v)
    s = F.before(i)
    if s is None:
        return
    for f, what in ((IV, "length"), (SAMP, "sample count")):
        ok = all(entails(a, "!=", fld(x, f), ZERO) or entails(a, ">", fld(x, f), ZERO) for a in s)
        R.ob("positive", v.loc(i), "%s of the interval" % what, ok, func=v.f, detail=what, msg="an interval is added although its %s may be zero" % what)
    ok = all(num(a, "==", fld(x, LAM), 0) or num(a, ">", fld(x, LAM), 0) and num(a, "<", fld(x, LAM), 1) for a in s)
    R.ob("lambda", v.loc(i), "lambda of the interval", ok, func=v.f, detail="lambda", msg="an interval is added although its lambda is not known to be 0 or inside (0,1)")


def units(P, R):
    """interval_to_seconds: between two advances of the outer iterator something was added to the result"""
    for f in P.funcs.values():
        if f.f != "istat::interval_to_seconds":
            continue
        v = P.view(f)
        rets = [n for n in v.nodes.values() if n["k"] == "ret" and n.get("x") is not None]
        rv = set()
        for n in rets:
            m = v.nodes[P.strip_smart(v, n["x"])]
            if m["k"] == "ref":
                rv.add(m["d"])

        def adds(g, e):
            n = g.nodes[e] if isinstance(e, int) else None
            if n is not None and n["k"] == "asg" and g.nodes[n["x"]]["k"] == "ref" and g.nodes[n["x"]].get("d") in rv:
                return [("added", "=", 1)]
            return ()
        sites = [i for i in v.nodes if i in v.elem_of and adds(v, i)]
        outer = None
        for h, body, latches in loops(v):
            if sites and all(v.elem_of[i][0] in body for i in sites):
                outer = (h, body, latches)
                break
        ok = False
        if outer:
            h, body, latches = outer
            C = Counts(P, v, ["added"], adds)
            C.edge_ev = lambda b, t: [("added", "=", 0)] if b == h and t in body else ()
            C.solve()
            ok = True
            for b in latches:
                s = C.inb.get(b)
                if s is None:
                    continue
                for e in v.blocks[b]["s"]:
                    s = C.elem(s, e, b)
                if C.values(s, "added") != [1]:
                    ok = False
        R.ob("units", v.loc(), "every number is added or refused", ok, func=v.f, detail="units",
             msg="a number with an unknown unit is skipped instead of refused")
