"""Completion callbacks: an accepted callback is called exactly once, objects that drive several steps free themselves once."""
from ista.model import detmpl, short
from ista.tokens import Tokens, is_ic_ptr, icomplete, made, value
from ista.throws import is_fake
from ista import throws as _t

ASSUME = _t.ASSUME + ["a callable handed to the event loop is run once (the loop is not stopped)",
                      "a class that frees itself in a slot of a signal lives as long as its connection (checked by E01)"]
TEXT = {0: "never", 1: "once", 2: "twice or more"}


def skip(f):
    return is_fake(f) or f.file.startswith(("tool", "perf", "ftest"))


def tell(cs):
    return " or ".join(TEXT.get(c, str(c)) for c in sorted(cs)) or "(no path ends)"


def self_freeing(P, slotted=False):
    """classes whose methods delete this, other than in a slot of a signal"""
    slots = set()
    for sig, cs in P.slots.items():
        for f, n, c in cs:
            for t in P.targets(f, f.nodes[c[0]]):
                slots.add(t.u)
    r = {}
    for f in P.funcs.values():
        if skip(f) or not f.cls:
            continue
        for i, n in f.nodes.items():
            if n["k"] == "delete" and n.get("x") is not None and f.nodes[value(f, n["x"])]["k"] == "this":
                r.setdefault(f.cls, []).append(f)
    out = {}
    for c, fs in r.items():
        if any(f.u in slots for f in fs):
            if slotted:
                out[c] = fs
            continue
        if slotted:
            continue
        # a step: run as a completion callback or by the event loop, or called from one that is
        todo = [f for f in P.funcs.values() if f.cls == c and (short(f.f) == "on_complete" or P.taken[f.u])]
        seen = set()
        while todo:
            f = todo.pop()
            if f.u in seen:
                continue
            seen.add(f.u)
            todo += [t for _, t in P.calls[f.u] if t.cls == c]
        if any(f.u in seen for f in fs):
            out[c] = fs
    return out


def returned(f, i):
    for j, n in f.nodes.items():
        if n["k"] == "ret" and n.get("x") is not None and value(f, n["x"]) == i:
            return True
    return False


def run(P, R):
    E = Tokens(P)
    R.rule("callback", "an operation that is given a completion callback calls it, schedules it or hands it on exactly once on every path", 8)
    R.rule("failed", "an operation that fails with an exception has not called the callback it was given", 8)
    R.rule("release", "an object that drives several steps, once made, is set going and frees itself exactly once", 6)
    R.rule("gone", "nothing of such an object is used after it freed itself or was handed on", 4)
    for f in P.funcs.values():
        if skip(f) or f.is_ctor:
            continue
        for p in f.params:
            if not is_ic_ptr(p["t"]):
                continue
            m = ("done", ("param", p["d"]))
            outs, ex = E.summary(f, m)
            cs = set(c for _, c in outs)
            R.ob("callback", f.loc(), "%s completes '%s'" % (f.f, p["n"]), cs <= {1}, func=f.f, detail="callback",
                 msg="%s may call the completion callback it accepted %s" % (f.f, tell(cs)), path=E.where(f, m))
            es = set(c for v in ex.values() for c in v)
            R.ob("failed", f.loc(), "%s fails before it completes '%s'" % (f.f, p["n"]), es <= {0}, func=f.f, detail="failed",
                 msg="%s may throw %s after it called its completion callback" % (f.f, ", ".join(t for t, v in ex.items() if set(v) - {0})), path=E.where(f, m))
    # holders that call a stored callback: functors and methods run by the event loop are covered where they are made
    sf = self_freeing(P)
    sf = set(sf)
    slotted = self_freeing(P, True)
    for f in P.funcs.values():
        if skip(f):
            continue
        for i, n in f.nodes.items():
            if n["k"] != "new":
                continue
            c = made(f, i)
            if c is None or c not in P.classes or c in slotted:
                continue
            if icomplete(P, c):
                sf.add(c)       # a completion callback made on the heap belongs to nobody
                continue
            up = [j for j in f.parents.get(i, []) if f.nodes[j]["k"] != "cast"]
            if up and all(f.nodes[j]["k"] == "call" and f.nodes[j].get("o") is not None and value(f, f.nodes[j]["o"]) == i for j in up):
                sf.add(c)       # made only to have a method called
    R.note("self-freeing classes: " + ", ".join(sorted(sf)))
    for f in P.funcs.values():
        if skip(f):
            continue
        for i, n in f.nodes.items():
            c = None
            if n["k"] == "new":
                c = made(f, i)
                if c not in sf or returned(f, i):
                    continue
            elif n["k"] == "call" and n.get("u"):
                for t in P.targets(f, n):
                    for j, x in t.nodes.items():
                        if x["k"] == "new" and returned(t, j) and made(t, j) in sf:
                            c = made(t, j)
            if c is None:
                continue
            m = ("free", ("node", i))
            outs, ex = E.summary(f, m)
            cs = set(k for _, k in outs)
            R.ob("release", f.loc(i), "%s makes a %s" % (f.f, c), cs <= {0}, func=f.f, detail="release %s" % c,
                 msg="%s makes a %s that %s" % (f.f, c, " or ".join({-1: "is never set going or freed", -2: "is never set going or freed", 1: "is freed or handed on twice", 2: "is freed or handed on twice"}[k] for k in sorted(cs) if k)), path=E.where(f, m))
            es = {t: v for t, v in ex.items() if set(v) - {0}}
            R.ob("release", f.loc(i), "%s: a %s is not lost when an exception passes" % (f.f, c), not es, func=f.f, detail="exception %s" % c,
                 msg="%s makes a %s that is lost when %s passes" % (f.f, c, ", ".join(es)), path=E.where(f, m))
            for d, v in f.vars.items():
                if len(v["inits"]) == 1 and not v.get("assigned") and value(f, v["inits"][0]) == i:
                    bad = used(E, f, m, [j for j, x in f.nodes.items() if x["k"] == "ref" and x.get("d") == d], 0)
                    R.ob("gone", f.loc(i), "%s: %s is not used after it was set going" % (f.f, v["n"]), not bad, func=f.f, detail="gone %s" % c,
                         msg="%s uses %s at %s after the object freed itself" % (f.f, v["n"], f.loc(bad[0]) if bad else ""))
    for c in sf:
        for f in P.funcs.values():
            if f.cls != c or skip(f) or f.is_ctor or f.is_dtor:
                continue
            m = ("free", ("this",))
            outs, ex = E.summary(f, m)
            cs = set(k for _, k in outs)
            if cs <= {0}:
                continue
            R.ob("release", f.loc(), "%s frees its object or keeps the work going" % f.f, cs <= {1}, func=f.f, detail="step",
                 msg="%s: the object may be freed %s" % (f.f, tell(cs)), path=E.where(f, m))
            bad = used(E, f, m, [j for j, x in f.nodes.items() if x["k"] == "this" or x["k"] == "mem" and x.get("b") is not None and f.nodes[x["b"]]["k"] == "this"], 1)
            R.ob("gone", f.loc(), "%s does not touch its object after it was freed or handed on" % f.f, not bad, func=f.f, detail="gone",
                 msg="%s uses its object at %s after it may have been freed" % (f.f, f.loc(bad[0]) if bad else ""))


def used(E, f, m, nodes, k):
    F = E.flow(f, m)
    bad = []
    for j in nodes:
        s = F.before(j)
        if s and any(F.gval(a, "n") >= k for a in s):
            bad.append(j)
    return bad
