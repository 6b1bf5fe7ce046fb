"""Deleting counters: flushed, linked, the backup confirmed to be the file, only then removed; failures are reported."""
from ista.model import detmpl, short
from ista.facts import facts, entails
from ista.util import Counts, loops, subterms

REMOVE = {"remove", "unlink", "remove_all", "rename", "truncate", "resize_file"}
LINK = {"create_hard_link", "link", "copy_file", "copy"}
COLL = "StatCounter::isCollated_"
ASSUME = ["a hard link made while the file is flushed keeps its data (POSIX)", "only this daemon changes the store directory during a deletion"]
ZERO = ("c", 0)


def is_getpath(P, n):
    return n["k"] == "call" and detmpl(P.callee(n) or "") in ("istat::StatFile::getPath", "StatFile::getPath")


def modified(v, d):
    """the variable is changed after its initialisation"""
    q = v.vars.get(d)
    return q is None or q["assigned"] or mutated(v, d)


def mutated(v, d):
    c = v.__dict__.setdefault("_mut", {})
    if d not in c:
        r = False
        for i, n in v.nodes.items():
            if n["k"] != "call":
                continue
            for a, pk in zip(n["a"], n.get("pk", ())):
                m = v.nodes[a]
                if pk in ("r", "p") and m["k"] == "ref" and m.get("d") == d:
                    r = True
            if n.get("o") is not None and not n.get("const") and v.nodes[n["o"]]["k"] == "ref" and v.nodes[n["o"]].get("d") == d and n.get("op") in ("=", "+=", "/="):
                r = True
        c[d] = r
    return c[d]


def is_file(P, v, i, depth=0):
    """the expression is the unchanged path of a counter file"""
    if depth > 12:
        return False
    n = v.nodes[i]
    if is_getpath(P, n):
        return True
    if n["k"] == "ctor" and len([a for a in n["a"] if v.nodes[a]["k"] != "other"]) >= 1:
        return is_file(P, v, n["a"][0], depth + 1)
    if n["k"] == "cast":
        return is_file(P, v, n["x"], depth + 1)
    if n["k"] == "call" and n.get("o") is not None and short(P.callee(n)) in ("c_str", "string", "native", "data") and not n["a"]:
        return is_file(P, v, n["o"], depth + 1)
    if n["k"] == "ref" and n.get("d") is not None:
        q = v.vars.get(n["d"])
        if q and len(q["inits"]) == 1 and not modified(v, n["d"]):
            return is_file(P, v, q["inits"][0], depth + 1)
    j = P.strip_smart(v, i)
    return j != i and is_file(P, v, j, depth + 1)


def known(alt, nodes, want):
    """one of these calls is known to have returned true (want=1) / false (0)"""
    for (op, x, y) in alt:
        for a, b in ((x, y), (y, x)):
            if a[0] == "e" and a[1] in nodes:
                if want and (op == "!=" and b == ZERO or op == "==" and b == ("c", 1)):
                    return True
                if not want and (op == "==" and b == ZERO or op == "!=" and b == ("c", 1)):
                    return True
    return False


def ec_clear(alt, ecs):
    for (op, x, y) in alt:
        for a, b in ((x, y), (y, x)):
            if op == "==" and b == ZERO and a[0] == "m" and (a[1].startswith("operator ") or a[1] in ("value", "failed")) and any(e in a for e in ecs):
                return True
    return False


def run(P, R):
    R.rule("flushed", "a counter file is flushed before it is removed", 1)
    R.rule("confirmed", "a counter file is removed only where the facts on the path say its backup was made and is this file", 1)
    R.rule("pending", "samples still being collated are written before the file is flushed for its backup", 1)
    R.rule("reported", "a file that is still there after its removal, and every other failure, raises an error", 1)
    R.rule("failure-seen", "an error of a deletion is logged or passed on", 1)
    R.rule("recursive", "nothing removes whole directory trees or non-empty directories", 1)
    R.rule("detached", "only a counter that was just replaced in the store is deleted", 1)
    nrem = 0
    for v in P.roots():
        if v.implicit or (v.file.startswith(("tool/", "test/")) or "test" in v.file):
            continue
        rem, nfs = [], 0
        for i, n in v.nodes.items():
            if n["k"] != "call" or i not in v.elem_of or n.get("o") is not None:
                continue
            s = short(P.callee(n))
            if s == "remove_all":
                R.ob("recursive", v.loc(i), P.render(v, i), False, func=v.f, detail="remove_all", msg="a whole directory tree is removed")
            if s in REMOVE and n["a"] and is_file(P, v, n["a"][0]):
                rem.append(i)
            if s in REMOVE:
                nfs += 1
        if nfs:
            R.ob("recursive", v.loc(), "%d removals" % nfs, True, func=v.f)
        if not rem:
            continue
        flushes, links, looks, gone, shifts = set(), set(), set(), set(), set()
        ecs = set()
        for i, n in v.nodes.items():
            if n["k"] != "call" or i not in v.elem_of:
                continue
            s, c = short(P.callee(n)), detmpl(P.callee(n) or "")
            if s == "flush" and c.endswith("StatFile::flush"):
                flushes.add(i)
            elif n.get("o") is None and s in LINK and len(n["a"]) >= 2 and is_file(P, v, n["a"][0]) and not is_file(P, v, n["a"][1]):
                links.add(i)
            elif n.get("o") is None and s == "equivalent" and len(n["a"]) >= 2 and is_file(P, v, n["a"][0]) != is_file(P, v, n["a"][1]):
                looks.add(i)
            elif n.get("o") is None and s == "exists" and n["a"] and is_file(P, v, n["a"][0]):
                gone.add(i)
            elif s in ("maybeShiftCollated", "fullyShiftCollated") or n.get("inl", "").endswith("ShiftCollated"):
                shifts.add(i)
        for i, n in v.nodes.items():
            if n["k"] == "call" and i in v.elem_of and any(x.endswith("fullyShiftCollated") for x in [n.get("inl") or ""]):
                shifts.add(i)

        def ev(g, e):
            if not isinstance(e, int):
                return ()
            if e in flushes:
                return [("flushed", "=", 1)]
            if e in links:
                return [("linked", "=", 1)]
            if e in looks:
                return [("looked", "=", 1)]
            if e in rem:
                return [("removed", "=", 1)]
            if e in shifts:
                return [("shifted", "=", 1)]
            if e in gone:
                return [("asked", "=", 1)]
            return ()
        C = Counts(P, v, ["flushed", "linked", "looked", "removed", "shifted", "asked"], ev)
        ls = [(h, body, lat) for h, body, lat in loops(v) if any(v.elem_of[i][0] in body for i in rem)]
        heads = {h: body for h, body, lat in ls[:1]}

        def edge_ev(b, t):
            if b in heads and t in heads[b]:
                return [("flushed", "=", 0), ("linked", "=", 0), ("looked", "=", 0), ("removed", "=", 0), ("asked", "=", 0)]
            return ()
        C.edge_ev = edge_ev
        C.solve()
        for i in links:
            for a in v.nodes[i]["a"][2:]:
                ecs.add(C.term(a))
        for i in rem:
            s = C.before(i)
            if s is None:
                continue
            nrem += 1
            ok = all(C.gval(a, "flushed") == 1 for a in s)
            R.ob("flushed", v.loc(i), P.render(v, i), ok, func=v.f, detail="flushed", msg="a counter file may be removed without having been flushed for its backup")
            ok = True
            for a in s:
                same = C.gval(a, "looked") == 1 and known(a, looks, True)
                made = C.gval(a, "linked") == 1 and (known(a, links, False) or bool(ecs) and ec_clear(a, ecs) or not ecs and any(short(P.callee(v.nodes[x])) != "link" and v.nodes[x].get("throws") for x in links))
                if not (same or made):
                    ok = False
            R.ob("confirmed", v.loc(i), P.render(v, i), ok, func=v.f, detail="confirmed",
                 msg="a counter file may be removed although its backup is not confirmed on this path")
        coll = [n for n in v.nodes.values() if n["k"] == "mem" and detmpl(n["n"]) == COLL]
        for i in sorted(flushes):
            s = C.before(i)
            if s is None:
                continue
            ok = all(C.gval(a, "shifted") == 1 or any(op == "==" and y == ZERO and x[0] == "f" and x[2] == COLL or op == "==" and x == ZERO and y[0] == "f" and y[2] == COLL
                                                       for (op, x, y) in a) for a in s)
            R.ob("pending", v.loc(i), P.render(v, i), ok, func=v.f, detail="pending", msg="samples still being collated are not in the backup")
        # after a removal: it is gone, or an error is raised
        bad = None
        outs = []
        for h in heads:
            for b in v.blocks:
                if h in [x for x in v.blocks[b]["to"]] and b in heads[h] and C.inb.get(b) is not None:
                    s = C.inb[b]
                    for e in v.blocks[b]["s"]:
                        s = C.elem(s, e, b) if s is not None else None
                    if s is not None:
                        outs.append(s)
        if C.inb.get(v.exit) is not None and not heads:
            outs.append(C.inb[v.exit])
        for s in outs:
            for a in s:
                if not (C.gval(a, "asked") == 1 and known(a, gone, False)) and not (C.gval(a, "removed") == 1 and known(a, rem, True)):
                    bad = True
        R.ob("reported", v.loc(rem[0]), P.render(v, rem[0]), not bad, func=v.f, detail="reported", msg="a counter file may be left in place without an error")
    R.ob("confirmed", "daemon/StatCounter.cpp", "removal of counter files", nrem > 0, detail="exists", msg="no code removing counter files was found")
    callers(P, R)


def callers(P, R):
    n0 = 0
    for f in P.funcs.values():
        if f.file.startswith(("tool/", "test/")) or f.implicit:
            continue
        for i, n in f.nodes.items():
            if n["k"] == "call" and short(P.callee(n)) == "purge" and n.get("o") is not None and i in f.elem_of:
                t = [g for g in P.targets(f, n)]
                if not any(detmpl(g.cls or "") in ("StatCounter", "IStatCounter") for g in t) and not (P.callee(n) or "").endswith("StatCounter::purge"):
                    continue
                n0 += 1
                ok = True
                y = n.get("y")
                while y is not None:
                    for h in f.tries[y]["h"]:
                        if h["b"] is not None and not logs(P, f, h["b"]):
                            ok = False
                    y = f.tries[y]["parent"]
                R.ob("failure-seen", f.loc(i), P.render(f, i), ok, func=f.f, detail="failure", msg="an error of a deletion is swallowed")
                for g, j, ok in sources(P, f, n["o"]):
                    R.ob("detached", g.loc(j), P.render(g, j), ok, func=g.f, detail="detached",
                         msg="a counter is deleted that may still be reachable through the store")
    R.ob("failure-seen", "daemon/StatStore.cpp", "callers of purge", n0 > 0, detail="exists", msg="nothing deletes counters any more")


def logs(P, f, b):
    """a log statement or rethrow lies on every path from handler block b to where it rejoins (approximated: in the handler region)"""
    seen, st = set(), [b]
    while st:
        x = st.pop()
        if x in seen:
            continue
        seen.add(x)
        hit = False
        for e in f.blocks[x]["s"]:
            n = f.nodes.get(e) if isinstance(e, int) else None
            if n is not None and (n["k"] == "throw" or n["k"] in ("ctor", "call") and "Log" in (n.get("c") or n.get("t") or "") or n["k"] == "call" and n.get("op") == "<<"):
                hit = True
        if hit:
            continue
        to = [t for t in f.blocks[x]["to"] if t is not None]
        if x == f.exit or not to:
            return False
        st.extend(to)
    return True


def sources(P, f, o, depth=0):
    """where the purged counter comes from: (function, node, came from replaceCounter)"""
    p = P.path(f, o)
    r = []
    n = f.nodes[P.strip_smart(f, o)]
    if n["k"] == "call" and short(P.callee(n)) == "replaceCounter":
        return [(f, o, True)]
    if n["k"] == "ref" and depth < 5:
        q = f.vars.get(n.get("d"))
        if q and len(q["inits"]) == 1 and not q["param"]:
            return sources(P, f, q["inits"][0], depth + 1)
        if q and q["param"]:
            return [(f, o, False)]
    if n["k"] == "mem":
        fld = detmpl(n["n"])
        for g in P.funcs.values():
            if g.implicit:
                continue
            for i, m in g.nodes.items():
                if i not in g.elem_of:
                    continue
                x = None
                if m["k"] == "asg":
                    x, val = m["x"], m["r"]
                elif m["k"] == "call" and m.get("op") == "=" and m.get("o") is not None and m["a"]:
                    x, val = m["o"], m["a"][0]
                if x is None:
                    continue
                xm = g.nodes[x]
                if xm["k"] == "mem" and detmpl(xm["n"]) == fld and depth < 5:
                    r += [(g, i, all(k for (_, _, k) in sources(P, g, val, depth + 1)))]
        return r or [(f, o, False)]
    return [(f, o, False)]
