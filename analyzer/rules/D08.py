"""Samples: every path of recording one ends with it stored or counted as dropped; what stores it goes through all retentions of the
counter; the collation window moves on only after the interval that leaves it was written to every retention."""
from ista.model import detmpl, short
from ista.throws import is_fake
from ista.util import Counts, loops

ASSUME = ["a file that cannot be written raises an exception, which ends the recording of that sample (and is logged)", "a counter that is not purged has at least one retention"]
CLS = "StatCounter"
DROPS = ("recordsRejected_", "recordsFromTheFuture_", "recordsFromThePast_")


def sub(v, i):
    """nodes below i, and what variables that are set once were set to"""
    st, seen = [i], set()
    while st:
        x = st.pop()
        if x is None or x in seen:
            continue
        seen.add(x)
        n = v.nodes[x]
        st.extend(v.kids(x))
        if n["k"] == "ref" and n["dk"] == "local":
            q = v.vars.get(n["d"])
            if q and len(q["inits"]) == 1 and not stepped(v, n["d"]):
                st.extend(y for y in q["inits"] if y is not None)
    return seen


def stepped(v, d):
    s = v.__dict__.setdefault("_d08", {})
    if d not in s:
        s[d] = [i for i, n in v.nodes.items() if n["k"] == "un" and n["op"] in ("++", "--") and refd(v, n["x"]) == d
                or n["k"] == "asg" and refd(v, n["x"]) == d
                or n["k"] == "call" and short(P_callee(n)) in ("operator++", "operator--", "operator+=") and refd(v, n.get("o") if n.get("o") is not None else (n["a"][0] if n["a"] else None)) == d]
    return s[d]


def P_callee(n):
    return n.get("f") or ""


def refd(v, i):
    if i is None:
        return None
    n = v.nodes[i]
    while n["k"] in ("cast",) or n["k"] == "un" and n["op"] in ("*", "&"):
        n = v.nodes[n["x"]]
    return n.get("d") if n["k"] == "ref" and n["dk"] in ("local", "param") else None


def mentions(v, nodes, field):
    return any(v.nodes[x]["k"] == "mem" and short(v.nodes[x]["n"]) == field for x in nodes)


def holder(P):
    """field that holds the retentions of a counter: a container of records with a StatFile, of class StatCounter"""
    for q, c in P.classes.items():
        if q == CLS:
            for fl in c["fields"]:
                if "OneCounter" in fl["t"] or "StatFile" in fl["t"]:
                    return short(fl["n"])
    return "counters_"


class Loop:
    """a loop of view v that goes through the retentions"""

    def __init__(self, v, head, body, latches, iv):
        self.v, self.head, self.body, self.latches, self.iv = v, head, body, latches, iv


def over(P, v, fld):
    """loops over the retentions -> Loop, with the calls on the current one"""
    r = []
    for head, body, latches in loops(v):
        ivs = {}
        inner = [x for h, x, l in loops(v) if x < body]
        for b in body:
            if any(b in x for x in inner):
                continue
            for e in v.blocks[b]["s"]:
                if isinstance(e, int):
                    for d in list(v.vars):
                        if e in stepped(v, d):
                            ivs.setdefault(d, e)
        for d in ivs:
            q = v.vars[d]
            src = set()
            for x in q["inits"]:
                if x is not None:
                    src |= sub(v, x)
            tc = v.blocks[head].get("tc")
            if tc is not None:
                src |= sub(v, tc)
            if mentions(v, src, fld):
                r.append(Loop(v, head, body, latches, d))
    return r


def uses(P, L, names):
    """calls of the given functions on the current retention of loop L"""
    v, r = L.v, []
    for b in L.body:
        for e in v.blocks[b]["s"]:
            if isinstance(e, int) and v.nodes[e]["k"] == "call" and short(P.callee(v.nodes[e]) or "") in names and v.nodes[e].get("o") is not None:
                if any(refd(v, x) == L.iv for x in sub(v, v.nodes[e]["o"])):
                    r.append(e)
    return r


def first_edge(v, L, b, k):
    """is this edge taken only for the first retention?"""
    tc = v.blocks[b].get("tc")
    if tc is None or len(v.blocks[b]["to"]) != 2:
        return False
    neg = False
    n = v.nodes[tc]
    while n["k"] == "un" and n["op"] == "!":
        neg, n = not neg, v.nodes[n["x"]]
    if n["k"] == "bin" and n["op"] in ("==", "!="):
        op, kids = n["op"], (n["x"], n["r"])
    elif n["k"] == "call" and short(P_callee(n)) in ("operator==", "operator!="):
        op = short(P_callee(n))[8:]
        kids = ([n["o"]] if n.get("o") is not None else []) + list(n["a"])
    elif n["k"] == "bin" and n["op"] in (">", "<") or n["k"] == "ref" and n.get("d") == L.iv:
        if n["k"] == "ref":
            return (k == 1) != neg
        a, c = (n["x"], n["r"]) if n["op"] == ">" else (n["r"], n["x"])
        return refd(v, a) == L.iv and v.nodes[c].get("cv") in (0, "0") and (k == 1) != neg
    else:
        return False
    if len(kids) != 2 or not any(refd(v, x) == L.iv for x in kids):
        return False
    other = [x for x in kids if refd(v, x) != L.iv]
    if not other:
        return False
    o = other[0]
    begin = v.nodes[o].get("cv") in (0, "0") or any(v.nodes[x]["k"] == "call" and short(P_callee(v.nodes[x])) in ("begin", "cbegin") for x in sub(v, o))
    eq = (op == "==") != neg
    return begin and (k == 0) == eq


def all_of(P, L, calls):
    """(None or what is wrong, does every round use the retention but the first?)"""
    v = L.v
    blocks = set(b for b in L.body for e in v.blocks[b]["s"] if isinstance(e, int) and e in calls)
    # ways out
    for b in L.body:
        blk = v.blocks[b]
        for k, t in enumerate(blk["to"]):
            if t is not None and t not in L.body and b != L.head:
                if not reaches(v, t, v.exit):
                    continue
                if cond_of_head(v, L, b):
                    continue
                return "the loop over the retentions can be left before the last one", False
        if any(isinstance(e, int) and v.nodes[e]["k"] == "ret" for e in blk["s"]):
            return "the loop over the retentions can be left before the last one", False
    if L.head in blocks:
        return None, False
    skipped = False
    # rounds
    for only_first in (False, True):
        st, seen = [(L.head, False)], set()
        hit = False
        while st and not hit:
            b, fst = st.pop()
            for k, t in enumerate(v.blocks[b]["to"]):
                if t is None or t not in L.body or t in blocks:
                    continue
                isf = fst or b != L.head and first_edge(v, L, b, k)
                if t == L.head:
                    if only_first and not isf or not only_first:
                        if not only_first:
                            skipped = True
                        hit = True
                    continue
                if only_first and isf:
                    continue
                if (t, isf) not in seen:
                    seen.add((t, isf))
                    st.append((t, isf))
        if only_first and hit:
            return "a retention can be passed over", True
    # steps of one
    for e in stepped(v, L.iv):
        n = v.nodes[e]
        if v.elem_of.get(e) and v.elem_of[e][0] in L.body:
            if n["k"] == "asg" or n["k"] == "call" and short(P_callee(n)) == "operator+=":
                r = n["r"] if n["k"] == "asg" else n["a"][0]
                if n.get("op") not in ("+=",) and n["k"] == "asg" or v.nodes[r].get("cv") not in (1, "1"):
                    return "a retention can be passed over", True
    return None, skipped


def cond_of_head(v, L, b):
    return v.blocks[b].get("tc") is not None and v.blocks[b].get("tc") == v.blocks[L.head].get("tc")


def reaches(v, a, b):
    st, seen = [a], {a}
    while st:
        x = st.pop()
        if x == b:
            return True
        for t in v.blocks[x]["to"]:
            if t is not None and t not in seen and not v.blocks[x].get("nr"):
                seen.add(t)
                st.append(t)
    return False


def start(P, v, L):
    """(whole, from the second on, or neither)"""
    q = v.vars[L.iv]
    xs = [x for x in q["inits"] if x is not None]
    for e in stepped(v, L.iv):
        if v.elem_of.get(e) and v.elem_of[e][0] not in L.body and v.nodes[e]["k"] == "asg":
            xs.append(v.nodes[e]["r"])
    r = set()
    for x in xs:
        cv = v.nodes[x].get("cv")
        ns = sub(v, x)
        if cv is not None:
            r.add(int(cv))
        elif any(v.nodes[y]["k"] == "call" and short(P_callee(v.nodes[y])) in ("begin", "cbegin", "rend") for y in ns):
            adds = [v.nodes[y] for y in ns if v.nodes[y]["k"] in ("bin", "call") and (v.nodes[y].get("op") == "+" or short(P_callee(v.nodes[y])) in ("operator+", "next"))]
            inc = [y for y in ns if v.nodes[y]["k"] == "un" and v.nodes[y]["op"] == "++" or v.nodes[y]["k"] == "call" and short(P_callee(v.nodes[y])) == "operator++"]
            r.add(0 if not adds and not inc else 1 if len(adds) + len(inc) == 1 else 9)
        else:
            r.add(9)
    # ++it before the loop
    r2 = max(r) if r else 9
    for e in stepped(v, L.iv):
        if v.elem_of.get(e) and v.elem_of[e][0] not in L.body and v.nodes[e]["k"] != "asg":
            r2 += 1
    return r2


def run(P, R):
    R.rule("all", "what is done for a sample or a flush is done for every retention of the counter", 3)
    R.rule("accounted", "recording a sample ends with it stored or counted as dropped, not both", 2)
    R.rule("window", "an interval leaves the collation window only after every retention got it", 1)
    R.rule("closing", "the samples still being collated are written when a counter is closed, moved away or flushed for good", 2)
    fld = holder(P)
    views = [v for v in P.roots() if not is_fake(v) and not v.implicit and (v.cls == CLS or any(short(x["n"]) == fld for x in v.nodes.values() if x["k"] == "mem"))]
    done = {}
    shiftfn = set()
    for v in views:
        Ls = over(P, v, fld)
        heads_full, heads_coarse = set(), set()
        for L in Ls:
            for names, what in ((("updateBucket", "rawUpdateBucket"), "updateBucket"), (("flush",), "flush")):
                cs = uses(P, L, names)
                if not cs or what == "flush" and short(raw(P, v, cs[0])) not in ("flush", "forceFlush"):
                    continue
                bad, skipped = all_of(P, L, cs)
                s0 = start(P, v, L)
                collated = [c for c in cs if any(v.nodes[x]["k"] == "mem" and short(v.nodes[x]["n"]) == "collations_" for a in v.nodes[c]["a"] for x in sub(v, a))]
                if not bad and s0 > (1 if collated else 0):
                    bad = "the loop over the retentions does not start with the first one"
                if not bad and (skipped and not collated):
                    bad = "the first retention is passed over"
                fn = raw(P, v, cs[0])
                R.ob("all", v.loc(cs[0]), "%s for every retention in %s" % (what, fn), bad is None, func=fn, detail=what, msg=bad)
                if bad is None and what == "updateBucket":
                    if collated:
                        if all(oldest(P, v, c) for c in collated):
                            heads_coarse.add(L.head)
                    else:
                        heads_full.add(L.head)
        # fine: the finest retention gets every interval of the window
        heads_fine = set()
        for head, body, latches in loops(v):
            for b in body:
                for e in v.blocks[b]["s"]:
                    if isinstance(e, int) and v.nodes[e]["k"] == "call" and short(P.callee(v.nodes[e]) or "") in ("updateBucket", "rawUpdateBucket") and v.nodes[e]["a"]:
                        ns = sub(v, v.nodes[e]["a"][0])
                        for x in list(ns):
                            m = v.nodes[x]
                            if m["k"] == "ref" and m["dk"] == "local" and m.get("d") in v.vars:
                                ns |= set(y for q in v.vars[m["d"]]["inits"] if q is not None for y in sub(v, q))
                        if mentions(v, ns, "collations_") and any(v.nodes[x]["k"] in ("idx", "ref") or v.nodes[x]["k"] == "un" and v.nodes[x]["op"] == "*" for x in ns) and not oldest(P, v, e) \
                           and finest(P, v, v.nodes[e]["o"], fld) and straight(v, head, body, b):
                            heads_fine.add(head)
        # the window moves
        moves = [i for i, n in v.nodes.items() if i in v.elem_of and n["k"] == "call" and short(P.callee(n) or "") in ("operator=", "copy", "memmove", "rotate", "swap") and (
            n.get("o") is not None and "CollationInfo" in (P.callee(n) or "") and mentions(v, sub(v, n["o"]), "collations_") and n["a"] and mentions(v, strict(v, n["a"][0]), "collations_")
            and not any(v.nodes[x]["k"] == "ctor" and v.nodes[x]["c"].endswith("CollationInfo") and not v.nodes[x].get("copy") for x in sub(v, n["a"][0]))
            or short(P.callee(n) or "") in ("copy", "memmove", "rotate", "swap") and any(mentions(v, sub(v, a), "collations_") for a in n["a"]))]
        if moves:
            def eev(b, s):
                return [("fine", "=", 1)] * (s in heads_fine) + [("coarse", "=", 1)] * (s in heads_coarse)
            F = Counts(P, v, ["fine", "coarse"], lambda g, e: ())
            F.edge_ev = eev
            F.solve()
            for i in moves:
                s = F.before(i)
                fn = raw(P, v, i)
                shiftfn.add(fn)
                for g, w in (("fine", "the finest retention"), ("coarse", "the coarser retentions")):
                    R.ob("window", v.loc(i), "%s: %s" % (P.render(v, i)[:60], w), s is None or all(F.gval(a, g) == 1 for a in s), func=fn, detail=g,
                         msg="the collation window moves on although %s may not have got the interval that leaves it" % w)
        # recording
        if short(v.f) == "record" and not is_fake(v) and len(v.params) == 6:
            accounted(P, R, v, heads_full)
    for v in views:
        if short(v.f) == "record" and len(v.params) == 6:
            done[v.f] = 1
    for f in P.funcs.values():
        if short(f.f) == "record" and len(f.params) == 6 and f.f not in done and not is_fake(f) and f.cls and any(short(b) == "IStatCounter" for b in P.all_bases(f.cls)) and "Loopback" not in f.f:
            accounted(P, R, P.view(f), set())
    closing(P, R, shiftfn)


def strict(v, i):
    return sub(v, i)


def raw(P, v, i):
    o = v.nodes[i].get("_o")
    return P.funcs[o[0]].f if o and o[0] in P.funcs else v.f


def straight(v, head, body, b):
    """every round passes block b and the loop is left at its head only"""
    for x in body:
        for t in v.blocks[x]["to"]:
            if t is not None and t not in body and x != head and reaches(v, t, v.exit):
                return False
    if b == head:
        return True
    st, seen = [head], set()
    while st:
        x = st.pop()
        for t in v.blocks[x]["to"]:
            if t is None or t not in body or t == b:
                continue
            if t == head:
                return False
            if t not in seen:
                seen.add(t)
                st.append(t)
    return True


def oldest(P, v, c):
    """is the argument the oldest interval of the window, collations_[0]?"""
    ns = sub(v, v.nodes[c]["a"][0])
    ix = [v.nodes[x] for x in ns if v.nodes[x]["k"] == "idx"]
    if not ix:
        return any(v.nodes[x]["k"] == "un" and v.nodes[x]["op"] == "*" for x in ns) and mentions(v, ns, "collations_")
    return all(str(v.nodes[n["i"]].get("cv")) == "0" for n in ix)


def finest(P, v, o, fld):
    ns = sub(v, o)
    if not mentions(v, ns, fld):
        return False
    for x in ns:
        n = v.nodes[x]
        if n["k"] == "call" and short(P_callee(n)) in ("begin", "cbegin", "front"):
            return True
        if n["k"] == "call" and short(P_callee(n)) in ("operator[]", "at") and n["a"] and str(v.nodes[n["a"][0]].get("cv")) == "0":
            return True
    return False


def accounted(P, R, v, heads):
    counts = {}
    for i, n in v.nodes.items():
        if i not in v.elem_of:
            continue
        if n["k"] == "call":
            m = short(P.callee(n) or "")
            if m == "operator++" and n.get("o") is not None and any(v.nodes[x].get("n") and short(str(v.nodes[x]["n"])) in DROPS for x in sub(v, n["o"]) if v.nodes[x]["k"] in ("ref", "mem")):
                counts[i] = ("dropped", 1)
            elif m == "collatedUpdate":
                counts[i] = ("stored", "=", 1)
    def ev(g, e):
        c = counts.get(e) if isinstance(e, int) else None
        return [c] if c else ()
    F = Counts(P, v, ["stored", "dropped"], ev)
    F.edge_ev = lambda b, s: [("stored", "=", 1)] if s in heads else ()
    F.solve()
    s = F.inb.get(v.exit)
    vals = sorted(set((F.gval(a, "stored"), F.gval(a, "dropped")) for a in s)) if s else []
    ok = bool(vals) and all(x in ((1, 0), (0, 1)) for x in vals)
    R.ob("accounted", v.loc(), v.f, ok, func=v.f, detail="record",
         msg="a path of recording a sample ends with (stored, dropped) = %s" % ", ".join(str(x) for x in vals if x not in ((1, 0), (0, 1))))


def closing(P, R, shiftfn):
    reach = {}

    def shifts(f):
        if f.u not in reach:
            reach[f.u] = f.f in shiftfn or any(P.funcs[g].f in shiftfn for g in P.reach([f]))
        return reach[f.u]
    for f in sorted(P.funcs.values(), key=lambda f: f.f):
        if f.cls != CLS or is_fake(f) or f.implicit or not (f.is_dtor or short(f.f) in ("purge", "flush", "forceFlush")):
            continue
        calls = [i for i, n in f.nodes.items() if n["k"] == "call" and i in f.elem_of and n.get("o") is not None and f.nodes[n["o"]]["k"] == "this" and any(shifts(t) for t in P.targets(f, n))]
        F = Counts(P, f, ["shift"], lambda g, e: [("shift", "=", 1)] if isinstance(e, int) and e in calls else ())
        F.exceptions = False
        F.solve()
        s = F.inb.get(f.exit)
        flag = [t for t in (("f", ("this",), CLS + "::isCollated_"),)]

        def fine(a):
            from ista.facts import entails
            return F.gval(a, "shift") == 1 or any(entails(a, "==", t, ("c", 0)) for t in flag) or any(
                op == "==" and ("c", 0) in (x, y) and any(z[0] == "m" and z[1] == "size" for z in (x, y)) for op, x, y in a)
        R.ob("closing", f.loc(), f.f, s is None or all(fine(a) for a in s), func=f.f, detail="closing", msg="samples still being collated may not be written")
