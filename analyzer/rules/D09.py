"""Merging buckets: what every statistic holds after a merge, by value numbering along the paths of the merge functions."""
from ista.model import detmpl, short
from ista.symval import Sym, const, at, add, mul, flat

B = "istat::Bucket"
STAT = ["sum_", "sumSq_", "min_", "max_", "count_"]
ALL = STAT + ["time_"]
ASSUME = ["float/double rounding of one operation is not modelled: the rule decides which statistics are combined and how"]
T = ("this",)


def init(base, f):
    return at(("init", (base, "f", f)))


def getv(p, f):
    return p.st.get((T, "f", f), init(T, f))


def lt(p, a, b):
    """the path knows a <= b"""
    return ("<", a, b) in p.conds or ("<=", a, b) in p.conds or ("==", a, b) in p.conds or ("==", b, a) in p.conds


def minmax_ok(p, f, val, me, you):
    op = f[:3]
    if val == flat(op, me, you):
        return True
    if op == "min":
        return val == me and lt(p, me, you) or val == you and lt(p, you, me)
    return val == me and lt(p, you, me) or val == you and lt(p, me, you)


def zero(p, x):
    """1 known empty, 0 known not empty, None unknown"""
    for (op, a, b) in p.conds:
        if op == "==" and (a, b) in ((x, const(0)), (const(0), x)):
            return 1
        if op == "!=" and (a, b) in ((x, const(0)), (const(0), x)):
            return 0
        if op == "<=" and (a, b) == (x, const(0)) or op == "<" and (a, b) == (x, const(1)):
            return 1
        if op == "<" and (a, b) == (const(0), x) or op == "<=" and (a, b) == (const(1), x):
            return 0
    return None


def takes_all(p, o):
    return [f for f in ALL if getv(p, f) != init(o, f)]


def accumulate(p, o):
    bad = []
    for f in STAT:
        v, me, you = getv(p, f), init(T, f), init(o, f)
        if f in ("min_", "max_"):
            if not minmax_ok(p, f, v, me, you):
                bad.append(f)
        elif v != add(me, you):
            bad.append(f)
    if getv(p, "time_") != init(T, "time_"):
        bad.append("time_")
    return bad


def weighted(p, o, lam):
    bad = []
    for f in STAT:
        v, me, you = getv(p, f), init(T, f), init(o, f)
        want = add(mul(lam, me), add(you, mul(lam, you), -1))
        if f == "count_":
            ok = False
            if len(v) == 1:
                (m, c), = v
                if c == 1 and len(m) == 1 and m[0][0] == "max" and const(1) in m[0][1] and len(m[0][1]) == 2:
                    x = [y for y in m[0][1] if y != const(1)][0]
                    d = dict(add(x, want, -1))
                    ok = set(d) <= {()} and 0 <= d.get((), 0) < 1
            d = dict(add(v, want, -1))
            if not ok and set(d) <= {()} and 0 <= d.get((), 0) < 1 and (lt(p, const(1), v)):
                ok = True
            if not ok and v == const(1) and any(op in ("<", "<=") and b == const(1) and a != v for (op, a, b) in p.conds):
                ok = True
            if not ok:
                bad.append(f)
        elif v != want:
            bad.append(f)
    return bad


def run(P, R):
    R.rule("empty", "merging into an empty bucket takes every statistic of the other bucket", 2)
    R.rule("accumulate", "merging into a bucket with data adds counts, sums and sums of squares, keeps the smaller minimum and the larger maximum", 1)
    R.rule("weighted", "a weighted merge weighs every statistic of both buckets with factors that add up to one, and keeps a count", 1)
    R.rule("collate", "adding a value to a collated bucket adds to the sum and derives every other statistic from it", 1)
    R.rule("construct", "a bucket made from statistics keeps each in its own field", 1)
    R.rule("read", "each statistic read from a bucket is the field of that name", 5)
    R.rule("copy", "a bucket copied under another time keeps every statistic", 1)
    for f in list(P.funcs.values()):
        if detmpl(f.cls or "") not in (B, "istat::FileBucketLayout") or f.implicit:
            continue
        v = P.view(f)
        name = short(f.f)
        ob = [q for q in f.params if detmpl(q.get("tc", "")) == B]
        scal = [q for q in f.params if not q.get("tc")]
        isctor = name in ("Bucket", "FileBucketLayout")
        if isctor and len(scal) == 6 and not ob:
            ps = Sym(P, v).run({"Bucket"}, ALL)
            order = ["sum_", "sumSq_", "min_", "max_", "count_", "time_"]
            ok = ps is not None and len(ps) > 0 and all(getv(p, fl) == at(("init", ("v", q["d"]))) for p in ps for fl, q in zip(order, f.params))
            bad = [fl for fl, q in zip(order, f.params) if not ps or any(getv(p, fl) != at(("init", ("v", q["d"]))) for p in ps)]
            R.ob("construct", f.loc(), f.f + "(sum, sumSq, min, max, count, time)", ok, func=f.f, detail="construct", msg="a bucket is made with %s taken from another argument" % ", ".join(bad))
        elif isctor and ob and len(f.params) == 2 and scal:
            ps = Sym(P, v).run({"Bucket"}, ALL)
            o = ("v", ob[0]["d"])
            ok = bool(ps) and all(getv(p, fl) == init(o, fl) for p in ps for fl in STAT) and all(getv(p, "time_") == at(("init", ("v", scal[0]["d"]))) for p in ps)
            R.ob("copy", f.loc(), f.f + "(Bucket, time)", ok, func=f.f, detail="copy", msg="a bucket copied under another time loses a statistic or the time")
        elif not isctor and len(ob) == 1 and not scal and name == "update":
            merge(P, R, f, v, ("v", ob[0]["d"]), None)
        elif not isctor and len(ob) == 1 and len(scal) == 1 and name == "expUpdate":
            merge(P, R, f, v, ("v", ob[0]["d"]), at(("init", ("v", scal[0]["d"]))))
        elif not isctor and not ob and len(scal) == 2 and name == "collatedUpdate":
            ps = Sym(P, v).run({"Bucket"}, ALL)
            val, tm = (at(("init", ("v", q["d"]))) for q in scal)
            s1 = add(init(T, "sum_"), val)
            bad = set()
            for p in ps or []:
                z = zero(p, init(T, "count_"))
                exp = {"sum_": s1, "min_": s1, "max_": s1, "sumSq_": mul(s1, s1), "count_": const(1)}
                bad |= {k for k, x in exp.items() if getv(p, k) != x}
                if z is None:
                    bad.add("time_")
                elif getv(p, "time_") != (tm if z else init(T, "time_")):
                    bad.add("time_")
            R.ob("collate", f.loc(), f.f, bool(ps) and not bad, func=f.f, detail="collate", msg="adding a value to a collated bucket leaves %s wrong" % ", ".join(sorted(bad)))
        elif not f.params and name + "_" in ALL and name != "time":
            flds = set(n["n"].split("::")[-1] for n in f.nodes.values() if n["k"] == "mem" and n["n"].split("::")[-1] in ALL)
            R.ob("read", f.loc(), f.f, flds == {name + "_"}, func=f.f, detail="read " + name, msg="%s() returns %s" % (name, ", ".join(sorted(flds)) or "no field"))


def merge(P, R, f, v, o, lam):
    ps = Sym(P, v).run({"Bucket"}, ALL)
    if ps is None:
        R.ob("accumulate" if lam is None else "weighted", f.loc(), f.f, False, func=f.f, detail="undecided", msg="the merge cannot be followed")
        return
    be, ba = set(), set()
    ne = na = 0
    for p in ps:
        z = zero(p, init(T, "count_"))
        zo = zero(p, init(o, "count_"))
        if zo == 1 and all(getv(p, fl) == init(T, fl) for fl in ALL):
            continue                                # nothing to merge
        if z != 0:
            ne += 1
            be |= set(takes_all(p, o))
        if z != 1:
            na += 1
            ba |= set(accumulate(p, o) if lam is None else weighted(p, o, lam))
    R.ob("empty", f.loc(), f.f, ne > 0 and not be, func=f.f, detail="empty", msg="merging into an empty bucket does not take %s of the other" % ", ".join(sorted(be)))
    R.ob("accumulate" if lam is None else "weighted", f.loc(), f.f, na > 0 and not ba, func=f.f, detail="merge",
         msg="merging into a bucket with data leaves %s wrong" % ", ".join(sorted(ba)))
