"""Division by zero: every integer divisor is nonzero by a constant, a check on the path, or a checked field invariant."""
from ista.facts import changed_exprs, facts, classes_of, nonzero, positive, entails, atom
from ista.model import detmpl, short

# fields that are never zero once their object is usable; every store to one of them is an obligation
INV = {
    "istat::StatFile::bucketsPerPage_": "bucket slots per page",
    "istat::StatFile::bucketCount_": "bucket slots in the file",
    "istat::StatFile::Settings::intervalTime": "interval of a counter file",
    "istat::StatFile::Settings::numSamples": "slots of a counter file",
    "istat::Header4::cfg_interval": "interval in a file header",
    "istat::Header4::page_count": "page count in a file header",
    "istat::Header4::page_size": "page size in a file header",
    "RetentionInterval::interval": "retention interval",
    "RetentionInterval::samples": "retention sample count",
    "StatCounter::collationInterval_": "interval of a counter's finest file",
}
NONNEG_PARAM = {("StatCounter::normalizeRange", "interval")}
SKIP = ("FakeStatStore", "FakeStatCounter", "Json::")
ASSUME = ["StatCounter::normalizeRange is given the interval of a counter file or 0, never a negative one",
          "a page holds at least one bucket (sysconf(_SC_PAGE_SIZE) >= sizeof(Bucket))",
          "FakeStatStore is a test double and not part of the daemon"]


class NZ:
    def __init__(self, P):
        self.P = P
        self.assumed = set()

    def assume(self, f):
        r = []
        for q in f.params:
            if (f.f, q["n"]) in NONNEG_PARAM:
                r.append(atom(">=", ("v", q["d"]), ("c", 0)))
        return r

    def facts(self, f):
        a = self.assume(f)
        if not a:
            return facts(self.P, f)
        from ista.facts import Facts
        c = getattr(f, "_i08", None)
        if c is None:
            c = f._i08 = Facts(self.P, f, assume=a).solve()
        return c

    def inv_term(self, t):
        return t[0] == "f" and t[2] in INV

    def enrich(self, alt, ts):
        """atoms for the invariant fields mentioned in the alternative and the terms"""
        add = set()

        def walk(t):
            if self.inv_term(t):
                add.add(("<", ("c", 0), t))
            for c in t[1:]:
                if isinstance(c, tuple):
                    walk(c)
        for (op, a, b) in alt:
            walk(a)
            walk(b)
        for t in ts:
            walk(t)
        return frozenset(alt | add)

    def ok(self, f, i, at=None, depth=0):
        """value of expression i is nonzero whenever it is evaluated"""
        P = self.P
        n = f.nodes[i]
        if "cv" in n:
            return n["cv"] != 0
        if n["k"] == "cast":
            return self.ok(f, n["x"], at, depth)
        if n["k"] == "cond":
            return self.ok(f, n["x"], at, depth + 1) and self.ok(f, n["r"], at, depth + 1)
        F = self.facts(f)
        t = F.term(i)
        s = F.before(at if at is not None else i)
        if s is None:
            return True
        if t[0] == "v" and t[1] in self.assumed:
            return True
        if all(nonzero(self.enrich(a, [t]), t) or any(self.table(f, u) for u in classes_of(a, t)) or self.scaled(self.enrich(a, [t]), t) for a in s):
            return True
        if depth > 4:
            return False
        # a variable: every value it may hold was nonzero when stored
        m = f.nodes[P.strip_smart(f, i)]
        if m["k"] == "ref" and m.get("dk") == "local":
            v = f.vars.get(m["d"])
            if v and v["inits"] and not v["addr"] and not self.stepped(f, m["d"]):
                self.assumed.add(m["d"])
                try:
                    return all(self.ok(f, x, None, depth + 1) for x in v["inits"])
                finally:
                    self.assumed.discard(m["d"])
        if m["k"] == "ref" and m.get("dk") == "param" and not P.taken[f.u] and P.callers[f.u] and not v_assigned(f, m["d"]):
            k = [q["d"] for q in f.params].index(m["d"])
            return all(k < len(cf.nodes[ci].get("a", [])) and self.ok(cf, cf.nodes[ci]["a"][k], None, depth + 1) for cf, ci in P.callers[f.u])
        if m["k"] == "bin" and m["op"] == "/":
            d = F.term(m["r"])
            a0 = F.term(m["x"])
            if d[0] == "c" and isinstance(d[1], int) and d[1] > 0:
                # x / c with x known to be at least c
                if a0[0] == "f" and a0[2] == "istat::Header4::page_size":
                    return True
                return all(entails(self.enrich(a, [a0]), ">=", a0, d) for a in s)
        if m["k"] == "bin" and m["op"] == "*":
            return self.ok(f, m["x"], at, depth + 1) and self.ok(f, m["r"], at, depth + 1)
        if m["k"] == "call" and m.get("o") is None and short(P.callee(m)) == "max":
            return any(f.nodes[a].get("cv", 0) and f.nodes[a]["cv"] > 0 for a in m["a"])
        return False

    def scaled(self, alt, t):
        """t >= a*b with a, b positive"""
        for (op, x, y) in alt:
            if op in ("<=", "<") and y == t and x[0] == "o" and x[1] == "*" and positive(alt, x[2]) and positive(alt, x[3]):
                return True
        from ista.facts import classes_of
        return any(self.scaled1(alt, u) for u in classes_of(alt, t) if u != t)

    def scaled1(self, alt, t):
        return any(op in ("<=", "<") and y == t and x[0] == "o" and x[1] == "*" and positive(alt, x[2]) and positive(alt, x[3]) for (op, x, y) in alt)

    def table(self, f, t):
        """element of a constant table without zeros"""
        if t[0] == "i" and t[1][0] == "v":
            v = f.vars.get(t[1][1])
            if v and v["assigned"] == 0 and v["inits"]:
                m = f.nodes[v["inits"][0]]
                return m["k"] == "ilist" and bool(m.get("a")) and all(f.nodes[x].get("cv") for x in m["a"])
        if t[0] == "i" and t[1][0] == "g":
            return self.static_table(f, t[1][1])
        if t[0] == "f":
            return self.table_field(t[2])
        return False

    def static_table(self, f, name):
        P = self.P
        found = False
        for g in P.globals.values():
            if detmpl(g["n"]) != name:
                continue
            nodes = g.get("nodes", {})
            top = nodes.get(str(g.get("init")))
            if not top or top["k"] != "ilist" or not top["a"] or not all(nodes[str(x)].get("cv") for x in top["a"]):
                return False
            found = True
        if not found:
            return False
        for h in P.funcs.values():
            for i in h.nodes:
                for x in changed_exprs(P, h, i):
                    p = P.path(h, x)
                    if p and p[0] == ("g", name):
                        return False
        return True

    def table_field(self, fld):
        """member of a record that exists only in constant tables without a zero in that column"""
        P = self.P
        cls, nm = fld.rsplit("::", 1)
        c = P.classes.get(cls)
        if not c or any(b for b in c["bases"]):
            return False
        k = [i for i, q in enumerate(c["fields"]) if short(q["n"]) == nm]
        if not k:
            return False
        seen = 0
        for g in P.globals.values():
            if not g["t"].startswith(cls + "["):
                continue
            nodes = g.get("nodes", {})
            top = nodes.get(str(g.get("init")))
            if not top or top["k"] != "ilist":
                return False
            for r in top["a"]:
                row = nodes[str(r)]
                if row["k"] != "ilist" or k[0] >= len(row["a"]) or not nodes[str(row["a"][k[0]])].get("cv"):
                    return False
                seen += 1
        for f in P.funcs.values():
            for n in f.nodes.values():
                if n["k"] == "asg" and f.nodes[n["x"]]["k"] == "mem" and detmpl(f.nodes[n["x"]]["n"]) == fld:
                    return False
                if n["k"] == "ctor" and detmpl(n.get("c", "")) == cls and not n.get("copy"):
                    return False
        return seen > 0

    def stepped(self, f, d):
        for n in f.nodes.values():
            if n["k"] == "un" and n["op"] in ("++", "--") or n["k"] == "asg" and n["op"] != "=":
                x = f.nodes[n["x"]]
                if x["k"] == "ref" and x.get("d") == d:
                    return True
            if n["k"] in ("call", "ctor"):
                for j, a in enumerate(n.get("a", [])):
                    if (n.get("pk") or [])[j:j + 1] in (["r"], ["p"]) and f.nodes[a]["k"] == "ref" and f.nodes[a].get("d") == d:
                        return True
        return False


def v_assigned(f, d):
    v = f.vars.get(d)
    return v is None or v["assigned"] or v["addr"]


def is_int(t):
    return not ("double" in t or "float" in t) and not t.endswith("*")


def run(P, R):
    R.rule("divisor", "the divisor of every integer division and remainder is known to be nonzero on every path", 25)
    R.rule("invariant", "every value stored into a field relied on as nonzero is nonzero", 8)
    nz = NZ(P)
    for f in P.funcs.values():
        if any(x in f.f for x in SKIP):
            continue
        for i, n in f.nodes.items():
            if n["k"] in ("bin", "asg") and n["op"] in ("/", "%", "/=", "%=") and is_int(n.get("t", "")) and n.get("l"):
                if f.elem_of and nz.facts(f).before(i) is None:
                    continue
                if "double" in f.nodes[n["x"]].get("t", "") or "double" in f.nodes[n["r"]].get("t", ""):
                    continue
                what = P.render(f, i)
                ok = nz.ok(f, n["r"], i) or all(nz.ok(v, v.nodes[j]["r"], j) for v, j in P.contexts(f, i))
                R.ob("divisor", f.loc(i), what, ok, func=f.f, detail=P.render(f, n["r"]),
                     msg="the divisor of `%s` may be zero" % what)
    # stores to the invariant fields
    for f in P.funcs.values():
        if any(x in f.f for x in SKIP) or f.implicit:
            continue
        for i, n in f.nodes.items():
            if n["k"] == "asg" and f.nodes[n["x"]]["k"] == "mem" and detmpl(f.nodes[n["x"]]["n"]) in INV and n.get("l"):
                fld = detmpl(f.nodes[n["x"]]["n"])
                ok = nz.ok(f, n["r"], i) if n["op"] == "=" else False
                if not ok:
                    ok = later(P, nz, f, i) or all(n["op"] == "=" and nz.ok(v, v.nodes[j]["r"], j) or later(P, nz, v, j) for v, j in P.contexts(f, i))
                R.ob("invariant", f.loc(i), "%s = %s" % (short(fld), P.render(f, n["r"])), ok, func=f.f, detail=fld,
                     msg="%s (%s) may become zero here and is used as a divisor elsewhere" % (fld, INV[fld]))
    # the header is mapped from a file: the function that maps it checks the fields before it returns
    for f in P.roots():
        if f.cls != "istat::StatFile":
            continue
        for i, n in f.nodes.items():
            if n["k"] == "asg" and f.nodes[n["x"]]["k"] == "mem" and detmpl(f.nodes[n["x"]]["n"]).endswith("StatFile::fileHeader_") \
                    and f.nodes[n["r"]].get("cv") != 0 and P.render(f, n["r"]).find("map") >= 0:
                from ista.flow import exc_chain
                F = facts(P, f)
                for b in f.preds[f.exit]:
                    blk = f.blocks[b]
                    if b not in F.inb:
                        continue
                    s = F.inb[b]
                    for e in blk["s"]:
                        s = F.elem(s, e, b)
                        if s is None or isinstance(e, int) and f.nodes[e]["k"] == "throw":
                            s = None
                            break
                    if s is None:
                        continue
                    for fld in ("istat::Header4::cfg_interval", "istat::Header4::page_count"):
                        ok = all(any(op == "<=" and a[0] == "c" and a[1] >= 1 and b2[0] == "f" and b2[2] == fld or
                                     op == "<" and a[0] == "c" and a[1] >= 0 and b2[0] == "f" and b2[2] == fld or
                                     op == "!=" and (a[0] == "f" and a[2] == fld and b2 == ("c", 0) or b2[0] == "f" and b2[2] == fld and a == ("c", 0))
                                     for (op, a, b2) in alt) for alt in s)
                        R.ob("invariant", f.loc(i), "header field %s checked before the file is usable" % short(fld), ok, func=f.f, detail=fld,
                             msg="the header read from the file is used although its %s may be zero" % INV[fld])


def later(P, nz, f, i):
    """the value is checked after the store: at every use-visible exit the stored field is known nonzero"""
    F = nz.facts(f)
    t = F.term(f.nodes[i]["x"])
    e = f.elem_of.get(i)
    if e is None:
        return False
    # walk forward from the store to exits; the field must be nonzero (or restored) at each normal exit
    seen, st = set(), [e[0]]
    ok = True
    while st:
        b = st.pop()
        if b in seen:
            continue
        seen.add(b)
        blk = f.blocks[b]
        dead = blk.get("nr") or any(isinstance(x, int) and f.nodes[x]["k"] == "throw" for x in blk["s"])
        if dead:
            continue
        for s in blk["to"]:
            if s is None:
                continue
            if s == f.exit:
                if b in F.inb:
                    stt = F.inb[b]
                    for x in blk["s"]:
                        stt = F.elem(stt, x, b)
                    if not all(nonzero(a, t) for a in stt):
                        # objects that are local and handed on are checked at the hand-over
                        if not handed(P, nz, f, i, t, F):
                            ok = False
            else:
                st.append(s)
    return ok


def handed(P, nz, f, i, t, F):
    """the object is a local; wherever it is passed on, the field is known nonzero"""
    b = t
    while b[0] in ("f", "i"):
        b = b[1]
    if b[0] != "v" or f.vars.get(b[1], {}).get("param", True):
        return False
    uses = 0
    for j, n in f.nodes.items():
        if n["k"] in ("call", "ctor") and n.get("l") and not n.get("op"):
            for a in n.get("a", []):
                m = f.nodes[P.strip_smart(f, a)]
                if m["k"] == "ref" and m.get("d") == b[1]:
                    if n["k"] == "ctor" and f.parents.get(j) and not any(f.nodes[p]["k"] in ("call", "ctor") for p in f.parents[j]):
                        pass
                    s = F.before(j)
                    uses += 1
                    if s is None:
                        continue
                    if not all(nonzero(x, t) for x in s):
                        return False
    return uses > 0
