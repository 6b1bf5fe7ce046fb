"""Blacklist: consulted before a line is interpreted, a listed agent is cut off, a list that cannot be read stays in force."""
from ista.model import detmpl, short
from ista.facts import facts, entails
from ista.throws import is_fake
from ista.util import Counts
from rules.D05 import known

ASSUME = ["an agent is known by the 'hostname' of its own meta information", "the agent table is keyed by connection (checked: key)"]
ZERO = ("c", 0)
LIST = "StatServer::blacklist_"
SET = "Blacklist::blacklistSet_"
TABLE = "StatServer::metaInfo_"


def skip(f):
    return is_fake(f) or f.file.startswith(("tool", "perf", "ftest"))


def field(f, i, name):
    """the expression is (reached through smart pointers from) this member"""
    n = f.nodes[i]
    if n["k"] == "mem":
        return n["n"] == name
    if n["k"] in ("cast", "un"):
        return field(f, n["x"], name)
    if n["k"] == "call" and n.get("o") is not None and n.get("op") in ("->", "*"):
        return field(f, n["o"], name)
    return False


def contains_calls(P, v):
    return [i for i, n in v.nodes.items() if n["k"] == "call" and (P.callee(n) or "").endswith("Blacklist::contains")]


def is_sink(P, v, i, n):
    """hands input on: to the store, the exposition, a forwarding connection or the agent table"""
    if n["k"] != "call":
        return None
    c = P.callee(n) or ""
    s = short(c)
    if n.get("o") is not None and s == "record" and n["a"] and any(b in c for b in ("StatStore::record",)):
        return "the store"
    if s in ("dispatch", "record") and "PromExporter" in c:
        return "the metrics exposition"
    if s == "writeOut" and field(v, base_elem(P, v, n["o"]) if n.get("o") is not None else i, "StatServer::forward_"):
        return "a forwarding connection"
    if n.get("op") == "=" and n.get("o") is not None:
        m = v.nodes[n["o"]]
        if m["k"] == "call" and m.get("op") == "[]" and m.get("o") is not None and v.nodes[m["o"]]["k"] == "mem" and v.nodes[m["o"]]["n"] == "MetaInfo::info_":
            if any(v.nodes[j]["k"] == "ref" and v.nodes[j].get("d") in v.vars and "string" in v.vars[v.nodes[j]["d"]]["t"] for a in n["a"] for j in v.subtree(a)):
                return "the agent table"
            return None
    return None


def strip(v, i):
    while True:
        n = v.nodes[i]
        if n["k"] == "cast":
            i = n["x"]
        elif n["k"] == "ctor" and len(n["a"]) >= 1 and n.get("copy"):
            i = n["a"][0]
        else:
            return i


def base_elem(P, v, i, depth=0):
    n = v.nodes[i]
    if depth > 8:
        return i
    if n["k"] == "call" and n.get("o") is not None and n.get("op") in ("->", "*", "[]"):
        return base_elem(P, v, n["o"], depth + 1)
    if n["k"] in ("cast", "un"):
        return base_elem(P, v, n["x"], depth + 1)
    if n["k"] == "idx":
        return base_elem(P, v, n["b"], depth + 1)
    if n["k"] == "ref" and n.get("d") is not None:
        q = v.vars.get(n["d"])
        if q and len(q["inits"]) == 1:
            m = v.nodes[q["inits"][0]]
            while m["k"] in ("cast", "ctor") and (m.get("x") is not None or m.get("a")):
                m = v.nodes[m["x"] if m["k"] == "cast" else m["a"][0]]
            if m["k"] == "call" and m.get("o") is not None and short(P.callee(m)) in ("begin", "find"):
                return m["o"]
            return base_elem(P, v, q["inits"][0], depth + 1)
    return i


class Cut:
    """facts about the outcome of the blacklist lookup along the paths of one view"""

    def __init__(self, P, v):
        self.P, self.v = P, v
        F = facts(P, v)
        cs = set(contains_calls(P, v))
        self.finds = {}
        for i, n in v.nodes.items():
            if n["k"] == "call" and short(P.callee(n)) == "find" and n.get("o") is not None and v.nodes[base_elem(P, v, n["o"])]["k"] == "mem" \
                    and v.nodes[base_elem(P, v, n["o"])]["n"] in (TABLE, "MetaInfo::info_"):
                self.finds[i] = v.nodes[base_elem(P, v, n["o"])]["n"]
        its = {}
        for d, q in v.vars.items():
            for x in q["inits"]:
                for j in v.subtree(x):
                    if j in self.finds:
                        its[d] = self.finds[j]
        self.its = its
        mark = {}
        for b, blk in v.blocks.items():
            if blk.get("tc") is None or len(blk["to"]) != 2:
                continue
            s = F.inb.get(b)
            for x in blk["s"]:
                if s is not None:
                    s = F.elem(s, x, b)
            if s is None:
                continue
            for k, to in enumerate(blk["to"]):
                if to is None:
                    continue
                r = F.edge(s, b, k, to)
                if not r:
                    continue
                if not all(any(e for e in [self.what(alt, cs)] if e) for alt in r):
                    continue
                ws = set(self.what(alt, cs) for alt in r)
                if len(ws) == 1:
                    mark[(b, to)] = ws.pop()
        self.mark = mark
        self.C = Counts(P, v, ["q", "hit", "closed"], self.ev)
        self.C.edge_ev = lambda b, s: {"clear": [("q", "=", 1), ("hit", "=", 0)], "hit": [("hit", "=", 1), ("q", "=", 0)]}.get(mark.get((b, s)))
        self.C.solve()

    def what(self, alt, cs):
        if known(alt, cs, 1):
            return "hit"
        if known(alt, cs, 0):
            return "clear"
        for (op, a, b) in alt:
            for x, y in ((a, b), (b, a)):
                if op == "==" and y == ZERO and (x == ("f", ("this",), LIST) or x[0] == "m" and x[1] in ("*", "operator!") and x[2] == ("f", ("this",), LIST)):
                    return "clear"
                if op == "==" and y[0] == "m" and y[1] == "end" and x[0] == "v" and x[1] in self.its:
                    return "clear"
        return None

    def ev(self, v, e):
        if not isinstance(e, int):
            return ()
        n = v.nodes[e]
        r = []
        if n["k"] == "call" and short(self.P.callee(n)) == "close" and n.get("o") is not None:
            r.append(("closed", "=", 1))
        return r


def run(P, R):
    R.rule("consulted", "input is handed on only where the blacklist is not configured or does not list the agent", 4)
    R.rule("agent", "the blacklist is asked about the host name the agent itself gave", 1)
    R.rule("cut", "once an agent is found listed its connection is closed and the caller is told", 1)
    R.rule("key", "the agent table is always addressed by the connection", 2)
    R.rule("kept", "a blacklist that cannot be read leaves the previous one in force", 1)
    R.rule("match", "names are brought to the same case when they are stored and when they are looked up", 2)
    R.rule("made", "the blacklist exists exactly when it is configured", 1)
    consulted(P, R)
    key(P, R)
    lists(P, R)
    made(P, R)


def interpreters(P):
    """bodies of the line handlers: what is bound together with the connection to receive single lines"""
    r = {}
    for f in P.funcs.values():
        if skip(f):
            continue
        if any(t for t in f.params if "basic_string" in t["t"] or "std::string" in t["t"]) and f.cls == "StatServer" and P.taken[f.u]:
            r[f.u] = f
    return list(r.values())


def consulted(P, R):
    names = {}
    n_s = 0
    for f in interpreters(P):
        v = P.view(f)
        sinks = [(i, is_sink(P, v, i, n)) for i, n in v.nodes.items() if n.get("l") is not None]
        sinks = [(i, w) for i, w in sinks if w]
        if not sinks:
            continue
        C = Cut(P, v)
        for i, w in sinks:
            s = C.C.before(i)
            if s is None:
                continue
            bad = [a for a in s if C.C.gval(a, "q") != 1]
            R.ob("consulted", v.loc(i), "%s is given to %s only after the blacklist check" % (P.render(v, i)[:60], w), not bad, func=v.f, detail="sink:" + w,
                 msg="a line reaches %s on a path on which the blacklist was not consulted, or did list the agent" % w)
        cs = contains_calls(P, v)
        for i in cs:
            arg = v.nodes[i]["a"][0] if v.nodes[i]["a"] else None
            ok = arg is not None and any(v.nodes[j]["k"] == "str" and v.nodes[j].get("v") == "hostname" for fi, c in C.finds.items() if c == "MetaInfo::info_" for j in v.subtree(fi))
            ok = ok and (v.nodes[base_elem(P, v, deref(P, v, arg))]["k"] == "mem" and v.nodes[base_elem(P, v, deref(P, v, arg))]["n"] == "MetaInfo::info_")
            R.ob("agent", v.loc(i), "Blacklist::contains is asked about the agent's host name", ok, func=v.f, detail="agent",
                 msg="the name looked up in the blacklist is not the 'hostname' entry of the connection's meta information")
        # the end of a path on which the agent was found listed
        vals = set()
        seen = 0
        for i, n in v.nodes.items():
            if n["k"] != "ret" or n.get("x") is None:
                continue
            s = C.C.before(i)
            for a in s or ():
                if C.C.gval(a, "hit") != 1:
                    continue
                seen += 1
                t = C.C.term(n["x"])
                k = t[1] if t[0] == "c" else None
                vals.add(k)
                op = [x for x in a if x[0] == "==" and ZERO in x[1:] and any(y[0] == "e" and called(P, v, y[1], "opened") for y in x[1:])]
                R.ob("cut", v.loc(i), "a listed agent's connection is closed", C.C.gval(a, "closed") == 1 or bool(op), func=v.f, detail="closed",
                     msg="a connection whose agent is on the blacklist is not closed before %s returns" % v.f)
                R.ob("cut", v.loc(i), "the caller is told that the line was refused", k is not None and k not in other_values(P, C, v), func=v.f, detail="told",
                     msg="%s returns the same status for a listed agent as for lines it handled" % v.f)
        if cs and not seen:
            R.ob("cut", v.loc(), "a path exists on which a listed agent is refused", False, func=v.f, detail="nohit",
                 msg="%s consults the blacklist but no path acts on a listed agent" % v.f)


def deref(P, v, i):
    n = v.nodes[i]
    if n["k"] == "mem" and detmpl(n["n"]).endswith("pair::second"):
        return n["b"]
    return i


def called(P, v, i, name):
    n = v.nodes.get(i)
    return n is not None and n["k"] == "call" and short(P.callee(n)) == name


def other_values(P, C, v):
    r = set()
    for i, n in v.nodes.items():
        if n["k"] == "ret" and n.get("x") is not None:
            for a in C.C.before(i) or ():
                if C.C.gval(a, "hit") != 1:
                    t = C.C.term(n["x"])
                    if t[0] == "c":
                        r.add(t[1])
    return r


def key(P, R):
    for v in P.roots():
        if skip(v):
            continue
        for i, n in v.nodes.items():
            if n["k"] != "call" or n.get("o") is None or v.nodes[n["o"]]["k"] != "mem" or v.nodes[n["o"]]["n"] != TABLE:
                continue
            s = short(P.callee(n))
            if not (n.get("op") == "[]" or s in ("find", "insert", "count", "at")) or not n["a"]:
                continue
            ok, seen = origin(P, v, n["a"][0], 0)
            R.ob("key", v.loc(i), "%s addresses the agent table by the connection" % P.render(v, i)[:70], ok, func=v.f, detail="key:" + s,
                 msg="the agent table is addressed by something else than the connection (asEagerConnection) elsewhere used as its key")


def origin(P, v, i, depth):
    n = v.nodes[i]
    if depth > 10:
        return False, None
    if n["k"] == "call" and short(P.callee(n)) == "asEagerConnection":
        return True, None
    if n["k"] == "call" and short(P.callee(n)) == "make_pair" and n["a"]:
        return origin(P, v, n["a"][0], depth + 1)
    if n["k"] in ("cast",):
        return origin(P, v, n["x"], depth + 1)
    if n["k"] == "ctor" and n["a"]:
        return origin(P, v, n["a"][0], depth + 1)
    if n["k"] == "ref" and n.get("d") is not None:
        q = v.vars.get(n["d"])
        if q and q["inits"] and not q["assigned"]:
            return all(origin(P, v, x, depth + 1)[0] for x in q["inits"]), None
    if n["k"] == "mem" and detmpl(n["n"]).endswith(("pair::first", "pair::second")):
        # an element taken from the table itself
        return True, None
    return False, None


def set_ops(P, v, names):
    for i, n in v.nodes.items():
        if n["k"] == "call" and n.get("o") is not None and v.nodes[n["o"]]["k"] == "mem" and v.nodes[n["o"]]["n"] == SET and short(P.callee(n)) in names:
            yield i, n


def lists(P, R):
    cases = {}
    for v in P.roots():
        if skip(v):
            continue
        stores = list(set_ops(P, v, ("insert",)))
        looks = list(set_ops(P, v, ("find", "count")))
        clears = [i for i, _ in set_ops(P, v, ("clear", "swap"))]
        clears += [i for i, n in v.nodes.items() if n["k"] == "call" and n.get("op") == "=" and n.get("o") is not None and v.nodes[n["o"]]["k"] == "mem" and v.nodes[n["o"]]["n"] == SET]
        for i, n in stores + looks:
            x = strip(v, n["a"][0])
            while v.nodes[x]["k"] == "ctor" and v.nodes[x]["a"]:
                x = strip(v, v.nodes[x]["a"][0])
            d = v.nodes[x].get("d") if v.nodes[x]["k"] == "ref" else None
            how = None
            if d is not None:
                def ev(vv, e, d=d):
                    if not isinstance(e, int):
                        return ()
                    m = vv.nodes[e]
                    if m["k"] == "decl" and any(q["d"] == d for q in m["ds"]):
                        return [("norm", "=", 0)]
                    w = case_of(P, vv, m, d)
                    if w:
                        return [("norm", "=", w)]
                    if m["k"] == "call" and m.get("op") in ("=", "+=") and m.get("o") is not None and vv.nodes[m["o"]]["k"] == "ref" and vv.nodes[m["o"]].get("d") == d:
                        return [("norm", "=", 0)]
                    return ()
                C = Counts(P, v, ["norm"], ev)
                C.solve()
                s = C.before(i)
                how = set(C.gval(a, "norm") for a in s) if s else None
            else:
                how = set([0])
            if how is not None:
                cases.setdefault(v.u, []).append((v, i, n, how))
        if clears:
            reads = [i for i, n in v.nodes.items() if n["k"] == "call" and (n.get("f") or "") in ("read", "fread") or n["k"] == "call" and short(P.callee(n)) in ("read", "getline", "fgets")]
            mods = [i for i, n in v.nodes.items() if n["k"] == "asg" and v.nodes[n["x"]]["k"] == "mem" and v.nodes[n["x"]]["n"] == "Blacklist::lastModifiedTime_"]

            def ev2(vv, e):
                if e in clears:
                    return [("cleared", "=", 1)]
                if e in mods:
                    return [("mod", "=", 1)]
                return ()
            C = Counts(P, v, ["cleared", "mod"], ev2)
            C.solve()
            for i in clears:
                # once the old set is given up nothing gives up half way
                bad = [j for j, n in v.nodes.items() if n["k"] == "throw" and n.get("l") is not None and any(C.gval(a, "cleared") == 1 for a in C.before(j) or ())]
                R.ob("kept", v.loc(i), "the old set is given up only after everything that can fail", not bad, func=v.f, detail="cleared",
                     msg="the blacklist is emptied before reading the new one can still fail (%s)" % ", ".join(v.loc(j) for j in bad))
            s = C.inb.get(v.exit)
            pairs = set((C.gval(a, "cleared"), C.gval(a, "mod")) for a in s or ())
            if mods:
                R.ob("kept", v.loc(mods[0]), "the file counts as read exactly when its content was taken", all(c >= m for c, m in pairs), func=v.f, detail="mod",
                     msg="the blacklist file is marked as read on a path on which its content was not taken over, so it is never read again")
                for i in mods:
                    late = [j for j, n in v.nodes.items() if n["k"] == "throw" and n.get("l") is not None and any(C.gval(a, "mod") == 1 for a in C.before(j) or ())]
                    R.ob("kept", v.loc(i), "the file is marked as read only after everything that can fail", not late, func=v.f, detail="modlate",
                         msg="the blacklist file is marked as read before reading it can still fail, so after a failure it is not read again")
                for i in reads:
                    pass
    forms = set(x for cs in cases.values() for _, _, _, h in cs for x in h)
    for cs in cases.values():
        for v, i, n, how in cs:
            R.ob("match", v.loc(i), "%s uses the common case" % P.render(v, i)[:60], len(forms) == 1, func=v.f, detail="case:" + short(P.callee(n)),
                 msg="names are stored in the blacklist and looked up in different case (case conversion on one side, or on some paths, only)")


def case_of(P, v, m, d):
    """1: brings the variable to lower case, 2: to upper case"""
    if m["k"] != "call":
        return 0
    s = detmpl(P.callee(m) or m.get("f") or "")
    if s in ("std::transform", "transform"):
        refs = [v.nodes[j] for a in m["a"] for j in v.subtree(a)]
        if not any(r["k"] == "ref" and r.get("d") == d for r in refs):
            return 0
        for r in refs:
            nm = str(r.get("n") or r.get("f") or "")
            if "tolower" in nm:
                return 1
            if "toupper" in nm:
                return 2
    if short(s) in ("to_lower", "to_upper"):
        if any(v.nodes[j]["k"] == "ref" and v.nodes[j].get("d") == d for a in m["a"] for j in v.subtree(a)):
            return 1 if short(s) == "to_lower" else 2
    return 0


def made(P, R):
    for f in P.funcs.values():
        if not f.is_ctor or f.cls != "StatServer" or skip(f) or f.implicit:
            continue
        v = P.view(f)
        sets = [i for i, n in v.nodes.items() if n["k"] == "call" and (n.get("op") == "=" or short(P.callee(n)) == "reset") and n.get("o") is not None and v.nodes[n["o"]]["k"] == "mem" and v.nodes[n["o"]]["n"] == LIST]
        uses = [i for i, n in v.nodes.items() if n["k"] == "call" and (P.callee(n) or "").endswith("Blacklist::Configuration::use")]
        if not sets and not uses:
            continue
        on = outcome_edges(P, v, set(uses))
        C = Counts(P, v, ["made", "on"], lambda vv, e: [("made", 1)] if e in sets else ())
        C.edge_ev = lambda b, s: [("on", "=", 1)] if (b, s) in on else ()
        C.solve()
        for i in sets:
            s = C.before(i)
            R.ob("made", v.loc(i), "the blacklist is created in the constructor", s is not None, func=v.f, detail="made", msg="the blacklist is never created")
        s = C.inb.get(v.exit)
        bad = [a for a in s or () if C.gval(a, "made") == 0 and C.gval(a, "on") == 1]
        R.ob("made", v.loc(), "a configured blacklist is created on every path", not bad and bool(sets), func=v.f, detail="always",
             msg="the StatServer can be set up without its configured blacklist")


def outcome_edges(P, v, calls):
    """edges on which one of these calls is known to have returned true"""
    F = facts(P, v)
    r = set()
    for b, blk in v.blocks.items():
        s = F.inb.get(b)
        if s is None or blk.get("tc") is None or len(blk["to"]) != 2:
            continue
        for x in blk["s"]:
            if s is not None:
                s = F.elem(s, x, b)
        for k, to in enumerate(blk["to"]):
            t = F.edge(s, b, k, to) if s is not None and to is not None else None
            if t and all(known(a, calls, 1) for a in t):
                r.add((b, to))
    return r
