"""Conditions known to hold at each point: a disjunctive forward analysis over comparison atoms.

A state is a small set of alternatives; each alternative is a set of atoms (op, A, B), op in == != < <=, over symbolic
terms.  Alternatives are kept apart at joins (so a flag or the result of a predicate helper keeps its meaning) up to a
limit and are intersected beyond it.  An atom dies when anything it mentions may have changed."""
from .model import detmpl, short, SMART
from .flow import Flow

PURE = {"strlen", "memcmp", "strcmp", "strncmp", "isalpha", "isdigit", "isalnum", "isspace", "min", "max", "c_str", "abs", "fabs",
        "isxdigit", "ispunct", "tolower", "toupper"}
LIMIT = 24
WIDTH = {"size_t": 64, "unsigned long": 64, "unsigned int": 32, "unsigned": 32, "uint32_t": 32, "uint64_t": 64, "std::size_t": 64, "unsigned char": 8, "uint8_t": 8, "unsigned short": 16, "uint16_t": 16}
UNSIGNED = {"size_t", "unsigned long", "unsigned int", "unsigned", "uint32_t", "uint64_t", "std::size_t", "unsigned char", "uint8_t", "unsigned short", "uint16_t"}
NEG = {"==": "!=", "!=": "==", "<": ">=", "<=": ">", ">": "<=", ">=": "<"}
INT = lambda t: t[0] == "c"


def mentions(t, roots):
    if t in roots:
        return True
    for c in t[1:]:
        if isinstance(c, tuple) and mentions(c, roots):
            return True
        if isinstance(c, str) and t[0] in ("f", "g") and ("F", c) in roots:
            return True
    return False


def atom(op, a, b):
    if op == ">":
        op, a, b = "<", b, a
    elif op == ">=":
        op, a, b = "<=", b, a
    if op in ("==", "!=") and repr(a) > repr(b):
        a, b = b, a
    return (op, a, b)


class Mods:
    """fields and globals a function may change, directly or through what it calls"""

    def __init__(self, P):
        self.P = P
        self.direct = {}
        for f in P.funcs.values():
            s = set()
            for i, n in f.nodes.items():
                for r in changed_exprs(P, f, i):
                    p = P.path(f, r)
                    if p:
                        for c in p:
                            if isinstance(c, str) and "::" in c:
                                s.add(c)
                        if isinstance(p[0], tuple) and p[0][0] == "g":
                            s.add(p[0][1])
                    c = detmpl(f.nodes[r].get("tc") or "?")
                    if c in P.classes and not P.targets(f, f.nodes[i]):
                        s.add("*" + c)      # the whole object is replaced
            self.direct[f.u] = s
        self.memo = {}

    def of(self, f):
        r = self.memo.get(f.u)
        if r is None:
            r = set()
            for u in self.P.reach([f]):
                r |= self.direct.get(u, set())
            self.memo[f.u] = r
        return r


def changed_exprs(P, f, i):
    """sub-expressions whose object node i may change directly"""
    n = f.nodes[i]
    k = n["k"]
    if k == "asg":
        return [n["x"]]
    if k == "un" and n["op"] in ("++", "--"):
        return [n["x"]]
    if k in ("call", "ctor"):
        r = []
        if k == "call" and n.get("o") is not None and not n.get("const"):
            nm = short(P.callee(n))
            if not (detmpl(n.get("c", "")) in SMART and (n.get("op") in ("->", "*", "[]") or nm in ("get", "operator bool")) or
                    nm in ("begin", "end", "rbegin", "rend", "front", "back", "size", "find", "at", "lower_bound", "upper_bound", "data") or
                    n.get("op") in ("[]", "*", "->", "==", "!=", "<", "()", "<<")):
                r.append(n["o"])
            elif n.get("op") == "[]" and "map" in n.get("c", ""):
                r.append(n["o"])
        pk = n.get("pk") or []
        for j, a in enumerate(n.get("a", [])):
            if j < len(pk) and pk[j] in ("r", "p") and n.get("op") not in ("<<",):
                r.append(a)
        return r
    return []


class Live(set):
    def __init__(self):
        super().__init__()
        self.nodes = set()


class Facts(Flow):
    exceptions = True

    def __init__(self, P, f, mods=None, assume=()):
        super().__init__(P, f)
        self.mods = mods or P_mods(P)
        self.assume = list(assume)
        self._terms = {}

    # ---- terms
    def term(self, i, depth=0):
        if i is None:
            return ("?",)
        t = self._terms.get(i)
        if t is None:
            t = self._terms[i] = self._term(i, depth)
        return t

    def _term(self, i, depth):
        f, P = self.f, self.P
        n = f.nodes[i]
        k = n["k"]
        if depth > 14:
            return ("e", i)
        T = lambda x: self.term(x, depth + 1)
        if "cv" in n:
            return ("c", n["cv"])
        if k == "cast":
            return T(n["x"])
        if k == "str":
            return ("s", n.get("v"))
        if k == "this":
            return ("this",)
        if k == "ref":
            if n.get("dk") in ("local", "param"):
                v = f.vars.get(n["d"])
                if v and not v["param"] and (v.get("ref") or v["q"].get("_this") or v["n"] == "this") and len(v["inits"]) == 1 and v["assigned"] == 0:
                    return T(v["inits"][0])
                if v and not v["param"] and v.get("ref") and len(v["inits"]) >= 1:
                    return T(v["inits"][0])
                return ("v", n["d"])
            return ("g", detmpl(n.get("n", "")))
        if k == "mem":
            b = T(n["b"])
            return ("f", b[1] if b[0] == "d" else b, detmpl(n["n"]))
        if k == "ctor" and len(n.get("a", [])) == 1 and (n.get("copy") or n.get("conv")):
            return T(n["a"][0])
        if k == "un":
            if n["op"] == "&":
                return ("a", T(n["x"]))
            if n["op"] == "*":
                x = T(n["x"])
                return x[1] if x[0] == "a" else ("d", x)
            if n["op"] in ("-", "!", "~", "+"):
                return ("u", n["op"], T(n["x"]))
            if n["op"] in ("++", "--") and not n.get("post"):
                return T(n["x"])
            return ("e", i)
        if k == "bin":
            return ("o", n["op"], T(n["x"]), T(n["r"]))
        if k == "asg":
            return T(n["x"])
        if k == "idx":
            return ("i", T(n["b"]), T(n["i"]))
        if k == "call":
            nm = short(P.callee(n))
            if n.get("o") is not None:
                c = detmpl(n.get("c", ""))
                if c in SMART and (n.get("op") in ("->", "*") or nm in ("get", "operator bool")):
                    return T(n["o"])
                if n.get("op") == "[]":
                    return ("i", T(n["o"]), T(n["a"][0]))
                if n.get("op") in ("*", "->"):
                    return ("d", T(n["o"]))
                ts = P.targets(f, n) if not n.get("virt") else []
                if len(ts) == 1:
                    g = P.getter_field(ts[0])
                    if g and all(isinstance(x, str) for x in g[1:]) and "[]" not in g:
                        t = T(n["o"])
                        for x in g[1:]:
                            t = ("f", t, x)
                        return t
                if n.get("op") in ("==", "!=", "<", "<=", ">", ">=") and len(n["a"]) == 1:
                    return ("o", n["op"], T(n["o"]), T(n["a"][0]))
                if n.get("op") in ("=", "+=") and n["a"]:
                    return T(n["o"])
                if n.get("const") or nm in ("begin", "end", "rbegin", "rend", "front", "back", "size", "empty", "length", "find", "data"):
                    if nm == "length":
                        nm = "size"
                    if nm == "empty":
                        return ("o", "==", ("m", "size", T(n["o"])), ("c", 0))
                    return ("m", nm, T(n["o"])) + tuple(T(x) for x in n.get("a", []))
                return ("e", i)
            if n.get("op") in ("==", "!=", "<", "<=", ">", ">=") and len(n["a"]) == 2:
                return ("o", n["op"], T(n["a"][0]), T(n["a"][1]))
            if nm in PURE or n.get("op") in ("+", "-"):
                return ("m", nm, ("c", 0)) + tuple(T(x) for x in n.get("a", []))
            return ("e", i)
        return ("e", i)

    # ---- conditions -> list of alternatives (each a list of atoms)
    def cond(self, i, pol, depth=0):
        f = self.f
        n = f.nodes[i]
        if "cv" in n:
            return [[]] if bool(n["cv"]) == pol else []
        k = n["k"]
        if k == "cast":
            return self.cond(n["x"], pol, depth)
        if k == "un" and n["op"] == "!":
            return self.cond(n["x"], not pol, depth)
        if k == "call" and n.get("op") == "!":
            return self.cond(n["o"] if n.get("o") is not None else n["a"][0], not pol, depth)
        if k == "bin" and n["op"] in ("&&", "||"):
            a, b = n["x"], n["r"]
            if (n["op"] == "&&") == pol:
                return [x + y for x in self.cond(a, pol, depth + 1) for y in self.cond(b, pol, depth + 1)][:8]
            return (self.cond(a, pol, depth + 1) + self.cond(b, pol, depth + 1))[:8]
        if k == "call" and short(self.P.callee(n)).startswith("operator ") and n.get("o") is not None:
            return self.cond(n["o"], pol, depth)
        return [self.tcond(self.term(i), pol)]

    def tcond(self, t, pol):
        if t[0] == "o" and t[1] in NEG:
            return [atom(t[1] if pol else NEG[t[1]], t[2], t[3])]
        if t[0] == "u" and t[1] == "!":
            return self.tcond(t[2], not pol)
        return [atom("!=" if pol else "==", t, ("c", 0))]

    # ---- flow
    def init(self):
        u = [atom("<=", ("c", 0), ("v", q["d"])) for q in self.f.params if q["t"].replace("const ", "").rstrip("& ") in UNSIGNED]
        return frozenset([frozenset(self.assume + u + [("==", ("c", 0), ("n", g)) for g in self.ghosts])])

    def join(self, a, b):
        r = a | b
        return self.trim(r)

    ghosts = ()

    def ghost(self, e):
        """[(name, delta)] or [(name, "=", value)]: effect of element e on the counts this analysis keeps"""
        return ()

    def gval(self, alt, name):
        for (op, a, b) in alt:
            if op == "==" and b == ("n", name):
                return a[1]
        return 0

    def gset(self, s, name, val):
        return frozenset(frozenset([a for a in alt if a[2] != ("n", name)] + [("==", ("c", val), ("n", name))]) for alt in s)

    def bump_ghosts(self, s, evs):
        for ev in evs:
            out = set()
            for alt in s:
                v = self.gval(alt, ev[0])
                nv = ev[2] if len(ev) == 3 else max(-2, min(2, v + ev[1]))
                out.add(frozenset([a for a in alt if a[2] != ("n", ev[0])] + [("==", ("c", nv), ("n", ev[0]))]))
            s = frozenset(out)
        return s

    def trim(self, r):
        if not self.ghosts:
            return self.trim1(r)
        if len(r) <= 1:
            return r
        groups = {}
        for alt in r:
            groups.setdefault(tuple(self.gval(alt, g) for g in self.ghosts), []).append(alt)
        out = frozenset()
        for k, g in groups.items():
            out |= self.trim1(frozenset(g))
        return out

    def trim1(self, r):
        if len(r) > 1:
            r = frozenset(x for x in r if not any(y < x for y in r))
        if len(r) > LIMIT:
            # distinctions about values nothing will look at again go first
            live = self.live().get(self._blk)
            if live is not None:
                dead = lambda t: t[0] == "v" and t[1] not in live or t[0] == "e" and t[1] not in live.nodes or any(isinstance(c, tuple) and dead(c) for c in t[1:])
                r = frozenset(frozenset(a for a in x if not (dead(a[1]) or dead(a[2]))) for x in r)
                r = frozenset(x for x in r if not any(y < x for y in r))
        if len(r) > LIMIT:
            # then distinctions by a single term, the one that separates the most alternatives
            for _ in range(6):
                it = list(r)
                common = frozenset.intersection(*it)
                cand = {}
                for x in it:
                    for a in x - common:
                        for t in a[1:]:
                            if t[0] != "c" and t[0] != "s":
                                cand[t] = cand.get(t, 0) + 1
                best = None
                for t in sorted(cand, key=lambda t: (-cand[t], repr(t)))[:12]:
                    q = frozenset(frozenset(a for a in x if a in common or t not in a[1:]) for x in it)
                    k = (len(q), cand[t])
                    if len(q) < len(it) and (best is None or k < best[0]):
                        best = (k, q)
                if best is None:
                    break
                r = self.keep_common(it, best[1])
                r = frozenset(x for x in r if not any(y < x for y in r))
                if len(r) <= LIMIT * 2 // 3:
                    break
        if len(r) > LIMIT:
            it = list(r)
            common = frozenset.intersection(*it)
            m = set(common)
            terms = frozenset.intersection(*[frozenset(t for a in x for t in a[1:]) for x in it])
            # atoms of one alternative that follow from every other one as well
            for a in frozenset().union(*it) - common:
                if ("c" in (a[1][0], a[2][0])) and a[1 if a[2][0] == "c" else 2] in terms and \
                        all(a in x or entails(x, a[0], a[1], a[2]) for x in it):
                    m.add(a)
            r = frozenset([frozenset(m)])
        return r

    _blk = None

    def keep_common(self, old, new):
        """constant facts every old alternative implies stay in the new ones"""
        terms = frozenset.intersection(*[frozenset(t for a in x for t in a[1:]) for x in old])
        m = set()
        for a in frozenset().union(*old):
            if "c" in (a[1][0], a[2][0]) and a[1 if a[2][0] == "c" else 2] in terms and all(a in x or entails(x, a[0], a[1], a[2]) for x in old):
                m.add(a)
        return frozenset(frozenset(x | m) for x in new)

    def live(self):
        """per block: variables and value nodes something reachable may still look at"""
        r = getattr(self, "_live", None)
        if r is None:
            f = self.f
            use = {}
            for b, blk in f.blocks.items():
                u, st = Live(), [x for x in blk["s"] if isinstance(x, int)] + ([blk["tc"]] if isinstance(blk.get("tc"), int) else [])
                while st:
                    i = st.pop()
                    n = f.nodes[i]
                    if i in u.nodes:
                        continue
                    u.nodes.add(i)
                    if n["k"] == "ref" and "d" in n:
                        u.add(n["d"])
                        v = f.vars.get(n["d"])
                        if v and v.get("ref"):
                            st.extend(v["inits"])
                    st.extend(f.kids(i))
                use[b] = u
            r = {}
            succ = {b: [x for x in blk["to"] if x is not None] for b, blk in f.blocks.items()}
            for tr in f.tries:
                pass
            exc = [h["b"] for tr in f.tries for h in tr["h"] if h["b"] is not None]
            for b in f.blocks:
                seen, st = set(), [b] + exc
                u = Live()
                while st:
                    x = st.pop()
                    if x in seen:
                        continue
                    seen.add(x)
                    u |= use[x]
                    u.nodes |= use[x].nodes
                    st.extend(succ[x])
                r[b] = u
            self._live = r
        return r

    def push(self, t, s, work):
        self._blk = t
        super().push(t, s, work)

    def elem(self, s, e, b):
        if self.ghosts:
            ev = self.ghost(e)
            if ev:
                s = self.bump_ghosts(s, ev)
        return self.elem1(s, e, b)

    def elem1(self, s, e, b):
        self._blk = b
        f = self.f
        if not isinstance(e, int):
            return s
        n = f.nodes[e]
        k = n["k"]
        kill = set()
        gen = []
        if k == "decl":
            for q in n["ds"]:
                v = ("v", q["d"])
                kill.add(v)
                if q["t"].replace("const ", "") in UNSIGNED:
                    gen.append([[atom("<=", ("c", 0), v)]])
                if q.get("i") is not None and not q.get("ref"):
                    t = self.term(q["i"])
                    if not mentions(t, {v}) and t[0] != "?":
                        gen.append(self.eqs(v, t, q["i"]))
        elif k == "asg":
            t = self.term(n["x"])
            self.lkill(n["x"], kill)
            if n["op"] == "=":
                r = self.term(n["r"])
                if not mentions(r, kill):
                    gen.append(self.eqs(t, r, n["r"]))
            elif n["op"] in ("+=", "-="):
                s = self.shift(s, t, n)
        elif k == "un" and n["op"] in ("++", "--"):
            self.lkill(n["x"], kill)
            s = self.bump(s, self.term(n["x"]), 1 if n["op"] == "++" else -1, kill)
            return s
        elif k == "iret":
            rd = self.ret_var(e)
            if rd is not None:
                kill.add(rd)
                if n.get("x") is not None:
                    t = self.term(n["x"])
                    if not mentions(t, {rd}):
                        gen.append(self.eqs(rd, t, n["x"]))
        elif k in ("call", "ctor"):
            ts = self.P.targets(f, n)
            md = set()
            for t in ts:
                md |= self.mods.of(t)
            for x in changed_exprs(self.P, f, e):
                if ts:
                    # the callee's own stores say which members change
                    c = detmpl(f.nodes[x].get("tc") or "?")
                    if f.nodes[x]["k"] == "this" or c in self.P.classes and "*" + c not in md:
                        continue
                t = self.term(x)
                if t[0] in ("v", "f") and f.nodes[x]["k"] in ("ref", "mem") and f.nodes[x].get("t", "").endswith("*") and self.by_pointer(n, x):
                    kill.add(("P", t))
                    continue
                self.lkill(x, kill)
            for fld in md:
                kill.add(("F", fld))
            if k == "call" and n.get("op") == "=" and n.get("o") is not None and n["a"]:
                t, r = self.term(n["o"]), self.term(n["a"][0])
                if not mentions(r, kill):
                    gen.append([[atom("==", t, r)]])
            if k == "call" and short(self.P.callee(n)) == "push_back" and n.get("o") is not None:
                gen.append([[atom(">=", ("m", "size", self.term(n["o"])), ("c", 1))]])
            if k == "call" and short(self.P.callee(n)) == "resize" and n.get("o") is not None and n["a"]:
                r = self.term(n["a"][0])
                if not mentions(r, kill):
                    gen.append([[atom("==", ("m", "size", self.term(n["o"])), r)]])
        kill.add(("e", e))
        if k in ("decl", "asg", "iret") and gen:
            # sign facts about the stored value survive the death of what they were derived from
            pairs = []
            for g in gen:
                if len(g) == 1 and len(g[0]) == 1 and g[0][0][0] == "==":
                    pairs.append((g[0][0][1], g[0][0][2]))
            if pairs:
                out = set()
                for alt in s:
                    add = set()
                    for p in pairs:
                        for v, t in (p, p[::-1]):
                            if (v in kill or v[0] == "f" and ("F", v[2]) in kill) and t[0] not in ("c", "s", "?", "this", "a"):
                                if positive(alt, t):
                                    add.add((v, atom("<", ("c", 0), v)))
                                elif t[0] != "v" and nonzero(alt, t):
                                    add.add((v, atom("!=", v, ("c", 0))))
                    out.add((frozenset(self.kill1(alt, kill)), frozenset(x for _, x in add)))
                s = self.trim(frozenset(x | y for x, y in out))
                for g in gen:
                    s = self.add(s, g)
                return s
        s = self.kill(s, kill)
        for g in gen:
            s = self.add(s, g)
        return s

    def eqs(self, v, t, i):
        """v := t; a boolean expression is split into its two outcomes"""
        n = self.f.nodes[i]
        ty = n.get("t", "")
        if t[0] == "c" and isinstance(t[1], int) and t[1] < 0 and v[0] == "v":
            q = self.f.vars.get(v[1]) or getattr(self.f, "extra_vars", {}).get(v[1]) or {}
            w = WIDTH.get(((q.get("q") or {}).get("t") or q.get("t") or "").replace("const ", ""))
            if w:
                t = ("c", t[1] + (1 << w))
        if "bool" in ty and t[0] not in ("c", "v", "e", "f"):
            r = []
            for pol in (True, False):
                for alt in self.cond(i, pol):
                    r.append(alt + [atom("==", v, ("c", 1 if pol else 0))])
            return r
        return [[atom("==", v, t)]]

    def by_pointer(self, n, x):
        pk = n.get("pk") or []
        return x != n.get("o") and not any(a == x and j < len(pk) and pk[j] == "r" for j, a in enumerate(n.get("a", [])))

    def ret_var(self, e):
        m = getattr(self, "_rv", None)
        if m is None:
            m = self._rv = {}
            for d, v in getattr(self.f, "extra_vars", {}).items():
                for x in v["inits"]:
                    m[x] = ("v", d)
        return m.get(self.f.nodes[e].get("x"))

    def lkill(self, x, kill):
        t = self.term(x)
        while t[0] == "a":
            t = t[1]
        kill.add(t)
        # element or pointee of something: forget what is known about the contents, not the handle
        b = t
        while b[0] in ("i", "d"):
            if b[0] == "d":
                kill.add(b)
                break
            b = b[1]
        if t[0] == "f":
            kill.add(("F", t[2]))
        elif t[0] == "g":
            kill.add(("F", t[1]))

    def kill(self, s, roots):
        out = []
        for alt in s:
            out.append(self.kill1(alt, roots))
        return self.trim(frozenset(out))

    def kill1(self, alt, roots):
        # a pointer handed to a call: what it points to changes, not the pointer; a constant does not change
        behind = set(r[1] for r in roots if r[0] == "P")
        roots = set(r for r in roots if r[0] not in ("c", "s", "P"))
        if behind:
            return frozenset(a for a in alt if not any(mentions(x, roots) or x not in behind and mentions(x, behind) for x in a[1:]))
        return frozenset(a for a in alt if not (mentions(a[1], roots) or mentions(a[2], roots)))

    def add(self, s, alts):
        out = set()
        for alt in s:
            for g in alts:
                na = frozenset(alt | set(g))
                if not contradiction(na):
                    out.add(na)
        return self.trim(frozenset(out))

    def bump(self, s, t, d, kill):
        """t += d: constants shift; t<X becomes t<=X for ++ ; X<=t kept as X<t etc."""
        out = []
        k2 = set(kill)
        for alt in s:
            na = set()
            for (op, a, b) in alt:
                ma, mb = mentions(a, k2), mentions(b, k2)
                if not ma and not mb:
                    na.add((op, a, b))
                    continue
                if op == "!=":
                    continue
                # a bound that moves along with a counting loop stays where it is after two rounds
                if d > 0 and b == t and a[0] == "c" and op in ("<", "<=") and a[1] >= 2 or d < 0 and a == t and b[0] == "c" and op in ("<", "<=") and b[1] <= -2:
                    na.add((op, a, b))
                elif a == t and b[0] == "c":
                    na.add(atom(op if op != "==" or abs(b[1]) < 2 else "<=" if d < 0 else ">=", a, ("c", b[1] + d)))
                elif b == t and a[0] == "c":
                    na.add(atom(op if op != "==" or abs(a[1]) < 2 else ">=" if d < 0 else "<=", ("c", a[1] + d), b))
                elif d > 0 and a == t and not mb and op == "<":
                    na.add(atom("<=", a, b))
                elif d > 0 and b == t and not ma and op in ("<=", "=="):
                    na.add(atom("<", a, b))
                elif d > 0 and a == t and not mb and op == "==":
                    na.add(atom("<", b, a))
                elif d > 0 and b == t and not ma and op == "<":
                    na.add(atom("<", a, b))
                elif d < 0 and a == t and not mb and op in ("<=", "=="):
                    na.add(atom("<", a, b))
                elif d < 0 and a == t and not mb and op == "<":
                    na.add(atom("<", a, b))
                elif d < 0 and b == t and not ma and op == "<":
                    na.add(atom("<=", a, b))
            out.append(frozenset(na))
        return self.trim(frozenset(out))

    def shift(self, s, t, n):
        return s

    def edge(self, s, b, k, succ):
        blk = self.f.blocks[b]
        tc = blk.get("tc")
        if tc is None or len(blk["to"]) != 2 or blk.get("tk") == "SwitchStmt":
            if blk.get("tk") == "SwitchStmt" and tc is not None:
                sb = self.f.blocks[succ]
                if "case" in sb:
                    return self.add(s, [[atom("==", self.term(tc), ("c", sb["case"]))]]) or None
            return s
        r = self.add(s, self.cond(tc, k == 0))
        # what was made a (non-null) string literal by way of another variable is not 0 here
        r = frozenset(alt for alt in r if not any(
            op == "==" and (x == ZERO or y == ZERO) and any(c[0] == "s" for c in classes_of(alt, y if x == ZERO else x))
            for (op, x, y) in alt)) if any(c[0] == "s" for alt in r for (op, x, y) in alt for c in (x, y)) else r
        return r if r else None

    def excs(self, s, e):
        if isinstance(e, int):
            n = self.f.nodes[e]
            if n["k"] in ("call", "ctor", "new", "throw") and n.get("y") is not None and not n.get("nothrow"):
                return (("*", s),)
        return ()

    # ---- queries
    def solve(self):
        self.run()
        self.at = {}

        def cb(s, e, b):
            if isinstance(e, int):
                self.at[e] = s if e not in self.at else self.at[e] | s
        self.visit(cb)
        return self

    def before(self, i):
        """alternatives just before node i is evaluated (None: unreachable)"""
        e, f = self.f.elem_of, self.f
        st, seen = [i], set()
        while st:
            x = st.pop(0)
            if x in e:
                return self.at.get(x)
            if x in seen:
                continue
            seen.add(x)
            st.extend(f.parents.get(x, []))
        return None

    def holds(self, i, op, a, b):
        """does `a op b` follow from what is known before node i?"""
        s = self.before(i)
        if s is None:
            return True
        return all(entails(alt, op, a, b) for alt in s)


_M = {}


def P_mods(P):
    m = _M.get(id(P))
    if m is None:
        m = _M[id(P)] = Mods(P)
    return m


def classes_of(alt, t):
    """terms equal to t, by the equality atoms"""
    r, st = {t}, [t]
    while st:
        x = st.pop()
        for (op, a, b) in alt:
            if op == "==":
                y = b if a == x else a if b == x else None
                if y is not None and y not in r:
                    r.add(y)
                    st.append(y)
    return r


def const_of(t):
    return t[1] if t[0] == "c" else None


def lin(t):
    """(base term, offset)"""
    if t[0] == "o" and t[1] in ("+", "-"):
        if t[3][0] == "c" and isinstance(t[3][1], int):
            b, o = lin(t[2])
            return b, o + (t[3][1] if t[1] == "+" else -t[3][1])
        if t[1] == "+" and t[2][0] == "c" and isinstance(t[2][1], int):
            b, o = lin(t[3])
            return b, o + t[2][1]
    if t[0] == "c" and isinstance(t[1], int):
        return ("c", 0), t[1]
    return t, 0


_E = {}


def edges_of(alt):
    # edges: x - y >= k
    edges = {}

    def put(x, y, k):
        bx, ox = lin(x)
        by, oy = lin(y)
        k = k - ox + oy
        if bx == by:
            return
        d = edges.setdefault(bx, {})
        if by not in d or d[by] < k:
            d[by] = k
    terms = set()
    for (op, x, y) in alt:
        if op == "==":
            put(x, y, 0)
            put(y, x, 0)
        elif op == "<=":
            put(y, x, 0)
        elif op == "<":
            put(y, x, 1)
        terms.add(x)
        terms.add(y)
    for t in list(terms):
        bt, _ = lin(t)
        if bt[0] == "m" and bt[1] in ("size", "strlen"):
            put(bt, ("c", 0), 0)
    for (op, x, y) in alt:
        if op == "!=":
            # nonnegative and nonzero
            for p, q in ((x, y), (y, x)):
                if q == ("c", 0) and (p[0] == "m" and p[1] in ("size", "strlen") or ("<=", q, p) in alt):
                    put(p, q, 1)
    return edges


def diff_bound(alt, a, b, strictsize=True):
    """largest known k with  a - b >= k  (difference constraints, integers), or None"""
    edges = _E.get(alt)
    if edges is None:
        if len(_E) > 30000:
            _E.clear()
        edges = _E[alt] = edges_of(alt)
    (ba, oa), (bb, ob) = lin(a), lin(b)
    if ba != bb and ba not in edges and not (ba[0] == "m" and ba[1] in ("size", "strlen")):
        return None
    best = {ba: 0}
    work = [ba]
    n = 0
    while work and n < 4000:
        n += 1
        x = work.pop(0)
        for y, k in (edges.get(x) or ({("c", 0): 0} if x[0] == "m" and x[1] in ("size", "strlen") else {})).items():
            v = best[x] + k
            if y not in best or v > best[y]:
                if v > best.get(y, -10 ** 30) and len(best) < 400 and n < 3000:
                    best[y] = v
                    work.append(y)
    if bb not in best:
        return None
    return best[bb] + oa - ob


def entails(alt, op, a, b):
    if op == "==":
        return b in classes_of(alt, a) or (diff_bound(alt, a, b) or -1) >= 0 and (diff_bound(alt, b, a) or -1) >= 0 or \
            diff_bound(alt, a, b) == 0 and diff_bound(alt, b, a) == 0
    if op == "!=":
        ca, cb = classes_of(alt, a), classes_of(alt, b)
        for (o, x, y) in alt:
            if o == "!=" and (x in ca and y in cb or x in cb and y in ca):
                return True
        ka = [x for x in ca if x[0] in ("c", "s")]
        kb = [x for x in cb if x[0] in ("c", "s")]
        if ka and kb and ka[0] != kb[0] and (ka[0][0] == kb[0][0] or ZERO in (ka[0], kb[0])):
            return True
        d1, d2 = diff_bound(alt, a, b), diff_bound(alt, b, a)
        return d1 is not None and d1 >= 1 or d2 is not None and d2 >= 1
    if op == "<":
        op, a, b = ">", b, a
    if op == "<=":
        op, a, b = ">=", b, a
    d = diff_bound(alt, a, b)
    if d is None:
        return False
    if op == ">=":
        if d >= 0:
            return True
        return d == 0
    if d >= 1:
        return True
    if d == 0:
        return entails_ne(alt, a, b)
    return False


def positive(alt, t, depth=0):
    d = diff_bound(alt, t, ("c", 0))
    if d is not None and d >= 1:
        return True
    if depth > 4:
        return False
    if t[0] == "o":
        a, b = t[2], t[3]
        if t[1] == "-":
            d = diff_bound(alt, a, b)
            return d is not None and d >= 1 or entails(alt, ">", a, b)
        if t[1] == "*":
            return positive(alt, a, depth + 1) and positive(alt, b, depth + 1)
        if t[1] == "+":
            return positive(alt, a, depth + 1) and nonneg(alt, b, depth + 1) or positive(alt, b, depth + 1) and nonneg(alt, a, depth + 1)
        if t[1] == "/" and b[0] == "c" and isinstance(b[1], int) and b[1] > 0:
            d = diff_bound(alt, a, ("c", 0))
            return d is not None and d >= b[1]
    if any(positive(alt, x, depth + 2) for x in classes_of(alt, t) if x != t and x[0] == "o"):
        return True
    # bounded below by a product of positives
    cs = classes_of(alt, t)
    return depth < 3 and any(op in ("<=", "<") and y in cs and x[0] == "o" and x[1] == "*" and positive(alt, x, depth + 2) for (op, x, y) in alt)


def nonneg(alt, t, depth=0):
    d = diff_bound(alt, t, ("c", 0))
    if d is not None and d >= 0:
        return True
    if depth > 4:
        return False
    if t[0] == "o":
        if t[1] in ("+", "*", "/"):
            return nonneg(alt, t[2], depth + 1) and nonneg(alt, t[3], depth + 1)
        if t[1] == "-":
            return (diff_bound(alt, t[2], t[3]) or -1) >= 0
    return positive(alt, t, depth + 1)


def nonzero(alt, t, depth=0):
    if t[0] == "c":
        return t[1] != 0
    if t[0] == "s":
        return True
    if entails(alt, "!=", t, ("c", 0)) or positive(alt, t):
        return True
    return False


def entails_ne(alt, a, b):
    ca, cb = classes_of(alt, a), classes_of(alt, b)
    return any(o == "!=" and (x in ca and y in cb or x in cb and y in ca) for (o, x, y) in alt)


ZERO = ("c", 0)      # no string literal is at address 0


def contradiction(alt):
    eq = [(a, b) for (op, a, b) in alt if op == "=="]
    ne = set((a, b) for (op, a, b) in alt if op == "!=")
    # cheap: same term equal to two constants, or == and != together, or bounds by constants
    val = {}
    for a, b in eq:
        if (a, b) in ne:
            return True
        for x, y in ((a, b), (b, a)):
            if y[0] in ("c", "s"):
                if x in val and val[x] != y and (val[x][0] == y[0] or ZERO in (val[x], y)):
                    return True
                val[x] = y
                if x[0] in ("c", "s") and x[0] == y[0] and x != y:
                    return True
    for a, b in ne:
        if val.get(a) == b or val.get(b) == a or a == b:
            return True
    lo, hi = {}, {}
    for (op, a, b) in alt:
        if op == "<" and (("<=", b, a) in alt or ("<", b, a) in alt or ("==", a, b) in alt or ("==", b, a) in alt):
            return True
        try:
            if op in ("<", "<="):
                d = 1 if op == "<" else 0
                if b[0] == "c":
                    hi[a] = min(hi.get(a, 10 ** 30), b[1] - d)
                if a[0] == "c":
                    lo[b] = max(lo.get(b, -10 ** 30), a[1] + d)
                if a == b and op == "<":
                    return True
        except TypeError:
            continue
    for t, y in val.items():
        if y[0] == "c" and isinstance(y[1], (int, float)):
            if lo.get(t, y[1]) > y[1] or hi.get(t, y[1]) < y[1]:
                return True
    for t in lo:
        if t in hi and lo[t] > hi[t]:
            return True
    for t in hi:
        if t[0] == "m" and t[1] in ("size", "strlen") and hi[t] < 0:
            return True
    for (op, a, b) in alt:
        if op == "!=" and (a, b) in ne:
            for x, y in ((a, b), (b, a)):
                if y == ("c", 0) and x[0] == "m" and x[1] in ("size", "strlen") and hi.get(x, 1) <= 0:
                    return True
    return False


def facts(P, f, key=None):
    c = getattr(f, "_facts", None)
    if c is None:
        c = f._facts = Facts(P, f).solve()
    return c
