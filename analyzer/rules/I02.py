"""Loops: every path around a loop moves what its end depends on, always in one direction; retried updates re-read what they replace."""
from ista.model import detmpl, short
from ista.facts import facts, positive, nonneg
from ista.zones import zones
from ista.flow import Flow
from ista.throws import is_fake, throws
from ista.util import loops

ASSUME = ["a range that is walked is finite (iterators and indices move towards their end), linked records form no cycle",
          "split(), stripext() and explode() return what is left of their argument, shorter than it was (unit tests)",
          "a system or library call that yields the next of something moves on (readdir, getpwent, getline, read, recv)"]
LIBSRC = {"readdir", "getpwent", "getline", "fgets", "read", "recv", "recvfrom", "fread", "getc", "fgetc", "accept", "run", "run_one", "poll", "poll_one", "sleep", "system"}
STEPS = {"boost::foreach_detail_::next", "std::advance", "boost::foreach_detail_::rnext"}
SHRINK = {"pop_front", "pop_back", "pop", "erase"}
GROW = {"push_back", "push_front", "push", "insert", "append", "emplace_back", "emplace"}
HARMLESS = {"begin", "end", "rbegin", "rend", "find", "front", "back", "at", "operator[]", "operator*", "operator->", "get", "c_str", "lower_bound", "upper_bound", "equal_range", "count",
            "operator!", "lock", "unlock", "size", "empty"}
CAS = ("compare_exchange", "compare_and_swap")

# change of a measure since the loop head: z none, p more, n less, a not less, b not more, ? unknown
OPS = {"inc": {"z": "p", "p": "p", "a": "p"}, "ge": {"z": "a", "p": "p", "a": "a"},
       "dec": {"z": "n", "n": "n", "b": "n"}, "le": {"z": "b", "n": "n", "b": "b"}}


def skip(f):
    return is_fake(f) or f.file.startswith(("tool", "perf", "ftest", "test", "/usr", "splitter")) or f.f.startswith("test_")


def exposed(P, v, d, head, body, memo):
    """can a round, starting at head, read the value an earlier one left in this variable?"""
    if d in memo:
        return memo[d]
    work, seen = [head], set()

    def rd(e):
        """does this reference look at the value?"""
        for j in v.parents.get(e, ()):
            p = v.nodes[j]
            if p["k"] == "memfn":
                continue
            if p["k"] == "asg" and p["op"] == "=" and p["x"] == e or p["k"] == "call" and (p.get("op") == "=" or p.get("ext") and short(P.callee(p) or "") in ("clear", "assign")) and p.get("o") == e:
                continue
            if p["k"] == "call" and e in p["a"] and not p.get("ext"):
                k = p["a"].index(e)
                ts = P.targets(v, p)
                if k < len(p.get("pk", ())) and p["pk"][k] == "r" and ts and p["a"].count(e) == 1 and all(outonly(P, t, k) for t in ts):
                    continue
            return True
        return not v.parents.get(e)

    def put(n):
        """is the variable given a whole new value here?"""
        if n["k"] == "asg" and n["op"] == "=":
            x = n["x"]
        elif n["k"] == "call" and (n.get("op") == "=" or n.get("ext") and short(P.callee(n) or "") in ("clear", "assign")) and n.get("o") is not None:
            x = n["o"]
        elif n["k"] == "decl":
            return any(q["d"] == d for q in n["ds"])
        elif n["k"] == "call" and not n.get("ext") and "r" in n.get("pk", ()):
            return any(pk == "r" and v.nodes[a].get("d") == d and v.nodes[a]["k"] == "ref" and P.targets(v, n) and all(outonly(P, t, k) for t in P.targets(v, n))
                       for k, (a, pk) in enumerate(zip(n["a"], n["pk"])))
        else:
            return False
        return v.nodes[x]["k"] == "ref" and v.nodes[x].get("d") == d

    while work:
        b = work.pop()
        if b in seen or b not in body:
            continue
        seen.add(b)
        for e in v.blocks[b]["s"]:
            if not isinstance(e, int):
                continue
            n = v.nodes[e]
            if n["k"] == "ref" and n.get("d") == d and rd(e):
                memo[d] = True
                return True
            if put(n):
                break
        else:
            work += [t for t in v.blocks[b]["to"] if t is not None and t != head]
    memo[d] = False
    return False


class Loop(Flow):
    """how the measures of one loop change from its head back to its head"""

    def __init__(self, P, v, head, body):
        super().__init__(P, v)
        self.head, self.body, self.start = head, body, head
        self.T = throws(P)
        self.backs = set()
        self.exits = [(b, v.blocks[b]["tc"]) for b in body if v.blocks[b].get("tc") is not None and any(x is not None and x not in body for x in v.blocks[b]["to"])]
        self.decls = set(q["d"] for i, n in v.nodes.items() if n["k"] == "decl" and v.elem_of.get(i, (None,))[0] in body for q in n["ds"])
        self.m = []
        self.cas = {}
        seen = set()
        for _, c in self.exits:
            self.measures(c, seen, 0)
        #  what later rounds decide with is part of the state of the loop, too
        for b in sorted(body):
            c = v.blocks[b].get("tc")
            if c is not None and v.nodes.get(c):
                for x in v.subtree(c):
                    n = v.nodes[x]
                    if n["k"] == "ref" and n.get("dk") in ("local", "param") and n.get("d") in v.vars and "*" not in n.get("t", ""):
                        self.add(("val", (("v", n["d"]),)))
        self.results = {}
        for d, q in getattr(v, "extra_vars", {}).items():
            if q["t"] == "bool":
                for x in q["inits"]:
                    self.results.setdefault(x, []).append(d)
        live = {}
        self.m = [m for m in self.m if m[0] in ("src", "st", "cas") or len(m[1]) != 1 or not isinstance(m[1][0], tuple) or m[1][0][0] != "v" or self.exposed(m[1][0][1], live)]
        self.ix = {m: k for k, m in enumerate(self.m)}
        self._ev = {}

    def exposed(self, d, memo):
        if self.f.vars.get(d, {}).get("ref"):
            return True
        return exposed(self.P, self.f, d, self.head, self.body, memo)

    def add(self, m):
        if m not in self.m and len(self.m) < 80:
            self.m.append(m)

    def measures(self, c, seen, depth):
        P, v = self.P, self.f
        skip = set()
        for x in v.subtree(c):
            n = v.nodes[x]
            if n["k"] == "call" and any(w in (P.callee(n) or "") for w in CAS):
                skip |= set(v.subtree(x)) - {x}
        for x in v.subtree(c):
            if x in seen or x in skip:
                continue
            seen.add(x)
            n = v.nodes[x]
            if n["k"] in ("ref", "mem", "idx"):
                p = P.path(v, x)
                if n["k"] == "ref":
                    q = v.vars.get(n.get("d"))
                    if q is None and n.get("dk") != "global":
                        continue
                    if q is not None and depth < 5:
                        for i in q["inits"]:
                            if n["d"] in getattr(v, "extra_vars", {}) or v.elem_of.get(i, (None,))[0] in self.body or any(v.elem_of.get(y, (None,))[0] in self.body for y in v.subtree(i)):
                                self.measures(i, seen, depth + 1)
                    p = (("v", n["d"]),) if q is not None else p
                    q2 = P.path(v, x)
                    if q2 != p:
                        self.add(("val", q2))
                        self.add(("size", q2))
                self.add(("val", p))
                t = n.get("t", "")
                if "basic_string" in t or "string" in t or "std::" in t or "deque" in t or "list" in t or "map" in t or "vector" in t:
                    self.add(("size", p))
            elif n["k"] == "call":
                if any(w in (P.callee(n) or "") for w in CAS):
                    if len(n["a"]) >= 3:
                        self.add(("cas", x))
                        self.swap(x)
                elif self.source(n):
                    self.add(("src", x))
                elif not n.get("ext"):
                    rd = set()
                    for t in P.targets(v, n):
                        if not is_fake(t):
                            rd |= state(P, t)
                    if rd:
                        self.add(("st", frozenset(rd)))

    def swap(self, x):
        """the shared place an atomic exchange is about, and where the value it expects there comes from"""
        v = self.f

        def bare(i):
            for _ in range(8):
                n = v.nodes[i]
                if n["k"] == "cast":
                    i = n["x"]
                elif n["k"] == "ref" and n.get("d") in v.vars and v.vars[n["d"]]["q"].get("d") is not None and v.nodes.get(v.vars[n["d"]].get("node"), {}).get("_param") and len(v.vars[n["d"]]["inits"]) == 1:
                    i = v.vars[n["d"]]["inits"][0]
                else:
                    break
            return i
        n = v.nodes[x]
        t = bare(n["a"][0])
        t = v.nodes[t]["x"] if v.nodes[t]["k"] == "un" and v.nodes[t]["op"] == "&" else t
        target = self.place(t)
        exp, work = [], [bare(n["a"][1])]
        direct = False
        while work:
            i = work.pop()
            q = self.place(i)
            if q == target:
                direct = True
                continue
            if q in exp:
                continue
            exp.append(q)
            if len(q) == 1 and isinstance(q[0], tuple) and q[0][0] == "v" and q[0][1] in v.vars:
                work += [bare(y) for y in v.vars[q[0][1]]["inits"] if self.place(bare(y)) != target]
        self.cas[x] = (target, exp, direct and not exp, bare)

    def reread(self, e, x):
        """does element e look at the shared place again?"""
        target, exp, direct, bare = self.cas[x]
        v = self.f
        n = v.nodes[e]
        if e == x:
            return direct
        pairs = []
        if n["k"] == "asg" and n["op"] == "=":
            pairs = [(self.place(n["x"]), n["r"])]
        elif n["k"] == "decl":
            pairs = [((("v", q["d"]),), q["i"]) for q in n["ds"] if q.get("i") is not None]
        for p, r in pairs:
            if p in exp:
                r = bare(r)
                if self.place(r) == target:
                    return True
                m = v.nodes[r]
                if m["k"] == "call" and m.get("ext") and m["a"]:
                    t = bare(m["a"][0])
                    t = v.nodes[t]["x"] if v.nodes[t]["k"] == "un" and v.nodes[t]["op"] == "&" else t
                    if self.place(t) == target:
                        return True
        return False

    def source(self, n):
        """a call that yields another thing each time"""
        P, v = self.P, self.f
        s = short(P.callee(n) or "")
        if n.get("ext"):
            return s in LIBSRC and (n.get("o") is None or s not in ("read",))
        ts = [t for t in P.targets(v, n) if not is_fake(t)]
        return bool(ts) and all(self.changes(t) for t in ts)

    def changes(self, t):
        """called again, the function starts from another state: it changes a member, a global or an argument before it answers anything but no"""
        c = t.__dict__.get("_i02chg")
        if c is None:
            t._i02chg = False
            c = t._i02chg = Changes(self.P, t).ok()
        return c

    # ---- flow
    def init(self):
        return frozenset([(("z",) * len(self.m), frozenset())])

    def join(self, a, b):
        r = a | b
        if len(r) > 600:
            r = frozenset((m, frozenset()) for m, _ in r)
        if len(r) > 600:
            r = frozenset([(("?",) * len(self.m), frozenset())])
        return r

    def edge(self, s, b, k, succ):
        """yes/no variables set on the way decide as they were set"""
        b = self.f.blocks[b]
        c = b.get("tc")
        if c is None or len(b["to"]) != 2 or b.get("tk") == "SwitchStmt":
            return s
        want = k == 0
        n = self.f.nodes[c]
        while n["k"] == "un" and n["op"] == "!" or n["k"] == "cast":
            if n["k"] == "un":
                want = not want
            n = self.f.nodes[n["x"]]
        if n["k"] != "ref" or n.get("t", "").replace("const ", "") != "bool":
            return s
        r = frozenset((m, q) for m, q in s if (n["d"], not want) not in q)
        return r or None

    def setbool(self, s, d, x):
        """the yes/no variable d gets x"""
        c = self.f.nodes[x].get("cv") if x is not None else None
        r = set()
        for m, q in s:
            q = frozenset(z for z in q if z[0] != d)
            if c is not None:
                q |= {(d, bool(int(c)))}
            r.add((m, q))
        return frozenset(r)

    def push(self, t, s, work):
        if t == self.head:
            self.backs |= set(m for m, _ in s)
        elif t in self.body:
            super().push(t, s, work)

    def apply(self, s, evs):
        if not evs:
            return s
        r = set()
        for a, q in s:
            a = list(a)
            for k, op in evs:
                a[k] = OPS[op].get(a[k], "?") if op in OPS else "?"
            r.add((tuple(a), q))
        return frozenset(r)

    def elem(self, s, e, b):
        if not isinstance(e, int):
            return s
        n = self.f.nodes[e]
        if n["k"] == "ret" or n.get("noreturn"):
            return None
        s = self.apply(s, self.ev(e))
        if n["k"] == "asg" and n["op"] == "=" and self.f.nodes[n["x"]]["k"] == "ref" and n.get("t", "").replace("const ", "") == "bool":
            s = self.setbool(s, self.f.nodes[n["x"]].get("d"), n["r"])
        elif n["k"] == "decl":
            for q in n["ds"]:
                if q["t"].replace("const ", "") == "bool":
                    s = self.setbool(s, q["d"], q.get("i"))
        elif n["k"] == "iret" and n.get("x") is not None:
            for d in self.results.get(n["x"], ()):
                s = self.setbool(s, d, n["x"])
        return s

    def excs(self, s, e):
        if not isinstance(e, int):
            return
        n = self.f.nodes[e]
        if n["k"] not in ("call", "ctor", "new", "throw") or n.get("y") is None:
            return
        ts = self.T.node(self.f, e)
        if not ts and n["k"] == "call" and n.get("virt"):
            ts = ["std::exception"]
        if n["k"] == "call" and short(self.P.callee(n) or "") in ("run", "run_one", "poll", "poll_one") and n.get("ext"):
            ts = list(ts) + ["std::exception"]
        if ts:
            evs = [(k, o) for k, o in self.ev(e) if self.m[k][0] == "src"]
            for t in ts:
                yield t, self.apply(s, evs)

    def ev(self, e):
        r = self._ev.get(e)
        if r is None:
            r = self._ev[e] = [(self.ix[m], o) for m, o in self.events(e) if m in self.ix]
        return r

    def sign(self, e, i, cur):
        """sign of expression i compared with cur (another expression, or None for zero) where element e runs"""
        v, P = self.f, self.P
        n = v.nodes[i]
        if cur is None:
            c = n.get("cv")
            if c is not None:
                c = int(c)
                return "inc" if c > 0 else "dec" if c < 0 else "ge"
        Z = zones(P, v)
        s = Z.before(e)
        if s is None:
            return "inc"
        a = Z.lin(s, i)
        b = Z.lin(s, cur) if cur is not None else (("c", 0), 0)
        if a is not None and b is not None:
            if cur is None:
                from ista.zones import Z0
                b = (Z0, 0)
            if Z.le(s, b, a, -1):
                return "inc"
            if Z.le(s, a, b, -1):
                return "dec"
            r = "ge" if Z.le(s, b, a, 0) else "le" if Z.le(s, a, b, 0) else None
            if r is None or cur is None:
                pass
            else:
                return r
        if cur is None:
            F = facts(P, v)
            alts = F.before(e)
            if alts:
                t = F.term(i)
                if all(positive(x, t) for x in alts):
                    return "inc"
                if all(nonneg(x, t) for x in alts):
                    return "ge"
        return "any"

    NEG = {"inc": "dec", "dec": "inc", "ge": "le", "le": "ge", "any": "any"}

    def events(self, e):
        P, v = self.P, self.f
        n = v.nodes[e]
        k = n["k"]
        got = [(("cas", x), "inc") for x in self.cas if self.reread(e, x)]
        if got:
            return got + self.moves(e)
        return self.moves(e)

    def moves(self, e):
        P, v = self.P, self.f
        n = v.nodes[e]
        k = n["k"]
        if k == "un" and n["op"] in ("++", "--"):
            return self.write(n["x"], "inc" if n["op"] == "++" else "dec")
        if k == "asg":
            if n["op"] == "=":
                return self.write(n["x"], self.assigned(e, n["x"], n["r"]), n["r"])
            if n["op"] in ("+=", "-="):
                o = self.sign(e, n["r"], None)
                return self.write(n["x"], o if n["op"] == "+=" else self.NEG[o])
            if n["op"] in (">>=", "/="):
                return self.write(n["x"], "le")
            return self.write(n["x"], "any")
        if k == "decl":
            r = []
            for q in n["ds"]:
                r.append((("val", (("v", q["d"]),)), "any"))
                r.append((("size", (("v", q["d"]),)), "any"))
            return r
        if k not in ("call", "ctor"):
            return []
        r = []
        f = detmpl(P.callee(n) or "") if k == "call" else ""
        s = short(f)
        if ("src", e) in self.ix:
            r.append((("src", e), "inc"))
        if k == "call":
            op = n.get("op")
            if n.get("o") is not None and op in ("++", "--"):
                return r + self.write(n["o"], "inc" if op == "++" else "dec")
            if n.get("o") is None and op in ("++", "--", "+=", "-=", "=") and n["a"]:
                o = "inc" if op == "++" else "dec" if op == "--" else "any"
                return r + self.write(n["a"][0], o)
            if n.get("o") is not None and op == "=" and n["a"]:
                return r + self.write(n["o"], self.assigned(e, n["o"], n["a"][0]), n["a"][0])
            if n.get("o") is not None and op in ("+=", "-="):
                t = v.nodes[n["o"]].get("t", "")
                if "string" in t:
                    return r + self.write(n["o"], "any", size="ge")
                o = self.sign(e, n["a"][0], None)
                return r + self.write(n["o"], o if op == "+=" else self.NEG[o])
            if f in STEPS or s in ("next",) and f.startswith("boost::foreach"):
                for a, pk in zip(n["a"], n.get("pk", ())):
                    if pk in ("r", "v"):
                        r += self.write(a, "inc")
                        break
                return r
            if s in ("split", "stripext") and not n.get("ext") and n["a"]:
                src = self.place(n["a"][0])
                for a, pk in list(zip(n["a"], n.get("pk", ())))[0 if s == "stripext" else 1:]:
                    if pk == "r":
                        same = self.place(a) == src
                        r += self.write(a, "any", size="dec" if same else "any")
                return r
            if n.get("o") is not None and not n.get("const") and n.get("ext"):
                p = self.place(n["o"])
                if s in SHRINK:
                    r += [(("size", p), "dec")]
                elif s == "clear":
                    r += [(("size", p), "le")]
                elif s in GROW:
                    r += [(("size", p), "inc")]
                elif s == "resize" and n["a"]:
                    r += [(("size", p), "any")]
                elif s not in HARMLESS:
                    r += [(m, "any") for m in self.m if m[0] in ("val", "size") and m[1] == p or m[0] == "st" and any(c in m[1] for c in p)]
        # arguments that may be changed
        for a, pk in zip(n.get("a", ()), n.get("pk", ())):
            if pk in ("r", "p"):
                x = a
                m = v.nodes[x]
                if m["k"] == "un" and m["op"] == "&":
                    x = m["x"]
                elif pk == "p":
                    continue
                if any(w in f for w in CAS):
                    continue
                r += self.write(x, "any")
        if k == "call" and not n.get("ext"):
            for t in P.targets(v, n):
                w = writes(P, t)
                for m in self.m:
                    if m[0] == "st":
                        if m[1] & w:
                            r.append((m, "any"))
                    elif m[0] in ("val", "size") and any(isinstance(c, str) and c in w for c in m[1]):
                        r.append((m, "any"))
        return r

    def place(self, i):
        P, v = self.P, self.f
        i = P.strip_smart(v, i)
        n = v.nodes[i]
        while n["k"] == "cast":
            i = n["x"]
            n = v.nodes[i]
        if n["k"] == "ref" and n.get("d") in v.vars:
            q = v.vars[n["d"]]
            if q.get("ref") and q["inits"] and not q["param"]:
                return P.path(v, i)
            return (("v", n["d"]),)
        return P.path(v, i)

    def write(self, x, op, rhs=None, size="any"):
        """the place x gets another value; members and elements of it are changed in an unknown way"""
        p = self.place(x)
        r = []
        for m in self.m:
            if m[0] == "st":
                if any(c in m[1] for c in p):
                    r.append((m, "any"))
                continue
            if m[0] in ("src", "cas"):
                continue
            if m[1] == p:
                r.append((m, op if m[0] == "val" else (self.shrunk(p, rhs) if rhs is not None else size)))
            elif len(m[1]) > len(p) and m[1][:len(p)] == p:
                r.append((m, "any" if m[0] == "val" or True else op))
        return r

    def shrunk(self, p, rhs):
        """size of a place after it got part of itself"""
        P, v = self.P, self.f
        n = v.nodes[rhs]
        while n["k"] in ("ctor", "cast") and (n.get("a") or n.get("x") is not None):
            rhs = n["a"][0] if n["k"] == "ctor" else n["x"]
            n = v.nodes[rhs]
        if n["k"] == "call" and short(P.callee(n) or "") == "substr" and n.get("o") is not None and self.place(n["o"]) == p:
            a = n["a"]
            if a and len(a) == 1 or a and v.nodes[a[0]].get("cv") is not None and int(v.nodes[a[0]]["cv"]) > 0:
                return "dec" if self.sign(rhs, a[0], None) == "inc" else "le"
            return "le"
        return "any"

    def assigned(self, e, x, i):
        """direction of an assignment x = i"""
        P, v = self.P, self.f
        p = self.place(x)
        n = v.nodes[i]
        while n["k"] in ("ctor", "cast") and (n.get("a") and len(n["a"]) == 1 or n.get("x") is not None):
            i = n["a"][0] if n["k"] == "ctor" else n["x"]
            n = v.nodes[i]
        t = v.nodes[x].get("t", "")
        if t.replace("const ", "") == "bool":
            c = n.get("cv")
            return "any" if c is None else "inc" if int(c) else "dec"
        q = P.path(v, i)
        if n["k"] == "mem" and len(q) == len(p) + 1 and q[:len(p)] == p:
            return "inc"            # the next record
        if n["k"] == "mem" and P.path(v, n["b"]) == p:
            return "inc"
        if n["k"] == "call" and short(P.callee(n) or "") in ("erase", "find_next_of", "next"):
            return "inc"
        if n["k"] == "call" and (("src",) + (i,)) in self.ix:
            return "any"
        return self.sign(e, i, x)


_W = {}


def writes(P, t, read=False):
    """fields that may be changed (or read) by calling t"""
    c = P.__dict__.setdefault("_i02r" if read else "_i02w", {})
    if t.u in c:
        return c[t.u]
    own = P.__dict__.get("_i02ro" if read else "_i02own")
    if own is None and read:
        own = P._i02ro = dict((f.u, set(detmpl(n["n"]) for n in f.nodes.values() if n["k"] == "mem")) for f in P.funcs.values())
    if own is None:
        own = P._i02own = {}
        for f in P.funcs.values():
            s = set()
            for i, n in f.nodes.items():
                x = None
                if n["k"] == "asg" or n["k"] == "un" and n["op"] in ("++", "--"):
                    x = [n["x"]]
                elif n["k"] == "call" and n.get("ext"):
                    x = [n["o"]] if n.get("o") is not None and not n.get("const") and short(P.callee(n) or "") not in HARMLESS else []
                    x += [a for a, pk in zip(n["a"], n.get("pk", ())) if pk in ("r", "p")]
                elif n["k"] == "call":
                    x = [a for a, pk in zip(n["a"], n.get("pk", ())) if pk in ("r", "p")]
                for y in x or ():
                    for z in P.path(f, y):
                        if isinstance(z, str) and "::" in z:
                            s.add(z)
            own[f.u] = s
    r = set()
    for g in P.reach([t]):
        g = P.funcs[g] if not hasattr(g, "u") else g
        r |= own.get(g.u, set())
    c[t.u] = r
    return r


def state(P, t):
    """what the object a function belongs to keeps and the function looks at (not its locks, nor what it logs with)"""
    r = writes(P, t, True)
    own = set(x for x in r for c in [t.cls] + P.all_bases(t.cls) if t.cls and x.startswith(c + "::"))
    locks = set()
    for c in [t.cls] + (P.all_bases(t.cls) if t.cls else []):
        for q in P.classes.get(c, {}).get("fields", ()):
            if "mutex" in q["t"] or "LogInstance" in q["t"] or "DebugOption" in q["t"]:
                locks.add(detmpl(q["n"]))
    own -= locks
    return own or r


def outonly(P, t, k):
    """the function gives its k-th argument a value without looking at it"""
    c = P.__dict__.setdefault("_i02out", {})
    if (t.u, k) not in c:
        c[t.u, k] = False
        d = t.params[k]["d"] if k < len(t.params) else None
        c[t.u, k] = d is not None and not exposed(P, t, d, t.entry, set(t.blocks), {})
    return c[t.u, k]


class Changes(Flow):
    """has anything outside the function's own variables been changed on every path to an answer that is not no?"""
    exceptions = False

    def __init__(self, P, f):
        super().__init__(P, f)

    def init(self):
        return False

    def join(self, a, b):
        return a and b

    def elem(self, s, e, b):
        if s or not isinstance(e, int):
            return s
        P, f, n = self.P, self.f, self.f.nodes[e]
        if n["k"] == "ret":
            self.rets.append((e, s))
        x = []
        if n["k"] == "asg" or n["k"] == "un" and n["op"] in ("++", "--"):
            x = [n["x"]]
        elif n["k"] == "call":
            if n.get("o") is not None and not n.get("const") and n.get("ext"):
                if short(P.callee(n) or "") in HARMLESS:
                    return s
                x = [n["o"]]
            x = x + [a for a, pk in zip(n["a"], n.get("pk", ())) if pk in ("r",)]
            if not n.get("ext") and n.get("o") is not None and any(P.targets(f, n)) and all(Changes(P, t).quick() for t in P.targets(f, n)):
                return True
        for y in x:
            p = P.path(f, y)
            r = p[0] if p else None
            if r == "this" and len(p) > 1 or isinstance(r, tuple) and r[0] == "g":
                return True
            if isinstance(r, tuple) and r[0] == "v":
                q = f.vars.get(r[1])
                if q is not None and not q["param"] and len(p) > 1:
                    return True
        return s

    def quick(self):
        return False

    def ok(self):
        self.rets = []
        self.run()
        for e, s in self.rets:
            x = self.f.nodes[e].get("x")
            if x is None:
                return False
            n = self.f.nodes[x]
            if not s and not (n.get("cv") is not None and int(n["cv"]) == 0 or n["k"] == "ctor" and (not n["a"] or self.null(n["a"][0]))):
                return False
        return bool(self.rets) or any(b.get("nr") for b in self.f.blocks.values()) or self.inb.get(self.f.exit) is True

    def null(self, i):
        n = self.f.nodes[i]
        while n["k"] in ("cast", "ctor") and (n.get("x") is not None or len(n.get("a", ())) == 1):
            n = self.f.nodes[n["x"] if n["k"] == "cast" else n["a"][0]]
        return n.get("cv") is not None and int(n["cv"]) == 0


def verdict(L):
    """a set of measures, each with a direction it always keeps, one of which moves on every path; or the paths without"""
    if not L.backs:
        return True, [], []
    stuck = [a for a in L.backs if all(x in "zab" for x in a)]
    return not stuck, [(k, "p") for k in range(len(L.m)) if any(a[k] not in "z" for a in L.backs)], stuck


def name(P, v, m):
    if m[0] == "st":
        return "state (%s)" % ", ".join(sorted(short(x) for x in m[1]))[:60]
    if m[0] in ("src", "cas"):
        return "call of %s" % detmpl(P.callee(v.nodes[m[1]]) or "?")
    r = m[1][0]
    s = v.vars[r[1]]["n"] if isinstance(r, tuple) and r[0] == "v" and r[1] in v.vars else "this" if r == "this" else str(r[1]) if isinstance(r, tuple) else str(r)
    s += "".join("." + short(c) if c != "[]" else "[]" for c in m[1][1:])
    return s if m[0] == "val" else "size of " + s


def run(P, R):
    R.rule("progress", "every path around the loop moves something its end depends on, and that is never moved back", need=60)
    done = {}
    for v in P.roots():
        if skip(v):
            continue
        for (h, body, lat) in loops(v):
            L = Loop(P, v, h, body)
            if any(n["k"] == "call" and n.get("ext") and short(P.callee(n) or "") in ("run",) and v.elem_of.get(i, (None,))[0] in body for i, n in v.nodes.items()):
                continue                # the event loop itself: meant to go on
            L.run()
            ok, ms, stuck = verdict(L)
            line = min([v.nodes[c].get("l") or 10**9 for _, c in L.exits] or [v.line])
            node = next((c for _, c in L.exits), None)
            loc = v.loc(node) if node is not None else "%s:%s" % (v.file, v.line)
            key = (loc, v.blocks[h].get("tl"))
            if key in done and (done[key] or not ok and done[key] is False):
                if ok or not done[key]:
                    continue
            done[key] = ok
            R.ob("progress", loc, "loop of %s: %s" % (v.f, ", ".join("%s %s" % (name(P, v, L.m[k]), "up" if d == "p" else "down") for k, d in ms)), ok, func=v.f,
                 detail=str(v.blocks[h].get("tl") if False else ",".join(sorted(P.render(v, c)[:60] for _, c in L.exits))),
                 msg="a path around this loop of %s moves nothing its end depends on (%s)" % (v.f, "; ".join(P.render(v, c)[:80] for _, c in L.exits) or "no way out"))
