"""Difference bounds (x - y <= c) between integer variables and container sizes, per function, with widening and a
narrowing pass.  Terms are those of facts.py; ("m","size",X) stands for the size of container X."""
from .model import short, detmpl
from .facts import Facts, changed_exprs, mentions, P_mods, atom
from .util import loops

Z0 = ("c", 0)
UNS = ("unsigned", "size_t", "size_type", "uint64_t", "uint32_t", "uint16_t", "uint8_t", "std::size_t", "uintmax_t")
NPOS = ("g", "std::basic_string::npos")
FINDS = {"find", "find_first_of", "find_last_of", "rfind", "find_first_not_of", "find_last_not_of"}
CONT = ("std::basic_string", "std::vector", "std::deque", "std::list", "std::map", "std::set", "std::tr1::unordered_map", "std::tr1::unordered_set")


def is_uns(t):
    t = (t or "").replace("const ", "").replace("&", "").strip()
    return any(w in UNS or w.endswith("size_type") for w in t.split())


def is_num(t):
    t = (t or "").replace("const ", "").replace("&", "").replace("volatile ", "").strip()
    if "*" in t or "<" in t:
        return t.endswith("size_type") or t.endswith("::difference_type")
    return all(w in ("int", "long", "short", "char", "unsigned", "signed", "bool") for w in t.split()) or t in UNS or t in ("time_t", "int64_t", "int32_t", "ssize_t", "intmax_t", "off_t") or t.startswith("enum ")


class St(dict):
    """closed set of bounds: (x, y) -> c meaning x - y <= c; plus .find: {(p, S, k)}: p is npos or p + k <= S; .ge: {(p, term)}"""
    __slots__ = ("find",)

    def copy(self):
        r = St(self)
        r.find = self.find
        return r


def new():
    s = St()
    s.find = frozenset()
    return s


class Zones:
    def __init__(self, P, f):
        self.P, self.f = P, f
        self.F = Facts(P, f)
        self.mods = P_mods(P)
        self.nn = set()         # terms of unsigned type
        self.heads = set(h for h, _, _ in loops(f))
        self.hblocks = set(h["b"] for t in f.tries for h in t["h"] if h["b"] is not None)
        self.num = {}
        self.solve()

    # ---- bounds
    def get(self, s, x, y):
        if x == y:
            return 0
        c = s.get((x, y))
        if x == Z0 and y in self.nn and (c is None or c > 0):
            c = 0
        if c is None and x == Z0 and y[0] == "m" and y[1] == "size":
            return 0
        return c

    def bound(self, s, x, y):
        """least known c with x - y <= c (through zero and sign facts as well)"""
        c = self.get(s, x, y)
        a, b = self.get(s, x, Z0), self.get(s, Z0, y)
        if a is not None and b is not None and (c is None or a + b < c):
            c = a + b
        return c

    def add(self, s, x, y, c):
        """s and x - y <= c; None if that is impossible"""
        if x == y:
            return s if c >= 0 else None
        o = self.bound(s, x, y)
        if o is not None and o <= c:
            return s
        r = self.bound(s, y, x)
        if r is not None and r + c < 0:
            return None
        s = s.copy()
        names = set()
        for a, b in s:
            names.add(a)
            names.add(b)
        names |= {x, y, Z0}
        ins = [(a, self.bound(s, a, x)) for a in names if a == x or self.bound(s, a, x) is not None]
        outs = [(b, self.bound(s, y, b)) for b in names if b == y or self.bound(s, y, b) is not None]
        for a, ca in ins:
            for b, cb in outs:
                if a == b:
                    continue
                v = ca + c + cb
                o = self.get(s, a, b)
                if o is None or v < o:
                    s[(a, b)] = v
        return s

    def forget(self, s, roots):
        bad = [k for k in s if mentions(k[0], roots) or mentions(k[1], roots)]
        fb = [k for k in s.find if mentions(k[0], roots) or mentions(k[1], roots) or isinstance(k[2], tuple) and k[2][0] == "def" and mentions(k[2][1], roots)]
        if not bad and not fb:
            return s
        s = s.copy()
        for k in bad:
            del s[k]
        s.find = s.find - frozenset(fb)
        return s

    def shift(self, s, v, d):
        """v := v + d"""
        r = St()
        r.find = frozenset(k for k in s.find if not mentions(k[0], {v}) and not mentions(k[1], {v}) and not (isinstance(k[2], tuple) and k[2][0] == "def" and mentions(k[2][1], {v})))
        for (a, b), c in s.items():
            if a == v:
                c += d
            if b == v:
                c -= d
            if a != v and mentions(a, {v}) or b != v and mentions(b, {v}):
                continue
            r[(a, b)] = c
        if v in self.nn or v[0] == "m":
            # the implicit sign fact moves too, and holds afresh
            if (Z0, v) not in r and (Z0, v) not in s:
                if d > 0:
                    r[(Z0, v)] = -d
        return r

    def join(self, a, b):
        r = St()
        keys = set(a) | set(b)
        for k in keys:
            x, y = self.bound(a, *k), self.bound(b, *k)
            if x is not None and y is not None:
                r[k] = max(x, y)
        r.find = a.find & b.find
        return r

    def widen(self, old, nw):
        r = St()
        for k, c in old.items():
            x = self.bound(nw, *k)
            if x is None:
                continue
            if x <= c:
                r[k] = c
            else:
                for t in (-1, 0, 1):
                    if x <= t:
                        r[k] = t
                        break
        r.find = old.find & nw.find
        return r

    def leq(self, a, b):
        """a implies b"""
        for k, c in b.items():
            x = self.bound(a, *k)
            if x is None or x > c:
                return False
        return b.find <= a.find

    # ---- expressions
    def term(self, i):
        t = self.F.term(i)
        return t

    def note(self, i, t):
        if is_uns(self.f.nodes[i].get("t")):
            self.nn.add(t)

    def lin(self, s, i, depth=0):
        """(term, constant) with value = term + constant, or None"""
        f = self.f
        n = f.nodes[i]
        if depth > 12:
            return None
        if "cv" in n:
            try:
                return (Z0, int(n["cv"]))
            except (TypeError, ValueError):
                return None
        k = n["k"]
        if k == "cast":
            r = self.lin(s, n["x"], depth + 1)
            if r and is_uns(n.get("to") or n.get("t")) and not is_uns(f.nodes[n["x"]].get("t")):
                lo = self.bound(s, Z0, r[0])
                if lo is None or lo > r[1]:
                    return None
            return r
        if k == "bin" and n["op"] in ("+", "-"):
            a, b = self.lin(s, n["x"], depth + 1), self.lin(s, n["r"], depth + 1)
            if a is None or b is None:
                return None
            if n["op"] == "+":
                if b[0] == Z0:
                    r = (a[0], a[1] + b[1])
                elif a[0] == Z0:
                    r = (b[0], a[1] + b[1])
                else:
                    return None
                if r[1] != 0 and self.maybe_npos(s, r[0]):
                    return None         # the sum wraps
                return r
            if b[0] == Z0:
                if is_uns(n.get("t")):
                    lo = self.bound(s, Z0, a[0])
                    if lo is None or lo > a[1] - b[1]:
                        return None
                return (a[0], a[1] - b[1])
            if a[0] == b[0]:
                return (Z0, a[1] - b[1])
            t = self.term(i)
            return (t, 0) if self.nowrap(s, n, a, b) else None
        t = self.term(i)
        if t[0] == "c":
            return (Z0, t[1]) if isinstance(t[1], int) else None
        if t[0] in ("v", "f", "g", "m", "i", "d") or t[0] == "e" and k == "call":
            if is_num(n.get("t")) or t[0] == "m" and t[1] == "size":
                self.note(i, t)
                return (t, 0)
        if k == "un" and n["op"] in ("++", "--") and not n.get("post"):
            return self.lin(s, n["x"], depth + 1)
        return None

    def maybe_npos(self, s, t):
        if t == NPOS:
            return True
        if not any(q[0] == t and not (isinstance(q[2], tuple) and q[2][0] == "def") for q in s.find):
            return False
        for (a, b), c in s.items():
            if a == t and (b == Z0 or b[0] == "m" and b[1] == "size") and c < (1 << 40):
                return False
        for (a, b), c in s.items():
            if a == t and c < (1 << 40):
                for (x, y), d in s.items():
                    if x == b and (y == Z0 or y[0] == "m" and y[1] == "size") and d < (1 << 40):
                        return False
        return True

    def nowrap(self, s, n, a, b):
        if not is_uns(n.get("t")):
            return True
        c = self.bound(s, b[0], a[0])
        return c is not None and c + b[1] - a[1] <= 0

    def tlin(self, s, t):
        if t[0] == "c":
            return (Z0, t[1]) if isinstance(t[1], (int, bool)) else None
        if t[0] == "o" and t[1] in ("+", "-"):
            a, b = self.tlin(s, t[2]), self.tlin(s, t[3])
            if a is None or b is None:
                return None
            if t[1] == "+":
                if any(self.maybe_npos(s, x) for x in (a[0], b[0])):
                    return None
                return (a[0], a[1] + b[1]) if b[0] == Z0 else (b[0], a[1] + b[1]) if a[0] == Z0 else None
            if b[0] == Z0:
                lo = self.bound(s, Z0, a[0])
                if lo is not None and lo <= a[1] - b[1] or not self.uns_term(t[2]):
                    return (a[0], a[1] - b[1])
                return None
            c = self.bound(s, b[0], a[0])
            if c is not None and c + b[1] - a[1] <= 0:
                return (t, 0)
            return None
        if t[0] in ("v", "f", "g", "m", "i", "d", "e"):
            return (t, 0)
        return None

    def uns_term(self, t):
        return t in self.nn or t[0] == "m" and t[1] == "size"

    def diffs(self, t):
        return t[2:] if t[0] == "o" and t[1] == "-" else None

    def assume(self, s, i, pol, depth=0):
        """state after condition i evaluated to pol; a list of alternatives joined"""
        f = self.f
        n = f.nodes[i]
        if "cv" in n:
            return s if bool(n["cv"]) == pol else None
        k = n["k"]
        if k == "cast":
            if is_num(f.nodes[n["x"]].get("t")) or "bool" in f.nodes[n["x"]].get("t", ""):
                return self.assume(s, n["x"], pol, depth)
            return self.assume(s, n["x"], pol, depth)
        if k == "un" and n["op"] == "!":
            return self.assume(s, n["x"], not pol, depth)
        if k == "bin" and n["op"] in ("&&", "||"):
            if (n["op"] == "&&") == pol:
                s = self.assume(s, n["x"], pol, depth + 1)
                return self.assume(s, n["r"], pol, depth + 1) if s is not None else None
            a = self.assume(s, n["x"], pol, depth + 1)
            b = self.assume(s, n["r"], pol, depth + 1)
            return b if a is None else a if b is None else self.join(a, b)
        if k == "bin" and n["op"] in ("<", "<=", ">", ">=", "==", "!="):
            return self.compare(s, n["op"] if pol else {"<": ">=", "<=": ">", ">": "<=", ">=": "<", "==": "!=", "!=": "=="}[n["op"]], n["x"], n["r"])
        if k == "call" and n.get("op") in ("==", "!="):
            ab = [n["o"]] + n["a"] if n.get("o") is not None else n["a"]
            eq = (n["op"] == "==") == pol
            x, y = f.nodes[self.P.strip_smart(f, ab[0])], f.nodes[self.P.strip_smart(f, ab[1])]
            if x["k"] == "str":
                ab, x, y = ab[::-1], y, x
            if y["k"] == "str" and "string" in x.get("t", ""):
                S = ("m", "size", self.term(ab[0]))
                ln = len(y.get("v") or "")
                if eq:
                    if x["k"] == "call" and short(self.P.callee(x)) == "substr" and x.get("o") is not None and x["a"] and ln:
                        p = self.lin(s, x["a"][0])
                        if p is not None:
                            return self.add(s, p[0], ("m", "size", self.term(x["o"])), -p[1] - ln)
                        return s
                    s = self.add(s, S, Z0, ln)
                    return self.add(s, Z0, S, -ln) if s is not None else None
                if ln == 0:
                    return self.add(s, Z0, S, -1)
            elif eq and "string" in x.get("t", "") and "string" in y.get("t", ""):
                A, B = ("m", "size", self.term(ab[0])), ("m", "size", self.term(ab[1]))
                s = self.add(s, A, B, 0)
                return self.add(s, B, A, 0) if s is not None else None
            return s
        if k == "call" and short(self.P.callee(n)) == "empty" and n.get("o") is not None:
            S = ("m", "size", self.term(n["o"]))
            return self.add(s, S, Z0, 0) if pol else self.add(s, Z0, S, -1)
        if k == "call" and n.get("op") == "!":
            return self.assume(s, n["o"] if n.get("o") is not None else n["a"][0], not pol, depth)
        r = self.lin(s, i)
        if r is not None and is_num(n.get("t")):
            if pol:
                if is_uns(n.get("t")) or self.bound(s, Z0, r[0]) is not None and self.bound(s, Z0, r[0]) <= r[1]:
                    return self.add(s, Z0, r[0], r[1] - 1)
                return s
            s = self.add(s, r[0], Z0, -r[1])
            return self.add(s, Z0, r[0], r[1]) if s is not None else None
        return s

    def npos(self, i):
        return self.term(i) == NPOS or self.f.nodes[i].get("cv") in (18446744073709551615, "18446744073709551615")

    def compare(self, s, op, x, y):
        f = self.f
        if self.npos(x):
            x, y = y, x
            op = {"<": ">", "<=": ">=", ">": "<", ">=": "<="}.get(op, op)
        if self.npos(y):
            t = self.term(x)
            hit = [q for q in s.find if q[0] == t]
            if op in ("!=", "<") and hit:
                s = s.copy()
                s.find = s.find - frozenset(q for q in hit if not (isinstance(q[2], tuple) and q[2][0] == "def"))
                for p, S, k in hit:
                    if isinstance(k, tuple) and k[0] == "def":
                        continue
                    if isinstance(k, tuple):        # p >= S + const
                        s = self.add(s, S, p, -k[1])
                    else:
                        s = self.add(s, p, S, -k)
                    if s is None:
                        return None
            return s
        # a known element: s[k] compared with a character other than NUL says that k is inside
        if op == "==":
            for a, b in ((x, y), (y, x)):
                m = f.nodes[self.P.strip_smart(f, a)]
                v = f.nodes[b].get("cv")
                if m["k"] == "call" and m.get("op") == "[]" and v not in (None, 0, False) and "string" in f.nodes[m["o"]].get("t", ""):
                    r = self.lin(s, m["a"][0])
                    if r is not None:
                        S = ("m", "size", self.term(m["o"]))
                        c = self.bound(s, r[0], S)
                        if c is not None and c + r[1] <= 0:
                            s = self.add(s, r[0], S, -r[1] - 1)
                            if s is None:
                                return None
        # a - b compared with a constant
        a, b = self.lin(s, x), self.lin(s, y)
        if a is None or b is None:
            return s
        for (p, q, o) in ((a, b, op), (b, a, {"<": ">", "<=": ">=", ">": "<", ">=": "<="}.get(op, op))):
            d = self.diffs(p[0])
            if d and q[0] == Z0:
                u, v = self.tlin(s, d[0]), self.tlin(s, d[1])
                if u and v:
                    k = q[1] - p[1] - u[1] + v[1]       # u - v  o  k
                    if o in ("<", "<=", "=="):
                        s = self.add(s, u[0], v[0], k - (1 if o == "<" else 0))
                    if s is not None and o in (">", ">=", "=="):
                        s = self.add(s, v[0], u[0], -k - (1 if o == ">" else 0))
                    if s is not None and o == "!=":
                        if self.bound(s, v[0], u[0]) == -k:
                            s = self.add(s, v[0], u[0], -k - 1)
                        elif self.bound(s, u[0], v[0]) == k:
                            s = self.add(s, u[0], v[0], k - 1)
                    if s is None:
                        return None
        if op in ("<", "<=", "=="):
            s = self.add(s, a[0], b[0], b[1] - a[1] - (1 if op == "<" else 0))
            if s is None:
                return None
        if op in (">", ">=", "=="):
            s = self.add(s, b[0], a[0], a[1] - b[1] - (1 if op == ">" else 0))
            if s is None:
                return None
        if op == "!=":
            c, d = self.bound(s, a[0], b[0]), self.bound(s, b[0], a[0])
            k = b[1] - a[1]         # a0 - b0 != k
            if c == k:
                s = self.add(s, a[0], b[0], k - 1)
            elif d == -k:
                s = self.add(s, b[0], a[0], -k - 1)
        return s

    def defs(self, s):
        """t = a - b + k: what is known about t tells about a - b"""
        for t, a, q in s.find:
            if s is None:
                return None
            if isinstance(q, tuple) and q[0] == "def":
                b, k = q[1], q[2]
                lo, hi = self.bound(s, Z0, t), self.bound(s, t, Z0)
                if lo is not None:
                    s = self.add(s, b, a, k + lo)
                if s is not None and hi is not None:
                    s = self.add(s, a, b, hi - k)
        return s

    # ---- transfer
    def assign(self, s, t, i, ty):
        """t := value of node i (t already known not to be referred to by anything kept)"""
        f, P = self.f, self.P
        n = f.nodes[i]
        r = self.lin(s, i)
        if is_uns(ty):
            self.nn.add(t)
        if r is not None and r[0] == t:
            return self.shift(s, t, r[1])
        extra = []
        m = n
        while m["k"] == "cast":
            m = f.nodes[m["x"]]
        find = []
        if m["k"] == "call" and m.get("o") is not None and short(P.callee(m)) in FINDS and "string" in f.nodes[m["o"]].get("t", "") + m.get("c", ""):
            S = ("m", "size", self.term(m["o"]))
            k = 1
            if m["a"] and short(P.callee(m)) in ("find", "rfind") and f.nodes[m["a"][0]]["k"] == "str":
                k = len(f.nodes[m["a"][0]].get("v") or "")
            find.append((t, S, k))
            if len(m["a"]) >= 2 and short(P.callee(m)) in ("find", "find_first_of", "find_first_not_of"):
                q = self.lin(s, m["a"][1])
                if q is not None and not mentions(q[0], {t}):
                    find.append((t, q[0], ("ge", q[1])))
            r = None
        elif m["k"] == "bin" and m["op"] in ("-", "+", "/", "%", "&", ">>"):
            a, b = self.lin(s, m["x"]), self.lin(s, m["r"])
            if m["op"] == "-" and a and b and self.nowrap(s, m, a, b):
                if a[0] != Z0 and b[0] != Z0 and not mentions(a[0], {t}) and not mentions(b[0], {t}):
                    find.append((t, a[0], ("def", b[0], a[1] - b[1])))
                lo = self.bound(s, Z0, b[0])
                if lo is not None:
                    extra.append((t, a[0], a[1] + lo - b[1]))     # t <= a - min(b)
                hi = self.bound(s, b[0], Z0)
                if hi is not None:
                    extra.append((a[0], t, hi + b[1] - a[1]))
                c = self.bound(s, b[0], a[0])
                if c is not None:
                    extra.append((Z0, t, c + b[1] - a[1]))        # t >= -(c..)
            if m["op"] == "+" and a and b and not r:
                for p, q in ((a, b), (b, a)):
                    lo = self.bound(s, Z0, q[0])
                    if lo is not None:
                        extra.append((p[0], t, lo - q[1] - p[1]))
            if m["op"] in ("/", ">>") and a:
                lo = self.bound(s, Z0, a[0])
                if lo is not None and lo <= a[1]:
                    extra += [(Z0, t, 0), (t, a[0], a[1])]
            if m["op"] == "%" and b:
                lo = self.bound(s, Z0, a[0]) if a else None
                if is_uns(m.get("t")) or a and lo is not None and lo <= a[1]:
                    extra += [(Z0, t, 0), (t, b[0], b[1] - 1)]
            if m["op"] == "&" and b and b[0] == Z0 and b[1] >= 0:
                extra += [(Z0, t, 0), (t, Z0, b[1])]
        elif m["k"] == "call" and short(P.callee(m)) in ("min", "max") and m.get("o") is None and len(m["a"]) == 2:
            for a in m["a"]:
                q = self.lin(s, a)
                if q:
                    extra.append((t, q[0], q[1]) if short(P.callee(m)) == "min" else (q[0], t, -q[1]))
        elif m["k"] == "cond":
            alts = []
            for arm, pol in ((m["x"], True), (m["r"], False)):
                z = self.assume(s, m["c"], pol)
                if z is not None:
                    alts.append(self.assign(z, t, arm, ty))
            alts = [z for z in alts if z is not None]
            if len(alts) == 2:
                return self.join(*alts)
            if alts:
                return alts[0]
        if r is not None and mentions(r[0], {t}):
            r = None
        extra = [(a, b, c) for a, b, c in extra if not (a != t and mentions(a, {t})) and not (b != t and mentions(b, {t}))]
        if any(x == t for a, b, c in extra for x in (a, b)):
            # bounds against the old value of t itself (t = t / 2): dropped
            keep = []
            for a, b, c in extra:
                keep.append((a, b, c))
            extra = keep
        s = self.forget(s, {t})
        if r is not None:
            s = self.add(s, t, r[0], r[1])
            s = self.add(s, r[0], t, -r[1]) if s is not None else None
        for a, b, c in extra:
            if s is None:
                break
            s = self.add(s, a, b, c)
        if s is not None and find:
            s = s.copy()
            s.find = s.find | frozenset(find)
        if s is not None and r is not None:
            cp = [(t, S, k) for p, S, k in s.find if p == r[0] and r[1] == 0]
            if cp:
                s = s.copy()
                s.find = s.find | frozenset(cp)
        return s

    def csize(self, s, T, i):
        """size of the container expression i assigned to container T"""
        f, P = self.f, self.P
        S = ("m", "size", T)
        n = f.nodes[P.strip_smart(f, i)]
        while n["k"] == "cast" or n["k"] == "ctor" and len(n.get("a", [])) == 1 and (n.get("copy") or n.get("conv")):
            i = n["x"] if n["k"] == "cast" else n["a"][0]
            n = f.nodes[i]
        if n["k"] == "str":
            ln = len(n.get("v") or "")
            s = self.add(s, S, Z0, ln)
            return self.add(s, Z0, S, -ln) if s is not None else None
        if n["k"] == "ctor" and not n["a"] and detmpl(n.get("c", "")) in CONT:
            return self.add(s, S, Z0, 0)
        if n["k"] == "ctor" and detmpl(n.get("c", "")) in CONT and n["a"] and is_num(f.nodes[n["a"][0]].get("t")) and "char *" not in f.nodes[n["a"][0]].get("t", ""):
            r = self.lin(s, n["a"][0])
            if r is not None and not mentions(r[0], {T}):
                s = self.add(s, S, r[0], r[1])
                return self.add(s, r[0], S, -r[1]) if s is not None else None
            return s
        if n["k"] == "call" and short(P.callee(n)) == "substr" and n.get("o") is not None:
            O = ("m", "size", self.term(n["o"]))
            if not mentions(O, {T}):
                p = self.lin(s, n["a"][0]) if n["a"] else (Z0, 0)
                if p and p[0] == Z0:
                    s = self.add(s, S, O, -p[1])
                else:
                    s = self.add(s, S, O, 0)
            if s is not None and len(n["a"]) >= 2:
                r = self.lin(s, n["a"][1])
                if r is not None and not mentions(r[0], {T}):
                    s = self.add(s, S, r[0], r[1])
            return s
        t = self.term(i)
        if t[0] in ("v", "f", "g", "d", "i") and not mentions(t, {T}) and ("string" in n.get("t", "") or any(c in n.get("t", "") for c in ("vector", "list", "map", "deque", "set"))):
            O = ("m", "size", t)
            s = self.add(s, S, O, 0)
            return self.add(s, O, S, 0) if s is not None else None
        return s

    def elem(self, s, e):
        f, P = self.f, self.P
        if not isinstance(e, int):
            return s
        n = f.nodes[e]
        k = n["k"]
        if k == "decl":
            for q in n["ds"]:
                v = ("v", q["d"])
                s = self.forget(s, {v})
                if q.get("ref"):
                    continue
                if is_num(q["t"]):
                    if is_uns(q["t"]):
                        self.nn.add(v)
                    if q.get("i") is not None:
                        s = self.assign(s, v, q["i"], q["t"])
                elif q.get("i") is not None:
                    s = self.csize(s, v, q["i"])
                if s is None:
                    return None
            return s
        if k == "asg":
            t = self.term(n["x"])
            if is_uns(f.nodes[n["x"]].get("t")):
                self.nn.add(t)
            if n["op"] == "=":
                roots = self.roots(n["x"])
                if is_num(f.nodes[n["x"]].get("t")):
                    r = self.assign(s, t, n["r"], f.nodes[n["x"]].get("t"))
                    if r is None:
                        return None
                    roots.discard(t)
                    return self.forget_but(r, roots, t)
                return self.forget(s, roots | {t})
            if n["op"] in ("+=", "-="):
                r = self.lin(s, n["r"])
                if r is not None and r[0] == Z0:
                    d = r[1] if n["op"] == "+=" else -r[1]
                    if d < 0 and is_uns(f.nodes[n["x"]].get("t")):
                        lo = self.bound(s, Z0, t)
                        if lo is None or lo > d:
                            return self.forget(s, {t})
                    if self.maybe_npos(s, t):
                        return self.forget(s, {t})
                    return self.shift(s, t, d)
                if r is not None and r[0] != t:
                    lo, hi = self.bound(s, Z0, r[0]), self.bound(s, r[0], Z0)
                    keep = []
                    if n["op"] == "+=" and lo is not None and lo <= r[1]:
                        keep = [(a, b, c) for (a, b), c in s.items() if b == t]       # only grows: lower bounds stay
                    elif n["op"] == "-=" and lo is not None and lo <= r[1]:
                        c = self.bound(s, r[0], t)
                        if not is_uns(f.nodes[n["x"]].get("t")) or c is not None and c + r[1] <= 0:
                            keep = [(a, b, c) for (a, b), c in s.items() if a == t]
                    s2 = self.forget(s, {t})
                    for a, b, c in keep:
                        s2 = self.add(s2, a, b, c) if s2 is not None else None
                    return s2
            return self.forget(s, self.roots(n["x"]) | {t})
        if k == "un" and n["op"] in ("++", "--"):
            t = self.term(n["x"])
            if is_uns(f.nodes[n["x"]].get("t")):
                self.nn.add(t)
            if not is_num(f.nodes[n["x"]].get("t")):
                return self.forget(s, {t})
            if n["op"] == "--" and is_uns(f.nodes[n["x"]].get("t")):
                lo = self.bound(s, Z0, t)
                if lo is None or lo > -1:
                    # may wrap round
                    return self.forget(s, {t})
            if self.maybe_npos(s, t):
                return self.forget(s, {t})
            return self.shift(s, t, 1 if n["op"] == "++" else -1)
        if k == "iret":
            rd = self.F.ret_var(e)
            if rd is not None:
                if n.get("x") is not None and is_num(f.nodes[n["x"]].get("t")):
                    return self.assign(s, rd, n["x"], f.nodes[n["x"]].get("t"))
                s = self.forget(s, {rd})
                if n.get("x") is not None:
                    return self.csize(s, rd, n["x"])
            return s
        if k in ("call", "ctor"):
            return self.call(s, e, n)
        return s

    def forget_but(self, s, roots, t):
        roots = set(x for x in roots if x != t)
        bad = [k for k in s if (k[0] != t and mentions(k[0], roots)) or (k[1] != t and mentions(k[1], roots))]
        if bad:
            s = s.copy()
            for k in bad:
                del s[k]
        return s

    def roots(self, x):
        k = set()
        self.F.lkill(x, k)
        return k

    def call(self, s, e, n):
        f, P = self.f, self.P
        nm = short(P.callee(n))
        if n["k"] == "call" and n.get("o") is not None and detmpl(n.get("c", "")) in CONT:
            T = self.term(n["o"])
            S = ("m", "size", T)
            op = n.get("op")
            grow = None
            if nm in ("push_back", "push_front") or op == "+=" and n["a"] and f.nodes[n["a"][0]].get("t", "").replace("const ", "") in ("char", "int"):
                grow = 1
            elif nm in ("pop_back", "pop_front"):
                grow = -1
            if grow is not None:
                lo = self.bound(s, Z0, S)
                return self.elements(self.shift(s, S, grow), T)
            if op == "=" or nm == "assign" and len(n["a"]) == 1:
                if mentions(self.term(n["a"][0]), {T}):
                    keep = None
                    x = f.nodes[P.strip_smart(f, n["a"][0])]
                    while x["k"] == "ctor" and x.get("copy") and x["a"]:
                        x = f.nodes[P.strip_smart(f, x["a"][0])]
                    if x["k"] == "call" and nm and short(P.callee(x)) == "substr":
                        keep = [((a, b), c) for (a, b), c in s.items() if a == S]
                    s = self.forget(s, {T})
                    for (a, b), c in keep or ():
                        s = self.add(s, a, b, c) if s is not None and not mentions(b, {T}) else s
                    return s
                s = self.forget(s, {T})
                return self.csize(s, T, n["a"][0])
            if nm == "swap" and len(n["a"]) == 1:
                U = ("m", "size", self.term(n["a"][0]))
                z = self.forget(s, {T, self.term(n["a"][0])})
                sw = {S: U, U: S}
                for (a, b), c in s.items():
                    a2, b2 = sw.get(a, a), sw.get(b, b)
                    if (a2, b2) != (a, b) and all(x in (S, U) or not mentions(x, {T, self.term(n["a"][0])}) for x in (a2, b2)):
                        z = self.add(z, a2, b2, c) if z is not None else None
                return z
            if nm == "clear":
                s = self.forget(s, {T})
                return self.add(s, S, Z0, 0)
            if nm == "resize" and n["a"]:
                r = self.lin(s, n["a"][0])
                s = self.forget(s, {T})
                if r is not None and not mentions(r[0], {T}):
                    s = self.add(s, S, r[0], r[1])
                    s = self.add(s, r[0], S, -r[1]) if s is not None else None
                return s
            if op == "+=" or nm in ("append", "insert"):
                keep = [(a, b, c) for (a, b), c in s.items() if b == S]
                s = self.forget(s, {T})
                for a, b, c in keep:
                    s = self.add(s, a, b, c) if s is not None and not mentions(a, {T}) else s
                return s
        kill = set()
        ts = P.targets(f, n)
        md = set()
        for t in ts:
            md |= self.mods.of(t)
        for x in changed_exprs(P, f, e):
            if ts:
                c = detmpl(f.nodes[x].get("tc") or "?")
                if f.nodes[x]["k"] == "this" or c in P.classes and "*" + c not in md:
                    continue
            self.F.lkill(x, kill)
        for fld in md:
            kill.add(("F", fld))
        return self.forget(s, kill) if kill else s

    def elements(self, s, T):
        bad = [k for k in s if any(x[0] == "i" and mentions(x, {T}) for x in k)]
        if bad:
            s = s.copy()
            for k in bad:
                del s[k]
        return s

    # ---- fixpoint
    def flow(self, b, s):
        """states on the edges out of b"""
        f = self.f
        blk = f.blocks[b]
        for e in blk["s"]:
            s = self.elem(s, e)
            if s is None:
                return []
        r = []
        tc = blk.get("tc")
        for k, t in enumerate(blk["to"]):
            if t is None:
                continue
            x = s
            if tc is not None and len(blk["to"]) == 2 and blk.get("tk") != "SwitchStmt":
                x = self.assume(s, tc, k == 0)
                if x is not None and x.find:
                    x = self.defs(x)
            elif blk.get("tk") == "SwitchStmt" and tc is not None and "case" in f.blocks[t]:
                q = self.lin(s, tc)
                if q is not None and isinstance(f.blocks[t]["case"], int):
                    x = self.add(s, q[0], Z0, f.blocks[t]["case"] - q[1])
                    x = self.add(x, Z0, q[0], q[1] - f.blocks[t]["case"]) if x is not None else None
            if x is not None:
                r.append((t, x))
        return r

    def solve(self):
        f = self.f
        inb = {f.entry: new()}
        for h in self.hblocks:
            inb[h] = new()
        # a handler starts from nothing known
        visits = {}
        order = {b: k for k, b in enumerate(sorted(f.blocks, reverse=True))}
        work = sorted(inb, key=lambda b: order[b])
        out = {}
        n = 0
        while work:
            b = work.pop(0)
            n += 1
            if n > 6000:
                inb = {x: new() for x in f.blocks}
                break
            for t, x in self.flow(b, inb[b]):
                out[(b, t)] = x
                if t in self.hblocks:
                    continue
                o = inb.get(t)
                if o is None:
                    inb[t] = x
                elif self.leq(x, o):
                    continue
                else:
                    j = self.join(o, x)
                    if t in self.heads:
                        visits[t] = visits.get(t, 0) + 1
                        if visits[t] > 2:
                            j = self.widen(o, j)
                        if visits[t] > 25:
                            j = new()
                    inb[t] = j
                if t not in work:
                    work.append(t)
                    work.sort(key=lambda b: order[b])
        # narrowing
        preds = {}
        for b, blk in f.blocks.items():
            for t in blk["to"]:
                if t is not None:
                    preds.setdefault(t, set()).add(b)
        for _ in range(3):
            edges = {}
            for b in sorted(inb, key=lambda b: order[b]):
                for t, x in self.flow(b, inb[b]):
                    edges[(b, t)] = x if (b, t) not in edges else self.join(edges[(b, t)], x)
            nw = {}
            for b in inb:
                if b == f.entry or b in self.hblocks:
                    nw[b] = inb[b]
                    continue
                xs = [edges[(p, b)] for p in preds.get(b, ()) if (p, b) in edges]
                if not xs:
                    continue
                j = xs[0]
                for x in xs[1:]:
                    j = self.join(j, x)
                nw[b] = j
            inb = nw
        self.inb = inb
        self.at = {}
        for b, s in inb.items():
            for e in f.blocks[b]["s"]:
                if isinstance(e, int):
                    self.at[e] = s
                s = self.elem(s, e)
                if s is None:
                    break

    # ---- queries
    def before(self, i):
        e, f = self.f.elem_of, self.f
        st, seen = [i], set()
        while st:
            x = st.pop(0)
            if x in e:
                return self.at.get(x)
            if x in seen:
                continue
            seen.add(x)
            st.extend(f.parents.get(x, []))
        return None

    def le(self, s, a, b, k=0):
        """a - b <= k for linear forms a, b"""
        c = self.bound(s, a[0], b[0])
        return c is not None and c + a[1] - b[1] <= k


def zones(P, f):
    z = f.__dict__.get("_zones")
    if z is None:
        z = f._zones = Zones(P, f)
    return z
