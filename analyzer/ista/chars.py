"""Sets of characters: which byte values a character place can hold where, what character functions produce,
which characters a validator lets through and what an escaping function copies unescaped.  Finite-domain dataflow
over the branch structure (a place's set of possible bytes is refined by every condition that mentions it)."""
from .model import short
from .flow import Flow
from .util import loops

ALL = (1 << 256) - 1
CT = {}


def mask(cs):
    m = 0
    for c in cs:
        m |= 1 << (c & 255)
    return m


def members(m):
    return [c for c in range(256) if m >> c & 1]


def _ct():
    import string
    a = lambda s: set(ord(c) for c in s)
    CT.update(isalnum=a(string.ascii_letters + string.digits), isalpha=a(string.ascii_letters), isdigit=a(string.digits), isupper=a(string.ascii_uppercase), islower=a(string.ascii_lowercase),
              isspace=a(" \t\n\r\v\f"), isxdigit=a(string.hexdigits), isprint=set(range(32, 127)), isgraph=set(range(33, 127)), iscntrl=set(range(32)) | {127},
              ispunct=set(range(33, 127)) - a(string.ascii_letters + string.digits), isblank=a(" \t"))


_ct()


def signed(c, t):
    return c if "unsigned" in t or t in ("uint8_t", "u_char") else c - 256 if c > 127 else c


def wrap(v, t):
    t = t.replace("const ", "").strip()
    if t in ("char", "signed char"):
        v &= 255
        return v - 256 if v > 127 else v
    if t == "unsigned char":
        return v & 255
    if t == "bool":
        return int(bool(v))
    if t in ("unsigned int", "unsigned"):
        return v & 0xffffffff
    if t in ("unsigned long", "size_t"):
        return v & 0xffffffffffffffff
    return v


class Chars(Flow):
    exceptions = True

    def __init__(self, P, f):
        super().__init__(P, f)
        self.pl = {}
        self.results = {x: d for d, q in getattr(f, "extra_vars", {}).items() for x in q["inits"]}
        self.run()

    # ---- places
    def place(self, i):
        """a character place: local, *iterator, string[index], .front()"""
        if i in self.pl:
            return self.pl[i]
        f = self.f
        n = f.nodes[i]
        r = None
        while n["k"] == "cast" and n.get("ft", n.get("t")) == n.get("t") or n["k"] == "cast" and n.get("cc") in ("LValueToRValue", "NoOp"):
            n = f.nodes[n["x"]]
        if n["k"] == "ref" and n.get("dk") in ("local", "param") and n.get("d") in f.vars:
            v = f.vars[n["d"]]
            t = v["t"].replace("const ", "").replace("&", "").strip()
            if t in ("char", "unsigned char", "signed char", "int"):
                if v.get("ref") and len(v["inits"]) == 1 and not v.get("param"):
                    r = self.place(v["inits"][0])
                elif len(v["inits"]) == 1 and not v["assigned"] and not v["addr"] and not v.get("param") and (self.place(v["inits"][0]) or ("v",))[0] != "v":
                    r = self.place(v["inits"][0])       # a copy of the element
                else:
                    r = ("v", n["d"])
        elif n["k"] in ("un", "call") and n.get("op") == "*":
            b = self.base(n["x"] if n["k"] == "un" else n["o"] if n.get("o") is not None else None)
            r = ("*", b) if b else None
        elif n["k"] == "idx":
            b = self.base(n["b"])
            j = self.idx(n["i"])
            r = ("[]", b, j) if b and j else None
        elif n["k"] == "call" and (n.get("op") == "[]" or short(self.P.callee(n) or "") == "at") and n.get("o") is not None and n["a"]:
            b = self.base(n["o"])
            j = self.idx(n["a"][0])
            r = ("[]", b, j) if b and j else None
        self.pl[i] = r
        return r

    def core(self, i):
        n = self.f.nodes[i]
        while n["k"] == "cast":
            i = n["x"]
            n = self.f.nodes[i]
        return i

    def base(self, i):
        if i is None:
            return None
        n = self.f.nodes[self.core(i)]
        if n["k"] == "ref" and n.get("dk") in ("local", "param") and n.get("d") in self.f.vars:
            return ("v", n["d"])
        if n["k"] == "mem":
            return ("m", n["n"])
        return None

    def idx(self, i):
        n = self.f.nodes[self.core(i)]
        if "cv" in n:
            return ("c", n["cv"])
        if n["k"] == "ref" and n.get("dk") in ("local", "param") and n.get("d") in self.f.vars:
            return ("v", n["d"])
        return None

    # ---- evaluation
    def val(self, i, place, c, s):
        """value of an expression when the place holds byte c; None if unknown"""
        f = self.f
        n = f.nodes[i]
        if "cv" in n and isinstance(n["cv"], (int, bool)):
            return int(n["cv"])
        p = self.place(i)
        if p is not None and p == place:
            t = n.get("t", "char")
            return signed(c, t)
        if p is not None and p in s:
            ms = members(s[p])
            if len(ms) == 1:
                return signed(ms[0], n.get("t", "char"))
        k = n["k"]
        if k == "ref":
            i = self.flag(n)
            return self.val(i, place, c, s) if i is not None else None
        if k == "cast":
            v = self.val(n["x"], place, c, s)
            return None if v is None else wrap(v, n.get("t", ""))
        if k == "un":
            v = self.val(n["x"], place, c, s)
            if v is None:
                return None
            return {"!": int(not v), "-": -v, "+": v, "~": ~v}.get(n["op"])
        if k == "bin":
            a, b = self.val(n["x"], place, c, s), self.val(n["r"], place, c, s)
            op = n["op"]
            if op == "&&":
                return 0 if a == 0 or b == 0 else None if a is None or b is None else 1
            if op == "||":
                return 1 if a or b else None if a is None or b is None else 0
            if a is None or b is None:
                return None
            if op in ("<", ">", "<=", ">=", "==", "!="):
                if "unsigned" in f.nodes[n["x"]].get("t", "") and a < 0:
                    a = wrap(a, f.nodes[n["x"]]["t"])
                return int({"<": a < b, ">": a > b, "<=": a <= b, ">=": a >= b, "==": a == b, "!=": a != b}[op])
            if op in ("+", "-", "&", "|", "^", "*"):
                return {"+": a + b, "-": a - b, "&": a & b, "|": a | b, "^": a ^ b, "*": a * b}[op]
            return None
        if k == "cond":
            q = self.val(n["c"], place, c, s)
            if q is None:
                a, b = self.val(n["x"], place, c, s), self.val(n["r"], place, c, s)
                return a if a == b else None
            return self.val(n["x"] if q else n["r"], place, c, s)
        if k == "call":
            nm = (self.P.callee(n) or n.get("f") or "").split("::")[-1]
            if nm in CT and n["a"]:
                v = self.val(n["a"][0], place, c, s)
                return None if v is None else int((v & 255) in CT[nm])
            if nm in ("tolower", "toupper") and n["a"]:
                v = self.val(n["a"][0], place, c, s)
                if v is None:
                    return None
                if 0 <= v < 128:
                    return ord(chr(v).lower() if nm == "tolower" else chr(v).upper())
                return v
            if nm in ("strchr", "index") and len(n["a"]) == 2:
                x = self.f.nodes[self.core(n["a"][0])]
                v = self.val(n["a"][1], place, c, s)
                if x["k"] == "str" and v is not None:
                    return int((v & 255) in set(x["v"].encode("latin-1", "replace")) | {0})
            if nm == "find" and n.get("o") is not None and n["a"]:
                return None
        return None

    def outs(self, i, s):
        """mask of values a character expression may have"""
        ps = [p for p in self.mentioned(i) if p in s] or [None]
        if len(ps) > 1:
            ps = ps[:1]
        if ps[0] is None:
            v = self.val(i, None, 0, s)
            return ALL if v is None else 1 << (v & 255)
        m = 0
        for c in members(s[ps[0]]):
            v = self.val(i, ps[0], c, s)
            if v is None:
                return ALL
            m |= 1 << (v & 255)
        return m

    def flag(self, n):
        """the test a boolean local stands for"""
        if n.get("dk") == "local" and n.get("d") in self.f.vars:
            q = self.f.vars[n["d"]]
            if q["t"].replace("const ", "") == "bool" and len(q["inits"]) == 1 and not q["assigned"] and not q["addr"]:
                return q["inits"][0]
        return None

    def mentioned(self, i):
        r = []
        js = list(self.f.subtree(i))
        for j in list(js):
            if self.f.nodes[j]["k"] == "ref":
                q = self.flag(self.f.nodes[j])
                if q is not None:
                    js += self.f.subtree(q)
        for j in js:
            p = self.place(j)
            if p and p not in r:
                r.append(p)
        return r

    # ---- flow: dict place -> mask as frozenset of items; a place not in it holds anything
    def init(self):
        return frozenset()

    def join(self, a, b):
        a, b = dict(a), dict(b)
        return frozenset((p, a[p] | b[p]) for p in a if p in b and a[p] | b[p] != ALL)

    def kill(self, d, v):
        for p in list(d):
            if v in p or ("v", v[1]) == p:
                d.pop(p)

    def elem(self, s, e, b):
        if not isinstance(e, int):
            return s
        n = self.f.nodes[e]
        k = n["k"]
        if k == "decl":
            d = dict(s)
            for q in n["ds"]:
                if q.get("ref"):
                    continue
                self.kill(d, ("v", q["d"]))
                if q.get("i") is not None and q["t"].replace("const ", "") in ("char", "unsigned char", "signed char", "int"):
                    m = self.outs2(q["i"], dict(s))
                    if m != ALL:
                        d[("v", q["d"])] = m
            return frozenset(d.items())
        if k == "asg":
            d = dict(s)
            p = self.place(n["x"])
            m = self.outs2(n["r"], d) if n.get("op", "=") == "=" else ALL
            v = self.base(n["x"])
            if v:
                self.kill(d, v)
            if p:
                d.pop(p, None)
                if m != ALL:
                    d[p] = m
            return frozenset(d.items())
        if k in ("un", "call") and n.get("op") in ("++", "--", "+=", "-=", "="):
            v = self.base(n["x"] if k == "un" else n.get("o"))
            if v:
                d = dict(s)
                self.kill(d, v)
                return frozenset(d.items())
        if k == "iret" and n.get("x") is not None:
            r = self.results.get(n["x"])
            if r is not None:
                d = dict(s)
                m = self.outs2(n["x"], d)
                self.kill(d, ("v", r))
                if m != ALL:
                    d[("v", r)] = m
                return frozenset(d.items())
            return s
        if k == "call":
            d = dict(s)
            for a, pk in zip(n["a"], n.get("pk", [])):
                if pk in ("r", "p"):
                    v = self.base(a)
                    if v:
                        self.kill(d, v)
            return frozenset(d.items())
        return s

    def outs2(self, i, s):
        n = self.f.nodes[self.core(i)]
        p = self.place(self.core(i))
        if p is not None:
            return s.get(p, ALL)
        if n["k"] == "call" and len(n["a"]) == 1 and not n.get("op"):
            ts = self.P.targets(self.f, n)
            if len(ts) == 1 and ts[0].rt == "char" and ts[0].params and ts[0].params[0]["t"].replace("const ", "") == "char":
                return char_outputs(self.P, ts[0])
        for q in self.mentioned(i):
            s.setdefault(q, ALL)
        return self.outs(i, s)

    def edge(self, s, b, k, succ):
        f = self.f
        blk = f.blocks[b]
        tc = blk.get("tc")
        if tc is None or len(blk["to"]) < 2:
            return s
        d = dict(s)
        if blk.get("tk") == "SwitchStmt":
            p = self.place(self.core(tc))
            if p is None:
                return s
            m = d.get(p, ALL)
            t = f.blocks[succ]
            cs = [f.blocks[x].get("case") for x in blk["to"] if x is not None and "case" in f.blocks[x]]
            if "case" in t and not t.get("default"):
                vals = mask([t["case"]]) if isinstance(t["case"], int) else ALL
            else:
                vals = ALL & ~mask([c for c in cs if isinstance(c, int)])
            m &= vals
            if not m:
                return None
            d[p] = m
            return frozenset(d.items())
        n = f.nodes[tc]
        c = tc
        while n["k"] == "cast" or n["k"] == "bin" and n["op"] in ("&&", "||"):
            c = n["x"] if n["k"] == "cast" else n["r"]
            n = f.nodes[c]
        want = 0 if k == 1 else 1
        for p in self.mentioned(c):
            m, r = d.get(p, ALL), 0
            for ch in members(m):
                v = self.val(c, p, ch, d)
                if v is None or int(bool(v)) == want:
                    r |= 1 << ch
            if not r:
                return None
            if r != ALL:
                d[p] = r
        return frozenset(d.items())


def chars(P, f):
    c = P.__dict__.setdefault("_chars", {})
    if id(f) not in c:
        c[id(f)] = Chars(P, f)
    return c[id(f)]


def char_outputs(P, f):
    """bytes a char -> char function can return"""
    C = chars(P, f)
    m = 0
    seen = [False]

    def cb(s, e, b):
        nonlocal m
        if isinstance(e, int) and f.nodes[e]["k"] == "ret":
            seen[0] = True
            m |= C.outs2(f.nodes[e]["x"], dict(s))
    C.visit(cb)
    return m if seen[0] else ALL


def char_predicate(P, f):
    """bytes for which a char -> bool function can return true"""
    C = chars(P, f)
    m = 0

    def cb(s, e, b):
        nonlocal m
        if isinstance(e, int) and f.nodes[e]["k"] == "ret":
            d = dict(s)
            ps = [("v", f.params[0]["d"])]
            cur = d.get(ps[0], ALL)
            for c in members(cur):
                v = C.val(f.nodes[e]["x"], ps[0], c, d)
                if v is None or v:
                    m |= 1 << c
    C.visit(cb)
    return m


def accepted(P, f, neg=False):
    """bytes a string may consist of when the bool function f(string) returns true; ALL if nothing is known"""
    memo = P.__dict__.setdefault("_accepted", {})
    if f.u in memo:
        return memo[f.u]
    memo[f.u] = r = _accepted(P, f)
    return r


def _accepted(P, f):
    if f.rt != "bool" or not f.params or "basic_string" not in f.params[0]["t"] and "char" not in f.params[0]["t"]:
        return ALL
    v = P.view(f)
    C = chars(P, v)
    # return str.find_first_not_of("...") == npos
    res = ALL
    for i, n in v.nodes.items():
        if n["k"] == "call" and short(P.callee(n) or "") == "find_first_not_of" and n["a"]:
            x = v.nodes[C.core(n["a"][0])]
            rets = [m for m in v.nodes.values() if m["k"] == "ret"]
            if x["k"] == "str" and len(rets) == 1 and i in v.subtree(rets[0]["x"]):
                q = v.nodes[C.core(rets[0]["x"])]
                if q["k"] == "bin" and q["op"] == "==":
                    return mask(x["v"].encode("latin-1", "replace"))
    for head, body, latches in loops(v):
        rets = [i for i, n in v.nodes.items() if n["k"] in ("ret", "iret") and n.get("x") is not None]
        inside = [i for i in rets if returns_in(v, i, body, head)]
        if any(v.nodes[i].get("x") is None or v.nodes[C.core(v.nodes[i]["x"])].get("cv") not in (0, False) for i in inside if v.nodes[i]["k"] == "ret"):
            continue
        m = 0
        if v.blocks[head].get("tc") is not None and C.mentioned(v.blocks[head]["tc"]):
            continue        # it stops at such a character
        cand = {}
        for b in body:
            s = C.inb.get(b)
            if s is None:
                continue
            for e in v.blocks[b]["s"]:
                if isinstance(e, int):
                    n = v.nodes[e]
                    if n["k"] in ("un", "call") and n.get("op") in ("++", "+="):
                        # the element is done: what may it have been?
                        base = C.base(n["x"] if n["k"] == "un" else n.get("o"))
                        for p, x in s:
                            if base and (p == ("*", base) or p[0] == "[]" and p[2] == base):
                                cand.setdefault(e, 0)
                                cand[e] |= x
                        if base and e not in cand and any(p and (p == ("*", base) or p[0] == "[]" and p[2] == base) for p in C.pl.values()):
                            cand[e] = ALL
                s = C.elem(s, e, b)
        # leaving early with true must not be possible: every exit of the loop other than its end returns false
        if cand:
            for x in cand.values():
                m |= x
            if early(v, C, body, head):
                continue
            res &= m
    return res


def returns_in(v, i, body, head):
    e = v.elem_of.get(i)
    if e is None:
        return False
    b = e[0]
    if b in body:
        return True
    # a return statement's block is outside the natural loop; it is inside textually if its only predecessors are body blocks
    return all(p in body and p != head for p in v.preds.get(b, [])) and bool(v.preds.get(b))


def early(v, C, body, head):
    """the loop can be left, other than at its head, towards a return of something other than false"""
    for b in body:
        for k, t in enumerate(v.blocks[b]["to"]):
            if t is None or t in body or b == head:
                continue
            for e in v.blocks[t]["s"]:
                if isinstance(e, int) and v.nodes[e]["k"] == "ret":
                    if v.nodes[C.core(v.nodes[e]["x"])].get("cv") in (0, False):
                        break
            else:
                return True
    return False


def rewritten(P, v):
    """loops that visit every character of a text and may replace it in place: {loop head: (body, node of the text, bytes left)}"""
    out = {}
    for head, body, latches in loops(v):
        tc = v.blocks[head].get("tc")
        if tc is None or any(t is not None and t not in body for b in body if b != head for t in v.blocks[b]["to"]):
            continue
        n = v.nodes[tc]
        while n["k"] == "cast":
            n = v.nodes[n["x"]]
        if n["k"] == "bin" and n["op"] in ("!=", "<"):
            xs = [n["x"], n["r"]]
        elif n["k"] == "call" and n.get("op") == "!=":
            xs = ([n["o"]] if n.get("o") is not None else []) + list(n["a"])
        else:
            continue
        C = None
        for p, q in (xs, xs[::-1]):
            a, e = at(v, p), at(v, q)
            if v.nodes[a]["k"] != "ref" or v.nodes[a].get("dk") != "local":
                continue
            d = v.nodes[a]["d"]
            w = v.vars[d]
            en = v.nodes[e]
            if en["k"] == "ref" and en.get("dk") == "local" and len(v.vars[en["d"]]["inits"]) == 1 and not v.vars[en["d"]]["assigned"]:
                e = at(v, v.vars[en["d"]]["inits"][0])
                en = v.nodes[e]
            first = (w.get("q") or {}).get("i")
            if first is None or en["k"] != "call" or en.get("o") is None:
                continue
            fn = v.nodes[at(v, first)]
            what = short(P.callee(en) or "")
            if what == "end" and fn["k"] == "call" and short(P.callee(fn) or "") == "begin":
                kind = "*"
            elif what in ("size", "length") and fn.get("cv") == 0:
                kind = "[]"
            else:
                continue
            # advanced exactly once per round
            adv = [i for i, m in v.nodes.items() if m["k"] in ("un", "call", "asg") and (m.get("op") in ("++", "--", "+=", "-=") or m["k"] == "asg" or m.get("op") == "=") and
                   v.nodes[at(v, m["x"] if m.get("x") is not None else m["o"] if m.get("o") is not None else m["a"][0] if m.get("a") else i)].get("d") == d and
                   v.nodes[at(v, m["x"] if m.get("x") is not None else m["o"] if m.get("o") is not None else m["a"][0] if m.get("a") else i)]["k"] == "ref"]
            if len(adv) != 1 or v.nodes[adv[0]].get("op") != "++":
                continue
            from .util import dominators, dominates
            el = v.elem_of.get(adv[0])
            if el is None or el[0] not in body or not all(dominates(dominators(v)[0], el[0], l) for l in latches):
                continue
            C = C or chars(P, v)
            base = C.base(en["o"]) if kind == "[]" else None
            place = ("*", ("v", d)) if kind == "*" else ("[]", base, ("v", d)) if base else None
            if place is None:
                continue
            s = C.inb.get(el[0])
            if s is None:
                continue
            for x in v.blocks[el[0]]["s"][:el[1]]:
                s = C.elem(s, x, el[0])
            m = dict(s).get(place, ALL)
            if m != ALL:
                out[head] = (body, en["o"], m)
    return out


def at(v, i):
    n = v.nodes[i]
    while n["k"] == "cast" or n["k"] == "ctor" and len(n["a"]) == 1:
        i = n["x"] if n["k"] == "cast" else n["a"][0]
        n = v.nodes[i]
    return i


def copied(P, f):
    """string -> string functions that build their answer character by character: (mask of characters copied as they are,
    [(mask of the source character, literal written instead)]); None if f is not of that kind"""
    memo = P.__dict__.setdefault("_copied", {})
    if f.u in memo:
        return memo[f.u]
    memo[f.u] = r = _copied(P, f)
    return r


def outputs(P, v, C, e):
    """arguments of a call that appends to a text or stream, else None"""
    n = v.nodes[e]
    if n["k"] != "call":
        return None
    nm = short(P.callee(n) or "")
    if n.get("op") == "<<" and len(n["a"]) + (n.get("o") is not None) == 2:
        return [n["a"][-1]]
    if n.get("op") == "+=" and n.get("o") is not None or nm in ("push_back", "put"):
        return n["a"][-1:]
    if nm in ("append", "write"):
        return n["a"][:2] if len(n["a"]) == 2 and v.nodes[C.core(n["a"][1])].get("cv") is None else n["a"][-1:]
    return None


class Pending(Flow):
    """character facts, apart for the paths on which a lone backslash was written last"""
    exceptions = True

    def __init__(self, P, v, C):
        super().__init__(P, v)
        self.C = C
        self.run()

    def init(self):
        return frozenset([(False, self.C.init())])

    def join(self, a, b):
        a, b = dict(a), dict(b)
        return frozenset((k, self.C.join(a[k], b[k]) if k in a and k in b else a[k] if k in a else b[k]) for k in set(a) | set(b))

    def elem(self, s, e, b):
        o = outputs(self.P, self.f, self.C, e) if isinstance(e, int) else None
        out = {}
        for k, st in s:
            t = self.C.elem(st, e, b)
            if o:
                x = self.f.nodes[self.C.core(o[-1])]
                txt = x["v"] if x["k"] == "str" else chr(x["cv"] & 255) if isinstance(x.get("cv"), int) and "char" in x.get("t", "") else None
                if txt is None:
                    k = False
                else:
                    for ch in txt:
                        k = not k if ch == "\\" else False
            out[k] = self.C.join(out[k], t) if k in out else t
        return frozenset(out.items())

    def edge(self, s, b, k, succ):
        r = []
        for q, st in s:
            t = self.C.edge(st, b, k, succ)
            if t is not None:
                r.append((q, t))
        return frozenset(r) if r else None


def _copied(P, f):
    if "basic_string" not in f.rt or not f.params or "basic_string" not in f.params[0]["t"]:
        return None
    v = P.view(f)
    C = chars(P, v)
    raw, lits, n_raw = 0, [], 0
    # the parameter itself must not be returned or appended as a whole
    whole = [False]
    src = set(q["d"] for q in v.params[:1])

    def srcplace(p):
        return p is not None and (p[0] in ("*", "[]") or p[0] == "v" and any(C.place(x) is not None for x in v.vars[p[1]]["inits"]))

    def cb(s, e, b):
        nonlocal raw, n_raw
        if not isinstance(e, int):
            return
        args = outputs(P, v, C, e)
        if not args:
            return
        both = dict(s)
        s = dict(C.join(both[True], both[False]) if len(both) == 2 else next(iter(both.values())))
        for a in args:
            x = v.nodes[C.core(a)]
            t = x.get("t", "").replace("const ", "").replace("&", "").strip()
            if x["k"] == "str":
                cur = None
                for p, m in s.items():
                    if srcplace(p):
                        cur = m if cur is None else cur & m
                lits.append((cur if cur is not None else ALL, x["v"], e))
            elif t in ("char", "unsigned char", "signed char"):
                p = C.place(C.core(a))
                if "cv" in x:
                    cur = None
                    for q, m in s.items():
                        if srcplace(q):
                            cur = m if cur is None else cur & m
                    lits.append((cur if cur is not None else ALL, chr(x["cv"] & 255), e))
                else:
                    n_raw += 1
                    if False in both:
                        raw |= dict(both[False]).get(p, ALL) if p else ALL
            elif x["k"] == "ref" and x.get("d") in src:
                whole[0] = True
    Pending(P, v, C).visit(cb)
    if not n_raw or whole[0]:
        return None
    return raw, lits


def escapes(P, f, must):
    """f copies none of the characters in must unchanged and writes a backslash first in place of each"""
    c = copied(P, f)
    if c is None:
        return False
    raw, lits = c
    if raw & must:
        return False
    # in place of a dangerous character only text that begins with a backslash is written
    first = {}
    for m, l, e in lits:
        if m & must and m != ALL and not l.startswith("\\"):
            # the second of two writes (put('\\'); put('"'))
            first.setdefault(m, []).append((l, e))
    for m, l, e in lits:
        if m & must and m != ALL:
            if l in ("\\",):
                first.pop(m, None)
            elif l.startswith("\\") and m == mask([92]) and l != "\\\\":
                return False
            elif l.startswith("\\") and len(l) < 2:
                return False
    return not first
