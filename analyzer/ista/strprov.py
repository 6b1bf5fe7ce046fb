"""Provenance of text: which sources the content of a string, stream or container comes from, and which characters it
may contain.  A part of a value is (origin, allowed bytes, marks, slot path); origins of parameters, members, globals and
results of other functions are symbolic and resolved over the whole program."""
from .model import detmpl, short
from .flow import Flow
from .throws import is_fake
from .chars import ALL, mask, members, accepted, char_outputs, rewritten, copied, escapes, chars

LIT = ("lit",)
NUM = ("num",)
NUMS = mask(b"0123456789+-.eEinfaINFA")
KEEP = {"substr", "c_str", "data", "str", "begin", "end", "cbegin", "cend", "rbegin", "rend", "front", "back", "operator*", "operator->", "get", "top", "base"}
LOOKUP = {"find", "at", "lower_bound", "upper_bound", "count", "operator[]", "find_first_of", "find_last_of", "rfind", "size", "length", "empty", "compare"}
NOTEXT = {"size", "length", "count", "compare", "empty"}
TIME = {"gmtime", "localtime", "gmtime_r", "localtime_r", "strftime", "asctime", "ctime", "put_time"}     # text of a date
ADD = {"push_back", "push_front", "insert", "append", "assign", "push", "emplace_back", "operator+=", "write", "put", "swap"}
TEXTY = ("char", "string", "stream", "pair", "map", "vector", "list", "deque", "set<", "iterator", "iter", "path", "any", "function", "shared_ptr", "MetaInfo", "value_type", "Value", "auto")


def texty(t):
    t = t or ""
    if t.replace("const ", "").replace("&", "").strip() in ("int", "unsigned int", "long", "unsigned long", "bool", "double", "float", "time_t", "size_t", "int64_t", "short", "unsigned short", "void", "long long", "unsigned long long"):
        return False
    return True


def slot(parts, p):
    """values stored under slot p ('k' key / 'v' value) of a pair or map"""
    return frozenset((o, m, mk, (p + sl)[:4]) for o, m, mk, sl in parts)


def select(parts, p):
    r = set()
    for o, m, mk, sl in parts:
        if sl and sl[0] != p:
            continue
        if sl:
            r.add((o, m, mk, sl[1:]))
        elif o[0] in ("param", "mem", "glob", "out"):
            r.add((o[:-1] + ((o[-1] + p)[:4],), m, mk, ""))
        else:
            r.add((o, m, mk, ""))
    return frozenset(r)


def narrow(parts, m2, mark=None):
    return frozenset((o, m & m2, mk | {mark} if mark else mk, sl) for o, m, mk, sl in parts)


def lit(v):
    return frozenset([(LIT, mask(v.encode("latin-1", "replace")), frozenset(), "")])


def num():
    return frozenset([(NUM, NUMS, frozenset(), "")])


def raw(what):
    return frozenset([(("raw", what), ALL, frozenset(), "")])


def bound(q):
    """what a reference variable is bound to"""
    i = (q.get("q") or {}).get("i")
    return i if i is not None else q["inits"][0] if len(q["inits"]) == 1 else None


class Prov(Flow):
    exceptions = True

    def __init__(self, S, v):
        super().__init__(S.P, v)
        self.S = S
        self.rets = frozenset()
        self.seen = {}
        self.rewritten = rewritten(S.P, v)
        self.results = {x: d for d, q in getattr(v, "extra_vars", {}).items() for x in q["inits"]}

    # ---- places: ("v", d) and ("this", fld)
    def init(self):
        d = {}
        for k, q in enumerate(self.f.params):
            if q.get("d") is not None and texty(q["t"]):
                d[("v", q["d"])] = frozenset([(("param", self.f.u, k, ""), ALL, frozenset(), "")])
        return (frozenset(d.items()), frozenset())

    def join(self, a, b):
        d = dict(a[0])
        for p, x in b[0]:
            d[p] = d[p] | x if p in d else x
        e = dict(b[0])
        for p in list(d):
            if p[0] == "this" and p not in e or p[0] == "this" and p not in dict(a[0]):
                d[p] = d[p] | frozenset([(("mem", p[1], ""), ALL, frozenset(), "")])
        return (frozenset(d.items()), a[1] & b[1])

    def y_of(self, e):
        return super().y_of(e)

    def root(self, i, depth=0):
        """the place an lvalue expression is part of, with the slot path down to it"""
        f = self.f
        if depth > 25 or i is None:
            return None
        n = f.nodes[i]
        k = n["k"]
        if k == "cast":
            return self.root(n["x"], depth + 1)
        if k == "ref":
            d = n.get("d")
            if d in f.vars and n.get("dk") in ("local", "param"):
                q = f.vars[d]
                if q.get("ref") and not q.get("param") and bound(q) is not None:
                    r = self.root(bound(q), depth + 1)
                    if r:
                        return r
                return (("v", d), "")
            if n.get("dk") in ("var", "global", "gvar") or n.get("n"):
                return (("glob", n.get("n")), "")
            return None
        if k == "mem":
            nm = n["n"]
            s = short(nm)
            if s in ("first", "second") and "pair" in nm:
                r = self.root(n["b"], depth + 1)
                return (r[0], r[1] + ("k" if s == "first" else "v")) if r else None
            b = f.nodes[n["b"]] if n.get("b") is not None else None
            while b is not None and (b["k"] == "cast" or b["k"] == "ref" and b.get("_this")):
                if b["k"] == "cast":
                    b = f.nodes[b["x"]]
                else:
                    q = f.vars.get(b.get("d"))
                    b = f.nodes[q["inits"][0]] if q and len(q["inits"]) == 1 else None
            if b is not None and b["k"] == "this":
                return (("this", detmpl(nm)), "")
            return (("mem", detmpl(nm)), "")
        if k == "idx":
            return self.root(n["b"], depth + 1)
        if k == "un" and n["op"] in ("*", "&", "++", "--"):
            return self.root(n["x"], depth + 1)
        if k == "call" and n.get("op") in ("*", "->", "[]", "++", "--", "<<", "+=", "="):
            o = n.get("o") if n.get("o") is not None else n["a"][0] if n["a"] else None
            r = self.root(o, depth + 1)
            if r and n.get("op") == "[]" and "map" in (n.get("c") or "").lower():
                return (r[0], r[1] + "v")
            return r
        if k == "call" and n.get("o") is not None and short(self.P.callee(n) or "") in KEEP | {"find", "insert"}:
            return self.root(n["o"], depth + 1)
        return None

    def read(self, pl, s, i=None):
        d = dict(s[0])
        if pl in d:
            x = d[pl]
        elif pl[0] == "this" or pl[0] == "mem":
            x = frozenset([(("mem", pl[1], ""), ALL, frozenset(), "")])
        elif pl[0] == "glob":
            x = frozenset([(("glob", pl[1], ""), ALL, frozenset(), "")]) if "placeholder" not in pl[1] and pl[1] not in ("_1", "_2", "_3", "_4") else raw("argument of a callback")
        else:
            x = frozenset()
        return x

    def checked(self, x, i, s):
        """narrow by the checks passed for this very expression"""
        if s[1]:
            t = self.key(i)
            for kk, m, mark in s[1]:
                if kk == t:
                    x = narrow(x, m, mark)
        return x

    def key(self, i, depth=0):
        """structural key of an expression, for checks of it"""
        n = self.f.nodes[i]
        k = n["k"]
        if depth > 12:
            return ("?", i)
        if k == "cast" or k == "ctor" and len(n["a"]) == 1:
            return self.key(n["x"] if k == "cast" else n["a"][0], depth + 1)
        if k == "ref":
            d = n.get("d")
            if n.get("dk") not in ("local", "param"):
                return ("g", n.get("n"))
            if d in self.f.vars:
                q = self.f.vars[d]
                if len(q["inits"]) == 1 and not q["assigned"] and not q["param"] and not q["addr"]:
                    x = self.f.nodes[q["inits"][0]]
                    if q.get("ref") or x["k"] in ("ref", "mem", "cast") or x["k"] == "ctor" and len(x["a"]) == 1 and self.f.nodes[x["a"][0]]["k"] in ("ref", "mem"):
                        return self.key(q["inits"][0], depth + 1)
            return ("v", d) if d is not None else ("g", n.get("n"))
        if k == "mem":
            return ("f", n["n"], self.key(n["b"], depth + 1) if n.get("b") is not None else None)
        if k == "this":
            return ("this",)
        if k == "call":
            return ("m", short(self.P.callee(n) or n.get("op") or ""), self.key(n["o"], depth + 1) if n.get("o") is not None else None) + tuple(self.key(a, depth + 1) for a in n["a"])
        if "cv" in n:
            return ("c", n["cv"])
        return ("?", i)

    # ---- values
    def ev(self, i, s, depth=0):
        f, P = self.f, self.P
        if i is None or depth > 40:
            return frozenset()
        n = f.nodes[i]
        k = n["k"]
        if k == "str":
            return lit(n["v"])
        if "cv" in n and k != "str":
            t = n.get("t", "").replace("const ", "")
            if t == "char" and isinstance(n["cv"], int):
                return frozenset([(LIT, mask([n["cv"]]), frozenset(), "")])
            return num()
        if k in ("int", "flt", "sizeof"):
            return num()
        if k not in ("call", "ctor", "new", "ilist", "cond", "cast", "fn", "memfn") and not texty(n.get("t")):
            return num()
        if k == "cast":
            if not texty(n.get("t")):
                return num()
            return self.evc(n["x"], s, n.get("t"), depth + 1)
        if k in ("ref", "mem", "idx") or k == "un" and n["op"] in ("*", "&"):
            r = self.root(i)
            if r is None:
                if k == "un":
                    return self.ev(n["x"], s, depth + 1)
                if k == "idx":
                    return self.ev(n["b"], s, depth + 1)
                if k == "mem":
                    b = n.get("b")
                    sn = short(n["n"])
                    if sn in ("first", "second") and "pair" in n["n"]:
                        return self.checked(select(self.ev(b, s, depth + 1), "k" if sn == "first" else "v"), i, s)
                    return frozenset([(("mem", detmpl(n["n"]), ""), ALL, frozenset(), "")])
                return raw("?" + f.loc(i))
            x = self.read(r[0], s)
            for p in r[1]:
                x = select(x, p)
            return self.checked(x, i, s)
        if k == "bin":
            if not texty(n.get("t")):
                return num()
            return self.ev(n["x"], s, depth + 1) | self.ev(n["r"], s, depth + 1)
        if k == "un":
            return self.ev(n["x"], s, depth + 1)
        if k == "cond":
            return self.ev(n["x"], s, depth + 1) | self.ev(n["r"], s, depth + 1)
        if k == "asg":
            return self.ev(n["r"], s, depth + 1)
        if k == "this":
            return frozenset()
        if k == "ctor":
            xs = [a for a in n["a"] if "allocator" not in f.nodes[a].get("t", "")]
            c = n.get("c") or ""
            if "pair" in c and len(xs) == 2:
                return slot(self.ev(xs[0], s, depth + 1), "k") | slot(self.ev(xs[1], s, depth + 1), "v")
            r = frozenset()
            for a in xs:
                if texty(f.nodes[a].get("t")):
                    r |= self.ev(a, s, depth + 1)
            return r
        if k == "new":
            return self.ev(n["x"], s, depth + 1) if n.get("x") is not None else frozenset()
        if k == "ilist":
            r = frozenset()
            for a in n.get("a", []):
                r |= self.ev(a, s, depth + 1)
            return r
        if k == "call":
            return self.checked(self.call(i, n, s, depth), i, s)
        return frozenset()

    def evc(self, i, s, t, depth=0):
        """value converted to type t: a computed character can be any"""
        if (t or "").replace("const ", "").replace("unsigned ", "").replace("signed ", "").replace("&", "").strip() == "char":
            x = self.f.nodes[self.core(i)]
            if not texty(x.get("t")) and "cv" not in x:
                return raw("computed character")
        return self.ev(i, s, depth)

    def narrowed(self, e, a, x):
        """a single character that is added: which one can it be here?"""
        f = self.f
        if f.nodes[a].get("t", "").replace("const ", "").replace("&", "").strip() != "char" or "cv" in f.nodes[a]:
            return x
        C = chars(self.P, f)
        el = f.elem_of.get(e)
        st = C.inb.get(el[0]) if el else None
        if st is None:
            return x
        for y in f.blocks[el[0]]["s"][:el[1]]:
            st = C.elem(st, y, el[0])
        m = C.outs2(a, dict(st))
        return x if m == ALL else narrow(x, m)

    def call(self, i, n, s, depth):
        f, P = self.f, self.P
        nm = short(P.callee(n) or n.get("f") or "")
        full = detmpl(P.callee(n) or n.get("f") or "")
        o = n.get("o")
        op = n.get("op")
        if not texty(n.get("t")) and op not in ("<<",):
            return num()
        if op in ("*", "->", "++", "--") or op == "[]" or o is not None and nm in KEEP or nm in ("at", "find") and o is not None:
            r = self.root(i)
            if r is not None:
                x = self.read(r[0], s)
                for p in r[1]:
                    x = select(x, p)
                return x
            x = self.ev(o if o is not None else n["a"][0], s, depth + 1)
            if op == "[]" and "map" in (n.get("c") or "").lower():
                x = select(x, "v")
            return x
        if op == "<<":
            return self.ev(o if o is not None else n["a"][0], s, depth + 1)
        if nm in ("ref", "cref", "move", "forward") and len(n["a"]) == 1:
            return self.ev(n["a"][0], s, depth + 1)
        if nm in ("make_pair", "map_list_of") and len(n["a"]) == 2:
            return slot(self.ev(n["a"][0], s, depth + 1), "k") | slot(self.ev(n["a"][1], s, depth + 1), "v")
        ts = [t for t in P.targets(f, n) if not is_fake(t)]
        if ts:
            r = frozenset()
            for t in ts:
                r |= self.S.result(self, t, n, s, depth)
            return r
        # library code: its answer is made of what it is given
        if nm in TIME:
            return num()
        r = frozenset()
        if o is not None:
            r |= self.ev(o, s, depth + 1)
        for a in n["a"]:
            if texty(f.nodes[a].get("t")):
                r |= self.ev(a, s, depth + 1)
        if nm in self.S.sources or full in self.S.sources:
            r = raw(self.S.sources.get(nm) or self.S.sources.get(full))
        elif not r:
            r = num() if o is None and not any(texty(f.nodes[a].get("t")) for a in n["a"]) else raw(full)
        return r

    # ---- effects
    def put(self, d, s, i, x, strong=False):
        r = self.root(i)
        if r is None:
            return
        pl, sl = r
        for p in reversed(sl):
            x = slot(x, p)
        if strong and not sl and pl[0] in ("v", "this") and self.f.nodes[self.core(i)]["k"] in ("ref", "mem"):
            d[pl] = x
        else:
            d[pl] = self.read(pl, s) | x
        if pl[0] == "v":
            # through an iterator or reference the owner is changed
            q = self.f.vars[pl[1]]
            if "iter" in q["t"].lower() or "*" in q["t"] and "char" not in q["t"]:
                for j in q["inits"]:
                    r2 = self.root(j)
                    if r2 and r2[0] != pl:
                        d[r2[0]] = self.read(r2[0], (frozenset(d.items()), s[1])) | d[pl]
                        self.wrote(r2[0], d[r2[0]])
        self.wrote(pl, d[pl])

    def wrote(self, pl, x):
        if pl[0] == "mem":
            self.S.add(("mem", pl[1]), x)
        elif pl[0] == "glob":
            self.S.add(("glob", pl[1]), x)

    def core(self, i):
        n = self.f.nodes[i]
        while n["k"] == "cast":
            i = n["x"]
            n = self.f.nodes[i]
        return i

    def drop(self, chk, i):
        r = self.root(i)
        if r is None or not chk:
            return chk
        pl = r[0]

        def about(t):
            if isinstance(t, tuple):
                if pl[0] == "v" and t == pl or pl[0] in ("this", "mem") and len(t) > 1 and t[0] == "f" and detmpl(t[1]) == pl[1]:
                    return True
                return any(about(x) for x in t)
            return False
        return frozenset(c for c in chk if not about(c[0]))

    def whole(self, args):
        """the first two arguments are begin() and end() of one text"""
        rs = []
        for a, w in zip(args, ("begin", "end")):
            n = self.f.nodes[self.core(a)]
            if n["k"] == "ref" and n.get("dk") == "local" and n.get("d") in self.f.vars and len(self.f.vars[n["d"]]["inits"]) == 1 and not self.f.vars[n["d"]]["assigned"]:
                n = self.f.nodes[self.core(self.f.vars[n["d"]]["inits"][0])]
            while n["k"] == "ctor" and len(n["a"]) == 1:
                n = self.f.nodes[self.core(n["a"][0])]
            if n["k"] != "call" or short(self.P.callee(n) or "") not in (w, "c" + w) or n.get("o") is None:
                return False
            rs.append(self.root(n["o"]))
        return rs[0] is not None and rs[0] == rs[1]

    def elem(self, s, e, b):
        f, P = self.f, self.P
        if isinstance(e, dict):
            if e.get("e") == "init" and e.get("n") and e.get("x") is not None:
                d = dict(s[0])
                t = f.nodes[e["x"]].get("t")
                if texty(t):
                    d[("this", detmpl(e["n"]))] = self.ev(e["x"], s)
                return (frozenset(d.items()), s[1])
            return s
        n = f.nodes[e]
        k = n["k"]
        d = dict(s[0])
        chk = s[1]
        if k == "decl":
            for q in n["ds"]:
                if q.get("ref") and (q.get("i") is None or self.root(q["i"]) is not None):
                    continue
                chk = frozenset(c for c in chk if ("v", q["d"]) not in flat(c[0]))
                d[("v", q["d"])] = self.evc(q["i"], s, q["t"]) if q.get("i") is not None and texty(q["t"]) else frozenset()
        elif k == "asg":
            if texty(f.nodes[n["x"]].get("t")):
                chk = self.drop(chk, n["x"])
                x = self.evc(n["r"], s, f.nodes[n["x"]].get("t"))
                self.put(d, s, n["x"], x, strong=n.get("op", "=") == "=")
        elif k == "iret":
            r = self.results.get(n.get("x"))
            if r is not None:
                q = f.vars[r]
                if not (q.get("ref") and bound(q) is not None and self.root(bound(q)) is not None):
                    d[("v", r)] = self.ev(n["x"], s)
        elif k == "ret":
            if n.get("x") is not None and texty(f.rt):
                self.rets |= self.evc(n["x"], s, f.rt)
        elif k == "call":
            chk = self.effects(d, s, e, n, chk)
        return (frozenset(d.items()), chk)

    def effects(self, d, s, e, n, chk):
        f, P = self.f, self.P
        nm = short(P.callee(n) or n.get("f") or "")
        full = detmpl(P.callee(n) or n.get("f") or "")
        o = n.get("o")
        op = n.get("op")
        args = list(n["a"])
        if op in ("=", "+=", "<<", ">>") and o is None and len(args) == 2:
            o, args = args[0], args[1:]
        if op == "=" and o is not None and args:
            if texty(f.nodes[o].get("t")):
                chk = self.drop(chk, o)
                self.put(d, s, o, self.ev(args[0], s), strong=True)
            return chk
        if op in ("+=", "<<") and o is not None:
            x = self.narrowed(e, args[0], self.ev(args[0], s)) if args else frozenset()
            self.S.streamed(self, e, o, args[0] if args else None, x, s)
            chk = self.drop(chk, o) if op == "+=" else chk
            self.put(d, s, o, x)
            return chk
        if op == ">>" and o is not None and args:
            chk = self.drop(chk, args[0])
            self.put(d, s, args[0], self.ev(o, s), strong=True)
            return chk
        if op == "[]" and o is not None and "map" in (n.get("c") or "").lower() and args:
            self.put(d, s, o, slot(self.ev(args[0], s), "k"))
            return chk
        if op and op not in ("()",):
            return chk
        ts = [t for t in P.targets(f, n) if not is_fake(t)]
        if not ts:
            if full in ("std::transform", "transform") and len(args) == 4:
                r = self.root(args[2])
                m = ALL
                fn = f.nodes[self.core(args[3])]
                for g in P.funcs.values():
                    if fn["k"] in ("fn", "un") and (fn.get("u") == g.u or fn["k"] == "un" and f.nodes[self.core(fn["x"])].get("u") == g.u):
                        m = char_outputs(P, g)
                if fn.get("n") in ("tolower", "toupper", "std::tolower"):
                    m = None
                if m is not None and not self.whole(args):
                    m = ALL
                if r:
                    x = self.ev(args[0], s)
                    if m is None:
                        x = frozenset((a, lower(b), c, sl) for a, b, c, sl in x)
                    else:
                        x = frozenset((a, m, c - {"checked"} if m == ALL else c | {"mapped"}, sl) for a, b, c, sl in x)
                    d[r[0]] = x if not r[1] else self.read(r[0], s) | x
                    chk = self.drop(chk, args[2])
                return chk
            if full in ("std::replace", "replace") and len(args) == 4 and o is None:
                r = self.root(args[0])
                a, c = f.nodes[self.core(args[2])].get("cv"), f.nodes[self.core(args[3])].get("cv")
                if r and a is not None and self.whole(args):
                    x = self.read(r[0], s)
                    for p in r[1]:
                        x = select(x, p)
                    x = frozenset((oo, (m & ~mask([a])) | (mask([c]) if m >> (a & 255) & 1 else 0) if c is not None else ALL, mk | {"replaced", ("rep", a, c)}, sl) for oo, m, mk, sl in x)
                    d[r[0]] = x
                    chk = self.drop(chk, args[0])
                return chk
            if o is not None and (nm in ADD):
                x = frozenset()
                for a in args:
                    if texty(f.nodes[a].get("t")):
                        x |= self.narrowed(e, a, self.ev(a, s))
                if nm == "write":
                    self.S.streamed(self, e, o, args[0] if args else None, x, s)
                chk = self.drop(chk, o)
                self.put(d, s, o, x, strong=nm == "assign")
                if nm == "swap" and args:
                    self.put(d, s, args[0], self.ev(o, s))
                return chk
            if o is not None and nm == "str" and args:
                self.put(d, s, o, self.ev(args[0], s))
                return chk
            if o is not None and nm == "clear":
                self.put(d, s, o, frozenset(), strong=True)
                return chk
            # library code that fills what it is given
            ins = frozenset()
            if o is not None and texty(f.nodes[o].get("t")):
                ins |= self.ev(o, s)
            outs = []
            for k, a in enumerate(args):
                pk = n.get("pk", [])[k] if k < len(n.get("pk", [])) else "v"
                if pk in ("r", "p") and texty(f.nodes[a].get("t")) and f.nodes[self.core(a)]["k"] not in ("fn", "str", "ctor", "call"):
                    outs.append(a)
                elif pk in ("r", "p") and f.nodes[self.core(a)]["k"] == "call" and self.root(a):
                    outs.append(a)
                elif texty(f.nodes[a].get("t")):
                    ins |= self.ev(a, s)
            if outs:
                src = self.S.sources.get(nm) or self.S.sources.get(full)
                x = raw(src) if src else num() if nm in TIME else ins or raw(full)
                for a in outs:
                    if "const" in f.nodes[a].get("t", "").split("*")[0] and "*" in f.nodes[a].get("t", ""):
                        continue
                    chk = self.drop(chk, a)
                    self.put(d, s, a, x)
            return chk
        for t in ts:
            for k, x in self.S.outs(self, t, n, s).items():
                if k < len(args):
                    chk = self.drop(chk, args[k])
                    self.put(d, s, args[k], x, strong=self.S.strong_out(t, k))
        return chk

    def excs(self, s, e):
        if isinstance(e, int) and self.f.nodes[e]["k"] in ("call", "ctor", "new", "throw") and self.f.nodes[e].get("y") is not None:
            return (("*", s),)
        return ()

    # ---- branches: checks of a name
    def edge(self, s, b, k, succ):
        f, P = self.f, self.P
        blk = f.blocks[b]
        tc = blk.get("tc")
        if b in self.rewritten and succ not in self.rewritten[b][0]:
            o, m = self.rewritten[b][1:]
            r = self.root(o)
            if r and not r[1]:
                d = dict(s[0])
                d[r[0]] = frozenset((a, m, c | {"mapped"}, sl) for a, _, c, sl in self.read(r[0], s))
                return (frozenset(d.items()), self.drop(s[1], o))
        if tc is None or len(blk["to"]) != 2:
            return s
        n = f.nodes[tc]
        neg = k == 1
        return self.assume(s, tc, neg, 0)

    def assume(self, s, i, neg, depth):
        f, P = self.f, self.P
        n = f.nodes[i]
        if depth > 10:
            return s
        if n["k"] == "cast":
            return self.assume(s, n["x"], neg, depth + 1)
        if n["k"] == "un" and n["op"] == "!":
            return self.assume(s, n["x"], not neg, depth + 1)
        if n["k"] == "bin" and n["op"] in ("&&", "||"):
            # this block decides the right operand; the left one is known to be true (&&) or false (||)
            return self.assume(s, n["r"], neg, depth + 1)
        if n["k"] == "ref" and n.get("d") in f.vars and n.get("dk") in ("local", "param"):
            q = f.vars[n["d"]]
            if len(q["inits"]) == 1 and not q["assigned"]:
                return self.assume(s, q["inits"][0], neg, depth + 1)
            return s
        if n["k"] == "call" and not n.get("op"):
            ts = P.targets(f, n)
            if not neg and len(ts) == 1 and n["a"] and n.get("t") == "bool":
                m = accepted(P, ts[0])
                if m != ALL:
                    return (s[0], s[1] | {(self.key(n["a"][0]), m, "checked")})
            return s
        xs = None
        if n["k"] == "bin" and n["op"] in ("==", "!=", ">"):
            xs = n["x"], n["r"], n["op"]
        elif n["k"] == "call" and n.get("op") in ("==", "!="):
            a = ([n["o"]] if n.get("o") is not None else []) + list(n["a"])
            if len(a) == 2:
                xs = a[0], a[1], n["op"]
        if xs:
            eq = (xs[2] == "==") != neg
            for p, q in ((xs[0], xs[1]), (xs[1], xs[0])):
                pi = self.core(p)
                x = f.nodes[pi]
                while x["k"] == "ctor" and len(x["a"]) == 1:
                    pi = self.core(x["a"][0])
                    x = f.nodes[pi]
                if x["k"] == "ref" and x.get("dk") in ("local", "param") and x.get("d") in f.vars and len(f.vars[x["d"]]["inits"]) == 1:
                    pi = self.core(f.vars[x["d"]]["inits"][0])
                    x = f.nodes[pi]
                if x["k"] == "call" and x.get("o") is not None and x["a"]:
                    nm = short(P.callee(x) or "")
                    qn = f.nodes[self.core(q)]
                    while qn["k"] == "ctor" and len(qn["a"]) == 1:
                        qn = f.nodes[self.core(qn["a"][0])]
                    isend = qn["k"] == "call" and short(P.callee(qn) or "") in ("end", "cend")
                    r = self.root(x["o"])
                    if nm == "find" and isend and not eq and r:
                        return (s[0], s[1] | {(self.key(x["a"][0]), ALL, ("in", r[0][1]))})
                    if nm == "count" and qn.get("cv") == 0 and not eq and r:
                        return (s[0], s[1] | {(self.key(x["a"][0]), ALL, ("in", r[0][1]))})
                if eq and f.nodes[self.core(q)]["k"] == "str":
                    v = f.nodes[self.core(q)]["v"]
                    return (s[0], s[1] | {(self.key(p), mask(v.encode("latin-1", "replace")), ("is", v))})
        return s


def compose(m, mk, m2):
    """bytes left when a value with bytes m2 has gone through what the marks mk record (m: the same starting from any byte)"""
    if "mapped" in mk:
        return m
    reps = [x for x in mk if isinstance(x, tuple) and x[0] == "rep"]
    if len(reps) > 1 or reps and reps[0][2] is None:
        return m
    for _, a, c in reps:
        if m2 >> (a & 255) & 1:
            m2 = m2 & ~mask([a]) | mask([c])
    return m & m2


def flat(t):
    r = []
    st = [t]
    while st:
        x = st.pop()
        if isinstance(x, tuple):
            r.append(x)
            st.extend(x)
    return r


def lower(m):
    r = 0
    for c in members(m):
        r |= 1 << (ord(chr(c).lower()) if c < 128 else c)
    return r


class Strings:
    def __init__(self, P, sources=None, sink=None, skip=None, escapes_of=()):
        self.P = P
        self.sources = sources or {}
        self.sink = sink
        self.skip = skip or (lambda f: False)
        self.store = {}         # ("mem"|"glob"|..., name) -> parts
        self.sums = {}          # u -> (rets, outs)
        self.busy = set()
        self.flows = {}
        self._special = {}
        self.bound = {}         # u -> parameters filled in by whoever invokes the bound callable
        self.args = {}          # (u, k) -> parts of the arguments passed
        self.need = mask(b'"\\')
        self.run()

    def add(self, key, x):
        self.store[key] = self.store.get(key, frozenset()) | x

    def run(self):
        P = self.P
        for v in P.roots():
            if self.skip(v):
                continue
            self.flow(v)
        for f in P.funcs.values():
            if f.u not in self.flows and not self.skip(f):
                pass
        self.absorbed = set(u for F in self.flows.values() for u in getattr(F.f, "inlined", {}))
        self.bind()

    def roots(self):
        return [v for v in self.P.roots() if not self.skip(v)]

    def special(self, t):
        """validators and escaping functions stay calls: what they do is described by the characters they let through"""
        r = self._special.get(t.u)
        if r is None:
            r = False
            if t.params and "string" in t.params[0]["t"]:
                r = t.rt == "bool" and accepted(self.P, t) != ALL or "string" in t.rt and escapes(self.P, t, self.need)
            self._special[t.u] = r
        return r

    def flow(self, f):
        if f.u in self.flows:
            return self.flows[f.u]
        v = self.P.view(self.P.funcs[f.u], want=lambda t, v, n: self.P.helper(t) and not self.special(t), key="strprov")
        F = Prov(self, v)
        self.flows[f.u] = F
        F.run()
        F.done = True
        # what members hold afterwards
        ends = [F.exit_state] if F.exit_state is not None else []
        ends += [x for x in F.exc_exit.values()]
        for st in ends:
            for pl, x in st[0]:
                if pl[0] == "this":
                    self.add(("mem", pl[1]), frozenset(y for y in x if y[0][:2] != ("mem", pl[1])))
        return F

    # ---- calls
    def summary(self, t):
        if t.u in self.sums:
            return self.sums[t.u]
        if t.u in self.busy:
            return (frozenset(), {})
        self.busy.add(t.u)
        F = self.flow(t)
        outs = {}
        if not getattr(F, "done", False):
            self.busy.discard(t.u)
            return (frozenset(), {})
        st = F.exit_state
        if st is not None:
            d = dict(st[0])
            for k, q in enumerate(F.f.params):
                if "&" in q["t"] and not q["t"].startswith("const ") or "*" in q["t"] and not q["t"].startswith("const "):
                    x = d.get(("v", q.get("d")))
                    if x is not None and texty(q["t"]):
                        if x != frozenset([(("param", t.u, k, ""), ALL, frozenset(), "")]):
                            outs[k] = x
        self.busy.discard(t.u)
        r = (F.rets, outs)
        if getattr(F, "done", False):
            self.sums[t.u] = r
        return r

    def subst(self, F, t, n, parts, s, depth=0):
        r = set()
        for o, m, mk, sl in parts:
            if o[0] == "param" and o[1] == t.u:
                k = o[2]
                if k < len(n["a"]):
                    x = F.ev(n["a"][k], s, depth + 1)
                    for p in o[3]:
                        x = select(x, p)
                    for o2, m2, mk2, sl2 in x:
                        mm = compose(m, mk, m2)
                        r.add((o2, mm, mk | mk2, sl + sl2))
                continue
            r.add((o, m, mk, sl))
        return frozenset(r)

    def result(self, F, t, n, s, depth):
        if t.cls and t.cls.startswith("Json::") and "Writer" in t.cls and t.f.endswith("::write"):
            x = F.ev(n["a"][0], s, depth + 1) if n["a"] else frozenset()
            return frozenset((o, m, mk | {("esc", t.f)}, sl) for o, m, mk, sl in x)
        if escapes(self.P, t, self.need):
            x = F.ev(n["a"][0], s, depth + 1) if n["a"] else frozenset()
            return frozenset((o, m, mk | {("esc", t.f)}, sl) for o, m, mk, sl in x)
        gf = self.P.getter_field(t) if hasattr(self.P, "getter_field") else None
        rets, outs = self.summary(t)
        return self.subst(F, t, n, rets, s, depth)

    def outs(self, F, t, n, s):
        rets, outs = self.summary(t)
        return {k: self.subst(F, t, n, x, s) for k, x in outs.items()}

    def strong_out(self, t, k):
        """the callee sets the argument on every path from what it is made of"""
        x = self.summary(t)[1].get(k)
        return x is not None

    def streamed(self, F, e, o, a, x, s):
        if self.sink:
            self.sink(F, e, o, a, x, s)

    # ---- resolution of symbolic origins
    def bind(self):
        """arguments passed to every parameter (calls, bound callables, constructors)"""
        P = self.P
        for F in list(self.flows.values()):
            v = F.f

            def cb(s, e, b, F=F, v=v):
                if isinstance(e, dict):
                    if e.get("e") == "init" and e.get("x") is not None:
                        self.pass_args(F, e["x"], s)
                    return
                n = v.nodes[e]
                if n["k"] in ("call", "ctor", "new"):
                    self.pass_args(F, e, s)
            F.visit(cb)

    def pass_args(self, F, i, s):
        P, v = self.P, F.f
        n = v.nodes[i]
        if n["k"] == "new":
            return
        if n["k"] == "call":
            nm = short(P.callee(n) or "")
            if nm in ("bind", "bind_"):
                c = P.closure(v, i)
                if c:
                    for t in P.targets(v, v.nodes[c[0]]):
                        off = 1 if t.cls and not t.static else 0
                        for k, a in enumerate(c[1][off:]):
                            self.give(F, t, k, a, s)
                        self.bound.setdefault(t.u, set()).update(range(len(c[1]) - off, len(t.params)))
                return
            ts = P.targets(v, n)
            if not ts and nm in ("make_shared", "allocate_shared"):
                t = n.get("t", "")
                c = detmpl(t[t.index("<") + 1:t.rindex(">")].replace("class ", "").strip()) if "<" in t else None
                ts = [g for g in P.funcs.values() if g.is_ctor and g.cls == c and len(g.params) >= len(n["a"])]
            if not ts and not n.get("u"):
                # a callable object is invoked: any callable with as many open parameters
                pass
        else:
            ts = P.targets(v, n)
        for t in ts:
            for k, a in enumerate(n["a"]):
                self.give(F, t, k, a, s)

    def give(self, F, t, k, a, s):
        if k >= len(t.params) or not isinstance(a, int) or not texty(t.params[k]["t"]):
            return
        x = F.ev(a, s)
        key = (t.u, k)
        self.args[key] = self.args.get(key, frozenset()) | x
        for b in self.P.all_bases(t.cls) if t.cls else ():
            pass

    def resolve(self, parts, seen=None):
        """parts with concrete origins only"""
        out = set()
        st = [(p, frozenset()) for p in parts]
        done = set()
        while st:
            (o, m, mk, sl), sn = st.pop()
            if (o, m, mk, sl) in done:
                continue
            done.add((o, m, mk, sl))
            if len(done) > 20000:
                out.add((("raw", "too many sources"), ALL, frozenset(), ""))
                break
            src = None
            if o[0] == "param":
                src = self.args.get((o[1], o[2]))
                if src is None and o[1] in self.absorbed:
                    continue        # only ever called where it is analysed in place
                t = self.P.funcs.get(o[1])
                if src is None and t is not None and not t.virt and not self.P.taken[t.u] and all(g.u == t.u for g, _ in self.P.callers[t.u]) and t.f != "main":
                    continue        # never called
                if o[2] in self.bound.get(o[1], ()):
                    out.add((("raw", "argument %s of callback %s" % (self.pname(o), t.f if t else o[1])), m, mk, sl))
                if src is None:
                    out.add((("raw", "parameter %s of %s" % (self.pname(o), self.P.funcs[o[1]].f if o[1] in self.P.funcs else o[1])), m, mk, sl))
                    continue
                sel = o[3]
            elif o[0] in ("mem", "glob"):
                src = self.store.get((o[0], o[1]))
                src = frozenset(y for y in src or () if y[0][:2] != o[:2])
                if not src:
                    out.add((("raw" if o[0] == "mem" else "unset", "%s" % o[1]), m, mk, sl))
                    continue
                sel = o[2]
            else:
                out.add((o, m, mk, sl))
                continue
            x = src
            for p in sel:
                x = select(x, p)
            for o2, m2, mk2, sl2 in x:
                st.append(((o2, compose(m, mk, m2), mk | mk2, sl + sl2), sn))
        return frozenset(out)

    def pname(self, o):
        f = self.P.funcs.get(o[1])
        return f.params[o[2]].get("n") if f and o[2] < len(f.params) else o[2]


def strings(P):
    """the program's text flows (computed once)"""
    S = getattr(P, "_strings", None)
    if S is None:
        S = P._strings = Strings(P, skip=lambda f: is_fake(f) or f.file.startswith(("tool", "perf", "ftest", "lib/jsoncpp")))
    return S
