"""I07: metric names and labels in the Prometheus exposition are sanitised."""
from ista.model import detmpl, short
from ista.flow import Flow
from ista.chars import members, mask, char_outputs, chars, ALL
from ista.strprov import strings, LIT, NUM
from rules.I04 import response

ASSUME = [
    "text that no program source produces (options, literals, numbers) is the operator's; every other text is taken to be a client's",
    "an exposition is written from the fields of class PromMetric: its string fields are metric names, the keys of its containers are label names",
    "names sent by the daemon itself (literals) consist of the characters used in the source",
]

CLS = "PromMetric"
NAME = mask(b"abcdefghijklmnopqrstuvwxyzABCDEFGHIJKLMNOPQRSTUVWXYZ0123456789_:")
LABEL = NAME & ~mask(b":")
DIGITS = mask(b"0123456789")
EMPTY = 1 << 256
ANY = ALL | EMPTY


class First(Flow):
    """which character a text can begin with (or that it is empty)"""
    exceptions = True

    def __init__(self, P, prov):
        super().__init__(P, prov.f)
        self.prov = prov
        self.C = chars(P, prov.f)

    def init(self):
        return frozenset()

    def join(self, a, b):
        a, b = dict(a), dict(b)
        return frozenset((p, a[p] | b[p]) for p in a if p in b and a[p] | b[p] != ANY)

    def root(self, i):
        r = self.prov.root(i) if i is not None else None
        return r[0] if r and not r[1] else None

    def core(self, i):
        n = self.f.nodes[i]
        while n["k"] == "cast" or n["k"] == "ctor" and len([a for a in n["a"] if "allocator" not in self.f.nodes[a].get("t", "")]) == 1 and "string" in n.get("t", "string"):
            i = n["x"] if n["k"] == "cast" else n["a"][0]
            n = self.f.nodes[i]
        return i

    def first(self, i, s):
        """set of first characters of a value"""
        i = self.core(i)
        n = self.f.nodes[i]
        if n["k"] == "str":
            return mask(n["v"].encode("latin-1", "replace")[:1]) if n["v"] else EMPTY
        if isinstance(n.get("cv"), int):
            return mask([n["cv"]])
        if n["k"] == "ctor" and not n["a"]:
            return EMPTY
        if n["k"] in ("ref", "mem") or n["k"] == "un" and n["op"] == "*" or n["k"] == "call" and n.get("op") == "*":
            p = self.root(i)
            return dict(s).get(p, ANY) if p else ANY
        if n["k"] == "call" and n.get("op") == "+":
            xs = ([n["o"]] if n.get("o") is not None else []) + list(n["a"])
            m = self.first(xs[0], s)
            if m & EMPTY:
                m = m & ~EMPTY | self.first(xs[1], s)
            return m
        if n["k"] == "cond":
            m = 0
            for x, k in ((n["x"], 0), (n["r"], 1)):
                t = self.given(s, n["c"], k)
                m |= self.first(x, t) if t is not None else 0
            return m
        return ANY

    def set(self, s, p, m):
        d = dict(s)
        d[p] = m
        return frozenset(d.items())

    def elem(self, s, e, b):
        f, P = self.f, self.P
        if isinstance(e, dict):
            if e.get("e") == "init" and e.get("n") and e.get("x") is not None:
                return self.set(s, ("this", detmpl(e["n"])), self.first(e["x"], s))
            return s
        n = f.nodes[e]
        if n["k"] == "decl":
            for q in n["ds"]:
                if not q.get("ref"):
                    s = self.set(s, ("v", q["d"]), self.first(q["i"], s) if q.get("i") is not None else EMPTY)
            return s
        if n["k"] == "asg":
            r = self.prov.root(n["x"])
            if r:
                x = f.nodes[self.core(n["x"])]
                if n.get("op", "=") == "=" and not r[1] and x["k"] in ("ref", "mem"):
                    return self.set(s, r[0], self.first(n["r"], s))
                return self.set(s, r[0], ANY)
            return s
        if n["k"] != "call":
            return s
        nm = short(P.callee(n) or n.get("f") or "")
        full = detmpl(P.callee(n) or n.get("f") or "")
        o, args, op = n.get("o"), list(n["a"]), n.get("op")
        if op in ("=", "+=") and o is None and len(args) == 2:
            o, args = args[0], args[1:]
        if op == "=":
            p = self.root(o)
            return self.set(s, p, self.first(args[0], s)) if p else s
        if op == "+=" or nm in ("push_back", "append") and len(args) == 1:
            p = self.root(o)
            if p:
                m = dict(s).get(p, ANY)
                return self.set(s, p, m & ~EMPTY | self.first(args[0], s) if m & EMPTY else m)
            return s
        if full in ("std::transform", "transform") and len(args) == 4:
            p = self.root(args[2])
            if p:
                m = dict(s).get(p, ANY)
                fn = f.nodes[self.prov.core(args[3])]
                u = fn.get("u") or (f.nodes[self.prov.core(fn["x"])].get("u") if fn["k"] == "un" else None)
                g = P.funcs.get(u)
                return self.set(s, p, (char_outputs(P, g) if g else ALL) | m & EMPTY)
            return s
        if nm == "insert" and o is not None and len(args) in (2, 3):
            p = self.root(o)
            if p:
                a = f.nodes[self.prov.core(args[0])]
                while a["k"] == "ctor" and len(a["a"]) == 1:
                    a = f.nodes[self.prov.core(a["a"][0])]
                at0 = a.get("cv") == 0 or a["k"] == "call" and short(P.callee(a) or "") in ("begin", "cbegin")
                if at0:
                    if len(args) == 3:
                        cnt = f.nodes[self.prov.core(args[1])].get("cv")
                        return self.set(s, p, self.first(args[2], s) if cnt and cnt > 0 else ANY)
                    m = self.first(args[1], s)
                    if m & EMPTY:
                        m = m & ~EMPTY | dict(s).get(p, ANY)
                    return self.set(s, p, m)
                return self.set(s, p, dict(s).get(p, ANY) | (self.first(args[-1], s) & ~EMPTY))
            return s
        if nm in ("clear",) and o is not None:
            p = self.root(o)
            return self.set(s, p, EMPTY) if p else s
        # anything else that may change a text
        if o is not None and not n.get("const") and nm not in ("begin", "end", "size", "empty", "c_str", "length", "find", "operator[]", "at", "front", "back", "substr", "str", "operator*", "operator->", "data", "get") and op not in ("*", "->", "[]", "<<", "==", "!=", "++", "--", "+"):
            p = self.root(o)
            if p:
                s = self.set(s, p, ANY)
        for k, a in enumerate(args):
            if k < len(n.get("pk", [])) and n["pk"][k] in ("r", "p") and op not in ("<<", "==", "!=", "+"):
                p = self.root(a)
                if p:
                    s = self.set(s, p, ANY)
        return s

    def excs(self, s, e):
        if isinstance(e, int) and self.f.nodes[e]["k"] in ("call", "ctor", "new", "throw") and self.f.nodes[e].get("y") is not None:
            return (("*", s),)
        return ()

    # conditions are evaluated for every possible beginning
    def val(self, i, p, c):
        f = self.f
        n = f.nodes[i]
        if isinstance(n.get("cv"), (int, bool)):
            return int(n["cv"])
        k = n["k"]
        if k == "cast":
            return self.val(n["x"], p, c)
        if k == "ref" and n.get("dk") == "local" and n.get("d") in f.vars:
            q = f.vars[n["d"]]
            if len(q["inits"]) == 1 and not q["assigned"] and not q["addr"]:
                return self.val(q["inits"][0], p, c)
            return None
        if k == "un" and n["op"] == "!":
            v = self.val(n["x"], p, c)
            return None if v is None else int(not v)
        if k == "un" and n["op"] == "*" or k == "call" and n.get("op") == "*":
            x = f.nodes[self.prov.core(n["x"] if k == "un" else n["o"] if n.get("o") is not None else n["a"][0])]
            if x["k"] == "call" and short(self.P.callee(x) or "") in ("begin", "cbegin", "c_str", "data") and self.root(x.get("o")) == p:
                return self.char(c)
            return None
        if k == "idx" or k == "call" and (n.get("op") == "[]" or short(self.P.callee(n) or "") in ("at", "front")):
            o = n.get("b") if k == "idx" else n.get("o")
            j = [n["i"]] if k == "idx" else n["a"]
            if self.root(o) == p and (not j or f.nodes[self.prov.core(j[0])].get("cv") == 0):
                return self.char(c)
            return None
        if k == "bin":
            a, b, op = self.val(n["x"], p, c), self.val(n["r"], p, c), n["op"]
            if op == "&&":
                return 0 if a == 0 or b == 0 else None if a is None or b is None else 1
            if op == "||":
                return 1 if a or b else None if a is None or b is None else 0
            if a is None or b is None:
                return None
            if a == "some":
                return {(">", 0): 1, ("!=", 0): 1, ("==", 0): 0, (">=", 1): 1, ("<", 1): 0, ("<=", 0): 0}.get((op, b))
            if b == "some":
                return {("<", 0): 1, ("!=", 0): 1, ("==", 0): 0, ("<=", 1): 1, (">", 1): 0, (">=", 0): 0}.get((op, a))
            return int({"<": a < b, ">": a > b, "<=": a <= b, ">=": a >= b, "==": a == b, "!=": a != b}[op]) if op in ("<", ">", "<=", ">=", "==", "!=") else None
        if k == "call":
            nm = short(self.P.callee(n) or n.get("f") or "")
            if n.get("o") is not None and nm in ("empty", "size", "length") and self.root(n["o"]) == p:
                return int(c is None) if nm == "empty" else 0 if c is None else "some"
            from ista.chars import CT
            if nm in CT and n["a"]:
                v = self.val(n["a"][0], p, c)
                return None if v is None or v == "some" else int((v & 255) in CT[nm])
            if n.get("op") in ("==", "!="):
                xs = ([n["o"]] if n.get("o") is not None else []) + list(n["a"])
                for a, b in (xs, xs[::-1]):
                    if self.root(a) == p and f.nodes[self.core(b)]["k"] == "str" and not f.nodes[self.core(b)]["v"]:
                        return int((c is None) == (n["op"] == "=="))
        return None

    def char(self, c):
        return 0 if c is None else c - 256 if c > 127 else c

    def edge(self, s, b, k, succ):
        blk = self.f.blocks[b]
        rw = self.prov.rewritten
        if b in rw and succ not in rw[b][0]:
            p = self.root(rw[b][1])
            if p:
                return self.set(s, p, rw[b][2] | dict(s).get(p, ANY) & EMPTY)
        tc = blk.get("tc")
        if tc is None or len(blk["to"]) != 2 or blk.get("tk") == "SwitchStmt":
            return s
        return self.given(s, tc, k)

    def given(self, s, tc, k):
        ps = set(self.root(j) for j in self.f.subtree(tc))
        for j in list(self.f.subtree(tc)):
            n = self.f.nodes[j]
            if n["k"] == "ref" and n.get("dk") == "local" and n.get("d") in self.f.vars and len(self.f.vars[n["d"]]["inits"]) == 1:
                ps |= set(self.root(x) for x in self.f.subtree(self.f.vars[n["d"]]["inits"][0]))
        for p in ps:
            if p is None:
                continue
            m = dict(s).get(p, ANY)
            out = 0
            for c in members(m) + ([None] if m & EMPTY else []):
                v = self.val(tc, p, c)
                if v is None or v == "some" or bool(v) == (k == 0):
                    out |= EMPTY if c is None else 1 << c
            if out == 0:
                return None
            if out != ANY:
                s = self.set(s, p, out)
        return s


def run(P, R):
    R.rule("emitted", "client text written to an exposition went through the name mapping (only characters Prometheus allows) or through an escaping function (label values)", need=2)
    R.rule("label", "a label name is an entry of the fixed list of label names", need=1)
    R.rule("begins", "a metric name is not empty and does not begin with a digit", need=1)
    S = strings(P)
    c = P.classes.get(CLS)
    names = [detmpl(x["n"]) for x in c["fields"] if "basic_string" in x["t"] and "<std::basic_string" not in x["t"].split("basic_string", 1)[0] + "<" and not any(w in x["t"] for w in ("map", "list", "vector", "set"))] if c else []
    tags = [detmpl(x["n"]) for x in c["fields"] if any(w in x["t"] for w in ("map", "list", "vector", "PromTag"))] if c else []
    seen = {}
    for v in S.roots():
        F = S.flows.get(v.u)
        if F is None:
            continue

        def cb(s, e, b, F=F):
            f = F.f
            if not isinstance(e, int) or f.nodes[e]["k"] != "call":
                return
            n = f.nodes[e]
            nm = short(P.callee(n) or n.get("f") or "")
            o, a = n.get("o"), list(n["a"])
            if n.get("op") == "<<" and o is None and len(a) == 2:
                o, a = a[0], a[1:]
            if o is None or not a or n.get("op") != "<<" and nm not in ("write", "put", "append"):
                return
            if response(F, F.root(o)) is None:
                return
            x = F.ev(a[0], s)
            if any(p[0][0] == "mem" and p[0][1].startswith(CLS + "::") for p in x):
                seen.setdefault((f.u, e), (F, a[0], set()))[2].update(x)
        F.visit(cb)
    for (u, e), (F, a, parts) in sorted(seen.items(), key=lambda t: str(t[0])):
        f = F.f
        bad = []
        for o, m, mk, sl in S.resolve(frozenset(parts)):
            if o in (LIT, NUM) or o[0] == "unset" or not m & ~NAME or any(isinstance(k, tuple) and k[0] == "esc" for k in mk):
                continue
            bad.append(o)
        where = f.loc(e)
        R.ob("emitted", where, "what %s holds" % P.render(f, a)[:60], not bad, func=f.f, detail=P.render(f, a)[:60],
             msg="%s at %s puts text from outside (%s) on the metrics endpoint that was neither mapped to the characters of a name nor escaped" % (P.render(f, a)[:60], where, ", ".join(sorted(set(str(o[1]) for o in bad)))[:200]))
    # label names
    from ista.strprov import select
    for t in tags:
        bad, n = [], 0
        for o, m, mk, sl in S.resolve(frozenset([(("mem", t, "k"), ALL, frozenset(), "")])):
            if o == LIT or o == NUM:
                continue
            n += 1
            lists = [k[1] for k in mk if isinstance(k, tuple) and k[0] == "in"]
            if not any(fixed(S, x) for x in lists):
                bad.append(o)
        if n or bad:
            R.ob("label", c["file"], "keys of %s" % t, not bad, func=CLS, detail="keys of %s" % short(t),
                 msg="the keys of %s (label names) can be text from outside (%s) that was not found in a fixed list of label names" % (t, ", ".join(sorted(set(str(o[1]) for o in bad)))[:200]))
    # first character of names
    for v in S.roots():
        F = S.flows.get(v.u)
        if F is None or not (v.cls == CLS or any(g.startswith("c:@S@" + CLS + "@") for g in getattr(v, "inlined", {}))):
            continue
        if not v.cls == CLS or v.implicit:
            continue
        W = First(P, F)
        W.run()
        if W.exit_state is None:
            continue
        d = dict(W.exit_state)
        written = set(pl[1] for pl, x in F.exit_state[0] if pl[0] == "this" and pl[1] in names) if F.exit_state else set()
        for fld in sorted(written):
            if v.is_ctor and v.params and "PromMetric" in v.params[0]["t"]:
                continue
            m = d.get(("this", fld), ANY)
            ok = not m & (DIGITS | EMPTY) and not m & ~NAME
            what = [] if ok else (["nothing"] if m & EMPTY else []) + (["a digit"] if m & DIGITS else []) + (["a character that is not allowed"] if m & ALL & ~NAME else [])
            R.ob("begins", "%s:%d" % (v.file, v.line), "%s after %s" % (fld, v.f), ok, func=v.f, detail=fld, msg="%s can begin with %s after %s" % (fld, ", ".join(what), v.f))
    R.note("%d functions analysed; %d writes of metric text" % (len(S.flows), len(seen)))


def fixed(S, x):
    """a list made of literals that are label names"""
    parts = S.store.get(("glob", x)) or S.store.get(("mem", x)) or ()
    gs = [g for g in S.P.globals.values() if g["n"] == x]
    if not gs or parts and not all(g.get("const") for g in gs):
        return False
    for g in gs:
        for n in g.get("nodes", {}).values():
            if n["k"] == "str" and (not n["v"] or mask(n["v"].encode()) & ~LABEL or n["v"][0].isdigit()):
                return False
    for o, m, mk, sl in S.resolve(frozenset(parts)):
        if o != LIT or m & ~LABEL:
            return False
    return True
