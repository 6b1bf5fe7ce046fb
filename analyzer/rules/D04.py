"""What a function acquires (stream, directory, descriptor, mapping, heap object) it releases, keeps in an owner or hands on, on
every path out of it, those of exceptions included; an owner lets go of what it holds before it takes another and when it ends."""
from ista.model import detmpl, short
from ista.flow import Flow
from ista.throws import is_fake, throws
from ista.util import loops
from ista import throws as _t

ASSUME = _t.ASSUME + ["running out of memory is not looked at", "a call that is given a heap object (constructor, container, callback) owns it"]
#  acquiring call -> (what it gives, calls that release it, exceptions looked at?)
ACQ = {"fopen": ("stream", {"fclose", "pclose"}), "fopen64": ("stream", {"fclose"}), "fdopen": ("stream", {"fclose"}), "popen": ("stream", {"pclose"}), "tmpfile": ("stream", {"fclose"}),
       "opendir": ("directory", {"closedir"}), "fdopendir": ("directory", {"closedir"}),
       "open": ("descriptor", {"close"}), "open64": ("descriptor", {"close"}), "creat": ("descriptor", {"close"}), "mkstemp": ("descriptor", {"close"}), "socket": ("descriptor", {"close"}),
       "dup": ("descriptor", {"close"}), "accept": ("descriptor", {"close"}), "mmap": ("mapping", {"munmap"}), "mmap64": ("mapping", {"munmap"}),
       "malloc": ("block", {"free", "realloc"}), "calloc": ("block", {"free", "realloc"}), "strdup": ("block", {"free"}), "realpath": ("block", {"free"}),
       "istat::Mmap::open": ("descriptor", {"istat::Mmap::close", "istat::MmapImpl::close"}), "istat::MmapImpl::open": ("descriptor", {"istat::Mmap::close", "istat::MmapImpl::close"}),
       "istat::Mmap::map": ("mapping", {"istat::Mmap::unmap", "istat::MmapImpl::unmap"}), "istat::MmapImpl::map": ("mapping", {"istat::Mmap::unmap", "istat::MmapImpl::unmap"})}
WHAT = {"stream": "a stdio stream", "directory": "a directory handle", "descriptor": "a file descriptor", "mapping": "a mapped part of a file", "block": "a block of memory", "object": "an object"}


def skip(f):
    return is_fake(f) or f.implicit or f.file.startswith(("tool", "perf", "ftest", "/usr")) or "json" in f.file or f.file.startswith("splitter") or f.f.startswith("test_")


def acquire(P, f, i):
    n = f.nodes[i]
    if n["k"] == "new":
        return None if n.get("pl") else ("object", ())
    if n["k"] != "call":
        return None
    c = detmpl(P.callee(n) or "")
    if c in ACQ:
        return ACQ[c]
    if "::" not in c or c.startswith("::"):
        return ACQ.get(c.lstrip(":"))
    return None


def bare(f, i):
    """through casts, and through arithmetic that only marks a descriptor"""
    while True:
        n = f.nodes[i]
        if n["k"] == "cast":
            i = n["x"]
        elif n["k"] == "asg":
            i = n["r"]
        else:
            return i


def leaves(f, i):
    i = bare(f, i)
    n = f.nodes[i]
    if n["k"] == "cond":
        return leaves(f, n["x"]) + leaves(f, n["r"])
    return [i]


def selfowned(P):
    """classes that end their own objects (delete this)"""
    r = set()
    for f in P.funcs.values():
        if f.cls:
            for i, n in f.nodes.items():
                if n["k"] == "delete" and f.nodes[bare(f, n["x"])]["k"] == "this":
                    r.add(f.cls)
    return r


class Hold(Flow):
    """state: set of frozensets of (place, site) held; place = group of locals, or a member path"""

    def __init__(self, P, v, groups, sites, fields, T, begin=frozenset()):
        super().__init__(P, v)
        self.groups, self.sites, self.fields, self.T, self.begin = groups, sites, fields, T, begin
        self.over = {}
        self.loophead = {}
        for h, body, lat in loops(v):
            for b in body:
                for e in v.blocks[b]["s"]:
                    if isinstance(e, int):
                        for p in self.released(e):
                            if p and p[0] == "f":
                                self.loophead.setdefault(h, set()).add(p)
        self._x = {}

    def init(self):
        return frozenset([self.begin])

    def join(self, a, b):
        r = a | b
        return r if len(r) <= 64 else frozenset([frozenset().union(*r)])

    # ---- places
    def place(self, i, depth=0):
        v, P = self.f, self.P
        i = bare(v, i)
        n = v.nodes[i]
        if n["k"] == "ref" and n.get("d") in v.vars:
            g = self.groups.get(n["d"])
            if g is not None:
                return ("v", g)
            q = v.vars[n["d"]]
            if len(q["inits"]) == 1 and q["inits"][0] is not None and not q.get("param") and depth < 3:
                m = bare(v, q["inits"][0])
                if v.nodes[m]["k"] == "mem" or v.nodes[m]["k"] == "ref":
                    p = self.place(m, depth + 1)
                    return p if p and p[0] == "f" and p in self.fields else None
            return None
        if n["k"] == "mem":
            return member(P, v, i)
        return None

    def uses(self, i):
        """places an expression hands over: itself, or parts of it"""
        v = self.f
        r = set()
        for j in v.subtree(i):
            if v.nodes[j]["k"] in ("ref", "mem"):
                p = self.place(j)
                if p:
                    r.add(p)
        return r

    def released(self, e):
        v, P = self.f, self.P
        n = v.nodes[e]
        r = set()
        if n["k"] == "delete":
            p = self.place(n["x"])
            if p:
                r.add(p)
        elif n["k"] == "call" and n["a"]:
            c = detmpl(P.callee(n) or "").lstrip(":")
            for kind, rel in ACQ.values():
                if c in rel:
                    p = self.place(n["a"][0])
                    if p is None:
                        u = [q for q in self.uses(n["a"][0])]
                        p = u[0] if len(u) == 1 else None
                    if p:
                        r.add(p)
        return r

    def handed(self, e):
        """places whose content another owner takes at element e"""
        v, P = self.f, self.P
        n = v.nodes[e]
        r = set()
        if n["k"] == "ret" or n["k"] == "throw":
            if n.get("x") is not None:
                r |= set(p for p in self.uses(n["x"]) if p[0] == "v")
        elif n["k"] == "asg":
            m = v.nodes[n["x"]]
            if m["k"] != "ref" or m.get("d") not in v.vars:
                if self.place(n["x"]) is None or self.place(n["x"])[0] != "f" or self.place(n["x"]) not in self.fields:
                    r |= set(p for p in self.uses(n["r"]) if p[0] == "v" and self.place(n["r"]) == p)
        elif n["k"] in ("call", "ctor", "new"):
            c = P.callee(n) or ""
            plain = n["k"] == "call" and n.get("ext") and "::" not in c.lstrip(":")
            if not plain:
                for a in n.get("a", ()):
                    p = self.place(a)
                    if p and p[0] == "v" or p is None:
                        r |= set(q for q in self.uses(a) if q[0] == "v" and (p is not None or v.nodes[bare(v, a)]["k"] in ("ctor", "new", "ilist", "un")))
            if n["k"] == "call" and n.get("o") is not None:
                p = self.place(n["o"])
                if p and p[0] == "v" and any(t.cls in self.own for t in P.targets(v, n)):
                    r.add(p)
        elif n["k"] == "decl":
            for q in n["ds"]:
                if q.get("i") is not None and q.get("ref"):
                    pass
        return r

    # ---- transfer
    def drop(self, s, places):
        return frozenset(frozenset(x for x in a if x[0] not in places) for a in s) if places else s

    def elem(self, s, e, b):
        v = self.f
        if not isinstance(e, int):
            return s
        n = v.nodes[e]
        rel = self.released(e)
        if rel:
            return self.drop(s, rel)
        s = self.drop(s, self.handed(e))
        if e in self.sites:
            p, kind = self.sites[e]
            if p is not None:
                for a in s:
                    for (q, site) in a:
                        if q == p:
                            self.over[e] = site
                s = frozenset(a | {(p, e)} for a in s)
        elif n["k"] == "asg" and n["op"] == "=":
            p = self.place(n["x"])
            r = v.nodes[bare(v, n["r"])]
            if p and p[0] == "f" and p in self.fields:
                # a member takes over what a local holds
                q = self.place(n["r"])
                if q and q[0] == "v":
                    for a in s:
                        for (x, site) in a:
                            if x == p and any(y == q for y, _ in a):
                                self.over[e] = site
                    s = frozenset(frozenset((p, site) if x == q else (x, site) for x, site in a) for a in s)
        if n.get("noreturn"):
            return None
        return s

    def null_edge(self, c, taken):
        """places known to hold nothing when condition c is `taken`"""
        v = self.f
        c = bare(v, c)
        n = v.nodes[c]
        if n["k"] == "un" and n["op"] == "!":
            return self.null_edge(n["x"], not taken)
        if n["k"] == "bin":
            op = n["op"]
            if op == "&&" and taken or op == "||" and not taken:
                return self.null_edge(n["x"], taken) | self.null_edge(n["r"], taken)
            if op in ("&&", "||"):
                return set()
            p, q = self.place(n["x"]), self.place(n["r"])
            cx, cr = v.nodes[n["x"]].get("cv"), v.nodes[n["r"]].get("cv")
            if p is None and q is not None:
                p, cr = q, cx
                op = {"<": ">", ">": "<", "<=": ">=", ">=": "<="}.get(op, op)
            elif p is None:
                return set()
            if cr is None:
                m = v.nodes[bare(v, n["r"])]
                cr = m.get("cv") if m.get("cv") is not None else (0 if m["k"] in ("null",) else None)
            if cr is None:
                txt = self.P.render(v, n["r"])
                cr = 0 if txt in ("0", "NULL", "nullptr", "__null") else None
            if cr is None:
                return set()
            cr = int(cr)
            if not taken:
                op = {"==": "!=", "!=": "==", "<": ">=", ">=": "<", ">": "<=", "<=": ">"}.get(op)
            if op == "==" and cr in (0, -1) or op == "<" and cr <= 0 or op == "<=" and cr < 0:
                return {p}
            return set()
        if n["k"] == "ref" and n.get("d") in v.vars and not self.place(c):
            q = v.vars[n["d"]]
            if len(q["inits"]) == 1 and q["inits"][0] is not None and not q["addr"]:
                return self.null_edge(q["inits"][0], taken)
        p = self.place(c)
        return {p} if p and not taken else set()

    def edge(self, s, b, k, succ):
        v = self.f
        blk = v.blocks[b]
        c = blk.get("tc")
        if c is not None and len(blk["to"]) == 2 and blk.get("tk") != "SwitchStmt":
            ps = self.null_edge(c, k == 0)
            s = self.drop(s, ps)
            if ps:
                s = frozenset(frozenset(x for x in a if not (x[1] in self.sites and self.sites[x[1]][0] in ps)) for a in s)
        if succ in self.loophead:
            s = self.drop(s, self.loophead[succ])
        return s

    def excs(self, s, e):
        if not isinstance(e, int):
            return
        n = self.f.nodes[e]
        if n["k"] not in ("call", "ctor", "new", "throw") or self.released(e):
            return
        t = self._x.get(e)
        if t is None:
            t = sorted(x for x in self.T.node(self.f, e) if x != "std::bad_alloc")
            if n["k"] == "throw" and n.get("x") is None:
                t = ["std::exception"]
            self._x[e] = t
        if not t:
            return
        s2 = self.drop(s, self.handed(e))
        for x in t:
            yield x, s2


def member(P, v, i):
    """("f", "Cls::field") for a member"""
    n = v.nodes[i]
    if n["k"] != "mem":
        return None
    return ("f", detmpl(n["n"]))


def closure_groups(v):
    """locals connected by plain copies"""
    up = {}

    def find(x):
        while up.get(x, x) != x:
            x = up[x]
        return x
    for d, q in v.vars.items():
        for x in q["inits"]:
            if x is None:
                continue
            for j in leaves(v, x):
                n = v.nodes[j]
                if n["k"] == "ref" and n.get("d") in v.vars and not v.vars[n["d"]].get("param"):
                    up[find(d)] = find(n["d"])
    return {d: find(d) for d in v.vars}


def run(P, R):
    R.rule("released", "what is acquired is released, kept in an owner or handed on, on every path", 3)
    R.rule("owner", "an owner releases what it holds before it takes another, and when it ends or cannot be made", 2)
    T = throws(P)
    own = selfowned(P)
    Hold.own = own
    owners = {}
    seen = {}
    for v in P.roots():
        if skip(v):
            continue
        acq = {}
        for i in v.nodes:
            a = acquire(P, v, i)
            if a and i in v.elem_of:
                acq[i] = a
        if not acq:
            continue
        groups = closure_groups(v)
        sites, fields = {}, set()
        leaf = {}
        mine = set(groups[d] for d, q in v.vars.items() for x in q["inits"] if x is not None for j in leaves(v, x) if j in acq)
        groups = {d: g for d, g in groups.items() if g in mine}
        for d, q in v.vars.items():
            if d not in groups:
                continue
            for x in q["inits"]:
                if x is not None:
                    for j in leaves(v, x):
                        leaf[j] = ("v", groups[d])
        for i, n in v.nodes.items():
            if n["k"] == "asg" and v.nodes[n["x"]]["k"] == "mem":
                p = member(P, v, n["x"])
                for j in leaves(v, n["r"]):
                    m = v.nodes[j]
                    if j in acq and acq[j][0] not in ("object", "block"):
                        leaf[j] = p
                        fields.add(p)
                    elif m["k"] == "ref" and m.get("d") in v.vars and any(k in acq and acq[k][0] not in ("object", "block") for x in v.vars[m["d"]]["inits"] if x is not None for k in leaves(v, x)):
                        fields.add(p)
        for i, (kind, rel) in acq.items():
            sites[i] = (leaf.get(i), kind)
        for p in fields:
            owners.setdefault(p[1].rsplit("::", 1)[0], set()).add(p)
        heap_only = all(k == "object" for _, k in sites.values())
        if v.f == "main" and heap_only:
            continue
        begin = frozenset() if v.is_ctor or only_from_ctors(P, v) else frozenset((p, -1) for p in fields)
        H = Hold(P, v, groups, sites, fields, T, begin)
        H.run()
        ends = list(H.inb.get(v.exit) or ())
        exc = {}
        for t, s in H.exc_exit.items():
            exc[t] = s
        making = v.is_ctor or only_from_ctors(P, v)
        for i, (p, kind) in sorted(sites.items()):
            if v.f == "main" and kind == "object":
                continue
            n = v.nodes[i]
            key = n.get("_o") or (v.u, i)
            bad, msg = None, ""
            if p is None:
                bad = dropped(P, v, i, own)
                msg = "%s is acquired and nothing is left that could release it" % WHAT[kind]
            else:
                if i in H.over:
                    bad, msg = i, "%s is overwritten by the next one before it is released" % WHAT[kind]
                elif p[0] == "v" and any((p, i) in a for a in ends):
                    bad, msg = i, "%s is not released on some path that leaves the function" % WHAT[kind]
                elif kind != "block":
                    for t, s in sorted(exc.items()):
                        if (p[0] == "v" or making) and any((p, i) in a for a in s):
                            bad, msg = i, "%s is not released when %s is thrown on the way" % (WHAT[kind], t)
                # a member that took it over from a local
                if bad is None and p[0] == "v" and making:
                    for t, s in sorted(exc.items()):
                        if any(x == i and q[0] == "f" for a in s for q, x in a):
                            bad, msg = i, "%s is not released when %s is thrown while the object is made" % (WHAT[kind], t)
            r = seen.setdefault(key, [v, i, None, "", kind])
            if bad is not None and r[2] is None:
                r[:] = [v, i, bad, msg, kind]
        for e, site in H.over.items():
            if e not in sites:
                key = ("over", v.nodes[e].get("_o") or (v.u, e))
                seen[key] = [v, e, e, "what the member held is overwritten before it is released", "mapping"]
    for key, (v, i, bad, msg, kind) in sorted(seen.items(), key=lambda x: str(x[0])):
        R.ob("released", v.loc(i), P.render(v, i)[:80], bad is None, func=v.f, detail=kind, msg=msg)
    # ---- owners
    for cls, ps in sorted(owners.items()):
        outer = holder(P, cls)
        dt = [f for f in P.funcs.values() if f.is_dtor and f.cls == outer and not is_fake(f)]
        for p in sorted(ps):
            ok, where = False, outer
            for f in dt:
                v = P.view(f)
                H = Hold(P, v, {}, {}, {p}, T, frozenset([(p, -1)]))
                H.run()
                where = "%s:%s" % (f.file, f.line)
                ok = not any((p, -1) in a for a in H.inb.get(v.exit) or ()) and v.exit in H.inb
            R.ob("owner", where, "%s releases %s" % (outer, short(p[1])), ok, func=outer, detail=p[1], msg="%s may end without releasing what %s holds" % (outer, short(p[1])))
    # ---- heap objects deleted by their owner
    made = {}
    for f in P.funcs.values():
        if skip(f):
            continue
        for i, n in f.nodes.items():
            if n["k"] == "new" and n.get("nt"):
                made.setdefault(detmpl(n["nt"]), set()).add(f.f)
            elif n["k"] == "call" and short(P.callee(n) or "") in ("make_shared", "make_unique", "allocate_shared"):
                t = n.get("t", "")
                if "<" in t:
                    made.setdefault(detmpl(t[t.index("<") + 1:t.rindex(">")]).strip(), set()).add(f.f)
    got = {}
    for f in sorted(P.funcs.values(), key=lambda f: f.f):
        if skip(f):
            continue
        for x, g in kept(P, f):
            got.setdefault(g, (f, x))
    for g, (f, x) in sorted(got.items()):
        cls = g.rsplit("::", 1)[0]
        if cls not in P.classes or not ending(P, cls, made):
            continue
        ok = False
        for d in P.funcs.values():
            if d.is_dtor and d.cls == cls and not is_fake(d):
                v = P.view(d)
                ok = any(n["k"] == "delete" for n in v.nodes.values()) and any(n["k"] == "mem" and detmpl(n["n"]) == g for n in v.nodes.values())
        R.ob("owner", f.loc(x), "%s deletes what %s points to" % (cls, short(g)), ok, func=cls, detail=g, msg="an object of %s ends and what %s points to is never deleted" % (cls, short(g)))


def kept(P, f):
    """(node, member) of every new object a raw pointer member (or a container of them) keeps"""
    for i, n in f.nodes.items():
        if n["k"] == "asg" and n["op"] == "=" and f.nodes[n["x"]].get("t", "").endswith("*"):
            for j in leaves(f, n["r"]):
                if f.nodes[j]["k"] == "new" and not f.nodes[j].get("pl"):
                    m = [k for k in f.subtree(n["x"]) if f.nodes[k]["k"] == "mem"]
                    if m:
                        yield j, detmpl(f.nodes[m[0] if f.nodes[n["x"]]["k"] != "mem" else n["x"]]["n"])
    for blk in f.blocks.values():
        for e in blk["s"]:
            if isinstance(e, dict) and e.get("e") == "init" and e.get("x") is not None and e.get("n"):
                for j in leaves(f, e["x"]):
                    if f.nodes[j]["k"] == "new" and f.nodes[j].get("t", "").endswith("*"):
                        yield j, detmpl(e["n"])


def ending(P, cls, made):
    """are there objects of the class that end before the process does?"""
    if made.get(cls, set()) - {"main"}:
        return True
    for c, q in P.classes.items():
        if any(detmpl(x.get("t", "")) == cls or x.get("tc") == cls and "*" not in x.get("t", "") for x in q.get("fields", ())) and c != cls and ending(P, c, made):
            return True
    return False


def holder(P, cls):
    """the class an inner record belongs to (StatFile for StatFile::BucketPage)"""
    while cls in P.classes and not any(f.is_dtor and f.cls == cls and not f.implicit for f in P.funcs.values()) and "::" in cls and cls.rsplit("::", 1)[0] in P.classes:
        cls = cls.rsplit("::", 1)[0]
    return cls


def only_from_ctors(P, v, depth=0):
    cs = [c for c in P.callers.get(v.u, ()) if not is_fake(c[0])]
    return bool(cs) and depth < 4 and all(c[0].cls == v.cls and (c[0].is_ctor or only_from_ctors(P, c[0], depth + 1)) for c in cs)


def dropped(P, v, i, own):
    """is the acquired thing lost at once? (used neither as an argument, a result, a member nor the object of a self-owned call)"""
    for blk in v.blocks.values():
        for e in blk["s"]:
            if isinstance(e, dict) and e.get("e") == "init" and e.get("x") is not None and i in leaves(v, e["x"]):
                return None
    st, seen = [i], set()
    while st:
        j = st.pop()
        for p in v.parents.get(j) or ():
            if p in seen:
                continue
            seen.add(p)
            n = v.nodes[p]
            if n["k"] in ("cast", "cond", "mem", "memfn", "un"):
                st.append(p)
            elif n["k"] == "call" and n.get("o") == j:
                if n.get("op") == "->":
                    st.append(p)
                elif any(t.cls in own for t in P.targets(v, n)) or not P.targets(v, n):
                    return None
            elif n["k"] in ("call", "ctor", "new", "ret", "iret", "asg", "decl", "ilist", "throw", "bin"):
                return None
    return i
