"""Program model over the extracted facts: functions with CFGs, classes, call graph, closures."""
import re
from collections import defaultdict
from . import build

GUARD_RE = re.compile(r"^boost::(lock_guard|unique_lock|scoped_lock|interprocess::scoped_lock)\b|^std::(lock_guard|unique_lock)\b|^boost::mutex::scoped_lock|^boost::recursive_mutex::scoped_lock")
SMART = ("boost::shared_ptr", "boost::scoped_ptr", "std::auto_ptr", "boost::intrusive_ptr", "std::shared_ptr",
         "std::unique_ptr", "boost::weak_ptr", "boost::scoped_array", "boost::shared_array")


def short(q):
    """Last component of a qualified name, template arguments removed."""
    q = re.sub(r"<[^<>]*>", "", q) if "<" in q else q
    while "<" in q and re.search(r"<[^<>]*>", q):
        q = re.sub(r"<[^<>]*>", "", q)
    return q.rsplit("::", 1)[-1]


def detmpl(q):
    while "<" in q and re.search(r"<[^<>]*>", q):
        q = re.sub(r"<[^<>]*>", "", q)
    return q


class Func:
    def __init__(self, d, tu):
        self.tu = tu
        self.u = d["u"]
        self.f = detmpl(d["f"])
        self.full = d["f"]
        self.name = d["n"]
        self.file = d["file"]
        self.line = d["l"]
        self.eline = d.get("el", d["l"])
        self.cls = detmpl(d.get("c", "")) if d.get("c") else None
        self.params = d["ps"]
        self.rt = d["rt"]
        self.virt = d.get("virt", False)
        self.static = d.get("static", False)
        self.const = d.get("const", False)
        self.ov = d.get("ov", [])
        self.is_ctor = d.get("ctor", False)
        self.is_dtor = d.get("dtor", False)
        self.internal = d.get("internal", False)
        self.access = d.get("acc")
        self.implicit = d.get("implicit", False)
        self.nodes = {int(k): v for k, v in d.get("nodes", {}).items()}
        self.tries = d.get("try", [])
        self.blocks = {b["id"]: b for b in d.get("b", [])}
        self.entry = d.get("entry")
        self.exit = d.get("exit")
        self.preds = defaultdict(list)
        for b in self.blocks.values():
            for s in b["to"]:
                if s is not None:
                    self.preds[s].append(b["id"])
        self._parents = None
        self._vars = None
        self._elem_of = None

    def __repr__(self):
        return "<%s>" % self.f

    def n(self, i):
        return self.nodes[i] if i is not None else None

    def loc(self, i=None):
        l = self.line
        fl = self.file
        if i is not None:
            n = i if isinstance(i, dict) else self.nodes[i]
            l = n.get("l", l)
            fl = n.get("_file", fl)
        return "%s:%d" % (fl, l)

    # ---- children
    def kids(self, i):
        n = self.nodes[i]
        r = []
        for k in ("o", "x", "b", "i", "c", "r", "fp", "arr"):
            v = n.get(k)
            if isinstance(v, int) and not isinstance(v, bool) and (k != "c" or n["k"] == "cond"):
                r.append(v)
        for v in n.get("a", []):
            if isinstance(v, int):
                r.append(v)
        for q in n.get("ds", []):
            if isinstance(q.get("i"), int):
                r.append(q["i"])
        return r

    def subtree(self, i):
        st = [i]
        seen = set()
        while st:
            x = st.pop()
            if x in seen or x is None:
                continue
            seen.add(x)
            yield x
            st.extend(self.kids(x))

    @property
    def parents(self):
        if self._parents is None:
            p = defaultdict(list)
            for i in self.nodes:
                for k in self.kids(i):
                    p[k].append(i)
            self._parents = p
        return self._parents

    def elems(self, b):
        return self.blocks[b]["s"]

    @property
    def elem_of(self):
        """node id -> (block, index) of the CFG element that evaluates it."""
        if self._elem_of is None:
            m = {}
            for b in self.blocks.values():
                for k, e in enumerate(b["s"]):
                    if isinstance(e, int):
                        m.setdefault(e, (b["id"], k))
            self._elem_of = m
        return self._elem_of

    # ---- variables
    @property
    def vars(self):
        """decl id -> dict(name,type,inits=[node],assigns=[node],decl)"""
        if self._vars is None:
            v = {}
            for p in self.params:
                v[p["d"]] = dict(n=p["n"], t=p["t"], tc=p["tc"], inits=[], param=True, assigned=0, addr=0, q=p)
            for i, n in self.nodes.items():
                if n["k"] == "decl":
                    for q in n["ds"]:
                        v[q["d"]] = dict(n=q["n"], t=q["t"], tc=q["tc"], inits=[], param=False, assigned=0, addr=0,
                                         q=q, ref=q.get("ref", False), node=i)
                        if "i" in q and q["i"] is not None:
                            v[q["d"]]["inits"].append(q["i"])
            bound = set(d for d, q in v.items() if q.get("ref") and q["inits"])     # assigning to a reference changes what it stands for
            for i, n in self.nodes.items():
                if n["k"] == "asg":
                    x = self.nodes.get(n["x"])
                    if x and x["k"] == "ref" and x.get("d") in v and x["d"] not in bound:
                        v[x["d"]]["assigned"] += 1
                        v[x["d"]]["inits"].append(n["r"])
                elif n["k"] == "call" and n.get("op") == "=" and n.get("o") is not None:
                    x = self.nodes.get(n["o"])
                    if x and x["k"] == "ref" and x.get("d") in v and x["d"] not in bound:
                        v[x["d"]]["assigned"] += 1
                        if n["a"]:
                            v[x["d"]]["inits"].append(n["a"][0])
                elif n["k"] == "un" and n["op"] in ("++", "--"):
                    x = self.nodes.get(n["x"])
                    if x and x["k"] == "ref" and x.get("d") in v and x["d"] not in bound:
                        v[x["d"]]["assigned"] += 1
                elif n["k"] == "un" and n["op"] == "&":
                    x = self.nodes.get(n["x"])
                    if x and x["k"] == "ref" and x.get("d") in v:
                        v[x["d"]]["addr"] += 1
            v.update(getattr(self, "extra_vars", {}))
            self._vars = v
        return self._vars


class Program:
    def __init__(self, scope="core"):
        raw, self.key, self.cached = build.load_raw(scope)
        self.scope = scope
        self.funcs = {}
        self.classes = {}
        self.globals = {}
        self.tus = sorted(raw)
        for tu in self.tus:
            d = raw[tu]
            for fd in d["functions"]:
                u = fd["u"]
                # internal-linkage or main() functions of different tools may collide
                key = u
                if key in self.funcs and fd["file"] == self.funcs[key].file and fd["l"] == self.funcs[key].line:
                    continue
                if key in self.funcs:
                    key = u + "@" + tu
                f = Func(fd, tu)
                f.u = key
                self.funcs[key] = f
            for c in d["classes"]:
                self.classes.setdefault(detmpl(c["n"]), c)
            for g in d["globals"]:
                self.globals.setdefault((g["file"], g["l"], g["n"]), g)
        self.by_name = defaultdict(list)
        for f in self.funcs.values():
            self.by_name[f.f].append(f)
        # virtual dispatch: usr -> overriders (transitively, ov lists are transitive)
        self.overriders = defaultdict(list)
        for f in self.funcs.values():
            for o in f.ov:
                self.overriders[o].append(f)
        # interface method usr -> classes' method names (for pure virtuals without body)
        self.method_name = {}
        for c in self.classes.values():
            for m in c["methods"]:
                self.method_name[m["u"]] = detmpl(c["n"]) + "::" + m["n"]
        self.bases = {}
        for n, c in self.classes.items():
            self.bases[n] = [detmpl(b) for b in c["bases"]]
        self._calls = None
        self._callers = None
        self._slots = None
        self._getter = {}

    # ---- views
    def view(self, f, want=None, depth=4, key=None):
        if not hasattr(self, "_inl"):
            from .inline import Inliner
            self._inl = Inliner(self)
        return self._inl.view(f, want, depth, key)

    def helper(self, f):
        if not hasattr(self, "_inl"):
            from .inline import Inliner
            self._inl = Inliner(self)
        return self._inl.helper(f)

    def roots(self):
        self.helper(next(iter(self.funcs.values())))
        return self._inl.roots()

    def contexts(self, f, i):
        self.helper(f)
        return self._inl.contexts(f, i)

    # ---- classes
    def all_bases(self, c):
        r, st = [], [c]
        while st:
            x = st.pop()
            for b in self.bases.get(x, []):
                if b not in r:
                    r.append(b)
                    st.append(b)
        return r

    def derives(self, c, base):
        return c == base or base in self.all_bases(c)

    def fields(self, cls):
        return self.classes[cls]["fields"] if cls in self.classes else []

    # ---- lookup
    def fn(self, name):
        return self.by_name.get(name, [])

    def targets(self, f, n):
        """Possible callees (with bodies) of call/ctor/fn node n."""
        u = n.get("u")
        if not u:
            return []
        r = []
        t = self.funcs.get(u + "@" + n.get("_tu", f.tu)) or self.funcs.get(u)
        if t:
            r.append(t)
        if n.get("virt"):
            for o in self.overriders.get(u, []):
                if o not in r:
                    r.append(o)
        return r

    def callee(self, n):
        return detmpl(n.get("f", ""))

    # ---- expression helpers
    def strip_smart(self, f, i):
        """Look through smart-pointer dereference / get() / address-of / deref / casts."""
        while i is not None:
            n = f.nodes[i]
            if n["k"] == "call" and n.get("o") is not None:
                nm = short(self.callee(n))
                if n.get("op") in ("->", "*") or nm in ("get", "operator->", "operator*") and detmpl(n.get("c", "")) in SMART \
                        or nm in ("shared_from_this",):
                    if nm == "shared_from_this":
                        return i
                    i = n["o"]
                    continue
            if n["k"] == "un" and n["op"] in ("*", "&"):
                i = n["x"]
                continue
            if n["k"] == "cast":
                i = n["x"]
                continue
            if n["k"] == "ctor" and n.get("a") and len(n["a"]) == 1 and (n.get("copy") or detmpl(n.get("c", "")) in SMART):
                i = n["a"][0]
                continue
            if n["k"] == "call" and short(self.callee(n)) in ("ref", "cref", "move") and len(n["a"]) == 1:
                i = n["a"][0]
                continue
            break
        return i

    def getter_field(self, t):
        """If function t only returns a field path of this, return that node's field name."""
        if t.u in self._getter:
            return self._getter[t.u]
        self._getter[t.u] = None
        rets = [n for n in t.nodes.values() if n["k"] == "ret" and n.get("x") is not None]
        if len(rets) == 1 and len(t.blocks) <= 4:
            self._getter[t.u] = self.path(t, rets[0]["x"])
            p = self._getter[t.u]
            if p is None or p[0] != "this":
                self._getter[t.u] = None
        return self._getter[t.u]

    def path(self, f, i, depth=0):
        """Canonical access path: tuple(root, comp, comp...).  root: 'this' | ('v',d) | ('g',name) | ('e',i)."""
        if i is None:
            return None
        if depth > 12:
            return (("e", i),)
        i = self.strip_smart(f, i)
        n = f.nodes[i]
        k = n["k"]
        if k == "this":
            return ("this",)
        if k == "ref":
            if n["dk"] in ("local", "param"):
                v = f.vars.get(n.get("d"))
                if v and not v["param"] and v["assigned"] == 0 and len(v["inits"]) == 1:
                    # references, and never-reassigned pointers/smart pointers, are aliases
                    t = v["t"]
                    if v.get("ref") or t.endswith("*") or t.endswith("&") or detmpl(t).split(" ")[0] in SMART or "*" in t:
                        p = self.path(f, v["inits"][0], depth + 1)
                        if p and not (isinstance(p[0], tuple) and p[0][0] == "e"):
                            return p
                return (("v", n.get("d")),)
            if n["dk"] == "global":
                return (("g", detmpl(n["n"])),)
            return (("g", n["n"]),)
        if k == "mem":
            b = self.path(f, n["b"], depth + 1)
            return b + (detmpl(n["n"]),)
        if k == "idx":
            return self.path(f, n["b"], depth + 1) + ("[]",)
        if k == "call":
            if n.get("op") == "[]" and n.get("o") is not None:
                return self.path(f, n["o"], depth + 1) + ("[]",)
            ts = self.targets(f, n) if not n.get("virt") else []
            if len(ts) == 1 and n.get("o") is not None:
                g = self.getter_field(ts[0])
                if g:
                    return self.path(f, n["o"], depth + 1) + g[1:]
            if n.get("o") is not None and not n.get("a") and short(self.callee(n)) in ("front", "back"):
                return self.path(f, n["o"], depth + 1) + ("[]",)
        return (("e", i),)

    def vpath(self, f, i, depth=0):
        """path of a value; never-reassigned locals stand for their initialiser; integer constants for themselves."""
        i = self.strip_smart(f, i)
        n = f.nodes[i]
        if "cv" in n:
            return (("c", n["cv"]),)
        if n["k"] == "ref" and n.get("dk") == "local" and depth < 6:
            v = f.vars.get(n.get("d"))
            if v and v["assigned"] == 0 and len(v["inits"]) == 1 and not v["addr"]:
                p = self.vpath(f, v["inits"][0], depth + 1)
                if p and not (isinstance(p[0], tuple) and p[0][0] == "e"):
                    return p
        return self.path(f, i)

    def pair_projection(self, f, p):
        """p ends in std::pair::first/second of a local initialised by a call: (callee, node of that component)."""
        if not p or p[-1] not in ("std::pair::first", "std::pair::second") or not isinstance(p[0], tuple):
            return None
        src = None
        if p[0][0] == "v":
            v = f.vars.get(p[0][1])
            if v and len(v["inits"]) == 1 and not v["param"]:
                src = v["inits"][0]
        elif p[0][0] == "e":
            src = p[0][1]
        for _ in range(6):
            if src is None:
                return None
            n = f.nodes[src]
            if n["k"] == "ctor" and len(n["a"]) == 1:
                src = n["a"][0]
            elif n["k"] == "cast":
                src = n["x"]
            else:
                break
        if n["k"] != "call":
            return None
        for t in self.targets(f, n):
            for m in t.nodes.values():
                if m["k"] == "ret" and m.get("x") is not None:
                    x = m["x"]
                    for _ in range(6):
                        c = t.nodes[x]
                        if c["k"] == "ctor" and len(c["a"]) == 1:
                            x = c["a"][0]
                        elif c["k"] == "cast":
                            x = c["x"]
                        else:
                            break
                    if c["k"] == "ctor" and len(c["a"]) == 2:
                        return t, c["a"][0 if p[-1].endswith("first") else 1]
        return None

    def pstr(self, f, p):
        if p is None:
            return "?"
        r = []
        for c in p:
            if isinstance(c, tuple):
                if c[0] == "v":
                    v = f.vars.get(c[1])
                    r.append(v["n"] if v else "?v%s" % c[1])
                elif c[0] == "g":
                    r.append(c[1])
                else:
                    r.append("<expr>")
            else:
                r.append(short(c) if "::" in c else c)
        return ".".join(r)

    def render(self, f, i, depth=0):
        """Readable rendering for diagnostics."""
        if i is None:
            return ""
        if depth > 6:
            return "..."
        n = f.nodes[i]
        k = n["k"]
        R = lambda x: self.render(f, x, depth + 1)
        if k == "this":
            return "this"
        if k == "ref":
            return n["n"]
        if k == "mem":
            return (R(n["b"]) + "." if f.nodes[n["b"]]["k"] != "this" else "") + short(n["n"])
        if k == "fn":
            return "&" + self.callee(n)
        if k == "call":
            o = R(n["o"]) + "." if n.get("o") is not None else ""
            if n.get("op") == "->":
                return R(n["o"])
            return o + short(self.callee(n)) + "(" + ",".join(R(x) for x in n["a"]) + ")"
        if k == "ctor":
            return short(n.get("c", "")) + "(" + ",".join(R(x) for x in n["a"]) + ")"
        if k in ("bin", "asg"):
            return R(n["x"]) + " " + n["op"] + " " + R(n["r"])
        if k == "un":
            return n["op"] + R(n["x"])
        if k == "int":
            return str(n.get("cv", "?"))
        if k == "str":
            return repr(n["v"])
        if k == "idx":
            return R(n["b"]) + "[" + R(n["i"]) + "]"
        if k == "cast":
            return R(n["x"])
        if k == "cond":
            return R(n["c"]) + "?" + R(n["x"]) + ":" + R(n["r"])
        return k

    # ---- closures (boost::bind)
    def closure(self, f, i, depth=0):
        """If node i evaluates to a bound callable, return (fn-node, bind args ids, node id) else None."""
        if i is None or depth > 10:
            return None
        n = f.nodes[i]
        k = n["k"]
        if k == "call" and self.callee(n) in ("boost::bind", "std::bind", "boost::_bi::bind", "std::tr1::bind", "boost::bind_"):
            if not n["a"]:
                return None
            t = self.closure_target(f, n["a"][0])
            if t is not None:
                return (t, n["a"][1:], i)
            return None
        if k == "ctor" and len(n.get("a", [])) >= 1:
            return self.closure(f, n["a"][0], depth + 1)
        if k == "cast":
            return self.closure(f, n["x"], depth + 1)
        if k == "call" and short(self.callee(n)) in ("wrap", "bind_executor", "protect", "move") and n["a"]:
            for a in reversed(n["a"]):      # default arguments may follow the callable
                r = self.closure(f, a, depth + 1)
                if r:
                    return r
            return None
        if k == "fn":
            return (i, [], i)
        if k == "ref" and n.get("dk") == "local":
            v = f.vars.get(n.get("d"))
            if v and len(v["inits"]) == 1:
                return self.closure(f, v["inits"][0], depth + 1)
        return None

    def closure_target(self, f, i):
        n = f.nodes[i]
        if n["k"] == "fn":
            return i
        if n["k"] == "cast":
            return self.closure_target(f, n["x"])
        if n["k"] == "un" and n["op"] == "&":
            return self.closure_target(f, n["x"])
        return None

    # ---- call graph
    def _build_calls(self):
        calls = defaultdict(list)     # func u -> [(node id, Func)]
        callers = defaultdict(list)   # func u -> [(caller Func, node id)]
        taken = defaultdict(list)     # func u -> [(Func, fn node id)]   address taken
        for f in self.funcs.values():
            for i, n in f.nodes.items():
                if n["k"] in ("call", "ctor", "new"):
                    for t in self.targets(f, n):
                        calls[f.u].append((i, t))
                        callers[t.u].append((f, i))
                elif n["k"] == "fn":
                    if not f.parents.get(i):
                        continue        # callee position of a direct call
                    for t in self.targets(f, n):
                        taken[t.u].append((f, i))
        self._calls, self._callers, self._taken = calls, callers, taken

    @property
    def calls(self):
        if self._calls is None:
            self._build_calls()
        return self._calls

    @property
    def callers(self):
        if self._callers is None:
            self._build_calls()
        return self._callers

    @property
    def taken(self):
        if self._calls is None:
            self._build_calls()
        return self._taken

    # ---- signals: field path -> slots
    @property
    def slots(self):
        """signal field name -> [(Func with connect, node, closure)]"""
        if self._slots is None:
            r = defaultdict(list)
            for f in self.funcs.values():
                for i, n in f.nodes.items():
                    if n["k"] == "call" and short(self.callee(n)) == "connect" and "signal" in n.get("c", ""):
                        p = self.path(f, n["o"])
                        c = None
                        for x in n["a"]:
                            c = c or self.closure(f, x)
                        r[p[-1] if isinstance(p[-1], str) else "?"].append((f, i, c))
            self._slots = r
        return self._slots

    def emissions(self, f, n):
        """If call n emits a boost signal, return the signal field name."""
        if n["k"] == "call" and n.get("op") == "()" and "signal" in n.get("c", "") and n.get("o") is not None:
            p = self.path(f, n["o"])
            return p[-1] if isinstance(p[-1], str) else "?"
        return None

    def signal_targets(self, f, n):
        s = self.emissions(f, n)
        if s is None:
            return []
        r = []
        for (cf, ci, clo) in self.slots.get(s, []):
            if clo:
                r.extend(self.targets(cf, cf.nodes[clo[0]]))
        return r

    # ---- reachability
    def reach(self, roots, signals=True, closures=False):
        seen, st = set(), [f.u for f in roots]
        while st:
            u = st.pop()
            if u in seen:
                continue
            seen.add(u)
            f = self.funcs[u]
            for (i, t) in self.calls[u]:
                st.append(t.u)
            if signals:
                for i, n in f.nodes.items():
                    for t in self.signal_targets(f, n):
                        st.append(t.u)
            if closures:
                for i, n in f.nodes.items():
                    if n["k"] == "fn":
                        for t in self.targets(f, n):
                            st.append(t.u)
        return seen
