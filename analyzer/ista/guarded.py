"""Guarded-state rules: every access under its lock; references stay inside the critical section; read-then-change in one section."""
from collections import defaultdict
from .model import detmpl, short, SMART
from .flow import Flow
from .locks import Locks

MUTATORS = {"insert", "erase", "push_back", "pop_back", "push_front", "pop_front", "clear", "swap", "assign", "resize",
            "reset", "append", "consume", "commit", "prepare", "splice", "merge", "sort", "reverse", "replace", "reserve",
            "operator=", "operator+=", "emplace", "update", "add", "read", "write", "flush", "sputn", "sgetn"}
BOTH = {"operator[]"}


def is_handle_type(t):
    t0 = t.strip()
    if "iterator" in t0 or "_List_node" in t0 or "_Rb_tree" in t0:
        return True
    d = detmpl(t0).replace("const ", "").strip()
    if any(d.startswith(s) for s in SMART):
        return t0.endswith("&")
    return t0.endswith("&") or t0.endswith("*")


class Private:
    """Is the object an expression lies in unshared: a by-value local, or a fresh allocation not yet published?"""

    def __init__(self, P):
        self.P = P
        self.memo = {}

    def receiver(self, f, i):
        n = f.nodes[i]
        if n["k"] != "call" or n.get("o") is None:
            return False
        t = f.nodes[n["o"]].get("t", "")
        return self.obj(f, n["o"], i)

    def obj(self, f, i, at=None, depth=0):
        """expression i is (or points to) an unshared object"""
        if i is None or depth > 20:
            return False
        P = self.P
        n = f.nodes[i]
        k = n["k"]
        if k == "mem":
            return self.obj(f, n["b"], at, depth + 1)
        if k == "idx":
            return self.obj(f, n["b"], at, depth + 1)
        if k == "cast":
            return self.obj(f, n["x"], at, depth + 1)
        if k == "un" and n["op"] in ("*", "&"):
            if n["op"] == "*" and not self.fresh_ptr(f, n["x"], at, depth):
                return False
            return n["op"] == "*" or self.obj(f, n["x"], at, depth + 1)
        if k == "call" and n.get("o") is not None:
            c = detmpl(n.get("c", ""))
            if n.get("op") in ("*", "->") or short(P.callee(n)) in ("get",):
                if c in SMART:
                    return self.fresh_ptr(f, n["o"], at, depth)
                return self.obj(f, n["o"], at, depth + 1)
            if n.get("op") in ("[]", "++", "--") or short(P.callee(n)) in ("begin", "end", "find", "front", "back", "at", "lower_bound"):
                return self.obj(f, n["o"], at, depth + 1)
            return False
        if k == "ctor" and n.get("a") and len(n["a"]) == 1:
            return self.obj(f, n["a"][0], at, depth + 1)
        if k == "ref" and n.get("dk") in ("local", "param"):
            v = f.vars.get(n.get("d"))
            if not v or v["q"].get("static"):
                return False
            t = v["t"]
            if v["param"]:
                if is_handle_type(t) or detmpl(t).split("<")[0] in SMART:
                    return self.param(f, n["d"], depth)
                return True
            if is_handle_type(t):
                if t.strip().endswith("*"):
                    return self.fresh_ptr(f, i, at, depth)
                return bool(v["inits"]) and all(self.obj(f, x, at, depth + 1) for x in v["inits"])
            if detmpl(t).replace("const ", "").split("<")[0].strip() in SMART:
                return self.fresh_ptr(f, i, at, depth)
            return True
        return False

    def param(self, f, d, depth):
        key = (f.u, d)
        if key in self.memo:
            return self.memo[key]
        self.memo[key] = False
        P = self.P
        idx = [q["d"] for q in f.params].index(d)
        if P.taken[f.u] or not P.callers[f.u]:
            return False
        r = True
        for (cf, ci) in P.callers[f.u]:
            a = cf.nodes[ci].get("a", [])
            if idx >= len(a):
                r = False
                break
            m = cf.nodes[a[idx]]
            if m.get("cv") == 0 or m["k"] == "cast" and cf.nodes[m["x"]].get("cv") == 0:
                continue
            if not (self.obj(cf, a[idx], ci, depth + 1) or self.fresh_ptr(cf, a[idx], ci, depth + 1)):
                r = False
                break
        self.memo[key] = r
        return r

    def fresh_ptr(self, f, i, at, depth=0):
        """pointer expression i holds an allocation made here and not published before node `at`"""
        if i is None or depth > 20:
            return False
        n = f.nodes[i]
        k = n["k"]
        if k == "new":
            return True
        if k in ("cast",):
            return self.fresh_ptr(f, n["x"], at, depth + 1)
        if k == "ctor" and n.get("a"):
            return self.fresh_ptr(f, n["a"][0], at, depth + 1)
        if k == "call":
            nm = short(self.P.callee(n))
            if nm in ("make_shared", "make_unique"):
                return True
            if n.get("o") is not None and (nm in ("get",) or n.get("op") in ("->", "*")) and detmpl(n.get("c", "")) in SMART:
                return self.fresh_ptr(f, n["o"], at, depth + 1)
            return False
        if k == "un" and n["op"] == "&":
            return self.obj(f, n["x"], at, depth + 1)
        if k == "ref" and n.get("dk") in ("local", "param"):
            v = f.vars.get(n.get("d"))
            if not v:
                return False
            if v["param"]:
                return self.param(f, n["d"], depth)
            if v["q"].get("static") or not v["inits"]:
                return False
            if not all(self.fresh_ptr(f, x, at, depth + 1) for x in v["inits"]):
                return False
            return not self.published(f, n["d"], at)
        return False

    def published(self, f, d, at):
        """may variable d have been copied away before node `at` executes?"""
        key = ("pub", f.u, d, at)
        if key in self.memo:
            return self.memo[key]
        self.memo[key] = False
        pubs = []
        for i, n in f.nodes.items():
            if n["k"] == "ref" and n.get("d") == d:
                for p in f.parents.get(i, []):
                    m = f.nodes[p]
                    if m["k"] == "call" and i in m.get("a", []):
                        pubs.append(p)
                    elif m["k"] == "ctor" and i in m.get("a", []):
                        pubs.append(p)
                    elif m["k"] == "asg" and m["r"] == i:
                        pubs.append(p)
                    elif m["k"] == "ret":
                        pass
        r = False
        if at is not None and pubs:
            r = any(self.may_precede(f, p, at) for p in pubs)
        self.memo[key] = r
        return r

    def may_precede(self, f, a, b):
        ea, eb = self.pos(f, a), self.pos(f, b)
        if ea is None or eb is None:
            return False
        if ea[0] == eb[0] and ea[1] < eb[1]:
            return True
        seen, st = set(), [x for x in f.blocks[ea[0]]["to"] if x is not None]
        while st:
            x = st.pop()
            if x in seen:
                continue
            seen.add(x)
            st.extend(y for y in f.blocks[x]["to"] if y is not None)
        return eb[0] in seen

    def pos(self, f, i):
        e = f.elem_of
        st, seen = [i], set()
        while st:
            x = st.pop(0)
            if x in e:
                return e[x]
            if x in seen:
                continue
            seen.add(x)
            st.extend(f.parents.get(x, []))
        return None


class Guarded:
    """table: {field qualified name: lock name}; alt: {field: set of acceptable lock names};
    exempt: {(field, function qualified name): reason}."""

    def __init__(self, P, L, table, exempt_funcs=(), exempt=None):
        self.P, self.L, self.table = P, L, table
        self.exempt_funcs = set(exempt_funcs)
        self.exempt = exempt or {}
        self._ret = None
        self.private = L.private or Private(P)

    def lock_of(self, fld):
        l = self.table[fld]
        return l if isinstance(l, (set, frozenset, tuple)) else (l,)

    def field_of(self, f, i):
        n = f.nodes[i]
        if n["k"] == "mem":
            q = detmpl(n["n"])
        elif n["k"] == "ref" and n.get("dk") == "global":
            q = detmpl(n["n"])
        else:
            return None
        return q if q in self.table else None

    # functions returning a handle into guarded state
    @property
    def ret_handles(self):
        if self._ret is None:
            self._ret = {}
            for _ in range(3):
                for f in self.P.funcs.values():
                    if f.u in self._ret or not is_handle_type(f.rt):
                        continue
                    for n in f.nodes.values():
                        if n["k"] == "ret" and n.get("x") is not None:
                            r = self.derives(f, n["x"], set(), isref=True)
                            if r:
                                self._ret[f.u] = r
        return self._ret

    def derives(self, f, i, seen, isref=False):
        """Guarded field the value of i is a handle into (or an lvalue inside), if any."""
        if i is None or i in seen:
            return None
        seen.add(i)
        P = self.P
        n = f.nodes[i]
        k = n["k"]
        fld = self.field_of(f, i)
        if fld:
            return fld
        if k == "mem":
            if detmpl(n["n"]).startswith("std::pair::"):
                pr = P.pair_projection(f, P.path(f, i))
                if pr:
                    return self.derives(pr[0], pr[1], set())
            # a member of something inside guarded state, unless reached through a smart pointer
            j = n["b"]
            if self.through_smart(f, j):
                return None
            return self.derives(f, j, seen)
        if k == "ref":
            v = f.vars.get(n.get("d"))
            if v and not v["param"] and is_handle_type(v["t"]):
                for x in v["inits"]:
                    r = self.derives(f, x, seen)
                    if r:
                        return r
            return None
        if k in ("cast",):
            return self.derives(f, n["x"], seen)
        if k == "un" and n["op"] in ("*", "&", "++", "--"):
            return self.derives(f, n["x"], seen)
        if k == "idx":
            return self.derives(f, n["b"], seen)
        if k == "cond":
            return self.derives(f, n["x"], seen) or self.derives(f, n["r"], seen)
        if k == "ctor" and n.get("a"):
            t = n.get("t", "")
            if is_handle_type(t) or n.get("copy") and is_handle_type(n.get("t", "")):
                return self.derives(f, n["a"][0], seen)
            return None
        if k == "call":
            for t in P.targets(f, n):
                if self._ret and t.u in self._ret:
                    return self._ret[t.u]
            if n.get("o") is not None:
                if self.through_smart(f, i):
                    return None
                t = n.get("t", "")
                nm = short(P.callee(n))
                if is_handle_type(t) or nm in ("front", "back", "at") or n.get("op") in ("[]", "*", "->", "++", "--", "+", "-", "="):
                    return self.derives(f, n["o"], seen)
        return None

    def through_smart(self, f, i):
        n = f.nodes[i]
        if n["k"] == "call" and n.get("o") is not None and n.get("op") in ("->", "*"):
            return detmpl(n.get("c", "")) in SMART
        return False

    def ref_types(self, v):
        return is_handle_type(v["t"])

    # ---- accesses
    def accesses(self, f):
        """yield (node, field, kind, via) for each evaluated access; kind in r,w,rw."""
        P = self.P
        for i, n in f.nodes.items():
            fld = self.field_of(f, i)
            if fld:
                yield i, fld, self.kind(f, i), "direct"
            elif n["k"] == "ref" and n.get("dk") == "local":
                v = f.vars.get(n["d"])
                if v and is_handle_type(v["t"]):
                    if any(p for p in f.parents.get(i, []) if f.nodes[p]["k"] == "asg" and f.nodes[p]["x"] == i):
                        continue
                    r = None
                    for x in v["inits"]:
                        r = r or self.derives(f, x, set())
                    if r and not self.only_null_test(f, i, v):
                        k = self.kind(f, i)
                        yield i, r, "h" if k == "r" else k, v["n"]
            elif n["k"] == "call":
                for t in P.targets(f, n):
                    if t.u in self.ret_handles and not n.get("virt"):
                        yield i, self.ret_handles[t.u], "h", "result of " + short(t.f)

    def only_null_test(self, f, i, v):
        """A raw pointer compared with null or an iterator object copied is no access by itself."""
        if not v["t"].strip().endswith("*"):
            return False
        for p in f.parents.get(i, []):
            n = f.nodes[p]
            if n["k"] == "un" and n["op"] == "!" or n["k"] == "bin" and n["op"] in ("==", "!="):
                continue
            if n["k"] == "cast" and n.get("cc") or n["k"] == "cast" and n.get("to") == "bool":
                continue
            return False
        return True

    def kind(self, f, i):
        P = self.P
        for p in f.parents.get(i, []):
            n = f.nodes[p]
            if n["k"] == "asg" and n["x"] == i:
                return "w" if n["op"] == "=" else "rw"
            if n["k"] == "un" and n["op"] in ("++", "--"):
                return "rw"
            if n["k"] == "call":
                nm = short(P.callee(n))
                if n.get("o") == i:
                    if n.get("op") == "[]" or nm in BOTH:
                        # m[k] = v overwrites without looking
                        for pp in f.parents.get(p, []):
                            m = f.nodes[pp]
                            if m["k"] == "asg" and m["x"] == p and m["op"] == "=" or \
                                    m["k"] == "call" and m.get("op") == "=" and m.get("o") == p:
                                return "w"
                        return "rw"
                    if nm in ("push_back", "push_front"):
                        return "rw"     # growing a sequence does not undo a concurrent change
                    if nm in MUTATORS or n.get("op") in ("=", "+=", "<<"):
                        return "w"
                    return "r"
                if i in n.get("a", []):
                    k = n["a"].index(i)
                    pk = n.get("pk") or []
                    return "r"
            if n["k"] == "idx" and n["b"] == i:
                for pp in f.parents.get(p, []):
                    m = f.nodes[pp]
                    if m["k"] == "asg" and m["x"] == p:
                        return "w" if m["op"] == "=" else "rw"
        return "r"

    def elem_node(self, f, i):
        """Node of the CFG element evaluating i (itself or nearest evaluated ancestor)."""
        e = f.elem_of
        seen = set()
        st = [i]
        while st:
            x = st.pop(0)
            if x in e:
                return x
            if x in seen:
                continue
            seen.add(x)
            st.extend(f.parents.get(x, []))
        return None

    def check(self, R, rule, atom_rule=None):
        P, L = self.P, self.L
        self.ret_handles
        for f in P.funcs.values():
            if f.u.startswith("tool/") or f.implicit and False:
                continue
            if f.f in self.exempt_funcs:
                continue
            held = None
            for i, fld, kind, via in self.accesses(f):
                e = self.elem_node(f, i)
                if e is None:
                    continue            # not evaluated
                if held is None:
                    held = L.held_at(f)
                if e not in held:
                    continue            # unreachable
                h = held[e]
                locks = self.lock_of(fld)
                cls = fld.rsplit("::", 1)[0]
                ok = any(l in h for l in locks)
                if not ok and "INIT:" + (f.cls or "?") in h and self.on_this(f, i):
                    ok = True
                if f.u in getattr(L, "unentered", ()):
                    continue            # only ever called on unshared objects
                if not ok and self.private.obj(f, i, e):
                    continue
                if not ok and kind in ("r", "h") and self.after_countdown(f, e, locks):
                    continue            # ordered after every other user by the atomic countdown
                if not ok and self.handed_out(f, i):
                    continue            # checked where the reference is used
                if not ok and f.nodes[i]["k"] == "call" and self.private.receiver(f, i):
                    continue
                if not ok and (fld, f.f) in self.exempt:
                    R.note("%s in %s exempt: %s" % (fld, f.f, self.exempt[(fld, f.f)]))
                    continue
                what = "%s%s" % (fld, "" if via == "direct" else " via " + via)
                if any(l in h for l in locks) and via == "direct" and not self.same_object(f, i, fld, [l for l in locks if l in h]):
                    R.ob(rule, f.loc(e), what + " in " + f.f, False, func=f.f, detail=fld + " other object's lock",
                         msg="%s is used while holding only the %s of another object" % (fld, locks[0]))
                    continue
                R.ob(rule, f.loc(e), what + " in " + f.f, ok, func=f.f, detail=fld,
                     msg="%s is used (%s) without holding %s" % (fld, "through " + via if via != "direct" else
                         {"r": "read", "w": "changed", "rw": "changed", "h": "used"}[kind], " or ".join(locks)),
                     path=self.why(f))

    def same_object(self, f, i, fld, held):
        """a lock that is a member of the same class must belong to the object whose field is used"""
        P, L = self.P, self.L
        cls = fld.rsplit("::", 1)[0]
        p = P.path(f, i)
        if p is None or isinstance(p[0], tuple) and p[0][0] == "e":
            return True
        k = [j for j, c in enumerate(p) if c == fld]
        if not k:
            return True
        base = p[:k[0]]
        for l in held:
            if l.rsplit("::", 1)[0] != cls or l in L.entry[f.u]:
                return True
            for gd, (nm, di) in L.ev(f)[1].items():
                if nm != l:
                    continue
                for q in f.nodes[di]["ds"]:
                    if q["d"] == gd:
                        c = f.nodes[q["i"]]
                        lp = P.path(f, c["a"][0]) if c["k"] == "ctor" and c.get("a") else None
                        if lp is None or isinstance(lp[0], tuple) and lp[0][0] == "e" or l not in lp:
                            return True
                        if lp[:lp.index(l)] == base and self.same_index(f, c["a"][0], i):
                            return True
            if any(nm == l and g is None for evs in L.ev(f)[0].values() for (_, nm, g) in evs):
                return True
        return False

    def same_index(self, f, li, ai):
        """arrays of locks: the element locked and the element used have the same index"""
        P = self.P
        li = P.strip_smart(f, li)
        if f.nodes[li]["k"] != "idx":
            return True
        for p in f.parents.get(ai, []):
            if f.nodes[p]["k"] == "idx" and f.nodes[p]["b"] == ai:
                return P.vpath(f, f.nodes[p]["i"]) == P.vpath(f, f.nodes[li]["i"])
        return True

    def handed_out(self, f, i):
        """the access only forms a reference that is returned"""
        if f.u not in self.ret_handles and not f.rt.startswith("std::pair"):
            return False
        P = self.P
        st = [i]
        while st:
            x = st.pop()
            ps = f.parents.get(x, [])
            if not ps and f.nodes[x]["k"] != "ret":
                return False
            for p in ps:
                n = f.nodes[p]
                if n["k"] == "idx" and n["b"] == x or n["k"] == "mem" or n["k"] == "ctor" or n["k"] == "un" and n["op"] in ("&", "*") \
                        or n["k"] == "call" and n.get("op") == "[]" and n.get("o") == x:
                    st.append(p)
                elif n["k"] == "ret":
                    continue
                else:
                    return False
        return True

    def after_countdown(self, f, e, locks):
        """e is reached only after an atomic decrement of a member yielded zero (last worker of a group)"""
        from .facts import facts
        alts = facts(self.P, f).before(e)
        if not alts:
            return False
        P = self.P

        def is_dec(t):
            if t[0] != "e":
                return False
            n = f.nodes[t[1]]
            return n["k"] == "call" and short(P.callee(n)) == "atomic_add" and len(n["a"]) == 2 and f.nodes[n["a"][1]].get("cv") == -1
        return all(any(op == "==" and (is_dec(a) and b == ("c", 0) or is_dec(b) and a == ("c", 0)) for (op, a, b) in alt) for alt in alts)

    def why(self, f):
        r = []
        L = self.L
        if f.u in L.root_reason:
            r.append("entered with no lock: " + L.root_reason[f.u])
        else:
            for cf, ci in self.P.callers[f.u][:6]:
                h = L.held_at(cf).get(ci, frozenset())
                r.append("called from %s (%s) holding {%s}" % (cf.f, cf.loc(ci), ", ".join(sorted(h))))
        return r

    def on_this(self, f, i):
        p = self.P.path(f, i)
        return p is not None and p[0] == "this" or f.nodes[i]["k"] == "ref"


class AtomFlow(Flow):
    """Tracks, for one guarded field F under lock Lk: held?, fresh read in this section?, stale read from an earlier section?"""
    exceptions = False

    def __init__(self, G, f, fld, summ, top):
        super().__init__(G.P, f)
        self.G, self.fld, self.summ = G, fld, summ
        self.acc = top["acc"]
        self.ev, self.gv = G.L.ev(f)
        self.entry_held = top["entry"]
        self.locks = G.lock_of(fld)
        self.hits = []

    def init(self):
        return frozenset([(frozenset(["e"]) if self.entry_held else frozenset(), False, False)])

    def join(self, a, b):
        return a | b

    def step(self, st, e):
        g, fresh, stale = st
        if isinstance(e, int):
            for (op, nm, gid) in self.ev.get(e, ()):
                if nm in self.locks:
                    if op == "+":
                        if not g:
                            fresh = False
                        g = g | {gid if gid is not None else "x"}
                    else:
                        g = g - {gid if gid is not None else "x"}
                        if not g:
                            if fresh:
                                stale = True
                            fresh = False
            k = self.acc.get(e)
            if k:
                if k in ("w", "rw"):
                    if g and stale and not fresh and k == "w":
                        self.hits.append(e)
                if g:
                    fresh = True
            n = self.f.nodes[e]
            if n["k"] in ("call", "ctor") and not self.ev.get(e):
                for t in self.P.targets(self.f, n):
                    s = self.summ.get(t.u)
                    if not s:
                        continue
                    if s["blind"] and stale and not fresh:
                        self.hits.append(e)
                    if s["reads"]:
                        if g:
                            fresh = True
                        elif s["locks"]:
                            stale = True
        elif e.get("e") == "dtor" and e["d"] in self.gv and self.gv[e["d"]][0] in self.locks:
            g = g - {e["d"]}
            if not g:
                if fresh:
                    stale = True
                fresh = False
        return (g, fresh, stale)

    def elem(self, s, e, b):
        return frozenset(self.step(x, e) for x in s)


def accesses_of(G, f, fld):
    a = {}
    for i, fl, kind, via in G.accesses(f):
        if fl != fld:
            continue
        e = G.elem_node(f, i)
        if e is None:
            continue
        a[e] = "w" if kind == "w" and a.get(e) in (None, "w") else ("rw" if kind == "rw" else a.get(e, "r" if kind in ("r", "h") else kind))
    return a


def locks(P):
    return Locks(P, Private(P))


def atomicity(G, R, rule, fields, exempt=None, classes=None):
    """No function bases a blind change of F in one critical section on a read of F made in an earlier section."""
    exempt = exempt or {}
    P, L = G.P, G.L
    for fld in fields:
        locks = G.lock_of(fld)
        accs = {}
        for f in P.funcs.values():
            accs[f.u] = accesses_of(G, f, fld)
        # summaries (two rounds)
        summ = {}
        for _ in range(3):
            new = {}
            for f in P.funcs.values():
                a = accs[f.u]
                callee = [summ[t.u] for (i, t) in P.calls[f.u] if t.u in summ]
                if not a and not callee:
                    continue
                reads = any(k in ("r", "rw", "h") for k in a.values()) or any(s["reads"] for s in callee)
                writes = any(k == "w" for k in a.values())
                blind = (writes and not any(k in ("r", "rw", "h") for k in a.values())) or (not a and callee and all(s["blind"] for s in callee))
                lk = any(nm in locks for evs in L.ev(f)[0].values() for (_, nm, _) in evs) or any(s["locks"] for s in callee)
                new[f.u] = dict(reads=reads, blind=blind, locks=lk)
            summ = new
        for f0 in list(P.funcs.values()):
            if f0.u not in summ or classes and f0.cls not in classes or P.helper(f0):
                continue
            f = P.view(f0)
            fl = AtomFlow(G, f, fld, summ, dict(acc=accesses_of(G, f, fld), entry=any(l in L.entry[f.u] for l in locks)))
            fl.run()
            hits = sorted(set(fl.hits))
            if (fld, f.f) in exempt:
                R.note("%s in %s exempt: %s" % (fld, f.f, exempt[(fld, f.f)]))
                continue
            R.ob(rule, f.loc(), "%s in %s" % (fld, f.f), not hits, func=f.f, detail=fld,
                 msg="%s is changed (%s) on the strength of a look at it made in an earlier critical section; the lock was released in between"
                     % (fld, f.loc(hits[0]) if hits else ""))
