"""Inlined views: a function with its helpers spliced in, so that a rule sees the same code whether or not a part of it
has been extracted into a helper."""
import copy
from .model import Func, short, detmpl

NODE_KEYS = ("o", "x", "b", "i", "c", "r", "fp", "arr")


class Inliner:
    def __init__(self, P):
        self.P = P
        self._views = {}
        self._helper = {}

    def roots(self):
        """views that together contain every function: those of non-helpers, plus helpers no view absorbed"""
        r = getattr(self, "_roots", None)
        if r is None:
            P = self.P
            r, got = [], set()
            for f in P.funcs.values():
                if not self.helper(f):
                    v = self.view(f)
                    r.append(v)
                    got |= set(v.inlined)
            for f in P.funcs.values():
                if self.helper(f) and f.u not in got:
                    r.append(self.view(f))
            self._roots = r
        return r

    def contexts(self, f, i):
        """every (view, node) in which node i of function f is analysed"""
        if not self.helper(f):
            return [(self.view(f), i)]
        out = []
        for v in self.roots():
            if v.u == f.u:
                out.append((v, i))
            elif f.u in v.inlined:
                out += [(v, j) for j, n in v.nodes.items() if n.get("_o") == (f.u, i)]
        return out

    # ---- which callees are spliced
    def recursive(self, t):
        P = self.P
        seen, st = set(), [c.u for _, c in P.calls[t.u]]
        while st:
            u = st.pop()
            if u == t.u:
                return True
            if u in seen:
                continue
            seen.add(u)
            st.extend(c.u for _, c in P.calls[u])
        return False

    def helper(self, t):
        r = self._helper.get(t.u)
        if r is None:
            P = self.P
            r = (not t.virt and not t.is_ctor and not t.is_dtor and not t.implicit and bool(t.blocks)
                 and not P.taken[t.u] and 1 <= len(set((c.u, i) for c, i in P.callers[t.u])) <= 6 and len(t.blocks) <= 80
                 and (t.access in ("private", "protected") or t.internal or t.static or t.cls is None)
                 and t.f != "main" and not self.recursive(t))
            self._helper[t.u] = r
        return r

    def view(self, f, want=None, depth=4, key=None):
        """want(callee Func, caller view, node) -> bool decides; default: helper()."""
        k = (f.u, key if want else None, depth)
        if want is None or key is not None:
            if k in self._views:
                return self._views[k]
        g = self.build(f, want or (lambda t, v, n: self.helper(t)), depth)
        if want is None or key is not None:
            self._views[k] = g
        return g

    def clone(self, f):
        g = Func.__new__(Func)
        g.__dict__.update(f.__dict__)
        g.nodes = {i: dict(n) for i, n in f.nodes.items()}
        g.blocks = {i: dict(b, s=list(b["s"]), to=list(b["to"])) for i, b in f.blocks.items()}
        g.tries = [dict(t, h=[dict(h) for h in t["h"]]) for t in f.tries]
        g._parents = g._vars = g._elem_of = None
        for z in ('_lev', '_facts', '_loops'):
            g.__dict__.pop(z, None)
        g.inlined = {}       # inlined function u -> count
        g.extra_vars = dict(getattr(f, "extra_vars", {}))
        g.base = f
        return g

    def build(self, f, want, depth):
        was = getattr(self, "maxd", 0)      # want() may ask for views of its own
        try:
            return self.build1(f, want, depth)
        finally:
            self.maxd = was

    def build1(self, f, want, depth):
        P = self.P
        g = self.clone(f)
        level = {}                       # block -> inline depth
        chain = {}                       # block -> tuple of inlined functions
        work = list(g.blocks)
        for b in work:
            level[b] = 0
            chain[b] = (f.u,)
        self.maxd = 1 + max([q["d"] for q in f.params] + [q["d"] for n in f.nodes.values() if n["k"] == "decl" for q in n["ds"]]
                            + [n["d"] for n in f.nodes.values() if n["k"] == "ref" and isinstance(n.get("d"), int)] + [0]) + 100000
        total = 0
        while work:
            b = work.pop()
            if level[b] >= depth:
                continue
            blk = g.blocks[b]
            for k, e in enumerate(blk["s"]):
                if not isinstance(e, int):
                    continue
                n = g.nodes[e]
                if n["k"] != "call" or n.get("inl"):
                    continue
                ts = P.targets(g, n)
                if len(ts) != 1:
                    continue
                t = ts[0]
                if t.u in chain[b] or t.entry is None or not want(t, g, n):
                    continue
                total += 1
                if total > 60:
                    break
                new = self.splice(g, b, k, e, t)
                for nb in new[0]:
                    level[nb] = level[b] + 1
                    chain[nb] = chain[b] + (t.u,)
                level[new[1]] = level[b]
                chain[new[1]] = chain[b]
                work += new[0] + [new[1]]
                g.inlined[t.u] = g.inlined.get(t.u, 0) + 1
                break
        g.preds = type(f.preds)(list)
        for bb in g.blocks.values():
            for s in bb["to"]:
                if s is not None:
                    g.preds[s].append(bb["id"])
        g._parents = g._vars = g._elem_of = None
        return g

    def splice(self, g, b, k, e, t):
        P = self.P
        call = g.nodes[e]
        noff = max(g.nodes) + 1
        boff = max(g.blocks) + 1
        doff = self.maxd
        ds = [q["d"] for q in t.params] + [q["d"] for n in t.nodes.values() if n["k"] == "decl" for q in n["ds"]] + \
             [n["d"] for n in t.nodes.values() if n["k"] == "ref" and isinstance(n.get("d"), int)] + [0]
        self.maxd += max(ds) + 10
        TD, RD = self.maxd, self.maxd + 1
        self.maxd += 2
        yoff = len(g.tries)
        cy = call.get("y")
        rets = []
        for i, n in t.nodes.items():
            m = dict(n)
            for q in NODE_KEYS:
                v = m.get(q)
                if isinstance(v, int) and not isinstance(v, bool) and (q != "c" or m["k"] == "cond"):
                    m[q] = v + noff
            if "a" in m:
                m["a"] = [x + noff if isinstance(x, int) else x for x in m["a"]]
            if "ds" in m:
                m["ds"] = [dict(q, d=q["d"] + doff, **({"i": q["i"] + noff} if isinstance(q.get("i"), int) else {})) for q in m["ds"]]
            if m["k"] == "ref" and isinstance(m.get("d"), int):
                m["d"] = m["d"] + doff
                if m.get("dk") == "param":
                    m["dk"] = "local"
            y = m.get("y")
            y = y + yoff if y is not None else cy
            if y is not None:
                m["y"] = y
            m.setdefault("_file", t.file)
            m.setdefault("_tu", t.tu)
            m["_o"] = (t.u, i)
            if m["k"] == "this":
                m = dict(k="ref", dk="local", d=TD, n="this", t=n.get("t", "*"), tc=n.get("tc", ""), l=n.get("l"),
                         _file=t.file, _tu=t.tu, _this=True)
                if y is not None:
                    m["y"] = y
            if m["k"] == "ret":
                if m.get("x") is not None:
                    rets.append(m["x"])
                m["k"] = "iret"
            g.nodes[i + noff] = m
        for tr in t.tries:
            g.tries.append(dict(parent=tr["parent"] + yoff if tr["parent"] is not None else cy,
                                h=[dict(h, b=h["b"] + boff if h["b"] is not None else None) for h in tr["h"]], l=tr.get("l")))
        newb = []
        for bb in t.blocks.values():
            es = []
            for x in bb["s"]:
                if isinstance(x, int):
                    es.append(x + noff)
                else:
                    x = dict(x)
                    if "d" in x:
                        x["d"] += doff
                    if isinstance(x.get("x"), int):
                        x["x"] += noff
                    x["_file"] = t.file
                    es.append(x)
            nb = dict(bb, id=bb["id"] + boff, s=es, to=[s + boff if s is not None else None for s in bb["to"]])
            if isinstance(nb.get("tc"), int):
                nb["tc"] += noff
            if "try" in nb and nb["try"] is not None:
                nb["try"] += yoff
            g.blocks[nb["id"]] = nb
            newb.append(nb["id"])
        # parameter binding
        pn = max(g.nodes) + 1
        dd = []
        for k2, q in enumerate(t.params):
            a = call["a"][k2] if k2 < len(call["a"]) else None
            ty = q["t"].strip()
            dq = dict(d=q["d"] + doff, n=q["n"], t=q["t"], tc=q["tc"], ref=ty.endswith("&"))
            if a is not None:
                dq["i"] = a
            dd.append(dq)
        if call.get("o") is not None:
            o = call["o"]
            dd.append(dict(d=TD, n="this", t=(t.cls or "") + " *", tc=t.cls or "", ref=False, i=o))
        if dd:
            g.nodes[pn] = dict(k="decl", ds=dd, l=call.get("l"), _param=True)
            if cy is not None:
                g.nodes[pn]["y"] = cy
            for z in ("_file", "_tu"):
                if z in call:
                    g.nodes[pn][z] = call[z]
        # continuation
        blk = g.blocks[b]
        cont = max(g.blocks) + 1
        cb = dict(blk, id=cont, s=[e] + blk["s"][k + 1:])
        for z in ("case", "default"):
            cb.pop(z, None)
        g.blocks[cont] = cb
        blk["s"] = blk["s"][:k] + ([pn] if dd else [])
        for z in ("tc", "tk", "tl", "try", "nr"):
            blk.pop(z, None)
        blk["to"] = [t.entry + boff]
        ex = g.blocks[t.exit + boff]
        ex["to"] = [cont]
        # result
        rt = t.rt.strip()
        g.extra_vars[RD] = dict(n="result of " + short(t.f), t=rt, tc=call.get("tc", ""), inits=rets, param=False, assigned=0 if len(rets) == 1 else len(rets), addr=0,
                                q=dict(d=RD, t=rt), ref=rt.endswith("&"), node=e)
        m = dict(k="ref" if rets else "inl", dk="local", d=RD, n="result of " + short(t.f), t=call.get("t", ""), tc=call.get("tc", ""),
                 l=call.get("l"), inl=t.f, inlu=t.u)
        for z in ("y", "_file", "_tu"):
            if z in call:
                m[z] = call[z]
        g.nodes[e] = m
        return newb, cont
