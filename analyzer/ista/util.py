"""Small helpers shared by the rules."""
from .model import short, detmpl
from .flow import Flow
from .facts import Facts, facts, entails, atom, positive, nonzero, nonneg, classes_of, diff_bound


def calls_in(P, f):
    for i, n in f.nodes.items():
        if n["k"] in ("call", "ctor") and n.get("l") is not None:
            yield i, n


def is_call(P, n, *names):
    return n["k"] == "call" and (short(P.callee(n)) in names or detmpl(P.callee(n) or "") in names)


def root_views(P, pred=None):
    for v in P.roots():
        if pred is None or pred(v):
            yield v


def reachable(F, i):
    return F.before(i) is not None


def after(F, e):
    """alternatives just after element e"""
    b, k = F.f.elem_of[e]
    s = F.inb.get(b)
    if s is None:
        return None
    for x in F.f.blocks[b]["s"]:
        s = F.elem(s, x, b)
        if s is None:
            return None
        if x == e:
            return s
    return s


class Counts(Facts):
    """facts plus counts of events; ev(view, element id) -> [(ghost, delta)] or [(ghost, '=', value)]"""

    def __init__(self, P, f, ghosts, ev, **kw):
        super().__init__(P, f, **kw)
        self.ghosts = tuple(ghosts)
        self._ev = ev

    def ghost(self, e):
        return self._ev(self.f, e)

    edge_ev = None      # (block, successor) -> [(ghost, ...)]

    def edge(self, s, b, k, succ):
        s = super().edge(s, b, k, succ)
        if s is not None and self.edge_ev is not None:
            ev = self.edge_ev(b, succ)
            if ev:
                s = self.bump_ghosts(s, ev)
        return s

    def values(self, s, name):
        return sorted(set(self.gval(a, name) for a in s)) if s else []


def subterms(t):
    yield t
    for c in t[1:]:
        if isinstance(c, tuple):
            yield from subterms(c)


def alt_terms(alt):
    r = set()
    for (op, a, b) in alt:
        r.update(subterms(a))
        r.update(subterms(b))
    return r


def dominators(f):
    order, seen = [], set()
    st = [(f.entry, iter([x for x in f.blocks[f.entry]["to"] if x is not None]))]
    seen.add(f.entry)
    # handlers are entered from anywhere inside their try; treat them as successors of every block with an element in it
    exc = {}
    for b, blk in f.blocks.items():
        ys = set(f.nodes[e].get("y") for e in blk["s"] if isinstance(e, int)) - {None}
        hs = set()
        for y in ys:
            while y is not None:
                hs.update(h["b"] for h in f.tries[y]["h"] if h["b"] is not None)
                y = f.tries[y]["parent"]
        exc[b] = hs
    succ = {b: [x for x in blk["to"] if x is not None] + sorted(exc[b]) for b, blk in f.blocks.items()}
    st = [(f.entry, iter(succ[f.entry]))]
    while st:
        b, it = st[-1]
        for s in it:
            if s not in seen:
                seen.add(s)
                st.append((s, iter(succ[s])))
                break
        else:
            order.append(b)
            st.pop()
    rpo = order[::-1]
    num = {b: k for k, b in enumerate(rpo)}
    pred = {}
    for b in rpo:
        for s in succ[b]:
            pred.setdefault(s, []).append(b)
    idom = {f.entry: f.entry}
    ch = True
    while ch:
        ch = False
        for b in rpo[1:]:
            new = None
            for p in pred.get(b, []):
                if p in idom:
                    if new is None:
                        new = p
                    else:
                        x, y = p, new
                        while x != y:
                            while num[x] > num[y]:
                                x = idom[x]
                            while num[y] > num[x]:
                                y = idom[y]
                        new = x
            if idom.get(b) != new:
                idom[b] = new
                ch = True
    return idom, succ, rpo


def dominates(idom, a, b):
    while True:
        if a == b:
            return True
        if b not in idom or idom[b] == b:
            return False
        b = idom[b]


def loops(f):
    """[(header, body blocks, latches)] natural loops, outermost first"""
    c = f.__dict__.get("_loops")
    if c is not None:
        return c
    idom, succ, rpo = dominators(f)
    heads = {}
    for b in rpo:
        for s in succ[b]:
            if dominates(idom, s, b):
                heads.setdefault(s, []).append(b)
    pred = {}
    for b in rpo:
        for s in succ[b]:
            pred.setdefault(s, []).append(b)
    r = []
    for h, ls in heads.items():
        body, st = {h}, [x for x in ls]
        while st:
            x = st.pop()
            if x in body:
                continue
            body.add(x)
            st.extend(pred.get(x, []))
        r.append((h, body, ls))
    r.sort(key=lambda x: -len(x[1]))
    f._loops = r
    return r


class Sets(Flow):
    """events without facts (for very large functions): state = set of ghost tuples; ev as in Counts"""
    exceptions = False

    def __init__(self, P, f, ghosts, ev):
        super().__init__(P, f)
        self.ghosts, self.ev = list(ghosts), ev
        self.seen = {}

    def init(self):
        return frozenset([(0,) * len(self.ghosts)])

    def join(self, a, b):
        return a | b

    def elem(self, s, e, b):
        if not isinstance(e, int):
            return s
        self.seen[e] = s
        for ev in self.ev(self.f, e):
            k = self.ghosts.index(ev[0])
            s = frozenset(t[:k] + ((ev[2] if len(ev) == 3 else max(-2, min(2, t[k] + ev[1]))),) + t[k + 1:] for t in s)
        return None if self.f.nodes[e].get("noreturn") else s

    def solve(self):
        self.run()
        return self

    def before(self, i):
        return self.seen.get(i)

    def values(self, s, name):
        k = self.ghosts.index(name)
        return sorted(set(t[k] for t in s)) if s else []
