from ista.guarded import Guarded, atomicity, locks, Private
from ista.model import short, detmpl
from ista.flow import Flow

SH = "ShardedMap::locks_"
TABLE = {
    "ShardedMap::maps_": SH,
    "AllKeys::toMatch_": "AllKeys::lock_",
    "AllKeys::head_": "AllKeys::lock_",
}
ATOMIC_PTR = "StatStore::AsyncCounter::statCounter_"
ATOMIC_FN = ("boost::atomic_load", "boost::atomic_store", "boost::atomic_exchange", "boost::atomic_compare_exchange",
             "std::atomic_load", "std::atomic_store", "std::atomic_exchange", "boost::atomic_load_explicit",
             "boost::atomic_store_explicit", "boost::atomic_exchange_explicit")
CAS = ("istat::atomic_compare_exchange", "istat::atomic_compare_exchange_and_return", "__sync_bool_compare_and_swap",
       "__sync_val_compare_and_swap", "__atomic_compare_exchange_n")


class KeyFlow(Flow):
    """Pairs (sharded map object, key) for which the shard's lock is held with the key unchanged since."""
    exceptions = False

    def __init__(self, P, f, G):
        super().__init__(P, f)
        self.G = G
        self.gkey = {}
        for gd, (nm, di) in G.L.ev(f)[1].items():
            if nm == SH:
                for q in f.nodes[di]["ds"]:
                    if q["d"] == gd:
                        c = f.nodes[q["i"]]
                        k = lock_key(P, f, c["a"][0]) if c["k"] == "ctor" and c["a"] else None
                        if k:
                            self.gkey[di] = (gd, k)
        self.hits = []

    def init(self):
        return frozenset()

    def join(self, a, b):
        return a & b

    def elem(self, s, e, b):
        f = self.f
        if isinstance(e, int):
            if e in self.gkey:
                s = s | {self.gkey[e]}
            # mutation of a key variable
            for d in mutated(self.P, f, e):
                s = frozenset(x for x in s if not (x[1][1] and x[1][1][0] == ("v", d)))
        elif e.get("e") == "dtor":
            s = frozenset(x for x in s if x[0] != e["d"])
        return s


def mutated(P, f, e):
    n = f.nodes[e]
    r = []

    def root(i):
        p = P.path(f, i)
        if p and isinstance(p[0], tuple) and p[0][0] == "v" and len(p) == 1:
            r.append(p[0][1])
    if n["k"] == "asg":
        root(n["x"])
    elif n["k"] == "un" and n["op"] in ("++", "--"):
        root(n["x"])
    elif n["k"] == "call":
        if n.get("o") is not None and not n.get("const"):
            from ista.guarded import MUTATORS
            if short(P.callee(n)) in MUTATORS or n.get("op") in ("=", "+="):
                root(n["o"])
        for t in P.targets(f, n):
            for k, a in enumerate(n["a"]):
                if k < len(t.params):
                    ty = t.params[k]["t"].strip()
                    if ty.endswith("&") and "const" not in ty or ty.endswith("*"):
                        root(a)
    return r


def lock_key(P, f, i):
    """(path of the sharded map, path of the key) if expression i is <shards>.lock(key), through a reference or directly."""
    i = P.strip_smart(f, i)
    n = f.nodes[i]
    if n["k"] == "ref":
        v = f.vars.get(n.get("d"))
        if v and len(v["inits"]) == 1 and not v["param"]:
            return lock_key(P, f, v["inits"][0])
    if n["k"] == "call" and n.get("o") is not None and detmpl(n.get("c", "")) == "ShardedMap" and n["a"]:
        for t in P.targets(f, n):
            pass
        return (P.path(f, n["o"]), P.path(f, n["a"][0]))
    return None


def run(P, R):
    L = locks(P)
    G = Guarded(P, L, TABLE)
    # push() onto the lock-free list: head_ only read and compare-exchanged with a record not yet visible
    for f in P.funcs.values():
        if f.cls == "AllKeys" and cas_push(P, f):
            G.exempt[("AllKeys::head_", f.f)] = "lock-free push: the head changes only by compare-exchange to a fresh record"
        elif f.cls == "AllKeys":
            pass
    # a detached list (the argument of exchange) belongs to the caller
    R.rule("guarded", "the counter table's shards and the key index are used with their own lock held", 12)
    orig = G.same_object
    G.same_object = lambda f, i, fld, held: fld == "AllKeys::head_" or orig(f, i, fld, held)
    G.check(R, "guarded")

    R.rule("same-shard", "a shard's map is used under the lock of the same key of the same table", 1)
    for f in P.funcs.values():
        for i, n in f.nodes.items():
            if n["k"] == "call" and detmpl(n.get("c", "")) == "ShardedMap" and n.get("o") is not None and n["a"] and i in f.elem_of:
                ts = P.targets(f, n)
                if not any(t.u in G.ret_handles and G.ret_handles[t.u] == "ShardedMap::maps_" for t in ts):
                    continue
                fl = KeyFlow(P, f, G).run()
                want = (P.path(f, n["o"]), P.path(f, n["a"][0]))
                got = []

                def cb(s, e, b):
                    if e == i:
                        got.append(any(x[1] == want for x in s))
                fl.visit(cb)
                R.ob("same-shard", f.loc(i), "%s in %s" % (P.render(f, i), f.f), bool(got) and all(got), func=f.f,
                     detail=P.pstr(f, want[1]),
                     msg="the map of the shard of '%s' is used, but the lock held was not taken for this key's shard (or the key changed since)" % P.render(f, n["a"][0]))

    # look-up, creation and registration are one section
    R.rule("create-once", "a counter is created and registered in the critical section in which its name was looked up and missed", 1)
    for f0 in list(P.funcs.values()):
        if f0.cls != "StatStore" or P.helper(f0):
            continue
        f = P.view(f0)
        if any(n["k"] == "call" and P.callee(n) == "IStatCounterFactory::create" for n in f.nodes.values()):
            check_create(P, R, G, f)
    R.rule("one-section", "no blind change of the table or the index rests on a look from an earlier critical section", 1)
    atomicity(G, R, "one-section", ["ShardedMap::maps_"], classes={"StatStore", "ShardedMap", "ShardedMap::iterator"})

    R.rule("atomic-pointer", "an entry's counter pointer is read and replaced only by atomic operations outside its constructor", 2)
    for f in P.funcs.values():
        for i, n in f.nodes.items():
            if n["k"] == "mem" and detmpl(n["n"]) == ATOMIC_PTR and i in f.elem_of or n["k"] == "mem" and detmpl(n["n"]) == ATOMIC_PTR:
                if G.elem_node(f, i) is None:
                    continue
                if f.is_ctor and f.cls == "StatStore::AsyncCounter" or f.is_dtor or f.implicit:
                    continue
                ok = any(f.nodes[p]["k"] == "un" and f.nodes[p]["op"] == "&" and
                         any(f.nodes[q]["k"] == "call" and P.callee(f.nodes[q]).startswith(ATOMIC_FN) for q in up(f, p)) for p in f.parents.get(i, []))
                if not ok:
                    h = L.held_at(f).get(G.elem_node(f, i), frozenset())
                    ok = any(x.startswith("StatStore::AsyncCounter::") for x in h)
                R.ob("atomic-pointer", f.loc(i), "%s in %s" % (P.render(f, i), f.f), ok, func=f.f, detail="statCounter_",
                     msg="the counter pointer of a store entry is accessed without synchronisation while a delete may replace it")


def up(f, i, depth=4):
    r, st = [], [i]
    for _ in range(depth):
        st = [p for x in st for p in f.parents.get(x, [])]
        r += st
    return r


def cas_push(P, f):
    """every write of head_ is a compare-exchange whose new value is a local allocated here; nothing behind head_ is dereferenced"""
    cas = False
    for i, n in f.nodes.items():
        if n["k"] == "mem" and detmpl(n["n"]) == "AllKeys::head_":
            for p in f.parents.get(i, []):
                m = f.nodes[p]
                if m["k"] == "asg" and m["x"] == i:
                    return False
                if m["k"] == "mem":
                    return False
        if n["k"] == "call" and P.callee(n) in CAS:
            sub = set(detmpl(f.nodes[x].get("n", "")) for x in f.subtree(n["a"][0]) if f.nodes[x]["k"] == "mem")
            if "AllKeys::head_" in sub:
                new = f.nodes[n["a"][2]]
                x = n["a"][2]
                while f.nodes[x]["k"] == "cast":
                    x = f.nodes[x]["x"]
                nn = f.nodes[x]
                v = f.vars.get(nn.get("d")) if nn["k"] == "ref" else None
                if not v or not any(f.nodes[y]["k"] == "new" for q in v["inits"] for y in f.subtree(q)):
                    return False
                cas = True
    return cas


class CreateFlow(Flow):
    """state: set of (#guards held, looked up in this section?)"""
    exceptions = False

    def __init__(self, P, f, G, looks):
        super().__init__(P, f)
        self.G, self.looks = G, looks
        self.gv = set(g for g, (nm, di) in G.L.ev(f)[1].items() if nm == SH)

    def init(self):
        return frozenset([(frozenset(), frozenset())])

    def join(self, a, b):
        return a | b

    def elem(self, s, e, b):
        r = set()
        for g, look in s:
            if isinstance(e, int):
                for (op, nm, gid) in self.G.L.ev(self.f)[0].get(e, ()):
                    if nm == SH:
                        g = g | {gid} if op == "+" else g - {gid}
                if e in self.looks:
                    look = look | {(gg, self.looks[e]) for gg in g}
            elif e.get("e") == "dtor" and e["d"] in self.gv:
                g = g - {e["d"]}
                look = frozenset(x for x in look if x[0] != e["d"])
            look = frozenset(x for x in look if x[0] in g)
            r.add((g, look))
        return frozenset(r)


def check_create(P, R, G, f):
    # look-ups: find/count/lower_bound/operator[] on a handle into maps_, keyed by path
    looks = {}
    ins = []
    for i, n in f.nodes.items():
        if n["k"] == "call" and n.get("o") is not None and i in f.elem_of:
            nm = short(P.callee(n))
            if nm in ("find", "count", "lower_bound", "insert", "at") or n.get("op") == "[]":
                if G.derives(f, n["o"], set()) == "ShardedMap::maps_":
                    k = P.path(f, n["a"][0]) if n["a"] else None
                    if nm in ("find", "count", "lower_bound", "at"):
                        looks[i] = k
                    else:
                        ins.append((i, k))
    creates = [i for i, n in f.nodes.items() if n["k"] == "call" and P.callee(n) == "IStatCounterFactory::create" and i in f.elem_of]
    fl = CreateFlow(P, f, G, looks).run()
    bad = {}

    def cb(s, e, b):
        for c in creates:
            if e == c:
                k = P.path(f, f.nodes[c]["a"][0]) if f.nodes[c]["a"] else None
                for g, look in s:
                    if not any(lk == k for (_, lk) in look):
                        bad[c] = "created"
        for (i, k) in ins:
            if e == i:
                for g, look in s:
                    if not any(lk == k for (_, lk) in look):
                        bad[i] = "registered"
    fl.visit(cb)
    for c in creates + [i for i, _ in ins]:
        R.ob("create-once", f.loc(c), "%s in %s" % (P.render(f, c), f.f), c not in bad, func=f.f,
             detail="create" if c in creates else "register",
             msg="a counter can be %s here although the shard lock was not held continuously since its name was looked up and missed" % bad.get(c, ""))
    R.ob("create-once", f.loc(), "%s registers what it creates" % f.f, bool(ins) and bool(looks), func=f.f, detail="structure",
         msg="%s creates counters without looking their name up and registering them in the shard's map" % f.f)
