"""Privileges: the effective user is switched, successfully, before anything of the event loop can run."""
from ista.model import detmpl, short
from ista.flow import Flow
from ista.facts import facts, entails
from ista.util import after

SETU = {"seteuid", "setuid", "setresuid", "setreuid"}
RUN = {"run", "run_one", "poll", "poll_one", "run_for", "run_until"}
ASSUME = ["handlers run only inside io_service::run and its variants (Boost.Asio)",
          "sockets may be opened before the switch (ports below 1024 need it); no bytes are read from them before the event loop runs"]
ZERO = ("c", 0)


def runs_service(P, n):
    return n["k"] == "call" and short(P.callee(n)) in RUN and n.get("ext") and ("io_context" in (P.callee(n) or "") or "io_service" in (P.callee(n) or ""))


class Must(Flow):
    """on every path: has the user been switched?"""

    def __init__(self, P, f, must, may):
        super().__init__(P, f)
        self.must, self.may, self.at = must, may, {}

    def init(self):
        return False

    def join(self, a, b):
        return a and b

    def elem(self, s, e, b):
        if isinstance(e, dict):
            return s
        n = self.f.nodes[e]
        self.at[e] = s and self.at.get(e, True)
        if n["k"] == "call":
            ts = self.P.targets(self.f, n)
            if ts and all(t.u in self.must for t in ts):
                return True
            if n.get("noreturn"):
                return None
        return s

    def excs(self, s, e):
        if isinstance(e, int) and self.f.nodes[e]["k"] in ("call", "ctor", "throw", "new"):
            yield ("*", s)


def run(P, R):
    R.rule("switched", "nothing that runs event handlers is reached before the user has been switched", 2)
    R.rule("verified", "the switch counts only where the system call succeeded or the process already is that user; anything else ends in an error", 1)
    R.rule("user", "the identity switched to is the configured user", 1)
    leaf, sites = set(), []
    for f in P.funcs.values():
        if f.implicit or f.file.startswith("tool/") or "test" in f.file:
            continue
        own = [i for i, n in f.nodes.items() if n["k"] == "call" and short(P.callee(n)) in SETU and n.get("ext") and i in f.elem_of]
        for i in own:
            sites.append((f, i))
    if not sites:
        R.ob("verified", "daemon/main.cpp", "switch of the effective user", False, func="main", detail="none", msg="the process never switches to the configured user")
    for f in P.funcs.values():
        if f.implicit or f.f == "main":
            continue
        v = P.view(f)
        nodes = [i for i, n in v.nodes.items() if n["k"] == "call" and short(P.callee(n)) in SETU and n.get("ext") and i in v.elem_of]
        if not nodes:
            continue
        ok, F = verified(P, v, nodes)
        if ok:
            leaf.add(f.u)
        # identity
        for i in nodes:
            uid = v.nodes[i]["a"][-1]
            R.ob("user", v.loc(i), P.render(v, i), from_config(P, v, uid, set()), func=v.f, detail="user", msg="the identity is not taken from the configured user")
    mains = [f for f in P.funcs.values() if f.f == "main" and f.file.startswith("daemon/")]
    if not leaf and mains and sites:
        v = P.view(mains[0])
        nodes = [i for i, n in v.nodes.items() if n["k"] == "call" and short(P.callee(n)) in SETU and n.get("ext") and i in v.elem_of]
        f, i = sites[0]
        R.ob("verified", f.loc(i), P.render(f, i), False, func=f.f, detail="verified", msg="the function returns although the switch may have failed")
    elif leaf:
        for u in sorted(leaf):
            R.ob("verified", P.funcs[u].loc(), P.funcs[u].f, True)
    # functions that must switch
    must = set(leaf)
    ch = True
    while ch:
        ch = False
        for f in P.funcs.values():
            if f.u in must or f.f == "main" or not any(t.u in must for _, t in P.calls[f.u]):
                continue
            M = Must(P, f, must, ())
            M.run()
            if M.exit_state:
                must.add(f.u)
                ch = True
    # what runs handlers
    serve = set()
    for f in P.funcs.values():
        if any(runs_service(P, n) for n in f.nodes.values()):
            serve.add(f.u)
    base = set(serve)
    ch = True
    while ch:
        ch = False
        for f in P.funcs.values():
            if f.u not in serve and (any(t.u in serve for _, t in P.calls[f.u]) or starts(P, f, serve)):
                serve.add(f.u)
                ch = True
    for f in mains:
        M = Must(P, f, must, ())
        M.run()
        for i, n in f.nodes.items():
            if i not in M.at:
                continue
            hit = runs_service(P, n) or n["k"] == "call" and any(t.u in serve for t in P.targets(f, n)) or is_start(P, f, n, serve)
            if hit:
                R.ob("switched", f.loc(i), P.render(f, i), M.at[i], func=f.f, detail="switched " + (short(P.callee(n)) if n["k"] == "call" else n["k"]),
                     msg="%s runs event handlers although the user may not have been switched" % P.render(f, i))


def is_start(P, f, n, serve):
    """a thread that runs a serving function"""
    if n["k"] == "call" and (short(P.callee(n)) in ("pthread_create", "create_thread") or "thread" in n.get("t", "") and "make_shared" in (P.callee(n) or "")) or n["k"] == "ctor" and detmpl(n.get("c", "")).endswith("::thread"):
        for a in n["a"]:
            for j in f.subtree(a):
                m = f.nodes[j]
                if m["k"] == "fn" and any(t.u in serve for t in P.targets(f, m)):
                    return True
    return False


def starts(P, f, serve):
    return any(is_start(P, f, n, serve) for n in f.nodes.values())


def verified(P, v, nodes):
    F = facts(P, v)
    ex = F.inb.get(v.exit)
    if not ex:
        return False, F
    calls = {i: v.nodes[i] for i in v.nodes if v.nodes[i]["k"] == "call"}
    ids = set(i for i, n in calls.items() if short(P.callee(n)) in ("geteuid", "getuid"))
    # results kept in variables
    for alt in ex:
        if not alt_ok(alt, nodes, ids, [F.term(v.nodes[i]["a"][-1]) for i in nodes]):
            return False, F
    return True, F


def alt_ok(alt, nodes, ids, uids):
    for i in nodes:
        t = ("e", i)
        if entails(alt, "==", t, ZERO) or entails(alt, "<=", ZERO, t):
            return True
    for (op, a, b) in alt:
        for x, y in ((a, b), (b, a)):
            if op == "==" and x[0] == "e" and x[1] in ids and any(entails(alt, "==", x, t) for t in uids):
                return True
    return False


def from_config(P, v, i, seen, depth=0):
    """does the value come from the configured user (the option named user)?"""
    for j in v.subtree(i):
        n = v.nodes[j]
        if n["k"] == "ref" and n.get("dk") not in ("local", "param") and (n.get("n") or "").split("::")[-1] == "user":
            return True
        if n["k"] == "ref" and isinstance(n.get("d"), int):
            q = v.vars.get(n["d"])
            if q and ("v", v.u, n["d"]) not in seen:
                seen.add(("v", v.u, n["d"]))
                xs = list(q["inits"])
                for k, m in v.nodes.items():
                    if m["k"] == "asg" and v.nodes[m["x"]]["k"] == "ref" and v.nodes[m["x"]].get("d") == n["d"]:
                        xs.append(m["r"])
                if q["param"]:
                    idx = [x["d"] for x in v.params].index(n["d"]) if n["d"] in [x["d"] for x in v.params] else None
                    cs = P.callers.get(v.u, []) if idx is not None else []
                    if cs and all(from_config(P, g, g.nodes[c]["a"][idx], seen, depth + 1) for g, c in cs if g.nodes[c]["k"] == "call"):
                        return True
                if any(from_config(P, v, x, seen, depth + 1) for x in xs):
                    return True
        if n["k"] == "call" and depth < 5:
            for t in P.targets(v, n):
                if t.u not in seen:
                    seen.add(t.u)
                    for m in t.nodes.values():
                        if m["k"] == "ret" and m.get("x") is not None and from_config(P, t, m["x"], seen, depth + 1):
                            return True
    return False
