"""Admin commands: one final status per command line."""
import re
from ista.model import detmpl, short
from ista.once import consts_returned
from ista.events import Events, prefix
from ista.throws import is_fake
from ista import throws as _t

ASSUME = _t.ASSUME + ["a callable handed to the event loop is run once", "a callback handed to an operation is called once (R03)",
                      "an answer that cannot be sent because the connection is closed needs no other answer"]
FINAL = ("ok", "huh?")
SEND = ("writeOut", "reply")
CONN = ("ConnectionInfo", "EagerConnection")


def conn(t):
    return any(re.search(r"\b%s\b" % c, t or "") for c in CONN)


class Answers(Events):
    """only the administrator's connection counts: calls are followed into the classes that were given it, and into
    functions that are handed it"""

    def __init__(self, P, cls):
        Events.__init__(self, P)
        self.A = set(cls)
        grew = True
        while grew:
            grew = False
            for f in P.funcs.values():
                if f.cls not in self.A:
                    continue
                for i, n in f.nodes.items():
                    if n["k"] == "ctor" and n.get("c") in P.classes and n["c"] not in self.A and any(conn(f.nodes[a].get("t")) for a in n["a"]):
                        self.A.add(n["c"])
                        grew = True

    def follow(self, f, mode, i):
        n = f.nodes[i]
        given = any(conn(f.nodes[a].get("t")) or any(re.search(r"\b%s\b" % short(c), f.nodes[a].get("t", "")) for c in self.A) for a in n.get("a", []))
        r = []
        for t, m in Events.follow(self, f, mode, i):
            if given or t.cls in self.A or t.cls is None and len(consts_returned(t) or ()) > 0:
                r.append((t, m))
        return r

    def event(self, f, i, ctx):
        n = f.nodes[i]
        if n["k"] != "call" or n.get("o") is None:
            return None
        P = self.P
        q = detmpl(n.get("f", ""))
        c, s = q.rsplit("::", 1) if "::" in q else ("", q)
        if not (c in CONN or c and any(b in CONN for b in P.all_bases(c))):
            return None
        if s == "consume":
            return -1
        if s == "close":
            return 1
        if s in SEND and n["a"]:
            ps = prefix(P, f, n["a"][0], ctx)
            if ps is None:
                return 0
            fin = [any(p.startswith(x) for x in FINAL) for p in ps]
            return 1 if fin and all(fin) else 0
        return 0

    def maybe(self, f, i):
        n = f.nodes[i]
        return n["k"] == "call" and short(self.P.callee(n)) in SEND + ("close", "consume")

    def enter(self, f, mode, i, t):
        n = f.nodes[i]
        ctx = []
        for k, a in enumerate(n.get("a", [])):
            if k < len(t.params) and ("string" in t.params[k]["t"] or "char" in t.params[k]["t"]):
                ps = prefix(self.P, f, a, mode[1])
                if ps is not None and len(ps) <= 4:
                    cs = tuple(sorted(set(next((x for x in FINAL if p.startswith(x)), "-") for p in ps)))
                    ctx.append((t.params[k]["d"], cs))
        return (mode[0], tuple(ctx))


def run(P, R):
    R.rule("line", "between taking one command line from the input and the next (or returning) exactly one final status is sent or handed on", 1)
    R.rule("handed", "a callback an admin command hands on gives exactly one final status", 3)
    m = ("answer", ())
    entries = []
    for (f, n, c) in P.slots.get("ConnectionInfo::onData_", []) + [x for s, v in P.slots.items() if s != "ConnectionInfo::onData_" and short(s) == "onData_" for x in v]:
        for t in P.targets(f, f.nodes[c[0]]):
            if t not in entries and not is_fake(t) and t.cls and "Admin" in t.cls:
                entries.append(t)
    E = Answers(P, [t.cls for t in entries])
    R.note("classes given the administrator's connection: " + ", ".join(sorted(E.A)))
    for t in entries:
        F = E.flow(t, m)
        outs, ex = E.summary(t, m)
        cs = set(k for _, k in outs)
        bad = [c for c in cs if c]
        R.ob("line", t.loc(), "%s: as many answers as lines taken when it returns" % t.f, not bad, func=t.f, detail="answers",
             msg="%s: a command line may get %s" % (t.f, " or ".join("no final answer" if b < 0 else "more than one final answer" for b in sorted(bad))), path=paths(E, t, m))
        for i, n in t.nodes.items():
            if E.event(t, i, ()) == -1:
                s = F.before(i)
                vs = sorted(set(F.gval(a, "n") for a in s)) if s else []
                R.ob("line", t.loc(i), "%s: the previous line was answered once when the next is taken" % t.f, vs in ([], [0]), func=t.f, detail="next",
                     msg="%s: when it takes the next command line the previous one has had %s" % (t.f, " or ".join({0: "one final answer"}.get(v, "no final answer" if v < 0 else "more than one final answer") for v in vs)),
                     path=paths(E, t, m))
    done = set()
    for (u, mm), F in list(E.memo.items()):
        f = F.f
        if short(f.f) == "on_complete" and f.u not in done and f.u not in [t.u for t in entries]:
            done.add(f.u)
            cs = E.normal(f, m)
            R.ob("handed", f.loc(), "%s gives one final status" % f.f, cs <= {1}, func=f.f, detail="handed",
                 msg="%s may give %s" % (f.f, " or ".join({0: "no final status", 1: "one"}.get(c, "several final statuses") for c in sorted(cs))), path=paths(E, f, m))


def paths(E, t, m, depth=0):
    r = []
    F = E.memo.get((t.u, m))
    if not F:
        return r
    for i, c in sorted(F._c.items()):
        if c:
            r.append("%s: %s (%s)" % (t.loc(i), E.P.render(t, i)[:90], "; ".join(",".join(str(k) for k in sorted(set(x[1] for x in o))) for o, _ in c)))
    if depth < 2:
        for i in list(F._c):
            for x in E.T.sync(t, i):
                for (u, mm), G in list(E.memo.items()):
                    if u == x.u and G is not F and any(k not in (0, 1) for _, k in G.result[0]) or u == x.u and G is not F and len(set(k for _, k in G.result[0])) > 1:
                        r += paths(E, x, mm, depth + 1)
    return r[:60]
