"""Exceptions: none leaves a function that the event loop, a destructor or the logger calls."""
from ista.model import detmpl, short
from ista.facts import atom
from ista.util import Counts
from ista.throws import throws, is_fake, GUARDS
from ista import throws as _t
from .E04 import runs_service

ASSUME = _t.ASSUME + ["guarded by a calling rule instead of a handler: " + "; ".join("%s: %s" % x for x in sorted(GUARDS.items()))]
TAKES = {"post", "dispatch", "defer", "wrap", "bind_executor"}


def skipped(f):
    return f.file.startswith("tool") or is_fake(f) or f.file.startswith("perf")


def handler_calls(P, T, f):
    """(call, argument, targets) for callables given to the event loop"""
    for i, n in f.nodes.items():
        if n["k"] != "call":
            continue
        q = detmpl(n.get("f", ""))
        if not q.startswith("boost::asio"):
            continue
        s = short(q)
        if not (s in TAKES or s.startswith("async_")):
            continue
        for a in n["a"]:
            if P.closure(f, a):
                yield i, a, [t for t, _ in T.callback(f, a) if not is_fake(t)]
                continue
            x = f.nodes[a]
            seen = 0
            while x["k"] in ("ctor", "cast") and seen < 4:
                seen += 1
                ts = functor(P, f, x)
                if ts:
                    yield i, a, ts
                    break
                nx = x.get("x") if x["k"] == "cast" else (x["a"][0] if x["a"] else None)
                if nx is None:
                    break
                x = f.nodes[nx]


def functor(P, f, x):
    if x["k"] != "ctor":
        return []
    c = detmpl(x.get("c", ""))
    return [t for t in P.funcs.values() if t.cls and detmpl(t.cls) == c and short(t.f) == "operator()"]


def run(P, R):
    T = throws(P)
    R.rule("handler", "no exception leaves a function that the event loop calls", 40)
    R.rule("destructor", "no exception leaves a destructor", 20)
    R.rule("log", "no exception leaves the code that runs when a shared pointer lets go of a log line or another object", 1)
    R.rule("net", "a thread that runs the event loop goes on after an exception that reached it", 2)
    names = {}
    for f in P.funcs.values():
        if skipped(f):
            continue
        for i, a, ts in handler_calls(P, T, f):
            if not ts:
                R.ob("handler", f.loc(i), "%s: the callable handed over is unknown: %s" % (f.f, P.render(f, a)[:120]), False, func=f.f)
            for t in ts:
                e = T.esc[t.u]
                R.ob("handler", f.loc(i), "%s hands %s to the event loop" % (f.f, t.f), not e, func=t.f, detail="handler",
                     msg="%s, run by the event loop, lets %s out" % (t.f, ", ".join(sorted(e))),
                     path=["%s: raised at %s" % x for x in sorted(e.items())])
        if f.is_dtor and not f.implicit:
            e = T.esc[f.u]
            R.ob("destructor", f.loc(), f.f, not e, func=f.f, detail="destructor", msg="%s lets %s out" % (f.f, ", ".join(sorted(e))),
                 path=["%s: raised at %s" % x for x in sorted(e.items())])
        for i, n in f.nodes.items():
            if n["k"] == "ctor" and detmpl(n.get("c", "")).endswith("shared_ptr") and len(n["a"]) >= 2:
                x = f.nodes[n["a"][1]]
                while x["k"] in ("ctor", "cast"):
                    ts = functor(P, f, x)
                    if ts:
                        for t in ts:
                            e = T.esc[t.u]
                            R.ob("log", f.loc(i), "%s is the deleter of a shared pointer" % t.f, not e, func=t.f, detail="deleter",
                                 msg="%s lets %s out" % (t.f, ", ".join(sorted(e))), path=["%s: raised at %s" % y for y in sorted(e.items())])
                        break
                    nx = x.get("x") if x["k"] == "cast" else (x["a"][0] if x["a"] else None)
                    if nx is None:
                        break
                    x = f.nodes[nx]
    # the threads
    for f in P.funcs.values():
        if skipped(f):
            continue
        runs = [i for i, n in f.nodes.items() if runs_service(P, n)]
        if not runs:
            continue
        hs = set()
        for t in f.tries:
            for h in t["h"]:
                if h["b"] is not None and ("std::exception" == (h.get("t") or "").replace("const ", "").replace("&", "").strip() or h.get("t") in (None, "...")):
                    hs.add(h["b"])
        covered = True
        for i in runs:
            y = f.nodes[i].get("y")
            ok = False
            while y is not None:
                ok |= any(h["b"] in hs for h in f.tries[y]["h"])
                y = f.tries[y]["parent"]
            covered &= ok
            R.ob("net", f.loc(i), "%s: io_service::run inside a handler for std::exception" % f.f, ok, func=f.f, detail="catch",
                 msg="%s runs the event loop without catching std::exception: an exception that escapes a handler ends the thread" % f.f)
        if not covered:
            continue
        el = {}
        for i in runs:
            el[i] = [("ended", "=", 1)]
        for t in f.tries:
            for h in t["h"]:
                if h["b"] is not None and h["b"] not in hs:
                    for e in f.blocks[h["b"]]["s"]:
                        if isinstance(e, int):
                            el.setdefault(e, [("ended", "=", 1)])
                            break
        C = Counts(P, f, ["ended"], lambda v, e: el.get(e, ()) if isinstance(e, int) else ())
        C.solve()
        s = C.inb.get(f.exit)
        R.ob("net", f.loc(runs[0]), "%s runs the event loop again after a handler for std::exception" % f.f, bool(s) is False or C.values(s, "ended") == [1], func=f.f, detail="again",
             msg="%s leaves its loop after an exception escaped a handler: the thread is gone" % f.f)
