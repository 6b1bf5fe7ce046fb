"""Saving settings: written to a temporary file, closed, checked, renamed over the old one; unsaved changes stay marked."""
from ista.model import detmpl, short
from ista.facts import facts, entails
from ista.util import Counts, loops, subterms, after

DIRTY, DATA, FILES = "RealSettings::dirty_", "RealSettings::settings_", "RealSettingsFactory::files_"
ASSUME = ["rename() replaces the destination atomically (POSIX)"]
ZERO = ("c", 0)


def is_ofstream(n):
    return "ofstream" in n.get("c", "") or "ofstream" in n.get("tc", "") or "ofstream" in n.get("t", "")


def stream_of(P, v, i, depth=0):
    """the local ofstream an output expression goes to"""
    n = v.nodes[P.strip_smart(v, i)]
    if n["k"] == "ref":
        q = v.vars.get(n.get("d"))
        if q and ("ofstream" in q["q"].get("t", "") or "ofstream" in q["q"].get("tc", "")):
            return n["d"]
        if q and q.get("ref") and len(q["inits"]) == 1 and depth < 6:
            return stream_of(P, v, q["inits"][0], depth + 1)
        if q and "stream" in q["q"].get("t", "") and len(q["inits"]) == 1 and depth < 6:
            return stream_of(P, v, q["inits"][0], depth + 1)
    if n["k"] == "call" and n.get("op") == "<<" and depth < 40:
        return stream_of(P, v, n["o"] if n.get("o") is not None else n["a"][0], depth + 1)
    if n["k"] == "call" and n.get("o") is not None and depth < 40 and short(P.callee(n)) in ("write", "put", "flush"):
        return stream_of(P, v, n["o"], depth + 1)
    if n["k"] == "cast" and depth < 40:
        return stream_of(P, v, n["x"], depth + 1)
    return None


def names(t):
    return set(x for x in subterms(t) if x[0] in ("v", "f"))


def run(P, R):
    R.rule("rename", "the temporary file has been closed and then found good on every path to the rename", 1)
    R.rule("keep-old", "the file that is replaced is not removed, truncated or opened for writing", 1)
    R.rule("complete", "every key with a value is written", 1)
    R.rule("marked", "changes stop being marked as unsaved only after the rename, and every change marks them", 2)
    R.rule("dropped", "an open settings file is dropped from memory only after it has been saved", 2)
    nren = 0
    for v in P.roots():
        if v.implicit:
            continue
        streams = [q["d"] for n in v.nodes.values() if n["k"] == "decl" for q in n["ds"] if "ofstream" in q["t"] + q.get("tc", "")]
        uses_dirty = any(n["k"] == "mem" and detmpl(n["n"]) in (DIRTY, DATA, FILES) for n in v.nodes.values())
        if not uses_dirty:
            continue
        rens = [i for i, n in v.nodes.items() if n["k"] == "call" and short(P.callee(n)) == "rename" and len(n["a"]) >= 2 and i in v.elem_of]

        def ev(g, e, streams=streams, rens=rens):
            if isinstance(e, dict):
                return [("closed", "=", 1)] if e.get("e") in ("dtor",) and e.get("d") in streams else ()
            n = g.nodes[e]
            r = []
            if n["k"] == "call" and short(P.callee(n)) in ("close",) and n.get("o") is not None and stream_of(P, g, n["o"]) is not None:
                r.append(("closed", "=", 1))
            elif n["k"] == "call" and (n.get("op") == "<<" or short(P.callee(n)) in ("write", "put")):
                if stream_of(P, g, e) is not None:
                    r.append(("wrote", "=", 1))
                    r.append(("closed", "=", 0))
            if e in rens:
                r.append(("renamed", "=", 1))
            if n["k"] == "asg" and g.nodes[n["x"]]["k"] == "mem" and detmpl(g.nodes[n["x"]]["n"]) == DIRTY:
                r.append(("dirty", "=", 1 if g.nodes[n["r"]].get("cv") == 1 else 0))
            if n["k"] == "call" and short(P.callee(n)) in ("queueSave", "async_wait") or n.get("inl") == "RealSettings::queueSave":
                r.append(("queued", "=", 1))
            return r
        C = Counts(P, v, ["closed", "renamed", "dirty", "queued"], lambda g, e: [x for x in ev(g, e) if x[0] != "wrote"]).solve()
        for i in rens:
            n = v.nodes[i]
            s = C.before(i)
            if s is None:
                continue
            nren += 1
            src, dst = C.term(n["a"][0]), C.term(n["a"][1])
            mine = []
            for d in streams:
                q = v.vars[d]
                for x in q["inits"]:
                    for j in v.subtree(x) if hasattr(v, "subtree") else []:
                        if names(C.term(j)) & names(src) - names(dst) or names(C.term(j)) & names(src) and not names(src) - names(dst):
                            mine.append(d)
            ok = bool(mine)
            for alt in s:
                if C.gval(alt, "closed") != 1:
                    ok = False
                if not any(good(alt, ("v", d)) for d in mine):
                    ok = False
            R.ob("rename", v.loc(i), P.render(v, i), ok, func=v.f, detail="rename",
                 msg="the new file replaces the old one although it may not have been written completely (not closed and checked on every path)")
            # the destination
            bad = i if any(entails(alt, "==", src, dst) for alt in s) else None
            for j, m in v.nodes.items():
                if j not in v.elem_of or j == i or C.before(j) is None:
                    continue
                if m["k"] == "call" and short(P.callee(m)) in ("remove", "unlink", "truncate", "remove_all", "resize_file", "fopen", "open", "creat") and m.get("o") is None and m["a"]:
                    t = C.term(m["a"][0])
                    if names(t) & names(dst) and not names(t) & (names(src) - names(dst)):
                        bad = j
            for d in streams:
                for x in v.vars[d]["inits"]:
                    if any(names(C.term(j)) and names(C.term(j)) <= names(dst) and not names(C.term(j)) & (names(src) - names(dst)) for j in v.subtree(x) if C.term(j)[0] in ("v", "f")):
                        if d not in mine:
                            bad = x
            R.ob("keep-old", v.loc(bad if bad is not None else i), P.render(v, bad if bad is not None else i), bad is None, func=v.f, detail="keep-old",
                 msg="the old file is gone or damaged before the new one has taken its place")
            # complete: loops over the data that write to the stream
            C2 = Counts(P, v, ["wrote"], lambda g, e: [x for x in ev(g, e) if x[0] == "wrote"])
            ls = [(h, body, lat) for h, body, lat in loops(v) if any(e in v.nodes and stream_of(P, v, e) is not None and v.nodes[e]["k"] == "call" and v.nodes[e].get("op") == "<<"
                                                                    for b in body for e in v.blocks[b]["s"] if isinstance(e, int))]
            ok = bool(ls)
            if ls:
                h, body, lat = ls[0]
                def edge_ev(b, t):
                    if b == h and t in body:
                        return [("wrote", "=", 0)]
                    blk = v.blocks[b]
                    if blk.get("tc") is not None and len(blk["to"]) == 2 and b in body:
                        alts = C2.cond(blk["tc"], blk["to"][0] == t)
                        if alts and all(any(op == "==" and ZERO in (x, y) and any(z[0] == "m" and z[1] == "size" for z in (x, y)) for (op, x, y) in a) for a in alts):
                            return [("wrote", "=", 1)]      # an empty value is not saved
                    return ()
                C2.edge_ev = edge_ev
                C2.solve()
                for b in lat:
                    s2 = C2.inb.get(b)
                    if s2 is None:
                        continue
                    for e in v.blocks[b]["s"]:
                        s2 = C2.elem(s2, e, b)
                    if C2.values(s2, "wrote") != [1]:
                        ok = False
            R.ob("complete", v.loc(i), "keys and values written", ok, func=v.f, detail="complete", msg="a key with a value may be left out of the saved file")
        for i, n in v.nodes.items():
            if i not in v.elem_of:
                continue
            if n["k"] == "asg" and v.nodes[n["x"]]["k"] == "mem" and detmpl(v.nodes[n["x"]]["n"]) == DIRTY and v.nodes[n["r"]].get("cv") != 1:
                s = C.before(i)
                if s is None:
                    continue
                t = C.term(n["x"])
                ok = all(C.gval(a, "renamed") == 1 or entails(a, "==", t, ZERO) for a in s)
                R.ob("marked", v.loc(i), P.render(v, i), ok, func=v.f, detail="clear", msg="changes are marked as saved on a path where the file has not been replaced")
        # every change of the data by the object itself marks it
        if v.cls == "RealSettings" and not v.is_ctor and not v.is_dtor:
            muts = [i for i, n in v.nodes.items() if i in v.elem_of and mutates(P, v, n)]
            if muts:
                s = C.inb.get(v.exit)
                C3 = Counts(P, v, ["change", "dirty", "queued"], lambda g, e: ([("change", "=", 1)] if e in muts else []) + [x for x in ev(g, e) if x[0] in ("dirty", "queued")]).solve()
                s = C3.inb.get(v.exit) or ()
                ok = all(C3.gval(a, "change") == 0 or C3.gval(a, "dirty") == 1 and C3.gval(a, "queued") == 1 for a in s)
                R.ob("marked", v.loc(muts[0]), P.render(v, muts[0]), ok, func=v.f, detail="set", msg="a setting is changed without being marked as unsaved and queued for saving")
        # dropping open files
        F = None
        for i, n in v.nodes.items():
            if i in v.elem_of and n["k"] == "call" and n.get("o") is not None and short(P.callee(n)) in ("erase", "clear", "swap") and v.cls != "FakeSettingsFactory":
                p = P.path(v, n["o"])
                if p and p[-1] == FILES:
                    F = F or facts(P, v)
                    s = F.before(i)
                    if s is None:
                        continue
                    ok = all(saved(P, v, F, a) for a in s) and short(P.callee(n)) == "erase"
                    R.ob("dropped", v.loc(i), P.render(v, i), ok, func=v.f, detail=short(P.callee(n)) + v.f,
                         msg="open settings are dropped from memory although saving them may have failed")
    R.ob("rename", "daemon/Settings.cpp", "settings are replaced by rename", nren > 0, detail="exists", msg="settings files are no longer replaced by renaming a temporary file")


def mutates(P, v, n):
    if n["k"] == "asg":
        x = v.nodes[n["x"]]
        if x["k"] == "call" and x.get("op") == "[]":
            p = P.path(v, x["o"])
            return bool(p) and p[-1] == DATA
    if n["k"] == "call" and n.get("o") is not None:
        if n.get("op") == "=":
            x = v.nodes[n["o"]]
            if x["k"] == "call" and x.get("op") == "[]":
                p = P.path(v, x["o"])
                return bool(p) and p[-1] == DATA
        if short(P.callee(n)) in ("erase", "clear", "insert", "swap"):
            p = P.path(v, n["o"])
            return bool(p) and p[-1] == DATA
    return False


def good(alt, v):
    for (op, x, y) in alt:
        if ZERO in (x, y):
            t = y if x == ZERO else x
            if op == "!=" and (t == v or t[0] == "m" and t[1] in ("good", "operator bool", "operator void *") and v in t):
                return True
            if op == "==" and t[0] == "m" and t[1] == "fail" and v in t:
                return True
    return False


def saved(P, v, F, alt):
    """the last save of this entry is known to have succeeded"""
    for (op, x, y) in alt:
        for a, b in ((x, y), (y, x)):
            if a[0] == "e" and (op == "!=" and b == ZERO or op == "==" and b == ("c", 1)):
                n = v.nodes.get(a[1], {})
                if n.get("k") == "call" and short(P.callee(n)) == "save" and detmpl(n.get("c", "")) == "RealSettings":
                    return True
            if a[0] == "v" and (op == "!=" and b == ZERO or op == "==" and b == ("c", 1)):
                q = getattr(v, "extra_vars", {}).get(a[1])
                if q and q["n"] == "result of save":
                    return True
    return False
