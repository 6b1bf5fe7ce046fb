"""Replica messages: a payload becomes a typed record only where its size is known to suffice, and bytes are copied only within what was received."""
import re
from ista.model import detmpl, short
from ista.facts import facts, entails
from ista.util import Counts

ASSUME = ["the records cast to are trivially laid out (their layouts are decided by D03)"]
HDR = "PduHeader"
PAY, SIZE = HDR + "::payload", HDR + "::size"
LIST = "PduReaderActor::pending_"
DONE = "PduReaderActor::pduComplete_"


def size_of(P, t):
    m = re.match(r"(?:const )?([\w:]+)(?: const)? \*$", (t or "").strip())
    c = m and P.classes.get(m.group(1))
    return c["size"] if c and c.get("size") is not None else None


def recs(P):
    return set(c for c in P.classes if any(detmpl(b) == "PduBase" for b in P.all_bases(c)))


def run(P, R):
    R.rule("record", "a received payload is used as a typed record only where its size is at least the size of the record", 2)
    R.rule("through", "the received size travels with the received bytes to the interpreter", 3)
    R.rule("complete", "a message is handed out only when all of its bytes have arrived", 3)
    R.rule("header", "a message header is read only when all of its bytes are there, into the fields it fills", 2)
    R.rule("within", "received bytes are stored only inside the buffer made for them, and no more than the message announced", 2)
    R.rule("copy", "a copy into or out of a message buffer stays inside of it", 2)
    R.rule("text", "text is taken from the end of a record only where the bytes handed over end with a terminator", 1)
    RECS = recs(P)
    # ---- casts of received bytes
    for f in list(P.funcs.values()):
        if f.implicit or "test" in f.file or (f.cls or "").startswith("Fake"):
            continue
        for i, n in f.nodes.items():
            if n["k"] != "cast" or detmpl(n.get("tc") or "") not in RECS or "*" not in (n.get("to") or ""):
                continue
            if "const" not in (n.get("ft") or ""):
                continue                                    # a buffer being written
            ps = [q for q in f.params if not q.get("tc") and re.match(r"(unsigned|size_t|int|long|uint)", q["t"])]
            F = facts(P, P.view(f))
            v = P.view(f)
            for w, j in P.contexts(f, i):
                F = facts(P, w)
                s = F.before(j)
                if s is None:
                    if j not in w.elem_of:
                        # not an element of its own: decide at the enclosing element
                        k = j
                        while k not in w.elem_of and w.parents.get(k) is not None:
                            k = w.parents[k] if not isinstance(w.parents[k], (list, tuple, set)) else list(w.parents[k])[0]
                        s = F.before(k)
                    if s is None:
                        continue
                need = size_of(P, n["to"]) or P.classes.get(n.get("tc"), {}).get("size")
                ok = need is not None and all(any(entails(alt, "<=", ("c", need), ("v", q["d"])) for q in w.params if q["t"] in ("unsigned long", "unsigned int", "size_t")) for alt in s)
                if w is not v and not ok:
                    # sizes that arrive in variables of the caller
                    ok = need is not None and all(any(op in ("<=", "<", "==") and entails(alt, "<=", ("c", need), b) for (op, a, b) in alt if b[0] in ("v", "f")) for alt in s)
                R.ob("record", f.loc(i), "%s as %s (%s bytes)" % (P.render(f, i), n["to"], need), ok, func=f.f, detail="record " + (n.get("tc") or ""),
                     msg="the payload is read as a %s without knowing that %s bytes were received" % (n.get("tc"), need))
    # ---- the size goes with the data
    for v in P.roots():
        if v.implicit or "test" in v.file:
            continue
        for i, n in v.nodes.items():
            if n["k"] != "call" or short(P.callee(n)) != "onPdu" or len(n["a"]) != 3 or i not in v.elem_of:
                continue
            F = facts(P, v)
            s = F.before(i)
            if s is None:
                continue
            sz, dat = F.term(n["a"][1]), F.term(n["a"][2])
            if sz[0] == "v" and dat[0] == "v":
                ps = [q["d"] for q in v.params]
                ok = len(ps) == 3 and sz[1] == ps[1] and dat[1] == ps[2] and v.vars[ps[1]]["assigned"] == 0 and v.vars[ps[2]]["assigned"] == 0
                R.ob("through", v.loc(i), P.render(v, i), ok, func=v.f, detail="through", msg="the size passed on is not the size of the bytes passed on")
                continue
            base = dat
            while base[0] in ("a", "i") or base[0] == "m" and base[1] in ("data", "front", "c_str"):
                base = base[1] if base[0] in ("a", "i") else base[2]
            own = base[0] == "f" and base[2] == PAY and ("f", base[1], SIZE) or None

            def ev(g, e):
                if isinstance(e, dict):
                    return ()
                m = g.nodes[e]
                if m["k"] == "call" and m.get("o") is not None:
                    p = P.path(g, m["o"])
                    if p and p[-1] == PAY:
                        nm = short(P.callee(m))
                        if nm == "push_back":
                            c = m["a"] and g.nodes[P.strip_smart(g, m["a"][0])].get("cv")
                            return [("grown", 1), ("term", "=", 1 if c == 0 else 0)]
                        if nm in ("resize", "swap", "assign", "insert", "erase", "clear", "pop_back", "operator="):
                            return [("grown", 5), ("term", "=", 0)]
                    if short(P.callee(m)) == "nextPdu":
                        return [("grown", "=", 0), ("term", "=", 0)]
                return ()
            C = Counts(P, v, ["grown", "term"], ev).solve()
            s = C.before(i)
            if s is None:
                continue
            ok = own is not None and (sz == own or all(entails(a, "==", sz, own) for a in s)
                                      or sz == ("m", "size", base) and all(C.gval(a, "grown") == 0 for a in s))
            R.ob("through", v.loc(i), P.render(v, i), ok, func=v.f, detail="through", msg="the size passed on is not the received size of the bytes passed on")
            R.ob("text", v.loc(i), P.render(v, i), all(C.gval(a, "term") == 1 for a in s), func=v.f, detail="text",
                 msg="the bytes handed over do not end with a terminator, but text is taken from the end of records")
    # ---- completeness
    for v in P.roots():
        if v.implicit or "test" in v.file:
            continue
        hit = [i for i, n in v.nodes.items() if n["k"] == "mem" and detmpl(n["n"]) in (LIST, DONE)]
        if not hit:
            continue
        F = facts(P, v)
        for i, n in v.nodes.items():
            if i not in v.elem_of:
                continue
            s = F.before(i)
            if s is None:
                continue
            if n["k"] == "call" and short(P.callee(n)) == "pop_front" and n.get("o") is not None:
                t = F.term(n["o"])
                if t[0] == "f" and t[2] == LIST:
                    done = ("f", t[1], DONE)
                    sz = ("m", "size", t)
                    ok = all((entails(a, "!=", done, ("c", 0)) or entails(a, "!=", sz, ("c", 1))) and entails(a, "!=", sz, ("c", 0)) for a in s)
                    R.ob("complete", v.loc(i), P.render(v, i), ok, func=v.f, detail="handed out",
                         msg="a message may be handed out before all of its bytes have arrived")
            if n["k"] == "asg" and v.nodes[n["x"]]["k"] == "mem" and detmpl(v.nodes[n["x"]]["n"]) == DONE and v.nodes[n["r"]].get("cv") != 0:
                t = F.term(n["x"])
                lst = ("f", t[1], LIST)
                x = ("m", "back", lst)
                ok = all(entails(a, "==", ("m", "size", ("f", x, PAY)), ("f", x, SIZE)) for a in s)
                R.ob("complete", v.loc(i), P.render(v, i), ok, func=v.f, detail="complete",
                     msg="the newest message is called complete although its payload may be shorter or longer than announced")
        # a new header makes the newest message incomplete until it is filled
        def ev(g, e):
            if isinstance(e, dict):
                return ()
            m = g.nodes[e]
            if m["k"] == "call" and short(P.callee(m)) == "push_back" and m.get("o") is not None and (P.path(g, m["o"]) or [None])[-1] == LIST:
                return [("open", "=", 1)]
            if m["k"] == "asg" and g.nodes[m["x"]]["k"] == "mem" and detmpl(g.nodes[m["x"]]["n"]) == DONE:
                return [("open", "=", 0)]
            return ()
        pushes = [i for i, n in v.nodes.items() if n["k"] == "call" and i in v.elem_of and ev(v, i) == [("open", "=", 1)]]
        if pushes:
            C = Counts(P, v, ["open"], ev).solve()
            ex = C.inb.get(v.exit) or []
            oks = all(C.gval(a, "open") == 0 for a in ex)
            for i in pushes:
                pre = C.before(i) or []
                R.ob("complete", v.loc(i), P.render(v, i), oks and all(C.gval(a, "open") == 0 for a in pre), func=v.f, detail="new header",
                     msg="a message that has just begun still counts as complete")
        # reading from the connection
        for i, n in v.nodes.items():
            if n["k"] != "call" or short(P.callee(n)) not in ("readIn", "peekIn") or i not in v.elem_of or len(n["a"]) != 2:
                continue
            s = F.before(i)
            if s is None:
                continue
            d, k = F.term(n["a"][0]), F.term(n["a"][1])
            dn = v.nodes[P.strip_smart(v, n["a"][0])]
            if d[0] == "a" and d[1][0] == "f":
                w = next((fl for c in P.classes.values() for fl in c["fields"] if detmpl(fl["n"]) == d[1][2]), None)
                full = F.term(n["a"][1])
                width = {"unsigned int": 4, "int": 4, "unsigned short": 2, "unsigned long": 8, "long": 8, "unsigned char": 1}.get((w or {}).get("t"))
                ok = width is not None and k == ("c", width)
                R.ob("header", v.loc(i), P.render(v, i), ok, func=v.f, detail="header " + d[1][2], msg="the number of bytes read does not match the field they are read into")
            elif d[0] == "a" and d[1][0] == "i" or d[0] == "o" and d[1] == "+":
                vec, off = (d[1][1], d[1][2]) if d[0] == "a" else (d[2][1] if d[2][0] in ("a", "i") else d[2], d[3])
                if not (vec[0] == "f" and vec[2] == PAY):
                    continue
                ok1 = all(inside(a, off, k, ("m", "size", vec)) for a in s)
                R.ob("within", v.loc(i), P.render(v, i), ok1, func=v.f, detail="within", msg="bytes are read past the end of the buffer made for them")
        # the payload never becomes longer than announced
        for i, n in v.nodes.items():
            if n["k"] == "call" and short(P.callee(n)) in ("resize", "insert", "push_back", "assign", "append") and n.get("o") is not None and i in v.elem_of:
                t = F.term(n["o"])
                if t[0] == "f" and t[2] == PAY and t[1] == ("m", "back", ("f", ("this",), LIST)):
                    s = F.before(i)
                    if s is None:
                        continue
                    k = F.term(n["a"][0])
                    ok = short(P.callee(n)) == "resize" and all(at_most(a, k, ("f", t[1], SIZE), ("m", "size", t)) for a in s)
                    R.ob("within", v.loc(i), P.render(v, i), ok, func=v.f, detail="announced", msg="a message can take more bytes than it announced, the beginning of the next one")
        # headers: enough bytes there before the first piece is read
        hd = [i for i in pushes]
        for i in hd:
            s = F.before(i) or []
            tot = sum(v.nodes[n["a"][1]].get("cv", 0) or 0 for j, n in v.nodes.items() if n["k"] == "call" and short(P.callee(n)) in ("readIn", "peekIn") and len(n["a"]) == 2 and j in v.elem_of
                      and F.term(n["a"][0])[0] == "a" and F.term(n["a"][0])[1][0] == "f")
            ok = bool(s) and all(avail(a, P, v, tot) for a in s)
            R.ob("header", v.loc(i), P.render(v, i), ok, func=v.f, detail="header bytes", msg="a message header (%d bytes) is read although fewer bytes may have arrived" % tot)
    # ---- copies
    for v in P.roots():
        if detmpl(v.cls or "") not in ("PduWriter", "EagerConnection", "PduReaderActor") or v.implicit:
            continue
        for i, n in v.nodes.items():
            if n["k"] == "call" and short(P.callee(n)) in ("memcpy", "memmove") and i in v.elem_of and len(n["a"]) == 3:
                F = facts(P, v)
                s = F.before(i)
                if s is None:
                    continue
                d, sr, k = (F.term(a) for a in n["a"])
                ok = False
                if detmpl(v.cls) == "PduWriter" or (d[0] == "o" and "PduWriter::buf_" in str(d)):
                    pos = d[3] if d[0] == "o" and d[1] == "+" else ("c", 0)
                    szf = ("f", ("this",), "PduWriter::sz_")
                    ok = all(fits(a, pos, k, szf) for a in s)
                else:
                    b = sr
                    while b[0] in ("a", "i"):
                        b = b[1]
                    ok = all(entails(a, "<=", k, ("m", "size", b)) for a in s)
                R.ob("copy", v.loc(i), P.render(v, i), ok, func=v.f, detail="copy", msg="bytes are copied beyond the end of the buffer")
            elif n["k"] == "call" and short(P.callee(n)) == "erase" and v.cls == "EagerConnection" and short(v.f) in ("consume", "readIn") and i in v.elem_of and len(n["a"]) == 2:
                F = facts(P, v)
                s = F.before(i)
                if s is None:
                    continue
                e2 = F.term(n["a"][1])
                vec = F.term(n["o"])
                k = e2[3] if e2[0] == "o" and e2[1] == "+" else (e2[3] if e2[0] == "m" and len(e2) > 3 else None)
                ok = k is not None and all(entails(a, "<=", k, ("m", "size", vec)) for a in s)
                R.ob("copy", v.loc(i), P.render(v, i), ok, func=v.f, detail="consume", msg="more bytes are removed from the input than there are")


def fits(a, pos, k, sz):
    if entails(a, "<=", ("o", "+", pos, k), sz) or entails(a, "<=", ("o", "+", k, pos), sz):
        return True
    return entails(a, "<=", k, sz) and (entails(a, "<=", pos, ("o", "-", sz, k)) or entails(a, "<=", k, ("o", "-", sz, pos)))


def inside(a, off, k, size):
    return fits(a, off, k, size) or entails(a, "==", size, ("o", "+", off, k)) or entails(a, "==", size, ("o", "+", k, off))


def at_most(a, k, size, cur):
    if entails(a, "<=", k, size):
        return True
    if k[0] == "o" and k[1] == "+":
        for x, y in ((k[2], k[3]), (k[3], k[2])):
            if (x == cur or entails(a, "==", x, cur)):
                for z in (x, cur):
                    if entails(a, "<=", y, ("o", "-", size, z)):
                        return True
                # y bounded by a variable that holds size - x
                for (op, p, q) in a:
                    for s, t in ((p, q), (q, p)):
                        if op == "==" and t[0] == "o" and t[1] == "-" and t[2] == size and (t[3] == x or t[3] == cur or entails(a, "==", t[3], cur)) and entails(a, "<=", y, s):
                            return True
    return False


def avail(a, P, v, tot):
    for (op, p, q) in a:
        for x in (p, q):
            if x[0] == "e" and short(P.callee(v.nodes[x[1]]) if v.nodes[x[1]]["k"] == "call" else "") == "pendingIn" and entails(a, "<=", ("c", tot), x):
                return True
            if x[0] == "v" and entails(a, "<=", ("c", tot), x):
                q2 = v.vars.get(x[1])
                if q2 and any(v.nodes[P.strip_smart(v, j)]["k"] == "call" and short(P.callee(v.nodes[P.strip_smart(v, j)])) == "pendingIn" for j in q2["inits"]):
                    return True
    return False
