"""I04: client-supplied text in JSON answers is escaped."""
from ista.model import detmpl, short
from ista.chars import members, mask
from ista.strprov import strings, LIT, NUM

ASSUME = [
    "text that no program source produces (options, literals, numbers) is the operator's; every other text is taken to be a client's",
    "the writers of the JSON library escape what they are given",
    "text is part of a JSON answer when a literal with a quote or a brace was written to the same response stream before it on the path, or is part of the same value",
    "the date formatting functions of the libraries produce no quotes",
]

SIGN = mask(b'"{')
BAD = mask(b'"\\')


def jsonish(parts):
    return any(o == LIT and m & SIGN for o, m, mk, sl in parts)


def response(F, r):
    """the place is a stream that belongs to an object (the body of an answer), not a local or a log"""
    if r is None or r[0][0] not in ("this", "mem"):
        return None
    cls, _, fld = r[0][1].rpartition("::")
    for c in (F.P.classes.get(cls),):
        if c and (c.get("file") or "").startswith("daemon/"):
            for x in c["fields"]:
                if detmpl(x["n"]) == r[0][1] and "stream" in x["t"]:
                    return r[0][1]
    return None


def run(P, R):
    R.rule("escaped", "client text written to an answer among JSON went through an escaping function that lets no quote and no backslash through, or holds none", need=3)
    S = strings(P)
    seen = {}
    for v in S.roots():
        F = S.flows.get(v.u)
        if F is None:
            continue

        def cb(s, e, b, F=F):
            f = F.f
            if not isinstance(e, int) or f.nodes[e]["k"] != "call":
                return
            n = f.nodes[e]
            nm = short(P.callee(n) or n.get("f") or "")
            o, a = n.get("o"), list(n["a"])
            if n.get("op") == "<<" and o is None and len(a) == 2:
                o, a = a[0], a[1:]
            if o is None or not a or n.get("op") != "<<" and nm not in ("write", "put", "append"):
                return
            r = F.root(o)
            fld = response(F, r)
            if fld is None:
                return
            x = F.ev(a[0], s)
            before = frozenset(p for p in dict(s[0]).get(r[0], frozenset()) if p[0] == LIT)
            seen.setdefault((f.u, e), [F, fld, a[0], set(), False])
            seen[(f.u, e)][3] |= x
            if jsonish(before):
                seen[(f.u, e)][4] = True
        F.visit(cb)
    streams = set()
    for (u, e), (F, fld, a, parts, inside) in sorted(seen.items(), key=lambda t: str(t[0])):
        f = F.f
        full = S.resolve(frozenset(parts))
        if not inside and not jsonish(full):
            continue
        streams.add(fld)
        client = [(o, m, mk) for o, m, mk, sl in full if o not in (LIT, NUM) and o[0] != "unset"]
        if not client:
            continue
        bad = [(o, m) for o, m, mk in client if m & BAD and not any(isinstance(k, tuple) and k[0] == "esc" for k in mk)]
        where = f.loc(e)
        detail = "%s << %s" % (short(fld), P.render(f, a)[:60])
        R.ob("escaped", where, detail, not bad, func=f.f, detail=detail,
             msg="%s at %s puts text from outside (%s) into a JSON answer unescaped" % (detail, where, ", ".join(sorted(set(str(o[1]) for o, m in bad)))[:200]))
    R.note("%d writes to answers looked at, streams %s" % (len(seen), ", ".join(sorted(streams))))
