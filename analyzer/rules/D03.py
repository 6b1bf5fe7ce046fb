"""On-disk and wire layout: the compiler's own record layout against a frozen table, and every serialiser against the record it fills."""
from ista.model import detmpl, short

# name -> (size, [(field, offset, kind, width)])   width in bytes; kind i signed, u unsigned, f float, c char array, r record
LAYOUT = {
    "istat::Header4": (440, [
        ("magic", 0, "c", 16), ("hdr_size", 16, "i", 4), ("cfg_interval", 20, "i", 4), ("flags", 24, "i", 4), ("cr_version", 28, "i", 4),
        ("rd_version", 32, "i", 4), ("page_size", 40, "i", 8), ("page_count", 48, "i", 8), ("first_bucket", 56, "i", 8), ("last_bucket", 64, "i", 8),
        ("last_time", 72, "i", 8), ("cumulative_sum", 80, "f", 8), ("cumulative_sum_sq", 88, "f", 8), ("cumulative_count", 96, "i", 8),
        ("last_cumulative_clear_time", 104, "i", 8), ("file_create_time", 112, "i", 8), ("unit", 120, "c", 64), ("name", 184, "c", 256)]),
    "istat::Header6": (456, [("lambda", 440, "f", 8), ("season", 448, "u", 8)]),
    "istat::Header8": (464, [("fixed_count", 456, "i", 8)]),
    "istat::FileBucketLayout": (32, [("time_", 0, "i", 8), ("sum_", 8, "f", 8), ("min_", 16, "f", 4), ("max_", 20, "f", 4), ("count_", 24, "i", 4), ("sumSq_", 28, "f", 4)]),
    "istat::Bucket": (32, []),
    "UniqueId": (16, [("id", 0, "c", 16)]),
    "PduConnect": (20, [("Version", 0, "u", 4), ("ServerId", 4, "r", 16)]),
    "PduDiscover": (464, [("header", 0, "r", 464)]),
    "PduRequest": (16, [("fromTime", 0, "i", 8), ("numBuckets", 8, "i", 8)]),
    "PduData": (40, [("numBuckets", 0, "i", 8), ("buckets", 8, "r", 32)]),
    "PduError": (1, []),
}
BASES = {"istat::Header6": ["istat::Header4"], "istat::Header8": ["istat::Header6"], "istat::Bucket": ["istat::FileBucketLayout"],
         "PduConnect": ["PduBase<1>"], "PduDiscover": ["PduBase<2>"], "PduRequest": ["PduBase<3>"], "PduData": ["PduBase<4>"], "PduError": ["PduBase<5>"]}
MAGIC = [0x69, 0x73, 0x74, 0x61, 0x74, 0x64, 0x20, 0x34, 0x2e, 0x30, 0x0a, 0x00, 0xf5, 0x14, 0x07, 0x00]
VERSIONS = {"istat::Header4::cr_version": 8, "istat::Header4::rd_version": 4}
FLAGS = {"istat::FILE_FLAG_IS_COLLATED": 1, "istat::FILE_FLAG_IS_TRAILING": 2, "istat::FILE_FLAG_IS_COUNTER_AGGREGATE": 4,
         "ReplicateProtocolVersion1": 1}
# serialised form: what make() appends, in order (field or trailing text)
WIRE = {"PduConnect": ["Version", "ServerId"], "PduDiscover": ["header"], "PduRequest": ["fromTime", "numBuckets", "+text"],
        "PduData": ["numBuckets", "buckets", "+text"], "PduError": ["+text"]}
ASSUME = ["the layout of this table is the layout of files and peers in the field (taken from the released header version 8, magic 4.0)"]

W = {"char": ("c", 1), "unsigned char": ("c", 1), "signed char": ("c", 1), "int": ("i", 4), "unsigned int": ("u", 4), "long": ("i", 8), "unsigned long": ("u", 8),
     "float": ("f", 4), "double": ("f", 8), "short": ("i", 2), "unsigned short": ("u", 2), "bool": ("u", 1), "long long": ("i", 8), "unsigned long long": ("u", 8)}


def kind(P, t):
    n = 1
    t = t.replace("const ", "")
    while t.endswith("]"):
        k = t.rindex("[")
        n *= int(t[k + 1:-1])
        t = t[:k].strip()
    if t in W:
        return W[t][0], W[t][1] * n
    c = P.classes.get(detmpl(t))
    if c:
        return "r", c["size"] * n
    return "?", 0


def run(P, R):
    R.rule("layout", "every field of a stored or transmitted record has its fixed offset, width and representation", 30)
    R.rule("size", "every stored or transmitted record has its fixed size and base record", 10)
    R.rule("identity", "magic value, version numbers and flag values written to files and messages are the fixed ones", 5)
    R.rule("serialise", "each message builder appends the fields of its record in order, each with the field's own type", 8)
    for cn, (size, fields) in LAYOUT.items():
        c = P.classes.get(cn)
        if not c:
            R.ob("size", "include", cn, False, detail=cn, msg="record %s no longer exists" % cn)
            continue
        w = "%s:%s" % (c["file"], c["l"])
        R.ob("size", w, "sizeof %s" % cn, c["size"] == size and (cn not in BASES or list(c["bases"]) == BASES[cn]), detail=cn,
             msg="%s is %d bytes with bases %s; stored and transmitted records have %d bytes and bases %s" % (cn, c["size"], c["bases"], size, BASES.get(cn, [])))
        got = {short(q["n"]): (q["off"],) + kind(P, q["t"]) for q in c["fields"]}
        want = {n: (o, k, wd) for n, o, k, wd in fields}
        missing = [n for n in want if n not in got]
        extra = [n for n in got if n not in want]
        # a renamed field: same place and representation under a name that was not a field before
        ren = {}
        for n in missing:
            for m in extra:
                if got[m] == want[n]:
                    ren[n] = m
        for n in want:
            m = ren.get(n, n)
            R.ob("layout", w, "%s::%s" % (cn, n), got.get(m) == want[n], detail=cn + "::" + n,
                 msg="%s::%s is at (offset, kind, width) %s; files and peers have it at %s" % (cn, n, got.get(m), want[n]))
        for m in extra:
            if m not in ren.values():
                R.ob("layout", w, "%s::%s" % (cn, m), False, detail=cn + "::" + m, msg="field %s::%s is not part of the stored layout" % (cn, m))
    for g in P.globals.values():
        if g["n"] == "istat::file_magic":
            top = g["nodes"].get(str(g["init"]), {})
            v = None
            if top.get("k") == "str":
                b = bytes.fromhex(top["hx"]) if "hx" in top else top["v"].encode("utf-8")
                ok = list(b) + [0] * (16 - len(b)) == MAGIC
            else:
                v = [g["nodes"][str(x)].get("cv") for x in top.get("a", [])] if top.get("k") == "ilist" else []
                v = v + [0] * (16 - len(v))
                ok = [x & 255 if isinstance(x, int) else None for x in v] == MAGIC
            R.ob("identity", "%s:%s" % (g["file"], g["l"]), "istat::file_magic", ok, detail="magic", msg="the magic value written to and required of counter files changed")
    # values stored and compared
    seen = set()
    for f in P.funcs.values():
        for i, n in f.nodes.items():
            if n["k"] == "ref" and n.get("dk") == "enum" and n.get("n") in FLAGS and n["n"] not in seen:
                seen.add(n["n"])
                R.ob("identity", f.loc(i), n["n"], n.get("cv") == FLAGS[n["n"]], func=f.f, detail=n["n"],
                     msg="%s is %s; in files and messages it is %s" % (n["n"], n.get("cv"), FLAGS[n["n"]]))
    for f in P.funcs.values():
        # a new header: the function that stores a version into a local header record
        for i, n in f.nodes.items():
            if n["k"] == "asg" and n["op"] == "=" and f.nodes[n["x"]]["k"] == "mem" and detmpl(f.nodes[n["x"]]["n"]) in VERSIONS:
                b = f.nodes[P.strip_smart(f, f.nodes[n["x"]]["b"])]
                v = f.vars.get(b.get("d")) if b["k"] == "ref" else None
                if v and not v["param"] and not v.get("ref"):
                    fld = detmpl(f.nodes[n["x"]]["n"])
                    R.ob("identity", f.loc(i), "%s of a new file" % short(fld), f.nodes[n["r"]].get("cv") == VERSIONS[fld], func=f.f, detail=fld,
                         msg="new files are written with %s %s instead of %d" % (short(fld), f.nodes[n["r"]].get("cv"), VERSIONS[fld]))
    for cn, seq in WIRE.items():
        for f in P.funcs.values():
            if f.f != cn + "::make":
                continue
            v = P.view(f)
            got = appended(P, v)
            c = P.classes[cn]
            names = {short(q["n"]): q for q in c["fields"]}
            k = 0
            for i, ty, arg in got:
                want = seq[k] if k < len(seq) else None
                if want == "buckets":
                    ok = ty == "istat::Bucket"
                elif want == "+text":
                    ok = "basic_string" in ty
                elif want is None:
                    ok = False
                else:
                    q = names.get(want) or (c["fields"][k] if k < len(c["fields"]) else None)
                    ok = q is not None and kind(P, ty) == kind(P, q["t"]) and ("basic_string" not in ty)
                    # a value named like another field of the record is in the wrong place
                    if ok and arg and any(arg.lower() == x.lower() for x in names if x != want):
                        ok = False
                R.ob("serialise", v.loc(i), "%s: %s" % (cn, want), ok, func=f.f, detail="%s/%d" % (cn, k),
                     msg="%s::make appends %s (%s) where the record has %s" % (cn, arg or "a value", ty, want))
                k += 1
            R.ob("serialise", f.loc(), "%s complete" % cn, k == len(seq), func=f.f, detail=cn, msg="%s::make appends %d parts; the message has %d" % (cn, k, len(seq)))
    # framing: type word then size word, 4 bytes each
    for f in P.funcs.values():
        if f.f == "PduReaderActor::on_data":
            v = P.view(f)
            ev = []
            for b in sorted(v.blocks, reverse=True):
                for e in v.blocks[b]["s"]:
                    if isinstance(e, int):
                        n = v.nodes[e]
                        if n["k"] == "call" and short(P.callee(n)) == "readIn" and len(n["a"]) == 2:
                            p = P.path(v, n["a"][0])
                            fld = short(p[-1]) if p and isinstance(p[-1], str) else None
                            m = v.nodes[P.strip_smart(v, n["a"][0])]
                            if m["k"] == "un" and m["op"] == "&":
                                x = v.nodes[m["x"]]
                                fld = short(x["n"]) if x["k"] == "mem" else fld
                            ev.append((e, fld, v.nodes[n["a"][1]].get("cv")))
            hd = [x for x in ev if x[1] in ("type", "size")]
            R.ob("serialise", f.loc(), "message framing", [(x[1], x[2]) for x in sorted(hd, key=lambda x: v.nodes[x[0]]["l"])] == [("type", 4), ("size", 4)], func=f.f, detail="framing",
                 msg="a message starts with a 4-byte type and a 4-byte size; the reader takes %s" % [(x[1], x[2]) for x in hd])


def appended(P, f):
    """(node, type, name) of every value appended to a PduWriter, in program order"""
    r = []
    order = []
    seen = set()

    def walk(b):
        # blocks in a depth-first order that follows source order for straight code and loops
        st = [b]
        while st:
            x = st.pop()
            if x in seen:
                continue
            seen.add(x)
            order.append(x)
            for s in reversed([y for y in f.blocks[x]["to"] if y is not None]):
                st.append(s)
    walk(f.entry)
    for b in order:
        for e in f.blocks[b]["s"]:
            if not isinstance(e, int):
                continue
            n = f.nodes[e]
            if n["k"] == "call" and n.get("op") == "<<" and detmpl(n.get("c", "")) == "PduWriter" or \
                    n["k"] == "call" and short(P.callee(n)) == "write" and detmpl(n.get("c", "")) == "PduWriter" and not f.f.startswith("PduWriter"):
                if not n["a"]:
                    continue
                a = f.nodes[P.strip_smart(f, n["a"][0])]
                r.append((e, detmpl(a.get("tc") or a.get("t", "")).replace("const ", ""), a.get("n") if a["k"] == "ref" else None))
    return r
