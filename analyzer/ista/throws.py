"""Which exception types may leave each function: explicit throws, known throwing library calls, calls through virtual
functions, signals, bound callables and member pointers; handlers filter by type.  Memory exhaustion, failing mutexes
and failing timers are assumed away (see ASSUME)."""
import re
from collections import defaultdict
from .model import detmpl, short
from .flow import handler_targets, try_chain, norm_exc, exc_chain

ASSUME = ["memory allocation, mutex locking, timers and closing an owned socket do not fail; an object calling shared_from_this() is owned by a shared_ptr"]
ASIO_THROWING = {"open", "bind", "set_option", "get_option", "connect", "shutdown", "remote_endpoint", "local_endpoint", "accept",
                 "listen", "io_control", "available", "assign", "native_non_blocking", "receive", "send", "receive_from", "send_to",
                 "read_some", "write_some", "resolve", "wait"}
FS_THROWING = {"exists", "is_directory", "is_empty", "is_regular_file", "create_directories", "create_directory", "create_hard_link",
               "create_symlink", "remove", "remove_all", "rename", "copy_file", "file_size", "last_write_time", "equivalent",
               "resize_file", "space", "canonical", "absolute", "current_path", "status", "read_symlink", "hard_link_count"}
JSON_AS = {"asInt", "asInt64", "asUInt", "asUInt64", "asString", "asCString", "asBool", "asDouble", "asFloat", "getMemberNames",
           "append", "operator[]", "removeMember", "resize", "get", "isMember"}


# functions whose only throw states a broken calling rule, kept by all callers
GUARDS = {"istat::Env::get_interface": "an environment object is asked for before main() set it up",
          "EagerConnection::consume": "more bytes consumed than were peeked (a caller consumes what it read; see I05)",
          "istat::MmapImpl::verify": "a file descriptor that did not come from its open()",
          "HttpRequest::readHeaders": "called a second time for one request (only the accept handlers call it, once per new request)",
          "ShardedMap::get_from_index": "index outside 0..255 (the only caller counts up to dimension())"}


def is_fake(f):
    return "Fake" in f.f or "test" in f.file.rsplit("/", 1)[-1].lower() or f.file.startswith("ftest")


def class_of_ptr(t):
    m = re.search(r"shared_ptr<(?:class |struct )?([A-Za-z_:0-9]+)", t or "")
    return m.group(1) if m else None


class Throws:
    def __init__(self, P):
        self.P = P
        self.ctors = defaultdict(list)
        for f in P.funcs.values():
            if f.is_ctor and f.cls:
                self.ctors[f.cls].append(f)
                self.ctors[short(f.cls)].append(f)
        self._sync = {}
        self._ext = {}
        self.esc = {u: {} for u in P.funcs}
        self.solve()

    # ---- who runs when node i is evaluated
    def sync(self, f, i):
        k = (f.u, i)
        if k in self._sync:
            return self._sync[k]
        P, n = self.P, f.nodes[i]
        ts = [t for t in P.targets(f, n) if not (is_fake(t) and not is_fake(f))]
        if n["k"] == "call":
            for t in P.signal_targets(f, n):
                if t not in ts and not is_fake(t):
                    ts.append(t)
            if not n.get("u"):
                for j in f.kids(i):
                    for x in f.subtree(j):
                        if f.nodes[x]["k"] == "fn":
                            ts += [t for t in P.targets(f, f.nodes[x]) if t not in ts]
                # the member pointer hangs beside the object
                o = n.get("o")
                if not ts:
                    for j, m in f.nodes.items():
                        if m["k"] == "bin" and m["op"] in ("->*", ".*") and m.get("x") == o:
                            for x in f.subtree(m["r"]):
                                if f.nodes[x]["k"] == "fn":
                                    ts += [t for t in P.targets(f, f.nodes[x]) if t not in ts]
            if n.get("op") == "()" and n.get("o") is not None and not ts:
                for t, _ in self.callback(f, n["o"]):
                    if t not in ts:
                        ts.append(t)
            if short(P.callee(n)) == "make_shared" and "u" in n:
                c = class_of_ptr(n.get("t"))
                for t in self.ctors.get(c, []):
                    if len(t.params) == len(n["a"]):
                        ts.append(t)
        self._sync[k] = ts
        return ts

    def callback(self, f, o, depth=0):
        """functions bound in the callable held by expression o: [(Func, (holder func, bind node) )]"""
        P = self.P
        c = P.closure(f, o)
        if c:
            return [(t, (f, c)) for t in P.targets(f, f.nodes[c[0]])]
        x = f.nodes[P.strip_smart(f, o)]
        r = []
        if x["k"] == "ref" and x.get("dk") == "param" and depth < 4:
            ix = [k for k, p in enumerate(f.params) if p["d"] == x["d"]]
            if ix:
                for cf, ci in P.callers[f.u]:
                    a = cf.nodes[ci].get("a", [])
                    if ix[0] < len(a):
                        r += self.callback(cf, a[ix[0]], depth + 1)
        return r

    # ---- library calls
    def ext(self, f, i):
        k = (f.u, i)
        if k in self._ext:
            return self._ext[k]
        r = self._ext[k] = self._ext_(f, i)
        return r

    def _ext_(self, f, i):
        P, n = self.P, f.nodes[i]
        if n["k"] == "ctor":
            c = detmpl(n.get("c", ""))
            if c.startswith("boost::filesystem::") and "directory_iterator" in c and n["a"] and not self.has_ec(f, n) and not n.get("copy"):
                return ("boost::filesystem::filesystem_error",)
            if c == "std::basic_string" and len(n["a"]) >= 2 and self.is_str(f, n["a"][0]) and "allocator" not in f.nodes[n["a"][1]].get("t", ""):
                return () if self.within(f, i, n["a"][0], n["a"][1]) else ("std::out_of_range",)
            return ()
        if n["k"] != "call":
            return ()
        q = detmpl(n.get("f", ""))
        s = short(q)
        c = detmpl(n.get("c", ""))
        if s == "lexical_cast":
            t = n.get("t", "")
            return () if "string" in t else ("boost::bad_lexical_cast",)
        if s == "any_cast":
            return () if n.get("t", "").rstrip().endswith("*") else ("boost::bad_any_cast",) if False else ()
        if s == "at" and c.startswith("std::"):
            return ("std::out_of_range",)
        if c == "std::basic_string" and s in ("substr", "erase", "insert", "replace", "compare") and n["a"] and self.is_int(f, n["a"][0]):
            return () if self.within(f, i, n["o"], n["a"][0]) else ("std::out_of_range",)
        if s in ("resize", "reserve") and c in ("std::vector", "std::basic_string", "std::deque") and n["a"]:
            return ("std::length_error",) if self.parsed(f, n["a"][0]) else ()
        if c == "Json::Value" and s in JSON_AS:
            return () if self.fresh_json(f, n.get("o")) or s == "operator[]" and self.is_int(f, n["a"][0]) else ("Json::LogicError",)
        if q == "Json::Reader::parse":
            return ("Json::RuntimeError",)
        if q.startswith("boost::asio::"):
            if s in ("host_name", "from_string", "make_address", "make_address_v4") or s in ASIO_THROWING and not c.endswith("timer"):
                return () if self.has_ec(f, n) else ("boost::system::system_error",)
            return ()
        if q.startswith("boost::filesystem::") and s in FS_THROWING and n.get("o") is None:
            return () if self.has_ec(f, n) else ("boost::filesystem::filesystem_error",)
        if s == "operator++" and n.get("o") is not None and "directory_iterator" in f.nodes[n["o"]].get("t", "") + n.get("c", ""):
            return ("boost::filesystem::filesystem_error",)
        if q.startswith("std::sto"):
            return ("std::invalid_argument", "std::out_of_range")
        return ()

    def has_ec(self, f, n):
        return any("error_code" in f.nodes[a].get("t", "") for a in n["a"])

    def is_int(self, f, i):
        n = f.nodes[i]
        t = n.get("t", "")
        return "cv" in n or n["k"] == "int" or any(w in t.split() or t.endswith(w) for w in ("int", "long", "size_t", "size_type", "unsigned", "short"))

    def is_str(self, f, i):
        return "string" in f.nodes[i].get("t", "") and "*" not in f.nodes[i].get("t", "")

    def within(self, f, i, o, a):
        """position argument a known to be at most the string's size"""
        if f.nodes[a].get("cv") == 0:
            return True
        P = self.P
        if self.inside(f, i):
            return True
        cs = P.contexts(f, i)
        return bool(cs) and all(v is not f and self.inside(v, j) for v, j in cs)

    def inside(self, f, i, k=0):
        from .zones import zones
        m = f.nodes[i]
        o, a = (m["a"][0], m["a"][1]) if m["k"] == "ctor" else (m["o"], m["a"][0])
        Z = zones(self.P, f)
        s = Z.before(i)
        if s is None:
            return True
        r = Z.lin(s, a)
        return r is not None and Z.le(s, r, (("m", "size", Z.term(o)), 0), k)

    def parsed(self, f, i, depth=0):
        """value that comes straight from parsing a number"""
        P = self.P
        for x in f.subtree(i):
            n = f.nodes[x]
            if n["k"] == "call" and short(P.callee(n)) in ("lexical_cast", "to_size_t", "strtoul", "atoi", "atol", "strtol"):
                return True
            if n["k"] == "ref" and n.get("dk") == "local" and depth < 5:
                v = f.vars.get(n.get("d"))
                if v and any(j not in (i,) and self.parsed(f, j, depth + 1) for j in v["inits"]):
                    return True
        return False

    def fresh_json(self, f, o, depth=0):
        """a local JSON value that was built here, never parsed"""
        P = self.P
        o = P.strip_smart(f, o) if o is not None else None
        if o is None or depth > 8:
            return False
        n = f.nodes[o]
        if n["k"] == "call" and short(P.callee(n)) == "operator[]" and n.get("o") is not None:
            return self.fresh_json(f, n["o"], depth + 1)
        if n["k"] == "call" and n.get("op") == "=" and n.get("o") is not None:
            return self.fresh_json(f, n["o"], depth + 1)
        if n["k"] == "ref" and n.get("dk") == "local":
            v = f.vars.get(n["d"])
            if v is None:
                return False
            if v.get("ref") and v["inits"]:
                return self.fresh_json(f, v["inits"][0], depth + 1)
            for j, m in f.nodes.items():
                if m["k"] == "call" and short(P.callee(m)) == "parse":
                    for a in m["a"]:
                        x = f.nodes[a]
                        if x["k"] == "ref" and x.get("d") == n["d"]:
                            return False
            if v["inits"]:
                x = f.nodes[v["inits"][0]]
                while x["k"] == "ctor" and x.get("copy") and x["a"]:
                    x = f.nodes[x["a"][0]]
                return x["k"] == "ctor"
            return True
        return False

    # ---- fixpoint
    def raised(self, f, i):
        """exception type -> why (text) raised by evaluating node i itself"""
        P, n = self.P, f.nodes[i]
        r = {}
        if n["k"] == "throw":
            if self.guard(f):
                return r
            if n.get("x") is not None:
                r[norm_exc(n.get("tt") or f.nodes[n["x"]].get("tc") or f.nodes[n["x"]].get("t", ""))] = f.loc(i)
            return r
        if n["k"] not in ("call", "ctor", "new"):
            return r
        for t in self.sync(f, i):
            for e, why in self.escapes(f, i, t).items():
                r.setdefault(e, "%s > %s" % (f.loc(i), why) if why.count(">") < 6 else why)
        for e in self.ext(f, i):
            r.setdefault(e, f.loc(i))
        return r

    def guard(self, f):
        return self.guarded.get(f.u, False)

    def escapes(self, f, i, t):
        """what leaves t when called at node i: flags given as constants decide which parts of t run"""
        if not self.esc[t.u] or t.u in self.busy:
            return self.esc[t.u]
        n = f.nodes[i]
        a = n.get("a", [])
        if n["k"] != "call" or n.get("f") is None or len(a) != len(t.params) or short(n["f"]) != short(t.f):
            return self.esc[t.u]
        flags = self.flags(t)
        consts = []
        for k, x in enumerate(a):
            if k in flags:
                c = f.nodes[x].get("cv")
                if c is not None:
                    consts.append((k, int(c)))
        if not consts:
            return self.esc[t.u]
        key = (t.u, tuple(consts))
        if key not in self.live:
            from .facts import Facts, atom
            F = Facts(self.P, t, assume=[atom("==" if c == 0 else "!=", ("v", t.params[k]["d"]), ("c", 0)) for k, c in consts]).solve()
            self.live[key] = [j for j in self.nodes[t.u] if F.before(j) is not None]
        self.busy.add(t.u)
        r = self.local(t, self.live[key])
        self.busy.discard(t.u)
        return r

    def flags(self, t):
        """parameters of type bool, never changed, that decide a branch"""
        c = t.__dict__.get("_flags")
        if c is None:
            c = set()
            used = set()
            for b in t.blocks.values():
                if b.get("tc") is not None:
                    used |= set(t.nodes[x].get("d") for x in t.subtree(b["tc"]) if t.nodes[x]["k"] == "ref")
            for k, p in enumerate(t.params):
                v = t.vars.get(p["d"])
                if p["t"].replace("const ", "") == "bool" and p["d"] in used and not (v and (v.get("assigned") or v.get("addr"))):
                    c.add(k)
            t._flags = c
        return c

    def solve(self):
        P = self.P
        self.live = {}
        self.busy = set()
        self.guarded = {}
        for u, f in P.funcs.items():
            if detmpl(f.f) in GUARDS:
                self.guarded[u] = sum(1 for m in f.nodes.values() if m["k"] == "throw") == 1
        self.nodes = {}
        self.rethrow = {}
        for u, f in P.funcs.items():
            self.nodes[u] = [i for b in f.blocks.values() for i in b["s"] if isinstance(i, int) and f.nodes[i]["k"] in ("call", "ctor", "new", "throw")]
        work = set(P.funcs)
        deps = defaultdict(set)
        for u, f in P.funcs.items():
            for i in self.nodes[u]:
                if f.nodes[i]["k"] != "throw":
                    for t in self.sync(f, i):
                        deps[t.u].add(u)
        while work:
            u = work.pop()
            r = self.local(P.funcs[u])
            if set(r) != set(self.esc[u]):
                self.esc[u] = r
                work |= deps[u]

    def handler_blocks(self, f):
        """block -> (try, handler index) whose body it belongs to"""
        c = f.__dict__.get("_hblk")
        if c is not None:
            return c
        from .util import dominators, dominates
        r = {}
        if f.tries:
            idom, succ, rpo = dominators(f)
            for t in range(len(f.tries)):
                for k, h in enumerate(f.tries[t]["h"]):
                    if h["b"] is None:
                        continue
                    for b in f.blocks:
                        if b in idom and dominates(idom, h["b"], b):
                            r.setdefault(b, []).append((t, k))
        f._hblk = r
        return r

    def local(self, f, nodes=None):
        P = self.P
        if nodes is None:
            nodes = self.nodes[f.u]
        if not f.tries:
            r = {}
            for i in nodes:
                for e, why in self.raised(f, i).items():
                    r.setdefault(e, why)
            return r
        hb = self.handler_blocks(f)
        ent = defaultdict(dict)     # (try, handler block) -> exceptions entering
        while True:
            out, new = {}, defaultdict(dict)
            for i in nodes:
                n = f.nodes[i]
                rs = self.raised(f, i)
                if n["k"] == "throw" and n.get("x") is None:
                    rs = {}
                    b = f.elem_of[i][0] if i in f.elem_of else None
                    for (t, k) in hb.get(b, []):
                        rs.update(ent.get((t, f.tries[t]["h"][k]["b"]), {}))
                for e, why in rs.items():
                    ts, leaves = handler_targets(P, f, n.get("y"), e)
                    for (t, b, ht) in ts:
                        new[(t, b)].setdefault(e, why)
                    if leaves:
                        out.setdefault(e, why)
            if {k: set(v) for k, v in new.items()} == {k: set(v) for k, v in ent.items()}:
                return out
            ent = new

    def node(self, f, i):
        """exceptions node i may raise, before any handler"""
        return self.raised(f, i)


def throws(P):
    t = P.__dict__.get("_throws")
    if t is None:
        t = P._throws = Throws(P)
    return t
