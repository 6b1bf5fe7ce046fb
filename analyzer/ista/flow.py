"""Generic forward dataflow over the extracted CFGs, with exception edges."""
from .model import detmpl, short

STD_EXC = {
    "std::exception": None,
    "std::runtime_error": "std::exception", "std::logic_error": "std::exception",
    "std::bad_cast": "std::exception", "std::bad_alloc": "std::exception", "std::bad_typeid": "std::exception",
    "std::range_error": "std::runtime_error", "std::overflow_error": "std::runtime_error",
    "std::underflow_error": "std::runtime_error",
    "std::out_of_range": "std::logic_error", "std::invalid_argument": "std::logic_error",
    "std::length_error": "std::logic_error", "std::domain_error": "std::logic_error",
    "boost::bad_lexical_cast": "std::bad_cast", "boost::conversion::bad_lexical_cast": "std::bad_cast",
    "boost::system::system_error": "std::runtime_error",
    "boost::filesystem::filesystem_error": "boost::system::system_error",
    "Json::Exception": "std::exception", "Json::RuntimeError": "Json::Exception", "Json::LogicError": "Json::Exception",
    "boost::bad_weak_ptr": "std::exception", "boost::bad_function_call": "std::runtime_error",
    "boost::lock_error": "boost::thread_exception", "boost::thread_exception": "boost::system::system_error",
    "std::ios_base::failure": "std::exception",
}


def exc_chain(P, t):
    r = [t]
    while True:
        if t in STD_EXC:
            t = STD_EXC[t]
            if t is None:
                return r
        else:
            bs = P.bases.get(t, [])
            if not bs:
                return r
            t = bs[0]
        r.append(t)


def norm_exc(t):
    return detmpl(t).replace("const ", "").replace("&", "").strip()


def catches(P, handler, exc):
    """does a handler type catch exception type exc? ('*' = unknown library exception, taken as any std::exception)"""
    h = norm_exc(handler)
    if h == "...":
        return True
    if exc == "*":
        return "maybe" if h != "std::exception" else True
    return h in exc_chain(P, exc)


def try_chain(f, y):
    r = []
    while y is not None:
        r.append(y)
        y = f.tries[y]["parent"]
    return r


def handler_targets(P, f, y, exc):
    """Blocks an exception of type exc raised under try y may reach; plus whether it may leave f."""
    out = []
    for t in try_chain(f, y):
        for h in f.tries[t]["h"]:
            c = catches(P, h["t"], exc)
            if c and h["b"] is not None:
                out.append((t, h["b"], norm_exc(h["t"])))
            if c is True:
                return out, False
    return out, True


class Flow:
    """Forward analysis.  Subclass: init(), join(a,b), elem(state, e, block) -> state,
    edge(state, block, idx, succ) -> state|None, excs(state, e) -> iterable of (exc type, state)."""
    exceptions = True

    def __init__(self, P, f):
        self.P, self.f = P, f

    def init(self):
        raise NotImplementedError

    def join(self, a, b):
        raise NotImplementedError

    def elem(self, s, e, b):
        return s

    def edge(self, s, b, k, succ):
        return s

    def excs(self, s, e):
        """(exception type, state) pairs an element may raise; default none."""
        return ()

    def at_handler(self, s, t):
        """Adjust state on entering a handler of try t."""
        return s

    def run(self):
        f = self.f
        start = getattr(self, "start", None)
        if start is None:
            start = f.entry
        self.inb = {start: self.init()}
        self.exc_exit = {}      # exc type -> joined state
        self.noreturn = []
        work = [start]
        n = 0
        while work:
            b = work.pop(0)
            n += 1
            if n > 200000:
                raise RuntimeError("no fixpoint in " + f.f)
            s = self.inb[b]
            dead = False
            blk = f.blocks[b]
            for e in blk["s"]:
                if self.exceptions:
                    for (exc, es) in self.excs(s, e):
                        hs, leaves = handler_targets(self.P, f, self.y_of(e), exc)
                        for (t, hb, ht) in hs:
                            self.push(hb, self.at_handler(es, t), work)
                        if leaves:
                            k = exc
                            self.exc_exit[k] = es if k not in self.exc_exit else self.join(self.exc_exit[k], es)
                s = self.elem(s, e, b)
                if s is None:
                    dead = True
                    break
                if isinstance(e, int) and f.nodes[e]["k"] == "throw":
                    dead = True
                    break
            if dead:
                continue
            if blk.get("nr"):
                self.noreturn.append((b, s))
                continue
            if blk.get("tk") == "CXXTryStmt":
                # dispatch block: only entered through exceptional edges
                continue
            for k, t in enumerate(blk["to"]):
                if t is None:
                    continue
                s2 = self.edge(s, b, k, t)
                if s2 is not None:
                    self.push(t, s2, work)
        self.exit_state = self.inb.get(f.exit)
        return self

    def y_of(self, e):
        if isinstance(e, int):
            return self.f.nodes[e].get("y")
        return None

    def push(self, t, s, work):
        if t not in self.inb:
            self.inb[t] = s
            if t not in work:
                work.append(t)
        else:
            j = self.join(self.inb[t], s)
            if j != self.inb[t]:
                self.inb[t] = j
                if t not in work:
                    work.append(t)

    def visit(self, cb):
        """Replay: cb(state_before, elem, block) for every reachable element."""
        f = self.f
        for b in self.inb:
            s = self.inb[b]
            for e in f.blocks[b]["s"]:
                cb(s, e, b)
                s = self.elem(s, e, b)
                if s is None:
                    break
                if isinstance(e, int) and f.nodes[e]["k"] == "throw":
                    break


def post_order(f):
    seen, out = set(), []
    st = [(f.entry, iter([x for x in f.blocks[f.entry]["to"] if x is not None]))]
    seen.add(f.entry)
    while st:
        b, it = st[-1]
        for s in it:
            if s not in seen:
                seen.add(s)
                st.append((s, iter([x for x in f.blocks[s]["to"] if x is not None])))
                break
        else:
            out.append(b)
            st.pop()
    return out
