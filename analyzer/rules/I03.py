"""I03: client-supplied names cannot reach files outside their directory."""
from ista.model import detmpl, short
from ista.chars import members, mask
from ista.strprov import strings, LIT, NUM
from ista.throws import is_fake

ASSUME = [
    "text that no program source produces (options of the command line and configuration file, literals, numbers, the working directory) is the operator's; every other text is taken to be a client's",
    "a name without '/' or without '.' is harmless below a configured directory: it cannot contain a '..' component (names '.' and '..' themselves are used with a suffix)",
    "library functions only move text from their arguments to their results and to arguments taken by non-constant reference or pointer",
]

ONE = {"open", "fopen", "freopen", "stat", "lstat", "stat64", "lstat64", "access", "unlink", "mkdir", "rmdir", "opendir", "scandir", "remove", "remove_all", "truncate", "chdir", "creat", "statvfs", "statfs", "chmod", "chown",
       "utime", "create_directories", "create_directory", "exists", "is_directory", "is_empty", "is_regular_file", "file_size", "last_write_time", "directory_iterator", "recursive_directory_iterator", "system", "popen", "execv",
       "execl", "execvp", "execlp", "open64", "fopen64", "mkfifo", "mknod", "hard_link_count", "status"}
TWO = {"rename", "link", "symlink", "create_hard_link", "create_symlink", "equivalent", "copy_file", "copy"}
STREAMS = ("basic_ifstream", "basic_ofstream", "basic_fstream", "basic_filebuf", "directory_iterator", "recursive_directory_iterator", "mapped_file")
OPERATOR = ("getcwd", "get_current_dir_name", "realpath")
DIRENT = "dirent::d_name"


def pathy(t):
    return "char" in t or "string" in t or "path" in t


def sinks(P, v):
    """(node, arguments that are paths, what is called)"""
    for i, n in v.nodes.items():
        if n["k"] == "call":
            full = detmpl(P.callee(n) or n.get("f") or "")
            nm = short(full)
            if nm not in ONE and nm not in TWO or P.targets(v, n) or "asio" in full or full.startswith("std::copy"):
                continue
            if n.get("o") is not None and not any(s in full for s in STREAMS):
                continue
            if not n.get("o") and "::" in full and not full.startswith(("boost::filesystem", "std::filesystem", "std::")):
                continue
            a = [x for x in n["a"] if pathy(v.nodes[x].get("t", ""))][:2 if nm in TWO else 1]
        elif n["k"] == "ctor" and any(s in (n.get("c") or "") for s in STREAMS):
            full = short(detmpl(n["c"]))
            a = [x for x in n["a"] if pathy(v.nodes[x].get("t", ""))][:1]
        else:
            continue
        if a:
            yield i, a, full


def text(m):
    return "any byte" if m == (1 << 256) - 1 else "%d byte values%s" % (len(members(m)), ", among them '/' and '.'")


def run(P, R):
    R.rule("contained", "every path given to a file-system call is made of the operator's own text (literals, options) and of client text that passed a check or a replacement after which it holds no '/' or no '.'", need=15)
    R.rule("beneath", "a path that holds client text also holds the directory it belongs to", need=3)
    S = strings(P)
    seen = {}
    for v in S.roots():
        F = S.flows.get(v.u)
        if F is None:
            continue
        todo = {i: (a, full) for i, a, full in sinks(P, F.f)}

        def cb(s, e, b, F=F, todo=todo):
            if isinstance(e, int) and e in todo:
                a, full = todo[e]
                for k, x in enumerate(a):
                    key = (F.f.u, e, k)
                    seen[key] = seen.get(key, frozenset()) | S.resolve(F.ev(x, s))
        F.visit(cb)
        for e, (a, full) in todo.items():
            for k, x in enumerate(a):
                parts = seen.get((F.f.u, e, k))
                if parts is None:
                    continue
                client = [(o, m, mk) for o, m, mk, sl in parts if o[0] not in ("lit", "num", "unset") and not (o[0] == "raw" and short(o[1]) in OPERATOR)]
                bad = []
                for o, m, mk in client:
                    if o == ("raw", DIRENT):
                        m &= ~mask(b"/")
                    if m >> 47 & 1 and m >> 46 & 1:
                        bad.append((o, m))
                where = F.f.loc(e)
                detail = "%s(%s)" % (full, P.render(F.f, x)[:50])
                R.ob("contained", where, "%s: %s" % (detail, "client text without '/' or without '.'" if client else "operator's text only"), not bad, func=F.f.f, detail=detail,
                     msg="%s at %s is given text from outside (%s) that may hold '/' and '.'" % (detail, where, ", ".join(sorted(set(str(o[1]) for o, m in bad)))[:200]))
                if client:
                    base = [o for o, m, mk, sl in parts if o[0] == "unset" or o[0] == "raw" and short(o[1]) in OPERATOR or o == LIT and m >> 47 & 1]
                    R.ob("beneath", where, detail, bool(base), func=F.f.f, detail=detail, msg="%s at %s: the path is client text alone, without the directory it belongs to" % (detail, where))
    R.note("%d functions analysed, %d paths at file-system calls" % (len(S.flows), len(seen)))
