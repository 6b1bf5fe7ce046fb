"""Builds the fact extractor and lowers every translation unit of /repo (offline)."""
import hashlib, json, os, pickle, subprocess, sys, fcntl, shutil, tempfile
from concurrent.futures import ThreadPoolExecutor

HERE = os.path.dirname(os.path.abspath(__file__))
ANA = os.path.dirname(HERE)
VERIF = os.path.dirname(ANA)
REPO = os.environ.get("ISTATD_REPO", "/repo")
BUILD = os.path.join(VERIF, "build")
LLVM = "/usr/lib/llvm-18"


class AnalysisBroken(Exception):
    pass


def _sha(*parts):
    h = hashlib.sha256()
    for p in parts:
        h.update(p if isinstance(p, bytes) else p.encode())
        h.update(b"\0")
    return h.hexdigest()[:20]


def _read(p):
    with open(p, "rb") as f:
        return f.read()


def extractor():
    src = os.path.join(ANA, "extract.cpp")
    exe = os.path.join(BUILD, "istfacts-" + _sha(_read(src)))
    if not os.path.exists(exe):
        os.makedirs(BUILD, exist_ok=True)
        tmp = exe + ".%d" % os.getpid()
        cmd = ["g++", "-std=c++17", "-O1", "-fno-rtti", "-w", "-I" + LLVM + "/include", src, "-o", tmp,
               LLVM + "/lib/libclang-cpp.so.18.1", LLVM + "/lib/libLLVM.so.18.1"]
        r = subprocess.run(cmd, capture_output=True, text=True)
        if r.returncode:
            raise AnalysisBroken("extractor does not build: " + r.stderr[-2000:])
        os.rename(tmp, exe)
    return exe


def units(scope):
    res = []
    dirs = {"core": ["daemon", "lib", "splitter"], "all": ["daemon", "lib", "splitter", "tool"]}[scope]
    for d in dirs:
        p = os.path.join(REPO, d)
        if not os.path.isdir(p):
            continue
        for root, _, files in os.walk(p):
            for f in sorted(files):
                if f.endswith((".cpp", ".cc", ".cxx")) and "jsoncpp" not in f:
                    res.append(os.path.relpath(os.path.join(root, f), REPO))
    return sorted(res)


def flags():
    # the Makefile's compile line (CXXFLAGS) minus warnings/dependency output
    fl = ["-x", "c++", "-std=gnu++98", "-I.", "-Iinclude", "-D_LARGEFILE64_SOURCE", "-w",
          "-resource-dir", LLVM + "/lib/clang/18"]
    if not os.path.exists(os.path.join(REPO, "config.h")):
        fl.append("-I" + os.path.join(ANA, "fallback"))
    if not os.path.isdir(LLVM + "/lib/clang/18"):
        fl = fl[:-2]
    return fl


def source_hash(exe):
    parts = [os.path.basename(exe), " ".join(flags())]
    for d in ("daemon", "lib", "include", "splitter", "tool"):
        for root, dirs, files in os.walk(os.path.join(REPO, d)):
            dirs.sort()
            for f in sorted(files):
                if f.endswith((".cpp", ".h", ".hpp", ".c", ".cc", ".inl")):
                    p = os.path.join(root, f)
                    parts += [os.path.relpath(p, REPO), _read(p)]
    p = os.path.join(REPO, "config.h")
    if os.path.exists(p):
        parts.append(_read(p))
    return _sha(*parts)


def header_hash(exe):
    parts = [os.path.basename(exe), " ".join(flags()), REPO]
    for d in ("daemon", "lib", "include", "splitter", "tool"):
        for root, dirs, files in os.walk(os.path.join(REPO, d)):
            dirs.sort()
            for f in sorted(files):
                if f.endswith((".h", ".hpp", ".inl")):
                    p = os.path.join(root, f)
                    parts += [os.path.relpath(p, REPO), _read(p)]
    p = os.path.join(REPO, "config.h")
    if os.path.exists(p):
        parts.append(_read(p))
    return _sha(*parts)


def load_raw(scope="core"):
    """Returns {tu: facts}.  Cached by a hash of every source file and of the extractor."""
    os.makedirs(BUILD, exist_ok=True)
    with open(os.path.join(BUILD, ".lock"), "w") as lk:
        fcntl.flock(lk, fcntl.LOCK_EX)
        exe = extractor()
        key = source_hash(exe)
        cache = os.path.join(BUILD, "facts-%s-%s.pkl" % (scope, key))
        if os.path.exists(cache):
            try:
                with open(cache, "rb") as f:
                    return pickle.load(f), key, True
            except Exception:
                pass
        us = units(scope)
        if not us:
            raise AnalysisBroken("no translation units found under " + REPO)
        tmpd = tempfile.mkdtemp(prefix="ista", dir=BUILD)
        try:
            common = header_hash(exe)
            tud = os.path.join(BUILD, "tu")
            os.makedirs(tud, exist_ok=True)

            def one(u):
                ck = os.path.join(tud, _sha(common, u, _read(os.path.join(REPO, u))) + ".json")
                if os.path.exists(ck):
                    try:
                        with open(ck) as f:
                            return u, json.load(f), ""
                    except Exception:
                        pass
                out = os.path.join(tmpd, u.replace("/", "_") + ".json")
                r = subprocess.run([exe, REPO, out, os.path.join(REPO, u), "--"] + flags(), cwd=REPO,
                                   capture_output=True, text=True)
                if r.returncode or not os.path.exists(out):
                    return u, None, r.stderr[-1500:]
                with open(out) as f:
                    d = json.load(f)
                os.replace(out, ck)
                return u, d, ""
            res = {}
            with ThreadPoolExecutor(8) as ex:
                for u, d, err in ex.map(one, us):
                    if d is None:
                        raise AnalysisBroken("cannot parse %s: %s" % (u, err))
                    res[u] = d
        finally:
            shutil.rmtree(tmpd, ignore_errors=True)
        # keep the cache small
        old = sorted((os.path.getmtime(os.path.join(BUILD, "tu", f)), f) for f in os.listdir(os.path.join(BUILD, "tu")))
        for _, f in old[:-400]:
            os.unlink(os.path.join(BUILD, "tu", f))
        for f in os.listdir(BUILD):
            if f.startswith("facts-" + scope):
                os.unlink(os.path.join(BUILD, f))
        with open(cache + ".tmp", "wb") as f:
            pickle.dump(res, f, 4)
        os.rename(cache + ".tmp", cache)
        return res, key, False
