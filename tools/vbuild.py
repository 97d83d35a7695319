#!/usr/bin/env python3
"""Builds TameParse and the harnesses from /repo's working tree into /verif/build.

Objects are cached by content: the key of an object is the compiler command plus the contents of the source and of every
header it included last time (from its dependency file). Nothing is written under /repo.
"""
import concurrent.futures, fcntl, hashlib, os, re, subprocess, sys, threading

VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
REPO = os.environ.get("VP_REPO", "/repo")
BUILD = os.environ.get("VP_BUILD", os.path.join(VERIF, "build"))
CACHE = os.path.join(BUILD, "cache")
GEN = os.path.join(BUILD, "gen")
ENV = dict(os.environ, LC_ALL="C.UTF-8", LANG="C.UTF-8")

BASE = ["g++", "-std=gnu++17", "-O1", "-g1", "-w", "-fno-omit-frame-pointer"]
VARIANTS = {
    "plain": ["-D_GLIBCXX_ASSERTIONS"],
    "asan": ["-fsanitize=address", "-D_GLIBCXX_ASSERTIONS"],
    "boot": [],
}

class BuildError(Exception):
    pass

_hash_cache = {}
_hash_lock = threading.Lock()

def file_hash(path):
    with _hash_lock:
        if path in _hash_cache:
            return _hash_cache[path]
    try:
        with open(path, "rb") as f:
            h = hashlib.sha1(f.read()).hexdigest()
    except OSError:
        h = "missing"
    with _hash_lock:
        _hash_cache[path] = h
    return h

def forget_hashes():
    with _hash_lock:
        _hash_cache.clear()

def parse_deps(path):
    with open(path) as f:
        text = f.read().replace("\\\n", " ")
    text = text.split(":", 1)[1]
    return [d for d in text.split() if not d.startswith("/usr/")]

def compile_one(src, variant, extra):
    """Returns the path of an up to date object"""
    cmd = BASE + VARIANTS[variant] + extra
    cmd_key = hashlib.sha1("\0".join(cmd + [src, REPO]).encode()).hexdigest()[:16]
    stem = re.sub(r"[^A-Za-z0-9]+", "_", src)
    base = os.path.join(CACHE, stem + "." + cmd_key)
    def key():
        deps = parse_deps(base + ".d")
        h = hashlib.sha1()
        for d in deps:
            h.update((d + "=" + file_hash(d) + "\n").encode())
        return h.hexdigest()
    if os.path.exists(base + ".d") and os.path.exists(base + ".key") and os.path.exists(base + ".o"):
        try:
            if open(base + ".key").read() == key():
                return base + ".o"
        except Exception:
            pass
    tmp_o = base + ".tmp.o"
    p = subprocess.run(cmd + ["-MD", "-MF", base + ".d", "-MT", "x", "-c", src, "-o", tmp_o],
                       stdout=subprocess.PIPE, stderr=subprocess.STDOUT, env=ENV)
    if p.returncode != 0:
        for f in (base + ".key",):
            if os.path.exists(f):
                os.unlink(f)
        raise BuildError("cannot compile %s:\n%s" % (src, p.stdout.decode("utf-8", "replace")[-4000:]))
    os.replace(tmp_o, base + ".o")
    with open(base + ".key", "w") as f:
        f.write(key())
    return base + ".o"

def compile_all(jobs):
    with concurrent.futures.ThreadPoolExecutor(max_workers=8) as ex:
        return list(ex.map(lambda j: compile_one(*j), jobs))

def link(out, objs, variant, libs=()):
    h = hashlib.sha1()
    for o in objs:
        h.update(file_hash(o).encode())
    h.update(("\0".join(list(libs)) + variant).encode())
    key = h.hexdigest()
    kf = out + ".key"
    if os.path.exists(out) and os.path.exists(kf) and open(kf).read() == key:
        return out
    cmd = BASE + VARIANTS[variant] + ["-o", out + ".tmp"] + objs + list(libs)
    p = subprocess.run(cmd, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, env=ENV)
    if p.returncode != 0:
        raise BuildError("cannot link %s:\n%s" % (out, p.stdout.decode("utf-8", "replace")[-4000:]))
    os.replace(out + ".tmp", out)
    with open(kf, "w") as f:
        f.write(key)
    return out

def sources_from_am(am, var):
    """The .cpp files of an automake variable"""
    text = open(os.path.join(REPO, am)).read().replace("\\\n", " ")
    m = re.search(r"^\s*" + var + r"\s*=(.*)$", text, re.M)
    if not m:
        raise BuildError("no %s in %s" % (var, am))
    base = os.path.dirname(am)
    res = []
    for f in m.group(1).split():
        if f.endswith(".cpp"):
            res.append(os.path.normpath(os.path.join(REPO, base, f)))
    return res

def write_if_changed(path, data):
    if os.path.exists(path) and open(path, "rb").read() == data:
        return
    with open(path, "wb") as f:
        f.write(data)

def incs():
    return ["-I" + GEN, "-I" + REPO, "-I" + os.path.join(VERIF, "harness")]

def ensure_generated():
    """definition_tp.h, then bootstrap, then tameparse_language.{h,cpp}, the way the project's own makefiles do it"""
    os.makedirs(CACHE, exist_ok=True)
    os.makedirs(GEN, exist_ok=True)
    with open(os.path.join(REPO, "TameParse/Language/definition.tp"), "rb") as f:
        data = f.read()
    text = "unsigned char definition_tp[] = {\n" + ",".join("0x%02x" % b for b in data) + "\n};\nunsigned int definition_tp_len = %d;\n" % len(data)
    write_if_changed(os.path.join(GEN, "definition_tp.h"), text.encode())
    srcs = sources_from_am("bootstrap/Makefile.am", "bootstrap_SOURCES")
    flags = incs() + ["-DTAMEPARSE_BOOTSTRAP=1"]
    jobs = [(s, "boot", flags if uses_bootstrap_define(s) else incs()) for s in srcs]
    objs = compile_all(jobs)
    forget_hashes()
    boot = link(os.path.join(BUILD, "bootstrap"), objs, "boot")
    forget_hashes()
    bk = file_hash(boot)
    kf = os.path.join(BUILD, "generated.key")
    lang = [os.path.join(GEN, "tameparse_language." + e) for e in ("h", "cpp")]
    if os.path.exists(kf) and open(kf).read() == bk and all(os.path.exists(x) for x in lang):
        return
    scratch = os.path.join(BUILD, "genscratch")
    os.makedirs(scratch, exist_ok=True)
    p = subprocess.run([boot], cwd=scratch, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, env=ENV, timeout=300)
    if p.returncode != 0:
        raise BuildError("bootstrap failed:\n" + p.stdout.decode("utf-8", "replace")[-2000:])
    for e in ("h", "cpp"):
        write_if_changed(os.path.join(GEN, "tameparse_language." + e), open(os.path.join(scratch, "tameparse_language." + e), "rb").read())
    with open(kf, "w") as f:
        f.write(bk)
    forget_hashes()

def uses_bootstrap_define(src):
    return "/Compiler/" in src or src.endswith("bootstrap/main.cpp")

def library(variant):
    """The objects of libTameParse"""
    ensure_generated()
    srcs = sources_from_am("TameParse/Makefile.am", "libTameParse_la_SOURCES")
    jobs = []
    for s in srcs:
        if s.endswith("tameparse_language.cpp"):
            s = os.path.join(GEN, "tameparse_language.cpp")
        jobs.append((s, variant, incs()))
    # not part of the library, but part of the repository: the bootstrap parser
    bs = os.path.join(REPO, "TameParse/Language/bootstrap.cpp")
    if bs not in srcs:
        jobs.append((bs, variant, incs()))
    return jobs

def archive(variant):
    objs = compile_all(library(variant))
    forget_hashes()
    out = os.path.join(BUILD, "libtp_%s.a" % variant)
    h = hashlib.sha1("".join(file_hash(o) for o in objs).encode()).hexdigest()
    kf = out + ".key"
    if not (os.path.exists(out) and os.path.exists(kf) and open(kf).read() == h):
        if os.path.exists(out):
            os.unlink(out)
        p = subprocess.run(["ar", "rcs", out] + objs, stdout=subprocess.PIPE, stderr=subprocess.STDOUT)
        if p.returncode != 0:
            raise BuildError("ar failed: " + p.stdout.decode())
        with open(kf, "w") as f:
            f.write(h)
    forget_hashes()
    return out

def harness(name, variant="asan", extra_srcs=(), libs=()):
    os.makedirs(CACHE, exist_ok=True)
    lib = archive(variant)
    srcs = [os.path.join(VERIF, "harness", s) for s in [name + ".cpp", "vp.cpp"] + list(extra_srcs)]
    objs = compile_all([(s, variant, incs()) for s in srcs])
    forget_hashes()
    return link(os.path.join(BUILD, name + "_" + variant), objs + [lib], variant, libs)

def tool(variant="asan"):
    """The tameparse command line tool"""
    lib = archive(variant)
    srcs = sources_from_am("parsetool/Makefile.am", "tameparse_SOURCES")
    objs = compile_all([(s, variant, incs()) for s in srcs])
    forget_hashes()
    return link(os.path.join(BUILD, "tameparse_" + variant), objs + [lib], variant,
                ["-lboost_system", "-lboost_filesystem", "-lboost_program_options"])

class Lock:
    def __enter__(self):
        os.makedirs(BUILD, exist_ok=True)
        self.f = open(os.path.join(BUILD, "lock"), "w")
        fcntl.flock(self.f, fcntl.LOCK_EX)
    def __exit__(self, *a):
        self.f.close()

if __name__ == "__main__":
    with Lock():
        print(tool("plain"))
