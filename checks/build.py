"""Builds harnesses from /repo's working tree into /verif/build/<key>, where <key> is the hash of every source that goes in.
Objects are shared between checks through /verif/build/obj; nothing in there is needed across sandboxes."""
import hashlib, os, subprocess, sys, concurrent.futures, shutil, fcntl, time
VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
REPO = os.environ.get("VERIF_REPO", "/repo")
BUILD = os.path.join(VERIF, "build")
H = os.path.join(VERIF, "harness")

class BuildError(Exception):
    pass

def sh(cmd, **kw):
    r = subprocess.run(cmd, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True, **kw)
    if r.returncode != 0:
        raise BuildError("command failed: %s\n%s" % (" ".join(cmd), r.stdout[-4000:]))
    return r.stdout

def tree_hash(paths):
    h = hashlib.sha256()
    for base in paths:
        if os.path.isfile(base):
            files = [base]
        else:
            files = sorted(os.path.join(d, f) for d, _, fs in os.walk(base) for f in fs)
        for f in files:
            if "/schemas/" in f and f.endswith("_generated.h"):
                continue
            h.update(f.encode()); h.update(b"\0")
            with open(f, "rb") as fh:
                h.update(hashlib.sha256(fh.read()).digest())
    return h.hexdigest()[:24]

_gen = None
def generated():
    """flatc output for the current schemas, in a directory of our own."""
    global _gen
    if _gen:
        return _gen
    key = tree_hash([os.path.join(REPO, "schemas")])
    d = os.path.join(BUILD, "gen", key)
    if not os.path.exists(os.path.join(d, "done")):
        tmp = d + ".%d" % os.getpid()
        out = os.path.join(tmp, "lamppost", "schemas")
        os.makedirs(out)
        for f in sorted(os.listdir(os.path.join(REPO, "schemas"))):
            if f.endswith(".fbs"):
                sh(["flatc", "--cpp", "-o", out, os.path.join(REPO, "schemas", f)])
        open(os.path.join(tmp, "done"), "w").close()
        try:
            os.rename(tmp, d)
        except OSError:
            shutil.rmtree(tmp, ignore_errors=True)
    _gen = d
    return d

_hdr = None
def headers_key():
    global _hdr
    if _hdr is None:
        _hdr = tree_hash([os.path.join(REPO, "include"), os.path.join(REPO, "schemas"), os.path.join(REPO, "src", "plugins"),
                          os.path.join(H, "lpsched", "lpsched.h")] + [os.path.join(H, f) for f in sorted(os.listdir(H)) if f.endswith(".h")])
    return _hdr

def incs():
    # our generated headers first, so that stale ones in the source tree do not matter
    return ["-I", generated(), "-I", os.path.join(REPO, "include"), "-I", "/usr/include/json-c", "-I", H, "-include", "fstream"]

SAN = {
    "tsan": ["-fsanitize=thread", "-O1", "-g", "-D_GLIBCXX_EXTERN_TEMPLATE=0", "-fno-omit-frame-pointer"],
    "asan": ["-fsanitize=address,undefined", "-fno-sanitize-recover=undefined", "-O1", "-g", "-fno-omit-frame-pointer"],
    "plain": ["-O1", "-g"],
    "pic": ["-O1", "-g", "-fPIC"],
    "picasan": ["-fsanitize=address,undefined", "-fno-sanitize-recover=undefined", "-O1", "-g", "-fPIC"],
    "runtime": ["-O2", "-g", "-fno-threadsafe-statics", "-fno-builtin", "-fno-tree-loop-distribute-patterns"],
}

def compile_obj(src, flavour, extra=()):
    with open(src, "rb") as f:
        body = f.read()
    key = hashlib.sha256(b"|".join([body, src.encode(), flavour.encode(), " ".join(SAN[flavour]).encode(), " ".join(extra).encode(), headers_key().encode()])).hexdigest()[:32]
    d = os.path.join(BUILD, "obj"); os.makedirs(d, exist_ok=True)
    o = os.path.join(d, key + ".o")
    if not os.path.exists(o):
        tmp = o + ".%d.tmp.o" % os.getpid()
        sh(["g++", "-std=c++14", "-w", "-c", src, "-o", tmp] + SAN[flavour] + list(extra) + incs())
        os.rename(tmp, o)
    return o

def lib_sources(exclude=()):
    """All library sources of the repository for this platform (main and plugins excluded), as its CMakeLists globs them."""
    r = []
    base = os.path.join(REPO, "src", "lamppost")
    for d, _, fs in os.walk(base):
        if "/platformspecific/" in d + "/" and not d.startswith(os.path.join(base, "platformspecific", "xnix")):
            continue
        for f in sorted(fs):
            p = os.path.join(d, f)
            if f.endswith(".cpp") and not any(p.endswith(x) for x in exclude):
                r.append(p)
    return sorted(r)

def link(name, objs, flags=()):
    h = hashlib.sha256(("|".join(objs) + " ".join(flags)).encode()).hexdigest()[:24]
    d = os.path.join(BUILD, "bin"); os.makedirs(d, exist_ok=True)
    out = os.path.join(d, "%s-%s" % (name, h))
    if not os.path.exists(out):
        tmp = out + ".%d.tmp" % os.getpid()
        sh(["g++", "-o", tmp] + objs + list(flags))
        os.rename(tmp, out)
    return out

def compile_all(jobs):
    """jobs: list of (src, flavour[, extra]); returns objects in order."""
    generated(); headers_key()
    with concurrent.futures.ThreadPoolExecutor(8) as ex:
        return list(ex.map(lambda j: compile_obj(*j), jobs))

LIBS = ["-lflatbuffers", "-ljson-c", "-ldl", "-lpthread"]

def prune(keep_mb=1500):
    """Keeps the object cache bounded (development convenience)."""
    tot, files = 0, []
    for sub in ("obj", "bin"):
        d = os.path.join(BUILD, sub)
        if os.path.isdir(d):
            for f in os.listdir(d):
                p = os.path.join(d, f)
                try:
                    s = os.stat(p)
                except OSError:
                    continue
                tot += s.st_size; files.append((s.st_atime, s.st_size, p))
    if tot > keep_mb << 20:
        for _, s, p in sorted(files):
            try:
                os.unlink(p)
            except OSError:
                pass
            tot -= s
            if tot < (keep_mb << 20) // 2:
                break

def shared(name, jobs, libs=()):
    """A library that keeps its definitions to itself (as plugin libraries do, which the program exports nothing to)."""
    return link("lib" + name, compile_all(jobs), ["-shared", "-Wl,-Bsymbolic"] + list(libs))

def sched_driver(name, srcs=None, extra_srcs=(), libs=(), extra=()):
    """A driver under lpsched: library and driver instrumented, runtime not."""
    jobs = [(s, "tsan") for s in (srcs if srcs is not None else lib_sources(exclude=("Xnix.cpp",)))]
    jobs += [(s, "tsan", tuple(extra)) for s in [os.path.join(H, name + ".cpp")] + list(extra_srcs)]
    jobs += [(os.path.join(H, "lpsched", "lpsched.cpp"), "runtime")]
    return link(name, compile_all(jobs), ["-rdynamic"] + list(libs) + LIBS)

def asan_driver(name, srcs=None, libs=LIBS, extra_srcs=(), flavour="asan", extra=()):
    jobs = [(s, flavour) for s in (srcs if srcs is not None else lib_sources(exclude=("Xnix.cpp",)))]
    jobs += [(s, flavour, tuple(extra)) for s in [os.path.join(H, name + ".cpp")] + list(extra_srcs)]
    flags = ["-fsanitize=address,undefined"] if flavour == "asan" else []
    return link(name, compile_all(jobs), flags + ["-rdynamic"] + list(libs))

if __name__ == "__main__":
    t = time.time()
    print(sched_driver(sys.argv[1]))
    print(time.time() - t)
