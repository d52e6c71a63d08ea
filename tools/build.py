#!/usr/bin/env python3
"""Builds the simulator against /repo's working tree.

build(variant) -> path of the simcheck binary. Objects are kept in /verif/build under a hash of
everything they are made from, so an unchanged tree costs nothing and a changed one is rebuilt.
"""
import concurrent.futures as cf
import glob
import hashlib
import os
import subprocess
import sys
import time

VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
REPO = os.environ.get("SIMCHECK_REPO", "/repo")
BUILD = os.path.join(VERIF, "build")
SIM = os.path.join(VERIF, "sim")

COMMON = ["-std=c++20", "-include", "cstdint", "-DSOURCE_PATH_SIZE=6", "-DFMT_SHARED", "-g1",
          "-DLOG_SURGEON_SIM", "-D_GLIBCXX_ASSERTIONS", "-w", "-I" + REPO + "/src", "-I" + SIM,
          "-fno-omit-frame-pointer"]
VARIANTS = {
    # every library allocation goes through the simulated allocator
    "fast": dict(lib=["-O2"], sim=["-O2"], raw=["-O2"], link=[]),
    # every function of the library is a point where the simulated scheduler may switch
    "fine": dict(lib=["-O1", "-finstrument-functions",
                      "-finstrument-functions-exclude-file-list=/usr/include,/usr/lib"], sim=["-O2"], raw=["-O2"], link=[]),
    "asan": dict(lib=["-O1", "-fsanitize=address"], sim=["-O1", "-fsanitize=address"],
                 raw=["-O1", "-fsanitize=address"], link=["-fsanitize=address"]),
    # raw: the scheduler and the allocator are invisible to the race detector
    "tsan": dict(lib=["-O1", "-fsanitize=thread"], sim=["-O1", "-fsanitize=thread"],
                 raw=["-O1"], link=["-fsanitize=thread"]),
}
RAW = {"core.cpp", "alloc.cpp", "world.cpp"}
NOLIB = {"core.cpp", "alloc.cpp", "world.cpp", "model.cpp", "gen.cpp"}
WRAPS = ["fopen", "fopen64", "getdelim", "pthread_mutex_lock", "pthread_rwlock_rdlock",
         "pthread_rwlock_wrlock", "pthread_once", "__cxa_guard_acquire", "__cxa_guard_release",
         "__cxa_guard_abort"]


class BuildError(Exception):
    pass


def read(p):
    with open(p, "rb") as f:
        return f.read()


def sha(*parts):
    h = hashlib.sha256()
    for p in parts:
        if isinstance(p, str):
            p = p.encode()
        h.update(len(p).to_bytes(8, "little"))
        h.update(p)
    return h.hexdigest()[:32]


def tree(root, exts):
    out = []
    for d, _, fs in os.walk(root):
        for f in fs:
            if f.endswith(exts):
                out.append(os.path.join(d, f))
    return sorted(out)


def compile_one(job):
    src, obj, flags = job
    if os.path.exists(obj):
        try:
            os.utime(obj)
        except OSError:
            pass
        return None
    tmp = obj + ".%d.tmp" % os.getpid()
    r = subprocess.run(["g++", *flags, "-c", src, "-o", tmp], stdout=subprocess.PIPE,
                       stderr=subprocess.STDOUT, text=True)
    if r.returncode != 0:
        return "%s\n%s" % (src, r.stdout[-4000:])
    os.rename(tmp, obj)
    return None


def prune():
    now = time.time()
    for f in glob.glob(BUILD + "/obj/*") + glob.glob(BUILD + "/bin/*"):
        try:
            if now - os.path.getmtime(f) > 6 * 3600:
                os.unlink(f)
        except OSError:
            pass


def build(variant):
    v = VARIANTS[variant]
    os.makedirs(BUILD + "/obj", exist_ok=True)
    os.makedirs(BUILD + "/bin", exist_ok=True)
    prune()
    lib_headers = tree(REPO + "/src", (".hpp", ".h", ".tpp", ".ipp", ".inc"))
    lib_sources = tree(REPO + "/src", (".cpp", ".cc", ".cxx"))
    # names relative to the tree, so that a moved file counts as a change
    hlib = sha(*[x for h in lib_headers for x in (os.path.relpath(h, REPO), read(h))])
    hsim = sha(*[x for h in tree(SIM, (".hpp",)) for x in (os.path.basename(h), read(h))])
    jobs = []
    for src in lib_sources:
        flags = COMMON + v["lib"]
        key = sha("lib", " ".join(flags), src, read(src), hlib)
        jobs.append((src, "%s/obj/%s.o" % (BUILD, key), flags))
    for src in tree(SIM, (".cpp",)):
        name = os.path.basename(src)
        flags = COMMON + (v["raw"] if name in RAW else v["sim"]) + ['-DSIM_VARIANT="%s"' % variant]
        if variant == "tsan":
            flags = flags + ["-DSIM_PLAIN_MALLOC"]
        key = sha("sim", " ".join(flags), src, read(src), hsim, "" if name in NOLIB else hlib)
        jobs.append((src, "%s/obj/%s.o" % (BUILD, key), flags))
    binary = "%s/bin/simcheck-%s-%s" % (BUILD, variant, sha(*[j[1] for j in jobs]))
    if os.path.exists(binary):
        os.utime(binary)
        return binary
    # big files first
    jobs.sort(key=lambda j: -os.path.getsize(j[0]))
    with cf.ThreadPoolExecutor(max_workers=os.cpu_count() or 8) as ex:
        errs = [e for e in ex.map(compile_one, jobs) if e]
    if errs:
        raise BuildError("\n".join(errs[:3]))
    tmp = binary + ".%d.tmp" % os.getpid()
    r = subprocess.run(["g++", *v["link"], "-o", tmp, *[j[1] for j in jobs],
                        *["-Wl,--wrap=" + w for w in WRAPS], "-lfmt", "-lpthread"],
                       stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True)
    if r.returncode != 0:
        raise BuildError(r.stdout[-4000:])
    os.rename(tmp, binary)
    return binary


if __name__ == "__main__":
    for a in sys.argv[1:] or ["fast"]:
        t = time.time()
        try:
            print(build(a), "%.1fs" % (time.time() - t))
        except BuildError as e:
            print(e)
            sys.exit(2)
