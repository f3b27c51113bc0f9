#!/usr/bin/env python3
"""Builds the simulator binary from /repo's current working tree (content-hash object cache)."""
import os, sys, hashlib, subprocess, glob, time, fcntl, shutil
from concurrent.futures import ThreadPoolExecutor
VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
REPO = os.environ.get("SIM_REPO", "/repo")
BUILD = os.environ.get("SIM_BUILD", os.path.join(VERIF, "build"))
CXX = "clang++"
INC = ["-I" + REPO + "/src", "-I" + REPO + "/include", "-I" + REPO + "/tools", "-I" + VERIF + "/sim/include", "-I" + VERIF + "/sim"]
DEFS = ['-DLOGGER_H="%s/src/logger.h"' % REPO, '-D_JUNGLE_COMMIT_HASH="sim"', '-D_JUNGLE_VERSION="1"']
DEFS = ["-DLOGGER_H=" + REPO + "/src/logger.h", "-D_JUNGLE_COMMIT_HASH=sim", "-D_JUNGLE_VERSION=1"]
INSTR = ["-std=c++17", "-O1", "-g1", "-fsanitize=thread", "-femulated-tls", "-fno-omit-frame-pointer", "-Wno-everything", "-DJUNGLE_SIM=1"]
PLAIN = ["-std=c++17", "-O2", "-g1", "-femulated-tls", "-fno-omit-frame-pointer", "-Wno-everything"]

def h(*parts):
    m = hashlib.sha256()
    for p in parts:
        m.update(p if isinstance(p, bytes) else p.encode()); m.update(b"\0")
    return m.hexdigest()[:32]
def rd(p):
    with open(p, "rb") as f: return f.read()
def hdr_hash(dirs, exts=(".h", ".hh", ".hpp", ".inc", ".in")):
    m = hashlib.sha256()
    for d in dirs:
        for root, _, fs in sorted(os.walk(d)):
            for f in sorted(fs):
                if f.endswith(exts):
                    p = os.path.join(root, f); m.update(p.encode()); m.update(rd(p)); m.update(b"\0")
    return m.hexdigest()

def build(verbose=False, tag="sim"):
    os.makedirs(BUILD + "/obj", exist_ok=True)
    lock = open(BUILD + "/lock", "w"); fcntl.flock(lock, fcntl.LOCK_EX)
    try:
        return _build(verbose, tag)
    finally:
        lock.close()

def _build(verbose, tag):
    t0 = time.time()
    rh = hdr_hash([REPO + "/src", REPO + "/include", REPO + "/tools"])
    sh = hdr_hash([VERIF + "/sim"])
    jobs = []
    def add(src, flags, extra):
        key = h(rd(src), src, " ".join(flags), *extra)
        jobs.append((src, flags, BUILD + "/obj/" + os.path.basename(src).replace(".", "_") + "-" + key + ".o"))
    fl = INSTR + INC + DEFS
    for s in sorted(glob.glob(VERIF + "/sim/worlds/*.cc")): add(s, fl, (rh, sh))
    nworld = len(jobs)
    for s in sorted(glob.glob(REPO + "/src/**/*.cc", recursive=True)): add(s, fl, (rh, sh))
    plain0 = len(jobs)
    for s in sorted(glob.glob(VERIF + "/sim/*.cc")): add(s, PLAIN + ["-I" + VERIF + "/sim/include", "-I" + VERIF + "/sim"], (sh,))
    todo = [j for j in jobs if not os.path.exists(j[2])]
    errs = []
    def comp(j):
        tmp = j[2] + ".tmp%d" % os.getpid()
        r = subprocess.run([CXX] + j[1] + ["-c", j[0], "-o", tmp], stdout=subprocess.PIPE, stderr=subprocess.STDOUT)
        if r.returncode: errs.append((j[0], r.stdout.decode(errors="replace")[:6000]))
        else: os.rename(tmp, j[2])
    # big ones first
    todo.sort(key=lambda j: -os.path.getsize(j[0]))
    with ThreadPoolExecutor(8) as ex: list(ex.map(comp, todo))
    if errs:
        for s, e in errs: sys.stderr.write("COMPILE ERROR %s\n%s\n" % (s, e))
        raise RuntimeError("simulator build failed")
    objs = [j[2] for j in jobs]
    key = h("link3", *[os.path.basename(o) for o in objs])
    exe = BUILD + "/" + tag + "-" + key
    if not os.path.exists(exe):
        wraps = set()
        for o in objs[plain0:]:
            for l in subprocess.run(["nm", "--defined-only", o], stdout=subprocess.PIPE).stdout.decode().splitlines():
                n = l.split()[-1]
                if n.startswith("__wrap_"): wraps.add(n[7:])
        cmd = [CXX, "-static", "-no-pie", "-o", exe + ".tmp"] + objs + ["-Wl,--wrap=" + w for w in sorted(wraps)] + ["-Wl,--gc-sections", "-lpthread", "-lz"]
        r = subprocess.run(cmd[:-1], stdout=subprocess.PIPE, stderr=subprocess.STDOUT)
        if r.returncode:
            sys.stderr.write(r.stdout.decode(errors="replace")[:6000]); raise RuntimeError("simulator link failed")
        os.rename(exe + ".tmp", exe)
        # drop stale binaries and objects
        for f in glob.glob(BUILD + "/" + tag + "-*"):
            if f != exe and not f.endswith(".tmp") and os.path.getmtime(f) < time.time() - 3600: os.unlink(f)
        keep = set(objs)
        for f in glob.glob(BUILD + "/obj/*.o"):
            if f not in keep and os.path.getmtime(f) < time.time() - 6 * 3600: os.unlink(f)
    else: os.utime(exe)
    for o in objs: os.utime(o)
    if verbose: print("built %s: %d compiled of %d in %.1fs" % (exe, len(todo), len(jobs), time.time() - t0))
    return exe

if __name__ == "__main__":
    print(build(True))
