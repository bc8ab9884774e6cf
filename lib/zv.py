"""Shared machinery: builds the analyser, compiles /repo's current sources to LLVM IR, runs the abstract
interpreter over analysis harnesses in parallel shards, and reports."""
import concurrent.futures as cf
import fcntl
import hashlib
import json
import os
import re
import shutil
import subprocess
import sys
import tempfile
import time

VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
REPO = os.environ.get("ZV_REPO", "/repo")
RT = os.path.join(REPO, "runtime", "src")
BUILD = os.path.join(VERIF, "build")
EVID = os.path.join(VERIF, "evidence")
CLANG = "/usr/bin/clang++-18"
OPT = "/usr/bin/opt-18"
LINK = "/usr/lib/llvm-18/bin/llvm-link"
JOBS = int(os.environ.get("ZV_JOBS", "8"))
CXX = ["-std=c++17", "-g1", "-O1", "-Xclang", "-disable-llvm-passes", "-I" + RT, "-I" + os.path.join(VERIF, "drivers"),
       "-include", os.path.join(VERIF, "drivers", "shim.h"), "-w", "-emit-llvm", "-c"]


class CheckError(Exception):
    """The check could not be carried out (never reported as a violation)."""


def sh(cmd, **kw):
    return subprocess.run(cmd, stdout=subprocess.PIPE, stderr=subprocess.PIPE, text=True, **kw)


def src_hash(files):
    h = hashlib.sha256()
    for f in sorted(files):
        h.update(f.encode())
        with open(f, "rb") as fh:
            h.update(fh.read())
    return h.hexdigest()[:16]


def build_tool(name, src_dir, target):
    """(Re)build an analyser binary when its sources changed; safe against concurrent runs."""
    os.makedirs(BUILD, exist_ok=True)
    srcs = [os.path.join(src_dir, f) for f in os.listdir(src_dir)]
    hsh = src_hash([s for s in srcs if os.path.isfile(s)])
    stamp = os.path.join(BUILD, name + ".stamp")
    with open(os.path.join(BUILD, name + ".lock"), "w") as lk:
        fcntl.flock(lk, fcntl.LOCK_EX)
        if os.path.exists(target) and os.path.exists(stamp) and open(stamp).read() == hsh:
            return target
        r = sh(["make", "-C", src_dir, "OUT=" + BUILD, "-B", target])
        if r.returncode != 0:
            raise CheckError("building %s failed:\n%s" % (name, r.stderr[-3000:]))
        with open(stamp, "w") as f:
            f.write(hsh)
    return target


def engine():
    return build_tool("zabs", os.path.join(VERIF, "engine"), os.path.join(BUILD, "zabs"))


def runtime_sources():
    out = []
    for root, _, files in os.walk(os.path.join(RT, "zserio")):
        for f in files:
            if f.endswith(".cpp"):
                out.append(os.path.join(root, f))
    if not out:
        raise CheckError("no runtime sources found below " + RT)
    return sorted(out)


class Program:
    """LLVM IR of a driver plus the runtime sources it needs, built from /repo's working tree."""

    def __init__(self, tmp):
        self.tmp = tmp
        self.rt = None
        self.cache = {}

    def compile(self, src, out, extra=()):
        r = sh([CLANG] + CXX + list(extra) + [src, "-o", out])
        if r.returncode != 0:
            raise CheckError("compiling %s failed:\n%s" % (src, r.stderr[-4000:]))
        return out

    def runtime(self, pool):
        if self.rt is None:
            jobs = []
            for s in runtime_sources():
                o = os.path.join(self.tmp, "rt_" + os.path.basename(s)[:-4] + ".bc")
                jobs.append(pool.submit(self.compile, s, o))
            self.rt = [j.result() for j in jobs]
        return self.rt

    def link(self, pool, driver, defines):
        key = (driver, tuple(defines))
        if key in self.cache:
            return self.cache[key]
        rt = self.runtime(pool)
        tag = hashlib.md5(repr(key).encode()).hexdigest()[:8]
        d = self.compile(os.path.join(VERIF, "drivers", driver + ".cpp"), os.path.join(self.tmp, "drv_%s.bc" % tag), defines)
        allbc = os.path.join(self.tmp, "all_%s.bc" % tag)
        r = sh([LINK] + [d] + rt + ["-o", allbc])
        if r.returncode != 0:
            raise CheckError("linking IR for %s failed:\n%s" % (driver, r.stderr[-3000:]))
        out = os.path.join(self.tmp, "opt_%s.bc" % tag)
        r = sh([OPT, "-passes=function(sroa,early-cse)", allbc, "-o", out])
        if r.returncode != 0:
            raise CheckError("normalising IR for %s failed:\n%s" % (driver, r.stderr[-3000:]))
        self.cache[key] = out
        return out


class H:
    """One analysis harness: driver file, harness name, number of shards, extra options."""

    def __init__(self, driver, name, shards=1, tier="both", args=(), timeout=840, defines=()):
        self.driver, self.name, self.shards, self.tier = driver, name, shards, tier
        self.args, self.timeout, self.defines = list(args), timeout, list(defines)


def limit():
    import resource
    resource.setrlimit(resource.RLIMIT_AS, (12 << 30, 12 << 30))


def run_shard(exe, bc, h, i, deadline):
    left = deadline - time.time()
    if left < 1:
        raise CheckError("%s: time budget exhausted before shard %d" % (h.name, i))
    cmd = [exe, bc, "zv_h_" + h.name, "--shard", str(i), str(h.shards)] + h.args
    try:
        r = subprocess.run(cmd, stdout=subprocess.PIPE, stderr=subprocess.PIPE, text=True, timeout=min(left, h.timeout), preexec_fn=limit)
    except subprocess.TimeoutExpired:
        raise CheckError("%s shard %d/%d: timeout" % (h.name, i, h.shards))
    try:
        d = json.loads(r.stdout)
    except ValueError:
        raise CheckError("%s shard %d/%d: analyser failed (rc %d): %s" % (h.name, i, h.shards, r.returncode, (r.stderr or r.stdout)[-800:]))
    return d


ZPREFIX = re.compile(r"^(zserio::|std::|non-virtual|virtual|void zserio|.*\bzserio::)")


def run_harnesses(harnesses, tier, prog, pool, deadline):
    """Returns merged results per harness."""
    exe = engine()
    defs = ["-DZV_THOROUGH=1"] if tier == "thorough" else []
    todo = [h for h in harnesses if h.tier in ("both", tier)]
    for key in sorted({(h.driver, tuple(h.defines)) for h in todo}):
        prog.link(pool, key[0], list(key[1]) + defs)
    futs = []
    with cf.ThreadPoolExecutor(max_workers=JOBS) as ex:
        for h in todo:
            bc = prog.link(pool, h.driver, h.defines + defs)
            for i in range(h.shards):
                futs.append((h, i, ex.submit(run_shard, exe, bc, h, i, deadline)))
        res = {}
        err = None
        for h, i, f in futs:
            try:
                d = f.result()
            except CheckError as e:
                err = err or e
                for _, _, g in futs:
                    g.cancel()
                continue
            except cf.CancelledError:
                continue
            m = res.setdefault(h.name, {"shards": 0, "checks": {}, "covers": set(), "covers_hit": set(), "functions": set(),
                                        "externals": {}, "violations": {}, "inconclusive": [], "n": {}})
            m["shards"] += 1
            if d["inconclusive"]:
                m["inconclusive"].append(d["inconclusive"])
            for k, v in d["checks"].items():
                m["checks"][k] = m["checks"].get(k, 0) + v
            m["covers"] |= set(d["covers"])
            m["covers_hit"] |= set(d["covers_hit"])
            m["functions"] |= set(d["functions"])
            for k, v in d["externals"].items():
                m["externals"][k] = v
            for k in ("instructions", "paths", "forks", "calls", "memory_obligations", "shift_obligations", "div_obligations", "throws", "widenings", "exits"):
                m["n"][k] = m["n"].get(k, 0) + d[k]
            m["n"]["memory_sites"] = max(m["n"].get("memory_sites", 0), d["memory_sites"])
            for v in d["violations"]:
                key = (v["kind"], v["loc"], v["function"], v["kind"] == "check" and v["msg"])
                o = m["violations"].get(key)
                if o is None:
                    v["harness"] = h.name
                    m["violations"][key] = v
                else:
                    o["count"] += v["count"]
                    if v["definite"] and not o["definite"]:
                        v["count"] = o["count"]
                        v["harness"] = h.name
                        m["violations"][key] = v
    return res, err
