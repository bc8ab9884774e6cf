"""Rules decided on the program itself rather than by interpreting harnesses."""
import json
import os
import re
import subprocess

import zv


def drivers():
    return sorted(f[:-4] for f in os.listdir(os.path.join(zv.VERIF, "drivers")) if f.endswith(".cpp"))


def lint(mode, what, rule, min_sites):
    def run(prog, pool, tier):
        exe = zv.build_tool("zlint", os.path.join(zv.VERIF, "engine"), os.path.join(zv.BUILD, "zlint"))
        prog.runtime(pool)
        jobs = [pool.submit(prog.link, pool, d, []) for d in drivers()]
        files, failed = [], []
        for j in jobs:
            try:
                files.append(j.result())
            except zv.CheckError as e:
                failed.append(str(e)[:300])
        if len(failed) > 3:
            raise zv.CheckError("%d drivers cannot be built: %s" % (len(failed), failed[0]))
        r = subprocess.run([exe, mode] + files, stdout=subprocess.PIPE, stderr=subprocess.PIPE, text=True)
        if r.returncode != 0:
            raise zv.CheckError("zlint %s failed: %s" % (mode, r.stderr[-800:]))
        d = json.loads(r.stdout)
        return {"sites": len(d["sites"]), "min_sites": min_sites, "violations": d["violations"], "functions": d["functions"], "samples": d["samples"],
                "coverage": {"rule": rule, "analysed": "LLVM IR of all runtime sources and of the templates instantiated by %d drivers" % len(files),
                             "counts": d["counts"], "drivers_which_do_not_build": failed}}
    run.__name__ = what
    return run


throws = lint("throws", "throws",
              "every throw expression of the runtime throws a class derived from CppRuntimeException; no exception of the library (propagated over the call graph, "
              "handlers taken into account) reaches a call inside a function which promises not to throw", 1500)
statics = lint("statics", "statics",
               "every object of static storage duration is constant memory, or written only by its own guarded initialisation (uses followed through calls, returned "
               "references and members); no method of a class of which there are static objects writes to its object; no library function with state of its own is called", 100)
const_methods = lint("const", "constMethods",
                     "no const method of the library writes to its object, neither itself nor through the functions it passes its object to", 1000)


def witness(prog, pool, tier):
    src = os.path.join(zv.VERIF, "witness", "views.cpp")
    cmd = ["clang++-18", "-std=c++17", "-fsyntax-only", "-ferror-limit=0", "-w", "-fno-caret-diagnostics", "-I" + zv.RT, src]
    r = subprocess.run(cmd, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True)
    text = open(src).read().split("\n")
    violations, other = [], []
    for line in r.stdout.split("\n"):
        m = re.match(r"(\S+?):(\d+):\d+: (?:fatal )?error: (.*)", line)
        if not m:
            continue
        msg = m.group(3)
        if "static assertion failed" in msg and "POSITIVE" not in msg:
            violations.append({"loc": "witness/views.cpp:" + m.group(2), "function": "witness", "msg": msg + " [" + text[int(m.group(2)) - 1].strip()[:160] + "]"})
        else:
            other.append(line)
    if other or (r.returncode != 0 and not violations):
        # a witness which is not even well-formed decides nothing
        if not violations:
            raise zv.CheckError("the witnesses do not compile: %s" % (other[0] if other else r.stdout[:300]))
    sites = len(re.findall(r"\b(?:CLOSED|FORBIDDEN|NOT_CONVERTIBLE)\(|\bstatic_assert\(", "\n".join(text)))
    return {"sites": sites, "min_sites": 100, "violations": violations, "functions": [], "samples": [l.strip() for l in text if "CLOSED(" in l][:5],
            "coverage": {"rule": "an expression on a view or a constant object gives no reference, pointer, smart pointer or span through which data can be changed, "
                                 "and the operations which change an object are not well-formed on a constant one", "analysed": "type-checked witnesses " + src,
                         "witnesses": sites}}
