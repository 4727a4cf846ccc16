#!/usr/bin/env python3
"""Runs the check of one property: vrun.py <ID> <quick|thorough> [--only DRIVER CASE]

1. builds the library from /repo's working tree (AddressSanitizer build, and a
   plain build where a check needs one) into /verif/.build;
2. model-checks the property's specification with TLC;
3. runs the conformance drivers, which record traces of the real code;
4. has TLC decide whether every recorded trace is a behaviour of the
   specification.
Exit 0: held; 1: VIOLATION; 2: error of the check itself.
"""
import concurrent.futures as cf
import fcntl
import glob
import json
import os
import re
import shutil
import subprocess
import sys
import time

VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
REPO = os.environ.get("VERIF_REPO", "/repo")
BUILD = os.path.join(VERIF, ".build")
SPEC = os.path.join(VERIF, "spec")
DRIVER = os.path.join(VERIF, "driver")
JAR = ("/opt/veriftools/tla/tla2tools.jar:"
       "/opt/veriftools/tla/CommunityModules-deps.jar")
PY = "/opt/vp/venv/bin/python"

sys.path.insert(0, os.path.join(VERIF, "bin"))
import props  # noqa: E402


class CheckError(Exception):
    pass


def sh(cmd, **kw):
    return subprocess.run(cmd, stdout=subprocess.PIPE, stderr=subprocess.STDOUT,
                          universal_newlines=True, errors="replace", **kw)


# ----------------------------------------------------------------- building
def build_lib(variant):
    """variant: 'asan' or 'rel'. Returns the build directory."""
    d = os.path.join(BUILD, variant)
    os.makedirs(d, exist_ok=True)
    with open(os.path.join(BUILD, variant + ".lock"), "w") as lk:
        fcntl.flock(lk, fcntl.LOCK_EX)
        flags = ""
        if variant in ("asan", "native"):
            flags = "-fsanitize=address -fno-omit-frame-pointer -g1"
        if variant == "tsan":
            flags = "-fsanitize=thread -g1"
        pocket = "OFF" if variant == "native" else "ON"
        if not os.path.exists(os.path.join(d, "build.ninja")):
            r = sh(["cmake", "-S", REPO, "-B", d, "-G", "Ninja",
                    "-DCMAKE_BUILD_TYPE=Release",
                    "-DCMAKE_C_COMPILER=/usr/bin/gcc",
                    "-DCMAKE_CXX_COMPILER=/usr/bin/g++",
                    "-DCMAKE_CXX_FLAGS=" + flags, "-DCMAKE_C_FLAGS=" + flags,
                    "-DCMAKE_SHARED_LINKER_FLAGS=" +
                    flags.split(" ")[0],
                    "-DFIND_CUDA=OFF", "-DFIND_MKL=OFF",
                    "-DUSE_POCKETFFT=" + pocket])
            if r.returncode:
                raise CheckError("cmake failed:\n" + r.stdout[-3000:])
        r = sh(["ninja", "-C", d, "ska_sdp_func"])
        if r.returncode:
            raise CheckError("building the library failed:\n" + r.stdout[-3000:])
        real = os.path.realpath(os.path.join(d, "libska_sdp_func.so"))
        for f in glob.glob(os.path.join(d, "libska_sdp_func.so.*")):
            if os.path.realpath(f) != real:
                os.unlink(f)
    return d


def build_driver(name, variant, libdir, work):
    exe = os.path.join(work, name + "." + variant)
    cmd = ["g++", "-std=c++14", "-O1", "-g1", "-w", "-fopenmp",
           "-I" + os.path.join(REPO, "src"), "-I" + DRIVER,
           os.path.join(DRIVER, name + ".cpp"), "-o", exe,
           "-L" + libdir, "-lska_sdp_func", "-Wl,-rpath," + libdir,
           "-lpthread", "-ldl", "-rdynamic"]
    if variant in ("asan", "native"):
        cmd.insert(1, "-fsanitize=address")
    if variant == "tsan":
        cmd = [x for x in cmd if x != "-fopenmp"]
        cmd[1:1] = ["-fsanitize=thread", "-DTSAN"]
    if variant == "native":
        cmd.insert(1, "-DNATIVE")
    r = sh(cmd)
    if r.returncode:
        raise CheckError("building driver %s failed:\n%s" % (name, r.stdout[-4000:]))
    return exe


# ----------------------------------------------------------------- TLC
def tlc(module, cfg, metadir, env=None, args=(), workers=1, timeout=850, heap="3g"):
    e = dict(os.environ)
    e.update(env or {})
    cmd = ["java", "-XX:+UseParallelGC", "-XX:ParallelGCThreads=2", "-Xss64m",
           "-Xmx" + heap, "-cp", JAR, "-DTLA-Library=" + SPEC,
           "tlc2.TLC", "-config", os.path.join(SPEC, cfg), "-metadir", metadir,
           "-workers", str(workers), "-nowarning"] + list(args) + \
          [os.path.join(SPEC, module + ".tla")]
    try:
        return sh(cmd, env=e, cwd=SPEC, timeout=timeout)
    except subprocess.TimeoutExpired:
        raise CheckError("TLC timed out on " + module)


def tlc_stats(out):
    m = None
    for m in re.finditer(r"([\d,]+) states generated, ([\d,]+) distinct", out):
        pass
    if m:
        return int(m.group(2).replace(",", "")), int(m.group(1).replace(",", ""))
    m = re.search(r"The number of states generated: ([\d,]+)", out)
    return (int(m.group(1).replace(",", "")),) * 2 if m else (0, 0)


def check_model(spec, work, workers):
    """A bounded exhaustive check of the specification itself."""
    module, cfg = spec[0], spec[1]
    r = tlc(module, cfg, os.path.join(work, "mc_" + cfg), workers=workers,
            args=spec[2] if len(spec) > 2 else ())
    if r.returncode != 0 or "No error has been found" not in r.stdout:
        raise CheckError("model %s (%s) failed:\n%s" % (module, cfg, r.stdout[-3000:]))
    return (module, cfg) + tlc_stats(r.stdout)


def validate(module, trace, metadir, cfg=None):
    """TLC checks a trace. Returns (rejects, states, generated, lines)."""
    if os.path.getsize(trace) == 0:
        return [], 0, 0, 0
    r = tlc(module, cfg or module + ".cfg", metadir, env={"TRACE": trace})
    rejects = [(int(a), int(b), c) for a, b, c in
               re.findall(r'<<"REJECT", (\d+), (\d+), "([^"]*)">>', r.stdout)]
    m = re.search(r'<<"DONE", (\d+)>>', r.stdout)
    if r.returncode != 0 or not m:
        err = r.stdout
        k = err.find("Error:")
        raise CheckError("TLC could not evaluate %s on %s:\n%s" %
                         (module, trace, err[k:k + 3000] if k >= 0 else err[-3000:]))
    s = tlc_stats(r.stdout)
    shutil.rmtree(metadir, ignore_errors=True)
    return rejects, s[0], s[1], int(m.group(1))


# ----------------------------------------------------------------- scripts
def gen_scripts(g, work, seed, tier):
    """Call scripts drawn from a specification by TLC's simulator."""
    n = g["n"][0 if tier == "quick" else 1]
    par = 1 if g.get("all") else 6  # "all": one script per initial state, no drawing.
    per = (n + par - 1) // par

    def one(k):
        if g.get("all"):
            return tlc(g["module"], g["cfg"], os.path.join(work, "gen%d" % k))
        return tlc(g["module"], g["cfg"], os.path.join(work, "gen%d" % k),
                   env=g.get("env"), args=["-simulate", "num=%d" % per, "-depth",
                                           str(g["depth"] + 1), "-seed",
                                           str(seed * 1000 + k)])
    with cf.ThreadPoolExecutor(par) as ex:
        outs = list(ex.map(one, range(par)))
    path = os.path.join(work, "scripts_%s.txt" % os.path.basename(g["cfg"]))
    count = 0
    states = 0
    ops_seen = set()
    with open(path, "w") as f:
        for r in outs:
            if r.returncode != 0:
                raise CheckError("script generation failed:\n" + r.stdout[-3000:])
            states += tlc_stats(r.stdout)[0]
            for line in r.stdout.splitlines():
                if not line.startswith('"SCRIPT '):
                    continue
                ops = json.loads(json.loads(line)[7:])
                for o in ops:
                    ops_seen.add(o.get("op"))
                    kv = " ".join("%s=%s" % (k, ",".join(map(str, v))
                                  if isinstance(v, list) else v)
                                  for k, v in sorted(o.items()))
                    f.write(kv + "\t" + json.dumps(o) + "\n")
                f.write("\n")
                count += 1
    if count == 0:
        raise CheckError("no scripts generated")
    if len(ops_seen) < g.get("ops", 5):
        raise CheckError("scripts draw on %d operations only" % len(ops_seen))
    return path, count, states


# ----------------------------------------------------------------- driver runs
ASAN = ("detect_leaks=0:allocator_may_return_null=1:abort_on_error=0:exitcode=66:"
        "print_legend=0:print_full_thread_history=0:detect_odr_violation=0")

TSAN = "halt_on_error=1:exitcode=66:report_signal_unsafe=0:history_size=4"


def driver_cmd(d, exe, libs, out, seed, n, shard, nshards, only=None, extra=None):
    env = dict(os.environ)
    env.update({"ASAN_OPTIONS": ASAN, "TSAN_OPTIONS": TSAN, "OMP_NUM_THREADS": d.get("omp", "2"), "OMP_WAIT_POLICY": "passive",
                "OPENBLAS_NUM_THREADS": "1"})
    env.update(extra or {})
    env.update(d.get("env", {}))
    if d.get("py"):
        env.update({"PYTHONPATH": REPO + "/src:" + DRIVER, "PYTHONDONTWRITEBYTECODE": "1",
                    "SKA_SDP_FUNC_LIB_DIR": libs["rel"]})
        cmd = [PY, os.path.join(DRIVER, d["driver"] + ".py")]
    else:
        cmd = [exe]
    cmd += [out, str(seed), str(n), str(shard), str(nshards)]
    if only is not None:
        cmd.append(str(only))
    return cmd, env


def load_known():
    known = {}
    p = os.path.join(VERIF, "known_findings.txt")
    if os.path.exists(p):
        for line in open(p):
            m = re.match(r"known: property=(\S+) key=(\S+)\s+(.*)", line)
            if m:
                known[(m.group(1), m.group(2))] = m.group(3).strip()
    return known


def main():
    pid, tier = sys.argv[1], sys.argv[2]
    seed = int(os.environ.get("VERIF_SEED", "1"))
    P = props.PROPS[pid]
    t0 = time.time()
    work = os.path.join(VERIF, ".work", pid)
    shutil.rmtree(work, ignore_errors=True)
    os.makedirs(work)
    ti = 0 if tier == "quick" else 1
    res = {"states": 0, "transitions": 0, "traces": 0, "events": 0,
           "kinds": {}, "models": [], "samples": []}
    drivers = P["drivers"]
    variants = sorted({d.get("variant", "rel" if d.get("py") else "asan")
                       for d in drivers})
    bad = []
    with cf.ThreadPoolExecutor(8) as ex:
        libf = {v: ex.submit(build_lib, v) for v in variants}
        models = list(P.get("models", []))
        if tier == "thorough":
            models += P.get("models_thorough", [])
        modf = [ex.submit(check_model, m, work, 2 if tier == "quick" else 6)
                for m in models]
        libs = {v: f.result() for v, f in libf.items()}
        tb = time.time()
        for di, d in enumerate(drivers):
            variant = d.get("variant", "rel" if d.get("py") else "asan")
            exe = None if d.get("py") else build_driver(d["driver"], variant,
                                                        libs[variant], work)
            extra = {}
            n = d.get("n", (0, 0))[ti]
            if "gen" in d:
                path, n, gs = gen_scripts(d["gen"], work, seed, tier)
                extra["SCRIPTS"] = path
                res["models"].append(["generated scripts", d["gen"]["module"], n])
                res["states"] += gs
            nsh = d.get("shards", 8)
            traces = [os.path.join(work, "%s_%d_%d.ndjson" % (d["driver"], di, k))
                      for k in range(nsh)]

            def run(k):
                cmd, env = driver_cmd(d, exe, libs, traces[k], seed, n, k, nsh,
                                      extra=extra)
                with open(os.path.join(work, "driver_%d_%d.log" % (di, k)), "w") as lg:
                    r = subprocess.run(cmd, env=env, stdout=lg, stderr=lg, timeout=800)
                if r.returncode:
                    raise CheckError("driver %s failed (%d), see %s" % (
                        d["driver"], r.returncode, lg.name))
                return validate(d["trace"], traces[k],
                                os.path.join(work, "tr_%d_%d" % (di, k)),
                                d.get("cfg"))
            rejects = []
            for k, (rj, s, g, lines) in enumerate(ex.map(run, range(nsh))):
                rejects += [(x, traces[k]) for x in rj]
                res["states"] += s
                res["transitions"] += g
                res["events"] += lines
            cases = set()
            for tr in traces:
                with open(tr) as f:
                    for line in f:
                        m = re.search(r'"e":"(\w+)"', line)
                        res["kinds"][m.group(1)] = res["kinds"].get(m.group(1), 0) + 1
                        m = re.search(r'"op":\{[^{}]*"op": ?"(\w+)"', line)
                        if m:
                            kk = "op:" + m.group(1)
                            res["kinds"][kk] = res["kinds"].get(kk, 0) + 1
                        c = re.search(r'"c":(\d+)\}?\s*$', line)
                        cases.add(c.group(1))
                        if len(res["samples"]) < 3 + di and len(line) < 1500:
                            res["samples"].append(json.loads(line))
            res["traces"] += len(cases)
            if d.get("minimum") and len(cases) < d["minimum"]:
                raise CheckError("driver %s ran only %d cases" % (d["driver"], len(cases)))
            known = load_known()
            seen_known = set()
            for (c, l, why), tr in rejects:
                # The trace line tells whether this is a recorded finding.
                key = None
                with open(tr) as f:
                    for i, line in enumerate(f, 1):
                        if i == l:
                            m = re.search(r'"key":"([^"]+)"', line)
                            key = m.group(1) if m else None
                if key and (pid, key) in known:
                    if key not in seen_known:
                        print("KNOWN-FINDING: property=%s %s" % (pid, known[(pid, key)]))
                    seen_known.add(key)
                    continue
                bad.append((di, d, exe, extra, n, c, why, tr))
        for f in modf:
            m = f.result()
            res["models"].append(list(m))
            res["states"] += m[2]
            res["transitions"] += m[3]

    # Confirm rejections by running the case again on its own.
    viol = []
    rdir = os.path.join(VERIF, ".work", "replay", pid)
    shutil.rmtree(rdir, ignore_errors=True)
    for di, d, exe, extra, n, c, why, was in bad[:6]:
        os.makedirs(rdir, exist_ok=True)
        tr = os.path.join(rdir, "%s_case%d.ndjson" % (d["driver"], c))
        again = None
        for _ in range(d.get("retries", 2)):
            cmd, env = driver_cmd(d, exe, libs, tr, seed, n, 0, 1, only=c, extra=extra)
            with open(tr + ".log", "w") as lg:
                subprocess.run(cmd, env=env, stdout=lg, stderr=lg, timeout=300)
            rj = validate(d["trace"], tr, os.path.join(work, "re"), d.get("cfg"))[0]
            if rj:
                again = rj[0]
                break
        gone = [x for x in open(was)
                if re.search(r'"c":%d\}?\s*$' % c, x) and '"e":"Crash"' in x
                and re.search(r'"sig":(9|14)\b', x)] if d.get("racy") else []
        if again is None and (gone or not d.get("racy")):
            raise CheckError("rejection of case %d of %s (%s) did not reproduce" %
                             (c, d["driver"], why))
        if again is None:   # a race: keep what was recorded
            with open(was) as f, open(tr, "w") as g:
                g.writelines(x for x in f if re.search(r'"c":%d\}?\s*$' % c, x))
        viol.append((tr, c, why))
    for tr, c, why in viol:
        print("VIOLATION property=%s replay=%s" % (pid, tr))
        print("  %s case %d rejected by the specification: %s" %
              (os.path.basename(tr), c, why))
    if len(bad) > 6:
        print("  ... and %d more rejected cases" % (len(bad) - 6))

    wall = time.time() - t0
    ev = {
        "property": pid, "tier": tier, "seed": seed, "level": P["level"],
        "coverage": {
            "states": res["states"], "transitions": res["transitions"],
            "traces_validated_against_impl": res["traces"],
            "trace_events": res["events"], "events_by_kind": res["kinds"],
            "models": res["models"], "samples": res["samples"],
        },
        "assumptions": P.get("assumptions", []),
        "wall_s": round(wall, 2), "violations": len(bad),
    }
    os.makedirs(os.path.join(VERIF, "evidence"), exist_ok=True)
    with open(os.path.join(VERIF, "evidence", pid + ".json"), "w") as f:
        json.dump(ev, f, indent=1)
    if viol:
        return 1
    print("%s %s: held on %d traces (%d events), %d model/trace states, %.0f s" %
          (pid, tier, res["traces"], res["events"], res["states"], wall))
    for tr in glob.glob(os.path.join(work, "*.ndjson")):
        os.unlink(tr)
    return 0


if __name__ == "__main__":
    try:
        sys.exit(main())
    except CheckError as e:
        print("ERROR: " + str(e))
        sys.exit(2)
