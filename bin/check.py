#!/usr/bin/env python3
"""Runs the solver-based check of one property: encodes /repo's current sources, explores every case, replays counterexamples.
usage: check.py PROPERTY [--tier quick|thorough] [--case NAME] [--keep] [--jobs N]"""
import sys, os, re, json, time, subprocess, hashlib, glob, shlex, fcntl, tempfile, shutil
from concurrent.futures import ThreadPoolExecutor
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
REPO = os.environ.get("SYMX_REPO", "/repo")
B = os.path.join(V, "build")
INC = ["-I" + V + "/shim", "-I" + V + "/rt", "-I" + V + "/harness", "-I" + REPO + "/include", "-isystem", "/usr/include/concurrentqueue/moodycamel", "-isystem", "/usr/include/eigen3"]
CXX = "clang++-18"
COMMON = ["-std=c++20", "-DNDEBUG", "-w", "-fno-strict-aliasing", "-D_GLIBCXX_CHRONO_IO_H", "-D_GLIBCXX_EXTERN_TEMPLATE=0"]
BCFLAGS = COMMON + ["-O1", "-fno-pic", "-emit-llvm", "-c", "-fno-vectorize", "-fno-slp-vectorize", "-fno-unroll-loops", "-gline-tables-only"]
NATFLAGS = COMMON + ["-O1", "-c", "-g1", "-DSYMX_NATIVE", "-fsanitize=address", "-fsanitize=integer-divide-by-zero,unreachable,return,vla-bound", "-fno-sanitize-recover=all"]
POSIX = "open close read write pread pwrite lseek fsync fdatasync ftruncate rename unlink mkdir rmdir stat lstat fstat access flock link mmap munmap madvise posix_fadvise posix_fallocate syscall remove fcntl".split()

def sh(cmd, **k):
    return subprocess.run(cmd, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True, errors="replace", **k)

def digest(files):
    h = hashlib.sha256()
    for f in sorted(files): h.update(f.encode()); h.update(open(f, "rb").read())
    return h.hexdigest()[:16]

def build_tools():
    os.makedirs(B, exist_ok=True)
    with open(B + "/.lock", "w") as lk:
        fcntl.flock(lk, fcntl.LOCK_EX)
        def cached(name, files, outs, fn):
            d = digest(files); st = B + "/." + name + ".stamp"
            if os.path.exists(st) and open(st).read() == d and all(os.path.exists(o) for o in outs): return
            r = fn()
            if r.returncode != 0: print(r.stdout); print("ERROR: cannot build " + name); sys.exit(2)
            open(st, "w").write(d)
        cached("engine", glob.glob(V + "/engine/*"), [B + "/engine/symx"], lambda: sh(["make", "-s", "-j8", "-C", V + "/engine"]))
        rtf = glob.glob(V + "/rt/*")
        cached("rt", rtf, [B + "/rt.bc"], lambda: sh([CXX] + BCFLAGS + ["-fno-builtin", "-I" + V + "/rt", "-o", B + "/rt.bc", V + "/rt/rt.cpp"]))
        cached("vfs", rtf, [B + "/vfs.bc"], lambda: sh([CXX] + BCFLAGS + ["-I" + V + "/rt", "-o", B + "/vfs.bc", V + "/rt/vfs.cpp"]))
        cached("nat", rtf, [B + "/native.o", B + "/vfs.o"], lambda: sh("%s %s -I%s/rt -o %s/native.o %s/rt/native.cpp && %s %s -I%s/rt -o %s/vfs.o %s/rt/vfs.cpp" % (CXX, " ".join(NATFLAGS), V, B, V, CXX, " ".join(NATFLAGS), V, B, V), shell=True))

class Harness:
    def __init__(s, path):
        s.path = path; s.name = os.path.basename(path)[:-4]; s.cases = []; s.reach = []; s.bounds = []; s.assumes = []; s.cxx = []; s.native = True; s.prop = None; s.known = []; s.notreach = {}
        for l in open(path):
            m = re.match(r"//@(\w+)\s*(.*)", l)
            if not m: continue
            k, v = m.group(1), m.group(2).strip()
            if k == "property": s.prop = v
            elif k == "case":
                t = shlex.split(v); c = dict(name=t[0], tiers=[], params={}, flags=[], reach=None, time=None)
                i = 1
                while i < len(t):
                    x = t[i]
                    if x in ("quick", "thorough"): c["tiers"].append(x)
                    elif x.startswith("reach="): c["reach"] = [r for r in x[6:].split(",") if r]
                    elif x.startswith("time="): c["time"] = float(x[5:])
                    elif x == "--random": c["flags"] += [x]
                    elif x.startswith("--"): c["flags"] += [x, t[i + 1]]; i += 1
                    else: a, b = x.split("="); c["params"][a] = b
                    i += 1
                if not c["tiers"]: c["tiers"] = ["quick", "thorough"]
                s.cases.append(c)
            elif k == "reach": s.reach += v.split()
            elif k == "bound": s.bounds.append(v)
            elif k == "assume": s.assumes.append(v)
            elif k == "cxx": s.cxx += shlex.split(v)
            elif k == "native": s.native = v != "no"
        if not s.cases: s.cases = [dict(name="all", tiers=["quick", "thorough"], params={}, flags=[], reach=None, time=None)]

def known_findings():
    r = {}
    f = V + "/known_findings.txt"
    if os.path.exists(f):
        for l in open(f):
            m = re.match(r"finding: property=(\S+) id=(\S+) (.*)", l)
            if m: r[m.group(2)] = (m.group(1), m.group(3).strip())
    return r

def main():
    a = sys.argv[1:]
    def opt(n, d):
        if n in a: i = a.index(n); v = a[i + 1]; del a[i:i + 2]; return v
        return d
    tier = opt("--tier", os.environ.get("VERIF_TIER", "quick")); only = opt("--case", None); jobs = int(opt("--jobs", "8")); verbose = "-v" in a
    seed = int(os.environ.get("VERIF_SEED", "1") or 1)
    if a and a[0] == "--setup": build_tools(); print("tools built"); return 0
    prop = a[0]; t0 = time.time()
    build_tools()
    hs = [h for h in (Harness(f) for f in sorted(glob.glob(V + "/harness/*.cpp"))) if h.prop == prop]
    if not hs: print("no harness for " + prop); return 2
    work = tempfile.mkdtemp(prefix="symx-%s-" % prop, dir=os.environ.get("TMPDIR", "/tmp"))
    try: return run(prop, tier, seed, only, jobs, verbose, hs, work, t0)
    finally:
        if "--keep" not in a: shutil.rmtree(work, ignore_errors=True)
        else: print("kept " + work)

def run(prop, tier, seed, only, jobs, verbose, hs, work, t0):
    known = known_findings(); redef = work + "/redef.txt"
    open(redef, "w").write("".join("%s symx_%s\n" % (x, x) for x in POSIX))
    deftime = 240.0 if tier == "quick" else 3000.0
    pool = ThreadPoolExecutor(jobs)
    def compile_bc(h):
        o = "%s/%s.bc" % (work, h.name); r = sh([CXX] + BCFLAGS + INC + h.cxx + ["-o", o, h.path]); return (o if r.returncode == 0 else None), "\n".join([l for l in r.stdout.splitlines() if "error:" in l][:12]) + "\n"
    def compile_nat(h):
        o = "%s/%s.o" % (work, h.name); exe = "%s/%s.exe" % (work, h.name)
        r = sh([CXX] + NATFLAGS + INC + h.cxx + ["-o", o, h.path])
        if r.returncode == 0: r = sh(["objcopy", "--redefine-syms=" + redef, o])
        if r.returncode == 0: r = sh([CXX, "-fsanitize=address,undefined", "-o", exe, o, B + "/native.o", B + "/vfs.o", "-lpthread"])
        return (exe if r.returncode == 0 else None), r.stdout
    bcs = {h.name: pool.submit(compile_bc, h) for h in hs}
    nats = {h.name: pool.submit(compile_nat, h) for h in hs if h.native}
    def run_case(h, c):
        bc, log = bcs[h.name].result()
        if not bc: return dict(error="compile: " + log[-3000:])
        out = "%s/%s-%s.json" % (work, h.name, c["name"]); T = c["time"] or deftime
        cmd = [B + "/engine/symx", B + "/rt.bc", B + "/vfs.bc", bc, "--out", out, "--max-time", str(T), "--max-mem", "3600" if jobs > 4 else "9000", "--seed", str(seed)] + c["flags"]
        for k, v in c["params"].items(): cmd += ["--param", "%s=%s" % (k, v)]
        try: r = sh(cmd, timeout=T + 240)
        except subprocess.TimeoutExpired: return dict(error="engine did not finish")
        if not os.path.exists(out): return dict(error="engine: rc=%d %s" % (r.returncode, r.stdout[-2000:]))
        d = json.load(open(out)); d["log"] = r.stdout[-2000:]
        if d["fatal"]: d["error"] = "engine: " + d["fatal"]
        return d
    # compile tasks are already queued ahead of the case tasks
    todo = [(h, c) for h in hs for c in h.cases if tier in c["tiers"] and (not only or c["name"] == only)]
    futs = [(h, c, pool.submit(run_case, h, c)) for h, c in todo]
    def native(exe, inputs, params, nm):
        f = "%s/rp-%s.txt" % (work, nm)
        with open(f, "w") as o:
            for k, v in params.items(): o.write("param\t%s\t%s\n" % (k, v))
            for n, w, x in inputs: o.write("in\t%s\t%d\t%s\n" % (n, w, x))
        try: r = subprocess.run([exe, f], stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True, errors="replace", timeout=60, env=dict(os.environ, ASAN_OPTIONS="detect_leaks=0:allocator_may_return_null=1:exitcode=99:max_allocation_size_mb=4096:handle_abort=0", UBSAN_OPTIONS="halt_on_error=1"))
        except subprocess.TimeoutExpired: return 124, "timeout"
        return r.returncode, r.stdout
    viol = []; unconf = []; undec = []; cases = []; khits = {}; funcs = set(); validated = 0; mism = []; samples = []
    tot = dict(paths=0, forks=0, steps=0, checks=0, checks_solver=0, sched_points=0); sol = dict(queries=0, z3=0, sat=0, unsat=0, unknown=0, seconds=0.0); maxq = 0.0; unmod = set(); allcomplete = True; incmsgs = set()
    for h, c, f in futs:
        d = f.result(); cid = h.name + "/" + c["name"]
        if "error" in d: undec.append((cid, d["error"])); allcomplete = False; cases.append(dict(case=cid, error=d["error"][-400:])); continue
        for k in tot: tot[k] += d[k]
        for k in sol: sol[k] += d["solver"][k]
        maxq = max(maxq, d["solver"]["max_query_s"]); funcs |= set(d["functions"]); unmod |= set(d["unmodelled"]); incmsgs |= set(d["inconclusive_msgs"])
        cases.append(dict(case=cid, params=c["params"], paths=d["paths"], completed=d["completed"], checks=d["checks"], queries=d["solver"]["queries"], solver_s=round(d["solver"]["seconds"], 2), wall_s=round(d["wall_s"], 1), reached=d["reached"], truncated=d["truncated"], step_limited=d["step_limited"], leftover=d["leftover"], inconclusive=d["inconclusive"]))
        if not d["completed"]: allcomplete = False
        for k, n in d["known_hits"].items(): khits[k] = khits.get(k, 0) + n
        exe = None
        if h.native and (d["violations"] or d["path_samples"]):
            exe, log = nats[h.name].result()
            if not exe: undec.append((cid, "native compile: " + log[-1500:]))
        for i, v in enumerate(d["violations"]):
            if v["known"]: continue
            conf, how = False, ""
            if h.native and exe:
                rc, o = native(exe, v["inputs"], c["params"], "%s-%s-v%d" % (h.name, c["name"], i))
                conf = rc not in (0, 11, 12, 13, 124); how = "native rc=%d: %s" % (rc, o[-1200:])
                if rc == 124: conf = True; how = "native run does not terminate"
            if not conf and v["sched"] and len(set(v["sched"])) > 1:  # needs a particular interleaving: replay these values on this schedule
                rf = "%s/rs-%s-%s-%d.txt" % (work, h.name, c["name"], i); ro = rf + ".json"
                open(rf, "w").write("".join("in %s\n" % x for _, w, x in v["inputs"]) + "".join("s %s\n" % t for t in v["sched"]))
                sh([B + "/engine/symx", B + "/rt.bc", B + "/vfs.bc", bcs[h.name].result()[0], "--out", ro, "--max-time", "60", "--replay", rf] + c["flags"] + sum([["--param", "%s=%s" % kv] for kv in c["params"].items()], []), timeout=200)
                rd = json.load(open(ro)) if os.path.exists(ro) else dict(violations=[])
                conf = any(x["key"] == v["key"] for x in rd["violations"]); how = ("the compiled code, run on these values and this schedule alone, fails the same way" if conf else "not reproduced on its schedule") + "; " + how
            elif not h.native: conf = True; how = "replayed by the executor on the same schedule"
            os.makedirs(B + "/replay", exist_ok=True); rp = "%s/replay/%s-%s-%s-%d.json" % (B, prop, h.name, c["name"], i)
            json.dump(dict(property=prop, case=cid, params=c["params"], message=v["msg"], key=v["key"], inputs=v["inputs"], schedule=v["sched"], trace=v["trace"], replay=how, how="inputs are consumed in this order by the symx_* calls of harness/%s.cpp (see rt/native.cpp)" % h.name), open(rp, "w"), indent=1)
            (viol if conf else unconf).append((cid, v["msg"], rp, how))
        want = c["reach"] if c["reach"] is not None else h.reach
        if d["completed"] and not any(not v["known"] for v in d["violations"]):
            for w in want:
                if w not in d["reached"]:
                    os.makedirs(B + "/replay", exist_ok=True); rp = "%s/replay/%s-%s-%s-reach-%s.json" % (B, prop, h.name, c["name"], w)
                    json.dump(dict(property=prop, case=cid, message="required behaviour '%s' is unreachable: the solver closed every path of the exhaustive exploration without it" % w, reached=d["reached"]), open(rp, "w"), indent=1)
                    viol.append((cid, "required behaviour '%s' unreachable for every input within the bounds" % w, rp, "exhaustive exploration"))
        if exe:
            for i, p in enumerate(d["path_samples"]):
                rc, o = native(exe, p["inputs"], c["params"], "%s-%s-s%d" % (h.name, c["name"], i))
                rs = sorted(set(re.findall(r"^REACH (.*)$", o, re.M))); outs = re.findall(r"^OUT (.*)$", o, re.M)
                eo = [re.sub(r"\s", "", x) for x in p["outs"]]
                if rc == 0 and rs == sorted(p["reached"]) and [re.sub(r"\s", "", x) for x in outs] == eo: validated += 1
                else: mism.append(dict(case=cid, rc=rc, engine_reached=p["reached"], native_reached=rs, engine_outs=eo[:20], native_outs=outs[:20], tail=o[-600:], inputs=p["inputs"][:60]))
        samples += [cid + ": " + s for s in d["samples"][:3]]
        if verbose: print(json.dumps(cases[-1])); print("   reached", d["reached"], "unmodelled", d["unmodelled"], d["log"][-500:])
    pool.shutdown()
    kf = []
    for k in sorted(khits):
        if k in known: kf.append((k, known[k][1])); print("KNOWN-FINDING: property=%s %s: %s" % (prop, k, known[k][1]))
        else:
            os.makedirs(B + "/replay", exist_ok=True); rp = "%s/replay/%s-known-%s.json" % (B, prop, k); json.dump(dict(property=prop, message="unlisted finding " + k), open(rp, "w")); viol.append(("-", "finding %s is not listed in known_findings.txt" % k, rp, ""))
    ev = dict(property=prop, tier=tier, seed=seed, level="model_checking", wall_s=round(time.time() - t0, 1), violations=len(viol),
        coverage=dict(states=tot["paths"] + tot["forks"], transitions=tot["steps"], traces_validated_against_impl=validated, samples=samples[:24] or ["(none)"], exhaustive=allcomplete,
            paths=tot["paths"], assertions_checked=tot["checks"], assertions_needing_solver=tot["checks_solver"], scheduling_points=tot["sched_points"], solver=dict(sol, seconds=round(sol["seconds"], 2), max_query_s=maxq, backend="z3 4.8.12 (QF_ABV/FP bit-vectors), models reused"),
            functions_encoded=sorted(funcs), functions_encoded_count=len(funcs), bounds=[b for h in hs for b in h.bounds], cases=cases, unmodelled_externals=sorted(unmod), inconclusive=sorted(incmsgs), undecided=[dict(case=c, why=w[-600:]) for c, w in undec], translation_mismatches=mism[:5], unconfirmed=[dict(case=c, msg=m, how=w[-600:]) for c, m, r, w in unconf], known_findings=[k for k, _ in kf]),
        assumptions=[x for h in hs for x in h.assumes] + ["sources compiled by clang 18 at -O1 without -ffast-math; libstdc++ out-of-line parts, libc, file system, RocksDB and logging replaced by the models in /verif/rt and /verif/shim"])
    os.makedirs(V + "/evidence", exist_ok=True); json.dump(ev, open("%s/evidence/%s.json" % (V, prop), "w"), indent=1)
    for c, m, r, w in viol: print("VIOLATION property=%s replay=%s" % (prop, r)); print("  [%s] %s\n  %s" % (c, m, w.strip().replace("\n", "\n  ")[:1500]))
    for c, m, r, w in unconf: print("UNCONFIRMED [%s] %s (not reproduced natively: %s)" % (c, m, w.strip()[:1500]))
    for c, w in undec: print("UNDECIDED [%s] %s" % (c, w[-1500:]))
    for m in mism[:3]: print("MISMATCH %s" % json.dumps(m)[:1500])
    print("%s %s: %d cases, %d paths, %d assertions (%d by solver), %d queries %.1fs solver, %d native validations, %d mismatches, complete=%s, %.1fs" % (prop, tier, len(todo), tot["paths"], tot["checks"], tot["checks_solver"], sol["queries"], sol["seconds"], validated, len(mism), allcomplete, time.time() - t0))
    if unmod: print("  unmodelled: " + ", ".join(sorted(unmod))[:600])
    if viol: return 1
    if undec and len(undec) >= len(todo): return 2
    return 0
if __name__ == "__main__": sys.exit(main())
