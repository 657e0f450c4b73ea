#!/usr/bin/env python3
"""Builds and runs the generated-input check of one property.

  engine/run.py C01 [--tier quick|thorough] [--replay FILE] [--only TEST]

Everything is compiled from /repo's current working tree on every run.  Exit 0:
no violation found.  Exit 1: a VIOLATION line was printed.  Exit 2: the check
itself could not run (compiler error and the like).
"""
import argparse, glob, json, os, shutil, subprocess, sys, time
sys.path.insert(0, os.path.dirname(os.path.abspath(__file__)))
from checks import CHECKS, DEFAULT_RULE

VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
REPO = os.environ.get("VERIF_REPO", "/repo")
PKG = os.path.join(REPO, "ndt_gslam")
CXX = "g++-11"
COMMON = ["-std=c++17", "-fopenmp", "-fPIC", "-mfpmath=sse", "-msse3", "-w",
          "-I" + os.path.join(PKG, "include"), "-I" + os.path.join(VERIF, "engine"),
          "-I" + os.path.join(VERIF, "harness"),
          "-isystem", "/usr/include/eigen3", "-isystem", "/usr/include/suitesparse"]
VARIANTS = {
    "san": ["-O1", "-g1", "-fsanitize=address,undefined", "-fno-sanitize-recover=undefined",
            "-fno-omit-frame-pointer", "-D_GLIBCXX_ASSERTIONS"],
    "opt": ["-O3"],
}
ENV = dict(os.environ,
           ASAN_OPTIONS="detect_leaks=0:abort_on_error=1:max_malloc_fill_size=1048576:max_allocation_size_mb=4096:allocator_may_return_null=0:detect_stack_use_after_return=0:handle_abort=0",
           UBSAN_OPTIONS="print_stacktrace=1:abort_on_error=1", OMP_NUM_THREADS="1", OMP_WAIT_POLICY="passive")
for k in ("CXXFLAGS", "CFLAGS", "LDFLAGS", "CPLUS_INCLUDE_PATH"):
    ENV.pop(k, None)


def build(pid, chk, bdir):
    """compiles harness and needed repository sources in parallel"""
    jobs = []  # (cmd, obj, optional)
    links = {}
    variants = chk.get("variants", ["san", "opt"])
    for v in variants:
        flags = COMMON + VARIANTS[v] + chk.get("flags", [])
        for inc in chk.get("stubs", []):
            flags = ["-I" + os.path.join(VERIF, "stubs", inc)] + flags
        flags += chk.get("flags_" + v, [])
        srcs = [os.path.join(VERIF, "harness", s) for s in chk["harness"]]
        srcs += [os.path.join(PKG, s) for s in chk.get("repo_src", [])]
        objs = []
        for i, s in enumerate(srcs):
            obj = os.path.join(bdir, "%s_%d_%s.o" % (v, i, os.path.basename(s).replace(".", "_")))
            jobs.append(([CXX] + flags + ["-c", s, "-o", obj], obj, False))
            objs.append(obj)
        # parts that use more of the interface than is strictly public: when
        # one no longer compiles it is left out, and the evidence says so
        opt = []
        for i, s in enumerate(chk.get("optional", [])):
            obj = os.path.join(bdir, "%s_opt%d_%s.o" % (v, i, s.replace(".", "_")))
            jobs.append(([CXX] + flags + ["-c", os.path.join(VERIF, "harness", s), "-o", obj], obj, True))
            opt.append(obj)
        links[v] = (objs, opt)
    procs = []
    pend = list(jobs)
    skipped = []
    failed = None
    maxp = 8
    running = []
    while pend or running:
        while pend and len(running) < maxp:
            cmd, obj, optional = pend.pop(0)
            log = open(obj + ".log", "w")
            running.append((subprocess.Popen(cmd, stdout=log, stderr=subprocess.STDOUT, env=ENV), cmd, obj, optional))
        time.sleep(0.05)
        still = []
        for r in running:
            rc = r[0].poll()
            if rc is None:
                still.append(r)
            elif rc != 0:
                if r[3]:
                    skipped.append(r[2])
                else:
                    failed = r
        running = still
        if failed:
            for r in running:
                r[0].kill()
                r[0].wait()
            print("BUILD ERROR: " + " ".join(failed[1]))
            print(open(failed[2] + ".log").read()[:6000])
            return None, []
    bins = {}
    for v, (objs, opt) in links.items():
        exe = os.path.join(bdir, "check_" + v)
        def link(extra):
            cmd = [CXX] + VARIANTS[v] + ["-fopenmp"] + objs + extra + chk.get("libs", []) + ["-o", exe]
            return cmd, subprocess.run(cmd, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True, env=ENV)
        use = [o for o in opt if o not in skipped]
        cmd, r = link(use)
        if r.returncode != 0 and use:
            good = [o for o in use if link([o])[1].returncode == 0]
            skipped += [o for o in use if o not in good]
            cmd, r = link(good)
        if r.returncode != 0:
            print("LINK ERROR: " + " ".join(cmd))
            print(r.stdout[:6000])
            return None, []
        bins[v] = exe
    return bins, [os.path.basename(s) for s in skipped]


def known_lines(pid):
    res = {}
    p = os.path.join(VERIF, "known_findings.txt")
    if os.path.exists(p):
        for line in open(p):
            line = line.strip()
            if line.startswith("known: property=%s " % pid):
                rest = line[len("known: property=%s " % pid):]
                test, text = rest.split(" ", 1)
                assert test.startswith("test=")
                res[test[5:]] = text
    return res


def main():
    ap = argparse.ArgumentParser()
    ap.add_argument("property")
    ap.add_argument("--tier", default=os.environ.get("VERIF_TIER", "quick"))
    ap.add_argument("--seed", default=os.environ.get("VERIF_SEED", "1"))
    ap.add_argument("--scale", type=float, default=1.0)
    ap.add_argument("--replay")
    ap.add_argument("--only", default="")
    ap.add_argument("--jobs", default=str(min(8, os.cpu_count() or 1)))
    ap.add_argument("--variant", default="")
    a = ap.parse_args()
    pid = a.property
    chk = CHECKS[pid]
    t0 = time.time()
    try:
        seed = int(a.seed)
    except ValueError:
        seed = abs(hash(a.seed)) % (1 << 31)
    tier = "thorough" if a.tier == "thorough" else "quick"
    bdir = os.path.join(VERIF, "build", pid + ("-%d" % os.getpid() if os.environ.get("VERIF_PRIVATE_BUILD") else ""))
    shutil.rmtree(bdir, ignore_errors=True)
    os.makedirs(bdir)
    rdir = os.path.join(VERIF, "replays")
    os.makedirs(rdir, exist_ok=True)
    os.makedirs(os.path.join(VERIF, "evidence"), exist_ok=True)
    bins, skipped = build(pid, chk, bdir)
    if bins is None:
        sys.exit(2)
    tb = time.time() - t0
    if a.replay:
        var = "san"
        for line in open(a.replay):
            if line.startswith("variant "):
                var = line.split()[1]
        r = subprocess.run([bins.get(var, list(bins.values())[0]), "--replay", a.replay, "--tmp", bdir], env=ENV)
        sys.exit(r.returncode)
    results = []
    err = False
    violation = False
    known = known_lines(pid)
    for v, exe in bins.items():
        if a.variant and v != a.variant:
            continue
        out = os.path.join(bdir, v + ".json")
        tdir = os.path.join(bdir, "tmp_" + v)
        os.makedirs(tdir)
        cmd = [exe, "--seed", str(seed), "--jobs", a.jobs, "--out", out, "--variant", v, "--property", pid,
               "--replay-dir", rdir, "--tmp", tdir,
               "--scale", str(a.scale * chk.get("scale_" + v, 1.0 if v == "san" else 2.0)),
               "--max-seconds", str(chk.get("max_seconds", {}).get(tier, 60 if tier == "quick" else 900))]
        if known:
            cmd += ["--known", ",".join(known)]
        if a.only:
            cmd += ["--only", a.only]
        if tier == "thorough":
            cmd.append("--thorough")
        r = subprocess.run(cmd, stdout=subprocess.PIPE, text=True, env=ENV)
        sys.stdout.write(r.stdout)
        sys.stdout.flush()
        if not os.path.exists(out) or r.returncode not in (0, 1):
            print("ERROR: %s ended with %d" % (exe, r.returncode))
            err = True
            continue
        res = json.load(open(out))
        results += res
        violation = violation or any(t["violations"] for t in res)
    for t, text in known.items():
        if any(r["test"] == t and r.get("known_hit") for r in results):
            print("KNOWN-FINDING: property=%s %s" % (pid, text))
    main_res = [r for r in results if not r.get("known")]
    samples = []
    for r in main_res:
        for s in r["samples"][:2]:
            samples.append({"test": r["test"], "build": r["variant"], "case": s})
    ev = {
        "property": pid, "tier": tier, "seed": seed, "level": "exploration",
        "coverage": {
            "evaluations": sum(r["evaluations"] for r in main_res),
            "distinct_nontrivial": sum(r["distinct_nontrivial"] for r in main_res),
            "discarded": sum(r["discarded"] for r in main_res),
            "rule": chk.get("rule", DEFAULT_RULE),
            "samples": samples[:24],
            "tests": [{k: r[k] for k in ("test", "variant", "requested", "evaluations", "distinct_nontrivial",
                                         "discarded", "wall_s", "violations", "classes", "unreproducible")}
                      for r in results],
            "builds": {v: VARIANTS[v] for v in bins},
            "parts_left_out": skipped,
            "build_s": round(tb, 1),
        },
        "assumptions": chk.get("assumptions", []),
        "wall_s": round(time.time() - t0, 2),
        "violations": sum(r["violations"] for r in main_res),
    }
    with open(os.path.join(VERIF, "evidence", pid + ".json"), "w") as f:
        json.dump(ev, f, indent=1)
    print("%s %s seed=%d: %d cases, %d distinct non-trivial, build %.0fs, total %.0fs" % (
        pid, tier, seed, ev["coverage"]["evaluations"], ev["coverage"]["distinct_nontrivial"], tb, time.time() - t0))
    if violation:
        sys.exit(1)
    sys.exit(2 if err else 0)


if __name__ == "__main__":
    main()
