#!/usr/bin/env python3
"""Build LNLib from /repo's working tree with one property's harness and run it.

usage: check.py ID [--thorough] [--replay FILE] [--only LAW] [--scale X] [--seed N] [--fuzz-time S]

Exit 0: the property held on every generated case (known findings are printed).
Exit 1: a VIOLATION line was printed. Exit 2: the harness could not be built or run.
"""
import argparse, concurrent.futures as cf, glob, hashlib, json, os, re, shutil, subprocess, sys, time

VERIF = os.path.dirname(os.path.abspath(__file__))
REPO = os.environ.get("VERIF_REPO", "/repo")
BUILD = os.environ.get("VERIF_BUILD", os.path.join(VERIF, "build"))
INC = os.path.join(REPO, "src/LNLib/include")
EIGEN = "/usr/include/eigen3"
BASE = ["-std=c++17", "-w", "-O1", "-g1", "-fno-omit-frame-pointer", "-D_GLIBCXX_ASSERTIONS", "-isystem", EIGEN, "-I" + INC, "-I" + os.path.join(VERIF, "harness")]
SAN = ["-fsanitize=address,undefined", "-fno-sanitize-recover=all"]


def sha(*parts):
    h = hashlib.sha256()
    for p in parts:
        h.update(p if isinstance(p, bytes) else p.encode())
        h.update(b"\0")
    return h.hexdigest()[:24]


def read(p):
    with open(p, "rb") as f:
        return f.read()


def includes_eigen(src):
    return b"Eigen" in read(src)


def sources():
    r = []
    for d, _, fs in os.walk(os.path.join(REPO, "src/LNLib")):
        for f in fs:
            if f.endswith((".cpp", ".cc", ".cxx", ".c")):
                r.append(os.path.join(d, f))
    return sorted(r)


def extra_dirs(pid, what):
    # a property file may name further directories of /repo: "// EXTRA_SOURCES: dir", "// EXTRA_INCLUDES: dir"
    t = read(os.path.join(VERIF, "harness", "props", pid + ".cpp")).decode()
    # and of /verif/harness: "// HARNESS_INCLUDES: dir"
    base = os.path.join(VERIF, "harness") if what == "HARNESS_INCLUDES" else REPO
    return [os.path.join(base, d) for d in re.findall(r"(?m)^// %s: (\S+)" % what, t)]


def inc_dirs():
    # directories below src/LNLib that hold headers besides include/
    ds = set()
    for d, _, fs in os.walk(os.path.join(REPO, "src/LNLib")):
        if any(f.endswith((".h", ".hpp", ".inl")) for f in fs):
            ds.add(d)
    return sorted(ds)


def header_hash():
    parts = []
    for d in inc_dirs():
        for f in sorted(os.listdir(d)):
            if f.endswith((".h", ".hpp", ".inl")):
                parts += [f, read(os.path.join(d, f))]
    return sha(*parts)


class BuildError(Exception):
    pass


def compile_one(cmd, out):
    tmp = "%s.%d.tmp" % (out, os.getpid())
    p = subprocess.run(cmd + ["-o", tmp], stdout=subprocess.PIPE, stderr=subprocess.STDOUT)
    if p.returncode:
        raise BuildError(" ".join(cmd) + "\n" + p.stdout.decode(errors="replace")[-6000:])
    os.replace(tmp, out)


def build(pid, fuzz=False):
    os.makedirs(BUILD, exist_ok=True)
    xinc = extra_dirs(pid, "EXTRA_INCLUDES") + extra_dirs(pid, "HARNESS_INCLUDES")
    xsrc = [p for d in extra_dirs(pid, "EXTRA_SOURCES") for p in sorted(glob.glob(d + "/*.cpp"))]
    hh = header_hash()
    xh = [read(p) for d in xinc for p in sorted(glob.glob(d + "/**/*.h", recursive=True))]
    extra = ["-I" + d for d in inc_dirs()]
    cxx = "clang++" if fuzz else "g++"
    jobs, objs = [], []
    harness = os.path.join(VERIF, "harness")
    hsrc = [os.path.join(harness, "props", pid + ".cpp"), os.path.join(harness, "fuzz_main.cpp" if fuzz else "engine.cpp"), os.path.join(harness, "ref.cpp")]
    hdr = [read(p) for p in sorted(glob.glob(harness + "/*.h"))]
    for s in sources() + xsrc + hsrc:
        eig = includes_eigen(s)
        flags = BASE + extra
        if s in xsrc or s in hsrc:
            flags = flags + ["-I" + d for d in xinc]
        if s.endswith(("/engine.cpp", "/ref.cpp")) and s in hsrc:
            flags = [("-O2" if f == "-O1" else f) for f in flags if f != "-D_GLIBCXX_ASSERTIONS"]
        elif fuzz:
            flags = flags + ["-fsanitize=fuzzer-no-link" if eig else "-fsanitize=fuzzer-no-link,address,undefined", "-fno-sanitize-recover=all"]
        elif not eig:
            flags = flags + SAN
        key = sha(cxx, " ".join(flags), s, read(s), hh, *(hdr if s in hsrc else []), *(xh if s in xsrc or s in hsrc else []))
        o = os.path.join(BUILD, key + ".o")
        objs.append(o)
        if not os.path.exists(o):
            jobs.append((os.path.getsize(s) + (200000 if eig else 0) + (150000 if s == hsrc[0] else 0), [cxx] + flags + ["-c", s], o))
    jobs.sort(key=lambda j: -j[0])
    with cf.ThreadPoolExecutor(max_workers=os.cpu_count() or 8) as ex:
        for f in [ex.submit(compile_one, c, o) for _, c, o in jobs]:
            f.result()
    exe = os.path.join(BUILD, ("fuzz_" if fuzz else "run_") + pid + "_" + sha(*objs))
    if not os.path.exists(exe):
        link = [cxx] + objs + (["-fsanitize=fuzzer,address,undefined"] if fuzz else SAN) + ["-lpthread"]
        compile_one(link, exe)
    return exe


ENV = dict(os.environ, ASAN_OPTIONS="detect_leaks=0:abort_on_error=0:exitcode=99:allocator_may_return_null=0:max_allocation_size_mb=4096",
           UBSAN_OPTIONS="print_stacktrace=1:halt_on_error=1")


def fuzz_stage(pid, exe, work, seconds, known):
    """Coverage-guided stage (thorough tier): libFuzzer drives the same laws from bytes."""
    fexe = build(pid, fuzz=True)
    corpus = os.path.join(work, "corpus")
    art = os.path.join(work, "artifacts")
    for d in (corpus, art):
        shutil.rmtree(d, ignore_errors=True)
        os.makedirs(d)
    procs = []
    for i in range(8):
        a = os.path.join(art, "%d_" % i)
        cmd = [fexe, corpus, "-max_total_time=%d" % seconds, "-max_len=4096", "-len_control=0", "-timeout=25", "-rss_limit_mb=4000",
               "-artifact_prefix=" + a, "-seed=%d" % (1000 + i), "-print_final_stats=1", "-reload=5", "-use_value_profile=1"]
        procs.append(subprocess.Popen(cmd, stdout=subprocess.DEVNULL, stderr=open(os.path.join(work, "fuzz%d.log" % i), "wb"), env=ENV))
    for p in procs:
        p.wait()
    execs, cov = 0, 0
    for i in range(8):
        t = open(os.path.join(work, "fuzz%d.log" % i), errors="replace").read()
        m = re.search(r"stat::number_of_executed_units:\s*(\d+)", t)
        execs += int(m.group(1)) if m else 0
        for m in re.finditer(r"cov: (\d+)", t):
            cov = max(cov, int(m.group(1)))
    viol = 0
    for a in sorted(os.listdir(art)):
        if viol >= 3:
            break
        src = os.path.join(art, a)
        r = subprocess.run([exe, "--bytes", src], stdout=subprocess.PIPE, stderr=subprocess.DEVNULL, env=ENV, text=True)
        rep = os.path.join(work, "replay_%s_fuzz_%s.txt" % (pid, re.sub(r"[^A-Za-z0-9]", "_", a)[:40]))
        with open(rep, "w") as f:
            f.write("property %s\n%s" % (pid, r.stdout))
        # believed only if the ordinary (gcc) build fails on it as well
        q = subprocess.run([exe, "--id", pid, "--replay", rep], stdout=subprocess.PIPE, stderr=subprocess.DEVNULL, env=ENV, text=True)
        if q.returncode == 1:
            viol += 1
            print("VIOLATION property=%s replay=%s" % (pid, rep))
            print("  " + q.stdout[:600])
        else:
            os.unlink(rep)
    return {"engine": "libFuzzer", "executions": execs, "edges_covered": cov, "corpus": len(os.listdir(corpus)), "seconds": seconds}, viol


def main():
    ap = argparse.ArgumentParser()
    ap.add_argument("id")
    ap.add_argument("--thorough", action="store_true")
    ap.add_argument("--replay")
    ap.add_argument("--only")
    ap.add_argument("--scale", type=float, default=1.0)
    ap.add_argument("--seed", type=int, default=int(os.environ.get("VERIF_SEED", "1") or "1"))
    ap.add_argument("--max-time", type=float)
    ap.add_argument("--fuzz-time", type=int, default=120)
    a = ap.parse_args()
    t0 = time.time()
    pid = a.id
    work = os.path.join(BUILD, "work_" + pid)
    os.makedirs(work, exist_ok=True)
    for f in glob.glob(os.path.join(work, "replay_*")):
        if a.replay is None:
            os.unlink(f)
    try:
        exe = build(pid)
    except BuildError as e:
        print("BUILD FAILED for %s\n%s" % (pid, e))
        return 2
    tb = time.time() - t0
    known = os.path.join(VERIF, "known_findings.txt")
    if a.replay:
        return subprocess.run([exe, "--id", pid, "--replay", a.replay], env=ENV).returncode
    cmd = [exe, "--id", pid, "--work", work, "--seed", str(a.seed), "--known", known, "--scale", str(a.scale),
           "--max-time", str(a.max_time or (600 if a.thorough else 90))]
    if a.thorough:
        cmd.append("--thorough")
    if a.only:
        cmd += ["--only", a.only]
    res = os.path.join(work, "result.json")
    if os.path.exists(res):
        os.unlink(res)
    rc = subprocess.run(cmd, env=ENV).returncode
    if rc not in (0, 1) or not os.path.exists(res):
        print("harness ended with code %d" % rc)
        return 2
    r = json.load(open(res))
    cov = {k: r[k] for k in ("evaluations", "distinct_nontrivial", "rule", "samples", "discarded", "cases_per_law", "classes", "discard_reasons", "cut_by_time")}
    viol = r["violations"]
    if a.thorough and rc == 0 and a.fuzz_time > 0:
        f, v = fuzz_stage(pid, exe, work, a.fuzz_time, known)
        cov["coverage_guided"] = f
        cov["evaluations"] += f["executions"]
        viol += v
    ev = {"property": pid, "tier": "thorough" if a.thorough else "quick", "seed": a.seed, "level": "exploration", "coverage": cov,
          "assumptions": ["inputs are drawn from the generators described in DESIGN.md (degrees 1..7, separated knots, positive weights in [0.2,5] unless stated)",
                          "the long-double reference model in harness/gen.h is correct"],
          "wall_s": round(time.time() - t0, 2), "violations": viol}
    os.makedirs(os.path.join(VERIF, "evidence"), exist_ok=True)
    with open(os.path.join(VERIF, "evidence", pid + ".json"), "w") as f:
        json.dump(ev, f, indent=1)
    print("%s: %d cases, %d distinct non-trivial, %d discarded, build %.1f s, total %.1f s%s" % (
        pid, cov["evaluations"], cov["distinct_nontrivial"], cov["discarded"], tb, time.time() - t0, ", CUT BY TIME" if r["cut_by_time"] else ""))
    return 1 if viol else 0


if __name__ == "__main__":
    sys.exit(main())
