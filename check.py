#!/usr/bin/env python3
"""Builds and runs the check of one property against /repo's working tree.

  check.py C01                 quick or thorough, by VERIF_TIER (default quick)
  check.py C01 --replay FILE   re-runs one saved failing case
  check.py --setup             builds the engine (once; checks do it if needed)

Exit status: 0 held, 1 violated (with a VIOLATION line), 2 could not decide.
"""
import glob, json, os, re, shutil, subprocess, sys, time
from concurrent.futures import ThreadPoolExecutor

HERE = os.path.dirname(os.path.abspath(__file__))
REPO = os.environ.get("VERIF_REPO", "/repo")
BUILD = os.environ.get("VERIF_BUILD", os.path.join(HERE, "build"))
OUT = os.environ.get("VERIF_OUT", HERE)
SEED = int(os.environ.get("VERIF_SEED", "1") or "1")
TIER = os.environ.get("VERIF_TIER", "quick")
if TIER not in ("quick", "thorough"):
    TIER = "quick"
JOBS = int(os.environ.get("VERIF_JOBS", "8"))

BASE = ["-std=c++20", "-O1", "-w", "-ftrivial-auto-var-init=pattern", "-I" + REPO, "-I" + os.path.join(HERE, "engine"), "-I" + os.path.join(HERE, "harness")]
# The oracles judge results. The sanitizers add: no access outside of objects.
# (No stack redzones, which triple the compile time: harnesses put the objects
# under test on the heap.)
SAN = {
    "asan": ["-fsanitize=address,bounds", "-fno-sanitize-recover=all", "--param", "asan-stack=0", "--param", "asan-instrumentation-with-call-threshold=0"],
    "none": [],
}


def sh(cmd, **kw):
    return subprocess.run(cmd, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True, **kw)


def meta(path):
    m = {"cases": 20000, "san": "asan", "repo_src": [], "fuzz": [], "flags": [], "thorough": 20, "hang": 10}
    for line in open(path):
        g = re.match(r"//\s*@(\w+)\s+(.*)", line)
        if g:
            k, v = g.group(1), g.group(2).strip()
            if k in ("repo_src", "flags"):
                m[k] = v.split()
            elif k == "fuzz":
                m[k] = [t.strip() for t in v.split(",")]
            elif k in ("cases", "thorough", "hang"):
                m[k] = int(v)
            else:
                m[k] = v
    return m


def compile_one(cxx, flags, src, obj):
    os.makedirs(os.path.dirname(obj), exist_ok=True)
    r = sh([cxx] + flags + ["-c", src, "-o", obj])
    return r.returncode, r.stdout


def engine_obj(san):
    src = os.path.join(HERE, "engine", "pbt.cc")
    hdr = os.path.join(HERE, "engine", "pbt.hh")
    obj = os.path.join(BUILD, "engine", f"pbt_{san}.o")
    if os.path.exists(obj) and os.path.getmtime(obj) > max(os.path.getmtime(src), os.path.getmtime(hdr)):
        return obj
    tmp = f"{obj}.{os.getpid()}.o"
    rc, out = compile_one("g++", BASE + SAN[san], src, tmp)
    if rc:
        print(out)
        sys.exit(2)
    os.replace(tmp, obj)
    return obj


def not_compiling(pid, src, out, d, flags):
    """Uses of the public interface which do not compile any more break the property, too,
    if this is not for want of a compiler, or of something that the scheduler's std::atomic lacks."""
    if "cvatomic.hh" in open(src).read():
        return 2
    probe = os.path.join(d, "probe.cc")
    open(probe, "w").write('#include "pbt.hh"\n')
    if not os.path.isdir(os.path.join(REPO, "util")) or compile_one("g++", BASE, probe, probe + ".o")[0]:
        return 2
    if re.search(r"out of memory|No space left|Killed|internal compiler error", out):
        return 2
    os.makedirs(os.path.join(OUT, "replays"), exist_ok=True)
    replay = os.path.join(OUT, "replays", f"{pid}.{TIER}.{SEED}.txt")
    open(replay, "w").write(f"uses of the interface in {src} do not compile\n" + out)
    print(f"VIOLATION property={pid} replay={replay}")
    return 1


def build(pid, srcs, m):
    d = os.path.join(BUILD, pid)
    os.makedirs(d, exist_ok=True)
    jobs = []
    for s in srcs:
        jobs.append((s, os.path.join(d, os.path.basename(s) + ".o")))
    for s in m["repo_src"]:
        jobs.append((os.path.join(REPO, s), os.path.join(d, os.path.basename(s) + ".o")))
    flags = BASE + SAN[m["san"]] + m["flags"]
    with ThreadPoolExecutor(8) as ex:
        eng = ex.submit(engine_obj, m["san"])
        res = list(ex.map(lambda j: compile_one("g++", flags, *j), jobs))
        eng = eng.result()
    for (s, _), (rc, out) in zip(jobs, res):
        if rc:
            print(f"{pid}: {s} does not compile against {REPO}:\n{out[-4000:]}")
            sys.exit(not_compiling(pid, s, out, d, flags))
    exe = os.path.join(d, "run")
    r = sh(["g++"] + SAN[m["san"]] + [o for _, o in jobs] + [eng, "-o", exe, "-lpthread"])
    if r.returncode:
        print(f"{pid}: link failed:\n{r.stdout[-4000:]}")
        sys.exit(2)
    return exe


def fuzz(pid, srcs, m, replay_out, limit):
    """Thorough tier: the same case functions driven by libFuzzer's coverage feedback."""
    d = os.path.join(BUILD, pid)
    exe = os.path.join(d, "fuzz")
    flags = BASE + ["-fsanitize=fuzzer,address,bounds", "-fno-sanitize-recover=all", "-DPBT_LIBFUZZER"] + m["flags"]
    objs = []
    all_src = srcs + [os.path.join(REPO, s) for s in m["repo_src"]] + [os.path.join(HERE, "engine", "pbt.cc")]
    with ThreadPoolExecutor(8) as ex:
        objs = [os.path.join(d, "fz_" + os.path.basename(s) + ".o") for s in all_src]
        res = list(ex.map(lambda so: compile_one("clang++", flags, *so), zip(all_src, objs)))
    if any(rc for rc, _ in res):
        return {"error": "libFuzzer build failed: " + "".join(o for _, o in res)[-500:]}, None
    r = sh(["clang++", "-fsanitize=fuzzer,address,bounds"] + objs + ["-o", exe, "-lpthread"])
    if r.returncode:
        return {"error": "libFuzzer link failed: " + r.stdout[-500:]}, None
    stats, failing = {"engine": "libFuzzer 18", "targets": []}, None
    for target in m["fuzz"]:
        procs = []
        for j in range(JOBS):
            corpus = os.path.join(d, f"corpus_{j}")
            shutil.rmtree(corpus, ignore_errors=True)
            os.makedirs(corpus)
            rep = f"{replay_out}.{j}"
            if os.path.exists(rep):
                os.unlink(rep)
            env = dict(os.environ, PBT_TARGET=target, PBT_REPLAY_OUT=rep)
            cmd = [exe, f"-seed={SEED * 1000 + j + 1}", "-runs=20000000", f"-max_total_time={limit}", "-max_len=2048", "-rss_limit_mb=3000",
                   "-timeout=60", "-use_value_profile=1", "-print_final_stats=1", f"-artifact_prefix={corpus}/", corpus]
            procs.append((j, rep, corpus, subprocess.Popen(cmd, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, env=env, text=True, errors="replace")))
        runs = cov = 0
        for j, rep, corpus, p in procs:
            out, _ = p.communicate()
            g = re.search(r"stat::number_of_executed_units:\s*(\d+)", out)
            runs += int(g.group(1)) if g else 0
            for g in re.finditer(r"cov: (\d+)", out):
                cov = max(cov, int(g.group(1)))
            shutil.rmtree(corpus, ignore_errors=True)
            if os.path.exists(rep):
                failing = failing or rep
        stats["targets"].append({"name": target, "executions": runs, "edges_covered": cov})
        if failing:
            break
    return stats, failing


def known_findings(pid):
    path = os.path.join(HERE, "known_findings.txt")
    out = []
    if os.path.exists(path):
        for line in open(path):
            g = re.match(r"KNOWN-FINDING: property=(\S+) (.*)", line.strip())
            if g and g.group(1) == pid:
                out.append(line.strip())
    return out


def main():
    args = sys.argv[1:]
    if args == ["--setup"]:
        for s in SAN:
            engine_obj(s)
        print("engine built")
        return 0
    pid = args[0]
    srcs = sorted(glob.glob(os.path.join(HERE, "harness", pid + "_*.cc")))
    if not srcs:
        print("no harness for", pid)
        return 2
    m = meta(srcs[0])
    t0 = time.time()
    exe = build(pid, srcs, m)
    t_build = time.time() - t0
    if "--replay" in args:
        return subprocess.run([exe, "--property", pid, "--replay", os.path.abspath(args[args.index("--replay") + 1])]).returncode
    os.makedirs(os.path.join(OUT, "replays"), exist_ok=True)
    os.makedirs(os.path.join(OUT, "evidence"), exist_ok=True)
    replay = os.path.join(OUT, "replays", f"{pid}.{TIER}.{SEED}.txt")
    if os.path.exists(replay):
        os.unlink(replay)
    res = os.path.join(BUILD, pid, "result.json")
    if os.path.exists(res):
        os.unlink(res)
    cases = int(os.environ.get("VERIF_CASES", "0")) or m["cases"] * (m["thorough"] if TIER == "thorough" else 1)
    cmd = [exe, "--property", pid, "--seed", str(SEED), "--cases", str(cases), "--jobs", str(JOBS),
           "--wall", "600" if TIER == "thorough" else "200", "--hang", str(m["hang"]), "--out", res, "--replay-out", replay]
    if "--only" in args:
        cmd += ["--only", args[args.index("--only") + 1]]
    r = subprocess.run(cmd)
    rc = r.returncode if r.returncode in (0, 1) else 2
    try:
        data = json.load(open(res))
    except Exception as e:
        print("no result from the runner:", e, "status", r.returncode)
        return 2
    fz = None
    if rc == 0 and TIER == "thorough" and m["fuzz"]:
        fz, failing = fuzz(pid, srcs, m, replay, 90)
        if failing:
            oks = [subprocess.run([exe, "--property", pid, "--replay", failing], stdout=subprocess.DEVNULL).returncode for _ in range(3)]
            if oks == [1, 1, 1]:
                os.replace(failing, replay)
                data["violations"] = 1
                data["violation_message"] = "found by libFuzzer"
                print(f"VIOLATION property={pid} replay={replay}")
                rc = 1
            else:
                print("libFuzzer finding did not reproduce under the gcc build")
    rules = "; ".join(f"{t['name']}: {t['nontrivial_rule']}" for t in data["targets"])
    ev = {
        "property": pid, "tier": TIER, "seed": SEED, "level": "exploration",
        "coverage": {
            "evaluations": data["evaluations"],
            "distinct_nontrivial": data["distinct_nontrivial"],
            "rule": "Each case is a bounded choice sequence drawn from a PRNG seeded by VERIF_SEED, the target and the case index; distinct = distinct choice sequences among the non-trivial cases. Non-trivial, per target: " + rules,
            "samples": data["samples"][:24],
            "distinct_is_lower_bound": data["distinct_is_lower_bound"],
            "choices_drawn": data["choices_drawn"],
            "planned_cases": data["planned_cases"],
            "truncated_by_wall_limit": data["truncated_by_wall_limit"],
            "targets": data["targets"],
        },
        "assumptions": ["g++ 13 -O1 on x86-64" + (" with AddressSanitizer and UBSan bounds" if m["san"] == "asan" else ", cooperative scheduler in place of the hardware's")],
        "wall_s": round(time.time() - t0, 2),
        "violations": data["violations"],
    }
    if fz:
        ev["coverage"]["coverage_guided"] = fz
    if data["note"]:
        ev["coverage"]["note"] = data["note"]
    if data["violation_message"]:
        ev["coverage"]["violation_message"] = data["violation_message"]
    known = known_findings(pid)
    if known:
        ev["coverage"]["known_findings"] = known
        if rc == 0:
            for k in known:
                print(k)
    with open(os.path.join(OUT, "evidence", pid + ".json"), "w") as f:
        json.dump(ev, f, indent=1)
    print(f"{pid} {TIER} seed={SEED}: {data['evaluations']} cases, {data['distinct_nontrivial']} distinct non-trivial, build {t_build:.1f} s, total {time.time() - t0:.1f} s, rc={rc}")
    return rc


if __name__ == "__main__":
    sys.exit(main())
