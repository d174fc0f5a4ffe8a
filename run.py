#!/usr/bin/env python3
"""Builds one check's harness against /repo's working tree, runs it, writes its
evidence file.

    run.py C01 [--tier quick|thorough] [--seed N]   the check itself
    run.py C01 --replay FILE                        re-run one recorded case
"""
import argparse, glob, hashlib, json, os, re, shutil, subprocess, sys, time
from concurrent.futures import ThreadPoolExecutor

HERE = os.path.dirname(os.path.abspath(__file__))
REPO = os.environ.get("VERIF_REPO", "/repo")
sys.path.insert(0, HERE)
from checks.config import CHECKS  # noqa: E402

BUILD = os.path.join(HERE, "build")
KNOWN = os.path.join(HERE, "known_findings.txt")
BASE = ["-std=c++17", "-g1", f"-I{HERE}/pbt", f"-I{REPO}/lib/include",
        f"-I{REPO}/external/GSL/include", "-w"]
SAN = ["-O1", "-fsanitize=address,undefined", "-fno-sanitize-recover=undefined",
       "-fno-omit-frame-pointer"]
PLAIN = ["-O2"]
LIBS = ["-L/usr/lib/x86_64-linux-gnu/openblas-pthread",
        "-Wl,-rpath,/usr/lib/x86_64-linux-gnu/openblas-pthread", "-lopenblas"]
TSAN = ["-O1", "-fsanitize=thread"]
FUZZ = ["-O1", "-fsanitize=fuzzer,address,undefined",
        "-fno-sanitize-recover=undefined", "-DPBT_LIBFUZZER"]


def env():
    e = dict(os.environ)
    e.update(OPENBLAS_NUM_THREADS="1", OPENBLAS_CORETYPE="Nehalem",
             ASAN_OPTIONS="detect_leaks=0:exitcode=96:max_allocation_size_mb=2048:"
             "hard_rss_limit_mb=3000:detect_stack_use_after_return=0",
             UBSAN_OPTIONS="print_stacktrace=0:exitcode=96",
             TSAN_OPTIONS="halt_on_error=1:exitcode=96")
    return e


def tree_hash():
    h = hashlib.sha256()
    files = []
    for d in (f"{REPO}/lib/include", f"{HERE}/pbt", f"{HERE}/checks", f"{REPO}/lib/src"):
        for r, _, fs in os.walk(d):
            files += [os.path.join(r, f) for f in fs]
    for f in sorted(files):
        if not f.endswith((".hpp", ".h")) and not f.startswith(f"{REPO}/lib/include"):
            continue
        h.update(f.encode())
        h.update(open(f, "rb").read())
    return h.hexdigest()


def compile_one(cxx, flags, src, obj, th):
    key = hashlib.sha256((th + " ".join(flags) + src).encode() + open(src, "rb").read()).hexdigest()
    kf = obj + ".key"
    if os.path.exists(obj) and os.path.exists(kf) and open(kf).read() == key:
        return ""
    p = subprocess.run([cxx, *flags, "-c", src, "-o", obj], capture_output=True, text=True)
    if p.returncode:
        return p.stderr or f"{src}: failed"
    open(kf, "w").write(key)
    return ""


def build(cid, kind):
    """kind: san, plain, tsan or fuzz. Returns the executable."""
    conf = CHECKS[cid]
    cxx = "clang++" if kind in ("fuzz", "tsan") else "g++"
    flags = BASE + {"san": SAN, "plain": PLAIN, "tsan": TSAN, "fuzz": FUZZ}[kind] + conf.get("flags", [])
    libflags = flags if kind != "fuzz" else \
        [f.replace("fuzzer,", "fuzzer-no-link,") for f in flags]
    out = os.path.join(BUILD, cid, kind)
    os.makedirs(out, exist_ok=True)
    th = tree_hash()
    main = os.path.join(HERE, "checks", conf["cpp"])
    every = sorted(glob.glob(f"{REPO}/lib/src/*.cpp"))
    first = [f"{REPO}/lib/src/{s}.cpp" for s in conf.get("srcs", [])]
    first = [s for s in first if s in every]
    rest = [s for s in every if s not in first]

    def compile_all(srcs, need):
        jobs = [(main, os.path.join(out, "check.o"), flags)] if need else []
        jobs += [(s, os.path.join(out, os.path.basename(s)[:-4] + ".o"), libflags) for s in srcs]
        with ThreadPoolExecutor(8) as ex:
            errs = list(ex.map(lambda j: compile_one(cxx, j[2], j[0], j[1], th), jobs))
        return jobs, errs

    exe = os.path.join(out, "check")
    jobs, errs = compile_all(first, True)
    if any(errs):
        return None, "\n".join(e for e in errs if e)[:4000]

    def link(objs):
        return subprocess.run([cxx, *flags, *objs, "-o", exe, *LIBS, *conf.get('libs', [])], capture_output=True, text=True)
    objs = [j[1] for j in jobs]
    p = link(objs)
    if p.returncode:
        # something moved between the source files: take all that compile
        jobs2, errs2 = compile_all(rest, False)
        lib = os.path.join(out, "librest.a")
        if os.path.exists(lib):
            os.unlink(lib)
        good = [j[1] for j, e in zip(jobs2, errs2) if not e]
        if good:
            subprocess.run(["ar", "rcs", lib, *good], check=True)
            p = link(objs + [lib])
    if p.returncode:
        return None, p.stderr[:4000]
    return exe, ""


def known_ids(cid):
    out = []
    if os.path.exists(KNOWN):
        for l in open(KNOWN):
            m = re.match(r"known: property=(\S+) id=(\S+) (.*)", l)
            if m and m.group(1) == cid:
                out.append((m.group(2), m.group(3).strip()))
    return out


def fuzz_phase(cid, seed, secs):
    """Coverage-guided search over the same properties (thorough tier)."""
    conf = CHECKS[cid]
    names = conf.get("fuzz", [])
    if not names:
        return {}, []
    exe, err = build(cid, "fuzz")
    if not exe:
        print(f"note: no libFuzzer build: {err[:500]}")
        return {}, []
    stats, crashes = {}, []
    base = os.path.join(BUILD, cid, "fuzzout")
    shutil.rmtree(base, ignore_errors=True)
    per = max(5, secs // max(1, (len(names) + 7) // 8))

    def one(n):
        d = os.path.join(base, n)
        os.makedirs(os.path.join(d, "corpus"))
        e = env()
        e.update(PBT_PROP=n, PBT_KNOWN=" ".join(k for k, _ in known_ids(cid)))
        p = subprocess.run([exe, "corpus", f"-seed={seed}", f"-max_total_time={per}",
                            "-max_len=4096", "-timeout=25", "-rss_limit_mb=3000",
                            "-print_final_stats=1", "-verbosity=0"],
                           cwd=d, env=e, capture_output=True, text=True)
        m = re.search(r"number_of_executed_units:\s*(\d+)", p.stderr)
        arts = [f for f in os.listdir(d) if re.match(r"(crash|timeout|oom)-", f)]
        found = []
        for a in arts:
            ch = os.path.join(d, a + ".choices")
            e2 = dict(e, PBT_DECODE=ch)
            subprocess.run([exe, a], cwd=d, env=e2, capture_output=True)
            found.append(ch)
        return n, int(m.group(1)) if m else 0, len(os.listdir(os.path.join(d, "corpus"))), found
    with ThreadPoolExecutor(8) as ex:
        for n, units, corpus, found in ex.map(one, names):
            stats[n] = {"executed": units, "corpus": corpus}
            crashes += found
    return stats, crashes


def race_phase(a, common, scale):
    """The properties with threads again, under the race detector."""
    conf = CHECKS[a.id]
    exe, err = build(a.id, "tsan")
    if not exe:
        print(f"note: no build with the race detector: {err[:500]}")
        return None
    out = os.path.join(BUILD, a.id, "tsanout")
    shutil.rmtree(out, ignore_errors=True)
    os.makedirs(out)
    res = {}
    for n in conf["tsan"]:
        p = subprocess.run([exe, *common, "--out", out, "--seed", str(a.seed + 7919), "--scale", str(scale),
                            "--wall", "900" if a.tier == "thorough" else "120", "--only", n]
                           + (["--thorough"] if a.tier == "thorough" else []),
                           env=env(), stdout=subprocess.PIPE, text=True)
        sys.stdout.write(p.stdout)
        if p.returncode not in (0, 1):
            print(f"note: the race detector does not run here (status {p.returncode})")
            return res
        r = json.load(open(os.path.join(out, "result.json")))
        res[n] = {k: r[k] for k in ("planned", "evaluations", "distinct_nontrivial", "violations")}
    return res


def main():
    ap = argparse.ArgumentParser()
    ap.add_argument("id")
    ap.add_argument("--tier", default=os.environ.get("VERIF_TIER") or "quick")
    ap.add_argument("--seed", type=int, default=int(os.environ.get("VERIF_SEED") or 1))
    ap.add_argument("--replay")
    ap.add_argument("--scale", type=float, default=1.0)
    ap.add_argument("--only")
    a = ap.parse_args()
    conf = CHECKS[a.id]
    t0 = time.time()
    kind = conf.get("build", "san")
    exe, err = build(a.id, kind)
    if not exe:
        print(f"{a.id}: the harness does not build against {REPO}:\n{err}")
        sys.exit(2)
    t1 = time.time()
    listed = known_ids(a.id)
    common = ["--id", a.id]
    for k, _ in listed:
        common += ["--known", k]
    out = os.path.join(BUILD, a.id, "out")
    if a.replay:
        rc = subprocess.run([exe, *common, "--out", out, "--replay", os.path.abspath(a.replay)], env=env()).returncode
        if rc == 0 and conf.get("tsan"):
            exe, err = build(a.id, "tsan")
            rc = subprocess.run([exe, *common, "--out", out, "--replay", os.path.abspath(a.replay)], env=env()).returncode if exe else 0
        sys.exit(rc)
    shutil.rmtree(out, ignore_errors=True)
    os.makedirs(out)
    thorough = a.tier == "thorough"
    cmd = [exe, *common, "--out", out, "--seed", str(a.seed), "--scale", str(a.scale * (1 if thorough else conf.get("quick_scale", 1))),
           "--wall", str(1800 if thorough else 420)]
    if thorough:
        cmd.append("--thorough")
    if a.only:
        cmd += ["--only", a.only]
    p = subprocess.run(cmd, env=env(), stdout=subprocess.PIPE, text=True)
    sys.stdout.write(p.stdout)
    rc = p.returncode
    if rc not in (0, 1):
        print(f"{a.id}: the harness itself failed with status {rc}")
        sys.exit(2)
    res = json.load(open(os.path.join(out, "result.json")))
    races = None
    if conf.get("tsan") and rc == 0 and not a.only:
        races = race_phase(a, common, 1 if thorough else conf.get("tsan_scale", 1))
        if races:
            res["violations"] += sum(r["violations"] for r in races.values())
            rc = 1 if res["violations"] else 0
    fuzz = {}
    if thorough and rc == 0 and not a.only:
        fuzz, crashes = fuzz_phase(a.id, a.seed, int(conf.get("fuzz_secs", 240)))
        for ch in crashes:
            q = subprocess.run([exe, *common, "--out", out, "--replay", ch], env=env(),
                               stdout=subprocess.PIPE, text=True)
            if q.returncode == 1:
                sys.stdout.write(q.stdout)
                rc = 1
                res["violations"] += 1
    for k, what in listed:
        if k in res["known"]:
            print(f"KNOWN-FINDING: property={a.id} {k}: {what}")
    cov = {
        "evaluations": res["evaluations"],
        "distinct_nontrivial": res["distinct_nontrivial"],
        "rule": conf["rule"],
        "samples": res["samples"][:12],
        "nontrivial_total": res["nontrivial"],
        "discarded": res["discarded"],
        "planned_cases": res["planned"],
        "per_property": res["per"],
        "build": "gcc " + " ".join(SAN if kind == "san" else PLAIN) + ", assert() on",
        "build_seconds": round(t1 - t0, 1),
        "known_findings_seen": res["known"],
    }
    if fuzz:
        cov["libfuzzer"] = fuzz
    if races is not None:
        cov["race_detector"] = races or "does not run here"
    ev = {"property": a.id, "tier": "thorough" if thorough else "quick", "seed": a.seed,
          "level": "exploration", "coverage": cov,
          "assumptions": conf.get("assumptions", []),
          "wall_s": round(time.time() - t0, 2), "violations": res["violations"]}
    if not a.only:
        os.makedirs(os.path.join(HERE, "evidence"), exist_ok=True)
        with open(os.path.join(HERE, "evidence", a.id + ".json"), "w") as f:
            json.dump(ev, f, indent=1)
    print(f"{a.id}: {res['evaluations']} cases, {res['distinct_nontrivial']} distinct non-trivial, "
          f"{res['violations']} violation(s), build {t1 - t0:.0f} s, total {time.time() - t0:.0f} s")
    sys.exit(rc)


if __name__ == "__main__":
    main()
