#!/usr/bin/env python3
"""Build one property's harness from /repo's working tree, run it on generated cases, judge, report.

usage: run.py ID [--tier quick|thorough] [--replay FILE] [--scale F] [--keep DIR] [--arch A,B] [--only TEST]
exit 0: the property held on everything explored; 1: VIOLATION line printed; 2: no answer (build failure).
"""
import argparse, concurrent.futures as cf, hashlib, json, os, re, shutil, subprocess, sys, tempfile, time

VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
REPO = os.environ.get("VERIF_REPO", "/repo")
sys.path.insert(0, os.path.join(VERIF, "checks"))
import specs  # noqa: E402

CXX = "clang++-18" if shutil.which("clang++-18") else "clang++"
NCPU = min(8, os.cpu_count() or 8)

ARCH_FLAGS = {
    "generic": ["-DCMT_FORCE_GENERIC_CPU"],
    "sse2": ["-mno-sse3", "-msse2"],
    "sse41": ["-mno-sse3", "-msse4.1"],
    "avx": ["-mno-sse3", "-msse4.2", "-mavx"],
    "avx2": ["-mno-sse3", "-msse4.2", "-mavx2", "-mfma"],
    "avx512": ["-mno-sse3", "-msse4.2", "-mavx2", "-mfma", "-mavx512f", "-mavx512cd", "-mavx512bw",
               "-mavx512dq", "-mavx512vl"],
}
MULTI = ["sse2", "sse41", "avx", "avx2", "avx512"]
CPU_NEEDS = {"generic": [], "sse2": [], "sse41": ["sse4_1"], "avx": ["avx"], "avx2": ["avx2", "fma"],
             "avx512": ["avx512f", "avx512cd", "avx512bw", "avx512dq", "avx512vl"]}


def cpu_flags():
    try:
        for line in open("/proc/cpuinfo"):
            if line.startswith("flags"):
                return set(line.split(":", 1)[1].split())
    except OSError:
        pass
    return set()


def cmake_sources(var):
    """The source files of a library, read from the repository's own source list."""
    txt = open(os.path.join(REPO, "sources.cmake")).read()
    m = re.search(r"set\(\s*%s\s+(.*?)\)" % var, txt, re.S)
    files = re.findall(r"(\S+\.cpp)", m.group(1))
    return [os.path.join(REPO, re.sub(r"^\$\{[A-Z_]*\}/", "", f)) for f in files]


LIBVARS = {"dft": "KFR_DFT_SRC", "dsp": "KFR_DSP_SRC", "io": "KFR_IO_SRC"}
BASE = ["-std=gnu++17", "-I" + os.path.join(REPO, "include"), "-I" + os.path.join(VERIF, "engine"),
        "-faligned-allocation", "-Wno-everything", "-pthread", "-fvisibility=hidden", "-DNDEBUG"]
LIBFLAGS = {"dft": ["-ffp-contract=fast", "-O3"], "dsp": ["-O2"], "io": ["-O2"], "capi": ["-O2"]}


def tree_hash():
    h = hashlib.sha1()
    for top in ("include", "src"):
        for d, _, fs in sorted(os.walk(os.path.join(REPO, top))):
            for f in sorted(fs):
                h.update(open(os.path.join(d, f), "rb").read())
    return h.hexdigest()


def plan_jobs(spec, archs, tmp):
    """-> (compile jobs [(cmd, obj)], link jobs [(label, cmd, binary)])"""
    jobs, links = [], []
    defs = ['-DKFR_ENABLED_ARCHS="sse2, sse41, avx, avx2, avx512"']
    extra = spec.get("flags", [])
    san = spec.get("san", {})
    lf = {k: [spec["libopt"] if x.startswith("-O") and "libopt" in spec else x for x in v]
          for k, v in LIBFLAGS.items()}

    def add(src, flags, tag):
        obj = os.path.join(tmp, "%s-%s-%s.o" % (os.path.basename(os.path.dirname(src)),
                                            os.path.basename(src).replace(".cpp", ""), tag))
        jobs.append(([CXX] + BASE + defs + flags + ["-c", src, "-o", obj], obj))
        return obj

    if spec.get("mode", "single") == "multi":
        # as the library is shipped: one object per architecture with run-time dispatch
        objs = []
        archset = spec.get("multi_archs", MULTI)
        multi = ["-DCMT_MULTI=1"] + ["-DCMT_MULTI_ENABLED_%s=1" % a.upper() for a in archset]
        for lib in spec.get("libs", []):
            for src in cmake_sources(LIBVARS[lib]):
                if lib == "io":
                    objs.append(add(src, lf[lib] + ARCH_FLAGS["sse2"], "io"))
                    continue
                for a in archset if os.path.basename(src) != "version.cpp" else archset[:1]:
                    f = lf[lib] + ARCH_FLAGS[a] + multi + (["-DCMT_BASE_ARCH=1"] if a == "sse2" else [])
                    objs.append(add(src, f, "m" + a))
        if spec.get("capi"):
            objs.append(add(os.path.join(REPO, "src/capi/capi.cpp"), lf["capi"] + ARCH_FLAGS["sse2"] +
                            ["-DKFR_BUILDING_DLL=1"], "capi"))
        hflags = spec.get("opt", ["-O1"]) + ARCH_FLAGS[spec.get("harness_arch", "sse2")] + extra
        for src in spec["srcs"]:
            objs.append(add(os.path.join(VERIF, "checks", src), hflags, "h"))
        binary = os.path.join(tmp, "multi")
        cmd = [CXX] + extra + objs + ["-o", binary, "-pthread", "-lm", "-ldl"] + spec.get("link", [])
        for a in archs:
            links.append((a, cmd if a == archs[0] else None, binary))
    else:
        for a in archs:
            sf = san.get(a, [])
            objs = []
            for lib in spec.get("libs", []):
                for src in cmake_sources(LIBVARS[lib]):
                    objs.append(add(src, lf[lib] + ARCH_FLAGS[a] + sf, a))
            if spec.get("capi"):
                objs.append(add(os.path.join(REPO, "src/capi/capi.cpp"),
                                lf["capi"] + ARCH_FLAGS[a] + sf + ["-DKFR_BUILDING_DLL=1"], a))
            for src in spec["srcs"]:
                objs.append(add(os.path.join(VERIF, "checks", src),
                                spec.get("opt", ["-O1"]) + ARCH_FLAGS[a] + sf + extra, a))
            binary = os.path.join(tmp, "run-" + a)
            links.append((a, [CXX] + sf + extra + objs + ["-o", binary, "-pthread", "-lm"] + spec.get("link", []),
                          binary))
    return jobs, links


def build(spec, archs, tmp):
    jobs, links = plan_jobs(spec, archs, tmp)
    # slow sources first
    jobs.sort(key=lambda j: -(3 if "impl-f" in j[1] else 2 if "/checks/" in " ".join(j[0]) else 1))
    cache = os.environ.get("VERIF_DEVCACHE")  # only for developing the checks: reuse objects of identical inputs
    tree = tree_hash() if cache else ""
    def one(job):
        if cache:
            src = job[0][job[0].index("-c") + 1]
            own = open(src).read() if src.startswith(VERIF) else ""
            if own:
                for d in ("engine", "checks"):
                    for f in sorted(os.listdir(os.path.join(VERIF, d))):
                        if f.endswith(".hpp") or f[:4] == os.path.basename(src)[:4] and f.endswith(".cpp"):
                            own += open(os.path.join(VERIF, d, f)).read()
            cmd = [x for x in job[0] if x != job[1]]
            key = os.path.join(cache, hashlib.sha1(json.dumps([cmd, tree, own]).encode()).hexdigest() + ".o")
            if os.path.exists(key):
                shutil.copy(key, job[1])
                return job, 0, ""
            r = one_(job)
            if r[1] == 0:
                os.makedirs(cache, exist_ok=True)
                shutil.copy(job[1], key + ".tmp%d" % os.getpid())
                os.rename(key + ".tmp%d" % os.getpid(), key)
            return r
        return one_(job)
    def one_(job):
        p = subprocess.run(job[0], stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True)
        return job, p.returncode, p.stdout
    with cf.ThreadPoolExecutor(NCPU) as ex:
        for job, rc, out in ex.map(one, jobs):
            if rc:
                print("BUILD FAILED: " + " ".join(job[0]))
                print(out[-6000:])
                sys.exit(2)
        for r in ex.map(lambda l: (l, subprocess.run(l[1], stdout=subprocess.PIPE, stderr=subprocess.STDOUT,
                                                     text=True)) if l[1] else (l, None), links):
            l, p = r
            if p is not None and p.returncode:
                print("LINK FAILED: " + " ".join(l[1]))
                print(p.stdout[-6000:])
                sys.exit(2)
    return [(l[0], l[2]) for l in links]


def main():
    ap = argparse.ArgumentParser()
    ap.add_argument("id")
    ap.add_argument("--tier", default=os.environ.get("VERIF_TIER", "quick"))
    ap.add_argument("--replay")
    ap.add_argument("--scale", type=float, default=1.0)
    ap.add_argument("--keep")
    ap.add_argument("--arch")
    ap.add_argument("--only")
    ap.add_argument("--no-build", action="store_true", help="with --keep: reuse the binaries there")
    a = ap.parse_args()
    t0 = time.monotonic()
    seed = int(os.environ.get("VERIF_SEED", "1") or 1)
    spec = specs.SPECS[a.id]
    if a.tier == "thorough":
        spec = dict(spec, **spec.get("thorough", {}))
    have = cpu_flags()
    archs = list(spec.get("archs_thorough", spec["archs"]) if a.tier == "thorough" else spec["archs"])
    if a.arch:
        archs = a.arch.split(",")
    rep = None
    if a.replay:
        rep = json.load(open(a.replay))
        archs = [rep["arch"]]
    usable = [x for x in archs if all(f in have for f in CPU_NEEDS[x])]
    skipped = [x for x in archs if x not in usable]
    archs = usable or ["sse2"]

    tmp = a.keep or tempfile.mkdtemp(prefix="verif-%s-" % a.id)
    os.makedirs(tmp, exist_ok=True)
    try:
        rc = body(a, spec, archs, skipped, tmp, seed, rep, t0)
    finally:
        if not a.keep:
            shutil.rmtree(tmp, ignore_errors=True)
    sys.exit(rc)


def runenv(tmp, arch, shard):
    scratch = os.path.join(tmp, "scratch-%s-%s" % (arch, shard))
    os.makedirs(scratch, exist_ok=True)
    env = dict(os.environ)
    env.update(PBT_ARCH=arch, PBT_SCRATCH=scratch, PBT_VERIF=VERIF, PBT_REPO=REPO,
               ASAN_OPTIONS="detect_leaks=0:abort_on_error=0:exitcode=77:allocator_may_return_null=1:max_allocation_size_mb=2048:"
                            "detect_stack_use_after_return=0",
               UBSAN_OPTIONS="halt_on_error=1:exitcode=78", TSAN_OPTIONS="halt_on_error=1:exitcode=66")
    return env


def noaslr(spec):
    """the thread sanitizer needs the classic address layout"""
    if spec.get("noaslr") and shutil.which("setarch") and subprocess.run(["setarch", "-R", "true"]).returncode == 0:
        return ["setarch", "-R"]
    return []


def replay_once(binary, tmp, arch, failure, k):
    path = os.path.join(tmp, "replay-%s-%d.txt" % (arch, k))
    with open(path, "w") as f:
        f.write(failure["test"] + "\n" + " ".join(map(str, failure["choices"])) + "\n")
    try:
        p = subprocess.run(noaslr(failure) + [binary, "--replay", path, "--label", arch], env=runenv(tmp, arch, "r"), stdout=subprocess.PIPE,
                           stderr=subprocess.DEVNULL, text=True, timeout=300)
    except subprocess.TimeoutExpired:
        return 1, "replay timed out"
    return p.returncode, p.stdout


def body(a, spec, archs, skipped, tmp, seed, rep, t0):
    if a.no_build:
        _, links = plan_jobs(spec, archs, tmp)
        bins = [(l[0], l[2]) for l in links]
    else:
        bins = build(spec, archs, tmp)
    t_build = time.monotonic() - t0
    if rep:
        rep["noaslr"] = spec.get("noaslr")
        rc, out = replay_once(bins[0][1], tmp, bins[0][0], rep, 0)
        print(out)
        if rc == 1:
            print("VIOLATION property=%s replay=%s" % (a.id, a.replay))
            return 1
        return 0 if rc == 0 else 2

    shards = max(1, spec.get("shards", max(1, round(NCPU / len(bins)))))
    runs = []
    for arch, binary in bins:
        for s in range(shards):
            out = os.path.join(tmp, "out-%s-%d.json" % (arch, s))
            if os.path.exists(out):
                os.unlink(out)
            cmd = [binary, "--seed", str(seed), "--tier", a.tier, "--shard", "%d/%d" % (s, shards), "--label",
                   arch, "--out", out, "--scale", str(a.scale * (spec.get("tscale", 1) if a.tier == "thorough" else 1)), "--budget",
                   str(spec.get("budget", 300) if a.tier == "quick" else spec.get("budget_thorough", 3000))]
            if a.only:
                cmd += ["--only", a.only]
            cmd = noaslr(spec) + cmd
            runs.append((arch, s, binary, cmd, out))

    def one(r):
        p = subprocess.run(r[3], env=runenv(tmp, r[0], r[1]), stdout=subprocess.DEVNULL, stderr=subprocess.PIPE)
        return r, p.returncode, p.stderr.decode("utf8", "replace")
    results, broken = [], []
    with cf.ThreadPoolExecutor(spec.get("parallel", NCPU)) as ex:
        for r, rc, err in ex.map(one, runs):
            if rc not in (0, 1) or not os.path.exists(r[4]):
                broken.append((r, rc, err))
                continue
            results.append((r, json.load(open(r[4]))))
    if broken:
        for r, rc, err in broken:
            print("harness did not finish: arch=%s shard=%s rc=%s\n%s" % (r[0], r[1], rc, err[-2000:]))
        return 2

    known = json.load(open(os.path.join(VERIF, "known_findings.json")))["findings"]
    ev, nt, disc, keys, samples, labels, per = 0, 0, 0, set(), [], {}, {}
    truncated, worst, viol, kf, seen = False, {}, [], [], set()
    for (arch, s, binary, cmd, out), js in results:
        truncated |= js["truncated"]
        for t in js["tests"]:
            ev += t["evaluations"]; nt += t["nontrivial"]; disc += t["discarded"]
            keys.update(t["keys"])
            d = per.setdefault(t["name"], {"evaluations": 0, "nontrivial": 0, "worst_error_over_tolerance": 0.0})
            d["evaluations"] += t["evaluations"]; d["nontrivial"] += t["nontrivial"]
            d["worst_error_over_tolerance"] = max(d["worst_error_over_tolerance"], t["worst"])
            for k, v in t["labels"].items():
                labels[t["name"] + ":" + k] = labels.get(t["name"] + ":" + k, 0) + v
            for x in t["samples"][:3]:
                samples.append("%s/%s: %s" % (arch, t["name"], x))
        for f in js["failures"]:
            f["arch"], f["binary"], f["noaslr"] = arch, binary, spec.get("noaslr")
            k = next((x for x in known if x["status"] == "known" and x["property"] == a.id and
                      x["test"] == f["test"] and re.search(x["match"], f["message"])), None)
            if k:
                kf.append(k)
                continue
            viol.append(f)
    printed = set()
    for k in kf:
        if k["id"] not in printed:
            printed.add(k["id"])
            print("KNOWN-FINDING: property=%s %s" % (a.id, k["what"]))

    real = []
    for f in viol:
        if (f["test"], f["kind"]) in seen:
            continue
        again = [replay_once(f["binary"], tmp, f["arch"], f, i)[0] for i in range(3)]
        f["replayed"] = "%d of 3" % sum(1 for x in again if x == 1)
        if f["kind"] == "timeout" and sum(1 for x in again if x == 1) < 3:
            print("note: a timeout of %s did not reproduce; not reported" % f["test"])
            continue
        seen.add((f["test"], f["kind"]))
        real.append(f)

    lines = []
    if real:
        os.makedirs(os.path.join(VERIF, "replays"), exist_ok=True)
    for f in real:
        doc = {"property": a.id, "arch": f["arch"], "tier": a.tier, "seed": seed, "test": f["test"],
               "case": f["case"], "kind": f["kind"], "message": f["message"], "input": f["input"],
               "shrink_steps": f["shrinks"], "replayed": f["replayed"], "choices": f["choices"],
               "how": "python3 %s/engine/run.py %s --replay <this file>" % (VERIF, a.id)}
        h = hashlib.sha1(json.dumps([f["arch"], f["test"], f["choices"]]).encode()).hexdigest()[:10]
        path = os.path.join(VERIF, "replays", "%s-%s-%s.json" % (a.id, f["test"], h))
        json.dump(doc, open(path, "w"), indent=1)
        print("%s [%s] %s\n    input: %s\n    replayed: %s" % (f["test"], f["arch"], f["message"], f["input"],
                                                            f["replayed"]))
        lines.append("VIOLATION property=%s replay=%s" % (a.id, path))

    # a few samples of each test
    pick, cnt = [], {}
    for x in samples:
        key = x.split(":")[0].split("/")[1]
        if cnt.get(key, 0) < 2 and len(pick) < 60:
            cnt[key] = cnt.get(key, 0) + 1
            pick.append(x)
    evidence = {
        "property": a.id, "tier": a.tier, "seed": seed, "level": spec["level"],
        "coverage": {
            "evaluations": ev, "distinct_nontrivial": len(keys), "rule": spec["rule"], "samples": pick,
            "nontrivial_evaluations": nt, "discarded": disc, "architectures": [b[0] for b in bins],
            "architectures_not_available_on_this_cpu": skipped, "truncated_by_time_budget": truncated,
            "per_test": per, "labels": labels, "build_s": round(t_build, 1),
            "known_findings_reproduced": sorted(printed),
        },
        "assumptions": spec.get("assumptions", []), "violations": len(real),
        "wall_s": round(time.monotonic() - t0, 2),
    }
    os.makedirs(os.path.join(VERIF, "evidence"), exist_ok=True)
    json.dump(evidence, open(os.path.join(VERIF, "evidence", a.id + ".json"), "w"), indent=1)
    print("%s %s seed=%d: %d cases, %d distinct non-trivial, %d discarded, archs %s, build %.0fs, total %.0fs%s" % (
        a.id, a.tier, seed, ev, len(keys), disc, ",".join(b[0] for b in bins), t_build, time.monotonic() - t0,
        " (truncated)" if truncated else ""))
    for l in lines:
        print(l)
    return 1 if lines else 0


if __name__ == "__main__":
    main()
