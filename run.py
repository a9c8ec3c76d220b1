#!/usr/bin/env python3
"""Driver of the property checks.

  run.py check <ID> [--tier quick|thorough]   build from /repo's working tree, search, write evidence
  run.py replay <file> [-v]                   rebuild and re-run one replay file
  run.py build <ID> <outdir>                  only build the harness (development)

Exit status: 0 held on everything explored, 1 with a VIOLATION line otherwise,
3 when the harness could not be built or run (no verdict).
"""
import hashlib, json, os, re, shutil, subprocess, sys, tempfile, time, glob
from concurrent.futures import ThreadPoolExecutor

VERIF = os.path.dirname(os.path.abspath(__file__))
REPO = os.environ.get("VERIF_REPO", "/repo")
ENGINE = os.path.join(VERIF, "engine")
HARN = os.path.join(VERIF, "harness")
NPROC = min(8, os.cpu_count() or 1)

LIBFLAGS = ["-std=c++11", "-O2", "-g1", "-w", "-DNDEBUG", "-fsanitize=address",
            "-fno-omit-frame-pointer", "-fno-lifetime-dse"]
HFLAGS = ["-std=c++17", "-O1", "-g1", "-w", "-fsanitize=address",
          "-fno-omit-frame-pointer", "-fno-lifetime-dse"]
FZFLAGS = ["-std=c++17", "-O1", "-g1", "-w", "-fsanitize=address,fuzzer-no-link",
           "-fno-omit-frame-pointer", "-DPBT_LIBFUZZER"]

def load_props():
    out = {}
    with open(os.path.join(VERIF, "harness", "checks.json")) as f:
        for k, v in json.load(f).items():
            out[k] = v
    return out

def run(cmd, **kw):
    return subprocess.run(cmd, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True, errors="replace", **kw)

def build(pid, outdir, fuzz=False, defs=()):
    """defs: preprocessor definitions selecting a documented build variant of the library"""
    os.makedirs(outdir, exist_ok=True)
    props = load_props()
    spec = props[pid]
    cxx = "clang++" if fuzz else "g++"
    lf = FZFLAGS if fuzz else LIBFLAGS
    hf = FZFLAGS if fuzz else HFLAGS
    inc = list(defs) + ["-I", os.path.join(REPO, "src"), "-I", ENGINE, "-I", HARN]
    jobs = []
    objs = []
    libs = sorted(glob.glob(os.path.join(REPO, "src", "*.cpp")))
    for s in libs:
        o = os.path.join(outdir, ("fz_" if fuzz else "") + "lib_" + os.path.basename(s) + ".o")
        fl = list(lf)
        if fuzz:
            fl[0] = "-std=c++11"
        jobs.append([cxx] + fl + inc + ["-c", s, "-o", o])
        objs.append(o)
    for s in [os.path.join(HARN, spec["src"]), os.path.join(ENGINE, "main.cpp")]:
        o = os.path.join(outdir, ("fz_" if fuzz else "") + os.path.basename(s) + ".o")
        jobs.append([cxx] + hf + inc + ["-c", s, "-o", o])
        objs.append(o)
    with ThreadPoolExecutor(NPROC) as ex:
        res = list(ex.map(run, jobs))
    for j, r in zip(jobs, res):
        if r.returncode:
            sys.stderr.write("BUILD FAILED: %s\n%s\n" % (" ".join(j), r.stdout[-6000:]))
            return None
    exe = os.path.join(outdir, "fuzz" if fuzz else "check")
    ln = [cxx] + (["-fsanitize=address,fuzzer"] if fuzz else ["-fsanitize=address"]) + objs + ["-o", exe, "-ldl"]
    r = run(ln)
    if r.returncode:
        sys.stderr.write("LINK FAILED: %s\n%s\n" % (" ".join(ln), r.stdout[-6000:]))
        return None
    return exe

def known_findings(pid):
    """entries 'known: property=<id> key=<key> <what fails>' of known_findings.txt"""
    out = {}
    p = os.path.join(VERIF, "known_findings.txt")
    if os.path.exists(p):
        for line in open(p):
            m = re.match(r"known: property=(\w+) key=(\S+) (.*)", line.strip())
            if m and m.group(1) == pid:
                out[m.group(2)] = m.group(3)
    return out

def confirm(exe, rep, work):
    """the shrunk case must fail every time when run on its own"""
    n = 0
    for _ in range(3):
        r = run([exe, "--replay", rep, "--work", work])
        if r.returncode == 1:
            n += 1
    return n == 3

def report(pid, rep_tmp, failure):
    d = os.path.join(VERIF, "replays")
    os.makedirs(d, exist_ok=True)
    h = hashlib.sha1(open(rep_tmp, "rb").read()).hexdigest()[:10]
    dst = os.path.join(d, "%s-%s.txt" % (pid, h))
    shutil.copy(rep_tmp, dst)
    print("failure: %s" % failure)
    for l in open(dst):
        if l.startswith("#"):
            print(l.rstrip()[:300])
    print("VIOLATION property=%s replay=%s" % (pid, dst))
    return dst

def check(pid, tier):
    t0 = time.time()
    seed = int(os.environ.get("VERIF_SEED", "1"))
    spec = load_props()[pid]
    work = tempfile.mkdtemp(prefix="verif_%s_" % pid)
    try:
        mult = float(spec.get("mult_" + tier, 1.0 if tier == "quick" else 20.0))
        cap = float(spec.get("cap_" + tier, 240 if tier == "quick" else 420))
        env = dict(os.environ)
        env["PBT_KNOWN"] = ",".join(sorted(known_findings(pid)))
        violations = []
        notes = []
        rc = 0
        res = None
        exe = None
        for n, defs in enumerate([[]] + spec.get("variants", [])):
            if rc:
                break
            vwork = os.path.join(work, "v%d" % n)
            vexe = build(pid, vwork, defs=defs)
            if vexe is None:
                if n == 0:
                    print("check %s: harness does not build against this tree" % pid)
                    return 3
                notes.append("build variant %s does not build, not explored" % " ".join(defs))
                print("check %s: %s" % (pid, notes[-1]))
                continue
            if n == 0:
                exe = vexe
            res_f = os.path.join(vwork, "result.json")
            rep = os.path.join(vwork, "replay.txt")
            r = subprocess.run([vexe, "--seed", str(seed), "--mult", str(mult), "--cap", str(cap), "--workers", str(NPROC),
                                "--out", res_f, "--replay-out", rep, "--work", vwork],
                               stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True, errors="replace", env=env)
            print(" ".join(defs + [r.stdout.strip()[-3000:]]))
            try:
                vres = json.load(open(res_f))
            except Exception as e:
                print("check %s: engine produced no result (%s)" % (pid, e))
                return 3
            if defs and os.path.exists(rep):
                with open(rep, "a") as f:
                    f.write("variant: %s\n" % " ".join(defs))
            if r.returncode == 1:
                if confirm(vexe, rep, vwork):
                    violations.append({"replay": report(pid, rep, vres["failure"]), "what": vres["failure"]})
                    rc = 1
                else:
                    print("check %s: a failing case did not fail on all of 3 replays; not reported: %s" % (pid, vres["failure"]))
            elif r.returncode == 2:
                print("check %s: %s" % (pid, vres["failure"]))
            if res is None:
                res = vres
            else:
                for k in ("evaluations", "distinct_nontrivial", "discarded", "nontrivial"):
                    res[k] += vres[k]
                for k in ("subtests", "labels"):
                    for q, v in vres[k].items():
                        res[k][q + " " + " ".join(defs)] = v
        fuzz_info = None
        if tier == "thorough" and rc == 0 and spec.get("fuzz", True):
            fuzz_info = fuzz(pid, spec, work, exe, seed)
            if fuzz_info.get("replay"):
                violations.append({"replay": report(pid, fuzz_info["replay"], fuzz_info["failure"]), "what": fuzz_info["failure"]})
                rc = 1
        for key, what in known_findings(pid).items():
            if rc == 0 and res.get("knowns", {}).get(key):
                print("KNOWN-FINDING: property=%s %s" % (pid, what))
        cov = {"evaluations": res["evaluations"] , "distinct_nontrivial": res["distinct_nontrivial"],
               "rule": res["rule"], "samples": res["samples"] or ["(run stopped at a violation)"],
               "discarded": res["discarded"], "nontrivial_total": res["nontrivial"],
               "subtests": res["subtests"], "classes": res["labels"]}
        if notes:
            cov["notes"] = notes
        if fuzz_info:
            fuzz_info.pop("replay", None)
            cov["libfuzzer"] = fuzz_info
        ev = {"property": pid, "tier": tier, "seed": seed, "level": "exploration", "coverage": cov,
              "wall_s": round(time.time() - t0, 3),
              "assumptions": spec.get("assumptions", []),
              "violations": [v["what"] for v in violations]}
        os.makedirs(os.path.join(VERIF, "evidence"), exist_ok=True)
        with open(os.path.join(VERIF, "evidence", pid + ".json"), "w") as f:
            json.dump(ev, f, indent=1)
        return rc
    finally:
        shutil.rmtree(work, ignore_errors=True)

def fuzz(pid, spec, work, exe, seed):
    """coverage-guided search over the same property functions (libFuzzer)"""
    info = {"executions": 0, "seconds": 0}
    fz = build(pid, work, fuzz=True)
    if fz is None:
        info["note"] = "fuzz target did not build"
        return info
    secs = int(spec.get("fuzz_s", 90))
    corpus = os.path.join(work, "corpus")
    os.makedirs(corpus, exist_ok=True)
    for i in range(64):
        with open(os.path.join(corpus, "s%d" % i), "wb") as f:
            h = b""
            k = 0
            while len(h) < 64 + 16*i:
                h += hashlib.sha256(("%s/%d/%d/%d" % (pid, seed, i, k)).encode()).digest()
                k += 1
            f.write(bytes([i]) + h)
    outpfx = os.path.join(work, "fuzzfail")
    procs = []
    t0 = time.time()
    for w in range(NPROC):
        env = dict(os.environ)
        env["PBT_FUZZ_OUT"] = outpfx
        env["PBT_KNOWN"] = ",".join(sorted(known_findings(pid)))
        log = open(os.path.join(work, "fuzz%d.log" % w), "w")
        procs.append(subprocess.Popen([fz, corpus, "-seed=%d" % (seed*100 + w + 1), "-max_total_time=%d" % secs,
                                       "-max_len=2048", "-timeout=30", "-print_final_stats=1", "-reload=10",
                                       "-artifact_prefix=" + work + "/art%d_" % w],
                                      stdout=log, stderr=subprocess.STDOUT, env=env, cwd=work))
    for p in procs:
        p.wait()
    info["seconds"] = round(time.time() - t0, 1)
    for w in range(NPROC):
        s = open(os.path.join(work, "fuzz%d.log" % w), errors="replace").read()
        m = re.search(r"number_of_executed_units:\s*(\d+)", s)
        if m:
            info["executions"] += int(m.group(1))
        m = re.findall(r"cov: (\d+)", s)
        if m:
            info["edges"] = max(info.get("edges", 0), int(m[-1]))
    for f in sorted(glob.glob(outpfx + ".*")):
        rep = f + ".rep"
        r = run([exe, "--shrink", f, "--replay-out", rep, "--work", work])
        if r.returncode == 1 and os.path.exists(rep) and confirm(exe, rep, work):
            info["replay"] = rep
            info["failure"] = r.stdout.strip()[-1500:]
            break
    return info

def replay(path, verbose):
    pid = None
    defs = []
    for l in open(path):
        if l.startswith("property: "):
            pid = l.split(": ", 1)[1].strip()
        if l.startswith("variant: "):
            defs = l.split()[1:]
    work = tempfile.mkdtemp(prefix="verif_replay_")
    try:
        exe = build(pid, work, defs=defs)
        if exe is None:
            return 3
        r = run([exe, "--replay", path, "--work", work] + (["-v"] if verbose else []))
        print(r.stdout.strip())
        err = os.path.join(work, "iso.err")
        if verbose and os.path.exists(err):
            print(open(err, errors="replace").read()[:6000])
        return r.returncode
    finally:
        shutil.rmtree(work, ignore_errors=True)

def main():
    a = sys.argv[1:]
    if not a:
        print(__doc__)
        return 3
    if a[0] == "check":
        tier = os.environ.get("VERIF_TIER", "quick")
        if "--tier" in a:
            tier = a[a.index("--tier") + 1]
        return check(a[1], tier)
    if a[0] == "replay":
        return replay(a[1], "-v" in a)
    if a[0] == "build":
        os.makedirs(a[2], exist_ok=True)
        return 0 if build(a[1], a[2], "--fuzz" in a) else 3
    print(__doc__)
    return 3

if __name__ == "__main__":
    sys.exit(main())
