#!/usr/bin/env python3
"""Decides one property: builds the library from /repo's current tree together
with the property's generated-input check, runs it, writes evidence/<id>.json.

  check.py C05 quick|thorough        exit 0: held; exit 1 + VIOLATION line: broken
  check.py C05 --replay FILE         runs one saved case, with a trace
"""
import glob, json, os, shutil, struct, subprocess, sys, time

VERIF = os.path.dirname(os.path.abspath(__file__))
REPO = os.environ.get("INK_VERIF_REPO", "/repo")
# The deciding build of each property: C17 needs the sanitizers.
QUICK_MODE = {"C17": "asan"}
# A second stage: modelers in parallel threads, under ThreadSanitizer.
THREAD_CASES = {"C16": {"quick": 40000, "thorough": 600000}}
# Not driven by libFuzzer: C27 counts the branches with the same instrumentation.
NO_FUZZ = {"C27"}
FUZZ_SECONDS = int(os.environ.get("INK_VERIF_FUZZ_SECONDS", "240"))
SAN_ENV = {
    "ASAN_OPTIONS": "detect_leaks=0:abort_on_error=0:exitcode=77:hard_rss_limit_mb=3500:max_allocation_size_mb=2000",
    "TSAN_OPTIONS": "exitcode=66:halt_on_error=1",
    "UBSAN_OPTIONS": "print_stacktrace=1:exitcode=77",
    # Fills memory from malloc, so that reading what was never written shows.
    "MALLOC_PERTURB_": "170",
}


def log(*a):
    print(*a, file=sys.stderr, flush=True)


# The parts of a check that use internal headers, to be left out one by one if
# those have changed so that the check no longer builds.
OPTIONAL = {"C22": ["-DINK_VERIF_NO_FILTER", "-DINK_VERIF_NO_FILTER -DINK_VERIF_NO_MATRIX"]}


def build(prop, mode, out):
    for extra in [""] + OPTIONAL.get(prop, []):
        r = subprocess.run(
            ["make", "-s", "-j%d" % (os.cpu_count() or 8), "-C", VERIF + "/harness",
             "PROP=" + prop, "MODE=" + mode, "OUT=" + out, "REPO=" + REPO, "EXTRA=" + extra],
            stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True)
        if r.returncode == 0:
            if extra:
                log("check.py: built %s without its optional parts (%s)" % (prop, extra))
            break
    if r.returncode:
        log(r.stdout[-6000:])
        log("check.py: cannot build %s (%s)" % (prop, mode))
        sys.exit(2)
    return out + "/check"


def run_pbt(binary, scratch, tier, seed, extra=()):
    out = scratch + "/out.json"
    if os.path.exists(out):
        os.unlink(out)
    env = dict(os.environ, **SAN_ENV)
    r = subprocess.run(
        [binary, "--tier", tier, "--seed", str(seed), "--out", out, "--work", scratch,
         "--replay-dir", VERIF + "/replays", *extra],
        env=env, stdout=subprocess.PIPE, stderr=subprocess.PIPE, text=True, errors="replace")
    err = r.stderr
    log(err if len(err) < 4000 else err[:2000] + "\n[...]\n" + err[-2000:])
    stats = json.load(open(out)) if os.path.exists(out) else None
    return r.returncode, r.stdout, stats


def run_fuzz(prop, scratch, seed, seconds):
    """Coverage-guided campaign over the same property; returns (info, replays)."""
    binary = build(prop, "fuzz", scratch + "/fuzz")
    corpus = scratch + "/corpus"
    os.makedirs(corpus)
    procs = []
    n = os.cpu_count() or 8
    for i in range(n):
        d = "%s/fz%d" % (scratch, i)
        os.makedirs(d)
        env = dict(os.environ, **SAN_ENV)
        env["INK_VERIF_FUZZ_OUT"] = d + "/choices"
        cmd = [binary, corpus, "-seed=%d" % (seed * 1000 + i + 1), "-max_total_time=%d" % seconds,
               "-max_len=4096", "-timeout=150", "-rss_limit_mb=3500", "-artifact_prefix=" + d + "/",
               "-reload=1", "-print_final_stats=1", "-use_value_profile=%d" % (i % 2), "-len_control=20"]
        procs.append((d, subprocess.Popen(cmd, env=env, stdout=subprocess.DEVNULL,
                                          stderr=open(d + "/log", "w"))))
    plans, execs, cov = [], 0, 0
    for d, p in procs:
        rc = p.wait()
        text = open(d + "/log", errors="replace").read()
        for line in text.splitlines():
            if line.startswith("stat::number_of_executed_units:"):
                execs += int(line.split()[-1])
            if " cov: " in line:
                cov = max(cov, int(line.split(" cov: ")[1].split()[0]))
        if rc != 0:
            data = open(d + "/choices", "rb").read()
            count = struct.unpack_from("<Q", data, 0)[0]
            choices = struct.unpack_from("<%dQ" % count, data, 8)
            path = "%s/%s-fuzz.replay" % (d, prop)
            with open(path, "w") as f:
                f.write("%s choices\n%s\n" % (prop, " ".join(map(str, choices))))
            plans.append((path, text[-1500:]))
    info = {"executions": execs, "edges_covered": cov, "seconds": seconds, "processes": n,
            "corpus": len(os.listdir(corpus)), "stopped_early": len(plans)}
    return info, plans


def confirm(binary, path, scratch):
    """True if the saved case fails three times out of three."""
    env = dict(os.environ, **SAN_ENV)
    for _ in range(3):
        r = subprocess.run([binary, "--replay", path, "--work", scratch], env=env,
                           stdout=subprocess.PIPE, stderr=subprocess.DEVNULL, text=True)
        if r.returncode != 1:
            return False
    return True


def known_findings(prop):
    """Open findings recorded for this property (none suppresses anything else)."""
    path = VERIF + "/KNOWN_FINDINGS.txt"
    out = []
    if os.path.exists(path):
        for line in open(path):
            if line.startswith("open: property=%s " % prop):
                out.append(line[len("open: "):].strip())
    return out


def main():
    prop = sys.argv[1]
    os.makedirs(VERIF + "/build", exist_ok=True)
    os.makedirs(VERIF + "/evidence", exist_ok=True)
    os.makedirs(VERIF + "/replays", exist_ok=True)
    mode = QUICK_MODE.get(prop, "fast")
    scratch = "%s/build/%s-%d" % (VERIF, prop, os.getpid())
    os.makedirs(scratch)
    try:
        if len(sys.argv) > 3 and sys.argv[2] == "--replay":
            if "-threads" in sys.argv[3]:
                mode = "tsan"
            binary = build(prop, mode, scratch + "/main")
            return subprocess.run([binary, "--replay", sys.argv[3]], env=dict(os.environ, **SAN_ENV)).returncode
        tier = sys.argv[2] if len(sys.argv) > 2 else os.environ.get("VERIF_TIER", "quick")
        return decide(prop, tier, mode, scratch)
    finally:
        shutil.rmtree(scratch, ignore_errors=True)


def decide(prop, tier, mode, scratch):
    t0 = time.time()
    seed = int(os.environ.get("VERIF_SEED", "1") or 1)
    notes = []
    binary = build(prop, mode, scratch + "/main")
    cap = "200" if tier == "quick" else "1500"
    rc, out, stats = run_pbt(binary, scratch, tier, seed, ["--max-seconds", cap])
    if rc == 3:
        # A failure which did not reproduce from its own choices; look again.
        notes.append("a failure in the first pass could not be reproduced; second pass made")
        rc, out, stats = run_pbt(binary, scratch, tier, seed, ["--max-seconds", cap])
    sys.stdout.write(out)
    if rc not in (0, 1, 3) or stats is None:
        log("check.py: the check itself failed (exit %d)" % rc)
        return 2
    if rc == 3:
        notes.append("a failure could not be reproduced: not counted as a violation")
    violated = rc == 1
    fuzz = None
    sanitized = None
    threads = None
    if prop in THREAD_CASES and not violated:
        b3 = build(prop, "tsan", scratch + "/tsan")
        ok = subprocess.run([b3, "--selftest"], env=dict(os.environ, **SAN_ENV), stdout=subprocess.DEVNULL,
                            stderr=subprocess.DEVNULL).returncode == 0
        if ok:
            rc3, out3, st3 = run_pbt(b3, scratch, "quick", seed + 104729,
                                     ["--cases", str(THREAD_CASES[prop][tier]), "--max-seconds", "150"])
            sys.stdout.write(out3)
            violated = rc3 == 1
            if violated:
                stats["violation"] = st3["violation"] if st3 else "data race"
            threads = {"evaluations": st3["evaluations"], "violations": st3["violations"]} if st3 else None
        else:
            notes.append("ThreadSanitizer does not start here: the stage with threads was left out")
    if tier == "thorough" and not violated:
        if mode != "asan":
            b2 = build(prop, "asan", scratch + "/asan")
            rc2, out2, st2 = run_pbt(b2, scratch, "quick", seed + 7919,
                                     ["--cases", str(max(2000, stats["planned"] // 200)), "--max-seconds", "300"])
            sys.stdout.write(out2)
            violated = rc2 == 1
            sanitized = {"evaluations": st2["evaluations"], "violations": st2["violations"]} if st2 else None
        else:
            b2 = binary
        if not violated and FUZZ_SECONDS > 0 and prop not in NO_FUZZ:
            fuzz, plans = run_fuzz(prop, scratch, seed, FUZZ_SECONDS)
            for path, tail in plans:
                if confirm(b2, path, scratch):
                    dst = "%s/replays/%s-fuzz-%d.replay" % (VERIF, prop, abs(hash(open(path).read())) % 10**10)
                    shutil.copy(path, dst)
                    log(tail)
                    print("VIOLATION property=%s replay=%s" % (prop, dst), flush=True)
                    violated = True
                    break
                notes.append("a fuzzer stop could not be reproduced: not counted")
    for k in known_findings(prop):
        print("KNOWN-FINDING: " + k)
    evaluations = stats["evaluations"] + (sanitized or {}).get("evaluations", 0) + (fuzz or {}).get("executions", 0) + \
        (threads or {}).get("evaluations", 0)
    coverage = {
        "evaluations": evaluations,
        "distinct_nontrivial": stats["distinct_nontrivial"],
        "rule": stats["rule"],
        "samples": stats["samples"] or ["(no non-trivial case)"],
        "planned_cases": stats["planned"],
        "discarded": stats["discarded"],
        "labels": stats["labels"],
        "generated_cases": stats["evaluations"],
        "build": mode,
    }
    if threads:
        coverage["threads_under_tsan"] = threads
    if sanitized:
        coverage["sanitizer_run"] = sanitized
    if fuzz:
        coverage["libfuzzer"] = fuzz
    if notes:
        coverage["notes"] = notes
    if stats["violation"]:
        coverage["violation"] = stats["violation"]
    evidence = {
        "property": prop, "tier": tier, "seed": seed, "level": "exploration",
        "coverage": coverage,
        "assumptions": stats["assumptions"].split("|") + [
            "the library is compiled with clang against the installed abseil, with a shim for string formatting only",
            "x86-64, no contraction of floating-point operations"],
        "wall_s": round(time.time() - t0, 2),
        "violations": 1 if violated else 0,
    }
    with open("%s/evidence/%s.json" % (VERIF, prop), "w") as f:
        json.dump(evidence, f, indent=1)
    return 1 if violated else 0


if __name__ == "__main__":
    sys.exit(main())
