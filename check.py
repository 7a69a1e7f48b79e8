#!/usr/bin/env python3
"""Runs the check of one property against /repo's current working tree.

usage: check.py PROPERTY [--tier quick|thorough] [--seed N] [--replay FILE] [--keep]
exit 0: held on everything explored; exit 1: a line "VIOLATION property=<id> replay=<path>"; exit 2: no answer (error).
"""
import argparse, json, os, shutil, subprocess, sys, tempfile, time, concurrent.futures, re

HERE = os.path.dirname(os.path.abspath(__file__))
sys.path.insert(0, HERE)
from checks import CHECKS, VARIANTS  # noqa: E402

REPO = os.environ.get("CERAS_REPO", "/repo")


def compile_one(src, variant, out):
    v = VARIANTS[variant]
    cmd = [v["cxx"], "-std=c++20", "-w", "-ftemplate-depth=100860", "-I" + HERE, "-I" + REPO,
           '-DCERAS_HEADER="%s/include/ceras.hpp"' % REPO] + v["flags"] + [os.path.join(HERE, "harness", src + ".cc"), "-o", out] + v.get("ld", [])
    for attempt in range(3):
        p = subprocess.run(cmd, stdin=subprocess.DEVNULL, stdout=subprocess.PIPE, stderr=subprocess.STDOUT)
        text = p.stdout.decode("utf8", "replace")
        if p.returncode == 0:
            return None
        if "error:" in text and "Killed" not in text and "out of memory" not in text:
            return text
        time.sleep(5 * (attempt + 1))
    return text


def in_library(text):
    """the compiler's first error is located in the library's own headers"""
    for line in text.splitlines():
        m = re.match(r"(\S+?):\d+:\d+: (?:fatal )?error: ", line)
        if m:
            return os.path.realpath(m.group(1)).startswith(os.path.realpath(REPO) + "/include/")
    return False


def write_evidence(prop, evidence):
    os.makedirs(os.path.join(HERE, "evidence"), exist_ok=True)
    json.dump(evidence, open(os.path.join(HERE, "evidence", prop + ".json"), "w"), indent=1)


def known_findings(prop):
    out = {}
    try:
        for line in open(os.path.join(HERE, "known_findings.txt")):
            m = re.match(r"finding: property=(\S+) key=(\S+) (.*)", line.strip())
            if m and m.group(1) == prop:
                out[m.group(2)] = m.group(3)
    except FileNotFoundError:
        pass
    return out


def run_env():
    env = dict(os.environ)
    env["ASAN_OPTIONS"] = "detect_leaks=0:abort_on_error=0:allocator_may_return_null=0:detect_odr_violation=0:quarantine_size_mb=16:malloc_context_size=12"
    env["UBSAN_OPTIONS"] = "print_stacktrace=0:halt_on_error=1"
    env["TSAN_OPTIONS"] = "halt_on_error=1:exitcode=66:report_signal_unsafe=0"
    env["LC_ALL"] = "C.UTF-8"
    return env


def main():
    ap = argparse.ArgumentParser()
    ap.add_argument("property")
    ap.add_argument("--tier", default=os.environ.get("VERIF_TIER") or "quick")
    ap.add_argument("--seed", type=int, default=None)
    ap.add_argument("--replay")
    ap.add_argument("--scale", type=float, default=1.0)
    ap.add_argument("--only", default="")
    ap.add_argument("--variant", default="")
    a = ap.parse_args()
    seed = a.seed
    if seed is None:
        try:
            seed = int(os.environ.get("VERIF_SEED", "1"))
        except ValueError:
            seed = 1
    prop = a.property
    spec = CHECKS[prop]
    thorough = a.tier == "thorough"
    t0 = time.time()
    scratch = tempfile.mkdtemp(prefix="verif_" + prop + "_")
    try:
        return drive(a, prop, spec, thorough, seed & 0x7fffffffffffffff, t0, scratch)
    finally:
        shutil.rmtree(scratch, ignore_errors=True)


def drive(a, prop, spec, thorough, seed, t0, scratch):
    if not os.path.exists(REPO + "/include/ceras.hpp"):
        print("ERROR: no %s/include/ceras.hpp" % REPO)
        return 2
    if a.replay:
        return replay(a, prop, scratch)
    runs = [r for r in spec["runs"] if thorough or not r.get("thorough_only")]
    if a.variant:
        runs = [r for r in runs if r["variant"] == a.variant]
    with concurrent.futures.ThreadPoolExecutor(max_workers=spec.get("compile_jobs", 8)) as ex:
        futs = []
        for i, r in enumerate(runs):
            r = dict(r)
            r["bin"] = os.path.join(scratch, "%s_%s" % (r["src"].replace("/", "_"), r["variant"]))
            runs[i] = r
            futs.append(ex.submit(compile_one, r["src"], r["variant"], r["bin"]))
        errs = [f.result() for f in futs]
    compile_s = time.time() - t0
    for r, e in zip(runs, errs):
        if e is not None and in_library(e):
            # a use of the public interface which compiles on the unchanged tree no longer does, and the error is inside the library
            os.makedirs(os.path.join(HERE, "replays"), exist_ok=True)
            path = os.path.join(HERE, "replays", "%s-compile.json" % prop)
            json.dump({"property": prop, "src": r["src"], "variant": r["variant"], "mode": "compile", "message": e[:20000], "replay_with": "python3 %s/check.py %s --replay %s" % (HERE, prop, path)}, open(path, "w"), indent=1)
            write_evidence(prop, {"property": prop, "tier": "thorough" if thorough else "quick", "seed": seed, "level": "exploration", "coverage": {"evaluations": 0, "distinct_nontrivial": 0, "rule": "the harness must compile against the public interface", "samples": [e[:1500]]}, "assumptions": [], "wall_s": round(time.time() - t0, 2), "violations": 1})
            print("harness %s (%s): the library does not compile for this use of its public interface:\n%s" % (r["src"], r["variant"], e[:3000]))
            print("VIOLATION property=%s replay=%s" % (prop, path))
            return 1
        if e is not None:
            print("ERROR: harness %s (%s) does not compile against %s:\n%s" % (r["src"], r["variant"], REPO, e[:4000]))
            return 2
    known = known_findings(prop)
    results = []
    for r in runs:
        out = r["bin"] + ".json"
        work = r["bin"] + ".scratch"
        os.mkdir(work)
        scale = (r.get("tscale", r.get("scale", 1.0)) if thorough else r.get("scale", 1.0)) * a.scale
        budget = r.get("tbudget", 500.0 if len(runs) < 3 else 250.0) if thorough else r.get("budget", 150.0)
        cmd = [r["bin"], "--seed", str(seed), "--scale", str(scale), "--jobs", "8", "--budget", str(budget), "--scratch", work, "--out", out, "--known", ",".join(known)]
        if thorough:
            cmd.append("--thorough")
        if a.only:
            cmd += ["--only", a.only]
        p = subprocess.run(cmd, cwd=work, env=run_env(), stdin=subprocess.DEVNULL, stdout=subprocess.PIPE, stderr=subprocess.STDOUT)
        try:
            d = json.load(open(out))
        except Exception as e:
            print("ERROR: harness %s (%s) gave no result (status %s): %s\n%s" % (r["src"], r["variant"], p.returncode, e, p.stdout.decode("utf8", "replace")[-3000:]))
            return 2
        results.append((r, d))
        shutil.rmtree(work, ignore_errors=True)
        if d["violations"]:
            break
    # ---- report
    fams, samples, found, violations, unrep = [], [], {}, [], []
    ev = dn = disc = 0
    cut = False
    for r, d in results:
        cut = cut or d["out_of_time"]
        for f in d["families"]:
            ev += f["evaluations"]
            disc += f["discarded"]
            g = {k: f[k] for k in ("name", "evaluations", "nontrivial", "distinct_nontrivial", "discarded", "labels")}
            g["build"] = r["variant"]
            fams.append(g)
            for s in f["samples"][:2]:
                if len(samples) < 24:
                    samples.append({"family": f["name"], "build": r["variant"], "case": s})
        for k, v in d["findings"].items():
            found.setdefault(k, v)
        for v in d["violations"]:
            violations.append((r, v))
        for v in d["unreproduced"]:
            unrep.append({"family": v["family"], "tag": v["tag"], "message": v["message"][:300]})
    # the same case under two builds is one distinct case
    best = {}
    for f in fams:
        best[f["name"]] = max(best.get(f["name"], 0), f["distinct_nontrivial"])
    dn = sum(best.values())
    rules = []
    for r, d in results:
        for f in d["families"]:
            t = f["name"] + ": " + f["rule"]
            if t not in rules:
                rules.append(t)
    vlist = []
    os.makedirs(os.path.join(HERE, "replays"), exist_ok=True)
    for i, (r, v) in enumerate(violations):
        path = os.path.join(HERE, "replays", "%s-%s-%d.json" % (prop, a.tier, i))
        rec = dict(v)
        rec.update({"property": prop, "src": r["src"], "variant": r["variant"], "replay_with": "python3 %s/check.py %s --replay %s" % (HERE, prop, path)})
        json.dump(rec, open(path, "w"), indent=1)
        vlist.append(path)
    evidence = {
        "property": prop, "tier": "thorough" if thorough else "quick", "seed": seed, "level": "exploration",
        "coverage": {"evaluations": ev, "distinct_nontrivial": dn, "discarded": disc, "rule": " | ".join(rules), "samples": samples, "families": fams,
                     "known_findings_hit": {k: v["count"] for k, v in found.items()}, "unreproduced": unrep, "stopped_by_time_budget": cut},
        "assumptions": spec.get("assumptions", []) + ["cases are sampled, not enumerated", "g++ -O1 without -ffast-math; builds: " + ", ".join(sorted({r["variant"] for r, _ in results}))],
        "wall_s": round(time.time() - t0, 2), "compile_s": round(compile_s, 2), "violations": len(vlist),
    }
    write_evidence(prop, evidence)
    print("%s %s seed=%d: %d cases, %d distinct non-trivial, %.1f s (compiling %.1f s)%s" % (prop, a.tier, seed, ev, dn, time.time() - t0, compile_s, ", stopped by the time budget" if cut else ""))
    for u in unrep:
        print("note: a failure did not reproduce and is not reported: %s %s" % (u["family"], u["tag"]))
    for k, text in known.items():
        if k in found:
            print("KNOWN-FINDING: property=%s %s: %s (%d cases)" % (prop, k, text, found[k]["count"]))
        elif not a.only and not violations:
            print("note: listed finding %s was not met in this run" % k)
    for (r, v), path in zip(violations, vlist):
        print("family %s [%s] tag %s\n  %s\n  case: %s" % (v["family"], r["variant"], v["tag"], v["message"][:1500], v["case"][:1500]))
        print("VIOLATION property=%s replay=%s" % (prop, path))
    return 1 if vlist else 0


def replay(a, prop, scratch):
    rec = json.load(open(a.replay))
    out = os.path.join(scratch, "bin")
    e = compile_one(rec["src"], rec["variant"], out)
    if rec["mode"] == "compile":
        print(e[:4000] if e else "compiles")
        if e:
            print("VIOLATION property=%s replay=%s" % (prop, a.replay))
        return 1 if e else 0
    if e is not None:
        print("ERROR: does not compile:\n" + e[:4000])
        return 2
    cmd = [out, "--seed", str(rec["seed"]), "--scratch", scratch, "--replay", rec["family"], "--known", ",".join(known_findings(prop))]
    if rec["mode"] == "prefix":
        cmd += ["--prefix", str(rec["first"]), str(rec["last"])]
    else:
        ch = os.path.join(scratch, "choices")
        open(ch, "w").write(" ".join(str(x) for x in rec["choices"]))
        cmd += ["--choices", ch]
    p = subprocess.run(cmd, cwd=scratch, env=run_env(), stdin=subprocess.DEVNULL, stdout=subprocess.PIPE, stderr=subprocess.STDOUT)
    print(p.stdout.decode("utf8", "replace"))
    if p.returncode == 1:
        print("VIOLATION property=%s replay=%s" % (prop, a.replay))
    return 1 if p.returncode == 1 else (0 if p.returncode == 0 else 2)


if __name__ == "__main__":
    sys.exit(main())
