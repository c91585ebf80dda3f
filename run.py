#!/usr/bin/env python3
"""Driver: builds the harnesses of one property against /repo's working tree, runs them in
parallel, shrinks/reports violations and writes evidence/<id>.json.

  run.py C01 [--tier quick|thorough] [--seed N] [--replay FILE] [--scale X] [--only NAME]
"""
import argparse, json, os, re, shutil, subprocess, sys, time, array
from concurrent.futures import ThreadPoolExecutor, as_completed

VERIF = os.path.dirname(os.path.abspath(__file__))
REPO = os.environ.get("CPPSORT_REPO", "/repo")
sys.path.insert(0, VERIF)
from checks import CHECKS  # noqa: E402

BASE = ["-w", "-DCPPSORT_DISABLE_DEPRECATION_WARNINGS", "-I" + os.path.join(REPO, "include"),
        "-I" + os.path.join(VERIF, "harness")]
PLAIN = ["-O1", "-D_GLIBCXX_ASSERTIONS", "-DCPPSORT_ENABLE_ASSERTIONS"]
ASAN = ["-O1", "-fsanitize=address,undefined", "-fno-sanitize-recover=all", "-fno-omit-frame-pointer",
        "-D_GLIBCXX_ASSERTIONS", "-DCPPSORT_ENABLE_ASSERTIONS"]
RELEASE = ["-O2", "-DNDEBUG"]
# gcc 13.3 at -O1 drops updates of counters held by reference in comparisons stored in a std::tuple
# (stable_adapter): both optimisations are needed for that. What destructors write has to be kept, for
# the uses of destroyed elements to be seen.
GCC = ["-fno-ipa-modref", "-fno-ipa-pure-const", "-fno-lifetime-dse"]
FLAGSETS = {"plain": PLAIN, "asan": ASAN, "release": RELEASE,
            "ubsan": PLAIN + ["-fsanitize=undefined", "-fno-sanitize-recover=all"],
            "tsan": ["-O1", "-fsanitize=thread", "-DTSAN"],
            "audit": PLAIN + ["-DCPPSORT_ENABLE_AUDITS"]}
JOBS = int(os.environ.get("VERIF_JOBS", "8"))


def known_findings(prop):
    out = {}
    path = os.path.join(VERIF, "known-findings.txt")
    if os.path.exists(path):
        for line in open(path):
            m = re.match(r"finding: property=(\S+) key=(\S+) (.*)", line.strip())
            if m and m.group(1) == prop:
                out[m.group(2)] = m.group(3)
    return out


class Unit:
    def __init__(self, prop, spec, part, build):
        self.src = os.path.join(VERIF, "harness", spec["src"])
        self.part = part
        self.spec = spec
        self.flags = spec.get("flags", "plain")
        self.std = spec.get("std", "c++17")
        self.cc = spec.get("cc", "g++")
        self.name = "%s.%s%s%s" % (os.path.splitext(os.path.basename(spec["src"]))[0], self.flags,
                                 "." + spec["tag"] if "tag" in spec else "",
                                 "" if part is None else ".%d" % part)
        self.exe = os.path.join(build, self.name)
        self.build = build

    def command(self):
        cmd = [self.cc, "-std=" + self.std] + FLAGSETS[self.flags] + (GCC if self.cc == "g++" else []) + BASE + self.spec.get("defs", [])
        if self.part is not None:
            cmd += ["-DPART=%d" % self.part, "-DNPARTS=%d" % self.spec["parts"]]
        return cmd + [self.src, "-o", self.exe] + self.spec.get("libs", [])

    def compile(self):
        p = None
        for attempt in range(2):
            p = subprocess.run(self.command(), stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True,
                               errors="replace")
            if p.returncode == 0:
                return None
            if "error:" in p.stdout and "Killed" not in p.stdout and "internal compiler" not in p.stdout:
                return ("error", p.stdout)
            time.sleep(2)
        return ("env", p.stdout)


def main():
    ap = argparse.ArgumentParser()
    ap.add_argument("prop")
    ap.add_argument("--tier", default=os.environ.get("VERIF_TIER", "quick"))
    ap.add_argument("--seed", type=int, default=int(os.environ.get("VERIF_SEED", "1")))
    ap.add_argument("--replay")
    ap.add_argument("--scale", type=float)
    ap.add_argument("--only")
    ap.add_argument("--keep", action="store_true")
    a = ap.parse_args()
    prop, tier, seed = a.prop, a.tier, a.seed
    if tier not in ("quick", "thorough"):
        tier = "quick"
    check = CHECKS[prop]
    t0 = time.time()
    build = os.path.join(VERIF, ".build", "%s.%d" % (prop, os.getpid()))
    os.makedirs(build, exist_ok=True)
    os.makedirs(os.path.join(VERIF, "evidence", "replays"), exist_ok=True)
    try:
        return run(a, prop, tier, seed, check, build, t0)
    finally:
        if not a.keep:
            shutil.rmtree(build, ignore_errors=True)


def run(a, prop, tier, seed, check, build, t0):
    units = []
    for spec in check["units"]:
        if tier == "quick" and spec.get("thorough_only"):
            continue
        if spec.get("parts"):
            units += [Unit(prop, spec, k, build) for k in range(spec["parts"])]
        else:
            units.append(Unit(prop, spec, None, build))
    known = known_findings(prop)

    if a.replay:
        return replay(a, units, known)

    cap = 240 if tier == "quick" else 600
    env = dict(os.environ)
    env["ASAN_OPTIONS"] = "detect_leaks=0:detect_stack_use_after_return=0:allocator_may_return_null=1"
    env["TSAN_OPTIONS"] = "halt_on_error=1:report_signal_unsafe=0"
    env["UBSAN_OPTIONS"] = "print_stacktrace=1"
    env["LC_ALL"] = "C.UTF-8"
    results, violations, problems = [], [], []

    def job_run(u, shard, nshards):
        out = "%s.out.%d" % (u.exe, shard)
        cmd = [u.exe, "--seed", str(seed), "--tier", tier, "--out", out, "--shard", str(shard),
               "--nshards", str(nshards), "--cap", str(cap)]
        scale = a.scale if a.scale is not None else u.spec.get("scale", 1.0)
        cmd += ["--scale", str(scale)]
        if a.only:
            cmd += ["--only", a.only]
        if u.flags == "asan":
            cmd += ["--cpu", "120"]
        for k in known:
            cmd += ["--known", k]
        p = subprocess.run(cmd, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True, errors="replace", env=env)
        return u, shard, p.returncode, out, p.stdout

    with ThreadPoolExecutor(JOBS) as pool:
        pending = {pool.submit(u.compile): ("c", u) for u in units}
        while pending:
            for fut in as_completed(list(pending)):
                kind, u = pending.pop(fut)
                if kind == "c":
                    err = fut.result()
                    if err is None:
                        n = u.spec.get("shards", 1)
                        if tier == "thorough":
                            n = u.spec.get("thorough_shards", n)
                        for s in range(n):
                            pending[pool.submit(job_run, u, s, n)] = ("r", u)
                    elif err[0] == "error":
                        violations.append(dict(unit=u.name, compile=" ".join(u.command()), msg=err[1][:6000]))
                    else:
                        problems.append("%s: compiler failed: %s" % (u.name, err[1][-500:]))
                else:
                    u, shard, rc, out, txt = fut.result()
                    if rc in (0, 1) and os.path.exists(out):
                        r = json.load(open(out))
                        r["unit"] = u.name
                        hs = array.array("Q")
                        try:
                            with open(out + ".hashes", "rb") as f:
                                hs.frombytes(f.read())
                        except OSError:
                            pass
                        r["hashes"] = hs
                        results.append(r)
                        for v in r["violations"]:
                            v["unit"] = u.name
                            violations.append(v)
                    else:
                        problems.append("%s shard %d: rc %d %s" % (u.name, shard, rc, txt[-800:]))
                    if txt.strip() and rc in (0, 1):
                        sys.stderr.write(txt[-2000:] + "\n")
                break

    evals = sum(r["evals"] for r in results)
    distinct = set()
    for r in results:
        distinct.update(r["hashes"])
    labels, per_test, samples, known_seen = {}, {}, [], set()
    for r in results:
        for k, v in r["labels"].items():
            labels[k] = labels.get(k, 0) + v
        for t in r["tests"]:
            key = t["name"]
            e = per_test.setdefault(key, [0, 0])
            e[0] += t["evals"]
            e[1] += t["nontrivial"]
        known_seen.update(r["known"])
    for r in sorted(results, key=lambda r: r["unit"]):
        for s in r["samples"]:
            if len(samples) < 12 and not any(x["test"] == s["test"] for x in samples):
                samples.append(s)
    wall = time.time() - t0
    evidence = {
        "property": prop, "tier": tier, "seed": seed, "level": check.get("level", "exploration"),
        "coverage": {
            "evaluations": evals,
            "distinct_nontrivial": len(distinct),
            "rule": check["rule"],
            "samples": samples,
            "classification": dict(sorted(labels.items())),
            "per_test": {k: {"cases": v[0], "nontrivial": v[1]} for k, v in sorted(per_test.items())},
            "capped": any(r["capped"] for r in results),
            "exhaustive": False,
        },
        "assumptions": check.get("assumptions", []),
        "wall_s": round(wall, 2),
        "violations": len(violations),
    }
    if problems:
        evidence["problems"] = problems
    with open(os.path.join(VERIF, "evidence", prop + ".json"), "w") as f:
        json.dump(evidence, f, indent=1)
        f.write("\n")
    for k in sorted(known_seen):
        print("KNOWN-FINDING: property=%s %s" % (prop, known.get(k, k)))
    for i, v in enumerate(violations):
        path = os.path.join(VERIF, "evidence", "replays", "%s-%d.replay" % (prop, i))
        with open(path, "w") as f:
            f.write("# property %s seed %d tier %s\n" % (prop, seed, tier))
            for line in v["msg"].splitlines():
                f.write("# " + line + "\n")
            f.write("unit %s\n" % v["unit"])
            if "compile" in v:
                f.write("compile %s\n" % v["compile"])
            else:
                f.write("# case: %s\n" % v["case"].replace("\n", " "))
                f.write("test %s\nchoices %d\n%s\n" % (v["test"], len(v["choices"]), " ".join(map(str, v["choices"]))))
        print("VIOLATION property=%s replay=%s" % (prop, path))
        print("  [%s] %s" % (v["unit"], v.get("test", "does not compile")))
        print("  " + v["msg"].strip().replace("\n", "\n  ")[:1500])
        if "case" in v:
            print("  case: " + v["case"][:600])
    for p in problems:
        sys.stderr.write("PROBLEM " + p + "\n")
    print("%s %s seed=%d: %d cases, %d distinct non-trivial, %d violations, %.1f s"
          % (prop, tier, seed, evals, len(distinct), len(violations), wall))
    if violations:
        return 1
    return 2 if problems or not results else 0


def replay(a, units, known):
    unit, test = None, None
    for line in open(a.replay):
        if line.startswith("unit "):
            unit = line.split()[1]
    for u in units:
        if u.name != unit:
            continue
        err = u.compile()
        if err is not None:
            print(err[1][:3000])
            print("VIOLATION property=%s replay=%s" % (a.prop, a.replay))
            return 1
        p = subprocess.run([u.exe, "--replay", a.replay], text=True, stdout=subprocess.PIPE, stderr=subprocess.STDOUT,
                           errors="replace")
        print(p.stdout)
        if p.returncode == 1:
            print("VIOLATION property=%s replay=%s" % (a.prop, a.replay))
            return 1
        return 0
    print("unit %s not found" % unit)
    return 2


if __name__ == "__main__":
    sys.exit(main())
