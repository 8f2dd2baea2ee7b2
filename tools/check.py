#!/usr/bin/env python3
"""Entry point of every registered command.

  check.py run <ID>            decide one property (VERIF_SEED, VERIF_TIER)
  check.py setup               build everything once
  check.py replay <ID> <file>  run one replay file verbosely
"""
import json, os, shutil, subprocess, sys, time

sys.path.insert(0, os.path.dirname(os.path.abspath(__file__)))
import build as B
from registry import CHECKS

VERIF = B.VERIF


def env_for(flavour):
    e = dict(os.environ)
    e["ASAN_OPTIONS"] = ("detect_leaks=0:allocator_may_return_null=1:max_allocation_size_mb=1024:"
                         "hard_rss_limit_mb=3000:quarantine_size_mb=8:handle_abort=0:abort_on_error=0:"
                         "malloc_context_size=8:detect_stack_use_after_return=0:allow_user_segv_handler=1:"
                         "print_stats=0:symbolize=1:external_symbolizer_path=" + (shutil.which("llvm-symbolizer") or ""))
    e["UBSAN_OPTIONS"] = "print_stacktrace=1"
    e["TSAN_OPTIONS"] = "halt_on_error=1:exitcode=66:report_signal_unsafe=0:second_deadlock_stack=1:ignore_noninstrumented_modules=1"
    for k in ("LC_ALL", "LANG"):
        e[k] = "C"
    return e


def known_findings(pid):
    out = []
    p = os.path.join(VERIF, "known_findings.jsonl")
    if os.path.exists(p):
        for line in open(p):
            line = line.strip()
            if line:
                d = json.loads(line)
                if d.get("property") == pid and d.get("status") == "known":
                    out.append(d)
    return out


def build_for(pid):
    c = CHECKS[pid]
    fl = c.get("flavour", "asan")
    r = B.build_harness([(pid, c["src"] + c.get("main", ["vp_main.cc"]), c.get("link", []))], fl,
                        want_varsh=[pid] if c.get("varsh") else [])
    return r


def main_run(pid):
    t0 = time.time()
    tier = os.environ.get("VERIF_TIER", "quick")
    if tier not in ("quick", "thorough"):
        tier = "quick"
    seed = int(os.environ.get("VERIF_SEED", "1"))
    c = CHECKS[pid]
    try:
        bins = build_for(pid)
    except B.BuildError as ex:
        print("build failed:\n%s" % ex, file=sys.stderr)
        return 2
    rundir = os.path.join(B.BUILD, "run")
    os.makedirs(rundir, exist_ok=True)
    os.makedirs(os.path.join(VERIF, "evidence"), exist_ok=True)
    repdir = os.path.join(VERIF, "replays")
    os.makedirs(repdir, exist_ok=True)
    stats = os.path.join(rundir, "%s.%d.stats" % (pid, os.getpid()))
    rep = os.path.join(repdir, "%s-%s-seed%d.txt" % (pid, tier, seed))
    if os.path.exists(rep):
        os.unlink(rep)
    cases = c[tier]
    env = env_for(c.get("flavour", "asan"))
    env["VP_TIER"] = tier
    env["VP_REPO"] = B.REPO
    workers = c.get("workers", os.cpu_count() or 4)
    cmd = [bins[pid], "run", "--seed", str(seed), "--cases", str(cases), "--chunk", str(c.get("chunk", 200)),
           "--workers", str(workers), "--stats", stats, "--replay", rep, "--dir", rundir,
           "--cpu", str(c.get("cpu", 30)), "--thorough", "1" if tier == "thorough" else "0"]
    p = subprocess.run(cmd, env=env, stdout=subprocess.DEVNULL, stderr=subprocess.PIPE)
    if not os.path.exists(stats):
        print("harness ended with %d\n%s" % (p.returncode, p.stderr.decode(errors="replace")[-3000:]), file=sys.stderr)
        return 3
    st = json.load(open(stats))
    os.unlink(stats)
    violations = 0
    if p.returncode in (1, 4):
        if st["kind"] == "signal 9" or st["kind"] == "signal 15":
            print("harness was killed: %s" % st["message"], file=sys.stderr)
            return 3
        violations = 1
    elif p.returncode != 0:
        print("harness ended with %d\n%s" % (p.returncode, p.stderr.decode(errors="replace")[-3000:]), file=sys.stderr)
        return 3
    labels = st["labels"]
    ev = {
        "property": pid, "tier": tier, "seed": seed, "level": c.get("level", "exploration"),
        "coverage": {
            "evaluations": st["evaluations"], "distinct_nontrivial": st["distinct_nontrivial"],
            "rule": st["rule"], "samples": st["samples"], "cases": st["cases"],
            "nontrivial_cases": st["nontrivial"], "discarded": st["discarded"], "labels": labels,
        },
        "wall_s": round(time.time() - t0, 2), "violations": violations,
        "assumptions": c.get("assumptions", []),
    }
    if violations:
        ev["violation"] = {"message": st["message"], "replay": rep, "shrink_attempts": st["shrink_attempts"]}
    out = os.path.join(VERIF, "evidence", pid + ".json")
    with open(out + ".tmp", "w") as f:
        json.dump(ev, f, indent=1)
        f.write("\n")
    os.replace(out + ".tmp", out)
    for k in known_findings(pid):
        print("KNOWN-FINDING: property=%s %s" % (pid, k["what"]))
    print("%s %s seed=%d cases=%d distinct_nontrivial=%d wall=%.1fs" %
          (pid, tier, seed, st["cases"], st["distinct_nontrivial"], time.time() - t0))
    if violations:
        print(st["message"][:3000])
        print("VIOLATION property=%s replay=%s" % (pid, rep))
        return 1
    # a run that explored next to nothing proves nothing
    if st["distinct_nontrivial"] < c.get("min_nontrivial", min(50, cases // 20)):
        print("too few non-trivial cases: %d" % st["distinct_nontrivial"], file=sys.stderr)
        return 5
    return 0


def main_setup():
    by = {}
    for pid, c in CHECKS.items():
        by.setdefault(c.get("flavour", "asan"), []).append(
            (pid, c["src"] + c.get("main", ["vp_main.cc"]), c.get("link", [])))
    for fl, names in by.items():
        B.build_harness(names, fl, want_varsh=[n for n, _, _ in names if CHECKS[n].get("varsh")])
    return 0


def main_replay(pid, f):
    bins = build_for(pid)
    env = env_for(CHECKS[pid].get("flavour", "asan"))
    env["VP_REPO"] = B.REPO
    rundir = os.path.join(B.BUILD, "run")
    os.makedirs(rundir, exist_ok=True)
    return subprocess.run([bins[pid], "replay", "--dir", rundir, "--file", f], env=env).returncode


if __name__ == "__main__":
    a = sys.argv[1:]
    if a[:1] == ["run"]:
        sys.exit(main_run(a[1]))
    if a[:1] == ["setup"]:
        sys.exit(main_setup())
    if a[:1] == ["replay"]:
        sys.exit(main_replay(a[1], a[2]))
    print(__doc__)
    sys.exit(2)
