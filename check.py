#!/usr/bin/env python3
"""check.py <property> [--replay FILE] | --setup | --list

Builds the exhaustive explorers of a property from /repo's working tree, runs them, confirms whatever fails by replaying
it, and writes evidence/<property>.json.  Exit 0: held on everything explored.  Exit 1: VIOLATION line.  Exit 2: error.
"""
import json, os, re, shutil, subprocess, sys, time, threading
from concurrent.futures import ThreadPoolExecutor

VERIF = os.path.dirname(os.path.abspath(__file__))
REPO = os.environ.get("LALIB_REPO", "/repo")
EVID = os.path.join(VERIF, "evidence") if REPO == "/repo" and "MC_ONLY" not in os.environ else os.path.join(VERIF, "build", "evidence-other")
sys.path.insert(0, VERIF)
from units import PROPS, BACKENDS   # noqa: E402

TIER = "thorough" if "--thorough" in sys.argv or ("--quick" not in sys.argv and os.environ.get("VERIF_TIER") == "thorough") else "quick"
sys.argv = [a for a in sys.argv if a not in ("--thorough", "--quick")]
SEED = int(os.environ.get("VERIF_SEED", "1") or 1)
NCPU = os.cpu_count() or 4
ENV = dict(os.environ, OPENBLAS_NUM_THREADS="1", OMP_NUM_THREADS="3", OMP_WAIT_POLICY="passive", OMP_DYNAMIC="false",
           ASAN_OPTIONS="detect_leaks=0:detect_stack_use_after_return=1:max_malloc_fill_size=1000000:malloc_fill_byte=255:quarantine_size_mb=8:min_uar_stack_size_log=16:max_uar_stack_size_log=16:"
                        "exitcode=99:abort_on_error=0:allocator_may_return_null=1:print_summary=1:log_to_syslog=0",
           UBSAN_OPTIONS="print_stacktrace=1", LC_ALL="C")
for k in ("OMP_PROC_BIND", "OMP_PLACES", "GOMP_CPU_AFFINITY", "LD_PRELOAD"):
    ENV.pop(k, None)
lock = threading.Lock()
ASSUMPTIONS = [
    "gcc 13 (gnu++20), its OpenMP runtime, OpenBLAS 0.3 and LAPACKE of this sandbox are part of the tested system or trusted",
    "lengths, shapes and values outside the enumerated alphabet are not covered",
]


def say(*a):
    with lock:
        print(*a, flush=True)


def cxxflags(u):
    f = ["-std=gnu++20", "-fopenmp", "-w", "-g1", u.get("opt", "-O1")]
    if u.get("asan", True):
        f += ["-fsanitize=address", "-fno-omit-frame-pointer", "-D_GLIBCXX_SANITIZE_VECTOR=1", "-ftrivial-auto-var-init=pattern"]
    f += BACKENDS[u["backend"]]["defs"]
    if u.get("elem"):
        f += ["-DELEM=" + u["elem"]]
    f += u.get("flags", [])
    f += ["-I" + VERIF + "/mc", "-I" + VERIF + "/checks", "-I" + REPO + "/include"]
    return f


def build(u, d):
    """returns (exe or None, log)"""
    if "build" in u:
        return u["build"](u, d, REPO, VERIF, ENV)
    exe = os.path.join(d, u["name"])
    cmd = ["g++"] + cxxflags(u) + [os.path.join(VERIF, "checks", u["src"]), "-o", exe] + BACKENDS[u["backend"]]["libs"] + u.get("libs", [])
    log = ""
    for attempt in (0, 1):
        try:
            p = subprocess.run(cmd, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, env=ENV, timeout=500)
        except subprocess.TimeoutExpired:
            return None, "TIMEOUT " + " ".join(cmd)
        log = p.stdout.decode(errors="replace")
        if p.returncode == 0:
            return exe, ""
        if "error:" in log and "Killed" not in log:
            break
    return None, " ".join(cmd) + "\n" + log


def run_unit(u, d, workers):
    exe = os.path.join(d, u["name"])
    out = exe + ".json"
    err = exe + ".err.d"
    os.makedirs(err, exist_ok=True)
    cmd = [exe, "--workers", str(workers), "--out", out, "--errdir", err, "--hang", str(u.get("hang", 30)),
           "--limit", str(u.get("limit", 400 if TIER == "quick" else 3000))]
    if TIER == "thorough":
        cmd.append("--thorough")
    p = subprocess.run(cmd, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, env=dict(ENV, **u.get("env", {})))
    if p.returncode not in (0, 3):
        return None, "explorer %s exited with %d: %s" % (u["name"], p.returncode, p.stdout.decode(errors="replace")[-2000:])
    return json.load(open(out)), ""


def replay_run(u, d, args, timeout=600):
    exe = os.path.join(d, u["name"])
    cmd = [exe] + args
    if TIER == "thorough" and "--case" not in args:
        cmd.append("--thorough")
    try:
        p = subprocess.run(cmd, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, env=dict(ENV, **u.get("env", {})), timeout=timeout)
    except subprocess.TimeoutExpired as e:
        return True, "no result within %d s\n" % timeout + (e.stdout or b"").decode(errors="replace")[-3000:]
    return p.returncode not in (0, 97, 98), p.stdout.decode(errors="replace")[-6000:]


def confirm(u, d, f):
    """replays a failed execution; returns (kind, args, output) or None when it does not reproduce"""
    hang = "does not terminate" in f["what"]
    to = 120 if hang else 300
    for _ in range(2):
        bad, o = replay_run(u, d, ["--case", f["case"]], to)
        if bad:
            return "case", ["--case", f["case"]], o
    args = ["--shard", f["family"], str(f["worker"]), str(f["workers"]), str(f["leaf"])]
    for _ in range(2):
        bad, o = replay_run(u, d, args, 400)
        if bad:
            return "shard", args, o
    return None


def known_findings(pid):
    res = []
    p = os.path.join(VERIF, "KNOWN_FINDINGS.txt")
    if os.path.exists(p):
        for l in open(p):
            m = re.match(r"known: property=(\S+) where=(\S+) (.*)$", l.strip())
            if m and m.group(1) == pid:
                res.append((m.group(2), m.group(3)))
    return res


def main():
    if len(sys.argv) < 2:
        print(__doc__)
        return 2
    if sys.argv[1] == "--list":
        print("\n".join(PROPS))
        return 0
    if sys.argv[1] == "--setup":
        p = subprocess.run(["g++", "-std=gnu++20", "-fsyntax-only", "-x", "c++", "-I" + REPO + "/include", "-"], input=b"#include <vector>\nint main(){}\n")
        os.makedirs(EVID, exist_ok=True)
        return p.returncode
    pid = sys.argv[1]
    prop = PROPS[pid]
    t0 = time.time()
    d = os.path.join(VERIF, "build", pid + ("" if REPO == "/repo" else "_" + re.sub(r"\W", "_", REPO)))
    shutil.rmtree(d, ignore_errors=True)
    os.makedirs(d)
    units = [u for u in prop["units"] if TIER == "thorough" or not u.get("thorough_only")]
    only = os.environ.get("MC_ONLY")
    if only:
        units = [u for u in units if re.search(only, u["name"])]

    if len(sys.argv) > 3 and sys.argv[2] == "--replay":
        rep = json.load(open(sys.argv[3]))
        rc = 0
        for v in rep["violations"]:
            u = next(x for x in prop["units"] if x["name"] == v["unit"])
            exe, log = build(u, d)
            if exe is None:
                print(log[-6000:])
                rc = 1
                continue
            bad, o = replay_run(u, d, v["args"])
            print(o)
            rc = rc or (1 if bad else 0)
        return rc

    known = known_findings(pid)
    seen_known, errors, viol, results, samples = set(), [], [], {}, []

    def match_known(unit, where):
        for w, text in known:
            if re.fullmatch(w, unit + "/" + where):
                seen_known.add((w, text))
                return True
        return False

    # big units first: they take longest to compile
    order = sorted(units, key=lambda u: -u.get("weight", 1))
    workers = 8 if len(units) <= 2 else 4

    def task(u):
        try:
            tb = time.time()
            exe, log = build(u, d)
            tb = time.time() - tb
            if exe is None:
                if log.startswith("TIMEOUT") or "error:" not in log:
                    errors.append("cannot build %s: %s" % (u["name"], log[-3000:]))
                elif not match_known(u["name"], "compile"):
                    viol.append(dict(unit=u["name"], kind="compile", args=[], what="the interface the property covers does not compile", output=log[:6000]))
                else:
                    results[u["name"]] = dict(states=0, transitions=0, validated=0, comparisons=0, families={}, fails=[], capped=False, states_saturated=False)
                return
            r, e = run_unit(u, d, workers)
            if r is None:
                errors.append(e)
                return
            r["build_s"] = round(tb, 1)
            results[u["name"]] = r
            done = 0
            for f in r["fails"]:
                if match_known(u["name"], f["case"]):
                    continue
                if done >= 2:
                    continue
                c = confirm(u, d, f)
                if c is None:
                    say("note: %s of %s failed once (%s) but does not fail when replayed" % (f["case"], u["name"], f["what"][:300]))
                    r.setdefault("unconfirmed", []).append(f["case"])
                    continue
                done += 1
                viol.append(dict(unit=u["name"], kind=c[0], args=c[1], case=f["case"], what=f["what"], output=c[2], stderr=f.get("stderr", "")))
            if r.get("unconfirmed") and not done:
                r2, e = run_unit(u, d, workers)          # a failure that comes back in a second complete run counts
                for f in (r2 or {}).get("fails", []):
                    if match_known(u["name"], f["case"]):
                        continue
                    viol.append(dict(unit=u["name"], kind="rerun", args=["--case", f["case"]], case=f["case"], what=f["what"] + " (schedule dependent)", output="", stderr=f.get("stderr", "")))
                    break
        except Exception as ex:      # noqa: BLE001
            import traceback
            errors.append("%s: %s" % (u["name"], traceback.format_exc()))

    with ThreadPoolExecutor(max_workers=NCPU) as ex:
        list(ex.map(task, order))

    # a few executions written out
    if not viol:
        for u in units[:: max(1, len(units) // 3)][:3]:
            exe = os.path.join(d, u["name"])
            if os.path.exists(exe):
                p = subprocess.run([exe, "--samples", "2"], stdout=subprocess.PIPE, stderr=subprocess.DEVNULL, env=dict(ENV, **u.get("env", {})))
                for s in p.stdout.decode(errors="replace").split("replaying ")[1:]:
                    samples.append(u["name"] + " " + s.strip()[:1500])

    tot = lambda k: sum(int(r.get(k, 0)) for r in results.values())     # noqa: E731
    capped = [n for n, r in results.items() if r.get("capped")]
    cov = dict(states=tot("states"), transitions=tot("transitions"), traces_validated_against_impl=tot("validated"), comparisons=tot("comparisons"),
               samples=samples or ["none: the run ended in a violation"], exhaustive=not capped and not errors and not viol,
               rule=prop.get("rule", "every choice vector of every family of every configuration is executed on the real code and compared with the reference model"),
               configurations={n: dict(families=r["families"], states=r["states"], wall_s=r.get("wall_s"), build_s=r.get("build_s"),
                                       **({"schedules": r["schedules"]} if "schedules" in r else {})) for n, r in sorted(results.items())})
    cut = sum(r.get("schedules", {}).get("configurations_cut_off", 0) for r in results.values())
    if cut:
        cov["exhaustive"] = False
        cov["schedules_note"] = "%d configurations have more schedules within the bound than the cap allows; the first ones in order of increasing preemptions were explored" % cut
    if capped:
        cov["capped"] = capped
    if any(r.get("states_saturated") for r in results.values()):
        cov["states_note"] = "state table full: states is a lower bound"
    os.makedirs(EVID, exist_ok=True)
    with open(os.path.join(EVID, pid + ".json"), "w") as f:
        json.dump(dict(property=pid, tier=TIER, seed=SEED, level="model_checking", coverage=cov, assumptions=ASSUMPTIONS + prop.get("assumptions", []),
                       wall_s=round(time.time() - t0, 2), violations=len(viol)), f, indent=1)

    for w, text in sorted(seen_known):
        say("KNOWN-FINDING: property=%s %s" % (pid, text))
    if viol:
        os.makedirs(os.path.join(VERIF, "replays"), exist_ok=True)
        rp = os.path.join(VERIF, "replays", pid + ".json")
        with open(rp, "w") as f:
            json.dump(dict(property=pid, repo=REPO, tier=TIER, violations=viol), f, indent=1)
        for v in viol[:10]:
            say("%s %s: %s" % (v["unit"], v.get("case", v["kind"]), v["what"][:600]))
            if v["kind"] == "compile":
                say(v["output"][:2500])
        say("VIOLATION property=%s replay=%s" % (pid, rp))
        return 1
    if errors:
        for e in errors:
            say("ERROR " + e)
        return 2
    say("%s: held on %d executions (%d states, %d library calls, %d comparisons) in %d configurations, %.1f s%s"
        % (pid, cov["traces_validated_against_impl"], cov["states"], cov["transitions"], cov["comparisons"], len(results), time.time() - t0,
           " CAPPED " + ",".join(capped) if capped else ""))
    return 0


if __name__ == "__main__":
    sys.exit(main())
