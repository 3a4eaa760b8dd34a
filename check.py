#!/usr/bin/env python3
"""Decide one property of pa-m/sklearn by deterministic simulation with fault injection.

usage: check.py PROPERTY [--tier quick|thorough]     explore, exit 0 / 1 (VIOLATION line) / 2 (error)
       check.py --replay FILE                        repeat a replay file, exit 1 if it still fails
       check.py --determinism PROPERTY [N]           run N seeds in several processes and compare logs
       check.py --build                              build only (fills the compiler cache)

Everything is rebuilt from /repo's working tree into a scratch directory that is removed at the end.
"""
import concurrent.futures as cf
import itertools, json, os, re, shutil, subprocess, sys, tempfile, time

VERIF = os.path.dirname(os.path.abspath(__file__))
REPO = os.environ.get("VERIF_REPO", "/repo")
NPROC = 8
RACE_BASE = 10_000_000  # case indices of race-build workers start here

from plan import PLAN  # noqa: E402

ENV = dict(os.environ)
ENV.update(HOME="/root", PATH="/usr/local/go/bin:/usr/local/sbin:/usr/local/bin:/usr/sbin:/usr/bin:/sbin:/bin",
           GOTOOLCHAIN="local", GOPROXY="off", GOFLAGS="-mod=mod", GOWORK="off", GO111MODULE="on",
           GOMODCACHE="/root/go/pkg/mod")
ENV.setdefault("GOCACHE", "/root/.cache/go-build")


class CheckError(Exception):
    pass


def sh(cmd, cwd, env=ENV, timeout=800):
    p = subprocess.run(cmd, cwd=cwd, env=env, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, timeout=timeout, text=True)
    if p.returncode != 0:
        raise CheckError("%s failed:\n%s" % (" ".join(cmd), p.stdout[-4000:]))
    return p.stdout


def build(scratch, race):
    env = dict(ENV)
    env["GOFLAGS"] = ""
    sh(["go", "build", "-o", os.path.join(scratch, "rewrite"), "."], os.path.join(VERIF, "rewrite"), env)
    out = sh([os.path.join(scratch, "rewrite"), "-repo", REPO, "-out", scratch, "-sim", os.path.join(VERIF, "sim"), "-harness", os.path.join(VERIF, "harness")], REPO)
    base = ["go", "build", "-modfile", os.path.join(scratch, "go.mod"), "-overlay", os.path.join(scratch, "overlay.json")]
    jobs = [base + ["-o", os.path.join(scratch, "simbin"), "./zzverifharness"]]
    if race:
        jobs.append(base + ["-race", "-tags", "noasm", "-o", os.path.join(scratch, "simbin-race"), "./zzverifharness"])
    with cf.ThreadPoolExecutor(2) as ex:
        for f in [ex.submit(sh, j, REPO) for j in jobs]:
            f.result()
    return out.strip()


class Bin:
    def __init__(self, scratch):
        self.scratch = scratch
        self.count = itertools.count(1)
        self.last = {}

    def env(self, race, n):
        e = dict(ENV)
        e["GOMAXPROCS"] = "2"
        e["VERIF_KNOWN"] = ",".join(k["key"] for k in known_findings())
        if race:
            log = os.path.join(self.scratch, "race%d" % n)
            e["GORACE"] = "log_path=%s exitcode=0 atexit_sleep_ms=0 halt_on_error=0" % log
            e["VERIF_RACELOG"] = log
        return e

    def run(self, race, args, timeout):
        n = next(self.count)
        out = os.path.join(self.scratch, "out%d.json" % n)
        errf = os.path.join(self.scratch, "err%d" % n)
        prog = os.path.join(self.scratch, "prog%d" % n)
        cmd = [os.path.join(self.scratch, "simbin-race" if race else "simbin")] + args + ["-out", out]
        if args[0] == "run":
            cmd += ["-progress", prog]
        with open(errf, "wb") as ef:
            try:
                p = subprocess.run(cmd, cwd=REPO, env=self.env(race, n), stdout=subprocess.DEVNULL, stderr=ef, timeout=timeout)
                rc = p.returncode
            except subprocess.TimeoutExpired:
                rc = -999
        with open(errf, "rb") as f:
            err = f.read().decode("utf8", "replace")
            k = max(0, min([i for i in (err.find("fatal error:"), err.find("panic:"), err.find("runtime:")) if i >= 0] or [len(err) - 3000]))
            err = err[k:k + 3000]
        os.unlink(errf)
        res = None
        if os.path.exists(out):
            with open(out) as f:
                res = json.load(f)
            os.unlink(out)
        if rc != 0 and os.path.exists(prog):
            with open(prog) as f:
                self.last[n] = f.read()
            err = "[case %s] " % self.last[n] + err
        return rc, res, err


CRASH = re.compile(r"^\[case (\d+)\] ")


def crash_case(b, prop, seed, race, rc, err):
    """a worker process ended without an answer: the case it was in, if that case alone ends the process again"""
    m = CRASH.match(err)
    if not m:
        return None
    case = {"property": prop, "scenario": "process", "verif_seed": seed, "index": int(m.group(1)), "race_build": race,
            "class": "process-ended", "runs": [], "crash": True}
    for _ in range(2):
        cls, res = replay_case(b, case, 60)
        if cls != "process-ended":
            return None
    case["message"] = "the process running this case ends without an answer (status %d): %s" % (rc, re.sub(r"\s+", " ", err)[:600])
    return case


def replay_case(b, case, timeout=120):
    """run a replay file's content in a fresh process; returns (class, result)"""
    if case.get("crash"):
        i = case["index"]
        rc, res, err = b.run(case["race_build"], ["run", "-prop", case["property"], "-seed", str(case["verif_seed"]), "-start", str(i), "-end", str(i + 1)], min(timeout, 60))
        if rc == 0 and res is not None:
            return "", {"message": "", "log_hash": ""}
        return "process-ended", {"message": "the process ends without an answer (status %d): %s" % (rc, err[-300:]), "log_hash": ""}
    f = os.path.join(b.scratch, "case%d.json" % next(b.count))
    with open(f, "w") as fh:
        json.dump(case, fh)
    rc, res, err = b.run(case["race_build"], ["replay", "-in", f], timeout)
    os.unlink(f)
    if rc != 0 or res is None:
        return "error rc=%d %s" % (rc, err[-300:]), None
    return res["class"], res


def with_decisions(case, flat):
    c = dict(case)
    runs = [dict(r, decisions=[]) for r in case["runs"]]
    for i, d in flat:
        runs[i]["decisions"].append(d)
    c["runs"] = runs
    return c


def minimise(b, case, budget):
    """ddmin over the decisions of all runs of the case, candidates evaluated in parallel"""
    t_end = time.time() + budget
    want = case["class"]
    flat = [(i, d) for i, r in enumerate(case["runs"]) for d in (r["decisions"] or [])]
    evals = 0

    def ok(cand):
        cls, res = replay_case(b, with_decisions(case, cand))
        return cls == want

    with cf.ThreadPoolExecutor(NPROC) as ex:
        def first(cands):
            nonlocal evals
            for k in range(0, len(cands), NPROC):
                if time.time() > t_end:
                    return None
                chunk = cands[k:k + NPROC]
                evals += len(chunk)
                rs = list(ex.map(ok, chunk))
                for c, r in zip(chunk, rs):
                    if r:
                        return c
            return None

        n = len(flat)
        # whole runs first, biggest savings
        c = first([[]] + [[x for x in flat if x[0] == i] for i in sorted({x[0] for x in flat}, reverse=True)])
        if c is not None:
            flat = c
        parts = 2
        while len(flat) > 1 and time.time() < t_end:
            size = max(1, len(flat) // parts)
            chunks = [flat[k:k + size] for k in range(0, len(flat), size)]
            cands = []
            if parts == 2:
                cands += chunks
            cands += [[x for j, ch in enumerate(chunks) if j != k for x in ch] for k in range(len(chunks))]
            c = first(cands)
            if c is not None:
                removed = len(flat) - len(c)
                parts = max(2, parts - 1) if removed < len(flat) // 2 else 2
                flat = c
            elif size == 1:
                break
            else:
                parts = min(len(flat), parts * 2)
    out = with_decisions(case, flat)
    # keep only what a run of the minimised case really needs, and note where it switches
    out["minimised"] = True
    return out, evals, n, len(flat)


def known_findings():
    p = os.path.join(VERIF, "known_findings.json")
    if not os.path.exists(p):
        return []
    with open(p) as f:
        return [k for k in json.load(f)["findings"] if k.get("status") == "known"]


def explore(prop, tier, seed):
    t0 = time.time()
    plan = PLAN[prop][tier]
    scratch = tempfile.mkdtemp(prefix="verif-%s-" % prop, dir=os.environ.get("TMPDIR", "/tmp"))
    try:
        info = build(scratch, plan["race"] > 0)
        t_build = time.time() - t0
        b = Bin(scratch)
        nrace = plan["race"]
        nplain = NPROC - nrace
        jobs = []
        for w in range(nplain):
            jobs.append((False, w, nplain, plan["cases"], plan["budget"]))
        for w in range(nrace):
            jobs.append((True, RACE_BASE + w, nrace, RACE_BASE + plan["race_cases"], plan["budget"]))

        def work(j):
            race, start, step, end, budget = j
            args = ["run", "-prop", prop, "-seed", str(seed), "-start", str(start), "-step", str(step), "-end", str(end), "-budget", str(budget)]
            return j, b.run(race, args, budget + 240)

        with cf.ThreadPoolExecutor(NPROC) as ex:
            results = list(ex.map(work, jobs))
        agg = {"faults": {}, "probes": {}, "strategies": {}, "cpus": {}, "scenarios": {}}
        tot = dict.fromkeys(["cases", "runs", "reference_runs", "nontrivial_runs", "steps", "switches", "tasks", "sim_ns", "checks"], 0)
        hashes, samples, found, timed_out, cpu_s = set(), [], [], 0, 0.
        for j, (rc, res, err) in sorted(results, key=lambda r: (r[1][0] != 0, r[0][0], r[0][1])):
            if rc != 0 or res is None:
                cc = None if found else crash_case(b, prop, seed, j[0], rc, err)
                if cc is None and not found:
                    raise CheckError("worker %s ended with %s: %s" % (j, rc, err))
                if cc:
                    found.append(cc)
                continue
            st = res["stats"]
            for k in tot:
                tot[k] += st[k]
            for k in agg:
                for n, v in (st[k] or {}).items():
                    agg[k][n] = agg[k].get(n, 0) + v
            hashes.update(st["hashes"] or [])
            samples += (st["samples"] or [])[:1]
            timed_out += bool(res["timed_out"])
            cpu_s += res["wall_s"]
            if res.get("case"):
                found.append(res["case"])
        t_explore = time.time() - t0 - t_build
        # the same cases once more in another process: the logs must be identical
        det = determinism(b, prop, seed, plan, quick=True) if not found else None
        violation = None
        if found:
            found.sort(key=lambda c: (sum(len(r["decisions"] or []) for r in c["runs"]), c["index"]))
            violation = settle(b, found, 60 if tier == "quick" else 300)
        wall = time.time() - t0
        cov = {
            "evaluations": tot["runs"],
            "distinct_nontrivial": len(hashes),
            "rule": "a case is drawn from the seed (inputs from one stream, schedules and faults from another) and run several times in the simulator; a run is non-trivial if the simulator deviated from the sequential default schedule or injected a fault at least once; distinct = different hash of the complete sequence of (task, local step, decision)",
            "samples": samples[:6] or ["the first case already failed"],
            "cases": tot["cases"], "sequential_reference_runs": tot["reference_runs"], "nontrivial_runs": tot["nontrivial_runs"],
            "oracle_checks": tot["checks"], "steps": tot["steps"], "context_switches": tot["switches"], "simulated_goroutines": tot["tasks"],
            "simulated_seconds": round(tot["sim_ns"] / 1e9, 3),
            "runs_per_hour": int(tot["runs"] / max(t_explore, 1e-3) * 3600), "cases_per_hour": int(tot["cases"] / max(t_explore, 1e-3) * 3600),
            "decisions_and_faults_injected": agg["faults"], "probes": agg["probes"], "strategies": agg["strategies"], "cpu_counts": agg["cpus"],
            "cases_per_scenario": agg["scenarios"],
            "workers": {"plain": nplain, "race_detector": nrace, "stopped_by_time_budget": timed_out},
            "determinism_selfcheck": det,
            "real_code": "all of pa-m/sklearn, gonum, pa-m/optimize, x/exp/rand and randomkit, rewritten only at goroutine, channel, sync, clock, CPU-count, map-iteration and file-open sites",
            "stubbed": "Go scheduler, clocks, runtime.NumCPU/GOMAXPROCS, map iteration order, file system; " + PLAN[prop].get("stub", "no part of the library"),
            "rewriter": info.split(", {")[-1][:600], "build_s": round(t_build, 1), "worker_cpu_s": round(cpu_s, 1),
        }
        ev = {"property": prop, "tier": tier, "seed": seed, "level": "exploration", "coverage": cov, "wall_s": round(wall, 2),
              "violations": 1 if violation else 0,
              "assumptions": ["every schedule is sequentially consistent with preemption between statements (and inside read-modify-write statements); weaker-memory effects appear only as data races reported by the race detector where that build is used",
                              "sampling: a clean batch is evidence, not proof"]}
        if violation:
            ev["coverage"]["violation"] = {k: violation[k] for k in ("class", "scenario", "index", "message", "replay")}
        os.makedirs(os.path.join(VERIF, "evidence"), exist_ok=True)
        with open(os.path.join(VERIF, "evidence", prop + ".json"), "w") as f:
            json.dump(ev, f, indent=1)
        print("%s %s seed=%d: %d cases, %d runs, %d distinct interleavings, %d oracle checks, %.0f s simulated, %.1f s wall" % (prop, tier, seed, tot["cases"], tot["runs"], len(hashes), tot["checks"], tot["sim_ns"] / 1e9, wall))
        for k in known_findings():
            if k["property"] == prop and agg["probes"].get("known finding " + k["key"]):
                print("KNOWN-FINDING: property=%s %s" % (prop, k["what"]))
        if violation:
            print("%s: %s" % (violation["class"], violation["message"]))
            print("VIOLATION property=%s replay=%s" % (prop, violation["replay"]))
            return 1
        return 0
    finally:
        shutil.rmtree(scratch, ignore_errors=True)


def settle(b, found, budget):
    """confirm the first finding in a fresh process, minimise it and write the replay file"""
    case, confirmed = None, False
    for c in found[:4]:
        cls, res = replay_case(b, c)
        if cls == c["class"]:
            case, confirmed = c, True
            break
    if case is None:
        for c in found[:2]:  # something earlier in the process mattered: replay the whole range
            c2 = dict(c, need_range=True, runs=[])
            cls, res = replay_case(b, c2, 900)
            if cls == c["class"]:
                case, confirmed = c2, True
                break
    if case is None:
        case = found[0]
    note = ""
    if confirmed and not case.get("need_range") and not case.get("crash"):
        case, evals, before, after = minimise(b, case, budget)
        note = "minimised from %d to %d decisions in %d replays" % (before, after, evals)
        cls, res = replay_case(b, case)
        if cls == case["class"] and res:
            case["message"] = res["message"]
            case["log_hash"] = res["log_hash"]
    case["confirmed_in_fresh_process"] = confirmed
    case["note"] = note
    d = os.path.join(VERIF, "replays")
    os.makedirs(d, exist_ok=True)
    p = os.path.join(d, "%s-%s-seed%d-case%d.json" % (case["property"], case["scenario"], case["verif_seed"], case["index"]))
    with open(p, "w") as f:
        json.dump(case, f, indent=1)
    msg = case["message"]
    return {"class": case["class"], "scenario": case["scenario"], "index": case["index"], "message": (msg[:3000] + " " + note).strip(), "replay": p}


def determinism(b, prop, seed, plan, quick=True, n=16, procs=2):
    out = {"cases": 0, "processes": procs, "mismatches": 0}
    for race in ([False, True] if plan["race"] else [False]):
        base = RACE_BASE if race else 0
        k = n if not race else max(2, n // 4)
        args = ["run", "-prop", prop, "-seed", str(seed), "-start", str(base), "-step", "1", "-end", str(base + k), "-budget", "20" if quick else "600"]
        with cf.ThreadPoolExecutor(NPROC) as ex:
            rs = list(ex.map(lambda _: b.run(race, args, 300), range(procs)))
        ms = {}
        for rc, res, err in rs:
            if rc != 0 or res is None:
                raise CheckError("determinism worker ended with %s: %s" % (rc, err))
            if res["timed_out"]:
                continue
            ms[res["stats"]["log_hash"]] = ms.get(res["stats"]["log_hash"], 0) + 1
        out["cases"] += k
        out["mismatches"] += max(0, len(ms) - 1)
    return out


def main():
    a = sys.argv[1:]
    if not a:
        print(__doc__)
        return 2
    if a[0] == "--build":
        scratch = tempfile.mkdtemp(prefix="verif-build-")
        try:
            print(build(scratch, True))
        finally:
            shutil.rmtree(scratch, ignore_errors=True)
        return 0
    if a[0] == "--replay":
        with open(a[1]) as f:
            case = json.load(f)
        scratch = tempfile.mkdtemp(prefix="verif-replay-")
        try:
            build(scratch, case["race_build"])
            cls, res = replay_case(Bin(scratch), case, 900)
            if res is None:
                raise CheckError(cls)
            same = "" if "log_hash" not in case else " (event log %s the recorded one)" % ("equals" if case["log_hash"] == res["log_hash"] else "DIFFERS from")
            if cls:
                print("%s: %s%s" % (cls, res["message"], same))
                print("VIOLATION property=%s replay=%s" % (case["property"], a[1]))
                return 1
            print("no violation%s" % same)
            return 0
        finally:
            shutil.rmtree(scratch, ignore_errors=True)
    if a[0] == "--determinism":
        prop = a[1]
        n = int(a[2]) if len(a) > 2 else 64
        scratch = tempfile.mkdtemp(prefix="verif-det-")
        try:
            plan = PLAN[prop]["thorough"]
            build(scratch, plan["race"] > 0)
            r = {}
            for s in (1, 2, 3):
                r[s] = determinism(Bin(scratch), prop, s, plan, quick=False, n=n, procs=8)
            print(prop, json.dumps(r))
            return 1 if any(x["mismatches"] for x in r.values()) else 0
        finally:
            shutil.rmtree(scratch, ignore_errors=True)
    prop = a[0]
    tier = os.environ.get("VERIF_TIER", "quick")
    if "--tier" in a:
        tier = a[a.index("--tier") + 1]
    if tier not in ("quick", "thorough"):
        tier = "quick"
    try:
        seed = int(os.environ.get("VERIF_SEED", "1"))
    except ValueError:
        seed = 1
    return explore(prop, tier, seed)


if __name__ == "__main__":
    try:
        rc = main()
    except CheckError as e:
        print("ERROR: %s" % e, file=sys.stderr)
        rc = 2
    sys.exit(rc)
