#!/usr/bin/env python
"""main.py ID            run the check of a property (VERIF_SEED, VERIF_TIER)
main.py --worker ID FAMILY SHARD N SEED BUDGET OUT
main.py --replay FILE  re-run one recorded failing case (exit 1 if it still fails)"""
import importlib
import json
import os
import subprocess
import sys
import time
import zipfile

HERE = os.path.dirname(os.path.abspath(__file__))
VERIF = os.path.dirname(HERE)
DEPS = os.path.join(VERIF, ".deps")
WHEELS = "/opt/veriftools/wheels"


def ensure_deps():
    if not os.path.isdir(os.path.join(DEPS, "hypothesis")):
        import glob
        import shutil
        import tempfile

        tmp = tempfile.mkdtemp(prefix=".deps_", dir=VERIF)
        for pat in ("hypothesis-*-cp312-*.whl", "sortedcontainers-*.whl", "attrs-*.whl"):
            for whl in sorted(glob.glob(os.path.join(WHEELS, pat)))[-1:]:
                with zipfile.ZipFile(whl) as z:
                    z.extractall(tmp)
        try:
            os.rename(tmp, DEPS)
        except OSError:
            shutil.rmtree(tmp, ignore_errors=True)
    sys.path.append(DEPS)


def load(pid):
    sys.path.insert(0, HERE)
    import core

    core.prepare_repo()
    return core, importlib.import_module("props." + pid.lower())


def worker(argv):
    pid, fam, shard, n, seed, budget, out = argv
    ensure_deps()
    core, mod = load(pid)
    family = [f for f in mod.FAMILIES if f.name == fam][0]
    t0 = time.time()
    stats, fail = core.run_family(family, int(n), int(seed), float(budget))
    res = {"family": fam, "shard": int(shard), "seed": int(seed), "evaluations": stats.evaluations,
           "discards": stats.discards, "skipped": stats.skipped, "distinct": sorted(stats.distinct),
           "labels": stats.labels, "samples": stats.samples, "failure": fail, "wall_s": time.time() - t0}
    with open(out + ".tmp", "w") as f:
        json.dump(res, f)
    os.rename(out + ".tmp", out)
    return 0


def known_findings(pid):
    path = os.path.join(VERIF, "known_findings.txt")
    res = []
    if os.path.exists(path):
        for line in open(path):
            line = line.strip()
            if line.startswith("known: property=%s " % pid):
                res.append(line[len("known: "):])
    return res


def run(pid):
    seed = int(os.environ.get("VERIF_SEED", "1") or 1)
    tier = os.environ.get("VERIF_TIER", "quick")
    if tier not in ("quick", "thorough"):
        tier = "quick"
    ensure_deps()
    t0 = time.time()
    env = dict(os.environ)
    env.update(PYTHONDONTWRITEBYTECODE="1", PYTHONHASHSEED="0", MPLBACKEND="Agg", OMP_NUM_THREADS="1",
               OPENBLAS_NUM_THREADS="1", MKL_NUM_THREADS="1", PYTHONWARNINGS="ignore")
    import shutil
    import tempfile

    scratch = tempfile.mkdtemp(prefix="verif_%s_" % pid)
    env["MPLCONFIGDIR"] = os.path.join(scratch, "mpl")
    env["TMPDIR"] = scratch
    env["VERIF_SCRATCH"] = scratch
    os.makedirs(env["MPLCONFIGDIR"], exist_ok=True)
    try:
        return _run(pid, seed, tier, env, scratch, t0)
    finally:
        shutil.rmtree(scratch, ignore_errors=True)


def _run(pid, seed, tier, env, scratch, t0):
    # the list of families, obtained in a child so that the parent stays light
    q = subprocess.run([sys.executable, os.path.join(HERE, "main.py"), "--list", pid], env=env,
                       stdout=subprocess.PIPE, stderr=subprocess.PIPE, text=True)
    if q.returncode != 0:
        sys.stdout.write(q.stdout + q.stderr)
        print("HARNESS-ERROR: cannot load property module %s" % pid)
        return 2
    info = json.loads(q.stdout.strip().splitlines()[-1])
    jobs = []
    only = os.environ.get("VERIF_FAMILY")
    for fi, f in enumerate(info["families"]):
        if only and f["name"] not in only.split(","):
            continue
        n = f["quick"] if tier == "quick" else f["thorough"]
        shards = f["shards"] if tier == "quick" else f["tshards"]
        budget = f["budget"] if tier == "quick" else f["budget"] * 12
        for s in range(shards):
            per = max(1, n // shards)
            jobs.append((f["name"], s, per, (seed * 1000003 + fi * 1009 + s * 17 + 1) % (2 ** 31), budget))
    # interleave so that every family starts early
    jobs.sort(key=lambda j: j[1])
    ncpu = min(8, os.cpu_count() or 1)
    hard = 800 if tier == "quick" else 6 * 3600
    running, results, crashed, pending = [], [], [], list(jobs)
    failure = None
    nout = 0
    while (pending or running) and failure is None:
        while pending and len(running) < ncpu:
            j = pending.pop(0)
            out = os.path.join(scratch, "out_%d.json" % nout)
            log = os.path.join(scratch, "log_%d.txt" % nout)
            nout += 1
            cmd = [sys.executable, os.path.join(HERE, "main.py"), "--worker", pid, j[0], str(j[1]), str(j[2]), str(j[3]),
                   str(j[4]), out]
            lf = open(log, "w")
            p = subprocess.Popen(cmd, env=env, stdout=lf, stderr=subprocess.STDOUT, cwd=scratch, stdin=subprocess.DEVNULL)
            lf.close()
            running.append((p, j, out, log, time.time()))
        still = []
        for r in running:
            p, j, out, log, started = r
            if p.poll() is None:
                if time.time() - started > j[4] + (300 if tier == "quick" else 1800):
                    # one case that does not end (an external solver or integrator): this shard gives no answer
                    p.kill()
                    p.wait()
                    crashed.append((j, "time limit", ""))
                else:
                    still.append(r)
                continue
            if p.returncode == 0 and os.path.exists(out):
                res = json.load(open(out))
                results.append(res)
                if res["failure"] is not None and failure is None:
                    failure = res
            else:
                if p.returncode in (-4, -6, -7, -8, -11) and failure is None:
                    failure = crash_case(pid, j, env, scratch, p.returncode)
                crashed.append((j, p.returncode, open(log).read()[-3000:]))
        running = still
        if time.time() - t0 > hard:
            for p, j, out, log, _ in running:
                p.kill()
                crashed.append((j, "time limit", ""))
            for j in pending:
                crashed.append((j, "not started", ""))
            break
        time.sleep(0.05)
    for p, j, out, log, _ in running:
        p.kill()
        p.wait()

    ev = sum(r["evaluations"] for r in results)
    distinct = set()
    for r in results:
        distinct.update(r["family"] + ":" + h for h in r["distinct"])
    fams = {}
    for r in results:
        f = fams.setdefault(r["family"], {"evaluations": 0, "discarded": 0, "skipped_by_time_budget": 0,
                                          "distinct_nontrivial": set(), "classes": {}})
        f["evaluations"] += r["evaluations"]
        f["discarded"] += r["discards"]
        f["skipped_by_time_budget"] += r["skipped"]
        f["distinct_nontrivial"].update(r["distinct"])
        for k, v in r["labels"].items():
            f["classes"][k] = f["classes"].get(k, 0) + v
    for f in fams.values():
        f["distinct_nontrivial"] = len(f["distinct_nontrivial"])
    samples = []
    seen = {}
    for r in results:
        for s in r["samples"]:
            if seen.get(r["family"], 0) < 2:
                seen[r["family"]] = seen.get(r["family"], 0) + 1
                samples.append({"family": r["family"], **s})
    replay = None
    if failure is not None:
        os.makedirs(os.path.join(VERIF, "replays"), exist_ok=True)
        replay = os.path.join(VERIF, "replays", "%s_%s_seed%d.json" % (pid, failure["family"], seed))
        with open(replay, "w") as f:
            json.dump({"property": pid, **failure["failure"], "hypothesis_seed": failure["seed"], "tier": tier}, f, indent=1)
    evidence = {"property": pid, "tier": tier, "seed": seed, "level": "exploration",
                "coverage": {"evaluations": ev, "distinct_nontrivial": len(distinct), "rule": info["rule"],
                             "samples": samples, "families": fams,
                             "workers_without_answer": [[list(map(str, j)), str(rc)] for j, rc, _ in crashed]},
                "assumptions": info["assumptions"], "wall_s": round(time.time() - t0, 2),
                "violations": 1 if failure is not None else 0}
    os.makedirs(os.path.join(VERIF, "evidence"), exist_ok=True)
    with open(os.path.join(VERIF, "evidence", pid + ".json"), "w") as f:
        json.dump(evidence, f, indent=1)
    for k in known_findings(pid):
        print("KNOWN-FINDING: " + k)
    for name, f in sorted(fams.items()):
        print("%s %s: %d cases, %d distinct non-trivial, %d discarded, %d skipped | %s" % (
            pid, name, f["evaluations"], f["distinct_nontrivial"], f["discarded"], f["skipped_by_time_budget"],
            ", ".join("%s=%d" % kv for kv in sorted(f["classes"].items()))))
    print("%s tier=%s seed=%d evaluations=%d distinct_nontrivial=%d wall=%.1fs" % (
        pid, tier, seed, ev, len(distinct), time.time() - t0))
    if failure is not None:
        print("family=%s\n%s" % (failure["family"], failure["failure"]["error"]))
        print(failure["failure"]["traceback"][-1800:])
        print("VIOLATION property=%s replay=%s" % (pid, replay))
        return 1
    answered = set(r["family"] for r in results)
    bad = [c for c in crashed if c[1] != "time limit" or c[0][0] not in answered]
    for j, rc, log in crashed:
        print("%s: worker %s ended with %s\n%s" % ("HARNESS-ERROR" if bad else "NOTE", j, rc, log))
    return 2 if bad else 0


def crash_case(pid, j, env, scratch, rc):
    """the process died (signal): run the shard again with its choices streamed to a file; a failure if it dies again"""
    trace, out = os.path.join(scratch, "crash_trace"), os.path.join(scratch, "crash_out.json")
    cmd = [sys.executable, os.path.join(HERE, "main.py"), "--worker", pid, j[0], str(j[1]), str(j[2]), str(j[3]), str(j[4]), out]
    try:
        q = subprocess.run(cmd, env=dict(env, VERIF_TRACE=trace), stdout=subprocess.DEVNULL, stderr=subprocess.DEVNULL, cwd=scratch,
                           stdin=subprocess.DEVNULL, timeout=j[4] + 60)
    except subprocess.TimeoutExpired:
        return None
    if q.returncode != rc or not os.path.exists(trace):
        return None
    choices = [json.loads(x) for x in open(trace)]
    return {"family": j[0], "seed": j[3],
            "failure": {"family": j[0], "choices": choices, "error": "the process running the case died with signal %d, twice" % -rc,
                        "labels": [], "notes": [], "traceback": ""}}


def replay(path):
    pid = os.fork()
    if pid:
        rc = os.waitpid(pid, 0)[1]
        if os.WIFSIGNALED(rc):
            print("the process died with signal %d" % os.WTERMSIG(rc))
            print("VIOLATION property=%s replay=%s" % (json.load(open(path))["property"], path))
            return 1
        return os.WEXITSTATUS(rc)
    try:
        rc = _replay(path)
        sys.stdout.flush()
    except BaseException:
        import traceback

        traceback.print_exc()
        rc = 2
    os._exit(rc)


def _replay(path):
    rec = json.load(open(path))
    ensure_deps()
    core, mod = load(rec["property"])
    family = [f for f in mod.FAMILIES if f.name == rec["family"]][0]
    d = core.Draw(replay=rec["choices"])
    try:
        family.fn(d)
    except Exception as e:
        import traceback

        if isinstance(e, core.Discard) or core.gave_up(e):
            print("replay passes" if "no recorded choices" in str(e) else "the case is outside the property's domain")
            return 0
        traceback.print_exc()
        print("notes:", d.notes)
        print("VIOLATION property=%s replay=%s" % (rec["property"], path))
        return 1
    print("replay passes")
    return 0


def main(argv):
    if argv[0] == "--worker":
        return worker(argv[1:])
    if argv[0] == "--list":
        ensure_deps()
        core, mod = load(argv[1])
        print(json.dumps({"rule": mod.RULE, "assumptions": getattr(mod, "ASSUMPTIONS", []),
                          "families": [{"name": f.name, "quick": f.quick, "thorough": f.thorough, "shards": f.shards,
                                        "tshards": f.tshards, "budget": f.budget} for f in mod.FAMILIES]}))
        return 0
    if argv[0] == "--replay":
        return replay(argv[1])
    return run(argv[0])


if __name__ == "__main__":
    sys.exit(main(sys.argv[1:]))
