#!/opt/venv/bin/python
"""Decide one property: run.py CNN [--tier quick|thorough] [--seed N]
   or replay a saved failing case: run.py --replay FILE

Exit 0: the property held on everything explored.  Exit 1 and a line
"VIOLATION property=<id> replay=<path>": it is broken.  Exit 2: harness error.
"""
import argparse
import hashlib
import importlib
import json
import multiprocessing
import os
import shutil
import sys
import tempfile
import time
import traceback

HERE = os.path.dirname(os.path.abspath(__file__))
for k, v in {
    "OMP_NUM_THREADS": "1", "OPENBLAS_NUM_THREADS": "1", "MKL_NUM_THREADS": "1",
    "OPENTURNS_NUM_THREADS": "1", "TBB_NUM_THREADS": "1", "MPLBACKEND": "agg",
    "PYTHONDONTWRITEBYTECODE": "1",
}.items():
    os.environ[k] = v
sys.dont_write_bytecode = True
NCPU = 8
# a case takes seconds: the code under test does not terminate beyond
CASE_LIMIT = float(os.environ.get("VERIF_CASE_LIMIT", 450))


def reexec():
    """One deterministic environment, whatever the caller's."""
    if os.environ.get("VERIF_CHILD") == "1":
        return
    env = dict(os.environ)
    env["VERIF_CHILD"] = "1"
    env["PYTHONHASHSEED"] = "0"
    env.pop("PYTHONPATH", None)
    py = "/opt/venv/bin/python"
    if not os.path.exists(py):
        py = sys.executable
    os.execve(py, [py, "-B", os.path.abspath(__file__)] + sys.argv[1:], env)


def known_findings():
    out = []
    path = os.path.join(HERE, "known_findings.txt")
    if os.path.exists(path):
        for line in open(path):
            line = line.strip()
            if line.startswith("finding:"):
                # finding: property=C08 key=binomial-all-detected <text>
                parts = line.split(None, 3)
                out.append((parts[1].split("=")[1], parts[2].split("=")[1], parts[3]))
    return out


def worker(prop, subname, shard, nshards, n, seed, budget, scratch, outfile):
    import harness

    os.chdir(scratch)
    # warnings of OpenTURNS are written directly on the descriptor
    os.dup2(os.open(os.devnull, os.O_WRONLY), 2)
    import hypothesis
    from hypothesis import HealthCheck, Phase, given, settings
    from hypothesis.internal.conjecture import engine

    engine.MAX_SHRINKING_SECONDS = int(os.environ.get("VERIF_SHRINK", 45))
    mod = importlib.import_module("props." + prop.lower())
    sub = [s for s in mod.SUBS if s.name == subname][0]
    res = {
        "evaluations": 0, "rejected": 0, "skipped": 0, "nontrivial": [],
        "labels": {}, "known": {}, "samples": [], "failure": None, "error": None,
    }
    t0 = time.time()
    state = {"fail": None}

    def body(case):
        # for the parent, in case it never ends
        with open(outfile + ".new", "w") as fd:
            json.dump({"start": time.time(), "case": case}, fd)
        os.replace(outfile + ".new", outfile + ".cur")
        if state["fail"] is None and time.time() - t0 > budget:
            res["skipped"] += 1
            return
        try:
            info = harness.run_case(sub, case)
        except harness.Reject:
            res["rejected"] += 1
            return
        except harness.Violation as e:
            state["fail"] = (case, str(e))
            raise
        if state["fail"] is not None:
            return
        res["evaluations"] += 1
        for lab in info.get("labels", ()):
            res["labels"][lab] = res["labels"].get(lab, 0) + 1
        for key in info.get("known", ()):
            k = res["known"].setdefault(key, {"count": 0, "case": case})
            k["count"] += 1
        if info.get("nontrivial", True):
            h = hashlib.sha1(harness.canon(case).encode()).hexdigest()[:16]
            res["nontrivial"].append(h)
            if len(res["samples"]) < 2:
                res["samples"].append(case)

    h = hashlib.sha256(("%d/%s/%s/%d" % (seed, prop, subname, shard)).encode())
    hseed = int(h.hexdigest()[:12], 16)
    test = given(sub.strategy)(body)
    test = hypothesis.seed(hseed)(test)
    test = settings(
        max_examples=max(1, n), database=None, deadline=None,
        phases=(Phase.generate, Phase.shrink), report_multiple_bugs=False,
        suppress_health_check=list(HealthCheck), print_blob=False,
    )(test)
    try:
        import contextlib, io

        with contextlib.redirect_stdout(io.StringIO()):
            test()
    except harness.Violation:
        pass
    except hypothesis.errors.HypothesisException as e:
        # a flaky failure is still a failure seen on the real code
        if state["fail"] is None:
            res["error"] = "%s: %s" % (type(e).__name__, e)
    except BaseException:
        if state["fail"] is None:
            res["error"] = traceback.format_exc()
    if state["fail"] is not None:
        res["failure"] = {"case": state["fail"][0], "message": state["fail"][1]}
    res["wall"] = time.time() - t0
    with open(outfile, "w") as fd:
        json.dump(res, fd)


def run_workers(tasks, scratch):
    """tasks: list of (args...) ; at most NCPU at the same time."""
    ctx = multiprocessing.get_context("fork")
    pending = list(enumerate(tasks))
    running = {}
    results = {}
    stop = False
    looked = time.time()

    def empty(**kw):
        r = {"evaluations": 0, "rejected": 0, "skipped": 1, "nontrivial": [], "labels": {},
             "known": {}, "samples": [], "failure": None, "error": None}
        r.update(kw)
        return r
    while (pending or running) and not stop:
        while pending and len(running) < NCPU:
            i, t = pending.pop(0)
            wdir = os.path.join(scratch, "w%d" % i)
            os.makedirs(wdir)
            outfile = os.path.join(scratch, "r%d.json" % i)
            p = ctx.Process(target=worker, args=t + (wdir, outfile))
            p.start()
            running[i] = (p, outfile)
        time.sleep(0.02)
        look = time.time() - looked > 5
        if look:
            looked = time.time()
        for i in list(running):
            p, outfile = running[i]
            if not p.is_alive():
                p.join()
                del running[i]
                if os.path.exists(outfile):
                    results[i] = json.load(open(outfile))
                    if os.environ.get("VERIF_FIRST") and results[i]["failure"]:
                        stop = True
                else:
                    results[i] = {"error": "worker ended with code %s" % p.exitcode}
            elif look and os.path.exists(outfile + ".cur"):
                cur = json.load(open(outfile + ".cur"))
                if time.time() - cur["start"] > CASE_LIMIT:
                    results[i] = empty(failure={
                        "case": cur["case"],
                        "message": "not finished after %d seconds" % CASE_LIMIT})
                    stop = True
    for i, (p, _) in running.items():
        p.kill()
        p.join()
    for i in range(len(tasks)):
        results.setdefault(i, empty())
    return results


def main():
    ap = argparse.ArgumentParser()
    ap.add_argument("prop", nargs="?")
    ap.add_argument("--tier", default=os.environ.get("VERIF_TIER", "quick"))
    ap.add_argument("--seed", type=int, default=int(os.environ.get("VERIF_SEED", "1") or 1))
    ap.add_argument("--replay")
    ap.add_argument("--sub")
    ap.add_argument("--scale", type=float, default=1.0)
    a = ap.parse_args()
    sys.path.insert(0, HERE)
    import harness

    scratch = tempfile.mkdtemp(prefix="otpodverif")
    os.environ["MPLCONFIGDIR"] = os.path.join(scratch, "mpl")
    os.makedirs(os.environ["MPLCONFIGDIR"])
    try:
        harness.setup_imports()
        if a.replay:
            return replay(a.replay, scratch, harness)
        return decide(a, scratch, harness)
    finally:
        os.chdir(HERE)
        shutil.rmtree(scratch, ignore_errors=True)


def replay(path, scratch, harness):
    rec = json.load(open(path))
    mod = importlib.import_module("props." + rec["property"].lower())
    sub = [s for s in mod.SUBS if s.name == rec["sub"]][0]
    os.chdir(scratch)
    try:
        info = harness.run_case(sub, rec["case"])
    except harness.Violation as e:
        print("%s/%s: %s" % (rec["property"], rec["sub"], e))
        print("VIOLATION property=%s replay=%s" % (rec["property"], os.path.abspath(path)))
        return 1
    except harness.Reject:
        print("case outside the domain")
        return 0
    print("property %s holds on this case %s" % (rec["property"], dict(info)))
    return 0


def decide(a, scratch, harness):
    t0 = time.time()
    prop = a.prop.upper()
    mod = importlib.import_module("props." + prop.lower())
    tier = "thorough" if a.tier == "thorough" else "quick"
    seed = a.seed
    budget = 240.0 if tier == "quick" else 3000.0
    tasks = []
    subs = [s for s in mod.SUBS if a.sub in (None, s.name)]
    for s in subs:
        n = int(round((s.quick if tier == "quick" else s.thorough) * a.scale))
        sh = max(1, min(s.shards, n))
        for k in range(sh):
            nk = n // sh + (1 if k < n % sh else 0)
            tasks.append((prop, s.name, k, sh, nk, seed, budget))
    # longest sub-checks first is not known: interleave the shards
    tasks.sort(key=lambda t: t[2])
    results = run_workers(tasks, scratch)

    errors, failures, per_sub = [], [], {}
    known, nontrivial = {}, set()
    samples = []
    evaluations = rejected = skipped = 0
    for i, t in enumerate(tasks):
        r = results[i]
        if r.get("error"):
            errors.append("%s shard %d: %s" % (t[1], t[2], r["error"]))
            if "evaluations" not in r:
                continue
        ps = per_sub.setdefault(
            t[1], {"evaluations": 0, "nontrivial": 0, "rejected": 0, "labels": {}}
        )
        ps["evaluations"] += r["evaluations"]
        ps["nontrivial"] += len(set(r["nontrivial"]))
        ps["rejected"] += r["rejected"]
        for k, v in r["labels"].items():
            ps["labels"][k] = ps["labels"].get(k, 0) + v
        evaluations += r["evaluations"]
        rejected += r["rejected"]
        skipped += r["skipped"]
        nontrivial.update(t[1] + ":" + h for h in r["nontrivial"])
        if t[2] == 0:
            samples.extend({"sub": t[1], "case": c} for c in r["samples"][:1])
        for k, v in r["known"].items():
            kk = known.setdefault(k, {"count": 0, "case": v["case"], "sub": t[1]})
            kk["count"] += v["count"]
        if r["failure"]:
            failures.append((t[1], r["failure"]))

    # a "known" outcome is accepted only if the committed file lists it
    listed = {k: text for p, k, text in known_findings() if p == prop}
    for k in sorted(known):
        if k not in listed:
            failures.append(
                (known[k]["sub"],
                 {"case": known[k]["case"], "message": "unlisted finding " + k})
            )
    failures.sort(key=lambda f: len(harness.canon(f[1]["case"])))

    evidence = {
        "property": prop, "tier": tier, "seed": seed, "level": "exploration",
        "coverage": {
            "evaluations": evaluations,
            "distinct_nontrivial": len(nontrivial),
            "rule": mod.RULE,
            "samples": samples[:12],
            "per_sub_check": per_sub,
            "rejected_outside_domain": rejected,
            "skipped_time_budget": skipped,
            "known_findings_seen": {k: v["count"] for k, v in known.items()},
        },
        "assumptions": getattr(mod, "ASSUMPTIONS", []),
        "wall_s": round(time.time() - t0, 2),
        "violations": len(failures),
    }
    os.makedirs(os.path.join(HERE, "evidence"), exist_ok=True)
    with open(os.path.join(HERE, "evidence", prop + ".json"), "w") as fd:
        json.dump(evidence, fd, indent=1)

    for k in sorted(known):
        if k in listed:
            print("KNOWN-FINDING: property=%s %s (%s)" % (prop, listed[k], k))
    if failures:
        rdir = os.path.join(HERE, "replays")
        os.makedirs(rdir, exist_ok=True)
        done = set()
        for subname, f in failures:
            if subname in done:
                continue
            done.add(subname)
            path = os.path.join(rdir, "%s-%s.json" % (prop, subname))
            with open(path, "w") as fd:
                json.dump({"property": prop, "sub": subname, "case": f["case"],
                           "message": f["message"], "seed": seed}, fd, indent=1)
            print("%s/%s: %s" % (prop, subname, f["message"]))
            print("VIOLATION property=%s replay=%s" % (prop, path))
        return 1
    if errors:
        for e in errors:
            print("HARNESS ERROR " + e)
        return 2
    print("%s held: %d cases, %d distinct non-trivial, %.1f s"
          % (prop, evaluations, len(nontrivial), time.time() - t0))
    return 0


if __name__ == "__main__":
    reexec()
    sys.exit(main())
