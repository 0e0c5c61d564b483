#!/usr/bin/env python3
"""Build and validate planted bugs: plant.py [ID...] reads tools/bugs/<ID>.py, each defining
PROPERTY, NEEDS, BREAKS, EDITS = [(file, old, new)...] and DEMO (source of demo.py).
Writes seeded/<ID>/, checks the demo on /repo and on a patched copy, with --test the tests,
with --check the check of the property (or --check=C01,C02) against the patched copy."""
import importlib.util
import json
import os
import shutil
import subprocess
import sys

HERE = os.path.dirname(os.path.abspath(__file__))
ROOT = os.path.dirname(HERE)
PY = "/opt/venv/bin/python"


def load(i):
    s = importlib.util.spec_from_file_location("bug", os.path.join(HERE, "bugs", i + ".py"))
    m = importlib.util.module_from_spec(s)
    s.loader.exec_module(m)
    return m


def copy(i):
    d = "/tmp/plant_" + i
    shutil.rmtree(d, ignore_errors=True)
    subprocess.check_call(["cp", "-a", "/repo", d])
    return d


def env(d):
    e = dict(os.environ, PYTHONPATH=d, PYTHONDONTWRITEBYTECODE="1", MPLBACKEND="agg", OMP_NUM_THREADS="1",
             OPENBLAS_NUM_THREADS="1", TBB_NUM_THREADS="2")
    return e


TESTS = """cd %s/test && ls test_*.py | grep -v notebook | grep -v adaptive_signal | xargs -n 1 -P 8 -I{} sh -c 'timeout 600 %s -m pytest -q -p no:cacheprovider {} > /tmp/plant_log_%s_{} 2>&1 || echo FAILED {} $(grep ^FAILED /tmp/plant_log_%s_{} | head -3)'; rm -f /tmp/plant_log_%s_*"""


def main():
    args = sys.argv[1:]
    test = "--test" in args
    chk = [a for a in args if a.startswith("--check")]
    ids = [a for a in args if not a.startswith("--")]
    for i in ids:
        b = load(i)
        d = copy(i)
        try:
            for f, old, new in b.EDITS:
                p = os.path.join(d, f)
                s = open(p).read()
                if s.count(old) != 1:
                    sys.exit("%s: %d occurrences of the text to replace in %s" % (i, s.count(old), f))
                open(p, "w").write(s.replace(old, new))
            out = os.path.join(ROOT, "seeded", i)
            os.makedirs(out, exist_ok=True)
            diff = subprocess.check_output(["git", "-C", d, "diff"], text=True)
            open(os.path.join(out, "patch.diff"), "w").write(diff)
            open(os.path.join(out, "demo.py"), "w").write(b.DEMO.lstrip())
            open(os.path.join(out, "demo.sh"), "w").write(
                "#!/bin/bash\n# cwd: /repo\nexport MPLBACKEND=agg PYTHONDONTWRITEBYTECODE=1 OMP_NUM_THREADS=1\n"
                "dir=$(cd \"$(dirname \"$0\")\" && pwd)\n"
                "exec /opt/venv/bin/python \"$dir/demo.py\"\n")
            os.chmod(os.path.join(out, "demo.sh"), 0o755)
            json.dump({"property": b.PROPERTY, "needs": b.NEEDS, "what_it_breaks": b.BREAKS},
                      open(os.path.join(out, "meta.json"), "w"), indent=1)
            r = []
            for repo in ("/repo", d):
                p = subprocess.run(["bash", os.path.join(out, "demo.sh")], cwd=repo, env=env(repo),
                                   capture_output=True, text=True)
                r.append(p.returncode)
                if (p.returncode == 0) != (repo == "/repo"):
                    print(p.stdout[-500:], p.stderr[-1500:])
            print(i, b.PROPERTY, "demo clean/patched:", r, "OK" if r[0] == 0 and r[1] != 0 else "BAD DEMO", flush=True)
            if test:
                p = subprocess.run(TESTS % (d, PY, i, i, i), shell=True, env=env(d), capture_output=True, text=True)
                print(i, "tests:", p.stdout.strip()[-600:] or "pass", flush=True)
            for c in chk:
                props = c.split("=")[1].split(",") if "=" in c else [b.PROPERTY]
                for q in props:
                    e = dict(os.environ, OTPOD_REPO=d)
                    e.pop("VERIF_CHILD", None)
                    p = subprocess.run([PY, os.path.join(ROOT, "run.py"), q], env=e, capture_output=True, text=True)
                    print(i, q, "check exit", p.returncode, [l for l in p.stdout.splitlines() if not l.startswith("KNOWN")][:1], flush=True)
        finally:
            shutil.rmtree(d, ignore_errors=True)


main()
