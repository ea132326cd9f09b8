#!/usr/bin/env python3
"""Plants bugs: plant.py BATCH.py [ID ...].   BATCH.py holds BUGS = [{id, property, edits: [(file, old, new)], needs, breaks, demo}].
For each: scratch copy of /repo, edit, build, the project's tests, the demonstration on both trees, then (one after another) the property's
quick check.  Good ones (build, tests pass, demo 0 / nonzero) are written to /verif/seeded/<id>/; the scratch copy is removed."""
import concurrent.futures as cf
import json, os, re, runpy, shutil, subprocess, sys
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
REPO = os.environ.get("VERIF_REPO", "/repo")
CACHE = os.environ.get("VERIF_CACHE", V + "/.cache")
PY = "/opt/venv/bin/python"
SITE = "/opt/venv/lib/python3.12/site-packages"
RUN = "import sys,runpy; sys.path[:0]=[%r,%r]; "
DEMO = '''#!/bin/bash
# exit 0: as documented; nonzero: broken
cd "$(dirname "$0")" || exit 2
export PYTHONDONTWRITEBYTECODE=1 PYTHONWARNINGS=ignore
exec timeout 200 /opt/venv/bin/python ./demo.py
'''


def sh(cmd, **kw):
    return subprocess.run(cmd, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True, errors="replace", **kw)


def build(repo, cache, variant="plain"):
    r = sh([PY, "-S", "-E", V + "/harness/build.py", variant], env=dict(os.environ, VERIF_REPO=repo, VERIF_CACHE=cache))
    return (r.stdout.strip().split("\n")[-1] if r.returncode == 0 else None), r.stdout


def tests(site, cwd):
    code = RUN % (site, SITE) + "import pytest; sys.exit(pytest.main(['-q','-x','-p','no:cacheprovider','--timeout=300',%r]))" % (site + "/pywt/tests")
    r = sh([PY, "-S", "-E", "-c", code], cwd=cwd, env=dict(os.environ, OPENBLAS_NUM_THREADS="1"))
    return r.returncode, r.stdout


def demo(site, d):
    code = RUN % (site, SITE) + "runpy.run_path('demo.py', run_name='__main__')"
    r = sh(["timeout", "200", PY, "-S", "-E", "-W", "ignore", "-c", code], cwd=d)
    return r.returncode, r.stdout


def prepare(b, base):
    d = "/tmp/mut/" + b["id"]
    shutil.rmtree(d, ignore_errors=True)
    os.makedirs(d + "/seed")
    repo = d + "/repo"
    sh(["git", "clone", "-q", REPO, repo])
    for f, old, new in b["edits"]:
        p = os.path.join(repo, f)
        s = open(p).read()
        if s.count(old) != 1:
            return b, f"edit of {f}: {s.count(old)} matches"
        open(p, "w").write(s.replace(old, new))
    patch = sh(["git", "-C", repo, "diff"]).stdout
    b["patch"] = patch
    open(d + "/seed/demo.py", "w").write(b["demo"])
    site, log = build(repo, d + "/cache")
    if not site:
        return b, "does not build\n" + log[-1500:]
    b["site"], b["dir"] = site, d
    r0, o0 = demo(base, d + "/seed")
    if r0:
        return b, f"demo fails on the unchanged tree: {o0[-600:]}"
    r1, o1 = demo(site, d + "/seed")
    if not r1:
        return b, "demo passes with the bug"
    if not os.environ.get("NOTESTS"):
        rc, out = tests(site, d)
        if rc:
            return b, "tests fail: " + " | ".join(l for l in out.split("\n") if l.startswith(("FAILED", "ERROR")))[:400] + out[-300:]
    return b, None


def main():
    bugs = runpy.run_path(sys.argv[1])["BUGS"]
    if sys.argv[2:]:
        bugs = [b for b in bugs if b["id"] in sys.argv[2:]]
    base, _ = build(REPO, CACHE)
    ok = []
    with cf.ThreadPoolExecutor(7) as ex:
        for b, err in ex.map(lambda b: prepare(b, base), bugs):
            if err:
                print(f"{b['id']}: NO - {err}", flush=True)
                shutil.rmtree("/tmp/mut/" + b["id"], ignore_errors=True)
                continue
            ok.append(b)
            t = f"{V}/seeded/{b['id']}"
            os.makedirs(t, exist_ok=True)
            open(t + "/patch.diff", "w").write(b["patch"])
            open(t + "/demo.sh", "w").write(DEMO)
            os.chmod(t + "/demo.sh", 0o755)
            open(t + "/demo.py", "w").write(b["demo"])
            json.dump({"property": b["property"], "needs": b["needs"], "what_it_breaks": b["breaks"]}, open(t + "/meta.json", "w"), indent=1)
    for b in ok:
        env = dict(os.environ, VERIF_REPO=b["dir"] + "/repo", VERIF_CACHE=b["dir"] + "/cache", VERIF_SEED=os.environ.get("VERIF_SEED", "1"))
        r = sh([V + "/run.sh", b["property"], "quick"], env=env)
        hit = r.returncode == 1 and f"VIOLATION property={b['property']}" in r.stdout
        print(f"{b['id']}: {'caught' if hit else 'MISSED rc=%d' % r.returncode} by {b['property']}: {r.stdout.strip().splitlines()[-1][:160]}", flush=True)
        for l in [l for l in r.stdout.splitlines() if re.match(r"\s+law ", l)][:2]:
            print("     " + l.strip()[:220], flush=True)
        shutil.rmtree(b["dir"], ignore_errors=True)


main()
