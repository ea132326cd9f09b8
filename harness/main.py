import importlib
import json
import os
import shutil
import sys
import tempfile
import time

HERE = os.path.dirname(os.path.abspath(__file__))
VERIF = os.path.dirname(HERE)
sys.path[:0] = [HERE, os.path.join(VERIF, "checks")]
SITE = "/opt/venv/lib/python3.12/site-packages"
HYP = "/opt/veriftools/pyvenv/lib/python3.12/site-packages"


SANITIZED = {"P20", "P24"}          # checks that run against the sanitizer build


def sanitized(prop, argv):
    """Re-executes the whole check under the sanitizer runtime (which must be loaded before anything else)."""
    if prop not in SANITIZED or os.environ.get("VERIF_SANITIZED"):
        return
    import subprocess
    import build
    build.ensure("asan")
    lib = subprocess.run(["gcc", "-print-file-name=libasan.so"], capture_output=True, text=True, check=True).stdout.strip()
    d = tempfile.mkdtemp(prefix="verif-san-")
    env = {k: v for k, v in os.environ.items() if not k.startswith("PYTHON")}
    env.update(LD_PRELOAD=lib + ":" + build.faultlib(), VERIF_SANITIZED="1", VERIF_SANLOG=d, PYTHONMALLOC="malloc", PYTHONDONTWRITEBYTECODE="1", PYTHONHASHSEED="0",
               ASAN_OPTIONS="detect_leaks=0:abort_on_error=1:max_malloc_fill_size=16777216:malloc_fill_byte=203:quarantine_size_mb=48:allocator_may_return_null=1:"
                            f"malloc_context_size=8:log_path={d}/san",
               UBSAN_OPTIONS="halt_on_error=1:abort_on_error=1:print_stacktrace=1")
    sys.stdout.flush()
    rc = subprocess.run([sys.executable, "-S", "-s", os.path.join(HERE, "main.py"), *argv], env=env).returncode
    shutil.rmtree(d, ignore_errors=True)
    sys.exit(rc if rc in (0, 1) else 2)


def load(variant="plain"):
    import build
    if os.environ.get("VERIF_SANITIZED"):
        variant = "asan"
    site = build.ensure(variant)
    sys.path.insert(0, site)
    sys.path.append(SITE)
    sys.path.append(HYP)
    import pywt
    import core
    core.PYWT_DIR = os.path.join(site, "pywt")
    if not os.path.abspath(pywt.__file__).startswith(core.PYWT_DIR):
        raise core.HarnessError("wrong pywt: " + pywt.__file__)
    return core


def known_findings():
    with open(os.path.join(VERIF, "known_findings.json")) as f:
        return json.load(f)["findings"]


def regressions(prop):
    d = os.path.join(VERIF, "regressions", prop)
    out = []
    if os.path.isdir(d):
        for n in sorted(os.listdir(d)):
            with open(os.path.join(d, n)) as f:
                out.append((n, json.load(f)))
    return out


def laws_of(core, prop):
    core.REGISTRY.clear()
    importlib.import_module("check_" + prop)
    return [lw for lw in core.REGISTRY if lw.prop == prop]


def write_replay(prop, lawname, case, msg, seed, tier):
    d = os.path.join(VERIF, "replays")
    os.makedirs(d, exist_ok=True)
    import hashlib
    h = hashlib.sha256(json.dumps([lawname, case], sort_keys=True).encode()).hexdigest()[:12]
    p = os.path.join(d, f"{prop}-{lawname}-{h}.json")
    with open(p, "w") as f:
        json.dump({"property": prop, "law": lawname, "case": case, "message": msg, "seed": seed, "tier": tier,
                   "how": f"./run.sh replay {p}"}, f, indent=1)
    return p


def run_check(prop, tier, seed):
    t0 = time.time()
    sanitized(prop, [prop, tier])
    core = load()
    laws = laws_of(core, prop)
    if not laws:
        print("no laws for", prop)
        return 2
    byname = {lw.name: lw for lw in laws}
    finds = [f for f in known_findings() if f["property"] == prop]
    core.KNOWN = {prop: {f["id"] for f in finds if f.get("id")}}
    mod = sys.modules["check_" + prop]
    budget = float(os.environ.get("VERIF_BUDGET", 330 if tier == "quick" else 5400))
    scratch = tempfile.mkdtemp(prefix="verif-")
    try:
        if hasattr(mod, "prepare"):
            mod.prepare(tier, seed)
        # earlier failures, each in its own process
        reg_fail = []
        regs = regressions(prop)
        for n, r in regs:
            res = core.confirm(byname[r["law"]], r["case"], timeout=byname[r["law"]].hang)
            if res.startswith("other"):
                print("HARNESS-ERROR regression", n, res, file=sys.stderr)
                return 2
            if res != "ok":
                reg_fail.append((r["law"], r["case"], f"[regression {n}] {res}"))
        # known findings are shown to still fail
        for f in finds:
            if "case" in f:
                res = core.confirm(byname[f["law"]], f["case"], timeout=byname[f["law"]].hang)
                if res != "ok":
                    print(f"KNOWN-FINDING: property={prop} {f['what']}")
                else:
                    print(f"note: known finding {f['id']} no longer fails")
        total, notes = core.run_workers(laws, tier, seed, budget, scratch)
    finally:
        shutil.rmtree(scratch, ignore_errors=True)
    total.failures = reg_fail + total.failures
    extra = mod.evidence_extra() if hasattr(mod, "evidence_extra") else {}
    # one violation per law, the smallest
    best = {}
    for lawname, case, msg in total.failures:
        k = len(json.dumps(case))
        if lawname not in best or k < best[lawname][0]:
            best[lawname] = (k, case, msg)
    paths = []
    for lawname, (_, case, msg) in sorted(best.items()):
        paths.append((write_replay(prop, lawname, case, msg, seed, tier), lawname, case, msg))
    ev = {
        "property": prop, "tier": tier, "seed": seed, "level": "exploration",
        "coverage": {
            "evaluations": total.evaluations,
            "distinct_nontrivial": len(total.nontrivial),
            "rule": getattr(mod, "RULE", "a case counts as non-trivial when the law reports at least one tag; distinct by the case's JSON"),
            "samples": total.samples[:12],
            "per_law": dict(sorted(total.per_law.items())),
            "tags": dict(sorted(total.tags.items())),
            "rejected_by_domain": total.rejected,
            "regressions_replayed": len(regs),
            "known_finding_hits": total.known_hits,
            "truncated_by_time": sorted(set(total.truncated)),
            "notes": notes,
            **extra,
        },
        "assumptions": getattr(mod, "ASSUMPTIONS", []),
        "wall_s": round(time.time() - t0, 2),
        "violations": len(best),
    }
    os.makedirs(os.path.join(VERIF, "evidence"), exist_ok=True)
    with open(os.path.join(VERIF, "evidence", prop + ".json"), "w") as f:
        json.dump(ev, f, indent=1)
    for p, lawname, case, msg in paths:
        print(f"  law {lawname}: {msg}")
        print(f"  case: {json.dumps(case)[:1500]}")
        print(f"VIOLATION property={prop} replay={p}")
    print(f"{prop} {tier} seed={seed}: {total.evaluations} evaluations, {len(total.nontrivial)} distinct non-trivial, "
          f"{len(best)} violations, {len(total.harness)} harness errors, {ev['wall_s']} s")
    if best:
        return 1
    if total.harness:
        for h in total.harness[:4]:
            print("HARNESS-ERROR", h, file=sys.stderr)
        return 2
    return 0


def replay(path):
    with open(path) as f:
        r = json.load(f)
    sanitized(r["property"], ["replay", path])
    core = load()
    laws = laws_of(core, r["property"])
    byname = {lw.name: lw for lw in laws}
    core.KNOWN = {}
    mod = sys.modules["check_" + r["property"]]
    if hasattr(mod, "prepare"):
        mod.prepare("quick", r.get("seed", 1))
    case = r["case"]
    if isinstance(case, dict) and "__shard__" in case:
        i, n, tier, seed = case["__shard__"]
        d = tempfile.mkdtemp(prefix="verif-")
        pid = os.fork()
        if pid == 0:
            core.worker(laws, i, n, tier, seed, core.Slot(), os.path.join(d, "o"), time.time() + 900)
            os._exit(0)
        _, st = os.waitpid(pid, 0)
        shutil.rmtree(d)
        res = "ok" if st == 0 else f"crash: status {st}"
    else:
        res = core.confirm(byname[r["law"]], case)
    print(f"law {r['law']}: {res}")
    if res == "ok":
        return 0
    if res.startswith("other"):
        return 2
    print(f"VIOLATION property={r['property']} replay={path}")
    return 1


def main():
    a = sys.argv[1:]
    if a and a[0] == "setup":
        import build
        print(build.ensure("plain"))
        print(build.ensure("asan"))
        return 0
    if a and a[0] == "replay":
        return replay(a[1])
    prop = a[0]
    tier = a[1] if len(a) > 1 else os.environ.get("VERIF_TIER", "quick")
    seed = int(os.environ.get("VERIF_SEED", "1") or 1)
    return run_check(prop, tier, seed)


if __name__ == "__main__":
    try:
        rc = main()
    except Exception:
        import traceback
        traceback.print_exc()
        rc = 2
    sys.stdout.flush()
    sys.exit(rc)
