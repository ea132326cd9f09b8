"""Builds pywt from the current working tree of /repo into a cache below /verif.

meson (the project's own build) is pointed at /repo as the source directory and at a build directory under
/verif/.cache that is keyed by the content of every source file, so nothing is written to /repo and a changed
tree is always rebuilt.  Two variants: 'plain' (used by all checks) and 'asan' (address + undefined sanitizers)."""
import fcntl
import hashlib
import os
import shutil
import subprocess
import sys

REPO = os.environ.get("VERIF_REPO", "/repo")
VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
CACHE = os.environ.get("VERIF_CACHE", os.path.join(VERIF, ".cache"))
VENV_BIN = "/opt/venv/bin"

NATIVE = os.path.join(VERIF, "harness", "native")
VARIANTS = {
    "plain": ["-Dbuildtype=plain", "-Doptimization=1", "-Ddebug=false", "-Db_ndebug=false"],
    "asan": ["-Dbuildtype=plain", "-Doptimization=0", "-Ddebug=true", "-Db_ndebug=false",
             "-Db_sanitize=address,undefined", "-Db_lundef=false", f"-Dc_args=['-include','{NATIVE}/fault.h']"],
}


class BuildError(Exception):
    pass


def source_files():
    out = []
    for top in ("pywt", "util"):
        for d, dirs, files in os.walk(os.path.join(REPO, top)):
            dirs[:] = sorted(x for x in dirs if x != "__pycache__")
            for f in sorted(files):
                if not f.endswith((".pyc", ".so")):
                    out.append(os.path.join(d, f))
    for f in ("meson.build", "pyproject.toml"):
        p = os.path.join(REPO, f)
        if os.path.exists(p):
            out.append(p)
    return out


def tree_hash():
    h = hashlib.sha256(repr(sorted(VARIANTS.items())).encode())
    for f in (os.path.join(NATIVE, x) for x in sorted(os.listdir(NATIVE))):
        with open(f, "rb") as fh:
            h.update(fh.read())
    for p in source_files():
        h.update(os.path.relpath(p, REPO).encode() + b"\0")
        with open(p, "rb") as f:
            h.update(hashlib.sha256(f.read()).digest())
    return h.hexdigest()[:20]


def _env():
    e = {k: v for k, v in os.environ.items() if not k.startswith("PYTHON")}
    e.update(PATH=f"{VENV_BIN}:/usr/local/sbin:/usr/local/bin:/usr/sbin:/usr/bin:/sbin:/bin", LANG="C.UTF-8",
             PYTHONDONTWRITEBYTECODE="1", PYTHONHASHSEED="0", CCACHE_DIR=os.path.join(CACHE, "ccache"))
    e.setdefault("HOME", "/root")
    for k in ("CFLAGS", "LDFLAGS", "CC"):
        e.pop(k, None)
    return e


def _site(inst):
    for d, dirs, files in os.walk(inst):
        if os.path.basename(d) == "pywt" and "__init__.py" in files:
            return os.path.dirname(d)
    raise BuildError("no pywt package was installed")


def ensure(variant="plain"):
    """Returns the directory to put on sys.path."""
    os.makedirs(CACHE, exist_ok=True)
    with open(os.path.join(CACHE, "lock-" + variant), "w") as lock:
        fcntl.flock(lock, fcntl.LOCK_EX)
        root = os.path.join(CACHE, f"{variant}-{tree_hash()}")
        inst = os.path.join(root, "inst")
        if os.path.exists(os.path.join(root, "ok")):
            return _site(inst)
        # keep the cache small: other trees' builds go
        for d in os.listdir(CACHE):
            if d.startswith(variant + "-"):
                shutil.rmtree(os.path.join(CACHE, d), ignore_errors=True)
        bd = os.path.join(root, "build")
        os.makedirs(root)
        log = os.path.join(root, "build.log")
        cmds = [["meson", "setup", bd, REPO, "-Dprefix=" + inst, *VARIANTS[variant]],
                ["ninja", "-C", bd],
                ["meson", "install", "-C", bd, "--no-rebuild"]]
        if variant == "asan":
            cmds.append(["gcc", "-shared", "-fPIC", "-O1", "-g", "-o", os.path.join(root, "libvf.so"), os.path.join(NATIVE, "vf.c")])
        with open(log, "w") as lf:
            for c in cmds:
                r = subprocess.run(c, cwd=root, env=_env(), stdout=lf, stderr=subprocess.STDOUT,
                                   stdin=subprocess.DEVNULL)
                if r.returncode:
                    lf.flush()
                    sys.stderr.write(open(log).read()[-4000:])
                    raise BuildError(f"{' '.join(c)} failed")
        shutil.rmtree(bd, ignore_errors=True)
        open(os.path.join(root, "ok"), "w").close()
        return _site(inst)


def faultlib():
    return os.path.join(CACHE, "asan-" + tree_hash(), "libvf.so")


if __name__ == "__main__":
    for v in sys.argv[1:] or ["plain"]:
        print(ensure(v))
