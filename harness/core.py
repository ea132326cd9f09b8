"""Case generation, laws, evaluation, shrinking and the parallel driver shared by all checks."""
import hashlib
import itertools
import json
import mmap
import os
import pickle
import random
import signal
import struct
import sys
import time
import traceback
import warnings

import numpy as np

EPS = {"f4": 2.0 ** -23, "f8": 2.0 ** -52, "c8": 2.0 ** -23, "c16": 2.0 ** -52}
NP = {"f4": np.float32, "f8": np.float64, "c8": np.complex64, "c16": np.complex128}
DTYPES = list(NP)


class Violation(Exception):
    """The property does not hold for this case."""

    def __init__(self, msg, finding=None, unusable=False):
        super().__init__(msg)
        self.finding = finding
        self.unusable = unusable       # an ordinary exception while the harness used a result


class Reject(Exception):
    """The case lies outside the property's domain (generator did not hit it); it is not counted."""


class HarnessError(Exception):
    """The check itself is broken."""


def require(cond, msg, finding=None):
    if not cond:
        raise Violation(msg() if callable(msg) else msg, finding)


# ------------------------------------------------------------------ laws
class Law:
    def __init__(self, fn, prop, sweep, strategy, quick, thorough, setup=None, name=None, shrinkable=True, hang=60):
        self.fn, self.prop, self.sweep, self.strategy = fn, prop, sweep, strategy
        self.quick, self.thorough, self.setup = quick, thorough, setup
        self.name = name or fn.__name__
        self.shrinkable = shrinkable
        self.hang = hang


def law(prop, sweep=None, strategy=None, quick=200, thorough=4000, **kw):
    """Registers a law.  sweep(tier) yields cases to evaluate all of; strategy(tier) is a Hypothesis strategy of
    cases, of which quick/thorough examples are drawn per worker.  fn(case) raises Violation, or returns the
    case's tags (a list of strings; an empty list = trivial case)."""
    def deco(fn):
        lw = Law(fn, prop, sweep, strategy, quick, thorough, **kw)
        REGISTRY.append(lw)
        return fn
    return deco


REGISTRY = []


# ------------------------------------------------------------------ data
def rng(*key):
    h = hashlib.sha256(json.dumps(key).encode()).digest()
    return np.random.default_rng(list(struct.unpack("<8I", h)))


def make(spec, shape, dtype="f8"):
    """Data from a JSON spec: {"k": kind, "s": seed, ["e": exponent]} or an explicit list.
    Complex data gets independent real and imaginary parts."""
    shape = tuple(shape) if not np.isscalar(shape) else (int(shape),)
    if isinstance(spec, list):
        return np.array(spec, dtype=NP[dtype]).reshape(shape)
    k, s = spec["k"], spec.get("s", 0)
    r = rng("data", k, s, list(shape))

    def real():
        n = int(np.prod(shape, dtype=int))
        if k == "normal":
            v = r.standard_normal(n)
        elif k == "ints":
            v = r.integers(-9, 10, n).astype(float)
        elif k == "impulse":
            v = np.zeros(n)
            if n:
                v[s % n] = 1 + s % 3
        elif k == "const":
            v = np.full(n, float(1 + s % 5))
        elif k == "ramp":
            v = np.arange(n, dtype=float) - s % 7
        elif k == "big":
            v = r.standard_normal(n) * 2.0 ** (spec.get("e", 20))
        elif k == "sparse":
            v = r.standard_normal(n) * (r.random(n) < 0.3)
        else:
            raise HarnessError("data kind " + k)
        return v.reshape(shape)
    if dtype in ("c8", "c16"):
        v = real()
        if k == "impulse":
            return (v * (1 - 2j)).astype(NP[dtype])
        w = real()
        return (v + 1j * w).astype(NP[dtype])
    return real().astype(NP[dtype])


def st_data():
    from hypothesis import strategies as st
    return st.one_of(
        st.fixed_dictionaries({"k": st.just("normal"), "s": st.integers(0, 10 ** 6)}),
        st.fixed_dictionaries({"k": st.sampled_from(["ints", "impulse", "const", "ramp", "sparse"]),
                               "s": st.integers(0, 1000)}),
        st.fixed_dictionaries({"k": st.just("big"), "s": st.integers(0, 1000), "e": st.sampled_from([-60, -20, 20, 60])}),
    )


def st_normal():
    from hypothesis import strategies as st
    return st.fixed_dictionaries({"k": st.just("normal"), "s": st.integers(0, 10 ** 6)})


def layout(a, how, seed=0):
    """The same values in another memory layout."""
    a = np.asarray(a)
    if how == "C":
        return np.ascontiguousarray(a)
    if how == "F":
        return np.asfortranarray(a)
    if how == "strided":
        big = np.full(tuple(2 * s + 1 for s in a.shape), 7, a.dtype)
        v = big[tuple(slice(1, 1 + 2 * s, 2) for s in a.shape)]
        v[...] = a
        return v
    if how == "neg":
        v = np.ascontiguousarray(a[tuple(slice(None, None, -1) for _ in a.shape)])
        return v[tuple(slice(None, None, -1) for _ in a.shape)]
    if how == "offset":
        buf = np.empty(a.nbytes + a.itemsize, np.uint8)
        v = buf[a.itemsize // 2:a.itemsize // 2 + a.nbytes].view(a.dtype).reshape(a.shape)   # unaligned
        v[...] = a
        return v
    if how == "readonly":
        v = a.copy()
        v.flags.writeable = False
        return v
    if how == "swapped":
        return a.astype(a.dtype.newbyteorder())
    if how == "list":
        return a.tolist()
    if how == "transposed":
        return np.ascontiguousarray(a.T).T
    if how == "broadcast0" and a.ndim:
        return a
    raise HarnessError("layout " + how)


def close(got, ref, dtype, what, slack=1.0):
    """got: array from pywt; ref: Tracked.  Rigorous elementwise rounding bound."""
    got = np.asarray(got)
    require(got.shape == ref.v.shape, lambda: f"{what}: shape {got.shape}, expected {ref.v.shape}")
    eps = EPS[dtype]
    # the data itself was rounded to dtype by the caller; filters are rounded to the working precision
    tol = (ref.e + 4 * ref.m) * eps * slack + 1e-300 + (1e-37 if dtype in ("f4", "c8") else 0)
    with np.errstate(all="ignore"):
        diff = np.abs(got.astype(np.complex128) - ref.v)
        bad = ~(diff <= tol)
    if bad.any():
        i = tuple(int(x) for x in np.argwhere(bad)[0])
        raise Violation(f"{what}: element {list(i)} is {got[i]!r}, expected {ref.v[i]!r} "
                        f"(difference {diff[i]:.3g}, rounding bound {tol[i]:.3g}; {int(bad.sum())} of {bad.size} differ)")


def same(a, b, what):
    """Bitwise-equal values, shapes and dtypes."""
    a, b = np.asarray(a), np.asarray(b)
    require(a.shape == b.shape, lambda: f"{what}: shape {a.shape} != {b.shape}")
    require(a.dtype == b.dtype, lambda: f"{what}: dtype {a.dtype} != {b.dtype}")
    if not np.array_equal(a, b, equal_nan=a.dtype.kind in "fc"):
        i = tuple(int(x) for x in np.argwhere(~((a == b) | ((a != a) & (b != b))))[0])
        raise Violation(f"{what}: element {list(i)}: {a[i]!r} != {b[i]!r}")


def allclose(a, b, rtol, what, scale=None):
    a, b = np.asarray(a), np.asarray(b)
    require(a.shape == b.shape, lambda: f"{what}: shape {a.shape}, expected {b.shape}")
    if a.size == 0:
        return
    s = scale if scale is not None else max(float(np.max(np.abs(b))), 1e-300)
    with np.errstate(all="ignore"):
        d = np.abs(a - b)
        bad = ~(d <= rtol * s)
    if np.any(bad):
        i = tuple(int(x) for x in np.argwhere(bad)[0])
        raise Violation(f"{what}: element {list(i)} is {a[i]!r}, expected {b[i]!r} (difference {d[i]:.3g}, allowed {rtol * s:.3g})")


def raises(fn, kinds, what):
    """fn must raise one of the ordinary exception kinds."""
    try:
        r = fn()
    except kinds:
        return
    except Exception as e:
        raise Violation(f"{what}: raised {type(e).__name__}({str(e)[:120]}), expected {kinds}")
    raise Violation(f"{what}: accepted, returned {repr(r)[:160]}")


# ------------------------------------------------------------------ evaluation
PYWT_DIR = None          # set by main: directory of the pywt under test


def _from_pywt(tb):
    """Did the exception originate below a frame of the library under test?"""
    names = [f.filename for f in traceback.extract_tb(tb)]
    for n in reversed(names):
        if PYWT_DIR and os.path.abspath(n).startswith(PYWT_DIR):
            return True
        if n.startswith("pywt/_extensions") or "_extensions/_" in n or n.endswith((".pyx",)):
            return True
    return False


def evaluate(lw, case):
    """Returns tags.  Raises Violation, Reject or HarnessError only."""
    with warnings.catch_warnings():
        warnings.simplefilter("ignore")
        try:
            tags = lw.fn(case)
        except (Violation, Reject, HarnessError):
            raise
        except RecursionError as e:
            raise Violation(f"RecursionError: {e}")
        except Exception as e:
            if _from_pywt(e.__traceback__) or getattr(e, "_in_pywt", False):
                raise Violation(f"valid request raised {type(e).__name__}: {str(e)[:300]}")
            if isinstance(e, (OSError, MemoryError, ImportError, NameError)) and not isinstance(e, UnboundLocalError):
                raise HarnessError(f"law {lw.name}, case {json.dumps(case)[:600]}\n{traceback.format_exc()}")
            # the harness never fails on well-formed results: what it got back could not be used
            f = traceback.extract_tb(e.__traceback__)[-1]
            raise Violation(f"a result could not be used: {type(e).__name__}: {str(e)[:200]} (at {os.path.basename(f.filename)}:{f.lineno})",
                            unusable=True)
    return tags if tags is not None else ["any"]


def canon(case):
    return json.dumps(case, sort_keys=True)


def jsonable(x):
    if isinstance(x, dict):
        return {k: jsonable(v) for k, v in x.items()}
    if isinstance(x, (list, tuple)):
        return [jsonable(v) for v in x]
    if isinstance(x, np.generic):
        return x.item()
    return x


# ------------------------------------------------------------------ shrinking of sweep failures
def _candidates(case):
    """Simpler variants of a JSON case (validity is decided by re-running the law)."""
    def variants(v):
        if isinstance(v, bool):
            return [False] if v else []
        if isinstance(v, int):
            c = []
            if v != 0:
                c.append(0)
            for w in (v // 2, v - 2, v - 1):
                if abs(w) < abs(v) and w not in c:
                    c.append(w)
            return c
        if isinstance(v, str):
            simple = {"f4": ["f8"], "c16": ["f8"], "c8": ["f8", "c16"]}
            c = list(simple.get(v, []))
            import ref
            if v in ref.TABLE:
                c += [n for n in ("haar", "db2", "bior2.2") if n != v]
            if v in ref.MODES and v != "zero":
                c += ["zero"]
            return c
        if isinstance(v, list):
            c = [v[:i] + v[i + 1:] for i in range(len(v))]
            for i, x in enumerate(v):
                for y in variants(x):
                    c.append(v[:i] + [y] + v[i + 1:])
            return c
        if isinstance(v, dict):
            return [dict(v, **{k: y}) for k in v for y in variants(v[k])]
        return []
    return variants(case)


def shrink(lw, case, msg, seconds=20):
    t0 = time.time()
    improved = True
    known = KNOWN.get(lw.prop, ())
    while improved and time.time() - t0 < seconds:
        improved = False
        for c in _candidates(case):
            if time.time() - t0 > seconds:
                break
            try:
                evaluate(lw, c)
            except Violation as v:
                if v.finding in known or v.unusable:
                    continue          # an unusable result after shrinking may only mean a malformed case
                case, msg, improved = c, str(v), True
                break
            except BaseException:
                continue
    return case, msg


KNOWN = {}          # property -> set of finding ids listed in known_findings.json


# ------------------------------------------------------------------ workers
class Slot:
    """Shared memory in which a worker announces the case it is about to run."""
    SIZE = 1 << 16

    def __init__(self):
        self.m = mmap.mmap(-1, self.SIZE)

    def put(self, lawname, case):
        b = json.dumps([lawname, case]).encode()
        if len(b) > self.SIZE - 16:
            b = json.dumps([lawname, None]).encode()
        self.m[16:16 + len(b)] = b
        self.m[0:16] = struct.pack("<dQ", time.time(), len(b))

    def done(self):
        self.m[0:16] = struct.pack("<dQ", 0.0, 0)

    def get(self):
        t, n = struct.unpack("<dQ", self.m[0:16])
        if not n:
            return None
        try:
            lawname, case = json.loads(self.m[16:16 + n])
        except ValueError:
            return None
        return t, lawname, case


class Stats:
    def __init__(self):
        self.evaluations = 0
        self.rejected = 0
        self.nontrivial = set()
        self.tags = {}
        self.samples = []
        self.known_hits = {}
        self.failures = []       # (law, case, msg)
        self.harness = []
        self.truncated = []
        self.per_law = {}

    def record(self, lw, case, tags):
        self.evaluations += 1
        self.per_law[lw.name] = self.per_law.get(lw.name, 0) + 1
        if tags:
            h = hashlib.blake2b((lw.name + canon(case)).encode(), digest_size=8).digest()
            self.nontrivial.add(h)
            for t in tags:
                self.tags[t] = self.tags.get(t, 0) + 1
            k = self.per_law[lw.name]
            if k in (3, 40):
                self.samples.append({"law": lw.name, "case": case, "tags": list(tags)})


def _hyp_run(lw, n, seedval, slot, st, deadline):
    import hypothesis
    from hypothesis import HealthCheck, Phase, given, settings
    import hypothesis.internal.conjecture.engine as eng
    eng.MAX_SHRINKING_SECONDS = 30
    last = {}
    known = KNOWN.get(lw.prop, ())

    @hypothesis.seed(seedval)
    @settings(max_examples=n, database=None, deadline=None, phases=(Phase.generate, Phase.shrink),
              suppress_health_check=list(HealthCheck), print_blob=False, report_multiple_bugs=False)
    @given(lw.strategy)
    def t(case):
        if time.time() > deadline and not last:
            if lw.name not in st.truncated:
                st.truncated.append(lw.name)
            return
        case = jsonable(case)
        slot.put(lw.name, case)
        try:
            tags = evaluate(lw, case)
        except Reject:
            st.rejected += 1
            hypothesis.reject()
        except Violation as v:
            if v.finding and v.finding in known:
                st.known_hits[v.finding] = st.known_hits.get(v.finding, 0) + 1
                st.record(lw, case, ["known:" + v.finding])
                return
            st.evaluations += 1
            last["case"], last["msg"] = case, str(v)
            raise
        except HarnessError as e:
            st.harness.append(str(e))
            return
        st.record(lw, case, tags)

    import contextlib
    import io
    try:
        with contextlib.redirect_stdout(io.StringIO()), contextlib.redirect_stderr(io.StringIO()):
            t()
    except Violation:
        st.failures.append((lw.name, last["case"], last["msg"]))
    except BaseException as e:
        if last:       # e.g. a flaky failure: it did fail once
            st.failures.append((lw.name, last["case"], last["msg"] + " [not deterministic]"))
        elif isinstance(e, Exception):
            st.harness.append(f"hypothesis, law {lw.name}: {type(e).__name__}: {e}\n{traceback.format_exc()}")
        else:
            raise


def _own_stderr():
    """Under the sanitizers each process writes its reports to a file of its own."""
    d = os.environ.get("VERIF_SANLOG")
    if d:
        fd = os.open(os.path.join(d, f"err.{os.getpid()}"), os.O_WRONLY | os.O_CREAT | os.O_TRUNC, 0o600)
        os.dup2(fd, 2)
        os.close(fd)


def worker(laws, widx, nworkers, tier, seed, slot, outfile, deadline):
    st = Stats()
    _own_stderr()
    signal.signal(signal.SIGINT, signal.SIG_DFL)
    for lw in laws:
        if lw.sweep is None:
            continue
        nfail = 0
        known = KNOWN.get(lw.prop, ())
        for i, case in enumerate(lw.sweep(tier, seed)):
            if i % nworkers != widx:
                continue
            if time.time() > deadline:
                st.truncated.append(lw.name + "(sweep)")
                break
            case = jsonable(case)
            slot.put(lw.name, case)
            try:
                tags = evaluate(lw, case)
            except Reject:
                st.rejected += 1
                continue
            except Violation as v:
                if v.finding and v.finding in known:
                    st.known_hits[v.finding] = st.known_hits.get(v.finding, 0) + 1
                    st.record(lw, case, ["known:" + v.finding])
                    continue
                st.evaluations += 1
                c, m = shrink(lw, case, str(v)) if lw.shrinkable else (case, str(v))
                st.failures.append((lw.name, c, m))
                nfail += 1
                if nfail >= 2:
                    break
                continue
            except HarnessError as e:
                st.harness.append(str(e))
                if len(st.harness) > 5:
                    break
                continue
            st.record(lw, case, tags)
    for li, lw in enumerate(laws):
        if lw.strategy is None:
            continue
        n = lw.quick if tier == "quick" else lw.thorough
        if callable(lw.strategy) and not hasattr(lw.strategy, "example"):
            lw.strategy = lw.strategy()
        _hyp_run(lw, n, seed * 1000003 + li * 1009 + widx, slot, st, deadline)
    slot.done()
    tmp = outfile + ".tmp"
    with open(tmp, "wb") as f:
        pickle.dump(st, f)
    os.rename(tmp, outfile)


TICK = os.sysconf("SC_CLK_TCK")


def cpu_time(pid):
    """Processor seconds a process has used."""
    try:
        with open(f"/proc/{pid}/stat") as f:
            t = f.read().rpartition(")")[2].split()
        return (int(t[11]) + int(t[12])) / TICK
    except (OSError, ValueError, IndexError):
        return 0.0


class Watch:
    """Tells a hang from a slow machine: the limit counts processor time of the process; waiting (a deadlock, or a machine that has other work) is only
    called a hang after three times as long."""

    def __init__(self):
        self.key = None

    def hung(self, pid, since, limit):
        if self.key != (pid, since):
            self.key, self.base = (pid, since), cpu_time(pid)
        wall = time.time() - since
        return wall > 3 * limit or wall > limit and cpu_time(pid) - self.base > limit


def confirm(lw, case, timeout=120):
    """Runs one case in a fresh process; returns 'ok', 'violation: ..', 'crash: ..' or 'hang'."""
    r, w = os.pipe()
    pid = os.fork()
    if pid == 0:
        os.close(r)
        _own_stderr()
        try:
            for _ in range(3):       # heap damage may need a repetition to show
                evaluate(lw, case)
            res = "ok"
        except Violation as v:
            res = "violation: " + str(v)
        except BaseException as e:
            res = "other: " + str(e)
        os.write(w, res.encode()[:4000])
        os._exit(0)
    os.close(w)
    t0 = time.time()
    watch = Watch()
    while True:
        p, status = os.waitpid(pid, os.WNOHANG)
        if p:
            break
        if watch.hung(pid, t0, timeout):
            os.kill(pid, signal.SIGKILL)
            os.waitpid(pid, 0)
            os.close(r)
            return "hang"
        time.sleep(0.01)
    out = b""
    while True:
        b = os.read(r, 65536)
        if not b:
            break
        out += b
    os.close(r)
    if os.WIFSIGNALED(status):
        return "crash: " + signal.Signals(os.WTERMSIG(status)).name + sanitizer_report(p)
    return out.decode() or "ok"


def sanitizer_report(pid):
    """The gist of what a sanitizer wrote about the process."""
    d = os.environ.get("VERIF_SANLOG")
    if not d:
        return ""
    lines = []
    for n in (f"san.{pid}", f"err.{pid}"):
        try:
            with open(os.path.join(d, n), errors="replace") as f:
                lines += f.read(1 << 20).splitlines()
            os.unlink(os.path.join(d, n))
        except OSError:
            pass
    head = [x.strip() for x in lines if "runtime error" in x or "ERROR: AddressSanitizer" in x][:1]
    frames = [x.strip() for x in lines if "_extensions" in x and x.strip().startswith("#")][:4]
    return " (" + "; ".join(head + frames)[:900] + ")"


def run_workers(laws, tier, seed, budget, scratch, nworkers=8):
    """Forks the workers, watches for crashes and hangs, merges the results."""
    byname = {lw.name: lw for lw in laws}
    deadline = time.time() + budget
    slots = [Slot() for _ in range(nworkers)]
    watches = [Watch() for _ in range(nworkers)]
    files = [os.path.join(scratch, f"w{i}.pkl") for i in range(nworkers)]
    pids = {}
    sys.stdout.flush()
    sys.stderr.flush()

    def spawn(i):
        pid = os.fork()
        if pid == 0:
            code = 0
            try:
                worker(laws, i, nworkers, tier, seed, slots[i], files[i], deadline)
            except BaseException:
                traceback.print_exc()
                code = 3
            sys.stdout.flush()
            sys.stderr.flush()
            os._exit(code)
        pids[i] = pid

    for i in range(nworkers):
        spawn(i)
    total = Stats()
    notes = []
    retried = set()
    while pids:
        time.sleep(0.05)
        for i, pid in list(pids.items()):
            p, status = os.waitpid(pid, os.WNOHANG)
            hung = False
            if not p:
                cur = slots[i].get()
                if cur and watches[i].hung(pid, cur[0], byname[cur[1]].hang):
                    os.kill(pid, signal.SIGKILL)
                    _, status = os.waitpid(pid, 0)
                    hung = True
                else:
                    continue
            del pids[i]
            if os.path.exists(files[i]):
                with open(files[i], "rb") as f:
                    merge(total, pickle.load(f))
                continue
            cur = slots[i].get()
            if hung and any(m == "process hang" for _, _, m in total.failures):
                notes.append(f"worker {i} was stopped in a call that did not return, last case {cur}; one such case is confirmed already")
                continue
            if cur and cur[2] is not None:
                lw = byname[cur[1]]
                res = confirm(lw, cur[2], lw.hang)
                if res.startswith(("crash", "violation")) or res == "hang":
                    c, m = shrink_crash(lw, cur[2], res) if res.startswith("crash") else (cur[2], res)
                    total.failures.append((lw.name, c, "process " + m if not m.startswith("violation") else m))
                    continue
            if os.WIFSIGNALED(status) and not hung and os.WTERMSIG(status) in (
                    signal.SIGSEGV, signal.SIGABRT, signal.SIGBUS, signal.SIGFPE, signal.SIGILL):
                if i in retried:      # same shard died twice: a crash that needs the history of the shard
                    total.failures.append((cur[1] if cur else laws[0].name,
                                           {"__shard__": [i, nworkers, tier, seed]},
                                           f"process crash ({signal.Signals(os.WTERMSIG(status)).name}) while running the shard's cases in order"))
                    continue
            if i in retried:
                total.harness.append(f"worker {i} ended abnormally twice (status {status}), last case {cur}")
                continue
            notes.append(f"worker {i} ended abnormally (status {status}); shard repeated; last case {cur}")
            retried.add(i)
            slots[i].done()
            spawn(i)
    return total, notes


def shrink_crash(lw, case, res, seconds=20):
    t0 = time.time()
    improved = True
    while improved and time.time() - t0 < seconds:
        improved = False
        for c in _candidates(case):
            if time.time() - t0 > seconds:
                break
            r = confirm(lw, c, 20)
            if r.startswith("crash"):
                case, res, improved = c, r, True
                break
    return case, res


def merge(a, b):
    a.evaluations += b.evaluations
    a.rejected += b.rejected
    a.nontrivial |= b.nontrivial
    for d, e in ((a.tags, b.tags), (a.known_hits, b.known_hits), (a.per_law, b.per_law)):
        for k, v in e.items():
            d[k] = d.get(k, 0) + v
    a.samples += b.samples
    a.failures += b.failures
    a.harness += b.harness
    a.truncated += [x for x in b.truncated if x not in a.truncated]


# ------------------------------------------------------------------ sweep helpers
def subsample(cases, n, seed):
    """A seeded, order-preserving subset of at most n cases."""
    cases = list(cases)
    if len(cases) <= n:
        return cases
    r = random.Random(seed)
    idx = sorted(r.sample(range(len(cases)), n))
    return [cases[i] for i in idx]


def product(**kw):
    keys = list(kw)
    for vals in itertools.product(*kw.values()):
        yield dict(zip(keys, vals))
