"""P20: native code stays within its buffers (structure-aware fuzzing of the sanitizer build).

The whole process runs with AddressSanitizer and UndefinedBehaviorSanitizer compiled into the extension modules (harness/build.py, variant
'asan'); every sanitizer report aborts the worker, and the case it was running becomes the counterexample."""
import contextlib
import ctypes
import gc
import importlib
import os

import numpy as np
import pywt
from hypothesis import strategies as st

import build
import core
import gens as g
import ops
import ref
from core import NP, HarnessError, Reject, Violation, law, make, require, same, st_data

RULE = ("case = public call (any transform, helper, object history, malformed call, or the cases of the other checks' laws) run in the sanitizer build; "
        "non-trivial when it reaches native code with at least one array or wavelet object")
ASSUMPTIONS = ["gcc's AddressSanitizer and UndefinedBehaviorSanitizer (no leak checking here) see the C and Cython code of the library; NumPy itself is not instrumented, but its "
               "buffers are allocated by the sanitizer's allocator (red zones around every array)",
               "uninitialised memory is found by comparing runs whose fresh memory (numpy.empty and malloc) is filled with different bytes",
               "value errors found while replaying the other checks' laws are left to those checks"]
OTHERS = ["P01", "P02", "P03", "P04", "P05", "P06", "P07", "P08", "P09", "P10", "P11", "P12", "P13", "P14", "P15", "P16", "P17", "P18", "P19", "P21", "P22", "P23"]

vf = ctypes.CDLL(build.faultlib()) if os.environ.get("VERIF_SANITIZED") else None
BASE = np.empty, np.empty_like
ORDINARY = (ValueError, TypeError, IndexError, KeyError, AttributeError, RuntimeError, MemoryError, OverflowError, ArithmeticError, NotImplementedError, RecursionError, LookupError)


@contextlib.contextmanager
def fresh_memory(fill):
    """fresh memory is filled with the byte"""
    def empty(*a, **k):
        r = BASE[0](*a, **k)
        if r.dtype.kind != "O":
            r.view(np.ndarray).reshape(-1).view(np.uint8)[...] = fill
        return r

    def empty_like(*a, **k):
        r = BASE[1](*a, **k)
        if r.dtype.kind != "O" and r.flags.c_contiguous:
            r.view(np.ndarray).reshape(-1).view(np.uint8)[...] = fill
        elif r.dtype.kind != "O":
            r[...] = np.frombuffer(bytes([fill]) * r.dtype.itemsize, r.dtype)[0]
        return r
    np.empty, np.empty_like = empty, empty_like
    vf.vf_fill(fill)
    try:
        yield
    finally:
        np.empty, np.empty_like = BASE
        vf.vf_fill(0)


LAY = ["C", "C", "F", "neg", "stride2", "step3", "readonly", "swapped", "transposed", "offset", "zerostride", "guard", "list", "unaligned"]


def layout(a, how):
    if how == "neg":
        return np.ascontiguousarray(a[tuple([slice(None, None, -1)] * a.ndim)])[tuple([slice(None, None, -1)] * a.ndim)]
    if how in ("stride2", "step3"):
        k = 2 if how == "stride2" else 3
        b = np.zeros([s * k for s in a.shape], a.dtype)
        v = b[tuple([slice(None, None, k)] * a.ndim)]
        v[...] = a
        return v
    if how == "offset":                 # a view into the middle of a larger buffer, exactly at its end
        b = np.zeros(a.size + 5, a.dtype)
        v = b[5:].reshape(a.shape)
        v[...] = a
        return v
    if how == "unaligned":              # a field of a packed record, say
        b = np.zeros(a.size * a.itemsize + 1, np.uint8)[1:]
        v = b.view(a.dtype).reshape(a.shape)
        v[...] = a
        return v
    if how == "zerostride":
        return np.lib.stride_tricks.as_strided(a.reshape(-1)[:1].copy(), a.shape, (0,) * a.ndim)
    if how == "guard":                  # its own allocation of exactly the right size
        return np.array(a, copy=True, order="C")
    return core.layout(a, how)


@st.composite
def st_call(draw):
    return {"o": draw(ops.st_op()), "dt": draw(st.one_of(g.st_dtype(), st.sampled_from(["i4", "b1", "f2", "g"]))), "lay": draw(st.sampled_from(LAY)),
            "data": draw(st_data()), "reps": draw(st.integers(1, 2))}


@st.composite
def st_tiny(draw):
    """lengths around one, two and the filter length, where indices run past ends"""
    c = draw(st_call())
    o = c["o"]
    if not o["stat"]:
        for a in o["axes"]:
            o["shape"][a] = draw(st.sampled_from([1, 1, 2, 2, 3, 4, 5, 7]))
    return c


def as_data(spec, s, dt, lay):
    if dt in NP:
        x = make(spec, s, dt)
    else:
        x = make(spec, s, "f8")
        with np.errstate(all="ignore"):
            x = np.nan_to_num(x).clip(-100, 100).astype({"i4": "i4", "b1": "?", "f2": "f2", "g": "g"}[dt])
    if lay == "list" and x.dtype.char == "g":
        lay = "C"
    return layout(x, lay)


@law("P20", strategy=lambda: st.one_of(st_call(), st_tiny()), quick=900, thorough=40000)
def every_transform(case):
    o = ops.Op(case["o"])
    xs = []
    for i, s in enumerate(o.shapes):
        spec = dict(case["data"], s=case["data"]["s"] + i) if "s" in case["data"] else case["data"]
        lay = case["lay"]
        if lay == "list" and o.op not in ops.ARRAY_LIKE:
            lay = "C"
        xs.append(as_data(spec, s, case["dt"], lay))
    res = []
    for fill in (0, 0xFF, 0x5A):
        with fresh_memory(fill):
            res.append(o.run(xs))
    for (w, a), (_, b), (_, c) in zip(*res):
        same(b, a, f"{o.op}{w}: the result contains memory that was never written (fresh memory filled with different bytes)")
        same(c, a, f"{o.op}{w}: the result contains memory that was never written (fresh memory filled with different bytes)")
    return o.tags() + ["layout=" + case["lay"], "dtype=" + case["dt"]]


def _sweep(tier, seed):
    """every wavelet x mode x boundary length: the loops of the convolution kernels"""
    c = []
    for i, w in enumerate(sorted(ref.TABLE)):
        F = ref.flen(w)
        for j, m in enumerate(ref.MODES):
            for n in sorted({1, 2, 3, F - 2, F - 1, F, F + 1, 2 * F - 1, 2 * F, 2 * F + 1} - {0, -1}):
                c.append({"w": w, "m": m, "n": n, "dt": core.DTYPES[(i + j + n) % 4]})
    return c if tier != "quick" else core.subsample(c, 3500, seed)


@law("P20", sweep=_sweep)
def every_kernel(case):
    w, m, n, dt = case["w"], case["m"], case["n"], case["dt"]
    if w not in ref.TABLE or m not in ref.MODES or n < g.minlen(m) or dt not in NP or n > 400:
        raise Reject
    x = make({"k": "normal", "s": n}, (n,), dt)
    X = np.ascontiguousarray(np.stack([x, 2 * x], 1))
    W = pywt.Wavelet(w)
    F = W.dec_len
    out = []
    for fill in (0, 0xFF):
        with fresh_memory(fill):
            r = []
            a, d = pywt.dwt(x, W, m)
            r += [a, d]
            if m == "periodization" or 2 * len(a) >= F:
                r += [pywt.idwt(a, d, W, m), pywt.idwt(a, None, W, m), pywt.idwt(None, d, W, m)]
            A, D = pywt.dwt(X, W, m, axis=0)
            r += [A, D]
            if m == "periodization" or 2 * len(a) >= F:
                r += [pywt.idwt(A, D, W, m, axis=0), pywt.idwt(None, D, W, m, axis=0)]
            for k in (1, 2):
                r += [pywt.upcoef("a", x, W, k), pywt.upcoef("d", x, W, k), pywt.upcoef("a", x, W, k, take=n)]
            r.append(pywt.downcoef("d", x, W, m, 1))
            if n % 4 == 0:
                r += [v for p in pywt.swt(x, W, 2) for v in p] + [v for p in pywt.swt(X, W, 2, axis=0) for v in p]
                r += [pywt.iswt(pywt.swt(x, W, 2), W)]
            out.append(r)
    for a, b in zip(*out):
        same(b, a, f"{w} {m} n={n} {dt}: memory that was never written")
    return ["mode=" + m]


@st.composite
def st_objects(draw):
    one = st.tuples(st.sampled_from(["new", "new", "custom", "free", "use", "use", "copy", "pickle", "read", "cont", "wavefun", "tree", "bad", "gc", "set"]),
                    st.integers(0, 200), st.integers(0, 7)).map(list)
    return {"steps": draw(st.lists(one, min_size=3, max_size=25)), "s": draw(st.integers(0, 999))}


@law("P20", strategy=st_objects, quick=250, thorough=12000)
def object_lifetimes(case):
    """wavelet objects and trees created, shared, used, copied and destroyed in any order"""
    import copy
    import pickle
    slots = [None] * 8
    expect = [None] * 8
    names = sorted(ref.TABLE)
    r = np.random.default_rng([7, case["s"]])
    used = []
    for kind, v, k in case["steps"]:
        k %= 8
        o = slots[k]
        used.append("step=" + kind)
        if kind in ("new", "custom"):
            n = names[v % len(names)]
            slots[k] = pywt.Wavelet(n)
            expect[k] = [list(map(float, f)) for f in ref.TABLE[n]["filters"]] if isinstance(ref.TABLE[n], dict) and "filters" in ref.TABLE[n] else [list(f) for f in slots[k].filter_bank]
            if kind == "custom":
                fb = [list(f) for f in slots[k].filter_bank]
                if v % 3 == 0:
                    fb = [f[:1 + v % len(f)] for f in fb]
                slots[k] = pywt.Wavelet("c", fb)
                expect[k] = [list(f) for f in slots[k].filter_bank]
        elif kind == "cont":
            slots[k], expect[k] = pywt.ContinuousWavelet(ops.CWTS[v % len(ops.CWTS)]), None
        elif kind == "free":
            slots[k] = expect[k] = None
            del o
        elif kind == "gc":
            gc.collect()
        elif kind == "bad":
            for f in (lambda: pywt.Wavelet("nope%d" % v), lambda: pywt.Wavelet("x", [[1.0] * (2 + v // 8 + (1 + v % 60) * (j == v % 4)) for j in range(4)]), lambda: pywt.Wavelet("x", [["a"]] * 4),
                      lambda: pywt.Wavelet("x", [[]] * 4), lambda: pywt.ContinuousWavelet("db%d" % v), lambda: pywt.Wavelet("x", [[[1.0]]] * 4),
                      lambda: pywt.ContinuousWavelet("cmor" + "1" * (v % 20)), lambda: pywt.Wavelet(None), lambda: pywt.DiscreteContinuousWavelet("q" * v)):
                try:
                    f()
                except ORDINARY:
                    pass
        elif isinstance(o, pywt.Wavelet):
            if kind == "use":
                n = 1 + v % 24
                X = r.standard_normal((n, 3)).astype(["f8", "f4", "c16", "c8"][v % 4])
                t = pywt.dwt(X, o, ref.MODES[v % 7], axis=0) if n > 1 else None
                if t is not None and 2 * len(t[0]) >= o.rec_len:
                    pywt.idwt(t[0], t[1], o, ref.MODES[v % 7], axis=0)
                pywt.upcoef("ad"[v % 2], X[:, 0].copy(), o, 1 + v % 3)
            elif kind == "copy":
                slots[(k + 1 + v) % 8], expect[(k + 1 + v) % 8] = (copy.copy if v % 2 else copy.deepcopy)(o), expect[k]
            elif kind == "pickle":
                slots[(k + 1 + v) % 8], expect[(k + 1 + v) % 8] = pickle.loads(pickle.dumps(o, v % 6)), expect[k]
            elif kind == "read":
                a = [np.array(f) for f in (o.dec_lo, o.dec_hi, o.rec_lo, o.rec_hi)]
                str(o), repr(o), o.inverse_filter_bank
                require(all(list(p) == list(q) for p, q in zip(a, expect[k])), lambda: f"filters of slot {k} changed: {a} from {expect[k]}")
            elif kind == "wavefun":
                if o.dec_len > 1 and abs(sum(o.rec_lo)) < 10:
                    o.wavefun(1 + v % 4)
            elif kind == "tree":
                slots[(k + 1 + v) % 8], expect[(k + 1 + v) % 8] = pywt.WaveletPacket(r.standard_normal(3 + v % 14), o, "symmetric", 2)["ad" if v % 2 else "d"], None
            elif kind == "set":
                o.orthogonal = bool(v % 2)
                o.biorthogonal = bool(v % 3)
        elif isinstance(o, pywt.ContinuousWavelet):
            if kind in ("use", "wavefun", "read"):
                str(o), repr(o)
                o.wavefun(1 + v % 6)
                o.wavefun(length=1 + v)
            elif kind in ("copy", "pickle"):
                slots[(k + 1 + v) % 8], expect[(k + 1 + v) % 8] = pickle.loads(pickle.dumps(o)) if kind == "pickle" else copy.deepcopy(o), None
            elif kind == "set":
                o.center_frequency = .5 + v % 3
                o.upper_bound = 1 + v % 9
        elif o is not None:
            if kind in ("use", "read", "tree"):
                o.data, o.reconstruct(update=bool(v % 2))
    return used


MISCS = None


@st.composite
def st_misc(draw):
    import check_P18
    return {"name": draw(st.sampled_from([m for m in check_P18.MISC if m not in ("data",)])), "s": draw(st.integers(0, 400))}


@law("P20", strategy=st_misc, quick=200, thorough=8000)
def every_helper(case):
    import check_P18
    res = []
    for fill in (0, 0xFF):
        with fresh_memory(fill):
            res.append(check_P18.snap(check_P18.Call({"misc": case["name"], "s": case["s"]}).run()[1]))
    d = check_P18.diff(*res)
    require(d is None, lambda: f"{case['name']}: the result depends on the content of fresh memory {d}")
    return ["call=" + case["name"]]


def _wrap(lw):
    def fn(case):
        try:
            tags = lw.fn(case)
        except (Reject, HarnessError):
            raise
        except Exception:          # a wrong value or exception is that check's business
            return ["raised"]
        return ["law=" + lw.name] if tags else []
    fn.__name__ = f"{lw.prop}_{lw.name}"
    return fn


def _borrow():
    """the cases of the other checks, run for what the sanitizers say"""
    for p in OTHERS:
        n = len(core.REGISTRY)
        importlib.import_module("check_" + p)
        for lw in core.REGISTRY[n:]:
            if lw.name == "through_another_process":
                continue                # its work happens in a process of its own, which P22 starts without sanitizers
            sweep = None
            if lw.sweep is not None:
                sweep = (lambda lw: lambda tier, seed: core.subsample(lw.sweep(tier, seed), 160 if tier == "quick" else 2500, seed + 17))(lw)
            f = _wrap(lw)
            core.law("P20", sweep=sweep, strategy=lw.strategy, quick=max(3, lw.quick // 25), thorough=max(20, lw.thorough // 25), hang=120)(f)


if vf is not None:
    vf.vf_arm.argtypes = [ctypes.c_long, ctypes.c_long]
    for _f in ("vf_calls", "vf_live", "vf_failed"):
        getattr(vf, _f).restype = ctypes.c_long
    _borrow()
