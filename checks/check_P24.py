"""P24: native memory is given back, and running out of it is an ordinary error."""
import ctypes
import gc
import os
import pickle

import numpy as np
import pywt
from hypothesis import strategies as st

import build
import check_P20
import gens as g
import ops
import ref
from core import NP, Reject, law, require, same

RULE = ("case = public call x position of the native allocation that fails (every position of short calls) / call repeated in rounds; non-trivial when the call allocates native memory")
ASSUMPTIONS = ["native allocations are those made by the C and Cython files of the library (malloc, calloc, realloc), counted and failed by macros in the sanitizer build; "
               "allocations of NumPy and of the interpreter are not made to fail",
               "leaks are judged by the balance of these allocations and by the growth of all memory held by the process over rounds of equal calls"]
vf = check_P20.vf
ORD = check_P20.ORDINARY
_asan = ctypes.CDLL(None)


def held():
    gc.collect()
    return _asan.__sanitizer_get_current_allocated_bytes()


if vf is not None:
    _asan.__sanitizer_get_current_allocated_bytes.restype = ctypes.c_size_t


# ------------------------------------------------------------------ calls
def _objects(name, s):
    """calls about objects: (function returning something comparable)"""
    names = sorted(ref.TABLE)
    n = names[s % len(names)]
    x = np.random.default_rng([8, s]).standard_normal(4 + s % 13)
    fb = [list(f) for f in pywt.Wavelet(n).filter_bank]
    T = {
        "wavelet": lambda: [list(f) for f in pywt.Wavelet(n).filter_bank],
        "custom": lambda: [list(f) for f in pywt.Wavelet("c", fb).filter_bank],
        "custom_odd": lambda: [list(f) for f in pywt.Wavelet("c", [f[:1 + s % len(f)] for f in fb]).filter_bank],
        "cont": lambda: str(pywt.ContinuousWavelet(ops.CWTS[s % len(ops.CWTS)])),
        "cont_fun": lambda: [v.tolist() for v in pywt.ContinuousWavelet(ops.CWTS[s % len(ops.CWTS)]).wavefun(length=5 + s % 9)],
        "wavefun": lambda: [np.asarray(v).tolist() for v in pywt.Wavelet(n).wavefun(1 + s % 3)],
        "pickle": lambda: [list(f) for f in pickle.loads(pickle.dumps(pywt.Wavelet("c", fb))).filter_bank],
        "named": lambda: [v.tolist() for v in pywt.dwt(x, n)],
        "named_c": lambda: pywt.cwt(x, [1, 3], ops.CWTS[s % len(ops.CWTS)])[0].tolist(),
        "tree": lambda: [k.data.tolist() for k in pywt.WaveletPacket(x, n, maxlevel=2).get_leaf_nodes(True)],
        "downcoef": lambda: pywt.downcoef("d", x, n, level=1).tolist(),
        "upcoef": lambda: pywt.upcoef("a", x, n, 1 + s % 3).tolist(),
        "bad": lambda: _bad(s, x, fb),
    }
    if name not in T:
        raise Reject
    return T[name]


def _bad(s, x, fb):
    F = [lambda: pywt.Wavelet("nope"), lambda: pywt.Wavelet("c", [fb[0], fb[0][:-1], fb[0], fb[0]]), lambda: pywt.Wavelet("c", [["a"]] * 4), lambda: pywt.ContinuousWavelet("zz"),
         lambda: pywt.dwt(x, "db2", "reflect") if len(x) < 2 else pywt.dwt(x[:1], "db2", "reflect"), lambda: pywt.idwt(x[:1], x[:1], "db9", "zero"),
         lambda: pywt.dwt(np.ones((1, 3)), "db2", "antireflect", axis=0), lambda: pywt.swt(np.ones(6), "db2", 3), lambda: pywt.swt(np.ones((6, 2)), "db2", 2, axis=0),
         lambda: pywt.idwt(np.ones((1, 3)), None, "db9", "zero", axis=0), lambda: pywt.downcoef("a", x, "db2", "zero", 40), lambda: pywt.upcoef("a", x, "db2", 0),
         lambda: pywt.upcoef("a", x, "db2", 1, take=10 ** 6), lambda: pywt.Wavelet("c", [1, 2, 3, 4])]
    try:
        F[s % len(F)]()
        return "done"
    except ORD:
        return "done"


OBJ = ["wavelet", "custom", "custom_odd", "cont", "cont_fun", "wavefun", "pickle", "named", "named_c", "tree", "downcoef", "upcoef", "bad"]


@st.composite
def st_call(draw):
    k = draw(st.integers(0, 3))
    if k == 0:
        c = {"obj": draw(st.sampled_from(OBJ)), "s": draw(st.integers(0, 500))}
    else:
        c = {"o": draw(ops.st_op()), "dt": draw(g.st_dtype()), "s": draw(st.integers(0, 999)), "lay": draw(st.sampled_from(["C", "C", "F", "neg", "stride2", "unaligned", "readonly"]))}
    return c


_frozen = []


def function(c):
    if os.getpid() not in _frozen:          # makes garbage collections cheap
        gc.collect()
        gc.freeze()
        _frozen.append(os.getpid())
    if "obj" in c:
        f = _objects(c["obj"], c["s"])
        return lambda: [(c["obj"], f())], c["obj"]
    o = ops.Op(c["o"])
    xs = [check_P20.as_data({"k": "normal", "s": c["s"] + i}, s, c["dt"], c["lay"]) for i, s in enumerate(o.shapes)]
    return lambda: o.run(xs), o.op


def equal(a, b, what):
    require(len(a) == len(b), lambda: f"{what}: other structure")
    for (w, p), (_, q) in zip(a, b):
        if isinstance(p, np.ndarray):
            same(q, p, f"{what}{w}")
        else:
            require(p == q, lambda: f"{what}: {str(q)[:200]} instead of {str(p)[:200]}")


@st.composite
def st_fault(draw):
    return dict(draw(st_call()), at=draw(st.one_of(st.none(), st.integers(0, 400))), many=draw(st.sampled_from([1, 1, 2, 3, 100000])))


@law("P24", strategy=st_fault, quick=450, thorough=20000, hang=120)
def failed_allocations_are_reported(case):
    f, name = function(case)
    if case["many"] < 1 or case["at"] is not None and case["at"] < 0:
        raise Reject
    f()
    vf.vf_arm(-1, 0)
    live = vf.vf_live()
    good = f()
    n = vf.vf_calls()
    if not n:
        return []
    at = range(min(n, 24)) if case["at"] is None else [case["at"] % n]
    how = set()
    for k in at:
        gc.collect()
        before = vf.vf_live()
        vf.vf_arm(k, case["many"])
        err = r = None
        try:
            r = f()
        except ORD as e:
            err = type(e).__name__
            e.__traceback__ = None
            del e
        finally:
            failed = vf.vf_failed()
            vf.vf_arm(-1, 0)
        if err is None and failed:
            # going on is fine if the result is right all the same
            equal(good, r, f"{name}, with allocation {k} of {n} failing ({case['many']} in a row), returned: ")
            how.add("survived")
        elif err:
            how.add(err)
        r = None
        gc.collect()
        after = vf.vf_live()
        require(after <= before, lambda: f"{name}: failing native allocation {k} of {n} ({case['many']} in a row) leaks {after - before} blocks")
        equal(good, f(), f"{name}, after an earlier call ran out of memory at allocation {k} of {n}: ")
    return ["call=" + name] + sorted("answer=" + h for h in how)


@law("P24", strategy=st_call, quick=120, thorough=5000, hang=120)
def no_leaks(case):
    f, name = function(case)
    for _ in range(3):
        f()
    gc.collect()
    live = vf.vf_live()
    base = None
    marks = []
    for _ in range(4):
        for _ in range(8):
            f()
        marks.append(held())
    gc.collect()
    require(vf.vf_live() <= live, lambda: f"{name}: 32 equal calls leave {vf.vf_live() - live} native blocks allocated")
    grow = [b - a for a, b in zip(marks, marks[1:])]
    if all(d >= 8 * 24 for d in grow):
        more = []
        for _ in range(6):
            for _ in range(8):
                f()
            more.append(held())
        grow2 = [b - a for a, b in zip(more, more[1:])]
        require(not all(d >= 8 * 24 for d in grow2), lambda: f"{name}: every 8 equal calls hold {grow2} more bytes")
    return ["call=" + name]
