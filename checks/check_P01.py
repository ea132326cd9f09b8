"""P01: the single-level DWT is extension + filtering + decimation (reference model, all modes/wavelets/dtypes/layouts)."""
import numpy as np
import pywt
from hypothesis import strategies as st

import fast
import gens as g
import ref
from core import (DTYPES, NP, Reject, Violation, close, law, layout, make, require, st_data)

RULE = ("case = wavelet x mode x shape x axis x dtype x layout x data recipe; non-trivial when the input is not "
        "identically zero; tags record which boundary regime was hit (N<F, N odd, N=1, n-D, custom bank)")
ASSUMPTIONS = ["published filter values are those in data/filters.json (cross-checked by P11 against their defining equations)",
               "rounding bound: (filter length + extension operations) * eps * sum |h||x| per output sample"]


def check_pair(x, w, mode, axis, dt, cA, cD, what):
    a, d = ref.dwt1(ref.Tracked(x.astype(np.complex128 if dt[0] == "c" else np.float64)), w, mode, axis)
    for c, r, n in ((cA, a, "cA"), (cD, d, "cD")):
        require(isinstance(c, np.ndarray), lambda: f"{what}: {n} is {type(c)}")
        require(c.dtype == NP[dt], lambda: f"{what}: {n} has dtype {c.dtype}, expected {NP[dt].__name__}")
        close(c, r, dt, f"{what} {n}")


def tags_of(n, F, mode, extra=()):
    t = ["mode=" + mode, "N<F" if n < F else "N>=F", "odd" if n % 2 else "even"]
    if n == 1:
        t.append("N=1")
    if n < F // 2:
        t.append("N<F/2")
    return t + list(extra)


def sweep1(tier, seed):
    for w in ref.DISCRETE:
        F = ref.flen(w)
        ns = g.sweep_lengths(F) if tier == "quick" else sorted(set(g.sweep_lengths(F)) | set(range(1, 2 * F + 4)))
        for n in ns:
            for mode in ref.MODES:
                yield {"w": w, "mode": mode, "n": n, "dts": DTYPES, "data": {"k": "normal", "s": seed}}


@law("P01", sweep=sweep1)
def dwt_1d_every_wavelet(case):
    w, mode, n = case["w"], case["mode"], case["n"]
    if n < g.minlen(mode):
        raise Reject
    for dt in case["dts"]:
        x = make(case["data"], n, dt)
        cA, cD = pywt.dwt(x, w, mode)
        check_pair(x, w, mode, 0, dt, cA, cD, f"dwt({w},{mode},N={n},{dt})")
    return tags_of(n, ref.flen(w), mode) if case["dts"] else []


@st.composite
def st_nd(draw):
    w = draw(g.st_wavelet())
    mode = draw(g.st_mode())
    nd = draw(st.integers(1, 4))
    axis = draw(st.integers(0, nd - 1))
    n = draw(g.st_len(ref.flen(w), g.minlen(mode)))
    shape = [draw(st.integers(1, 4)) for _ in range(nd)]
    shape[axis] = n
    return {"w": w, "mode": mode, "shape": shape, "axis": axis - nd if draw(st.booleans()) else axis,
            "dt": draw(g.st_dtype()), "lay": draw(st.sampled_from(g.LAYOUTS)),
            "wf": draw(st.sampled_from(["name", "obj", "upper"])), "mf": draw(st.sampled_from(["str", "enum"])),
            "data": draw(st_data())}


@law("P01", strategy=st_nd, quick=700, thorough=20000)
def dwt_any_axis(case):
    w, mode, shape, axis, dt = case["w"], case["mode"], case["shape"], case["axis"], case["dt"]
    if shape[axis] < g.minlen(mode):
        raise Reject
    x = make(case["data"], shape, dt)
    xin = layout(x, case["lay"])
    cA, cD = pywt.dwt(xin, g.warg(w, case["wf"]), g.marg(mode, case["mf"]), axis=axis)
    check_pair(x, w, mode, axis, dt, cA, cD, f"dwt({w},{mode},shape={shape},axis={axis},{dt},{case['lay']})")
    if not x.any():
        return []
    extra = [f"{len(shape)}-D", "lay=" + case["lay"], "dt=" + dt] + ([] if isinstance(w, str) else ["custom"])
    return tags_of(shape[axis], ref.flen(w), mode, extra)


@st.composite
def st_long(draw):
    w = draw(st.sampled_from(ref.DISCRETE))
    return {"w": w, "mode": draw(g.st_mode()), "n": draw(st.integers(100, 420)), "dt": draw(g.st_dtype()),
            "data": draw(st_data())}


@law("P01", strategy=st_long, quick=60, thorough=1500)
def dwt_long_signals(case):
    w, mode, n, dt = case["w"], case["mode"], case["n"], case["dt"]
    if n < g.minlen(mode):
        raise Reject
    x = make(case["data"], n, dt)
    cA, cD = pywt.dwt(x, w, mode)
    check_pair(x, w, mode, 0, dt, cA, cD, f"dwt({w},{mode},N={n},{dt})")
    return tags_of(n, ref.flen(w), mode, ["long"]) if x.any() else []


@st.composite
def st_explicit(draw):
    w = draw(g.st_wavelet())
    mode = draw(g.st_mode())
    x = draw(st.lists(st.integers(-20, 20), min_size=g.minlen(mode), max_size=24))
    return {"w": w, "mode": mode, "x": x}


@law("P01", strategy=st_explicit, quick=250, thorough=8000)
def dwt_explicit_integers(case):
    """Small integer signals given as plain lists (shrinks to a readable minimal signal)."""
    w, mode, x = case["w"], case["mode"], case["x"]
    if len(x) < g.minlen(mode):
        raise Reject
    cA, cD = pywt.dwt(x, g.wav(w), mode)
    check_pair(np.array(x, float), w, mode, 0, "f8", cA, cD, f"dwt({x},{w},{mode})")
    return tags_of(len(x), ref.flen(w), mode, ["list"]) if any(x) else []


# --------------------------------------------------------------- literal extension of the signal, documented drawings
@st.composite
def st_ext(draw):
    mode = draw(st.sampled_from([m for m in ref.MODES if m != "periodization"]))
    return {"mode": mode, "n": draw(st.integers(g.minlen(mode), 12)), "half": draw(st.integers(1, 20)), "pos": draw(st.integers(0, 39)),
            "s": draw(st.integers(0, 1000))}


@law("P01", strategy=st_ext, quick=150, thorough=4000)
def impulse_filter_reads_the_extension(case):
    """A custom bank whose low-pass filter is one unit tap makes the DWT return samples of the extended signal itself:
    compare them with numpy's own padding for the modes numpy documents as equivalent, and with closed forms otherwise."""
    mode, n, F = case["mode"], case["n"], 2 * case["half"]
    pos = case["pos"] % F
    if n < g.minlen(mode):
        raise Reject
    tap = [0.0] * F
    tap[pos] = 1.0
    w = pywt.Wavelet("tap", filter_bank=[tap, tap, tap, tap])
    x = np.random.default_rng(case["s"]).integers(-9, 10, n).astype(float)
    cA, cD = pywt.dwt(x, w, mode)
    P = F + n
    npm = {"zero": dict(mode="constant"), "constant": dict(mode="edge"), "symmetric": dict(mode="symmetric"),
           "periodic": dict(mode="wrap"), "reflect": dict(mode="reflect"),
           "antireflect": dict(mode="reflect", reflect_type="odd")}
    if mode in npm:
        e = np.pad(x, P, **npm[mode])
    elif mode == "antisymmetric":
        e = np.pad(x, P, mode="symmetric")
        seg = (np.arange(-P, n + P) // n) % 2
        e = np.where(seg == 1, -e, e)
    else:
        i = np.arange(-P, n + P)
        if n == 1:
            e = np.full(len(i), x[0])
        else:
            e = np.where(i < 0, x[0] + i * (x[1] - x[0]), np.where(i >= n, x[-1] + (i - n + 1) * (x[-1] - x[-2]),
                                                                   x[np.clip(i, 0, n - 1)]))
    want = e[P + 1 + 2 * np.arange((n + F - 1) // 2) - pos]
    for c in (cA, cD):
        require(len(c) == len(want), f"length {len(c)} != {len(want)}")
        require(np.array_equal(c, want), lambda: f"extension read through a unit tap: {c.tolist()} != {want.tolist()}")
    return ["ext-" + mode, "beyond-one-period" if F > n else "within-one-period"] if x.any() else []


# ------------------------------------------------------------------ large arrays
@st.composite
def st_large(draw):
    nd = draw(st.integers(1, 3))
    return {"w": draw(g.st_wavelet()), "mode": draw(g.st_mode()), "shape": fast.shape_of(draw, st, nd, 70000), "axis": draw(st.integers(-nd, nd - 1)), "dt": draw(g.st_dtype()),
            "order": draw(st.sampled_from("CF")), "s": draw(st.integers(0, 10 ** 6))}


@law("P01", strategy=lambda: st_large(), quick=75, thorough=1200)
def dwt_of_large_arrays(case):
    w, mode, shape, axis, dt = (case[k] for k in ("w", "mode", "shape", "axis", "dt"))
    if not 1 <= len(shape) <= 3 or not -len(shape) <= axis < len(shape) or min(shape) < 1 or np.prod(shape) > 10 ** 6 or shape[axis] < g.minlen(mode):
        raise Reject
    x = fast.noise(shape, dt, case["s"], case["order"])
    got = pywt.dwt(x, g.wav(w), mode, axis)
    for a, b, n in zip(got, fast.dwt(x, w, mode, axis), "AD"):
        fast.close(a, b, dt, fast.top(x, b), f"c{n} of dwt(shape {shape}, {w}, {mode}, axis={axis}, {dt})", require)
        require(a.dtype == NP[dt], f"dtype {a.dtype} of {dt} data")
    return ["mode=" + mode, f"{len(shape)}-D", "longest>=%d" % (10 ** int(np.log10(max(shape))))]
