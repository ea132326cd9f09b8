"""P13: the CWT equals its documented sampled-integral definition, scale by scale, for both methods."""
import math

import numpy as np
import pywt
from hypothesis import strategies as st

import gens as g
from core import EPS, NP, Reject, Violation, law, layout, make, require, st_data, st_normal
from check_P12 import construct, st_cont

RULE = ("case = continuous wavelet with generated parameters / support / precision x list of scales (unsorted, repeated, integer or real) x "
        "data shape x axis x dtype x method; non-trivial when the data are not identically zero and some scale uses >= 3 taps")
ASSUMPTIONS = ["taps: integral sampled at floor(k / (scale*step)), k = 0, 1, ..; a quotient within 1e-9 (1e-4 in single precision) of an integer may fall to "
               "either side, which widens the tolerance by the difference of the two samples",
               "scales for which scale*support is within 1e-9 of an integer without being one exactly are left out (number of taps is a rounding matter)"]


def integral(w):
    psi, x = w.wavefun(10)
    step = float(x[1]) - float(x[0])
    e = (EPS["f4"] if psi.dtype in (np.float32, np.complex64) else EPS["f8"])
    v = np.cumsum(psi.astype(np.complex128)) * step
    err = 1100 * e * np.abs(psi).astype(float).sum() * step
    return (np.conj(v) if w.complex_cwt else v), x, err


def taps(iv, x, scale, f4):
    """(values, per-tap uncertainty), not reversed"""
    xx = x.astype(np.float32 if f4 else np.float64).astype(float)
    R, step = xx[-1] - xx[0], xx[1] - xx[0]
    p = scale * R
    if p != round(p) and abs(p - round(p)) < 1e-9 * max(1, p):
        raise Reject
    if f4 and scale != int(scale) and abs(p - round(p)) < 1e-4 * max(1, p):
        raise Reject
    q = np.arange(math.ceil(p + 1)) / (scale * step)
    near = (1e-4 if f4 or x.dtype == np.float32 else 1e-9) * np.maximum(1, q)
    j = np.floor(q).astype(int)
    n = len(iv)
    keep = j < n
    # the number of taps must be unambiguous
    for k in np.flatnonzero(np.abs(q - n) <= near):
        raise Reject
    alt = np.where(q - j <= near, j - 1, np.where(j + 1 - q <= near, j + 1, j))
    j, alt = j[keep], np.clip(alt[keep], 0, n - 1)
    return iv[j], np.abs(iv[alt] - iv[j])


def reference(data, iv, x, err, scale, f4):
    """rows of the definition for 2-D data (lines x N): value and tolerance pieces"""
    h, u = taps(iv, x, scale, f4)
    M, N = len(h), data.shape[1]
    if M < 2:
        return None
    h, u = h[::-1], u[::-1]
    d = (M - 2) / 2
    lo = math.floor(d)
    V, A, U = [], [], []
    for row in data:
        c = np.convolve(row, h)
        a = np.convolve(np.abs(row), np.abs(h))
        uu = np.convolve(np.abs(row), u + err)
        V.append((-np.sqrt(scale) * np.diff(c))[lo:lo + N])
        A.append((np.sqrt(scale) * (a[1:] + a[:-1]))[lo:lo + N])
        U.append((np.sqrt(scale) * (uu[1:] + uu[:-1]))[lo:lo + N])
    return np.array(V), np.array(A), np.array(U), M


@st.composite
def st_cwt(draw):
    c = draw(st_cont())
    c["dt"] = "f8" if draw(st.integers(0, 3)) else "f4"
    if draw(st.integers(0, 2)):
        c["lo"] = c["hi"] = None
    c["B"], c["C"] = min(c["B"], 6), min(c["C"], 6)
    nd = draw(st.integers(1, 3))
    shape = [draw(st.integers(1, 4)) for _ in range(nd)]
    ax = draw(st.integers(0, nd - 1))
    shape[ax] = draw(st.one_of(st.integers(1, 12), st.integers(1, 90), st.sampled_from([1, 2, 16, 17, 64, 65])))
    c["shape"], c["axis"] = shape, ax - nd if draw(st.booleans()) else ax
    sc = st.one_of(st.integers(1, 30), st.integers(1, 12), st.floats(0.3, 30).map(lambda v: round(v, 3)), st.integers(1, 30), st.integers(30, 800))
    c["scales"] = draw(st.lists(sc, min_size=1, max_size=5))
    c["sform"] = draw(st.sampled_from(["list", "array", "scalar", "tuple"]))
    c["data"] = draw(st.one_of(st_normal(), st_data()))
    c["ddt"] = draw(g.st_dtype())
    c["lay"] = draw(st.sampled_from(g.LAYOUTS))
    c["method"] = draw(st.sampled_from(["conv", "fft", "both"]))
    c["period"] = draw(st.sampled_from([None, 1, 0.5, 3, 1e-3]))
    c["byname"] = draw(st.booleans())
    return c


@law("P13", strategy=lambda: st_cwt(), quick=350, thorough=8000)
def cwt_definition(case):
    w, name, *_ = construct(case)
    shape, axis, scales, ddt = case["shape"], case["axis"], list(case["scales"]), case["ddt"]
    nd = len(shape)
    if not 1 <= nd <= 4 or not -nd <= axis < nd or min(shape) < 1 or not scales or min(scales) <= 0 or max(scales) > 1000:
        raise Reject
    if case["sform"] == "scalar":
        scales = scales[:1]
    arg = {"list": list(scales), "tuple": tuple(scales), "array": np.array(scales), "scalar": scales[0]}[case["sform"]]
    wav = name if case["byname"] and not case["setattr"] and case["lo"] is None and case["hi"] is None and case["dt"] == "f8" else w
    x = make(case["data"], shape, ddt)
    f4 = ddt in ("f4", "c8")
    eps = EPS[ddt]
    iv, grid, err = integral(w)
    lines = np.moveaxis(x, axis, -1)
    lshape = lines.shape
    lines = lines.reshape(-1, shape[axis]).astype(np.complex128)
    refs = [reference(lines, iv, grid, err, float(s), f4) for s in scales]
    kw = {} if case["period"] is None else {"sampling_period": case["period"]}
    if case["axis"] != -1 or nd > 1:
        kw["axis"] = axis
    methods = ["conv", "fft"] if case["method"] == "both" else [case["method"]]
    what = f"cwt(shape {shape}, {scales}, {name}, axis={axis}, {ddt}"
    cplx = w.complex_cwt or ddt[0] == "c"
    want_dt = {(0, 0): np.float64, (0, 1): np.float32, (1, 0): np.complex128, (1, 1): np.complex64}[int(cplx), int(f4)]
    res = {}
    for m in methods:
        k2 = dict(kw) if m == "conv" and case["byname"] else dict(kw, method=m)
        if any(r is None for r in refs):
            try:
                pywt.cwt(layout(x, case["lay"]), arg, wav, **k2)
            except ValueError:
                continue
            raise Violation(f"{what}, {m}): a scale with a single tap was accepted")
        coef, freq = pywt.cwt(layout(x, case["lay"]), arg, wav, **k2)
        res[m] = coef
        require(isinstance(coef, np.ndarray) and coef.shape == (len(scales),) + tuple(shape), lambda: f"{what}, {m}): shape {np.shape(coef)}")
        require(coef.dtype == want_dt, lambda: f"{what}, {m}): dtype {coef.dtype}, expected {np.dtype(want_dt)}")
        for i, (s, (V, A, U, M)) in enumerate(zip(scales, refs)):
            got = np.moveaxis(coef[i], axis, -1).reshape(lines.shape)
            N = shape[axis]
            if m == "conv":
                tol = (min(M, N) + 12) * eps * A + 2 * U
            else:
                h = taps(iv, grid, float(s), f4)[0]
                nrm = np.sqrt((np.abs(lines) ** 2).sum(1) * (np.abs(h) ** 2).sum())
                tol = 24 * eps * (np.log2(M + N) + 2) * np.sqrt(s) * nrm[:, None] + 2 * U + 4 * eps * A
            if not cplx:
                V = V.real
            bad = ~(np.abs(got - V) <= tol + 1e-300 + (1e-36 if f4 else 0))
            if bad.any():
                r, c = (int(v) for v in np.argwhere(bad)[0])
                raise Violation(f"{what}, {m}): scale number {i} ({s}), line {r}, position {c}: {got[r, c]}, definition {V[r, c]} (bound {tol[r, c]:.3g})")
        cf = pywt.central_frequency(w, 10)
        require(freq.shape == (len(scales),) and np.allclose(freq, cf / np.array(scales, float) / (case["period"] or 1), rtol=1e-12, atol=0),
                lambda: f"{what}, {m}): frequencies {freq}")
    if not res or not x.any() or max(r[3] for r in refs) < 3:
        return []
    return [case["fam"], f"{nd}-D", "dt=" + ddt, "method=" + case["method"], "modified support" if case["lo"] is not None or case["hi"] is not None else "default support",
            "integer scales" if all(s == int(s) for s in scales) else "real scales"]


# ------------------------------------------------------------------ every named wavelet
def sweep_names(tier, seed):
    names = pywt.wavelist(kind="continuous")
    for n in names:
        for N in ((1, 2, 9, 32, 75) if tier == "quick" else range(1, 80, 3)):
            yield {"w": n, "n": N, "scales": [3, 1, 2.5, 17, 3, 40] + ([170, 700] if N == 9 else []), "data": {"k": "normal", "s": seed}}


PAR = {"shan": ("shan", 1, 0.5, 1.0), "fbsp": ("fbsp", 2, 1.0, 0.5), "cmor": ("cmor", 1, 1.0, 0.5)}


@law("P13", sweep=sweep_names)
def every_named_wavelet(case):
    n = case["w"]
    if n not in pywt.wavelist(kind="continuous") or case["n"] < 1 or not case["scales"] or min(case["scales"]) < 1:
        raise Reject
    w = pywt.ContinuousWavelet(n)
    iv, grid, err = integral(w)
    for ddt in ("f8", "f4", "c16"):
        x = make(case["data"], case["n"], ddt)
        f4 = ddt == "f4"
        both = {}
        for m in ("conv", "fft"):
            coef, _ = pywt.cwt(x, case["scales"], n, method=m)
            both[m] = coef
            for i, s in enumerate(case["scales"]):
                V, A, U, M = reference(x.astype(np.complex128)[None], iv, grid, err, float(s), f4)
                one = pywt.cwt(x, s, n, method=m)[0][0]
                tol = 40 * EPS[ddt] * (np.log2(M + case["n"]) + min(M, case["n"])) * max(float(A.max()), 1e-30) + 2 * U[0]
                for got, nm in ((coef[i], "among others"), (one, "alone")):
                    require(np.all(np.abs(got - (V[0] if coef.dtype.kind == "c" else V[0].real)) <= tol), lambda: f"cwt of length {case['n']}, {n}, scale {s} {nm}, {m}, {ddt}")
    return ["w=" + n[:4]] if x.any() else []


# ------------------------------------------------------------------ long signals, many rows
@st.composite
def st_large(draw):
    c = draw(st_cwt())
    nd = draw(st.sampled_from([1, 1, 2]))
    n = draw(st.one_of(st.integers(90, 700), st.integers(700, 3000), st.sampled_from([127, 128, 129, 255, 256, 257, 511, 512, 513, 1000, 1023, 1024, 1025, 2048])))
    ax = draw(st.integers(0, nd - 1))
    c["shape"] = [n if i == ax else draw(st.integers(1, 20)) for i in range(nd)]
    if nd == 2:
        c["shape"][ax] = min(n, 400)
    c["axis"] = ax - nd if draw(st.booleans()) else ax
    c["data"] = {"k": "normal", "s": draw(st.integers(0, 999))}
    c["scales"] = [s if s < 60 else s % 60 + 1 for s in c["scales"]]
    if draw(st.integers(0, 3)) == 0:
        c["scales"] = [1 + 0.25 * i for i in range(draw(st.integers(20, 70)))]
    return c


@law("P13", strategy=lambda: st_large(), quick=36, thorough=800)
def long_signals(case):
    if np.prod(case["shape"]) > 20000 or len(case["scales"]) > 100:
        raise Reject
    return cwt_definition.fn(case) if hasattr(cwt_definition, "fn") else cwt_definition(case)
