"""P02: the inverse transforms are the documented synthesis and undo the forward transforms."""
import numpy as np
import pywt
from hypothesis import strategies as st

import fast
import gens as g
import ref
from core import DTYPES, NP, Reject, close, law, layout, make, require, st_data

RULE = ("case = wavelet x mode x length/shape x axis x level x dtype x data recipe (coefficients drawn independently of any "
        "forward transform, or taken from one); non-trivial when the coefficients / the signal are not identically zero")
ASSUMPTIONS = ["filters are the snapshot in data/filters.json (checked by P11)",
               "dmey is a truncated filter: its round trip is exact only to its published accuracy (about 1e-2)"]


def pr_tol(w, mode, N):
    """Reconstruction defect of the published filters themselves (0 for exact ones), per unit of max |x|."""
    d = ref.pr_defect(w, mode, N)
    return 4 * d * N


def check_back(y, x, refback, w, mode, N, axis, dt, what):
    require(isinstance(y, np.ndarray) and y.dtype == NP[dt], lambda: f"{what}: dtype {getattr(y, 'dtype', type(y))}")
    n = y.shape[axis]
    require(n in (N, N + N % 2), lambda: f"{what}: {n} samples reconstructed from a signal of {N}")
    close(y, refback, dt, what)


def check_pr(y, x, refback, w, modes, levels_defect, axis, dt, what):
    """y restricted to x's positions equals x, to rounding and the accuracy of the filter table."""
    sl = tuple(slice(s) for s in x.shape)
    t = ref.crop(refback, x.shape)
    from core import EPS, Violation
    tol = (t.e + 4 * t.m) * EPS[dt] + levels_defect * (np.max(np.abs(x)) if x.size else 0) + 1e-300
    if dt in ("f4", "c8"):
        tol = tol + 1e-37
    d = np.abs(y[sl] - x)
    if not np.all(d <= tol):
        i = tuple(int(k) for k in np.argwhere(~(d <= tol))[0])
        raise Violation(f"{what}: sample {list(i)} is {y[sl][i]!r}, the signal has {x[i]!r} (difference {d[i]:.3g}, allowed {tol[i]:.3g})")


# ------------------------------------------------------------------ arbitrary coefficients
def sweep_syn(tier, seed):
    for w in ref.DISCRETE:
        F = ref.flen(w)
        h = F // 2
        for mode in ref.MODES:
            if mode == "periodization":
                ns = [1, 2, 3, h - 1, h, h + 1, F, F + 3, 40]
            elif mode in ("zero", "symmetric", "smooth"):
                ns = [h, h + 1, h + 2, F - 1, F, F + 5, h + 30]
            else:
                ns = [h, h + 3]
            if tier != "quick":
                ns = ns + list(range(1 if mode == "periodization" else h, F + 6))
            for n in sorted({k for k in ns if k >= (1 if mode == "periodization" else h)}):
                yield {"w": w, "mode": mode, "n": n, "dts": DTYPES, "data": {"k": "normal", "s": seed}}


@law("P02", sweep=sweep_syn)
def idwt_synthesis_every_wavelet(case):
    w, mode, n = case["w"], case["mode"], case["n"]
    for i, dt in enumerate(case["dts"]):
        a = make(dict(case["data"], s=case["data"]["s"] * 7 + i), n, dt)
        d = make(dict(case["data"], s=case["data"]["s"] * 7 + i + 1), n, dt)
        for ca, cd, nm in ((a, d, "both"), (a, None, "no detail"), (None, d, "no approximation")):
            y = pywt.idwt(ca, cd, w, mode)
            require(y.dtype == NP[dt], lambda: f"idwt dtype {y.dtype} for {dt}")
            t = ref.idwt1(None if ca is None else ref.track(ca), None if cd is None else ref.track(cd), w, mode, 0)
            close(y, t, dt, f"idwt({w},{mode},n={n},{dt},{nm})")
    return ["mode=" + mode, "n<F/2" if n < ref.flen(w) // 2 else "n>=F/2"] if case["dts"] else []


@st.composite
def st_syn(draw):
    w = draw(st.one_of(g.st_wavelet(), g.st_pr_wavelet()))
    mode = draw(g.st_mode())
    F = ref.flen(w)
    lo = 1 if mode == "periodization" else F // 2
    n = max(lo, draw(st.one_of(st.integers(lo, lo + 8), st.integers(lo, 2 * F + 12), st.integers(1, 5))))
    nd = draw(st.integers(1, 3))
    axis = draw(st.integers(0, nd - 1))
    shape = [draw(st.integers(1, 4)) for _ in range(nd)]
    shape[axis] = n
    return {"w": w, "mode": mode, "shape": shape, "axis": axis - nd if draw(st.booleans()) else axis,
            "dts": draw(g.st_dtypes(2)), "which": draw(st.sampled_from(["ad", "ad", "a", "d"])),
            "la": draw(st.sampled_from(g.LAYOUTS)), "ld": draw(st.sampled_from(g.LAYOUTS)),
            "mf": draw(st.sampled_from(["str", "enum"])), "wf": draw(st.sampled_from(["name", "obj"])),
            "da": draw(st_data()), "dd": draw(st_data())}


@law("P02", strategy=st_syn, quick=600, thorough=20000)
def idwt_any_axis_any_coefficients(case):
    w, mode, shape, axis, dts = case["w"], case["mode"], case["shape"], case["axis"], case["dts"]
    if len(dts) != 2:
        raise Reject
    if mode != "periodization" and shape[axis] < ref.flen(w) // 2:
        raise Reject
    a = make(case["da"], shape, dts[0]) if "a" in case["which"] else None
    d = make(case["dd"], shape, dts[1]) if "d" in case["which"] else None
    if a is None and d is None:
        raise Reject
    y = pywt.idwt(None if a is None else layout(a, case["la"]), None if d is None else layout(d, case["ld"]),
                  g.warg(w, case["wf"]), g.marg(mode, case["mf"]), axis=axis)
    dts = [t for t, v in zip(dts, (a, d)) if v is not None]
    dt = g.mixed(dts, y, "idwt")
    t = ref.idwt1(None if a is None else ref.track(a), None if d is None else ref.track(d), w, mode, axis)
    close(y, t, dt, f"idwt({w},{mode},shape={shape},axis={axis},{dts},{case['which']})")
    z = not ((a is not None and a.any()) or (d is not None and d.any()))
    return [] if z else ["mode=" + mode, "which=" + case["which"], f"{len(shape)}-D", "mixed-types" if len(set(dts)) > 1 else "dt=" + dt]


# ------------------------------------------------------------------ round trips
def sweep_pr(tier, seed):
    for w in ref.DISCRETE:
        F = ref.flen(w)
        ns = [1, 2, 3, F // 2, F - 1, F, F + 1, 37] if tier == "quick" else range(1, 2 * F + 4)
        for n in sorted({k for k in ns if k >= 1}):
            for mode in ref.MODES:
                yield {"w": w, "mode": mode, "n": n, "dts": DTYPES if tier != "quick" else [DTYPES[(n + len(mode)) % 4], "f8"],
                       "data": {"k": "normal", "s": seed}}


@law("P02", sweep=sweep_pr)
def roundtrip_every_wavelet(case):
    w, mode, n = case["w"], case["mode"], case["n"]
    if n < g.minlen(mode):
        raise Reject
    for dt in case["dts"]:
        x = make(case["data"], n, dt)
        y = pywt.idwt(*pywt.dwt(x, w, mode), w, mode)
        back = ref.idwt1(*ref.dwt1(ref.track(x), w, mode, 0), w, mode, 0)
        what = f"idwt(dwt(x)), {w},{mode},N={n},{dt}"
        check_back(y, x, back, w, mode, n, 0, dt, what)
        check_pr(y, x, back, w, mode, pr_tol(w, mode, n), 0, dt, what)
    return ["mode=" + mode, "odd" if n % 2 else "even", "N<F" if n < ref.flen(w) else "N>=F"] if case["dts"] else []


@st.composite
def st_multi(draw):
    w = draw(g.st_pr_wavelet())
    mode = draw(g.st_mode())
    F = ref.flen(w)
    nd = draw(st.integers(1, 3))
    axis = draw(st.integers(0, nd - 1))
    shape = [draw(st.integers(1, 3)) for _ in range(nd)]
    shape[axis] = draw(st.one_of(g.st_len(F, g.minlen(mode)), st.integers(60, 200)))
    level = draw(st.one_of(st.none(), st.integers(0, 5)))
    return {"w": w, "mode": mode, "shape": shape, "axis": axis - nd if draw(st.booleans()) else axis, "level": level,
            "dt": draw(g.st_dtype()), "data": draw(st_data())}


def levels_of(w, mode, n, level):
    """(lengths per level) or None if a reflect mode would see a single sample."""
    F = ref.flen(w)
    if level is None:
        level = ref.max_level(n, F)
    ns = [n]
    for _ in range(level):
        if ns[-1] < g.minlen(mode):
            return None, level
        ns.append(ref.coeff_len(ns[-1], F, mode))
    return ns, level


@law("P02", strategy=st_multi, quick=400, thorough=12000)
def multilevel_roundtrip(case):
    w, mode, shape, axis, dt = case["w"], case["mode"], case["shape"], case["axis"], case["dt"]
    ns, level = levels_of(w, mode, shape[axis], case["level"])
    if ns is None:
        raise Reject
    x = make(case["data"], shape, dt)
    W = g.wav(w)
    c = pywt.wavedec(x, W, mode, level=case["level"], axis=axis)
    require(isinstance(c, list) and len(c) == level + 1, lambda: f"wavedec returned {len(c)} arrays for level {level}")
    r = ref.wavedec(ref.track(x), w, mode, level, axis)
    what = f"wavedec({w},{mode},shape={shape},level={case['level']},axis={axis},{dt})"
    for i, (p, q) in enumerate(zip(c, r)):
        if level:
            require(p.dtype == NP[dt], lambda: f"{what}[{i}]: dtype {p.dtype}")
        close(p, q, dt, f"{what}[{i}]")
    y = pywt.waverec(c, W, mode, axis=axis)
    back = ref.waverec(r, w, mode, axis)
    n = shape[axis]
    require(y.shape[axis] in (n, n + n % 2 if level else n), lambda: f"{what}: reconstructed length {y.shape[axis]} from {n}")
    close(y, back, dt, "waverec of " + what)
    # |error| <= sum over levels of defect, amplified by the synthesis gains; bound by the tracked magnitude
    defect = sum(pr_tol(w, mode, k) for k in ns[:-1])
    if defect > 1e-6:
        if not (isinstance(w, str) and w == "dmey"):
            gain = float(np.max(back.m)) / max(float(np.max(np.abs(x))), 1e-300)
            defect *= gain
        else:
            return ["dmey"]
    else:
        defect *= max(1.0, float(np.max(back.m)) / max(float(np.max(np.abs(x))), 1e-300)) if x.any() else 1.0
    check_pr(y, x, back, w, mode, defect, axis, dt, "waverec of " + what)
    if not x.any():
        return []
    return ["mode=" + mode, f"level={min(level, 5)}", "default-level" if case["level"] is None else "explicit-level",
            "odd-somewhere" if any(k % 2 for k in ns[:-1]) else "all-even",
            "deeper-than-max" if level > ref.max_level(n, ref.flen(w)) else "within-max"]


@st.composite
def st_rec(draw):
    w = draw(st.one_of(g.st_wavelet(), g.st_pr_wavelet()))
    mode = draw(g.st_mode())
    F = ref.flen(w)
    level = draw(st.integers(1, 4))
    n = draw(st.integers(1, 4 * F + 40))
    return {"w": w, "mode": mode, "n": n, "level": level, "dts": draw(g.st_dtypes(level + 1)), "s": draw(st.integers(0, 10 ** 6)),
            "other": draw(st.integers(1, 2)), "axis": draw(st.integers(0, 1))}


@law("P02", strategy=st_rec, quick=250, thorough=8000)
def waverec_of_arbitrary_coefficients(case):
    """Coefficients with the shapes of a real decomposition but arbitrary values: waverec is the composed synthesis,
    where an approximation that is one sample longer than the next detail loses its last sample."""
    w, mode, dts, level = case["w"], case["mode"], case["dts"], case["level"]
    if len(dts) != level + 1:
        raise Reject
    F = ref.flen(w)
    ns = [case["n"]]
    for _ in range(level):
        if ns[-1] < 1:
            raise Reject
        ns.append(ref.coeff_len(ns[-1], F, mode))
    lens = [ns[-1]] + ns[:0:-1]
    axis = case["axis"]
    cs = [make({"k": "normal", "s": case["s"] + i}, [k, case["other"]] if axis == 0 else [case["other"], k], dts[i])
          for i, k in enumerate(lens)]
    if case["other"] == 1 and axis == 1:
        cs = [c[0] for c in cs]
        axis = 0
    y = pywt.waverec(cs, g.wav(w), mode, axis=axis)
    t = ref.waverec([ref.track(c) for c in cs], w, mode, axis)
    what = f"waverec(random coefficients, {w},{mode},lengths={lens},{dts})"
    close(y, t, g.mixed(dts, y, what), what)
    return ["mode=" + mode, f"level={level}", "crops" if any(k % 2 for k in ns[1:-1]) else "no-crop"]


# ------------------------------------------------------------------ large arrays, many levels
@st.composite
def st_large(draw):
    return {"w": draw(g.st_pr_wavelet()), "mode": draw(g.st_mode()), "n": fast.shape_of(draw, st, 1, 40000)[0], "rows": draw(st.sampled_from([0, 0, 0, 1, 3])), "axis": draw(st.integers(0, 1)),
            "level": draw(st.one_of(st.integers(1, 13), st.integers(5, 10))), "dt": draw(g.st_dtype()), "s": draw(st.integers(0, 10 ** 6))}


@law("P02", strategy=lambda: st_large(), quick=75, thorough=1200)
def large_and_deep(case):
    w, mode, n, L, dt, rows = (case[k] for k in ("w", "mode", "n", "level", "dt", "rows"))
    F = ref.flen(w)
    if n < 1 or n * max(rows, 1) > 200000 or not 1 <= L <= 14:
        raise Reject
    axis = case["axis"] if rows else 0
    shape = [rows, n] if rows and axis else [n, rows] if rows else [n]
    x = fast.noise(shape, dt, case["s"])
    L = max(1, min(L, ref.max_level(n, F) + 1)) if mode in ("smooth", "antireflect") else L         # these extrapolate without bound on short signals
    sizes = [n]
    for _ in range(L):
        if sizes[-1] < g.minlen(mode):
            raise Reject
        sizes.append(ref.coeff_len(sizes[-1], F, mode))
    W = g.wav(w)
    c = pywt.wavedec(x, W, mode, L, axis)
    require(len(c) == L + 1, f"{len(c)} arrays for {L} levels")
    what = f"wavedec(shape {shape}, {w}, {mode}, level={L}, axis={axis}, {dt})"
    a = x
    size = fast.top(x)
    for j in range(1, L + 1):
        a, d = fast.dwt(a, w, mode, axis)
        size = max(size, fast.top(a, d))
        fast.close(c[-j], d, dt, size, f"{what}: details of level {j}", require, 10)
    fast.close(c[0], a, dt, size, f"{what}: approximation", require, 10)
    if w != "dmey":
        y = pywt.waverec(c, W, mode, axis)
        require(y.shape[axis] == n + n % 2, lambda: f"{what}: waverec gives shape {y.shape}")
        fast.close(np.take(y, range(n), axis), x, dt, size, f"{what}: waverec", require, 100)
    return ["mode=" + mode, "level=%d" % L, "dt=" + dt]
