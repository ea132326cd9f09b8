"""P14: thresholding applies its documented scalar formula to every element."""
import copy
import math

import numpy as np
import pywt
from hypothesis import strategies as st

import fast
import gens as g
from core import Reject, Violation, law, layout, require

RULE = ("case = list of values (zeros, values equal to the threshold, extremes of integer types, random ones) x shape x dtype x layout x mode x "
        "threshold(s) x substitute; non-trivial when the array is not empty")
ASSUMPTIONS = ["thresholds are non-negative Python numbers for soft, hard, garrote and firm (the documented domain), any real for greater and less"]

EPSD = {"float16": 2.0 ** -10, "float32": 2.0 ** -23, "float64": 2.0 ** -52, "complex64": 2.0 ** -23, "complex128": 2.0 ** -52}
INTS = ["int8", "int16", "int32", "int64", "uint8", "uint16", "uint64", "bool"]
FLOATS = ["float16", "float32", "float64"]
CPLX = ["complex64", "complex128"]


def formula(mode, x, v, sub, hi=None):
    """the documented value for one Python number, and whether it must be exact"""
    if mode == "greater":
        return (sub, True) if x < v else (x, True)
    if mode == "less":
        return (sub, True) if x > v else (x, True)
    a = abs(x)
    if mode == "hard":
        return (sub, True) if a < v else (x, True)
    if mode == "firm":
        if a <= v:
            # equal thresholds: hard-thresholding, either value at the threshold itself is zero by the documented formula
            return 0.0, True
        if a > hi:
            return x, True
        if math.isinf(hi):
            return x * (1 - v / a), False
        return x * hi * (1 - v / a) / (hi - v), False
    if a < v:
        return sub, True
    if a == 0:
        return 0.0, True
    if a == v:
        return 0.0, True
    r = v / a
    return x * ((1 - r) if mode == "soft" else (1 - r * r)), False


@st.composite
def st_thr(draw):
    mode = draw(st.sampled_from(["soft", "hard", "garrote", "garotte", "greater", "less", "firm", "firm"]))
    kind = draw(st.sampled_from(["int", "float", "float", "complex"] if mode not in ("greater", "less") else ["int", "float", "float"]))
    dt = draw(st.sampled_from({"int": INTS, "float": FLOATS, "complex": CPLX}[kind]))
    v = draw(st.one_of(st.integers(0, 6), st.integers(0, 40).map(lambda k: k / 8), st.sampled_from([0, 0.0, 1, 127, 128, 300, 1e-3, 0.1])))
    if mode in ("greater", "less") and draw(st.booleans()):
        v = -v
    width = draw(st.one_of(st.just(0), st.integers(1, 6), st.integers(1, 24).map(lambda k: k / 8), st.just("inf"), st.just("inf"),
                           st.sampled_from([-1, -1e-3, -1e-6, -1e-9, -1e-12, -2.0 ** -52])))
    hi = float("inf") if width == "inf" else v + width if width >= 0 or mode != "firm" else v * (1 + width)
    if kind == "int":
        ii = np.iinfo(dt) if dt != "bool" else None
        pool = [0, 1] if dt == "bool" else [t for t in (0, 1, 2, 3, -1, -2, int(abs(v)), -int(abs(v)), ii.max, ii.min, ii.min + 1, 5, -5) if ii.min <= t <= ii.max]
        el = st.sampled_from(pool) if dt == "bool" or draw(st.booleans()) else st.one_of(st.sampled_from(pool), st.integers(max(ii.min, -12), 12))
    else:
        rp = st.one_of(st.sampled_from([0.0, 1.0, -1.0, float(v), -float(v), float(v) + 0.5, -float(v) - 0.5] + ([float(hi), -float(hi)] if hi < 1e6 else [])),
                       st.integers(-80, 80).map(lambda k: k / 8), st.floats(-50, 50, width=16))
        if kind == "float":
            el = rp
        else:
            el = st.one_of(st.tuples(rp, rp), st.sampled_from([(3, 4), (-3, 4), (0, 0), (0, -2), (-5, 12)]).map(lambda t: (float(t[0]), float(t[1])))).map(list)
    n = draw(st.sampled_from([[], [0], [1], [2, 3], [5], [2, 2, 2], [7], [3, 0, 2]]))
    k = int(np.prod(n, dtype=int))
    return {"mode": mode, "dt": dt, "v": v, "hi": "inf" if hi == float("inf") else hi, "shape": n, "x": draw(st.lists(el, min_size=k, max_size=k)),
            "sub": draw(st.sampled_from([None, 0, 0, 1, -3, 0.5, "nan"])), "lay": draw(st.sampled_from(g.LAYOUTS + ["list"]))}


def sweep_thr(tier, seed):
    """every type and rule on the values where they change: zero, the threshold, its neighbours, the ends of the type's range"""
    n = 0
    for dt in INTS + FLOATS + CPLX:
        for mode in ("soft", "hard", "garrote", "greater", "less", "firm"):
            if dt in CPLX and mode in ("greater", "less"):
                continue
            for v in (0, 1, 2.5, 3, 100, 127, 128, 255, 300):
                for w in (0, 1, 2.5, "inf") if mode == "firm" else (0,):
                    hi = "inf" if w == "inf" else v + w
                    if dt in INTS:
                        lo, top = (0, 1) if dt == "bool" else (np.iinfo(dt).min, np.iinfo(dt).max)
                        pool = [t for t in (0, 1, 2, 3, -1, -2, -3, 4, 127, 128, -127, -128, 255, lo, lo + 1, top, top - 1) if lo <= t <= top]
                    else:
                        pool = [0.0, 1.0, -1.0, float(v), -float(v), v + 0.5, -v - 0.5, v - 0.5, v * 2.0, -v * 3.0]
                        if hi != "inf":
                            pool += [float(hi), -float(hi), hi + 0.5]
                        if dt in CPLX:
                            pool = [[t, 0.0] for t in pool] + [[0.0, t] for t in pool[3:]] + [[3.0, 4.0], [-3.0, 4.0], [5.0, -12.0]]
                    for sub in (0, None, 1, -3, 0.5, "nan") if mode != "firm" else (None,):
                        n += 1
                        if tier == "thorough" or dt in INTS and sub in (0, None, 1) or (n + seed) % 3 == 0:
                            yield {"mode": mode, "dt": dt, "v": v, "hi": hi, "shape": [len(pool)], "x": pool, "sub": sub, "lay": g.LAYOUTS[n % len(g.LAYOUTS)]}


@law("P14", sweep=sweep_thr, strategy=lambda: st_thr(), quick=900, thorough=30000)
def scalar_formula(case):
    mode, dt, v, shape = case["mode"], case["dt"], case["v"], case["shape"]
    if dt not in INTS + FLOATS + CPLX or min(shape, default=1) < 0 or len(case["x"]) != int(np.prod(shape, dtype=int)):
        raise Reject
    base = "garrote" if mode == "garotte" else mode
    if base not in ("soft", "hard", "garrote", "greater", "less", "firm"):
        raise Reject
    if base not in ("greater", "less") and v < 0 or dt in CPLX and base in ("greater", "less"):
        raise Reject
    hi = float("inf") if case["hi"] == "inf" else case["hi"]
    vals = [complex(*t) if isinstance(t, list) else t for t in case["x"]]
    try:
        x = np.array(vals, dtype=dt).reshape(shape)
    except (OverflowError, TypeError, ValueError):
        raise Reject
    lay = case["lay"]
    xin = layout(x, lay if shape or lay == "list" else "readonly")
    if lay == "list":
        if x.size == 0 or dt == "bool":
            raise Reject
        x = np.array(xin)
        dt = x.dtype.name
    keep = x.copy()
    before = copy.deepcopy(xin)
    sub = float("nan") if case["sub"] == "nan" else case["sub"]
    if base == "firm" and hi < v:
        try:
            got = pywt.threshold_firm(xin, v, hi)
        except ValueError:
            require(np.array_equal(np.asarray(xin), keep), "input modified")
            return ["mode=firm", "wrong-order"]
        require(False, f"threshold_firm({dt} {keep.tolist()}, {v!r}, {hi!r}) accepts an upper threshold below the lower one and gives {got}")
    if base == "firm":
        got = pywt.threshold_firm(xin, v, hi)
        sub = 0
    elif sub is None:
        got = pywt.threshold(xin, v) if base == "soft" else pywt.threshold(xin, v, mode)
        sub = 0
    elif case["shape"] == [1]:
        got = pywt.threshold(xin, v, mode=mode, substitute=sub)
    else:
        got = pywt.threshold(xin, v, mode, sub)
    what = f"{mode}({dt} {keep.tolist()}, {v}{', ' + str(hi) if base == 'firm' else ''}, substitute={sub})"
    if lay != "list":
        require(np.array_equal(np.asarray(xin), keep) and np.asarray(xin).dtype == xin.dtype, lambda: f"{what}: input modified")
    else:
        require(xin == before, f"{what}: input modified")
    got = np.asarray(got)
    require(got.shape == keep.shape, lambda: f"{what}: shape {got.shape}")
    if dt in EPSD:
        require(got.dtype == np.dtype(dt), lambda: f"{what}: dtype {got.dtype}, expected that of the input, {dt}")
    else:
        require(got.dtype.kind in "iuf" and (got.dtype.kind != "f" or got.dtype.itemsize >= 8), lambda: f"{what}: dtype {got.dtype}")
    eps = EPSD.get(got.dtype.name, 2.0 ** -52)
    slope = 1 if base != "firm" or math.isinf(hi) or hi == v else hi / (hi - v)
    for i in np.ndindex(*keep.shape):
        xi = keep[i].item()
        if xi is True or xi is False:
            xi = int(xi)
        # the threshold as the array's precision holds it decides comparisons
        vv, hh = (float(np.dtype(dt).type(v).real), float(np.dtype(dt).type(hi).real)) if dt in EPSD else (v, hi)
        a = abs(xi)
        amb = dt in CPLX and (abs(a - vv) <= 4 * eps * a or base == "firm" and abs(a - hh) <= 4 * eps * a)
        want, exact = formula(base, xi, vv, sub, hh)
        gi = got[i].item()
        if amb and xi.real and xi.imag and not (base == "hard" or sub != 0):
            exact = False      # magnitude rounding decides on which side of the threshold; both branches agree up to rounding
        elif amb and xi.real and xi.imag:
            if base == "hard":
                require(gi == xi or gi == sub or sub != sub and gi != gi, lambda: f"{what}: element {i} is {gi}")
            continue
        if want != want:
            require(gi != gi, lambda: f"{what}: element {i} ({xi}) is {gi}, expected the substitute {want}")
        elif exact:
            w = np.asarray(want).astype(got.dtype).item() if got.dtype.kind in "fc" else want
            require(gi == w or gi == 0 == w, lambda: f"{what}: element {i} ({xi}) is {gi}, expected exactly {w}")
        else:
            require(abs(gi - want) <= 8 * eps * a * slope, lambda: f"{what}: element {i} ({xi}) is {gi}, expected {want}")
            # phase / sign kept, never larger than the input
            if isinstance(xi, complex):
                require(abs((gi * xi.conjugate()).imag) <= 8 * eps * a * max(abs(gi), eps * a), lambda: f"{what}: element {i} ({xi}) changed phase: {gi}")
            else:
                require(gi * xi >= 0 and abs(gi) <= a * (1 + 8 * eps * slope), lambda: f"{what}: element {i} ({xi}) changed sign or grew: {gi}")
    return [mode, dt, "0-D" if shape == [] else "n-D", "substitute" if sub != 0 else "zero"] if keep.size else []


# ------------------------------------------------------------------ relations on floating data
@st.composite
def st_rel(draw):
    return {"s": draw(st.integers(0, 10 ** 6)), "n": draw(st.integers(1, 60)), "dt": draw(g.st_dtype()),
            "v": draw(st.integers(0, 32).map(lambda k: k / 16)), "w": draw(st.sampled_from([0, 0.25, 1, 3])), "e": draw(st.sampled_from([-40, 0, 30]))}


@law("P14", strategy=lambda: st_rel(), quick=200, thorough=6000)
def odd_symmetry_scaling_and_limits(case):
    from core import NP, make
    if case["n"] < 1 or case["v"] < 0 or case["w"] < 0:
        raise Reject
    x = make({"k": "normal", "s": case["s"]}, case["n"], case["dt"])
    v, hi = case["v"], case["v"] + case["w"]
    k = 2.0 ** case["e"]
    eps = 2.0 ** -23 if case["dt"] in ("f4", "c8") else 2.0 ** -52
    fs = {m: (lambda d, s=1.0, m=m: pywt.threshold(d, v * s, m)) for m in ("soft", "hard", "garrote")}
    fs["firm"] = lambda d, s=1.0: pywt.threshold_firm(d, v * s, hi * s)
    for m, f in fs.items():
        y = f(x)
        require(np.array_equal(f(-x), -y), f"{m} is not odd")
        z = f((x * NP[case["dt"]](k)), k)
        require(np.array_equal(z, y * NP[case["dt"]](k)), f"{m}: scaling data and thresholds by 2**{case['e']} is not exact")
        for i in range(0, len(x), 7):
            require(np.array_equal(f(x[i:i + 3]), y[i:i + 3]), f"{m}: the result of an element depends on the others")
    a, s, h, fi = np.abs(x), fs["soft"](x), fs["hard"](x), fs["firm"](x)
    tol = 8 * eps * (a + hi)
    require(np.all(np.abs(fi) >= np.abs(s) - tol) and np.all(np.abs(fi) <= np.abs(h) + tol), "firm is not between soft and hard")
    require(np.all(np.abs(pywt.threshold_firm(x, v, np.inf) - s) <= tol), "firm with an infinite upper threshold is not soft thresholding")
    eq = pywt.threshold_firm(x, v, v)
    require(np.array_equal(eq[a > v * (1 + eps)], x[a > v * (1 + eps)]) and not np.any(eq[a < v]), "firm with equal thresholds is not hard thresholding")
    if case["dt"][0] == "f" and v > 0:
        lo = pywt.threshold(x, v, "less", 7)
        gr = pywt.threshold(x, v, "greater", 7)
        require(np.array_equal(np.where(x > v, 7, x), lo) and np.array_equal(np.where(x < v, 7, x), gr), "greater/less")
        require(np.array_equal(pywt.threshold(-x, -v, "greater"), -pywt.threshold(x, v, "less")), "less is not greater mirrored")
    return ["dt=" + case["dt"], "v=0" if v == 0 else "v>0"]


# ------------------------------------------------------------------ values that are not finite
SPECIAL = {"nan": float("nan"), "inf": float("inf"), "-inf": float("-inf")}


@st.composite
def st_nonfinite(draw):
    el = st.one_of(st.sampled_from(["nan", "nan", "inf", "-inf"]), st.sampled_from([0, 1, -1, 0.5, -2, 5, -0.25]))
    v = draw(st.sampled_from([0, 0.0, 1, 0.5, 2, 1.0]))
    return {"mode": draw(st.sampled_from(["soft", "hard", "garrote", "garotte", "greater", "less", "firm", "firm"])), "dt": draw(st.sampled_from(FLOATS)),
            "x": draw(st.lists(el, min_size=1, max_size=7)), "v": v, "w": draw(st.sampled_from([0, 1, 2.5, "inf"])),
            "sub": draw(st.sampled_from([0, 0, 0.0, 3, -1.5, "nan", "inf"])), "lay": draw(st.sampled_from(g.LAYOUTS))}


@law("P14", strategy=lambda: st_nonfinite(), quick=300, thorough=6000)
def values_that_are_not_finite(case):
    """a NaN is neither below nor above any threshold, so hard, greater and less leave it and the shrinking rules give NaN; an infinite magnitude
    is above every finite threshold and no finite amount of shrinking changes it"""
    mode, v = case["mode"], case["v"]
    base = "garrote" if mode == "garotte" else mode
    if case["dt"] not in FLOATS or v < 0 or not case["x"] or base not in ("soft", "hard", "garrote", "greater", "less", "firm"):
        raise Reject
    x = layout(np.array([SPECIAL[t] if isinstance(t, str) else t for t in case["x"]], dtype=case["dt"]), case["lay"])
    keep = np.array(x)
    sub = SPECIAL[case["sub"]] if isinstance(case["sub"], str) else case["sub"]
    if base == "firm":
        hi = float("inf") if case["w"] == "inf" else v + case["w"]
        what = f"threshold_firm({case['dt']} {keep.tolist()}, {v}, {hi})"
        got = pywt.threshold_firm(x, v, hi)
    else:
        hi = None
        what = f"threshold({case['dt']} {keep.tolist()}, {v}, {mode}, {sub})"
        got = pywt.threshold(x, v, mode, sub)
    require(np.array_equal(np.asarray(x), keep, equal_nan=True), lambda: f"{what}: input modified")
    got = np.asarray(got)
    require(got.shape == keep.shape and got.dtype == keep.dtype, lambda: f"{what}: {got.dtype} of shape {got.shape}")
    for xi, gi in zip(keep.tolist(), got.tolist()):
        if xi != xi:
            want = xi
        elif math.isinf(xi) and base in ("soft", "garrote", "hard", "firm"):
            want = xi
        else:
            want, exact = formula(base, xi, v, 0 if base == "firm" else sub, hi)
        ok = gi != gi if want != want else gi == want or not math.isinf(want) and abs(gi - want) <= 16 * EPSD[case["dt"]] * abs(xi)
        require(ok, lambda: f"{what}: the element {xi} gives {gi}, expected {want}")
    tags = [base]
    if np.isnan(keep).any():
        tags.append("NaN")
    if np.isinf(keep).any():
        tags.append("infinite")
    return tags if len(tags) > 1 else []


# ------------------------------------------------------------------ large arrays
@st.composite
def st_large(draw):
    nd = draw(st.integers(1, 3))
    mode = draw(st.sampled_from(["soft", "hard", "garrote", "greater", "less", "firm"]))
    return {"shape": fast.shape_of(draw, st, nd, 100000), "mode": mode, "dt": draw(st.sampled_from(["f4", "f8"] if mode in ("greater", "less") else ["f4", "f8", "c8", "c16"])),
            "v": draw(st.sampled_from([0, 0.25, 1, 1.5])), "hi": draw(st.sampled_from([0, 0.5, 1])), "sub": draw(st.sampled_from([0, 0, 2.5])),
            "order": draw(st.sampled_from("CF")), "step": draw(st.integers(1, 2)), "s": draw(st.integers(0, 10 ** 6))}


@law("P14", strategy=lambda: st_large(), quick=120, thorough=1600)
def large_arrays(case):
    shape, mode, dt, v, sub = (case[k] for k in ("shape", "mode", "dt", "v", "sub"))
    if not 1 <= len(shape) <= 3 or np.prod(shape) > 10 ** 6 or min(shape) < 1 or dt[0] == "c" and mode in ("greater", "less"):
        raise Reject
    x = fast.noise(shape, dt, case["s"], case["order"])[..., ::case["step"]]
    keep = x.copy()
    if mode == "firm":
        hi = v + case["hi"]
        got = pywt.threshold_firm(x, v, hi)
    else:
        got = pywt.threshold(x, v, mode, sub)
    what = f"{mode}({dt} noise of shape {list(x.shape)}, {v}, {case['hi'] if mode == 'firm' else sub})"
    require(got.shape == x.shape and got.dtype == x.dtype, lambda: f"{what}: {got.dtype} array of shape {got.shape}")
    require(np.array_equal(x, keep), f"{what}: input modified")
    y = keep.astype(complex if dt[0] == "c" else float)
    a = np.abs(y)
    if mode in ("greater", "less"):
        want = np.where(y < v if mode == "greater" else y > v, sub, y)
    elif mode == "firm":
        want = np.where(a <= v, 0, np.where(a > hi, y, y * hi * (1 - v / a) / max(hi - v, 1e-300)))
    else:
        want = np.where(a < v, sub, y * {"soft": 1 - v / a, "hard": 1, "garrote": 1 - (v / a) ** 2}[mode])
    e = np.abs(got - want)
    tol = (1e-5 if dt in ("f4", "c8") else 1e-13) * (a + 1) * (1 + 10 * v)
    bad = (e > tol) & (np.abs(a - v) > tol)
    require(not bad.any(), lambda: f"{what}: {got[bad][0]!r} for {keep[bad][0]!r} at {np.argwhere(bad)[0].tolist()}, expected {want[bad][0]!r}")
    return [mode, dt, f"{len(shape)}-D"]
