"""P04: predicted lengths, shapes, sizes and maximum levels agree with the transforms."""
import warnings

import numpy as np
import pywt
from hypothesis import strategies as st

import gens as g
import ref
from check_P03 import args, check_cfg, level_shapes, st_cfg, usable
from core import Reject, Violation, law, make, require

RULE = ("case = length(s)/shape x filter length or wavelet(s) x mode(s) x level x axes; every case compares a prediction with a formula "
        "on exact integers or with the shapes of the real transform's output; trivial when no level is applied")


def warned(fn):
    """(result, warnings issued)"""
    with warnings.catch_warnings(record=True) as rec:
        warnings.simplefilter("always")
        r = fn()
    return r, [str(w.message) for w in rec]


# ------------------------------------------------------------------ integer formulas
def sweep_len(tier, seed):
    hi = 70 if tier == "quick" else 260
    for F in sorted({ref.flen(w) for w in ref.DISCRETE} | {1, 3, 5, 7}):
        for mode in ref.MODES:
            yield {"F": F, "mode": mode, "ns": [1, hi]}


@law("P04", sweep=sweep_len, shrinkable=True)
def coefficient_length_formula(case):
    F, mode = case["F"], case["mode"]
    if F < 1 or len(case["ns"]) != 2 or case["ns"][0] < 1:
        raise Reject
    for n in range(case["ns"][0], case["ns"][1] + 1):
        want = -(-n // 2) if mode == "periodization" else (n + F - 1) // 2
        for m in (mode, getattr(pywt.Modes, mode)):
            got = pywt.dwt_coeff_len(n, F, m)
            require(got == want, lambda: f"dwt_coeff_len({n},{F},{mode}) = {got}, expected {want}")
    return ["mode=" + mode]


def sweep_real(tier, seed):
    for w in ref.DISCRETE:
        F = ref.flen(w)
        for mode in ref.MODES:
            yield {"w": w, "mode": mode, "ns": g.sweep_lengths(F)}


@law("P04", sweep=sweep_real)
def coefficient_length_of_real_transforms(case):
    w, mode = case["w"], case["mode"]
    W = pywt.Wavelet(w)
    F = ref.flen(w)
    require(W.dec_len == F and W.rec_len == F and len(W) == F, f"{w}: filter length {W.dec_len}")
    for n in case["ns"]:
        if n < max(1, g.minlen(mode)):
            continue
        want = ref.coeff_len(n, F, mode)
        cA, cD = pywt.dwt(np.ones(n), w, mode)
        require(cA.shape == cD.shape == (want,), lambda: f"dwt({w},{mode},N={n}) gives {cA.shape} coefficients")
        for f in (F, W):
            got = pywt.dwt_coeff_len(n, f, mode)
            require(got == want, lambda: f"dwt_coeff_len({n},{w},{mode}) = {got}, transform gives {want}")
        for f in (w, W, F):
            got = pywt.dwt_max_level(n, f)
            require(got == ref.max_level(n, F), lambda: f"dwt_max_level({n},{w}) = {got}, expected {ref.max_level(n, F)}")
    return ["mode=" + mode]


@st.composite
def st_int(draw):
    F = draw(st.one_of(st.integers(2, 120), st.sampled_from([2, 3, 4, 5, 9, 17, 33, 65, 102]), st.integers(2, 10 ** 6)))
    k = draw(st.integers(0, 3))
    if k == 0:
        n = draw(st.integers(1, 4 * F))
    elif k == 1:
        n = (F - 1) * 2 ** draw(st.integers(0, 40)) + draw(st.integers(-2, 2))
    elif k == 2:
        n = 2 ** draw(st.integers(0, 60)) + draw(st.integers(-2, 2))
    else:
        n = draw(st.integers(1, 2 ** 60))
    return {"n": max(1, n), "F": F, "mode": draw(g.st_mode())}


@law("P04", strategy=st_int, quick=800, thorough=30000)
def lengths_and_levels_of_large_integers(case):
    n, F, mode = case["n"], case["F"], case["mode"]
    if n < 1 or F < 2 or n >= 2 ** 62:
        raise Reject
    got = pywt.dwt_max_level(n, F)
    want = ref.max_level(n, F)
    require(got == want, lambda: f"dwt_max_level({n},{F}) = {got}, expected {want}")
    cl = pywt.dwt_coeff_len(n, F, mode)
    want = -(-n // 2) if mode == "periodization" else (n + F - 1) // 2
    require(cl == want, lambda: f"dwt_coeff_len({n},{F},{mode}) = {cl}, expected {want}")
    s, ws = warned(lambda: pywt.swt_max_level(n))
    tz = (n & -n).bit_length() - 1
    require(s == tz, lambda: f"swt_max_level({n}) = {s}, expected {tz}")
    return ["at-boundary" if F > 1 and n % (F - 1) in (0, 1, F - 2) else "interior", "huge" if n > 2 ** 32 else "small"]


# ------------------------------------------------------------------ n-D shapes
@st.composite
def st_nd(draw):
    c = draw(st_cfg(multi=True))
    c["level"] = draw(st.one_of(st.none(), st.none(), st.integers(0, 4)))
    c["scalar"] = draw(st.booleans())
    return c


@law("P04", strategy=st_nd, quick=400, thorough=10000)
def shapes_and_sizes_of_wavedecn(case):
    axes = check_cfg(case)
    if len(set(axes)) < len(axes):
        raise Reject
    w, m = args(case)
    shape, ax = tuple(case["shape"]), case["axes"]
    if case["scalar"] and len(ax) == 1:
        ax = ax[0]
    what = f"(shape={shape},{case['ws']},{case['modes']},level={case['level']},axes={ax})"
    mx = min(ref.max_level(shape[a], ref.flen(v)) for a, v in zip(axes, case["ws"]))
    got = pywt.dwtn_max_level(shape, w, axes=ax)
    require(got == mx, lambda: f"dwtn_max_level{what} = {got}, expected {mx}")
    lv = mx if case["level"] is None else case["level"]
    # prediction on its own
    pred = pywt.wavedecn_shapes(shape, w, m, level=case["level"], axes=ax)
    require(isinstance(pred, list) and len(pred) == lv + 1, lambda: f"wavedecn_shapes{what} has {len(pred)} entries for level {lv}")
    shapes = [list(shape)]
    for _ in range(lv):
        s = list(shapes[-1])
        for a, v, md in zip(axes, case["ws"], case["modes"]):
            s[a] = ref.coeff_len(s[a], ref.flen(v), md)
        shapes.append(s)
    require(tuple(pred[0]) == tuple(shapes[-1]), lambda: f"wavedecn_shapes{what}: approximation {pred[0]}, expected {shapes[-1]}")
    total = int(np.prod(shapes[-1]))
    for i in range(1, lv + 1):
        s = tuple(shapes[lv - i + 1])
        require(len(pred[i]) == 2 ** len(axes) - 1 and all(tuple(v) == s for v in pred[i].values()),
                lambda: f"wavedecn_shapes{what}[{i}] = {pred[i]}, expected {s}")
        total += (2 ** len(axes) - 1) * int(np.prod(s))
    require(int(pywt.wavedecn_size(pred)) == total, lambda: f"wavedecn_size of {what}: {pywt.wavedecn_size(pred)}, expected {total}")
    # the real thing
    real, _ = level_shapes(case, axes)
    if real is None or total > 30000:
        return ["prediction-only"]
    x = make(case["data"], shape, case["dt"])
    c = pywt.wavedecn(x, w, m, level=case["level"], axes=ax)
    require(len(c) == lv + 1, lambda: f"wavedecn{what} has {len(c)} entries, predicted {lv + 1}")
    require(tuple(pred[0]) == c[0].shape, lambda: f"approximation of wavedecn{what}: shape {c[0].shape}, predicted {pred[0]}")
    for i in range(1, lv + 1):
        require({k: v.shape for k, v in c[i].items()} == {k: tuple(v) for k, v in pred[i].items()},
                lambda: f"wavedecn{what}[{i}] shapes differ from wavedecn_shapes")
    require(int(pywt.wavedecn_size(c)) == total, "wavedecn_size(coefficients) differs from the size of the predicted shapes")
    vec = pywt.ravel_coeffs(c, axes=case["axes"])[0]
    require(vec.size == total, lambda: f"ravelled size {vec.size}, predicted {total}")
    t = [f"{len(shape)}-D", "default-level" if case["level"] is None else "explicit-level"]
    if len(set(case["modes"])) > 1:
        t.append("mode-per-axis")
    if len(set(map(str, case["ws"]))) > 1:
        t.append("wavelet-per-axis")
    if len(axes) < len(shape):
        t.append("subset-of-axes")
    return t if lv else []


@st.composite
def st_lv(draw):
    w = draw(st.one_of(st.sampled_from(g.SHORT), st.sampled_from(ref.DISCRETE)))
    F = ref.flen(w)
    n = draw(st.one_of(st.integers(2, 6), st.integers(F - 1, 4 * F), st.integers(2, 130),
                       st.integers(0, 5).map(lambda k: (F - 1) * 2 ** k), st.integers(0, 4).map(lambda k: (F - 1) * 2 ** k - 1)))
    return {"w": w, "mode": draw(g.st_mode()), "n": min(max(2, n), 600), "extra": draw(st.integers(1, 3)),
            "fn": draw(st.sampled_from(["wavedec", "wavedec2", "wavedecn", "fswavedecn"]))}


@law("P04", strategy=st_lv, quick=250, thorough=6000)
def default_excessive_and_negative_levels(case):
    """level=None is the maximum useful level without a warning; a larger one warns and works; a negative one is refused."""
    w, mode, n, fn = case["w"], case["mode"], case["n"], case["fn"]
    F = ref.flen(w)
    mx = ref.max_level(n, F)
    if n < 2:
        raise Reject
    shape = (n,) if fn in ("wavedec",) else (n, n + 1) if n < 40 else (n, 3)
    x = np.random.default_rng(n).standard_normal(shape)
    if len(shape) == 2 and shape[1] == 3 and fn == "wavedec2":
        shape = (n, n)
        x = np.random.default_rng(n).standard_normal((n, n))
    kw = {} if fn != "wavedecn" and fn != "fswavedecn" else {"axes": (0,)}
    f = getattr(pywt, fn)
    lvname = "levels" if fn == "fswavedecn" else "level"

    def depth(r):
        if fn == "fswavedecn":
            return r.levels[0]
        return len(r) - 1

    def ok(lv):
        k = n
        for _ in range(lv):
            if k < g.minlen(mode):
                return False
            k = ref.coeff_len(k, F, mode)
        return True
    with np.errstate(all="ignore"):
        if ok(mx):
            r, ws = warned(lambda: f(x, w, mode, **kw))
            require(depth(r) == mx, lambda: f"{fn}(N={n},{w}) default level {depth(r)}, expected {mx}")
            require(not any("too high" in s for s in ws), lambda: f"{fn} default level warns: {ws}")
            r2, ws = warned(lambda: f(x, w, mode, **{lvname: mx}, **kw))
            require(depth(r2) == mx and not any("too high" in s for s in ws), f"{fn} level={mx} (the maximum)")
        big = mx + case["extra"]
        if ok(big):
            r, ws = warned(lambda: f(x, w, mode, **{lvname: big}, **kw))
            require(depth(r) == big, lambda: f"{fn} level={big} gave {depth(r)} levels")
            require(any("too high" in s for s in ws), lambda: f"{fn}(N={n},{w},level={big}) above the maximum {mx} does not warn")
        r, ws = warned(lambda: f(x, w, mode, **{lvname: 0}, **kw))
        require(depth(r) == 0, f"{fn} level=0 gave {depth(r)} levels")
        try:
            f(x, w, mode, **{lvname: -case["extra"]}, **kw)
        except ValueError:
            pass
        else:
            raise Violation(f"{fn} accepted level {-case['extra']}")
    return [fn, "max=0" if mx == 0 else "max>0", "boundary" if n == (F - 1) * 2 ** mx else "interior"]


@st.composite
def st_swt(draw):
    k = draw(st.integers(0, 6))
    n = draw(st.sampled_from([1, 3, 5, 7])) * 2 ** k
    return {"n": n, "w": draw(st.sampled_from(g.SHORT)), "m": draw(st.integers(1, 3))}


@law("P04", strategy=st_swt, quick=100, thorough=2000)
def stationary_levels(case):
    """swt with its default level applies swt_max_level levels; one more is refused; every level up to it works."""
    n, w = case["n"], case["w"]
    if n < 1:
        raise Reject
    L = (n & -n).bit_length() - 1
    got, _ = warned(lambda: pywt.swt_max_level(n))
    require(got == L, lambda: f"swt_max_level({n}) = {got}")
    x = np.arange(float(n))
    if L:
        for lv in {1, L, max(1, L // 2)}:
            require(len(pywt.swt(x, w, level=lv)) == lv, f"swt level {lv}")
        require(len(pywt.swt(x, w)) == L, lambda: f"swt default level gives {len(pywt.swt(x, w))}, expected {L}")
        for sl in range(L):
            c = pywt.swt(x, w, start_level=sl)
            require(len(c) == L - sl, lambda: f"swt(N={n}, start_level={sl}) default gives {len(c)} levels, expected {L - sl}")
    try:
        r = pywt.swt(x, w, level=L + case["m"])
    except ValueError:
        pass
    else:
        raise Violation(f"swt accepted level {L + case['m']} for length {n} (returned {len(r)} levels)")
    return [f"L={min(L, 4)}"]
