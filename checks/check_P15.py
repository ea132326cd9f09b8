"""P15: explicit padding follows the extension rules of the transforms."""
import numpy as np
import pywt
from hypothesis import strategies as st

import fast
import gens as g
import ref
from core import EPS, NP, Reject, law, layout, make, require, st_data

RULE = "case = shape x pad widths (per axis and side, in every accepted form) x mode x dtype x data; non-trivial when something is padded"
ASSUMPTIONS = ["reflect and antireflect of a single sample are outside the domain (their period is zero)",
               "integer data keeps within the range of its type"]
INTS = ["int32", "int64", "int16"]
PLACING = ("zero", "constant", "symmetric", "periodic", "periodization", "reflect", "antisymmetric")    # copies of samples only


def _ext(N, mode, left, right):
    """rows: weights of the padded samples; magnitudes; roundings"""
    M = N
    if mode == "periodization":
        M = N + N % 2
    E = np.zeros((left + M + right, N))
    A = np.zeros_like(E)
    for i in range(-left, M + right):
        if mode == "periodization":
            j = min(i % M, N - 1)
            E[i + left, j] = A[i + left, j] = 1
        else:
            E[i + left], A[i + left] = ref.ext_row(mode, N, i)
    return E, A


@st.composite
def st_pad(draw):
    nd = draw(st.integers(1, 4))
    shape = draw(g.st_shape(nd, nd, 1, 9 if nd < 3 else 4))
    mode = draw(g.st_mode())
    hi = 3 * max(shape) + 2 if nd == 1 else {2: 12, 3: 5, 4: 3}[nd]
    w = st.one_of(st.integers(0, hi), st.integers(0, 3), st.just(0))
    form = draw(st.sampled_from(["full", "full", "array", "int", "single", "pair", "nested", "float"]))
    k = {"full": nd, "array": nd, "float": nd}.get(form, 1)
    widths = [[draw(w), draw(w)] for _ in range(k)]
    if form in ("int", "single"):
        widths = [[widths[0][0]] * 2]
    return {"shape": shape, "mode": mode, "form": form, "widths": widths, "dt": draw(st.one_of(g.st_dtype(), st.sampled_from(INTS))),
            "data": draw(st.one_of(st_data(), st.fixed_dictionaries({"k": st.just("ints"), "s": st.integers(0, 1000)}))),
            "lay": draw(st.sampled_from(g.LAYOUTS + ["list", "swapped"]))}


def _sweep(tier, seed):
    from core import subsample
    cases = []
    for mode in ref.MODES:
        for N in range(1, 8):
            if N < g.minlen(mode):
                continue
            for a in (0, 1, N - 1, N, N + 1, 2 * N - 1, 2 * N + 1, 3 * N + 2):
                for b in (0, 1, N, 2 * N - 2, 2 * N + 1, 4 * N):
                    cases.append({"shape": [N], "mode": mode, "form": "nested", "widths": [[a, b]], "dt": "f8" if (a + b) % 2 else "int64",
                                  "data": {"k": "ints", "s": N + a}, "lay": "C"})
    return cases if tier != "quick" else subsample(cases, 1500, seed)


@law("P15", sweep=_sweep, strategy=lambda: st_pad(), quick=500, thorough=20000)
def extension_by_rule(case):
    shape, mode, dt, form = case["shape"], case["mode"], case["dt"], case["form"]
    nd = len(shape)
    wd = case["widths"]
    k = {"full": nd, "array": nd, "float": nd}.get(form, 1)
    if not nd or min(shape) < g.minlen(mode) or len(wd) != k or any(len(p) != 2 or min(p) < 0 for p in wd):
        raise Reject
    if form in ("int", "single") and wd[0][0] != wd[0][1]:
        raise Reject
    per = wd if k == nd else wd * nd
    if np.prod([s + 2 + sum(p) for s, p in zip(shape, per)]) > 20000:
        raise Reject
    if dt in NP:
        x = make(case["data"], shape, dt)
    else:
        if case["data"]["k"] not in ("ints", "ramp", "const", "impulse"):
            raise Reject
        if np.prod([2.0 * (s + sum(p)) / max(1, s - 1) + 2 for s, p in zip(shape, per)]) * 1200 > np.iinfo(dt).max and mode not in PLACING:
            raise Reject
        x = make(case["data"], shape, "f8").astype(dt)
    xin = layout(x, case["lay"])
    if case["lay"] == "list":
        x = np.array(xin)
        dt = {"float64": "f8", "complex128": "c16"}.get(x.dtype.name, x.dtype.name)
    arg = {"full": tuple(map(tuple, per)), "array": np.array(wd), "float": [[float(a), float(b)] for a, b in wd], "int": wd[0][0], "single": (wd[0][0],),
           "pair": tuple(wd[0]), "nested": (tuple(wd[0]),)}[form]
    keep = x.copy()
    got = pywt.pad(xin, arg, mode)
    what = f"pad({shape} {dt}, {arg}, {mode!r})"
    require(np.array_equal(np.asarray(xin), keep), f"{what}: input modified")
    require(isinstance(got, np.ndarray), f"{what}: returned {type(got).__name__}")
    v = keep.astype(complex) if keep.dtype.kind == "c" else keep.astype(float)
    m, q = np.abs(v), 0
    for ax, (a, b) in enumerate(per):
        E, A = _ext(shape[ax], mode, a, b)
        v, m = ref.apply(E, v, ax), ref.apply(A, m, ax)
        q += 8 + 6 * ((a + b) // max(1, shape[ax] - 1))
    require(got.shape == v.shape, lambda: f"{what}: shape {got.shape}, expected {v.shape}")
    require(got.dtype.newbyteorder("=") == keep.dtype.newbyteorder("="), lambda: f"{what}: dtype {got.dtype}, input {keep.dtype}")
    centre = got[tuple(slice(a, a + s) for s, (a, _) in zip(shape, per))]
    require(np.array_equal(centre, keep), lambda: f"{what}: the original samples are not kept in the centre")
    exact = dt not in NP or mode in PLACING
    eps = EPS.get(dt, 0) * q
    with np.errstate(all="ignore"):
        # reference values of the placing modes are exact (one weight of 1 or -1 per sample)
        bad = ~(np.abs(got - v) <= (0 if exact else m * eps))
    if bad.any():
        i = tuple(int(t) for t in np.argwhere(bad)[0])
        require(False, f"{what}: element {list(i)} is {got[i]!r}, expected {v[i]!r}")
    padded = any(a or b for a, b in per)
    return ["mode=" + mode, "nd=%d" % nd, "long" if any(a > s or b > s for s, (a, b) in zip(shape, per)) else "short",
            "int" if dt not in NP else "float"] if padded else []


@st.composite
def st_via(draw):
    nd = draw(st.sampled_from([1, 1, 2]))
    w = draw(g.st_wavelet()) if nd == 1 else draw(g.st_short_wavelet())
    F = ref.flen(w)
    shape = [draw(g.st_len(F)) for _ in range(nd)] if nd == 1 else [draw(st.integers(1, 14)) for _ in range(nd)]
    return {"shape": shape, "w": w, "mode": draw(g.st_mode()), "extra": [draw(st.integers(0, 2)) for _ in range(2)], "data": draw(st_data()),
            "dt": draw(g.st_dtype()), "outer": draw(st.sampled_from(["zero", "symmetric", "constant"]))}


@law("P15", strategy=lambda: st_via(), quick=250, thorough=10000)
def transform_of_padded(case):
    shape, mode, w = case["shape"], case["mode"], case["w"]
    nd = len(shape)
    if nd not in (1, 2) or min(shape) < g.minlen(mode) or case["outer"] == "periodization" or case["outer"] not in ref.MODES or min(case["extra"]) < 0:
        raise Reject
    F = ref.flen(w)
    if nd == 2 and F > 24:
        raise Reject
    W = g.wav(w)
    x = make(case["data"], shape, case["dt"])
    left = F + 2 * case["extra"][0]
    if mode == "periodization":
        left += (left + F // 2 + 1) % 2
        shift = (left + F // 2 - 1) // 2
    else:
        left += left % 2
        shift = left // 2
    right = F + 2 + case["extra"][1]
    y = pywt.pad(x, ((left, right),) * nd, mode)
    direct = pywt.dwtn(x, W, mode)
    via = pywt.dwtn(y, W, case["outer"])
    sl = tuple(slice(shift, shift + ref.coeff_len(s, F, mode)) for s in shape)
    # both compute the same sums of the same extended samples; only the rounding of smooth/antireflect samples may differ
    mags = np.abs(x)
    for ax in range(nd):
        mags = ref.apply(_ext(shape[ax], mode, left, right)[1], mags, ax)
    for key, c in direct.items():
        v = via[key][sl]
        require(c.shape == v.shape, lambda: f"band {key}: shape {c.shape}, padded transform {v.shape}")
        s = max([float(np.sum(np.abs(f))) for f in ref.filters(w)[:2]]) ** nd
        tol = EPS[case["dt"]] * s * float(mags.max()) * (4 * F + 60 + 12 * (left + right) // max(1, min(shape) - 1)) * nd
        d = np.abs(c.astype(complex) - v)
        if not np.all(d <= tol + 1e-300):
            i = tuple(int(t) for t in np.argwhere(~(d <= tol + 1e-300))[0])
            require(False, f"{w} {mode} {shape}: band {key} {list(i)} is {c[i]!r}, via pad {v[i]!r} (allowed {tol:.3g})")
    return ["mode=" + mode, "nd=%d" % nd, "short" if min(shape) < F else "long"]


# ------------------------------------------------------------------ large arrays
@st.composite
def st_large(draw):
    nd = draw(st.integers(1, 3))
    shape = fast.shape_of(draw, st, nd, 9000)
    return {"shape": shape, "mode": draw(g.st_mode()), "pw": [[draw(st.one_of(st.integers(0, 40), st.integers(0, 2 * n))) if n < 400 or nd == 1 else draw(st.integers(0, 300)) for _ in range(2)] for n in shape],
            "dt": draw(g.st_dtype()), "s": draw(st.integers(0, 10 ** 6))}


@law("P15", strategy=lambda: st_large(), quick=36, thorough=600)
def large_arrays(case):
    shape, mode, pw, dt = (case[k] for k in ("shape", "mode", "pw", "dt"))
    if not 1 <= len(shape) <= 3 or len(pw) != len(shape) or min(min(p) for p in pw) < 0 or np.prod([n + 1 + a + b for n, (a, b) in zip(shape, pw)]) > 10 ** 6 or min(shape) < g.minlen(mode):
        raise Reject
    x = fast.noise(shape, dt, case["s"])
    y = x.astype(np.complex128 if dt[0] == "c" else np.float64)
    for i, (a, b) in enumerate(pw):
        y = np.moveaxis(y, i, -1)
        if mode == "periodization" and y.shape[-1] % 2:
            y = np.concatenate([y, y[..., -1:]], -1)
        y = np.moveaxis(fast.extend(y, mode, np.arange(-a, y.shape[-1] + b)), -1, i)
    got = pywt.pad(x, [tuple(p) for p in pw], mode)
    fast.close(got, y, dt, fast.top(y), f"pad(shape {shape}, {pw}, {mode}, {dt})", require)
    require(got.dtype == x.dtype, f"pad of {x.dtype} gives {got.dtype}")
    return ["mode=" + mode, "%d-D" % len(shape)] if any(a + b for a, b in pw) else []
