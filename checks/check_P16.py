"""P16: downcoef / upcoef agree with the full transforms and with linear synthesis."""
import functools

import numpy as np
import pywt
from hypothesis import strategies as st

import fast
import gens as g
import ref
from core import EPS, NP, Reject, close, law, layout, make, require, st_data

RULE = "case = part x wavelet x mode x length x level x dtype x layout x take; non-trivial when the data is not all zero"
ASSUMPTIONS = ["filters are the snapshot in data/filters.json (checked by P11)"]


@functools.lru_cache(4096)
def _full(key, n, hi):
    """full upsampling convolution: 2n + F - 2 samples"""
    f = ref._filters(key)[3 if hi else 2]
    G = np.zeros((2 * n + len(f) - 2, n))
    for j in range(n):
        G[2 * j:2 * j + len(f), j] = f
    return G, np.abs(G)


def synth(t, w, part, level):
    for i in range(level):
        t = ref.lin(_full(ref.wkey(w), t.shape[0], part == "d" and i == 0), t, 0, ref.flen(w))
    return t


@st.composite
def st_down(draw):
    w = draw(g.st_wavelet())
    mode = draw(g.st_mode())
    return {"part": draw(st.sampled_from("ad")), "w": w, "mode": mode, "n": draw(st.one_of(g.st_len(ref.flen(w)), st.integers(20, 150))),
            "level": draw(st.one_of(st.just(1), st.integers(1, 6))), "dt": draw(g.st_dtype()), "data": draw(st_data()),
            "lay": draw(st.sampled_from(["C", "strided", "neg", "readonly", "list"])), "wf": draw(st.sampled_from(["name", "obj", "upper"])),
            "mf": draw(st.sampled_from(["str", "enum"]))}


def _sweep(tier, seed):
    for w in ref.DISCRETE:
        F = ref.flen(w)
        for mode in ref.MODES:
            for n in (1, 2, F - 1, F, F + 1, 2 * F + 1) if tier == "quick" else g.sweep_lengths(F):
                for part in "ad":
                    for level in (1, 2, 3) if n != 1 else (1, 4):
                        if tier == "quick" and level > 1 and (n + level + len(mode)) % 3:
                            continue
                        yield {"part": part, "w": w, "mode": mode, "n": n, "level": level, "dt": ("f8", "f4", "c8", "c16")[(n + level) % 4],
                               "data": {"k": "normal", "s": seed}, "lay": "C", "wf": "name", "mf": "str"}


@law("P16", sweep=_sweep, strategy=lambda: st_down(), quick=400, thorough=15000)
def band_of_multilevel(case):
    part, w, mode, n, level, dt = (case[k] for k in ("part", "w", "mode", "n", "level", "dt"))
    if n < 1 or level < 1 or part not in ("a", "d"):
        raise Reject
    W = g.warg(w, case["wf"])
    x = make(case["data"], n, dt)
    xin = layout(x, case["lay"])
    if case["lay"] == "list":
        dt = {"f4": "f8", "c8": "c16"}.get(dt, dt)
    F = ref.flen(w)
    sizes = [n]
    for _ in range(level):
        sizes.append(ref.coeff_len(sizes[-1], F, mode))
    if sizes[-1] > 4000:
        raise Reject
    what = f"downcoef({part!r}, n={n} {dt}, {w}, {mode}, level={level})"
    args = (part, xin, W, g.marg(mode, case["mf"]))
    full = bad = None
    try:
        full = pywt.wavedec(xin, W, g.marg(mode, case["mf"]), level)
    except ValueError as e:
        bad = e
    if any(s < g.minlen(mode) for s in sizes[:-1]):
        require(bad is not None, lambda: f"wavedec of {n} samples, {w}, {mode}, level {level} met a single sample and returned a result")
        try:
            y = pywt.downcoef(*args, level=level)
        except ValueError:
            return ["refused", "mode=" + mode]
        require(False, f"{what}: wavedec refuses ({bad}), downcoef returned {y!r}")
    require(bad is None, lambda: f"wavedec refused a valid request: {bad}")
    if level == 1 and n % 2:
        y = pywt.downcoef(*args)
    else:
        y = pywt.downcoef(*args, level=level)
    require(isinstance(y, np.ndarray) and y.dtype == NP[dt], lambda: f"{what}: {type(y).__name__} of dtype {getattr(y, 'dtype', None)}, expected {NP[dt].__name__}")
    want = ref.wavedec(ref.track(x), w, mode, level, 0)
    close(y, want[0 if part == "a" else 1], dt, what)
    close(full[0 if part == "a" else 1], want[0 if part == "a" else 1], dt, "wavedec band, " + what)
    if mode == "symmetric":
        close(pywt.downcoef(part, xin, W, level=level), want[0 if part == "a" else 1], dt, "default mode, " + what)
    return ["part=" + part, "mode=" + mode, "level=%d" % level, "dt=" + dt, "short" if n < F else "long"] if x.any() else []


@st.composite
def st_up(draw):
    w = draw(g.st_wavelet())
    n = draw(st.one_of(st.integers(1, 12), g.st_len(ref.flen(w))))
    level = draw(st.one_of(st.just(1), st.integers(1, 5)))
    return {"part": draw(st.sampled_from("ad")), "w": w, "n": n, "level": level, "take": draw(st.one_of(st.none(), st.integers(0, 2 ** level * n), st.integers(1, 400))),
            "dt": draw(g.st_dtype()), "data": draw(st_data()), "lay": draw(st.sampled_from(["C", "strided", "neg", "readonly", "list"])),
            "wf": draw(st.sampled_from(["name", "obj", "upper"]))}


def _up_sweep(tier, seed):
    for w in ref.DISCRETE:
        F = ref.flen(w)
        for n in (1, 2, 5, F // 2, F):
            for part in "ad":
                for level in (1, 2, 3):
                    L = n
                    for _ in range(level):
                        L = 2 * L + F - 2
                    if tier == "quick" and (level == 3 or L > 1500):
                        continue
                    for take in (None, 1, n, L - 1, L, L + 1):
                        yield {"part": part, "w": w, "n": n, "level": level, "take": take, "dt": ("f8", "f4", "c8", "c16")[(n + level) % 4],
                               "data": {"k": "normal", "s": seed}, "lay": "C", "wf": "name"}


@law("P16", sweep=_up_sweep, strategy=lambda: st_up(), quick=300, thorough=12000)
def direct_reconstruction(case):
    part, w, n, level, take, dt = (case[k] for k in ("part", "w", "n", "level", "take", "dt"))
    if n < 1 or level < 1 or part not in ("a", "d") or take is not None and take < 0:
        raise Reject
    F = ref.flen(w)
    L = n
    for _ in range(level):
        L = 2 * L + F - 2
    if L > 6000:
        raise Reject
    c = make(case["data"], n, dt)
    cin = layout(c, case["lay"])
    if case["lay"] == "list":
        dt = {"f4": "f8", "c8": "c16"}.get(dt, dt)
    W = g.warg(w, case["wf"])
    t = synth(ref.track(c), w, part, level)
    what = f"upcoef({part!r}, n={n} {dt}, {w}, level={level}, take={take})"
    if take is None:
        y = pywt.upcoef(part, cin, W, level=level)
    else:
        y = pywt.upcoef(part, cin, W, level, take)
        if 0 < take < L:
            lo = (L - take) // 2
            t = ref.Tracked(t.v[lo:lo + take], t.m[lo:lo + take], t.e[lo:lo + take])
    require(isinstance(y, np.ndarray) and y.dtype == NP[dt], lambda: f"{what}: {type(y).__name__} of dtype {getattr(y, 'dtype', None)}, expected {NP[dt].__name__}")
    close(y, t, dt, what)
    if level == 1:
        close(pywt.upcoef(part, cin, W, take=take or 0), t, dt, "default level, " + what)
    return ["part=" + part, "level=%d" % level, "dt=" + dt, "take" if take else "all"] if c.any() else []


@st.composite
def st_sum(draw):
    w = draw(g.st_pr_wavelet())
    mode = draw(g.st_mode())
    return {"w": w, "mode": mode, "n": draw(st.one_of(g.st_len(ref.flen(w)), st.integers(20, 120))), "level": draw(st.integers(1, 4)),
            "dt": draw(g.st_dtype()), "data": draw(st_data())}


@law("P16", strategy=lambda: st_sum(), quick=250, thorough=8000)
def bands_add_up(case):
    """Samples dropped at each level of waverec cannot reach positions of the signal, so the untruncated direct reconstructions of all
    bands add up to the signal at its own positions: (F - 2)(2**l - 1) samples into the result from level l."""
    w, mode, n, level, dt = (case[k] for k in ("w", "mode", "n", "level", "dt"))
    if mode == "periodization" or n < 1 or level < 1:
        raise Reject
    F = ref.flen(w)
    sizes = [n]
    for _ in range(level):
        if sizes[-1] < g.minlen(mode):
            raise Reject
        sizes.append(ref.coeff_len(sizes[-1], F, mode))
    if sizes[-1] * 2 ** level + F * 2 ** level > 5000:
        raise Reject
    W = g.wav(w)
    x = make(case["data"], n, dt)
    cs = pywt.wavedec(x, W, mode, level)
    tc = ref.wavedec(ref.track(x), w, mode, level, 0)
    total = np.zeros(n, complex)
    bound = np.zeros(n)
    exact = np.zeros(n, complex)
    for i, (c, t) in enumerate(zip(cs, tc)):
        lev = level if i == 0 else level - i + 1
        part = "a" if i == 0 else "d"
        off = (F - 2) * (2 ** lev - 1)
        y = pywt.upcoef(part, c, W, level=lev)
        r = synth(t, w, part, lev)
        require(y.shape == r.shape, lambda: f"upcoef({part}, {len(c)}, {w}, {lev}): {y.shape}, expected {r.shape}")
        total += y[off:off + n]
        exact += r.v[off:off + n]
        bound += r.e[off:off + n] + 8 * r.m[off:off + n]
        if level == 1:
            z = pywt.upcoef(part, c, W, take=n)
            require(np.array_equal(z, y[off:off + n]), f"{w} {mode} n={n}: take=n is not the part of upcoef at the signal's positions")
    tol = bound * EPS[dt] + (1e-37 if dt in ("f4", "c8") else 1e-300) + 0.02 * np.abs(x).max() * (ref.pr_defect(w, mode, n) > 1e-9)
    defect = np.abs(exact - x)
    # the published filters reconstruct to the accuracy of their digits
    tol = tol + 1e-6 * np.abs(x).max() * (ref.pr_defect(w, mode, n) > 1e-14) + 0 * defect
    bad = ~(np.abs(total - x) <= tol)
    if bad.any():
        i = int(np.argmax(bad))
        require(False, f"{w} {mode} n={n} level={level} {dt}: sample {i} of the sum of direct reconstructions is {total[i]!r}, the signal has {x[i]!r}")
    return ["mode=" + mode, "level=%d" % level, "dt=" + dt] if x.any() else []


# ------------------------------------------------------------------ long signals, deep levels
@st.composite
def st_large(draw):
    return {"part": draw(st.sampled_from("ad")), "w": draw(g.st_wavelet()), "mode": draw(g.st_mode()), "n": fast.shape_of(draw, st, 1, 20000)[0], "level": draw(st.integers(1, 12)),
            "up": draw(st.integers(1, 10)), "m": draw(st.one_of(st.integers(1, 12), st.integers(100, 2000))), "take": draw(st.sampled_from([0, 0, 1, 5, 100, 1000])), "dt": draw(g.st_dtype()),
            "s": draw(st.integers(0, 10 ** 6))}


@law("P16", strategy=lambda: st_large(), quick=75, thorough=1200)
def long_and_deep(case):
    part, w, mode, n, L, up, m, dt = (case[k] for k in ("part", "w", "mode", "n", "level", "up", "m", "dt"))
    F = ref.flen(w)
    if part not in "ad" or not 1 <= n <= 50000 or not 1 <= L <= 12 or not 1 <= up <= 10 or not 1 <= m <= 3000 or case["take"] < 0:
        raise Reject
    if mode in ("smooth", "antireflect"):
        L = max(1, min(L, ref.max_level(n, F)))
    a, size = fast.noise([n], dt, case["s"]), 0
    x = a
    for j in range(L):
        if a.shape[0] < g.minlen(mode):
            raise Reject
        a, d = fast.dwt(a, w, mode, 0)
        size = max(size, fast.top(x, a, d))
    fast.close(pywt.downcoef(part, x, g.wav(w), mode, L), a if part == "a" else d, dt, size, f"downcoef({part!r}, N={n}, {w}, {mode}, level={L}, {dt})", require, 10)
    while up > 1 and (m + F) * 2 ** up > 300000:
        up -= 1
    c = fast.noise([m], dt, case["s"] + 1)
    y, size = np.asarray(c).astype(complex), 0
    lo, hi = (np.asarray(f, float) for f in ref.filters(w)[2:])
    for j in range(up):
        u = np.zeros(2 * len(y), complex)
        u[::2] = y
        y = np.convolve(u[:-1], hi if part == "d" and j == 0 else lo)
        y = np.append(y, np.zeros(2 * len(u) // 2 + F - 2 - len(y)))
        size = max(size, fast.top(c, y))
    take = case["take"]
    if take and take < len(y):
        o = (len(y) - take) // 2
        y = y[o:o + take]
    got = pywt.upcoef(part, c, g.wav(w), up, take)
    fast.close(got, y if dt[0] == "c" else y.real, dt, size, f"upcoef({part!r}, {m} coefficients, {w}, level={up}, take={take}, {dt})", require, 10)
    return ["part=" + part, "mode=" + mode, "level=%d" % L, "up=%d" % up]
