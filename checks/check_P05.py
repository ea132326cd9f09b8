"""P05: stationary transform = dilated circular filtering; shift equivariance; inverse; energy."""
import itertools
import warnings

import numpy as np
import pywt
from hypothesis import strategies as st

import fast
import gens as g
import ref
from core import DTYPES, EPS, NP, Reject, Violation, close, law, layout, make, require, same, st_data

RULE = ("case = wavelet(s) x length (odd multiple of a power of two, often shorter than the dilated filter) x start level x levels x axes "
        "x layout (full/trimmed) x norm x dtype x data recipe; non-trivial when the data is not constant zero")
ASSUMPTIONS = ["filters are the snapshot in data/filters.json (checked by P11)",
               "the inverse of coefficients that no transform produced is half the sum of the circular syntheses per axis and level "
               "(the mean over both decimation phases), which is what 'inverse by averaging' means"]


def maxlev(n):
    return (n & -n).bit_length() - 1


def scaled(w, norm):
    return w


def unpack1(c, trim, what, levels):
    """-> (list of cA or None, list of cD, deepest cA)"""
    require(isinstance(c, list), lambda: f"{what}: {type(c)}")
    if trim:
        require(len(c) == levels + 1, lambda: f"{what}: {len(c)} entries for {levels} levels (trimmed)")
        require(all(isinstance(v, np.ndarray) for v in c), f"{what}: trimmed layout must hold arrays")
        return [None] * levels, list(c[1:]), c[0]
    require(len(c) == levels, lambda: f"{what}: {len(c)} entries for {levels} levels")
    require(all(isinstance(v, tuple) and len(v) == 2 for v in c), f"{what}: entries must be pairs")
    return [a for a, _ in c], [d for _, d in c], c[0][0]


def cmp1(c, want, trim, dt, what):
    A, D, a0 = unpack1(c, trim, what, len(want))
    require(a0.dtype == NP[dt], lambda: f"{what}: dtype {a0.dtype}")
    close(a0, want[0][0], dt, what + " deepest cA")
    for i, (a, d) in enumerate(want):
        close(D[i], d, dt, f"{what}[{i}] cD")
        require(D[i].dtype == NP[dt], lambda: f"{what}: dtype {D[i].dtype}")
        if A[i] is not None:
            close(A[i], a, dt, f"{what}[{i}] cA")


def back_tol(t, dt):
    return (t.e + 4 * t.m) * EPS[dt] + 1e-9 * t.m + 1e-37


def expect_x(y, t, x, dt, what, exact=True):
    require(y.dtype == NP[dt], lambda: f"{what}: dtype {y.dtype}, expected {NP[dt].__name__}")
    close(y, t, dt, what)
    if exact:
        d = np.abs(y - x)
        bad = ~(d <= back_tol(t, dt))
        if bad.any():
            i = tuple(int(k) for k in np.argwhere(bad)[0])
            raise Violation(f"{what}: sample {list(i)} is {y[i]!r}, the signal has {x[i]!r}")


# ------------------------------------------------------------------ every wavelet
def sweep_all(tier, seed):
    for w in ref.DISCRETE:
        ns = [2, 4, 6, 8, 12, 16, 24, 40, 64] if tier == "quick" else [2, 4, 6, 8, 10, 12, 14, 16, 20, 22, 24, 28, 32, 36, 40, 48, 56, 64, 72, 80, 96, 128]
        for n in ns:
            yield {"w": w, "n": n, "s": seed}


@law("P05", sweep=sweep_all)
def every_wavelet_every_level(case):
    """All start levels and level counts for one wavelet and length: definition and inverse."""
    w, n = case["w"], case["n"]
    if n < 2 or n % 2:
        raise Reject
    L = maxlev(n)
    x0 = make({"k": "normal", "s": case["s"]}, n, "f8")
    for sl in range(L):
        for lv in {1, L - sl, max(1, (L - sl) // 2)}:
            for trim, norm, dt in ((False, False, "f8"), (True, True, "f8"), (True, False, "f4"), (False, True, "c16")):
                x = make({"k": "normal", "s": case["s"] + sl}, n, dt)
                c = pywt.swt(x, w, level=lv, start_level=sl, trim_approx=trim, norm=norm)
                want = ref.swt(ref.track(x), w, lv, 0, sl, norm)
                what = f"swt({w},N={n},level={lv},start={sl},trim={trim},norm={norm},{dt})"
                cmp1(c, want, trim, dt, what)
                if sl == 0:
                    t = ref.Tracked(want[0][0].v, want[0][0].m, want[0][0].e)
                    for i, (_, d) in enumerate(want):
                        t = ref.iswtn_level({"a": t, "d": d}, [w], [0], lv - i, norm)
                    expect_x(pywt.iswt(c, w, norm=norm), t, x, dt, "iswt of " + what, exact=w != "dmey")
    return ["levels=%d" % min(L, 4), "filter>signal" if ref.flen(w) > n else "filter<=signal"]


# ------------------------------------------------------------------ 1-D along an axis, all forms
@st.composite
def st_1d(draw):
    nd = draw(st.integers(1, 3))
    k = draw(st.integers(1, 5 if nd == 1 else 3))
    n = draw(st.sampled_from([1, 1, 3, 5, 7])) * 2 ** k
    shape = [draw(st.integers(1, 5)) for _ in range(nd)]
    ax = draw(st.integers(-nd, nd - 1))
    shape[ax] = n
    w = draw(st.one_of(g.st_pr_wavelet(), g.st_wavelet()))
    sl = draw(st.integers(0, k - 1))
    return {"w": w, "shape": shape, "axis": ax, "sl": sl, "level": draw(st.integers(1, k - sl)), "trim": draw(st.booleans()),
            "norm": draw(st.booleans()), "dt": draw(g.st_dtype()), "lay": draw(st.sampled_from(g.LAYOUTS)),
            "form": draw(st.sampled_from(["name", "obj"])), "data": draw(st_data()), "shift": draw(st.integers(1, 40))}


@law("P05", strategy=st_1d, quick=400, thorough=12000)
def swt_definition_shift_and_inverse(case):
    w, shape, ax, sl, lv = case["w"], case["shape"], case["axis"], case["sl"], case["level"]
    nd = len(shape)
    if not nd or not -nd <= ax < nd or lv < 1 or sl < 0:
        raise Reject
    n = shape[ax]
    if n < 2 or maxlev(n) < sl + lv:
        raise Reject
    dt, norm, trim = case["dt"], case["norm"], case["trim"]
    W = g.warg(w, case["form"])
    x = make(case["data"], shape, dt)
    what = f"swt({w},shape={shape},axis={ax},level={lv},start={sl},trim={trim},norm={norm},{dt})"
    f = lambda v: pywt.swt(v, W, level=lv, start_level=sl, axis=ax, trim_approx=trim, norm=norm)
    c = f(layout(x, case["lay"]))
    a = ax % nd
    want = ref.swt(ref.track(x), w, lv, a, sl, norm)
    cmp1(c, want, trim, dt, what)
    # equivariance under a circular shift
    s = case["shift"] % n
    xs = np.roll(x, s, a)
    roll = lambda t: ref.Tracked(np.roll(t.v, s, a), np.roll(t.m, s, a), np.roll(t.e, s, a))
    cmp1(f(xs), [(roll(p), roll(q)) for p, q in want], trim, dt, f"shift by {s}: " + what)
    t = x.any()
    if sl == 0:
        r = want[0][0]
        for i, (_, d) in enumerate(want):
            r = ref.iswtn_level({"a": r, "d": d}, [w], [a], lv - i, norm)
        pr = w != "dmey" and (isinstance(w, str) or w[0] != "custom")
        expect_x(pywt.iswt(c, W, norm=norm, axis=ax), r, x, dt, "iswt of " + what, exact=pr)
    if lv == maxlev(n) - sl:
        c2 = pywt.swt(x, W, start_level=sl, axis=ax, trim_approx=trim, norm=norm)
        require(len(c2) == len(c), f"default level of {what}: {len(c2)} entries, expected {len(c)}")
    return [f"{nd}-D", "dt=" + dt, "trim" if trim else "full", "norm" if norm else "plain", "start>0" if sl else "start=0",
            "filter>signal" if ref.flen(w) > n else "filter<=signal", "odd-multiple" if n & (n - 1) else "power-of-two"] if t else []


# ------------------------------------------------------------------ inverse of arbitrary coefficients
@st.composite
def st_inv(draw):
    nd = draw(st.integers(1, 3))
    axes = draw(g.st_axes(nd))
    k = draw(st.integers(1, 3 if len(axes) == 1 else 2))
    shape = [draw(st.integers(1, 4)) for _ in range(nd)]
    for a in axes:
        shape[a] = draw(st.sampled_from([1, 1, 3] if len(axes) > 1 else [1, 3, 5])) * 2 ** k
    ws = [draw(st.one_of(g.st_pr_wavelet(), g.st_wavelet())) for _ in axes]
    if draw(st.booleans()):
        ws = [ws[0]] * len(axes)
    dts = [draw(g.st_dtype())] * (1 + k)
    if draw(st.integers(0, 2)) == 0:
        dts = [draw(g.st_dtype()) for _ in range(1 + k)]
    return {"shape": shape, "axes": axes, "ws": ws, "level": k, "norm": draw(st.booleans()), "dts": dts, "s": draw(st.integers(0, 10 ** 6)),
            "lay": draw(st.sampled_from(g.LAYOUTS)), "tuple": draw(st.booleans())}


def wargs(ws, form):
    W = [g.wav(w) for w in ws]
    if all(w == ws[0] for w in ws) and form:
        return W[0]
    return tuple(W)


@law("P05", strategy=st_inv, quick=300, thorough=10000)
def inverse_of_arbitrary_trimmed_coefficients(case):
    shape, axes, ws, lv, dts = case["shape"], case["axes"], case["ws"], case["level"], case["dts"]
    nd = len(shape)
    if not nd or not axes or any(not -nd <= a < nd for a in axes) or len(ws) != len(axes) or lv < 1 or len(dts) != lv + 1:
        raise Reject
    ax = [a % nd for a in axes]
    if len(set(ax)) < len(ax) or any(maxlev(shape[a]) < lv or shape[a] < 2 for a in ax) or min(shape) < 1:
        raise Reject
    for w in ws:
        g.wav(w)
    keys = ["".join(p) for p in itertools.product("ad", repeat=len(ax))]
    norm = case["norm"]
    a0 = make({"k": "normal", "s": case["s"]}, shape, dts[0])
    details = []
    for i in range(lv):
        details.append({k: make({"k": "normal", "s": case["s"] + 10 * i + j + 1}, shape, dts[i + 1]) for j, k in enumerate(keys[1:])})
    t = ref.track(a0)
    for i, d in enumerate(details):
        t = ref.iswtn_level(dict({k: ref.track(v) for k, v in d.items()}, **{keys[0]: t}), ws, ax, lv - i, norm)
    # precision: once double, always double; any single-precision band limits the accuracy of the bands it meets
    dt = "f4" if any(d in ("f4", "c8") for d in dts) else "f8"
    cplx = any(d in ("c8", "c16") for d in dts)
    W = wargs(ws, case["tuple"])
    L = lambda v: layout(v, case["lay"])
    coeffs = [L(a0)] + [{k: L(v) for k, v in d.items()} for d in details]
    what = f"(shape={shape},{ws},axes={axes},levels={lv},norm={norm},{dts})"
    got = {"iswtn": pywt.iswtn(coeffs, W, axes=axes, norm=norm)}
    if len(ax) == 1:
        c1 = [L(a0)] + [L(d["d"]) for d in details]
        got["iswt"] = pywt.iswt(c1, g.wav(ws[0]), norm=norm, axis=axes[0])
    if len(ax) == 2:
        c2 = [L(a0)] + [(L(d["da"]), L(d["ad"]), L(d["dd"])) for d in details]
        got["iswt2"] = pywt.iswt2(c2, W, norm=norm, axes=tuple(axes))
        if nd == 2 and ax == [0, 1]:
            got["iswt2 default axes"] = pywt.iswt2(c2, W, norm=norm)
    if ax == list(range(nd)):
        got["iswtn default axes"] = pywt.iswtn(coeffs, W, norm=norm)
    for name, y in got.items():
        require((y.dtype.kind == "c") == cplx, lambda: f"{name}{what}: dtype {y.dtype}")
        if len(set(dts)) == 1:
            require(y.dtype == NP[dts[0]], lambda: f"{name}{what}: dtype {y.dtype}")
        close(y, t, dt, name + what)
    return [f"axes={len(ax)}", "mixed-dtypes" if len(set(dts)) > 1 else "dt=" + dts[0], f"levels={lv}", "norm" if norm else "plain",
            "wavelet-per-axis" if len(set(map(str, ws))) > 1 else "one-wavelet", "axes-out-of-order" if ax != sorted(ax) else "in-order"]


# ------------------------------------------------------------------ n-D
@st.composite
def st_nd(draw):
    nd = draw(st.integers(1, 3))
    axes = draw(g.st_axes(nd))
    k = draw(st.integers(1, 3 if len(axes) == 1 else 2))
    shape = [draw(st.integers(1, 4)) for _ in range(nd)]
    for a in axes:
        shape[a] = draw(st.sampled_from([1, 1, 3])) * 2 ** k
    ws = [draw(g.st_pr_wavelet()) for _ in axes]
    if draw(st.booleans()):
        ws = [ws[0]] * len(axes)
    sl = draw(st.integers(0, k - 1))
    return {"shape": shape, "axes": axes, "ws": ws, "sl": sl, "level": draw(st.integers(1, k - sl)), "trim": draw(st.booleans()),
            "norm": draw(st.booleans()), "dt": draw(g.st_dtype()), "lay": draw(st.sampled_from(g.LAYOUTS)), "one": draw(st.booleans()),
            "data": draw(st_data())}


@law("P05", strategy=st_nd, quick=150, thorough=5000)
def warns_where_the_energy_is_not_kept(case):
    """the norm option warns exactly when one of the wavelets is not orthogonal"""
    shape, axes, ws, sl, lv = case["shape"], case["axes"], case["ws"], case["sl"], case["level"]
    nd = len(shape)
    if not nd or not axes or any(not -nd <= a < nd for a in axes) or len(ws) != len(axes) or lv < 1 or sl < 0 or min(shape) < 1:
        raise Reject
    ax = [a % nd for a in axes]
    if len(set(ax)) < len(ax) or any(shape[a] < 2 or maxlev(shape[a]) < sl + lv for a in ax):
        raise Reject
    W = wargs(ws, case["one"])
    x = make(case["data"], shape, case["dt"])
    calls = {"swtn": (ws, lambda: pywt.swtn(x, W, lv, sl, axes, case["trim"], case["norm"]))}
    if len(ax) == 2:
        calls["swt2"] = (ws, lambda: pywt.swt2(x, W, lv, sl, axes, case["trim"], case["norm"]))
    for i, a in enumerate(axes):
        calls[f"swt {i}"] = ([ws[i]], lambda i=i, a=a: pywt.swt(x, g.wav(ws[i]), lv, sl, axis=a, trim_approx=case["trim"], norm=case["norm"]))
    kinds = set()
    for k, (used, f) in calls.items():
        orth = [bool(g.wav(v).orthogonal) for v in used]
        with warnings.catch_warnings(record=True) as rec:
            warnings.simplefilter("always")
            f()
        said = [str(r.message) for r in rec if "orthogonal" in str(r.message)]
        need = bool(case["norm"]) and not all(orth)
        require(bool(said) == need, lambda: f"{k} of shape {shape}, axes {axes}, {used}, norm={case['norm']}: {'no warning' if need else 'a warning'} about energy ({said})")
        kinds.add("warns" if need else "quiet")
    return sorted(kinds) + [f"orthogonal={sum(bool(g.wav(v).orthogonal) for v in ws)}/{len(ws)}"]


@law("P05", strategy=st_nd, quick=400, thorough=12000)
def swtn_and_swt2_definition_and_inverse(case):
    shape, axes, ws, sl, lv, dt = case["shape"], case["axes"], case["ws"], case["sl"], case["level"], case["dt"]
    nd = len(shape)
    if not nd or not axes or any(not -nd <= a < nd for a in axes) or len(ws) != len(axes) or lv < 1 or sl < 0 or min(shape) < 1:
        raise Reject
    ax = [a % nd for a in axes]
    if len(set(ax)) < len(ax) or any(shape[a] < 2 or maxlev(shape[a]) < sl + lv for a in ax):
        raise Reject
    W = wargs(ws, case["one"])
    trim, norm = case["trim"], case["norm"]
    x = make(case["data"], shape, dt)
    X = layout(x, case["lay"])
    what = f"(shape={shape},{ws},axes={axes},level={lv},start={sl},trim={trim},norm={norm},{dt})"
    want = ref.swtn(ref.track(x), ws, lv, ax, sl, norm)
    k0 = "a" * len(ax)

    def cmp(c, what):
        require(isinstance(c, list) and len(c) == lv + trim, lambda: f"{what}: {len(c)} entries for {lv} levels")
        if trim:
            close(c[0], want[0][k0], dt, what + "[0]")
            require(c[0].dtype == NP[dt], lambda: f"{what}: dtype {c[0].dtype}")
        for i, d in enumerate(c[1:] if trim else c):
            keys = set(want[i]) - ({k0} if trim else set())
            require(set(d) == keys, lambda: f"{what}[{i}]: bands {sorted(d)}")
            for k in keys:
                close(d[k], want[i][k], dt, f"{what}[{i}][{k}]")
                require(d[k].dtype == NP[dt], lambda: f"{what}: dtype {d[k].dtype}")
    c = pywt.swtn(X, W, lv, sl, axes, trim, norm)
    cmp(c, "swtn" + what)
    r = want[0][k0]
    for i, d in enumerate(want):
        r = ref.iswtn_level(dict(d, **{k0: r}), ws, ax, lv - i, norm)
    exact = "dmey" not in ws
    if sl == 0:
        expect_x(pywt.iswtn(c, W, axes=axes, norm=norm), r, x, dt, "iswtn of swtn" + what, exact)
    if ax == list(range(nd)):
        cmp(pywt.swtn(X, W, lv, sl, trim_approx=trim, norm=norm), "default axes of swtn" + what)
    if len(ax) == 2:
        c2 = pywt.swt2(X, W, lv, sl, axes, trim, norm)

        def asdict(c2):
            out = []
            for i, e in enumerate(c2):
                if trim and i == 0:
                    out.append(e)
                elif trim:
                    out.append(dict(zip(("da", "ad", "dd"), e)))
                else:
                    require(isinstance(e, tuple) and len(e) == 2 and len(e[1]) == 3, "swt2 entry layout")
                    out.append(dict(zip(("da", "ad", "dd"), e[1]), aa=e[0]))
            return out
        cmp(asdict(c2), "swt2" + what)
        if ax == [nd - 2, nd - 1]:
            cmp(asdict(pywt.swt2(X, W, lv, sl, trim_approx=trim, norm=norm)), "default axes of swt2" + what)
        if sl == 0:
            expect_x(pywt.iswt2(c2, W, norm=norm, axes=tuple(axes)), r, x, dt, "iswt2 of swt2" + what, exact)
            if nd == 2 and ax == [0, 1]:
                expect_x(pywt.iswt2(c2, W, norm=norm), r, x, dt, "iswt2 of swt2 (default axes)" + what, exact)
    t = [f"{nd}-D", f"axes={len(ax)}", "dt=" + dt, "trim" if trim else "full", "norm" if norm else "plain", "start>0" if sl else "start=0"]
    if len(set(map(str, ws))) > 1:
        t.append("wavelet-per-axis")
    if ax != sorted(ax):
        t.append("axes-out-of-order")
    return t if x.any() else []


# ------------------------------------------------------------------ energy
@st.composite
def st_energy(draw):
    nd = draw(st.integers(1, 3))
    axes = draw(g.st_axes(nd))
    k = draw(st.integers(1, 4 if nd == 1 else 2))
    shape = [draw(st.integers(1, 4)) for _ in range(nd)]
    for a in axes:
        shape[a] = draw(st.sampled_from([1, 3])) * 2 ** k
    ws = [draw(g.st_pr_wavelet(ortho=True)) for _ in axes]
    return {"shape": shape, "axes": axes, "ws": ws, "level": k, "dt": draw(g.st_dtype()), "s": draw(st.integers(0, 10 ** 6))}


@law("P05", strategy=st_energy, quick=200, thorough=5000)
def norm_keeps_energy(case):
    """With norm, trim and an orthogonal wavelet the coefficients have the energy of the data."""
    shape, axes, ws, lv, dt = case["shape"], case["axes"], case["ws"], case["level"], case["dt"]
    nd = len(shape)
    if not nd or not axes or any(not -nd <= a < nd for a in axes) or len(ws) != len(axes) or lv < 1 or min(shape) < 1:
        raise Reject
    ax = [a % nd for a in axes]
    if len(set(ax)) < len(ax) or any(shape[a] < 2 or maxlev(shape[a]) < lv for a in ax) or not all(ref.is_ortho(w) for w in ws):
        raise Reject
    W = tuple(g.wav(w) for w in ws)
    x = make({"k": "normal", "s": case["s"]}, shape, dt)
    e = float(np.sum(np.abs(x.astype(np.complex128)) ** 2))
    rt = (2e-2 if "dmey" in ws else 1e-7) if dt in ("f8", "c16") else 2e-2 if "dmey" in ws else 2e-4

    def energy(c):
        v = [c[0]]
        for d in c[1:]:
            v += list(d.values()) if isinstance(d, dict) else list(d) if isinstance(d, tuple) else [d]
        return float(sum(np.sum(np.abs(q.astype(np.complex128)) ** 2) for q in v))
    got = {"swtn": energy(pywt.swtn(x, W, lv, axes=axes, trim_approx=True, norm=True))}
    if len(ax) == 1:
        got["swt"] = energy(pywt.swt(x, W[0], lv, axis=axes[0], trim_approx=True, norm=True))
    if len(ax) == 2:
        got["swt2"] = energy(pywt.swt2(x, W, lv, axes=axes, trim_approx=True, norm=True))
    for k, v in got.items():
        require(abs(v - e) <= rt * e, lambda: f"{k}(norm, trim) of shape {shape}, axes {axes}, {ws}: energy {v!r}, signal {e!r}")
    return [f"axes={len(ax)}", "dt=" + dt, f"level={lv}"]


# ------------------------------------------------------------------ large arrays
@st.composite
def st_large(draw):
    nd = draw(st.integers(1, 2))
    L = draw(st.integers(1, 9 if nd == 1 else 4))
    start = draw(st.sampled_from([0, 0, 0, 1, 2]))
    q = 2 ** (L + start)
    shape = [q * draw(st.integers(1, max(1, c // q))) for c in ([30000] if nd == 1 else [320, 320])]
    axes = [0] if nd == 1 else draw(st.sampled_from([[0], [1], [0, 1], [1, 0], [-1, -2]]))
    return {"shape": shape, "axes": axes, "w": draw(g.st_pr_wavelet()), "level": L, "start": start, "trim": draw(st.booleans()), "dt": draw(g.st_dtype()), "s": draw(st.integers(0, 10 ** 6))}


@law("P05", strategy=lambda: st_large(), quick=36, thorough=800)
def large_arrays(case):
    shape, axes, w, L, s0, trim, dt = (case[k] for k in ("shape", "axes", "w", "level", "start", "trim", "dt"))
    nd = len(shape)
    if not 1 <= nd <= 2 or len({a % nd for a in axes}) != len(axes) or not axes or any(shape[a] % 2 ** (L + s0) for a in axes) or np.prod(shape) > 200000 or not 1 <= L <= 10:
        raise Reject
    x = fast.noise(shape, dt, case["s"])
    W = g.wav(w)
    what = f"(shape {shape}, {w}, level={L}, start_level={s0}, axes={axes}, {dt})"
    k = len(axes)
    c = pywt.swtn(x, W, L, s0, tuple(axes), trim)
    res = [{("a" * k if not isinstance(d, dict) else q): v for q, v in (d.items() if isinstance(d, dict) else [("", d)])} for d in c]
    if trim:
        res = [dict(res[1], **res[0])] + res[2:]
    require(len(res) == L, f"swtn{what}: {len(c)} entries")
    a, size = x, fast.top(x)
    for j in range(1, L + 1):
        b = {"": a}
        for ax in axes:
            b = {q + s: v for q, u in b.items() for s, v in zip("ad", fast.swt(u, w, j + s0, ax))}
        size = max(size, fast.top(*b.values()))
        a = b["a" * k]
        for q in res[-j]:
            fast.close(res[-j][q], b[q], dt, size, f"swtn{what}: band {q} of level {j + s0}", require, 10)
        require(set(b) - set(res[-j]) <= ({"a" * k} if trim else set()), f"swtn{what}: bands of level {j + s0}")
    if k == 1:
        d = pywt.swt(x, W, L, s0, axes[0], trim)
        flat = d if trim else [v for p in d for v in p]
        other = [v for e in c for v in (e.values() if isinstance(e, dict) else [e])]
        require(len(flat) == len(other), f"swt{what}: {len(flat)} arrays")
        for u, v in zip(flat, other):
            fast.close(u, np.asarray(v, u.dtype), dt, size, f"swt{what} against swtn", require)
    if s0 == 0 and w != "dmey" and np.prod(shape) * 2 ** (L * k) <= 4 * 10 ** 6:
        fast.close(pywt.iswtn(c, W, tuple(axes)), x, dt, size, f"iswtn{what}", require, 100)
        if k == 1:
            fast.close(pywt.iswt(d, W, axis=axes[0]), x, dt, size, f"iswt{what}", require, 100)
    return [f"{nd}-D", "level=%d" % L, "dt=" + dt, "trimmed" if trim else "full"]
