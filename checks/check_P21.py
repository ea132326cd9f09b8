"""P21: linearity; orthogonality: energy, inner products, transpose; shifts by the decimation factor."""
import itertools

import numpy as np
import pywt
from hypothesis import strategies as st

import gens as g
import ops
import ref
from core import EPS, NP, Reject, Violation, allclose, law, make, require, same

RULE = ("case = any of the 33 transform operations with generated shape, axes, wavelets, modes, level and dtype x two generated inputs x scalars; the "
        "oracle is the relation itself (weighted sum, exact power-of-two scaling, zero, inner product, transpose, shift); non-trivial when both "
        "inputs are non-zero")
ASSUMPTIONS = ["rounding of a weighted sum is bounded through the gain of the operation (product of absolute filter sums)",
               "energy is preserved up to the orthonormality defect of the published filters, computed from data/filters.json"]


# ------------------------------------------------------------------ linearity of everything
@st.composite
def st_lin(draw):
    return {"o": draw(ops.st_op()), "dt": draw(g.st_dtype()), "s": draw(st.integers(0, 10 ** 6)), "a": draw(st.integers(-40, 40)),
            "b": draw(st.integers(-40, 40)), "ai": draw(st.integers(-3, 3)), "e": draw(st.integers(-12, 12))}


def inputs(o, s, dt):
    return [make({"k": "normal", "s": s + i}, sh, dt) for i, sh in enumerate(o.shapes)]


def normal(v, dt):
    """v without the parts near or below the range in which scaling by a power of two is exact"""
    t = 1e-30 if dt in ("f4", "c8") else 1e-280
    if v.dtype.kind == "c":
        return np.where(abs(v.real) < t, 0, v.real) + 1j * np.where(abs(v.imag) < t, 0, v.imag)
    return np.where(abs(v) < t, 0, v)


@law("P21", strategy=st_lin, quick=900, thorough=30000)
def linear(case):
    o = ops.Op(case["o"])
    dt = case["dt"]
    if o.op == "cwt" and max(case["o"]["scales"]) > 60:
        raise Reject
    cplx = dt in ("c8", "c16")
    a, b = case["a"] / 8, case["b"] / 8
    if cplx:
        a = a + 1j * case["ai"]
    T = lambda v: o.run(v)
    x, y = inputs(o, case["s"], dt), inputs(o, case["s"] + 1000, dt)
    rt = NP[dt]
    z = [(rt(a) * p + rt(b) * q).astype(rt) for p, q in zip(x, y)]
    fx, fy, fz = T(x), T(y), T(z)
    what = f"{o.op}({case['o']},{dt})"
    require([k for k, _ in fx] == [k for k, _ in fz] and [k for k, _ in fx] == [k for k, _ in fy], lambda: f"{what}: the structure depends on the values")
    top = max([float(np.max(np.abs(v))) for v in x + y] + [0]) * (abs(a) + abs(b) + 1)
    scale = top * o.gain() * 64 * (1 + len(o.shapes))
    if o.op == "cwt":
        scale = top * 2000
    worst = 0
    for (k, p), (_, q), (_, r) in zip(fx, fy, fz):
        require(p.shape == r.shape and q.shape == r.shape, lambda: f"{what}{k}: shape depends on the values: {p.shape}, {q.shape}, {r.shape}")
        require(p.dtype == r.dtype == q.dtype, lambda: f"{what}{k}: dtype depends on the values")
        if not r.size:
            continue
        # a useful bound never exceeds a small part of the result's own size by much
        size = max(float(np.max(np.abs(p))) * abs(a) + float(np.max(np.abs(q))) * abs(b), 1e-30)
        tol = min(scale * EPS[dt], max(2e-2 * size, scale * EPS[dt] * 1e-2))
        d = np.abs(r - (a * p.astype(np.complex128) + b * q))
        if not np.all(d <= tol):
            i = tuple(int(t) for t in np.argwhere(~(d <= tol))[0])
            raise Violation(f"{what}{k}: T({a}x+{b}y){list(i)} = {r[i]!r}, but {a}T(x)+{b}T(y) = {a * p[i] + b * q[i]!r} (allowed difference {tol:.3g})")
        worst = max(worst, size)
    # exact: powers of two and signs
    s = rt(2.0) ** rt(case["e"])
    for (k, p), (_, q) in zip(fx, T([v * s for v in x])):
        same(normal(q, dt), normal((p * s).astype(p.dtype), dt), f"{what}{k}: T(2^{case['e']} x) against 2^{case['e']} T(x)")
    for (k, p), (_, q) in zip(fx, T([-v for v in x])):
        same(q + p.dtype.type(0), -p + p.dtype.type(0), f"{what}{k}: T(-x) against -T(x)")
    for k, p in T([np.zeros_like(v) for v in x]):
        require(not p.any() and np.isfinite(p).all(), lambda: f"{what}{k}: zero does not map to zero")
    return o.tags() + ["dt=" + dt, "mode=" + str(case["o"]["modes"][0])]


# ------------------------------------------------------------------ big dynamic range: exact additivity on disjoint exact data
@st.composite
def st_imp(draw):
    return {"o": draw(ops.st_op(ops=[x for x in ops.ALL if x != "cwt"])), "pos": draw(st.integers(0, 10 ** 6)), "dt": draw(g.st_dtype())}


@law("P21", strategy=st_imp, quick=300, thorough=10000)
def sum_of_unit_responses(case):
    """T(x) = sum of x_i T(e_i): no element is dropped, counted twice or mixed non-linearly."""
    o = ops.Op(case["o"])
    dt = case["dt"]
    x = [make({"k": "ints", "s": case["pos"] + i}, s, dt) for i, s in enumerate(o.shapes)]
    n = sum(v.size for v in x)
    if n > 150:
        raise Reject
    want = None
    fx = o.run(x)
    for i, v in enumerate(x):
        for j in range(v.size):
            if v.flat[j] == 0:
                continue
            e = [np.zeros_like(t) for t in x]
            e[i].flat[j] = 1
            r = [p.astype(np.complex128) * complex(v.flat[j]) for _, p in o.run(e)]
            want = r if want is None else [p + q for p, q in zip(want, r)]
    if want is None:
        return []
    scale = 9 * 1.5 * o.gain() * 64 * (n + 1)
    for (k, p), q in zip(fx, want):
        require(p.shape == q.shape, lambda: f"{o.op}{k}: shape {p.shape} against {q.shape} for a unit input")
        size = max(float(np.max(np.abs(q))) if q.size else 0, 1.0)
        d = np.abs(p - q)
        tol = min(scale * EPS[dt], max(2e-2 * size, scale * EPS[dt] * 1e-2))
        if not np.all(d <= tol):
            i = tuple(int(t) for t in np.argwhere(~(d <= tol))[0])
            raise Violation(f"{o.op}({case['o']},{dt}){k}{list(i)} is {p[i]!r}, the weighted sum of unit responses is {q[i]!r}")
    return o.tags() + ["dt=" + dt]


# ------------------------------------------------------------------ orthogonality
def defect(w):
    """bound of |<Tx,Ty> - <x,y>| / |x||y| of one level on one axis, from the filters alone"""
    lo, hi = (np.asarray(f) for f in ref.filters(w)[:2])
    F = len(lo)
    tot = 0.0
    for m in range(-(F // 2), F // 2 + 1):
        for p, q, same_ in ((lo, lo, 1), (hi, hi, 1), (lo, hi, 0)):
            k = 2 * m
            v = float(np.dot(p[max(0, -k):F - max(0, k)], q[max(0, k):F + min(0, k)])) if abs(k) < F else 0.0
            tot += abs(v - (same_ if m == 0 else 0)) * (1 if same_ else 2)
    return tot


EN = ["dwt", "wavedec", "wp", "dwt2", "wavedec2", "wp2", "dwtn", "wavedecn", "wpn", "fswavedecn"]
DEF = {}


@st.composite
def st_energy(draw):
    op = draw(st.sampled_from(EN))
    nd = {"1": 1, "2": 2}.get(op[-1], draw(st.integers(1, 3)))
    if op in ops.ONE:
        nd = draw(st.integers(1, 3))
    if op in ops.TWO:
        nd = draw(st.integers(2, 3))
    axes = draw(g.st_axes(nd, 1 if op in ops.ONE else 2 if op in ops.TWO else 1, 1 if op in ops.ONE else 2 if op in ops.TWO else nd))
    k = len(axes)
    L = 1 if op.startswith("dwt") else draw(st.integers(1, 4 if k == 1 else 2))
    shape = [draw(st.integers(1, 3)) for _ in range(nd)]
    for a in axes:
        shape[a] = draw(st.sampled_from([1, 2, 3, 5] if k == 1 else [1, 2, 3])) * 2 ** L
    w = st.one_of(st.sampled_from(["haar", "db2", "db4", "sym5", "coif2"]), g.st_pr_wavelet(ortho=True))
    ws = [draw(w)] * k
    if draw(st.booleans()) and not op.startswith("wp"):
        ws = [draw(w) for _ in axes]
    return {"op": op, "shape": shape, "axes": axes, "ws": ws, "level": L, "dt": draw(g.st_dtype()), "s": draw(st.integers(0, 10 ** 6))}


def opcfg(case, op, modes=None, wf="obj"):
    return {"op": op, "shape": case["shape"], "axes": case["axes"], "ws": case["ws"], "modes": modes or ["periodization"] * len(case["axes"]), "level": case["level"],
            "stat": False, "trim": True, "norm": True, "part": "a", "scales": [1], "method": "conv", "wf": wf}


def leaves(o, r):
    """coefficient arrays that make up the transform"""
    if o.op.startswith("wp"):
        return [v for k, v in r if k.startswith(f"[{o.level - 1}]")]
    return [v for _, v in r]


@law("P21", strategy=st_energy, quick=500, thorough=15000)
def orthogonal_periodization_is_an_isometry(case):
    for w in case["ws"]:
        if isinstance(w, str) and w not in ref.ORTHO or not isinstance(w, str) and w[0] != "ortho":
            raise Reject
    o = ops.Op(opcfg(case, case["op"]))
    if any(case["shape"][a] % 2 ** o.level for a in o.axes):
        raise Reject
    dt = case["dt"]
    x, y = make({"k": "normal", "s": case["s"]}, o.shape, dt), make({"k": "normal", "s": case["s"] + 1}, o.shape, dt)
    cx, cy = leaves(o, o.run([x])), leaves(o, o.run([y]))
    C = np.complex128
    ip = sum(np.vdot(p.astype(C), q.astype(C)) for p, q in zip(cx, cy))
    ex = sum(np.vdot(p.astype(C), p.astype(C)).real for p in cx)
    nx, ny = np.linalg.norm(x.astype(C)), np.linalg.norm(y.astype(C))
    tot = 1.0
    for w in case["ws"]:
        key = str(w)
        if key not in DEF:
            DEF[key] = defect(w)
        tot *= (1 + DEF[key]) ** o.level
    tol = (tot - 1) + 40 * EPS[dt] * sum(ref.flen(w) for w in case["ws"]) * o.level
    what = f"{case['op']}({case['ws']},periodization,shape={case['shape']},axes={case['axes']},level={o.level},{dt})"
    require(abs(ip - np.vdot(x.astype(C), y.astype(C))) <= tol * nx * ny, lambda: f"{what}: inner product {ip}, of the data {np.vdot(x.astype(C), y.astype(C))}")
    require(abs(ex - nx ** 2) <= tol * nx ** 2, lambda: f"{what}: energy {ex}, of the data {nx ** 2}")
    n = sum(p.size for p in cx)
    require(n == x.size, lambda: f"{what}: {n} coefficients of {x.size} samples")
    return ["op=" + case["op"], "dt=" + dt, "level=%d" % o.level, "short" if any(case["shape"][a] < ref.flen(w) for a, w in zip(o.axes, case["ws"])) else "long"]


# ------------------------------------------------------------------ transposes
PAIRS = {"dwt": "idwt", "wavedec": "waverec", "dwt2": "idwt2", "wavedec2": "waverec2", "dwtn": "idwtn", "wavedecn": "waverecn", "fswavedecn": "fswaverecn",
         "swt": "iswt", "swt2": "iswt2", "swtn": "iswtn", "wp": "wprec"}


@st.composite
def st_tr(draw):
    op = draw(st.sampled_from(sorted(PAIRS)))
    c = draw(ops.st_op(ops=[op]))
    m = draw(st.sampled_from(["periodization", "zero", "zero"]))
    if m == "periodization" and "swt" not in op:
        for a in c["axes"]:
            L = 1 if op.startswith("dwt") or op.startswith("idwt") else c["level"]
            c["shape"][a] = max(1, c["shape"][a] // 2 ** L) * 2 ** L
    ms = [m] * len(c["axes"])
    return {"o": dict(c, modes=ms, trim=True, norm=True, stat="swt" in op, wf="obj"), "s": draw(st.integers(0, 10 ** 6)), "dt": draw(g.st_dtype())}


def dual(w):
    """the wavelet whose synthesis is the transpose of w's analysis"""
    W = g.wav(w)
    return pywt.Wavelet("dual", W.inverse_filter_bank)


@law("P21", strategy=st_tr, quick=500, thorough=15000)
def inverse_with_the_dual_is_the_transpose(case):
    """<T_w x, c> = <x, S_w' c> for every x and c, where w' has the time-reversed filters (w itself when orthogonal)."""
    cfg = case["o"]
    if cfg["op"] not in PAIRS or any(m not in ("zero", "periodization") for m in cfg["modes"]) or not cfg["trim"] or not cfg["norm"]:
        raise Reject
    o = ops.Op(cfg)
    if cfg["stat"] and "swt" not in cfg["op"]:
        raise Reject
    if not o.stat:
        n = 1 if o.op.startswith("dwt") else o.level
        for lv in o.levels[:n]:
            for a, m in zip(o.axes, cfg["modes"]):
                if m == "periodization" and lv[a] % 2:
                    raise Reject
    b = ops.Op(dict(cfg, op=PAIRS[o.op]))
    orth = all(isinstance(w, list) and w[0] == "ortho" or w in ref.ORTHO for w in cfg["ws"])
    if not orth:
        D = [dual(w) for w in cfg["ws"]]
        b.wa = D if len(D) > 1 else D[0]
        if o.op in ("swt", "swt2", "swtn"):
            # norm=True is meant for orthogonal wavelets; the relation needs it only for its scale
            pass
    if o.op == "wp" and not orth:
        raise Reject
    dt = case["dt"]
    x = make({"k": "normal", "s": case["s"]}, o.shape, dt)
    c = [make({"k": "normal", "s": case["s"] + 1 + i}, s, dt) for i, s in enumerate(b.shapes)]
    r = o.call(x)
    Tx = [v for _, v in ops.flatten(r)]
    if o.op == "wp":
        Tx = leaves(o, ops.flatten(r))
    if o.op == "fswavedecn":
        c = [make({"k": "normal", "s": case["s"] + 1}, r.coeffs.shape, dt)]
        f = pywt.FswavedecnResult(c[0], r.coeff_slices, [b.wa] * len(o.axes) if not isinstance(b.wa, list) else b.wa, [int(getattr(pywt.Modes, m)) for m in cfg["modes"]], r.axes)
        Sc = pywt.fswaverecn(f)
    else:
        if o.op == "dwt2" or o.op == "wavedec2":
            pass
        got = [v.shape for v in Tx]
        if sorted(got) != sorted(tuple(s) for s in b.shapes):
            raise Violation(f"{o.op}({cfg}): coefficient shapes {got}, the inverse takes {b.shapes}")
        Sc = b.call(b.prepare(c))
    # order of the arrays as the packed structure flattens
    cf = [v for _, v in ops.flatten(b.prepare(c))] if o.op not in ("fswavedecn", "wp") else c
    Sc = Sc[tuple(slice(0, n) for n in o.shape)]
    C = np.complex128
    lhs = sum(complex(np.sum(p.astype(C) * q.astype(C))) for p, q in zip(Tx, cf))
    rhs = complex(np.sum(x.astype(C) * Sc.astype(C)))
    size = max(np.linalg.norm(x.astype(C)) * np.sqrt(sum(np.linalg.norm(v.astype(C)) ** 2 for v in c)), 1e-30)
    tol = 64 * EPS[dt] * o.gain() * (10 + sum(ref.flen(w) for w in cfg["ws"]))
    tol = min(tol, 1e-2) * size
    require(abs(lhs - rhs) <= tol, lambda: f"{o.op}({cfg},{dt}): <T x, c> = {lhs}, but <x, S c> = {rhs} (allowed difference {tol:.3g})")
    return ["op=" + o.op, "mode=" + cfg["modes"][0], "orthogonal" if orth else "dual", "dt=" + dt]


# ------------------------------------------------------------------ shifts by the decimation factor
SH = ["dwt", "wavedec", "wp", "dwt2", "wavedec2", "wp2", "dwtn", "wavedecn", "wpn", "downcoef", "fswavedecn"]


@st.composite
def st_shift(draw):
    c = draw(ops.st_op(ops=SH))
    L = 1 if c["op"].startswith("dwt") else c["level"]
    for a in c["axes"]:
        c["shape"][a] = max(1, c["shape"][a] // 2 ** L) * 2 ** L
    if c["op"].startswith("wp"):
        c["ws"] = [c["ws"][0]] * len(c["ws"])
    return {"o": dict(c, modes=["periodization"] * len(c["axes"])), "s": draw(st.integers(0, 10 ** 6)), "dt": draw(g.st_dtype()), "by": [draw(st.integers(0, 4)) for _ in c["axes"]]}


@law("P21", strategy=st_shift, quick=300, thorough=10000)
def shift_by_the_decimation_factor(case):
    cfg = case["o"]
    o = ops.Op(cfg)
    if o.op not in SH or any(m != "periodization" for m in cfg["modes"]) or len(case["by"]) != len(o.axes):
        raise Reject
    L = 1 if o.op.startswith("dwt") else o.level
    if any(cfg["shape"][a] % 2 ** L for a in o.axes):
        raise Reject
    x = make({"k": "normal", "s": case["s"]}, o.shape, case["dt"])
    sh = x
    for a, b in zip(o.axes, case["by"]):
        sh = np.roll(sh, b * 2 ** L, a)
    T = (lambda v: ops.flatten(o.call(v))[:-1]) if o.op.startswith("wp") else (lambda v: ops.flatten(o.call(v)))
    if o.op == "fswavedecn":
        # the blocks: 2^L shifts move the level-j details by 2^(L-j)
        def T(v):
            f = o.call(v)
            out = []
            for idx in itertools.product(*[range(len(s)) for s in f.coeff_slices]):
                sl = [slice(None)] * v.ndim
                for d, (ax, i) in enumerate(zip(o.axes, idx)):
                    sl[ax] = f.coeff_slices[d][i]
                out.append((f"[{idx}]", f.coeffs[tuple(sl)]))
            return out
    gain = o.gain()
    for (k, p), (_, q) in zip(T(x), T(sh)):
        want = p
        for a, b in zip(o.axes, case["by"]):
            n, m = o.shape[a], p.shape[a]
            step = b * 2 ** L * m
            require(n % m == 0 and step % n == 0, lambda: f"{o.op}{k}: {m} coefficients of {n} samples")
            want = np.roll(want, step // n, a)
        d = np.abs(q - want)
        tol = 16 * EPS[case["dt"]] * gain * 6
        tol = min(tol, 1e-2)
        require(np.all(d <= tol), lambda: f"{o.op}({cfg}){k}: a shift of the data by {[b * 2 ** L for b in case['by']]} does not shift the coefficients (difference {d.max():.3g})")
    return ["op=" + o.op, "dt=" + case["dt"]] if any(case["by"]) else []
