"""P06: multiresolution components are single-band projections that add up to the input."""
import itertools

import numpy as np
import pywt
from hypothesis import strategies as st

import gens as g
import ref
from core import EPS, NP, Reject, Violation, close, law, layout, make, require, same, st_data
from check_P03 import args, cfg_tags, check_cfg, level_shapes, st_cfg
from check_P05 import maxlev

RULE = ("case = transform kind x wavelet(s) x mode(s) x shape x axes x level (or default) x dtype x layout x data recipe; every component is "
        "compared with the reference synthesis of that single band; non-trivial when at least one level is applied to non-zero data")
ASSUMPTIONS = ["filters are the snapshot in data/filters.json (checked by P11)"]


def copies(c):
    if isinstance(c, np.ndarray):
        return c.copy()
    if isinstance(c, dict):
        return {k: copies(v) for k, v in c.items()}
    return type(c)(copies(v) for v in c)


def unchanged(c, before, what):
    if isinstance(c, np.ndarray):
        same(c, before, what)
    elif isinstance(c, dict):
        for k in c:
            unchanged(c[k], before[k], what)
    else:
        for v, w in zip(c, before):
            unchanged(v, w, what)


def flat(kind, c):
    """[(position, array)] of a 1-D / 2-D / n-D component list with n-D names."""
    out = [((0, None), c[0])]
    for j, e in enumerate(c[1:], 1):
        if kind == 1:
            out.append(((j, "d"), e))
        elif kind == 2:
            require(isinstance(e, tuple) and len(e) == 3, "mra2 entries must be 3-tuples")
            out += [((j, k), v) for k, v in zip(("da", "ad", "dd"), e)]
        else:
            require(isinstance(e, dict), "mran entries must be dictionaries")
            out += [((j, k), v) for k, v in e.items()]
    return out


def zero(t):
    return ref.Tracked(np.zeros_like(t.v), np.zeros(t.v.shape), np.zeros(t.v.shape))


def bands_of(want, key):
    """Reference multilevel coefficients -> list of positions."""
    pos = [(0, None)]
    for j, d in enumerate(want[1:], 1):
        pos += [(j, k) for k in sorted(d) if k != key]
    return pos


def single(want, pos):
    out = [want[0] if pos == (0, None) else zero(want[0])]
    for j, d in enumerate(want[1:], 1):
        out.append({k: v if pos == (j, k) else zero(v) for k, v in d.items()})
    return out


def compare(got, want, inv, x, dt, what, pr):
    pos = bands_of(want, None)
    g_ = dict(got)
    require(set(g_) == set(pos) and len(got) == len(pos), lambda: f"{what}: components {sorted(map(str, g_))}, expected {sorted(map(str, pos))}")
    em = np.zeros(x.shape)
    mm = np.zeros(x.shape)
    for p in pos:
        t = ref.crop(inv(single(want, p)), x.shape)
        c = g_[p]
        require(isinstance(c, np.ndarray) and c.shape == x.shape, lambda: f"{what}: component {p} has shape {getattr(c, 'shape', type(c))}, data {x.shape}")
        require(c.dtype == NP[dt], lambda: f"{what}: component {p} has dtype {c.dtype}")
        close(c, t, dt, f"{what}: component {p}")
        em = em + t.e + (len(pos) + 4) * t.m
        mm = mm + t.m
    return em, mm


def additive(fn, c, got, x, dt, em, mm, what, pr):
    before = copies(c)
    y = fn(c)
    unchanged(c, before, f"{fn.__name__} modified its input")
    y2 = fn(c)
    same(y, y2, f"{fn.__name__} is not repeatable")
    require(y.shape == x.shape and y.dtype == NP[dt], lambda: f"{what}: sum has shape {y.shape}, dtype {y.dtype}")
    s = sum(v.astype(np.complex128) for _, v in got)
    tol = em * EPS[dt] + 1e-37
    require(np.all(np.abs(y - s) <= tol), lambda: f"{fn.__name__} is not the sum of its components ({what})")
    if pr:
        bad = ~(np.abs(y - x) <= tol + 1e-9 * mm)
        if bad.any():
            i = tuple(int(k) for k in np.argwhere(bad)[0])
            raise Violation(f"components of {what} add up to {y[i]!r} at {list(i)}, the data has {x[i]!r}")


# ------------------------------------------------------------------ decimated
@st.composite
def st_dec(draw):
    c = draw(st_cfg(multi=True, pr=True))
    if np.prod(c["shape"]) > 400:
        c["shape"] = [min(s, 8) for s in c["shape"]]
    c["level"] = draw(st.one_of(st.none(), st.integers(0, 2 if len(c["axes"]) > 1 else 3)))
    c["list"] = draw(st.integers(0, 9)) == 0
    return c


@law("P06", strategy=st_dec, quick=250, thorough=8000)
def decimated_components(case):
    axes = check_cfg(case)
    if len(set(axes)) < len(axes) or min(case["shape"]) < 1:
        raise Reject
    shapes, lv = level_shapes(case, axes)
    if shapes is None:
        raise Reject
    dt = case["dt"]
    x = make(case["data"], case["shape"], dt)
    X = layout(x, case["lay"])
    if case["list"] and dt in ("f8", "c16"):
        X = x.tolist()
    w, m = args(case)
    nd = len(case["shape"])
    want = ref.wavedecn(ref.track(x), case["ws"], case["modes"], lv, axes)
    inv = lambda cs: ref.waverecn(cs, case["ws"], case["modes"], axes)
    pr = "dmey" not in case["ws"]
    what = f"(shape={case['shape']},{case['ws']},{case['modes']},level={case['level']},axes={case['axes']})"
    c = pywt.mran(X, w, case["level"], tuple(case["axes"]), "dwtn", m)
    require(isinstance(c, list) and len(c) == lv + 1, lambda: f"mran{what}: {len(c)} entries for level {lv}")
    got = flat(3, c)
    em, mm = compare(got, want, inv, x, dt, "mran" + what, pr)
    additive(pywt.imran, c, got, x, dt, em, mm, "mran" + what, pr)
    if axes == list(range(nd)):
        for (p, v), (q, u) in zip(got, flat(3, pywt.mran(X, w, case["level"], transform="dwtn", mode=m))):
            require(p == q, "mran default axes")
            same(v, u, "mran default axes")
    if len(axes) == 1:
        c = pywt.mra(X, g.wav(case["ws"][0]), case["level"], case["axes"][0], "dwt", g.marg(case["modes"][0], case["mf"]))
        got = flat(1, c)
        em, mm = compare(got, want, inv, x, dt, "mra" + what, pr)
        additive(pywt.imra, c, got, x, dt, em, mm, "mra" + what, pr)
    if len(axes) == 2:
        c = pywt.mra2(X, w, case["level"], tuple(case["axes"]), "dwt2", m)
        got = flat(2, c)
        em, mm = compare(got, want, inv, x, dt, "mra2" + what, pr)
        additive(pywt.imra2, c, got, x, dt, em, mm, "mra2" + what, pr)
        if axes == [nd - 2, nd - 1]:
            for (p, v), (q, u) in zip(got, flat(2, pywt.mra2(X, w, case["level"], transform="dwt2", mode=m))):
                same(v, u, "mra2 default axes")
    return cfg_tags(case, axes) + [f"level={min(lv, 3)}", "default-level" if case["level"] is None else "explicit"] if lv and x.any() else []


# ------------------------------------------------------------------ stationary
@st.composite
def st_stat(draw):
    nd = draw(st.integers(1, 3))
    axes = draw(g.st_axes(nd))
    k = draw(st.integers(1, 4 if len(axes) == 1 else 2))
    shape = [draw(st.integers(1, 4)) for _ in range(nd)]
    for a in axes:
        shape[a] = draw(st.sampled_from([1, 3, 5] if len(axes) == 1 else [1, 1, 3])) * 2 ** k
    if np.prod(shape) > 300:
        shape = [min(s, 2 ** k) for s in shape]
    ws = [draw(g.st_pr_wavelet()) for _ in axes]
    if draw(st.booleans()):
        ws = [ws[0]] * len(axes)
    return {"shape": shape, "axes": axes, "ws": ws, "level": draw(st.one_of(st.none(), st.integers(1, k))), "dt": draw(g.st_dtype()),
            "lay": draw(st.sampled_from(g.LAYOUTS)), "data": draw(st_data()), "one": draw(st.booleans()), "shift": draw(st.integers(0, 9)),
            "list": draw(st.integers(0, 9)) == 0}


@law("P06", strategy=st_stat, quick=250, thorough=8000)
def stationary_components(case):
    shape, axes, ws, dt = case["shape"], case["axes"], case["ws"], case["dt"]
    nd = len(shape)
    if not nd or not axes or any(not -nd <= a < nd for a in axes) or len(ws) != len(axes) or min(shape) < 1:
        raise Reject
    ax = [a % nd for a in axes]
    mx = min(maxlev(shape[a]) for a in ax)
    lv = mx if case["level"] is None else case["level"]
    if len(set(ax)) < len(ax) or lv < 1 or lv > mx:
        raise Reject
    W = [g.wav(w) for w in ws]
    W = W[0] if case["one"] and all(w == ws[0] for w in ws) else tuple(W)
    x = make(case["data"], shape, dt)
    X = layout(x, case["lay"])
    if case["list"] and dt in ("f8", "c16"):
        X = x.tolist()
    k0 = "a" * len(ax)
    pr = "dmey" not in ws
    what = f"(shape={shape},{ws},level={case['level']},axes={axes})"

    def coefs(t):
        full = ref.swtn(t, ws, lv, ax, 0, True)
        return [full[0][k0]] + [{k: v for k, v in d.items() if k != k0} for d in full]

    def inv(cs):
        r = cs[0]
        for i, d in enumerate(cs[1:]):
            r = ref.iswtn_level(dict(d, **{k0: r}), ws, ax, lv - i, True)
        return r
    want = coefs(ref.track(x))
    c = pywt.mran(X, W, case["level"], tuple(axes))
    require(isinstance(c, list) and len(c) == lv + 1, lambda: f"mran{what}: {len(c)} entries for level {lv}")
    got = flat(3, c)
    em, mm = compare(got, want, inv, x, dt, "mran" + what, pr)
    additive(pywt.imran, c, got, x, dt, em, mm, "mran" + what, pr)
    # shift equivariance of every component
    s = case["shift"]
    xs = np.roll(x, s, ax[0])
    gs = dict(flat(3, pywt.mran(xs, W, case["level"], tuple(axes), "swtn")))
    tol = em * EPS[dt] * 2 + 1e-37
    for p, v in got:
        require(np.all(np.abs(gs[p] - np.roll(v, s, ax[0])) <= np.roll(tol, s, ax[0]) + tol), f"mran{what}: component {p} does not follow a shift by {s}")
    if ax == list(range(nd)):
        for (p, v), (q, u) in zip(got, flat(3, pywt.mran(X, W, case["level"]))):
            same(v, u, "mran default axes")
    if len(ax) == 1:
        c = pywt.mra(X, g.wav(ws[0]), case["level"], axes[0])
        got = flat(1, c)
        em, mm = compare(got, want, inv, x, dt, "mra" + what, pr)
        additive(pywt.imra, c, got, x, dt, em, mm, "mra" + what, pr)
    if len(ax) == 2:
        c = pywt.mra2(X, W, case["level"], tuple(axes))
        got = flat(2, c)
        em, mm = compare(got, want, inv, x, dt, "mra2" + what, pr)
        additive(pywt.imra2, c, got, x, dt, em, mm, "mra2" + what, pr)
        if ax == [nd - 2, nd - 1]:
            for (p, v), (q, u) in zip(got, flat(2, pywt.mra2(X, W, case["level"]))):
                same(v, u, "mra2 default axes")
    t = [f"{nd}-D", f"axes={len(ax)}", "dt=" + dt, f"level={lv}", "default-level" if case["level"] is None else "explicit"]
    if len(ax) < nd:
        t.append("subset-of-axes")
    return t if x.any() else []


# ------------------------------------------------------------------ every wavelet, 1-D
def sweep_w(tier, seed):
    for w in ref.DISCRETE:
        for n in ([16, 24] if tier == "quick" else [8, 16, 24, 32, 40, 64]):
            yield {"w": w, "n": n, "kind": "swt", "mode": "periodization", "s": seed}
        for i, mode in enumerate(ref.MODES):
            n = [17, 30, 41][(i + seed + len(w)) % 3]
            yield {"w": w, "n": n, "kind": "dwt", "mode": mode, "s": seed}


@law("P06", sweep=sweep_w)
def every_wavelet_adds_up(case):
    w, n = case["w"], case["n"]
    if n < 4:
        raise Reject
    x = make({"k": "normal", "s": case["s"]}, n, "f8")
    c = pywt.mra(x, w, 2, transform=case["kind"], mode=case["mode"])
    require(len(c) == 3 and all(v.shape == x.shape for v in c), f"mra({case}): {[v.shape for v in c]}")
    d = np.abs(pywt.imra(c) - x).max()
    lim = 0.2 if w == "dmey" else 1e-6
    require(d <= lim * max(1, max(np.abs(v).max() for v in c)), lambda: f"mra({case}): components add up to within {d:.3g} only")
    # a projection: the component of a component in the same band has the other bands' share (orthogonal, periodic, even length)
    if ref.is_ortho(w) and w != "dmey" and case["kind"] == "dwt" and case["mode"] == "periodization" and n % 4 == 0:
        for j, v in enumerate(c):
            cc = pywt.mra(v, w, 2, transform="dwt", mode="periodization")
            for i, u in enumerate(cc):
                require(np.abs(u - (v if i == j else 0)).max() < 1e-6, f"mra({w}): band {i} of component {j}")
    return ["kind=" + case["kind"]]
