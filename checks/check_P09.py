"""P09: fully separable transform = complete 1-D multilevel transforms axis by axis; the result container."""
import itertools

import numpy as np
import pywt
from hypothesis import strategies as st

import fast
import gens as g
import ref
from core import EPS, NP, Reject, Violation, close, law, layout, make, require, same, st_data
from check_P03 import args, cfg_tags, check_cfg, st_cfg

RULE = ("case = shape x axes x wavelet, mode and level count per axis x dtype x layout x data recipe (x history of container writes); "
        "non-trivial when at least one level is applied to non-zero data")
ASSUMPTIONS = ["filters are the snapshot in data/filters.json (checked by P11)"]


@st.composite
def st_fs(draw, pr=True):
    c = draw(st_cfg(multi=True, pr=pr))
    c["levels"] = [draw(st.one_of(st.none(), st.integers(0, 3))) for _ in c["axes"]]
    if draw(st.integers(0, 2)) == 0:
        c["levels"] = [c["levels"][0]] * len(c["axes"])
    return c


def plan(case, axes):
    """levels per axis and the coefficient lengths per axis; Reject when a reflecting mode meets one sample."""
    levels, lens = [], []
    for a, w, m, l in zip(axes, case["ws"], case["modes"], case["levels"]):
        n = case["shape"][a]
        l = ref.max_level(n, ref.flen(w)) if l is None else l
        out = []
        for _ in range(l):
            if n < g.minlen(m):
                raise Reject
            n = ref.coeff_len(n, ref.flen(w), m)
            out.append(n)
        levels.append(l)
        lens.append([out[-1] if out else n] + out[::-1])
    return levels, lens


def cat(ts, axis):
    f = lambda k: np.concatenate([getattr(t, k) for t in ts], axis)
    return ref.Tracked(f("v"), f("m"), f("e"))


def forward(t, case, axes, levels):
    for a, w, m, l in zip(axes, case["ws"], case["modes"], levels):
        t = cat(ref.wavedec(t, w, m, l, a), a)
    return t


def cut(t, lo, hi, axis):
    sl = [slice(None)] * t.v.ndim
    sl[axis] = slice(lo, hi)
    sl = tuple(sl)
    return ref.Tracked(t.v[sl], t.m[sl], t.e[sl])


def backward(t, case, axes, lens):
    for a, w, m, ln in zip(axes, case["ws"], case["modes"], lens):
        off = np.cumsum([0] + ln)
        t = ref.waverec([cut(t, off[i], off[i + 1], a) for i in range(len(ln))], w, m, a)
    return t


def setup(case):
    axes = check_cfg(case)
    if len(set(axes)) < len(axes) or len(case["levels"]) != len(axes) or min(case["shape"]) < 1:
        raise Reject
    if any(l is not None and l < 0 for l in case["levels"]):
        raise Reject
    levels, lens = plan(case, axes)
    if np.prod([sum(l) for l in lens], dtype=float) * np.prod([s for i, s in enumerate(case["shape"]) if i not in axes], dtype=float) > 20000:
        raise Reject
    w, m = args(case)
    lv = case["levels"]
    if all(l == lv[0] for l in lv) and case["form"] == "scalar":
        lv = lv[0]
    elif case["form"] == "tuple":
        lv = tuple(lv)
    what = f"fswavedecn(shape={case['shape']},{case['ws']},{case['modes']},levels={case['levels']},axes={case['axes']})"
    return axes, levels, lens, w, m, lv, what


def block(lens, key):
    """bounds along each transformed axis of the block `key`"""
    out = []
    for ln, k in zip(lens, key):
        off = np.cumsum([0] + ln)
        out.append((int(off[k]), int(off[k + 1])))
    return out


@law("P09", strategy=lambda: st_fs(), quick=500, thorough=12000)
def transform_blocks_and_inverse(case):
    axes, levels, lens, w, m, lv, what = setup(case)
    nd = len(case["shape"])
    dt = case["dt"]
    x = make(case["data"], case["shape"], dt)
    res = pywt.fswavedecn(layout(x, case["lay"]), w, m, lv, tuple(case["axes"]))
    t = forward(ref.track(x), case, axes, levels)
    arr = res.coeffs
    require(isinstance(arr, np.ndarray) and arr.dtype == NP[dt], lambda: f"{what}: coefficient dtype {arr.dtype}")
    close(arr, t, dt, what)
    require(list(res.levels) == levels, lambda: f"{what}: levels {res.levels}, expected {levels}")
    require(res.ndim == nd and res.ndim_transform == len(axes), f"{what}: ndim")
    require([a % nd for a in res.axes] == axes, lambda: f"{what}: axes {res.axes}")
    require(list(res.modes) == case["modes"], lambda: f"{what}: modes {res.modes}")
    require(len(res.wavelets) == len(axes), f"{what}: wavelets")
    for v, u in zip(res.wavelets, case["ws"]):
        require(np.array_equal(v.dec_lo, ref.filters(u)[0]), lambda: f"{what}: wavelet {v.name} recorded for {u}")
    require(list(res.wavelet_names) == [v.name for v in res.wavelets], f"{what}: wavelet_names")
    # slices tile each axis in the documented order
    for i, ln in enumerate(lens):
        off = np.cumsum([0] + ln)
        got = [(s.start, s.stop) for s in res.coeff_slices[i]]
        require(got == [(off[k], off[k + 1]) for k in range(len(ln))], lambda: f"{what}: slices {got} along axis {axes[i]}")
    keys = sorted(itertools.product(*(range(l + 1) for l in levels)))
    z = keys.pop(0)
    require([tuple(k) for k in res.detail_keys()] == keys, lambda: f"{what}: detail_keys {res.detail_keys()[:10]}")

    def sub(key):
        sl = [slice(None)] * nd
        for a, (lo, hi) in zip(axes, block(lens, key)):
            sl[a] = slice(lo, hi)
        return tuple(sl)
    same(res.approx, arr[sub(z)], f"{what}: approx")
    for k in keys:
        same(res[k], arr[sub(k)], f"{what}[{k}]")
    y = pywt.fswaverecn(res)
    back = backward(t, case, axes, lens)
    for i, s in enumerate(x.shape):
        ok = (s, s + s % 2) if i in axes else (s,)
        require(y.shape[i] in ok, lambda: f"fswaverecn of {what}: shape {y.shape}")
    require(y.dtype == NP[dt], lambda: f"fswaverecn of {what}: dtype {y.dtype}")
    close(y, back, dt, "fswaverecn of " + what)
    if "dmey" not in case["ws"]:
        b = ref.crop(back, x.shape)
        d = np.abs(y[tuple(slice(s) for s in x.shape)] - x)
        bad = ~(d <= (b.e + 4 * b.m) * EPS[dt] + 1e-9 * b.m + 1e-37)
        if bad.any():
            i = tuple(int(k) for k in np.argwhere(bad)[0])
            raise Violation(f"fswaverecn of {what}: differs from the data at {list(i)} by {d[i]:.3g}")
    if axes == list(range(nd)):
        same(pywt.fswavedecn(x, w, m, lv).coeffs, arr, "default axes of " + what)
        if all(v == "symmetric" for v in case["modes"]):
            same(pywt.fswavedecn(x, w, levels=lv).coeffs, arr, "default mode of " + what)
    if not any(levels) or not x.any():
        return []
    tags = cfg_tags(case, axes)
    if len(set(levels)) > 1:
        tags.append("levels-per-axis")
    if None in case["levels"]:
        tags.append("default-levels")
    return tags


# ------------------------------------------------------------------ the container under writes
@st.composite
def st_hist(draw):
    c = draw(st_fs())
    c["ops"] = draw(st.lists(st.tuples(st.sampled_from(["set", "set", "approx", "coeffs", "iset", "read", "bad_shape", "bad_form", "bad_key", "rec", "typed"]),
                                       st.integers(0, 10 ** 4), st.integers(0, 10 ** 4)).map(list), min_size=1, max_size=8))
    return c


@law("P09", strategy=st_hist, quick=400, thorough=10000)
def container_under_writes(case):
    axes, levels, lens, w, m, lv, what = setup(case)
    if len(case["ops"]) > 20:
        raise Reject
    nd = len(case["shape"])
    dt = case["dt"]
    x = make(case["data"], case["shape"], dt)
    res = pywt.fswavedecn(x, w, m, lv, tuple(case["axes"]))
    mine = res.coeffs.copy()
    keys = sorted(itertools.product(*(range(l + 1) for l in levels)))
    z = keys[0]
    log = []

    def sub(key):
        sl = [slice(None)] * nd
        for a, (lo, hi) in zip(axes, block(lens, key)):
            sl[a] = slice(lo, hi)
        return tuple(sl)

    def fresh(shape, s):
        return make({"k": "normal", "s": s}, shape, dt)
    writes = 0
    for op, n, s in case["ops"]:
        log.append([op, n])
        ctx = f"{what} after {log}"
        key = keys[n % len(keys)]
        shp = mine[sub(key)].shape
        if op == "set":
            if key == z:
                continue
            v = fresh(shp, s)
            res[key] = v
            mine[sub(key)] = v
            writes += 1
        elif op == "typed":      # another precision is converted (with a warning)
            v = make({"k": "ints", "s": s}, shp, "f4" if dt == "f8" else "f8")
            res[key] = v
            mine[sub(key)] = v
            writes += 1
        elif op == "approx":
            v = fresh(mine[sub(z)].shape, s)
            res.approx = v
            mine[sub(z)] = v
            writes += 1
        elif op == "coeffs":
            v = fresh(mine.shape, s)
            res.coeffs = v
            mine = v.copy()
            writes += 1
        elif op == "iset":       # the blocks are views: arithmetic in place is seen in the array
            r = res[key]
            r *= 2
            mine[sub(key)] *= 2
            writes += 1
        elif op == "read":
            same(res[key], mine[sub(key)], f"{ctx}: read {key}")
            same(res[list(key)] if n % 2 else res[tuple(np.int64(k) for k in key)], mine[sub(key)], f"{ctx}: read {key}")
        elif op == "bad_shape":
            i = s % nd
            bad = list(shp)
            bad[i] += 1 + s % 2
            if s % 3 == 0:
                bad = bad[1:] if nd > 1 else bad + [1]
            try:
                if s % 5 == 0:
                    b2 = list(mine.shape)
                    b2[i] += 1
                    res.coeffs = fresh(b2, s)
                elif s % 5 == 1 and bad != list(mine[sub(z)].shape):
                    res.approx = fresh(tuple(bad), s) if tuple(bad) != mine[sub(z)].shape else fresh(tuple(b + 1 for b in bad), s)
                else:
                    res[key] = fresh(bad, s)
            except (ValueError, TypeError, IndexError):
                pass
            else:
                raise Violation(f"{ctx}: a block of the wrong shape {bad} was accepted for {key}")
        elif op == "bad_form":       # shapes NumPy would broadcast or that have as many elements
            to = s // 8 % 3
            good = [tuple(shp), mine[sub(z)].shape, mine.shape][to]
            f = [(1,) + good, (1, 1) + good, good + (1,), (int(np.prod(good)),), good[::-1], (1,) * nd, (), (2,) + good][s % 8]
            if tuple(f) == tuple(good):
                continue
            try:
                if to == 0:
                    res[key] = fresh(f, s)
                elif to == 1:
                    res.approx = fresh(f, s)
                else:
                    res.coeffs = fresh(f, s)
            except (ValueError, TypeError, IndexError):
                pass
            else:
                raise Violation(f"{ctx}: a block of shape {f} was accepted for {['block %s' % (key,), 'the approximation', 'all coefficients'][to]} of shape {good}")
        elif op == "bad_key":
            k = list(key)
            i = s % len(k)
            choice = s % 5
            if choice == 0:
                k[i] = levels[i] + 1 + s % 3
            elif choice == 1:
                k[i] = -1 - s % 3
            elif choice == 2:
                k[i] = 0.5
            elif choice == 3:
                k = k + [0]
            else:
                k = k[:-1] + ["d"]
            try:
                if n % 2:
                    res[tuple(k)]
                else:
                    res[tuple(k)] = fresh(shp, s)
            except (ValueError, TypeError, IndexError):
                pass
            else:
                raise Violation(f"{ctx}: the name {tuple(k)} was accepted")
        elif op == "rec":
            y = pywt.fswaverecn(res)
            close(y, backward(ref.track(mine), case, axes, lens), dt, f"{ctx}: fswaverecn")
        else:
            raise Reject
        same(res.coeffs, mine, f"{ctx}: coefficient array")
    for k in keys:
        same(res[k], mine[sub(k)], f"{what} after {log}: block {k}")
    same(res.approx, mine[sub(z)], f"{what} after {log}: approx")
    y = pywt.fswaverecn(res)
    close(y, backward(ref.track(mine), case, axes, lens), dt, f"fswaverecn after {log} of {what}")
    return cfg_tags(case, axes) + sorted({o[0] for o in case["ops"]}) if writes else []


# ------------------------------------------------------------------ large arrays
@st.composite
def st_large(draw):
    nd = draw(st.integers(1, 3))
    axes = draw(g.st_axes(nd, 1))
    return {"shape": fast.shape_of(draw, st, nd, 9000), "axes": axes, "ws": [draw(g.st_pr_wavelet()) for _ in axes], "modes": [draw(g.st_mode()) for _ in axes],
            "levels": [draw(st.one_of(st.none(), st.integers(0, 7))) for _ in axes], "dt": draw(g.st_dtype()), "s": draw(st.integers(0, 10 ** 6))}


@law("P09", strategy=lambda: st_large(), quick=60, thorough=1000)
def large_arrays(case):
    shape, dt = case["shape"], case["dt"]
    nd = len(shape)
    axes = [a % nd for a in case["axes"]]
    if not 1 <= nd <= 3 or not axes or len(set(axes)) < len(axes) or {len(case[k]) for k in ("ws", "modes", "levels")} != {len(axes)} or np.prod(shape) > 400000:
        raise Reject
    case = dict(case, levels=[l if l is None else min(l, ref.max_level(shape[a], ref.flen(w)) + (m not in ("smooth", "antireflect")))
                              for l, a, w, m in zip(case["levels"], axes, case["ws"], case["modes"])])
    levels, lens = plan(case, axes)
    x = fast.noise(shape, dt, case["s"])
    want, size = x, fast.top(x)
    for a, w, m, l in zip(axes, case["ws"], case["modes"], levels):
        parts = [want]
        for _ in range(l):
            parts[:1] = fast.dwt(parts[0], w, m, a)
            size = max(size, fast.top(*parts))
        want = np.concatenate(parts, a)
    W = tuple(g.wav(w) for w in case["ws"])
    what = f"(shape {shape}, {case['ws']}, {case['modes']}, levels={case['levels']}, axes={case['axes']}, {dt})"
    res = pywt.fswavedecn(x, W, tuple(case["modes"]), tuple(case["levels"]), tuple(case["axes"]))
    fast.close(res.coeffs, want, dt, size, "fswavedecn" + what, require, 10)
    for i, ln in enumerate(lens):
        require([s.stop - s.start for s in res.coeff_slices[i]] == ln, lambda: f"fswavedecn{what}: slices along axis {axes[i]}")
    if "dmey" not in case["ws"]:
        y = pywt.fswaverecn(res)
        require(all(y.shape[i] - n in ((0, 1) if i in axes else (0,)) for i, n in enumerate(shape)), lambda: f"fswaverecn{what}: shape {y.shape}")
        fast.close(y[tuple(slice(n) for n in shape)], x, dt, size, "fswaverecn" + what, require, 100)
    return [f"{nd}-D", "dt=" + dt, "levels<=%d" % max(levels)] if max(levels) else []
