"""P03: 2-D / n-D transforms are 1-D transforms along each listed axis, with fixed band names."""
import itertools

import numpy as np
import pywt
from hypothesis import strategies as st

import fast
import gens as g
import ref
from core import NP, Reject, close, law, layout, make, require, st_data, Violation, EPS

RULE = ("case = shape (1-4 dims) x axes (any subset/order, negative numbers, repeats where documented) x one wavelet and mode per axis "
        "x dtype x layout x data recipe; non-trivial when more than one line or axis is involved and the data is not all zero")
ASSUMPTIONS = ["filters are the snapshot in data/filters.json (checked by P11)"]


@st.composite
def st_cfg(draw, maxd=4, two=False, repeats=False, multi=False, pr=False):
    nd = draw(st.integers(2 if two else 1, 3 if multi else maxd))
    shape = draw(g.st_shape(nd, nd, 1, 16 if nd <= 2 else 7, 900 if not multi else 1500))
    if repeats and draw(st.integers(0, 5)) == 0:
        axes = [draw(st.integers(-nd, nd - 1)) for _ in range(2 if two else draw(st.integers(1, 3)))]
    else:
        axes = draw(g.st_axes(nd, 2 if two else 1, 2 if two else None))
    k = len(axes)
    same = draw(st.booleans())
    sw = st.sampled_from(g.SHORT) if not pr else g.st_pr_wavelet()
    if not pr:
        sw = st.one_of(sw, g.st_wavelet())
    ws = [draw(sw)] * k if same else [draw(sw) for _ in range(k)]
    modes = [draw(g.st_mode())] * k if draw(st.booleans()) else [draw(g.st_mode()) for _ in range(k)]
    return {"shape": shape, "axes": axes, "ws": ws, "modes": modes, "form": draw(st.sampled_from(["scalar", "list", "tuple"])),
            "mf": draw(st.sampled_from(["str", "enum"])), "dt": draw(g.st_dtype()), "lay": draw(st.sampled_from(g.LAYOUTS)),
            "data": draw(st_data())}


def check_cfg(case):
    nd = len(case["shape"])
    k = len(case["axes"])
    if len(case["ws"]) != k or len(case["modes"]) != k or not k or not nd:
        raise Reject
    if any(not -nd <= a < nd for a in case["axes"]):
        raise Reject
    return [a % nd for a in case["axes"]]


def args(case):
    """wavelet, mode, axes arguments in the requested form."""
    ws = [g.wav(w) for w in case["ws"]]
    names = [w if isinstance(w, str) else W for w, W in zip(case["ws"], ws)]
    modes = [g.marg(m, case["mf"]) for m in case["modes"]]
    f = case["form"]
    if f == "scalar":
        w = names[0] if all(x == case["ws"][0] for x in case["ws"]) else tuple(ws)
        m = modes[0] if all(x == case["modes"][0] for x in case["modes"]) else tuple(modes)
        return w, m
    if f == "list":
        return list(names), list(modes)
    return tuple(ws), tuple(modes)


def usable(shape, axes, ws, modes):
    """no reflecting mode may meet a single sample (repeated axes shrink between applications)."""
    shape = list(shape)
    for a, w, m in zip(axes, ws, modes):
        if shape[a] < g.minlen(m):
            return False
        shape[a] = ref.coeff_len(shape[a], ref.flen(w), m)
    return True


DT = {np.dtype(v): k for k, v in NP.items()}


def cmp_bands(got, want, dt, what):
    require(isinstance(got, dict), lambda: f"{what}: {type(got)}")
    require(set(got) == set(want), lambda: f"{what}: bands {sorted(got)}, expected {sorted(want)}")
    for k in want:
        require(got[k].dtype == NP[dt], lambda: f"{what}[{k}]: dtype {got[k].dtype}, expected {NP[dt].__name__}")
        close(got[k], want[k], dt, f"{what}[{k}]")


def cfg_tags(case, axes):
    t = [f"{len(case['shape'])}-D", f"axes={len(axes)}", "dt=" + case["dt"]]
    if len(set(map(str, case["ws"]))) > 1:
        t.append("wavelet-per-axis")
    if len(set(case["modes"])) > 1:
        t.append("mode-per-axis")
    if sorted(axes) != list(axes):
        t.append("axes-out-of-order")
    if len(set(axes)) < len(axes):
        t.append("repeated-axis")
    if any(a < 0 for a in case["axes"]):
        t.append("negative-axis")
    if any(case["shape"][a] % 2 for a in axes):
        t.append("odd-size")
    return t


def trivial(case, x):
    return not x.any() or (len(case["shape"]) == 1)


# ------------------------------------------------------------------ single level
@law("P03", strategy=lambda: st_cfg(repeats=True), quick=500, thorough=15000)
def dwtn_is_separable(case):
    axes = check_cfg(case)
    if not usable(case["shape"], axes, case["ws"], case["modes"]):
        raise Reject
    x = make(case["data"], case["shape"], case["dt"])
    w, m = args(case)
    got = pywt.dwtn(layout(x, case["lay"]), w, m, axes=case["axes"])
    want = ref.dwtn(ref.track(x), case["ws"], case["modes"], axes)
    cmp_bands(got, want, case["dt"], f"dwtn(shape={case['shape']},{case['ws']},{case['modes']},axes={case['axes']})")
    if axes == list(range(len(case["shape"]))):
        dflt = pywt.dwtn(x, w, m)
        for k in got:
            require(np.array_equal(dflt[k], got[k]), f"dwtn default axes differ from all axes in band {k}")
    return [] if trivial(case, x) else cfg_tags(case, axes)


@law("P03", strategy=lambda: st_cfg(two=True, repeats=True), quick=300, thorough=8000)
def dwt2_and_idwt2_names(case):
    axes = check_cfg(case)
    if len(axes) != 2 or len(case["shape"]) < 2 or not usable(case["shape"], axes, case["ws"], case["modes"]):
        raise Reject
    x = make(case["data"], case["shape"], case["dt"])
    w, m = args(case)
    cA, (cH, cV, cD) = pywt.dwt2(layout(x, case["lay"]), w, m, axes=case["axes"])
    want = ref.dwtn(ref.track(x), case["ws"], case["modes"], axes)
    what = f"dwt2(shape={case['shape']},{case['ws']},{case['modes']},axes={case['axes']})"
    # H: detail along axes[0], approximation along axes[1]; V the opposite
    cmp_bands({"aa": cA, "da": cH, "ad": cV, "dd": cD}, want, case["dt"], what)
    y = pywt.idwt2((cA, (cH, cV, cD)), w, m, axes=case["axes"])
    close(y, ref.idwtn(want, case["ws"], case["modes"], axes), case["dt"], "idwt2 of " + what)
    return [] if not x.any() else cfg_tags(case, axes)


@st.composite
def st_inv(draw):
    c = draw(st_cfg(repeats=True))
    k = len(c["axes"])
    keys = ["".join(p) for p in itertools.product("ad", repeat=k)]
    c["present"] = [draw(st.sampled_from(["array", "array", "none", "missing"])) for _ in keys]
    c["s"] = draw(st.integers(0, 10 ** 6))
    c["dts"] = draw(g.st_dtypes(len(keys)))
    return c


@law("P03", strategy=st_inv, quick=500, thorough=15000)
def idwtn_of_arbitrary_bands(case):
    """Arbitrary band values, any subset None or missing (= zeros), in n-D and through the 2-D interface."""
    axes = check_cfg(case)
    k = len(axes)
    keys = ["".join(p) for p in itertools.product("ad", repeat=k)]
    if len(case["present"]) != len(keys) or "array" not in case["present"] or len(case["dts"]) != len(keys):
        raise Reject
    shape = list(case["shape"])
    cur = list(shape)
    # every axis needs at least F/2 coefficients outside periodization (repeated axes grow)
    for a, w, m in reversed(list(zip(axes, case["ws"], case["modes"]))):
        F = ref.flen(w)
        if m == "periodization":
            cur[a] = 2 * cur[a]
        else:
            need = 2 * cur[a] - F + 2
            if need < 1:
                raise Reject
            cur[a] = need
        if cur[a] > 200:
            raise Reject
    used = []
    coeffs, want = {}, {}
    for i, (key, p) in enumerate(zip(keys, case["present"])):
        if p == "array":
            v = make({"k": "normal", "s": case["s"] + i}, shape, case["dts"][i])
            used.append(case["dts"][i])
            coeffs[key] = layout(v, case["lay"])
            want[key] = ref.track(v)
        elif p == "none":
            coeffs[key] = None
    w, m = args(case)
    y = pywt.idwtn(coeffs, w, m, axes=case["axes"])
    t = ref.idwtn(want, case["ws"], case["modes"], axes)
    what = f"idwtn(shape={shape},bands={sorted(want)},{used},{case['ws']},{case['modes']},axes={case['axes']})"
    dt = g.mixed(used, y, what)
    close(y, t, dt, what)
    if k == 2:
        y2 = pywt.idwt2((coeffs.get("aa"), (coeffs.get("da"), coeffs.get("ad"), coeffs.get("dd"))), w, m, axes=case["axes"])
        close(y2, t, dt, "idwt2 == " + what)
    if axes == list(range(len(shape))):
        require(np.array_equal(pywt.idwtn(coeffs, w, m), y), "idwtn default axes differ from all axes")
    return cfg_tags(case, axes) + (["bands-missing"] if len(want) < len(keys) else ["all-bands"]) + (["mixed-types"] if len(set(used)) > 1 else ["one-type"])


# ------------------------------------------------------------------ multilevel
@st.composite
def st_mult(draw):
    c = draw(st_cfg(multi=True, pr=True))
    c["level"] = draw(st.one_of(st.none(), st.integers(0, 3)))
    c["rand"] = draw(st.booleans())
    c["s"] = draw(st.integers(0, 10 ** 6))
    c["dts"] = draw(g.st_dtypes(4))
    return c


def level_shapes(case, axes):
    """(list of shapes per level, level) or (None, _) when a reflecting mode meets a single sample."""
    lv = case["level"]
    if lv is None:
        lv = min(ref.max_level(case["shape"][a], ref.flen(w)) for a, w in zip(axes, case["ws"]))
    shapes = [list(case["shape"])]
    for _ in range(lv):
        s = shapes[-1]
        if not usable(s, axes, case["ws"], case["modes"]):
            return None, lv
        s = list(s)
        for a, w, m in zip(axes, case["ws"], case["modes"]):
            s[a] = ref.coeff_len(s[a], ref.flen(w), m)
        shapes.append(s)
    if np.prod(shapes[-1]) * 2 ** len(axes) > 60000:
        return None, lv
    return shapes, lv


def expect_back(y, x, back, dt, what, case, axes, level):
    for i, s in enumerate(x.shape):
        ok = (s, s + s % 2) if (i in axes and level) else (s,)
        require(y.shape[i] in ok, lambda: f"{what}: reconstructed shape {y.shape} from {x.shape}")
    close(y, back, dt, what)
    if any(w == "dmey" for w in case["ws"]):
        return
    sl = tuple(slice(s) for s in x.shape)
    t = ref.crop(back, x.shape)
    tol = (t.e + 4 * t.m) * EPS[dt] + 1e-9 * t.m + 1e-37
    d = np.abs(y[sl] - x)
    if not np.all(d <= tol):
        i = tuple(int(k) for k in np.argwhere(~(d <= tol))[0])
        raise Violation(f"{what}: element {list(i)} is {y[sl][i]!r}, the data has {x[i]!r}")


@law("P03", strategy=st_mult, quick=300, thorough=8000)
def wavedecn_and_waverecn(case):
    axes = check_cfg(case)
    if len(set(axes)) < len(axes):
        raise Reject
    shapes, level = level_shapes(case, axes)
    if shapes is None:
        raise Reject
    x = make(case["data"], case["shape"], case["dt"])
    w, m = args(case)
    ax = case["axes"]
    what = f"wavedecn(shape={case['shape']},{case['ws']},{case['modes']},level={case['level']},axes={ax})"
    c = pywt.wavedecn(layout(x, case["lay"]), w, m, level=case["level"], axes=ax)
    want = ref.wavedecn(ref.track(x), case["ws"], case["modes"], level, axes)
    require(isinstance(c, list) and len(c) == level + 1, lambda: f"{what}: {len(c)} entries for level {level}")
    close(c[0], want[0], case["dt"], what + "[0]")
    for i in range(1, level + 1):
        cmp_bands(c[i], want[i], case["dt"], f"{what}[{i}]")
    expect_back(pywt.waverecn(c, w, m, axes=ax), x, ref.waverecn(want, case["ws"], case["modes"], axes), case["dt"],
                "waverecn of " + what, case, axes, level)
    if case["rand"] and level:
        dts = case["dts"]
        if not dts:
            raise Reject
        of = lambda i: dts[i % len(dts)]
        r = [make({"k": "normal", "s": case["s"]}, c[0].shape, of(0))]
        for i in range(1, level + 1):
            r.append({k: make({"k": "normal", "s": case["s"] + 100 * i + j}, v.shape, of(i if j else i + 1)) for j, (k, v) in enumerate(c[i].items())})
        t = ref.waverecn([ref.track(r[0])] + [{k: ref.track(v) for k, v in d.items()} for d in r[1:]], case["ws"], case["modes"], axes)
        y = pywt.waverecn(r, w, m, axes=ax)
        close(y, t, g.mixed([DT[v.dtype] for v in [r[0]] + [v for d in r[1:] for v in d.values()]], y, what), f"waverecn(random coefficients), {dts}, " + what)
    return [] if trivial(case, x) else cfg_tags(case, axes) + [f"level={min(level, 3)}"]


@st.composite
def st_mult2(draw):
    c = draw(st_cfg(two=True, multi=True, pr=True))
    c["level"] = draw(st.one_of(st.none(), st.integers(0, 3)))
    return c


@law("P03", strategy=st_mult2, quick=250, thorough=6000)
def wavedec2_and_waverec2(case):
    axes = check_cfg(case)
    if len(axes) != 2 or len(set(axes)) < 2:
        raise Reject
    shapes, level = level_shapes(case, axes)
    if shapes is None:
        raise Reject
    x = make(case["data"], case["shape"], case["dt"])
    w, m = args(case)
    what = f"wavedec2(shape={case['shape']},{case['ws']},{case['modes']},level={case['level']},axes={case['axes']})"
    c = pywt.wavedec2(layout(x, case["lay"]), w, m, level=case["level"], axes=case["axes"])
    want = ref.wavedecn(ref.track(x), case["ws"], case["modes"], level, axes)
    require(isinstance(c, list) and len(c) == level + 1, lambda: f"{what}: {len(c)} entries for level {level}")
    close(c[0], want[0], case["dt"], what + "[0]")
    for i in range(1, level + 1):
        require(isinstance(c[i], tuple) and len(c[i]) == 3, f"{what}[{i}] is not a 3-tuple")
        cmp_bands(dict(zip(("da", "ad", "dd"), c[i])), want[i], case["dt"], f"{what}[{i}]")
    y = pywt.waverec2(c, w, m, axes=tuple(case["axes"]))
    expect_back(y, x, ref.waverecn(want, case["ws"], case["modes"], axes), case["dt"], "waverec2 of " + what, case, axes, level)
    if case["axes"] == [-2, -1] or axes == [len(case["shape"]) - 2, len(case["shape"]) - 1]:
        c2 = pywt.wavedec2(x, w, m, level=case["level"])
        require(np.array_equal(c2[0], c[0]), "wavedec2 default axes are not the last two")
        require(np.array_equal(pywt.waverec2(c, w, m), y), "waverec2 default axes are not the last two")
    return [] if not x.any() else cfg_tags(case, axes) + [f"level={min(level, 3)}"]


@st.composite
def st_gaps(draw):
    c = draw(st_cfg(two=draw(st.booleans()), multi=True, pr=True))
    c["level"] = draw(st.integers(1, 3))
    c["s"] = draw(st.integers(0, 10 ** 6))
    c["dts"] = draw(g.st_dtypes(4))
    c["keep"] = draw(st.lists(st.sampled_from(["all", "all", "none", "mask"]), min_size=3, max_size=3))
    c["mask"] = draw(st.integers(0, 10 ** 6))
    c["approx"] = draw(st.sampled_from([True, True, False]))
    return c


@law("P03", strategy=st_gaps, quick=300, thorough=8000)
def reconstruction_without_some_bands(case):
    """Where details are left out (n-D: keys missing; 2-D: None), the answer is that of zero bands."""
    axes = check_cfg(case)
    if len(set(axes)) < len(axes) or not case["level"] or not case["dts"] or len(case["keep"]) < case["level"]:
        raise Reject
    shapes, level = level_shapes(case, axes)
    if shapes is None:
        raise Reject
    keys = ["".join(p) for p in itertools.product("ad", repeat=len(axes))][1:]
    approx = case["approx"]
    part = lambda i: make({"k": "normal", "s": case["s"] + i}, shapes[level - i // 100] if i else shapes[level], case["dts"][i % len(case["dts"])])
    a = part(0) if approx else None
    ds, used, gaps = [], ([case["dts"][0]] if approx else []), 0
    grown = list(shapes[level])
    for n in range(level):
        lv = level - n               # this level's bands have shapes[lv]
        d = {}
        for j, k in enumerate(keys):
            how = case["keep"][n]
            if how == "all" or how == "mask" and case["mask"] >> (7 * n + j) & 1:
                v = make({"k": "normal", "s": case["s"] + 100 * n + j + 1}, shapes[lv], case["dts"][(n + j) % len(case["dts"])])
                d[k] = v
                used.append(case["dts"][(n + j) % len(case["dts"])])
            else:
                gaps += 1
        if not d and (a is not None or any(ds)) and grown != shapes[lv]:
            raise Reject             # nothing says which length was meant
        ds.append(d)
        grown = list(shapes[lv])
        for x, w, m in zip(axes, case["ws"], case["modes"]):
            grown[x] = 2 * grown[x] if m == "periodization" else 2 * grown[x] - ref.flen(w) + 2
    if not gaps or not used:
        raise Reject
    # without an approximation the synthesis starts at the first level that has a band
    lead = next(n for n, d in enumerate(ds) if d) if a is None else 0
    w, m = args(case)
    what = f"shapes {shapes}, bands {[sorted(d) for d in ds]} approximation {approx}, {case['ws']},{case['modes']},axes={case['axes']}, {case['dts']}"
    t = ref.waverecn([None if a is None else ref.track(a)] + [{k: ref.track(v) for k, v in d.items()} for d in ds[lead:]], case["ws"], case["modes"], axes)
    y = pywt.waverecn([a] + [{k: layout(v, case["lay"]) for k, v in d.items()} for d in ds], w, m, axes=case["axes"])
    dt = g.mixed(sorted(set(used)), y, what)
    close(y, t, dt, "waverecn, " + what)
    if len(axes) == 2 and approx:
        y = pywt.waverec2([a] + [tuple(d.get(k) for k in ("da", "ad", "dd")) for d in ds], w, m, axes=tuple(case["axes"]))
        close(y, t, g.mixed(sorted(set(used)), y, what), "waverec2, " + what)
    return (cfg_tags(case, axes) + [f"level={level}", "approximation" if approx else "no-approximation"] + (["empty-level"] if not all(ds) else [])
            + (["starts-later"] if lead else []))


# ------------------------------------------------------------------ large arrays
@st.composite
def st_large(draw):
    nd = draw(st.integers(1, 3))
    axes = draw(g.st_axes(nd, 1))
    per = draw(st.booleans())
    w, m = draw(g.st_pr_wavelet()), draw(g.st_mode())
    return {"shape": fast.shape_of(draw, st, nd, 9000), "axes": axes, "ws": [w] + [draw(g.st_pr_wavelet()) if per else w for _ in axes[1:]],
            "modes": [m] + [draw(g.st_mode()) if per else m for _ in axes[1:]], "level": draw(st.integers(1, 6)), "dt": draw(g.st_dtype()), "s": draw(st.integers(0, 10 ** 6))}


@law("P03", strategy=lambda: st_large(), quick=75, thorough=1200)
def large_arrays(case):
    shape, axes, ws, ms, L, dt = (case[k] for k in ("shape", "axes", "ws", "modes", "level", "dt"))
    nd = len(shape)
    if not 1 <= nd <= 3 or not axes or len({a % nd for a in axes}) < len(axes) or len(ws) != len(axes) or len(ms) != len(axes) or np.prod(shape) > 400000 or not 1 <= L <= 8:
        raise Reject
    L = max(1, min(L, min(ref.max_level(shape[a], ref.flen(w)) for a, w in zip(axes, ws)) + (not {"smooth", "antireflect"} & set(ms))))
    sh = {a: shape[a] for a in axes}
    for _ in range(L):
        if any(sh[a] < g.minlen(m) for a, m in zip(axes, ms)):
            raise Reject
        sh = {a: ref.coeff_len(sh[a], ref.flen(w), m) for a, w, m in zip(axes, ws, ms)}
    x = fast.noise(shape, dt, case["s"])
    W = [g.wav(w) for w in ws]
    what = f"(shape {shape}, {ws}, {ms}, level={L}, axes={axes}, {dt})"
    c = pywt.wavedecn(x, tuple(W), tuple(ms), L, tuple(axes))
    a, size = x, fast.top(x)
    k = "a" * len(axes)
    for j in range(1, L + 1):
        b = fast.dwtn(a, ws, ms, axes)
        size = max(size, fast.top(*b.values()))
        a = b.pop(k)
        require(set(c[-j]) == set(b), lambda: f"wavedecn{what}: bands {sorted(c[-j])}")
        for q in b:
            fast.close(c[-j][q], b[q], dt, size, f"wavedecn{what}: band {q} of level {j}", require, 10)
    fast.close(c[0], a, dt, size, f"wavedecn{what}: approximation", require, 10)
    one = pywt.dwtn(x, tuple(W), tuple(ms), tuple(axes))
    flip = {q: v[tuple([slice(None, None, -1)] * nd)] for q, v in one.items()}              # not the bands of anything
    z = fast.idwtn(flip, ws, ms, axes)
    fast.close(pywt.idwtn(flip, tuple(W), tuple(ms), tuple(axes)), z, dt, max(size, fast.top(z)), f"idwtn{what}", require, 10)
    if "dmey" not in ws:
        y = pywt.waverecn(c, tuple(W), tuple(ms), tuple(axes))
        require(all(y.shape[i] - n in ((0, 1) if i in [a % nd for a in axes] else (0,)) for i, n in enumerate(shape)), lambda: f"waverecn{what}: shape {y.shape}")
        fast.close(y[tuple(slice(n) for n in shape)], x, dt, size, f"waverecn{what}", require, 100)
    return [f"{nd}-D", "level=%d" % L, "dt=" + dt] + ["mode=" + m for m in set(ms)]
