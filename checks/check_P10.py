"""P10: packing coefficients into one array / vector is lossless and positional."""
import itertools

import numpy as np
import pywt
from hypothesis import strategies as st

import fast
import gens as g
import ref
from core import NP, Reject, Violation, law, layout, make, require, same, st_normal
from check_P03 import args, cfg_tags, check_cfg, level_shapes, st_cfg
from check_P05 import maxlev

RULE = ("case = transform that produced the coefficients x shape x axes x wavelet(s) x mode(s) x level x dtype x memory layout of the "
        "bands x padding value; non-trivial when there is at least one detail level")


@st.composite
def st_pack(draw):
    c = draw(st_cfg(multi=True))
    c["level"] = draw(st.one_of(st.none(), st.integers(0, 4)))
    c["pad"] = draw(st.sampled_from([0, "nan", 7.5, -1]))
    c["fmt"] = draw(st.sampled_from(["n", "n", "1", "2"]))
    c["blay"] = draw(st.sampled_from(["C", "F", "strided", "neg", "readonly"]))
    c["data"] = draw(st_normal())
    return c


@st.composite
def st_flatcase(draw):
    c = draw(st_pack())
    if draw(st.integers(0, 2)) == 0:
        c["fmt"] = draw(st.sampled_from(["swt", "swt2", "swtn"]))
        k = draw(st.integers(1, 2))
        for a in c["axes"]:
            c["shape"][a] = draw(st.sampled_from([1, 3])) * 2 ** k
        c["level"] = k
    return c


def structure(case):
    """coefficients of the requested structure, the axes argument, and the n-D view {(level, key): array}"""
    axes = check_cfg(case)
    nd = len(case["shape"])
    if len(set(axes)) < len(axes) or min(case["shape"]) < 1 or np.prod(case["shape"]) > 3000:
        raise Reject
    x = make(case["data"], case["shape"], case["dt"])
    w, m = args(case)
    fmt = case["fmt"]
    if fmt.startswith("swt"):
        lv = case["level"]
        if not lv or any(case["shape"][a] < 2 or maxlev(case["shape"][a]) < lv for a in axes):
            raise Reject
        if fmt == "swt":
            if nd != 1:
                raise Reject
            c = pywt.swt(x, g.wav(case["ws"][0]), lv, trim_approx=True)
        elif fmt == "swt2":
            if len(axes) != 2:
                raise Reject
            c = pywt.swt2(x, w, lv, axes=case["axes"], trim_approx=True)
        else:
            c = pywt.swtn(x, w, lv, axes=case["axes"], trim_approx=True)
    else:
        shapes, lv = level_shapes(case, axes)
        if shapes is None:
            raise Reject
        if fmt == "1":
            if nd != 1:
                raise Reject
            c = pywt.wavedec(x, g.wav(case["ws"][0]), case["modes"][0], case["level"])
        elif fmt == "2":
            if len(axes) != 2:
                raise Reject
            c = pywt.wavedec2(x, w, m, case["level"], axes=tuple(case["axes"]))
        else:
            c = pywt.wavedecn(x, w, m, case["level"], axes=case["axes"])
    lay = lambda v: layout(v, case["blay"])
    c = [lay(c[0])] + [lay(d) if isinstance(d, np.ndarray) else {k: lay(v) for k, v in d.items()} if isinstance(d, dict)
                       else tuple(lay(v) for v in d) for d in c[1:]]
    return c, axes, lv


def nview(c):
    out = {(0, None): c[0]}
    for i, d in enumerate(c[1:], 1):
        if isinstance(d, np.ndarray):
            out[i, "d"] = d
        elif isinstance(d, dict):
            out.update({(i, k): v for k, v in d.items()})
        else:
            out.update({(i, k): v for k, v in zip(("da", "ad", "dd"), d)})
    return out


def same_structure(a, b, what):
    require(isinstance(b, list) and len(a) == len(b), lambda: f"{what}: {len(b)} entries, expected {len(a)}")
    for i, (p, q) in enumerate(zip(a, b)):
        if isinstance(p, np.ndarray):
            require(isinstance(q, np.ndarray), f"{what}[{i}] is a {type(q)}")
            same(q, p, f"{what}[{i}]")
        elif isinstance(p, dict):
            require(isinstance(q, dict) and set(p) == set(q), f"{what}[{i}] keys")
            for k in p:
                same(q[k], p[k], f"{what}[{i}][{k}]")
        else:
            require(isinstance(q, tuple) and len(q) == len(p), f"{what}[{i}] is not a {len(p)}-tuple")
            for j in range(len(p)):
                same(q[j], p[j], f"{what}[{i}][{j}]")


def tags(case, axes, lv):
    return (cfg_tags(case, axes) + ["fmt=" + case["fmt"], f"level={min(lv, 4)}"]) if lv else []


@law("P10", strategy=lambda: st_pack(), quick=700, thorough=20000)
def pack_into_array(case):
    c, axes, lv = structure(case)
    nd = len(case["shape"])
    dt = NP[case["dt"]]
    fmt = {"n": "wavedecn", "1": "wavedec", "2": "wavedec2"}[case["fmt"]]
    pad = float("nan") if case["pad"] == "nan" else case["pad"]
    what = f"coeffs_to_array({fmt} of shape {case['shape']},{case['ws']},{case['modes']},level={lv},axes={case['axes']})"
    arr, sl = pywt.coeffs_to_array(c, padding=pad, axes=case["axes"])
    require(arr.dtype == dt, lambda: f"{what}: dtype {arr.dtype}")
    bands = nview(c)
    require(len(sl) == len(c), lambda: f"{what}: {len(sl)} slices")
    pos = {(0, None): sl[0]}
    for i, d in enumerate(sl[1:], 1):
        pos.update({(i, k): v for k, v in d.items()})
    require(set(pos) == set(bands), lambda: f"{what}: slices for {sorted(map(str, pos))}")
    count = np.zeros(arr.shape, int)
    for k, s in pos.items():
        same(arr[s], bands[k], f"{what}: band {k} through its slice")
        count[s] += 1
    require(count.max() <= 1, lambda: f"{what}: bands overlap")
    holes = arr[count == 0]
    require(np.all(np.isnan(holes)) if pad != pad else np.all(holes == pad), lambda: f"{what}: padding {pad} expected at uncovered positions, found {holes[:5]}")
    # documented position: the approximation of a level occupies the leading corner, details start where the coarser levels end
    size = {a: c[0].shape[a] for a in axes}
    for i in range(1, len(c)):
        dd = bands[i, "d" * len(axes)]
        for k, v in ((k[1], v) for k, v in bands.items() if k[0] == i):
            for let, a in zip(k, axes):
                s = pos[i, k][a]
                lo, hi, _ = s.indices(arr.shape[a])
                require((lo, hi) == ((0, v.shape[a]) if let == "a" else (size[a], size[a] + v.shape[a])),
                        lambda: f"{what}: band {(i, k)} lies at {lo}:{hi} on axis {a}")
        size = {a: size[a] + dd.shape[a] for a in axes}
    require(tuple(arr.shape) == tuple(size.get(a, case["shape"][a]) for a in range(nd)), lambda: f"{what}: shape {arr.shape}")
    # no padding allowed
    try:
        arr2, sl2 = pywt.coeffs_to_array(c, padding=None, axes=case["axes"])
    except ValueError:
        require(count.min() == 0, f"{what}: padding=None refused although the bands fit exactly")
    else:
        require(count.min() == 1, f"{what}: padding=None accepted although {int((count == 0).sum())} positions belong to no band")
        same(arr2, arr, what + " padding=None")
    # back
    for f in {fmt, "wavedecn"}:
        b = pywt.array_to_coeffs(arr, sl, output_format=f)
        if f == fmt:
            same_structure(c, b, f"array_to_coeffs of {what}")
        else:
            require({k: v.shape for k, v in nview(b).items()} == {k: v.shape for k, v in bands.items()}, f"{what}: wavedecn output format")
    if fmt == "wavedecn":
        same_structure(c, pywt.array_to_coeffs(arr, sl), f"default format of array_to_coeffs of {what}")
    # replace bands through their slices
    arr = arr.copy()
    for n, (k, s) in enumerate(sorted(pos.items(), key=str)):
        v = make({"k": "normal", "s": n + 1}, bands[k].shape, case["dt"])
        arr[s] = v
        bands[k] = v
    b = nview(pywt.array_to_coeffs(arr, sl, output_format=fmt))
    for k in bands:
        same(b[k], bands[k], f"{what}: band {k} written through its slice")
    if axes == list(range(nd)):
        arr3, sl3 = pywt.coeffs_to_array(c)
        for k, s in {**{(0, None): sl3[0]}, **{(i, k): v for i, d in enumerate(sl3[1:], 1) for k, v in d.items()}}.items():
            same(arr3[s], nview(c)[k], f"{what}: default axes and padding")
        require(np.all(arr3[count == 0] == 0), f"{what}: default padding is not 0")
    t = tags(case, axes, lv)
    return t + (["holes"] if count.min() == 0 else ["tight"]) if t else []


@law("P10", strategy=lambda: st_flatcase(), quick=700, thorough=20000)
def ravel_into_vector(case):
    c, axes, lv = structure(case)
    nd = len(case["shape"])
    dt = NP[case["dt"]]
    fmt = {"n": "wavedecn", "1": "wavedec", "2": "wavedec2"}.get(case["fmt"], case["fmt"])
    what = f"ravel_coeffs({fmt} of shape {case['shape']},{case['ws']},{case['modes']},level={lv},axes={case['axes']})"
    vec, sl, sh = pywt.ravel_coeffs(c, axes=case["axes"])
    bands = nview(c)
    require(vec.ndim == 1 and vec.dtype == dt, lambda: f"{what}: {vec.ndim}-D {vec.dtype}")
    require(vec.size == sum(v.size for v in bands.values()), lambda: f"{what}: size {vec.size}")
    pos = {(0, None): (sl[0], sh[0])}
    require(len(sl) == len(sh) == len(c), f"{what}: {len(sl)} slices, {len(sh)} shapes")
    for i in range(1, len(sl)):
        require(set(sl[i]) == set(sh[i]), f"{what}: slices and shapes name different bands")
        pos.update({(i, k): (sl[i][k], sh[i][k]) for k in sl[i]})
    require(set(pos) == set(bands), lambda: f"{what}: slices for {sorted(map(str, pos))}")
    count = np.zeros(vec.size, int)
    for k, (s, h) in pos.items():
        require(tuple(h) == bands[k].shape, lambda: f"{what}: shape of {k} is {h}")
        same(vec[s].reshape(h), bands[k], f"{what}: band {k} through its slice")
        count[s] += 1
    require(np.all(count == 1), f"{what}: bands overlap or leave holes")
    same_structure(c, pywt.unravel_coeffs(vec, sl, sh, output_format=fmt), f"unravel_coeffs of {what}")
    if fmt in ("wavedecn", "swtn"):
        same_structure(c, pywt.unravel_coeffs(vec, sl, sh), f"default format of unravel_coeffs of {what}")
    vec = vec.copy()
    for n, k in enumerate(sorted(pos, key=str)):
        v = make({"k": "normal", "s": n + 1}, bands[k].shape, case["dt"])
        vec[pos[k][0]] = v.ravel()
        bands[k] = v
    b = nview(pywt.unravel_coeffs(vec, sl, sh, output_format=fmt))
    for k in bands:
        same(b[k], bands[k], f"{what}: band {k} written through its slice")
    if axes == list(range(nd)):
        v2, s2, h2 = pywt.ravel_coeffs(c)
        same(v2, pywt.ravel_coeffs(c, axes=case["axes"])[0], f"{what}: default axes")
    return tags(case, axes, lv)


# ------------------------------------------------------------------ every shape of a small box
def sweep_box(tier, seed):
    hi = 9 if tier == "quick" else 14
    for w, mode in (("haar", "periodization"), ("haar", "zero"), ("db2", "symmetric"), ("bior2.2", "periodization"), ("db3", "reflect")):
        for n in range(2, 25):
            for lv in (1, 2, 3):
                yield {"shape": [n], "w": w, "mode": mode, "level": lv}
        for a in range(2, hi):
            for b in range(2, hi):
                yield {"shape": [a, b], "w": w, "mode": mode, "level": 1 + (a + b) % 3}


@law("P10", sweep=sweep_box)
def every_small_shape(case):
    shape = case["shape"]
    if not 1 <= len(shape) <= 2 or min(shape) < 2:
        raise Reject
    base = {"shape": shape, "axes": list(range(len(shape))), "ws": [case["w"]] * len(shape), "modes": [case["mode"]] * len(shape),
            "form": "scalar", "mf": "str", "dt": "f8", "lay": "C", "data": {"k": "normal", "s": 1}, "level": case["level"], "pad": "nan", "blay": "C"}
    t = []
    for fmt in ("n", str(len(shape))):
        t = pack_into_array(dict(base, fmt=fmt))
        ravel_into_vector(dict(base, fmt=fmt))
    return t


# ------------------------------------------------------------------ large arrays, many levels
@st.composite
def st_large(draw):
    nd = draw(st.integers(1, 3))
    return {"shape": fast.shape_of(draw, st, nd, 9000), "axes": draw(g.st_axes(nd, 1)), "w": draw(g.st_wavelet()), "mode": draw(g.st_mode()), "level": draw(st.integers(1, 9)),
            "dt": draw(g.st_dtype()), "s": draw(st.integers(0, 10 ** 6))}


@law("P10", strategy=lambda: st_large(), quick=75, thorough=1200)
def large_arrays(case):
    shape, axes, w, mode, lv, dt = (case[k] for k in ("shape", "axes", "w", "mode", "level", "dt"))
    nd = len(shape)
    if not 1 <= nd <= 3 or not axes or len({a % nd for a in axes}) < len(axes) or np.prod(shape) > 400000 or not 1 <= lv <= 12:
        raise Reject
    sh = [list(shape)]
    for _ in range(lv):
        s = list(sh[-1])
        for a in axes:
            if s[a] < g.minlen(mode):
                raise Reject
            s[a] = ref.coeff_len(s[a], ref.flen(w), mode)
        sh.append(s)
    # bands of the shapes the transform gives, with contents that tell them apart
    names = [q for q in fast.keys(len(axes)) if "d" in q]
    size = [0]

    def band(s):
        size[0] += 1
        return fast.noise(s, dt, case["s"] + size[0])
    c = [band(sh[-1])] + [{q: band(s) for q in names} for s in sh[:0:-1]]
    what = f"(bands of a {w} {mode} transform of shape {shape}, level={lv}, axes={axes}, {dt})"
    v, sl, shp = pywt.ravel_coeffs(c, axes=tuple(axes))
    require(v.ndim == 1 and v.size == sum(b.size for b in nview(c).values()) and v.dtype == NP[dt], lambda: f"ravel_coeffs{what}: {v.dtype} vector of {v.shape}")
    off = 0
    for i, d in enumerate(c):
        for q in ([None] if i == 0 else sl[i]):
            b, s = (d, sl[0]) if q is None else (d[q], sl[i][q])
            require(s.indices(v.size)[:2] == (off, off + b.size), lambda: f"ravel_coeffs{what}: band {i, q} at {s}")
            same(v[s].reshape(b.shape), b, f"ravel_coeffs{what}: band {i, q}")
            off += b.size
    same_structure(c, pywt.unravel_coeffs(v, sl, shp), f"unravel_coeffs{what}")
    if all(len(axes) == nd or a == b for a, b in zip(shape, sh[0])):
        total = {a: sh[-1][a] + sum(s[a] for s in sh[1:]) for a in range(nd)}
        if np.prod([total[a] if a in [k % nd for k in axes] else shape[a] for a in range(nd)], dtype=float) > 10 ** 7:
            raise Reject
        arr, asl = pywt.coeffs_to_array(c, axes=tuple(axes))
        n = 0
        for i, d in enumerate(c):
            for q in ([None] if i == 0 else asl[i]):
                b, s = (d, asl[0]) if q is None else (d[q], asl[i][q])
                same(arr[s], b, f"coeffs_to_array{what}: band {i, q}")
                n += b.size
        require(np.count_nonzero(arr) == n, lambda: f"coeffs_to_array{what}: bands overlap or padding is not zero")
        same_structure(c, pywt.array_to_coeffs(arr, asl), f"array_to_coeffs{what}")
    return [f"{nd}-D", "level=%d" % lv, "dt=" + dt]
