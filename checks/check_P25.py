"""P25: equivalent spellings of a request give the same answer (defaults, keywords, names, objects, enums, axis numbers, 1-D / 2-D / n-D entry points)."""
import itertools
import warnings

import numpy as np
import pywt
from hypothesis import strategies as st

import gens as g
import ops
import ref
from core import EPS, Reject, Violation, law, make, require

RULE = ("case = one generated call written in two ways (optional arguments omitted or spelled out; positional or keyword; wavelet as name, upper-case name, object, "
        "list or tuple; mode as name, enumeration member or list; axes negative, positive, list, tuple, NumPy integers; 1-D, 2-D or n-D entry point); "
        "non-trivial when both are answered and the two calls really differ in writing")
ASSUMPTIONS = ["the documented defaults are those of the reference pages (table DEFAULTS)"]

# name: list of (parameter, documented default); REQ = no default
REQ = object()
DEFAULTS = {
    "dwt": [("data", REQ), ("wavelet", REQ), ("mode", "symmetric"), ("axis", -1)],
    "idwt": [("cA", REQ), ("cD", REQ), ("wavelet", REQ), ("mode", "symmetric"), ("axis", -1)],
    "wavedec": [("data", REQ), ("wavelet", REQ), ("mode", "symmetric"), ("level", None), ("axis", -1)],
    "waverec": [("coeffs", REQ), ("wavelet", REQ), ("mode", "symmetric"), ("axis", -1)],
    "swt": [("data", REQ), ("wavelet", REQ), ("level", None), ("start_level", 0), ("axis", -1), ("trim_approx", False), ("norm", False)],
    "iswt": [("coeffs", REQ), ("wavelet", REQ), ("norm", False), ("axis", -1)],
    "mra": [("data", REQ), ("wavelet", REQ), ("level", None), ("axis", -1), ("transform", "swt"), ("mode", "periodization")],
    "downcoef": [("part", REQ), ("data", REQ), ("wavelet", REQ), ("mode", "symmetric"), ("level", 1)],
    "upcoef": [("part", REQ), ("coeffs", REQ), ("wavelet", REQ), ("level", 1), ("take", 0)],
    "cwt": [("data", REQ), ("scales", REQ), ("wavelet", REQ), ("sampling_period", 1.0), ("method", "conv"), ("axis", -1)],
    "dwt2": [("data", REQ), ("wavelet", REQ), ("mode", "symmetric"), ("axes", (-2, -1))],
    "idwt2": [("coeffs", REQ), ("wavelet", REQ), ("mode", "symmetric"), ("axes", (-2, -1))],
    "wavedec2": [("data", REQ), ("wavelet", REQ), ("mode", "symmetric"), ("level", None), ("axes", (-2, -1))],
    "waverec2": [("coeffs", REQ), ("wavelet", REQ), ("mode", "symmetric"), ("axes", (-2, -1))],
    "swt2": [("data", REQ), ("wavelet", REQ), ("level", REQ), ("start_level", 0), ("axes", (-2, -1)), ("trim_approx", False), ("norm", False)],
    "iswt2": [("coeffs", REQ), ("wavelet", REQ), ("norm", False), ("axes", (-2, -1))],
    "mra2": [("data", REQ), ("wavelet", REQ), ("level", None), ("axes", (-2, -1)), ("transform", "swt2"), ("mode", "periodization")],
    "dwtn": [("data", REQ), ("wavelet", REQ), ("mode", "symmetric"), ("axes", None)],
    "idwtn": [("coeffs", REQ), ("wavelet", REQ), ("mode", "symmetric"), ("axes", None)],
    "wavedecn": [("data", REQ), ("wavelet", REQ), ("mode", "symmetric"), ("level", None), ("axes", None)],
    "waverecn": [("coeffs", REQ), ("wavelet", REQ), ("mode", "symmetric"), ("axes", None)],
    "swtn": [("data", REQ), ("wavelet", REQ), ("level", REQ), ("start_level", 0), ("axes", None), ("trim_approx", False), ("norm", False)],
    "iswtn": [("coeffs", REQ), ("wavelet", REQ), ("axes", None), ("norm", False)],
    "mran": [("data", REQ), ("wavelet", REQ), ("level", None), ("axes", None), ("transform", "swtn"), ("mode", "periodization")],
    "fswavedecn": [("data", REQ), ("wavelet", REQ), ("mode", "symmetric"), ("levels", None), ("axes", None)],
    "wp": [("data", REQ), ("wavelet", REQ), ("mode", "symmetric"), ("maxlevel", None), ("axis", -1)],
    "wp2": [("data", REQ), ("wavelet", REQ), ("mode", "smooth"), ("maxlevel", None), ("axes", (-2, -1))],
    "wpn": [("data", REQ), ("wavelet", REQ), ("mode", "smooth"), ("maxlevel", None), ("axes", None)],
}
OPS = sorted(DEFAULTS)
FN = {"wp": pywt.WaveletPacket, "wp2": pywt.WaveletPacket2D, "wpn": pywt.WaveletPacketND}


def arguments(o, c):
    """every parameter of the call and its value, for the operation o on the prepared input c"""
    cfg, op = o.cfg, o.op
    v = {"mode": o.ma if op != "cwt" else None, "axis": cfg["axes"][0], "axes": tuple(cfg["axes"]), "level": o.level, "maxlevel": o.level, "levels": o.level,
         "start_level": 0, "trim_approx": cfg["trim"], "norm": cfg["norm"], "part": cfg["part"], "take": 0, "scales": cfg["scales"],
         "sampling_period": 1.0, "method": cfg["method"], "wavelet": cfg["ws"][0] if op == "cwt" else o.wa, "data": c, "coeffs": c}
    if op in ("mra", "mra2", "mran"):
        v["transform"] = ("swt" if o.stat else "dwt") + op[3:]
        v["mode"] = "periodization" if o.stat else o.ma
    if op == "idwt":
        v["cA"], v["cD"] = c
    if op == "upcoef":
        v["coeffs"] = c[0]
    return {p: v[p] for p, _ in DEFAULTS[op]}


def invoke(op, pos, kw):
    """('ok', flattened result) or ('no', exception)"""
    try:
        with warnings.catch_warnings():
            warnings.simplefilter("ignore")
            r = tree(op, pos, kw) if op in FN else getattr(pywt, op)(*pos, **kw)
    except (ValueError, TypeError, IndexError, AttributeError, RuntimeError, KeyError, OverflowError) as e:
        return "no", e
    if op == "cwt":
        r = list(r)
    return "ok", ops.flatten(r)


def tree(op, pos, kw):
    t = FN[op](*pos, **kw)
    return [np.asarray(int(t.maxlevel)), np.asarray(int(pywt.Modes.from_object(t.mode)))] + [[n.data for n in t.get_level(j)] for j in range(1, min(t.maxlevel, 2) + 1)]


def agree(a, b, eps, what):
    require([k for k, _ in a] == [k for k, _ in b], lambda: f"{what}: structures differ, {[k for k, _ in a]} and {[k for k, _ in b]}")
    for (k, u), (_, v) in zip(a, b):
        require(u.shape == v.shape and u.dtype == v.dtype, lambda: f"{what}{k}: {u.shape} {u.dtype} and {v.shape} {v.dtype}")
        if u.size:
            with np.errstate(all="ignore"):
                s = float(np.max(np.abs(v)))
                d = np.abs(u - v) if u.dtype != np.uint8 else (u != v) * 1.0
            if not np.all(d <= 500 * eps * s):
                i = tuple(int(t) for t in np.argwhere(~(d <= 500 * eps * s))[0])
                raise Violation(f"{what}{k}: element {list(i)} is {u[i]!r} one way and {v[i]!r} the other")


def both(ra, rb, eps, what):
    """True when answered"""
    if ra[0] == "no" and rb[0] == "no":
        require(isinstance(ra[1], type(rb[1])) or isinstance(rb[1], type(ra[1])), lambda: f"{what}: one raises {ra[1]!r}, the other {rb[1]!r}")
        return False
    for x, y, n in ((ra, rb, "the first"), (rb, ra, "the second")):
        if x[0] == "no":
            raise Violation(f"{what}: {n} raises {x[1]!r}, the other is answered")
    agree(ra[1], rb[1], eps, what)
    return True


def show(op, pos, kw):
    f = lambda v: f"array{v.shape}" if isinstance(v, np.ndarray) else v.name if isinstance(v, (pywt.Wavelet, pywt.ContinuousWavelet)) else \
        "coefficients" if isinstance(v, dict) or isinstance(v, (list, tuple)) and any(isinstance(u, (np.ndarray, tuple, dict)) for u in v) else repr(v)
    return f"{op}({', '.join([f(p) for p in pos] + [f'{k}={f(v)}' for k, v in kw.items()])})"


@st.composite
def st_omit(draw):
    return {"o": draw(ops.st_op(OPS)), "omit": draw(st.integers(0, 127)), "npos": draw(st.integers(0, 7)), "dt": draw(g.st_dtype()), "s": draw(st.integers(0, 10 ** 6))}


@law("P25", strategy=st_omit, quick=2500, thorough=60000)
def defaults_and_keywords(case):
    """A call that leaves arguments at their defaults equals the call that writes the documented defaults, positionally or by keyword."""
    o = ops.Op(case["o"])
    op = o.op
    x = [make({"k": "normal", "s": case["s"] + i}, sh, case["dt"]) for i, sh in enumerate(o.shapes)]
    v = arguments(o, o.prepare(x))
    table = DEFAULTS[op]
    opt = [i for i, (_, d) in enumerate(table) if d is not REQ]
    gone = {table[i][0] for j, i in enumerate(opt) if case["omit"] >> j & 1}
    for p, d in table:
        if p in gone:
            v[p] = d
    if op in ("wp", "wp2", "wpn") and "maxlevel" in gone and o.level > 2:
        raise Reject
    # writing 1: everything, in order; writing 2: `npos` positional ones, the rest by keyword, defaults left out
    full = [v[p] for p, _ in table]
    pos, kw = [], {}
    for i, (p, d) in enumerate(table):
        if p in gone:
            continue
        if i < case["npos"] and len(pos) == i:
            pos.append(v[p])
        else:
            kw[p] = v[p]
    what = f"{show(op, full, {})} and {show(op, pos, kw)}"
    ok = both(invoke(op, full, {}), invoke(op, pos, kw), EPS[case["dt"]], what)
    if not ok:
        return []
    return ["op=" + op, "omitted=" + (",".join(sorted(gone)) or "none"), f"keywords={min(len(kw), 3)}"]


@st.composite
def st_spell(draw):
    return {"o": draw(ops.st_op(OPS)), "w": draw(st.integers(0, 6)), "m": draw(st.integers(0, 4)), "a": draw(st.integers(0, 5)), "l": draw(st.integers(0, 3)),
            "dt": draw(g.st_dtype()), "s": draw(st.integers(0, 10 ** 6))}


def respell(o, v, case):
    """the same arguments, written otherwise"""
    op, cfg, k, nd = o.op, o.cfg, len(o.axes), len(o.shape)
    per_axis = op not in ops.ONE and op not in FN
    u = dict(v)
    t = []
    if op == "cwt":
        if case["w"] % 3 == 1:
            u["wavelet"] = pywt.ContinuousWavelet(cfg["ws"][0])
            t.append("wavelet=object")
        elif case["w"] % 3 == 2:
            u["wavelet"] = pywt.DiscreteContinuousWavelet(cfg["ws"][0])
            t.append("wavelet=object")
        if case["l"] == 1:
            u["scales"] = np.asarray(cfg["scales"], float)
        elif case["l"] == 2:
            u["scales"] = tuple(cfg["scales"])
        elif case["l"] == 3 and len(cfg["scales"]) == 1:
            u["scales"] = cfg["scales"][0]
        if u["scales"] is not v["scales"]:
            t.append("scales")
    else:
        forms = []
        same = all(w == cfg["ws"][0] for w in cfg["ws"])
        w0 = cfg["ws"]
        objs = [g.wav(w) for w in w0]
        names = [w.upper() if isinstance(w, str) else g.wav(w) for w in w0]
        low = [w if isinstance(w, str) else g.wav(w) for w in w0]
        if same:
            forms = [objs[0], names[0], low[0]]
        if per_axis:
            forms += [objs, tuple(names), list(low), tuple(objs)]
        f = forms[case["w"] % len(forms)]
        u["wavelet"] = f
        t.append("wavelet=" + ("object" if isinstance(f, pywt.Wavelet) else type(f).__name__))
    if "mode" in v and op != "cwt":
        m0 = v["mode"] if isinstance(v["mode"], list) else [v["mode"]] * k
        E = [getattr(pywt.Modes, m) for m in m0]
        forms = []
        if all(m == m0[0] for m in m0):
            forms = [E[0], m0[0], m0[0]]
        if per_axis and op not in ("mra2", "mran"):
            forms += [E, tuple(m0), tuple(E), [E[0]] + m0[1:]]
        if not forms:
            forms = [v["mode"]]
        f = forms[case["m"] % len(forms)]
        u["mode"] = f
        if op in ("mra", "mra2", "mran") and not isinstance(f, str):
            u["mode"] = v["mode"]       # documented as a name
        t.append("mode=" + type(u["mode"]).__name__)
    ax = cfg["axes"]
    neg = [a % nd - nd for a in ax]
    posi = [a % nd for a in ax]
    if "axis" in v:
        u["axis"] = [neg[0], posi[0], np.int64(posi[0]), np.int32(neg[0]), ax[0], ax[0]][case["a"]]
        t.append("axis=" + type(u["axis"]).__name__)
    if "axes" in v:
        u["axes"] = [tuple(neg), tuple(posi), list(neg), [np.int64(a) for a in posi], tuple([neg[0]] + posi[1:]), range(posi[0], posi[-1] + 1) if posi == list(range(posi[0], posi[-1] + 1)) else list(posi)][case["a"]]
        t.append("axes=" + type(u["axes"]).__name__)
    for p in ("level", "maxlevel", "levels"):
        if p in v and op != "cwt":
            u[p] = [v[p], np.int64(v[p]), np.int32(v[p]), np.uint8(v[p])][case["l"]]
            if p == "levels" and case["l"] == 3:
                u[p] = (v[p],) * k
            t.append("level=" + type(u[p]).__name__)
    return u, t


@law("P25", strategy=st_spell, quick=2500, thorough=60000)
def spellings(case):
    """Names, objects, enumeration members, scalars or one entry per axis, negative or positive axes, Python or NumPy integers."""
    o = ops.Op(case["o"])
    op = o.op
    x = [make({"k": "normal", "s": case["s"] + i}, sh, case["dt"]) for i, sh in enumerate(o.shapes)]
    v = arguments(o, o.prepare(x))
    u, tags = respell(o, v, case)
    what = f"{show(op, [], v)} and {show(op, [], u)}"
    ok = both(invoke(op, [], v), invoke(op, [], u), EPS[case["dt"]], what)
    return ["op=" + op] + tags if ok else []


# ------------------------------------------------------------------ the 1-D, 2-D and n-D entry points
@st.composite
def st_entry(draw):
    o = draw(ops.st_op(["wavedec", "swt", "mra", "dwt", "wp", "wavedec2", "swt2", "mra2", "dwt2", "wp2", "idwt", "waverec", "iswt", "idwt2", "waverec2", "iswt2"]))
    return {"o": o, "dt": draw(g.st_dtype()), "s": draw(st.integers(0, 10 ** 6))}


def as_n(op, r, k):
    """the result (or input) structure of a 1-D / 2-D function in n-D form"""
    names = ["d"] if k == 1 else ["da", "ad", "dd"]
    tup = (lambda d: (d,)) if k == 1 else tuple
    return [r[0]] + [dict(zip(names, tup(d))) for d in r[1:]]


@law("P25", strategy=st_entry, quick=1200, thorough=30000)
def entry_points(case):
    """The 1-D and 2-D functions equal the n-D ones on the same axes, and a single level equals a multilevel call of one level."""
    o = ops.Op(case["o"])
    op, cfg = o.op, o.cfg
    k = len(o.axes)
    eps = EPS[case["dt"]]
    x = [make({"k": "normal", "s": case["s"] + i}, sh, case["dt"]) for i, sh in enumerate(o.shapes)]
    c = o.prepare(x)
    w, m, L, axes = o.wa, o.ma, o.level, tuple(cfg["axes"])
    what = f"{op} and its n-D form ({cfg['shape']},{cfg['ws']},{cfg['modes']},level={L},axes={axes})"
    one = o.call(c)
    fl = ops.flatten
    extra = []
    if op in ("dwt", "dwt2"):
        n = pywt.dwtn(c, w, m, axes)
        a, d = one[0], one[1]
        names = ["d"] if k == 1 else ["da", "ad", "dd"]
        lhs = dict(zip(names, (d,) if k == 1 else d))
        lhs["a" * k] = a
        agree(fl(lhs), fl(n), eps, what)
        n = pywt.wavedecn(c, w, m, 1, axes)
        agree(fl(as_n(op, [a, d], k)), fl(n), eps, what + " (wavedecn of one level)")
        if k == 1 and len(o.shape) == 1:
            for p, v in zip("ad", one):
                agree(fl(pywt.downcoef(p, c, w, m, 1)), fl(v), eps, what + " (downcoef)")
            extra.append("downcoef")
    elif op in ("wavedec", "wavedec2"):
        n = pywt.wavedecn(c, w, m, L, axes)
        agree(fl(as_n(op, one, k)), fl(n), eps, what)
        if k == 1:
            f = pywt.fswavedecn(c, w, m, L, axes)
            b = [f[(j,)] for j in range(L + 1)]          # 0: approximation, 1: coarsest detail, ...
            agree(fl(b), fl(list(one)), eps, what + " (fswavedecn along one axis)")
            extra.append("fswavedecn")
    elif op in ("swt", "swt2"):
        n = pywt.swtn(c, w, L, 0, axes, cfg["trim"], cfg["norm"])
        if cfg["trim"]:
            lhs = as_n(op, one, k)
        else:
            names = ["d"] if k == 1 else ["da", "ad", "dd"]
            lhs = [dict(zip(["a" * k] + names, (e[0], e[1]) if k == 1 else (e[0],) + tuple(e[1]))) for e in one]
        agree(fl(lhs), fl(n), eps, what)
    elif op in ("mra", "mra2"):
        tr = ("swt" if o.stat else "dwt") + "n"
        mm = "periodization" if o.stat else m
        n = pywt.mran(c, w, L, axes, tr, mm)
        agree(fl(as_n(op, one, k)), fl(n), 20 * eps * max(1, o.gain()), what)
    elif op in ("wp", "wp2"):
        t = FN[op](c, w, m, L, axes[0] if k == 1 else axes)
        n = pywt.WaveletPacketND(c, w, m, L, axes)
        tr = {"a": "aa", "h": "da", "v": "ad", "d": "dd"} if k == 2 else {"a": "a", "d": "d"}
        for node in t.get_level(min(L, 2)):
            p = "".join(tr[ch] for ch in node.path)
            agree([("", node.data)], [("", n[p].data)], eps, what + f" node {node.path}/{p}")
    elif op in ("idwt", "idwt2"):
        names = ["a", "d"] if k == 1 else ["aa", "da", "ad", "dd"]
        n = pywt.idwtn(dict(zip(names, c if k == 1 else (c[0],) + tuple(c[1]))), w, m, axes)
        agree(fl(one), fl(n), eps, what)
    elif op in ("waverec", "waverec2"):
        agree(fl(one), fl(pywt.waverecn(as_n(op, c, k), w, m, axes)), eps * max(1, o.gain()), what)
    elif op in ("iswt", "iswt2"):
        if not cfg["trim"]:
            c = [c[0][0]] + [e[1] for e in c]
        agree(fl(one), fl(pywt.iswtn(as_n(op, c, k), w, axes, cfg["norm"])), eps * 20, what)
    return ["op=" + op, f"{len(o.shape)}-D", f"level={L}"] + extra


# ------------------------------------------------------------------ helpers, tables and containers
@st.composite
def st_helper(draw):
    return {"h": draw(st.sampled_from(sorted(HELP))), "v": draw(st.integers(0, 5)), "n": draw(st.integers(1, 3000)), "w": draw(st.sampled_from(ref.DISCRETE)),
            "m": draw(g.st_mode()), "cw": draw(st.sampled_from(ops.CWTS)), "p": draw(st.integers(1, 9)), "s": draw(st.integers(0, 10 ** 6)),
            "f": draw(st.integers(1, 400))}


def h_max_level(c):
    n, w = c["n"], c["w"]
    F = ref.flen(w)
    return [lambda: pywt.dwt_max_level(n, F), lambda: pywt.dwt_max_level(n, w), lambda: pywt.dwt_max_level(n, pywt.Wavelet(w)), lambda: pywt.dwt_max_level(data_len=n, filter_len=np.int64(F)),
            lambda: pywt.dwtn_max_level((n,), w), lambda: pywt.dwtn_max_level([n, 10 ** 6], [w, "haar"])]


def h_coeff_len(c):
    n, w, m = c["n"], c["w"], c["m"]
    F = ref.flen(w)
    E = getattr(pywt.Modes, m)
    return [lambda: pywt.dwt_coeff_len(n, F, m), lambda: pywt.dwt_coeff_len(n, pywt.Wavelet(w), m), lambda: pywt.dwt_coeff_len(n, pywt.Wavelet(w), E),
            lambda: pywt.dwt_coeff_len(data_len=n, filter_len=F, mode=E), lambda: pywt.wavedecn_shapes((n,), w, m, 1)[0][0], lambda: pywt.wavedecn_shapes([n, 3], pywt.Wavelet(w), E, 1, axes=[-2])[1]["d"][0]]


def h_dwt_len_args(c):
    return [lambda: pywt.wavedecn_shapes((64, 32), "db2", "symmetric", None, None), lambda: pywt.wavedecn_shapes((64, 32), "db2"),
            lambda: pywt.wavedecn_shapes(shape=[64, 32], wavelet=["db2"] * 2, level=min(pywt.dwt_max_level(64, 4), pywt.dwt_max_level(32, 4)), axes=(0, 1)),
            lambda: pywt.wavedecn_shapes((64, 32), pywt.Wavelet("DB2"), pywt.Modes.symmetric, 3, (-2, -1))]


def h_wavefun(c):
    w = c["w"]
    return [lambda: pywt.Wavelet(w).wavefun(), lambda: pywt.Wavelet(w).wavefun(8), lambda: pywt.Wavelet(w).wavefun(level=8), lambda: pywt.Wavelet(w.upper()).wavefun(np.int64(8)),
            lambda: pywt.DiscreteContinuousWavelet(w).wavefun()]


def h_cwavefun(c):
    w, p = c["cw"], c["p"]
    return [lambda: pywt.ContinuousWavelet(w).wavefun(p), lambda: pywt.ContinuousWavelet(w).wavefun(level=p), lambda: pywt.ContinuousWavelet(w).wavefun(length=2 ** p),
            lambda: pywt.ContinuousWavelet(w).wavefun(3, 2 ** p), lambda: pywt.ContinuousWavelet(w, np.float64).wavefun(p), lambda: pywt.DiscreteContinuousWavelet(w).wavefun(p, None)]


def h_cdefault(c):
    w = c["cw"]
    return [lambda: pywt.ContinuousWavelet(w).wavefun(), lambda: pywt.ContinuousWavelet(w).wavefun(8), lambda: pywt.ContinuousWavelet(w).wavefun(length=256), lambda: pywt.ContinuousWavelet(w.upper()).wavefun()]


def either(c):
    return c["cw"] if c["s"] % 2 else c["w"]


def obj(w):
    return pywt.DiscreteContinuousWavelet(w)


def h_integrate(c):
    w = either(c)
    return [lambda: pywt.integrate_wavelet(w), lambda: pywt.integrate_wavelet(w, 8), lambda: pywt.integrate_wavelet(obj(w), precision=8), lambda: pywt.integrate_wavelet(w.upper()),
            lambda: pywt.intwave(w, precision=8), lambda: pywt.integrate_wavelet(wavelet=w)]


def h_integrate_arrays(c):
    w, p = c["cw"], c["p"]
    def arrays(two):
        psi, x = pywt.ContinuousWavelet(w).wavefun(p)
        return pywt.integrate_wavelet((psi, x), c["s"] % 12) if two else pywt.integrate_wavelet([psi, x])
    return [lambda: pywt.integrate_wavelet(w, p), lambda: arrays(True), lambda: arrays(False), lambda: pywt.integrate_wavelet(w, np.int32(p))]


def h_central(c):
    w = either(c)
    return [lambda: pywt.central_frequency(w), lambda: pywt.central_frequency(w, 8), lambda: pywt.central_frequency(obj(w), precision=8), lambda: pywt.centrfrq(w),
            lambda: pywt.scale2frequency(w, 1), lambda: pywt.scale2frequency(w, 1.0, 8)]


def h_scale2freq(c):
    w, f = either(c), c["f"] / 16
    return [lambda: pywt.scale2frequency(w, f), lambda: pywt.scale2frequency(w, f, 8), lambda: pywt.scale2frequency(obj(w), f, precision=8), lambda: pywt.scal2frq(w, f), lambda: pywt.scal2frq(w, scale=f),
            lambda: pywt.central_frequency(w) / f]


def h_freq2scale(c):
    w, f = either(c), c["f"] / 16
    return [lambda: pywt.frequency2scale(w, f), lambda: pywt.frequency2scale(w, f, 8), lambda: pywt.frequency2scale(obj(w), freq=f, precision=8), lambda: pywt.frequency2scale(wavelet=w, freq=np.float64(f)),
            lambda: pywt.central_frequency(w, 8) / f]


def h_bank(c):
    w = pywt.Wavelet(c["w"])
    lo = list(w.rec_lo)
    return [lambda: pywt.orthogonal_filter_bank(lo), lambda: pywt.orthogonal_filter_bank(np.array(lo)), lambda: pywt.orthogonal_filter_bank(tuple(lo)), lambda: pywt.orthfilt(lo),
            lambda: pywt.orthogonal_filter_bank(scaling_filter=lo)]


def h_qmf(c):
    lo = list(pywt.Wavelet(c["w"]).rec_lo)
    return [lambda: pywt.qmf(lo), lambda: pywt.qmf(np.array(lo)), lambda: pywt.qmf(tuple(lo)), lambda: pywt.qmf(filt=lo)]


def h_swtmax(c):
    n = c["n"]
    return [lambda: pywt.swt_max_level(n), lambda: pywt.swt_max_level(np.int64(n)), lambda: pywt.swt_max_level(input_len=n), lambda: pywt.swt_max_level(np.uint32(n)), lambda: (n & -n).bit_length() - 1]


def h_threshold(c):
    x = make({"k": "normal", "s": c["s"]}, [c["n"] % 7 + 1, 5], "f8")
    v = c["f"] / 200
    return [lambda: pywt.threshold(x, v), lambda: pywt.threshold(x, v, "soft"), lambda: pywt.threshold(x, v, "soft", 0), lambda: pywt.threshold(data=x, value=v, substitute=0),
            lambda: pywt.threshold(x.tolist(), v), lambda: pywt.threshold(x, np.float64(v), mode="soft")]


def h_greater(c):
    x = make({"k": "normal", "s": c["s"]}, [c["n"] % 7 + 1, 5], "f8")
    v, m = c["f"] / 200, ["hard", "garrote", "greater", "less"][c["n"] % 4]
    return [lambda: pywt.threshold(x, v, m), lambda: pywt.threshold(x, v, m, 0), lambda: pywt.threshold(x, v, mode=m, substitute=0.0), lambda: pywt.threshold(data=x.tolist(), value=v, mode=m)]


def h_pad(c):
    x = make({"k": "normal", "s": c["s"]}, [c["n"] % 9 + 2], "f8")
    p, m = c["p"], c["m"]
    return [lambda: pywt.pad(x, p, m), lambda: pywt.pad(x, (p, p), m), lambda: pywt.pad(x, [(p, p)], m), lambda: pywt.pad(x=x, pad_widths=np.int64(p), mode=m), lambda: pywt.pad(x.tolist(), (p,), m),
            lambda: pywt.pad(x, [[p, p]], mode=m)]


def h_pad2(c):
    x = make({"k": "normal", "s": c["s"]}, [c["n"] % 5 + 2, 4], "f8")
    p, q, m = c["p"], c["s"] % 6, c["m"]
    return [lambda: pywt.pad(x, (p, q), m), lambda: pywt.pad(x, ((p, q), (p, q)), m), lambda: pywt.pad(x, np.array([[p, q], [p, q]]), m), lambda: pywt.pad(x, [(p, q)] * 2, m)]


def h_pack(c):
    x = make({"k": "normal", "s": c["s"]}, [c["n"] % 9 + 6, c["p"] + 6], "f8")
    d = pywt.wavedecn(x, "db2", c["m"], 2)
    e = pywt.wavedec2(x, "db2", c["m"], 2)
    A = pywt.coeffs_to_array
    return [lambda: A(d)[0], lambda: A(d, 0)[0], lambda: A(d, 0, None)[0], lambda: A(coeffs=d, axes=(0, 1))[0], lambda: A(e, padding=0.0, axes=(-2, -1))[0], lambda: A(e)[0]]


def h_unpack(c):
    x = make({"k": "normal", "s": c["s"]}, [c["n"] % 9 + 6, c["p"] + 6], "f8")
    d = pywt.wavedecn(x, "db2", c["m"], 2)
    a, s = pywt.coeffs_to_array(d)
    v, sl, sh = pywt.ravel_coeffs(d)
    return [lambda: d, lambda: pywt.array_to_coeffs(a, s), lambda: pywt.array_to_coeffs(a, s, "wavedecn"), lambda: pywt.unravel_coeffs(v, sl, sh), lambda: pywt.unravel_coeffs(arr=v, coeff_slices=sl, coeff_shapes=sh, output_format="wavedecn"),
            lambda: pywt.unravel_coeffs(*pywt.ravel_coeffs(d, axes=None))]


def h_tree(c):
    x = make({"k": "normal", "s": c["s"]}, [c["n"] % 20 + 8], "f8")
    T = lambda: pywt.WaveletPacket(x, c["w"], c["m"], 2)
    D = lambda ns: [n.data for n in ns]
    return [lambda: D(T().get_level(2)), lambda: D(T().get_level(2, "natural")), lambda: D(T().get_level(2, "natural", True)), lambda: D(T().get_level(level=2, order="natural", decompose=True)),
            lambda: D(T().get_leaf_nodes(True)), lambda: D([T()[a][b] for a in "ad" for b in "ad"])]


def h_tree2(c):
    x = make({"k": "normal", "s": c["s"]}, [c["n"] % 5 + 4, 6], "f8")
    T = lambda: pywt.WaveletPacket2D(x, c["w"], c["m"], 2)
    D = lambda ns: [n.data for n in ns]
    def left(**k):
        t = T()
        t.decompose()
        return D(t.get_leaf_nodes(**k))
    return [lambda: left(), lambda: left(decompose=False), lambda: D([T()["a"], T()["h"], T()["v"], T()["d"]]), lambda: D(T().get_level(1))]


def h_rebuild(c):
    x = make({"k": "normal", "s": c["s"]}, [c["n"] % 20 + 8], "f8")
    def run(*a, **k):
        t = pywt.WaveletPacket(x, c["w"], c["m"], 2)
        t["ad"].data = t["ad"].data * 0
        t["d"]
        r = t.reconstruct(*a, **k)
        return [np.asarray(r), np.asarray(t.data)]
    return [lambda: run(), lambda: run(True), lambda: run(update=True), lambda: run(update=np.True_)]


def h_lists(c):
    def bycode(kind):
        out = []
        for n in pywt.wavelist():
            if isinstance(obj(n if n not in ("cmor", "shan", "fbsp") else n + ("2-1.5-1.0" if n == "fbsp" else "1.5-1.0")), pywt.Wavelet) == (kind == "discrete"):
                out.append(n)
        return out
    kind = ["discrete", "continuous"][c["s"] % 2]
    return [lambda: np.array(pywt.wavelist(kind=kind)), lambda: np.array(pywt.wavelist(None, kind)), lambda: np.array(bycode(kind)), lambda: np.array([n for n in pywt.wavelist(None, "all") if n in set(pywt.wavelist(kind=kind))])]


def h_families(c):
    return [lambda: np.array(pywt.families()), lambda: np.array(pywt.families(True)), lambda: np.array(pywt.families(short=True))]


def h_family_lists(c):
    f = pywt.families()[c["n"] % len(pywt.families())]
    full = pywt.families(short=False)[c["n"] % len(pywt.families())]
    def named():
        out = []
        for n in pywt.wavelist():
            m = n + {"cmor": "1.5-1.0", "shan": "1.5-1.0", "fbsp": "2-1.5-1.0"}.get(n, "")
            if obj(m).family_name == full:
                out.append(n)
        return np.array(out)
    return [lambda: np.array(pywt.wavelist(f)), lambda: np.array(pywt.wavelist(family=f)), lambda: np.array(pywt.wavelist(f, "all")), named]


def h_modes(c):
    m = c["m"]
    E = getattr(pywt.Modes, m)
    old = {"zero": "zpd", "constant": "cpd", "symmetric": "sym", "periodic": "ppd", "smooth": "sp1", "periodization": "per"}.get(m, m)
    return [lambda: pywt.Modes.from_object(m), lambda: pywt.Modes.from_object(E), lambda: pywt.Modes.from_object(old), lambda: getattr(pywt.Modes, old)]


HELP = {n[2:]: f for n, f in list(globals().items()) if n.startswith("h_") and callable(f)}


def listed(v, pre=""):
    """any helper result as [(where, array)]"""
    if isinstance(v, (list, tuple)):
        return [t for i, u in enumerate(v) for t in listed(u, f"{pre}[{i}]")]
    if isinstance(v, dict):
        return [t for k in sorted(v) for t in listed(v[k], f"{pre}[{k}]")]
    return [(pre, np.asarray(v))]


@law("P25", strategy=st_helper, quick=1500, thorough=30000)
def helpers(case):
    """Length, level, table, wavelet function, frequency, threshold, padding, packing and tree helpers: every documented way of asking."""
    forms = HELP[case["h"]](case)
    a, b = forms[0], forms[case["v"] % len(forms)]
    res = []
    for f in (a, b):
        try:
            with warnings.catch_warnings():
                warnings.simplefilter("ignore")
                res.append(("ok", listed(f())))
        except (ValueError, TypeError, IndexError, AttributeError, RuntimeError, KeyError) as e:
            res.append(("no", e))
    what = f"{case['h']} ({ {k: case[k] for k in ('n', 'w', 'm', 'cw', 'p', 'f')} }), way {case['v'] % len(forms)} and the basic one"
    if res[0][0] == "no" and res[1][0] == "no":
        return []
    for r in res:
        if r[0] == "no":
            raise Violation(f"{what}: one is refused with {r[1]!r}")
    A, B = res[0][1], res[1][1]
    require([k for k, _ in A] == [k for k, _ in B], lambda: f"{what}: structures differ")
    for (k, u), (_, v) in zip(A, B):
        require(u.shape == v.shape, lambda: f"{what}{k}: shapes {u.shape} and {v.shape}")
        if u.dtype.kind in "fc":
            s = float(np.max(np.abs(v))) if v.size else 0.0
            require(v.size == 0 or bool(np.all(np.abs(u - v) <= 1e-11 * s)), lambda: f"{what}{k}: {u!r} and {v!r}"[:600])
        else:
            require(np.array_equal(u, v), lambda: f"{what}{k}: {u!r} and {v!r}"[:600])
    return [] if case["v"] % len(forms) == 0 else ["helper=" + case["h"]]
