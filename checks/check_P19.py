"""P19: requests outside the documented domain are refused promptly and leave the library as it was."""
import copy
import itertools

import numpy as np
import pywt
from hypothesis import strategies as st

import gens as g
import ops
import ref
from check_P18 import diff, snap
from core import NP, Reject, Violation, law, make, require, same

RULE = ("case = well-formed generated call (one of 33 transform operations or a helper) x one defect injected into it; the well-formed call must work "
        "before and give the identical result after the refused one; non-trivial when the well-formed call works")
ASSUMPTIONS = ["imra, imra2 and imran add up whatever components NumPy can add",
               "data that NumPy converts to numbers (numeric strings, Python objects, None as NaN) is data; axes given as fractions, deprecated mode names and "
               "an axis given twice to a single-level n-D transform are accepted on purpose or by NumPy's rules and are not counted as defects",
               "an ordinary exception is any Exception other than MemoryError, RecursionError, SystemError, NameError and SyntaxError",
               "promptly: within the per-case time limit of the driver (60 s)"]

BADEXC = (MemoryError, RecursionError, SystemError, NameError, SyntaxError, BufferError)


def refused(f, what):
    try:
        r = f()
    except BADEXC as e:
        raise Violation(f"{what}: raised {type(e).__name__}: {str(e)[:150]}")
    except Exception as e:
        return type(e).__name__
    t = repr(r)
    raise Violation(f"{what}: accepted, answered {t[:200]}")


class Thing:
    """no wavelet, no mode, no number"""

    def __repr__(self):
        return "Thing()"


BAD_W = ["foo", "", "db", "db0", "db39", "db-1", "haar1", "bior1.2", "bior", "rbio9.9", "sym1", "sym21", "coif0", "coif18", "dmey2", "db2.5", "db2 ", "wavelet", "aa", "gaus99",
         "mexh", "morl", "gaus1", "cgau2", "cmor1.5-1.0", "shan", "fbsp", "\x00", "db2\x00", "dé", None, 3, 2.5, b"db2", Thing(), [[1, 2], [3, 4]], ("db2", "db2", "db2", "db2", "db2"), [], {}]
BAD_M = ["foo", "", "symm", "mirror", "edge", "modes", "from_object", "__name__", "zero ", -1, 9, 10, 99, -10 ** 9, 10 ** 6, None, 1.5, Thing(), ["zero"] * 7, [], {}, b"zero"]
BAD_DATA = ["abc", [["a"]], None, {}, Thing(), np.array("x"), [[1, 2], [3]], np.zeros(3, "V4"), np.array([{}]),
            [1, "x", 3], [Thing()], {1: 2}, np.array(["1", "y"])]
BAD_AX = [7, -8, 99, -99, 2 ** 31, -2 ** 31 - 1, 2 ** 63, "0", None, Thing(), [[0]]]


def over(o, **kw):
    n = copy.copy(o)
    n.cfg = dict(o.cfg)
    for k, v in kw.items():
        if k in ("axes", "part", "scales", "method"):
            n.cfg[k] = v
        elif k == "cw":
            n.cfg["ws"] = [v]
        else:
            setattr(n, k, v)
    return n


# ------------------------------------------------------------------ defects: (o, v, arrays) -> (description, thunk) or None when not applicable
D = {}


def defect(f):
    D[f.__name__] = f
    return f


ONE_LEVEL = {"dwt", "idwt", "dwt2", "idwt2", "dwtn", "idwtn"}
NOW = {"imra", "imra2", "imran"}                                 # take no wavelet
NOMODE = {"swt", "iswt", "swt2", "iswt2", "swtn", "iswtn", "upcoef", "cwt"} | NOW
NOLEVEL = ONE_LEVEL | NOW | {"waverec", "waverec2", "waverecn", "iswt", "iswt2", "iswtn", "fswaverecn", "cwt", "wprec"}
NOAXES = NOW | {"downcoef", "upcoef", "fswaverecn"}
PER_AXIS = {"dwt2", "idwt2", "wavedec2", "waverec2", "swt2", "iswt2", "dwtn", "idwtn", "wavedecn", "waverecn", "swtn", "iswtn", "mra2", "mran", "fswavedecn"}


@defect
def wavelet(o, v, x):
    if o.op in NOW or o.op == "cwt":
        return None
    w = BAD_W[v % len(BAD_W)]
    n = over(o, wa=w)
    if o.op == "fswaverecn":
        return None
    return f"wavelet {w!r}", lambda: n.call(n.prepare(x))


@defect
def cwt_wavelet(o, v, x):
    if o.op != "cwt":
        return None
    L = ["db2", "haar", "foo", "", "gaus0", "gaus9", "cgau9", "gaus-1", "cmor1", "cmor-1", "cmor1-", "cmora-b", "shan1", "fbsp1", "fbsp1-2", "fbsp0-1-1", "cmor0-1", "cmor-1.0-1.0", "morl5", "mexh1",
         "cmor1.5-1.0-2", "cmor1.5--1", "shan1-1x", "cmor1.5_1.0", "shan1.5-1..0", "fbsp1.5-1-1", None, 3, Thing(), ["morl"], pywt.Wavelet("db2")]
    w = L[v % len(L)]
    n = over(o, cw=w)
    return f"continuous wavelet {w!r}", lambda: n.call(n.prepare(x))


@defect
def wavelet_count(o, v, x):
    if o.op not in PER_AXIS - {"fswaverecn"}:
        return None
    k = len(o.axes)
    c = [c for c in (0, 1, 2, 3, 4, 5) if c != k and not (c == 1)][v % 4]
    n = over(o, wa=["haar"] * c if v % 2 else tuple(["db2"] * c))
    return f"{c} wavelets for {k} axes", lambda: n.call(n.prepare(x))


@defect
def mode(o, v, x):
    if o.op in NOMODE or o.op == "fswaverecn":
        return None
    m = BAD_M[v % len(BAD_M)]
    if o.op in ("mra", "mra2", "mran") and o.stat:
        return None
    n = over(o, ma=m)
    return f"mode {m!r}", lambda: n.call(n.prepare(x))


@defect
def mode_count(o, v, x):
    if o.op not in PER_AXIS - NOMODE - {"fswaverecn"} or o.op in ("mra2", "mran") and o.stat:
        return None
    k = len(o.axes)
    c = [c for c in (0, 2, 3, 4, 5) if c != k][v % 3]
    n = over(o, ma=["zero"] * c)
    return f"{c} modes for {k} axes", lambda: n.call(n.prepare(x))


@defect
def one_sample(o, v, x):
    """a reflecting mode cannot extend a single sample, be it the data or what an earlier level leaves"""
    if o.synthesis or o.stat or o.op == "cwt":
        return None
    j = v % len(o.axes)
    a = o.axes[j]
    m = ("reflect", "antireflect")[v // 2 % 2]
    late = v // 4 % 2 and o.op not in ("dwt", "dwt2", "dwtn") and o.level > 1
    k = 2 if late else 1
    if o.shape[a] < k:
        return None
    ma = [m if i == j or o.op.startswith("wp") else w for i, w in enumerate(o.ma if isinstance(o.ma, list) else [o.ma] * len(o.axes))]
    n = over(o, ma=ma[0] if len(set(ma)) == 1 else ma, **({"wa": "haar"} if late else {}))
    if late and any(o.shape[b] < 2 for b in o.axes):
        return None
    y = np.take(x[0], range(k), a)
    return f"mode {n.ma!r} for {y.shape} along axis {a}, {o.level} levels", lambda: n.call(n.prepare([y]))


@defect
def axis(o, v, x):
    if o.op == "cwt" and len(o.shape) == 1:
        return None         # cwt of a single signal ignores its axis (upstream tests rely on it)
    if o.op in NOAXES:
        return None
    nd = len(o.shape)
    a = pick(v, BAD_AX) if v % 2 else pick(v // 2, [nd, -nd - 1, nd + 1, -nd - 2, 2 * nd, -2 * nd, -2 * nd - 1])        # or just past the ends
    ax = list(o.cfg["axes"])
    if a is None and o.op not in ops.ONE:
        return None
    ax[(v // 14) % len(ax)] = a
    n = over(o, axes=ax)
    return f"axes {ax}", lambda: n.call(n.prepare(x))


@defect
def repeated_axis(o, v, x):
    if o.op in NOAXES or o.op in ops.ONE or o.op in ("dwt2", "idwt2", "dwtn", "idwtn"):
        return None         # the single-level n-D transforms take an axis twice
    ax = list(o.axes)
    nd = len(o.shape)
    if len(ax) < 2:
        ax = [ax[0], ax[0]]
        if o.synthesis:
            return None
    else:
        ax[v % len(ax)] = ax[(v + 1) % len(ax)]
    if v // 7 % 2:
        ax[0] -= nd
    wa = o.wa if not isinstance(o.wa, list) else o.wa[0]
    ma = o.ma if not isinstance(o.ma, list) else o.ma[0]
    n = over(o, axes=ax, wa=wa, ma=ma)
    return f"axes {ax}", lambda: n.call(n.prepare(x))


@defect
def axes_count(o, v, x):
    if o.op not in ops.TWO or o.op == "imra2":
        return None
    nd = len(o.shape)
    ax = [[], [0], list(range(nd)) if nd != 2 else [0], [0, 1, 0], [-1]][v % 5]
    if len(ax) == 2:
        return None
    n = over(o, axes=ax)
    return f"axes {ax} for a 2-D transform", lambda: n.call(n.prepare(x))


@defect
def level(o, v, x):
    if o.op in NOLEVEL or o.op.startswith("wp"):
        return None
    bad = [-1, -2, -100, "1", Thing(), -2 ** 31, [], -2 ** 63]
    L = bad[v % len(bad)]
    if o.op in ("downcoef", "upcoef") and v % 3 == 0:
        L = 0
    n = over(o, level=L)
    return f"level {L!r}", lambda: n.call(n.prepare(x))


@defect
def level_too_large(o, v, x):
    """beyond what the length is divisible by / the tree's maximum"""
    if o.op in ("swt", "swt2", "swtn") or o.op in ("mra", "mra2", "mran") and o.stat:
        m = min((o.shape[a] & -o.shape[a]).bit_length() - 1 for a in o.axes)
        n = over(o, level=pick(v, [m + 1, m + 2, m + 3, 64, 255, 256, 2 ** 31 - 1, 2 ** 31, 2 ** 32, 2 ** 32 + 1, 2 ** 63 - 1, 2 ** 63, 2 ** 64 - 1, 2 ** 64, 2 ** 70]))
        return f"level {n.level} of lengths {[o.shape[a] for a in o.axes]}", lambda: n.call(n.prepare(x))
    if o.op.startswith("wp") and o.op != "wprec":
        t = {"wp": lambda: pywt.WaveletPacket(x[0], o.wa, o.ma, o.level, o.cfg["axes"][0]), "wp2": lambda: pywt.WaveletPacket2D(x[0], o.wa, o.ma, o.level, tuple(o.cfg["axes"])),
             "wpn": lambda: pywt.WaveletPacketND(x[0], o.wa, o.ma, o.level, tuple(o.cfg["axes"]))}[o.op]
        k = v % 3
        plen = 1 if o.op != "wpn" else len(o.axes)
        if k == 0:
            return f"get_level({o.level + 1 + v % 4}) of a tree with {o.level} levels", lambda: t().get_level(o.level + 1 + v % 4)
        if k == 1:
            return f"path of {o.level + 1} steps in a tree with {o.level} levels", lambda: t()["a" * plen * (o.level + 1)]
        return f"assignment below the last of {o.level} levels", lambda: t().__setitem__("a" * plen * (o.level + 1), x[0])
    return None


@defect
def length(o, v, x):
    """lengths that the stationary transform does not take"""
    if o.op not in ("swt", "swt2", "swtn"):
        return None
    sh = list(o.shape)
    a = o.axes[v % len(o.axes)]
    sh[a] += 1 + v % (2 ** o.level - 1) if o.level > 1 else 1
    if sh[a] % 2 ** o.level == 0:
        return None
    return f"{o.level} levels of shape {sh}", lambda: o.call(np.ones(sh))


@defect
def data(o, v, x):
    if o.synthesis or o.op == "cwt" and False:
        return None
    d = BAD_DATA[v % len(BAD_DATA)]
    if d is None and o.op.startswith("wp"):
        return None         # a tree without data
    return f"data {d!r}", lambda: over(o, axes=[0] if o.op in ops.ONE else o.cfg["axes"]).call(d)


@defect
def band_data(o, v, x):
    if not o.synthesis or o.op == "fswaverecn":
        return None
    d = ["abc", Thing(), {}, np.array(["a", "b"]), [[1, 2], [3]], np.array([{}] * 3)][v % 6]
    y = list(x)
    y[v // 6 % len(y)] = d
    return f"coefficients {d!r}", lambda: o.call(o.prepare(y))


@defect
def empty(o, v, x):
    if o.op in NOW or o.op == "fswaverecn":
        return None
    sh = [list(a.shape) for a in x]
    for s in sh:
        s[o.axes[v % len(o.axes)]] = 0
    y = [np.zeros(s, a.dtype) for s, a in zip(sh, x)]
    return f"empty data {sh[0]}", lambda: o.call(o.prepare(y))


@defect
def ndim(o, v, x):
    """not enough dimensions"""
    if o.synthesis or o.op in ("downcoef", "upcoef"):
        return None
    nd = len(o.shape)
    if o.op in ops.ONE:
        d = np.float64(3.0)
    elif o.op in ops.TWO:
        d = [np.ones(8), np.float64(2), 5.0][v % 3]
    else:
        d = np.float64(1)
    return f"{np.ndim(d)}-D data", lambda: over(o, axes=[0] if o.op in ops.ONE else [-2, -1] if o.op in ops.TWO else [0]).call(d)


@defect
def dims_1d(o, v, x):
    """downcoef and upcoef take one-dimensional data only"""
    if o.op not in ("downcoef", "upcoef"):
        return None
    y = np.ones([(2, 8), (8, 1), (1, 8), ()][v % 4])
    return f"{y.ndim}-D data", lambda: o.call(o.prepare([y]))


@defect
def part(o, v, x):
    if o.op not in ("downcoef", "upcoef"):
        return None
    p = ["", "x", "ad", "A", "aa", None, 0, 1, Thing(), b"a", "h", " a", "da", "\x00"][v % 14]
    return f"part {p!r}", lambda: over(o, part=p).call(o.prepare(x))


@defect
def band_shape(o, v, x):
    """one band with a shape that does not fit the others"""
    if not o.synthesis or len(x) < 2 or o.op in ("fswaverecn", "wprec") or o.op in NOW:
        return None
    i = v % len(x)
    if o.op in ("iswt2",) and not o.cfg["trim"]:
        i = max(1, i)
    sh = list(x[i].shape)
    k = len(o.axes)
    nb = 2 ** k - 1
    a = v // 5 % len(sh)
    up = (v // 11) % 2
    if a not in o.axes:
        # no transform makes bands differ along an axis it leaves alone, not even by one
        sh[a] += 1 + v // 23 % 3 if up else -1
        if sh[a] < 1:
            return None
    elif up:
        sh[a] += 2 + v % 3
    else:
        if sh[a] < 3:
            return None
        sh[a] = max(1, sh[a] - 2)
    y = list(x)
    y[i] = np.ones(sh, x[i].dtype)
    return f"band {i} with shape {sh} among {[t.shape for t in x]}", lambda: o.call(o.prepare(y))


@defect
def level_shape(o, v, x):
    """all bands of one level share a shape that does not follow from the level before"""
    if o.op not in ("waverec", "waverec2", "waverecn") or o.level < 2:
        return None
    k = len(o.axes)
    nb = 2 ** k - 1
    if len(x) != 1 + nb * o.level:
        return None
    n = 1 + v % (o.level - 1)                  # any level but the coarsest
    a = o.axes[v // 7 % k]
    # what the level before grows to, or one sample less, is the only length that fits
    w, m = o.cfg["ws"][o.axes.index(a)], o.cfg["modes"][o.axes.index(a)]
    b = x[1 + nb * (n - 1)].shape[a]
    full = 2 * b if m == "periodization" else 2 * b - ref.flen(w) + 2
    new = [full + 1, full + 2, full - 2, full - 3][v // 31 % 4]
    if new < 1:
        return None
    y = list(x)
    for i in range(1 + nb * n, 1 + nb * (n + 1)):
        sh = list(y[i].shape)
        sh[a] = new
        y[i] = np.ones(sh, y[i].dtype)
    return f"details of level {n} with shape {sh} among {[t.shape for t in x]}", lambda: o.call(o.prepare(y))


@defect
def band_ndim(o, v, x):
    if not o.synthesis or len(x) < 2 or o.op in ("fswaverecn", "wprec") or o.op in NOW:
        return None
    i = v % len(x)
    if o.op == "iswt2" and not o.cfg["trim"]:
        i = max(1, i)
    y = list(x)
    y[i] = x[i][None] if v // 3 % 2 else x[i][..., None]
    if y[i].size == 1 and o.op in NOW:
        return None
    return f"band {i} with shape {y[i].shape} among {[t.shape for t in x]}", lambda: o.call(o.prepare(y))


@defect
def too_short(o, v, x):
    """fewer coefficients than half a filter can produce nothing"""
    if o.op not in ("idwt", "idwt2", "idwtn", "waverec", "waverec2", "waverecn") or any(m == "periodization" for m in o.cfg["modes"]):
        return None
    a = v % len(o.axes)
    F = ref.flen(o.cfg["ws"][a])
    n = 1 + (v // 3) % max(1, F // 2)
    if 2 * n - F + 2 > 0:
        return None
    L = o.level if o.op.startswith("waverec") else 1
    ax = o.axes[a]
    cnt = 2 ** len(o.axes)
    sh = list(x[0].shape)
    sh[ax] = n
    y = [np.ones(sh)] * cnt
    n2 = over(o, level=1)
    return f"{n} coefficients for a filter of length {F}", lambda: n2.call(n2.pack(y))


@defect
def structure(o, v, x):
    """malformed coefficient containers"""
    if not o.synthesis or o.op in ("wprec", "fswaverecn", "upcoef") or o.op in NOW:
        return None
    c = o.prepare(x)
    k = v % 12
    one = x[0]
    if o.op == "idwt":
        t = [None, [None, None], ["a", "b"]][v % 3]
        if t is None:
            return None
        return f"bands {t}", lambda: o.call(t)
    if o.op == "idwt2":
        t = [(), (one,), (one, ()), (one, (one,)), (one, (one, one)), (one, (one,) * 4), (one, (one,) * 3, one), None, 3, (None, None), (None, (None,) * 3), (one, one[0])][k]
        return f"coefficients {[type(q).__name__ for q in t] if isinstance(t, tuple) else t}", lambda: o.call(t)
    if o.op == "idwtn":
        t = [{}, {"x": one}, dict(c, q=one), dict(c, aaaaaaa=one), {k2: None for k2 in c}, None, [], {"": one}, {1: one}, 3, {"A" * len(o.axes): one}, {"a" * (len(o.axes) + 1): one}][k]
        return f"coefficients {list(t) if isinstance(t, dict) else t}", lambda: o.call(t)
    t = [[], (), None, 3, "abc", {}, [None, one, one, "x"], [one, one, "x"], [one, {"x": one}], [one, (one, one, one, one)], [one, ()], [None, None]][k]
    if o.op in NOW and k in (0, 1):
        pass
    if o.op in ("iswt", "iswt2", "iswtn") and k == 6:
        t = [None]
    return f"coefficients {[type(q).__name__ for q in t] if isinstance(t, (list, tuple)) else t!r}", lambda: o.call(t)


@defect
def detail_keys(o, v, x):
    """n-D details with a missing, foreign or malformed key"""
    if o.op not in ("waverecn", "iswtn"):
        return None
    c = o.prepare(x)
    if o.op == "iswtn" and not o.cfg["trim"]:
        c = [dict(d) for d in c]
        d = c[v % len(c)]
    else:
        c = [c[0]] + [dict(d) for d in c[1:]]
        d = c[1 + v % (len(c) - 1)]
    keys = sorted(d)
    k = v // 4 % 4
    if k == 0:
        d["x" * len(o.axes)] = x[0]
    elif k == 1:
        d["d" * (len(o.axes) + 1)] = x[0]
    elif k == 2:
        d["A" + "d" * (len(o.axes) - 1)] = d.pop(keys[-1])
    else:
        d[3] = d[keys[-1]]
    return f"details {list(d)}", lambda: o.call(c)


@defect
def scales(o, v, x):
    if o.op != "cwt":
        return None
    s = [[0], [-1], [1, 0], [1, -2], 0, -3.0, [1e-3], [np.nan], "abc", None, [1, None], [np.inf], Thing(), [[1, 2], [3]], [0.0, 1], [2 + 1j], [[1, 2]], [1, 2 - 1j], 2 + 0j][v % 19]
    return f"scales {s!r}", lambda: over(o, scales=s).call(o.prepare(x))


@defect
def cwt_method(o, v, x):
    if o.op != "cwt":
        return None
    m = ["foo", "", None, 3, "FFT", "Conv", Thing()][v % 7]
    return f"method {m!r}", lambda: over(o, method=m).call(o.prepare(x))


@defect
def transform(o, v, x):
    if o.op not in ("mra", "mra2", "mran"):
        return None
    t = ["foo", "", None, "dwt3", 1, "SWT", "swt4", "wavedec"][v % 8]
    f = {"mra": pywt.mra, "mra2": pywt.mra2, "mran": pywt.mran}[o.op]
    kw = {"axis": o.cfg["axes"][0]} if o.op == "mra" else {"axes": tuple(o.cfg["axes"])}
    return f"transform {t!r}", lambda: f(x[0], o.wa, o.level, transform=t, **kw)


@defect
def mra_mode(o, v, x):
    if o.op not in ("mra", "mra2", "mran") or not o.stat:
        return None
    m = [m for m in ref.MODES if m != "periodization"][v % 8]
    f = {"mra": pywt.mra, "mra2": pywt.mra2, "mran": pywt.mran}[o.op]
    kw = {"axis": o.cfg["axes"][0]} if o.op == "mra" else {"axes": tuple(o.cfg["axes"])}
    kind = {"mra": "", "mra2": "2", "mran": "n"}[o.op]
    return f"mode {m!r} with the stationary transform", lambda: f(x[0], o.wa, o.level, transform="swt" + kind, mode=m, **kw)


@defect
def take(o, v, x):
    if o.op != "upcoef":
        return None
    t = ["3", Thing(), 2 ** 70][v % 3]
    return f"take {t!r}", lambda: pywt.upcoef(o.cfg["part"], x[0], o.wa, o.level, take=t)


@defect
def start_level(o, v, x):
    if o.op not in ("swt", "swt2", "swtn"):
        return None
    if v % 4 == 3:
        s, top = pick(v // 4, [(1, 1), (1, 2), (2, 2), (2, 1)])
        k = o.cfg["axes"][0]
        if any((o.shape[a] & -o.shape[a]).bit_length() - 1 < s for a in o.axes):
            return None
        f = {"swt": pywt.swt, "swt2": pywt.swt2, "swtn": pywt.swtn}[o.op]
        return f"start level {s} and {2 ** 64 - top} levels", lambda: f(x[0], o.wa, 2 ** 64 - top, start_level=s, **({"axis": k} if o.op == "swt" else {"axes": tuple(o.cfg["axes"])}))
    s = [-1, -3, "0", 40, 63, 2 ** 40, 2 ** 63 - 1, 2 ** 63, 2 ** 64 - 1][v // 4 % 9]
    f = {"swt": pywt.swt, "swt2": pywt.swt2, "swtn": pywt.swtn}[o.op]
    kw = {"axis": o.cfg["axes"][0]} if o.op == "swt" else {"axes": tuple(o.cfg["axes"])}
    return f"start level {s!r}", lambda: f(x[0], o.wa, 1, start_level=s, **kw)


@defect
def path(o, v, x):
    if not o.op.startswith("wp") or o.op == "wprec":
        return None
    cls = {"wp": pywt.WaveletPacket, "wp2": pywt.WaveletPacket2D, "wpn": pywt.WaveletPacketND}[o.op]
    kw = {"axis": o.cfg["axes"][0]} if o.op == "wp" else {"axes": tuple(o.cfg["axes"])}
    t = cls(x[0], o.wa, o.ma, maxlevel=o.level, **kw)
    k = len(o.axes)
    p = ["x", "A", " ", 0, 1.5, None, b"a", ["a"], ("x",), (1,), "a" * 60, "\x00", "ax" if k == 1 else "xa", Thing(), {}][v % 15]
    if v % 3 == 1:                  # one to three steps below the deepest level, and a part of a name
        one = {"wp": "d", "wp2": "h", "wpn": "d" + "a" * (k - 1)}[o.op]
        p = pick(v // 3, [one * (o.level + 1), one * (o.level + 2), one * (o.level + 3), one * o.level + one[0], one * (2 * o.level + 1)])
    how = v // 15 % 3
    if how == 0:
        return f"path {p!r}", lambda: t[p]
    if how == 1:
        if p == ("x",) or isinstance(p, tuple):
            return None
        return f"assignment to path {p!r}", lambda: t.__setitem__(p, x[0])
    return f"deletion of path {p!r}", lambda: t.__delitem__(p)


@defect
def get_level(o, v, x):
    if not o.op.startswith("wp") or o.op == "wprec":
        return None
    cls = {"wp": pywt.WaveletPacket, "wp2": pywt.WaveletPacket2D, "wpn": pywt.WaveletPacketND}[o.op]
    kw = {"axis": o.cfg["axes"][0]} if o.op == "wp" else {"axes": tuple(o.cfg["axes"])}
    t = cls(x[0], o.wa, o.ma, maxlevel=o.level, **kw)
    k = v % 6
    if k < 3:
        a = [pick(v // 6, [o.level + 1, 2 ** 40, 255, 256, np.inf]), pick(v // 6, [-1, -2, -o.level - 1, -2 ** 40, np.int64(-1)]), "x"][k]
        return f"get_level({a!r})", lambda: t.get_level(a)
    if o.op == "wpn":
        return None
    a = ["foo", "", "Freq"][k - 3]
    return f"get_level(1, {a!r})", lambda: t.get_level(1, a)


@defect
def levels_per_axis(o, v, x):
    if o.op != "fswavedecn":
        return None
    k = len(o.axes)
    L = [[-1] + [1] * (k - 1), [1] * (k + 1), ["1"] * k, [None] * (k + 2), [1] * (k - 1) + [-3]][v % 5]
    return f"levels {L}", lambda: over(o, level=L).call(o.prepare(x))


@st.composite
def st_bad(draw):
    return {"o": draw(ops.st_op()), "d": draw(st.sampled_from(sorted(D))), "v": draw(st.integers(0, 5000)), "dt": draw(g.st_dtype()), "s": draw(st.integers(0, 999))}


ONLY = {"cwt_wavelet": ["cwt"], "scales": ["cwt"], "cwt_method": ["cwt"], "part": ["downcoef", "upcoef"], "dims_1d": ["downcoef", "upcoef"], "take": ["upcoef"],
        "transform": ["mra", "mra2", "mran"], "mra_mode": ["mra", "mra2", "mran"], "start_level": ["swt", "swt2", "swtn"], "length": ["swt", "swt2", "swtn"],
        "path": ["wp", "wp2", "wpn"], "get_level": ["wp", "wp2", "wpn"], "levels_per_axis": ["fswavedecn"], "level_shape": ["waverec", "waverec2", "waverecn"], "detail_keys": ["waverecn", "iswtn"],
        "level_too_large": ["swt", "swt2", "swtn", "mra", "mra2", "mran", "wp", "wp2", "wpn"], "too_short": ["idwt", "idwt2", "idwtn", "waverec", "waverec2", "waverecn"],
        "axes_count": [x for x in ops.TWO if x != "imra2"],
        "one_sample": ["dwt", "wavedec", "mra", "downcoef", "dwt2", "wavedec2", "mra2", "dwtn", "wavedecn", "mran", "wp", "wp2", "wpn", "fswavedecn"]}
for _d in ("band_shape", "band_ndim", "structure", "band_data"):
    ONLY[_d] = ["idwt", "waverec", "iswt", "imra", "idwt2", "waverec2", "iswt2", "imra2", "idwtn", "waverecn", "iswtn", "imran"]


@st.composite
def st_case(draw):
    # pick the defect first, so that rare ones are as frequent as those that every operation has
    d = draw(st.sampled_from(sorted(D)))
    o = draw(ops.st_op(ops=ONLY.get(d, ops.ALL)))
    return {"o": o, "d": d, "v": draw(st.integers(0, 5000)), "dt": draw(g.st_dtype()), "s": draw(st.integers(0, 999))}


def sweep_defects(tier, seed):
    """every defect in every operation it applies to"""
    for d in sorted(D):
        for op in ONLY.get(d, ops.ALL):
            r = np.random.default_rng([seed, sum(map(ord, d)), sum(map(ord, op))])
            for j in range(24 if tier == "quick" else 300):
                nd = 1 if op in ("downcoef", "upcoef") else 2 + j % 2 if op in ops.TWO else 1 + j % 3
                k = 2 if op in ops.TWO else 1 if op in ops.ONE else int(r.integers(1, nd + 1))
                axes = [int(a) - nd * int(r.integers(2)) for a in r.permutation(nd)[:k]]
                level = int(r.integers(1, 3))
                stat = "swt" in op or op in ("mra", "imra", "mra2", "imra2", "mran", "imran") and j // 3 % 2 == 1
                shape = [int(n) for n in r.integers(1, 5, nd)]
                for a in axes:
                    shape[a] = int(r.integers(1, 4)) * 4 if stat else int(r.integers(3, 14 if nd == 1 else 9))
                yield {"o": {"op": op, "shape": shape, "axes": axes, "ws": [ops.CWTS[j % len(ops.CWTS)] if op == "cwt" else g.SHORT[int(r.integers(len(g.SHORT)))]] * k,
                             "modes": [ref.MODES[int(r.integers(len(ref.MODES)))]] * k, "level": level, "stat": stat, "trim": bool(r.integers(2)), "norm": bool(r.integers(2)),
                             "part": "ad"[int(r.integers(2))], "scales": [[1], [1, 2], [3, 1.5]][j % 3], "method": ["conv", "fft"][int(r.integers(2))],
                             "wf": ["name", "obj"][int(r.integers(2))]},
                       "d": d, "v": j // 3 if j < 12 else int(r.integers(5000)), "dt": ["f8", "f4", "c8", "c16"][int(r.integers(4))], "s": j}


@law("P19", sweep=sweep_defects, strategy=st_case, quick=2000, thorough=60000)
def one_defect(case):
    if case["d"] not in D:
        raise Reject
    o = ops.Op(case["o"])
    x = [make({"k": "normal", "s": case["s"] + i}, s, case["dt"]) for i, s in enumerate(o.shapes)]
    before = o.run(x)
    r = D[case["d"]](o, case["v"], x)
    if r is None:
        raise Reject
    desc, f = r
    k = refused(f, f"{o.op}({ {k: case['o'][k] for k in ('shape', 'axes', 'ws', 'modes', 'level', 'stat', 'trim')} }) with {desc}")
    after = o.run(x)
    for (w, a), (_, b) in zip(before, after):
        same(b, a, f"{o.op}{w} after refusing {desc}")
    return ["defect=" + case["d"], "op=" + o.op, "raises=" + k]


def sweep_beside(tier, seed):
    """every band of every synthesis, one too long or short along every axis that is not transformed"""
    for op in ("idwt", "waverec", "iswt", "idwt2", "waverec2", "iswt2", "idwtn", "waverecn", "iswtn"):
        two = op.endswith("2")
        for nd in (2, 3, 4):
            for k in ([1] if op in ops.ONE else [2] if two else range(1, nd)):
                for axes in itertools.combinations(range(nd), k):
                    if k == nd:
                        continue
                    for level in ((1,) if op.startswith("idwt") else (1, 2, 3) if k == 1 else (1, 2)):
                        for trim in ((False, True) if "swt" in op else (False,)):
                            for w in ("haar", "db3", "bior2.4"):
                                yield {"op": op, "nd": nd, "axes": list(axes), "level": level, "trim": trim, "w": w, "m": ref.MODES[(nd + level + len(w) + len(axes) + seed) % len(ref.MODES)]}


@law("P19", sweep=sweep_beside)
def beside(case):
    op, nd, k = case["op"], case["nd"], len(case["axes"])
    shape = [3 + i for i in range(nd)]
    for a in case["axes"]:
        shape[a] = 8
    o = ops.Op({"op": op, "shape": shape, "axes": case["axes"], "ws": [case["w"]] * k, "modes": [case["m"]] * k, "level": case["level"], "stat": "swt" in op, "trim": case["trim"],
                "norm": False, "part": "a", "scales": [1], "method": "conv", "wf": "name"})
    x = [make({"k": "normal", "s": i}, s, "f8") for i, s in enumerate(o.shapes)]
    o.run(x)
    n = 0
    for i in range(len(x)):
        for a in range(nd):
            if a in case["axes"]:
                continue
            for d in (1, -1):
                sh = list(x[i].shape)
                sh[a] += d
                y = list(x)
                y[i] = np.ones(sh)
                refused(lambda: o.call(o.prepare(y)), f"{op}(axes={case['axes']}, level={case['level']}, trim={case['trim']}) of bands {[t.shape for t in x]} with band {i} of shape {tuple(sh)}")
                n += 1
    return ["op=" + op, f"refusals={min(n, 20)}"]


# ------------------------------------------------------------------ helpers
NUM = ["x", None, Thing(), [1, 2, 3], {}]
H = {}


def helper(good):
    """good: a well-formed call whose result must be the same before and after"""
    def deco(f):
        H[f.__name__] = (good, f)
        return f
    return deco


X = np.random.default_rng(1).standard_normal((6, 9))
X1 = X[0]


def pick(v, L):
    return L[v % len(L)]


@helper(lambda: pywt.threshold(X, 0.5))
def threshold(v):
    m = pick(v, ["foo", "", "Soft", "harder", None, 3, Thing(), "firm", "soft "])
    return f"threshold mode {m!r}", lambda: pywt.threshold(X, 0.5, m)


@helper(lambda: pywt.threshold(X, 0.5))
def threshold_value(v):
    t = pick(v, ["x", None, Thing(), [1, 2], np.ones((5, 9)), {}])
    m = pick(v // 7, ["soft", "hard", "garrote", "greater", "less"])
    return f"threshold value {t!r} ({m})", lambda: pywt.threshold(X, t, m)


@helper(lambda: pywt.threshold_firm(X, 0.5, 1))
def threshold_firm(v):
    a, b = pick(v, [(-1, 1), (0.5, -1), (2, 1), (1, 0.999), (1, 1 - 1e-9), (1e5, 1e5 - 1e-3), (-1e-9, 1), (1e-9, 0), ("a", 1), (1, None), (-2, -1)])
    return f"firm thresholds {a!r}, {b!r}", lambda: pywt.threshold_firm(X, a, b)


@helper(lambda: pywt.threshold(X, 0.5, "garrote"))
def threshold_data(v):
    d = pick(v, ["abc", [["a"]], None, Thing(), np.array(["x", "y"]), {1: 2}])
    f = pick(v // 6, [lambda: pywt.threshold(d, 1), lambda: pywt.threshold(d, 1, "hard"), lambda: pywt.threshold(d, 1, "garrote"), lambda: pywt.threshold_firm(d, 1, 2)])
    return f"thresholding of {d!r}", f


@helper(lambda: pywt.pad(X, 2, "zero"))
def pad(v):
    w = pick(v, [-1, [1, -1], [[1, 2], [3, 4], [5, 6]], [[0, 0], [0, -2]], "x", None, Thing(), [1, 2, 3], [[1, 2, 3]], {}, -100, [[-1, 5], [5, 5]]])
    m = pick(v // 12, ref.MODES)
    return f"pad widths {w!r} ({m})", lambda: pywt.pad(X, w, m)


@helper(lambda: pywt.pad(X1, 2, "zero"))
def pad_mode(v):
    m = pick(v, [b for b in BAD_M if b not in ("modes",)])
    return f"pad mode {m!r}", lambda: pywt.pad(pick(v // 20, [X, X1]), 2, m)


def bad_bank(v):
    f = [1.0, 2, 3, 4]
    if v % 3 == 2:                  # one or two of the four filters of another length
        k, j, v = [1, 2, 3, 5, 6, 8, 0][v // 3 % 7], v // 21 % 4, v // 84
        g = [1.0 + i for i in range(k)]
        return [g if i == j or v % 3 == 1 and i == (j + 2) % 4 else f for i in range(4)]
    return pick(v, [[f] * 3, [f] * 5, [], [[]] * 4, [f, f, f, f[:2]], [f[:3], f[:2], f, f], ["abcd"] * 4, [f, f, f, ["a", "b", "c", "d"]], 3, "abcd", [None] * 4, [1, 2, 3, 4], {}, Thing(),
                    [f, f, f, None], [[f]] * 4, [f, f, f, []], [f, [1, 2], f, [1, 2]], [f, f, f, {}], [f] * 8, [f], (f,) * 6, np.ones((3, 4)), np.ones((5, 2))])


GOOD_BANK = [[1, 2], [3, 4], [5, 6], [7, 8]]


class Attr:
    """the documented duck-typed way of giving a filter bank"""
    def __init__(self, f):
        self.filter_bank = f


class Method:
    """the deprecated one"""
    def __init__(self, f):
        self.f = f

    def get_filters_coeffs(self):
        return self.f


@helper(lambda: pywt.Wavelet("mine", GOOD_BANK))
def filter_bank(v):
    fb, n = bad_bank(v), pick(v // 24, ["", "mine", "db2"])
    return f"filter bank {fb!r}", lambda: pywt.Wavelet(n, fb)


@helper(lambda: pywt.Wavelet("mine", Attr(GOOD_BANK)))
def filter_bank_object(v):
    fb, n = bad_bank(v), pick(v // 24, ["", "mine", "db2"])
    return f"object with filter bank {fb!r}", lambda: pywt.Wavelet(n, Attr(fb))


@helper(lambda: pywt.Wavelet("mine", Method(GOOD_BANK)))
def filter_bank_method(v):
    fb, n = bad_bank(v), pick(v // 24, ["", "mine", "db2"])
    return f"object with get_filters_coeffs() -> {fb!r}", lambda: pywt.Wavelet(n, Method(fb))


@helper(lambda: pywt.dwt(X1, pywt.Wavelet("mine", Attr(GOOD_BANK)), "periodization"))
def filter_bank_use(v):
    fb = bad_bank(v)
    k = v // 24 % 4
    if isinstance(fb, (str, Thing)) or fb is None:
        return None
    w = pick(k, [lambda: Attr(fb), lambda: fb if isinstance(fb, (list, tuple)) and len(fb) != 4 else Attr(fb)])()
    return f"dwt with wavelet object {fb!r}", pick(k // 2, [lambda: pywt.dwt(X1, w), lambda: pywt.idwt(X1, X1, w)])


@helper(lambda: pywt.Wavelet("db2"))
def wavelet_name(v):
    n = pick(v, [w for w in BAD_W if not isinstance(w, (tuple, list, dict))])
    k = v // 50 % 3
    if k == 0:
        return f"Wavelet({n!r})", lambda: pywt.Wavelet(n)
    if k == 1:
        if isinstance(n, str) and n.startswith(("mexh", "morl", "gaus1", "cgau2", "cmor", "shan", "fbsp")) and n != "gaus99":
            return None
        return f"DiscreteContinuousWavelet({n!r})", lambda: pywt.DiscreteContinuousWavelet(n)
    if n is None or isinstance(n, str) and n.startswith(("mexh", "morl", "gaus1", "cgau2", "cmor", "shan", "fbsp")) and n != "gaus99":
        return None
    return f"ContinuousWavelet({n!r})", lambda: pywt.ContinuousWavelet(n)


@helper(lambda: pywt.ContinuousWavelet("morl", np.float32))
def cwavelet_dtype(v):
    d = pick(v, [np.int32, np.complex128, "x", np.float16, np.longdouble, bool, "U1", Thing()])
    return f"ContinuousWavelet dtype {d!r}", lambda: pywt.ContinuousWavelet(pick(v // 8, ["morl", "gaus2", "cmor1-1"]), d)


@helper(lambda: pywt.wavelist())
def wavelist(v):
    a = pick(v, [("foo",), ("",), ("db2",), (None, "foo"), ("db", "x"), ("haar ",), ("db", ""), (3,), ("DB?",)])
    return f"wavelist{a!r}", lambda: pywt.wavelist(*a)


@helper(lambda: pywt.Modes.from_object("zero"))
def modes(v):
    m = pick(v, [b for b in BAD_M if b not in ("modes", "from_object", "__name__")])
    return f"Modes.from_object({m!r})", lambda: pywt.Modes.from_object(m)


@helper(lambda: pywt.dwt_max_level(100, 4))
def max_level(v):
    a = pick(v, [(100, 1), (100, 0), (100, -3), (-1, 4), (100, "foo"), (100, "morl"), ("x", 4), (100, None), (None, 4), (100, Thing()), (100, 2.5), (-5, "db2"), (100, ["db2"])])
    return f"dwt_max_level{a!r}", lambda: pywt.dwt_max_level(*a)


@helper(lambda: pywt.dwt_coeff_len(100, 4, "zero"))
def coeff_len(v):
    a = pick(v, [(0, 4, "zero"), (-3, 4, "zero"), (10, 0, "zero"), (10, -2, "zero"), (10, 4, "foo"), (10, "foo", "zero"), ("x", 4, "zero"), (None, 4, "zero"), (10, 4, 99), (10, None, "zero"), (10, Thing(), "zero")])
    return f"dwt_coeff_len{a!r}", lambda: pywt.dwt_coeff_len(*a)


@helper(lambda: [pywt.swt_max_level(64), pywt.dwtn_max_level((8, 9), "haar")])
def n_levels(v):
    f, t = pick(v, [(lambda: pywt.dwtn_max_level((8, 8), ["haar"] * 3), "3 wavelets, 2 axes"), (lambda: pywt.dwtn_max_level((8, 8), "haar", axes=(0, 5)), "axis 5"), (lambda: pywt.dwtn_max_level((8, 8), "foo"), "foo"),
                    (lambda: pywt.dwtn_max_level((8, 8), "haar", axes=(0, 0)), "axes (0, 0)"), (lambda: pywt.swt_max_level("x"), "swt 'x'"), (lambda: pywt.swt_max_level(None), "swt None"),
                    (lambda: pywt.dwtn_max_level(None, "haar"), "shape None"), (lambda: pywt.dwtn_max_level("ab", "haar"), "shape 'ab'"), (lambda: pywt.wavedecn_shapes((8, 8), "haar", level=-1), "level -1"),
                    (lambda: pywt.wavedecn_shapes((8, 8), "haar", mode="foo"), "mode foo"), (lambda: pywt.wavedecn_shapes((8, 8), ["haar"] * 3), "3 wavelets"), (lambda: pywt.wavedecn_shapes((8, 8), "haar", axes=(0, 3)), "axis 3"),
                    (lambda: pywt.wavedecn_shapes((8, 8), "haar", mode=["zero"] * 3), "3 modes")])
    return "level/shape helper: " + t, f


def _c2():
    return pywt.wavedec2(X, "haar", level=2)


@helper(lambda: pywt.coeffs_to_array(pywt.wavedec2(X, "haar", level=2)))
def packing(v):
    c = _c2()
    a, s = pywt.coeffs_to_array(c)
    r, sl, sh = pywt.ravel_coeffs(c)
    one = [np.ones(4), np.ones(4)]
    opts = [(lambda: pywt.coeffs_to_array([]), "empty list"), (lambda: pywt.coeffs_to_array(3), "number"), (lambda: pywt.coeffs_to_array(c, axes=(0, 5)), "axis 5"),
            (lambda: pywt.coeffs_to_array(c, axes=(0, 0)), "axes (0,0)"), (lambda: pywt.coeffs_to_array(c, axes=(0,)), "one axis for 2-D details"),
            (lambda: pywt.coeffs_to_array([c[0], c[1][0]]), "details that are no tuple"), (lambda: pywt.coeffs_to_array([c[0], c[1][:2]]), "two details"),
            (lambda: pywt.coeffs_to_array([c[0], c[1] + c[1]]), "six details"), (lambda: pywt.coeffs_to_array([c[0], c[2], c[1]], padding=None), "levels that do not tile, without padding"),
            (lambda: pywt.array_to_coeffs(a, s, "foo"), "format foo"), (lambda: pywt.array_to_coeffs(a, [], "wavedec2"), "no slices"), (lambda: pywt.array_to_coeffs(a, s, None), "format None"),
            (lambda: pywt.array_to_coeffs(a.ravel(), s, "wavedec2"), "flat array"), (lambda: pywt.unravel_coeffs(r, sl, sh, "foo"), "format foo"), (lambda: pywt.unravel_coeffs(r, [], sh, "wavedec2"), "no slices"),
            (lambda: pywt.unravel_coeffs(r, sl, sh[:-1], "wavedec2"), "one shape short"), (lambda: pywt.unravel_coeffs(r[:-3], sl, sh, "wavedec2"), "short vector"), (lambda: pywt.unravel_coeffs(r, sl, [], "wavedec2"), "no shapes"),
            (lambda: pywt.ravel_coeffs([]), "empty list"), (lambda: pywt.ravel_coeffs(3), "number"), (lambda: pywt.ravel_coeffs(c, axes=(0,)), "one axis"),
            (lambda: pywt.coeffs_to_array([None, one]), "None approximation and list details"), (lambda: pywt.coeffs_to_array("abc"), "string"), (lambda: pywt.ravel_coeffs("abc"), "string")]
    f, t = pick(v, [(o[0], o[1]) for o in opts])
    return f"packing: {t} ({v % len(opts)})", f


@helper(lambda: [pywt.threshold(X, 0.5, "less"), pywt.threshold(X, 0.5, "greater")])
def threshold_complex(v):
    d = pick(v, [X + 1j * X, np.array(1j), X1.astype("c8"), [1j, 2], X + 0j])
    m = pick(v // 5, ["less", "greater"])
    return f"{m} thresholding of complex data", lambda: pywt.threshold(d, pick(v // 10, [0.5, -1, 0]), m)


def _c1():
    return pywt.wavedec(X1, "haar", level=2)


def _cn(axes=None):
    return pywt.wavedecn(X, "haar", level=2, axes=axes)


@helper(lambda: [pywt.coeffs_to_array(f()) for f in (_c1, _c2, _cn)])
def packing_bands(v):
    """coefficient lists with absent, foreign or malformed bands, to both packings"""
    c1, c2, cn, cs = _c1(), _c2(), _cn(), _cn((1,))
    nn = lambda k, d: [cn[0]] + [dict(x, **d) if i == k else x for i, x in enumerate(cn[1:])]
    opts = [([None] + c1[1:], "1-D, no approximation"), ([c1[0], None, c1[2]], "1-D, a detail None"), ([c1[0], c1[1], None], "1-D, last detail None"), ([c1[0], c1[1], np.ones((2, 2))], "1-D, a 2-D detail"),
            ([c1[0], "ab"], "1-D, a string detail"), ([c1[0], 3], "1-D, a number as detail"), ([3.0, c1[1]], "a number as approximation"), (["abc", c1[1]], "a string as approximation"),
            ([None] + c2[1:], "2-D, no approximation"), ([c2[0], (None,) * 3, c2[2]], "2-D, a level of None"), ([c2[0], c2[1], (c2[2][0], None, c2[2][2])], "2-D, one band None"), ([c2[0], c2[1], None], "2-D, last level None"),
            ([c2[0], c2[1], c2[2][:2]], "2-D, two bands"), ([c2[0], c2[1], c2[2][0]], "2-D, an array as level"), ([c2[0], c2[1], dict(cn[2])], "2-D, then n-D"),
            ([None] + cn[1:], "n-D, no approximation"), (nn(0, {"ad": None}), "n-D, a band None"), (nn(1, {"dd": None}), "n-D, a fine band None"), (nn(1, {"xd": X[:3, :5]}), "n-D, a foreign key"),
            (nn(0, {"ddd": X[:2, :3]}), "n-D, a long key"), ([cn[0], cn[1], None], "n-D, last level None"), ([cn[0], cn[1], (X,) * 3], "n-D, then 2-D"), ([cn[0], {}, cn[2]], "n-D, an empty level"),
            (cs, "one transformed axis, not named")]
    c, t = pick(v, opts)
    f, n = pick(v // len(opts) + v, [(pywt.coeffs_to_array, "coeffs_to_array"), (pywt.ravel_coeffs, "ravel_coeffs")])
    if f is pywt.ravel_coeffs and t.endswith(("foreign key", "long key")):
        return None         # the vector and its description hold whatever keys there are
    return f"{n}: {t}", lambda: f(c)


@helper(lambda: pywt.wavedecn_size(pywt.wavedecn_shapes((6, 9), "haar", level=2)))
def size(v):
    s = pywt.wavedecn_shapes((6, 9), "haar", level=2)
    c = _cn()
    opts = [([s[0], dict(s[1], ad=None)], "a shape None"), ([c[0], dict(c[1], dd=None)], "a band None"), ([c[0], 3], "a number as level"), (3, "a number"), (None, "None")]
    a, t = pick(v, opts)
    return "wavedecn_size: " + t, lambda: pywt.wavedecn_size(a)


@helper(lambda: pywt.cwt(X, [2], "mexh", axis=0))
def cwt_axis(v):
    a = pick(v, [(0, 1), [0], "x", 2, -3, 7, (0,), [0, 1], Thing(), "0", (), np.array([0, 1])])
    m = pick(v // 12, ["conv", "fft"])
    return f"cwt axis {a!r} ({m})", lambda: pywt.cwt(X, [2], "mexh", axis=a, method=m)


@helper(lambda: pywt.mra2(X[:, :8], "haar", level=1, transform="dwt2", mode="zero"))
def mra_axes(v):
    a = pick(v, [(0, 5), (-9, 1), (0, 0), (0, -2), (0,), (0, 1, 1), 5, "x", (0, None)])
    D = X[:4, :8]
    f, t = pick(v // 9 + v, [(lambda: pywt.mra2(D, "haar", transform="swt2", axes=a), "mra2 swt2"), (lambda: pywt.mra2(D, "haar", transform="dwt2", mode="zero", axes=a), "mra2 dwt2"),
                             (lambda: pywt.mran(D, "haar", transform="swtn", axes=a), "mran swtn"), (lambda: pywt.mran(D, "haar", transform="dwtn", mode="zero", axes=a), "mran dwtn")])
    if "mran" in t and a in ((0,),):
        return None
    return f"{t} axes {a!r}", f


@helper(lambda: pywt.waverecn(_cn(), "haar"))
def recn(v):
    c = _cn()
    opts = [(lambda: pywt.waverecn([c[0], dict(c[1], ad=None), c[2]], "haar"), "a detail None"), (lambda: pywt.waverecn([None, {}], "haar"), "nothing at all"), (lambda: pywt.waverecn([None, {}, {}], "haar"), "nothing on two levels"),
            (lambda: pywt.waverecn(c, "haar", axes=(0, 0)), "axes (0, 0)"), (lambda: pywt.waverecn(c, "haar", axes=(0, -2)), "axes (0, -2)"), (lambda: pywt.waverecn(c, "haar", axes=1), "one axis"),
            (lambda: pywt.waverecn(c[:1] + [None], "haar"), "a level None"), (lambda: pywt.waverecn([c[0][0]] + c[1:], "haar"), "a 1-D approximation"), (lambda: pywt.waverecn([c[0], {k: b[0] for k, b in c[1].items()}, c[2]], "haar"), "1-D details"),
            (lambda: pywt.waverec2(_c2(), "haar", axes=(1, 1)), "waverec2 axes (1, 1)"), (lambda: pywt.waverec2(_c2(), "haar", axes=(1, -1)), "waverec2 axes (1, -1)"), (lambda: pywt.idwtn({"aa": X, "dd": None, "x": X}, "haar"), "idwtn key x")]
    f, t = pick(v, opts)
    return "reconstruction: " + t, f


@helper(lambda: pywt.scale2frequency("mexh", 2))
def frequency(v):
    f, t = pick(v, [(lambda: pywt.scale2frequency("foo", 1), "foo"), (lambda: pywt.frequency2scale("foo", 1), "foo"), (lambda: pywt.central_frequency("foo"), "foo"), (lambda: pywt.scale2frequency(None, 1), "None"),
                    (lambda: pywt.central_frequency(Thing()), "Thing"), (lambda: pywt.scale2frequency("mexh", "x"), "scale x"), (lambda: pywt.scale2frequency("mexh", None), "scale None"), (lambda: pywt.frequency2scale("mexh", "x"), "freq x"),
                    (lambda: pywt.integrate_wavelet("foo"), "integrate foo"), (lambda: pywt.integrate_wavelet(None), "integrate None"), (lambda: pywt.integrate_wavelet("db2", "x"), "precision x"),
                    (lambda: pywt.central_frequency("db2", "x"), "precision x")])
    return "frequency helper: " + t, f


@helper(lambda: pywt.Wavelet("db2").wavefun(3))
def wavefun(v):
    f, t = pick(v, [(lambda: pywt.Wavelet("db2").wavefun(-1), "level -1"), (lambda: pywt.Wavelet("db2").wavefun("x"), "level x"), (lambda: pywt.Wavelet("bior2.2").wavefun(-3), "level -3"), (lambda: pywt.Wavelet("db2").wavefun(None), "None"),
                    (lambda: pywt.ContinuousWavelet("morl").wavefun("x"), "level x"), (lambda: pywt.ContinuousWavelet("morl").wavefun(length=-3), "length -3"), (lambda: pywt.ContinuousWavelet("morl").wavefun(length="x"), "length x"),
                    (lambda: pywt.ContinuousWavelet("morl").wavefun(-1), "level -1"), (lambda: pywt.ContinuousWavelet("cmor1-1").wavefun(length=0), "length 0")])
    return "wavefun: " + t, f


@helper(lambda: pywt.qmf([1, 2, 3, 4]))
def filters(v):
    f, t = pick(v, [(lambda: pywt.orthogonal_filter_bank([1, 2, 3]), "odd length"), (lambda: pywt.orthogonal_filter_bank([1]), "one tap"),
                    (lambda: pywt.qmf(Thing()), "Thing"), (lambda: pywt.orthogonal_filter_bank("abcd"), "abcd"), (lambda: pywt.orthogonal_filter_bank(None), "None"), (lambda: pywt.qmf("ab"), "ab")])
    return "filter helper: " + t, f


@helper(lambda: pywt.data.demo_signal("Blocks", 32))
def demo(v):
    a = pick(v, [("foo",), ("",), (None,), (3,), ("Blocks", -1), ("Doppler", "x"), ("Blocks", 2.5), ("Gabor", 10), ("sineoneoverx", 10), ("foo", 10), ("Bumps", 0.5), ("Doppler",), ("Blocks", None)])
    return f"demo_signal{a!r}", lambda: pywt.data.demo_signal(*a)


def _fs():
    return pywt.fswavedecn(X, "haar", levels=2)


@helper(lambda: pywt.fswaverecn(_fs()))
def fsw(v):
    r = _fs()

    def setit(k, d):
        r[k] = d

    def approx(d):
        r.approx = d
    f, t = pick(v, [(lambda: r[3, 0], "level 3"), (lambda: r[0], "one level"), (lambda: r[0, 0, 0], "three levels"), (lambda: r["a"], "key a"), (lambda: setit((0, 1), np.ones((1, 1, 1))), "3-D detail"),
                    (lambda: setit((1, 1), np.ones((50, 2))), "detail of wrong shape"), (lambda: setit((9, 9), np.ones((2, 3))), "level 9"), (lambda: setit((0, 1), "x"), "string detail"), (lambda: approx(np.ones((7, 7))), "wrong approximation"),
                    (lambda: approx("x"), "string approximation"), (lambda: pywt.fswaverecn(3), "number"), (lambda: pywt.fswaverecn(X), "array"), (lambda: pywt.fswaverecn([X]), "list"), (lambda: pywt.fswaverecn(None), "None"),
                    (lambda: r[None, None], "None"), (lambda: pywt.FswavedecnResult(r.coeffs, r.coeff_slices[:1], r.wavelets, r.modes, r.axes), "slices of one axis"),
                    (lambda: pywt.FswavedecnResult(r.coeffs, r.coeff_slices, r.wavelets[:1], r.modes, r.axes), "one wavelet"), (lambda: pywt.FswavedecnResult(r.coeffs, r.coeff_slices, r.wavelets, r.modes[:1], r.axes), "one mode"),
                    (lambda: r[-5, 0], "level -5"),
                    (lambda: pywt.FswavedecnResult(r.coeffs, r.coeff_slices, ["haar", "haar"], r.modes, r.axes), "names of wavelets"), (lambda: pywt.FswavedecnResult(r.coeffs, r.coeff_slices, r.wavelets, ["zero", "zero"], r.axes), "names of modes"),
                    (lambda: pywt.fswaverecn(pywt.FswavedecnResult(r.coeffs, r.coeff_slices + r.coeff_slices[:1], r.wavelets, r.modes, r.axes)), "slices of a third axis"),
                    (lambda: pywt.fswaverecn(pywt.FswavedecnResult(r.coeffs[0], r.coeff_slices, r.wavelets, r.modes, r.axes)), "one-dimensional coefficients"),
                    (lambda: pywt.fswaverecn(pywt.FswavedecnResult(r.coeffs, r.coeff_slices, r.wavelets, r.modes, (0, 0))), "axes (0, 0)")])
    return "separable result: " + t, f


@helper(lambda: [n.path for n in pywt.WaveletPacket(X1, "haar").get_level(2)])
def packets(v):
    W, W2, WN = pywt.WaveletPacket, pywt.WaveletPacket2D, pywt.WaveletPacketND
    f, t = pick(v, [(lambda: W2(X1, "haar"), "2-D tree of 1-D data"), (lambda: W(X1, "foo"), "foo"), (lambda: W(X1, "haar", "foo")["a"], "mode foo"), (lambda: W2(X, "haar", axes=(0, 0)), "axes (0,0)"), (lambda: W2(X, "haar", axes=(0,)), "axes (0,)"),
                    (lambda: WN(X, "haar", axes=(0, 0)), "axes (0,0)"), (lambda: WN(X, "haar", axes=(0, 1, 2)), "3 axes"), (lambda: W(X, "haar", axis=2), "axis 2"), (lambda: W(X1, "haar").get_leaf_nodes(True)[0].decompose(), "decompose a leaf"),
                    (lambda: W(X1, "haar").get_subnode("x"), "subnode x"), (lambda: W2(X, "haar").get_subnode("aa"), "subnode aa"), (lambda: WN(X, "haar").get_subnode("a"), "subnode a of two axes"), (lambda: W(X1, "haar")["aaaaaaaaaaaa"], "path too long"),
                    (lambda: W("abc", "haar"), "string data"), (lambda: W2(X, "haar")["x"], "path x"), (lambda: WN(X, "haar")["aax"], "path aax"), (lambda: W(X1, "haar").__setitem__("x", 3), "assign to x"), (lambda: W(X1, "haar").__setitem__(3, X1), "assign to 3"),
                    (lambda: W(X1, "haar").__delitem__("x"), "delete x"), (lambda: W2(X, "haar", axes=(0, 9)), "axis 9"), (lambda: W(X1, None), "wavelet None"), (lambda: W(X1, "morl"), "morl"), (lambda: W2(X, "haar").get_level(99), "level 99"),
                    (lambda: W(X1, "haar")["aA"], "path aA"), (lambda: W(X1, "haar")[0], "index 0"), (lambda: W(X1, "haar")[("a", 3)], "tuple with a number"),
                    (lambda: WN(None, "haar"), "n-D tree without data and axes"), (lambda: W(X1, "haar")["a"].reconstruct(), None), (lambda: W(None, "haar").reconstruct().shape, "empty tree"), (lambda: W2(None, "haar").reconstruct().shape, "empty 2-D tree"),
                    (lambda: WN(X, "haar").get_subnode("ax"), "subnode ax"), (lambda: WN(X, "haar")._set_node("q", None) if 0 else WN(X, "haar").__setitem__("qq", X), "assign to qq"), (lambda: W2(X, "haar").__setitem__("q", X), "assign to q"),
                    (lambda: WN(X, "haar", axes=(0, 9)), "n-D axis 9"), (lambda: WN(X, "haar", axes=5), "n-D axis 5"), (lambda: WN(X, "haar", axes="x"), "n-D axes x")])
    if t is None:
        return None
    return "packets: " + t, f


def sweep_helpers(tier, seed):
    for h in sorted(H):
        for v in range(60 if tier == "quick" else 400):
            yield {"h": h, "v": v}


@st.composite
def st_helper(draw):
    return {"h": draw(st.sampled_from(sorted(H))), "v": draw(st.integers(0, 2000))}


@law("P19", sweep=sweep_helpers, strategy=st_helper, quick=400, thorough=4000)
def bad_helper_requests(case):
    if case["h"] not in H:
        raise Reject
    good, f = H[case["h"]]
    before = snap(good())
    r = f(case["v"])
    if r is None:
        raise Reject
    k = refused(r[1], r[0])
    d = diff(before, snap(good()))
    require(d is None, lambda: f"after refusing {r[0]}, a valid call answers differently: {d}")
    return ["helper=" + case["h"], "raises=" + k]
