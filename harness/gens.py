"""Hypothesis strategies and case helpers shared by the checks."""
import numpy as np
import pywt
from hypothesis import strategies as st

import ref
from core import DTYPES, NP, Reject, make, layout, require, st_data, st_normal

SHORT = [n for n in ref.DISCRETE if ref.flen(n) <= 12]
MID = [n for n in ref.DISCRETE if 12 < ref.flen(n) <= 40]


def wav(w):
    """The pywt wavelet of a JSON description: name or ["custom", seed, length]."""
    if isinstance(w, str):
        if w not in ref.TABLE:
            raise Reject
        return pywt.Wavelet(w)
    if w[0] not in ("custom", "ortho", "lift") or w[2] < 2 or w[2] % 2:
        raise Reject
    wv = pywt.Wavelet("%s%d" % (w[0], w[1]), filter_bank=ref.filters(w))
    if w[0] == "ortho":
        wv.orthogonal = True
    if w[0] != "custom":
        wv.biorthogonal = True
    return wv


def warg(w, form):
    """The wavelet argument in one of the accepted forms."""
    if form == "name" and isinstance(w, str):
        return w
    if form == "upper" and isinstance(w, str):
        return w.upper()
    return wav(w)


def marg(mode, form):
    if form == "enum":
        return getattr(pywt.Modes, mode)
    return mode


def st_wavelet(custom=True):
    opts = [st.sampled_from(SHORT), st.sampled_from(SHORT), st.sampled_from(MID), st.sampled_from(ref.DISCRETE)]
    if custom:
        opts.append(st.tuples(st.just("custom"), st.integers(0, 500), st.integers(1, 12).map(lambda k: 2 * k)).map(list))
    return st.one_of(*opts)


def st_pr_wavelet(ortho=False):
    """Wavelets with perfect reconstruction: built-in ones and random orthonormal / lifted banks."""
    names = ref.ORTHO if ortho else ref.DISCRETE
    opts = [st.sampled_from([n for n in names if ref.flen(n) <= 12]), st.sampled_from(names),
            st.tuples(st.just("ortho"), st.integers(0, 500), st.integers(1, 8).map(lambda k: 2 * k)).map(list)]
    if not ortho:
        opts.append(st.tuples(st.just("lift"), st.integers(0, 500), st.integers(1, 5).map(lambda k: 2 * k)).map(list))
    return st.one_of(*opts)


def st_short_wavelet():
    return st.sampled_from(SHORT)


def st_mode():
    return st.sampled_from(ref.MODES)


def st_dtype():
    return st.sampled_from(DTYPES)


def minlen(mode):
    return 2 if mode in ("reflect", "antireflect") else 1


@st.composite
def st_len(draw, F, lo=1):
    """Signal lengths spread over the interesting residues: tiny, around F/2, F, multiples of F, odd/even, powers of two."""
    k = draw(st.integers(0, 5))
    if k == 0:
        n = draw(st.integers(1, 6))
    elif k == 1:
        n = F + draw(st.integers(-3, 3))
    elif k == 2:
        n = F // 2 + draw(st.integers(-2, 2))
    elif k == 3:
        n = draw(st.integers(1, 2 * F + 9))
    elif k == 4:
        n = 2 ** draw(st.integers(0, 6)) + draw(st.integers(-1, 1))
    else:
        n = draw(st.integers(1, 64))
    return max(lo, n)


def sweep_lengths(F):
    return sorted({n for n in (1, 2, 3, 4, 5, F // 2 - 1, F // 2, F // 2 + 1, F - 2, F - 1, F, F + 1, F + 2,
                               2 * F - 1, 2 * F, 2 * F + 3, 33, 64) if n >= 1})


LAYOUTS = ["C", "F", "strided", "neg", "transposed", "readonly"]


@st.composite
def st_shape(draw, mind=1, maxd=3, lo=1, hi=9, total=1200):
    nd = draw(st.integers(mind, maxd))
    shape = []
    left = total
    for _ in range(nd):
        s = draw(st.integers(lo, max(lo, min(hi, left))))
        shape.append(s)
        left = max(1, left // s)
    return shape


@st.composite
def st_axes(draw, nd, minlen=1, maxlen=None, neg=True):
    maxlen = nd if maxlen is None else min(maxlen, nd)
    perm = draw(st.permutations(list(range(nd))))
    k = draw(st.integers(minlen, maxlen))
    axes = list(perm[:k])
    if neg:
        axes = [a - nd if draw(st.booleans()) else a for a in axes]
    return axes


def has_len1_conflict(shape, axes, modes):
    """reflect modes need length >= 2 along the transformed axis."""
    return any(shape[a] < minlen(m) for a, m in zip(axes, modes))


def st_dtypes(n):
    """one dtype for all of n arrays (mostly), or one each"""
    return st.one_of(st_dtype().map(lambda d: [d] * n), st_dtype().map(lambda d: [d] * n), st.lists(st_dtype(), min_size=n, max_size=n))


def mixed(dts, y, what):
    """dtype in which a synthesis of arrays of the given types has to be accurate; its result is complex exactly when a part is"""
    one = len(set(dts)) == 1
    require(y.dtype == NP[dts[0]] if one else (y.dtype.kind == "c") == any(d[0] == "c" for d in dts), lambda: f"{what}: dtype {y.dtype} from {dts}")
    return dts[0] if one else "f4" if any(d in ("f4", "c8") for d in dts) else "f8"
