"""P23: demo signals and data sets are the published ones."""
import math
import os

import numpy as np
import pywt
import pywt.data
from hypothesis import strategies as st

import core
from core import Reject, law, raises, require

RULE = "case = signal name (any letter case) x length (int or NumPy integer) / data set x history of reads and edits; non-trivial when the signal has more than one sample"
ASSUMPTIONS = ["the defining formulas are those of WaveLab's MakeSignal, written out sample by sample; the length of the Riemann comb is floor(sqrt(n)), "
               "as many terms as fit", "the images are compared with the archives shipped in the tree"]
NAMES = ["Blocks", "Bumps", "HeaviSine", "Doppler", "Ramp", "HiSine", "LoSine", "LinChirp", "TwoChirp", "QuadChirp", "MishMash", "WernerSorrows", "HypChirps",
         "LinChirps", "Chirps", "Gabor", "sineoneoverx", "Piece-Regular", "Piece-Polynomial", "Riemann"]
FIXED = {"gabor": 512, "sineoneoverx": 1024}
POS = [.1, .13, .15, .23, .25, .40, .44, .65, .76, .78, .81]
BLK = [4, -5, 3, -4, 5, -4.2, 2.1, 4.3, -3.1, 2.1, -4.2]
HGT = [4, 5, 3, 4, 5, 4.2, 2.1, 4.3, 3.1, 5.1, 4.2]
WTH = [.005, .005, .006, .01, .01, .03, .01, .01, .005, .008, .005]
pi, sin, cos, exp, sqrt = math.pi, math.sin, math.cos, math.exp, math.sqrt


def _sign(v):
    return (v > 0) - (v < 0)


def _bumps(t):
    return sum(h / (1 + abs((t - p) / w)) ** 4 for p, h, w in zip(POS, HGT, WTH))


POINT = {       # t = i/n for i = 1..n
    "blocks": lambda t, n: sum(h * (1 + _sign(t - p)) / 2 for p, h in zip(POS, BLK)),
    "bumps": lambda t, n: _bumps(t),
    "heavisine": lambda t, n: 4 * sin(4 * pi * t) - _sign(t - .3) - _sign(.72 - t),
    "doppler": lambda t, n: sqrt(t * (1 - t)) * sin(2 * pi * 1.05 / (t + .05)),
    "ramp": lambda t, n: t - (1 if t >= .37 else 0),
    "hisine": lambda t, n: sin(pi * n * .6902 * t),
    "losine": lambda t, n: sin(pi * n * .3333 * t),
    "linchirp": lambda t, n: sin(pi * n * .5 * t * t),
    "twochirp": lambda t, n: sin(pi * n * t * t) + sin(pi / 3 * n * t * t),
    "quadchirp": lambda t, n: sin(pi / 3 * n * t ** 3),
    "mishmash": lambda t, n: sin(pi / 3 * n * t ** 3) + sin(pi * n * .6902 * t) + sin(pi * n * .125 * t * t),
    "wernersorrows": lambda t, n: sin(pi * n / 2 * t ** 3) + sin(pi * n * .6902 * t) + sin(pi * n * t * t) + _bumps(t),
    "linchirps": lambda t, n: sqrt(max((t - 1 / n) * (1 - t), 0)) * (cos(250 * n * pi / 1024 * t * t) + cos(100 * n * pi / 1024 * t + 250 * n * pi / 1024 * t * t)),
}


def _rise(k, P):
    """k-th of P samples of the rising cut-off (k from 1)"""
    return (1 + sin(-pi / 2 + (k - 1) / max(P - 1, 1) * pi)) / 2


def _hypchirps(n, M):
    P = M // 4
    out = []
    s = -(-n // 10)                     # ceil(n/10), position of the first sample of the envelope (from 1)
    for i in range(1, n + 1):
        t = (i + .001) / n
        v = (sin(15 * n * pi / 1024 / (.8 - t)) if .1 < t < .68 else 0) + (sin(5 * n * pi / 1024 / (.8 - t)) if .1 < t < .75 else 0)
        k = i - s + 1
        if not 1 <= k <= M:
            e = 0
        elif k > M - P:
            e = _rise(M + 1 - k, P)
        elif k <= P:
            e = _rise(k, P)
        else:
            e = 1
        out.append(v * e)
    return out


def _chirps(n):
    out = []
    E = n // 8
    for i in range(1, n + 1):
        t = i / n
        v = cos((t * 10 * pi) ** 2 * n / 1024) + cos(30 * n / 1024 * ((n + 1 - i) / n * pi) ** 3)
        for start, f in ((n // 2, 50), (n // 8, 350)):
            x = (start + i - 1 - n) / n * 20
            v += exp(-x * x * 4 * n / 1024) * cos(f * pi * t * n / 1024)
        d = max(n / 8 - 1, 1)
        if i > n - E:
            v *= (1 + sin(-pi / 2 + (n - i) / d * pi)) / 2
        elif i <= E:
            v *= (1 + sin(-pi / 2 + (i - 1) / d * pi)) / 2
        out.append(v)
    return out


def _gabor():
    n = 512
    g = lambda k: exp(-20 * ((k - n) * 5 / n) ** 2)
    return [3 * g(n // 2 + i - 1) * complex(cos(32 * pi * i / n), sin(32 * pi * i / n)) + 3 * g(n // 4 + i - 1) * complex(cos(128 * pi * i / n), sin(128 * pi * i / n))
            for i in range(1, n + 1)]


def _sineoneoverx():
    n = 1024
    return [sin(1.5 / ((k if k else .01) / (n - 1))) for k in range(512 - n + 1, 1536 - n + 1)]


def _regular(n):
    q = {d: n // d for d in (12, 7, 5, 3, 2, 20)}
    f = [0.0] * n

    def put(at, vals):
        for k, v in enumerate(vals):
            f[at + k] = v
    b = [-15 * _bumps(i / n) for i in range(1, n + 1)]
    f6 = [-70 * exp(-(i / q[3] - .5) ** 2 / (2 * (6 / 40) ** 2)) for i in range(1, q[3] + 1)]
    put(0, [v * (.5 if q[7] <= k < q[5] else 1) for k, v in enumerate(f6)])
    put(q[3], b[q[3]:q[2]])
    f2 = [-exp(4 * i / q[12]) for i in range(1, q[12] + 1)]
    put(q[2], f2)
    put(q[2] + q[12], f2[::-1])
    put(q[2] + 2 * q[12] + q[20], [-25.0] * (2 * q[20]))
    put(q[2] + 2 * q[12] + 3 * q[20], [exp(4 * i / q[7]) - exp(4) for i in range(1, q[7] + 1)])
    return f, q


def _tail(f, n):
    k = n // 5 * 5
    put = f[:n - k][::-1]
    for i, v in enumerate(put):
        f[k + i] = v


def _polynomial(n):
    a, b, c = n // 5, n // 10, n // 20
    f = [0.0] * n
    T = [i / a for i in range(1, a + 1)]
    for k, t in enumerate(T):
        f[k] = 20 * (t ** 3 + t ** 2 + 4)
        f[2 * a - 1 - k] = 10 * t ** 3 + 45
        f[2 * a + k] = 40 * (2 * t ** 3 + t) + 100
        f[3 * a + k] = 16 * t ** 2 + 8 * t + 16
        f[5 * a - 1 - k] = 20 * (t + 4)
    _tail(f, n)
    f[c:c + b] = [10.0] * b
    f[n - b:n - b + c] = [150.0] * c
    m = math.fsum(f) / n
    return [v - m for v in f]


def reference(name, n):
    """list of admissible results"""
    if name in POINT:
        return [[POINT[name](i / n, n) for i in range(1, n + 1)]]
    if name == "hypchirps":
        x = 65 * n
        return [_hypchirps(n, m) for m in ({x // 100, x // 100 + 1} if x % 100 == 50 else {(x + 50) // 100})]
    if name == "chirps":
        return [_chirps(n)]
    if name == "gabor":
        return [_gabor()]
    if name == "sineoneoverx":
        return [_sineoneoverx()]
    if name == "piece-regular":
        f, q = _regular(n)
        _tail(f, n)
        m = math.fsum(f) / n
        return [[m - v for v in f]]
    if name == "piece-polynomial":
        return [_polynomial(n)]
    s = math.isqrt(n)
    k = np.arange(1, s + 1, dtype=np.int64)
    j = np.arange(n, dtype=np.int64)
    return [list((np.cos(2 * pi * ((j[:, None] * (k * k - 1)) % n) / n) / k).sum(1) / n)]


def spell(name, how, s):
    if how == 0:
        return name
    if how == 1:
        return name.lower()
    if how == 2:
        return name.upper()
    return "".join(c.upper() if (s >> (i % 20)) & 1 else c.lower() for i, c in enumerate(name))


def _sweep(tier, seed):
    c = []
    for k, name in enumerate(NAMES):
        if name.lower() in FIXED:
            c += [{"name": k, "n": None, "how": h, "s": 77, "np": 0} for h in range(4)]
            continue
        for n in list(range(1, 41)) + [48, 49, 50, 60, 63, 64, 65, 99, 100, 101, 120, 127, 128, 140, 143, 200, 255, 256, 420, 500, 512, 840, 1000, 1024]:
            c.append({"name": k, "n": n, "how": (n + k) % 4, "s": n * 31 + k, "np": n % 3})
    return c


@st.composite
def st_signal(draw):
    return {"name": draw(st.integers(0, len(NAMES) - 1)), "n": draw(st.one_of(st.integers(1, 300), st.integers(1, 3000))), "how": draw(st.integers(0, 3)),
            "s": draw(st.integers(0, 2 ** 20)), "np": draw(st.integers(0, 2))}


@law("P23", sweep=_sweep, strategy=st_signal, quick=400, thorough=6000)
def published_samples(case):
    if not 0 <= case["name"] < len(NAMES):
        raise Reject
    name = NAMES[case["name"]]
    low, n = name.lower(), case["n"]
    if low in FIXED:
        n = FIXED[low]
        call = lambda: pywt.data.demo_signal(spell(name, case["how"], case["s"]))
    else:
        if not n or n < 1 or n > 4000:
            raise Reject
        call = lambda: pywt.data.demo_signal(spell(name, case["how"], case["s"]), [n, np.int64(n), np.int32(n)][case["np"] % 3])
    with np.errstate(all="ignore"):
        f = call()
    require(isinstance(f, np.ndarray) and f.shape == (n,), lambda: f"{name}, n={n}: shape {np.shape(f)}")
    require(f.dtype == (np.complex128 if low == "gabor" else np.float64), lambda: f"{name}, n={n}: dtype {f.dtype}")
    require(bool(np.isfinite(f).all()), lambda: f"{name}, n={n}: samples that are not finite: {np.argwhere(~np.isfinite(f))[:3].tolist()}")
    best = None
    for r in reference(low, n):
        r = np.array(r)
        tol = 1e-13 * max(1.0, float(np.abs(r).max())) * (10 + 20 * n)
        d = np.abs(f - r)
        if (d <= tol).all():
            best = None
            break
        i = int(np.argmax(d))
        best = f"{name}, n={n}: sample {i + 1} is {f[i]!r}, the definition gives {r[i]!r}"
    if best:
        core.require(False, best)
    g = call()
    core.same(g, f, f"{name}, n={n}, called again")
    f[...] = 7
    core.same(call(), g, f"{name}, n={n}, called after editing the first result")
    return [low] if n > 1 else []


@st.composite
def st_bad(draw):
    return {"k": draw(st.integers(0, 6)), "name": draw(st.integers(0, len(NAMES) - 1)), "n": draw(st.integers(1, 200)), "s": draw(st.integers(0, 2 ** 20))}


@law("P23", strategy=st_bad, quick=200, thorough=2000)
def lengths_and_names(case):
    name, n, k = NAMES[case["name"] % len(NAMES)], case["n"], case["k"] % 7
    if n < 1:
        raise Reject
    sp = spell(name, 3, case["s"])
    fixed = name.lower() in FIXED
    D = pywt.data.demo_signal
    if k == 0:
        raises(lambda: D(sp, n) if fixed else D(sp), ValueError, f"{sp} " + ("with" if fixed else "without") + " a length")
    elif k == 1:
        raises(lambda: D(sp, -n), ValueError, f"{sp} of length {-n}")
    elif k == 2:
        raises(lambda: D(sp, 0), ValueError, f"{sp} of length 0")
    elif k == 3:
        raises(lambda: D(sp, n + .5), ValueError, f"{sp} of length {n}.5")
    elif k == 4:
        i = case["s"] % (len(name) + 1)
        bad = [name[:i] + "#" + name[i:], name[:max(i - 1, 0)] + name[i:] if 0 < i else name + " ", " " + name, name + "s" if not name.endswith("s") else name * 2][n % 4]
        if bad.lower() in [x.lower() for x in NAMES] + ["list"]:
            raise Reject
        raises(lambda: D(bad, n), ValueError, f"unknown name {bad!r}")
        raises(lambda: D(bad), ValueError, f"unknown name {bad!r}")
    elif k == 5:
        names = D(spell("list", 3, case["s"]))
        require(list(names) == NAMES, lambda: f"list of signals: {names}")
        names.clear()
        require(list(D("list")) == NAMES, "the list of signals was changed by editing a returned list")
    else:
        if not fixed:
            core.same(pywt.data.demo_signal(n=n), D("bumps", n), "default signal")
    return [str(k)]


SETS = ["aero", "ascent", "camera", "ecg", "nino"]


def raw(name):
    fn = {"nino": "sst_nino3"}.get(name, name) + ".npz"
    with np.load(os.path.join(os.path.dirname(os.path.abspath(pywt.data.__file__)), fn)) as z:
        return z["data"]


@st.composite
def st_reads(draw):
    return {"ops": draw(st.lists(st.tuples(st.integers(0, 4), st.integers(0, 3), st.integers(0, 1000)).map(list), min_size=1, max_size=8))}


@law("P23", sweep=lambda tier, seed: [{"ops": [[a, b, 5], [a, 0, 1], [a, 0, 2]]} for a in range(5) for b in range(4)], strategy=st_reads, quick=60, thorough=600)
def data_sets(case):
    ref = {}
    for k, edit, v in case["ops"]:
        name = SETS[k % 5]
        got = getattr(pywt.data, name)()
        if name not in ref:
            r = raw(name)
            if name == "nino":
                rows = len(r) // 12 * 12
                m = [(r[i, 4] + r[i + 1, 4] + r[i + 2, 4]) / 3 for i in range(0, rows, 3)]
                mu = math.fsum(m) / len(m)
                sd = sqrt(math.fsum((x - mu) ** 2 for x in m) / (len(m) - 1))
                ref[name] = ([1950 + i / 4 for i in range(len(m))], [(x - mu) / sd for x in m])
            else:
                ref[name] = r
        if name == "nino":
            require(isinstance(got, tuple) and len(got) == 2, "nino gives time and temperature")
            require(got[0].shape == got[1].shape == (264,), lambda: f"nino: shapes {got[0].shape}, {got[1].shape}")
            core.allclose(got[0], np.array(ref[name][0]), 1e-14, "nino, time")
            core.allclose(got[1], np.array(ref[name][1]), 1e-11, "nino, temperature")
            arrs = got
        else:
            core.same(got, ref[name], name)
            require(got.shape == ((1024,) if name == "ecg" else (512, 512)), lambda: f"{name}: shape {got.shape}")
            if name != "ecg":
                require(got.dtype == np.uint8 and got.max() <= 255 and got.min() >= 0, lambda: f"{name}: {got.dtype}")
            if name == "ascent":
                require(got.max() == 255, "ascent: documented maximum 255")
            arrs = (got,)
        for a in arrs:                  # the caller may do with the arrays what it likes
            require(a.flags.writeable, f"{name}: read-only array")
            if edit % 4 == 1:
                a[...] = v % 200
            elif edit % 4 == 2:
                a[v % len(a)] = 1
            elif edit % 4 == 3:
                a.sort(axis=0)
    return [SETS[k % 5] for k, _, _ in case["ops"]]
