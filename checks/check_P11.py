"""P11: filter banks satisfy their defining equations, are the published ones, and custom banks are reproduced."""
import re
import warnings

import numpy as np
import pywt
from hypothesis import strategies as st

import gens as g
import ref
from core import Reject, Violation, law, require

RULE = ("case = one built-in wavelet (all are enumerated, each also under generated spellings), or a generated user filter bank x "
        "container form x dtype; every built-in case is non-trivial, custom ones when some filter tap is non-zero")
ASSUMPTIONS = ["data/filters.json holds the published filter values and attributes (taken from the pinned commit; their equations are checked here)",
               "equation tolerances: 1e-13 where the tables have full precision, 1e-10 for sym2-20, bior/rbio4.4, 5.5, 6.8 (published with ~12 digits), 1e-2 for dmey (an approximation)"]

KEYS = ("dec_lo", "dec_hi", "rec_lo", "rec_hi")
LONG = {"haar": "Haar", "db": "Daubechies", "sym": "Symlets", "coif": "Coiflets", "bior": "Biorthogonal",
        "rbio": "Reverse biorthogonal", "dmey": "Discrete Meyer (FIR Approximation)"}


def sweep_names(tier, seed):
    return [{"w": n} for n in ref.DISCRETE]


def tol(n):
    if n == "dmey":
        return 1e-2
    if n.startswith("sym") or n[:4] in ("bior", "rbio") and n[4:] in ("4.4", "5.5", "6.8"):
        return 1e-10
    return 1e-13


def close1(a, b):
    """equal up to one unit in the last place (the single- and double-precision tables are rounded separately)"""
    return a.shape == b.shape and bool(np.all(np.abs(a - b) <= np.spacing(np.abs(b)) * (a.dtype == np.float32)))


def even_corr(p, q):
    c = np.correlate(p, q, "full")
    return c[(len(p) - 1) % 2::2], (len(p) - 1) // 2


def symmetric_about(h, sign):
    """Is h (up to zero padding) symmetric (sign=1) or antisymmetric about the middle of its support?"""
    nz = np.flatnonzero(np.abs(h) > 1e-12)
    s = h[nz[0]:nz[-1] + 1]
    return np.abs(s - sign * s[::-1]).max() < 1e-12


@law("P11", sweep=sweep_names)
def built_in_bank(case):
    n = case["w"]
    if n not in ref.TABLE:
        raise Reject
    t = ref.TABLE[n]
    w = pywt.Wavelet(n)
    bank = [getattr(w, k) for k in KEYS]
    F = len(t["dec_lo"])
    for k, f in zip(KEYS, bank):
        require(isinstance(f, list) and len(f) == F, lambda: f"{n}.{k}: {len(f)} taps, expected {F}")
        require(f == t[k], lambda: f"{n}.{k} differs from the published values at tap {[i for i in range(F) if f[i] != t[k][i]][0]}")
    require(w.dec_len == F and w.rec_len == F and len(w) == F, f"{n}: lengths {w.dec_len}, {w.rec_len}, {len(w)}")
    fb = w.filter_bank
    require(isinstance(fb, tuple) and list(fb) == bank, f"{n}: filter_bank")
    inv = w.inverse_filter_bank
    require(isinstance(inv, tuple) and list(inv) == [bank[2][::-1], bank[3][::-1], bank[0][::-1], bank[1][::-1]], f"{n}: inverse_filter_bank")
    require(list(w.get_filters_coeffs()) == bank and w.get_reverse_filters_coeffs() == inv, f"{n}: deprecated filter accessors")
    for a in ("orthogonal", "biorthogonal", "symmetry", "vanishing_moments_psi", "vanishing_moments_phi", "family_name"):
        require(getattr(w, a) == t[a], lambda: f"{n}.{a} is {getattr(w, a)!r}, expected {t[a]!r}")
    require(w.short_family_name == t["short"] and w.name == n, f"{n}: {w.short_family_name}, {w.name}")
    # ---- equations
    dl, dh, rl, rh = map(np.array, bank)
    e = tol(n)

    def small(v, what, e=e):
        require(np.max(np.abs(v)) <= e, lambda: f"{n}: {what} violated by {np.max(np.abs(v)):.3g}")
    p = np.convolve(dl, rl) + np.convolve(dh, rh)
    p[F - 1] -= 2
    small(p, "perfect reconstruction (no distortion)")
    s = (-1.0) ** np.arange(F)
    small(np.convolve(dl * s, rl) + np.convolve(dh * s, rh), "alias cancellation", 1e-14)
    c, m = even_corr(dl, rl[::-1])
    c[m] -= 1
    small(c, "biorthogonality of the low-pass pair under even shifts")
    c, m = even_corr(dh, rh[::-1])
    c[m] -= 1
    small(c, "biorthogonality of the high-pass pair under even shifts")
    small(even_corr(dl, rh[::-1])[0], "dec_lo perpendicular to rec_hi")
    small(even_corr(dh, rl[::-1])[0], "dec_hi perpendicular to rec_lo")
    for a, b, what in ((rh, dl, "rec_hi is the modulated dec_lo"), (dh, rl, "dec_hi is the modulated rec_lo")):
        require(np.array_equal(a, s * b) or np.array_equal(a, -s * b), f"{n}: {what}")
    small([dl.sum() - 2 ** .5, rl.sum() - 2 ** .5], "low-pass gain sqrt(2)", 1e-14)
    small([dh.sum(), rh.sum()], "high-pass gain 0", max(e, 1e-10))
    if w.orthogonal:
        require(w.biorthogonal, f"{n}: orthogonal but not biorthogonal")
        require(np.array_equal(rl, dl[::-1]) and np.array_equal(rh, dh[::-1]), f"{n}: reconstruction filters are not the reversed decomposition filters")
        for h in (dl, dh):
            c, m = even_corr(h, h)
            c[m] -= 1
            small(c, "orthonormality under even shifts")
        small(even_corr(dl, dh)[0], "dec_lo perpendicular to dec_hi")
        q = pywt.qmf(rl)
        require(np.array_equal(q, rh) or np.array_equal(-q, rh), f"{n}: rec_hi is not the quadrature mirror of rec_lo")
        ofb = pywt.orthogonal_filter_bank(bank[2])
        for a, b, k in zip(ofb, (dl, dh, rl, rh), KEYS):
            require(np.allclose(a, b, rtol=0, atol=4e-15) or np.allclose(a, -b, rtol=0, atol=4e-15), f"{n}: orthogonal_filter_bank {k}")
    # ---- moments
    k = np.arange(F) - (F - 1) / 2

    def moments(h, count, what):
        for j in range(count):
            r = abs((h * k ** j).sum()) / (np.abs(h) * np.abs(k) ** j).sum()
            require(r <= max(e, 1e-10), lambda: f"{n}: moment {j} of {what} is {r:.3g} (relative), expected 0")
    psi, phi = t["vanishing_moments_psi"], t["vanishing_moments_phi"]
    if psi is not None:
        a, b = (dh, rh) if t["short"] != "rbio" else (rh, dh)
        moments(a, psi, f"the wavelet filter ({psi} vanishing moments declared)")
        if not w.orthogonal and n[4:] != "5.5":     # 5.5 is published with 6 and 4 moments, declared 5 and 5
            moments(b, phi, f"the dual wavelet filter ({phi} declared)")
        if t["short"] in ("db", "sym", "haar"):
            require(2 * psi == F, f"{n}: {psi} moments with {F} taps")
        if t["short"] == "coif":
            require(3 * psi == F and phi == psi - 1, f"{n}: {psi}, {phi} moments with {F} taps")
            cen = (dl * np.arange(F)).sum() / dl.sum()
            for j in range(1, psi):
                v = (dl * (np.arange(F) - cen) ** j).sum() / (np.abs(dl) * np.abs(np.arange(F) - cen) ** j).sum()
                require(abs(v) <= 1e-12, f"{n}: scaling function moment {j} is {v:.3g} (relative)")
    if w.symmetry == "symmetric":
        require(symmetric_about(dl, 1) and symmetric_about(rl, 1), f"{n}: declared symmetric, low-pass filters are not")
        require(any(symmetric_about(dh, z) for z in (1, -1)) and any(symmetric_about(rh, z) for z in (1, -1)),
                f"{n}: declared symmetric, high-pass filters are neither symmetric nor antisymmetric")
    # ---- family consistency
    fam = re.match("[a-z]+", n).group()
    require(t["short"] == fam and w.family_name == LONG[fam], f"{n}: family {w.short_family_name} / {w.family_name}")
    if fam == "rbio":
        b = pywt.Wavelet("bior" + n[4:])
        require(bank == [b.rec_lo[::-1], b.rec_hi[::-1], b.dec_lo[::-1], b.dec_hi[::-1]], f"{n} is not the swapped and flipped bior{n[4:]}")
        require(bank == list(b.inverse_filter_bank), f"{n} is not the inverse filter bank of bior{n[4:]}")
    if fam == "haar":
        require(bank == list(pywt.Wavelet("db1").filter_bank), "haar differs from db1")
    # ---- the single-precision filters the transforms use are the rounded ones
    x = np.zeros(2 * F + 2)
    x[F] = 1.0
    for dt in (np.float32, np.float64):
        for nm, f in zip("ad", (dl, dh)):
            y = pywt.downcoef(nm, x.astype(dt), n, "zero")
            # y[k] = f[2k + 1 - F]
            idx = 2 * np.arange(len(y)) + 1 - F
            want = np.where((idx >= 0) & (idx < F), f[np.clip(idx, 0, F - 1)], 0).astype(dt)
            require(y.dtype == dt and close1(y, want), f"{n}: {np.dtype(dt)} impulse response of '{nm}'")
            x2 = np.roll(x, 1)
            y = pywt.downcoef(nm, x2.astype(dt), n, "zero")
            idx = idx - 1
            want = np.where((idx >= 0) & (idx < F), f[np.clip(idx, 0, F - 1)], 0).astype(dt)
            require(y.dtype == dt and close1(y, want), f"{n}: {np.dtype(dt)} impulse response of '{nm}'")
        for nm, f in zip("ad", (rl, rh)):
            y = pywt.upcoef(nm, np.ones(1, dt), n)
            require(y.dtype == dt and close1(y, f.astype(dt)), f"{n}: {np.dtype(dt)} upcoef impulse response of '{nm}'")
    text = str(w)
    for part in (n, w.family_name, w.short_family_name, str(F), str(w.orthogonal), str(w.biorthogonal), w.symmetry):
        require(part in text, lambda: f"{n}: str() lacks {part!r}")
    return ["family=" + fam]


# ------------------------------------------------------------------ names
@st.composite
def st_spelling(draw):
    n = draw(st.sampled_from(ref.DISCRETE))
    return {"w": n, "up": draw(st.lists(st.booleans(), min_size=len(n), max_size=len(n)))}


@law("P11", strategy=lambda: st_spelling(), quick=60, thorough=1000)
def any_case_spelling(case):
    n = case["w"]
    if n not in ref.TABLE or len(case["up"]) != len(n):
        raise Reject
    s = "".join(c.upper() if u else c for c, u in zip(n, case["up"]))
    x = np.arange(9.0) ** 2
    for make in (pywt.Wavelet, pywt.DiscreteContinuousWavelet):
        w = make(s)
        require(isinstance(w, pywt.Wavelet) and w.name == n and list(w.filter_bank) == [ref.TABLE[n][k] for k in KEYS], f"{s}: wrong wavelet")
    a, b = pywt.dwt(x, s), pywt.dwt(x, n)
    require(np.array_equal(a[0], b[0]) and np.array_equal(a[1], b[1]), f"dwt with {s} differs from {n}")
    return ["mixed"] if any(case["up"]) else []


@law("P11", sweep=lambda tier, seed: [{"kind": k} for k in ("discrete", "continuous", "all")])
def listings(case):
    names = pywt.wavelist(kind=case["kind"])
    require(len(set(names)) == len(names), "duplicate names")
    d, c, a = (pywt.wavelist(kind=k) for k in ("discrete", "continuous", "all"))
    require(sorted(d + c) == sorted(a) and a == pywt.wavelist(), "discrete and continuous lists do not partition all names")
    require(set(d) == set(ref.DISCRETE), f"discrete names changed: {set(d) ^ set(ref.DISCRETE)}")
    for n in names:
        w = pywt.DiscreteContinuousWavelet(n)
        require(isinstance(w, pywt.Wavelet if n in d else pywt.ContinuousWavelet) and w.name == n, f"{n}: not constructed")
        try:
            (pywt.ContinuousWavelet if n in d else pywt.Wavelet)(n)
        except ValueError:
            pass
        else:
            raise Violation(f"{n} accepted by the wrong wavelet class")
    sh, lo = pywt.families(), pywt.families(short=False)
    require(len(sh) == len(lo) == len(set(sh)), "families")
    require(pywt.families(True) == sh, "families(True)")
    seen = []
    for s, l in zip(sh, lo):
        mem = pywt.wavelist(s)
        require(mem, f"family {s} is empty")
        require(pywt.wavelist(s, kind="discrete") == mem, f"kind is ignored with a family, {s}")
        for n in mem:
            w = pywt.DiscreteContinuousWavelet(n)
            require(w.short_family_name == s and w.family_name == l, f"{n} listed in {s}/{l}, declares {w.short_family_name}/{w.family_name}")
        seen += mem
        num = [float(n[len(s):]) for n in mem if n[len(s):]]
        require(num == sorted(num), f"family {s} is not in natural order")
    require(sorted(seen) == sorted(a), "families do not partition the names")
    sh.append("x")
    require("x" not in pywt.families(), "families() returns its internal list")
    return ["listing"]


# ------------------------------------------------------------------ custom banks
class FB:
    def __init__(self, b):
        self.filter_bank = b


class Old:
    def __init__(self, b):
        self.b = b

    def get_filters_coeffs(self):
        return self.b


@st.composite
def st_bank(draw):
    L = draw(st.integers(1, 20))
    el = draw(st.sampled_from(["int", "float", "special"]))
    e = {"int": st.integers(-8, 8), "float": st.floats(-1e3, 1e3), "special": st.sampled_from([0.0, -0.0, 1e-300, 1e300, 1.5, 5e-324])}[el]
    return {"bank": [draw(st.lists(e, min_size=L, max_size=L)) for _ in range(4)],
            "form": draw(st.sampled_from(["list", "tuple", "array", "f4", "int", "2d", "obj", "old", "wavelet", "strided", "ro", "F"])),
            "name": draw(st.sampled_from(["", "my", "db2", "Æ"])), "orth": draw(st.sampled_from([None, True, False])),
            "bi": draw(st.sampled_from([None, True, False])), "dc": draw(st.booleans())}


@law("P11", strategy=lambda: st_bank(), quick=300, thorough=8000)
def custom_bank(case):
    bank = case["bank"]
    L = len(bank[0]) if bank else 0
    if len(bank) != 4 or L < 1 or any(len(b) != L for b in bank) or case["name"] is None:
        raise Reject
    f = case["form"]
    want = [np.array(b, np.float64) for b in bank]
    if f == "f4":
        if any(np.abs(b).max() > 1e30 for b in want):
            raise Reject
        want = [b.astype(np.float32).astype(np.float64) for b in want]
    if f == "int" and any((b != np.rint(b)).any() or np.abs(b).max() > 1000 for b in want):
        raise Reject
    arr = [b.copy() for b in want]
    src = {"list": bank, "tuple": tuple(tuple(b) for b in bank), "array": arr, "f4": [b.astype(np.float32) for b in want],
           "2d": np.array(want), "F": np.asfortranarray(np.array(want)), "obj": FB(tuple(arr)), "old": Old(arr),
           "strided": [np.repeat(b, 2)[::2] for b in want], "ro": arr}.get(f)
    if f == "int":
        src = [b.astype(np.int16) for b in want]
    if f == "wavelet":
        src = pywt.Wavelet("x", filter_bank=bank)
    if f == "ro":
        for b in arr:
            b.flags.writeable = False
    make = pywt.DiscreteContinuousWavelet if case.get("dc") else pywt.Wavelet
    w = make(case["name"], filter_bank=src) if case["name"] else make(filter_bank=src)
    require(type(w) is pywt.Wavelet, f"{make.__name__} with a filter bank gives {type(w).__name__}")
    what = f"custom bank given as {f}"
    if L % 2:             # filters of odd length get a trailing zero
        want = [np.append(b, 0.0) for b in want]
        L += 1
    for k, b in zip(KEYS, want):
        got = getattr(w, k)
        require(isinstance(got, list) and np.array_equal(np.array(got), b), lambda: f"{what}: {k} is {got}, given {b.tolist()}")
    require(w.dec_len == w.rec_len == len(w) == L and w.name == case["name"], f"{what}: lengths or name")
    require(list(w.filter_bank) == [list(b) for b in want], f"{what}: filter_bank")
    require(list(w.inverse_filter_bank) == [list(want[i][::-1]) for i in (2, 3, 0, 1)], f"{what}: inverse_filter_bank")
    require(not w.orthogonal and not w.biorthogonal and w.symmetry == "unknown" and w.vanishing_moments_psi in (None, 0)
            and w.vanishing_moments_phi in (None, 0), f"{what}: default attributes")
    if case["orth"] is not None:
        w.orthogonal = case["orth"]
        require(w.orthogonal is case["orth"], f"{what}: orthogonal not set")
    if case["bi"] is not None:
        w.biorthogonal = case["bi"]
        require(w.biorthogonal is case["bi"], f"{what}: biorthogonal not set")
    # later changes of the source do not reach the wavelet
    for b in arr:
        if b.flags.writeable:
            b += 1
    for k, b in zip(KEYS, want):
        require(np.array_equal(np.array(getattr(w, k)), b), f"{what}: {k} follows the array it was made from")
    w.dec_lo.append(3.0)
    require(w.dec_len == L == len(w.dec_lo), f"{what}: filter list is not a copy")
    # the transforms use them, in both precisions
    if max(np.abs(b).max() for b in want) < 1e30:
        for dt in (np.float64, np.float32):
            for nm, i in (("a", 2), ("d", 3)):
                y = pywt.upcoef(nm, np.ones(1, dt), w)
                require(y.dtype == dt and np.array_equal(y, want[i].astype(dt)), f"{what}: reconstruction filter '{nm}' used by upcoef in {np.dtype(dt)}")
            x = np.zeros(3 * L + 1, dt)
            x[L] = 1
            ca, cd = pywt.dwt(x, w, "zero")
            ca2, cd2 = pywt.dwt(np.roll(x, 1), w, "zero")
            for y, y2, b in ((ca, ca2, want[0]), (cd, cd2, want[1])):
                odd = y[(2 * np.arange(len(y)) + 1 - L >= 0) & (2 * np.arange(len(y)) + 1 - L < L)]
                require(np.array_equal(odd, b[(1 - L) % 2::2].astype(dt)), f"{what}: decomposition filter used by dwt")
                idx = 2 * np.arange(len(y2)) - L
                odd = y2[(idx >= 0) & (idx < L)]
                require(np.array_equal(odd, b[L % 2::2].astype(dt)), f"{what}: decomposition filter used by dwt (other phase)")
    return ["form=" + f, "odd" if len(bank[0]) % 2 else "even"] if any(b.any() for b in want) else []


# ------------------------------------------------------------------ helper functions
@st.composite
def st_scal(draw):
    L = 2 * draw(st.integers(1, 12))
    return {"f": draw(st.lists(st.integers(-20, 20), min_size=L, max_size=L)), "form": draw(st.sampled_from(["list", "array", "int"]))}


@law("P11", strategy=lambda: st_scal(), quick=100, thorough=3000)
def mirror_filters(case):
    f = case["f"]
    if len(f) < 1:
        raise Reject
    src = {"list": f, "array": np.array(f, float), "int": np.array(f)}[case["form"]]
    q = pywt.qmf(src)
    want = np.array([(-1) ** i * v for i, v in enumerate(f[::-1])])
    require(np.array_equal(q, want), lambda: f"qmf({f}) = {list(q)}")
    if len(f) % 2 == 0 and sum(f):
        b = pywt.orthogonal_filter_bank(src)
        require(isinstance(b, tuple) and len(b) == 4, "orthogonal_filter_bank")
        h = np.array(f, float) * np.sqrt(2) / sum(f)
        alt = (-1.0) ** np.arange(len(f))
        exp = (h[::-1], (alt * h[::-1])[::-1], h, alt * h[::-1])
        for got, e, k in zip(b, exp, KEYS):
            require(np.allclose(got, e, rtol=1e-14, atol=0), lambda: f"orthogonal_filter_bank({f}) {k}")
        w = pywt.Wavelet("o", filter_bank=b)
        require(np.allclose(w.rec_lo, h, rtol=1e-14, atol=0), "wavelet from orthogonal_filter_bank")
        c = pywt.orthfilt(src)
        require(all(np.array_equal(x, y) for x, y in zip(b, c)), "orthfilt differs from orthogonal_filter_bank")
    require(f == case["f"], "argument modified")
    return ["even" if len(f) % 2 == 0 else "odd"] if any(f) else []
