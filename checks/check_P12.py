"""P12: wavelet functions, their grids, integrals and frequencies are mutually consistent."""
import numpy as np
import pywt
from hypothesis import strategies as st

import gens as g
import ref
from core import Reject, Violation, law, require

RULE = ("case = continuous wavelet (name with generated parameters, modified support, precision, level or length) or discrete wavelet x "
        "level; non-trivial when at least 4 samples are compared")
ASSUMPTIONS = ["closed forms: gausP = +-(P-th derivative of exp(-x^2)), sign - for P mod 4 in {2,3}, unit energy; cgauP = P-th derivative of exp(-ix-x^2), "
               "unit energy; shan, fbsp, cmor, mexh, morl as documented; parameters are held in single precision",
               "rounding: 60 eps per elementary operation's magnitude, arguments of exp/cos/sin included"]
E4, E8 = 2.0 ** -23, 2.0 ** -52


def poly_gauss(P, c):
    """coefficients (ascending) of p with d^P/dx^P exp(c x - x^2) = p(x) exp(c x - x^2), and its L2 norm"""
    p = np.array([1.0 + 0j])
    for _ in range(P):
        d = np.append(p[1:] * np.arange(1, len(p)), [0, 0])
        q = np.append(c * p, 0)
        q[1:] += -2 * p
        p = q + d[:len(q)]
    # integral of |p|^2 exp(-2 x^2): even moments of the Gaussian
    a = np.convolve(p, p.conj()).real
    m, tot = np.sqrt(np.pi / 2), 0.0
    for k in range(0, len(a), 2):
        tot += a[k] * m
        m *= (k + 1) / 4
    return p, np.sqrt(tot)


def closed_form(fam, P, B, C, x, eps):
    """(psi, bound of |rounding error| / eps) at float64 points x"""
    x = np.asarray(x, float)
    if fam in ("gaus", "cgau"):
        c = 0 if fam == "gaus" else -1j
        p, nrm = poly_gauss(P, c)
        if fam == "gaus" and P % 4 in (2, 3):
            p = -p
        e = np.exp(-x ** 2) / nrm
        ph = np.exp(c * x)
        v = sum(a * x ** k for k, a in enumerate(p)) * e * ph
        m = sum(abs(a) * np.abs(x) ** k for k, a in enumerate(p)) * e * (1 + x ** 2 + np.abs(x))
        return (v.real if fam == "gaus" else v), m
    if fam == "mexh":
        k = 2 / (np.sqrt(3) * np.pi ** 0.25)
        return k * (1 - x ** 2) * np.exp(-x ** 2 / 2), k * (1 + x ** 2) * np.exp(-x ** 2 / 2) * (1 + x ** 2)
    if fam == "morl":
        return np.cos(5 * x) * np.exp(-x ** 2 / 2), np.exp(-x ** 2 / 2) * (1 + x ** 2 + 5 * np.abs(x))
    w = np.exp(2j * np.pi * C * x)
    arg = 1 + 2 * np.pi * C * np.abs(x)
    if fam == "shan":
        return np.sqrt(B) * np.sinc(B * x) * w, np.sqrt(B) * (1 + np.abs(np.sinc(B * x)) * arg)
    if fam == "fbsp":
        s = np.sinc(B * x / P)
        return np.sqrt(B) * s ** P * w, np.sqrt(B) * (((np.abs(s) + 8 * eps) ** P - np.abs(s) ** P) / eps + np.abs(s) ** P * arg)
    if fam == "cmor":
        e = np.exp(-x ** 2 / B) / np.sqrt(np.pi * B)
        return e * w, e * (arg + 2 * x ** 2 / B)
    raise AssertionError(fam)


def num(v):
    return repr(v) if v != int(v) else str(int(v))


@st.composite
def st_cont(draw):
    fam = draw(st.sampled_from(["gaus", "cgau", "mexh", "morl", "shan", "fbsp", "cmor"]))
    val = st.one_of(st.sampled_from([0.5, 1, 1.5, 2, 0.1, 0.25]), st.integers(1, 2000).map(lambda k: k / 100))
    c = {"fam": fam, "P": draw(st.integers(1, 8)), "B": draw(val), "C": draw(val), "dt": draw(st.sampled_from(["f4", "f8"])),
         "level": draw(st.one_of(st.none(), st.integers(0, 11))), "length": draw(st.one_of(st.none(), st.integers(1, 300))),
         "lo": draw(st.one_of(st.none(), st.integers(-80, -1).map(lambda k: k / 4))), "hi": draw(st.one_of(st.none(), st.integers(0, 80).map(lambda k: k / 4))),
         "upper": draw(st.booleans()), "setattr": draw(st.booleans()), "fmt": draw(st.sampled_from(["plain", ".0", "dot"]))}
    return c


def construct(case):
    fam, P, B, C = case["fam"], case["P"], case["B"], case["C"]
    if fam not in ("gaus", "cgau", "mexh", "morl", "shan", "fbsp", "cmor") or case["dt"] not in ("f4", "f8") or P < 1 or B <= 0 or C <= 0:
        raise Reject

    def s(v):
        t = num(v)
        if v == int(v):
            t += {"plain": "", ".0": ".0", "dot": "."}[case["fmt"]]
        return t
    if fam in ("gaus", "cgau"):
        if P > 8:
            raise Reject
        name = f"{fam}{P}"
    elif fam in ("mexh", "morl"):
        name = fam
    elif fam == "fbsp":
        name = f"fbsp{P}-{s(B)}-{s(C)}"
    else:
        name = f"{fam}{s(B)}-{s(C)}"
    dt = np.float32 if case["dt"] == "f4" else np.float64
    given = (name.upper() if case["upper"] else name)
    if case["setattr"] and fam in ("shan", "fbsp", "cmor"):
        w = pywt.ContinuousWavelet({"shan": "shan3-2", "fbsp": "fbsp3-2-1", "cmor": "cmor3-2"}[fam], dt)
        w.bandwidth_frequency, w.center_frequency = B, C
        if fam == "fbsp":
            w.fbsp_order = P
    else:
        w = pywt.ContinuousWavelet(given, dt)
        require(w.name == name, f"{given}: name {w.name}")
    require(isinstance(w, pywt.ContinuousWavelet) and w.short_family_name == fam, f"{name}: family {w.short_family_name}")
    require(w.complex_cwt is (fam in ("cgau", "shan", "fbsp", "cmor")), f"{name}: complex_cwt {w.complex_cwt}")
    if fam in ("shan", "fbsp", "cmor"):
        for a, v in (("bandwidth_frequency", B), ("center_frequency", C)):
            require(abs(getattr(w, a) - v) <= E4 * v, lambda: f"{name}: {a} is {getattr(w, a)}, expected {v}")
        B, C = w.bandwidth_frequency, w.center_frequency
        require(w.fbsp_order == (P if fam == "fbsp" else None), f"{name}: fbsp_order {w.fbsp_order}")
    else:
        require(w.bandwidth_frequency is None and w.center_frequency is None and w.fbsp_order is None, f"{name}: unexpected parameters")
    require(w.orthogonal is False and w.biorthogonal is False, f"{name}: a continuous wavelet that claims to be orthogonal or biorthogonal")
    sy = {"shan": "asymmetric", "fbsp": "asymmetric", "cmor": "asymmetric", "mexh": "symmetric", "morl": "symmetric"}.get(fam) or ("anti-symmetric" if P % 2 else "symmetric")
    require(w.symmetry == sy, f"{name}: symmetry {w.symmetry}")
    lim = {"gaus": 5, "cgau": 5, "mexh": 8, "morl": 8, "shan": 20, "fbsp": 20, "cmor": 8}[fam]
    require(w.lower_bound == -lim and w.upper_bound == lim, f"{name}: support [{w.lower_bound}, {w.upper_bound}]")
    lo, hi = -lim, lim
    if case["lo"] is not None:
        w.lower_bound = lo = case["lo"]
    if case["hi"] is not None:
        w.upper_bound = hi = case["hi"]
    if hi <= lo:
        raise Reject
    require(w.lower_bound == lo and w.upper_bound == hi, f"{name}: modified support [{w.lower_bound}, {w.upper_bound}], set to [{lo}, {hi}]")
    return w, name, B, C, lo, hi, dt


@law("P12", strategy=lambda: st_cont(), quick=400, thorough=12000)
def continuous_closed_form(case):
    w, name, B, C, lo, hi, dt = construct(case)
    fam, P = case["fam"], case["P"]
    eps = E4 if dt == np.float32 else E8
    kw = {}
    if case["level"] is not None:
        if not 0 <= case["level"] <= 12:
            raise Reject
        kw["level"] = case["level"]
    if case["length"] is not None:
        if case["length"] < 1:
            raise Reject
        kw["length"] = case["length"]
    n = case["length"] if case["length"] is not None else 2 ** (case["level"] if case["level"] is not None else 8)
    r = w.wavefun(**kw)
    require(isinstance(r, (list, tuple)) and len(r) == 2, f"{name}.wavefun returns {len(r)} items")
    psi, x = r
    what = f"{name}.wavefun({kw}) on [{lo},{hi}] in {dt.__name__}"
    require(x.dtype == dt and x.shape == (n,), lambda: f"{what}: grid {x.dtype} {x.shape}")
    grid = lo + (hi - lo) * np.arange(n) / max(n - 1, 1)
    require(np.all(np.abs(x - grid) <= 4 * eps * (abs(lo) + abs(hi))), lambda: f"{what}: the grid is not even over the support: {x[:3]}...{x[-2:]}")
    cplx = fam in ("cgau", "shan", "fbsp", "cmor")
    want_dt = {(0, "f4"): np.float32, (0, "f8"): np.float64, (1, "f4"): np.complex64, (1, "f8"): np.complex128}[int(cplx), case["dt"]]
    require(psi.dtype == want_dt and psi.shape == (n,), lambda: f"{what}: psi {psi.dtype} {psi.shape}")
    v, m = closed_form(fam, P, B, C, x, eps)
    tol = 60 * eps * m + (1e-30 if case["dt"] == "f4" else 1e-290)
    bad = ~(np.abs(psi - v) <= tol)
    if bad.any():
        i = int(np.argmax(bad))
        raise Violation(f"{what}: psi({x[i]}) = {psi[i]}, closed form {v[i]} (difference {abs(psi[i] - v[i]):.3g}, bound {tol[i]:.3g})")
    # the module-level helpers use the same samples
    if dt == np.float64 and n > 4 and case["length"] is None and kw:
        check_integral(w, kw["level"], name)
    return [fam, case["dt"], "length" if case["length"] is not None else "level"] if n >= 4 else []


def check_integral(w, level, what):
    r = pywt.integrate_wavelet(w, precision=level)
    f = w.wavefun(level)
    x = f[-1]
    psis = {2: [f[0]], 3: [f[1]]}.get(len(f)) or [f[1], f[3]]
    require(len(r) == len(psis) + 1, f"integrate_wavelet({what}): {len(r)} results")
    require(np.array_equal(r[-1], x), f"integrate_wavelet({what}): grid differs from wavefun's")
    step = float(x[1]) - float(x[0])
    for got, psi in zip(r[:-1], psis):
        want = np.cumsum(psi.astype(complex)) * step
        tol = 1e-15 * (len(psi) + 10) * step * np.abs(psi).sum() + 1e-300
        if psi.dtype in (np.float32, np.complex64):
            tol *= E4 / E8
        require(got.shape == want.shape and np.all(np.abs(got - want) <= tol), lambda: f"integrate_wavelet({what}, {level}) is not the running sum of psi")
    old = pywt.intwave(w, precision=level)
    require(all(np.array_equal(a, b) for a, b in zip(r, old)), f"intwave({what}) differs from integrate_wavelet")


# ------------------------------------------------------------------ discrete wavelets
def cascade(h, gfil, level):
    """2^(level/2) times the iterated filter: level-1 low-pass steps after one step with gfil"""
    v = np.array([2.0 ** (level / 2)])
    m = v.copy()
    for i in range(level):
        f = gfil if i == 0 else h
        u = np.zeros(2 * len(v) - 1)
        u[::2] = v
        um = np.zeros(2 * len(v) - 1)
        um[::2] = m
        v, m = np.convolve(u, f), np.convolve(um, np.abs(f))
    return v, m


def sweep_disc(tier, seed):
    for n in ref.DISCRETE:
        for lv in ((1, 2, 3, 5) if tier == "quick" else range(1, 9)):
            if ref.flen(n) * 2 ** lv < 20000:
                yield {"w": n, "level": lv, "attr": None}


@st.composite
def st_disc(draw):
    return {"w": draw(g.st_wavelet()), "level": draw(st.integers(1, 6)), "attr": draw(st.sampled_from([None, "orthogonal", "biorthogonal"]))}


@law("P12", sweep=sweep_disc, strategy=lambda: st_disc(), quick=60, thorough=1500)
def discrete_two_scale(case):
    n, lv = case["w"], case["level"]
    if not 1 <= lv <= 10:
        raise Reject
    w = g.wav(n)
    custom = not isinstance(n, str)
    if custom and case["attr"]:
        if n[0] != "custom":
            raise Reject
        setattr(w, case["attr"], True)
    F, p = w.dec_len, 2 ** lv
    orth = w.orthogonal
    what = f"Wavelet({n}).wavefun({lv})"
    r = w.wavefun(lv)
    require(len(r) == (3 if orth else 5), f"{what}: {len(r)} results")
    if lv == 8:
        require(all(np.array_equal(a, b) for a, b in zip(r, w.wavefun())), f"{what}: default level is not 8")
    x = r[-1]
    keep = (F - 1) * p - F + 2
    L = max((F - 1) * p + (1 if orth else 0), keep + 2)
    require(all(len(a) == L and a.dtype == np.float64 for a in r), lambda: f"{what}: lengths {[len(a) for a in r]}, expected {L}")
    require(np.all(np.abs(x - np.arange(L) / p) <= 4 * E8 * F), f"{what}: the grid is not 0, 1/{p}, 2/{p}, ...")
    # reference functions: phi, psi of the synthesis filters (and of the analysis side for non-orthogonal wavelets)
    dl, dh, rl, rh = [np.array(f) for f in w.filter_bank]
    pairs = [(rl, rh)] if orth else [(dl[::-1], dh[::-1]), (rl, rh)]
    sign = 1.0
    if not orth and w.biorthogonal and not custom and w.vanishing_moments_psi % 4 != 1:
        sign = -1.0
    coarse = w.wavefun(lv - 1) if lv > 1 else None
    for i, (lo, hi) in enumerate(pairs):
        phi, psi = r[2 * i], r[2 * i + 1]
        for got, f, nm, sg in ((phi, lo, "phi", 1.0), (psi, hi, "psi", sign)):
            v, m = cascade(lo, f, lv)
            v = np.concatenate([[0], v, np.zeros(L - keep - 1)])
            m = np.concatenate([[0], m, np.zeros(L - keep - 1)])
            tol = (F + 4) * lv * 4 * E8 * m + 1e-300
            ok = np.abs(got - sg * v) <= tol
            if custom and nm == "psi" and not ok.all():
                ok = np.abs(got + sg * v) <= tol
            if not ok.all():
                k = int(np.argmax(~ok))
                raise Violation(f"{what}: {nm} number {i} at x={x[k]} is {got[k]}, iterated filter gives {sg * v[k]}")
        if coarse is not None:
            c = coarse[2 * i]
            for got, f, nm, sg in ((phi, lo, "phi", 1.0), (psi, hi, "psi", sign)):
                s = np.zeros(L + (F + 2) * p)
                sm = s.copy()
                for k in range(F):
                    s[k * p // 2:k * p // 2 + len(c)] += np.sqrt(2) * f[k] * c
                    sm[k * p // 2:k * p // 2 + len(c)] += np.sqrt(2) * abs(f[k]) * np.abs(c).max()
                d = got - sg * s[:L]
                if custom and nm == "psi":
                    d = np.minimum(np.abs(d), np.abs(got + sg * s[:L]))
                require(np.all(np.abs(d) <= (F + 8) * lv * 64 * E8 * (sm[:L].max() + 1e-300) * max(1.0, np.abs(lo).sum()) ** lv),
                        lambda: f"{what}: {nm} does not satisfy its two-scale equation: {np.abs(d).max():.3g}")
                require(not np.any(s[L:]), f"{what}: support of {nm} too short")
    if F * p < 3000:
        check_integral(w, lv, str(n))
        if not custom and lv >= 3:
            check_frequency(w, n, lv)
    return ["orthogonal" if orth else "other", f"level={lv}"] + (["custom"] if custom else [])


# ------------------------------------------------------------------ frequencies
def check_frequency(w, name, prec):
    f = w.wavefun(prec)
    psi, x = (f[0], f[1]) if len(f) == 2 else (f[1], f[-1])
    mag = np.abs(np.fft.fft(psi))
    N = len(psi)
    k = np.arange(1, N)
    tops = k[mag[1:] >= mag[1:].max() * (1 - 1e-9)]
    dom = float(x[-1]) - float(x[0])
    cf = pywt.central_frequency(name, prec)
    ok = {min(int(t), N - int(t)) / dom for t in tops}
    require(any(abs(cf - o) <= 1e-12 * o for o in ok), lambda: f"central_frequency({name}, {prec}) = {cf}, dominant Fourier component of psi: {sorted(ok)[:4]}")
    require(pywt.central_frequency(w, precision=prec) == cf, f"central_frequency of the object differs for {name}")
    require(pywt.centrfrq(w, prec) == cf, f"centrfrq differs for {name}")
    return cf


@st.composite
def st_freq(draw):
    c = draw(st_cont())
    c["disc"] = draw(st.one_of(st.none(), st.sampled_from([n for n in ref.DISCRETE if ref.flen(n) <= 40])))
    c["prec"] = draw(st.one_of(st.none(), st.integers(3, 11)))
    c["scales"] = draw(st.lists(st.floats(0.01, 1000), min_size=1, max_size=5))
    c["sform"] = draw(st.sampled_from(["scalar", "array", "int"]))
    return c


@law("P12", strategy=lambda: st_freq(), quick=150, thorough=4000)
def frequencies_and_scales(case):
    if case["disc"] is not None:
        w = g.wav(case["disc"])
        name = case["disc"]
    else:
        w, name = construct(case)[:2]
        if case["setattr"] or case["lo"] is not None or case["hi"] is not None or case["dt"] == "f4":
            name = w
    prec = case["prec"]
    kw = {} if prec is None else {"precision": prec}
    prec = 8 if prec is None else prec
    if not 2 <= prec <= 12:
        raise Reject
    cf = check_frequency(w, name, prec)
    require(not kw and cf == pywt.central_frequency(name) or kw, f"default precision of central_frequency({name})")
    s = case["scales"]
    if not s or min(s) <= 0:
        raise Reject
    if case["sform"] == "scalar":
        arg = s[0]
    elif case["sform"] == "array":
        arg = np.array(s)
    else:
        arg = int(np.ceil(s[0]))
    f = pywt.scale2frequency(name, arg, **kw)
    require(np.shape(f) == np.shape(arg), f"scale2frequency shape {np.shape(f)}")
    require(np.allclose(f, cf / np.asarray(arg), rtol=1e-13, atol=0), f"scale2frequency({name}, {arg}) is not central frequency / scale")
    b = pywt.frequency2scale(name, f, **kw)
    require(np.shape(b) == np.shape(arg) and np.allclose(b, arg, rtol=1e-13, atol=0), lambda: f"frequency2scale does not invert scale2frequency for {name}: {b} != {arg}")
    f2 = pywt.frequency2scale(name, arg, **kw)
    require(np.allclose(pywt.scale2frequency(name, f2, **kw), arg, rtol=1e-13, atol=0), f"scale2frequency does not invert frequency2scale for {name}")
    require(np.array_equal(pywt.scal2frq(name, arg, **kw), f), f"scal2frq differs from scale2frequency for {name}")
    return ["discrete" if case["disc"] else case["fam"], case["sform"]]
