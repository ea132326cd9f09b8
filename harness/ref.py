"""Independent reference model of the transforms, written from the documented definitions (dense linear maps).

Everything here is plain numpy in double precision: a signal-extension rule per mode, a convolution, a down/up-sampling.
Each linear map comes with its entrywise magnitude map, so that callers can bound rounding errors rigorously."""
import functools
import json
import os

import numpy as np

HERE = os.path.dirname(os.path.abspath(__file__))
MODES = ["zero", "constant", "symmetric", "periodic", "smooth", "periodization", "reflect", "antisymmetric",
         "antireflect"]

with open(os.path.join(os.path.dirname(HERE), "data", "filters.json")) as _f:
    TABLE = json.load(_f)      # name -> {dec_lo, dec_hi, rec_lo, rec_hi, attributes...}
DISCRETE = list(TABLE)
BYLEN = {}
for _n in DISCRETE:
    BYLEN.setdefault(len(TABLE[_n]["dec_lo"]), []).append(_n)
ORTHO = [n for n in DISCRETE if TABLE[n]["orthogonal"]]


def custom_bank(seed, length):
    """A user filter bank without any structure (no perfect reconstruction)."""
    r = np.random.default_rng([77, seed, length])
    return [np.round(r.standard_normal(length), 3) for _ in range(4)]


def ortho_bank(seed, length):
    """A random orthonormal two-channel bank of even length (lattice of rotations), perfect reconstruction."""
    r = np.random.default_rng([78, seed, length])
    E = np.zeros((2, 2, 1))                     # polyphase matrix, polynomial in z^-1
    t = r.uniform(-np.pi, np.pi)
    E[:, :, 0] = [[np.cos(t), np.sin(t)], [-np.sin(t), np.cos(t)]]
    for _ in range(length // 2 - 1):
        n = E.shape[2]
        D = np.zeros((2, 2, n + 1))
        D[0, :, :n] = E[0]
        D[1, :, 1:] = E[1]
        t = r.uniform(-np.pi, np.pi)
        R = np.array([[np.cos(t), np.sin(t)], [-np.sin(t), np.cos(t)]])
        E = np.einsum("ij,jkn->ikn", R, D)
    lo = np.zeros(length)
    hi = np.zeros(length)
    for par in (0, 1):
        lo[par::2] = E[0, par]
        hi[par::2] = E[1, par]
    return [lo, hi, lo[::-1].copy(), hi[::-1].copy()]


def lift_bank(seed, length):
    """A random biorthogonal perfect-reconstruction bank: the low-pass pair is solved for a random high-pass side by
    the alternating-sign rule, starting from a haar pair and two lifting steps (length 2 or 6, zero padded)."""
    r = np.random.default_rng([79, seed, length])
    s = np.sqrt(0.5)
    dlo, dhi = np.array([s, s]), np.array([-s, s])
    # analysis polyphase with elementary steps: H1 <- H1 + z^-2 * p H0 (even shifts keep perfect reconstruction)
    L = length
    pos = (L // 2 - 1)
    lo = np.zeros(L)
    hi = np.zeros(L)
    lo[pos:pos + 2] = dlo
    hi[pos:pos + 2] = dhi
    rlo, rhi = lo[::-1].copy(), hi[::-1].copy()
    for _ in range(2):
        c = np.round(r.uniform(-1, 1), 3)
        k = int(r.integers(-1, 2)) * 2
        # dual pair: analysis hi += c * shift_k(lo); synthesis lo -= c * shift_k^T(hi)
        def sh(v, k):
            if k == 0:
                return v.copy()
            o = np.zeros_like(v)
            if k > 0:
                o[k:] = v[:-k]
                lost = v[-k:]
            else:
                o[:k] = v[-k:]
                lost = v[:-k]
            return o if not lost.any() else None
        a, b = sh(lo, k), sh(rhi, k)
        if a is None or b is None:
            continue
        nhi = hi + c * a
        nrlo = rlo - c * b
        hi, rlo = nhi, nrlo
    return [lo, hi, rlo, rhi]


@functools.lru_cache(None)
def _filters(key):
    if isinstance(key, str):
        t = TABLE[key]
        return tuple(np.array(t[k]) for k in ("dec_lo", "dec_hi", "rec_lo", "rec_hi"))
    return tuple({"custom": custom_bank, "ortho": ortho_bank, "lift": lift_bank}[key[0]](key[1], key[2]))


def is_ortho(w):
    return TABLE[w]["orthogonal"] if isinstance(w, str) else w[0] == "ortho"


def wkey(w):
    """hashable key of a JSON wavelet description: a name, or ["custom", seed, length]."""
    return w if isinstance(w, str) else tuple(w)


def filters(w):
    return _filters(wkey(w))


def flen(w):
    return len(filters(w)[0])


@functools.lru_cache(4096)
def ext_row(mode, N, idx):
    """Sample idx (any integer) of the extension of x[0..N-1], as (row of weights, row of magnitudes)."""
    row = np.zeros(N)
    mag = np.zeros(N)
    if 0 <= idx < N:
        row[idx] = mag[idx] = 1
    elif mode == "zero":
        pass
    elif mode == "constant" or (mode == "smooth" and N == 1):
        j = 0 if idx < 0 else N - 1
        row[j] = mag[j] = 1
    elif mode == "periodic":
        row[idx % N] = mag[idx % N] = 1
    elif mode in ("symmetric", "antisymmetric"):
        seg, k = divmod(idx, N)
        flip = seg % 2 == 1
        j = N - 1 - k if flip else k
        row[j] = -1 if (flip and mode == "antisymmetric") else 1
        mag[j] = 1
    elif mode == "reflect":
        if N == 1:
            raise ValueError
        p = idx % (2 * N - 2)
        j = p if p < N else 2 * N - 2 - p
        row[j] = mag[j] = 1
    elif mode == "antireflect":
        # point symmetry about both end samples: e(-t) = 2 x0 - e(t), e(2(N-1) - t) = 2 x[N-1] - e(t).
        # hence e(t + 2(N-1)) = 2 x[N-1] - e(-t) = e(t) + 2 (x[N-1] - x[0])
        if N == 1:
            raise ValueError
        per = 2 * (N - 1)
        q, t = divmod(idx, per)
        row[N - 1] += 2 * q
        row[0] -= 2 * q
        mag[N - 1] += 2 * abs(q) + 1
        mag[0] += 2 * abs(q) + 1
        if t < N:
            row[t] += 1
            mag[t] += 1
        else:
            row[N - 1] += 2
            row[per - t] -= 1
            mag[N - 1] += 2
            mag[per - t] += 1
    elif mode == "smooth":
        if idx < 0:
            k = -idx
            row[0] += 1 + k
            row[1] -= k
            mag[0] += 1 + k
            mag[1] += k
        else:
            k = idx - (N - 1)
            row[N - 1] += 1 + k
            row[N - 2] -= k
            mag[N - 1] += 1 + k
            mag[N - 2] += k
    else:
        raise ValueError(mode)
    return row, mag


def extend(x, mode, left, right):
    """1-D extension as values (used for small explicit checks)."""
    x = np.asarray(x)
    N = len(x)
    return np.array([ext_row(mode, N, i)[0] @ x for i in range(-left, N + right)])


def coeff_len(N, F, mode):
    return (N + 1) // 2 if mode == "periodization" else (N + F - 1) // 2


@functools.lru_cache(2048)
def _dwt_maps(key, mode, N):
    lo, hi = _filters(key)[:2]
    F = len(lo)
    n = coeff_len(N, F, mode)
    out = []
    if mode == "periodization":
        Np = N + N % 2
        E = np.zeros((Np, N))
        E[np.arange(N), np.arange(N)] = 1
        if N % 2:
            E[N, N - 1] = 1
        for h in (lo, hi):
            H = np.zeros((n, Np))
            A = np.zeros((n, Np))
            for k in range(n):
                for i in range(F):
                    j = (2 * k + F // 2 - i) % Np
                    H[k, j] += h[i]
                    A[k, j] += abs(h[i])
            out.append((H @ E, A @ E))
        return out
    i0, i1 = 1 - (F - 1), 2 * n - 1
    rows = [ext_row(mode, N, i) for i in range(i0, i1 + 1)]
    E = np.array([r[0] for r in rows])
    M = np.array([r[1] for r in rows])
    for h in (lo, hi):
        H = np.zeros((n, len(E)))
        for k in range(n):
            # sum_i h[i] x[2k+1-i]
            H[k, 2 * k + 1 - i0 - np.arange(F)] = h
        out.append((H @ E, np.abs(H) @ M))
    return out


def dwt_maps(w, mode, N):
    """[(low map, its magnitude), (high map, its magnitude)], each of shape (coeff_len, N)."""
    return _dwt_maps(wkey(w), mode, N)


@functools.lru_cache(2048)
def _idwt_maps(key, mode, n):
    F = len(_filters(key)[2])
    out = []
    for g in _filters(key)[2:]:
        if mode == "periodization":
            L = 2 * n
            G = np.zeros((L, n))
            A = np.zeros((L, n))
            for j in range(n):
                for i in range(F):
                    k = (2 * j + i - (F // 2 - 1)) % L
                    G[k, j] += g[i]
                    A[k, j] += abs(g[i])
        else:
            L = 2 * n - F + 2
            G = np.zeros((max(L, 0), n))
            for j in range(n):
                for i in range(F):
                    k = 2 * j + i - (F - 2)
                    if 0 <= k < L:
                        G[k, j] += g[i]
            A = np.abs(G)
        out.append((G, A))
    return out


def idwt_maps(w, mode, n):
    return _idwt_maps(wkey(w), mode, n)


@functools.lru_cache(1024)
def _swt_maps(key, level, N, scale):
    """Level-`level` (1-based) undecimated filtering of an N-sample periodic signal."""
    step = 2 ** (level - 1)
    out = []
    for h in _filters(key)[:2]:
        F = len(h)
        H = np.zeros((N, N))
        A = np.zeros((N, N))
        k = np.arange(N)
        for i in range(F):
            j = (k + step * (F // 2) - step * i) % N
            np.add.at(H, (k, j), h[i] * scale)
            np.add.at(A, (k, j), abs(h[i] * scale))
        out.append((H, A))
    return out


def swt_maps(w, level, N, norm=False):
    return _swt_maps(wkey(w), level, N, 1 / np.sqrt(2) if norm else 1.0)


def apply(M, x, axis=-1):
    """Applies matrix M to every line of x along axis."""
    x = np.asarray(x)
    return np.moveaxis(np.tensordot(x, M, axes=([axis], [1])), -1, axis)


class Tracked:
    """A value together with a bound of its rounding error in units of eps."""
    __slots__ = ("v", "m", "e")

    def __init__(self, v, m=None, e=None):
        self.v = np.asarray(v)
        self.m = np.abs(self.v).astype(float) if m is None else m      # magnitude bound
        self.e = np.zeros(self.v.shape) if e is None else e            # error bound, in eps

    @property
    def shape(self):
        return self.v.shape


def lin(map_, t, axis, nops):
    """Applies (M, |M|) to a Tracked value.  nops bounds the number of roundings per output (filter length and
    extension arithmetic)."""
    M, A = map_
    v = apply(M, t.v, axis)
    m = apply(A, t.m, axis)
    e = apply(A, t.e, axis) + (nops + 4) * m
    return Tracked(v, m, e)


def _nops(F, N, mode):
    n = F
    if mode == "antireflect":
        n += 4 + 4 * (F // max(1, N - 1) + 1)
    elif mode == "smooth":
        n += 4
    return n


def dwt1(t, w, mode, axis):
    N = t.shape[axis]
    nops = _nops(flen(w), N, mode)
    lo, hi = dwt_maps(w, mode, N)
    return lin(lo, t, axis, nops), lin(hi, t, axis, nops)


def add(a, b):
    return Tracked(a.v + b.v, a.m + b.m, a.e + b.e + a.m + b.m)


def idwt1(a, d, w, mode, axis):
    n = (a if a is not None else d).shape[axis]
    lo, hi = idwt_maps(w, mode, n)
    F = flen(w)
    parts = []
    if a is not None:
        parts.append(lin(lo, a, axis, F))
    if d is not None:
        parts.append(lin(hi, d, axis, F))
    return parts[0] if len(parts) == 1 else add(*parts)


def dwtn(t, ws, modes, axes):
    coeffs = {"": t}
    for w, mode, ax in zip(ws, modes, axes):
        new = {}
        for k, x in coeffs.items():
            new[k + "a"], new[k + "d"] = dwt1(x, w, mode, ax)
        coeffs = new
    return coeffs


def idwtn(coeffs, ws, modes, axes):
    """coeffs: dict of Tracked (missing = zeros); applied in reverse order of axes."""
    n = len(axes)
    for pos in reversed(range(n)):
        new = {}
        prefixes = sorted({k[:pos] for k in coeffs})
        for p in prefixes:
            new[p] = idwt1(coeffs.get(p + "a"), coeffs.get(p + "d"), ws[pos], modes[pos], axes[pos])
        coeffs = new
    return coeffs[""]


def swtn_level(t, ws, axes, level, norm):
    coeffs = {"": t}
    for w, ax in zip(ws, axes):
        new = {}
        for k, x in coeffs.items():
            lo, hi = swt_maps(w, level, x.shape[ax], norm)
            new[k + "a"] = lin(lo, x, ax, flen(w) + 1)
            new[k + "d"] = lin(hi, x, ax, flen(w) + 1)
        coeffs = new
    return coeffs


@functools.lru_cache(1024)
def _iswt_maps(key, level, N, scale):
    """One inverse stationary level: half the circular correlation with the dilated reconstruction filters (the
    average over all decimation phases of the decimated inverse)."""
    step = 2 ** (level - 1)
    out = []
    for g in _filters(key)[2:]:
        F = len(g)
        G = np.zeros((N, N))
        A = np.zeros((N, N))
        k = np.arange(N)
        for i in range(F):
            j = (k - step * (i - (F // 2 - 1))) % N
            np.add.at(G, (k, j), 0.5 * g[i] * scale)
            np.add.at(A, (k, j), abs(0.5 * g[i] * scale))
        out.append((G, A))
    return out


def iswt_maps(w, level, N, norm=False):
    return _iswt_maps(wkey(w), level, N, np.sqrt(2) if norm else 1.0)


def iswtn_level(coeffs, ws, axes, level, norm):
    """coeffs: full dict of Tracked."""
    for pos in reversed(range(len(axes))):
        new = {}
        for p in sorted({k[:pos] for k in coeffs}):
            parts = []
            for c, i in (("a", 0), ("d", 1)):
                x = coeffs.get(p + c)
                if x is not None:
                    m = iswt_maps(ws[pos], level, x.shape[axes[pos]], norm)[i]
                    parts.append(lin(m, x, axes[pos], flen(ws[pos]) + 3))
            new[p] = parts[0] if len(parts) == 1 else add(*parts)
        coeffs = new
    return coeffs[""]


def swt(t, w, level, axis, start=0, norm=False):
    """[(cA, cD)] from the deepest level to start+1."""
    out = []
    a = t
    for j in range(start + 1, start + level + 1):
        c = swtn_level(a, [w], [axis], j, norm)
        out.append((c["a"], c["d"]))
        a = c["a"]
    return out[::-1]


def swtn(t, ws, level, axes, start=0, norm=False):
    out = []
    a = t
    for j in range(start + 1, start + level + 1):
        c = swtn_level(a, ws, axes, j, norm)
        out.append(c)
        a = c["a" * len(axes)]
    return out[::-1]


def crop(t, shape):
    sl = tuple(slice(s) for s in shape)
    return Tracked(t.v[sl], t.m[sl], t.e[sl])


def wavedec(t, w, mode, level, axis):
    out = []
    for _ in range(level):
        t, d = dwt1(t, w, mode, axis)
        out.append(d)
    return [t] + out[::-1]


def waverec(cs, w, mode, axis):
    a = cs[0]
    for d in cs[1:]:
        if d is not None and a is not None:
            a = crop(a, d.shape)
        a = idwt1(a, d, w, mode, axis)
    return a


def wavedecn(t, ws, modes, level, axes):
    out = []
    k = "a" * len(axes)
    for _ in range(level):
        c = dwtn(t, ws, modes, axes)
        t = c.pop(k)
        out.append(c)
    return [t] + out[::-1]


def waverecn(cs, ws, modes, axes):
    a = cs[0]
    k = "a" * len(axes)
    for d in cs[1:]:
        d = dict(d)
        if a is not None:
            a = crop(a, next(iter(d.values())).shape) if d else a
            d[k] = a
        a = idwtn(d, ws, modes, axes)
    return a


def track(x):
    x = np.asarray(x)
    return Tracked(x.astype(np.complex128 if x.dtype.kind == "c" else np.float64))


def pr_defect(w, mode, N):
    """Largest entry of |synthesis . analysis - identity| for the published filters (first N rows)."""
    return _pr_defect(wkey(w), mode, N)


@functools.lru_cache(4096)
def _pr_defect(key, mode, N):
    (Hl, _), (Hh, _) = _dwt_maps(key, mode, N)
    (Gl, _), (Gh, _) = _idwt_maps(key, mode, Hl.shape[0])
    R = (Gl @ Hl + Gh @ Hh)[:N]
    return float(np.abs(R - np.eye(N)).max()) if N else 0.0


def max_level(N, F):
    """largest L with N >= (F-1) * 2**L, 0 if none (exact integers)."""
    if F <= 1:
        return 0
    L = 0
    while N >= (F - 1) * 2 ** (L + 1):
        L += 1
    return L
