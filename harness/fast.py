"""Reference transforms for large arrays: the documented definitions as index arithmetic and sliding windows (the dense maps of ref.py take
too much memory there).  Values only, no rounding bounds: callers compare against the magnitude of what goes in."""
import itertools

import numpy as np

import ref

TOL = {"f8": 1e-9, "c16": 1e-9, "f4": 2e-3, "c8": 2e-3}


def extend(x, mode, i):
    """the samples at the integer positions i of the extension of x along its last axis"""
    N = x.shape[-1]
    if N == 1 and mode == "smooth":
        mode = "constant"
    if mode == "zero":
        return np.where((i >= 0) & (i < N), x[..., np.clip(i, 0, N - 1)], 0)
    if mode == "constant":
        return x[..., np.clip(i, 0, N - 1)]
    if mode in ("periodic", "periodization"):
        return x[..., i % N]
    if mode in ("symmetric", "antisymmetric"):
        k, r = np.divmod(i, N)
        y = x[..., np.where(k % 2 == 0, r, N - 1 - r)]
        return y if mode == "symmetric" else np.where(k % 2 == 0, y, -y)
    if mode == "smooth":
        y = x[..., np.clip(i, 0, N - 1)]
        return y + np.where(i < 0, i, 0) * (x[..., 1:2] - x[..., :1]) + np.where(i >= N, i - N + 1, 0) * (x[..., -1:] - x[..., -2:-1])
    k, r = np.divmod(i, N - 1)
    if mode == "reflect":
        return x[..., np.where(k % 2 == 0, r, N - 1 - r)]
    d = x[..., -1:] - x[..., :1]
    return np.where(k % 2 == 0, x[..., r] + k * d, (k - 1) * d + 2 * x[..., -1:] - x[..., N - 1 - r])


def _double(x):
    return np.asarray(x).astype(np.complex128 if np.asarray(x).dtype.kind == "c" else np.float64)


def dwt(x, w, mode, axis):
    lo, hi = (np.asarray(f, float) for f in ref.filters(w)[:2])
    F = len(lo)
    x = np.moveaxis(_double(x), axis, -1)
    N = x.shape[-1]
    if mode == "periodization":
        if N % 2:
            x = np.concatenate([x, x[..., -1:]], -1)
        K, s = x.shape[-1] // 2, F // 2
    else:
        K, s = (N + F - 1) // 2, 1
    E = extend(x, mode, np.arange(s - F + 1, 2 * (K - 1) + s + 1))
    W = np.lib.stride_tricks.sliding_window_view(E, F, axis=-1)[..., ::2, :]
    return tuple(np.moveaxis(W @ f[::-1], -1, axis) for f in (lo, hi))


def idwt(a, d, w, mode, axis):
    F = ref.flen(w)
    out = 0
    for c, f in zip((a, d), ref.filters(w)[2:]):
        if c is None:
            continue
        c = np.moveaxis(_double(c), axis, -1)
        n = c.shape[-1]
        f = np.asarray(f, float)
        u = np.zeros(c.shape[:-1] + (2 * n,), c.dtype)
        u[..., ::2] = c
        if mode == "periodization":
            i = np.arange(F // 2 - 1 - F + 1, F // 2 - 1 + 2 * n)       # full convolution from F/2-1 on, circular
            W = np.lib.stride_tricks.sliding_window_view(u[..., i % (2 * n)], F, axis=-1)
        else:
            W = np.lib.stride_tricks.sliding_window_view(np.concatenate([u[..., -1:], u], -1), F, axis=-1)     # u ends with a zero
        out = out + np.moveaxis(W @ f[::-1], -1, axis)
    return out


def dwtn(x, ws, modes, axes):
    c = {"": _double(x)}
    for w, m, a in zip(ws, modes, axes):
        c = {k + s: b for k, v in c.items() for s, b in zip("ad", dwt(v, w, m, a))}
    return c


def idwtn(c, ws, modes, axes):
    for w, m, a in list(zip(ws, modes, axes))[::-1]:
        c = {k: idwt(c[k + "a"], c[k + "d"], w, m, a) for k in {k[:-1] for k in c}}
    return c[""]


def swt(x, w, level, axis):
    """one stationary step: circular convolution with the filters dilated by 2**(level-1)"""
    F = ref.flen(w)
    s = 2 ** (level - 1)
    x = np.moveaxis(_double(x), axis, -1)
    N = x.shape[-1]
    out = []
    for f in ref.filters(w)[:2]:
        y = 0
        for j, v in enumerate(np.asarray(f, float)):
            y = y + v * np.roll(x, (j - F // 2) * s, -1)
        out.append(np.moveaxis(y, -1, axis))
    return out


def keys(k):
    return ["".join(p) for p in itertools.product("ad", repeat=k)]


def close(got, want, dt, size, what, require, factor=1.0):
    """size: magnitude of what went in"""
    require(got.shape == want.shape, lambda: f"{what}: shape {got.shape}, expected {want.shape}")
    e = np.abs(got - want)
    tol = TOL[dt] * max(size, 1e-300) * factor
    require(bool((e <= tol).all()), lambda: f"{what}: {got[np.unravel_index(np.nanargmax(e), e.shape)]!r} at {np.unravel_index(np.nanargmax(e), e.shape)} of {got.shape}, "
            f"expected {want[np.unravel_index(np.nanargmax(e), e.shape)]!r} (tolerance {tol:.3g})")


def shape_of(draw, st, nd, cap):
    """a large shape: long lines, or many of them"""
    if nd == 1:
        return [draw(st.one_of(st.integers(300, 3000), st.integers(3000, cap), st.sampled_from([n + d for k in range(8, 15) for n in [2 ** k] for d in (-1, 0, 1) if n < cap])))]
    big = st.one_of(st.integers(*((60, 300) if nd == 2 else (18, 40))), st.sampled_from([64, 127, 128, 129, 255, 256, 257] if nd == 2 else [31, 32, 33, 48]))
    s = [draw(big) for _ in range(nd)]
    if draw(st.booleans()):
        j = draw(st.integers(0, nd - 1))
        s[j] = draw(st.integers(400, 5000))         # one long axis, the others narrow
        s = [n if i == j else 1 + n % 5 for i, n in enumerate(s)]
    return s


def noise(shape, dt, seed, order="C"):
    r = np.random.default_rng([91, seed])
    x = r.standard_normal(shape)
    if dt[0] == "c":
        x = x + 1j * r.standard_normal(shape)
    return np.asarray(x, {"f4": np.float32, "f8": np.float64, "c8": np.complex64, "c16": np.complex128}[dt], order=order)


def top(*arrays):
    return max((float(np.abs(a).max()) for a in arrays if a is not None and np.size(a)), default=0.0)
