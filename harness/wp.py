"""Model of wavelet packet trees: a map of paths, and configurations shared by P07, P08 and P22."""
import itertools

import numpy as np
import pywt
from hypothesis import strategies as st

import gens as g
import ref
from core import Reject, make, st_data

DEFMODE = {1: "symmetric", 2: "smooth", 3: "smooth"}


@st.composite
def st_tree(draw, maxsize=200, pr=True, odd=True):
    """kind 1: WaveletPacket, 2: WaveletPacket2D, 3: WaveletPacketND"""
    kind = draw(st.sampled_from([1, 1, 2, 3]))
    if kind == 1:
        nd = draw(st.integers(1, 2))
        axes = [draw(st.integers(-nd, nd - 1))]
        lo, hi = 2, 40 if nd == 1 else 14
    elif kind == 2:
        nd = draw(st.integers(2, 3))
        axes = draw(g.st_axes(nd, 2, 2))
        lo, hi = 2, 12 if nd == 2 else 7
    else:
        nd = draw(st.integers(1, 3))
        axes = draw(g.st_axes(nd, 1, 3))
        lo, hi = 2, {1: 30, 2: 12, 3: 6}[nd]
    shape = [draw(st.integers(1, 4)) for _ in range(nd)]
    for a in axes:
        shape[a] = draw(st.integers(lo, hi))
    mx = {1: 4, 2: 2, 4: 2, 8: 1}[2 ** len(axes)]
    w = draw(st.one_of(st.sampled_from(["haar", "db2", "db3", "bior2.2", "bior3.1", "sym4", "coif1", "rbio1.3"]), g.st_pr_wavelet()))
    return {"kind": kind, "shape": shape, "axes": axes, "w": w, "mode": draw(st.one_of(st.none(), g.st_mode())),
            "maxlevel": draw(st.one_of(st.none(), st.integers(0, mx), st.integers(1, mx))), "dt": draw(g.st_dtype()), "data": draw(st_data())}


class Model:
    """Static facts about one tree configuration."""

    def __init__(self, case):
        kind, shape, axes = case["kind"], case["shape"], case["axes"]
        nd = len(shape)
        if kind not in (1, 2, 3) or not nd or not axes or any(not -nd <= a < nd for a in axes) or min(shape) < 1:
            raise Reject
        self.case, self.kind, self.shape = case, kind, tuple(shape)
        self.axes = [a % nd for a in axes]
        if len(set(self.axes)) < len(axes) or (kind == 1 and len(axes) != 1) or (kind == 2 and len(axes) != 2):
            raise Reject
        self.w = case["w"]
        self.W = g.wav(self.w)
        self.mode = case["mode"] or DEFMODE[kind]
        self.F = ref.flen(self.w)
        self.k = len(axes)
        keys = ["".join(p) for p in itertools.product("ad", repeat=self.k)]
        if kind == 2:
            self.parts = ["a", "h", "v", "d"]
            self.key = {"a": "aa", "h": "da", "v": "ad", "d": "dd"}
        else:
            self.parts = keys
            self.key = {p: p for p in keys}
        self.plen = 1 if kind != 3 else self.k
        dflt = min(ref.max_level(shape[a], self.F) for a in self.axes)
        self.maxlevel = dflt if case["maxlevel"] is None else case["maxlevel"]
        if self.maxlevel < 0 or len(self.parts) ** self.maxlevel > 130:
            raise Reject
        self.level_shapes = [self.shape]
        for _ in range(self.maxlevel):
            s = list(self.level_shapes[-1])
            for a in self.axes:
                if s[a] < g.minlen(self.mode):
                    raise Reject
                s[a] = ref.coeff_len(s[a], self.F, self.mode)
            self.level_shapes.append(tuple(s))
        if max(int(np.prod(s)) * len(self.parts) ** i for i, s in enumerate(self.level_shapes)) > 6000:
            raise Reject
        self._maps = {}

    # every length produced by the inverse is exactly the expected one (no trimming needed anywhere)
    def exact_lengths(self):
        for i in range(1, self.maxlevel + 1):
            for a in self.axes:
                n = self.level_shapes[i][a]
                if (2 * n if self.mode == "periodization" else 2 * n - self.F + 2) != self.level_shapes[i - 1][a]:
                    return False
        return True

    def data(self):
        return make(self.case["data"], self.shape, self.case["dt"])

    def build(self, data, as_obj=True):
        kw = {}
        if self.case["mode"] is not None:
            kw["mode"] = self.case["mode"]
        if self.case["maxlevel"] is not None:
            kw["maxlevel"] = self.case["maxlevel"]
        w = self.W if as_obj or not isinstance(self.w, str) else self.w
        if self.kind == 1:
            return pywt.WaveletPacket(data, w, axis=self.case["axes"][0], **kw)
        if self.kind == 2:
            return pywt.WaveletPacket2D(data, w, axes=tuple(self.case["axes"]), **kw)
        return pywt.WaveletPacketND(data, w, axes=tuple(self.case["axes"]), **kw)

    def split(self, t):
        """Reference bands of a Tracked node, by part."""
        c = ref.dwtn(t, [self.w] * self.k, [self.mode] * self.k, self.axes)
        return {p: c[self.key[p]] for p in self.parts}

    def join(self, bands, shape):
        """Reference reconstruction from {part: Tracked}; trimmed to shape if given."""
        r = ref.idwtn({self.key[p]: t for p, t in bands.items()}, [self.w] * self.k, [self.mode] * self.k, self.axes)
        return ref.crop(r, shape) if shape is not None else r

    def steps(self, path):
        return [path[i:i + self.plen] for i in range(0, len(path), self.plen)]

    def paths(self, level):
        return ["".join(p) for p in itertools.product(self.parts, repeat=level)]

    # frequency order: position of a 0/1 string in the sequency ordering = inverse Gray code
    @staticmethod
    def seq(bits):
        v, out = 0, 0
        for b in bits:
            v ^= b
            out = 2 * out + v
        return out

    def freq_order(self, paths):
        """1-D: list; 2-D: list of rows."""
        if self.kind == 1:
            return sorted(paths, key=lambda p: self.seq([int(c == "d") for c in p]))
        row = lambda p: self.seq([int(c in "hd") for c in p])
        col = lambda p: self.seq([int(c in "vd") for c in p])
        rows = {}
        for p in paths:
            rows.setdefault(row(p), []).append(p)
        return [sorted(rows[r], key=col) for r in sorted(rows)]
