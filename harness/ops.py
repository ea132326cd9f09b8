"""One uniform view of every public transform, used by the cross-cutting checks (P17-P21).

A JSON operation names a function, the shape of the underlying data and all settings.  `Op(cfg)` gives the shapes of the arrays the call
takes (one for analysis, one per band for synthesis) and `run(arrays)`, which returns whatever the function returns."""
import itertools

import numpy as np
import pywt
from hypothesis import strategies as st

import gens as g
import ref
from core import Reject

ONE = ["dwt", "idwt", "wavedec", "waverec", "swt", "iswt", "mra", "imra", "downcoef", "upcoef", "wp", "wprec", "cwt"]
TWO = ["dwt2", "idwt2", "wavedec2", "waverec2", "swt2", "iswt2", "mra2", "imra2", "wp2"]
ND = ["dwtn", "idwtn", "wavedecn", "waverecn", "swtn", "iswtn", "mran", "imran", "wpn", "fswavedecn", "fswaverecn"]
ALL = ONE + TWO + ND
# take any array_like (the others work on arrays in the structures the transforms return)
ARRAY_LIKE = {"dwt", "idwt", "wavedec", "swt", "mra", "downcoef", "upcoef", "cwt", "dwt2", "wavedec2", "swt2", "mra2", "dwtn", "wavedecn", "swtn", "mran",
              "fswavedecn", "wp", "wp2", "wpn"}
CWTS = ["mexh", "morl", "gaus1", "gaus4", "cgau2", "cmor1.5-1.0", "shan1.5-1.0", "fbsp2-1.5-1.0"]


@st.composite
def st_op(draw, ops=ALL, mind=1, maxsize=12):
    op = draw(st.sampled_from(list(ops)))
    k = None
    if op in ONE:
        nd = 1 if op in ("downcoef", "upcoef") else draw(st.sampled_from([1, 1, 2, 3]))
        k = 1
    elif op in TWO:
        nd = draw(st.sampled_from([2, 2, 3]))
        k = 2
    else:
        nd = draw(st.sampled_from([1, 2, 2, 3]))
    nd = max(nd, 1)
    axes = draw(g.st_axes(nd, k or 1, k))
    k = len(axes)
    level = draw(st.integers(1, 3 if k == 1 else 2))
    cap = {1: 40, 2: 12, 3: 7}[nd] if maxsize == 12 else maxsize
    shape = [draw(st.integers(1, 4)) for _ in range(nd)]
    stat = "swt" in op or (op in ("mra", "imra", "mra2", "imra2", "mran", "imran") and draw(st.booleans()))
    for a in axes:
        n = draw(st.integers(1, cap))
        if stat:
            n = max(1, n // 2 ** level) * 2 ** level
        shape[a] = n
    per = draw(st.booleans()) and not op.startswith("wp")
    sw = st.one_of(st.sampled_from(g.SHORT), st.sampled_from(g.SHORT), g.st_wavelet())
    if op == "cwt":
        sw = st.sampled_from(CWTS)
    w = draw(sw)
    m = draw(g.st_mode())
    ws = [w] + [draw(sw) if per else w for _ in axes[1:]]
    ms = [m] + [draw(g.st_mode()) if per else m for _ in axes[1:]]
    return {"op": op, "shape": shape, "axes": axes, "ws": ws, "modes": ms, "level": level, "stat": stat, "trim": draw(st.booleans()), "norm": draw(st.booleans()),
            "part": draw(st.sampled_from("ad")), "scales": draw(st.sampled_from([[1], [1, 2], [3, 1.5, 8], [2, 2], [5]])), "method": draw(st.sampled_from(["conv", "fft"])),
            "wf": draw(st.sampled_from(["name", "obj"]))}


def flatten(r, pre=""):
    """[(where, array)] of any returned structure."""
    if isinstance(r, np.ndarray):
        return [(pre, r)]
    if isinstance(r, dict):
        return [t for k in sorted(r) for t in flatten(r[k], f"{pre}[{k}]")]
    if isinstance(r, (list, tuple)):
        return [t for i, v in enumerate(r) for t in flatten(v, f"{pre}[{i}]")]
    if r is None:
        return []
    if isinstance(r, pywt.FswavedecnResult):
        return [(pre + ".coeffs", r.coeffs)]
    if np.isscalar(r):
        return [(pre, np.asarray(r))]
    from core import Violation
    raise Violation(f"{pre}: unexpected {type(r).__name__} in a result")


class Op:
    def __init__(self, cfg):
        self.cfg = cfg
        op, shape, axes = cfg["op"], list(cfg["shape"]), cfg["axes"]
        nd, k = len(shape), len(axes)
        self.op = op
        if op not in ALL or not nd or not k or any(not -nd <= a < nd for a in axes) or min(shape) < 1 or len(cfg["ws"]) != k or len(cfg["modes"]) != k:
            raise Reject
        self.axes = [a % nd for a in axes]
        L = self.level = cfg["level"]
        if len(set(self.axes)) < k or op in ONE and k != 1 or op in TWO and k != 2 or op in ("downcoef", "upcoef") and nd != 1 or not 1 <= L <= 5:
            raise Reject
        if op.startswith("wp") and (any(x != cfg["ws"][0] for x in cfg["ws"]) or any(x != cfg["modes"][0] for x in cfg["modes"])):
            raise Reject
        self.shape = tuple(shape)
        ws, ms = cfg["ws"], cfg["modes"]
        stat = cfg["stat"] and op in ("mra", "imra", "mra2", "imra2", "mran", "imran") or "swt" in op
        self.stat = stat
        if op == "cwt":
            if ws[0] not in CWTS:
                raise Reject
        else:
            self.W = [g.wav(w) if cfg["wf"] == "obj" or not isinstance(w, str) else w for w in ws]
            [g.wav(w) for w in ws]
        one = k == 1 or all(x == ws[0] for x in ws)
        if op != "cwt":
            self.wa = self.W[0] if one else list(self.W)
        self.ma = ms[0] if all(m == ms[0] for m in ms) else list(ms)
        if any(m not in ref.MODES for m in ms):
            raise Reject
        if stat:
            if any(shape[a] % 2 ** L for a in self.axes):
                raise Reject
            self.levels = [self.shape] * (L + 1)
        elif op != "cwt":
            one_level = op in ("dwt", "idwt", "dwt2", "idwt2", "dwtn", "idwtn")
            self.levels = [self.shape]
            for _ in range(1 if one_level else L):
                s = list(self.levels[-1])
                for a, w, m in zip(self.axes, ws, ms):
                    if s[a] < g.minlen(m):
                        raise Reject
                    s[a] = ref.coeff_len(s[a], ref.flen(w), m)
                self.levels.append(tuple(s))
            tot = np.prod(self.levels[-1]) * (2 ** (k * L) if op.startswith("wp") else 2 ** k)
            if tot > 20000:
                raise Reject
        self.keys = ["".join(p) for p in itertools.product("ad", repeat=k)]
        self.synthesis = op in ("idwt", "waverec", "iswt", "imra", "upcoef", "wprec", "idwt2", "waverec2", "iswt2", "imra2", "idwtn", "waverecn", "iswtn", "imran", "fswaverecn")
        self.shapes = self._shapes()

    def _shapes(self):
        op, k, L = self.op, len(self.axes), self.level
        if not self.synthesis:
            return [self.shape]
        lv = self.levels
        if op in ("idwt", "idwt2", "idwtn"):
            return [lv[1]] * 2 ** k
        if op == "upcoef":
            return [lv[L]]
        if op == "wprec":
            return [lv[L]] * 2 ** L
        if op in ("waverec", "waverec2", "waverecn"):
            return [lv[L]] + [lv[j] for j in range(L, 0, -1) for _ in range(2 ** k - 1)]
        if op in ("iswt", "iswt2", "iswtn"):
            # iswt2 in the full layout reads the approximation of the first entry only; the others are given as copies of it
            return [self.shape] * (1 + L * (2 ** k - 1))
        if op in ("imra", "imra2", "imran"):
            return [self.shape] * (1 + L * (2 ** k - 1))
        if op == "fswaverecn":
            return [self._fs().coeffs.shape]
        raise Reject

    def _fs(self):
        return pywt.fswavedecn(np.zeros(self.shape), self.wa, self.ma, self.level, axes=self.cfg["axes"])

    def pack(self, arrays):
        """the structure of coefficient arrays that a synthesis call takes"""
        op, L, it = self.op, self.level, iter(arrays)
        if op in ("idwt", "upcoef", "wprec", "fswaverecn"):
            return list(arrays)
        if op == "idwt2":
            return (next(it), (next(it), next(it), next(it)))
        if op == "idwtn":
            return {k: next(it) for k in self.keys}
        a = next(it)
        k2 = op in ("waverec2", "iswt2", "imra2")
        k1 = op in ("waverec", "iswt", "imra")
        lev = []
        for _ in range(L):
            d = [next(it) for _ in self.keys[1:]]
            lev.append(d[0] if k1 else tuple(d) if k2 else dict(zip(self.keys[1:], d)))
        if op.startswith("iswt") and not self.cfg["trim"]:
            if k1:
                return [(a, d) for d in lev]
            if k2:
                return [(a, d) for d in lev]
            return [dict(d, **{self.keys[0]: a}) for d in lev]
        return [a] + lev

    def call(self, c):
        """c: the array (analysis) or the packed structure (synthesis)"""
        op, cfg, L = self.op, self.cfg, self.level
        axes = tuple(cfg["axes"])
        ax = axes[0]
        p = pywt
        tn = {"trim_approx": cfg["trim"], "norm": cfg["norm"]}
        kind = {"mra": "", "mra2": "2", "mran": "n"}.get(op, "")
        tr = {"transform": ("swt" if self.stat else "dwt") + kind, "mode": "periodization" if self.stat and op.startswith("mra") else self.ma}
        if op == "cwt":
            return p.cwt(c, cfg["scales"], cfg["ws"][0], method=cfg["method"], axis=ax)[0]
        w, m = self.wa, self.ma
        if op == "dwt":
            return p.dwt(c, w, m, ax)
        if op == "idwt":
            return p.idwt(c[0], c[1], w, m, ax)
        if op == "wavedec":
            return p.wavedec(c, w, m, L, ax)
        if op == "waverec":
            return p.waverec(c, w, m, ax)
        if op == "swt":
            return p.swt(c, w, L, axis=ax, **tn)
        if op == "iswt":
            return p.iswt(c, w, cfg["norm"], ax)
        if op == "mra":
            return p.mra(c, w, L, ax, **tr)
        if op == "imra":
            return p.imra(c)
        if op == "downcoef":
            return p.downcoef(cfg["part"], c, w, m, L)
        if op == "upcoef":
            return p.upcoef(cfg["part"], c[0], w, L)
        if op == "wp":
            t = p.WaveletPacket(c, w, m, L, ax)
            return [[n.data for n in t.get_level(j)] for j in range(1, L + 1)] + [t.reconstruct(False)]
        if op == "wprec":
            t = p.WaveletPacket(np.zeros(self.shape, c[0].dtype), w, m, L, ax)
            for q, d in zip(itertools.product("ad", repeat=L), c):
                t["".join(q)] = d
            return t.reconstruct(False)
        if op == "wp2":
            t = p.WaveletPacket2D(c, w, m, L, axes)
            return [[n.data for n in t.get_level(j)] for j in range(1, L + 1)] + [t.reconstruct(False)]
        if op == "wpn":
            t = p.WaveletPacketND(c, w, m, L, axes)
            return [[n.data for n in t.get_level(j)] for j in range(1, L + 1)] + [t.reconstruct(False)]
        if op == "dwt2":
            return p.dwt2(c, w, m, axes)
        if op == "idwt2":
            return p.idwt2(c, w, m, axes)
        if op == "wavedec2":
            return p.wavedec2(c, w, m, L, axes)
        if op == "waverec2":
            return p.waverec2(c, w, m, axes)
        if op == "swt2":
            return p.swt2(c, w, L, axes=axes, **tn)
        if op == "iswt2":
            return p.iswt2(c, w, cfg["norm"], axes)
        if op == "mra2":
            return p.mra2(c, w, L, axes, **tr)
        if op == "imra2":
            return p.imra2(c)
        if op == "dwtn":
            return p.dwtn(c, w, m, axes)
        if op == "idwtn":
            return p.idwtn(c, w, m, axes)
        if op == "wavedecn":
            return p.wavedecn(c, w, m, L, axes)
        if op == "waverecn":
            return p.waverecn(c, w, m, axes)
        if op == "swtn":
            return p.swtn(c, w, L, axes=axes, **tn)
        if op == "iswtn":
            return p.iswtn(c, w, axes, cfg["norm"])
        if op == "mran":
            return p.mran(c, w, L, axes, **tr)
        if op == "imran":
            return p.imran(c)
        if op == "fswavedecn":
            return p.fswavedecn(c, w, m, L, axes)
        if op == "fswaverecn":
            f = self._fs()
            r = p.FswavedecnResult(c[0], f.coeff_slices, f.wavelets, [int(getattr(p.Modes, m)) for m in f.modes], f.axes)
            return p.fswaverecn(r)
        raise Reject

    def prepare(self, arrays):
        return self.pack(arrays) if self.synthesis else arrays[0]

    def run(self, arrays):
        return flatten(self.call(self.prepare(arrays)))

    def gain(self):
        """crude bound of max |output| / max |input| magnitudes including the intermediate sums"""
        if self.op == "cwt":
            return 1e3
        gtot = 1.0
        n = self.level if not self.op in ("dwt", "idwt", "dwt2", "idwt2", "dwtn", "idwtn") else 1
        for a, w, m in zip(self.axes, self.cfg["ws"], self.cfg["modes"]):
            F = ref.flen(w)
            s = max(float(np.sum(np.abs(f))) for f in ref.filters(w)) * 2
            for j in range(n):
                N = self.levels[j if j < len(self.levels) else -1][a]
                e = 1.0
                if m in ("smooth", "antireflect") and not self.stat:
                    e = 2 * F + 3 + 4 * F / max(1, N - 1)
                gtot *= s * e
        if self.op.startswith(("wp", "mra")):
            gtot = gtot * gtot
        return gtot

    def tags(self):
        return ["op=" + self.op, f"{len(self.shape)}-D"]
