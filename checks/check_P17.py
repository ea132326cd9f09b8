"""P17: results depend on the values only, not on dtype variants, layout, byte order or container."""
import sys

import numpy as np
import pywt
from hypothesis import strategies as st

import gens as g
import ops
import ref
from core import EPS, NP, Reject, law, layout, make, require, st_data

RULE = "case = one of 33 transforms with generated settings x data x (layout per input array | dtype | container); non-trivial when the data is not all zero"
ASSUMPTIONS = ["structures of coefficients are made of arrays (as the transforms return them); nested lists only where array_like is documented"]
LAY = ["F", "strided", "neg", "transposed", "readonly", "swapped", "offset", "broadcast", "C"]


def arrays(o, case, dt):
    return [make(dict(case["data"], s=case["data"].get("s", 0) * 31 + i), s, dt) for i, s in enumerate(o.shapes)]


def agree(a, b, tol, what, dtype=True):
    """tol: relative to the largest magnitude anywhere in the result, per kind of operation"""
    require([k for k, _ in a] == [k for k, _ in b], lambda: f"{what}: different structure {[k for k, _ in a]} / {[k for k, _ in b]}")
    for (k, p), (_, q) in zip(a, b):
        require(p.shape == q.shape, lambda: f"{what}{k}: shape {q.shape}, expected {p.shape}")
        require(not dtype or p.dtype == q.dtype, lambda: f"{what}{k}: dtype {q.dtype}, expected {p.dtype}")
        with np.errstate(all="ignore"):
            bad = ~((np.abs(p - q) <= tol) | (p == q))
        if bad.any():
            i = tuple(int(t) for t in np.argwhere(bad)[0])
            require(False, f"{what}{k}: element {list(i)} is {q[i]!r}, expected {p[i]!r}")


def size(arrs):
    return max((float(np.max(np.abs(a))) for a in arrs if a.size), default=0.0)


def broadcasted(a, axis):
    b = np.take(a, [0], axis)
    return np.broadcast_to(b, a.shape)


@st.composite
def st_lay(draw):
    c = draw(ops.st_op())
    return {"o": c, "dt": draw(g.st_dtype()), "data": draw(st_data()), "lays": draw(st.lists(st.sampled_from(LAY), min_size=1, max_size=6)),
            "bax": draw(st.integers(0, 2))}


@law("P17", strategy=lambda: st_lay(), quick=700, thorough=25000)
def any_memory_layout(case):
    o = ops.Op(case["o"])
    dt = case["dt"]
    if not case["lays"]:
        raise Reject
    xs = arrays(o, case, dt)
    lays = [case["lays"][i % len(case["lays"])] for i in range(len(xs))]
    plain, odd = [], []
    for x, lay in zip(xs, lays):
        if lay == "broadcast":
            y = broadcasted(x, case["bax"] % x.ndim)
            plain.append(np.ascontiguousarray(y))
            odd.append(y)
        else:
            plain.append(x)
            odd.append(layout(x, lay))
    if o.op in ("iswt", "iswt2", "iswtn", "imra", "imra2", "imran", "wprec"):
        pass
    want = o.run(plain)
    got = o.run(odd)
    # the same sums, possibly in another order
    tol = 64 * EPS[dt] * size(plain) * o.gain() * 4
    agree(want, got, tol, f"{o.op} with layouts {lays}")
    for x, y, lay in zip(plain, odd, lays):
        require(np.array_equal(x, np.asarray(y)), f"{o.op}: input ({lay}) modified")
    return o.tags() + ["lay=" + k for k in set(lays)] + ["dt=" + dt] if any(x.any() for x in plain) else []


class Wrapped:
    def __init__(self, a):
        self.a = a

    def __array__(self, dtype=None, copy=None):
        return np.array(self.a, dtype=dtype, copy=True)


CONT = {"list": lambda a: a.tolist(), "tuple": lambda a: _tup(a.tolist()), "wrapped": Wrapped, "rows": lambda a: [r for r in a], "memoryview": memoryview}


def _tup(v):
    return tuple(_tup(x) for x in v) if isinstance(v, list) else v


@st.composite
def st_cont(draw):
    return {"o": draw(ops.st_op(sorted(ops.ARRAY_LIKE))), "dt": draw(st.sampled_from(["f8", "c16"])), "data": draw(st_data()),
            "cont": draw(st.sampled_from(["list", "list", "tuple", "rows"]))}


@law("P17", strategy=lambda: st_cont(), quick=300, thorough=10000)
def any_container(case):
    o = ops.Op(case["o"])
    dt = case["dt"]
    if dt not in ("f8", "c16") or o.op not in ops.ARRAY_LIKE:
        raise Reject
    xs = arrays(o, case, dt)
    want = o.run(xs)
    got = o.run([CONT[case["cont"]](x) for x in xs])
    agree(want, got, 64 * EPS[dt] * size(xs) * o.gain() * 4, f"{o.op} of a {case['cont']}")
    return o.tags() + [case["cont"], "dt=" + dt]


# ------------------------------------------------------------------ element types
OTHER = {"int8": "f8", "int16": "f8", "int32": "f8", "int64": "f8", "uint8": "f8", "uint16": "f8", "uint32": "f8", "uint64": "f8", "bool": "f8", "float16": "f4",
         "longdouble": "f8", "clongdouble": "c16"}


@st.composite
def st_types(draw):
    o = draw(ops.st_op([k for k in ops.ALL if k != "imra"]))
    return {"o": o, "ty": draw(st.sampled_from(list(OTHER))), "s": draw(st.integers(0, 10 ** 6)), "lay": draw(st.sampled_from(["C", "strided", "swapped"]))}


@law("P17", strategy=lambda: st_types(), quick=500, thorough=15000)
def other_types_as_documented(case):
    """integer, boolean and extended precision input is treated as double, half precision as single, extended complex as double complex"""
    o = ops.Op(case["o"])
    ty = case["ty"]
    if o.op in ("imra", "imra2", "imran", "wprec", "threshold") or ty not in OTHER:
        raise Reject      # plain sums of the given arrays
    if o.op.startswith("wp") and ty in ("float16", "longdouble", "clongdouble"):
        pass
    dt = OTHER[ty]
    xs = []
    for i, s in enumerate(o.shapes):
        r = np.random.default_rng([case["s"], i])
        v = r.integers(0, 100, s)
        if ty == "bool":
            x = (v % 2).astype(bool)
        elif ty.startswith("uint"):
            x = v.astype(ty)
        else:
            x = (v - 50).astype(ty) if ty in ("int8", "int16", "int32", "int64") else ((v - 50) / 8).astype(ty)
        if ty == "clongdouble":
            x = x + 1j * (r.integers(-50, 50, s) / 8)
        xs.append(x.astype(ty))
    want = o.run([x.astype(NP[dt]) for x in xs])
    got = o.run([layout(x, case["lay"]) for x in xs])
    if o.op == "wp" or o.op == "wp2" or o.op == "wpn":
        got, want = got, want
    agree(want, got, 0 if False else 64 * EPS[dt] * size(xs) * o.gain() * 4, f"{o.op} of {ty}")
    for k, a in got:
        require(a.dtype.kind == "c" or a.dtype == NP[dt], lambda: f"{o.op} of {ty}: dtype {a.dtype}, expected {NP[dt].__name__}")
    return o.tags() + ["type=" + ty]


@st.composite
def st_prec(draw):
    return {"o": draw(ops.st_op()), "data": draw(st_data()), "cplx": draw(st.booleans())}


@law("P17", strategy=lambda: st_prec(), quick=500, thorough=15000)
def single_agrees_with_double(case):
    o = ops.Op(case["o"])
    lo, hi = ("c8", "c16") if case["cplx"] else ("f4", "f8")
    xs = arrays(o, case, lo)
    if size(xs) > 1e12:
        raise Reject
    a = o.run(xs)
    b = o.run([x.astype(NP[hi]) for x in xs])
    for k, v in a:
        require(v.dtype == (np.complex64 if case["cplx"] or v.dtype.kind == "c" and o.op == "cwt" else np.float32), lambda: f"{o.op}{k} of single precision: {v.dtype}")
    for k, v in b:
        require(v.dtype == (np.complex128 if case["cplx"] or v.dtype.kind == "c" and o.op == "cwt" else np.float64), lambda: f"{o.op}{k} of double precision: {v.dtype}")
    if o.op == "cwt":
        return o.tags()      # the wavelet's own grid is rounded to single precision there: values are compared in P13
    n = 8 * sum(ref.flen(w) for w in case["o"]["ws"]) * o.level
    agree(b, a, EPS["f4"] * n * size(xs) * o.gain() + 1e-36, f"{o.op} in single precision", dtype=False)
    return o.tags() + ["complex" if case["cplx"] else "real"] if size(xs) else []


@st.composite
def st_re(draw):
    return {"o": draw(ops.st_op()), "data": draw(st_data()), "dt": draw(st.sampled_from(["c8", "c16"]))}


@law("P17", strategy=lambda: st_re(), quick=500, thorough=15000)
def complex_is_real_plus_i_imaginary(case):
    o = ops.Op(case["o"])
    if case["dt"] not in ("c8", "c16"):
        raise Reject
    xs = arrays(o, case, case["dt"])
    z = o.run(xs)
    a = o.run([x.real.copy() for x in xs])
    b = o.run([x.imag.copy() for x in xs])
    want = [(k, (p + 1j * q)) for (k, p), (_, q) in zip(a, b)]
    n = 8 * 4
    if o.op != "cwt":
        n = 8 * sum(ref.flen(w) for w in case["o"]["ws"]) * o.level
    agree(want, z, EPS[case["dt"]] * n * size(xs) * o.gain() + 1e-36, f"{o.op} of complex data")
    # a real array as complex gives the same with zero imaginary part
    r = o.run([x.real.astype(x.dtype) for x in xs])
    agree([(k, p.astype(np.result_type(p.dtype, np.complex64))) for k, p in a], r, EPS[case["dt"]] * n * size(xs) * o.gain() + 1e-36, f"{o.op} of real data held as complex")
    return o.tags() + ["dt=" + case["dt"]] if size(xs) else []


# ------------------------------------------------------------------ mixed types in synthesis
@st.composite
def st_mix(draw):
    o = draw(ops.st_op(["idwt", "waverec", "iswt", "idwt2", "waverec2", "iswt2", "idwtn", "waverecn", "iswtn", "imra", "imra2", "imran"]))
    return {"o": o, "dts": draw(st.lists(g.st_dtype(), min_size=2, max_size=4)), "data": draw(st_data())}


@law("P17", strategy=lambda: st_mix(), quick=400, thorough=12000)
def mixed_types_in_synthesis(case):
    """bands of different precision or kind give the synthesis of the same values in the common type"""
    o = ops.Op(case["o"])
    if not o.synthesis or o.op in ("wprec", "upcoef", "fswaverecn") or not case["dts"]:
        raise Reject
    dts = [case["dts"][i % len(case["dts"])] for i in range(len(o.shapes))]
    xs = [make(dict(case["data"], s=case["data"].get("s", 0) * 31 + i), s, d) for (i, s), d in zip(enumerate(o.shapes), dts)]
    big = "c16" if any(d[0] == "c" for d in dts) else "f8"
    got = o.run(xs)
    want = o.run([x.astype(NP[big]) for x in xs])
    # each band enters with the precision it was given; a step that only sees single precision bands may use single precision arithmetic, one that
    # sees a double precision band may not
    single = all(d in ("f4", "c8") for d in dts) or any(d in ("f4", "c8") for d in dts) and not (o.op in ("idwt", "iswt", "waverec") and o.level == 1)
    n = 8 * sum(ref.flen(w) for w in case["o"]["ws"]) * o.level
    e = EPS["f4"] if single else EPS["f8"]
    agree(want, got, e * n * size(xs) * o.gain() + 1e-36, f"{o.op} of bands of types {dts}", dtype=False)
    for k, a in got:
        require((a.dtype.kind == "c") == (big == "c16"), lambda: f"{o.op} of bands of types {dts}: result {a.dtype}")
    return o.tags() + ["mixed"] if len(set(dts)) > 1 else []


# ------------------------------------------------------------------ data assigned to packet nodes
NODE_TYPES = ["int8", "int16", "int32", "int64", "uint8", "uint16", "uint32", "uint64", "bool", "float16", "float32", "float64", "longdouble", "complex64", "complex128",
              "clongdouble"]


@st.composite
def st_node(draw):
    return {"kind": draw(st.integers(1, 3)), "ty": draw(st.sampled_from(NODE_TYPES)), "root": draw(st.sampled_from([None, "float64", "float32", "complex128"])),
            "lay": draw(st.sampled_from(["C", "F", "strided", "swapped", "readonly", "list", "node"])), "path": draw(st.integers(0, 3)), "s": draw(st.integers(0, 10 ** 5))}


@law("P17", strategy=lambda: st_node(), quick=300, thorough=8000)
def types_of_packet_nodes(case):
    """data assigned to a packet node is held in the supported type the documentation names, with its values, whatever is assigned"""
    kind, ty = case["kind"], case["ty"]
    if kind not in (1, 2, 3) or ty not in NODE_TYPES:
        raise Reject
    shape = [4] if kind == 1 else [4, 6]
    cls = {1: pywt.WaveletPacket, 2: pywt.WaveletPacket2D, 3: pywt.WaveletPacketND}[kind]
    parts = [["a", "d"], ["a", "h", "v", "d"], ["aa", "ad", "da", "dd"]][kind - 1]
    p = parts[case["path"] % len(parts)]
    root = None if case["root"] is None else np.arange(1, 2 ** kind * 4 * (1, 6, 6)[kind - 1] + 1)[:int(np.prod([2 * n for n in shape]))].reshape([2 * n for n in shape]).astype(case["root"])
    wp = cls(root, "haar", "periodization", maxlevel=2, **({"axes": (0, 1)} if kind == 3 else {}))
    r = np.random.default_rng([case["s"], 3])
    v = r.integers(0, 100, shape)
    a = (v % 2).astype(bool) if ty == "bool" else v.astype(ty) if ty.startswith("uint") else (v - 50).astype(ty) if ty.startswith("int") else ((v - 50) / 8).astype(ty)
    if a.dtype.kind == "c":
        a = a + (1j * r.integers(-50, 50, shape) / 8).astype(ty)
    want = {"float16": "float32", "float32": "float32", "complex64": "complex64", "complex128": "complex128", "clongdouble": "complex128"}.get(ty, "float64")
    lay = case["lay"]
    if lay == "list":
        given = a.tolist() if ty not in ("longdouble", "clongdouble") else [list(t) for t in a] if kind > 1 else list(a)
        want = {"float16": "float64", "float32": "float64", "complex64": "complex128"}.get(ty, want)
    elif lay == "node":
        given = cls(a, "haar", "periodization", maxlevel=0)
    else:
        given = layout(a, lay)
    what = f"tree kind {kind} (root {case['root']}): {ty} data ({lay}) assigned to {p!r}"
    wp[p] = given
    d = wp[p].data
    require(d.dtype == np.dtype(want), lambda: f"{what}: held as {d.dtype}, expected {want}")
    require(d.shape == a.shape and np.array_equal(np.asarray(d), a.astype(want)), lambda: f"{what}: values {np.asarray(d).ravel()[:4]} instead of {a.ravel()[:4]}")
    # and it takes part in everything that follows with these values
    sub = wp[p + parts[0]].data
    f = {1: lambda b: pywt.dwt(b, "haar", "periodization")[0], 2: lambda b: pywt.dwt2(b, "haar", "periodization")[0], 3: lambda b: pywt.dwtn(b, "haar", "periodization")["aa"]}[kind]
    require(sub.dtype == np.dtype(want) and np.array_equal(sub, f(a.astype(want))), lambda: f"{what}: the node below is {sub.ravel()[:4]} ({sub.dtype})")
    return [f"kind={kind}", "type=" + ty, "lay=" + lay]


class NoComplex:
    """Selects the branches for platforms whose compiler has no complex numbers."""

    def __enter__(self):
        self.m = [m for n, m in sorted(sys.modules.items()) if n.startswith("pywt.") and getattr(m, "_have_c99_complex", None)]
        for m in self.m:
            m._have_c99_complex = 0

    def __exit__(self, *a):
        for m in self.m:
            m._have_c99_complex = 1


@st.composite
def st_nc(draw):
    some = draw(st.sampled_from([ops.ALL, ["swt", "iswt"], ["iswt", "iswt2"], ["swt2", "iswt2", "swtn", "iswtn"], ["dwt", "idwt", "downcoef", "upcoef"]]))
    return {"o": draw(ops.st_op(some)), "dts": draw(st.lists(st.sampled_from(["c16", "c8", "c16", "c8", "f8", "f4"]), min_size=1, max_size=3)), "data": draw(st_data()),
            "drop": draw(st.sampled_from([None, 0, 1]))}


@law("P17", strategy=lambda: st_nc(), quick=700, thorough=16000)
def complex_without_native_support(case):
    """The fallback for compilers without complex arithmetic answers like the native code."""
    o = ops.Op(case["o"])
    dts = case["dts"]
    if not dts or not any(d.startswith("c") for d in dts):
        raise Reject
    xs = [make(dict(case["data"], s=case["data"].get("s", 0) * 31 + i), s, dts[i % len(dts)]) for i, s in enumerate(o.shapes)]
    if not any(x.dtype.kind == "c" for x in xs):
        raise Reject
    n = size(xs)
    if case["drop"] in (0, 1) and o.op == "idwt":
        xs[case["drop"]] = None                 # a missing band counts as zeros
        if xs[1 - case["drop"]].dtype.kind != "c":
            raise Reject
    want = o.run(xs)
    with NoComplex():
        got = o.run(xs)
    lo = max(EPS[d] for d in dts)
    agree(want, got, 256 * lo * n * o.gain(), f"{o.op} of {dts} without native complex support", dtype=len(set(dts)) == 1 or any(x is None for x in xs))
    return o.tags() + (["mixed"] if len(set(dts)) > 1 else ["one-type"])
