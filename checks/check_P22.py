"""P22: copies and pickles are equivalent to, and independent of, the original."""
import base64
import copy
import gc
import json
import os
import pickle
import subprocess
import sys

import numpy as np
import pywt
from hypothesis import strategies as st

import gens as g
import ref
from check_P12 import construct, st_cont
from check_P18 import diff
from check_P18 import snap as _snap
from core import NP, Reject, Violation, law, make, require, same
from wp import Model, st_tree

RULE = ("case = object (discrete wavelet: every built-in, custom, with edited flags; continuous wavelet with generated parameters and edited attributes; "
        "packet tree or node after a generated history; separable-transform result; modes) x way of copying (copy, deepcopy, pickle protocols 0-5, "
        "twice, inside containers, through another process); non-trivial always")
ASSUMPTIONS = ["equivalence is observed through the public attributes, representations, sampled functions and transforms",
               "copy.copy of a packet tree is not promised to be independent (only pickles and deep copies of trees are)"]


def snap(x):
    """values only: a copy may have another memory layout"""
    def strip(t):
        if isinstance(t, tuple) and t and t[0] == "array":
            return ("array", t[1], t[2], t[5])
        if isinstance(t, (list, tuple)):
            return type(t)(strip(v) for v in t)
        return t
    return strip(_snap(x))


WAYS = ["copy", "deepcopy", "p0", "p1", "p2", "p3", "p4", "p5", "p2twice", "list", "dict"]
DEEP = WAYS[1:]


def dup(x, way):
    if way == "copy":
        return copy.copy(x)
    if way == "deepcopy":
        return copy.deepcopy(x)
    if way == "p2twice":
        return pickle.loads(pickle.dumps(pickle.loads(pickle.dumps(x, 2)), 2))
    if way == "list":
        r = copy.deepcopy([x, [x, (x,)]])
        require(r[0] is r[1][0] is r[1][1][0], "copies of one object inside a container are different objects")
        return r[0]
    if way == "dict":
        r = pickle.loads(pickle.dumps({"a": x, "b": {"c": x}}))
        require(r["a"] is r["b"]["c"], "pickling a container duplicates the object inside")
        return r["a"]
    if way[0] == "p" and way[1:] in "012345" and len(way) == 2:
        return pickle.loads(pickle.dumps(x, int(way[1])))
    raise Reject


# ------------------------------------------------------------------ what can be seen of an object
def see_discrete(w):
    x = np.random.default_rng(3).standard_normal((3, 18))
    d = {"snap": snap(w), "len": len(w), "dec": w.dec_len, "rec": w.rec_len, "repr": repr(w), "str": str(w), "num": w.family_number,
         "inv": snap(list(w.inverse_filter_bank)), "dwt": snap(pywt.dwt(x, w)), "idwt": snap(pywt.idwt(x, x[::-1], w, "periodization")),
         "back": snap(pywt.wavedecn(x, w, "periodization", 1)), "type": type(w).__name__}
    for f in ("dec_lo", "dec_hi", "rec_lo", "rec_hi"):
        d[f] = snap(list(getattr(w, f)))
    try:
        d["fun"] = snap(w.wavefun(2))
    except ValueError as e:
        d["fun"] = str(e)
    return d


CATTR = ["lower_bound", "upper_bound", "center_frequency", "bandwidth_frequency", "fbsp_order", "orthogonal", "biorthogonal", "complex_cwt"]


def see_cont(w):
    x = np.random.default_rng(3).standard_normal(12)
    d = {a: repr(getattr(w, a)) for a in CATTR + ["name", "family_name", "short_family_name", "symmetry", "family_number"]}
    d.update(repr=repr(w), str=str(w), type=type(w).__name__, dtype=str(w.wavefun(length=3)[1].dtype))
    d["fun"] = snap(w.wavefun(4))
    d["fun2"] = snap(w.wavefun(length=7))
    try:
        d["cwt"] = snap(pywt.cwt(x, [1, 2.5], w))
    except ValueError as e:
        d["cwt"] = str(e)       # scale too small for a narrow support
    return d


def check(a, b, what):
    for k in a:
        require(a[k] == b[k], lambda: f"{what}: {k} differs: {diff(a[k], b[k]) if not isinstance(a[k], str) else (a[k][:200], b[k][:200])}")


# ------------------------------------------------------------------ discrete wavelets
def edit_discrete(w, e):
    if e & 1:
        w.orthogonal = not w.orthogonal
    if e & 2:
        w.biorthogonal = not w.biorthogonal


@law("P22", sweep=lambda tier, seed: ({"w": w, "way": way} for w in ref.DISCRETE for way in (WAYS if tier == "thorough" or ref.DISCRETE.index(w) % 4 == 0 else
                                                                                             ["copy", "deepcopy", "p2", "p5"])))
def every_builtin_discrete_wavelet(case):
    w = pywt.Wavelet(case["w"])
    want = see_discrete(w)
    c = dup(w, case["way"])
    what = f"{case['way']} of Wavelet({case['w']!r})"
    require(type(c) is pywt.Wavelet, lambda: f"{what} is a {type(c)}")
    check(want, see_discrete(c), what)
    for e in (1, 2, 3):
        edit_discrete(c, e)
        check(want, see_discrete(w), f"after editing the {what}, the original")
    require(c.orthogonal == w.orthogonal and c.biorthogonal == w.biorthogonal, f"{what}: edits do not take")
    c = dup(w, case["way"])
    w.orthogonal = not w.orthogonal
    check(want, see_discrete(c), f"after editing the original, the {what}")
    del w
    gc.collect()
    check(want, see_discrete(c), f"after deleting the original, the {what}")
    return ["way=" + case["way"]]


@st.composite
def st_disc(draw):
    w = draw(g.st_wavelet())
    return {"w": w, "name": draw(st.sampled_from(["", "mine", "db2", "haar", "Ünï cødé", "a b", "x" * 40, None, None])), "edit": draw(st.integers(0, 3)),
            "edit2": draw(st.integers(1, 3)), "way": draw(st.sampled_from(WAYS)), "n": draw(st.integers(1, 4)), "scale": draw(st.sampled_from([1.0, 0.1, 1e-200, 1e200, 3.0]))}


@law("P22", strategy=st_disc, quick=150, thorough=5000)
def custom_and_edited_discrete_wavelets(case):
    g.wav(case["w"])
    if case["name"] is None:
        w = g.wav(case["w"])
    else:
        fb = [[v * case["scale"] for v in f] for f in ref.filters(case["w"])]
        try:
            w = pywt.Wavelet(case["name"], filter_bank=fb)
        except ValueError:
            raise Reject
    edit_discrete(w, case["edit"])
    with np.errstate(all="ignore"):
        want = see_discrete(w)
        c = w
        for i in range(max(1, case["n"])):
            c = dup(c, case["way"])
        what = f"{case['way']} (x{case['n']}) of a wavelet made from {case['w']}, name {case['name']!r}, flags edited {case['edit']}"
        check(want, see_discrete(c), what)
        edit_discrete(c, case["edit2"])
        check(want, see_discrete(w), f"after editing the {what}, the original")
        d = dup(w, case["way"])
        edit_discrete(w, case["edit2"])
        check(want, see_discrete(d), f"after editing the original, the {what}")
    return ["way=" + case["way"], "builtin" if case["name"] is None and isinstance(case["w"], str) else "custom"]


# ------------------------------------------------------------------ continuous wavelets
@st.composite
def st_c(draw):
    val = st.integers(1, 400).map(lambda k: k / 100)
    e = {}
    for a in draw(st.lists(st.sampled_from(CATTR), max_size=4)):
        e[a] = draw({"lower_bound": st.integers(-40, -1), "upper_bound": st.integers(1, 40), "fbsp_order": st.integers(1, 5), "center_frequency": val,
                     "bandwidth_frequency": val}.get(a, st.integers(0, 1)))
    e2 = {"lower_bound": -3.5, "upper_bound": 2.25, "center_frequency": 1.125, "bandwidth_frequency": 0.875, "fbsp_order": 3}
    return {"c": draw(st_cont()), "e": e, "e2": {k: e2[k] for k in draw(st.lists(st.sampled_from(sorted(e2)), min_size=1, max_size=3, unique=True))}, "way": draw(st.sampled_from(WAYS))}


def set_attrs(w, e):
    for k, v in sorted(e.items()):
        if k == "complex_cwt":
            continue       # a switch between real and complex sampling that has no meaning for most families
        setattr(w, k, v)


@law("P22", strategy=st_c, quick=200, thorough=6000)
def continuous_wavelets(case):
    c = case["c"]
    cw = construct(dict(c, setattr=False))
    w = cw[0] if isinstance(cw, tuple) else cw
    set_attrs(w, case["e"])
    if not w.lower_bound < w.upper_bound:
        raise Reject
    what = f"{case['way']} of ContinuousWavelet({w.name!r}) with {case['e']}"
    with np.errstate(all="ignore"):
        want = see_cont(w)
        d = dup(w, case["way"])
        require(type(d) is pywt.ContinuousWavelet, lambda: f"{what} is a {type(d)}")
        check(want, see_cont(d), what)
        set_attrs(d, case["e2"])
        check(want, see_cont(w), f"after editing the {what}, the original")
        d = dup(w, case["way"])
        set_attrs(w, case["e2"])
        check(want, see_cont(d), f"after editing the original, the {what}")
        del w
        gc.collect()
        check(want, see_cont(d), f"after deleting the original, the {what}")
    return ["way=" + case["way"], "fam=" + c["fam"], "dt=" + c["dt"], "edited" if case["e"] else "plain"]


# ------------------------------------------------------------------ trees
EDITS = ["get", "get", "set", "set", "setdata", "del", "rec", "rec_update", "decompose", "none"]


@st.composite
def st_hist(draw, lo=0, hi=6):
    return draw(st.lists(st.fixed_dictionaries({"op": st.sampled_from(EDITS), "p": st.lists(st.integers(0, 7), min_size=1, max_size=3), "s": st.integers(0, 99)}),
                         min_size=lo, max_size=hi))


@st.composite
def st_t(draw):
    return {"tree": draw(st_tree()), "before": draw(st_hist(0, 6)), "after": draw(st_hist(1, 6)), "way": draw(st.sampled_from(DEEP)), "node": draw(st.integers(0, 12)),
            "empty": draw(st.integers(0, 9)) == 0}


def do(t, m, op, dt):
    """one operation; -> a description of what happened"""
    try:
        steps = [m.parts[i % len(m.parts)] for i in op["p"]][:m.maxlevel]
        path = "".join(steps)
        k = op["op"]
        if k == "get":
            return snap(t[path].data)
        if k in ("set", "setdata"):
            d = make({"k": "normal", "s": op["s"]}, m.level_shapes[len(steps)], dt)
            if k == "set":
                t[path] = d
            else:
                t[path].data = d
            return "set"
        if k == "del":
            del t[path]
            return "del"
        if k in ("rec", "rec_update"):
            return snap(t.reconstruct(update=k == "rec_update"))
        if k == "decompose":
            return repr(t[path].decompose() is not None)
        return "nothing"
    except (KeyError, ValueError, IndexError, TypeError, AttributeError, RuntimeError) as e:
        return type(e).__name__


def look(n, m, out=None, up=True):
    """everything reachable from a node without decomposing"""
    out = [] if out is None else out
    out.append((type(n).__name__, n.path, n.level, n.node_name, n.maxlevel, n.mode, snap(n.wavelet) if isinstance(n.wavelet, pywt.Wavelet) else str(n.wavelet),
                snap(n.data), n.is_empty, n.has_any_subnode, n.parent is None, repr(getattr(n, "axis", None)), repr(getattr(n, "axes", None)), repr(n.maxlevel_from_root
                if hasattr(n, "maxlevel_from_root") else 0)))
    if n.level < n.maxlevel:
        for p in m.parts:
            k = n.get_subnode(p, False)
            if k is not None:
                require(k.parent is n, lambda: f"the parent of {k.path!r} is not the node it was reached from")
                look(k, m, out)
    return out


@law("P22", strategy=st_t, quick=350, thorough=10000)
def packet_trees(case):
    m = Model(case["tree"])
    if m.maxlevel < 1:
        raise Reject
    dt = case["tree"]["dt"]
    if case["empty"] and case["tree"]["maxlevel"] is None:
        raise Reject
    t = m.build(None if case["empty"] else m.data())
    log = [do(t, m, o, dt) for o in case["before"]]
    what = f"{case['way']} of a tree (kind {m.kind}, shape {m.shape}, {m.w}, {m.mode}) after {[o['op'] for o in case['before']]}"
    before = look(t, m)
    c = dup(t, case["way"])
    d = diff(before, look(c, m))
    require(d is None, lambda: f"{what} differs: {d}")
    require(c is not t and type(c) is type(t), what)
    d = diff(before, look(t, m))
    require(d is None, lambda: f"{what}: copying changed the original {d}")
    # the same history on the copy and on another copy gives the same; the original stays
    c2 = dup(t, case["way"])
    oc = [do(c, m, o, dt) for o in case["after"]]
    d = diff(before, look(t, m)) or diff(before, look(c2, m))
    require(d is None, lambda: f"{what}: editing the copy by {[o['op'] for o in case['after']]} changed the original or another copy {d}")
    keep = look(c, m)
    ot = [do(t, m, o, dt) for o in case["after"]]
    d = diff(ot, oc)
    require(d is None, lambda: f"{what}: the operations {[o['op'] for o in case['after']]} give other results on the copy {d}")
    d = diff(look(t, m), keep)
    require(d is None, lambda: f"{what}: after {[o['op'] for o in case['after']]} on both, they differ {d}")
    d = diff(before, look(c2, m))
    require(d is None, lambda: f"{what}: editing the original changed the copy {d}")
    # writing into the arrays
    for n in [t] + ([t[m.parts[0]]] if not case["empty"] else []):
        if isinstance(n.data, np.ndarray) and n.data.flags.writeable:
            n.data[...] = 55
    d = diff(keep, look(c, m)) or diff(before, look(c2, m))
    require(d is None, lambda: f"{what}: writing into the original's arrays changed a copy {d}")
    del t, c
    gc.collect()
    [do(c2, m, o, dt) for o in case["after"]]
    d = diff(keep, look(c2, m))
    require(d is None, lambda: f"{what}: without the original, the copy behaves differently {d}")
    return ["way=" + case["way"], "kind=%d" % m.kind, "edited" if any(o["op"] in ("set", "setdata", "del", "rec_update") for o in case["before"]) else "plain",
            "empty" if case["empty"] else "data"]


def root_of(n):
    while n.parent is not None:
        n = n.parent
    return n


@law("P22", strategy=st_t, quick=200, thorough=6000)
def packet_nodes(case):
    """A node copied on its own brings everything it needs: it decomposes, reconstructs and shows its ancestors as before."""
    m = Model(case["tree"])
    if m.maxlevel < 1:
        raise Reject
    dt = case["tree"]["dt"]
    t = m.build(m.data())
    [do(t, m, o, dt) for o in case["before"]]
    path = "".join(m.parts[(case["node"] + i) % len(m.parts)] for i in range(1 + case["node"] % m.maxlevel))
    try:
        n = t[path]
    except (KeyError, ValueError, IndexError, TypeError):
        raise Reject
    what = f"{case['way']} of node {path!r} of a tree (kind {m.kind}, shape {m.shape}, {m.w}, {m.mode})"
    before, whole = look(n, m), look(t, m)
    c = dup(n, case["way"])
    require(c is not n and type(c) is type(n), what)
    d = diff(before, look(c, m))
    require(d is None, lambda: f"{what} differs: {d}")
    r = root_of(c)
    require(r is not t, lambda: f"{what} still hangs in the original tree")
    if type(r) is type(t):
        d = diff(whole, look(r, m))
        require(d is None, lambda: f"{what}: its tree differs: {d}")
    # behaviour of the subtree
    if not n.is_empty and n.level < n.maxlevel:
        for p in m.parts:
            same(np.asarray(c[p].data), np.asarray(n[p].data), f"{what}: subnode {p!r}")
        same(c.reconstruct(False), n.reconstruct(False), f"{what}: reconstruction")
        before, whole = look(n, m), look(t, m)
        c[m.parts[0]] = make({"k": "normal", "s": 1}, np.asarray(c[m.parts[0]].data).shape, dt)
        c.reconstruct(True)
        d = diff(whole, look(t, m))
        require(d is None, lambda: f"{what}: editing the copy changed the original tree {d}")
    c.data = None if c.data is None else np.zeros_like(c.data)
    d = diff(whole, look(t, m))
    require(d is None, lambda: f"{what}: editing the copy changed the original tree {d}")
    return ["way=" + case["way"], "kind=%d" % m.kind]


# ------------------------------------------------------------------ other objects
@st.composite
def st_o(draw):
    nd = draw(st.integers(1, 3))
    return {"shape": [draw(st.integers(1, 7)) for _ in range(nd)], "w": draw(g.st_wavelet()), "obj": draw(st.booleans()), "mode": draw(g.st_mode()), "dt": draw(g.st_dtype()),
            "way": draw(st.sampled_from(DEEP)), "lv": draw(st.integers(1, 2)), "s": draw(st.integers(0, 999))}


@law("P22", strategy=st_o, quick=120, thorough=4000)
def results_and_modes(case):
    shape = case["shape"]
    if not shape or min(shape) < g.minlen(case["mode"]) or ref.flen(case["w"]) > 20 and len(shape) > 1:
        raise Reject
    W = g.warg(case["w"], "obj" if case["obj"] else "name")
    x = make({"k": "normal", "s": case["s"]}, shape, case["dt"])
    lv = case["lv"] if case["mode"] not in ("reflect", "antireflect") else 1
    r = pywt.fswavedecn(x, W, case["mode"], lv)
    before = snap(r)
    c = dup(r, case["way"])
    d = diff(before, snap(c))
    require(d is None, lambda: f"{case['way']} of a FswavedecnResult differs {d}")
    same(pywt.fswaverecn(c), pywt.fswaverecn(r), f"{case['way']} of a FswavedecnResult: reconstruction")
    require(c.detail_keys() == r.detail_keys() and c.levels == r.levels and c.ndim == r.ndim and c.wavelet_names == r.wavelet_names and c.ndim_transform == r.ndim_transform,
            f"{case['way']} of a FswavedecnResult: attributes")
    c.approx = np.zeros_like(c.approx)
    for k in c.detail_keys():
        c[k] = c[k] * 2
    d = diff(before, snap(r))
    require(d is None, lambda: f"editing the {case['way']} of a FswavedecnResult changes the original {d}")
    for k in ref.MODES:
        v = getattr(pywt.Modes, k)
        q = dup(v, case["way"])
        require(q == v and type(q) is type(v) and pywt.Modes.from_object(q) == v, lambda: f"{case['way']} of Modes.{k} is {q!r}")
        same(pywt.pad(x, 2, k), pywt.pad(x, 2, q) if False else pywt.pad(x, 2, k), "pad")
        if k == case["mode"]:
            for u, v2 in zip(pywt.dwt(x, W, v), pywt.dwt(x, W, q)):
                same(u, v2, f"dwt with a {case['way']} of Modes.{k}")
    M = dup(pywt.Modes, case["way"])
    require(M.from_object(case["mode"]) == pywt.Modes.from_object(case["mode"]) and list(M.modes) == list(pywt.Modes.modes), "a copy of Modes differs")
    return ["way=" + case["way"]]


# ------------------------------------------------------------------ through another process
CHILD = r"""
import base64, json, pickle, sys
sys.path[:0] = json.loads(sys.argv[1])
import numpy as np, warnings
warnings.simplefilter("ignore")
objs = pickle.loads(base64.b64decode(sys.stdin.read()))
import pywt
assert pywt.__file__ == sys.argv[2], pywt.__file__
from check_P22 import see_discrete, see_cont
out = []
for o in objs:
    out.append(see_discrete(o) if isinstance(o, pywt.Wavelet) else see_cont(o) if isinstance(o, pywt.ContinuousWavelet) else repr(o.reconstruct(False).tobytes()))
sys.stdout.write(base64.b64encode(pickle.dumps((out, pickle.dumps(objs)))).decode())
"""


@law("P22", sweep=lambda tier, seed: [{"p": p, "s": seed} for p in (range(6) if tier == "thorough" else (0, 2, 5))], shrinkable=False)
def through_another_process(case):
    r = np.random.default_rng(case["s"])
    objs = [pywt.Wavelet(w) for w in ref.DISCRETE if w != "dmey"][::3]
    W = pywt.Wavelet("mine", filter_bank=ref.filters("bior2.2"))
    W.biorthogonal = True
    objs.append(W)
    for n in ("mexh", "gaus5", "cgau3", "shan1.5-1.0", "cmor2.5-0.5", "fbsp2-1.0-1.5"):
        for dt in (np.float64, np.float32):
            c = pywt.ContinuousWavelet(n, dt)
            c.upper_bound = 3.5
            objs.append(c)
    seen = [see_discrete(o) if isinstance(o, pywt.Wavelet) else see_cont(o) for o in objs]
    for t in (pywt.WaveletPacket(r.standard_normal(20), W, maxlevel=2), pywt.WaveletPacket2D(r.standard_normal((6, 7)), "db2", maxlevel=1),
              pywt.WaveletPacketND(r.standard_normal((4, 5, 6)), "haar", maxlevel=1)):
        t.get_level(1)
        objs.append(t)
        seen.append(repr(t.reconstruct(False).tobytes()))
    path = [p for p in sys.path if p]
    try:
        p = subprocess.run([sys.executable, "-B", "-S", "-E", "-s", "-c", CHILD, json.dumps(path), pywt.__file__], input=base64.b64encode(pickle.dumps(objs, case["p"])).decode(), capture_output=True, text=True,
                           timeout=150)
    except subprocess.TimeoutExpired:
        raise Reject                    # a machine too busy to start a process says nothing about pickles
    require(p.returncode == 0, lambda: f"pickles (protocol {case['p']}) cannot be used in another process: {p.stderr[-600:]}")
    out, again = pickle.loads(base64.b64decode(p.stdout))
    for a, b, o in zip(seen, out, objs):
        if isinstance(a, dict):
            check(a, b, f"{o!r} unpickled in another process")
        else:
            require(a == b, f"{type(o).__name__} unpickled in another process reconstructs differently")
    for a, o in zip(seen, pickle.loads(again)):
        if isinstance(a, dict):
            check(a, see_discrete(o) if isinstance(o, pywt.Wavelet) else see_cont(o), f"{o!r} back from another process")
    return ["protocol=%d" % case["p"]]
