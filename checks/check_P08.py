"""P08: wavelet packet trees under any history of edits agree with a map-of-paths model (model-based, stateful)."""
import numpy as np
import pywt
from hypothesis import strategies as st

import gens as g
import ref
from core import EPS, NP, Reject, Violation, close, law, make, require, same
from wp import Model, st_tree

RULE = ("case = tree configuration x history of operations (read, assign, delete, replace data, decompose, reconstruct with and without update, "
        "listings); the whole tree is compared with the model after every operation; non-trivial when at least one edit took effect")
ASSUMPTIONS = ["filters are the snapshot in data/filters.json (checked by P11)",
               "explicit decompose() renews the subnodes; a lookup creates only what is missing; an assigned node keeps its subnodes",
               "assignments below an absent parent are generated only where the transform's lengths fit exactly (the tree cannot know the size of "
               "the absent node otherwise)"]

OPS = ["get", "get", "set", "set", "set", "set_node", "del", "del", "data", "decompose", "rec", "rec_update", "rec_sub", "rec_sub_update",
       "leaves", "leaves_dec", "level", "level_dec", "freq", "freq", "walk", "peek", "set_root", "rebuild"]


class N:
    __slots__ = ("data", "kids", "shape", "level", "path")

    def __init__(self, data, level, path, shape=None):
        self.data, self.kids, self.level, self.path = data, {}, level, path
        self.shape = shape if shape is not None else None if data is None else data.shape


class Bad(Exception):
    """The model has no data for the request: the real tree must raise."""


class World:
    def __init__(self, case):
        self.m = m = Model(case)
        self.dt = case["dt"]
        self.root_none = bool(case.get("none"))
        self.kept = {}         # arrays given to or handed out by the tree, as they were then
        if m.maxlevel < 1:
            raise Reject
        if self.root_none:
            if not m.exact_lengths() or case["maxlevel"] is None:
                raise Reject
            self.wp = m.build(None)
            self.root = N(None, 0, "")
        else:
            x = self.keep(m.data())
            self.wp = m.build(x)
            self.root = N(ref.track(x), 0, "")
        self.exact = m.exact_lengths()
        self.edits = 0
        self.detached = []
        self.log = []
        self.tags = set()
        self.cplx = self.dt in ("c8", "c16")

    def what(self):
        c = self.m.case
        return f"tree(kind={self.m.kind},shape={c['shape']},axes={c['axes']},{c['w']},{self.m.mode},maxlevel={c['maxlevel']}) after {self.log[-12:]}"

    # ---------------- model operations
    def grow(self, n, renew=False):
        """create the subnodes that are missing (all of them when renewing)"""
        if n.data is None:
            raise Bad
        for p, t in self.m.split(n.data).items():
            if renew or p not in n.kids:
                n.kids[p] = N(t, n.level + 1, n.path + p)

    def sub(self, n, part, dec=True):
        if part not in n.kids and dec and n.data is not None:
            if n.level >= self.m.maxlevel:
                raise Bad
            self.grow(n)
        return n.kids.get(part)

    def find(self, path):
        n = self.root
        for s in self.m.steps(path):
            n = self.sub(n, s)
            if n is None:
                raise Bad
        return n

    def present(self, path):
        n = self.root
        for s in self.m.steps(path):
            n = n.kids.get(s)
            if n is None:
                return None
        return n

    def rec(self, n, update):
        if not n.kids:
            return n.data
        bands = {}
        for p in self.m.parts:
            if p in n.kids:
                t = self.rec(n.kids[p], update)
                if t is not None:
                    bands[p] = t
        if not bands:
            raise Bad
        r = self.m.join(bands, n.shape)
        if update:
            n.data = r
        return r

    def can_rec(self, n):
        """no inner node without any data below it, and all lengths fit"""
        if not n.kids:
            return True
        return all(self.can_rec(k) for k in n.kids.values()) and any(self.has_data(k) for k in n.kids.values())

    def has_data(self, n):
        return any(self.has_data(k) for k in n.kids.values()) if n.kids else n.data is not None

    def walk(self, f, n=None, dec=True):
        n = n or self.root
        if f(n) and n.level < self.m.maxlevel:
            for p in self.m.parts:
                k = self.sub(n, p, dec)
                if k is not None:
                    self.walk(f, k, dec)

    # ---------------- comparison
    def compare(self, real, n):
        require(real is not None, lambda: f"{self.what()}: node {n.path!r} is missing")
        require(real.path == n.path and real.level == n.level, lambda: f"{self.what()}: node {n.path!r} calls itself {real.path!r}")
        if n.data is None:
            require(real.data is None and real.is_empty, lambda: f"{self.what()}: node {n.path!r} should hold no data, has {real.data}")
        else:
            require(real.data is not None and not real.is_empty, lambda: f"{self.what()}: node {n.path!r} holds no data")
            close(self.keep(np.asarray(real.data)), n.data, self.dt, f"{self.what()}: data of {n.path!r}")
        require(real.has_any_subnode == bool(n.kids), lambda: f"{self.what()}: has_any_subnode of {n.path!r} is {real.has_any_subnode}")
        for p in self.m.parts:
            k = real.get_subnode(p, False)
            if p in n.kids:
                self.compare(k, n.kids[p])
            else:
                require(k is None, lambda: f"{self.what()}: node {n.path + p!r} exists, the model has none")

    def fresh(self, path, s):
        shape = self.m.level_shapes[len(self.m.steps(path))]
        return self.keep(make({"k": "normal" if s % 5 else "ints", "s": s}, shape, self.dt))

    def keep(self, a):
        if isinstance(a, np.ndarray) and id(a) not in self.kept:
            self.kept[id(a)] = (a, a.copy())
        return a


def listing(w, nodes, want, how):
    require([v.path for v in nodes] == [n.path for n in want],
            lambda: f"{w.what()}: {how} lists {[v.path for v in nodes]}, expected {[n.path for n in want]}")


def must_fail(w, f, how):
    try:
        f()
    except Exception as e:
        if isinstance(e, (MemoryError, RecursionError, SystemError)):
            raise Violation(f"{w.what()}: {how} raised {type(e).__name__}")
        return
    raise Violation(f"{w.what()}: {how} succeeded although the tree holds no data for it")


def step_delete(w, path):
    node = w.find(path)
    real = w.wp[path]
    del w.wp[path]
    if path:
        par = w.find(path[:-w.m.plen])
        del par.kids[path[-w.m.plen:]]
        w.edits += 1
        w.detached.append((real, node))
        w.tags.add("deleted")


def step(w, op, n, s):
    m, wp = w.m, w.wp
    mx = m.maxlevel
    l = n % (mx + 1)
    paths = m.paths(l)
    path = paths[(n // 7) % len(paths)]
    if op == "rebuild":
        # all children of a node go, some or all come back by a look-up, the node is reconstructed from them
        path = path[:len(path) - m.plen] if l == mx else path
        node = w.present(path)
        if node is None or node.data is None or not node.kids:
            return
        parts = sorted(node.kids)
        for p in parts:
            step_delete(w, path + p)
        for p in (m.parts if s % 3 else parts[:1]):
            w.compare(wp[path + p], w.find(path + p))
        if path and w.can_rec(node):
            checkrec(w, wp[path].reconstruct(), w.rec(node, False), f"reconstruct of {path!r} after its children were deleted and rebuilt")
        w.tags.add("rebuilt")
        return
    if op in ("get", "del", "data", "decompose", "rec_sub", "rec_sub_update", "peek"):
        if op == "peek":
            node = w.present(path)
            if node is None:
                return
            real = wp
            for q in m.steps(path):
                real = real.get_subnode(q, False)
            require(real is not None and real.path == path, lambda: f"{w.what()}: get_subnode(decompose=False) misses {path!r}")
            return
        try:
            node = w.find(path)
        except Bad:
            must_fail(w, lambda: wp[path], f"reading {path!r}")
            return
        if op == "get":
            real = wp[path] if s % 3 else wp[tuple(m.steps(path))]
            w.compare(real, node)
        elif op == "del":
            step_delete(w, path)
        elif op == "data":
            if not path and s % 2:
                return
            v = w.fresh(path, s)
            wp[path].data = v
            node.data = ref.track(v)
            w.edits += 1
            w.tags.add("data-replaced")
        elif op == "decompose":
            if node.data is None:
                return
            if l >= mx:
                must_fail(w, lambda: wp[path].decompose(), f"decomposing {path!r} at the maximum level")
                return
            r = list(wp[path].decompose())
            w.grow(node, True)
            require([v.path for v in r] == [path + p for p in m.parts], lambda: f"{w.what()}: decompose returns {[v.path for v in r]}")
            w.tags.add("re-decomposed")
        else:
            if not path:
                return
            up = op.endswith("update")
            if not w.can_rec(node):
                if not up:
                    must_fail(w, lambda: wp[path].reconstruct(), f"reconstructing {path!r}")
                return
            real = wp[path]
            y = real.reconstruct(update=True) if up else real.reconstruct(update=False) if s % 2 else real.reconstruct()
            t = w.rec(node, up)
            checkrec(w, y, t, f"reconstruct of {path!r}")
            if up and node.kids:
                w.edits += 1
                w.tags.add("sub-update")
    elif op in ("set", "set_node", "set_root"):
        if op == "set_root":
            path = ""
            l = 0
            if w.root_none:
                return
        if not path and op != "set_root":
            return
        par = w.present(path[:-m.plen]) if path else w.root
        if par is None and not w.exact:
            return
        v = w.fresh(path, s)
        if op == "set_node":
            cls = {1: pywt.WaveletPacket, 2: pywt.WaveletPacket2D, 3: pywt.WaveletPacketND}[m.kind]
            wp[path] = cls(v, m.W, "zero", maxlevel=0)
        elif s % 7 == 1 and w.dt in ("f8", "c16"):
            wp[path] = v.tolist()
        else:
            if s % 7 == 2 and w.dt == "f8":
                v = w.keep(np.round(v * 4).astype(np.int64))
            wp[path] = v
        node = w.root
        for q in m.steps(path):
            if q not in node.kids:
                node.kids[q] = N(None, node.level + 1, node.path + q)
                w.tags.add("created-by-assignment")
            node = node.kids[q]
        node.data = ref.track(v)
        node.shape = v.shape
        w.edits += 1
        w.tags.add("assigned")
    elif op in ("rec", "rec_update"):
        up = op == "rec_update"
        if not w.can_rec(w.root):
            if not up:
                must_fail(w, lambda: wp.reconstruct(update=False), "reconstruct")
            return
        if up:
            y = wp.reconstruct() if s % 2 else wp.reconstruct(update=True)
        else:
            y = wp.reconstruct(update=False)
        t = w.rec(w.root, up)
        checkrec(w, y, t, "reconstruct")
        if up and w.root.kids:
            w.edits += 1
            w.tags.add("update")
    elif op == "leaves":
        out = []

        def f(v):
            if (v.level == mx and v.data is not None) or not v.kids:
                out.append(v)
                return False
            return True
        w.walk(f, dec=False)
        listing(w, wp.get_leaf_nodes() if s % 2 else wp.get_leaf_nodes(False), out, "get_leaf_nodes()")
    elif op == "leaves_dec":
        out = []

        def f(v):
            if v.level == mx and v.data is not None:
                out.append(v)
                return False
            return True
        w.walk(f)
        listing(w, wp.get_leaf_nodes(decompose=True), out, "get_leaf_nodes(decompose=True)")
    elif op in ("level", "level_dec", "freq"):
        if op == "freq" and m.kind == 3:
            return
        dec = op != "level" and not (op == "freq" and s % 2)
        out = []

        def f(v):
            if v.level == l:
                out.append(v)
                return False
            return True
        w.walk(f, dec=dec)
        if op == "freq":
            r = wp.get_level(l, "freq", decompose=dec)
            want = m.freq_order([v.path for v in out])
            got = [v.path for v in r] if m.kind == 1 else [[v.path for v in row] for row in r]
            require(got == want, lambda: f"{w.what()}: get_level({l},freq,decompose={dec}) lists {got}, expected {want}")
        else:
            listing(w, wp.get_level(l, decompose=dec), out, f"get_level({l},decompose={dec})")
    elif op == "walk":
        dec = bool(s % 2)
        out, got = [], []
        w.walk(lambda v: (out.append(v), True)[1], dec=dec)
        wp.walk(lambda v: (got.append(v), True)[1], decompose=dec)
        listing(w, got, out, f"walk(decompose={dec})")
    else:
        raise Reject


def checkrec(w, y, t, how):
    if t is None:
        require(y is None, lambda: f"{w.what()}: {how} returned {y}")
        return
    require(y is not None, lambda: f"{w.what()}: {how} returned None")
    y = w.keep(np.asarray(y))
    require(y.dtype == NP[w.dt], lambda: f"{w.what()}: {how} has dtype {y.dtype}")
    close(y, t, w.dt, f"{w.what()}: {how}")


@st.composite
def st_hist(draw):
    c = draw(st_tree())
    k = draw(st.integers(0, 3))
    if k == 0:     # exact lengths: any assignment is possible, also to an empty root
        c["w"] = draw(st.sampled_from(["haar", "haar", "db2"]))
        c["mode"] = "periodization"
        lv = draw(st.integers(1, 3 if len(c["axes"]) == 1 else 2 if len(c["axes"]) == 2 else 1))
        c["maxlevel"] = lv
        for a in c["axes"]:
            c["shape"][a] = 2 ** lv * draw(st.sampled_from([1, 1, 3] if len(c["axes"]) == 1 else [1, 1, 2]))
        c["none"] = draw(st.booleans())
    c["ops"] = draw(st.lists(st.tuples(st.sampled_from(OPS), st.integers(0, 10 ** 4), st.integers(0, 10 ** 4)).map(list), min_size=2, max_size=14))
    return c


@law("P08", strategy=st_hist, quick=900, thorough=25000)
def tree_follows_the_model(case):
    if len(case["ops"]) > 40:
        raise Reject
    w = World(case)
    for op, n, s in case["ops"]:
        w.log.append([op, n, s])
        step(w, op, n, s)
        w.compare(w.wp, w.root)
    for real, n in w.detached:          # a removed node still exists outside the tree
        w.compare(real, n)
    if w.can_rec(w.root):
        w.log.append("final reconstruct")
        checkrec(w, w.wp.reconstruct(update=False), w.rec(w.root, False), "reconstruct")
        w.compare(w.wp, w.root)
    if not w.edits:
        return []
    return sorted(w.tags) + [f"kind={w.m.kind}", f"edits={min(w.edits, 5)}", "root-empty" if w.root_none else "root-data"]


# ------------------------------------------------------------------ all short histories of a tiny tree
def sweep_short(tier, seed):
    import itertools
    ops = [["get", 1, 0], ["get", 8, 0], ["get", 2, 0], ["get", 9, 0], ["set", 1, 5], ["set", 9, 6], ["del", 1, 0], ["del", 9, 0], ["data", 8, 3],
           ["decompose", 0, 0], ["rec_update", 0, 0], ["rec_sub_update", 1, 0], ["leaves_dec", 0, 0], ["level_dec", 2, 0]]
    n = 3 if tier == "quick" else 4
    i = 0
    for h in itertools.product(range(len(ops)), repeat=n):
        i += 1
        kind = 1 + i % 3
        yield {"kind": kind, "shape": [5] if kind == 1 else [4, 5], "axes": [0] if kind == 1 else [0, 1] if i % 2 else [1, 0],
               "w": "haar" if i % 4 else "db2", "mode": ref.MODES[i % 9], "maxlevel": 2 if kind == 1 else 1 + (i // 3) % 2, "dt": "f8",
               "data": {"k": "normal", "s": 1}, "ops": [ops[k] for k in h]}


@law("P08", sweep=sweep_short)
def all_short_histories(case):
    return tree_follows_the_model(case)
