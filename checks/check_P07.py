"""P07: every wavelet packet node is the band sequence its path names, however it is reached; level orders; reconstruction."""
import numpy as np
import pywt
from hypothesis import strategies as st

import fast
import gens as g
import ref
from core import EPS, NP, Reject, Violation, close, law, layout, make, require, same
from wp import Model, st_tree

RULE = ("case = tree kind x shape x axes x wavelet x mode (or default) x maxlevel (or default) x dtype x sequence of accesses; non-trivial when "
        "a node below the root was reached")
ASSUMPTIONS = ["filters are the snapshot in data/filters.json (checked by P11)"]

OPS = ["path", "tuple", "chain", "mixed", "attr", "subnode", "subnode_no", "decompose", "level", "level_no", "freq", "freq_no", "leaves",
       "leaves_no", "walk", "walk_no", "walk_depth", "walk_depth_no", "walk_cut", "rec", "rec_update"]


@st.composite
def st_access(draw):
    c = draw(st_tree())
    c["ops"] = draw(st.lists(st.tuples(st.sampled_from(OPS), st.integers(0, 10 ** 6)).map(list), min_size=1, max_size=8))
    c["list"] = draw(st.integers(0, 12)) == 0
    c["obj"] = draw(st.booleans())
    return c


class World:
    """An unedited tree: which paths exist, and the reference value of each path."""

    def __init__(self, case):
        self.m = Model(case)
        self.dt = case["dt"]
        x = self.m.data()
        self.x = x
        arg = x
        if case.get("list") and self.dt in ("f8", "c16") and self.m.kind != 3:
            arg = x.tolist()
        self.wp = self.m.build(arg, case.get("obj", True))
        self.vals = {"": ref.track(x)}
        self.have = {""}          # paths present in the tree
        self.seen = {}            # path -> node object
        self.what = (f"tree(kind={self.m.kind},shape={case['shape']},axes={case['axes']},{case['w']},{self.m.mode},"
                     f"maxlevel={case['maxlevel']})")

    def val(self, path):
        if path not in self.vals:
            parent = path[:-self.m.plen]
            for p, t in self.m.split(self.val(parent)).items():
                self.vals[parent + p] = t
        return self.vals[path]

    def grow(self, parent):
        for p in self.m.parts:
            self.have.add(parent + p)

    def grow_to(self, path):
        q = ""
        for s in self.m.steps(path):
            if q + s not in self.have:
                self.grow(q)
            q += s

    def grow_all(self, level):
        for l in range(level):
            for p in self.m.paths(l):
                if p in self.have:
                    self.grow(p)

    def check(self, node, path, how):
        m = self.m
        require(node is not None, lambda: f"{self.what}: {how} gives no node for path {path!r}")
        require(node.path == path, lambda: f"{self.what}: {how} of {path!r} returned the node {node.path!r}")
        st = m.steps(path)
        require(node.level == len(st), lambda: f"{self.what}: node {path!r} has level {node.level}")
        require(node.maxlevel == m.maxlevel, lambda: f"{self.what}: node {path!r} has maxlevel {node.maxlevel}, expected {m.maxlevel}")
        require(tuple(node.path_tuple) == tuple(st), lambda: f"{self.what}: path_tuple of {path!r} is {node.path_tuple}")
        require(node.node_name == (st[-1] if st else ""), lambda: f"{self.what}: node_name of {path!r} is {node.node_name!r}")
        require(not node.is_empty, lambda: f"{self.what}: node {path!r} is empty")
        if path:
            require(node.parent is not None and node.parent.path == path[:-m.plen], f"{self.what}: parent of {path!r}")
            d = node.data
            require(d.dtype == NP[self.dt], lambda: f"{self.what}: node {path!r} has dtype {d.dtype}")
            close(d, self.val(path), self.dt, f"{self.what}: node {path!r} by {how}")
        else:
            require(node is self.wp, f"{self.what}: root by {how}")
            same(np.asarray(node.data), self.x, f"{self.what}: root data")
        old = self.seen.setdefault(path, node)
        require(old is node, lambda: f"{self.what}: {how} replaced the existing node {path!r}")
        require(node.has_any_subnode == any(path + p in self.have for p in m.parts), lambda: f"{self.what}: has_any_subnode of {path!r}")

    def pick(self, n, lo=0):
        """path number n among levels lo..maxlevel"""
        m = self.m
        l = lo + n % (m.maxlevel - lo + 1)
        ps = m.paths(l)
        return ps[(n // 7) % len(ps)]

    # present paths in preorder / postorder
    def order(self, post=False, root=""):
        out = []

        def rec(p):
            if not post:
                out.append(p)
            for q in self.m.parts:
                if p + q in self.have:
                    rec(p + q)
            if post:
                out.append(p)
        rec(root)
        return out


def nodes_equal(w, nodes, paths, how):
    got = [n.path for n in nodes]
    require(got == list(paths), lambda: f"{w.what}: {how} lists {got[:40]}, expected {list(paths)[:40]}")
    for n, p in zip(nodes, paths):
        w.check(n, p, how)


def run_op(w, op, n):
    m, wp = w.m, w.wp
    mx = m.maxlevel
    if op in ("path", "tuple", "chain", "mixed"):
        p = w.pick(n)
        st_ = m.steps(p)
        w.grow_to(p)
        if op == "path":
            node = wp[p]
        elif op == "tuple":
            node = wp[tuple(st_)]
        elif op == "chain":
            node = wp
            for s in st_:
                node = node[s]
        else:
            k = n % (len(st_) + 1)
            node = wp["".join(st_[:k])]["".join(st_[k:])]
        w.check(node, p, f"item access ({op})")
    elif op == "attr":
        if m.kind == 3:
            return
        p = w.pick(n)
        node = wp
        q = ""
        for s in m.steps(p):
            nxt = getattr(node, s)
            q += s
            if q in w.have:
                w.check(nxt, q, "attribute")
                node = nxt
            else:
                require(nxt is None, f"{w.what}: attribute of the missing node {q!r} is {nxt}")
                break
    elif op == "subnode":
        if mx < 1:
            return
        p = w.pick(n, 1)
        par = p[:-m.plen]
        if par not in w.have:
            w.grow_to(par)
        if p not in w.have:
            w.grow(par)
        w.check(wp[par].get_subnode(p[-m.plen:]), p, "get_subnode")
    elif op == "subnode_no":
        if mx < 1:
            return
        p = w.pick(n, 1)
        par = p[:-m.plen]
        w.grow_to(par)
        node = wp[par].get_subnode(p[-m.plen:], decompose=False)
        if p in w.have:
            w.check(node, p, "get_subnode(decompose=False)")
        else:
            require(node is None, f"{w.what}: get_subnode(decompose=False) created {p!r}")
    elif op == "decompose":
        if mx < 1:
            return
        p = w.pick(n)
        if len(m.steps(p)) >= mx:
            p = p[:-m.plen]
        w.grow_to(p)
        for q in [q for q in list(w.have) if q.startswith(p) and q != p]:    # decompose() renews the subnodes
            w.have.discard(q)
        for q in [q for q in list(w.seen) if q.startswith(p) and q != p]:
            del w.seen[q]
        for q in [q for q in list(w.vals) if q.startswith(p) and q != p]:
            del w.vals[q]
        r = list(wp[p].decompose())
        w.grow(p)
        nodes_equal(w, r, [p + s for s in m.parts], f"decompose of {p!r}")
    elif op in ("level", "level_no", "freq", "freq_no"):
        l = n % (mx + 1)
        dec = not op.endswith("_no")
        if m.kind == 3 and op.startswith("freq"):
            return
        if dec:
            w.grow_all(l)
        paths = [p for p in m.paths(l) if p in w.have]
        if op.startswith("level"):
            nodes = wp.get_level(l, decompose=dec)
            nodes_equal(w, nodes, paths, f"get_level({l},decompose={dec})")
            if m.kind != 3:
                nodes_equal(w, wp.get_level(l, "natural", dec), paths, f"get_level({l},natural)")
        else:
            nodes = wp.get_level(l, "freq", decompose=dec)
            exp = m.freq_order(paths)
            if m.kind == 1:
                nodes_equal(w, nodes, exp, f"get_level({l},freq)")
            else:
                require(len(nodes) == len(exp), lambda: f"{w.what}: get_level({l},freq) has {len(nodes)} rows, expected {len(exp)}")
                for r, e in zip(nodes, exp):
                    nodes_equal(w, r, e, f"get_level({l},freq)")
    elif op == "leaves":
        w.grow_all(mx)
        nodes_equal(w, wp.get_leaf_nodes(decompose=True), m.paths(mx), "get_leaf_nodes(decompose=True)")
    elif op == "leaves_no":
        paths = [p for p in w.order() if not any(p + q in w.have for q in m.parts)]
        nodes_equal(w, wp.get_leaf_nodes(), paths, "get_leaf_nodes()")
    elif op in ("walk", "walk_no", "walk_depth", "walk_depth_no", "walk_cut"):
        dec = not op.endswith("_no")
        out, extra = [], []

        def visit(node, *a, **k):
            out.append(node)
            extra.append((a, k))
            return True

        def cut(node, lim):
            out.append(node)
            return node.level < lim
        if op == "walk_cut":
            lim = n % (mx + 1)
            wp.walk(cut, (lim,), decompose=True)
            w.grow_all(lim)
            nodes_equal(w, out, [p for p in w.order() if len(m.steps(p)) <= lim], "walk stopping at a level")
            return
        if dec:
            w.grow_all(mx)
        f = wp.walk_depth if "depth" in op else wp.walk
        f(visit, (n,), {"z": 1}, decompose=dec)
        nodes_equal(w, out, w.order(post="depth" in op), op)
        require(all(e == ((n,), {"z": 1}) for e in extra), f"{w.what}: {op} passes other arguments")
    elif op in ("rec", "rec_update"):
        up = op == "rec_update"
        y = wp.reconstruct(update=up)
        t = rebuilt(w, "")
        back(w, y, t, "reconstruct")
        if up:
            # the data of the inner nodes is now the reconstruction: equal to the original up to rounding; go on from it
            w.x = np.array(np.asarray(wp.data))
            require(np.asarray(wp.data) is y or np.array_equal(wp.data, y), f"{w.what}: reconstruct(update=True) did not store its result")
            for p in w.order():
                if any(p + q in w.have for q in m.parts):
                    r = rebuilt(w, p)
                    w.vals[p] = r
            # values of nodes not yet created follow from their (replaced) parents
            for p in list(w.vals):
                if p not in w.have:
                    del w.vals[p]
    else:
        raise Reject


def rebuilt(w, p):
    """Reference reconstruction from the present descendants."""
    kids = {q: p + q for q in w.m.parts if p + q in w.have}
    if not kids:
        return w.val(p)
    shape = w.m.level_shapes[len(w.m.steps(p))]
    return w.m.join({q: rebuilt(w, r) for q, r in kids.items()}, shape)


def back(w, y, t, how):
    y = np.asarray(y)
    require(y.shape == w.m.shape, lambda: f"{w.what}: {how} has shape {y.shape}, data {w.m.shape}")
    require(y.dtype == NP[w.dt], lambda: f"{w.what}: {how} has dtype {y.dtype}")
    close(y, t, w.dt, f"{w.what}: {how}")
    if w.m.w != "dmey":
        bad = ~(np.abs(y - w.x) <= (t.e + 4 * t.m) * EPS[w.dt] + 1e-9 * t.m + 1e-37)
        if bad.any():
            i = tuple(int(k) for k in np.argwhere(bad)[0])
            raise Violation(f"{w.what}: {how} of an unmodified tree has {y[i]!r} at {list(i)}, the data {w.x[i]!r}")


@law("P07", strategy=st_access, quick=1000, thorough=20000)
def any_access_order(case):
    w = World(case)
    if len(case["ops"]) > 12:
        raise Reject
    for op, n in case["ops"]:
        run_op(w, op, n)
    # and finally the whole tree
    for l in range(w.m.maxlevel + 1):
        w.grow_all(l)
        nodes_equal(w, w.wp.get_level(l), w.m.paths(l), f"final get_level({l})")
    back(w, w.wp.reconstruct(update=False), rebuilt(w, ""), "final reconstruct")
    if w.m.maxlevel < 1:
        return []
    t = [f"kind={w.m.kind}", f"{len(w.m.shape)}-D", f"maxlevel={w.m.maxlevel}", "dt=" + w.dt]
    if any(w.m.shape[a] % 2 for a in w.m.axes):
        t.append("odd-size")
    if case["mode"] is None:
        t.append("default-mode")
    return t


# ------------------------------------------------------------------ listings of partially grown trees
def sweep_partial(tier, seed):
    for kind, depth in ((1, 4), (2, 3), (3, 2)):
        n = 2 if kind == 1 else 4
        for l in range(1, depth + 1):
            for i in range(n ** l):
                yield {"kind": kind, "depth": depth, "paths": [[l, i]], "dels": [], "mode": "periodization"}


@st.composite
def st_partial(draw):
    kind = draw(st.sampled_from([1, 1, 2, 2, 2, 3]))
    depth = {1: 5, 2: 3, 3: 3}[kind]
    one = st.tuples(st.integers(1, depth), st.integers(0, 10 ** 4)).map(list)
    return {"kind": kind, "depth": depth, "paths": draw(st.lists(one, min_size=1, max_size=4)), "dels": draw(st.lists(one, max_size=4)),
            "mode": draw(g.st_mode())}


@law("P07", sweep=sweep_partial, strategy=st_partial, quick=300, thorough=10000)
def listings_of_partial_trees(case):
    """Without decomposition, listings name exactly the nodes there are, in order, on every level."""
    kind, depth = case["kind"], case["depth"]
    if kind not in (1, 2, 3) or not 1 <= depth <= 5 or not case["paths"]:
        raise Reject
    shape = [64] if kind == 1 else [16, 12]
    x = make({"k": "normal", "s": 5}, shape, "f8")
    cls = {1: pywt.WaveletPacket, 2: pywt.WaveletPacket2D, 3: pywt.WaveletPacketND}[kind]
    wp = cls(x, "haar", case["mode"], maxlevel=depth)
    m = Model({"kind": kind, "shape": shape, "axes": [0] if kind == 1 else [0, 1], "w": "haar", "mode": case["mode"], "maxlevel": 0, "dt": "f8", "data": {"k": "normal", "s": 5}})
    have = {""}
    name = lambda l, i: "".join(m.parts[i // len(m.parts) ** j % len(m.parts)] for j in range(l))
    for l, i in case["paths"]:
        p = name(min(l, depth), i)
        wp[p]
        for k in range(0, len(p), m.plen):
            have |= {p[:k] + q for q in m.parts}
    for l, i in case["dels"]:
        p = name(min(l, depth), i)
        if p in have:
            del wp[p]
            have = {q for q in have if not q.startswith(p)}
    what = f"tree kind {kind}, looked up {[name(min(l, depth), i) for l, i in case['paths']]}, deleted {[name(min(l, depth), i) for l, i in case['dels']]}"
    rank = {q: i for i, q in enumerate(m.parts)}
    n = 0
    for l in range(depth + 1):
        want = sorted((p for p in have if len(m.steps(p)) == l), key=lambda p: [rank[q] for q in m.steps(p)])
        got = [v.path for v in wp.get_level(l, decompose=False)]
        require(got == want, lambda: f"{what}: get_level({l},decompose=False) lists {got}, there are {want}")
        n += l > 0 and 0 < len(want) < len(m.parts) ** l
        if kind != 3:
            v = wp.get_level(l, "freq", decompose=False)
            got = [u.path for u in v] if kind == 1 else [[u.path for u in r] for r in v]
            exp = m.freq_order(want)
            require(got == exp, lambda: f"{what}: get_level({l},freq,decompose=False) lists {got}, expected {exp}")
    leaves = sorted((p for p in have if not any(p + q in have for q in m.parts)), key=lambda p: [rank[q] for q in m.steps(p)])
    got = [v.path for v in wp.get_leaf_nodes()]
    require(got == leaves, lambda: f"{what}: get_leaf_nodes() lists {got}, expected {leaves}")
    return [f"kind={kind}", f"partial-levels={n}"] if n else []


# ------------------------------------------------------------------ deep trees
def sweep_deep(tier, seed):
    for kind, mx in ((1, 7), (2, 4), (3, 3)):
        for l in range(mx + 1):
            yield {"kind": kind, "level": l, "mode": ref.MODES[(l + seed) % len(ref.MODES)], "w": "haar"}
            yield {"kind": kind, "level": l, "mode": "periodization", "w": "db2"}


@law("P07", sweep=sweep_deep)
def deep_level_orders(case):
    """Natural and frequency order of deep levels; each node against a direct filter chain; paths unique and complete."""
    kind, l = case["kind"], case["level"]
    if not 0 <= l <= (7 if kind == 1 else 4):
        raise Reject
    shape = [131] if kind == 1 else [19, 17]
    c = {"kind": kind, "shape": shape, "axes": [0] if kind == 1 else [0, 1], "w": case["w"], "mode": case["mode"], "maxlevel": None,
         "dt": "f8", "data": {"k": "normal", "s": l}}
    m = Model(dict(c, maxlevel=0))
    m.maxlevel = max(l, 1)
    x = m.data()
    n = list(m.shape)
    for _ in range(l):
        if min(n) < 2:
            raise Reject
        n = [ref.coeff_len(s, m.F, m.mode) for s in n]
    m.case = dict(c, maxlevel=m.maxlevel)
    wp = m.build(x)
    nodes = wp.get_level(l)
    paths = m.paths(l)
    require([v.path for v in nodes] == paths, lambda: f"get_level({l}) natural order: {[v.path for v in nodes][:8]}...")
    if kind != 3:
        got = wp.get_level(l, "freq")
        exp = m.freq_order(paths)
        f = (lambda v: [u.path for u in v]) if kind == 1 else (lambda v: [[u.path for u in r] for r in v])
        require(f(got) == exp, lambda: f"get_level({l},freq): {f(got)}, expected {exp}")
    cur = {"": ref.track(x)}
    for _ in range(l):
        cur = {p + q: t for p, v in cur.items() for q, t in m.split(v).items()}
    for v in nodes:
        close(v.data, cur[v.path], "f8", f"node {v.path!r} of {case}")
    y = wp.reconstruct(update=False)
    require(y.shape == x.shape and np.allclose(y, x, atol=1e-9), f"reconstruct after get_level({l}), {case}")
    return [f"kind={kind}", f"level={l}"]


def sweep_freq(tier, seed):
    yield {"n": 512, "level": 3}
    yield {"n": 1024, "level": 4}
    yield {"n": 1024, "level": 5}


@law("P07", sweep=sweep_freq, shrinkable=False)
def frequency_order_tracks_frequency(case):
    """A sinusoid in the middle of the k-th of 2^level equal bands puts most of its energy in the k-th node of the frequency order."""
    n, l = case["n"], case["level"]
    t = np.arange(n)
    for k in range(2 ** l):
        x = np.cos(np.pi * (k + 0.5) / 2 ** l * t + 0.3)
        wp = pywt.WaveletPacket(x, "db38" if n > 800 else "db20", "periodization", maxlevel=l)
        e = [float(np.sum(v.data ** 2)) for v in wp.get_level(l, "freq")]
        require(int(np.argmax(e)) == k, lambda: f"sinusoid in band {k} of {2 ** l}: most energy in node {int(np.argmax(e))} of the frequency order")
    return ["level=%d" % l]


# ------------------------------------------------------------------ maximum level of trees without data
@st.composite
def st_bare(draw):
    c = draw(st_tree())
    c["maxlevel"] = draw(st.sampled_from([None, None, None, 3]))
    for a in c["axes"]:
        c["shape"][a] = draw(st.integers(3, 40 if len(c["axes"]) == 1 else 14))
    c["at"] = draw(st.lists(st.integers(0, 7), min_size=1, max_size=2))
    c["below"] = draw(st.integers(0, 10 ** 6))
    c["read"] = draw(st.sampled_from(["root", "node", "inner"]))
    return c


@law("P07", strategy=st_bare, quick=500, thorough=15000)
def maximum_level_without_data(case):
    """A tree without data takes the maximum level from its node: as deep as that node's transformed axes permit."""
    m = Model(dict(case, maxlevel=0))
    at = [m.parts[i % len(m.parts)] for i in case["at"]]
    if not 1 <= len(at) <= 2:
        raise Reject
    path, l = "".join(at), len(at)
    y = make(case["data"], m.shape, case["dt"])      # the node's data
    m.case = dict(case)
    t = m.build(None)
    require(case["maxlevel"] is not None or t.maxlevel is None, lambda: f"empty tree: maximum level {t.maxlevel}")
    mx = case["maxlevel"]
    if mx is None:
        mx = l + min(ref.max_level(m.shape[a], m.F) for a in m.axes)
    elif mx < l:
        raise Reject
    what = f"tree kind {m.kind} without data, axes {case['axes']}, {m.w}, maxlevel {case['maxlevel']}, node {path!r} of shape {m.shape}"
    t[path] = y
    who = {"root": "", "node": path, "inner": path[:m.plen]}
    for r in [case["read"]] + sorted(who):
        v = t[who[r]] if who[r] else t
        require(v.maxlevel == mx, lambda: f"{what}: maximum level of {r} is {v.maxlevel}, expected {mx}")
    p, tr = path, ref.track(y)
    for n in range(mx - l):
        if any(tr.v.shape[a] < g.minlen(m.mode) for a in m.axes):
            return ["short"]
        q = m.parts[(case["below"] >> n) % len(m.parts)]
        p, tr = p + q, m.split(tr)[q]
        close(t[p].data, tr, case["dt"], f"{what}: node {p!r}")
    try:
        t[p + m.parts[0]]
    except IndexError:
        pass
    else:
        raise Violation(f"{what}: a node below the maximum level {mx} is answered")
    return [f"kind={m.kind}", f"batch={len(m.shape) > m.k}", f"level={l}", f"deeper={min(mx - l, 3)}"]


# ------------------------------------------------------------------ large and deep trees
@st.composite
def st_deep(draw):
    return {"n": draw(st.one_of(st.integers(40, 2500), st.sampled_from([256, 512, 1024, 1023, 1025]))), "w": draw(g.st_wavelet()), "mode": draw(g.st_mode()), "depth": draw(st.integers(4, 10)),
            "paths": [draw(st.text("ad", min_size=3, max_size=10)) for _ in range(4)], "s": draw(st.integers(0, 10 ** 6)), "dt": draw(g.st_dtype())}


@law("P07", strategy=lambda: st_deep(), quick=40, thorough=800)
def deep_trees(case):
    n, w, mode, L, dt = (case[k] for k in ("n", "w", "mode", "depth", "dt"))
    if n < 1 or n > 5000 or not 1 <= L <= 10 or any(set(p) - set("ad") or not p for p in case["paths"]):
        raise Reject
    F = ref.flen(w)
    if mode in ("smooth", "antireflect"):
        L = min(L, max(1, ref.max_level(n, F)))
    k = n
    for _ in range(L):
        if k < g.minlen(mode):
            raise Reject
        k = ref.coeff_len(k, F, mode)
    x = fast.noise([n], dt, case["s"])
    t = pywt.WaveletPacket(x, g.wav(w), mode, L)
    memo = {"": np.asarray(x)}

    def model(p):
        if p not in memo:
            memo[p[:-1] + "a"], memo[p[:-1] + "d"] = fast.dwt(model(p[:-1]), w, mode, 0)
        return memo[p]
    for p in case["paths"]:
        p = p[:L]
        for j in range(1, len(p) + 1):
            model(p[:j])
        size = max(fast.top(memo[p[:j]], memo[p[:j - 1]]) for j in range(1, len(p) + 1))
        fast.close(t[p].data, memo[p], dt, max(size, fast.top(x)), f"node {p!r} of WaveletPacket(N={n}, {w}, {mode}, {L} levels, {dt})", require, 10)
        require(t[p].level == len(p) and t[p].path == p, f"node {p!r}: level {t[p].level}, path {t[p].path!r}")
    j = min(L, 7)
    names = [v.path for v in t.get_level(j)]
    require(names == [format(i, "0%db" % j).replace("0", "a").replace("1", "d") for i in range(2 ** j)], f"get_level({j}) is not in natural order")
    names = [v.path for v in t.get_level(j, "freq")]
    gray = [i ^ (i >> 1) for i in range(2 ** j)]
    require(names == [format(i, "0%db" % j).replace("0", "a").replace("1", "d") for i in gray], f"get_level({j}, 'freq') is not in the order of frequency")
    if j == L and w != "dmey" and (isinstance(w, str) or w[0] != "custom"):
        y = t.reconstruct(False)
        fast.close(y, x, dt, max(fast.top(v.data) for v in t.get_level(j)) + fast.top(x), f"reconstruct of WaveletPacket(N={n}, {w}, {mode}, {L} levels, {dt})", require, 1000)
    return ["mode=" + mode, "depth=%d" % L]
