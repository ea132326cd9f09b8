"""P18: calls are pure, repeatable and thread-safe."""
import copy
import pickle
import sys
import threading

import numpy as np
import pywt
from hypothesis import strategies as st

import check_P08
import gens as g
import ops
import ref
from core import NP, Reject, Violation, law, make, require, st_data, st_normal

RULE = ("case = list of generated calls (any transform or helper, valid or failing) over shared or fresh inputs, run repeatedly, in generated order, or in "
        "generated assignments to threads; non-trivial when at least one array is involved")
ASSUMPTIONS = ["thread schedules are sampled by the operating system and by a 1 microsecond interpreter switch interval, not enumerated",
               "packet trees are not shared between threads (they are mutable objects)"]


# ------------------------------------------------------------------ snapshots
def snap(x):
    """a deep description of a value, by which a modification shows"""
    if isinstance(x, np.ndarray):
        return ("array", x.dtype.str, x.shape, x.strides, x.flags.writeable, x.tobytes())
    if isinstance(x, dict):
        return ("dict", [(k, snap(v)) for k, v in x.items()])
    if isinstance(x, (list, tuple)):
        return (type(x).__name__, [snap(v) for v in x])
    if isinstance(x, pywt.Wavelet):
        return ("wavelet", x.name, x.family_name, x.short_family_name, x.orthogonal, x.biorthogonal, str(x.symmetry), x.vanishing_moments_phi,
                x.vanishing_moments_psi, [list(f) for f in x.filter_bank])
    if isinstance(x, pywt.ContinuousWavelet):
        return ("cwavelet", x.name, x.lower_bound, x.upper_bound, x.center_frequency, x.bandwidth_frequency, x.fbsp_order, x.complex_cwt, str(x.dtype if hasattr(x, "dtype") else ""))
    if isinstance(x, pywt.FswavedecnResult):
        return ("fsw", snap(x.coeffs), repr(x.coeff_slices), [snap(w) for w in x.wavelets], list(x.modes), tuple(x.axes))
    if isinstance(x, slice):
        return ("slice", x.start, x.stop, x.step)
    if isinstance(x, (int, float, complex, str, bytes, type(None), np.generic, np.dtype)):
        return (type(x).__name__, repr(x))
    if hasattr(x, "walk") and hasattr(x, "get_leaf_nodes"):
        out = []
        x.walk(lambda n: out.append((n.path, snap(n.data))) or True)
        return ("tree", out)
    return ("object", type(x).__name__)


def diff(a, b, pre=""):
    if a == b:
        return None
    if isinstance(a, (list, tuple)) and isinstance(b, (list, tuple)) and len(a) == len(b):
        for i, (p, q) in enumerate(zip(a, b)):
            d = diff(p, q, f"{pre}.{i}")
            if d:
                return d
    return f"{pre}: {str(a)[:80]} became {str(b)[:80]}"


def spoil(r, avoid):
    """overwrites every writeable array and list of a result that does not belong to the arguments"""
    if isinstance(r, np.ndarray):
        if r.flags.writeable and r.size and not any(np.shares_memory(r, a) for a in avoid):
            r[...] = np.asarray(77).astype(r.dtype) if r.dtype.kind in "fciub" else r
    elif isinstance(r, dict):
        for v in r.values():
            spoil(v, avoid)
        r.clear()
    elif isinstance(r, list):
        for v in r:
            spoil(v, avoid)
        del r[:]
    elif isinstance(r, tuple):
        for v in r:
            spoil(v, avoid)
    elif isinstance(r, pywt.FswavedecnResult):
        spoil(r.coeffs, avoid)


def arrays_in(x):
    if isinstance(x, np.ndarray):
        return [x]
    if isinstance(x, dict):
        return [a for v in x.values() for a in arrays_in(v)]
    if isinstance(x, (list, tuple)):
        return [a for v in x for a in arrays_in(v)]
    if isinstance(x, pywt.FswavedecnResult):
        return [x.coeffs]
    return []


# ------------------------------------------------------------------ calls
WN = ["haar", "db2", "db5", "sym4", "coif1", "bior2.2", "rbio1.3", "dmey"]
CN = ["mexh", "morl", "gaus3", "cgau4", "shan1.5-1.0", "fbsp2-1.5-1.0", "cmor1.5-1.0"]


def _coeffs(w, s):
    return pywt.wavedec2(np.random.default_rng([5, s]).standard_normal((11 + s % 3, 14)), w, level=2)


def misc(name, s):
    """(arguments, function of the arguments)"""
    w, c = WN[s % len(WN)], CN[s % len(CN)]
    r = np.random.default_rng([6, s])
    x = r.standard_normal((4, 6))
    W = pywt.Wavelet(w)
    m = ref.MODES[s % 9]
    table = {
        "threshold": lambda: ([x, 0.5], lambda x, v: pywt.threshold(x, v, ["soft", "hard", "garrote", "greater", "less"][s % 5], s % 3)),
        "firm": lambda: ([x], lambda x: pywt.threshold_firm(x, 0.3, 1.1)),
        "pad": lambda: ([x, [[1, 2], [3, 0]]], lambda x, p: pywt.pad(x, p, m)),
        "coeffs_to_array": lambda: ([_coeffs(w, s)], lambda c: pywt.coeffs_to_array(c)),
        "array_to_coeffs": lambda: (list(pywt.coeffs_to_array(_coeffs(w, s))), lambda a, sl: pywt.array_to_coeffs(a, sl, "wavedec2")),
        "ravel": lambda: ([_coeffs(w, s)], lambda c: pywt.ravel_coeffs(c)),
        "unravel": lambda: (list(pywt.ravel_coeffs(_coeffs(w, s))), lambda a, sl, sh: pywt.unravel_coeffs(a, sl, sh, "wavedec2")),
        "wavefun": lambda: ([W], lambda W: W.wavefun(3 + s % 3)),
        "cwavefun": lambda: ([pywt.ContinuousWavelet(c)], lambda W: W.wavefun(5 + s % 3)),
        "cwavefun_len": lambda: ([pywt.ContinuousWavelet(c)], lambda W: W.wavefun(length=20 + s % 30)),
        "cwt_obj": lambda: ([x, np.array([1.0, 2, 3 + s % 3]), pywt.ContinuousWavelet(c)], lambda x, sc, W: pywt.cwt(x, sc, W, axis=s % 2)),
        "cwt_list": lambda: ([x[0], [4, 1, 2]], lambda x, sc: pywt.cwt(x, sc, c, sampling_period=0.5)),
        "integrate": lambda: ([W], lambda W: pywt.integrate_wavelet(W, 4)),
        "cintegrate": lambda: ([pywt.ContinuousWavelet(c)], lambda W: pywt.integrate_wavelet(W, 6)),
        "central": lambda: ([W], lambda W: pywt.central_frequency(W, 6)),
        "scale2freq": lambda: ([[1, 2.5, 4]], lambda f: pywt.scale2frequency(c, f)),
        "freq2scale": lambda: ([0.25], lambda f: pywt.frequency2scale(c, f)),
        "qmf": lambda: ([list(W.dec_lo)], lambda f: pywt.qmf(f)),
        "ofb": lambda: ([list(W.rec_lo)], lambda f: pywt.orthogonal_filter_bank(f)),
        "filters": lambda: ([W], lambda W: [W.dec_lo, W.dec_hi, W.rec_lo, W.rec_hi, W.filter_bank, W.inverse_filter_bank]),
        "wavelist": lambda: ([], lambda: [pywt.wavelist(), pywt.wavelist("db"), pywt.families(), pywt.wavelist(kind="continuous")]),
        "modes": lambda: ([], lambda: [[pywt.Modes.from_object(k) for k in list(pywt.Modes.modes)]]),
        "levels": lambda: ([(33, 47), [W, "db2"]], lambda sh, w: [pywt.dwtn_max_level(sh, w), pywt.wavedecn_shapes(sh, w, list(ref.MODES[s % 7:s % 7 + 2])), pywt.dwt_max_level(100, W)]),
        "custom": lambda: ([[list(f) for f in W.filter_bank], x[0]], lambda fb, x: pywt.dwt(x, pywt.Wavelet("mine", filter_bank=fb), m)),
        "fsw": lambda: ([x, [W, "haar"], ["zero", "symmetric"], [1, 2]], lambda x, w, md, lv: pywt.fswavedecn(x, w, md, lv)),
        "fsw_back": lambda: ([pywt.fswavedecn(x, W)], lambda f: pywt.fswaverecn(f)),
        "fsw_read": lambda: ([pywt.fswavedecn(x, W)], lambda f: [f.approx.copy(), f[1, 0].copy() if f.levels[0] else 0, f.detail_keys(), f.levels]),
        "wp_tree": lambda: ([x[0], W], lambda x, W: pywt.WaveletPacket(x, W, m, 2)),
        "data": lambda: ([], lambda: [pywt.data.ecg(), pywt.data.nino(), pywt.data.demo_signal("Bumps", 64), pywt.data.camera()[:4].copy()]),
        "demo": lambda: ([], lambda: [pywt.data.demo_signal(["Blocks", "HeaviSine", "Doppler", "Piece-Regular"][s % 4], 64)]),
        "bad_axis": lambda: ([x, W], lambda x, W: pywt.dwt(x, W, m, axis=5)),
        "bad_level": lambda: ([x, W], lambda x, W: pywt.swt(x, W, 7)),
        "bad_name": lambda: ([x], lambda x: pywt.dwtn(x, "nope")),
        "bad_bands": lambda: ([[x, (x[:2], x, x)]], lambda c: pywt.idwt2(tuple(c), W)),
        "bad_mode": lambda: ([x], lambda x: pywt.wavedecn(x, w, "mirror")),
    }
    if name not in table:
        raise Reject
    return table[name]()


MISC = ["threshold", "firm", "pad", "coeffs_to_array", "array_to_coeffs", "ravel", "unravel", "wavefun", "cwavefun", "cwavefun_len", "cwt_obj", "cwt_list", "integrate",
        "cintegrate", "central", "scale2freq", "freq2scale", "qmf", "ofb", "filters", "wavelist", "modes", "levels", "custom", "fsw", "fsw_back", "fsw_read", "wp_tree",
        "data", "demo", "bad_axis", "bad_level", "bad_name", "bad_bands", "bad_mode"]
SLOW = {"data", "central"}


@st.composite
def st_call(draw, big=False):
    if draw(st.integers(0, 2)) == 0:
        return {"misc": draw(st.sampled_from(MISC)), "s": draw(st.integers(0, 80))}
    return {"o": draw(ops.st_op()), "dt": draw(g.st_dtype()), "s": draw(st.integers(0, 10 ** 5))}


class Call:
    def __init__(self, c):
        if "misc" in c:
            self.name = c["misc"]
            self.args, fn = misc(c["misc"], c["s"])
            self.fn = lambda: fn(*self.args)
            self.lists = []
        else:
            o = ops.Op(c["o"])
            self.name = o.op
            xs = [make({"k": "normal", "s": c["s"] + i}, s, c["dt"]) for i, s in enumerate(o.shapes)]
            packed = o.prepare(xs)
            extra = [o.wa, o.ma] if o.op != "cwt" else []
            self.args = [packed] + extra
            self.fn = lambda: o.call(packed)

    def run(self):
        try:
            return True, self.fn()
        except (ValueError, IndexError, TypeError, KeyError, np.exceptions.AxisError) as e:
            if not self.name.startswith("bad_"):
                raise
            return False, type(e).__name__


def equal(a, b):
    return diff(snap(a), snap(b))


# ------------------------------------------------------------------ laws
@law("P18", strategy=lambda: st_call(), quick=500, thorough=15000)
def inputs_untouched_and_repeatable(case):
    c = Call(case)
    before = snap(c.args)
    _, r = c.run()
    d = diff(before, snap(c.args))
    require(d is None, lambda: f"{c.name} modified its arguments {d}")
    first = snap(r)
    _, r2 = c.run()
    d = diff(first, snap(r2))
    require(d is None, lambda: f"{c.name}: calling again with the same arguments gave another result {d}")
    # whatever the caller does with a result stays with the caller
    if not c.name.startswith("imra"):
        spoil(r, arrays_in(c.args))
    else:
        spoil(r, [])
    d = diff(before, snap(c.args)) if c.name.startswith("imra") else None
    require(d is None, lambda: f"{c.name}: writing into the result changed the components it was made of {d}")
    _, r3 = c.run()
    d = diff(first, snap(r3))
    require(d is None, lambda: f"{c.name}: the result depends on what the caller did with an earlier result {d}")
    return ["call=" + c.name]


@law("P18", strategy=check_P08.st_hist, quick=250, thorough=8000)
def packet_trees_touch_no_foreign_array(case):
    """under any history, the arrays a caller gave to a tree, and the arrays it handed out earlier, keep their content"""
    if len(case["ops"]) > 40:
        raise Reject
    w = check_P08.World(case)
    for op, n, s in case["ops"]:
        w.log.append([op, n, s])
        try:
            check_P08.step(w, op, n, s)
            w.compare(w.wp, w.root)
        except Violation:              # a wrong tree is P08's business
            raise Reject
        for a, b in w.kept.values():
            require(a.shape == b.shape and a.tobytes() == b.tobytes(), lambda: f"{w.what()}: an array given to the tree, or obtained from it before, was modified: {b.ravel()[:5]} became {a.ravel()[:5]}")
    return sorted(w.tags) + [f"kind={w.m.kind}"] if len(w.kept) > 1 else []


@st.composite
def st_hist(draw):
    calls = [draw(st_call()) for _ in range(draw(st.integers(2, 5)))]
    order = draw(st.lists(st.integers(0, len(calls) - 1), min_size=3, max_size=14))
    return {"calls": calls, "order": order}


@law("P18", strategy=lambda: st_hist(), quick=200, thorough=6000)
def no_hidden_state(case):
    if not case["calls"]:
        raise Reject
    calls = [Call(c) for c in case["calls"]]
    first = {}
    before = [snap(c.args) for c in calls]
    for step, i in enumerate(case["order"]):
        if not 0 <= i < len(calls):
            raise Reject
        ok, r = calls[i].run()
        v = snap(r)
        if i in first:
            d = diff(first[i], v)
            require(d is None, lambda: f"step {step}: {calls[i].name} gives another result after {[calls[j].name for j in case['order'][:step]]} {d}")
        first.setdefault(i, v)
    for c, b in zip(calls, before):
        d = diff(b, snap(c.args))
        require(d is None, lambda: f"{c.name}: its arguments were modified {d}")
    # a fresh set of equal calls gives equal results, too
    for i, c in enumerate(case["calls"]):
        if i in first:
            d = diff(first[i], snap(Call(c).run()[1]))
            require(d is None, lambda: f"{calls[i].name}: equal arguments give another result {d}")
    return ["len=%d" % len(case["order"])] + ["call=" + c.name for c in calls]


# ------------------------------------------------------------------ what a call remembers about an object must be the object, not its name
BANKS = {"same": lambda b: b, "negated": lambda b: [[-v for v in f] for f in b], "reversed": lambda b: [f[::-1] for f in b], "exchanged": lambda b: [b[2], b[3], b[0], b[1]],
         "scaled": lambda b: [[2 * v for v in f] for f in b], "swapped": lambda b: [b[1], b[0], b[3], b[2]]}
OFW = {"wavefun": lambda w: w.wavefun(3), "integrate": lambda w: pywt.integrate_wavelet(w, 4), "central": lambda w: pywt.central_frequency(w, 5),
       "s2f": lambda w: pywt.scale2frequency(w, [1, 2.5], 5), "filters": lambda w: [w.dec_lo, w.dec_hi, w.rec_lo, w.rec_hi, w.filter_bank, w.inverse_filter_bank],
       "pickle": lambda w: pickle.loads(pickle.dumps(w)).filter_bank, "copy": lambda w: [copy.copy(w).filter_bank, copy.deepcopy(w).filter_bank]}
DISCRETE = [o for o in ops.ALL if o != "cwt"]


@st.composite
def st_named(draw):
    o = draw(ops.st_op(DISCRETE))
    o["ws"] = [draw(st.sampled_from(["haar", "db2", "sym4", "bior2.2", "coif1", "db7"]))] * len(o["ws"])
    return {"o": o, "fn": draw(st.sampled_from(["op"] * 6 + sorted(OFW))), "name": draw(st.sampled_from(["mine", "w", "haar", "db2", "sym4", "bior2.2"])),
            "banks": draw(st.lists(st.sampled_from(sorted(BANKS)), min_size=2, max_size=4)), "keep": draw(st.booleans()), "dt": draw(g.st_dtype()), "s": draw(st.integers(0, 10 ** 5)),
            "builtin": draw(st.booleans())}


@law("P18", strategy=lambda: st_named(), quick=220, thorough=8000)
def wavelets_of_one_name(case):
    """user-defined wavelets may share a name (also that of a built-in one) or, one after the other, a place in memory: only their filters count"""
    o = ops.Op(case["o"])
    if o.op == "cwt" or not case["name"] or any(w != case["o"]["ws"][0] for w in case["o"]["ws"]):
        raise Reject
    bank = pywt.Wavelet(case["o"]["ws"][0]).filter_bank
    xs = [make({"k": "normal", "s": case["s"] + i}, s, case["dt"]) for i, s in enumerate(o.shapes)]

    def run(name, how):
        b = BANKS[how](bank)
        w = pywt.Wavelet(name, b)
        w.orthogonal = w.biorthogonal = True
        if case["fn"] != "op":
            return w, snap(OFW[case["fn"]](w))
        o.W = [w] * len(o.axes)
        o.wa = w
        out = snap([a for _, a in ops.flatten(o.run(xs))])
        return w, out
    what = o.op if case["fn"] == "op" else case["fn"]
    if case["builtin"]:
        # the built-in wavelet of that name comes first
        if case["fn"] != "op":
            OFW[case["fn"]](pywt.Wavelet("haar" if case["name"] in ("mine", "w") else case["name"]))
    kept = []
    got = []
    for how in case["banks"]:
        w, r = run(case["name"], how)
        got.append(r)
        if case["keep"]:
            kept.append(w)
        o.W, o.wa = [], None
        del w
    for i, (how, r) in enumerate(zip(case["banks"], got)):
        _, alone = run(f"only {i} {how} {case['s']} {case['name']}", how)
        d = diff(alone, r)
        require(d is None, lambda: f"{what} with a custom wavelet named {case['name']!r} ({case['o']['ws'][0]} {how}), after others of that name ({case['banks'][:i]}), differs from the same filters under another name {d}")
    return ["named", "call=" + what, "kept alive" if case["keep"] else "freed between"] if len(set(case["banks"])) > 1 else []


@st.composite
def st_sched(draw):
    """threads share wavelet objects and input arrays; some calls are the same in several threads"""
    calls = [draw(st_call()) for _ in range(draw(st.integers(1, 4)))]
    n = draw(st.integers(2, 6))
    plan = [draw(st.lists(st.integers(0, len(calls) - 1), min_size=2, max_size=6)) for _ in range(n)]
    return {"calls": calls, "plan": plan, "rep": draw(st.integers(1, 4))}


@law("P18", strategy=lambda: st_sched(), quick=60, thorough=2500, shrinkable=False)
def threads(case):
    calls = [Call(c) for c in case["calls"] if c.get("misc") not in ("data",)]
    if not calls or not case["plan"] or any(not 0 <= i for p in case["plan"] for i in p) or case["rep"] < 1:
        raise Reject
    want = [snap(c.run()[1]) for c in calls]
    before = [snap(c.args) for c in calls]
    errs = []
    bar = threading.Barrier(len(case["plan"]))

    def body(plan):
        try:
            bar.wait(30)
            for _ in range(case["rep"]):
                for i in plan:
                    i %= len(calls)
                    got = snap(calls[i].run()[1])
                    d = diff(want[i], got)
                    if d:
                        errs.append(f"{calls[i].name} gave another result in a thread {d}")
                        return
        except Exception as e:
            errs.append(f"a call raised {type(e).__name__} in a thread: {str(e)[:200]}")

    old = sys.getswitchinterval()
    sys.setswitchinterval(1e-6)
    try:
        ts = [threading.Thread(target=body, args=(p,), daemon=True) for p in case["plan"]]
        for t in ts:
            t.start()
        for t in ts:
            t.join(50)
    finally:
        sys.setswitchinterval(old)
    require(not errs, lambda: errs[0])
    require(not any(t.is_alive() for t in ts), "a thread did not finish")
    for c, b in zip(calls, before):
        d = diff(b, snap(c.args))
        require(d is None, lambda: f"{c.name}: shared arguments modified {d}")
    return ["threads=%d" % len(ts)] + ["call=" + c.name for c in calls]


# ------------------------------------------------------------------ long C calls that really overlap
@st.composite
def st_over(draw):
    w = draw(st.one_of(st.sampled_from(["db20", "dmey", "db38", "coif17", "haar"]), g.st_wavelet()))
    return {"w": w, "mode": draw(g.st_mode()), "n": draw(st.sampled_from([4096, 8192])), "dts": draw(st.lists(g.st_dtype(), min_size=1, max_size=4)),
            "threads": draw(st.integers(2, 6)), "fns": draw(st.lists(st.sampled_from(["dwt", "dwt_axis", "swt", "swt_axis", "idwt", "downcoef", "upcoef", "wavedec"]), min_size=1, max_size=4)),
            "s": draw(st.integers(0, 1000)), "share": draw(st.booleans())}


@law("P18", strategy=lambda: st_over(), quick=12, thorough=600, shrinkable=False)
def overlapping_native_calls(case):
    W = g.wav(case["w"])
    n, m = case["n"], case["mode"]
    if n % 64 or not 2 <= case["threads"] <= 16 or not case["dts"] or not case["fns"]:
        raise Reject
    fns = {"dwt": lambda x: pywt.dwt(x, W, m), "dwt_axis": lambda x: pywt.dwt(x.reshape(64, -1), W, m, axis=0), "swt": lambda x: pywt.swt(x, W, 3),
           "swt_axis": lambda x: pywt.swt(x.reshape(64, -1), W, 2, axis=0), "idwt": lambda x: pywt.idwt(x, x[::-1], W, m),
           "downcoef": lambda x: pywt.downcoef("d", x, W, m, 2), "upcoef": lambda x: pywt.upcoef("d", x, W, 2), "wavedec": lambda x: pywt.wavedec(x, W, m, 3)}
    jobs = [(fns[f], make({"k": "normal", "s": case["s"] + (0 if case["share"] else i)}, n, dt)) for i, (f, dt) in
            enumerate((f, dt) for f in case["fns"] for dt in case["dts"])]
    want = [snap(f(x)) for f, x in jobs]
    errs = []
    bar = threading.Barrier(case["threads"])

    def body(t):
        try:
            bar.wait(30)
            for k in range(3 * len(jobs)):
                i = (k + t) % len(jobs)
                d = diff(want[i], snap(jobs[i][0](jobs[i][1])))
                if d:
                    errs.append(f"{case['fns'][i // len(case['dts'])]} gave another result in a thread {d[:200]}")
                    return
        except Exception as e:
            errs.append(f"a call raised {type(e).__name__} in a thread: {str(e)[:200]}")

    ts = [threading.Thread(target=body, args=(i,), daemon=True) for i in range(case["threads"])]
    for t in ts:
        t.start()
    for t in ts:
        t.join(50)
    require(not errs, lambda: errs[0])
    require(not any(t.is_alive() for t in ts), "a thread did not finish")
    return ["threads=%d" % len(ts)] + ["fn=" + f for f in case["fns"]]
