"""Function nodes: every plane, perturbed value and flag against a numpy model."""
from fmodel import *
import vfw, cmath, math

P = vfw.Property("P03",
    rule="a case is one node class with generated child results (tensor dimensions, planes missing or failed, collapsed values, "
         "flags and masks, perturbed values); non-trivial if two children differ in shape or dimensions, or perturbations, flags or fails are present",
    assumptions=["numpy's double arithmetic, compared within 1e-8 relative error", "points whose exact value is infinite or undefined are not compared",
                 "children return results on the grid of the request"])

def mul(vals):
    r = 1.0
    for v in vals:
        if v is not None: r = r * v[0]
    return r
def add(vals):
    r = 0.0
    for v in vals:
        if v is not None: r = r + v[0]
    return r
def mean(vals):
    n = sum(v is not None for v in vals)
    return add(vals) / n
def fmean(vals, masks):
    """over the children not flagged at the point; undefined (nan) where all are"""
    r = 0.0; n = 0.0
    for i, v in enumerate(vals):
        if v is None: continue
        x, fl = v; w = np.ones((1, 1))
        if fl is not None and masks[i]:
            s = bshape(x.shape, fl.shape)
            w = 1.0 * ((bc(fl, s) & np.int32(masks[i])) == 0); x = bc(x, s)
        r = r + x * w; n = n + w
    return np.where(n == 0, np.nan, r / np.where(n == 0, 1, n))
def sub(vals):
    r = vals[0][0]
    for v in vals[1:]: r = r - v[0]
    return r

def real_only(vals):
    if any(v is not None and np.iscomplexobj(v[0]) for v in vals): raise FailPlane("complex operand")

def U(f, complex_ok=True):
    def g(vals):
        if not complex_ok: real_only(vals)
        return f(vals[0][0])
    return g
def B(f, complex_ok=False):
    def g(vals):
        if not complex_ok: real_only(vals)
        return f(vals[0][0], vals[1][0])
    return g
def mm(f):
    def g(vals, masks=None):
        """over the children not flagged at the point; undefined (nan) where all are"""
        if sum(v is not None for v in vals) > 1: real_only(vals)
        r = None
        for i, v in enumerate(vals):
            if v is None: continue
            x, fl = v
            if fl is not None and masks and masks[i]:
                s = bshape(x.shape, fl.shape)
                x = np.where((bc(fl, s) & np.int32(masks[i])) != 0, np.nan, bc(x, s))
            r = x if r is None else f(r, x)
        return r
    return g
def cpow(x, y):
    if np.iscomplexobj(x) or np.iscomplexobj(y):
        r = np.power(x.astype(complex), y)
        return np.where((x != 0) & (np.abs(np.log(np.maximum(np.abs(x), 1e-300)) * y) <= 100), r, np.nan)
    return np.power(x, y)

def bess(k):
    def f(x):
        import ctypes
        lib = ctypes.CDLL("libm.so.6"); fn = getattr(lib, k); fn.restype = ctypes.c_double; fn.argtypes = [ctypes.c_double]
        return np.vectorize(lambda t: fn(t), otypes=[float])(x)
    return f

# class: (min children, max children, function, kinds, allow_missing, state)
C = {
    "Add": (1, 4, add, "rc", True), "Multiply": (1, 4, mul, "rc", True), "Subtract": (1, 4, sub, "rc", False),
    "Divide": (2, 2, B(lambda a, b: a / b, True), "rc", False), "Pow": (2, 2, B(cpow, True), "rc", False),
    "FMod": (2, 2, B(np.fmod), "r", False), "Atan2": (2, 2, B(np.arctan2), "r", False),
    "Polar": (2, 2, B(lambda a, b: a * np.exp(1j * b)), "r", False), "ToComplex": (2, 2, B(lambda a, b: a + 1j * b), "r", False),
    "Mean": (2, 4, fmean, "rc", True), "Min": (2, 4, mm(np.fmin), "r", True), "Max": (2, 4, mm(np.fmax), "r", True),
    "Abs": (1, 1, U(np.abs), "rc", False), "Fabs": (1, 1, U(np.abs), "rc", False), "Arg": (1, 1, U(np.angle), "rc", False),
    "Real": (1, 1, U(np.real), "rc", False), "Imag": (1, 1, U(np.imag), "rc", False), "Conj": (1, 1, U(np.conj), "rc", False),
    "Cos": (1, 1, U(np.cos), "rc", False), "Sin": (1, 1, U(np.sin), "rc", False), "Tan": (1, 1, U(np.tan), "rc", False),
    "Cosh": (1, 1, U(np.cosh), "rc", False), "Sinh": (1, 1, U(np.sinh), "rc", False), "Tanh": (1, 1, U(np.tanh), "rc", False),
    "Exp": (1, 1, U(np.exp), "rc", False), "Log": (1, 1, U(np.log), "rc", False), "Sqrt": (1, 1, U(np.sqrt), "rc", False),
    "Sqr": (1, 1, U(lambda x: x * x), "rc", False), "Negate": (1, 1, U(lambda x: -x), "rc", False), "Invert": (1, 1, U(lambda x: 1 / x), "rc", False),
    "Ceil": (1, 1, U(np.ceil, False), "r", False), "Floor": (1, 1, U(np.floor, False), "r", False),
    "Acos": (1, 1, U(np.arccos, False), "r", False), "Asin": (1, 1, U(np.arcsin, False), "r", False), "Atan": (1, 1, U(np.arctan, False), "r", False),
    "Identity": (1, 1, None, "rc", False),
}
for n in range(2, 9):
    C["Pow%d" % n] = (1, 1, U(lambda x, n=n: __import__("functools").reduce(lambda p, q: p * q, [x] * n)), "rc", False)
MULTI = ["Add", "Multiply", "Subtract", "Divide", "Mean", "Min", "Max", "Pow", "ToComplex", "Polar", "Atan2", "FMod"]

MASKS = st.sampled_from([None, None, None, -1, 0, 1, 2, 3, "vec"])

@st.composite
def cases(draw):
    cls = draw(st.sampled_from(MULTI * 3 + sorted(C)))
    lo, hi, fn, kinds, am = C[cls][:5]
    full = draw(grids())
    n = draw(st.integers(lo, hi))
    if draw(st.integers(0, 15)) == 0: kinds = "rc"
    dims = draw(st.sampled_from(DIMS))
    nset = draw(st.sampled_from([1, 1, 2]))
    styles = [2] if cls in ("Pow", "Divide", "Invert", "Log") else [0, 1, 2]
    ch = []
    for i in range(n):
        d = dims if draw(st.integers(0, 2)) else []
        if draw(st.integers(0, 24)) == 0: d = draw(st.sampled_from(DIMS))
        ch.append(draw(result(full, dims=d, kinds=kinds, styles=styles, spids=(1, 2, 5, 9), nset=nset)))
    mask = draw(MASKS)
    if mask == "vec": mask = [draw(st.sampled_from([-1, 0, 1, 2, 7])) for _ in range(n)]
    return dict(cls=cls, full=full, ch=ch, mask=mask, was=draw(st.sampled_from([None, None, None, -1, 0, 1, 6])))

def masks_of(mask, n):
    if mask is None: return [-1] * n
    if isinstance(mask, list):
        return mask if len(mask) != 1 else [mask[0]] * n
    return [mask] * n

def run_node(node_def, children, full, cells=None, update=None):
    """creates the node over sources returning the given results; -> (rc, result).
    With update, the node is executed once as created and again after this change of its state."""
    vt.clear_forest()
    names = ["s%d" % i for i in range(len(children))]
    create([node("MeqVtNode", s) for s in names] + [node_def(names)])
    cells = cells or grid(full)
    for s, c in zip(names, children):
        vt.src(s, [to_spec(c, cells)])
    if update is not None:
        vt.run("n", request(cells))
        vt.set_state("n", dmi.record(**update))
        vt.clear_cache("n")   # a result without dependencies is kept until the request says that the state changed
    return vt.run("n", request(cells))

def setup():
    vt.init(0, 1)
P.setup = setup

@P.check("functions", cases(), quick=16000, thorough=600000, shards=8)
def run(case, ctx):
    lo, hi, fn, kinds, am = C[case["cls"]][:5]
    ch = [realise(c) for c in case["ch"]]
    n = len(ch)
    masks = masks_of(case["mask"], n)
    state = {} if case["mask"] is None else dict(flag_mask=case["mask"])
    if case["cls"] == "Identity": state = {}
    was = state and n and case["was"] is not None
    rc, got = run_node(lambda names: node("Meq" + case["cls"], "n", names, **(dict(flag_mask=case["was"]) if was else state)), ch, case["full"],
                       update=state if was else None)
    flagfn = None
    if case["cls"] == "Multiply":
        def flagfn(ps, ms):
            return None if any(p is not None and p.isnull() for p in ps) else merge_flags(ps, ms)
    if case["cls"] in ("Min", "Max", "Mean"):
        flagfn = reduction_flags
    ctx.label(case["cls"])
    try:
        if case["cls"] == "Identity":
            want = ch[0]
        else:
            if case["cls"] in ("Min", "Max", "Mean"):
                fn0 = fn; fn = lambda vals: fn0(vals, masks)
            want = function(ch, fn, masks, am, flagfn)
    except FailPlane:
        if not rc & RES_FAIL or got is None or not all("fail" in p for p in got["planes"]):
            ctx.fail("children of dimensions %s were accepted: %s" % ([c.dims for c in ch], got))
        ctx.label("dims refused"); return
    compare(ctx, got, want, case["full"], rtol=1e-8, atol=1e-10)
    code_check(ctx, rc, want) if case["cls"] != "Identity" else None
    kindsn = len(set(tuple(map(tuple, sum([p.shapes() for p in c.planes], []))) for c in ch)) > 1
    ctx.trivial(not (kindsn or len(set(map(str, [c.dims for c in ch]))) > 1 or
                     any(p.fail or p.spids or p.f is not None or p.missing for c in ch for p in c.planes)))

def reduction_flags(ps, masks):
    """several children: a point is flagged if all are flagged there, with all masks considered"""
    f = None; tot = 0; full = None
    for p, m in zip(ps, masks):
        if p is None or p.isnull() or p.f is None or not m: 
            f = False; continue
        tot |= m
        g = (p.f & np.int32(m)) != 0
        f = g if f is None else (False if f is False else np.logical_and(*np.broadcast_arrays(bc(f, bshape(f.shape, g.shape)), bc(g, bshape(f.shape, g.shape)))))
    if f is None or f is False or not f.any(): return None
    return np.where(f, np.int32(tot), np.int32(0))

# ---- nodes with options -------------------------------------------------------------------
@st.composite
def opt_cases(draw):
    cls = draw(st.sampled_from(["WSum", "WMean", "Bessel", "ReplaceFlaggedValues", "Stokes", "Add", "Divide", "Min"]))
    full = draw(grids())
    nset = draw(st.sampled_from([1, 2]))
    c = dict(cls=cls, full=full)
    kw = dict(styles=[0, 1, 2], spids=(1, 2, 5), nset=nset)
    if cls in ("WSum", "WMean"):
        n = draw(st.integers(1, 4))
        dims = draw(st.sampled_from(DIMS))
        c["ch"] = [draw(result(full, dims=dims if draw(st.booleans()) else [], kinds="rc", fails=False, missing=False, **kw)) for _ in range(n)]
        c["w"] = draw(st.one_of(st.none(), st.sampled_from([1.0, 2.5, 0.0, -1.0]),
                                st.lists(st.sampled_from([1.0, 2.0, 0.5, -1.0, 0.0, 3.0]), min_size=n, max_size=n)))
    elif cls == "Bessel":
        c["order"] = draw(st.integers(0, 1))
        c["mask"] = draw(st.sampled_from([None, None, 0, 1, 2, -1]))
        c["ch"] = [draw(result(full, kinds="r", **kw))]
    elif cls == "ReplaceFlaggedValues":
        dims = draw(st.sampled_from(DIMS))
        c["ch"] = [draw(result(full, dims=dims if draw(st.booleans()) else [], kinds="rc", fails=False, missing=False, **kw)) for _ in range(draw(st.integers(1, 3)))]
        c["value"] = draw(st.sampled_from([0.0, 7.5, -2.0]))
        c["mask"] = draw(st.sampled_from([None, 1, 2, -1]))
    elif cls == "Stokes":
        kw["spids"] = ()
        c["ch"] = [draw(result(full, dims=[4], kinds="r", fails=False, missing=False, flags=False, **kw))]
        c["scale"] = draw(st.sampled_from([None, 1.0, 0.5]))
    else:
        # children with different numbers of perturbation sets
        c["ch"] = [draw(result(full, dims=[], kinds="r", fails=False, missing=False, styles=[2], spids=(1, 2, 5), nset=1 + i % 2)) for i in range(2)]
    return c

def ones_like(v): return np.ones_like(v)

@P.check("options", opt_cases(), quick=6000, thorough=200000, shards=4, fork=True,
         rule="weighted sums and means, Bessel functions, replacement of flagged values, Stokes conversion, and children with "
              "different numbers of perturbation sets")
def run_opt(case, ctx):
    ch = [realise(c) for c in case["ch"]]
    cls, full, n = case["cls"], case["full"], len(ch)
    ctx.label(cls)
    if cls in ("WSum", "WMean"):
        w = case["w"]; st8 = {} if w is None else dict(weights=w)
        rc, got = run_node(lambda names: node("Meq" + cls, "n", names, **st8), ch, full)
        ws = [1.0 if w is None else w] * n if not isinstance(w, list) else (w if len(w) > 1 else w * n)
        if cls == "WMean":
            if len(set(ws)) == 1 and (not isinstance(w, list) or len(w) == 1): ws = [1.0 / n] * n
            elif sum(ws) != 0: ws = [x / sum(ws) for x in ws]
        # children of zero weight are not used at all
        use = [i for i in range(n) if ws[i] != 0 or not isinstance(w, list) or len(w) == 1]
        if len(use) < n and any(c.dims for c in ch):
            ctx.trivial(); return
        def fn(vals):
            r = 0.0
            for x, v in zip(ws, vals):
                if x: r = r + v[0] * x
            return r if not np.isscalar(r) else np.zeros((1, 1))
        kill = [c if i in use else Res(c.dims, [Plane(np.zeros((1, 1))) for p in c.planes]) for i, c in enumerate(ch)]
        want = function(kill, fn)
        if not use: ctx.trivial(); return
        compare(ctx, got, want, full, rtol=1e-8, lenient_spids=True)
        return
    if cls == "Bessel":
        st8 = {} if case["mask"] is None else dict(flag_mask=case["mask"])
        rc, got = run_node(lambda names: node("MeqBessel", "n", names, order=case["order"], **st8), ch, full)
        compare(ctx, got, function(ch, U(bess("j%d" % case["order"])), masks_of(case["mask"], 1)), full, rtol=1e-8)
        return
    if cls == "ReplaceFlaggedValues":
        st8 = {} if case["mask"] is None else dict(flag_mask=case["mask"])
        rc, got = run_node(lambda names: node("MeqReplaceFlaggedValues", "n", names, value=case["value"], **st8), ch, full)
        masks = masks_of(case["mask"], n)
        fls = {}
        def flagfn(ps, ms):
            return ps[0].f
        dims = function(ch, lambda v: np.zeros(1)).dims
        out = []
        for i in range(int(np.prod(dims)) if dims else 1):
            ps = [c.planes[i if c.dims else 0] for c in ch]
            f = merge_flags(ps[1:], masks[1:])
            def rep(v):
                v = arr.align(v, 2)
                if f is None: return v
                s = bshape(v.shape, f.shape)
                if np.prod(s) != v.size: raise FailPlane("flags with more points than the values")
                return np.where(bc(f, v.shape) != 0, case["value"], v)
            q = function([Res([], [p]) for p in ps], lambda vals: rep(vals[0][0]), masks, False, flagfn)
            out += q.planes
        # flags that extend beyond the shape of the values are refused
        compare(ctx, got, Res(dims, out), full)
        return
    if cls == "Stokes":
        st8 = {} if case["scale"] is None else dict(scale=case["scale"])
        rc, got = run_node(lambda names: node("MeqStokes", "n", names, **st8), ch, full)
        if got is None or rc & RES_FAIL:
            if ch[0].shape() is None: ctx.trivial(); return
            ctx.fail("failed: %s" % got)
        k = case["scale"] or 1.0
        i, q, u, v = [arr.align(p.v, 2) for p in ch[0].planes]
        want = Res([2, 2], [Plane((i + q) * k), Plane((u + 1j * v) * k), Plane((u - 1j * v) * k), Plane((i - q) * k)])
        compare(ctx, got, want, full)
        return
    # differing numbers of perturbation sets: refused, or the sets both have
    fn = C[cls][2]
    rc, got = run_node(lambda names: node("Meq" + cls, "n", names), ch, full)
    ps = [c.planes[0] for c in ch]
    if ps[0].spids and ps[1].spids:
        if got is None or "fail" not in got["planes"][0]: ctx.fail("children with different numbers of perturbation sets were accepted: %s" % got)
    elif "fail" in got["planes"][0]:
        ctx.fail("failed: %s" % got)
