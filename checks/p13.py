"""Tensor and matrix nodes against the same operation on numpy matrices at every point."""
from fmodel import *
import vfw
from p03 import masks_of

def run_node(node_def, children, full, update=None):
    vt.clear_forest()
    names = ["s%d" % i for i in range(len(children))]
    create([node("MeqVtNode", s) for s in names] + [node_def(names)])
    cells = grid(full)
    for s, c in zip(names, children):
        # nodes with nothing but fails, or no data at all, say so by their result code
        rc = RES_FAIL if allfail(c) else RES_MISSING if allmissing(c) else 0
        vt.src(s, [to_spec(c, cells)], rc)
    if update:
        vt.run("n", request(cells))
        vt.set_state("n", dmi.record(**update))
        vt.clear_cache("n")   # a result without dependencies is kept until the request says that the state changed
    return vt.run("n", request(cells))

def allfail(c): return all(p.fail is not None for p in c.planes)
def allmissing(c): return all(p.missing for p in c.planes)

def propagated(ctx, rc, got, children):
    """a child that has failed or has no data at all makes the node fail or have no data"""
    if any(allfail(c) for c in children):
        if not rc & RES_FAIL: ctx.fail("a child failed, but code is %#x" % rc)
        msgs = " ".join(m for p in got["planes"] for m in p.get("fail", []))
        for c in children:
            if allfail(c):
                for p in c.planes:
                    for m in p.fail:
                        if m not in msgs: ctx.fail("lost the fail '%s', has %s" % (m, msgs))
        return True
    if any(allmissing(c) for c in children):
        if not rc & RES_MISSING: ctx.fail("a child has no data, but code is %#x" % rc)
        return True

P = vfw.Property("P13",
    rule="a case is one tensor node over generated child results (tensor dimensions, missing and failed planes, collapsed values, flags "
         "under masks, perturbed values in one or two sets); non-trivial if the result has several planes or perturbed values",
    assumptions=["numpy's double arithmetic, compared within 1e-8 relative error", "points where a matrix is (nearly) singular are not compared",
                 "children return results on the grid of the request",
                 "missing elements count as zeros in matrix products; a missing, failed or zero scalar factor gives a missing, failed or zero scalar"])
P.setup = lambda: vt.init(0, 1)

def ndim(dims): return [d for d in dims] if dims else []
def vec(n): return [] if n == 1 else [n]
def nt(ctx, want): ctx.trivial(len(want.planes) < 2 and not any(p.spids for p in want.planes))

def check(ctx, rc, got, want, full, code=True, **kw):
    if want is None:
        if not rc & RES_FAIL: ctx.fail("accepted, code %#x, result %s" % (rc, got))
        ctx.label("refused"); return
    if got is None: ctx.fail("no result, code %#x" % rc)
    compare(ctx, got, want, full, lenient_spids=True, **kw)
    if code: code_check(ctx, rc, want)
    nt(ctx, want)

SP = dict(spids=(1, 3, 4))

# ---- Composer -----------------------------------------------------------------------------
@st.composite
def compose_cases(draw):
    full = draw(grids())
    n = draw(st.integers(1, 4))
    mode = draw(st.sampled_from(["list", "list", "dims", "tensor", "tensor"]))
    common = draw(st.sampled_from([[2], [2, 2], [3], [1, 2]]))
    ch = []
    for _ in range(n):
        d = draw(st.sampled_from([common, common, []])) if mode == "tensor" else None
        ch.append(draw(result(full, dims=d, nset=1, **SP)))
    return dict(full=full, ch=ch, mode=mode, pick=draw(st.integers(0, 99)))

@P.check("compose", compose_cases(), quick=6000, thorough=300000, shards=8)
def compose(case, ctx):
    full, ch = case["full"], [realise(c) for c in case["ch"]]
    planes = [p for c in ch for p in c.planes]
    n = len(planes)
    mode, state = case["mode"], {}
    dims = vec(n)
    ctx.label(mode)
    if mode == "dims":
        f = [[a, n // a] for a in range(1, n + 1) if n % a == 0] + [[n]] + [[1, n], [n, 1]]
        dims = f[case["pick"] % len(f)]
        state["dims"] = dims
    if mode == "tensor":
        state["dims"] = [0]
        d0 = next((c.dims for c in ch if len(c.planes) > 1), [])
        n0 = int(np.prod(d0)) if d0 else 1
        planes = [p for c in ch for p in (c.planes if len(c.planes) == n0 else c.planes * n0)]
        dims = [len(ch)] + list(d0)
    rc, got = run_node(lambda names: node("MeqComposer", "n", names, **state), ch, full)
    check(ctx, rc, got, Res(dims, planes), full)

# ---- Selector, Paster ---------------------------------------------------------------------
def tensor_index(dims, idx):
    """(planes addressed, dimensions of the selection) or None"""
    if len(idx) != len(dims): return None
    if any(i >= d for i, d in zip(idx, dims)): return None
    a = np.arange(int(np.prod(dims))).reshape(dims)
    s = a[tuple(slice(i, i + 1) if i >= 0 else slice(None) for i in idx)]
    shp = list(s.shape)
    while shp and idx[len(shp) - 1] >= 0: shp.pop()
    return s.reshape(-1).tolist(), shp

TD = [[], [2], [3], [2, 2], [2, 3], [3, 2], [2, 2, 2], [2, 3, 2], [3, 1, 2], [1, 2], [2, 1]]

@st.composite
def select_cases(draw):
    full = draw(grids(2))
    dims = draw(st.sampled_from(TD))
    n = int(np.prod(dims)) if dims else 1
    multi = draw(st.booleans())
    if multi or len(dims) < 2:
        idx = draw(st.lists(st.integers(-1, n), min_size=0, max_size=5)) if draw(st.integers(0, 4)) == 0 else \
              draw(st.lists(st.integers(0, n - 1), min_size=1, max_size=5))
        if not multi: idx = idx[:1]
    elif draw(st.integers(0, 9)) == 0:
        idx = draw(st.lists(st.integers(-1, 3), min_size=2, max_size=4))
    else:
        idx = [draw(st.integers(-1, d - 1)) for d in dims]
    was = draw(st.one_of(st.none(), st.none(), st.tuples(st.lists(st.integers(-1, 3), min_size=1, max_size=3), st.booleans())))
    return dict(full=full, ch=draw(result(full, dims=dims, **SP)), idx=idx, multi=multi, was=was if idx else None)

@P.check("select", select_cases(), quick=6000, thorough=300000, shards=8)
def select(case, ctx):
    full, c, idx, multi = case["full"], realise(case["ch"]), case["idx"], case["multi"]
    n = len(c.planes)
    state = dict(multi=multi, **(dict(index=idx) if idx else {}))
    rc, got = run_node(lambda names: node("MeqSelector", "n", names, **(dict(zip(("index", "multi"), case["was"])) if case["was"] else state)), [c], full,
                       update=state if case["was"] else None)
    if propagated(ctx, rc, got, [c]): return
    if not idx: want = c
    elif multi or len(idx) == 1:
        pl = []
        for i in idx:
            if 0 <= i < n: pl.append(c.planes[i])
            else: pl.append(Plane(fail=["invalid selection"]))
        want = Res(vec(len(idx)), pl)
    else:
        t = tensor_index(c.dims, idx)
        want = None if t is None else Res(t[1], [c.planes[i] for i in t[0]])
    ctx.label("tensor" if not multi and len(idx) > 1 else "list")
    check(ctx, rc, got, want, full)

@st.composite
def paste_cases(draw):
    full = draw(grids(2))
    dims = draw(st.sampled_from(TD))
    n = int(np.prod(dims)) if dims else 1
    multi = draw(st.booleans())
    if multi or len(dims) < 2:
        idx = draw(st.lists(st.integers(0, n - 1), min_size=1, max_size=5))
        if not multi: idx = idx[:1]
        d2 = vec(len(idx))
    else:
        idx = [draw(st.integers(-1, d - 1)) for d in dims]
        d2 = tensor_index(dims, idx)[1]
    if draw(st.integers(0, 9)) == 0: d2 = draw(st.sampled_from(TD))
    if draw(st.integers(0, 9)) == 0: idx = draw(st.lists(st.integers(-1, 3), min_size=1, max_size=4))
    kw = dict(fails=False, missing=False) if draw(st.booleans()) else {}
    return dict(full=full, ch=[draw(result(full, dims=dims, **SP)), draw(result(full, dims=d2, **SP, **kw))], idx=idx, multi=multi)

@P.check("paste", paste_cases(), quick=6000, thorough=300000, shards=8)
def paste(case, ctx):
    full, (a, b), idx, multi = case["full"], [realise(c) for c in case["ch"]], case["idx"], case["multi"]
    rc, got = run_node(lambda names: node("MeqPaster", "n", names, index=idx, multi=multi), [a, b], full)
    n = len(a.planes)
    if propagated(ctx, rc, got, [a, b]): return
    want = None
    pl = list(a.planes)
    if multi or len(idx) == 1:
        if len(b.planes) == len(idx) and all(0 <= i < n for i in idx):
            for i, p in zip(idx, b.planes): pl[i] = p
            want = Res(a.dims, pl)
    else:
        t = tensor_index(a.dims, idx)
        if t is not None and (list(b.dims) == t[1] or len(t[0]) == len(b.planes) == 1):
            for i, p in zip(t[0], b.planes): pl[i] = p
            want = Res(a.dims, pl)
        ctx.label("tensor")
    if want is not None and all(p.missing for p in want.planes): return
    check(ctx, rc, got, want, full, code=False)

# ---- Transpose ----------------------------------------------------------------------------
@st.composite
def transpose_cases(draw):
    full = draw(grids(3))
    return dict(full=full, ch=draw(result(full, dims=draw(st.sampled_from(TD)), nset=draw(st.sampled_from([1, 2])), **SP)),
                conj=draw(st.booleans()), tensor=draw(st.booleans()), was=draw(st.sampled_from([None, None, [0, 0], [0, 1], [1, 0], [1, 1]])))

@P.check("transpose", transpose_cases(), quick=6000, thorough=300000, shards=8)
def transpose(case, ctx):
    full, c = case["full"], realise(case["ch"])
    state = dict(conj=case["conj"], tensor=case["tensor"])
    rc, got = run_node(lambda names: node("MeqTranspose", "n", names, **(dict(zip(("conj", "tensor"), case["was"])) if case["was"] else state)), [c], full,
                       update=state if case["was"] else None)
    if propagated(ctx, rc, got, [c]): return
    d = list(c.dims)
    ix = np.arange(len(c.planes))
    if len(d) == 1 and not case["tensor"]: d = [1] + d
    elif len(d) >= 2:
        if len(d) == 2 and case["tensor"] and d[1] == 1: pass
        else:
            ix = np.swapaxes(ix.reshape(d), -1, -2)
            d = list(ix.shape)
            if d[-1] == 1: d.pop()
            ix = ix.reshape(-1)
    pl = []
    for i in ix.tolist():
        p = c.planes[i]
        if case["conj"] and p.v is not None:
            p = Plane(np.conj(p.v), p.f, p.spids, p.nset, {k: np.conj(v) for k, v in p.pv.items()}, perts=p.perts)
        pl.append(p)
    check(ctx, rc, got, Res(d, pl), full)

# ---- MatrixMultiply -----------------------------------------------------------------------
MD = {1: [], 2: [2], 3: [3]}
@st.composite
def mul_cases(draw):
    full = draw(grids(3))
    n = draw(st.sampled_from([2, 2, 2, 3, 4]))
    nset = draw(st.sampled_from([1, 1, 2]))
    rows = draw(st.sampled_from([1, 2, 2, 3]))
    ch = []
    k = rows
    for i in range(n):
        form = draw(st.sampled_from(["matrix", "matrix", "scalar", "any"]))
        if form == "scalar": d = []
        elif form == "any": d = draw(st.sampled_from([[2], [3], [2, 2], [2, 3], [1, 2], [2, 1], [3, 3], [2, 2, 2]]))
        else:
            c = draw(st.sampled_from([1, 2, 2, 3]))
            d = [] if k == c == 1 else [k, c] if c > 1 or k == 1 or draw(st.booleans()) else [k]
            k = c
        r = draw(result(full, dims=d, nset=nset, **SP))
        for p in r["planes"]:
            if not d and "v" in p and draw(st.integers(0, 5)) == 0:
                p["unit"] = True
        ch.append(r)
    masks = draw(st.sampled_from([None, None, -1, 0, 1, 2, "each"]))
    if masks == "each": masks = [draw(st.sampled_from([-1, 0, 1, 2, 3])) for _ in range(n)]
    return dict(full=full, ch=ch, masks=masks)

def dims2(d):
    return None if len(d) > 2 else (list(d) if len(d) == 2 else [d[0], 1])

def combine(ps, fn, ok=True):
    """plane of fn(values) with perturbed values; ps with values None where missing"""
    spids = sorted(set(s for p in ps if p.v is not None for s in p.spids))
    nset = max([p.nset for p in ps if p.v is not None] + [0]) if spids else 0
    al = lambda x: None if x is None else arr.align(x, 2)
    with np.errstate(all="ignore"):
        q = Plane(fn([al(p.v) for p in ps]), None, spids, nset)
        for s in range(nset):
            for k in spids:
                q.pv[s, k] = fn([al(p.pv.get((s, k), p.v)) for p in ps]); q.perts[s, k] = pert(k, s)
    return q

class Scalar(Exception): pass

def mask_plane(p, m):
    """plane with its flags masked"""
    if p.v is None or p.f is None or m == -1: return p
    return Plane(p.v, (p.f & np.int32(m)) if m else None, p.spids, p.nset, p.pv, perts=p.perts)

def mul2(a, b):
    """product of two results, flags already masked; None if refused"""
    for s, t in ((a, b), (b, a)):
        if not s.dims:
            sp = s.planes[0]
            if len(t.dims) > 2: return None
            if sp.fail is not None or sp.missing: return Res([], [sp])
            if not sp.spids and np.size(sp.v) == 1 and sp.v.reshape(-1)[0] == 0:
                return Res([], [Plane(np.zeros(1))])
            out = []
            for p in t.planes:
                if p.fail is not None or p.missing: out.append(p); continue
                q = combine([p, sp], lambda v: v[0] * v[1])
                q.f = merge_flags([p, sp], [-1, -1]) if not p.isnull() else None
                out.append(q)
            return Res(t.dims, out)
    da, db = dims2(a.dims), dims2(b.dims)
    if da is None or db is None or da[1] != db[0]: return None
    out = []
    for i in range(da[0]):
        for k in range(db[1]):
            ps = []
            for j in range(da[1]): ps += [a.planes[i * da[1] + j], b.planes[j * db[1] + k]]
            fails = [m for p in ps if p.fail is not None for m in p.fail]
            if fails: out.append(Plane(fail=fails)); continue
            def fn(v):
                r = np.zeros((1, 1))
                for j in range(0, len(v), 2):
                    if v[j] is not None and v[j + 1] is not None: r = r + v[j] * v[j + 1]
                return r
            q = combine(ps, fn)
            f = None
            for j in range(0, len(ps), 2):
                if ps[j].isnull() or ps[j + 1].isnull(): continue
                for p in ps[j:j + 2]:
                    if p.f is not None: f = p.f if f is None else f_or(f, p.f)
            q.f = f
            out.append(q)
    d = vec(da[0]) if db[1] == 1 else [da[0], db[1]]
    return Res(d, out)

@P.check("matmul", mul_cases(), quick=10000, thorough=400000, shards=8)
def matmul(case, ctx):
    full = case["full"]
    ch = []
    for c in case["ch"]:
        r = realise(c)
        for s, p in zip(c["planes"], r.planes):
            if s.get("unit"):
                p.v = np.ones(1); p.spids = []; p.nset = 0; p.pv = {}; p.perts = {}
        ch.append(r)
    state = {} if case["masks"] is None else dict(flag_mask=case["masks"])
    masks = masks_of(case["masks"], len(ch))
    rc, got = run_node(lambda names: node("MeqMatrixMultiply", "n", names, **state), ch, full)
    if propagated(ctx, rc, got, ch): return
    m = [Res(c.dims if len(c.planes) > 1 else [], [mask_plane(p, k) for p in c.planes]) for c, k in zip(ch, masks)]
    cur = m[0]
    for b in m[1:]:
        cur = mul2(cur, b)
        if cur is None: break
        if all(p.fail is not None for p in cur.planes): break
    if cur is not None and all(p.missing for p in cur.planes) : return
    scale = 1.0
    ctx.label("%d factors" % len(ch))
    check(ctx, rc, got, cur, full, rtol=1e-7, atol=1e-5)

# ---- any children at all ------------------------------------------------------------------
UNARY = ("Abs Acos Arg Asin Atan Bessel Ceil Conj Cos Cosh Exp Fabs Floor Identity Imag Invert Log Negate Norm Pow2 Pow3 Real Sin Sinh Sqr Sqrt "
         "Tan Tanh Sum Product NElements StdDev Rms Min Max Mean MinLocation MaxLocation Composer Selector MatrixInvert22 Transpose Stripper "
         "ZeroFlagger ReplaceFlaggedValues MergeFlags Stokes DataCollect Add Multiply Subtract WSum WMean Resampler ModRes ReqSeq").split()
BINARY = ("Divide FMod Pow Polar ToComplex Atan2 Add Multiply Subtract Max Min Mean Composer Paster MatrixMultiply MatrixMultiply MergeFlags Condeq "
          "ReplaceFlaggedValues WSum WMean Compounder VisPhaseShiftArg VisPhaseShift LMRaDec TFSmearFactor").split()
MULTI = "Add Multiply Subtract Max Min Mean Composer MatrixMultiply MergeFlags Condeq ReplaceFlaggedValues WSum WMean DataCollect LMN".split()

@st.composite
def robust_cases(draw):
    full = draw(grids(3))
    n = draw(st.integers(1, 3))
    ch = []
    for _ in range(n):
        r = draw(result(full, dims=draw(st.sampled_from([None, None, [2, 2], [3]])), nset=draw(st.sampled_from([1, 1, 2])), **SP))
        if draw(st.integers(0, 3)) == 0: r = dict(dims=[], planes=[])
        ch.append(r)
    return dict(full=full, ch=ch, cls=draw(st.sampled_from({1: UNARY, 2: BINARY, 3: MULTI}[n])))

@P.check("robust", robust_cases(), quick=6000, thorough=300000, shards=8,
         rule="a node of one of %d classes over children of any dimensions, empty ones included; non-trivial if a child is empty" % len(set(UNARY + BINARY + MULTI)))
def robust(case, ctx):
    """whatever results its children return, a node returns a result or a fail, and carries on"""
    full = case["full"]
    ch = [realise(c) for c in case["ch"]]
    vt.clear_forest()
    names = ["s%d" % i for i in range(len(ch))]
    create([node("MeqVtNode", s) for s in names] + [node("Meq" + case["cls"], "n", names)])
    cells = grid(full)
    for s, c in zip(names, ch):
        rc = RES_FAIL if c.planes and allfail(c) else RES_MISSING if c.planes and allmissing(c) else 0
        vt.src(s, [to_spec(c, cells)], rc)
    rc, got = vt.run("n", request(cells))
    if rc & RES_FAIL and (got is None or not any(p.get("fail") for p in got["planes"])): ctx.fail("code %#x, but no fail: %s" % (rc, got))
    if not rc & RES_FAIL and got is None and not rc & 0x40: ctx.fail("code %#x, but no result" % rc)
    # and the node still works when its children have something
    for s in names: vt.src(s, [to_spec(Res([], [Plane(np.full(tuple(full), 2.))]), cells)], 0)
    rc2, got2 = vt.run("n", request(cells))
    ctx.label(case["cls"])
    ctx.trivial(all(c.planes for c in ch))

# ---- MatrixInvert22 -----------------------------------------------------------------------
@st.composite
def inv_cases(draw):
    full = draw(grids(3))
    d = draw(st.sampled_from([[2, 2]] * 6 + [[], [], [2], [4], [2, 3], [2, 2, 2]]))
    return dict(full=full, ch=draw(result(full, dims=d, nset=draw(st.sampled_from([1, 2])), **SP)), mask=draw(st.sampled_from([None, None, -1, 0, 1, 2])), was=draw(st.sampled_from([None, None, -1, 0, 1, 2])))

@P.check("invert", inv_cases(), quick=6000, thorough=300000, shards=8)
def invert(case, ctx):
    full, c = case["full"], realise(case["ch"])
    state = {} if case["mask"] is None else dict(flag_mask=case["mask"])
    rc, got = run_node(lambda names: node("MeqMatrixInvert22", "n", names, **(state if case["was"] is None or not state else dict(flag_mask=case["was"]))), [c], full,
                       update=None if case["was"] is None else state)
    m = -1 if case["mask"] is None else case["mask"]
    fails = [x for p in c.planes if p.fail is not None for x in p.fail]
    if propagated(ctx, rc, got, [c]): return
    if not c.dims:
        p = c.planes[0]
        q = combine([p], lambda v: np.where(np.abs(v[0]) < 1e-6, np.nan, 1 / v[0]))
        q.f = mask_plane(p, m).f
        want = Res([], [q])
    elif list(c.dims) != [2, 2]: want = None
    elif fails: want = Res([], [Plane(fail=fails)])
    else:
        f = None
        for p in c.planes:
            g = mask_plane(p, m).f if p.v is not None else None
            if g is not None: f = g if f is None else f_or(f, g)
        def el(n):
            def fn(v):
                v = [np.zeros((1, 1)) if x is None else x for x in v]
                det = v[0] * v[3] - v[1] * v[2]
                big = np.maximum(np.abs(v[0] * v[3]), np.abs(v[1] * v[2]))
                num = [v[3], -v[1], -v[2], v[0]][n]
                return np.where(np.abs(det) < 1e-4 * (1e-3 + big), np.nan, num / det)
            return fn
        pl = []
        for n in range(4):
            q = combine(c.planes, el(n)); q.f = f
            pl.append(q)
        want = Res([2, 2], pl)
    check(ctx, rc, got, want, full, rtol=1e-7, atol=1e-6)
