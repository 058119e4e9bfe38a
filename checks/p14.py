"""Reduction nodes against statistics over the unflagged points."""
from fmodel import *
import vfw
from p03 import run_node, masks_of

P = vfw.Property("P14",
    rule="a case is a reduction node over a generated child result (planes, collapsed values, flags, mask, perturbed values), over "
         "all axes or a subset; non-trivial if flags, collapsed axes or a subset of axes are involved",
    assumptions=["numpy's double arithmetic, compared within 1e-8 relative error",
                 "the grid reduced over is the one the child's result spans, or the requested grid if it is constant",
                 "values of fully flagged slices are not compared, only their flags"])
P.setup = lambda: vt.init(0, 1)

NODES = ["Sum", "Product", "Mean", "Min", "Max", "NElements", "StdDev", "Rms"]

@st.composite
def cases(draw):
    cls = draw(st.sampled_from(NODES))
    full = draw(grids())
    kinds = "r" if cls in ("Min", "Max") else "rrc"
    c = dict(cls=cls, full=full, ch=draw(result(full, kinds=kinds, styles=[0, 1, 2], spids=(1, 3), nset=draw(st.sampled_from([1, 2])))))
    for p in c["ch"]["planes"]:
        if "v" in p and "f" not in p and draw(st.booleans()):
            p["f"] = dict(s=draw(arr.sub_shapes(full)), k="f", t=draw(st.integers(0, 3)), x=draw(arr.seeds()))
    c["mask"] = draw(st.sampled_from([None, None, -1, 1, 2, 3, 0]))
    axes = st.sampled_from([None, None, [0], [1], [0, 1], [1, 0], ["time"], ["freq"], ["time", "freq"]])
    c["axes"] = draw(axes)
    c["was"] = None     # axes and mask the node had before, in an earlier execution
    if c["axes"] is not None and draw(st.booleans()):
        c["was"] = dict(axes=draw(axes), mask=draw(st.sampled_from([None, -1, 1, 2, 0])) if c["mask"] is not None else None)
    return c

def stat(cls, v, m, axes, full):
    """v on the full grid, m = points taken; -> value with reduced axes of extent 1, nan where nothing is left"""
    n = m.sum(axis=axes, keepdims=True)
    z = np.where(m, v, 0)
    with np.errstate(all="ignore"):
        if cls == "NElements": return n.astype(float)
        if cls == "Sum": return z.sum(axis=axes, keepdims=True)
        if cls == "Product": return np.where(m, v, 1).prod(axis=axes, keepdims=True)
        if cls == "Mean": return np.where(n, z.sum(axis=axes, keepdims=True) / n, np.nan)
        if cls == "Min": return np.where(n, np.where(m, v, np.inf).min(axis=axes, keepdims=True), np.nan)
        if cls == "Max": return np.where(n, np.where(m, v, -np.inf).max(axis=axes, keepdims=True), np.nan)
        mean = z.sum(axis=axes, keepdims=True) / n
        msq = (z * z).sum(axis=axes, keepdims=True) / n
        if cls == "Rms": return np.where(n, np.sqrt(msq), np.nan)
        d = msq - mean * mean
        d = np.where(np.abs(d) < 1e-9 * (1 + np.abs(msq)), 0, d)
        return np.where(n, np.sqrt(d), np.nan)

@P.check("reductions", cases(), quick=16000, thorough=500000, shards=8)
def run(case, ctx):
    ch = realise(case["ch"])
    cls = case["cls"]
    def options(c): return dict([("flag_mask", c["mask"])] * (c["mask"] is not None) + [("reduction_axes", c["axes"])] * (c["axes"] is not None))
    state, update = options(case), None
    if case["was"]: state, update = options(case["was"]), state
    full = case["full"]
    ctx.label(cls, "axes %s" % case["axes"], "changed state" if case["was"] else "initial state")
    rc, got = run_node(lambda names: node("Meq" + cls, "n", names, **state), [ch], full, update=update)
    mask = -1 if case["mask"] is None else case["mask"]
    sh = ch.shape()
    # the grid reduced over
    g = tuple(full) if sh is None else tuple(list(sh) + [1] * (2 - len(sh)))
    red = (0, 1) if case["axes"] is None else tuple(sorted({"time": 0, "freq": 1}.get(a, a) for a in case["axes"]))
    planes = []
    for p in ch.planes:
        if p.fail is not None or p.missing: planes.append(p); continue
        f = None if p.f is None or not mask else (bc(p.f, g) & np.int32(mask))
        m = np.ones(g, bool) if f is None else f == 0
        def ev(v):
            return stat(cls, bc(v, g), m, red, full)
        # Min, Max, Mean, StdDev, Rms do not depend on how often a value counts
        q = Plane(ev(p.v), None, p.spids, p.nset, {k: ev(v) for k, v in p.pv.items()}, perts=p.perts)
        none = m.sum(axis=red, keepdims=True) == 0
        if f is not None and none.any(): q.f = np.where(none, np.int32(mask), np.int32(0))
        planes.append(q)
    want = Res(ch.dims, planes)
    compare_flags_loose(ctx, got, want, g, mask)
    code_check(ctx, rc, want)
    ctx.trivial(not any(p.f is not None or (p.v is not None and np.shape(p.v) != g) for p in ch.planes) and case["axes"] is None)

def compare_flags_loose(ctx, got, want, full, mask):
    """flag values of fully flagged output: any value with a bit of the mask"""
    for g, w in zip(got["planes"], want.planes):
        if "f" in g and w.f is not None:
            fl = bc(as_arr(g["f"]), full)
            wf = bc(w.f, full)
            w.f = np.where((wf != 0) & ((fl & np.int32(mask)) != 0), fl, wf)
    compare(ctx, got, want, full, rtol=1e-8, atol=1e-7)
