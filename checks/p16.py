"""Flagging nodes against bit arithmetic at every point."""
from fmodel import *
import vfw
from p03 import masks_of
from p13 import run_node, propagated

P = vfw.Property("P16",
    rule="a case is one flagging node over generated child results (tensor dimensions, missing and failed planes, collapsed values, "
         "flags of other shapes than the values, perturbed values); non-trivial if flags are present on input or expected on output",
    assumptions=["children return results on the grid of the request",
                 "with a single child MergeFlags may drop or keep flag bits outside its mask"])
P.setup = lambda: vt.init(0, 1)

def copy(p, f): return Plane(p.v, f, p.spids, p.nset, p.pv, perts=p.perts) if p.v is not None else p

OPS = dict(EQ=lambda v: v == 0, NE=lambda v: v != 0, LT=lambda v: v < 0, GT=lambda v: v > 0, LE=lambda v: v <= 0, GE=lambda v: v >= 0)

@st.composite
def zero_cases(draw):
    full = draw(grids())
    c = draw(result(full, kinds="rrrrrrrrrrc" if draw(st.integers(0, 5)) == 0 else "r", spids=(1, 3), nset=draw(st.sampled_from([1, 2]))))
    state = {}
    op = draw(st.sampled_from([None] + sorted(OPS)))
    if op: state["oper"] = draw(st.sampled_from([op, op.lower()]))
    b = draw(st.sampled_from([None, 1, 2, 4, 3, 128, 1 << 30, 0]))
    if b is not None: state["flag_bit"] = b
    if draw(st.integers(0, 3)) == 0: state["force_output"] = True
    was = {k: draw(st.sampled_from(dict(oper=sorted(OPS), flag_bit=[1, 2, 4, 0], force_output=[False, True])[k])) for k in sorted(state) if draw(st.booleans())}
    return dict(full=full, ch=c, state=state, hiid=draw(st.booleans()), was=was if draw(st.booleans()) else {})

@P.check("zeroflagger", zero_cases(), quick=10000, thorough=400000, shards=8)
def zero(case, ctx):
    full, c, state = case["full"], realise(case["ch"]), dict(case["state"])
    op = OPS[state.get("oper", "NE").upper()]
    bit = state.get("flag_bit", 1)
    if "oper" in state and case["hiid"]: state["oper"] = dmi.hiid(state["oper"])
    rc, got = run_node(lambda names: node("MeqZeroFlagger", "n", names, **(case["was"] or state)), [c], full, update=state if case["was"] else None)
    if propagated(ctx, rc, got, [c]): return
    if any(p.v is not None and np.iscomplexobj(p.v) for p in c.planes):
        if not rc & RES_FAIL: ctx.fail("complex values accepted, code %#x" % rc)
        ctx.label("complex refused"); return
    pl = []
    for p in c.planes:
        if p.v is None: pl.append(p); continue
        new = np.where(op(p.v), np.int32(bit), np.int32(0))
        if new.any(): f = new if p.f is None else f_or(new, p.f)
        elif p.f is None and state.get("force_output"): f = np.zeros((1, 1), np.int32)
        else: f = p.f
        pl.append(copy(p, f))
    want = Res(c.dims, pl)
    compare(ctx, got, want, full, rtol=0, atol=0)
    for p, g in zip(pl, got["planes"]):
        if state.get("force_output") and p.v is not None and "f" not in g: ctx.fail("no flags in the output although these are forced")
    code_check(ctx, rc, want)
    ctx.label(str(case["state"].get("oper", "default")))
    ctx.trivial(not any(p.f is not None for p in pl))

@st.composite
def merge_cases(draw):
    full = draw(grids())
    n = draw(st.sampled_from([1, 2, 2, 3]))
    d0 = draw(st.sampled_from([[], [2], [2], [2, 2], [3]]))
    nset = draw(st.sampled_from([1, 2]))
    ch = [draw(result(full, dims=d0, spids=(1, 3), nset=nset))]
    for _ in range(n - 1):
        ch.append(draw(result(full, dims=draw(st.sampled_from([d0, d0, [], [2], [3], [2, 2]])), spids=(1,), nset=nset)))
    masks = draw(st.sampled_from([None, None, -1, 0, 1, 2, "each"]))
    if masks == "each": masks = [draw(st.sampled_from([-1, 0, 1, 2, 3])) for _ in range(n)]
    return dict(full=full, ch=ch, masks=masks, all=draw(st.sampled_from([None, False, True])),
                was=draw(st.sampled_from([None, None, [-1, False], [0, True], [1, True], [2, False]])))

@P.check("mergeflags", merge_cases(), quick=10000, thorough=400000, shards=8)
def merge(case, ctx):
    full, ch = case["full"], [realise(c) for c in case["ch"]]
    state = {}
    if case["masks"] is not None: state["flag_mask"] = case["masks"]
    if case["all"] is not None: state["merge_all"] = case["all"]
    masks = masks_of(case["masks"], len(ch))
    rc, got = run_node(lambda names: node("MeqMergeFlags", "n", names, **(dict(zip(state, [dict(flag_mask=case["was"][0], merge_all=case["was"][1])[k] for k in state])) if case["was"] else state)), ch, full,
                       update=state if case["was"] else None)
    if propagated(ctx, rc, got, ch): return
    first = ch[0]
    fl = [p.f if p.v is not None else None for p in first.planes]
    def masked(p, m): return None if p.v is None or p.f is None or not m else (p.f & np.int32(m))
    def orr(a, b): return b if a is None else a if b is None else f_or(a, b)
    n0 = len(fl)
    d = lambda c: list(c.dims) if len(c.planes) > 1 else []
    if len(ch) == 1:
        if n0 > 1:
            own = fl
            tot = None
            for p in first.planes: tot = orr(tot, masked(p, masks[0]))
            fl = [orr(f, tot) for f in fl]
            # bits outside the mask may be kept or dropped: take over what is there, if legal
            if tot is not None:
                for i, g in enumerate(got["planes"]):
                    if i < n0 and first.planes[i].v is not None:
                        gf = bc(as_arr(g["f"]), full) if "f" in g else np.zeros(full, np.int32)
                        rest = np.int32(~masks[0])
                        o = np.zeros(full, np.int32) if own[i] is None else bc(own[i], full)
                        if np.any(gf & rest & ~o): ctx.fail("plane %d: flags %s outside the mask appeared" % (i, gf.tolist()))
                        fl[i] = (bc(fl[i], full) & np.int32(masks[0])) | (gf & rest)
    else:
        for c, m in list(zip(ch, masks))[1:]:
            if not m: continue
            src = [masked(p, m) for p in c.planes]
            if case["all"] or (d(c) and not d(first)):
                tot = None
                for f in src: tot = orr(tot, f)
                fl = [orr(f, tot) for f in fl]
            elif d(c) == d(first): fl = [orr(f, s) for f, s in zip(fl, src)]
            elif not d(c): fl = [orr(f, src[0]) for f in fl]
            else: fl = None; break
    if fl is None:
        if not rc & RES_FAIL: ctx.fail("children with different dimensions accepted, code %#x" % rc)
        ctx.label("refused"); return
    want = Res(first.dims, [copy(p, f) for p, f in zip(first.planes, fl)])
    compare(ctx, got, want, full, rtol=0, atol=0)
    code_check(ctx, rc, want)
    ctx.label("%d children" % len(ch))
    ctx.trivial(all(p.f is None for c in ch for p in c.planes))
