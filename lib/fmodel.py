"""Generated results, the node function model, and comparison of results over the full grid."""
from vmeq import *
from hypothesis import strategies as st
import arr
from arr import make, bc, bshape, close, ShapeError

# ---- grids and requests -------------------------------------------------------------------
def grid(full):
    dom = meq.gen_domain(time=(0, max(full[0], 1)), freq=(1, 1 + (full[1] if len(full) > 1 else 1)))
    return meq.gen_cells(dom, num_time=full[0], num_freq=full[1] if len(full) > 1 else 1)

_rq = [0]
def request(cells, new=True, **kw):
    if new: _rq[0] += 1
    return meq.request(cells, rqid=meq.requestid(domain_id=1 + _rq[0] % 30000), **kw)

# ---- strategies ---------------------------------------------------------------------------
def pert(spid, iset):
    """the perturbation of a parameter, the same wherever it occurs"""
    d = 2.0 ** -(spid % 5 + 3)
    return d if iset == 0 else -d / 2

@st.composite
def values(draw, full, kinds, styles):
    s = draw(arr.sub_shapes(full))
    a = dict(s=s, k=draw(st.sampled_from(kinds)), t=draw(st.sampled_from(styles)), x=draw(arr.seeds()))
    if np.prod(s) == 1 and a["t"] == 0: a["t"] = 1     # keep clear of exact zero constants
    return a

@st.composite
def plane(draw, full, kinds="rc", styles=(0, 1, 2), spids=(), nset=1, fails=True, missing=True, flags=True):
    m = draw(st.integers(0, 19))
    if fails and m == 0: return dict(fail=["failure %d" % draw(st.integers(0, 3)) for _ in range(draw(st.integers(1, 2)))])
    if missing and m == 1: return {}
    p = dict(v=draw(values(full, kinds, styles)))
    if flags and draw(st.integers(0, 2)) == 0:
        p["f"] = dict(s=draw(arr.sub_shapes(full)), k="f", t=draw(st.integers(0, 3)), x=draw(arr.seeds()))
    ids = sorted(draw(st.sets(st.sampled_from(spids), max_size=3))) if spids and draw(st.booleans()) else []
    if ids:
        p["spids"] = ids
        p["nset"] = nset
        p["pv"] = [[draw(values(full, [p["v"]["k"]], [p["v"]["t"]])) for _ in ids] for _ in range(nset)]
    return p

DIMS = ([], [], [], [2], [2], [3], [2, 2], [2, 1], [1, 3])

@st.composite
def result(draw, full, dims=None, **kw):
    d = draw(st.sampled_from(DIMS)) if dims is None else dims
    n = int(np.prod(d)) if d else 1
    return dict(dims=d, planes=[draw(plane(full, **kw)) for _ in range(n)])

@st.composite
def grids(draw, maxdim=4):
    return [draw(st.integers(1, maxdim)), draw(st.integers(1, maxdim))]

# ---- realisation --------------------------------------------------------------------------
class Plane:
    """v,f: arrays or None; perturbed values by (set,spid)"""
    def __init__(self, v=None, f=None, spids=(), nset=0, pv=None, fail=None, perts=None):
        self.v, self.f, self.spids, self.nset, self.pv, self.fail, self.perts = v, f, list(spids), nset, pv or {}, fail, perts or {}
    @property
    def missing(self):
        return self.fail is None and self.v is None
    def isnull(self):
        return self.v is None or (not self.spids and np.size(self.v) == 1 and self.v.reshape(-1)[0] == 0)
    def shapes(self):
        return [np.shape(x) for x in [self.v, self.f] + list(self.pv.values()) if x is not None]
    def shape(self):
        s = [x for x in self.shapes() if np.prod(x) > 1 or len(x) > 1]
        s = [x for x in self.shapes() if np.prod(x) > 1]
        return bshape(*s) if s else None

class Res:
    def __init__(self, dims, planes):
        self.dims, self.planes = list(dims), planes
    def shape(self):
        s = [p.shape() for p in self.planes if p.fail is None]
        s = [x for x in s if x]
        return bshape(*s) if s else None

def realise(spec):
    pl = []
    for p in spec["planes"]:
        if "fail" in p: pl.append(Plane(fail=list(p["fail"])))
        elif "v" not in p: pl.append(Plane())
        else:
            ids = p.get("spids", [])
            ns = p.get("nset", 1) if ids else 0
            pl.append(Plane(make(p["v"]), make(p["f"]) if "f" in p else None, ids, ns,
                            {(s, i): make(p["pv"][s][j]) for s in range(ns) for j, i in enumerate(ids)},
                            perts={(s, i): pert(i, s) for s in range(ns) for i in ids}))
    return Res(spec["dims"], pl)

def to_spec(res, cells=None, force_cells=False):
    out = dict(dims=list(res.dims) if res.dims else None, cells=None, planes=[])
    for p in res.planes:
        if p.fail is not None: out["planes"].append(dict(fail=p.fail)); continue
        if p.missing: out["planes"].append({}); continue
        q = dict(v=np.ascontiguousarray(p.v))
        if p.f is not None: q["f"] = np.ascontiguousarray(p.f)
        if p.spids:
            q.update(spids=p.spids, perts=[[p.perts[s, i] for i in p.spids] for s in range(p.nset)],
                     pv=[[np.ascontiguousarray(p.pv[s, i]) for i in p.spids] for s in range(p.nset)])
        out["planes"].append(q)
    if cells is not None and (force_cells or res.shape() is not None or any(len(s) > 1 for p in res.planes for s in p.shapes())):
        out["cells"] = cells
    return out

# ---- node function model ------------------------------------------------------------------
class FailPlane(Exception): pass
class Unspecified(Exception): pass

def merge_flags(planes, masks):
    f = None
    for p, m in zip(planes, masks):
        if p is None or p.isnull() or p.f is None or not m: continue
        g = p.f & np.int32(m) if m != -1 else p.f
        f = g if f is None else f_or(f, g)
    return f

def f_or(a, b):
    s = bshape(np.shape(a), np.shape(b))
    return bc(a, s) | bc(b, s)

def function(children, fn, masks=None, allow_missing=False, flagfn=None):
    """children: Res list; fn(values[(array,flags)|None per child], shape)->array.  -> Res with planes"""
    masks = masks or [-1] * len(children)
    dims = list(children[0].dims) if children else []
    for c in children[1:]:
        if c.dims:
            if not dims: dims = c.dims
            elif dims != c.dims: raise FailPlane("dims")
    n = int(np.prod(dims)) if dims else 1
    out = []
    for i in range(n):
        ps = [c.planes[i if c.dims else 0] for c in children]
        fails = [m for p in ps if p.fail is not None for m in p.fail]
        if fails:
            out.append(Plane(fail=fails)); continue
        nm = sum(p.missing for p in ps)
        if nm and (nm == len(ps) or not allow_missing):
            out.append(Plane()); continue
        if not children:
            out.append(Plane(fn([], None))); continue
        live = [None if p.missing else p for p in ps]
        def ev(over=None):
            vals = []
            for p in live:
                if p is None: vals.append(None)
                else: vals.append((arr.align(p.pv[over] if over in p.pv else p.v, 2), p.f))
            return fn(vals)
        spids = sorted(set(s for p in live if p is not None for s in p.spids))
        nset = max([p.nset for p in live if p is not None])
        with np.errstate(all="ignore"):
            try:
                q = Plane(ev(), None, spids, nset)
                q.f = (flagfn or merge_flags)(live, masks)
                for s in range(nset):
                    for k in spids:
                        q.pv[s, k] = ev((s, k)); q.perts[s, k] = pert(k, s)
            except FailPlane as e:
                q = Plane(fail=None); q.fail = [str(e)]
                q.anyfail = True
        out.append(q)
    return Res(dims, out)

# ---- comparison ---------------------------------------------------------------------------
def as_arr(x):
    x = np.atleast_1d(x)
    return x.astype(np.int32) if x.dtype == np.int64 else x

def compare(ctx, got, want, full, rtol=1e-9, atol=1e-12, skip_flagged=False, pre="", lenient_spids=False, check_fail_text=True, scalefn=None):
    """got: plain result as returned by vt.run; want: Res"""
    full = tuple(full)
    if all(p.missing for p in want.planes):
        if any("v" in p or "fail" in p for p in got["planes"]): ctx.fail(pre + "all planes are to be missing, got %s" % got)
        return
    if all(p.fail is not None for p in want.planes):
        if not got["planes"] or not all("fail" in p for p in got["planes"]): ctx.fail(pre + "all planes are to fail, got %s" % got)
        msgs = " ".join(m for p in got["planes"] for m in p["fail"])
        for p in want.planes:
            for m in p.fail:
                if check_fail_text and not getattr(p, "anyfail", False) and m not in msgs: ctx.fail(pre + "lost the fail '%s', has %s" % (m, msgs))
        return
    if list(got["dims"]) != list(want.dims) and len(want.planes) > 1:
        ctx.fail(pre + "result has dimensions %s, expected %s %s" % (list(got["dims"]), list(want.dims), [p["fail"] for p in got["planes"] if "fail" in p]))
    if len(got["planes"]) != len(want.planes):
        ctx.fail(pre + "result has %d planes, expected %d" % (len(got["planes"]), len(want.planes)))
    for i, (g, w) in enumerate(zip(got["planes"], want.planes)):
        pp = pre + "plane %d: " % i
        if w.fail is not None:
            if "fail" not in g: ctx.fail(pp + "expected to fail (%s), got %s" % (w.fail, g))
            if check_fail_text and not getattr(w, "anyfail", False):
                for m in w.fail:
                    if not any(m in x for x in g["fail"]): ctx.fail(pp + "lost the fail '%s', has %s" % (m, g["fail"]))
            continue
        if "fail" in g: ctx.fail(pp + "failed with %s" % g["fail"])
        if w.missing:
            if "v" in g: ctx.fail(pp + "expected no value, got %s" % g["v"])
            continue
        if "v" not in g: ctx.fail(pp + "has no value")
        try: gv = bc(as_arr(g["v"]), full)
        except ShapeError as e: ctx.fail(pp + "value: " + str(e))
        gf = None
        if "f" in g:
            try: gf = bc(as_arr(g["f"]), full)
            except ShapeError as e: ctx.fail(pp + "flags: " + str(e))
        zero = np.zeros(full, np.int32)
        gff = zero if gf is None else gf
        wf = zero if w.f is None else bc(w.f, full)
        if not np.array_equal(gff, wf): ctx.fail(pp + "flags %s, expected %s" % (gff.tolist(), wf.tolist()))
        if "vf" in g and (gf is None or not np.array_equal(bc(as_arr(g["vf"]), full), gf)):
            ctx.fail(pp + "flags of the value differ from the flags of the plane")
        if gf is not None and "vf" not in g: ctx.fail(pp + "value lacks the flags of the plane")
        sk = (wf != 0) if skip_flagged else np.zeros(full, bool)
        def cmp(a, b, what):
            b = bc(b, full)
            try: a = bc(as_arr(a), full)
            except ShapeError as e: ctx.fail(pp + what + ": " + str(e))
            a = np.where(sk, 0, a); b = np.where(sk, 0, b)
            if not close(a, b, rtol, atol): ctx.fail(pp + "%s %s, expected %s" % (what, a.tolist(), b.tolist()))
        cmp(g["v"], w.v, "value")
        sp = list(g.get("spids", []))
        if not lenient_spids and sp != list(w.spids): ctx.fail(pp + "perturbed parameters %s, expected %s" % (sp, w.spids))
        for s in range(max(w.nset, 1) if w.spids or sp else 0):
            for k in sorted(set(w.spids) | set(sp)):
                wv = w.pv.get((s, k), w.v)
                if k in sp:
                    j = sp.index(k)
                    if len(g["pv"]) <= s: ctx.fail(pp + "has %d perturbation sets, expected %d" % (len(g["pv"]), w.nset))
                    if g["perts"][s][j] != pert(k, s) and k in w.spids:
                        ctx.fail(pp + "perturbation of parameter %d is %r, expected %r" % (k, g["perts"][s][j], pert(k, s)))
                    cmp(g["pv"][s][j], wv, "perturbed value of parameter %d, set %d:" % (k, s))
                else:
                    cmp(g["v"], wv, "value not perturbed by parameter %d, set %d:" % (k, s))
    if "cells" in got:
        pass

def code_check(ctx, rc, want, pre=""):
    """result code: failed if all planes failed"""
    allfail = all(p.fail is not None for p in want.planes)
    if bool(rc & RES_FAIL) != allfail:
        ctx.fail(pre + "result code %#x while %d of %d planes are to fail" % (rc, sum(p.fail is not None for p in want.planes), len(want.planes)))
