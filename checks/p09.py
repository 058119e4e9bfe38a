"""Programs over parameter functions against numpy polynomials."""
from vmeq import *
from hypothesis import strategies as st
import numpy as np, math, copy
import vfw
from Timba import dmi as tdmi

P = vfw.Property("P09",
    rule="a case is a program of up to 8 operations on three parameter functions, which are evaluated after each; "
         "non-trivial if a function with more than one coefficient is evaluated with perturbations, after an update, or in another normalisation, or is a composite",
    assumptions=["polynomials of up to 4 by 4 coefficients, composites of polynomials along axes 0 and 1 with tiles that do not overlap, splines of 4 to 12 points along axis 0",
                 "grids lie inside the domain of a function, unless it is part of a composite",
                 "a rank 2 polynomial with four or more coefficients and no mask is solvable in its upper left triangle and loses the other coefficients"])
P.setup = lambda: vt.init(0, 1)
AX = ["time", "freq", "l", "m"]
R = 3
num = st.sampled_from([0., 1., -1., 2., 0.5, -3., 1.5, 4., 0.25])
PERT = 1e-6

@st.composite
def coeffs(draw, small=False):
    k = draw(st.integers(0, 5))
    m = 3 if small else 4
    shape = [] if k == 0 else [draw(st.integers(1, m))] if k < 3 else [draw(st.integers(1, m)), draw(st.integers(1, m))]
    n = int(np.prod(shape)) if shape else 1
    return [shape, [draw(num) for _ in range(n)]]

@st.composite
def polcs(draw):
    c = draw(coeffs())
    ax = draw(st.sampled_from([None, None, None, [0, 1], [1, 0], [1], [0], [2], [0, 2], [3, 1], [2, 0], [1, 2]]))
    rank = 2 if ax is None else len(ax)
    if rank < len(c[0]): ax = [ax[0], (ax[0] + 1) % 4]
    d = dict(c=c, ax=ax)
    if draw(st.booleans()): d["off"] = [draw(num) for _ in range(2)]
    if draw(st.booleans()): d["sc"] = [draw(st.sampled_from([1., 2., 0.5, -1., 10., 0.])) for _ in range(2)]
    if draw(st.booleans()): d["dom"] = draw(st.sampled_from(["all", "all", "two", "one", "other"]))
    if draw(st.integers(0, 3)) == 0: d["log"] = draw(st.sampled_from([None, [0., 1.], [1., 0.], [2., 3.], [0., 0.5]]))
    if draw(st.integers(0, 3)) == 0: d["pert"] = draw(st.sampled_from([1e-3, 1e-6, 0.5]))
    return d

@st.composite
def grids_(draw):
    n = [draw(st.integers(1, 5)), draw(st.integers(1, 4)), draw(st.integers(1, 2)), draw(st.integers(1, 2))]
    lo = [draw(st.sampled_from([0., 1., -2., 3.])) for _ in range(4)]
    return [[a, a + draw(st.sampled_from([1., 2., 4., 8.])), k] for a, k in zip(lo, n)]

@st.composite
def progs(draw):
    g = draw(grids_())
    ops = [["set", 0, draw(polcs())]]
    if draw(st.integers(0, 3)) == 0:
        # a composite over tiles
        same = draw(st.booleans())
        nt = [draw(st.integers(1, min(3, g[0][2]))), draw(st.integers(1, min(3, g[1][2])))]
        k = draw(coeffs(True))
        tiles = [[(k if same else draw(coeffs(True)))[0]] for _ in range(nt[0] * nt[1])]
        for t in tiles: t.append([draw(num) for _ in range(int(np.prod(t[0])) if t[0] else 1)])
        skip = draw(st.lists(st.integers(0, 8), max_size=1)) if len(tiles) > 1 else []
        ops[0] = ["tiles", 0, nt, tiles, skip, draw(st.sampled_from([0., 1., -7.])), draw(st.permutations(range(len(tiles)))), same]
    for _ in range(draw(st.integers(0, 7))):
        k = draw(st.sampled_from(["set", "ref", "ref", "copy", "copy", "trip", "solvable", "solvable", "solvable", "clear", "update", "update", "update", "solvedom", "solvedom", "solvedomain", "shape"]))
        dst = draw(st.integers(0, R - 1))
        if k == "set": a = [draw(polcs())]
        elif k in ("ref", "trip"): a = [draw(st.integers(0, R - 1))]
        elif k == "copy": a = [draw(st.integers(0, R - 1)), draw(st.sampled_from([0, 100]))]
        elif k == "solvable": dst = draw(st.sampled_from([0, 0, dst])); a = [draw(st.sampled_from([0, 256, 1024])), draw(st.one_of(st.none(), st.none(), st.lists(st.integers(0, 1), min_size=16, max_size=16)))]
        elif k == "clear": a = []
        elif k == "update":
            dst = draw(st.sampled_from([0, 0, dst]))
            a = [draw(st.integers(0, 2)), [draw(num) for _ in range(36)], [draw(st.sampled_from([-2., 0., 1.])) for _ in range(8)], [draw(st.sampled_from([1., 2., 5.])) for _ in range(8)], draw(st.integers(0, 3)) == 0]
        elif k == "solvedom": a = [draw(st.sampled_from([[0., 1.], [-1., 1.], [0., 10.], [1., 2.]]))]
        elif k == "solvedomain": a = [draw(st.sampled_from([[0., 1., 0., 1.], [-1., 1., 0., 2.]]))]
        elif k == "shape": a = [draw(st.lists(st.integers(1, 4), min_size=1, max_size=2))]
        ops.append([k, dst] + a)
    return dict(grid=g, ops=ops)

def cells_of(g): return meq.gen_cells(meq.gen_domain(**{a: x[:2] for a, x in zip(AX, g)}), **{"num_" + a: x[2] for a, x in zip(AX, g)})
def centers(g): return [x[0] + (x[1] - x[0]) / x[2] * (np.arange(x[2]) + .5) for x in g]

class Poly:
    def __init__(self, c, ax=(0, 1), off=(0., 0.), sc=(1., 1.), dom=None, log=None, pert=PERT):
        self.c = np.array(c, dtype=float)
        self.ax, self.off, self.sc = list(ax), list(off), list(sc)
        self.dom, self.log, self.pert, self.mask, self.spids, self.idx = dom, log, pert, None, [], None
    def at(self, cen, shape, k=None, d=0.):
        """value over the full grid, and the sum of the magnitudes of its terms"""
        c = self.c.copy()
        if k is not None: c.reshape(-1)[k] += d
        v, mag = np.zeros(shape), np.zeros(shape)
        b = []
        for i in range(c.ndim):
            x = cen[self.ax[i]]
            if c.shape[i] > 1:
                s = self.log[self.ax[i]] if self.log is not None and self.ax[i] < len(self.log) else 0.
                if s and s * x[0] > 0 and s * x[-1] > 0: x = np.log10(x / s)
                x = (x - self.off[i]) / (self.sc[i] or 1.)
            sh = [1] * len(shape); sh[self.ax[i]] = len(x)
            b.append(x.reshape(sh))
        for ij in np.ndindex(*c.shape):
            t = c[ij] * np.ones(shape)
            for i, p in enumerate(ij):
                if p: t = t * b[i] ** p
            v += t; mag += abs(t)
        return v, mag
    def deps(self): return {self.ax[i] for i in range(self.c.ndim) if self.c.shape[i] > 1}
    def solvable(self, spid, mask):
        c = self.c
        if mask is None and c.ndim == 2 and c.size >= 4 and self.mask is None:
            tri = [x + y <= max(c.shape) - 1 for x in range(c.shape[0]) for y in range(c.shape[1])]
            c.reshape(-1)[[i for i, t in enumerate(tri) if not t]] = 0.
            mask = self.mask = tri
        elif mask is None: mask = self.mask
        if mask is None: mask = [True] * c.size
        self.idx = []; n = 0
        for m in mask:
            self.idx.append(n if m else -1); n += bool(m)
        self.spids = [spid + i for i in range(n)]
        return n
    def clear(self): self.spids, self.idx = [], None
    def update(self, vals, mode, lo, hi, pos):
        f = self.c.reshape(-1)
        if mode == 1 and f.size > 1: pos = False
        for i, k in enumerate(self.idx or []):
            if k < 0: continue
            f[i] += vals[k]
            if mode == 1 and f.size == 1: f[i] = max(min(f[i], hi[0]), lo[0])
            if mode == 2:
                if i < len(hi): f[i] = min(f[i], hi[i])
                if i < len(lo): f[i] = max(f[i], lo[i])
            if pos and f.size == 1: f[i] = abs(f[i])

class Tiles:
    def __init__(self, parts, default): self.parts, self.default = parts, default      # parts in order of domain
    def at(self, cen, shape, k=None, d=0.):
        v, mag = np.full(shape, float(self.default)), np.zeros(shape)
        for p in self.parts:
            pv, pm = p.at(cen, shape, k, d)
            w = np.ones(shape, bool)
            for a, (x, y) in p.dom.items():
                sh = [1] * len(shape); sh[a] = len(cen[a])
                w &= ((cen[a] >= x) & (cen[a] <= y)).reshape(sh)
            v[w] = pv[w]; mag[w] = pm[w]
        return v, mag + abs(v)
    spids = property(lambda s: s.parts[0].spids)
    idx = property(lambda s: s.parts[0].idx)
    c = property(lambda s: s.parts[0].c)
    pert = property(lambda s: s.parts[0].pert)
    def solvable(self, spid, mask): return [p.solvable(spid, mask) for p in self.parts][0]
    def clear(self):
        for p in self.parts: p.clear()
    def update(self, vals, mode, lo, hi, pos):
        n = len(self.parts)
        for t, p in enumerate(self.parts): p.update([vals[k * n + t] for k in range(len(self.spids))], mode, lo, hi, pos)
    def deps(self): return None

DOMS = {"all": [0, 1, 2, 3], "two": [0, 1], "one": [1], "other": [2]}
def make(d, g):
    """record and model"""
    shape, vals = d["c"]
    c = np.array(vals, dtype=float).reshape(shape)
    ax = d["ax"]; n = 2 if ax is None else len(ax)
    kw = {}
    if "off" in d: kw["offset"] = d["off"][:n] if ax else d["off"]
    if "sc" in d: kw["scale"] = d["sc"][:n] if ax else d["sc"]
    if ax is not None: kw["axis_index"] = list(ax)
    dom = None
    if "dom" in d:
        dom = {a: (g[a][0] - 1., g[a][1] + 2.) for a in DOMS[d["dom"]]}
        kw["domain"] = meq.gen_domain(**{AX[a]: x for a, x in dom.items()})
    if "pert" in d: kw["pert"] = d["pert"]
    sub = meq._polclog_type if "log" in d else meq._polc_type
    rec = meq.polc(c if shape else float(c), subclass=sub, **kw)
    log = None
    if "log" in d:
        log = d["log"] or [1., 1.]
        if d["log"]: rec.axis_list = tdmi.record(**{AX[i]: x for i, x in enumerate(log)})
    m = Poly(c if shape else c.reshape(1), list(ax) if ax else [0, 1], (d.get("off") or [0., 0.])[:n] , (d.get("sc") or [1., 1.])[:n], dom, log, d.get("pert", PERT))
    return rec, m

def npert_of(vs): return [k for k in ("perturbed_value", "perturbed_value_1") if k in vs]

def full(v, shape): 
    a = np.asarray(v)
    a = a.reshape(a.shape + (1,) * (len(shape) - a.ndim))
    return np.broadcast_to(a, shape)

def check_eval(ctx, where, vs, f, g, npert, extra=None):
    cen = centers(g); shape = tuple(x[2] for x in g)
    want, mag = f.at(cen, shape)
    if extra is not None: mag = mag + extra.at(cen, shape)[1]     # rounding errors of the normalisation
    tol = 1e-11 * (mag + 1e-3)
    if isinstance(vs, str): ctx.fail("%s: %s" % (where, vs))
    if "value" not in vs: ctx.fail("%s: no value" % where)
    v = np.asarray(vs["value"])
    dep = f.deps()
    for i in range(v.ndim):
        if v.shape[i] not in (1, shape[i]): ctx.fail("%s: shape of the value is %s on a grid of %s" % (where, v.shape, shape))
        if dep is not None and v.shape[i] > 1 and i not in dep: ctx.fail("%s: value of shape %s although it does not depend on axis %d" % (where, v.shape, i))
    got = full(v, shape)
    if not (abs(got - want) <= tol).all(): ctx.fail("%s: values %s instead of %s" % (where, got.tolist(), want.tolist()))
    sp = f.spids if npert else []
    if list(np.atleast_1d(vs.get("spid_index", []))) != sp: ctx.fail("%s: spids %s instead of %s" % (where, vs.get("spid_index"), sp))
    if not sp: return
    cols = [k for k in range(f.c.size) if f.idx[k] >= 0]
    keys = ["perturbed_value", "perturbed_value_1"][:npert]
    for ip in range(npert):
        pv = vs.get(keys[ip])
        if pv is None: ctx.fail("%s: perturbed values %d missing: %s" % (where, ip, sorted(vs.keys())))
        pert = vs.get("perturbations" + ("_1" if ip else ""))
        want_p = [f.pert * (1 - 2 * ip)] * len(sp)
        if pert is None or not np.allclose(np.atleast_1d(pert), want_p, rtol=1e-14, atol=0): ctx.fail("%s: perturbations %s instead of %s" % (where, pert, want_p))
        for n, k in enumerate(cols):
            w, _ = f.at(cen, shape, k, want_p[n])
            got = full(pv[n], shape)
            if not (abs(got - w) <= tol).all(): ctx.fail("%s: set %d: perturbing coefficient %d gives %s instead of %s" % (where, ip, k, got.tolist(), w.tolist()))

@P.check("programs", progs(), quick=4000, thorough=200000, shards=8)
def programs(case, ctx):
    g = case["grid"]; cells = cells_of(g)
    cen = centers(g); shape = tuple(x[2] for x in g)
    regs = [None] * R
    ops, plan, nontriv = [], [], False
    def evals(why, m):
        for i in range(R):
            if m[i] is None: continue
            for np_ in (0, 1, 2):
                if np_ and not m[i].spids: continue
                ops.append(("eval", i, cells, np_)); plan.append(("eval", i, np_, copy.deepcopy(m[i]), why))
    def push(op, what=None): ops.append(op); plan.append(what)
    m = regs
    adopt = False
    for no, o in enumerate(case["ops"]):
        k, dst = o[0], o[1]; a = o[2:]
        if k not in ("set", "tiles", "ref", "copy", "trip") and m[dst] is None: continue
        if k in ("ref", "copy", "trip") and m[a[0]] is None: continue
        why = "operation %d %s" % (no, o)
        if k == "set":
            rec, f = make(a[0], g)
            push(("set", dst, rec)); m[dst] = f
        elif k == "tiles":
            nt, tiles, skip, default, order, same = a
            parts = []
            cut = [[gg[0] + (gg[1] - gg[0]) / gg[2] * (i * gg[2] // n) for i in range(n)] + [gg[1]] for gg, n in zip(g, nt)]
            for i in range(nt[0]):
                for j in range(nt[1]):
                    n = i * nt[1] + j
                    sh, vals = tiles[n]
                    p = Poly(np.array(vals, float).reshape(sh or [1]), dom={0: (cut[0][i], cut[0][i + 1]), 1: (cut[1][j], cut[1][j + 1])})
                    if n not in skip: parts.append((n, p))
            regs_ = []
            sel = [x for n in order for x in parts if x[0] == n]
            for n, p in sel:
                sh = tiles[n][0]
                push(("set", R + len(regs_), meq.polc(p.c if sh else float(p.c[0]), domain=meq.gen_domain(time=p.dom[0], freq=p.dom[1]))))
                regs_.append(R + len(regs_))
            push(("compose", dst, regs_, default))
            m[dst] = Tiles([p for n, p in parts], default)
            m[dst].same = same
            nontriv = True
        elif k in ("ref", "copy", "trip"):
            push((k, dst) + tuple(a)); f = copy.deepcopy(m[a[0]])
            if k == "trip": f.clear()
            if isinstance(f, Tiles) and k == "trip": f.default = 0.     # not part of the record
            m[dst] = f
        elif k == "solvable":
            f = m[dst]
            if isinstance(f, Tiles) and (not f.same): continue
            if isinstance(f, Tiles) and a[1] is not None: continue
            mask = None if a[1] is None else [bool(x) for x in a[1][:f.c.size]]
            n = f.solvable(a[0], mask)
            push(("solvable", dst, a[0], mask), ("ret", n, why))
            nontriv = nontriv or f.c.size > 1
        elif k == "clear":
            if isinstance(m[dst], Tiles): continue
            push(("clear", dst)); m[dst].clear()
        elif k == "update":
            f = m[dst]
            if not f.spids: continue
            mode, vals, lo, hi, pos = a
            n = len(f.spids) * (len(f.parts) if isinstance(f, Tiles) else 1)
            vals = (vals * (n // len(vals) + 1))[:n]
            f.update(vals, mode, lo, hi, pos)
            push(("update", dst, mode, vals, [lo[0], hi[0]] if mode == 1 else [lo, hi], int(pos)))
        elif k in ("solvedom", "solvedomain"):
            f = m[dst]
            push((k, dst, a[0] if k == "solvedom" else meq.gen_domain(time=a[0][:2], freq=a[0][2:])))
            push(("state", dst), ("adopt", dst, copy.deepcopy(f), a[0][:2], a[0][2:] or a[0], why))
            for x in m:
                if isinstance(x, Tiles): x.clear()
            evals(why, m)
            break            # later coefficients are those of the new normalisation
        elif k == "shape":
            f = m[dst]
            if isinstance(f, Tiles): continue
            push(("clear", dst)); f.clear()
            push(("shape", dst, a[0]))
            new = np.zeros(a[0] if list(f.c.shape) != a[0] else f.c.shape)
            if len(a[0]) > len(f.ax): break
            for ij in np.ndindex(*f.c.shape):
                if all(i < (new.shape[n] if n < new.ndim else 1) for n, i in enumerate(ij)): new[(ij + (0, 0))[:new.ndim]] = f.c[ij]
            f.c = new; f.mask = None if f.mask and len(f.mask) != f.c.size else f.mask
        evals(why, m)
    outs = vt.funklet_prog(ops, R + 10)
    adopted = {}
    for o, p, r in zip(ops, plan, outs):
        if p is None:
            if isinstance(r, str): ctx.fail("%s: %s" % (o[:2], r))
        elif p[0] == "ret":
            if r != p[1]: ctx.fail("%s: returned %s instead of %s" % (p[2], r, p[1]))
        elif p[0] == "eval":
            f, np_ = p[3], p[2]
            extra = adopted.get(p[1])
            if p[1] in adopted:
                if adopted[p[1]] is None: np_ = 0 if "spid_index" not in r else None
                elif np_: f = adopted[p[1]]         # perturbations are those of the coefficients in the new normalisation
            if np_ is not None: check_eval(ctx, "%s, then register %d" % (p[4], p[1]), r, f, g, np_, extra)
        elif p[0] == "adopt" and not isinstance(p[2], Poly): adopted[p[1]] = None
        elif p[0] == "adopt":
            f = p[2]
            n = copy.deepcopy(f)
            n.c = np.asarray(r["coeff"], dtype=float).reshape(f.c.shape) if not isinstance(r, str) else n.c
            if not isinstance(r, str): n.off, n.sc = [list(np.atleast_1d(r[x])) for x in ("offset", "scale")]
            adopted[p[1]] = n
            nontriv = nontriv or f.c.size > 1
            if isinstance(r, str): ctx.fail("%s: %s" % (p[5], r))
            off, sc = np.atleast_1d(r["offset"]), np.atleast_1d(r["scale"])
            for i in range(f.c.ndim):
                ax = f.ax[i]
                if f.c.shape[i] < 2 or not f.dom or ax not in f.dom or f.log is not None or ("solvedomain" in p[5] and ax > 1): continue
                lim = p[3] if ax == 0 else p[4]
                x = [(e - off[i]) / sc[i] for e in f.dom[ax]]
                if not np.allclose(x, lim, atol=1e-9): ctx.fail("%s: domain %s along axis %d becomes %s instead of %s" % (p[5], f.dom[ax], ax, x, lim))
    for o in case["ops"]: ctx.label(o[0])
    ctx.trivial(not nontriv)

@st.composite
def splines(draw):
    n = draw(st.integers(4, 12))
    return dict(y=[draw(num) for _ in range(n)], n=draw(st.integers(1, 9)), dom=draw(st.sampled_from([[0., 1.], [0., 10.], [-3., 5.], [4e9, 4.001e9]])),
                up=[draw(num) for _ in range(n)], const=draw(st.integers(0, 5)) == 0, quad=draw(st.one_of(st.none(), st.lists(num, min_size=3, max_size=3))), mask=draw(st.one_of(st.none(), st.lists(st.integers(0, 1), min_size=n, max_size=n))),
                pert=draw(st.sampled_from([1, 2])))

@P.check("splines", splines(), quick=2000, thorough=100000, shards=8, rule="non-trivial if the points differ and some are solvable")
def spl(case, ctx):
    y = [case["y"][0]] * len(case["y"]) if case["const"] else case["y"]
    n = len(y)
    q = case["quad"]
    if q and not case["const"]: y = [q[0] + q[1] * k / (n - 1) + q[2] * (k / (n - 1)) ** 2 for k in range(n)]
    x0, x1 = case["dom"]
    dom = meq.gen_domain(time=(x0, x1), freq=(0., 1.))
    cells = meq.gen_cells(dom, num_time=case["n"], num_freq=1)
    mask = case["mask"]
    cols = [k for k in range(n) if mask is None or mask[k]]
    up = case["up"][:len(cols)] or [0.]
    ops = [("spline", 0, y, dom), ("solvable", 0, 512, None if mask is None else [bool(x) for x in mask]), ("eval", 0, cells, case["pert"]), ("copy", 1, 0, 0), ("update", 1, 0, up, [], 0), ("eval", 1, cells, 0), ("eval", 0, cells, 0)]
    y1 = list(y)
    for k, u in zip(cols, up): y1[k] += u
    ops += [("spline", 2, y1, dom), ("eval", 2, cells, 0)]
    ref = len(ops)
    for ip in range(case["pert"]):
        for k in cols:
            yk = list(y); yk[k] += PERT * (1 - 2 * ip)
            ops += [("spline", 3, yk, dom), ("eval", 3, cells, 0)]
    y2 = [2 * a + b for a, b in zip(y, y1)]
    ops += [("spline", 4, y2, dom), ("eval", 4, cells, 0)]
    r = vt.funklet_prog(ops, 5)
    for o, x in zip(ops, r):
        if isinstance(x, str): ctx.fail("%s: %s" % (o[:2], x))
    def val(v): return full(v, (case["n"],)).astype(float) if np.asarray(v).ndim < 2 else np.asarray(v).reshape(-1)
    base = val(r[2]["value"])
    mag = 1e4 * max(map(abs, y + y1))
    amp = 4. ** n * max(map(abs, y + y1 + [1.]))    # the recursion amplifies rounding errors
    def same(a, b, what, tol=1e-14):
        if a.shape != b.shape or not (abs(a - b) <= tol * amp * 100).all(): ctx.fail("%s: %s instead of %s" % (what, a.tolist(), b.tolist()))
    if (np.asarray(val(r[6]["value"])) != base).any(): ctx.fail("value %s with and %s without perturbations" % (base, val(r[6]["value"])))
    if len(set(y)) == 1: same(base, np.full(case["n"], y[0]), "spline through equal points")
    if q and not case["const"]:
        t = (np.arange(case["n"]) + .5) / case["n"]
        same(base, q[0] + q[1] * t + q[2] * t * t, "spline through points of a parabola", 1e-12)
    same(val(r[5]["value"]), val(r[8]["value"]), "value after the update")
    if cols:
        i = ref
        for ip in range(case["pert"]):
            pv = r[2].get(["perturbed_value", "perturbed_value_1"][ip])
            if pv is None or len(pv) != len(cols): ctx.fail("perturbed values %s of %d points" % (pv, len(cols)))
            for m, k in enumerate(cols):
                same(val(pv[m]), val(r[i + 1]["value"]), "set %d: spline with point %d moved" % (ip, k)); i += 2
    same(val(r[-1]["value"]), 2 * base + val(r[8]["value"]), "sum of splines", 1e-13)
    ctx.label("points:%d" % n)
    ctx.trivial(len(set(y)) == 1 or not cols)
