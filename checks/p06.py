"""Programs over grids and domains against lists of cells."""
from vmeq import *
from hypothesis import strategies as st
import vfw, math

P = vfw.Property("P06",
    rule="a case is a program of up to 14 operations on five grids and five domains; after every operation all of them are compared with plain lists of "
         "cells and ranges; non-trivial if a grid is changed after it was copied, or two grids are combined, or an irregular axis is made",
    assumptions=["axes are given in monotonic order and with at least one cell", "binning is by integer factors that divide the number of cells",
                 "axes already present in a combination or superset may be taken from either grid if domain and number of cells match"])
P.setup = lambda: vt.init(0, 1)
N, MAX = 5, 8
reg = st.integers(0, N - 1)
axis = st.sampled_from([0, 0, 0, 1, 1, 1, 2, 3, 5, 7])
vals = st.sampled_from([0., 0., 1., -1., 2., 0.5, 10., 4.5e9, -3.25, 1e-3])

@st.composite
def spans(draw):
    a = draw(vals)
    return [a, a + draw(st.sampled_from([1., 1., 2., 0.5, 3., 10., 1e6]))]

@st.composite
def doms(draw, two=False):
    ax = draw(st.lists(axis, max_size=3, unique=True))
    if two: ax = sorted(set(ax) | {0, 1})
    return [[a] + draw(spans()) for a in ax]

@st.composite
def points(draw):
    """centers and sizes; mostly with several regular runs"""
    n = draw(st.integers(1, 7))
    x, cen, sz = draw(vals), [], []
    d, h = 1., 1.
    for i in range(n):
        if draw(st.integers(0, 3)) == 0: d = draw(st.sampled_from([0.5, 1., 2., 3.]))
        if draw(st.integers(0, 4)) == 0: h = draw(st.sampled_from([0.25, 0.5, 1., 2.]))
        x += d; cen.append(x); sz.append(h)
    if draw(st.integers(0, 7)) == 0: cen.reverse()
    return cen, sz

SETS = ["vec", "vec", "vec", "uni", "reg", "enum", "self"]
OPS = ["new", "new", "newd", "empty"] + SETS * 3 + ["redomain", "reseg", "ref", "ref", "ref", "copy", "copy", "clone", "write"] + ["ops"] * 3 + ["combine", "combine", "superset", "superset", "superset",
       "cmp", "cmp", "trip", "pers", "dnew", "dtwo", "ddef", "ddef", "dref", "dcopy", "dcells", "denv", "dexp", "dtrip", "dcmp", "dcmp"]

@st.composite
def progs(draw):
    ops = []
    for _ in range(draw(st.integers(1, 14))):
        k = draw(st.sampled_from(OPS)); dst = draw(reg); a = []
        if k == "new": a = [draw(doms(draw(st.booleans()))), [draw(st.integers(1, 6)), draw(st.integers(1, 4))] if draw(st.integers(0, 3)) else [-1, -1]]
        elif k == "newd": a = [draw(reg), [draw(st.integers(1, 6)), draw(st.integers(1, 4))] if draw(st.booleans()) else [-1, -1]]
        elif k == "vec": a = [draw(axis)] + list(draw(points()))
        elif k == "uni": a = [draw(axis), draw(points())[0], draw(st.sampled_from([0.5, 1., 2.]))]
        elif k == "self": a = [draw(axis), draw(reg), draw(axis)]
        elif k == "reg": a = [draw(axis), draw(spans()) + [draw(st.integers(1, 6)), draw(st.sampled_from([-1., -1., 0.5, 3.]))]]
        elif k == "enum": a = [draw(axis), draw(st.integers(1, 5))]
        elif k == "reseg": a = [draw(axis)]
        elif k in ("ref", "copy", "trip", "pers", "cmp", "dref", "dcopy", "dcells", "dtrip", "dexp", "dcmp"): a = [draw(reg)]
        elif k == "clone": a = [draw(reg), draw(st.sampled_from([0, 0, 1, 100]))]
        elif k == "ops": a = [draw(reg), [draw(st.integers(0, 3)) for _ in range(MAX)], [draw(st.integers(1, 6)) for _ in range(MAX)]]
        elif k == "combine": a = [draw(reg), draw(reg), draw(st.sampled_from([-1, 1]))]
        elif k in ("superset", "denv"): a = [draw(reg), draw(reg)]
        elif k == "dnew": a = [draw(doms())]
        elif k == "dtwo": a = [draw(spans()) + draw(spans())]
        elif k == "ddef":
            s = draw(spans())
            a = [draw(axis), s if draw(st.integers(0, 5)) else [s[1], s[0]]]
        ops.append([k, dst] + a)
        if k in SETS and draw(st.integers(0, 9)): ops.append(["redomain", dst])
        if k == "ops" and draw(st.booleans()):
            if draw(st.booleans()): ops.append(["cmp", dst, a[0]])
            else: ops.append(["combine", dst, a[0], dst, draw(st.sampled_from([-1, 1]))])
    return dict(ops=ops)

def close(a, b, scale=0.):
    return len(a) == len(b) and all(x == y or abs(x - y) <= 1e-12 * max(abs(x), abs(y), scale) for x, y in zip(a, b))

def rng(a, b):
    if a == b: a -= 1e-6
    return (min(a, b), max(a, b))

class Grid:
    def __init__(self, dom=None, axes=None): self.dom, self.axes = dom, axes or {}
    def copy(self): return Grid(None if self.dom is None else dict(self.dom), {i: (list(c), list(s)) for i, (c, s) in self.axes.items()})
    def n(self, i): return len(self.axes[i][0]) if i in self.axes else 0

def regular(x0, x1, n, size=-1.):
    h = (x1 - x0) / n
    return [x0 + h / 2 + h * i for i in range(n)], [h if size < 0 else size] * n

def same(a, b): return set(a) == set(b) and all(close(a[i], b[i], max(map(abs, a[i]))) for i in a)
def same_axis(x, y):
    sc = max(map(abs, x[0]))
    return close(x[0], y[0], sc) and close(x[1], y[1], sc)

def segments(cen, size):
    """maximal runs of equal steps and sizes"""
    eps = abs(cen[0] - cen[-1]) * 1e-9
    out, i = [], 0
    while i < len(cen):
        j = i
        while j + 1 < len(cen) and abs(size[j + 1] - size[i]) <= eps and (j == i or abs(cen[j + 1] - cen[j] - (cen[i + 1] - cen[i])) <= eps): j += 1
        out.append((i, j)); i = j + 1
    return out

def check(ctx, where, got, g, exact_seg):
    if (got["domain"] is None) != (g.dom is None) or g.dom is not None and not same(g.dom, got["domain"]): ctx.fail("%s: domain %s instead of %s" % (where, got["domain"], g.dom))
    ax = got["axes"]
    if set(ax) != set(g.axes): ctx.fail("%s: axes %s instead of %s" % (where, sorted(ax), sorted(g.axes)))
    sh = got["shape"]
    for i in range(MAX):
        if i >= len(sh):
            if i in g.axes: ctx.fail("%s: rank %d does not include axis %d" % (where, len(sh), i))
        elif sh[i] != max(1, g.n(i)): ctx.fail("%s: shape %s, axis %d has %d cells" % (where, sh, i, g.n(i)))
    for i, (cen, size) in g.axes.items():
        o = ax[i]
        if o["n"] != len(cen) or not same_axis((cen, size), (o["cen"], o["size"])): ctx.fail("%s axis %d: cells %s of sizes %s instead of %s of %s" % (where, i, o["cen"], o["size"], cen, size))
        sc = max(map(abs, cen))
        for k, sg in (("a", -1), ("b", 1), ("a1", -1), ("b1", 1)):
            if not close(o[k], [c + sg * s / 2 for c, s in zip(cen, size)], sc): ctx.fail("%s axis %d: boundaries %s of cells %s, %s" % (where, i, o[k], cen, size))
        want = segments(o["cen"], o["size"])
        have = list(zip(map(int, o["s0"]), map(int, o["s1"])))
        fine = max(map(abs, cen)) * 1e-15 < abs(cen[0] - cen[-1]) * 1e-10 or len(cen) < 2    # steps can be told from rounding errors
        if o["nseg"] != len(o["s0"]) or not have or have[0][0] != 0 or have[-1][1] != len(cen) - 1 or any(b[0] != a[1] + 1 for a, b in zip(have, have[1:])) or fine and have != want: ctx.fail("%s axis %d: segments %s of %s, %s instead of %s" % (where, i, have, o["cen"], o["size"], want))

@P.check("programs", progs(), quick=12000, thorough=600000, shards=8)
def programs(case, ctx):
    g = [Grid() for _ in range(N)]
    d = [{} for _ in range(N)]
    ops = []
    for o in case["ops"]:
        o = list(o)
        if o[0] == "new" or o[0] == "dnew": o[2] = {a: (x, y) for a, x, y in o[2]}
        ops.append(tuple(o))
    outs, recs = vt.cells_prog(ops)
    share, nontriv = set(), False
    for no, (o, (ret, cl, dl)) in enumerate(zip(ops, outs)):
        k, dst, a = o[0], o[1], o[2:]
        err = ret if isinstance(ret, str) else None
        must, may = None, False      # whether an error is required or allowed
        new = None
        own = g[dst]                 # changing a shared grid copies it
        if k in SETS + ["reseg", "redomain", "write"] and dst in share and not (own.dom is not None and set(own.axes) <= set(own.dom) or own.dom is None and not own.axes): may = True
        where = "after %d %s:" % (no, (k, dst) + tuple(a))
        if k in ("new", "newd"):
            dom = a[0] if k == "new" else d[a[0]]
            dom = {i: rng(*v) for i, v in dom.items()}
            if a[1][0] >= 0 and not (0 in dom and 1 in dom): must = True
            else: new = Grid(dict(dom), {i: regular(*dom[i], a[1][i]) for i in (0, 1)} if a[1][0] >= 0 else {})
        elif k == "empty": new = Grid()
        elif k in ("vec", "uni", "reg", "enum", "self", "reseg"):
            c = g[dst].copy()
            if k == "vec": cs = (a[1], a[2])
            elif k == "uni": cs = (a[1], [a[2]] * len(a[1]))
            elif k == "reg": cs = regular(*a[1])
            elif k == "enum": cs = ([float(i) for i in range(a[1])], [0.] * a[1])
            elif k == "self":
                cs = g[a[1]].axes.get(a[2])
                if cs is None: break         # an axis without cells is not given to another
            elif k == "reseg":
                cs = c.axes.get(a[0])
                if cs is None: break
            c.axes[a[0]] = (list(cs[0]), list(cs[1]))
            new = c
            if dst in share: nontriv = True
            if len(segments(*cs)) > 1: nontriv = True
        elif k == "redomain":
            if not g[dst].axes: break
            c = g[dst].copy()
            c.dom = {i: rng(ce[0] - sz[0] / 2, ce[-1] + sz[-1] / 2) for i, (ce, sz) in c.axes.items()}
            new = c
        elif k in ("ref", "copy", "clone", "trip", "pers"):
            src = g[a[0]]
            valid = src.dom is not None and set(src.axes) <= set(src.dom) or src.dom is None and not src.axes
            if k != "ref" and not valid: may = True
            if k == "pers" and src.dom is None: may = True
            new = src.copy()
            share |= {dst, a[0]}
        elif k == "write": pass
        elif k == "ops":
            src = g[a[0]]
            if src.dom is None: must = True
            else:
                c = Grid(dict(src.dom))
                for i, (ce, sz) in src.axes.items():
                    op, arg, n = a[1][i], a[2][i], len(ce)
                    if op == 1:
                        if arg == n: op = 0
                        elif arg > n:
                            if arg % n: must = True; break
                            op, arg = 3, arg // n
                        else:
                            if n % arg: must = True; break
                            op, arg = 2, n // arg
                    if op == 2 and n % arg: c = None; break
                    if op == 0: c.axes[i] = (list(ce), list(sz))
                    elif op == 2:
                        e = [(ce[j] - sz[j] / 2, ce[j + arg - 1] + sz[j + arg - 1] / 2) for j in range(0, n, arg)]
                        c.axes[i] = ([(x + y) / 2 for x, y in e], [y - x for x, y in e])
                    else:
                        c.axes[i] = ([x - s / 2 + s / arg * (j + .5) for x, s in zip(ce, sz) for j in range(arg)], [s / arg for s in sz for _ in range(arg)])
                if c is None: break        # binning by a factor that does not divide
                new = c; nontriv = nontriv or bool(c.axes)
        elif k == "combine":
            x, y = g[a[0]], g[a[1]]
            if x.dom is None or y.dom is None or x.dom != y.dom:
                must = x.dom is None or y.dom is None or not same(x.dom, y.dom)
                if not must: may = True
            if not must:
                c = Grid(dict(x.dom))
                for i in range(MAX):
                    nx, ny = x.n(i), y.n(i)
                    if not nx and not ny: continue
                    if nx == ny:
                        gx = cl[dst]["axes"].get(i)
                        pick = y if gx is not None and same_axis((gx["cen"], gx["size"]) if len(gx["cen"]) == nx else x.axes[i], y.axes[i]) else x
                    elif not nx or not ny: pick = x if nx else y
                    else: pick = x if (nx > ny) == (a[2] > 0) else y
                    c.axes[i] = tuple(map(list, pick.axes[i]))
                new = c; nontriv = True
        elif k == "superset":
            share |= {dst, a[0], a[1]}
            x, y = g[a[0]], g[a[1]]
            if x.dom is None: new = y.copy()
            elif y.dom is None: new = x.copy()
            elif any(i in y.axes and (i not in x.dom or i not in y.dom) for i in x.axes): break     # domains were not brought up to date
            elif any(i in y.axes and (x.n(i) != y.n(i) or x.dom[i] != y.dom[i]) for i in x.axes):
                if err is None and ret is not False and not any(i in y.axes and (x.n(i) != y.n(i) or not close(x.dom[i], y.dom[i])) for i in x.axes): break
                if ret is not False: ctx.fail("%s superset of %s and %s made" % (where, x.axes, y.axes))
            else:
                if ret is not True: ctx.fail("%s no superset of %s and %s: %s" % (where, x.axes, y.axes, ret))
                c = Grid({}, {})
                for i in set(x.axes) | set(y.axes):
                    pick = x if i in x.axes else y
                    if i in x.axes and i in y.axes:
                        gx = cl[dst]["axes"].get(i)
                        if gx is not None and len(gx["cen"]) == y.n(i) and same_axis(y.axes[i], (gx["cen"], gx["size"])): pick = y
                    c.axes[i] = tuple(map(list, pick.axes[i]))
                # the domain is the one of a grid that is a superset already, or else recomputed
                doms = [z.dom for z in (x, y) if set(z.axes) >= set(c.axes)] + [{i: rng(ce[0] - sz[0] / 2, ce[-1] + sz[-1] / 2) for i, (ce, sz) in c.axes.items()}]
                gd = cl[dst]["domain"]
                c.dom = dict(next((z for z in doms if gd is not None and same(z, gd)), doms[0]))
                new = c; nontriv = True
        elif k == "cmp":
            x, y = g[dst], g[a[0]]
            if err: ctx.fail("%s comparison of %s and %s: %s" % (where, x.axes, y.axes, err))
            c, eq, ne = ret
            if eq == ne: ctx.fail("%s both equal and different" % where)
            if x.dom is None or y.dom is None:
                if (c == 0) != (x.dom is None and y.dom is None): ctx.fail("%s compared as %d" % (where, c))
            elif x.dom != y.dom:
                if not same(x.dom, y.dom) and (c >= 0 or eq): ctx.fail("%s different domains, compared as %d, equal %d" % (where, c, eq))
            elif any(x.n(i) != y.n(i) for i in range(MAX)):
                if c <= 0 or eq: ctx.fail("%s same domain with different numbers of cells, compared as %d, equal %d" % (where, c, eq))
            elif x.axes == y.axes:
                if c or not eq:
                    if a[0] == dst or cl[dst]["axes"] == cl[a[0]]["axes"] and cl[dst]["domain"] == cl[a[0]]["domain"]: ctx.fail("%s same grid, compared as %d, equal %d" % (where, c, eq))
            elif not all(same_axis(x.axes[i], y.axes[i]) for i in x.axes) and eq: ctx.fail("%s equal: %s and %s" % (where, x.axes, y.axes))
        elif k == "dnew": d[dst] = {i: rng(*v) for i, v in a[0].items()}
        elif k == "dtwo": d[dst] = {0: rng(*a[0][:2]), 1: rng(*a[0][2:])}
        elif k == "ddef": d[dst] = dict(d[dst]); d[dst][a[0]] = rng(*a[1])
        elif k in ("dref", "dcopy", "dtrip"): d[dst] = dict(d[a[0]])
        elif k == "dcells":
            if g[a[0]].dom is None: must = True
            else: d[dst] = dict(g[a[0]].dom)
        elif k in ("denv", "dexp"):
            x, y = (d[a[0]], d[a[1]]) if k == "denv" else (d[dst], d[a[0]])
            d[dst] = {i: (min(z[i][0] for z in (x, y) if i in z), max(z[i][1] for z in (x, y) if i in z)) for i in set(x) | set(y)}
            nontriv = nontriv or len(x) != len(y)
        elif k == "dcmp":
            x, y = d[dst], d[a[0]]
            if ret[0] == ret[1]: ctx.fail("%s both equal and different" % where)
            if x == y and not ret[0] and dl[dst] == dl[a[0]] or not (set(x) == set(y) and all(close(x[i], y[i]) for i in x)) and ret[0]: ctx.fail("%s equal %d: %s and %s" % (where, ret[0], x, y))
            sup = all(i in y and x[i][0] <= y[i][0] and x[i][1] >= y[i][1] for i in x)
            strict = all(i in y and x[i][0] < y[i][0] - 1e-12 * abs(y[i][0]) and x[i][1] > y[i][1] + 1e-12 * abs(y[i][1]) for i in x)
            exact = x == dl[dst] and y == dl[a[0]]
            if exact and bool(ret[2]) != sup or strict and not ret[2] and x: ctx.fail("%s superset of the projection: %d, %s of %s" % (where, ret[2], x, y))
        if must and not err: ctx.fail("%s no error" % where)
        if err and not must and not may: ctx.fail("%s %s" % (where, err))
        if new is not None and not err: g[dst] = new
        for i in range(N):
            check(ctx, "%s grid %d" % (where, i), cl[i], g[i], True)
            if not same(d[i], dl[i]): ctx.fail("%s domain %d is %s instead of %s" % (where, i, dl[i], d[i]))
    for k in set(o[0] for o in ops): ctx.label(k)
    ctx.trivial(not nontriv)
