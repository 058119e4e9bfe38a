"""Array views: reading and writing through ids, and slices of sampled values, against numpy indexing."""
from vmeq import *
from hypothesis import strategies as st
import vfw
import numpy as np

P = vfw.Property("P26",
    rule="a case is a program of up to 10 reads, writes and copies on up to 3 arrays of one type, or all slices of one array along a set of axes; "
         "non-trivial if at least one index is a range or a sub-array of an array of rank two or more",
    assumptions=["an index counts from 0; there is no syntax for counting from the end, and any negative number that is not a wildcard is refused",
                 "axes for which no index is given are whole"])
P.setup = lambda: vt.init(0, 1)
ANY, WILD, SLASH, RANGE, EMPTY = -1, -2, -3, -4, -5
DT = dict(bool=np.bool_, int=np.int32, float=np.float32, double=np.float64, fcomplex=np.complex64, dcomplex=np.complex128)
TYPES = sorted(DT)

# an axis index: ["i",k], ["w",EMPTY|WILD], ["r",start,end,incr?] with None for a wildcard part
dim = st.integers(1, 5)
near = st.integers(-1, 6)

@st.composite
def axis_index(draw, n, bad):
    k = draw(st.integers(0, 5))
    if k <= 1: return ["i", draw(st.integers(0, max(n - 1, 0))) if not bad else draw(st.sampled_from([n, n - 1, n + 1, -7, 1000, 0]))]
    if k == 2: return ["w", draw(st.sampled_from([EMPTY, WILD]))]
    a = draw(st.one_of(st.none(), st.integers(0, max(n - 1, 0))))
    b = draw(st.one_of(st.none(), st.integers(a or 0, max(n - 1, a or 0))))
    c = draw(st.one_of(st.none(), st.integers(1, 4)))
    if bad:
        w = draw(st.integers(0, 3))
        if w == 0: a = n + draw(st.integers(0, 2))
        if w == 1: b = n + draw(st.integers(0, 2))
        if w == 2: a, b = max(n - 1, 1), draw(st.integers(0, max(n - 1, 1)))
        if w == 3: c = 0
    return ["r", a, b] + ([c] if c is not None or draw(st.booleans()) else [])

@st.composite
def index(draw, shape):
    k = draw(st.integers(0, 19))
    bad = draw(st.integers(0, 7)) == 0
    ib = draw(st.integers(0, len(shape) - 1)) if bad else -1
    ax = [draw(axis_index(n, i == ib)) for i, n in enumerate(shape)]
    if k == 0: ax = ax[:draw(st.integers(0, len(ax)))]
    elif k == 1: ax = ax + [["i", 0]]
    elif k == 2: ax = [["i", draw(st.integers(0, n - 1)) if n else 0] for n in shape]
    elif k == 3: ax = []
    out = dict(ax=ax)
    if k == 4: out["raw"] = draw(st.lists(st.sampled_from([RANGE, RANGE, WILD, EMPTY, ANY, 0, 1, 2, -9]), max_size=5))
    out["wild"] = draw(st.sampled_from([EMPTY, WILD]))
    return out

@st.composite
def programs(draw):
    ty = draw(st.sampled_from(TYPES))
    ns = draw(st.integers(1, 3))
    shapes = []
    for _ in range(ns):
        shapes.append(draw(st.lists(dim, min_size=1, max_size=4)))
        if draw(st.integers(0, 11)) == 0: shapes[-1][draw(st.integers(0, len(shapes[-1]) - 1))] = 0
    now = [list(s) for s in shapes]
    ops = []
    for _ in range(draw(st.integers(1, 10))):
        s = draw(st.integers(0, ns - 1))
        k = draw(st.integers(0, 9))
        if k == 0:
            t = draw(st.integers(0, ns - 1))
            ops.append([draw(st.sampled_from(["copy", "deep", "ser", "hold"])), s, t])
            now[s] = now[t]
        else:
            ix = draw(index(now[s]))
            if k <= 4: ops.append([draw(st.sampled_from(["get", "get", "getp", "getvar"])), s, ix, draw(st.sampled_from([0, 0, 0, 0, 0, 1, -1]))])
            elif k == 5: ops.append([draw(st.sampled_from(["sget", "flat", "type", "size"])), s, ix])
            elif k == 6: ops.append([draw(st.sampled_from(["sput", "flatput", "vecput"])), s, ix])
            else: ops.append([draw(st.sampled_from(["put", "view"])), s, ix, draw(st.sampled_from([0] * 9 + [1, 2]))])
    return dict(ty=ty, shapes=shapes, ops=ops)

def ids_of(ix):
    if "raw" in ix: return list(ix["raw"])
    out = []
    for a in ix["ax"]:
        if a[0] == "i": out.append(a[1])
        elif a[0] == "w": out.append(a[1])
        else:
            for i, x in enumerate(a[1:]):
                if i: out.append(RANGE)
                out.append(ix["wild"] if x is None else x)
    return out

def parse(ids):
    """ids -> list of per-axis lists of parts, or None if it has no meaning"""
    axes, i = [], 0
    while i < len(ids):
        if ids[i] == RANGE: return None
        cur = [ids[i]]; i += 1
        while i < len(ids) and ids[i] == RANGE:
            if i + 1 >= len(ids) or ids[i + 1] == RANGE: return None
            cur.append(ids[i + 1]); i += 2
        if len(cur) > 3: return None
        axes.append(cur)
    return axes

def resolve(ids, shape):
    """-> tuple of numpy indices or None (refused)"""
    axes = parse(ids)
    if axes is None or len(axes) > len(shape): return None
    out = []
    for parts, n in zip(axes, shape):
        if any(p < 0 and p not in (WILD, EMPTY) for p in parts): return None
        p = [None if x < 0 else x for x in parts]
        if len(p) == 1:
            if p[0] is None: out.append(slice(None))
            elif p[0] >= n: return None
            else: out.append(p[0])
            continue
        a = 0 if p[0] is None else p[0]
        if p[0] is not None and a >= n: return None
        b = n - 1 if p[1] is None else p[1]
        if p[1] is not None and (b >= n or b < a): return None
        c = 1 if len(p) < 3 or p[2] is None else p[2]
        if c <= 0: return None
        out.append(slice(a, b + 1, c))
    return tuple(out) + (slice(None),) * (len(shape) - len(axes))

class Fill:
    def __init__(self, ty): self.n, self.dt = 0, DT[ty]
    def __call__(self, shape):
        k = int(np.prod(shape, dtype=int))
        a = np.arange(self.n + 1, self.n + 1 + k)
        self.n += k
        if self.dt is np.bool_: a = (a * 7 // 3) % 2 == 0
        a = a.astype(self.dt)
        if np.iscomplexobj(a): a = (a * (1 - 0.5j)).astype(self.dt)
        return a.reshape(shape)

@P.check("programs", programs(), quick=16000, thorough=1500000, shards=8, case_timeout=20)
def program(case, ctx):
    ty = case["ty"]; fill = Fill(ty); dt = DT[ty]
    model = [fill(s) for s in case["shapes"]]
    init = [(tuple(m.shape), m.tobytes()) for m in model]
    ops, want = [], []
    nontriv = False
    for op in case["ops"]:
        what, s = op[:2]
        if what in ("copy", "deep", "ser", "hold"):
            ops.append((what, s, op[2])); want.append(("ok",))
            if what != "copy" or s != op[2]: model[s] = model[op[2]].copy()
            continue
        ids = ids_of(op[2]); m = model[s]
        np_ix = resolve(ids, m.shape)
        view = None if np_ix is None else m[np_ix]
        scalar = np_ix is not None and len(ids) > 0 and not any(isinstance(x, slice) for x in np_ix)
        rank = m.ndim if np_ix is None else np.ndim(view)
        if np_ix is not None and m.ndim > 1 and not scalar and ids: nontriv = True
        if what in ("get", "getp", "getvar"):
            r = rank + op[3]
            if r < 1 or r > 5: r = 1
            ops.append((what, s, ids, r))
            if np_ix is None or scalar or r != rank: want.append(("err",))
            else: want.append(("ok", tuple(view.shape), np.ascontiguousarray(view).tobytes()))
        elif what == "sget":
            ops.append((what, s, ids))
            if np_ix is None: want.append(("err",))
            elif scalar: want.append(("ok", None, np.asarray(view, dt).tobytes()))
            else: want.append(None if view.size and view.size >= 1 else None)     # an array read as a number: see flat
        elif what == "type" or what == "size":
            ops.append((what, s, ids)); want.append(("err",) if np_ix is None else ("ok?",))
        elif what == "flat":
            ops.append((what, s, ids))
            if np_ix is None: want.append(("err",))
            elif not ids: want.append(("ok", (m.size,), m.tobytes()))
            elif view.size == 1: want.append(("ok", (1,), np.ascontiguousarray(view).tobytes()))
            else: want.append(("err",))
        elif what in ("sput", "flatput", "vecput"):
            if what == "sput":
                if np_ix is not None and not scalar and not (ids and view.size == 1):     # a number assigned to several elements has no meaning
                    ops.append(("size", s, ids)); want.append(None)
                    continue
                new = fill((1,))
                ops.append((what, s, ids, new.tobytes()))
                want.append(("ok",) if np_ix is not None else ("err",))
                if np_ix is not None: m[np_ix] = new[0] if scalar else new.reshape(view.shape)
            else:
                n = 1 if np_ix is None else int(np.size(view))
                new = fill((n,))
                if np_ix is None: ok = False
                elif not ids: ok = what == "flatput" or m.ndim == 1
                elif what == "flatput": ok = n == 1
                else: ok = scalar or np.ndim(view) == 1
                if what == "vecput" and np_ix is not None and (np.ndim(view) > 1 or n == 0):
                    ops.append(("size", s, ids)); want.append(None); continue
                ops.append((what, s, ids, new.tobytes()))
                want.append(("ok",) if ok else ("err",))
                if ok: m[np_ix] = new[0] if scalar else new.reshape(view.shape)
        else:
            shape = tuple(view.shape) if np_ix is not None and not scalar else (1,)
            if op[3] == 1: shape = shape[:-1] + (shape[-1] + 1,)
            if op[3] == 2: shape = (shape + (1,))[:5]
            new = fill(shape)
            ok = np_ix is not None and (tuple(np.shape(view)) == shape or (scalar and shape == (1,) and what == "put"))
            ops.append((what, s, ids, shape, new.tobytes()))
            want.append(("ok",) if ok else ("err",))
            if ok:
                if scalar: m[np_ix] = new[0]
                else: m[np_ix] = new
    ctx.trivial(not nontriv)
    ctx.label(ty)
    got, fin = vt.array_prog(ty, init, ops)
    for i, (o, w, g) in enumerate(zip(ops, want, got)):
        if w is None: continue
        if w[0] == "err":
            if g[0] != "err": ctx.fail(f"op {i} {o[0]} {o[2]} on shape-{case['shapes'][o[1]]} array must be refused, got {g}")
        elif g[0] != "ok": ctx.fail(f"op {i} {o[0]} {o[2]}: refused with {g[1][:300]}")
        elif w[0] == "ok" and len(w) > 1:
            sh, by = g[1]
            if sh != w[1] or by != w[2]:
                ctx.fail(f"op {i} {o[0]} {o[2]}: got shape {sh} {np.frombuffer(by, dt)}, expected shape {w[1]} {np.frombuffer(w[2], dt)}")
    for i, (m, f) in enumerate(zip(model, fin)):
        if f[0] != m.shape or f[1] != m.tobytes():
            ctx.fail(f"array {i} is {f[0]} {np.frombuffer(f[1], dt)} at the end, expected {m.shape} {m.ravel()}; ops {ops}")

@st.composite
def slicings(draw):
    shape = draw(st.lists(st.sampled_from([1, 2, 2, 3, 4]), min_size=1, max_size=4))
    n = draw(st.integers(1, min(3, len(shape) + 1)))
    axes = draw(st.lists(st.integers(0, len(shape)), min_size=n, max_size=n, unique=True))
    return dict(shape=shape, axes=axes, cx=draw(st.booleans()), mode=draw(st.integers(0, 7)))

@P.check("slices", slicings(), quick=6000, thorough=200000, shards=4)
def slices(case, ctx):
    shape, axes, cx, mode = case["shape"], case["axes"], case["cx"], case["mode"]
    fill = Fill("dcomplex" if cx else "double"); dt = fill.dt
    a = fill(tuple(shape)); new = fill(tuple(shape))
    inside = [x for x in axes if x < len(shape)]
    rest = [i for i in range(len(shape)) if i not in inside]
    ctx.trivial(not rest or len(shape) < 2)
    def parts(arr):
        """slices in the order of the remaining axes, the last one fastest; axes of a slice in the order asked for"""
        t = np.transpose(arr, rest + inside)
        t = t.reshape((-1,) + tuple(arr.shape[i] for i in inside))
        out = []
        for x in t:
            full = x.reshape([shape[ax] if ax < len(shape) else 1 for ax in axes])
            out.append(full)
        return out
    pn = parts(new)
    by = b"".join(np.ascontiguousarray(x).tobytes() for x in pn)
    got, sh, fin, other = vt.vells_slices(int(cx), tuple(shape), a.tobytes(), tuple(axes), mode, by)
    if other != a.tobytes(): ctx.fail("a copy of the sliced values changed")
    if mode not in (3, 4):
        want = parts(a)
        if len(got) != len(want): ctx.fail(f"{len(got)} slices, expected {len(want)}")
        for i, (g, w) in enumerate(zip(got, want)):
            if tuple(g[0]) != w.shape or g[1] != np.ascontiguousarray(w).tobytes():
                ctx.fail(f"slice {i} is {g[0]} {np.frombuffer(g[1], dt)}, expected {w.shape} {w.ravel()}")
        if fin != a.tobytes(): ctx.fail("reading slices changed the values")
    else:
        if fin != new.tobytes(): ctx.fail(f"after writing all slices the values are {np.frombuffer(fin, dt)}, expected {new.ravel()}")
