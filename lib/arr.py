"""Array generation and left-aligned broadcasting, shared by the numeric checks."""
import numpy as np
from hypothesis import strategies as st

def align(a, rank):
    a = np.asarray(a)
    return a.reshape(a.shape + (1,) * (rank - a.ndim)) if a.ndim < rank else a

def trim(shape, full):
    """left-aligned shapes of arrays"""
    return tuple(shape)

class ShapeError(ValueError):
    pass

def bshape(*shapes):
    r = max([len(s) for s in shapes] + [1])
    out = [1] * r
    for s in shapes:
        for i, n in enumerate(s):
            if n != 1:
                if out[i] not in (1, n):
                    raise ShapeError("incompatible shapes")
                out[i] = n
    return tuple(out)

def bc(a, shape):
    a = np.asarray(a)
    if a.ndim == 0:
        a = a.reshape((1,))
    while a.ndim > len(shape) and a.shape[-1] == 1:
        a = a.reshape(a.shape[:-1])
    try:
        return np.broadcast_to(align(a, len(shape)), shape)
    except ValueError:
        raise ShapeError('shape %s does not fit %s' % (a.shape, shape))

def make(spec):
    """spec = dict(s=shape, k='r'|'c'|'f', t=style, x=seed) -> array"""
    rs = np.random.RandomState(spec["x"] & 0x7fffffff)
    shape = tuple(spec["s"])
    def real():
        t = spec.get("t", 0)
        if t == 0:
            return rs.randint(-3, 4, shape).astype(float)
        if t == 1:
            return rs.uniform(-2, 2, shape)
        if t == 2:
            return rs.uniform(0.1, 3, shape)
        if t == 3:
            return rs.uniform(-1, 1, shape) * 10.0 ** rs.randint(-6, 7, shape)
        return -rs.uniform(0.5, 4, shape)
    k = spec["k"]
    if k == "r":
        return real()
    if k == "c":
        return real() + 1j * real()
    if k == "f":
        t = spec.get("t", 0)
        if t == 0:
            return rs.choice([0, 0, 1], shape).astype(np.int32)
        if t == 1:
            return rs.choice([0, 1, 2, 3], shape).astype(np.int32)
        if t == 2:
            return np.ones(shape, np.int32)
        return rs.choice([0, 0, 0, 1, 2, 4, 255, -1], shape).astype(np.int32)
    raise ValueError(k)

def seeds():
    return st.integers(0, 1 << 20)

@st.composite
def full_shapes(draw, maxrank=3, maxdim=4):
    r = draw(st.integers(1, maxrank))
    return [draw(st.integers(1, maxdim)) for _ in range(r)]

@st.composite
def sub_shapes(draw, full, allow_short=True):
    s = [n if draw(st.booleans()) else 1 for n in full]
    if allow_short:
        k = draw(st.integers(0, len(s) - 1)) if len(s) > 1 else 0
        while k and len(s) > 1 and s[-1] == 1:
            s.pop(); k -= 1
    return s

@st.composite
def arrays(draw, full, kinds="rc", styles=(0, 1, 2, 3, 4), allow_short=True):
    k = draw(st.sampled_from(kinds))
    return dict(s=draw(sub_shapes(full, allow_short)), k=k,
                t=draw(st.sampled_from(styles)) if k != "f" else draw(st.integers(0, 3)), x=draw(seeds()))

def close(got, want, rtol=1e-9, atol=1e-12, scale=None):
    """Where want is finite, got must match it."""
    got = np.asarray(got); want = np.asarray(want)
    ok = np.isfinite(want)
    if scale is not None:
        atol = np.maximum(atol, rtol * np.asarray(scale))
    with np.errstate(all="ignore"):
        d = np.abs(got - want)
        lim = atol + rtol * np.abs(want)
        bad = ok & ~(d <= lim)
    return not bad.any()
