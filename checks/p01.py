"""Element-wise array algebra and reductions: straight-line programs against numpy."""
from vmeq import *
from hypothesis import strategies as st
import vfw, arr, json
from arr import *

P = vfw.Property("P01",
    rule="a case is a program of up to 8 operations over 2-5 registers of real, complex or flag arrays whose shapes are "
         "collapsed versions of one shape; non-trivial if an operation succeeded on operands with differing shapes, types or flags",
    assumptions=["numpy's double arithmetic and math functions, compared within 1e-9 relative error",
                 "elements whose exact result is infinite or undefined are not compared"])

U1 = "cos cosh exp log sin sinh sqr sqrt tan tanh pow2 pow3 pow4 pow5 pow6 pow7 pow8".split()
U2 = "ceil floor acos asin atan".split()
U3 = "abs fabs norm arg real imag".split()
B = "posdiff tocomplex polar pow atan2 fmod remainder".split()

def unary(op, x):
    c = np.iscomplexobj(x)
    if op in ("cos", "cosh", "exp", "sin", "sinh", "tan", "tanh", "log", "sqrt"):
        return getattr(np, op)(x)
    if op == "sqr": return x * x
    if op.startswith("pow"):
        n = int(op[3:]); r = x
        for _ in range(n - 1): r = r * x
        return r
    if op in U2:
        return {"ceil": np.ceil, "floor": np.floor, "acos": np.arccos, "asin": np.arcsin, "atan": np.arctan}[op](x)
    if op in ("abs", "fabs"): return np.abs(x)
    if op == "norm": return (np.abs(x) ** 2 if c else x * x)
    if op == "arg": return np.angle(x)
    if op == "real": return np.real(x)
    if op == "imag": return np.imag(x)
    if op == "conj": return np.conj(x)
    if op == "neg": return -x
    raise KeyError(op)

def kind(a):
    a = np.asarray(a)
    return "f" if a.dtype.kind == "i" else "c" if a.dtype.kind == "c" else "r"

class Bad(Exception): pass     # operation must be refused
class Skip(Exception): pass    # nothing is promised

def model(op, d, a, b, fla, flb, shape, fa, fb, sc, si):
    """-> (expected value, scale for tolerance)"""
    ka, kb = kind(a), kind(b)
    A = np.atleast_1d(a); Bv = np.atleast_1d(b)
    if op in ("null",): return np.array([0.0]), None
    if op in ("ref", "deep"): return A, None
    if op in ("~", "|s", "&s", "^s"):
        if ka != "f": raise Bad()
        return {"~": lambda: ~A, "|s": lambda: A | si, "&s": lambda: A & si, "^s": lambda: A ^ si}[op](), None
    if op in ("|", "&", "^"):
        if ka != "f" or kb != "f": raise Bad()
        sh = bshape(A.shape, Bv.shape); x, y = bc(A, sh), bc(Bv, sh)
        return {"|": x | y, "&": x & y, "^": x ^ y}[op], None
    if op == "where":
        if ka != "r": raise Skip()
        return np.where(A == sc, np.int32(fa), np.int32(fb)), None
    if ka == "f": raise Skip()
    if op in U1 or op in ("neg", "conj"): return unary(op, A), None
    if op in U2:
        if ka == "c": raise Bad()
        return unary(op, A), None
    if op in U3: return unary(op, A), None
    if op in ("min", "max", "mean", "sum", "product", "nelements"):
        if ka == "c" and op in ("min", "max"): raise Bad()
        if op in ("sum", "product", "nelements"):
            sh = tuple(shape)
            if len(sh) < max(A.ndim, 1 if fla is None else np.asarray(fla).ndim): raise Skip()
            try:
                if bshape(sh, A.shape) != sh: raise Skip()
                if fla is not None and bshape(sh, np.atleast_1d(fla).shape) != sh: raise Skip()
            except ShapeError:
                raise Skip()
        else:
            sh = A.shape
            if fla is not None and fa: sh = bshape(sh, np.atleast_1d(fla).shape)
        x = bc(A, sh)
        m = np.ones(sh, bool)
        if fla is not None and fa:
            m = (bc(fla, sh) & fa) == 0
        v = x[m]
        if op == "nelements": return np.array([float(m.sum())]), None
        if op == "sum": return np.array([v.sum()]), np.abs(v).sum()
        if op == "product": return np.array([np.prod(v)]), None
        if op == "mean": return np.array([v.mean() if v.size else 0.0]), (np.abs(v).mean() if v.size else 0)
        if not v.size: raise Skip()
        return np.array([v.min() if op == "min" else v.max()]), None
    if op in ("s+", "s-", "s*", "s/"):
        return {"+": lambda: sc + A, "-": lambda: sc - A, "*": lambda: sc * A, "/": lambda: sc / A}[op[1]](), None
    if kb == "f": raise Skip()
    sh = bshape(A.shape, Bv.shape)
    x, y = bc(A, sh), bc(Bv, sh)
    if op in ("+", "-", "*", "/"):
        sc_ = np.abs(x) + np.abs(y) if op in "+-" else None
        return {"+": lambda: x + y, "-": lambda: x - y, "*": lambda: x * y, "/": lambda: x / y}[op](), sc_
    if op == "pow":
        r = np.power(x.astype(complex), y) if "c" in ka + kb else np.power(x, y)
        if "c" in ka + kb:
            r = np.where((x != 0) & (np.abs(np.log(np.maximum(np.abs(x), 1e-300)) * y) <= 200), r, np.nan)
        return r, None
    if "c" in ka + kb: raise Bad()
    if op == "tocomplex": return x + 1j * y, None
    if op == "polar": return x * np.exp(1j * y), None
    if op == "posdiff":
        z = x - y
        return np.where(z < -np.pi, z + 2 * np.pi, np.where(z > np.pi, z - 2 * np.pi, z)), np.abs(x) + np.abs(y)
    if op == "atan2": return np.arctan2(x, y), None
    if op == "fmod": return np.fmod(x, y), None
    if op == "remainder":
        return np.vectorize(lambda p, q: __import__("math").remainder(p, q) if q != 0 and np.isfinite(p) and np.isfinite(q) else np.nan, otypes=[float])(x, y), None
    if op in ("min2", "max2"):
        full = bshape(sh, *[np.atleast_1d(f).shape for f in (fla, flb) if f is not None])
        x, y = bc(A, full), bc(Bv, full)
        fx = np.zeros(full, bool) if fla is None else (bc(fla, full) & fa) != 0
        fy = np.zeros(full, bool) if flb is None else (bc(flb, full) & fb) != 0
        r = np.minimum(x, y) if op == "min2" else np.maximum(x, y)
        r = np.where(fx & fy, x, np.where(fx, y, np.where(fy, x, r)))
        return r, None
    raise KeyError(op)

OPS = (U1 + U2 + U3 + ["conj", "neg"] + B * 3 + ["+", "-", "*", "/"] * 8 + ["s+", "s-", "s*", "s/"] * 2 +
       ["min", "max", "mean", "sum", "product", "nelements"] * 5 + ["min2", "max2"] * 5 + ["~", "|", "&", "^"] * 4 +
       ["|s", "&s", "^s"] + ["ref", "deep"] * 2 + ["null", "where"] + ["=", "+=", "-=", "*=", "/="] * 7 + ["|=", "&=", "^="] * 5 +
       ["|=s", "&=s", "^=s"] * 2 + ["setflags"] * 10 + ["clearflags", "zero", "poke", "replace"] * 2)

@st.composite
def programs(draw):
    full = draw(full_shapes())
    n = draw(st.integers(2, 4))
    regs = [draw(arrays(full, "rrcf")) for _ in range(n)]
    if draw(st.booleans()):
        regs.append(draw(arrays(full, "f")))
    if draw(st.integers(0, 5)) == 0:
        regs[0]["s"] = draw(full_shapes())       # possibly incompatible
    m = len(regs) - 1
    def ins():
        op = draw(st.sampled_from(OPS))
        wantf = op[0] in "|&^~"
        ok = [i for i, r in enumerate(regs) if (r["k"] == "f") == wantf] or list(range(m + 1))
        cr = [i for i in ok if regs[i]["k"] == "r"]
        if cr and op in U2 + B + ["min", "max", "min2", "max2", "replace"]: ok = cr
        pick = lambda s: draw(st.sampled_from(s)) if draw(st.integers(0, 9)) else draw(st.integers(0, m))
        fl = [i for i, r in enumerate(regs) if r["k"] == "f"] or ok
        d, a, b = (pick([i for i, r in enumerate(regs) if r["k"] != "f"] or ok), pick(fl), 0) if op in ("setflags", "replace") else (pick(ok), pick(ok), pick(ok))
        return [op, d, a, b,
                draw(st.sampled_from([-1, -1, 0, 1, 2])), draw(st.sampled_from([-1, -1, 0, 1, 2])),
                draw(st.sampled_from([0.0, 1.0, -1.0, 2.5, -3.0])), draw(st.sampled_from([0, 1, 2, 7]))]
    prog = [ins() for _ in range(draw(st.integers(1, 8)))]
    return dict(shape=full, regs=regs, prog=prog)

def norm1(a):
    a = np.atleast_1d(a)
    return a.astype(np.int32) if a.dtype == np.int64 else a

def same(a, b):
    a, b = norm1(a), norm1(b)
    return a.shape == b.shape and a.dtype == b.dtype and a.tobytes() == b.tobytes()

@P.check("programs", programs(), quick=12000, thorough=200000, shards=6,
         rule="operation programs over registers; every register is compared after every step, so an operation that "
              "disturbs an operand or a copy is seen")
def run(case, ctx):
    regs = [make(r) for r in case["regs"]]
    steps = vt.vells_prog(regs, case["prog"], case["shape"])
    steps = [(e, [norm1(x) for x in v], [None if x is None else norm1(x) for x in f]) for e, v, f in steps]
    cur = [np.asarray(r) for r in regs]; fl = [None] * len(regs)
    nontriv = False
    for i, (ins, (err, vals, flags)) in enumerate(zip(case["prog"], steps)):
        op, d, a, b, fa, fb, sc, si = ins
        pre = "step %d %s: " % (i, ins)
        exp = None; skip = bad = False; scale = None; ka = None
        newfl = "any"
        with np.errstate(all="ignore"):
            try:
                if op == "=":
                    exp = cur[a]; newfl = fl[a]
                elif op in ("+=", "-=", "*=", "/="):
                    exp, scale = model(op[0], None, cur[d], cur[a], None, None, case["shape"], fa, fb, sc, si)
                elif op in ("|=", "&=", "^="):
                    exp, scale = model(op[0], None, cur[d], cur[a], None, None, case["shape"], fa, fb, sc, si)
                elif op in ("|=s", "&=s", "^=s"):
                    exp, scale = model(op[0] + "s", None, cur[d], None, None, None, case["shape"], fa, fb, sc, si) if kind(cur[d]) == "f" else (None, None)
                    bad = exp is None
                elif op == "setflags":
                    if kind(cur[a]) != "f" or a == d or kind(cur[d]) == "f" or fl[d] is not None and False: raise Skip()
                    exp = cur[d]; newfl = cur[a]
                elif op == "clearflags":
                    exp = cur[d]; newfl = None
                elif op == "zero":
                    exp = np.zeros_like(cur[d])
                elif op == "poke":
                    exp = np.array(cur[d])
                    if kind(exp) == "r": exp.reshape(-1)[0] = sc
                elif op == "replace":
                    if kind(cur[d]) != "r" or kind(cur[a]) != "f": raise Skip()
                    A = np.atleast_1d(cur[d]); F = np.atleast_1d(cur[a])
                    if np.prod(bshape(A.shape, F.shape)) != A.size: raise Bad()
                    F = F.reshape(F.shape[:A.ndim])
                    exp = np.where((bc(F, A.shape) & fa) != 0, sc, A)
                else:
                    exp, scale = model(op, cur[d], cur[a], cur[b], fl[a], fl[b], case["shape"], fa, fb, sc, si)
            except Bad: bad = True
            except Skip: skip = True
            except ShapeError: bad = True
        # registers other than the destination must be exactly as they were
        for j in range(len(cur)):
            if j != d and not same(cur[j], vals[j]):
                ctx.fail(pre + "changed register %d from %s to %s" % (j, cur[j].tolist(), np.asarray(vals[j]).tolist()))
            if j != d and not (flags[j] is None and fl[j] is None or flags[j] is not None and fl[j] is not None and same(fl[j], flags[j])):
                ctx.fail(pre + "changed flags of register %d" % j)
        got = np.asarray(vals[d])
        if skip:
            # nothing promised about the result (e.g. arithmetic on flags): stop here
            break
        if bad:
            if err is None:
                # an operand that is exactly zero or one may be short-cut before shapes are compared
                if op in ("+", "*", "+=", "*="):
                    break
                ctx.fail(pre + "accepted operands it must refuse; result %s" % got.tolist())
            if not same(got, cur[d]):
                ctx.fail(pre + "refused, yet changed its destination from %s to %s" % (cur[d].tolist(), got.tolist()))
            ctx.label("refused")
            continue
        if err is not None:
            ctx.fail(pre + "refused with: " + err)
        exp = np.atleast_1d(exp)
        g = np.atleast_1d(got)
        try:
            gb = bc(g, exp.shape)
        except ValueError:
            ctx.fail(pre + "result has shape %s, expected %s" % (g.shape, exp.shape))
        if kind(exp) == "f" and kind(g) != "f":
            ctx.fail(pre + "result is not a flag array")
        if not close(gb, exp, scale=scale):
            ctx.fail(pre + "result %s, expected %s" % (gb.tolist(), exp.tolist()))
        if op in ("real", "imag", "abs", "fabs", "norm", "arg", "nelements", "min", "max") and kind(g) != "r":
            ctx.fail(pre + "result is not real")
        if not isinstance(newfl, str):
            f = flags[d]
            if (f is None) != (newfl is None) or f is not None and not same(f, newfl):
                ctx.fail(pre + "flags of the result are %s, expected %s" % (f, newfl))
        if a != b and not same(cur[a].shape, cur[b].shape) or fl[a] is not None:
            nontriv = True
        ctx.label(op)
        cur[d] = got; fl[d] = flags[d]
    ctx.trivial(not nontriv)
