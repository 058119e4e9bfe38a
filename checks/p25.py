"""Values crossing between Python and the system, in both directions."""
from vmeq import *
from hypothesis import strategies as st
import numpy as np
import vfw, vdmi

P = vfw.Property("P25",
    rule="a case is a Python value (numbers, strings, ids, arrays of any layout, sequences, records, messages, and things that cannot be represented) passed to the system "
         "and back, or a system object passed to Python, or operations on a record or id that came back; non-trivial if the value holds a container, an array or a number beyond one byte",
    assumptions=["truth values may come back as the equal integers, one-element vectors as scalars, numbers of numpy's as the equal ones of Python",
                 "sequences come back as tuples or lists, lists of class dmilist as such; keys of records are ids, compared without case",
                 "a field of a record that cannot be represented is left out"])
P.setup = lambda: vt.init(0, 1)

DT = ["?", "i4", "f4", "f8", "c8", "c16"]
NAME = dict(zip(DT, ["bool", "int", "float", "double", "fcomplex", "dcomplex"]))
BADDT = ["u1", "i2", "i8", "u2", "u4", "u8", "i1", "f2", "U3", "S3", "O", "M8[s]", "f16"]
LAYOUT = ["c", "f", "t", "rev", "step", "bcast", "ro", "unal", "swap", "sub"]

ints = st.one_of(st.integers(-9, 9), st.sampled_from([2**31 - 1, -2**31, 2**31, -2**31 - 1, 2**32, 2**32 + 5, 2**53 + 1, 2**63 - 1, -2**63]), st.integers(-2**40, 2**40))
huge = st.sampled_from([2**63, -2**63 - 1, 2**64, 2**64 + 1, 10**30])
floats = st.one_of(st.sampled_from([0., -0., 1.5, -2.25, 1e308, 5e-324, float("inf"), float("-inf"), 1/3]), st.floats())
chars = st.sampled_from(list("abcXYZ019_ .$*?") + ["\n", "\0", "\x7f", "\xe9", "\u20ac", "\U0001f600", "\ud800"])
texts = st.lists(chars, max_size=8).map("".join) if False else st.text(chars, max_size=8)
hids = st.lists(st.one_of(st.integers(0, 9), st.sampled_from([-1, -2, 2**31 - 1, 1000])), min_size=1, max_size=4)
addrs = st.lists(st.integers(0, 9), min_size=4, max_size=4)
badhids = st.sampled_from([[2**31], [1, 2**32 + 3], [-2**31 - 5, 1], [2**70]])
keys = st.sampled_from(["a", "b", "value", "a_b", "name_1", "x7", "very_long_name_with_7_parts_in_it", "q", "p_1", "7"])

@st.composite
def arrays(draw, dts=tuple(DT)):
    return dict(k="arr", dt=draw(st.sampled_from(dts)), s=draw(st.lists(st.integers(0 if draw(st.integers(0, 9)) == 0 else 1, 3), min_size=0, max_size=4)),
                x=draw(st.integers(0, 10**6)), l=draw(st.lists(st.sampled_from(LAYOUT), max_size=2)))

@st.composite
def prims(draw):
    k = draw(st.sampled_from(["int", "int", "float", "cpx", "bool", "str", "hiid", "npf"]))
    if k == "int": return dict(k=k, v=draw(ints))
    if k in ("float", "npf"): return dict(k=k, v=draw(floats))
    if k == "cpx": return dict(k=k, v=[draw(floats), draw(floats)])
    if k == "bool": return dict(k=k, v=draw(st.booleans()))
    if k == "str": return dict(k=k, v=draw(texts))
    return dict(k=k, v=draw(hids))

@st.composite
def odd(draw):
    k = draw(st.sampled_from(["huge", "hidbad", "arrbad", "rank", "obj", "set", "dict", "npi", "npf32"]))
    if k == "huge": return dict(k=k, v=draw(huge))
    if k == "hidbad": return dict(k=k, v=draw(badhids))
    if k == "arrbad": return dict(draw(arrays(tuple(BADDT))), k=k)
    return dict(k=k, v=draw(st.integers(0, 5)))

@st.composite
def values(draw, depth=3, bad=12):
    if draw(st.integers(0, bad)) == 0 and depth < 3: return draw(odd())
    k = draw(st.sampled_from(["prim", "prim", "arr", "none"] + (["same", "seq", "seq", "rec", "rec", "rec", "dlist", "msg"] if depth > 0 else [])))
    if k == "none": return dict(k=k)
    if k == "prim": return draw(prims())
    if k == "arr": return draw(arrays())
    if k == "msg": return dict(k=k, id=draw(hids), v=draw(values(depth - 1, bad)), p=draw(st.integers(-20, 20)), to=draw(st.none() | addrs), frm=draw(st.none() | addrs),
                               st=draw(st.none() | st.integers(0, 9)), h=draw(st.none() | st.integers(0, 9)))
    if k == "rec":
        ks = draw(st.lists(keys, unique=True, max_size=4))
        c = draw(st.sampled_from([""] * 9 + ["MeqDomain"]))   # (whose content is checked: leave empty)
        return dict(k=k, c=c, f=[] if c else [[x, draw(values(depth - 1, bad))] for x in ks])
    n = draw(st.integers(0, 4))
    if k == "same":                       # equal types
        kind = draw(st.sampled_from(["int", "float", "cpx", "bool", "str", "hiid"])); x = []
        strat = {"int": ints, "float": floats, "cpx": st.tuples(floats, floats), "bool": st.booleans(), "str": texts, "hiid": hids}[kind]
        return dict(k="seq", tup=draw(st.booleans()), v=[dict(k=kind, v=draw(strat)) for _ in range(n)])
    return dict(k=k, tup=draw(st.booleans()), v=[draw(values(depth - 1, bad)) for _ in range(n)])

def make_arr(s):
    dt = np.dtype(s["dt"]); shape = tuple(s["s"]); n = int(np.prod(shape)) if shape else 1
    g = np.random.Generator(np.random.PCG64(s["x"]))
    if dt.kind in "iu": a = g.integers(np.iinfo(dt).min, np.iinfo(dt).max, n, dtype=dt, endpoint=True)
    elif dt.kind in "fc":
        a = g.integers(-1000, 1000, n) / 8.
        if dt.kind == "c": a = a + 1j * g.integers(-1000, 1000, n) / 4.
        a = a.astype(dt)
    elif dt.kind == "?" or dt.kind == "b": a = g.integers(0, 2, n).astype(dt)
    else: a = g.integers(0, 100, n).astype(dt) if dt.kind != "M" else g.integers(0, 100, n).astype("i8").astype(dt)
    a = a.reshape(shape)
    for l in s["l"]:
        if l == "f": a = np.asfortranarray(a)
        elif l == "t": a = a.T
        elif l == "rev": a = a[tuple(slice(None, None, -1) for _ in a.shape)] if a.ndim else a
        elif l == "step" and a.ndim:
            b = np.zeros(tuple(2 * x for x in a.shape), a.dtype); b[tuple(slice(None, None, 2) for _ in a.shape)] = a
            a = b[tuple(slice(None, None, 2) for _ in a.shape)]
        elif l == "bcast" and a.ndim and a.shape[0]: a = np.broadcast_to(a[:1], a.shape)
        elif l == "ro": a = a.copy(); a.flags.writeable = False
        elif l == "unal":
            buf = np.zeros(a.nbytes + 1, "u1"); b = buf[1:].view(a.dtype).reshape(a.shape) if a.dtype.kind != "O" and a.size else None
            if b is not None: b[...] = a; a = b
        elif l == "swap": a = a.astype(a.dtype.newbyteorder())
        elif l == "sub" and a.ndim: a = a[(slice(None, max(1, a.shape[0] - 1)),)]
    return a

def make(s):
    k = s["k"]
    if k == "none": return None
    if k in ("int", "float", "bool", "str", "huge"): return s["v"]
    if k == "npf": return np.float64(s["v"])
    if k == "npi": return [np.int64, np.int32, np.uint8, np.bool_, np.int16, np.longlong][s["v"]](1)
    if k == "npf32": return [np.float32, np.float16, np.complex64, np.longdouble, np.datetime64, np.complex256][s["v"]]({4: "2020-01-01"}.get(s["v"], 1))
    if k == "cpx": return complex(*s["v"])
    if k in ("hiid", "hidbad"): return dmi.hiid(tuple(s["v"]))
    if k in ("arr", "arrbad"): return make_arr(s)
    if k == "rank": return np.zeros((1,) * (11 + s["v"]))
    if k == "obj": return [object(), int, len, Ellipsis, slice(1), (x for x in ())][s["v"]]
    if k == "set": return set(range(s["v"]))
    if k == "dict": return {str(i): i for i in range(s["v"])}
    if k == "rec":
        r = (dmi.dmi_type(s["c"], dmi.record) if s["c"] else dmi.record)()
        for f, v in s["f"]: dict.__setitem__(r, f, make(v))   # whatever it is
        return r
    if k == "dlist": return dmi.dmilist([make(v) for v in s["v"]])
    if k == "msg":
        m = dmi.message(dmi.hiid(tuple(s["id"])), payload=make(s["v"]), priority=s["p"])
        if s["to"] is not None: m.to = dmi.hiid(tuple(s["to"]))
        if s["frm"] is not None: setattr(m, "from", dmi.hiid(tuple(s["frm"])))
        if s["st"] is not None: m.state = s["st"]
        if s["h"] is not None: m.hops = s["h"]
        return m
    v = [make(x) for x in s["v"]]
    return tuple(v) if s["tup"] else v

class Bad(Exception): "cannot be represented"

def expect(s, top=False):
    "model of what comes back: ('kind', value...)"
    k = s["k"]
    if k in ("huge", "hidbad", "arrbad", "rank", "obj", "set", "dict"): raise Bad
    if k in ("npi", "npf32"): raise Bad       # or the equal number: see same()
    if k == "none": return None
    if k == "str":
        try: s["v"].encode("utf-8")
        except UnicodeError: raise Bad
        return s["v"]
    if k in ("int", "bool"): return int(s["v"])
    if k in ("float", "npf"): return float(s["v"])
    if k == "cpx": return complex(*s["v"])
    if k == "hiid": return ("hiid", tuple(s["v"]))
    if k == "arr":
        a = make_arr(s); a = np.ascontiguousarray(a).astype(a.dtype.newbyteorder("=")) if a.ndim else a.astype(a.dtype.newbyteorder("=")).reshape(1)
        if a.shape == (1,):
            return a.item() if a.dtype.kind not in "b" else int(a.item())
        return a
    if k == "rec":
        f = {}
        for n, v in s["f"]:
            try: f[n] = expect(v)
            except Bad: pass
        return ("rec", s["c"], f)
    if k == "msg":
        return ("msg", tuple(s["id"]), expect(s["v"]), s["p"], tuple(s["to"] or (0,) * 4), tuple(s["frm"] or (0,) * 4), s["st"] or 0, s["h"] or 0)
    return ("list" if k == "dlist" else "seq", [expect(v) for v in s["v"]])

class Any: "whatever an element of a vector is created as"
ANY = Any()

def same(e, g):
    "None if the value g is what is expected, else the difference"
    if e is None: return None if g is None else "%r instead of None" % (g,)
    if e is ANY: return None
    if isinstance(e, np.ndarray):
        if type(g) is not dmi.array_class: return "%s instead of an array" % type(g)
        if g.dtype != e.dtype or g.shape != e.shape: return "array of %s %s instead of %s %s" % (g.dtype, g.shape, e.dtype, e.shape)
        return None if (g == e).all() else "array %s instead of %s" % (g.tolist(), e.tolist())
    if isinstance(e, tuple):
        if e[0] == "hiid": return None if type(g) is dmi.hiid and tuple(g.get(i) for i in range(len(g))) == e[1] else "%s %r instead of id %r" % (type(g), g, e[1])
        if e[0] == "rec":
            if not isinstance(g, dmi.record) or (dmi.dmi_typename(g) or "") != (e[1] or "DMIRecord"): return "%s instead of a record %s" % (type(g), e[1])
            if set(g.keys()) != set(e[2]): return "fields %s instead of %s" % (sorted(g.keys()), sorted(e[2]))
            for n, v in e[2].items():
                d = same(v, g[n])
                if d: return "%s: %s" % (n, d)
            return None
        if e[0] == "msg":
            if not isinstance(g, dmi.message): return "%s instead of a message" % type(g)
            d = same(e[2], g.payload)
            if d: return "payload: " + d
            x = tuple(plainid(getattr(g, k)) for k in ("msgid", "to", "from")) + (g.priority, g.state, g.hops)
            y = (e[1], e[4], e[5], e[3], e[6], e[7])
            return None if x == y else "message with %r instead of %r" % (x, y)
        if not isinstance(g, (list, tuple)) or isinstance(g, dmi.hiid): return "%s instead of a sequence" % type(g)
        if e[0] == "list" and not isinstance(g, list): return "%s instead of a list" % type(g)
        if len(g) != len(e[1]): return "%d elements instead of %d" % (len(g), len(e[1]))
        for i, (a, b) in enumerate(zip(e[1], g)):
            d = same(a, b)
            if d: return "[%d]: %s" % (i, d)
        return None
    if type(e) is int and isinstance(g, bool): g = int(g)
    return None if type(e) is type(g) and repr(e) == repr(g) else "%s %r instead of %s %r" % (type(g), g, type(e), e)

def plainid(h): return tuple(h.get(i) for i in range(len(h)))

def scalar_dump(s):
    "what the system holds for arrays and numbers"
    k = s["k"]
    if k == "arr":
        a = make_arr(s); a = a.astype(a.dtype.newbyteorder("="))
        return ("arr", NAME[s["dt"]], a.shape or (1,), a.ravel().tolist())
    return None

def weight(s):
    return 1 + sum(weight(x) for x in s.get("v", []) if isinstance(x, dict)) if isinstance(s.get("v"), list) else 1

@P.check("there_and_back", values(), quick=30000, thorough=400000, shards=8)
def echo(case, ctx):
    v = make(case)
    try: e = expect(case); bad = False
    except Bad: bad = True
    ctx.trivial(case["k"] in ("none", "bool") or case["k"] == "int" and abs(case["v"]) < 128)
    ctx.label("bad" if bad else case["k"])
    try: d, a, b, c = vt.py_echo(v)
    except vfw.CheckFailed if hasattr(vfw, "CheckFailed") else (): raise
    except Exception as x:
        if not bad: ctx.fail("refused: %s %s" % (type(x), x))
        return
    if bad:
        return ctx.fail("%r cannot be represented but came back as %r" % (v, a))
    for k, g in ("directly", a), ("through blocks", b), ("from the second conversion", c):
        x = same(e, g)
        if x: return ctx.fail("%s: %s" % (k, x))
    sd = scalar_dump(case)
    if sd and vdmi.norm(d) != vdmi.norm(sd): ctx.fail("the system holds %r instead of %r" % (d, sd))

LIM = dict(char=(-128, 127), uchar=(0, 255), short=(-2**15, 2**15 - 1), ushort=(0, 2**16 - 1), int=(-2**31, 2**31 - 1), uint=(0, 2**32 - 1),
           long=(-2**63, 2**63 - 1), ulong=(0, 2**64 - 1), longlong=(-2**63, 2**63 - 1), ulonglong=(0, 2**64 - 1))

@st.composite
def nums(draw):
    ty = draw(st.sampled_from(sorted(LIM))); lo, hi = LIM[ty]
    x = st.one_of(st.sampled_from([lo, hi, hi - 1, hi // 2 + 1, 0, 1]), st.integers(lo, hi))
    sc = draw(st.booleans())
    return {"t": "num", "ty": ty, "sc": sc, "v": draw(st.lists(x, min_size=1, max_size=1 if sc else 4))}

@st.composite
def outward(draw, depth=2):
    k = draw(st.sampled_from(["num", "str", "obj", "obj"] + (["rec", "list"] if depth else [])))
    if k == "num": return draw(nums())
    if k == "str": return {"t": "str", "sc": draw(st.booleans()), "v": draw(st.lists(st.one_of(st.integers(0, 255), st.sampled_from([0, 65, 0xc3, 0xa9, 0xff])), max_size=6))}
    if k == "obj": return draw(vdmi.objs(depth=2, nulls=True))
    if k == "list": return {"t": "list", "v": [draw(outward(depth - 1)) for _ in range(draw(st.integers(0, 3)))]}
    return {"t": "rec", "f": [[x, draw(outward(depth - 1))] for x in draw(st.lists(st.sampled_from(vdmi.NAMES), unique=True, max_size=3))]}

def number(ty, v):
    v = vdmi.value(ty, v)
    if ty == "fcomplex": return complex(v)
    return v

def model(s):
    if s is None: return None
    t = s["t"]
    if t == "num": return s["v"][0] if s["sc"] else ("seq", list(s["v"]))
    if t == "str":
        x = bytes(s["v"]).decode("utf-8", "surrogateescape"); return x if s["sc"] else ("seq", [x])
    if t == "rec": return ("rec", "", {k.lower().replace(".", "_"): model(v) for k, v in s["f"]})
    if t == "list": return ("list", [model(v) for v in s["v"]])
    if t == "arr":
        v = [vdmi.value(s["ty"], x) for x in s["v"]]
        if len(s["s"]) == 1 and len(v) == 1: return v[0]
        return np.array(v, dtype=dict(zip(NAME.values(), NAME))[s["ty"]]).reshape(s["s"])
    if s["ty"] in vdmi.DYN: v = [ANY if x is None else model(x) for x in s["v"]] or [ANY]
    elif s["ty"] == "HIID": v = [("hiid", tuple(x)) for x in s["v"]] or [("hiid", ())]
    elif s["ty"] == "string": v = [x.encode("latin1").decode("utf-8", "surrogateescape") for x in s["v"]] or [""]
    else: v = [vdmi.value(s["ty"], x) for x in s["v"]] or [vdmi.value(s["ty"], 0)]
    return v[0] if s["sc"] else ("seq", v)

def blank(s):
    "an array without a type has no form in Python"
    if isinstance(s, dict): return s.get("ty") == "DMINumArray" and None in s["v"] or any(blank(x) for x in s.values())
    return isinstance(s, (list, tuple)) and any(blank(x) for x in s)

@P.check("outward", outward(), quick=14000, thorough=200000, shards=8)
def out(case, ctx):
    ctx.trivial(case is None); ctx.label(case["t"] if case else "null")
    if blank(case): return ctx.trivial(True)
    d, v = vt.py_from(case)
    x = same(model(case), v)
    if x: ctx.fail("%s" % x)

@st.composite
def recops(draw):
    r = draw(st.lists(keys, unique=True, min_size=1, max_size=5))
    f = [[x, draw(values(1, 1000))] for x in r]
    op = st.tuples(st.sampled_from(["get", "getd", "attr", "item", "values", "items", "pop", "popd", "del", "set", "setattr", "in", "has", "copy", "str", "len", "iter", "eq", "popitem", "itervalues", "iteritems", "names", "back"]),
                   keys, st.integers(0, 4))
    return dict(f=f, ops=draw(st.lists(op, min_size=1, max_size=10)))

@P.check("records", recops(), quick=8000, thorough=200000, shards=8)
def records(case, ctx):
    "a record received from the system (whose fields are converted when first looked at) is the same mapping as a plain one"
    try: m = {k: expect(v) for k, v in case["f"]}; src = make(dict(k="rec", c="", f=case["f"]))
    except Bad: return ctx.trivial(True)
    g = vt.py_echo(src)[1]
    def bad(e, v, what):
        x = same(e, v)
        if x: ctx.fail("%s: %s" % (what, x))
        return x
    for op, k, n in case["ops"]:
        ctx.label(op)
        what = "%s %s of %s" % (op, k, sorted(m))
        if op in ("get", "getd", "attr", "item", "pop", "popd"):
            f = dict(get=lambda: g.get(k), getd=lambda: g.get(k, 77), attr=lambda: getattr(g, k), item=lambda: g[k], pop=lambda: g.pop(k), popd=lambda: g.pop(k, 77))[op]
            try: v = f(); err = None
            except (KeyError, AttributeError) as x: err = type(x)
            if k in m:
                if err: return ctx.fail("%s: %s" % (what, err))
                if bad(m[k], v, what): return
                if op in ("pop", "popd"): del m[k]
            elif op in ("get", "getd", "popd"):
                if err or v != (None if op == "get" else 77): return ctx.fail("%s: %s %s instead of the default" % (what, err, v))
            elif not err: return ctx.fail("%s: found %r" % (what, v))
        elif op in ("values", "itervalues"):
            v = list(getattr(g, op)())
            if bad(("seq", list(m.values())) if list(g.keys()) == list(m) else ("seq", [m[x] for x in g.keys()]), v, what): return
        elif op in ("items", "iteritems"):
            v = list(getattr(g, op)())
            if any(len(x) != 2 for x in v) or bad(("rec", "", m), dmi.record(dict(v)), what): return
        elif op == "popitem":
            if not m: continue
            x, v = g.popitem()
            if x not in m: return ctx.fail("%s: %s" % (what, x))
            if bad(m.pop(x), v, what): return
        elif op == "del":
            try: del g[k]; err = None
            except KeyError as x: err = x
            if bool(err) == (k in m): return ctx.fail("%s: %r" % (what, err))
            m.pop(k, None)
        elif op in ("set", "setattr"):
            if op == "set": g[k] = n
            else: setattr(g, k, n)
            m[k] = n
        elif op == "in":
            if (k in g) != (k in m): return ctx.fail("%s: %s" % (what, k in g))
        elif op == "has":
            if g.has_field(k) != (k in m): return ctx.fail("%s: %s" % (what, g.has_field(k)))
        elif op == "copy":
            h = g.copy(); g, h = h, g
            if n % 2 and m: del h[sorted(m)[0]]
        elif op == "str":
            if not isinstance(str(g), str) or not isinstance(repr(g), str): return ctx.fail(what)
        elif op == "len":
            if len(g) != len(m): return ctx.fail("%s: %d" % (what, len(g)))
        elif op == "names":
            if sorted(g.field_names()) != sorted(m): return ctx.fail("%s: %s" % (what, g.field_names()))
        elif op == "iter":
            if sorted(g) != sorted(m): return ctx.fail("%s: %s" % (what, sorted(g)))
        elif op == "eq":
            h = g.copy(); h2 = vt.py_echo(g)[1]
            nan = "nan" in repr(m)
            if not nan and not (g == h and h == g) : return ctx.fail("%s: not equal to a copy" % what)
            h["zz"] = 5
            if g == h or not g != h: return ctx.fail("%s: equal to a larger one" % what)
            if m:
                h = g.copy(); x = sorted(m)[0]; h[x] = "something else"
                if g == h and not (isinstance(m[x], str) and m[x] == "something else"): return ctx.fail("%s: equal to a different one" % what)
        elif op == "back": g = vt.py_echo(g)[1]
    bad(("rec", "", m), g, "at the end")

@st.composite
def hiidops(draw):
    h = lambda: draw(st.lists(st.integers(0, 99), max_size=5))
    return dict(a=h(), b=h(), i=draw(st.integers(-6, 6)), j=draw(st.integers(-6, 6)), sep=draw(st.sampled_from([".", "_"])), ct=draw(st.integers(0, 5)))

@P.check("ids", hiidops(), quick=4000, thorough=100000, shards=8)
def ids(case, ctx):
    a, b = tuple(case["a"]), tuple(case["b"]); i, j = case["i"], case["j"]
    ctx.trivial(not a and not b)
    A, B = dmi.hiid(a), dmi.hiid(b)
    def is_(x, e, what):
        if type(x) is not dmi.hiid or plainid(x) != e: ctx.fail("%s: %r of type %s instead of %r" % (what, plainid(x) if isinstance(x, dmi.hiid) else x, type(x), e))
    is_(A + B, a + b, "+"); is_(A + b, a + b, "+ tuple"); is_(a + B, a + b, "tuple +"); is_(A[i:j], a[i:j], "slice %d:%d" % (i, j)); is_(dmi.hiid(A, *b), a + b, "concatenation of arguments")
    if -len(a) <= i < len(a): is_(A[i], (a[i],), "element")
    if (A == B) != (a == b) or (A != B) != (a != b): ctx.fail("==")
    if A.startswith(B) != (a[:len(b)] == b): ctx.fail("startswith")
    if a: is_(dmi.hiid(A.as_str(case["sep"]), sep=case["sep"]), a, "text with %s" % case["sep"]); is_(dmi.hiid(str(A)), a, "text"); is_(eval(repr(A), {"hiid": dmi.hiid}), a, "repr")
    if len(a) == 1 and (A.as_int() != a[0] or int(A) != a[0]): ctx.fail("int")
    if len(a) == 1 and len(b) == 1 and not A.matches(B) == (a == b): ctx.fail("matches")
    if a and not A.matches(A): ctx.fail("does not match itself")
    x = A[:case["ct"]] + "*"
    if len(a) and A.matches(x) is False: ctx.fail("%s does not match %s" % (A, x))
    if a and b and A.matches(B + "*") and a[:len(b)] != b: ctx.fail("%s matches %s.*" % (A, B))
    l = dmi.make_hiid_list([str(A), B] if a else [A, B])
    if [plainid(x) for x in l] != [a, b]: ctx.fail("make_hiid_list %r" % (l,))
