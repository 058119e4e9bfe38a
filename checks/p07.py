"""Results and requests through every conversion, and mutated records."""
from fmodel import *
import vfw

P = vfw.Property("P07",
    rule="a case is a generated result or request passed through block, record, Python and clone conversions, or a generated result "
         "record with up to 4 mutations of its fields; non-trivial if a result has a value, a request has a grid or rider, or a mutation changed something",
    assumptions=["one-element arrays may come back as scalars",
                 "for mutated records only crashes and internal inconsistency of an accepted result count"])
P.setup = lambda: vt.init(0, 1)

def same(a, b):
    if isinstance(a, dict) and isinstance(b, dict):
        return set(a) == set(b) and all(same(a[k], b[k]) for k in a)
    if isinstance(a, (list, tuple)) and isinstance(b, (list, tuple)):
        return len(a) == len(b) and all(same(x, y) for x, y in zip(a, b))
    if isinstance(a, (np.ndarray, np.generic)) or isinstance(b, (np.ndarray, np.generic)):
        a, b = np.asarray(a), np.asarray(b)
        return a.dtype == b.dtype and a.shape == b.shape and (a.tobytes() == b.tobytes() or bool(np.all((a == b) | ((a != a) & (b != b)))))
    if isinstance(a, float) and isinstance(b, float): return a == b or (a != a and b != b)
    return type(a) == type(b) and a == b

def diff(a, b, path=""):
    if isinstance(a, dict) and isinstance(b, dict):
        for k in sorted(set(a) | set(b), key=str):
            if k not in a: return path + ".%s: only in the second: %r" % (k, b[k])
            if k not in b: return path + ".%s: only in the first: %r" % (k, a[k])
            if not same(a[k], b[k]): return diff(a[k], b[k], path + "." + str(k))
    if isinstance(a, (list, tuple)) and isinstance(b, (list, tuple)) and len(a) == len(b):
        for i, (x, y) in enumerate(zip(a, b)):
            if not same(x, y): return diff(x, y, path + "[%d]" % i)
    return "%s: %s %r and %s %r" % (path, type(a), a, type(b), b)

@st.composite
def results(draw):
    full = draw(st.lists(st.integers(1, 4), min_size=1, max_size=2))
    c = draw(result(full, dims=draw(st.sampled_from(DIMS + ([1, 1], [1], [2, 3], [2, 1, 2], [1, 1, 2]))), kinds="rc", styles=(0, 1, 2, 3),
                    spids=(1, 3, 7, 100), nset=draw(st.sampled_from([1, 2, 3]))))
    for p in c["planes"]:
        if "v" in p and draw(st.integers(0, 3)) == 0: p["w"] = dict(s=draw(arr.sub_shapes(full)), k="r", t=2, x=draw(arr.seeds()))
        if "v" in p and draw(st.integers(0, 9)) == 0: p["latefail"] = True
    return dict(full=full, res=c, cells=draw(st.booleans()))

def spec_of(case):
    r = realise(case["res"])
    full = tuple(case["full"]) + (1,) * (2 - len(case["full"]))
    spec = to_spec(r, grid(full), force_cells=case["cells"] or any("w" in p for p in case["res"]["planes"]))
    for p, q in zip(case["res"]["planes"], spec["planes"]):
        if p.get("latefail"): q["fail"] = ["late"]     # data first, then a fail
        if "w" in p: q["w"] = np.ascontiguousarray(make(p["w"]))
    r.planes = [Plane(fail=["late"]) if p.get("latefail") else q for p, q in zip(case["res"]["planes"], r.planes)]
    return r, full, spec

@P.check("results", results(), quick=6000, thorough=300000, shards=8)
def res(case, ctx):
    r, full, spec = spec_of(case)
    got = vt.result_paths(spec)
    d = got["direct"]
    if not any(p.missing for p in r.planes) and all(p.fail is None for p in r.planes) or len(r.planes) > 1:
        compare(ctx, d, r, full, rtol=0, atol=0)
        if list(d["dims"]) != (r.dims if len(r.planes) > 1 else []): ctx.fail("dimensions %s, expected %s" % (d["dims"], r.dims))
    for p, q in zip(spec["planes"], d["planes"]):
        if "fail_with_data" in q: ctx.fail("a failed plane has data")
        if "w" in p and "fail" not in p and not ("w" in q and np.array_equal(np.ravel(p["w"]), np.ravel(q["w"]))): ctx.fail("weights %s, expected %s" % (q.get("w"), p["w"]))
    # cells are kept only if some plane has a shape
    if ("cells" in d) != (spec["cells"] is not None and any("shape" in p for p in d["planes"])): ctx.fail("has cells: %s" % ("cells" in d))
    if got["blocks_left"]: ctx.fail("%d blocks left over" % got["blocks_left"])
    if "cells" in d: d["cells"] = plain(d["cells"])
    for k in ("block", "record", "python", "clone", "after"):
        g = got[k]
        if "cells" in g: g["cells"] = plain(g["cells"])
        if not same(d, g): ctx.fail("%s conversion differs at %s" % (k, diff(d, g)))
    ctx.label("dims %s" % r.dims, *[l for l, c in [("fails", any(p.fail for p in r.planes)), ("missing", any(p.missing for p in r.planes)),
              ("weights", any("w" in p for p in case["res"]["planes"])), ("perts", any(p.spids for p in r.planes))] if c])
    ctx.trivial(all(p.v is None for p in r.planes))

# ---- requests ---------------------------------------------------------------------------------
names = st.sampled_from(["a", "b", "command_by_list", "x.y", "node_state", "all"])
atoms = st.one_of(st.integers(-2**31, 2**31 - 1), st.floats(allow_nan=False), st.text(alphabet="abc .*?-", max_size=6), st.booleans(),
                  st.lists(st.integers(-5, 5), min_size=1, max_size=3), st.lists(st.floats(-1, 1), min_size=1, max_size=3), st.lists(st.text(alphabet="xyz", min_size=1, max_size=3), min_size=1, max_size=2))
riders = st.recursive(st.dictionaries(names, atoms, max_size=3), lambda c: st.dictionaries(names, st.one_of(atoms, c, st.lists(c, min_size=1, max_size=2)), max_size=3), max_leaves=6)

@st.composite
def requests(draw):
    full = draw(grids())
    c = dict(full=full, rqid=[draw(st.sampled_from(["ev", "ds", "dp", "d0", "pu"]))] + [draw(st.integers(0, 30000)) for _ in range(draw(st.integers(0, 5)))],
             cells=draw(st.booleans()), rider=draw(st.none() | riders))
    return c

def torec(x):
    if isinstance(x, dict):
        r = dmi.record()
        for k, v in x.items(): r[k] = torec(v)
        return r
    if isinstance(x, list) and x and isinstance(x[0], dict): return [torec(i) for i in x]
    return x

@P.check("requests", requests(), quick=4000, thorough=200000, shards=8)
def req(case, ctx):
    cells = grid(case["full"])
    kw = dict(rqid=dmi.hiid(".".join(str(x) for x in case["rqid"])))
    r = meq.request(cells if case["cells"] else None, **kw)
    if case["rider"] is not None: r["rider"] = torec(case["rider"])
    got = vt.object_paths(r)
    if got["type"] != "MeqRequest": ctx.fail("request became a %s" % got["type"])
    d = plain(got["direct"])
    if str(d.get("request_id")) != str(kw["rqid"]): ctx.fail("request id %s, expected %s" % (d.get("request_id"), kw["rqid"]))
    if ("cells" in d) != case["cells"]: ctx.fail("cells: %s" % ("cells" in d))
    if case["cells"] and any(not np.array_equal(np.ravel(d["cells"]["grid"][a]), np.ravel(plain(cells["grid"])[a])) for a in ("time", "freq")): ctx.fail("grid differs: %s" % d["cells"]["grid"])
    if ("rider" in d) != (case["rider"] is not None): ctx.fail("rider: %s" % ("rider" in d))
    if case["rider"] is not None: rider_same(ctx, case["rider"], d["rider"], "rider")
    if got["blocks_left"]: ctx.fail("%d blocks left over" % got["blocks_left"])
    if got["block_type"] != "MeqRequest" or got["python_type"] != "MeqRequest": ctx.fail("type changed: %s %s" % (got["block_type"], got["python_type"]))
    for k in ("block", "clone", "python"):
        g = plain(got[k])
        if not same(d, g): ctx.fail("%s conversion differs at %s" % (k, diff(d, g)))
    ctx.trivial(not case["cells"] and not case["rider"])

def rider_same(ctx, a, b, path):
    """a: JSON, b: what came back"""
    if isinstance(a, dict):
        if not isinstance(b, dict): ctx.fail("%s: %r became %r" % (path, a, b))
        bk = {str(k).lower().replace("_", "."): v for k, v in b.items()}
        ak = {str(k).lower().replace("_", "."): v for k, v in a.items()}
        if set(ak) != set(bk): ctx.fail("%s: fields %s became %s" % (path, sorted(ak), sorted(bk)))
        for k in ak: rider_same(ctx, ak[k], bk[k], path + "." + k)
    elif isinstance(a, list):
        b = list(np.ravel(b)) if isinstance(b, np.ndarray) else (list(b) if isinstance(b, (list, tuple)) else [b])
        if len(a) != len(b): ctx.fail("%s: %r became %r" % (path, a, b))
        for i, (x, y) in enumerate(zip(a, b)): rider_same(ctx, x, y, path + "[%d]" % i)
    elif isinstance(a, str):
        if a != b: ctx.fail("%s: %r became %r" % (path, a, b))
    elif not (a == b): ctx.fail("%s: %r became %r" % (path, a, b))

# ---- mutated records ---------------------------------------------------------------------------
ATOMS = st.one_of(
    st.tuples(st.just("i"), st.sampled_from([0, 1, -1, 2, 5, 2**31 - 1])), st.tuples(st.just("f"), st.sampled_from([0.0, 1.5, -1e300])),
    st.tuples(st.just("s"), st.sampled_from(["", "x", "a.b"])), st.tuples(st.just("h"), st.just("a.b")),
    st.tuples(st.just("l"), st.lists(st.integers(-2, 5), max_size=4)), st.tuples(st.just("lf"), st.lists(st.floats(-2, 5), max_size=4)),
    st.tuples(st.just("ai"), st.lists(st.integers(0, 4), max_size=3)), st.tuples(st.just("ad"), st.lists(st.integers(0, 4), max_size=3)),
    st.tuples(st.just("ac"), st.lists(st.integers(0, 4), max_size=3)), st.tuples(st.just("r"), st.just({})), st.tuples(st.just("lr"), st.just([])),
    st.tuples(st.just("vd"), st.lists(st.integers(1, 4), max_size=3)), st.tuples(st.just("vc"), st.lists(st.integers(1, 4), max_size=3)),
    st.tuples(st.just("vi"), st.lists(st.integers(1, 4), max_size=3)))

@st.composite
def mutations(draw):
    c = draw(results())
    c["ops"] = [dict(op=draw(st.sampled_from(["del", "set", "set", "add", "swap", "dup", "cut", "grow", "resize", "resize"])), i=draw(st.integers(0, 60)), j=draw(st.integers(0, 60)),
                     a=list(draw(ATOMS)), k=draw(st.sampled_from(FIELDS))) for _ in range(draw(st.integers(1, 4)))]
    c["cls"] = draw(st.sampled_from(CLASSES))
    return c

FIELDS = ["value", "shape", "flags", "weights", "spids", "perturbations", "perturbed_value", "perturbations.1", "perturbed_value.1", "fail", "cells", "dims", "vellsets", "message"]
CLASSES = ["Identity", "Sqr", "Add", "Sum", "Mean", "Transpose", "MatrixMultiply", "Composer", "Selector", "MergeFlags", "ZeroFlagger", "Resampler", "MatrixInvert22", "Condeq", "Paster"]

def vells(a):
    v = meq._vells(a.shape, a.dtype, 0)
    v[...] = a
    return v

def atom(a):
    k, v = a
    ar = lambda t: (np.arange(int(np.prod(v)) if v else 1).reshape(v or [1]) % 5).astype(t)
    if k == "h": return dmi.hiid(v)
    if k == "ai": return ar(np.int32)
    if k == "ad": return ar(np.float64)
    if k == "ac": return ar(np.complex128)
    if k == "r": return dmi.record()
    if k == "lr": return [dmi.record(), dmi.record()]
    if k[0] == "v": return vells(ar(dict(d=np.float64, c=np.complex128, i=np.int32)[k[1]]))
    if k == "lf": return [float(x) for x in v]
    return list(v) if k == "l" else v

def slots(x, out, top=True):
    """all (container,key) in x, lazily resolved"""
    if isinstance(x, dict):
        for k in list(dict.keys(x)):
            v = x[k]
            out.append((x, k)); slots(v, out, False)
    elif isinstance(x, list):
        for i, v in enumerate(x): out.append((x, i)); slots(v, out, False)
    elif isinstance(x, tuple):
        for v in x: slots(v, out, False)
    return out

def unt(x):
    """tuples to lists, so that these can be changed"""
    if isinstance(x, dict):
        for k in list(dict.keys(x)): dict.__setitem__(x, k, unt(x[k]))
    elif isinstance(x, list) or type(x) is tuple:
        if type(x) is tuple: x = list(x)
        for i in range(len(x)): x[i] = unt(x[i])
    return x

def put(c, k, v):
    if isinstance(c, dict): dict.__setitem__(c, k, v)
    else: c[k] = v

def mutate(rec, ops):
    n = 0
    for o in ops:
        s = slots(rec, [])
        if not s: break
        c, k = s[o["i"] % len(s)]
        c2, k2 = s[o["j"] % len(s)]
        import copy
        if o["op"] == "del":
            if isinstance(c, dict): dict.__delitem__(c, k)
            else: del c[k]
        elif o["op"] == "set": put(c, k, atom(o["a"]))
        elif o["op"] == "add":
            ds = [x[0] for x in s if isinstance(x[0], dict)]
            d = ds[o["i"] % len(ds)] if ds else rec
            dict.__setitem__(d, dmi.hiid(o["k"]) if False else o["k"], atom(o["a"]))
        elif o["op"] == "swap":
            v = c[k]
            if contains(v, c2) or contains(c2[k2], c): continue
            put(c, k, c2[k2]); put(c2, k2, v)
        elif o["op"] == "dup":
            if contains(c2[k2], c): continue
            put(c, k, c2[k2])
        elif o["op"] in ("cut", "grow", "resize"):
            if o["op"] == "resize":
                s = [x for x in s if str(x[1]).lower().startswith(("pert", "spid"))]
                if not s: continue
                c, k = s[o["i"] % len(s)]
            v = c[k]
            if isinstance(v, np.ndarray) and v.ndim:
                v2 = v[:-1] if o["op"] == "cut" or o["j"] % 2 else np.concatenate([v, v[-1:]])
                put(c, k, type(v)(v2) if False else np.ascontiguousarray(v2))
            elif isinstance(v, list) and v: put(c, k, v[:-1] if o["op"] == "cut" or o["j"] % 2 else v + [v[-1]])
            else: continue
        n += 1
    return n

def contains(x, c, depth=0):
    if x is c: return True
    if isinstance(x, dict): return any(contains(v, c) for v in dict.values(x))
    if isinstance(x, (list, tuple)): return any(contains(v, c) for v in x)
    return False

def consistent(ctx, r):
    n = len(r["planes"])
    if r["dims"] and np.prod(r["dims"]) != n: ctx.fail("dimensions %s with %d planes" % (r["dims"], n))
    shapes = []
    for p in r["planes"]:
        own = [np.shape(p[k]) for k in ("v", "f", "w") if k in p] + [np.shape(x) for s in p.get("pv", []) for x in s]
        own = [s for s in own if np.prod(s) != 1 and s != (0,)]
        try: s = bshape(*own) if own else ()
        except ShapeError: ctx.fail("accepted a plane with incompatible shapes %s" % own)
        shapes += [s] if s else []
        for k in ("perts", "pv"):
            for x in p.get(k, []):
                if len(x) != len(p["spids"]): ctx.fail("accepted %s of size %d with %d parameters" % (k, len(x), len(p["spids"])))

def count(x): return len(x) if isinstance(x, (list, tuple)) else x.size if isinstance(x, np.ndarray) and not hasattr(x, "get_flags") and type(x) is np.ndarray else 1

def sizes(ctx, rec):
    """an accepted record has as many perturbations and perturbed values as there are parameters"""
    vs = field(rec, "vellsets")
    for v in vs if isinstance(vs, list) else []:
        if not isinstance(v, dict) or field(v, "fail") is not None or field(v, "spid_index") is None: continue
        n = count(field(v, "spid_index"))
        i = 0
        while True:
            suffix = "_%d" % i if i else ""
            p, q = field(v, "perturbations" + suffix), field(v, "perturbed_value" + suffix)
            if p is None: break
            if isinstance(p, (list, np.ndarray)) and count(p) != n: ctx.fail("accepted %d perturbations of %d parameters" % (count(p), n))
            if isinstance(q, list) and count(q) != n: ctx.fail("accepted %d perturbed values of %d parameters" % (count(q), n))
            i += 1

def np_list(x): return x if isinstance(x, list) else []

def field(d, name):
    for k in dict.keys(d):
        if str(k).lower().replace(".", "_") == name: return d[k]

_n = [0]
@P.check("mutated", mutations(), quick=6000, thorough=500000, shards=8)
def mut(case, ctx):
    r, full, spec = spec_of(case)
    rec = unt(vt.result_record(spec))
    n = mutate(rec, case["ops"])
    ctx.trivial(n == 0)
    got = None
    try: got = vt.result_validate(rec)
    except Exception as e:
        if "ACCEPTED" in str(e): ctx.fail("a record was accepted that does not describe a valid result: %s" % e)
        ctx.label("refused"); del e
    else:
        ctx.label("accepted")
        consistent(ctx, got)
        # what cannot be converted from Python is left out
        if len(got["planes"]) == len(np_list(field(rec, "vellsets"))): sizes(ctx, rec)
    try: vt.object_paths(rec)
    except Exception as e: pass
    vt.clear_forest()
    create([node("MeqVtNode", "c"), node("MeqVtNode", "d"), node("Meq" + case["cls"], "n", ["c", "d"] if case["cls"] in ("Add", "Condeq", "MatrixMultiply", "Composer", "Paster", "MergeFlags") else ["c"])])
    try: vt.set_source("c", [rec], 0, 0, 0)
    except Exception as e: return     # refused
    vt.src("d", [dict(dims=None, cells=None, planes=[dict(v=np.array([2.0]))])])
    rq = request(grid(full))
    try: rc, out = vt.run("n", rq)
    except vt.Error: ctx.label("refused on reading"); return
    if out is not None and got and got["planes"]: consistent(ctx, out)
