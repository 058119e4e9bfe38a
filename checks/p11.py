"""Solver, condition equations and solvable parameters against numpy's weighted linear least squares."""
from fmodel import *
from Timba.dmi import hiid
import vfw

P = vfw.Property("P11",
    rule="a case is a tree of condition equations, linear in generated (tiled) polynomial parameters, over generated data with flags, weights, "
         "failed and missing equations; non-trivial if at least two unknowns are determined by more equations than unknowns",
    assumptions=["numpy.linalg.lstsq", "problems of which the matrix of equations is nearly singular are only required not to increase chi^2",
                 "equations are linear in the parameters, which makes the derivatives exact"])
P.setup = lambda: vt.init(0, 1)

# ---- cases --------------------------------------------------------------------------------
@st.composite
def parms(draw, full, tiled, poly=True):
    p = dict(shape=[draw(st.sampled_from([1, 1, 1, 2, 3])), draw(st.sampled_from([1, 1, 1, 2, 3]))] if poly else [1, 1],
             init=draw(arr.seeds()), solvable=draw(st.integers(0, 4)) > 0)
    if draw(st.integers(0, 3)) == 0: p["byshape"] = True
    if tiled and draw(st.integers(0, 2)): p["tiling"] = [draw(st.integers(0, n)) for n in full]
    return p

@st.composite
def equations(draw, full, nparm):
    kinds = draw(st.sampled_from(["r", "r", "c"]))
    e = dict(coef=[draw(values(full, [kinds if draw(st.integers(0, 3)) else "r"], [1, 2])) if draw(st.integers(0, 3)) else None for _ in range(nparm)],
             data=draw(values(full, [draw(st.sampled_from([kinds, kinds, "r", "c"]))], [1, 2])), order=draw(st.booleans()))
    if draw(st.integers(0, 2)) == 0: e["f"] = dict(s=draw(arr.sub_shapes(full)), k="f", t=draw(st.integers(0, 3)), x=draw(arr.seeds()))
    if draw(st.integers(0, 2)) == 0: e["mf"] = dict(s=draw(arr.sub_shapes(full)), k="f", t=draw(st.integers(0, 3)), x=draw(arr.seeds()))
    if draw(st.integers(0, 2)) == 0: e["w"] = dict(s=draw(arr.sub_shapes(full)), k="r", t=2, x=draw(arr.seeds()))
    if draw(st.integers(0, 3)) == 0:
        # a second element of the tensor
        e["data2"] = draw(values(full, [e["data"]["k"]], [1, 2]))
        if draw(st.integers(0, 1)): e["f2"] = dict(s=draw(arr.sub_shapes(full)), k="f", t=draw(st.integers(0, 3)), x=draw(arr.seeds()))
        if draw(st.integers(0, 5)) == 0: e["miss2"] = True
    e["state"] = draw(st.sampled_from(["ok"] * 10 + ["fail", "missing"]))
    return e

@st.composite
def problems(draw, tiled=True, poly=True):
    full = [draw(st.integers(1, 6)), draw(st.integers(1, 5))]
    ps = [draw(parms(full, tiled, poly)) for _ in range(draw(st.integers(1, 3)))]
    es = [draw(equations(full, len(ps))) for _ in range(draw(st.integers(1, 3)))]
    if draw(st.integers(0, 3)) == 0:
        # groups of parameters solved separately, from different equations
        for p in ps: p["group"] = draw(st.sampled_from(["", "a", "b"]))
        for e in es:
            g = draw(st.sampled_from(sorted(set(p["group"] for p in ps))))
            e["coef"] = [c if p["group"] == g or not p["solvable"] else None for c, p in zip(e["coef"], ps)]
    return dict(full=full, parms=ps, eqs=es, mode=draw(st.sampled_from([1, 1, 2])),
                mask=draw(st.sampled_from([-1, -1, 1, 2, 0])), riders=draw(st.booleans()), svd=draw(st.booleans()))

# ---- the tree -----------------------------------------------------------------------------
def coeffs(p):
    """initial coefficients; those of too high a total degree are not used"""
    c = np.random.RandomState(p["init"] % 2**31).uniform(-2, 2, p["shape"])
    c = (np.floor(c * 8) + .5) / 8
    if p.get("byshape"): c = np.where(np.arange(c.size).reshape(c.shape) == 0, c, 0)
    return c

def build(case, num_iter, last=True, **solver):
    vt.clear_forest()
    full = case["full"]
    nodes, eqs = [], []
    for k, p in enumerate(case["parms"]):
        kw = {}
        if "tiling" in p: kw["tiling"] = dmi.record(time=p["tiling"][0], freq=p["tiling"][1])
        if "group" in p: kw["solve_group"] = p["group"]
        if "extra" in p: kw.update(p["extra"])
        if not case["riders"]: kw["solvable"] = int(p["solvable"])
        # the shape of the polynomial comes with its initial value, or is set on the node
        if p.get("byshape"): kw.update(shape=p["shape"], default_value=float(coeffs(p)[0, 0]))
        else: kw.update(init_funklet=meq.polc(coeff=coeffs(p), shape=p["shape"]))
        nodes.append(node("MeqParm", "p%d" % k, node_groups=hiid("Parm"), **kw))
    for i, e in enumerate(case["eqs"]):
        terms = []
        for k, c in enumerate(e["coef"]):
            if c is None: continue
            nodes.append(node("MeqVtNode", "c%d_%d" % (i, k)))
            nodes.append(node("MeqMultiply", "t%d_%d" % (i, k), ["c%d_%d" % (i, k), "p%d" % k]))
            terms.append("t%d_%d" % (i, k))
        if not terms: continue
        nodes += [node("MeqVtNode", "d%d" % i), node("MeqAdd", "m%d" % i, terms)]
        ch = ["m%d" % i, "d%d" % i] if e["order"] else ["d%d" % i, "m%d" % i]
        if "w" in e:
            nodes.append(node("MeqVtNode", "w%d" % i)); ch.append("w%d" % i)
        nodes.append(node("MeqCondeq", "e%d" % i, ch))
        eqs.append(i)
    if case["riders"]:
        on = [("p%d" % k) for k, p in enumerate(case["parms"]) if p["solvable"]]
        solver["solvable"] = dmi.record(command_by_list=[dmi.record(name=on, state=dmi.record(solvable=True)), dmi.record(state=dmi.record(solvable=False))])
    nodes.append(node("MeqSolver", "solver", ["e%d" % i for i in eqs], num_iter=num_iter, last_update=int(last), flag_mask=case["mask"],
                      use_svd=int(case["svd"]), eval_mode=case.get("mode", 1), **solver))
    create(nodes)
    return eqs, sources(case, eqs)

def sources(case, eqs):
    full = case["full"]
    cells = grid(full)
    for i in eqs:
        e = case["eqs"][i]
        for k, c in enumerate(e["coef"]):
            if c is None: continue
            pl = Plane(make(c), make(e["mf"]) if "mf" in e and k == min(j for j, x in enumerate(e["coef"]) if x is not None) else None)
            vt.src("c%d_%d" % (i, k), [to_spec(Res([], [pl]), cells)])
        d = [dict(ok=Plane(make(e["data"]), make(e["f"]) if "f" in e else None), fail=Plane(fail=["no data"]), missing=Plane())[e["state"]]]
        if "data2" in e and e["state"] == "ok":
            d.append(Plane() if "miss2" in e else Plane(make(e["data2"]), make(e["f2"]) if "f2" in e else None))
        vt.src("d%d" % i, [to_spec(Res([2] if len(d) > 1 else [], d), cells)], dict(ok=0, fail=RES_FAIL, missing=RES_MISSING)[e["state"]])
        if "w" in e: vt.src("w%d" % i, [to_spec(Res([], [Plane(weights(e))]), cells)])
    return cells

def weights(e): return np.abs(make(e["w"]))

# ---- the same problem for numpy -----------------------------------------------------------
def basis(p, full):
    """functions of the parameter: polynomials up to its degrees within each of its tiles"""
    nt, nf = full
    t, f = (np.arange(nt) + .5)[:, None] / nt, (np.arange(nf) + .5)[None, :] / nf
    ts = [n if not x else x for x, n in zip(p.get("tiling", [0, 0]), full)]
    out = []
    big = p["shape"][0] * p["shape"][1] >= 4
    for a in range(0, nt, ts[0]):
        for b in range(0, nf, ts[1]):
            m = np.zeros(full); m[a:a + ts[0], b:b + ts[1]] = 1
            for i in range(p["shape"][0]):
                for j in range(p["shape"][1]):
                    if big and min(p["shape"]) > 1 and i + j > max(p["shape"]) - 1: continue
                    tt = (t - a / nt) * nt / ts[0]; ff = (f - b / nf) * nf / ts[1]
                    out.append(m * tt**i * ff**j)
    return out

def data_of(case, eqs):
    """equation, data, points used and their weights, for each plane with data"""
    full = tuple(case["full"])
    for i in eqs:
        e = case["eqs"][i]
        if e["state"] != "ok" or not any(c is not None and p["solvable"] for c, p in zip(e["coef"], case["parms"])): continue
        for data, flags in (("data", "f"), ("data2", "f2")):
            if data not in e or data == "data2" and "miss2" in e: continue
            fl = np.zeros(full, np.int32)
            for x in (flags, "mf"):
                if x in e: fl |= bc(make(e[x]), full)
            w = bc(weights(e), full) if "w" in e else np.ones(full)
            ok = ((fl & np.int32(case["mask"])) == 0) & (w > 0)
            if ok.any(): yield e, bc(make(e[data]), full).astype(complex), ok, w

def linear(case, eqs, fixed):
    """matrix, right hand side, weights, functions by parameter; fixed: values of the parameters that are not solvable"""
    full = tuple(case["full"])
    A, r, W = [], [], []
    B = {k: basis(p, full) for k, p in enumerate(case["parms"]) if p["solvable"]}
    for e, res, ok, w in data_of(case, eqs):
        cols = []
        for k, p in enumerate(case["parms"]):
            c = e["coef"][k]
            cc = 0 * res if c is None else bc(make(c), full).astype(complex)
            if p["solvable"]: cols += [(cc * b)[ok] for b in B[k]]
            else: res = res - cc * fixed[k]
        cols = np.array(cols).T
        for part in (np.real, np.imag):
            A.append(part(cols)); r.append(part(res[ok])); W.append(w[ok])
    n = sum(len(b) for b in B.values())
    if not A: return np.zeros((0, n)), np.zeros(0), np.zeros(0), B
    return np.concatenate(A), np.concatenate(r), np.concatenate(W), B

def evaluate(case, cells):
    out = []
    for k in range(len(case["parms"])):
        rc, r = vt.run("p%d" % k, request(cells, new=False))
        out.append(bc(as_arr(r["planes"][0]["v"]), tuple(case["full"])).astype(float))
    return out

def solve(ctx, case, cells):
    rc, res = vt.execute("solver", request(cells))
    res = plain(res) if res is not None else None
    return rc, res.get("solver_result") if res else None

def has_unknowns(case, eqs):
    """parameters are found through the equations, whether or not these have data"""
    return any(p["solvable"] and any(case["eqs"][i]["coef"][k] is not None for i in eqs) for k, p in enumerate(case["parms"]))

def reach(case, eqs):
    return [any(case["eqs"][i]["coef"][k] is not None for i in eqs) for k in range(len(case["parms"]))]

def judge(ctx, case, eqs, before, rc, res, after, fresh=True):
    full = tuple(case["full"])
    if not has_unknowns(case, eqs):
        if not rc & RES_FAIL: ctx.fail("nothing to solve for, but the code is %#x, result %s" % (rc, res))
        ctx.label("nothing solvable"); return False
    if rc & RES_FAIL or res is None: ctx.fail("failed, code %#x" % rc)
    R = reach(case, eqs)
    for k, p in enumerate(case["parms"]):
        if not p["solvable"] and not np.array_equal(before[k], after[k]):
            ctx.fail("parameter p%d is not solvable but went from %s to %s" % (k, before[k].tolist(), after[k].tolist()))
    A, r, W, B = linear(case, eqs, before)
    spids = sum(len(basis(dict(p, tiling=[0, 0]), full)) for k, p in enumerate(case["parms"]) if p["solvable"] and R[k])
    names = sorted(set(x["name"] for x in res["spid_map"].values()))
    if names != ["p%d" % k for k in B if R[k]]: ctx.fail("solved for %s" % names)
    if len(res["spid_map"]) != spids: ctx.fail("%d parameters of functions solved for, expected %d" % (len(res["spid_map"]), spids))
    uk = sum(len(b) for k, b in B.items() if R[k])
    it = int(res["iterations"])
    if len(r) == 0:
        ctx.label("no equations")
        if fresh:
            for k in B:
                if R[k] and not close(after[k], start(case, k, full), 1e-7, 1e-7): ctx.fail("no equations, but p%d is %s" % (k, after[k].tolist()))
        return False
    inc = np.asarray(res["incremental_solutions"])
    if inc.size != it * uk: ctx.fail("solutions of shape %s after %d iterations for %d unknowns" % (inc.shape, it, uk))
    sw = np.sqrt(W)
    Aw, rw = A * sw[:, None], r * sw
    d, _, rank, sv = np.linalg.lstsq(Aw, rw, rcond=1e-9)
    best = np.sum((rw - Aw @ d) ** 2)
    got = chi2(case, eqs, after)
    worst = chi2(case, eqs, [0 * a for a in after])
    n = A.shape[1]
    good = rank == n and sv[-1] > 1e-3 * sv[0]
    ctx.label("rank %s" % ("full" if good else "poor"))
    ctx.label("tiled" if any("tiling" in p for p in case["parms"]) else "untiled")
    if not good:
        if fresh:
            first = chi2(case, eqs, [start(case, k, full) if k in B else before[k] for k in range(len(before))])
            if got > first * (1 + 1e-6) + 1e-9: ctx.fail("remaining chi^2 has grown from %g to %g with %s" % (first, got, [a.tolist() for a in after]))
        return False
    if got > best + 1e-5 * (worst + best + 1): ctx.fail("remaining chi^2 %g with %s, the least possible is %g" % (got, [a.tolist() for a in after], best))
    m = 0
    for k, b in B.items():
        want = sum(x * y for x, y in zip(d[m:], b)); m += len(b)
        if R[k] and not close(after[k], want, 1e-4, 1e-4 * max(np.abs(d).max(), 1)):
            ctx.fail("p%d is %s, expected %s" % (k, after[k].tolist(), want.tolist()))
    met = res["metrics_array"]
    met = met if isinstance(met, list) else [met]
    last = sum(int(np.atleast_1d(x["rank"])[0]) for x in met)
    if fresh and last != n: ctx.fail("rank of the first iteration %d, expected %d" % (last, n))
    if len(met) == 1:
        chi = float(np.atleast_1d(met[0]["chi"])[-1])
        # (casacore leaves it at zero if a step finds nothing to improve)
        if chi and not abs(chi - best) <= 1e-5 * (worst + best + 1): ctx.fail("chi is reported to be %g, but is %g" % (chi, best))
    return n > 1 and len(r) > n

@P.check("linear", problems(), quick=2400, thorough=80000, shards=8, case_timeout=30)
def linear_problem(case, ctx):
    eqs, cells = build(case, 25)
    if not eqs: ctx.trivial(True); return
    before = evaluate(case, cells)
    rc, res = solve(ctx, case, cells)
    after = evaluate(case, cells)
    ctx.trivial(not judge(ctx, case, eqs, before, rc, res, after))

# ---- the updates of each iteration ----------------------------------------------------------
@st.composite
def constants(draw):
    c = draw(problems(tiled=False, poly=False))
    c["iter"] = draw(st.integers(1, 4)); c["last"] = draw(st.booleans())
    c["limits"] = [draw(st.sampled_from([None, None, None, [-1, 1], [0, .5]])) for _ in c["parms"]]
    c["positive"] = [draw(st.integers(0, 5)) == 0 for _ in c["parms"]]
    return c

@P.check("updates", constants(), quick=1600, thorough=60000, shards=8, case_timeout=30, rule="constant parameters, few iterations, with limits on values")
def updates(case, ctx):
    parms = []
    for p, l, pos in zip(case["parms"], case["limits"], case["positive"]):
        x = {}
        if l: x["constrain"] = [float(a) for a in l]
        if pos: x["force_positive"] = 1
        parms.append(dict(p, extra=x))
    eqs, cells = build(dict(case, parms=parms), case["iter"], case["last"])
    if not eqs or not has_unknowns(case, eqs): ctx.trivial(True); return
    before = [v.flat[0] for v in evaluate(case, cells)]
    rc, res = solve(ctx, case, cells)
    if rc & RES_FAIL or res is None: ctx.fail("failed, code %#x" % rc)
    after = [v.flat[0] for v in evaluate(case, cells)]
    it = int(res["iterations"])
    if it > case["iter"]: ctx.fail("%d iterations, %d allowed" % (it, case["iter"]))
    if it == 0:
        ctx.trivial(True); return
    if it < case["iter"] and not res["converged"]: ctx.fail("stopped after %d iterations without convergence" % it)
    # unknowns by order of parameter numbers within each group
    R = reach(case, eqs)
    ids = sorted((int(k), v["name"], v["solve_group"]) for k, v in res["spid_map"].items())
    inc = np.asarray(res["incremental_solutions"]).reshape(it, -1)
    if inc.shape[1] != len(ids): ctx.fail("%d unknowns for %d parameters" % (inc.shape[1], len(ids)))
    n = it if case["last"] else it - 1
    want = list(before)
    cols = columns(res["spid_map"])
    if cols is None:
        ctx.label("several groups"); ctx.trivial(True); return
    for k in range(len(before)):
        name = "p%d" % k
        if name not in cols or not inc[:, cols[name]].any():
            want[k] = after[k]; continue   # never evaluated
        v = before[k]
        for i in range(n):
            v = v + inc[i, cols[name]]
            l = case["limits"][k]
            if l: v = max(min(v, l[1]), l[0])
            if case["positive"][k]: v = abs(v)
        want[k] = v
    for k in range(len(before)):
        if not close(np.array([after[k]]), np.array([want[k]]), 1e-10, 1e-12): ctx.fail("p%d is %r after the updates %s from %r, expected %r" % (k, after[k], inc[:n].tolist(), before[k], want[k]))
    ctx.label("%d updates" % n)
    ctx.trivial(n < 1)

def columns(spids):
    """constants are unknowns in order of their numbers, group by group; groups are in order of appearance in the map"""
    by = {}
    for k in spids: by.setdefault(spids[k]["solve_group"], []).append(int(k))
    if len(by) > 1: return None
    return {spids[str(k)]["name"]: i for i, k in enumerate(sorted(int(x) for x in spids))}

# ---- successive domains ---------------------------------------------------------------------
@st.composite
def snippets(draw):
    c = draw(problems())
    out = [c]
    for _ in range(draw(st.integers(1, 3))):
        m = draw(st.sampled_from(["same", "new", "new", "again"]))
        d = dict(mode=m)
        if m == "new": d["eqs"] = [draw(equations(c["full"], len(c["parms"]))) for _ in c["eqs"]]
        out.append(d)
    return dict(first=c, steps=out[1:], previous=[draw(st.sampled_from([0, 1, 2])) for _ in c["parms"]], shift=draw(st.integers(0, 3)))

@P.check("snippets", snippets(), quick=1200, thorough=40000, shards=8, case_timeout=60, rule="the same tree solved for several pieces of data in succession")
def several(case, ctx):
    c = case["first"]
    c = dict(c, parms=[dict(p, extra=dict(use_previous=u)) for p, u in zip(c["parms"], case["previous"])])
    eqs, cells = build(c, 25)
    if not eqs: ctx.trivial(True); return
    before = evaluate(c, cells)
    rc, res = solve(ctx, c, cells)
    after = evaluate(c, cells)
    nt = judge(ctx, c, eqs, before, rc, res, after)
    for k, s in enumerate(case["steps"]):
        ctx.label(s["mode"])
        if s["mode"] == "again":
            rc, res = vt.execute("solver", request(cells, new=False))
            res = plain(res).get("solver_result") if res is not None else None
            after = evaluate(c, cells)
            judge(ctx, c, eqs, before, rc, res, after, fresh=False)
            continue
        if s["mode"] == "new":
            # the same terms, other data
            new = []
            for e, f in zip(c["eqs"], s["eqs"]):
                g = dict(f, order=e["order"], coef=e["coef"])
                for x in ("w", "mf"):
                    g.pop(x, None)
                    if x in e: g[x] = e[x]
                new.append(g)
            c = dict(c, eqs=new)
            cells = sources(c, eqs)
        rc, res = solve(ctx, c, cells)
        after = evaluate(c, cells)
        nt |= judge(ctx, c, eqs, before, rc, res, after, fresh=False)
    ctx.trivial(not nt)

def start(case, k, full):
    """the parameter's initial value; terms of too high a total degree are left out of functions to be solved for"""
    p = case["parms"][k]
    c = coeffs(p)
    t, f = (np.arange(full[0]) + .5)[:, None], 1 + (np.arange(full[1]) + .5)[None, :]
    big = c.size >= 4 and min(c.shape) > 1
    return sum(c[i, j] * t**i * f**j for i in range(c.shape[0]) for j in range(c.shape[1]) if not (big and i + j > max(c.shape) - 1)) + np.zeros(full)

def chi2(case, eqs, val):
    full = tuple(case["full"])
    return sum(np.sum((w * np.abs(data - sum(bc(make(c), full) * v for c, v in zip(e["coef"], val) if c is not None)) ** 2)[ok])
               for e, data, ok, w in data_of(case, eqs))

# ---- several threads ------------------------------------------------------------------------
@P.check("threads", problems(), quick=800, thorough=40000, shards=4, case_timeout=60, setup=lambda: vt.init(4, 1), rule="the linear problems, solved by several threads")
def threads(case, ctx):
    linear_problem(case, ctx)
