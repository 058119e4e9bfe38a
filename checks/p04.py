"""Histories of requests and state changes against a forest rebuilt from scratch for every request."""
from fmodel import *
import vfw

P = vfw.Property("P04",
    rule="a case is a tree of up to 9 nodes with caching policies and dependencies, and a history of up to 14 requests (with changing, returning "
         "and unchanged components and hints), state changes, cache clearings and policy changes; every request's result and code are compared "
         "with those of a forest built anew in the same state with caching off; non-trivial if the cache is used and some later request "
         "at the same node gives a different result",
    assumptions=["a request whose id equals an earlier one in a component has the same content as far as this component stands for (cells for domain and resolution)",
                 "the first request after a state change has a new state component (also none that a MeqReqSeq made for its children by counting up from an earlier one)",
                 "nodes depend on nothing but what they declare, and are executed by one thread"])
P.setup = lambda: vt.init(0, 1)

POL = [-10, -1, 0, 0, 0, 1, 1, 10, 20, 20]
ITER, STATE, RES, DOM, DS = 1, 2, 3, 4, 5

@st.composite
def trees(draw):
    nodes = []
    nl = draw(st.integers(1, 4))
    for i in range(nl):
        k = draw(st.sampled_from(["dep", "dep", "dep", "dep", "dep", "const", "grid", "parm", "parm", "freq"]))
        d = dict(k=k, base=draw(st.integers(1, 9)))
        if k == "dep":
            d["deps"] = draw(st.sampled_from([0, 2, 2, 8, 16, 24, 24, 24, 26, 32, 18, 34, 62]))
            d["fail"] = draw(st.sampled_from([0, 0, 0, 0, 1, 2, 5]))
            d["missing"] = draw(st.sampled_from([0, 0, 0, 0, 0, 0, 3, 4]))
            d["spid"] = draw(st.sampled_from([0, 0, 3, 4]))
            d["lead"] = draw(st.sampled_from([0, 0, 0, 0, 1, 2]))
        if k == "grid": d["axis"] = draw(st.integers(0, 1))
        nodes.append(d)
    for i in range(draw(st.integers(1, 5))):
        k = draw(st.sampled_from(["Add", "Add", "Add", "Multiply", "Negate", "Composer", "Composer", "Composer", "Selector", "Sum", "ReqSeq", "ReqSeq", "ReqMux", "MergeFlags", "Identity", "WSum", "Condeq", "Max", "Mean", "WMean", "Transpose", "Paster", "Resampler", "ModRes", "Stripper", "ZeroFlagger", "Divide", "Subtract", "NElements", "StdDev"]))
        lo, hi = dict(Negate=(1, 1), Selector=(1, 1), Sum=(1, 1), Identity=(1, 1), Condeq=(2, 2), Transpose=(1, 1), Paster=(2, 2), Resampler=(1, 1), ModRes=(1, 1), Stripper=(1, 1), ZeroFlagger=(1, 1), Divide=(2, 2), Mean=(1, 3), NElements=(1, 1), StdDev=(1, 1), ReqSeq=(1, 3), ReqMux=(1, 3), Max=(1, 3)).get(k, (1, 3))
        ch = draw(st.lists(st.integers(0, len(nodes) - 1), min_size=lo, max_size=hi, unique=draw(st.booleans()) and hi <= len(nodes)))
        d = dict(k=k, ch=ch)
        if k == "Selector": d["index"] = draw(st.integers(0, 1))
        if k in ("ReqSeq", "ReqMux"): d["result_index"] = draw(st.integers(0, len(ch) - 1))
        if k == "ReqSeq":
            d["seq"] = draw(st.booleans())
            d["cells_only"] = draw(st.booleans())
        if k == "ModRes": d["num"] = [draw(st.integers(1, 3)), draw(st.integers(1, 3))]
        if len(nodes) > 2 and draw(st.integers(0, 5)) == 0: d["step"] = [draw(st.integers(0, len(nodes) - 1))]
        if k in ("WSum", "WMean"): d["weights"] = [float(draw(st.integers(0, 2))) for _ in ch]
        if draw(st.integers(0, 3)) == 0: d["fail_policy"] = draw(st.sampled_from(["Ignore", "AbandonPropagate", "CollectPropagate"]))
        if draw(st.integers(0, 3)) == 0: d["missing_data_policy"] = draw(st.sampled_from(["Ignore", "AbandonPropagate", "CollectPropagate"]))
        nodes.append(d)
    for d in nodes:
        p = draw(st.sampled_from(POL))
        if p: d["pol"] = p
        if draw(st.integers(0, 9)) == 0: d["nact"] = draw(st.integers(1, 3))
        if draw(st.integers(0, 9)) == 0: d["pub"] = 1
    return nodes

@st.composite
def cases(draw):
    nodes = draw(trees())
    n = len(nodes)
    steps = []
    for _ in range(draw(st.sampled_from([3, 6, 8, 10, 12, 16]))):
        k = draw(st.sampled_from(["exec"] * 10 + ["again"] * 4 + ["set"] * 4 + ["clear", "pol", "state", "forest", "active"]))
        if k == "exec":
            inc = draw(st.lists(st.sampled_from([ITER, RES, DOM, DS]), max_size=2, unique=True)) if draw(st.integers(0, 2)) else []
            steps.append([k, n - 1 if draw(st.integers(0, 2)) else draw(st.integers(0, n - 1)), inc, [draw(st.integers(0, 2)) for _ in inc],
                          draw(st.sampled_from(["ev", "ev", "ev", "ev", "e1", "e1", "e2", "ds", "pu", "0"])),
                          draw(st.sampled_from(["none", "none", "same", "domain", "iteration", "random"])), draw(st.integers(0, 29)) == 0])
        elif k == "again":
            last = [s for s in steps if s[0] == "exec"]
            if last: steps.append(["exec", last[-1][1], [], [], draw(st.sampled_from(["ev", "ev", "ev", "e1", "e2", "e1", "ds", "pu"])), "none", False])
        elif k == "set": steps.append([k, draw(st.integers(0, n - 1)), draw(st.integers(0, 9))])
        elif k == "clear": steps.append([k, draw(st.integers(0, n - 1)), draw(st.booleans())])
        elif k == "pol": steps.append([k, draw(st.integers(0, n - 1)), draw(st.sampled_from(POL))])
        elif k == "forest": steps.append([k, draw(st.sampled_from(POL))])
        else: steps.append([k, draw(st.integers(0, n - 1))])
    return dict(nodes=nodes, steps=steps)

def definition(i, d, fresh):
    kids = ["n%d" % c for c in d.get("ch", [])]
    kw = {}
    k = d["k"]
    if k == "dep":
        cls = "MeqVtDep"
        kw = {"value": float(d["base"]), "mask": d["deps"], "fail_index": d["fail"], "missing_index": d["missing"], "spid_index": d["spid"], "num_index": d["lead"]}
    elif k == "const": cls = "MeqConstant"; kw = dict(value=float(d["base"]))
    elif k == "grid": cls = "MeqGrid"; kw = dict(axis=d["axis"])
    elif k == "freq": cls = "MeqFreq"
    elif k == "parm": cls = "MeqParm"; kw = dict(init_funklet=meq.polc([[float(d["base"]), 0.5], [0.25, 0.]]))
    else:
        cls = "Meq" + k
        if k == "Selector": kw["index"] = [d["index"]]
        if "result_index" in d: kw["result_index"] = d["result_index"]
        if k == "ReqSeq":
            kw["cells_only"] = d["cells_only"]
            if d["seq"]: kw["sequence_symdeps"] = [dmi.hiid("iteration")]
        if k == "ModRes": kw["num_cells"] = d["num"]; kw["resolution_id"] = resid(i, d)
        if k in ("WSum", "WMean"): kw["weights"] = d["weights"]
    for f in ("fail_policy", "missing_data_policy"):
        if f in d: kw[f] = dmi.hiid(d[f])
    kw["cache_policy"] = -10 if fresh else d.get("pol", 0)
    if not fresh and "nact" in d: kw["cache_num_active_parents"] = d["nact"]
    if not fresh and "pub" in d: kw["publishing_level"] = d["pub"]
    if d.get("inactive"): kw["control_status"] = 0
    return node(cls, "n%d" % i, kids, step_children=["n%d" % c for c in d.get("step", [])], **kw)

def resid(i, d): return 1000 + 100 * i + 10 * d["num"][0] + d["num"][1]

def change(i, d, v):
    """a new value for one field of the node, and the update for it"""
    k = d["k"]
    if k == "dep":
        if v < 6: d["base"] = d["base"] + 1 + v; return dict(value=float(d["base"]))
        if v == 6: d["fail"] = (d["fail"] + 1) % 6; return dict(fail_index=d["fail"])
        if v == 7: d["missing"] = (d["missing"] + 2) % 6; return dict(missing_index=d["missing"])
        d["spid"] = (d["spid"] + 1) % 5; return dict(spid_index=d["spid"])
    if k == "const": d["base"] = d["base"] + 1 + v; return dict(value=float(d["base"]))
    if k == "grid": d["axis"] = 1 - d["axis"]; return dict(axis=d["axis"])
    if k == "Selector": d["index"] = 1 - d["index"]; return dict(index=[d["index"]])
    if "result_index" in d: d["result_index"] = v % len(d["ch"]); return dict(result_index=d["result_index"])
    if k == "parm": d["base"] = d["base"] + 1 + v; return dict(init_funklet=meq.polc([[float(d["base"]), 0.5], [0.25, 0.]]))
    if k == "ModRes": d["num"] = [1 + v % 3, 1 + v // 3 % 3]; return dict(num_cells=d["num"], resolution_id=resid(i, d))
    if k in ("WSum", "WMean"): d["weights"] = [float((v >> i) & 1) + (0 if i else 1.) for i in range(len(d["ch"]))]; return dict(weights=d["weights"])
    f = ["fail_policy", "missing_data_policy"][v % 2]
    d[f] = ["Ignore", "AbandonPropagate", "CollectPropagate"][v % 3]
    return {f: dmi.hiid(d[f])}

CELLS = {}
def cells_for(d, r):
    if (d, r) not in CELLS:
        CELLS[d, r] = meq.gen_cells(meq.gen_domain(time=(d * 2., d * 2. + 2 + d), freq=(1 + d, 5 + d)), num_time=1 + (r + d) % 3, num_freq=1 + r % 2)
    return CELLS[d, r]

def make_request(comp, rt, nxt, empty):
    rqid = dmi.hiid(rt, *comp[1:])
    if empty: rqid = dmi.hiid()
    r = meq.request(cells_for(comp[DOM], comp[RES]), rqid=rqid)
    if nxt is not None: r["next_request_id"] = dmi.hiid(rt, *nxt[1:])
    return r

def norm(x):
    if isinstance(x, dict): return {str(k): norm(v) for k, v in x.items()}
    if isinstance(x, np.ndarray): return x.tolist()
    if isinstance(x, (list, tuple)): return [norm(v) for v in x]
    return x

STATUS = None
def answer(name, req):
    rc, r = vt.run(name, req)
    return rc & (RES_FAIL | RES_MISSING | RES_WAIT), norm(r)

def same(a, b):
    if isinstance(a, dict): return isinstance(b, dict) and set(a) == set(b) and all(same(a[k], b[k]) for k in a)
    if isinstance(a, (list, tuple)): return isinstance(b, (list, tuple)) and len(a) == len(b) and all(same(x, y) for x, y in zip(a, b))
    if isinstance(a, (float, complex)) and isinstance(b, (int, float, complex)):
        # cells carried over from children are equal up to rounding
        a, b = complex(a), complex(b)
        return all(x == y or (x != x and y != y) or abs(x - y) <= 1e-12 * abs(x) for x, y in ((a.real, b.real), (a.imag, b.imag)))
    return a == b

@P.check("histories", cases(), quick=4000, thorough=200000, shards=8)
def hist(case, ctx):
    import copy
    nodes = copy.deepcopy(case["nodes"])
    n = len(nodes)
    vt.clear_forest()
    vt.cmd("Set.Forest.State", dmi.record(state=dmi.record(cache_policy=1)))
    create([definition(i, d, False) for i, d in enumerate(nodes)], parents=True)
    comp = [0] * 6
    jobs = []
    hits = 0
    for step in case["steps"]:
        k = step[0]
        name = "n%d" % step[1]
        if k == "exec":
            for c, v in zip(step[2], step[3]): comp[c] = v if v != comp[c] else (v + 1) % 3
            nxt = None
            if step[5] != "none":
                nxt = list(comp)
                if step[5] == "domain": nxt[DOM] += 1
                if step[5] == "iteration": nxt[ITER] += 1
                if step[5] == "random": nxt = [0, 7, comp[STATE] + 32, 7, 7, comp[DS]]
            args = (list(comp), step[4], nxt, step[6])
            vt.get_trace()
            got = answer(name, make_request(*args))
            ran = len(vt.get_trace())
            jobs.append((copy.deepcopy(nodes), name, args, got, ran))
        elif k == "set":
            # as clients do it: the state of the forest is told to have changed by the next request
            rec = change(step[1], nodes[step[1]], step[2])
            vt.cmd("Node.Set.State", dmi.record(name=name, state=dmi.record(**rec)))
            comp[STATE] += 32
        elif k == "active":
            on = nodes[step[1]].get("inactive", False)
            nodes[step[1]]["inactive"] = not on
            vt.cmd("Node.Set.State", dmi.record(name=name, state=dmi.record(control_status=1 if on else 0)))
            comp[STATE] += 32
        elif k == "clear": vt.clear_cache(name, int(step[2]))
        elif k == "pol":
            vt.cmd("Node.Set.State", dmi.record(name=name, state=dmi.record(cache_policy=step[2])))
            comp[STATE] += 32
        elif k == "forest": vt.cmd("Set.Forest.State", dmi.record(state=dmi.record(cache_policy=step[1])))
        elif k == "state": vt.cmd("Node.Get.State", dmi.record(name=name))
    seen, differ = {}, 0
    last = None
    for no, (nodes, name, args, got, ran) in enumerate(jobs):
        vt.clear_forest()
        create([definition(i, d, True) for i, d in enumerate(nodes)], parents=True)
        vt.get_trace()
        want = answer(name, make_request(*args))
        if len(vt.get_trace()) > ran: hits += 1
        if not same(want, got): ctx.fail("request %d to %s with id %s.%s, hint %s: %s, but a new forest gives %s" % (no, name, args[1], args[0][1:], args[2], got, want))
        if name in seen and not same(seen[name], got): differ += 1
        seen[name] = got
    vt.events()
    if hits: ctx.label("cache used")
    if differ: ctx.label("changes")
    ctx.trivial(not hits or not differ)
