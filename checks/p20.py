"""Trees executed by several threads against the same trees polled by one."""
from fmodel import *
import vfw, copy

P = vfw.Property("P20",
    rule="a case is a tree of up to 14 nodes (children and step-children shared between parents at any depth, delays, failing, missing and throwing leaves, "
         "policies, poll orders) and a history of up to 5 requests, executed by a pool of threads and by a single one; non-trivial if at least two nodes with "
         "two or more children are polled by several threads",
    assumptions=["with a policy of AbandonPropagate, which children are polled after a failing one depends on the schedule, and so do the fails that are returned",
                 "how often a shared node is evaluated is compared with caches on only: what may be dropped from a cache depends on the schedule otherwise",
                 "schedules are varied by delays of the leaves and by the operating system"])

RES_MASK, RES_OK, RES_EMPTY = 0x70, 0x10, 0x30      # of the control status
INNER = ["Add", "Add", "Multiply", "Composer", "Composer", "Max", "WSum", "ReqSeq", "ReqMux", "VtNode", "VtNode", "Mean", "MergeFlags", "DataCollect", "Matrix"]
POLICY = ["Ignore", "CollectPropagate", "AbandonPropagate"]

@st.composite
def trees(draw):
    nodes = []
    for i in range(draw(st.integers(1, 5))):
        nodes.append(dict(k="leaf", base=draw(st.integers(1, 9)), deps=draw(st.sampled_from([0, 16, 24, 32, 56])), fail=draw(st.sampled_from([0, 0, 0, 0, 1, 2, 5])),
                          missing=draw(st.sampled_from([0, 0, 0, 0, 0, 1, 3])), us=draw(st.sampled_from([0, 0, 50, 200, 1000, 3000])), spid=draw(st.sampled_from([0, 0, 0, 1, 2]))))
    for i in range(draw(st.integers(2, 9))):
        n = len(nodes)
        k = draw(st.sampled_from(INNER))
        if k == "Matrix": ch = draw(st.lists(st.integers(max(0, n - 3), n - 1), min_size=1, max_size=2))
        else: ch = draw(st.lists(st.one_of(st.integers(max(0, n - 3), n - 1), st.integers(0, n - 1)), min_size=1, max_size=5))
        d = dict(k=k, ch=ch, mt=draw(st.integers(0, 4)) > 0)
        if k in ("ReqSeq", "ReqMux"): d["result_index"] = draw(st.integers(0, len(ch) - 1))
        if draw(st.integers(0, 3)) == 0: d["step"] = draw(st.lists(st.integers(0, n - 1), min_size=1, max_size=3))
        if draw(st.integers(0, 3)) == 0: d["order"] = draw(st.permutations(sorted(set(ch))))
        if draw(st.integers(0, 3)) == 0: d["fail_policy"] = draw(st.sampled_from(POLICY))
        if draw(st.integers(0, 3)) == 0: d["missing_data_policy"] = draw(st.sampled_from(POLICY))
        nodes.append(d)
    return nodes

@st.composite
def cases(draw):
    nodes = draw(trees())
    reqs = [[draw(st.integers(0, 5)), draw(st.integers(0, 2)), draw(st.sampled_from(["ev", "ev", "ev", "e1", "e2"]))] for _ in range(draw(st.integers(1, 5)))]
    return dict(nodes=nodes, reqs=reqs, pol=draw(st.sampled_from([20, 20, 20, 0, 1, -10])))

def definition(i, d, pre, mt, pol):
    name = lambda c: "%s%d" % (pre, c)
    kw = dict(cache_policy=pol)
    if d["k"] == "leaf":
        return node("MeqVtDep", name(i), [], cache_policy=pol, value=float(d["base"]), mask=d["deps"], fail_index=d["fail"], missing_index=d["missing"], spid_index=d["spid"], time_index=d["us"])
    k = d["k"]
    if "result_index" in d: kw["result_index"] = d["result_index"]
    if k == "WSum": kw["weights"] = [float(1 + n) for n in range(len(d["ch"]))]
    for f in ("fail_policy", "missing_data_policy"):
        if f in d: kw[f] = dmi.hiid(d[f])
    if "order" in d: kw["child_poll_order"] = [name(c) for c in d["order"]]
    cls = {"Matrix": "MeqMatrixMultiply"}.get(k, "Meq" + k)
    return node(cls, name(i), [name(c) for c in d["ch"]], step_children=[name(c) for c in d.get("step", [])], mt_polling=bool(mt and d["mt"]), **kw)

def norm(x, pre):
    if isinstance(x, dict): return {str(k): norm(v, pre) for k, v in x.items()}
    if isinstance(x, np.ndarray): return x.tolist()
    if isinstance(x, (list, tuple)): return [norm(v, pre) for v in x]
    if isinstance(x, str): return x.replace("node '" + pre, "node '").replace(" in " + pre, " in ").replace(pre, "")
    return x

def troubled(name):
    "the node failed or missed data at its last evaluation"
    return vt.get_state(name)["control_status"] & RES_MASK not in (0, RES_OK, RES_EMPTY)

def run(case, ctx):
    nodes = case["nodes"]
    vt.clear_forest()
    outs = []
    for pre, mt in (("qs", False), ("qm", True)):
        create([definition(i, d, pre, mt, case["pol"]) for i, d in enumerate(nodes)], parents=True)
        seq = []
        abandon = any("AbandonPropagate" in (d.get("fail_policy"), d.get("missing_data_policy")) for d in nodes)
        for no, (ds, dom, rt) in enumerate(case["reqs"]):
            vt.get_trace()
            cells = meq.gen_cells(meq.gen_domain(time=(dom, dom + 3.), freq=(0., 1.)), num_time=2 + dom, num_freq=1)
            rc, r = vt.run("%s%d" % (pre, len(nodes) - 1), meq.request(cells, rqid=dmi.hiid(rt, 0, no, 0, dom, ds)))
            seq.append((rc & (RES_FAIL | RES_MISSING | RES_WAIT | 0x3f), norm(r, pre), sorted(norm(vt.get_trace(), pre)),
                        abandon and any(troubled("%s%d" % (pre, i)) for i in range(len(nodes)))))
        outs.append(seq)
        vt.clear_forest()
    vt.events()
    abandoned = False       # caches hold what was polled before
    for no, (a, b) in enumerate(zip(*outs)):
        if a[3]: ctx.label("abandoned"); abandoned = True; continue
        for x, y, what in zip(a, b, ("code", "result", "evaluated nodes")):
            if what == "evaluated nodes" and (case["pol"] != 20 or abandoned): continue
            if x != y: ctx.fail("request %d: %s with threads is %s instead of %s" % (no, what, y, x))
    for d in nodes:
        if d["k"] != "leaf": ctx.label(d["k"])
    ctx.trivial(sum(d["k"] != "leaf" and d["mt"] and len(d["ch"]) > 1 for d in nodes) < 2)

@P.check("two_threads", cases(), quick=1500, thorough=60000, shards=8, setup=lambda: vt.init(2, 1), case_timeout=10)
def two(case, ctx): run(case, ctx)

@P.check("six_threads", cases(), quick=1500, thorough=60000, shards=8, setup=lambda: vt.init(6, 1), case_timeout=10)
def six(case, ctx): run(case, ctx)
