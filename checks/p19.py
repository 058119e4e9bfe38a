"""Updates of a node's state against a dictionary, and against a node created with the same state."""
from fmodel import *
import vfw

P = vfw.Property("P19",
    rule="a case is one node of one of 31 configurations and a history of up to 8 updates of its state, valid, of wrong type, or of read-only fields; after each, "
         "its whole state is compared with a dictionary and its state and result with a node newly created with the accepted fields; "
         "non-trivial if an accepted field differs from its value so far and a refused update is among several updates",
    assumptions=["breakpoints are not set while the node executes", "sizes of reduction axes, tensor dimensions and the like are within bounds",
                 "updates through the state of a node that is not executing", "fields of Parm are those without a table of parameters"])
P.setup = lambda: vt.init(0, 1)

H = dmi.hiid
def hv(l): return [H(x) for x in l]

# a field: strategy of valid values (JSON), conversion for the record, values that must be refused
def F(s, conv=None, bad=("nonsense",)): return s, conv, bad
I = lambda *v: F(st.sampled_from(v), int)
B = F(st.booleans(), bool)
D = F(st.integers(-8, 8).map(float), float)
S = F(st.sampled_from(["x", "some text", ""]), str, (3, 2.5))
def HH(*v): return F(st.sampled_from(v), H, (2.5, {"a": 1}))
def IV(lo, hi, a, b, bad=("nonsense",)): return F(st.lists(st.integers(lo, hi), min_size=a, max_size=b), lambda l: [int(x) for x in l], bad)
def HV(vals, a=1, b=3, bad=(2.5, [1, 2])): return F(st.lists(st.sampled_from(vals), min_size=a, max_size=b, unique=True), hv, bad)

COMMON = dict(node_description=S, cache_policy=I(-10, -1, 0, 1, 10, 20), log_policy=I(-1, 0, 10, 100),
              publishing_level=I(0, 1, 5), breakpoint=I(0, 0, 1, 255), breakpoint_single_shot=I(0, 0, 2), node_groups=HV(["a", "b.c", "grp", "x.1"]),
              auto_resample=I(0, -1, 1, -2), fail_policy=HH("Ignore", "CollectPropagate", "AbandonPropagate"),
              missing_data_policy=HH("Ignore", "CollectPropagate", "AbandonPropagate"), active_symdeps=HV(["domain", "iteration", "resolution"]))
FLAGS = lambda n: {"flag_mask": F(st.one_of(st.sampled_from([[-1], [0], [1], [6]]), st.lists(st.sampled_from([0, 1, 2, 3, -1]), min_size=n, max_size=n)), lambda l: [int(x) for x in l],
                             ("nonsense", [1] * (n + 1 if n else 2)) if n != 1 else ("nonsense", [1, 1]))}
def cf(cls, n, fields=(), flags=True, **init):
    d = dict(fields)
    if flags and n: d.update(FLAGS(n))
    return dict(cls=cls, n=n, fields=d, init=init)

@st.composite
def order(draw, n): return draw(st.permutations(range(n)))[:draw(st.integers(1, n))]

AX = F(st.one_of(st.sampled_from([["0"], ["1"], ["0", "1"]]), st.sampled_from([["time"], ["freq"], ["freq", "time"]])),
       lambda l: [int(x) for x in l] if l[0].isdigit() else hv(l), (2.5, {"a": 1}))
BADAX = F(st.nothing(), None, ([["freq"]][0],))
CONFIGS = dict(
    add2=cf("MeqAdd", 2), add3=cf("MeqAdd", 3), mul=cf("MeqMultiply", 2), sub=cf("MeqSubtract", 2), sin=cf("MeqSin", 1), neg=cf("MeqNegate", 1), div=cf("MeqDivide", 2),
    composer=cf("MeqComposer", 2, dict(dims=IV(2, 2, 1, 1)), False), composer4=cf("MeqComposer", 4, dict(dims=F(st.sampled_from([[4], [2, 2], [1, 4], [0]]), lambda l: [int(x) for x in l])), False),
    selector=cf("MeqSelector", 1, dict(index=IV(0, 2, 1, 2), multi=B), False),
    reqmux=cf("MeqReqMux", 3, dict(result_index=F(st.integers(0, 2), int, (7, -1, "nonsense"))), False),
    reqseq=cf("MeqReqSeq", 3, dict(result_index=F(st.integers(0, 2), int, (7, -1, "nonsense")), cells_only=B, sequence_symdeps=HV(["iteration", "domain"])), False),
    zeroflagger=cf("MeqZeroFlagger", 1, dict(oper=HH("eq", "ne", "ge", "gt", "le", "lt"), flag_bit=I(1, 2, 4, 3), force_output=B), False),
    transpose=cf("MeqTranspose", 1, dict(conj=B, tensor=B), False),
    stokes=cf("MeqStokes", 1, dict(scale=D), False),
    condeq=cf("MeqCondeq", 2, dict(modulo=F(st.sampled_from([0., 2., 3.5]), float)), False),
    bessel=cf("MeqBessel", 1, dict(order=I(0, 1, 2))),
    wsum=cf("MeqWSum", 2, dict(weights=F(st.lists(st.integers(0, 3).map(float), min_size=1, max_size=3), lambda l: [float(x) for x in l]))),
    wmean=cf("MeqWMean", 2, dict(weights=F(st.lists(st.integers(1, 3).map(float), min_size=1, max_size=2), lambda l: [float(x) for x in l]))),
    mergeflags=cf("MeqMergeFlags", 2, dict(merge_all=B)),
    replace=cf("MeqReplaceFlaggedValues", 2, dict(value=D)),
    sum=cf("MeqSum", 1, dict(reduction_axes=AX)), mean=cf("MeqMean", 1, dict(reduction_axes=AX)), max=cf("MeqMax", 1, dict(reduction_axes=AX)),
    mean2=cf("MeqMean", 2, dict(reduction_axes=BADAX)),
    constant=cf("MeqConstant", 0, dict(value=F(st.one_of(st.integers(-5, 5).map(float), st.lists(st.integers(-5, 5).map(float), min_size=2, max_size=3)), lambda x: np.array(x) if isinstance(x, list) else float(x), ("nonsense",)))),
    grid=cf("MeqGrid", 0, dict(axis=F(st.sampled_from(["0", "1", "time", "freq"]), lambda x: int(x) if x.isdigit() else H(x), ({"a": 1},)))),
    gridpoints=cf("MeqGridPoints", 0, dict(axis=HH("time", "freq"))),
    datacollect=cf("MeqDataCollect", 2, dict(top_label=HH("a", "b.c")), False),
    paster=cf("MeqPaster", 2, dict(index=IV(0, 2, 1, 1), multi=B), False),
    identity=cf("MeqIdentity", 1, (), False),
    parm=cf("MeqParm", 0, dict(solve_domain=F(st.sampled_from([[0., 1.], [-1., 1.], [2., 5.]]), lambda l: [float(x) for x in l]), auto_save=B, use_previous=I(0, 1), save_all=B, integrated=B,
                               reset_funklet=B, ignore_time=B, force_positive=B, cyclic=B, cache_funklet=B, solvable=B), False, init=None),
)
READONLY = ["class", "children", "step_children", "child_indices", "step_child_indices", "parent_indices", "is_step_parent", "name", "nodeindex", "internal_init_index"]
READONLY = dict((f, v) for f, v in {"class": "MeqAdd", "children": [1], "name": "other", "nodeindex": 77, "child_indices": [1], "step_children": [1], "parent_indices": [1], "is_step_parent": True}.items())

def fields_of(cfg):
    d = dict(COMMON)
    if cfg["n"] > 1: d["child_poll_order"] = F(order(cfg["n"]), lambda l: ["s%d" % i for i in l], (["s9"], 2, ["s0", "s0"]))
    d.update(cfg["fields"])
    # these would change which cells are asked for, or are set by the class itself
    if cfg["cls"] in ("MeqConstant", "MeqParm"): d.pop("active_symdeps")
    return d

TABLE = dict((k, fields_of(c)) for k, c in CONFIGS.items())

@st.composite
def histories(draw):
    k = draw(st.sampled_from(sorted(CONFIGS)))
    c, t = CONFIGS[k], TABLE[k]
    own = sorted(c["fields"]) or sorted(t)
    names = sorted(t)
    def pick():
        f = draw(st.sampled_from(own if draw(st.booleans()) else names))
        if k == "mean2" and f == "reduction_axes": f = "flag_mask"
        return f, draw(t[f][0])
    out = []
    for _ in range(draw(st.integers(1, 8))):
        m = draw(st.sampled_from(["set", "set", "set", "set", "wrong", "wrong", "readonly", "exec", "clear"]))
        rec = dict(pick() for _ in range(draw(st.integers(1, 3))))
        if m == "wrong":
            f = draw(st.sampled_from(own if draw(st.booleans()) else names))
            rec[f] = None
            out.append([m, rec, f, draw(st.integers(0, 3))])
        elif m == "readonly": out.append([m, rec, draw(st.sampled_from(sorted(READONLY)))])
        elif m == "set": out.append([m, rec])
        else: out.append([m])
    full = draw(grids(3))
    kids = [draw(plane(full, fails=False, missing=False, kinds="r")) for _ in range(c["n"])]
    if k in ("selector", "transpose", "paster", "stokes"):
        kids = [[draw(plane(full, fails=False, missing=False, kinds="r")) for _ in range(4 if k == "transpose" and draw(st.booleans()) else 3)] for _ in kids]
    init = dict(pick() for _ in range(draw(st.integers(0, 2))))
    if k == "constant": init["value"] = draw(t["value"][0])
    return dict(k=k, init=init, ops=out, full=full, kids=kids)

def to_rec(k, rec):
    return dmi.record(**dict((f, TABLE[k][f][1](v)) for f, v in rec.items()))

VOLATILE = {"name", "nodeindex", "control_status", "request", "request_id", "cache", "cache_stats", "profiling_stats", "internal_init_index", "node_description", "parent_indices", "result",
            "nodename"}

def norm(x):
    if isinstance(x, dict): return {str(k): norm(v) for k, v in x.items()}
    if isinstance(x, np.ndarray): return [norm(v) for v in x.tolist()] if x.ndim else x.tolist()
    if isinstance(x, dmi.hiid): return "hiid " + str(x).lower()
    if isinstance(x, (list, tuple)): return [norm(v) for v in x]
    return x

def one(x): return x[0] if isinstance(x, list) and len(x) == 1 else x

def state(n):
    try: s = vt.cmd("Node.Get.State", dmi.record(name=n))
    except vt.Error as e: raise
    return dict((str(f), one(norm(v))) for f, v in plain(s).items())

def result(n, cells):
    rc, r = vt.run(n, request(cells))
    return rc & ~0xffff & ~(RES_UPDATED | RES_IGNORE_TYPE), norm(r) if r is not None else None

def strip(x):
    """messages of fails name the node"""
    if isinstance(x, dict): return {k: ("fail" if k == "fail" else strip(v)) for k, v in x.items()}
    if isinstance(x, list): return [strip(v) for v in x]
    if isinstance(x, float) and x != x: return "nan"
    return x

@P.check("histories", histories(), quick=8000, thorough=300000, shards=8)
def hist(case, ctx):
    k = case["k"]; c = CONFIGS[k]
    vt.clear_forest()
    kids = ["s%d" % i for i in range(c["n"])]
    create([node("MeqVtNode", s) for s in kids] + [node(c["cls"], "n", kids, **to_rec(k, case["init"]))])
    full, cells = case["full"], grid(case["full"])
    for s, p in zip(kids, case["kids"]):
        pl = p if isinstance(p, list) else [p]
        vt.src(s, [to_spec(realise(dict(dims=[2, 2] if len(pl) == 4 else [len(pl)] if len(pl) > 1 else [], planes=pl)), cells)])
    model = dict(case["init"])
    want = state("n")
    for f, v in model.items():
        if f in want and not same(want[f], to_rec(k, {f: v})[f]): ctx.fail("%s: created with %s=%s, reads %s" % (k, f, v, want[f]))
    accepted = refused = changed = 0
    for i, op in enumerate(case["ops"]):
        what = "%s, step %d %s" % (k, i, op)
        if op[0] == "exec":
            if not (model.get("breakpoint") or model.get("breakpoint_single_shot")): result("n", cells)
            continue
        if op[0] == "clear": vt.clear_cache("n"); continue
        good = dict((f, v) for f, v in op[1].items() if v is not None)
        rec = to_rec(k, good)
        if op[0] == "wrong":
            bad = TABLE[k][op[2]][2]
            rec[op[2]] = (lambda x: dmi.record(**x) if isinstance(x, dict) else hv(x) if op[2] == "reduction_axes" and isinstance(x, list) else x)(bad[op[3] % len(bad)])
        if op[0] == "readonly": rec[op[2]] = READONLY[op[2]]
        before = state("n")
        try: rep = vt.cmd("Node.Set.State", dmi.record(name="n", state=rec)); err = None
        except vt.Error as e: err = str(e)
        after = state("n")
        if op[0] == "set":
            if err: ctx.fail("%s: refused: %s" % (what, err))
            accepted += 1
            for f in sorted(set(before) | set(after)):
                if f in good:
                    if f not in after or not same(after[f], rec[f]): ctx.fail("%s: %s reads %s" % (what, f, after.get(f)))
                    if before.get(f) != after[f]: changed += 1
                elif f not in VOLATILE and strip(before.get(f)) != strip(after.get(f)) and not implied(k, f, good):
                    ctx.fail("%s: %s changes from %s to %s" % (what, f, before.get(f), after.get(f)))
            model.update(good)
        else:
            if not err: ctx.fail("%s: accepted" % what)
            refused += 1
            for f in sorted(set(before) | set(after)):
                if (f not in VOLATILE or f in ("control_status", "name", "nodeindex", "node_description")) and strip(before.get(f)) != strip(after.get(f)):
                    ctx.fail("%s: refused, but %s changes from %s to %s" % (what, f, before.get(f), after.get(f)))
    # the same state from the start
    create([node(c["cls"], "twin", kids, **to_rec(k, model))], base=50, index={s: 1 + i for i, s in enumerate(kids)})
    a, b = state("n"), state("twin")
    for f in sorted(set(a) | set(b)):
        if f not in VOLATILE and f in model and strip(a.get(f)) != strip(b.get(f)): ctx.fail("%s: %s is %s, but %s in a node created with the same state" % (k, f, a.get(f), b.get(f)))
    mask = 0xf | 0x1900
    if (a["control_status"] ^ b["control_status"]) & mask: ctx.fail("%s: control status %#x, but %#x in a node created with the same state" % (k, a["control_status"], b["control_status"]))
    if not (model.get("breakpoint") or model.get("breakpoint_single_shot")):
        vt.set_state("n", dmi.record(node_description="n")); vt.clear_cache("n")
        x, y = result("n", cells), result("twin", cells)
        if strip(x[1]) != strip(y[1]) or x[0] != y[0]: ctx.fail("%s: result is %s, but %s of a node created with the same state %s" % (k, x, y, model))
    ctx.label(k)
    vt.events()
    ctx.trivial(not changed or not refused and accepted < 2)

def implied(k, f, good):
    if f == "dep_mask" and ("active_symdeps" in good or "integrated" in good): return True
    if f == "active_symdeps" and "integrated" in good: return True
    return False

def same(a, b):
    b = one(norm(b))
    return a == b or str(a).lower() == str(b).lower()
