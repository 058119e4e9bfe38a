"""The forest against a dictionary of nodes."""
from fmodel import *
import vfw

P = vfw.Property("P18",
    rule="a case is a history of up to 14 create, batch create, delete, lookup, list, execute and clear commands with valid and invalid arguments, "
         "checked against a dictionary after every step; non-trivial if something is refused and something is deleted or linked",
    assumptions=["trees that are executed have no cycles", "node numbers asked for stay below 3000",
                 "after a node failed to initialise, later batches need not be initialised until the forest is cleared"])
P.setup = lambda: vt.init(0, 1)
NAMES = ["a", "b", "c", "d:1", "é"]
CLASSES = ["MeqConstant", "MeqConstant", "MeqAdd", "MeqAdd", "MeqComposer", "MeqNegate", "MeqSubtract", "MeqVtNode"]
BAD = ["", "MeqNoSuch", "DMIRecord", "MeqVellSet", "NoSuchAtomAtAll"]
MIN = dict(MeqComposer=1, MeqNegate=1, MeqSubtract=1)
MAX = dict(MeqConstant=0, MeqNegate=1)

@st.composite
def definition(draw):
    d = dict(name=draw(st.sampled_from(NAMES + [""] * (draw(st.integers(0, 9)) == 0))), cls=draw(st.sampled_from(CLASSES)))
    m = draw(st.integers(0, 14))
    if m == 0: d["cls"] = draw(st.sampled_from(BAD))
    if m == 1: d["cls"] = None
    m = draw(st.integers(0, 9))
    if m < 5: d["index"] = draw(st.integers(1, 9))
    elif m == 5: d["index"] = draw(st.sampled_from([0, -1, -7, 40, 2900]))
    if d["cls"] not in ("MeqConstant", "MeqVtNode") or draw(st.integers(0, 9)) == 0:
        # by position in the list of nodes that exist, or a number of any kind
        d["kids"] = draw(st.lists(st.one_of(st.integers(0, 7).map(float), st.integers(0, 7).map(float), st.integers(1, 10)), min_size=draw(st.integers(0, 1)), max_size=3))
    d["v"] = draw(st.integers(1, 40))
    return d

@st.composite
def orderly(draw, count):
    """a definition that is valid unless its name is taken"""
    count[0] += 1
    cls = draw(st.sampled_from(CLASSES[:6] if count[0] > 1 else CLASSES[:1]))
    d = dict(name=draw(st.sampled_from(NAMES)) if draw(st.integers(0, 11)) == 0 else "n%d" % count[0], cls=cls, v=draw(st.integers(1, 40)), index=count[0])
    if cls != "MeqConstant": d["kids"] = draw(st.lists(st.integers(0, max(count[0] - 2, 0)).map(float), min_size=1, max_size=1 if cls == "MeqNegate" else 3))
    return d

@st.composite
def histories(draw):
    out = []
    if draw(st.integers(0, 2)):
        count = [0]
        for _ in range(draw(st.integers(2, 12))):
            k = draw(st.sampled_from(["create", "batch", "batch", "batch", "delete", "list", "exec", "exec", "exec", "exec", "index", "probe", "clear"]))
            if k == "create": out.append([k, draw(orderly(count))])
            elif k == "batch": out.append([k, [draw(orderly(count)) for _ in range(draw(st.integers(0, 4)))]])
            elif k == "delete": out.append([k, draw(st.sampled_from(["index", "both"])), float(draw(st.integers(0, 12))), "a"])
            elif k == "index": out.append([k, "n%d" % draw(st.integers(1, 12))])
            elif k == "list": out.append([k, ["nodeindex", "name"], True])
            elif k == "exec": out.append([k, draw(st.integers(0, 12))])
            elif k == "probe": out.append([k, None])
            elif draw(st.integers(0, 3)) == 0: out.append([k])
        if out: return out
    for _ in range(draw(st.integers(2, 14))):
        k = draw(st.sampled_from(["create", "create", "create", "batch", "batch", "batch", "delete", "delete", "delete", "index", "state", "list", "exec", "exec", "clear", "probe"]))
        if k == "create": out.append([k, draw(definition())])
        elif k == "batch": out.append([k, draw(st.lists(definition(), max_size=4))])
        elif k in ("delete", "state"):
            out.append([k, draw(st.sampled_from(["index", "name", "both", "none", "wrong"])), draw(st.one_of(st.integers(0, 7).map(float), st.integers(-3, 12))),
                        draw(st.sampled_from(NAMES + ["nosuch", ""]))])
        elif k == "index": out.append([k, draw(st.sampled_from(NAMES + ["nosuch", ""]))])
        elif k == "list": out.append([k, draw(st.lists(st.sampled_from(["nodeindex", "name", "class", "children", "control_status", "profiling_stats"]), unique=True)), draw(st.booleans())])
        elif k == "exec": out.append([k, draw(st.integers(0, 12))])
        elif k == "probe": out.append([k, draw(st.one_of(st.integers(-5, 60), st.integers(-2**31, 2**31 - 1), st.just(None)))])
        else: out.append([k])
    return out

class N:
    def __init__(s, i, d, kids): s.i, s.name, s.cls, s.kids, s.v, s.inited, s.ok, s.links = i, d["name"], d["cls"], kids, d["v"], False, False, []
    def value(s, path=()):
        """None if it has no defined value"""
        if s in path or not s.ok: return None
        if s.cls == "MeqConstant": return float(s.v)
        if s.cls == "MeqVtNode": return None
        k = [x.value(path + (s,)) for x in s.links]
        if None in k or not k: return None
        return sum(k) if s.cls == "MeqAdd" else -k[0] if s.cls == "MeqNegate" else k[0] - sum(k[1:]) if s.cls == "MeqSubtract" and len(k) > 1 else None

class M:
    def __init__(s): s.n, s.errs, s.serial = {}, 0, None
    def byname(s, name): return next((x for x in s.n.values() if x.name == name and name), None)
    def accepts(s, d, kids):
        idx = d.get("index", -1)
        c = d["cls"]
        return not (s.byname(d["name"]) or c is None or c in BAD or idx in s.n or len(kids) < MIN.get(c, 0) or len(kids) > MAX.get(c, 99) or (c in MIN or c == "MeqNegate") and any(k < 0 for k in kids[:MIN.get(c, 0)]))

def resolve(m, x):
    l = sorted(m.n)
    return x if isinstance(x, int) else l[int(x) % len(l)] if l else 5

def rec(m, d, extra=()):
    """definition as a record; kids given by position among existing nodes and those of the same batch"""
    r = dmi.record()
    if d["cls"] is not None: r["class"] = d["cls"]
    if d["name"] or d["v"] % 2: r["name"] = d["name"]
    if "index" in d: r["nodeindex"] = d["index"]
    pool = sorted(set(m.n) | set(extra))
    kids = [k if isinstance(k, int) else pool[int(k) % len(pool)] if pool else 3 for k in d.get("kids", [])]
    if kids: r["children"] = kids
    if d["cls"] == "MeqConstant": r["value"] = float(d["v"])
    return r, kids

def kept(ctx, m, what):
    """the forest as listed is the model"""
    l = vt.cmd("Get.Node.List", dmi.record(children=True))
    idx = seq(l["nodeindex"])
    want = sorted(m.n)
    if idx == [0] and not want: return       # how an empty list of nodes is sent
    if idx != want: ctx.fail("%s: nodes %s, expected %s" % (what, idx, want))
    for f, w in (("name", [m.n[i].name for i in want]), ("class", [m.n[i].cls for i in want])):
        if [str(x) for x in seq(l[f])] != w: ctx.fail("%s: %s of the nodes is %s, expected %s" % (what, f, seq(l[f]), w))
    ch = list(l["children"])
    for i, c in zip(want, ch):
        if seq(c) != m.n[i].kids: ctx.fail("%s: node %d is listed with children %s, expected %s" % (what, i, seq(c), m.n[i].kids))
    for i in range(-1, max(want) + 3 if max(want) < 100 else 12):
        if vt.forest_valid(i) != (i in m.n): ctx.fail("%s: number %d is %s" % (what, i, "in use" if vt.forest_valid(i) else "unused"))
    for n in NAMES + ["nosuch"]:
        x = m.byname(n)
        got = vt.cmd("Get.NodeIndex", dmi.record(name=n))["nodeindex"]
        if got != (x.i if x else -1): ctx.fail("%s: name %s stands for %d, expected %s" % (what, n, got, x.i if x else "none"))

def seq(x):
    if isinstance(x, (str, int, float)): return [x]
    return [y if isinstance(y, str) else int(y) if isinstance(y, (int, np.integer)) else y for y in list(x)]

def attempt(name, r):
    try: return vt.cmd(name, r)
    except vt.Error as e: return str(e)

@P.check("histories", histories(), quick=9000, thorough=400000, shards=8)
def hist(case, ctx):
    vt.clear_forest()
    m = M()
    refused = done = linked = 0
    for step in case:
        k, what = step[0], str(step)
        if k == "create":
            d = step[1]
            r, kids = rec(m, d)
            ok = m.accepts(d, kids)
            rep = attempt("Create.Node", r)
            if isinstance(rep, str):
                if ok: ctx.fail("%s refused: %s" % (what, rep))
                refused += 1; m.errs += 1
            else:
                if not ok: ctx.fail("%s accepted: %s" % (what, plain(rep)))
                i = rep["nodeindex"]
                if i in m.n or i <= 0: ctx.fail("%s gets the number %d, which is taken or invalid" % (what, i))
                if d.get("index", -1) > 0 and i != d["index"]: ctx.fail("%s gets number %d" % (what, i))
                if rep["name"] != d["name"] or rep["class"] != d["cls"]: ctx.fail("%s: reply %s" % (what, plain(rep)))
                m.n[i] = N(i, d, kids)
        elif k == "batch":
            new, recs = [], []
            plan = [d["index"] for d in step[1] if d.get("index", -1) > 0]
            bad = 0
            m2 = M(); m2.n = dict(m.n)
            for d in step[1]:
                r, kids = rec(m, d, plan)
                recs.append(r)
                if m2.accepts(d, kids):
                    # the next free number after the highest one is given out, learned below
                    i = d.get("index", -1)
                    key = i if i > 0 else "new %d" % len(new)
                    m2.n[key] = N(key, d, kids)
                    new.append(m2.n[key])
                    if i <= 0: new[-1].anon = True
                else: bad += 1
            # a number given out for an unnumbered node can collide with a later numbered one: number all or none
            if any("index" not in d or d["index"] <= 0 for d in step[1]) and plan: continue
            rep = attempt("Create.Node.Batch", dmi.record(batch=recs))
            if isinstance(rep, str): ctx.fail("%s refused: %s" % (what, rep))
            m.errs += bad; refused += bad
            l = vt.cmd("Get.Node.List", dmi.record())
            got = seq(l["nodeindex"])
            fresh = [i for i in got if i not in m.n and i]
            if len(fresh) != len(new): ctx.fail("%s creates the nodes %s, expected %d nodes" % (what, fresh, len(new)))
            for i, x in zip(fresh if not plan else sorted(fresh), new if not plan else sorted(new, key=lambda x: x.i)):
                if plan and x.i != i: ctx.fail("%s creates node %s, expected %s" % (what, i, x.i))
                x.i = i; m.n[i] = x
            if not m.errs:
                for i in sorted(m.n):
                    x = m.n[i]
                    if x.inited: continue
                    x.inited = True
                    x.ok = all(c in m.n for c in x.kids)
                    if x.ok: x.links = [m.n[c] for c in x.kids]; linked += bool(x.links)
                    else: m.errs += 1
            if ("error" in rep) != bool(m.errs): ctx.fail("%s: reply %s with %d failed nodes" % (what, plain(rep), m.errs))
            if m.errs and not str(rep["error"]).startswith("%d " % m.errs): ctx.fail("%s: reply %s with %d failed nodes" % (what, plain(rep), m.errs))
        elif k in ("delete", "state"):
            mode, i, name = step[1], resolve(m, step[2]), step[3]
            r = dmi.record()
            if mode == "index": r["nodeindex"] = i
            elif mode == "name": r["name"] = name
            elif mode == "both": r["nodeindex"] = i; r["name"] = m.n[i].name if i in m.n else name
            elif mode == "wrong" and k == "state": r["nodeindex"] = i; r["name"] = "no such name"
            if "nodeindex" in r and (i > 0 or k == "delete" and i == 0): x = m.n.get(i)
            elif r.get("name"): x = m.byname(r["name"])
            else: x = None
            if mode == "wrong": x = None
            cmd = "Delete.Node" if k == "delete" else "Node.Get.State"
            rep = attempt(cmd, r)
            if isinstance(rep, str) != (x is None): ctx.fail("%s %s gives %s, expected %s" % (cmd, dict(r), rep if isinstance(rep, str) else "success", "an error" if x is None else "node %d" % x.i))
            if x is None: refused += 1
            elif k == "delete":
                del m.n[x.i]; done += 1
                if x.name and x.name not in str(rep["message"]): ctx.fail("deleting %s: %s" % (x.name, rep["message"]))
            elif rep.get("name", x.name) != x.name or x.inited and x.ok and (rep["nodeindex"] != x.i or rep["class"] != x.cls): ctx.fail("%s: state of another node %s" % (what, plain(rep)))
        elif k == "index":
            x = m.byname(step[1])
            got = attempt("Get.NodeIndex", dmi.record(name=step[1]))
            if got["nodeindex"] != (x.i if x else -1): ctx.fail("%s gives %s" % (what, plain(got)))
        elif k == "list":
            content = dict((c, c in step[1]) for c in ["nodeindex", "name", "class", "children", "control_status", "profiling_stats"])
            rep = vt.cmd("Get.Node.List", dmi.record(**content))
            want = set(c for c in content if content[c])
            if "children" in want: want.add("step_children")
            if "control_status" in want: want.add("request_id")
            if "profiling_stats" in want: want.add("cache_stats")
            have = set(rep) - {"forest_serial"}
            if have != want: ctx.fail("%s: list has %s, expected %s" % (what, sorted(have), sorted(want)))
            for c in want:
                if m.n and len(seq(rep[c])) != len(m.n): ctx.fail("%s: %d entries in %s for %d nodes" % (what, len(seq(rep[c])), c, len(m.n)))
            serial = rep["forest_serial"]
            if set(vt.cmd("Get.Node.List", dmi.record(forest_serial=serial))) - {"forest_status"}: ctx.fail("%s: a list is sent though nothing changed" % what)
            m.serial = serial
        elif k == "exec":
            l = sorted(m.n)
            if not l: continue
            x = m.n[l[step[1] % len(l)]]
            if not x.name: continue
            v = x.value()
            if v is None and x.inited and (not x.links or cyclic(x)): continue
            if v is None and x.inited: continue
            rc, res = vt.run(x.name, request(grid([2])))
            if v is None:
                if not rc & RES_FAIL: ctx.fail("%s: a node that was not initialised is executed, code %#x" % (x.name, rc))
                refused += 1
            else:
                if rc & RES_FAIL or len(res["planes"]) != 1: ctx.fail("%s: execution fails, code %#x, %s" % (what, rc, res))
                got = float(np.ravel(res["planes"][0]["v"])[0])
                if got != v: ctx.fail("%s: value of node %s is %s, expected %s" % (what, x.name, got, v))
                ctx.label("executed")
        elif k == "probe":
            i = step[1] if step[1] is not None else max([0] + sorted(m.n)) + 1
            try: got = vt.forest_get(i)
            except vt.Error: got = None
            x = m.n.get(i)
            if (got is None) != (x is None): ctx.fail("node number %d is given as %s" % (i, got))
            if x and got != (x.name, i): ctx.fail("node number %d is given as %s" % (i, got))
        else:
            vt.cmd("Clear.Forest", dmi.record())
            m = M(); done += 1
        if k in ("create", "batch", "delete", "clear"):
            kept(ctx, m, what)
            if m.serial is not None:
                if k == "clear" or True:
                    l = vt.cmd("Get.Node.List", dmi.record(forest_serial=m.serial))
                    if k in ("clear", "batch") and "nodeindex" not in l: ctx.fail("%s: no new list is sent for the old serial number" % what)
    if linked: ctx.label("linked")
    vt.events()
    ctx.trivial(not refused or not (done or linked))

def cyclic(x, path=()):
    return x in path or any(cyclic(c, path + (x,)) for c in x.links)
