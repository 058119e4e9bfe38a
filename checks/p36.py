"""Nodes implemented in Python against what a node of the system receives and returns."""
from fmodel import *
from p13 import allfail, allmissing
from Timba.dmi import hiid
import vfw, os, sys, io, contextlib, gc
from Timba.TDL import Meq

P = vfw.Property("P36",
    rule="a case is a tree of up to three source nodes, a node implemented in Python with generated behaviour (results of every kind passed on, composed or refused, exceptions of any kind, "
         "changed and kept arguments, changed requests, state access, commands) and a parent, over one to four requests; non-trivial if Python got at least one result with several planes, "
         "flags or perturbed values, or if it threw or returned something invalid",
    assumptions=["changing the request object in place is seen by later methods called for the same request", "the return code of a result consisting of fails is the code that Python gives"])
P.setup = lambda: vt.init(0, 1)
FILE = os.path.join(os.path.dirname(os.path.abspath(vfw.__file__)), "vtpynodes.py")

def state():
    import types
    return sys.modules.setdefault("vt_pynode_state", types.SimpleNamespace(script=None, log=[], kept=[], tests=None))

THROW = ["value", "exit", "exit0", "interrupt", "stop", "unprintable", "unicode", "class", "deep", "percent", "empty", "key"]
GARBAGE = ["int", "str", "list", "empty", "three", "odd", "dict", "vellset", "request", "codestr", "array", "swapped", "bignum"]
SP = dict(spids=(1, 3, 4), nset=2)

def quiet(f, *a, **k):
    with contextlib.redirect_stdout(io.StringIO()), contextlib.redirect_stderr(io.StringIO()):
        return f(*a, **k)

# ---- reading what Python gets -------------------------------------------------------------
def read_result(r):
    """a result object as a dictionary, as vt.run gives it"""
    out = dict(planes=[])
    for vs in r.get("vellsets", ()):
        p = {}
        if "fail" in vs: p["fail"] = [str(f["message"]) for f in vs["fail"]]
        else:
            if "value" in vs: p["v"] = np.array(vs["value"])
            if "flags" in vs: p["f"] = p["vf"] = np.array(vs["flags"])
            if "spid_index" in vs:
                s = vs["spid_index"]
                p["spids"] = [int(i) for i in (s if np.ndim(s) else [s])]
                p["perts"], p["pv"] = [], []
                for i in range(9):
                    x = "" if i == 0 else "_%d" % i
                    if "perturbed_value" + x not in vs: break
                    pe = vs["perturbations" + x]
                    p["perts"].append([float(q) for q in (pe if np.ndim(pe) else [pe])])
                    p["pv"].append([np.array(q) for q in as_list(vs["perturbed_value" + x])])
        out["planes"].append(p)
    if "dims" in r: d = r["dims"]; out["dims"] = [int(x) for x in (d if np.ndim(d) else [d])]
    else: out["dims"] = [] if len(out["planes"]) == 1 else [len(out["planes"])]
    if "cells" in r: out["cells"] = r["cells"]
    return out

def as_list(x): return list(x) if isinstance(x, (list, tuple)) else [x]

def same_cells(a, b):
    return canon(a) == canon(b)

def canon(x):
    if isinstance(x, dict): return {str(k).lower(): canon(x[k]) for k in x.keys() if not str(k).startswith("__")}
    if isinstance(x, (list, tuple, np.ndarray)): return [float(i) for i in np.ravel(x)]
    if isinstance(x, (int, float)): return [float(x)]
    return str(x)

def compose(planes, dims, cells):
    """a result object made by Python"""
    vss = []
    for p in planes:
        if p.fail is not None: vss.append(meq._vellset_type(fail=[dmi.record(type="E", message=m) for m in p.fail])); continue
        if p.missing: vss.append(meq._vellset_type()); continue
        v = np.ascontiguousarray(p.v)
        vs = meq.vellset(meq.vells(v.shape, np.iscomplexobj(v), value=v))
        if p.f is not None: vs.flags = meq.flagvells(p.f.shape, value=np.ascontiguousarray(p.f))
        shape = tuple(bshape(*[np.shape(x) for x in [v] + ([p.f] if p.f is not None else [])]))
        if shape != (1,) * len(shape): vs.shape = shape
        vss.append(vs)
    r = meq.result(cells=cells)
    r.vellsets = vss
    if dims: r.dims = list(dims)
    return r


# ---- results --------------------------------------------------------------------------------
ret = st.one_of(st.tuples(st.just("child"), st.integers(0, 2), st.sampled_from([None, None, 0, 1, 2, 0x20]), st.sampled_from(["tuple", "list"])),
                st.tuples(st.just("none"), st.booleans()),
                st.tuples(st.just("compose"), st.integers(0, 1), st.sampled_from([None, 0, 4]), st.sampled_from(["tuple", "list"])),
                st.tuples(st.just("throw"), st.sampled_from(THROW)),
                st.tuples(st.just("garbage"), st.sampled_from(GARBAGE)))
act = st.sampled_from(["spoil", "spoil", "keep", "getstate", "setstate", "mqexec", "gc", "reqspoil", "badstate", "badexec"])

@st.composite
def cases(draw):
    full = draw(grids(3))
    return dict(full=full, ch=[draw(result(full, **SP)) for _ in range(draw(st.integers(0, 3)))], comp=[draw(result(full)) for _ in range(2)],
                cls=draw(st.sampled_from(["Script", "Script", "Plain"])), ignore=draw(st.booleans()), top=draw(st.booleans()),
                runs=[dict(ret=list(draw(ret)), acts=draw(st.lists(act, max_size=3))) for _ in range(draw(st.integers(1, 3)))])

class Behaviour:
    """what the node does in the current run; exceptions of the test itself are kept for later"""
    def __init__(self, **kw): self.__dict__.update(kw); self.error = None; self.calls = []
    def guard(self, f, *a):
        try: return f(*a)
        except AssertionError as e: self.error = e
        except vfw.Violation as e: self.error = e

def run_acts(b, self, request, children, spoil=True):
    mod = sys.modules[type(self).__module__]
    server = mod.server
    for a in b.run["acts"]:
        if a == "spoil":
            for c in children:
                for vs in c.get("vellsets", ()):
                    for k in list(vs.keys()):
                        for x in as_list(vs[k]):
                            if isinstance(x, np.ndarray):
                                try: x[...] = 77
                                except ValueError: pass
                    for k in list(vs.keys()): del vs[k]
                for k in list(c.keys()): del c[k]
        elif a == "keep":
            state().kept.append((children, request))
        elif a == "getstate":
            b.seen["class"] = str(self.get_state("class")).lower(); b.seen["name"] = str(self.get_state("name"))
        elif a == "setstate":
            b.note = "note %d" % len(b.calls); self.set_state("note", b.note); self.set_state("vec", [1.5, 2.5])
        elif a == "mqexec":
            b.seen["list"] = server.mqexec("Get.NodeIndex", dmi.record(name="p"), True)
        elif a == "badexec":
            for args in [("No.Such.Command",), ("Node.Get.State", dmi.record(name="nonexistent")), ("Node.Get.State", 5, True), ("", dmi.record())]:
                try: server.mqexec(*args)
                except Exception: pass
        elif a == "badstate":
            for f in [lambda: self.get_state("no_such_field"), lambda: self.set_state("", 1), lambda: self.set_state("x", object()), lambda: server.get_node_state_field(5, "x"),
                      lambda: self.set_symdeps("Domain", "State"), lambda: server.set_node_active_symdeps(self._baton, 5), lambda: self.get_forest_state("nonexistent")]:
                try: f()
                except Exception: pass
        elif a == "gc": gc.collect()
        elif a == "reqspoil":
            for k in list(request.keys()):
                if k != "request_id": request[k] = "spoiled"

def give(b, self, request, children):
    """the return value"""
    r = b.run["ret"]
    if r[0] == "child":
        x = children[r[1] % len(children)] if children else None
        if r[2] is None: return x
        return (x, r[2]) if r[3] == "tuple" else [x, r[2]]
    if r[0] == "none": return (None, 0) if r[1] else None
    if r[0] == "compose":
        c = realise(b.comp[r[1]])
        x = compose(c.planes, c.dims, b.cells)
        if r[2] is None: return x
        return (x, r[2]) if r[3] == "tuple" else [x, r[2]]
    if r[0] == "throw": sys.modules[type(self).__module__].throw(r[1])
    k = r[1]
    mod = sys.modules[type(self).__module__]
    return dict(int=5, str="result", list=[1, 2, 3], empty=(), three=(None, 0, 1), odd=mod.Odd(), dict={"a": 1}, vellset=meq.vellset(meq.sca_vells(1.0)), request=request,
                codestr=(None, "x"), array=np.ones(3), swapped=(0, None), bignum=(None, 1 << 80))[k]

@P.check("results", cases(), quick=6000, thorough=300000, shards=8)
def results(case, ctx):
    """arguments and results of get_result"""
    full = case["full"]; cells = grid(full)
    ch = [realise(c) for c in case["ch"]]
    vt.clear_forest()
    S = state(); S.kept.clear(); S.log.clear()
    names = ["s%d" % i for i in range(len(ch))]
    kw = dict(fail_policy=hiid("ignore"), missing_data_policy=hiid("ignore")) if case["ignore"] else {}
    quiet(create, [node("MeqVtNode", s) for s in names] + [node("MeqPyNode", "p", names, class_name=case["cls"], module_name=FILE, **kw)] + [node("MeqVtNode", "top", ["p"])])
    for s, c in zip(names, ch):
        vt.src(s, [to_spec(c, cells)], RES_FAIL if allfail(c) else RES_MISSING if allmissing(c) else 0)
    nontrivial = False
    top = "top" if case["top"] else "p"
    for i, r in enumerate(case["runs"]):
        b = Behaviour(run=r, comp=case["comp"], cells=cells, seen={}, note=None, args=None)
        def get_result(self, request, *children):
            b.calls.append(1)
            b.args = (dict((str(k), request[k]) for k in request.keys()), [read_result(c) for c in children], len(children))
            ch2 = children
            if r["ret"][0] == "child" and "spoil" in r["acts"]: ch2 = children    # what is passed on is spoiled too
            run_acts(b, self, request, ch2)
            return give(b, self, request, children)
        b.get_result = get_result
        S.script = b
        rq = request(cells)
        rc, got = quiet(vt.run, top, rq)
        # is it to be called at all?
        if not case["ignore"] and any(allfail(c) for c in ch):
            if b.calls: ctx.fail("called although a child failed")
            if not rc & RES_FAIL: ctx.fail("a child failed, but code is %#x" % rc)
            continue
        if not case["ignore"] and any(allmissing(c) for c in ch):
            if b.calls: ctx.fail("called although a child has no data")
            continue
        if len(b.calls) != 1: ctx.fail("called %d times for one request" % len(b.calls))
        req, args, n = b.args
        if n != len(ch): ctx.fail("got %d children of %d" % (n, len(ch)))
        if str(req["request_id"]) != str(rq["request_id"]): ctx.fail("request id %s, sent %s" % (req["request_id"], rq["request_id"]))
        if not same_cells(req["cells"], cells): ctx.fail("cells of the request are %s, sent %s" % (req["cells"], cells))
        for j, (a, c) in enumerate(zip(args, ch)):
            compare(ctx, a, c, full, pre="child %d as seen in Python: " % j)
            if (a["dims"] or []) != (list(c.dims) if c.dims else []) and not (allmissing(c) or allfail(c)): ctx.fail("child %d: dims %s in Python, are %s" % (j, a["dims"], c.dims))
            if "cells" in a and not same_cells(a["cells"], cells): ctx.fail("child %d: cells %s" % (j, a["cells"]))
            nontrivial = nontrivial or len(c.planes) > 1 or any(p.spids or p.f is not None for p in c.planes)
        for k, w in (("class", "meqpynode"), ("name", "p")):
            if k in b.seen and b.seen[k] != w: ctx.fail("state field %s is %s in Python" % (k, b.seen[k]))
        if b.note is not None:
            s = vt.get_state("p")
            if s.get("note") != b.note or list(s.get("vec", [])) != [1.5, 2.5]: ctx.fail("set state field to %r, is %r" % (b.note, s.get("note")))
        expect(ctx, case, r, b, ch, rc, got, full)
        if r["ret"][0] in ("throw", "garbage"): nontrivial = True
    # children and kept arguments are unharmed
    for kch, krq in S.kept:
        for c in kch: read_result(c)
    for s, c in zip(names, ch):
        rc, got = vt.run(s, request(cells))
        compare(ctx, got, c, full, pre="child afterwards: ")
    vt.clear_forest()
    S.kept.clear()
    ctx.trivial(not nontrivial)

def expect(ctx, case, r, b, ch, rc, got, full):
    k = r["ret"]
    if k[0] in ("throw", "garbage") or (k[0] == "child" and not ch and False):
        if not rc & RES_FAIL: ctx.fail("%s, but code is %#x and result %s" % (k, rc, got))
        if not got or not got["planes"] or not all(p.get("fail") for p in got["planes"]): ctx.fail("%s gave %s" % (k, got))
        msg = " ".join(m for p in got["planes"] for m in p["fail"])
        if k[0] == "throw" and k[1] in ("value", "exit", "interrupt") and "thrown by the test" not in msg: ctx.fail("message of the exception is lost: %s" % msg)
        return
    spoiled = "spoil" in r["acts"]
    if k[0] == "child" and ch and not spoiled: want = ch[k[1] % len(ch)]
    elif k[0] == "compose": want = realise(b.comp[k[1]])
    elif k[0] == "none" or not ch:
        if rc & RES_FAIL: ctx.fail("None failed: %s" % got)
        if got and got["planes"]: ctx.fail("None gave %s" % got)
        return
    else: return
    if rc & RES_FAIL and not allfail(want): ctx.fail("%s failed: code %#x, %s" % (k, rc, got))
    compare(ctx, got, want, full, pre="%s: " % (k,))
    if (got["dims"] or []) != (list(want.dims) if want.dims else []) and not (allmissing(want) or allfail(want)): ctx.fail("dims %s returned as %s" % (want.dims, got["dims"]))
    code = k[2]
    if code and rc & code != code: ctx.fail("code %#x lost, is %#x" % (code, rc))

# ---- changed requests -----------------------------------------------------------------------
@st.composite
def request_cases(draw):
    m = st.one_of(st.just(["none"]), st.just(["same"]), st.tuples(st.just("grid"), grids(4)), st.tuples(st.just("inplace"), grids(4)), st.tuples(st.just("throw"), st.sampled_from(THROW)),
                  st.tuples(st.just("garbage"), st.sampled_from(["int", "str", "dict", "odd", "cells", "tuple", "result"])))
    return dict(runs=[dict(full=draw(grids(4)), mod=list(draw(m)), anon=draw(st.booleans())) for _ in range(draw(st.integers(1, 4)))], two=draw(st.booleans()))

@P.check("requests", request_cases(), quick=4000, thorough=100000, shards=4, case_timeout=60)
def requests(case, ctx):
    """modify_child_request: children get the request that Python made"""
    vt.clear_forest()
    names = ["f", "t"][:1 + case["two"]]
    quiet(create, [node("MeqGrid", "f", axis="freq"), node("MeqGrid", "t", axis="time"), node("MeqPyNode", "p", names, class_name="Modify", module_name=FILE)])
    S = state(); nontrivial = False
    for r in case["runs"]:
        cells = grid(r["full"]); rq = meq.request(cells, rqid=dmi.hiid()) if r["anon"] else request(cells)     # ids may be empty, which says nothing
        b = Behaviour(seen={})
        def modify(self, request):
            b.calls.append("m")
            b.seen["rqid"] = str(request["request_id"]); b.seen["cells"] = canon(request["cells"])
            k = r["mod"]
            if k[0] == "none": return None
            if k[0] == "same": return request
            if k[0] == "grid": return meq.request(grid(k[1]), rqid=request["request_id"])
            if k[0] == "inplace": request["cells"] = grid(k[1]); return request
            mod = sys.modules[type(self).__module__]
            if k[0] == "throw": mod.throw(k[1])
            return dict(int=3, str="x", dict={}, odd=mod.Odd(), cells=grid([1, 1]), tuple=(request, 0), result=meq.result())[k[1]]
        def get_result(self, request, *children):
            b.calls.append("g")
            b.seen["children"] = [read_result(c) for c in children]; b.seen["rqid2"] = str(request["request_id"]); b.seen["cells2"] = canon(request["cells"])
            return None
        b.modify, b.get_result = modify, get_result
        S.script = b
        rc, got = quiet(vt.run, "p", rq)
        k = r["mod"]
        if b.seen.get("rqid") != str(rq["request_id"]) or b.seen["cells"] != canon(cells): ctx.fail("modify_child_request got %s, sent %s" % (b.seen, rq))
        if k[0] in ("throw", "garbage"):
            nontrivial = True
            if "g" in b.calls: ctx.fail("get_result called although modify_child_request failed")
            if not rc & RES_FAIL: ctx.fail("%s, but code is %#x and result %s" % (k, rc, got))
            continue
        if b.calls != ["m", "g"]: ctx.fail("%s: calls %s, code %#x, %s" % (k, b.calls, rc, got))
        full = k[1] if k[0] in ("grid", "inplace") else r["full"]
        nontrivial = nontrivial or full != r["full"]
        if b.seen["rqid2"] != str(rq["request_id"]) or k[0] != "inplace" and b.seen["cells2"] != canon(cells): ctx.fail("get_result got %s, sent %s" % (b.seen, rq))
        want = [np.arange(full[1]) + 1.5 if full[1] > 1 else np.array([1.5]), np.arange(full[0]) + .5]
        for n, c in zip(range(2), b.seen["children"]):
            v = np.ravel(c["planes"][0]["v"])
            w = want[n] if n or full[1] > 1 else np.array([1.5])
            if len(v) != len(w) or not np.allclose(v, w): ctx.fail("%s: child %s is %s, expected %s" % (k, names[n], v, w))
    ctx.trivial(not nontrivial)

# ---- state and commands -----------------------------------------------------------------------
VAL = dict(gain=[2.5, -1.0, 3], tag=["y", "a b", ""], lst=[[3, 4, 5], [1.5], ["u", "v"]])

@st.composite
def state_cases(draw):
    ops = []
    for _ in range(draw(st.integers(1, 8))):
        o = draw(st.sampled_from(["set", "set", "set", "bad", "class", "check", "command", "command", "init", "delete"]))
        f = {k: draw(st.sampled_from(v)) for k, v in VAL.items() if draw(st.booleans())}
        ops.append([o, f, draw(st.sampled_from(["none", "int", "result", "tuple", "list", "throw", "str", "badtuple", "odd"])), draw(st.sampled_from(THROW))])
    return dict(init={k: draw(st.sampled_from(v)) for k, v in VAL.items() if draw(st.booleans())}, ops=ops, keep=draw(st.booleans()))

def eq(a, b):
    if isinstance(b, (list, tuple)): return len(np.atleast_1d(a)) == len(b) and all(eq(x, y) for x, y in zip(np.atleast_1d(a).tolist(), b))
    return a == b

@P.check("state", state_cases(), quick=4000, thorough=100000, shards=4, case_timeout=60)
def states(case, ctx):
    """the state of a node and of its Python object agree; commands reach it"""
    S = state(); S.log.clear()
    vt.clear_forest()
    b = Behaviour(); S.script = b
    def get_result(self, request, *children): b.obj = self; return None
    b.get_result = get_result
    model = {}
    def drop():
        """p is unharmed by the node that failed; the forest remembers failures until it is cleared"""
        look("after a node failed to initialise")
        b.obj = None; vt.clear_forest(); make()
    def make():
        quiet(create, [node("MeqPyNode", "p", [], class_name="Commands", module_name=FILE, **case["init"])])
        model.clear(); model.update(gain=1.5, tag="x", lst=[1, 2]); model.update(case["init"])
    def look(what):
        b.obj = None
        rc, got = quiet(vt.run, "p", request(grid([1, 1])))
        if b.obj is None: ctx.fail("%s: not called, code %#x, %s" % (what, rc, got))
        s = vt.get_state("p")
        for k, v in model.items():
            if not eq(getattr(b.obj, k), v): ctx.fail("%s: %s is %r in Python, expected %r" % (what, k, getattr(b.obj, k), v))
            if not eq(s.get(k), v): ctx.fail("%s: %s is %r in the state, expected %r" % (what, k, s.get(k), v))
            g = b.obj.get_state(k)
            if not eq(g, v): ctx.fail("%s: get_state of %s is %r, expected %r" % (what, k, g, v))
    make(); look("at creation")
    n = 0
    for o, f, how, thr in case["ops"]:
        if o == "set" and f:
            n += 1
            quiet(vt.set_state, "p", dmi.record(**f)); model.update(f)
        elif o in ("bad", "class"):
            g = dict(f); g["bad" if o == "bad" else "class_name"] = "X"
            if o == "bad": f = {}; g = {"bad": 1}
            try: quiet(vt.set_state, "p", dmi.record(**({"bad": 1} if o == "bad" else {"class_name": "X"})))
            except Exception: pass
            else: ctx.fail("%s was accepted" % o)
        elif o == "command":
            def command(self, cmd, args, hid, verbosity):
                b.got = (cmd, plain(args), str(hid), verbosity)
                if how == "none": return None
                if how == "int": return 4
                if how == "result": return meq.result(meq.vellset(meq.sca_vells(2.5)))
                if how == "tuple": return meq.result(meq.vellset(meq.sca_vells(2.5))), 2
                if how == "list": return [meq.result(meq.vellset(meq.sca_vells(2.5))), 2]
                mod = sys.modules[type(self).__module__]
                if how == "throw": mod.throw(thr)
                return dict(str="xx", badtuple=(1, 2, 3), odd=mod.Odd())[how]
            b.command = command; b.got = None
            args = dict(f, value=1)
            try: rc, res = quiet(vt.node_command, "p", "Get.Value", dmi.record(**args))
            except Exception as e: rc = None
            if b.got is None: ctx.fail("command did not reach Python")
            if b.got[0].lower().replace("_", ".") != "get.value" or b.got[2].lower() != "get.value": ctx.fail("command is %s" % (b.got,))
            for k, v in args.items():
                if not eq(b.got[1].get(k), v): ctx.fail("argument %s of the command is %r, sent %r" % (k, b.got[1].get(k), v))
            if how in ("throw", "str", "badtuple", "odd"):
                if rc is not None: ctx.fail("%s of a command gave code %#x" % (how, rc))
            elif rc is None: ctx.fail("command failed returning %s" % how)
            else:
                w = dict(none=0, int=4, result=0, tuple=2, list=2)[how]
                if rc & 7 != w: ctx.fail("code %#x of a command returning %s" % (rc, how))
                if how in ("result", "tuple", "list") and (res is None or read_result(res)["planes"][0]["v"].ravel()[0] != 2.5): ctx.fail("result %s of a command" % res)
        elif o == "init":
            b.how = thr
            try: quiet(create, [node("MeqPyNode", "q", [], class_name="FailsToInit", module_name=FILE, nodeindex=20)])
            except TreeError: pass
            else: ctx.fail("a node whose Python object throws %s was created" % thr)
            drop()
            for c, m in (("NoSuchClass", FILE), ("X", "/nonexistent/module.py"), ("X", "no.such.module"), ("justaname", "")):
                try: quiet(create, [node("MeqPyNode", "q", [], class_name=c, module_name=m, nodeindex=20)])
                except TreeError: pass
                else: ctx.fail("a node of class %s of %s was created" % (c, m))
                drop()
        elif o == "delete":
            old = b.obj
            vt.cmd("Delete.Node", dmi.record(name="p"))
            if case["keep"]:
                for g in (lambda: old.get_state("gain"), lambda: old.set_state("gain", 5.0), lambda: old.set_symdeps("Domain")):
                    try: g()
                    except Exception: pass
                    else: ctx.fail("the object of a deleted node still has access to its state")
            b.obj = old = None
            make()
        look("after %s" % o)
    vt.clear_forest()
    ctx.trivial(n == 0)

# ---- functions of tensors ---------------------------------------------------------------------
@st.composite
def tensor_cases(draw):
    full = draw(grids(3))
    n = draw(st.integers(1, 3)); d = draw(st.sampled_from(DIMS))
    return dict(full=full, ch=[draw(result(full, dims=d, spids=(1, 3, 4), nset=1)) for _ in range(n)],
                how=draw(st.sampled_from(["sum", "sum", "sum", "first", "throw", "few", "many", "none", "array", "str"])), thr=draw(st.sampled_from(THROW)), dims=bool(d) or draw(st.booleans()))

@P.check("tensors", tensor_cases(), quick=3000, thorough=100000, shards=4, case_timeout=60)
def tensors(case, ctx):
    """functions of tensors implemented in Python against the same in numpy"""
    full = case["full"]; cells = grid(full)
    ch = [realise(c) for c in case["ch"]]
    vt.clear_forest()
    names = ["s%d" % i for i in range(len(ch))]
    quiet(create, [node("MeqVtNode", s) for s in names] + [node("MeqPyTensorFuncNode", "p", names, class_name="TensorDims" if case["dims"] else "Tensor", module_name=FILE)])
    for s, c in zip(names, ch): vt.src(s, [to_spec(c, cells)], RES_FAIL if allfail(c) else RES_MISSING if allmissing(c) else 0)
    b = Behaviour(); state().script = b
    def out(v):
        v = np.ascontiguousarray(v); return meq.vells(v.shape, np.iscomplexobj(v), value=v)
    def evaluate(self, *args):
        b.calls.append(len(args))
        n = len(args[0])
        if case["how"] == "throw": sys.modules[type(self).__module__].throw(case["thr"])
        if case["how"] == "first": return tuple(args[0])
        if case["how"] == "none": return None
        if case["how"] == "str": return "x" * n
        res = []
        for i in range(n):
            v = None
            for a in args:
                x = np.array(a[i]); v = x if v is None else add(v, x)
            res.append(out(v))
        if case["how"] == "few": return res[1:]
        if case["how"] == "many": return res + res
        if case["how"] == "array": return [np.array(r) if r.dtype.kind != "c" else np.array(r) for r in res]
        return tuple(res)
    b.evaluate = evaluate
    b.dims = lambda self, *dims: dims[0]
    rc, got = quiet(vt.run, "p", request(cells))
    ctx.trivial(len(ch[0].planes) < 2)
    if any(allfail(c) for c in ch):
        if not rc & RES_FAIL: ctx.fail("a child failed, but code is %#x" % rc)
        return
    if any(p.fail is not None for c in ch for p in c.planes) or any(p.missing for c in ch for p in c.planes): ctx.label("partial"); return
    if not b.calls: ctx.fail("not called: %#x %s" % (rc, got))
    if case["how"] not in ("sum", "first"):
        if not rc & RES_FAIL: ctx.fail("%s, but code is %#x and result %s" % (case["how"], rc, got))
        return
    use = ch if case["how"] == "sum" else ch[:1] + ch[1:]
    def fn(vals):
        v = None
        for a in vals if case["how"] == "sum" else vals[:1]: v = a[0] if v is None else v + a[0]
        return v
    want = function(use, fn)
    # flags of all planes count for every plane of the result
    f = merge_flags([p for c in ch for p in c.planes], [-1] * sum(len(c.planes) for c in ch))
    for p in want.planes: p.f = f
    compare(ctx, got, want, full, lenient_spids=True)

def add(a, b):
    s = bshape(np.shape(a), np.shape(b))
    return bc(a, s) + bc(b, s)
