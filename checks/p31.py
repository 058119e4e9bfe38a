"""Tree definition scripts against a dictionary model of the repository."""
from vmeq import *
from hypothesis import strategies as st
import vfw, re, os, sys, gc, io, contextlib
from Timba.TDL import TDLimpl, Settings
from Timba.TDL import Meq

P = vfw.Property("P31",
    rule="a case is a script of up to 30 statements (scopes, qualified names, definitions with children of every kind, redefinitions, options, added children, searches) "
         "and its resolution; non-trivial if at least three nodes are defined and one of them in a subscope or with qualifiers",
    assumptions=["a tag matches if the given expression matches its beginning; a name or class if all of it matches",
                 "anonymous nodes are named by their class, the names of their children and all their qualifiers: two different ones of equal name are reported as a conflict",
                 "when only ROOT nodes are kept, nodes still referred to from Python may stay"])
P.setup = lambda: vt.init(0, 1)

BASE = ["a", "b", "c", "ab"]
QUALS = [1, 2, "p", "q", 1.5, [1, 2], ["p", 1]]
KW = ["x", "y"]
CLS = ["Sin", "Add", "Foo"]
TAGS = ["red", "green", "blue"]
FIELDS = ["f", "g"]
VALUES = [1, 2, "u", "v w", [1, 2], [1, 3], 2.5]
CONST = [1, 2, 1.5, -1.0, [0.0, 1.0], True]          # [re,im]: complex

quals = st.lists(st.sampled_from(QUALS), max_size=2)
kwquals = st.dictionaries(st.sampled_from(KW), st.sampled_from(QUALS), max_size=2)
reg = st.integers(0, 40)

@st.composite
def children(draw, depth):
    k = draw(st.sampled_from(["reg", "reg", "reg", "none", "const", "name", "anon", "def"]))
    if k == "reg": return [k, draw(reg)]
    if k == "none": return [k, 0]
    if k == "const": return [k, draw(st.sampled_from(CONST))]
    if k == "name": return [k, draw(reg)] if draw(st.integers(0, 3)) else [k, -1]
    if k == "def": return [k, draw(reg)]
    if depth <= 0: return ["reg", draw(reg)]
    return [k, draw(definitions(depth - 1))]

@st.composite
def definitions(draw, depth=2):
    d = dict(cls=draw(st.sampled_from(CLS)), form=draw(st.sampled_from(["list", "list", "children", "dict", "kw"])))
    d["ch"] = [draw(children(depth)) for _ in range(draw(st.sampled_from([0, 1, 1, 2, 3])))]
    if draw(st.integers(0, 4)) == 0: d["step"] = [["reg", draw(reg)] for _ in range(draw(st.integers(1, 2)))]
    if draw(st.integers(0, 3)) == 0: d["tags"] = draw(st.sampled_from(["red", "green blue", ["red", "blue"], "blue"]))
    d["f"] = draw(st.dictionaries(st.sampled_from(FIELDS), st.sampled_from(VALUES), max_size=1))
    return d

OPS = ["stub"] * 3 + ["qual"] * 3 + ["bind"] * 6 + ["bindnew"] * 4 + ["rebind", "rebind", "subscope", "subscope", "qualscope", "nodescope", "qadd", "qmerge", "def", "binddef",
       "binddef", "opt", "addch", "addstep", "maybe", "dup", "search", "search", "anon", "root", "family"]

@st.composite
def scripts(draw):
    out = []
    for _ in range(draw(st.integers(4, 30))):
        o = draw(st.sampled_from(OPS))
        if o in ("stub",): out.append([o, draw(reg), draw(st.sampled_from(BASE)), draw(st.booleans())])
        elif o == "qual": out.append([o, draw(reg), draw(quals), draw(kwquals)])
        elif o == "bindnew": out.append([o, draw(reg), draw(st.sampled_from(BASE)), draw(quals), draw(kwquals), draw(definitions())])
        elif o in ("bind", "maybe"): out.append([o, draw(reg), draw(definitions())])
        elif o in ("def", "anon"): out.append([o, draw(reg), draw(definitions())])
        elif o in ("rebind", "dup", "binddef", "nodescope", "family"): out.append([o, draw(reg), draw(reg)])
        elif o == "root": out.append([o, draw(reg)])
        elif o == "subscope": out.append([o, draw(reg), draw(st.sampled_from(["S", "T", "a"])), draw(quals), draw(kwquals)])
        elif o == "qualscope": out.append([o, draw(reg), draw(quals), draw(kwquals)])
        elif o in ("qadd", "qmerge"): out.append([o, draw(reg), draw(st.lists(reg, min_size=1, max_size=2))])
        elif o == "opt": out.append([o, draw(reg), draw(st.sampled_from(FIELDS)), draw(st.sampled_from(VALUES))])
        elif o in ("addch", "addstep"):
            out.append([o, draw(reg), [draw(children(1)) if o == "addch" else ["reg", draw(reg)] for _ in range(draw(st.integers(1, 2)))]])
        elif o == "search":
            out.append([o, dict(name=draw(st.sampled_from([None, None, "a", "a.*", ".*:1", "b|a", "(a|b):.*", "ab|c|S::a", ".*=.*"])),
                                class_name=draw(st.sampled_from([None, None, "MeqSin", "MeqSin|MeqA", "Meq(Sin|Foo)", "MeqC.*"])),
                                tags=draw(st.sampled_from([None, None, "red", "blue green", ["red", "blue"], "r.*"]))),
                        draw(st.sampled_from([None, None, "one", "many", "search"])), draw(st.lists(reg, min_size=1, max_size=3)), draw(st.booleans())])
    return dict(ops=out, cleanup=draw(st.integers(0, 3)) == 0)

# ---- model --------------------------------------------------------------------------------
class Err(Exception): pass

def txt(q):
    return ",".join(txt(x) for x in q) if isinstance(q, (list, tuple)) else str(q)

class MScope:
    def __init__(self, name, quals): self.name, self.quals, self.count = name, quals, {}
    def fq(self, base, q, kw):
        return ":".join([(self.name + "::" if self.name else "") + base] + [txt(x) for x in self.quals] + [txt(x) for x in q] + ["%s=%s" % (k, txt(v)) for k, v in kw.items()])

class MNode:
    def __init__(self, name, base, scope, q, kw):
        self.name, self.base, self.scope, self.q, self.kw = name, base, scope, list(q), dict(kw)
        self.cls = None; self.fields = None; self.ch = None; self.step = None

class MDef:
    def __init__(self, cls, fields, ch, isdict, step):
        self.cls, self.fields, self.ch, self.isdict, self.step, self.resolved = cls, fields, ch, isdict, step, False

def merge(q0, kw0, q, kw, uniq):
    q0 = list(q0) + ([x for i, x in enumerate(q) if x not in q0] if uniq else list(q))
    kw0 = dict(kw0)
    for k, v in kw.items():
        a = kw0.get(k, []); a = list(a) if isinstance(a, list) else [a]
        kw0[k] = a + [x for x in (v if isinstance(v, list) else [v]) if x not in a]
    return q0, kw0

class Model:
    def __init__(self):
        self.nodes = {}; self.top = MScope(None, []); self.const = {}
        self.errors = 0
    def stub(self, name, *a):
        if name not in self.nodes: self.nodes[name] = MNode(name, *a)
        return self.nodes[name]
    def get(self, scope, base, q=(), kw={}):
        n = self.stub(scope.fq(base, [], {}), base, scope, [], {})
        return self.qualify(n, q, kw) if q or kw else n
    def qualify(self, n, q, kw, uniq=False):
        q, kw = merge(n.q, n.kw, q, kw, uniq)
        return self.stub(n.scope.fq(n.base, q, kw), n.base, n.scope, q, kw)
    def constant(self, v):
        for k, n in self.const.items():
            if k == v: return n
        base = name = "c%s" % str(v); i = 1
        while name in self.nodes: name = "%s%d" % (base, i); i += 1
        n = self.stub(name, name, self.top, [], {})
        n.cls, n.fields, n.ch, n.step, n.isdict = "MeqConstant", dict(value=v), [], [], False
        self.const[v] = n
        return n
    def child(self, c, scope):
        if c is None or isinstance(c, MNode): return c
        if isinstance(c, str):
            if c not in self.nodes: raise Err("no child " + c)
            return self.nodes[c]
        if isinstance(c, MDef): return self.anon(c, scope)
        return self.constant(c if isinstance(c, complex) else float(c))
    def resolve(self, d, scope):
        if d.resolved: return d.ch
        return [(l, self.child(c, scope)) for l, c in d.ch]
    def anon(self, d, scope):
        d.ch = self.resolve(d, scope); d.resolved = True
        some = [c for _, c in d.ch if c is not None]
        if some:
            scope = some[0].scope
            q, kw = [], {}
            for c in some:
                cq = list(c.q)
                if c.scope is not scope:
                    cq = list(c.scope.quals) + cq
                    if c.scope.name != scope.name: cq.insert(0, c.scope.name)
                q, kw = merge(q, kw, cq, c.kw, True)
            base = "%s(%s)" % (d.cls.lower(), ",".join("" if c is None else c.base for _, c in d.ch))
            n = self.get(scope, base, q, kw)
        else:
            while True:
                base = d.cls.lower()
                i = scope.count.get(base, 0); scope.count[base] = i + 1
                name = "(%s)%s" % (base, i or "")
                if scope.fq(name, [], {}) not in self.nodes: break
            n = self.get(scope, name)
        self.bind(n, d)
        return n
    def bind(self, n, d):
        """any error is counted"""
        try:
            ch = self.resolve(d, n.scope)
        except Err:
            self.errors += 1; return
        step = [(i, c) for i, c in enumerate(d.step)]
        cls = "Meq" + d.cls
        if n.cls is not None:
            if n.cls != cls or n.fields != d.fields or n.ch != ch or n.step != step: self.errors += 1
            return
        n.cls, n.fields, n.ch, n.step, n.isdict = cls, dict(d.fields), list(ch), list(step), d.isdict
    def children(self, n): return [c for _, c in n.ch if c is not None]
    def search(self, kw, subtree):
        def ok(n):
            if n.cls is None: return False
            if kw["name"] and not re.fullmatch(kw["name"], n.name): return False
            if kw["class_name"] and not re.fullmatch(kw["class_name"], n.cls): return False
            t = kw["tags"]; t = t.split() if isinstance(t, str) else t or []
            return all(any(re.match(p, x) for x in n.fields.get("tags", [])) for p in t)
        if subtree is None: return sorted(n.name for n in self.nodes.values() if ok(n))
        seen = set()
        todo = list(subtree)
        while todo:
            n = todo.pop()
            if n.name in seen: continue
            seen.add(n.name)
            if n.cls is not None: todo += self.children(n)
        return sorted(x for x in seen if ok(self.nodes[x]))

# ---- a run of both ------------------------------------------------------------------------
class Run:
    def __init__(self):
        self.m = Model(); self.ns = TDLimpl.NodeScope()
        self.scopes = [(self.ns, self.m.top)]; self.nodes = []; self.defs = []; self.root = []
    def pick(self, l, i): return l[i % len(l)] if l else None
    def node(self, i):
        n = self.pick(self.nodes, i)
        if n is None:
            n = (self.ns["z"], self.m.get(self.m.top, "z")); self.nodes.append(n)
        return n
    def child(self, c):
        k, v = c
        if k == "reg": return self.node(v)
        if k == "none": return None, None
        if k == "const": return (complex(*v),) * 2 if isinstance(v, list) else (v, v)
        if k == "name":
            if v < 0: return "nosuch", "nosuch"
            r, m = self.node(v); return m.name, m.name
        if k == "def":
            d = self.pick(self.defs, v)
            return d if d else self.node(v)
        return self.define(v)
    def define(self, d):
        ch = [self.child(c) for c in d["ch"]]
        step = [self.child(c) for c in d.get("step", [])]
        kw = {k: list(v) if isinstance(v, list) else v for k, v in d["f"].items()}
        fields = dict(kw)
        if step: kw["stepchildren"] = [c for c, _ in step]
        if "tags" in d:
            kw["tags"] = d["tags"]
            fields["tags"] = d["tags"].split(" ") if isinstance(d["tags"], str) else list(d["tags"])
        form = d["form"]
        labels = ["c%d" % i for i in range(len(ch))]
        if form == "kw" and not all(isinstance(m, (MNode, MDef)) for _, m in ch): form = "list"
        if not ch and form in ("kw", "dict"): form = "list"
        if form in ("dict", "kw"): mch = list(zip(labels, [m for _, m in ch]))
        else: mch = list(enumerate(m for _, m in ch))
        cls = getattr(Meq, d["cls"])
        if form == "list": real = cls(*[c for c, _ in ch], **kw)
        elif form == "children": real = cls(children=[c for c, _ in ch], **kw)
        elif form == "dict": real = cls(children=dict(zip(labels, [c for c, _ in ch])), **kw)
        else: real = cls(**dict(zip(labels, [c for c, _ in ch])), **kw)
        return real, MDef(d["cls"], fields, mch, form in ("dict", "kw"), [m for _, m in step])

def errors(r): return len([e for e in r.ns.GetErrors() if not isinstance(e, TDLimpl.NestedTDLError)])

def step(r, op, ctx):
    m, o = r.m, op[0]
    if o == "stub":
        s, ms = r.pick(r.scopes, op[1])
        r.nodes.append((getattr(s, op[2]) if op[3] else s[op[2]], m.get(ms, op[2])))
    elif o == "qual":
        n, mn = r.node(op[1]); r.nodes.append((n(*op[2], **op[3]), m.qualify(mn, op[2], op[3])))
    elif o in ("qadd", "qmerge"):
        n, mn = r.node(op[1]); others = [r.node(i) for i in op[2]]
        r.nodes.append((getattr(n, o)(*[a for a, _ in others]), None))
        for _, b in others: mn = m.qualify(mn, b.q, b.kw, o == "qmerge")
        r.nodes[-1] = (r.nodes[-1][0], mn)
    elif o == "subscope":
        s, ms = r.pick(r.scopes, op[1])
        r.scopes.append((s.Subscope(op[2], *op[3], **op[4]), MScope(ms.fq(op[2], op[3], op[4]), [])))
    elif o == "qualscope":
        s, ms = r.pick(r.scopes, op[1])
        r.scopes.append((s(*op[2], **op[3]), MScope(ms.name, ms.quals + op[2] + ["%s=%s" % (k, txt(v)) for k, v in op[3].items()])))
    elif o == "nodescope":
        n, mn = r.node(op[1])
        if op[2] % 2: r.scopes.append((n.Subscope(), MScope(mn.scope.fq(mn.base, mn.q, mn.kw), [])))
        else: r.scopes.append((n.QualScope(), MScope(mn.scope.name, mn.scope.quals + mn.q + ["%s=%s" % (k, txt(v)) for k, v in mn.kw.items()])))
    elif o in ("bind", "maybe", "bindnew"):
        if o == "bindnew":
            s, ms = r.pick(r.scopes, op[1])
            n, mn = s[op[2]](*op[3], **op[4]), m.get(ms, op[2], op[3], op[4])
            r.nodes.append((n, mn))
        else: n, mn = r.node(op[1])
        d, md = r.define(op[-1])
        if o == "maybe":
            if n ** d is not n: ctx.fail("%s ** gave another node" % mn.name)
            if mn.cls is None: m.bind(mn, md)
        else:
            n << d; m.bind(mn, md)
    elif o == "def": r.defs.append(r.define(op[2]))
    elif o == "binddef":
        d = r.pick(r.defs, op[2])
        if d is None: return
        n, mn = r.node(op[1]); n << d[0]; m.bind(mn, d[1])
    elif o == "rebind":
        n, mn = r.node(op[1])
        if mn.cls is None: return
        # the same definition once more
        kw = {k: list(v) if isinstance(v, list) else v for k, v in mn.fields.items()}
        byname = {b.name: a for a, b in r.nodes}
        repo = r.ns.AllNodes()
        ch = [(l, None if c is None else repo[c.name]) for l, c in mn.ch]
        d = getattr(Meq, mn.cls[3:])(children=ch if mn.isdict else [c for _, c in ch], stepchildren=[repo[c.name] for _, c in mn.step], **kw)
        k = errors(r)
        n << d
        if errors(r) != k: ctx.fail("the same definition of %s is refused: %s" % (mn.name, r.ns.GetErrors()[-2:]))
    elif o == "dup":
        (n, mn), (t, mt) = r.node(op[1]), r.node(op[2])
        if mn.cls is None or mt.cls is not None: return
        t << n.duplicate()
        mt.cls, mt.fields, mt.ch, mt.step, mt.isdict = mn.cls, dict(mn.fields), list(mn.ch), list(mn.step), mn.isdict
    elif o == "anon":
        s, ms = r.pick(r.scopes, op[1])
        d, md = r.define(op[2])
        k = errors(r)
        m.stub(ms.fq("name", [], {}), "name", ms, [], {}) if False else None
        try: n = s << d
        except TDLimpl.TDLError: n = None
        try: mn = m.anon(md, ms)
        except Err: mn = None
        if (n is None) != (mn is None): ctx.fail("anonymous node: got %s, expected %s" % (n and n.name, mn and mn.name))
        if n is not None: r.nodes.append((n, mn))
    elif o == "opt":
        n, mn = r.node(op[1])
        v = op[3]
        if mn.cls is None:
            try: n.set_options(**{op[2]: v}); ctx.fail("set options of an undefined node")
            except TDLimpl.TDLError: return
        n.set_options(**{op[2]: list(v) if isinstance(v, list) else v}); mn.fields[op[2]] = v
    elif o in ("addch", "addstep"):
        n, mn = r.node(op[1])
        ch = [r.child(c) for c in op[2]]
        f = n.add_children if o == "addch" else n.add_stepchildren
        if mn.cls is None:
            try: f(*[c for c, _ in ch]); ctx.fail("added children to an undefined node")
            except TDLimpl.TDLError: return
        mch = []
        # children are made in the global scope of the node
        err = False
        try: mch = [m.child(c, mn.scope) for _, c in ch]
        except Err: err = True
        try: f(*[c for c, _ in ch])
        except TDLimpl.TDLError:
            if not err: raise
            return
        if err: ctx.fail("added a child that does not exist")
        l = mn.ch if o == "addch" else mn.step
        for c in mch: l.append((len(l), c))
    elif o == "root":
        n, mn = r.node(op[1])
        if mn.cls is not None: r.ns.ROOT << n; r.root.append(mn)
    elif o == "family":
        n, mn = r.node(op[1])
        if any(x.startswith(mn.name + "::") for x in m.nodes): return
        got = sorted(x.name for x in n.family())
        want = sorted(x.name for x in m.nodes.values() if x.cls and (x.name == mn.name or x.name.startswith(mn.name + ":")))
        if got != want: ctx.fail("family of %s: %s, expected %s" % (mn.name, got, want))
    elif o == "search":
        sub = [r.node(i) for i in op[3]]
        kw = dict(op[1], return_names=op[4])
        if op[2] is None: got, want = r.ns.Search(**kw), m.search(op[1], None)
        elif op[2] == "one": got, want = r.ns.Search(subtree=sub[0][0], **kw), m.search(op[1], [sub[0][1]])
        elif op[2] == "many": got, want = r.ns.Search(subtree=[a for a, _ in sub], **kw), m.search(op[1], [b for _, b in sub])
        else: got, want = sub[0][0].search(no_family=True, **kw), m.search(op[1], [sub[0][1]])
        got = sorted(got if op[4] else [x.name for x in got])
        if got != want: ctx.fail("search %s: %s, expected %s" % (op[1:], got, want))

def same(a, b):
    if isinstance(b, (list, tuple)): return [same(x, y) for x, y in zip(a, b)].count(False) == 0 and len(a) == len(b) if hasattr(a, "__len__") else False
    return type(a) is type(b) and a == b

def compare(r, ctx, what):
    repo = r.ns.AllNodes()
    defd = {n.name: n for n in r.m.nodes.values() if n.cls}
    got = {k for k, n in repo.items() if n.initialized()}
    if got != set(defd): ctx.fail("%s: nodes %s, expected %s" % (what, sorted(got), sorted(defd)))
    for n in defd.values():
        x = repo[n.name]
        if x.name != n.name or x.classname != n.cls: ctx.fail("%s: %s is %s, expected %s" % (what, n.name, x, n.cls))
        ch = [(l, c and c.name) for l, c in x.children]; want = [(l, c and c.name) for l, c in n.ch]
        if ch != want: ctx.fail("%s: children of %s are %s, expected %s" % (what, n.name, ch, want))
        stp = [c.name for _, c in x.stepchildren]; want = [c.name for _, c in n.step]
        if stp != want: ctx.fail("%s: stepchildren of %s are %s, expected %s" % (what, n.name, stp, want))
        rec = x.initrec()
        for k, v in n.fields.items():
            if k not in rec or not same(rec[k], v): ctx.fail("%s: %s of %s is %s, expected %s" % (what, k, n.name, rec.get(k), v))
        more = set(map(str, rec.keys())) - set(n.fields) - {"class", "name", "nodeindex", "node_description", "children", "step_children", "parents"}
        if more: ctx.fail("%s: %s has fields %s" % (what, n.name, more))
        if rec["class"] != n.cls: ctx.fail("%s: class of %s is %s" % (what, n.name, rec["class"]))
        if x.num_parents() != len({p.name for p in defd.values() if n in r.m.children(p) or any(c is n for _, c in p.step)}): ctx.fail("%s: number of parents of %s" % (what, n.name))

@P.check("scripts", scripts(), quick=7000, thorough=500000, shards=8)
def run(case, ctx):
    """the repository holds what the script defined"""
    TDLimpl._original_invocation_filename = None
    Settings.orphans_are_roots = not case["cleanup"]
    r = Run()
    with contextlib.redirect_stdout(io.StringIO()), contextlib.redirect_stderr(io.StringIO()):
        for op in case["ops"]:
            step(r, op, ctx)
            if bool(errors(r)) != bool(r.m.errors): ctx.fail("after %s: %d errors %s, expected %d" % (op, errors(r), [str(e) for e in r.ns.GetErrors()][-2:], r.m.errors))
            for n, mn in r.nodes[-1:]:
                if n.name != mn.name: ctx.fail("after %s: node is %s, expected %s" % (op, n.name, mn.name))
            n = None
            if r.m.errors > 5: break
        compare(r, ctx, "before resolving")
        finish(r, case, ctx)

def cyclic(m, defd):
    done = set()
    while True:
        more = [n.name for n in defd.values() if n.name not in done and all(c.name in done or not c.cls for c in m.children(n) + [c for _, c in n.step])]
        if not more: return len(done) < len(defd)
        done |= set(more)

def finish(r, case, ctx):
    m = r.m
    defd = {n.name: n for n in m.nodes.values() if n.cls}
    undefined = [c.name for n in defd.values() for c in m.children(n) + [c for _, c in n.step] if c.cls is None]
    ctx.trivial(len(defd) < 3 or not any(":" in n for n in defd))
    scopes = [s for s, _ in r.scopes]
    ns = r.ns
    if case["cleanup"]:
        r.nodes = []; r.scopes = []; r.defs = []; scopes = [None] * len(scopes)
        gc.collect()
    try:
        ns.Resolve(); bad = False
    except TDLimpl.CumulativeError: bad = True
    if bad != bool(undefined or m.errors): ctx.fail("resolving gave %s, undefined children are %s, %d errors" % ("errors" if bad else "no errors", undefined, m.errors))
    if bad: ctx.label("errors"); return
    repo = ns.AllNodes()
    if case["cleanup"]:
        keep = set(); todo = list(r.root)
        while todo:
            n = todo.pop()
            if n.name in keep: continue
            keep.add(n.name); todo += m.children(n) + [c for _, c in n.step]
        lost = keep - set(repo)
        if lost: ctx.fail("nodes %s below ROOT were deleted" % sorted(lost))
        if not set(repo) <= set(defd): ctx.fail("nodes %s came from nowhere" % (set(repo) - set(defd)))
        # nothing else refers to nodes without qualifiers
        if len(scopes) == 1 and not cyclic(m, defd) and not any(n.q or n.kw for n in m.nodes.values()):
            if set(repo) != keep: ctx.fail("nodes %s are not below ROOT" % sorted(set(repo) - keep))
            ctx.label("exactly the ROOT nodes")
        ctx.label("ROOT nodes only")
    else:
        compare(r, ctx, "resolved")
        roots = {n.name for n in defd.values()} - {c.name for n in defd.values() for c in m.children(n) + [c for _, c in n.step]}
        if set(ns.RootNodes()) != roots: ctx.fail("roots are %s, expected %s" % (sorted(ns.RootNodes()), sorted(roots)))
    index = {}
    for k, n in repo.items():
        i = n.initrec()["nodeindex"]
        if i in index or i <= 0 or n.nodeindex != i: ctx.fail("nodeindex %s of %s" % (i, k))
        index[i] = k
    for k, n in repo.items():
        mn, rec = defd[k], n.initrec()
        if rec["name"] != k: ctx.fail("%s has the name %s" % (k, rec["name"]))
        ch = rec.get("children", [])
        ch = [(str(a), b) for a, b in ch.items()] if isinstance(ch, dict) else [(str(a), b) for a, b in enumerate(ch)]
        ch = [(a, index.get(b, "lost %d" % b) if b != -1 else None) for a, b in ch]
        want = [(str(l), c and c.name) for l, c in mn.ch]
        if ch != want: ctx.fail("child field of %s is %s, expected %s" % (k, ch, want))
        stp = [index.get(b, "lost") for b in rec.get("step_children", [])]
        if stp != [c.name for _, c in mn.step]: ctx.fail("step_children of %s are %s" % (k, stp))
        par = rec.get("parents", [])
        if sorted(index.get(b, "lost") for b in par) != sorted(p for p in repo if any(c is mn for c in m.children(defd[p]) + [c for _, c in defd[p].step])):
            ctx.fail("parents of %s are %s" % (k, [index.get(b) for b in par]))
