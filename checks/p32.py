"""Compile-time and run-time options over sessions against a dictionary model."""
from vmeq import *
from hypothesis import strategies as st
import vfw, os, io, contextlib, tempfile, configparser, shutil
from Timba.TDL import TDLOptions as O
import Timba.TDL as TDL

P = vfw.Property("P32",
    rule="a case is a set of option definitions in a script and up to two modules (booleans, lists (also of functions) with and without custom values, files, nested, toggled and exclusive menus, "
         "own namespaces) and a history of up to 14 settings over up to 4 sessions; non-trivial if a value other than the default was restored in a later session",
    assumptions=["options of one script, module and namespace have different names, ignoring case", "two values of one list have different texts",
                 "custom values have no white space at their ends nor empty lines", "a selected item of an exclusive menu is only switched off by selecting another one",
                 "a session starts with a new reader of the configuration file, as a new process does"])
P.setup = lambda: vt.init(0, 1)

LISTS = [[1, 2, 3], [10, 20], ["one", "two", "three"], [0.5, 1.5], [None, 1, "x y"], ["yes", 5], [[1, "first"], [2, "second"]], [["k=1", "a"], ["[b]", "b"]], {"u": "the u", "v": "the v"}, ["@fn_a", "@fn_b", "@fn_c"], ["@fn_b", 3, "@fn_a"], [["@fn_c", "third"], ["@fn_a", "first"]]]
MORE = {"int": int, "float": float, "str": str, "complex": complex}
CUSTOM = {"int": [7, 42, -3, "12"], "float": [2.25, -1e-7, 1e300, "3.5"], "str": ["free", "two words", "a=b", "# no", "; no", "[x]", "%(y)s", "tab\tin", "line\nline2", "x: 1"], "complex": [[1.5, -2.0]]}

@st.composite
def items(draw, depth, free):
    """one option or menu"""
    k = draw(st.sampled_from(["bool", "bool", "list", "list", "list", "file", "menu", "menu"] if depth else ["bool", "bool", "list", "list", "file"]))
    if k == "menu":
        m = dict(k=k, toggle=None, excl=None)
        f = draw(st.sampled_from(["plain", "toggle", "excl", "excl", "both"]))
        if f in ("toggle", "both") and free: m["toggle"] = free.pop(draw(st.integers(0, len(free) - 1))); m["open"] = draw(st.sampled_from([None, True, False]))
        if f in ("excl", "both") and free: m["excl"] = free.pop(draw(st.integers(0, len(free) - 1)))
        m["items"] = []
        for _ in range(draw(st.integers(1, 4))):
            if not free: break
            if draw(st.integers(0, 5)) == 0: m["items"].append(None)
            else: m["items"].append(draw(items(depth - 1, free)))
        m["nonx"] = draw(st.integers(0, 4)) == 0
        return m
    sym = free.pop(draw(st.integers(0, len(free) - 1)))
    d = dict(k=k, sym=sym, ns=draw(st.sampled_from([None, None, None, "obj", "dict"])))
    if k == "bool": d.update(v=draw(st.booleans()), nonx=draw(st.integers(0, 4)) == 0)
    elif k == "list":
        d["v"] = draw(st.sampled_from(LISTS + [4, 2.5]))
        d["more"] = draw(st.sampled_from([None, None, "int", "float", "str", "str", "complex"]))
        n = len(d["v"]) if isinstance(d["v"], (list, dict)) else 1
        d["default"] = draw(st.sampled_from([None, None, n - 1]))
    else:
        d["default"] = draw(st.sampled_from([None, "file.a", "dir/file b", "bad.a"])); d["valid"] = d["default"] != "bad.a" and draw(st.integers(0, 2)) == 0
    return d

@st.composite
def cases(draw):
    files = ["main"] + draw(st.sampled_from([[], ["moda"], ["moda", "modb"]]))
    defs = {}
    for f in files:
        free = ["opt", "mode", "flag", "Name", "a.b", "x1", "x2", "x3", "x4"]
        l = []
        for _ in range(draw(st.integers(1, 4))):
            if free: l.append(dict(item=draw(items(2, free)), rt=draw(st.booleans())))
        defs[f] = l
    ops = []
    for _ in range(draw(st.integers(3, 14))):
        o = draw(st.sampled_from(["set", "set", "set", "set", "name", "name", "str", "session", "session", "pre", "list", "export", "nosave"]))
        if o in ("set", "name", "str", "pre"): ops.append([o, draw(st.integers(0, 30)), draw(st.integers(0, 20)), draw(st.integers(0, 4)) > 0])
        elif o == "list": ops.append([o, draw(st.integers(0, 30)), draw(st.sampled_from(LISTS)), draw(st.booleans())])
        elif o in ("session", "nosave"): ops.append(["session", o == "nosave"])
        else: ops.append([o])
    return dict(defs=defs, ops=ops + [["session", False]])

# ---- model --------------------------------------------------------------------------------
def text(v): return getattr(v, "__name__", None) or str(v)
def strip(s): return "\n".join(x.strip() for x in str(s).split("\n")).strip()

class Item:
    """an option of the model; value is None only where that is a value"""
    def __init__(self, d, name, owner, menu, path):
        self.d, self.name, self.owner, self.menu, self.path = d, name, owner, menu, path
        self.k = d["k"]
        self.excl = None
        self.valid = d.get("valid") and path.count(".") > 1      # TDLxxxOption does not take validators
    def options(self):
        return list(self.opts) + ([self.custom] if self.d.get("more") else [])

class Named:
    """a function or class: known by its name"""
    def __init__(self, name): self.__name__ = name
    def __repr__(self): return "NAMED[%r]" % self.__name__
NAMED = {n: Named(n) for n in ("fn_a", "fn_b", "fn_c")}

def real(v):
    """as a script has it"""
    if isinstance(v, str): return NAMED[v[1:]] if v.startswith("@") else v
    if isinstance(v, list): return [tuple(real(y) for y in x) if isinstance(x, list) else real(x) for x in v]
    return v

def values(v):
    v = real(v)
    if isinstance(v, dict): return list(v)
    if isinstance(v, list):
        return [x[0] for x in v] if all(isinstance(x, tuple) for x in v) else list(v)
    return [v]

class Model:
    def __init__(self, mem): self.mem = mem; self.items = {}; self.order = []
    def read(self, name): return self.mem.get(name) if name else None

def prefixed(d, sym):
    return {None: "", "obj": "Hold.", "dict": "pfx."}[d.get("ns")] + sym

class Session:
    """items of the model in the order in which they are made, with values as the definitions say"""
    def __init__(self, case, mem):
        self.mem = mem; self.items = []; self.menus = []
        for f, l in case["defs"].items():
            for i, e in enumerate(l): self.make(e["item"], f, None, "%s.%d" % (f, i))
        self.bykey = {x.path: x for x in self.items + self.menus}
        # modules come first, and the script last
        for f in [f for f in case["defs"] if f != "main"] + ["main"]:
            for i, e in enumerate(case["defs"][f]): self.init("%s.%d" % (f, i))
    def make(self, d, owner, menu, path):
        if d["k"] == "menu":
            own = Item(d, (d["toggle"] or "").lower(), owner, menu, path)
            own.children = []; own.sel = None
            own.conf = None
            if d["toggle"]: own.value = bool(d.get("open"))
            self.menus.append(own)
            for i, c in enumerate(d["items"]):
                if c is not None: own.children.append(self.make(c, owner, own, path + ".%d" % i))
            return own
        it = Item(d, prefixed(d, d["sym"]).lower(), owner, menu, path)
        if it.k == "bool": it.value = d["v"]
        elif it.k == "file": it.value = d["default"]
        else:
            it.opts = values(d["v"]); it.custom = ""
            it.value = it.opts[d["default"] or 0]
        if it.k == "file" and it.valid and it.value and "bad" in it.value: it.value = None
        self.items.append(it)
        return it
    def conf(self, it, name):
        return ("" if it.owner == "main" else it.owner + ".") + name.lower()
    def init(self, path):
        it = self.bykey[path]
        if it.k == "menu":
            if it.d["toggle"]:
                it.conf = None if it.excl else self.conf(it, it.d["toggle"])
                self.restore_bool(it)
            if it.d["excl"]: it.xconf = self.conf(it, it.d["excl"]); it.sel = None; val = self.mem.get(it.xconf)
            group = [c for c in it.children if (c.k == "bool" or c.k == "menu" and c.d["toggle"]) and not c.d.get("nonx")] if it.d["excl"] else []
            if it.d["excl"]:
                it.group = group
                names = [sym(c) for c in group]
                if val not in names: val = names[0] if names else None
                for c in group: c.excl = it
                for c in group: c.value = sym(c) == val
                it.sel = val
                if val is not None: self.mem[it.xconf] = val
            for c in it.children: self.init(c.path)
            return
        it.conf = None if it.excl else self.conf(it, it.name)
        if it.k == "bool": self.restore_bool(it)
        elif it.k == "file":
            if it.conf in self.mem:
                v = self.mem[it.conf]
                it.value = None if it.valid and "bad" in v else v
        else:
            v = self.mem.get(it.conf)
            if v is not None:
                try: v = self.from_str(it, v)
                except ValueError: return
                o = it.options()
                it.value = o[o.index(v)] if v in o else v; self.adopt(it)
                self.mem[it.conf] = text(it.value)
    def restore_bool(self, it):
        v = self.mem.get(it.conf) if it.conf else None
        if v is not None:
            try: it.value = tobool(v)
            except ValueError: pass
    def adopt(self, it):
        if it.value not in it.opts: it.custom = it.value
    def from_str(self, it, v):
        if it.k != "list": return tobool(v) if it.k != "file" else v
        o = it.options(); s = [text(x) for x in o]
        if v in s: return o[s.index(v)]
        if not it.d["more"]: raise ValueError
        return MORE[it.d["more"]](v)
    def set(self, it, v):
        """set by value; ValueError if refused"""
        if it.k in ("bool", "menu"):
            if it.excl:
                it.value = True; it.excl.sel = sym(it)
                for c in it.excl.group: c.value = c is it
                self.mem[it.excl.xconf] = sym(it)
                return True
            it.value = bool(v); out = str(int(it.value))
        elif it.k == "file": it.value = v; out = v
        else:
            if v in it.options(): v = it.options()[it.options().index(v)]
            else:
                if not it.d["more"]: raise ValueError
                v = MORE[it.d["more"]](v)
            it.value = v; self.adopt(it); out = text(v)
        self.mem[it.conf] = out
        return False

def tobool(v):
    return dict(false=False, true=True)[v.lower()] if v in ("true", "True", "false", "False") else bool(int(v))

def sym(it):
    return (it.d["toggle"] if it.k == "menu" else it.d["sym"]).split(".")[-1]

# ---- scripts ------------------------------------------------------------------------------
def source(l, owner):
    out = ["from Timba.TDL import *", "class Hold: pass", "hold = Hold()", "pfx = dict(tdloption_namespace='pfx')"]
    def expr(d, path, fn):
        if d is None: return "None"
        if d["k"] == "menu":
            kw = ["namespace=globals()"] if False else []
            if d["toggle"]: kw.append("toggle=%r" % d["toggle"]); kw.append("open=%r" % d.get("open"))
            if d["excl"]: kw.append("exclusive=%r" % d["excl"])
            if d["nonx"]: kw.append("nonexclusive=True")
            return "R(%r, %s(%s))" % (path, fn["menu"], ", ".join(["'menu %s'" % path] + [expr(c, "%s.%d" % (path, i), dict(menu="TDLMenu", opt="TDLOption")) for i, c in enumerate(d["items"])] + kw))
        kw = []
        if d["ns"]: kw.append("namespace=%s" % dict(obj="hold", dict="pfx")[d["ns"]])
        if d["k"] == "bool":
            v = repr(d["v"])
            if d["nonx"]: kw.append("nonexclusive=True")
        elif d["k"] == "list":
            v = repr(real(d["v"]))
            if d["more"]: kw.append("more=%s" % d["more"])
            if d["default"] is not None: kw.append("default=DEF(%r)" % path)
        else:
            v = "TDLFileSelect('*.a', default=%r)" % d["default"]
            if d["valid"] and fn["opt"] == "TDLOption": kw.append("validator=lambda x: 'bad' not in x")
        return "R(%r, %s(%r, 'the %s', %s))" % (path, fn["opt"], d["sym"], path, ", ".join([v] + kw))
    for i, e in enumerate(l):
        r = "Runtime" if e["rt"] else "Compile"
        out.append(expr(e["item"], "%s.%d" % (owner, i), dict(menu="TDL%sMenu" % r, opt="TDL%sOption" % r)))
    return "\n".join(out) + "\n"

class Real:
    def __init__(self, case, dir):
        self.case, self.dir = case, dir
    def session(self, pre, nosave=False):
        os.chdir(self.dir)
        O.config_file = os.path.join(self.dir, "test.conf")
        O.config = O.OptionConfigParser()
        O.enable_save_config(True)
        O.init_script("main.tdl")
        O.init_options(save=not nosave)
        for name, v, save in pre: O.set_option(name, v, save=save)
        self.items = {}; self.glob = {}
        def R(key, x): self.items[key] = x; return x
        for f in [f for f in self.case["defs"] if f != "main"] + ["main"]:
            g = dict(R=R, __name__=f, DEF=self.default, NAMED=NAMED)
            self.glob[f] = g
            exec(compile(source(self.case["defs"][f], f), f + (".tdl" if f == "main" else ".py"), "exec"), g)
    def default(self, path):
        d = self.find(path)
        return values(d["v"])[d["default"]]
    def find(self, path):
        f, *p = path.split(".")
        d = self.case["defs"][f][int(p[0])]["item"]
        for i in p[1:]: d = d["items"][int(i)]
        return d
    def visible(self, it):
        """the value that the script sees"""
        g = self.glob[it.owner]
        ns = {None: g, "obj": g["hold"].__dict__, "dict": g["pfx"]}[it.d.get("ns")]
        for s in (it.d["toggle"] if it.k == "menu" else it.d["sym"]).split("."): ns = ns[s]
        return ns

def same(a, b): return type(a) is type(b) and a == b

def check_all(s, r, ctx, what):
    for it in s.items + [m for m in s.menus if m.d["toggle"]]:
        o = r.items[it.path]
        if not same(o.value, it.value): ctx.fail("%s: %s (%s) is %r, expected %r" % (what, it.path, it.conf, o.value, it.value))
        v = r.visible(it)
        if not same(v, it.value): ctx.fail("%s: the script sees %r for %s, expected %r" % (what, v, it.path, it.value))
    for m in s.menus:
        if m.d["excl"]:
            v = r.glob[m.owner][m.d["excl"]]
            if v != m.sel: ctx.fail("%s: exclusive %s of %s is %r, expected %r" % (what, m.d["excl"], m.path, v, m.sel))

def export(s, r, ctx):
    c = configparser.RawConfigParser(); c.add_section("x")
    O.save_to_config(c, "x")
    want = {}
    def walk(it):
        if it.k == "menu":
            if it.d["toggle"]:
                if it.conf: want[it.conf] = str(int(it.value))
                if not it.value: return
            if it.d["excl"]: want[it.xconf] = it.sel
            for x in it.children: walk(x)
        elif it.conf: want[it.conf] = str(int(it.value)) if it.k == "bool" else text(it.value)
    for p in [x for x in s.items + s.menus if x.menu is None]: walk(p)
    got = dict(c.items("x"))
    if got != want: ctx.fail("exported %s, expected %s" % (got, want))

def infile(path):
    c = configparser.RawConfigParser(); c.read(path)
    return dict(c.items("main")) if c.has_section("main") else {}

@P.check("sessions", cases(), quick=6000, thorough=300000, shards=8)
def run(case, ctx):
    """options keep and restore what was selected"""
    d = tempfile.mkdtemp(prefix="vp32")
    cwd = os.getcwd()
    try:
        with contextlib.redirect_stdout(io.StringIO()), contextlib.redirect_stderr(io.StringIO()):
            history(case, ctx, d)
    finally:
        os.chdir(cwd); shutil.rmtree(d)

def history(case, ctx, d):
    mem = {}; disk = {}; pre = []
    r = Real(case, d)
    s = None; restored = False
    for op in [["session", False]] + case["ops"]:
        if op[0] == "session":
            mem = dict(disk); nosave = op[1]
            for n, v, save in pre: mem[n] = str(v)
            n0 = dict(mem)
            r.session(pre, nosave); s = Session(case, mem)
            if any(it.excl is None and it.conf in n0 and it.k != "menu" for it in s.items): restored = True
            f = infile(os.path.join(d, "test.conf"))
            if nosave:
                if f != disk: ctx.fail("after %s: the file is %s, expected %s" % (op, f, disk))
            else:
                # whether a session that finds everything as it was writes is not specified
                for k in set(f) | set(n0):
                    if k not in f: ctx.fail("after %s: the file lost %s" % (op, k))
                    if strip(f[k]) not in (strip(n0.get(k)), strip(mem.get(k))):
                        ctx.fail("after %s: %s is %r in the file, expected %r" % (op, k, f[k], mem.get(k)))
                disk = f
            pre = []
        else:
            step(case, ctx, d, op, s, r, pre)
            f = infile(os.path.join(d, "test.conf"))
            if s.saved and not nosave: disk = dict(mem)
            if {k: strip(v) for k, v in f.items()} != {k: strip(v) for k, v in disk.items()}:
                ctx.fail("after %s: the file is %s, expected %s" % (op, f, disk))
        check_all(s, r, ctx, "after %s" % op)
    ctx.trivial(not restored)

def step(case, ctx, d, op, s, r, pre):
    s.saved = False
    every = s.items + [m for m in s.menus if m.d["toggle"]]
    if op[0] in ("set", "name", "str"):
        if not every: return
        it = every[op[1] % len(every)]
        o = r.items[it.path]
        if it.k in ("bool", "menu"): v = bool(op[2] % 2) or bool(it.excl)
        elif it.k == "file": v = ["x.a", "some dir/y.a", "/abs/z"][op[2] % 3]
        else:
            l = list(it.opts) + (CUSTOM[it.d["more"]] if it.d["more"] else ["illegal"])
            v = l[op[2] % len(l)]
            if isinstance(v, list): v = complex(*v)
            if v is None and op[0] == "str": pass
        name = it.conf
        if it.excl:
            if op[0] == "set" or not it.excl.sel: op = ["set"] + op[1:]
            else: name = it.excl.xconf; v = sym(it)
        if op[0] != "set" and it.k == "menu" and it.d["excl"] and not it.excl: v = bool(v)
        legal = True
        w = v
        try:
            if op[0] == "str":
                v = w = str(int(v)) if isinstance(v, bool) and it.k in ("bool", "menu") else text(v)
                if not it.excl: w = s.from_str(it, v)
            excl = s.set(it, w)
        except ValueError: legal = False
        try:
            if op[0] == "set": o.set_value(v, save=op[3])
            elif op[0] == "name": O.set_option(name, v, save=op[3], strict=True)
            else: O.set_option(name, v, save=op[3], strict=True, from_str=True)
            if not legal: ctx.fail("%s: accepted %r for %s" % (op, v, it.path))
            s.saved = op[3] or excl
        except ValueError:
            if legal: raise
            ctx.label("refused")
    elif op[0] == "pre":
        it = every[op[1] % len(every)] if every else None
        if it is None or not it.conf: return
        if it.k in ("bool", "menu"): v = ["0", "1", "true", "False", "maybe", "2"][op[2] % 6]
        elif it.k == "file": v = ["p.a", "bad.a"][op[2] % 2]
        else:
            l = [text(x) for x in it.opts] + ["5", "1.25", "word"]
            v = l[op[2] % len(l)]
        pre.append((it.conf, v, True))
    elif op[0] == "list":
        l = [it for it in s.items if it.k == "list"]
        if not l: return
        it = l[op[1] % len(l)]; o = r.items[it.path]
        cur = it.value; was = text(cur)
        it.opts = values(op[2])
        if not op[3]:
            o.set_option_list(real(op[2]), select=0)
            it.value = it.opts[0]
        else:
            o.set_option_list(real(op[2]))
            o2 = [text(x) for x in it.options()]
            if was in o2: it.value = it.options()[o2.index(was)]
            else:
                try: it.value = MORE[it.d["more"]](was) if it.d["more"] else it.opts[0]; self_adopt(it)
                except ValueError: it.value = it.opts[0]
        s.mem[it.conf] = text(it.value)
        # whether this is written to the file at once is not specified
        O.save_config(); s.saved = True
        op[0] = "list"
    elif op[0] == "export": export(s, r, ctx)

def self_adopt(it):
    if it.value not in it.opts: it.custom = it.value
