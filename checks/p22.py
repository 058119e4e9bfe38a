"""Containers against a pure value model: programs of accesses, insertions, removals, merges, copies and conversions."""
from vmeq import *
from hypothesis import strategies as st
import vfw, vdmi
from vdmi import clone, Obj, Reject, Unclear, DYN, NUM, SPECIAL, NAMES, elem, value

P = vfw.Property("P22",
    rule="a case is a program of up to 25 operations on 4 references to nested records, lists, vectors and arrays; non-trivial if at least two references "
         "to the same content existed when some content was modified, and at least three operations modified something",
    assumptions=["a copy is a reference without the SHARED flag", "an operation that is refused changes nothing"])
P.setup = lambda: vt.init(0, 1)
NSLOT = 4

def index(i):
    "the number that an id stands for, or None"
    return int(i) if i.isdigit() else None

def blankable(v):
    for i in range(len(v.v)): elem(v, i)

def child(c, i):
    "the object to which one id leads"
    if c.t == "rec":
        if i not in c.f or c.f[i] is None: raise Reject
        if i in c.prot: raise Unclear
        return c.f[i]
    n = index(i)
    if c.t == "list":
        if n is None or n >= len(c.v) or c.v[n] is None: raise Reject
        return c.v[n]
    if c.t == "vec":
        if not c.ty or n is None or n >= len(c.v) or c.ty not in DYN: raise Reject
        return elem(c, n)
    raise Unclear

def inner(o, ty):
    "a single element of the content of o, with an empty id"
    if o.t == "arr": raise Unclear
    if o.t != "vec" or not o.ty or o.ty in DYN: raise Reject
    if o.ty != ty and not (o.ty in NUM and ty in NUM): raise Reject
    if len(o.v) > 1: raise Unclear
    return o

def scalar(ty, v):
    return Obj({"t": "vec", "ty": ty, "sc": True, "v": [v]})

def arr_pos(c, i):
    ix = [index(x) for x in i.split(".")]
    if None in ix: raise Unclear
    if len(ix) != len(c.s): raise Unclear
    p = 0
    for k, n in zip(ix, c.s):
        if k >= n: raise Reject
        p = p * n + k
    return p

class Model:
    def __init__(self): self.s = [None] * 8; self.shared = [0] * 8; self.mods = 0; self.cow = False
    def at(self, s):
        if self.s[s] is None: raise Reject
        return self.s[s]
    def walk(self, s, path):
        c = self.at(s)
        if c.t == "arr" and len(path) > 1: raise Unclear
        for i in path[:-1]: c = child(c, i)
        return c, path[-1]
    def api(self, s, path, t, write):
        "the object of a type at a path"
        if not path:
            o = self.at(s)
            if o.t != t: raise Reject
            return o
        c, i = self.walk(s, path)
        if c.t == "arr": raise Unclear
        if c.t == "rec" and i in c.prot:
            if write: raise Reject
            o = c.f[i]
        else: o = child(c, i)
        if o.t == t: return o
        if o.t == "arr": raise Unclear
        if o.t == "vec" and o.ty in DYN and len(o.v) == 1 and elem(o, 0).t == t: return elem(o, 0)
        raise Reject
    def mod(self, s):
        self.mods += 1
        if self.shared[s]: self.cow = True
    def put_slot(self, d, o): self.s[d] = o
    def run(self, op):
        o, a = op[0], op[1]
        return getattr(self, "op_" + o)(a, *op[2:])
    # every method makes sure that the operation is allowed before it changes anything
    def op_new(self, d, spec): self.s[d] = vdmi.build(spec); self.shared[d] = 0
    def op_copy(self, d, s, fl, depth): self.s[d] = clone(self.s[s]); self.shared[d] = self.shared[s] = 1
    def op_priv(self, s, fl, depth): self.at(s)
    def op_xfer(self, d, s):
        if d != s: self.s[d], self.shared[d] = self.s[s], self.shared[s]; self.s[s] = None
    def op_clear(self, s): self.s[s] = None
    def op_ser(self, d, s, priv):
        o = clone(self.at(s)); unprotect(o); self.s[d] = o
    def op_fetch(self, d, s, path, const):
        c, i = self.walk(s, path)
        if c.t == "arr": raise Unclear
        if c.t == "rec":
            if i not in c.f: raise Reject
            r = c.f[i]
        else: r = child(c, i)
        self.s[d] = clone(r); self.shared[d] = 1; self.shared[s] = 1
    def op_put(self, s, path, src, replace, xfer):
        if src == s: raise Unclear
        c, i = self.walk(s, path); x = self.at(src)
        if c.t == "arr": raise Unclear
        n = index(i)
        v = clone(x)
        if c.t == "rec":
            if i in c.prot: raise Reject
            if i not in c.f: c.f[i] = v
            elif replace or c.f[i].type == v.type: c.f[i] = v
            else: self.into(c.f[i], v)
        elif c.t == "list":
            if n is None or n > len(c.v): raise Reject
            if n == len(c.v): c.v.append(v)
            elif replace or c.v[n].type == v.type: c.v[n] = v
            else: self.into(c.v[n], v)
        else:
            if not c.ty or n is None or n > len(c.v): raise Reject
            if c.ty != v.type:
                if n < len(c.v) and c.ty in DYN: self.into(elem(c, n), v); return self.done(s, src, xfer)
                raise Reject
            if n == len(c.v): c.v.append(v); c.sc = False
            else: c.v[n] = v
        self.done(s, src, xfer)
    def done(self, s, src, xfer):
        self.mod(s)
        if xfer: self.s[src] = None
        else: self.shared[src] = self.shared[s] = 1
    def into(self, o, v):
        "assignment to an element of another type is passed to its content"
        if o.t == "vec" and o.ty in DYN and len(o.v) == 1 and o.ty == v.type: o.v[0] = v; return
        raise Reject
    def op_set(self, s, path, ty, val, replace):
        c, i = self.walk(s, path)
        n = index(i); x = value(ty, val)
        if c.t == "arr":
            if replace: raise Unclear
            p = arr_pos(c, i)
            if not (c.ty == ty or c.ty in NUM and ty in NUM): raise Reject
            c.v[p] = value(c.ty, x)
        elif c.t in ("rec", "list"):
            if c.t == "rec":
                if i in c.prot: raise Reject
                new, old = i not in c.f, c.f.get(i)
            else:
                if n is None or n > len(c.v): raise Reject
                new = n == len(c.v); old = None if new else c.v[n]
            if new or replace:
                if c.t == "rec": c.f[i] = scalar(ty, x)
                elif new: c.v.append(scalar(ty, x))
                else: c.v[n] = scalar(ty, x)
            else:
                e = inner(old, ty); e.v[0] = value(e.ty, x)
        else:
            if not c.ty or n is None or n > len(c.v): raise Reject
            if c.ty in DYN:
                if n == len(c.v): raise Reject
                e = inner(elem(c, n), ty); e.v[0] = value(e.ty, x)
            else:
                ok = c.ty == ty or c.ty in NUM and ty in NUM
                if not ok: raise Reject
                if n == len(c.v): c.v.append(value(c.ty, x)); c.sc = False
                else: c.v[n] = value(c.ty, x)
        self.mod(s)
    def op_setvec(self, s, path, ty, vals, replace):
        c, i = self.walk(s, path); n = index(i)
        if c.t not in ("rec", "list"): raise Unclear
        new = (Obj({"t": "arr", "ty": ty, "s": [len(vals)], "v": vals}) if ty != "HIID" else
               Obj({"t": "vec", "ty": ty, "sc": False, "v": vals}))
        if c.t == "rec":
            if i in c.prot: raise Reject
            old = c.f.get(i)
            if i not in c.f or replace: c.f[i] = new; return self.mod(s)
        else:
            if n is None or n > len(c.v): raise Reject
            if n == len(c.v): c.v.append(new); return self.mod(s)
            old = c.v[n]
            if replace: c.v[n] = new; return self.mod(s)
        if old.t == "arr":
            if ty == "HIID": raise Unclear
            if old.ty != ty or len(old.s) != 1 or old.s[0] != len(vals): raise Reject if old.ty == ty and len(old.s) == 1 else Unclear
            old.v = [value(ty, x) for x in vals]
        elif old.t == "vec":
            if old.ty != ty or len(old.v) != len(vals): raise Reject
            old.v = [value(ty, x) for x in vals]
        else: raise Reject
        self.mod(s)
    def target(self, s, path, ty):
        "the list and position of an existing element"
        c, i = self.walk(s, path); n = index(i)
        if c.t == "arr": return c, arr_pos(c, i)
        if c.t == "vec" and c.ty and c.ty not in DYN:
            if n is None or n >= len(c.v): raise Reject
            return c, n
        if c.t == "rec" and i in c.f: o = c.f[i]
        else: o = child(c, i)
        if o.t == "arr": raise Unclear
        if o.t != "vec" or not o.ty or o.ty in DYN: raise Reject
        return o, None
    def op_setview(self, s, path, ty, val):
        c, i = self.walk(s, path)
        if c.t == "rec" and i in c.prot: raise Reject
        e, n = self.target(s, path, ty)
        if e.ty != ty or n is None and len(e.v) > 1: raise Reject
        e.v[n or 0] = value(ty, val); self.mod(s)
    def op_as(self, s, path, ty):
        e, n = self.target(s, path, ty)
        if ty in NUM:
            if e.ty not in NUM: raise Reject
            if n is None and len(e.v) > 1: raise Unclear
        elif e.ty != ty or n is None and len(e.v) > 1: raise Reject
        return value(ty, e.v[n or 0])
    def op_asdef(self, s, path, ty, val):
        c, i = self.walk(s, path); n = index(i)
        if c.t == "rec" and i not in c.f or c.t in ("list", "vec") and n == len(c.v) and (c.t == "list" or c.ty): return value(ty, val)
        return self.op_as(s, path, ty)
    def op_info(self, s, path):
        c, i = self.walk(s, path); n = index(i)
        if c.t == "arr": raise Unclear
        if c.t == "rec" and i not in c.f: return [0, "", 0]
        if c.t != "rec":
            if c.t == "vec" and not c.ty or n is None or n > len(c.v): raise Reject
            if n == len(c.v): return [0, "", 0]
        if c.t == "vec" and c.ty not in DYN: return [1, c.ty, 1]
        o = c.f[i] if c.t == "rec" else child(c, i)
        if o.t == "arr" or o.t == "vec" and not o.ty: raise Unclear
        if o.t == "vec" and o.sc and o.ty in DYN: raise Unclear
        return [1, o.ty if o.t == "vec" else o.type, len(o.f) if o.t == "rec" else len(o.v)]
    def op_remove(self, s, path, dst):
        c, i = self.walk(s, path); n = index(i); r = None
        if c.t == "arr": raise Unclear
        if c.t == "rec":
            if i in c.prot: raise Reject
            r = c.f.pop(i, None)
        else:
            if c.t == "vec" and not c.ty or n is None or n >= len(c.v): raise Reject
            if c.t == "vec":
                if n != len(c.v) - 1 or n == 0: raise Reject
                r = elem(c, n) if c.ty in DYN else None
                c.v.pop(); c.sc = c.sc and len(c.v) == 1
            else: r = c.v.pop(n)
        self.mod(s)
        if dst >= 0: self.s[dst] = r
    def op_radd(self, s, path, i, src, how, xfer, prot):
        r = self.api(s, path, "rec", True); x = self.s[src]
        if x is None or src == s: raise Unclear
        if i in r.f and (i in r.prot or how in ("add", "insert")): raise Reject
        r.f[i] = clone(x); r.prot.discard(i)
        if prot: r.prot.add(i)
        self.done(s, src, xfer)
    def op_rremove(self, s, path, i, ignore, dst):
        r = self.api(s, path, "rec", True)
        if i in r.prot: raise Reject
        if i not in r.f and not ignore: raise Reject
        x = r.f.pop(i, None); self.mod(s); self.s[dst] = x
    def op_rget(self, s, path, i, ignore, dst):
        r = self.api(s, path, "rec", False)
        if i not in r.f and not ignore: raise Reject
        self.s[dst] = clone(r.f.get(i)); self.shared[dst] = self.shared[s] = 1
    def op_rmerge(self, s, path, src, overwrite):
        o = self.at(src)
        if o.t != "rec": raise Reject
        r = self.api(s, path, "rec", True)
        if src == s: raise Unclear
        if overwrite and any(k in r.prot for k in o.f): raise Unclear
        for k, x in o.f.items():
            if k in r.f and not overwrite: continue
            r.f[k] = clone(x); r.prot.discard(k)
            if k in o.prot: r.prot.add(k)
        self.mod(s); self.shared[src] = self.shared[s] = 1
    def op_rprot(self, s, path, i, on):
        r = self.api(s, path, "rec", True)
        if i not in r.f: raise Reject
        (r.prot.add if on else r.prot.discard)(i)
    def op_rnum(self, s, path):
        return [vdmi.dump(x) for x in self.api(s, path, "rec", False).f.values()]
    def pos(self, l, n, inserting):
        size = len(l.v)
        k = n if n >= 0 else n + size + (1 if inserting else 0)
        if k < 0 or k > size or k == size and not inserting: raise Reject
        return k
    def op_lput(self, s, path, n, src, how, xfer):
        l = self.api(s, path, "list", True); x = self.s[src]
        if x is None or src == s: raise Unclear
        if how == "front": n = 0
        if how == "back": n = -1
        k = self.pos(l, n, how != "replace")
        if how == "replace": l.v[k] = clone(x)
        else: l.v.insert(k, clone(x))
        self.done(s, src, xfer)
    def op_lremove(self, s, path, n, dst):
        l = self.api(s, path, "list", True); x = l.v.pop(self.pos(l, n, False)); self.mod(s); self.s[dst] = x
    def op_lget(self, s, path, n, dst):
        l = self.api(s, path, "list", False)
        self.s[dst] = clone(l.v[self.pos(l, n, False)]); self.shared[dst] = self.shared[s] = 1
    def op_lappend(self, s, path, src):
        if src == s: raise Unclear
        l = self.api(s, path, "list", True)
        o = l if src < 0 else self.at(src)
        if o.t != "list": raise Reject
        l.v += clone(o.v); self.mod(s)
    def op_vput(self, s, path, n, src, xfer):
        v = self.api(s, path, "vec", True); x = self.s[src]
        if x is None or src == s: raise Unclear
        if not v.ty:
            if n: raise Reject
            v.ty, v.sc, v.v = x.type, False, [clone(x)]
        else:
            if v.ty != x.type or n < 0 or n > len(v.v): raise Reject
            if n == len(v.v): v.v.append(None); v.sc = False
            v.v[n] = clone(x)
        self.done(s, src, xfer)
    def op_vget(self, s, path, n, dst):
        v = self.api(s, path, "vec", False)
        if not v.ty or n < 0 or n >= len(v.v): raise Reject
        self.s[dst] = clone(elem(v, n)) if v.ty in DYN else None
        self.shared[dst] = self.shared[s] = 1
    def op_vresize(self, s, path, n):
        v = self.api(s, path, "vec", True)
        if n <= 0 or not v.ty: raise Reject
        if n > len(v.v) and v.ty in NUM: raise Unclear       # new numbers have no defined value
        v.v = (v.v + [vdmi.default(v.ty) for _ in range(n)])[:n]
        if n > 1: v.sc = False
        self.mod(s)

def unprotect(o):
    if o is None: return
    if o.t == "rec":
        o.prot = set()
        for x in o.f.values(): unprotect(x)
    elif o.t == "list" or o.t == "vec" and o.ty in DYN:
        for x in o.v: unprotect(x)

# --- programs
slots = st.integers(0, NSLOT - 1)
words = st.sampled_from(NAMES + ["0", "1", "2"])
flag = st.integers(0, 3)

@st.composite
def paths(draw, root, minlen=1, want=None):
    "an id sequence, usually leading to existing content"
    path = []; o = root
    for _ in range(4):
        if o is None or draw(st.integers(0, 24)) == 0: path.append(draw(words)); break
        if want and o.t == want and len(path) >= minlen: break
        if o.t == "rec":
            k = sorted(o.f)
            if not k or draw(st.integers(0, 4)) == 0: path.append(draw(words)); break
            k = draw(st.sampled_from(k)); path.append(k); o = o.f[k]
        elif o.t == "arr":
            path.append(".".join(str(draw(st.integers(0, n if draw(st.integers(0, 9)) == 0 else n - 1))) for n in o.s)); break
        else:
            n = len(o.v)
            i = draw(st.integers(0, n)); path.append(str(i))
            if i >= n or o.t == "vec" and o.ty not in DYN: break
            o = elem(o, i) if o.t == "vec" else o.v[i]
        if not want and draw(st.integers(0, 3)) == 0 and len(path) >= minlen: break
    if want is not None and not minlen and draw(st.integers(0, 9)) == 0: path = path[:1]
    return path

CONT = ("rec", "rec", "list", "ovec")

@st.composite
def programs(draw):
    m = Model(); ops = []
    for step in range(draw(st.integers(8, 25))):
        live = [i for i in range(NSLOT) if m.s[i] is not None]
        if step < 2 or not live or draw(st.integers(0, 19)) == 0:
            op = ["new", draw(slots) if live else 0, draw(vdmi.objs(depth=2, kinds=CONT if step < 2 else None))]
        else:
            s = draw(st.sampled_from(live)) if draw(st.integers(0, 24)) else draw(slots)
            src = draw(st.sampled_from(live)); d = draw(slots); o = m.s[s]
            if src == s: src = draw(st.sampled_from(live))
            if d == s: d = (s + 1) % NSLOT
            k = draw(st.sampled_from(["copy", "copy", "priv", "xfer", "ser", "fetch", "fetch", "put", "put", "put", "set", "set", "set", "setvec", "setview",
                                      "as", "asdef", "info", "remove", "remove", "api", "api", "api", "api"]))
            if k == "copy": op = ["copy", d, s, draw(st.sampled_from([0, 0, 1, 4, 0x1000])), draw(st.integers(0, 2))]
            elif k == "priv": op = ["priv", s, draw(st.sampled_from([0, 0x1000])), draw(st.integers(0, 2))]
            elif k == "xfer": op = ["xfer", d, s]
            elif k == "ser": op = ["ser", d, s, draw(st.integers(0, 2))]
            elif k == "fetch": op = ["fetch", d, s, draw(paths(o)), draw(st.integers(0, 1))]
            elif k == "put": op = ["put", s, draw(paths(o)), src, int(draw(flag) == 0), int(draw(flag) == 0)]
            elif k == "remove": op = ["remove", s, draw(paths(o)), draw(st.integers(-1, NSLOT - 1))]
            elif k == "info": op = ["info", s, draw(paths(o))]
            elif k == "setvec":
                ty = draw(st.sampled_from(["int", "double", "HIID"]))
                op = ["setvec", s, draw(paths(o)), ty, draw(st.lists(vdmi.scalars(ty), min_size=1, max_size=3)), int(draw(flag) <= 1)]
            elif k in ("set", "setview", "as", "asdef"):
                ty = draw(st.sampled_from(NUM + SPECIAL)); path = draw(paths(o))
                if k == "set": op = [k, s, path, ty, draw(vdmi.scalars(ty)), int(draw(flag) == 0)]
                else:
                    try: t = m.target(s, path, ty)[0].ty
                    except (Reject, Unclear): t = ty
                    if draw(st.integers(0, 3)): ty = t
                    op = [k, s, path, ty] + ([] if k == "as" else [draw(vdmi.scalars(ty))])
            else:
                t = draw(st.sampled_from(["rec", "rec", "list", "vec"]))
                path = draw(paths(o, 0, t))
                try: x = m.api(s, path, t, False)
                except (Reject, Unclear): x = None
                if t == "rec":
                    i = draw(st.sampled_from(sorted(x.f))) if x is not None and x.f and draw(st.booleans()) else draw(words)
                    w = draw(st.integers(0, 6))
                    op = (["radd", s, path, i, src, draw(st.sampled_from(["add", "addrep", "insert", "replace"])), int(draw(flag) == 0), int(draw(flag) == 0)] if w <= 1 else
                          ["rremove", s, path, i, draw(st.integers(0, 1)), d] if w == 2 else ["rget", s, path, i, draw(st.integers(0, 1)), d] if w == 3 else
                          ["rmerge", s, path, src, draw(st.integers(0, 1))] if w == 4 else ["rprot", s, path, i, draw(st.integers(0, 1))] if w == 5 else ["rnum", s, path])
                elif t == "list":
                    n = len(x.v) if x is not None else 1
                    k = draw(st.integers(-n - 2, n + 1)); w = draw(st.integers(0, 4))
                    op = (["lput", s, path, k, src, draw(st.sampled_from(["put", "insert", "replace", "front", "back"])), int(draw(flag) == 0)] if w <= 1 else
                          ["lremove", s, path, k, d] if w == 2 else ["lget", s, path, k, d] if w == 3 else
                          ["lappend", s, path, draw(st.sampled_from([-1, src, src]))])
                else:
                    n = len(x.v) if x is not None else 1
                    k = draw(st.integers(-1, n + 1)); w = draw(st.integers(0, 2))
                    op = (["vput", s, path, k, src, int(draw(flag) == 0)] if w == 0 else ["vget", s, path, k, d] if w == 1 else
                          ["vresize", s, path, draw(st.integers(0, n + 2))])
        if execute(m, op) is None: continue
        if sum(size(x) for x in m.s) > 400: break
        ops.append(op)
    return dict(ops=ops)

def size(o):
    if o is None: return 0
    if o.t == "rec": return 1 + sum(size(x) for x in o.f.values())
    if o.t == "list" or o.t == "vec" and o.ty in DYN: return 1 + sum(size(x) for x in o.v)
    return 1 + len(o.v)

def execute(m, op):
    "runs an operation on the model; None if nothing is claimed about it"
    try: return ("ok", m.run(op))
    except Reject: return ("err", None)
    except Unclear: return None

@P.check("programs", programs(), quick=14000, thorough=250000, shards=7)
def run(case, ctx):
    m = Model(); ops = []; exp = []
    for op in case["ops"]:
        r = execute(m, op)
        if r is None: continue
        ops.append(op); exp.append(r)
        ctx.label(op[0] + (":refused" if r[0] == "err" else ""))
    ctx.trivial(not m.cow or m.mods < 3)
    res, state = vt.dmi_prog(ops)
    for op, r, e in zip(ops, res, exp):
        if r[0] != e[0]: return ctx.fail("%s: %s, expected %s" % (op, r, e))
        if r[0] == "ok" and e[1] is not None:
            a, b = vdmi.norm(r[1]), vdmi.norm(e[1])
            if op[0] == "rnum": a, b = sorted(map(repr, a)), sorted(map(repr, b))
            if op[0] == "info": a, b = a[:1] + a[1:], b
            if a != b: return ctx.fail("%s: read %r, expected %r" % (op, a, b))
    for i, (a, b) in enumerate(zip(state, m.s)):
        a, b = vdmi.norm(a), vdmi.norm(vdmi.dump(b))
        if a != b: return ctx.fail("reference %d: %r, expected %r" % (i, a, b))
