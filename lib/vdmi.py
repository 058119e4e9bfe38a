"""Specs of DMI objects, and a pure value model of the containers.

A spec is None, {"t":"rec","f":[[name,spec],...]}, {"t":"list","v":[...]},
{"t":"vec","ty","sc","v"} or {"t":"arr","ty","s","v"}.  A model object is a class below;
copies of it are complete copies: no object ever influences another one."""
import hypothesis.strategies as st
NUM = ["bool","int","long","short","float","double","fcomplex","dcomplex"]
ARRTYPES = ["bool","int","float","double","fcomplex","dcomplex"]
SPECIAL = ["string","HIID"]
DYN = {"DMIRecord":"rec","DMIList":"list","DMINumArray":"arr","DMIVec":"vec"}
TYPE = {v:k for k,v in DYN.items()}
NAMES = ["Value","Name","Node","Value.Name","Index.1","7","Freq.Node.Id"]

class Reject(Exception): "the operation has to be refused"
class Unclear(Exception): "no claim is made about this operation"

class Obj:
    def __init__ (self,spec):
        self.t = spec["t"]
        if self.t == "rec": self.f = {k:build(x) for k,x in spec["f"]}; self.prot = set()
        elif self.t == "list": self.v = [build(x) for x in spec["v"]]
        elif self.t == "vec":
            self.ty = spec["ty"]; self.sc = spec["sc"]
            self.v = [build(x) for x in spec["v"]] if self.ty in DYN else [value(self.ty,x) for x in spec["v"]]
            if not self.v: self.v = [default(self.ty)]
        else: self.ty = spec["ty"]; self.s = list(spec["s"]); self.v = [value(self.ty,x) for x in spec["v"]]
    @property
    def type (self): return TYPE[self.t]

def clone (o):
    "a complete copy"
    if o is None: return None
    if isinstance(o,list): return [clone(x) for x in o]
    n = Obj.__new__(Obj); n.t = o.t
    if o.t == "rec": n.f = {k:clone(x) for k,x in o.f.items()}; n.prot = set(o.prot)
    elif o.t == "list": n.v = [clone(x) for x in o.v]
    elif o.t == "vec":
        n.ty, n.sc = o.ty, o.sc
        n.v = [clone(x) for x in o.v] if o.ty in DYN else list(o.v)
    else: n.ty, n.s, n.v = o.ty, list(o.s), list(o.v)
    return n
def build (spec): return None if spec is None else Obj(spec)
def blank (ty):
    if ty == "DMIVec": o = Obj.__new__(Obj); o.t="vec"; o.ty=""; o.sc=True; o.v=[]; return o
    if ty == "DMINumArray": return Obj({"t":"arr","ty":"","s":[],"v":[]})
    return Obj({"t":DYN[ty],"f":[],"v":[]})
def default (ty):
    if ty in DYN: return None
    if ty == "string": return ""
    if ty == "HIID": return []
    return value(ty,0)
def num (v):
    if isinstance(v,complex): return v
    return complex(*v) if isinstance(v,(list,tuple)) else v
def value (ty,v):
    if ty in SPECIAL: return v
    v = num(v)
    if ty in ("fcomplex","dcomplex"): return complex(v)
    if isinstance(v,complex): v = v.real
    if ty == "bool": return int(bool(v))
    return float(v) if ty in ("float","double") else int(v)

def dump (o):
    if o is None: return None
    if o.t == "rec": return ("rec",sorted(((k,dump(x)) for k,x in o.f.items()),key=lambda e:e[0]))
    if o.t == "list": return ("list",[dump(x) for x in o.v])
    if o.t == "arr": return ("arr",o.ty,tuple(o.s) if o.ty else None,list(o.v))
    if not o.ty: return ("vec","",None,[])
    return ("vec",o.ty,o.sc,[dump(elem(o,i)) for i in range(len(o.v))] if o.ty in DYN else list(o.v))
def elem (o,i):
    "element of a vector of objects: created when first looked at"
    if o.v[i] is None: o.v[i] = blank(o.ty)
    return o.v[i]
def norm (d):
    "dumps with comparable containers"
    if isinstance(d,(list,tuple)): return [norm(x) for x in d]
    return d

# --- strategies
def scalars (ty):
    if ty == "string": return st.sampled_from(["","x","abc","a longer string, really","\xe9\xff"])
    if ty == "HIID": return st.lists(st.integers(0,5),max_size=3)
    if ty in ("fcomplex","dcomplex"): return st.tuples(st.integers(0,9),st.integers(0,9))
    if ty == "bool": return st.integers(0,1)
    return st.integers(0,90)
@st.composite
def vecs (draw,types=tuple(NUM+SPECIAL)):
    ty = draw(st.sampled_from(types)); sc = draw(st.booleans())
    n = 1 if sc else draw(st.integers(1,4))
    return {"t":"vec","ty":ty,"sc":sc,"v":[draw(scalars(ty)) for _ in range(n)]}
EMPTY_AXES = False      # set by checks that want arrays without elements
@st.composite
def arrs (draw):
    ty = draw(st.sampled_from(ARRTYPES)); s = draw(st.lists(st.integers(0 if EMPTY_AXES and draw(st.integers(0,7)) == 0 else 1,3),min_size=1,max_size=3))
    n = 1
    for x in s: n *= x
    return {"t":"arr","ty":ty,"s":s,"v":[draw(scalars(ty)) for _ in range(n)]}
@st.composite
def objs (draw,depth=2,names=tuple(NAMES),nulls=False,kinds=None):
    k = draw(st.sampled_from(kinds if kinds else ["vec","arr"] if depth <= 0 else ["rec","rec","list","list","vec","arr","ovec"]))
    if nulls and draw(st.integers(0,19)) == 0: return None
    if k == "vec": return draw(vecs())
    if k == "arr": return draw(arrs())
    if k == "rec":
        keys = draw(st.lists(st.sampled_from(names),unique=True,max_size=3))
        return {"t":"rec","f":[[x,draw(objs(depth-1,names,nulls))] for x in keys]}
    if k == "list": return {"t":"list","v":[draw(objs(depth-1,names,nulls)) for _ in range(draw(st.integers(0,3)))]}
    ty = draw(st.sampled_from(["DMIRecord","DMIRecord","DMIList","DMINumArray","DMIVec"]))
    sc = draw(st.booleans()); n = 1 if sc else draw(st.integers(1,3))
    return {"t":"vec","ty":ty,"sc":sc,"v":[draw(typed(ty,depth-1,names)) if draw(st.integers(0,5)) else None for _ in range(n)]}
@st.composite
def typed (draw,ty,depth,names):
    if ty == "DMIVec": return draw(vecs())
    if ty == "DMINumArray": return draw(arrs())
    if ty == "DMIRecord":
        keys = draw(st.lists(st.sampled_from(names),unique=True,max_size=2))
        return {"t":"rec","f":[[x,draw(objs(depth-1,names))] for x in keys]}
    return {"t":"list","v":[draw(objs(depth-1,names)) for _ in range(draw(st.integers(0,2)))]}
