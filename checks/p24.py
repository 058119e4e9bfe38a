"""Hierarchical ids against tuples of atoms."""
from vmeq import *
from hypothesis import strategies as st
import vfw, sys

P = vfw.Property("P24",
    rule="a case is a pair of ids, a program of up to 8 in-place operations on an id, or a text of up to 7 components; non-trivial if an id "
         "with two or more atoms is involved",
    assumptions=["empty components and ids that begin or end with a slash or colon have no text of their own: texts are built from non-empty components",
                 "sub-ids are asked for with a first and a last element inside the id, or last before first"])
P.setup = lambda: vt.init(0, 1)

ANY, WILD, SLASH, RANGE, EMPTY, HASH = -1, -2, -3, -4, -5, -6
NAMES = ["A", "Value", "Node", "Class", "Cells", "Domain", "Dep", "ev", "Command", "Result", "Request", "Vells", "B", "C", "X", "Y", "Name"]
def reg(names): return [n if isinstance(n, int) else vt.atom(n) for n in names]
atom = st.one_of(st.sampled_from([0, 0, 1, 2, 7, 2**31 - 70000]), st.sampled_from(NAMES[:4]), st.sampled_from(NAMES), st.sampled_from([ANY, WILD, WILD, SLASH, RANGE, HASH, EMPTY]),
                 st.integers(-700, 40))
ids = st.one_of(st.lists(atom, max_size=6), st.lists(atom, max_size=40))

@st.composite
def pairs(draw):
    a = draw(ids)
    m = draw(st.integers(0, 5))
    if m == 0: b = draw(ids)
    elif m == 1: b = list(a)
    elif m == 2: b = a[:draw(st.integers(0, len(a)))]
    elif m == 3: b = a[:draw(st.integers(0, len(a)))] + [WILD]
    else:
        b = list(a)
        for _ in range(draw(st.integers(1, 3))):
            if b: b[draw(st.integers(0, len(b) - 1))] = draw(st.one_of(st.just(ANY), atom))
        if draw(st.booleans()): b = b + draw(st.lists(atom, max_size=2))
    return dict(a=a, b=b, swap=draw(st.booleans()))

def matches(a, b):
    for x, y in zip(a, b):
        if WILD in (x, y): return True
        if ANY not in (x, y) and x != y: return False
    if len(a) == len(b): return True
    return (a + b)[0] is not None and (a[len(b)] if len(a) > len(b) else b[len(a)]) == WILD

def wrap(l): return dict(a=l)

def cut(a): return (a[:a.index(WILD)], True) if WILD in a else (a, False)

def subset(a, b):
    """everything that a stands for, b stands for too"""
    (a, ao), (b, bo) = cut(a), cut(b)
    if ao and not bo: return False
    if len(a) < len(b) or (not bo and len(a) != len(b)): return False
    return all(y == ANY or x == y for x, y in zip(a, b))

@P.check("pairs", pairs(), quick=30000, thorough=2000000, shards=8)
def pair(case, ctx):
    a, b = reg(case["a"]), reg(case["b"])
    if case["swap"]: a, b = b, a
    g = vt.hiid_pair(a, b)
    want = dict(eq=a == b, ne=a != b, lt=a < b, gt=a > b, matches=matches(a, b), rmatches=matches(a, b), subset=a == b or subset(a, b),
                prefixed=matches(a, b + [WILD]), cat=a + b, cat2=a + b, self=a + a, packed=a, nleft=0, np=4 * len(a),
                slash=a.index(SLASH) if SLASH in a else -1)
    if a == b: want["matches"] = want["rmatches"] = True
    for k in want:
        if (bool(g[k]) if isinstance(want[k], bool) else g[k]) != want[k]: ctx.fail("%s of %s and %s is %s, expected %s" % (k, a, b, g[k], want[k]))
    ctx.label("matching" if want["matches"] else "different", *[k for k in ("subset", "prefixed", "eq") if want[k]])
    # the python class does the same
    if all(-2**31 <= x < 2**31 for x in a + b):
        h, k = dmi.hiid(a), dmi.hiid(b)
        if tuple(h + k) != tuple(a + b) or not isinstance(h + k, dmi.hiid): ctx.fail("python: sum of %s and %s is %r" % (a, b, h + k))
        if bool(h.matches(k)) != want["matches"]: ctx.fail("python: match of %s and %s is %s" % (a, b, h.matches(k)))
        if (h == k) != want["eq"]: ctx.fail("python: equality")
        if h.startswith(k) != (a[:len(b)] == b): ctx.fail("python: %s starts with %s: %s" % (a, b, h.startswith(k)))
    ctx.trivial(len(a) < 2 or len(b) < 2)

@st.composite
def progs(draw):
    ops = []
    for _ in range(draw(st.integers(1, 8))):
        op = draw(st.sampled_from(["sub", "sub", "subset", "popf", "pushf", "add", "leadidx", "trailidx", "slashes", "split", "resize", "prefix"]))
        ops.append([op, draw(st.integers(-8, 20)), draw(atom) if op not in ("sub", "subset") else draw(st.integers(-8, 8))])
    return dict(a=draw(ids), ops=ops)

@P.check("programs", progs(), quick=15000, thorough=1500000, shards=8)
def prog(case, ctx):
    a = reg(case["a"])
    ops, want = [], []
    cur = list(a)
    for op, x, y in case["ops"]:
        ret = None
        if isinstance(y, str): y = vt.atom(y)
        if op in ("sub", "subset"):
            n = len(cur)
            if n == 0: continue
            # the first and last element, counted from the end if negative
            x = x % n if x >= 0 else -(-x % n) or -n
            y = y % n if y >= 0 else -(-y % n) or -1
            i, j = (x if x >= 0 else n + x), (y if y >= 0 else n + y)
            r = cur[i:j + 1]
            if op == "sub": ret = r
            else: cur = r
        elif op == "popf": x = abs(x); cur = cur[x:]
        elif op == "pushf": x = abs(x) % 20; cur = [y] * x + cur
        elif op == "add": cur = cur + [y]
        elif op == "prefix": cur = [y] + cur
        elif op == "leadidx": ret, cur = (cur[0], cur[1:]) if cur and cur[0] >= 0 else (0, cur)
        elif op == "trailidx": ret, cur = (cur[-1], cur[:-1]) if cur and cur[-1] >= 0 else (0, cur)
        elif op == "slashes":
            k = 0
            while k < len(cur) and cur[k] == SLASH: k += 1
            ret, cur = k, cur[k:]
        elif op == "split":
            k = cur.index(SLASH) if SLASH in cur else len(cur)
            ret, cur = cur[:k], cur[k + 1:]
        elif op == "resize":
            x = abs(x)
            cur = (cur + [y] * x)[:x] if x > len(cur) else cur[:x]
        ops.append((op, x, y)); want.append((list(cur), ret))
    got = vt.hiid_prog(a, ops)
    prev = a
    for o, g, w in zip(ops, got, want):
        if list(g[0]) != w[0] or g[1] != w[1]: ctx.fail("%s of %s gives %s and returns %s, expected %s and %s" % (o, prev, g[0], g[1], w[0], w[1]))
        prev = g[0]
    ctx.label(*[o[0] for o in ops])
    ctx.trivial(len(a) < 2)

# ---- text -------------------------------------------------------------------------------------
@st.composite
def texts(draw):
    comps, seps = [], []
    for i in range(draw(st.integers(1, 7))):
        t = draw(st.integers(0, 9))
        if t < 4: c = ["n", draw(st.sampled_from(NAMES)), draw(st.integers(0, 2))]
        elif t < 6: c = ["i", draw(st.one_of(st.integers(0, 30), st.integers(0, 2**31 - 1), st.integers(2**31 - 70000, 2**31 + 10), st.integers(0, 2**70)))]
        elif t == 6: c = ["w", draw(st.sampled_from("?*#"))]
        elif t < 9: c = ["l", draw(st.text(alphabet="abzZ019-+ $", max_size=9))]
        else: c = ["u", draw(st.text(alphabet="qQ", min_size=5, max_size=12))]
        comps.append(c)
        seps.append(draw(st.sampled_from("...__/:")))
    return dict(comps=comps, seps=seps[:-1], lit=draw(st.booleans()))

def case_of(s, k): return [s, s.lower(), s.upper()][k]

@P.check("text", texts(), quick=20000, thorough=1000000, shards=8)
def text(case, ctx):
    s, canon, bad, lit = "", "", False, case["lit"]
    seps = case["seps"] + [""]
    for c, sep in zip(case["comps"], seps):
        if c[0] == "n": x = case_of(c[1], c[2]); y = vt.atom_name(vt.atom(c[1]))
        elif c[0] == "i": x = str(c[1]); y = x
        elif c[0] == "w": x = y = c[1]
        elif c[0] == "l": x = "$" + c[1]; y = x.lower()
        else:
            x = c[1]; y = "$" + x.lower()
        s += x + sep
        canon += y + ({"_": "."}.get(sep, sep))
    big = any(c[0] == "i" and c[1] > 2**31 - 1 for c in case["comps"])
    hazy = any(c[0] == "i" and 2**31 - 70000 <= c[1] for c in case["comps"])     # may be refused, or kept as text
    # an unknown name is kept as text, where this is allowed; else it is refused
    strict_unknown = any(c[0] == "u" for c in case["comps"])
    first_lit = next((i for i, c in enumerate(case["comps"]) if c[0] == "l"), 99)
    first_unk = next((i for i, c in enumerate(case["comps"]) if c[0] == "u"), 99)
    try: ints = vt.hiid_parse(s, int(lit), "._")
    except vt.Error as e:
        if hazy: ctx.label("number refused"); return
        if strict_unknown and not lit and "Unknown" in str(e): ctx.label("unknown refused"); return
        ctx.fail("text '%s' refused: %s" % (s, e))
    if strict_unknown and not lit and first_unk < first_lit: ctx.fail("unknown name accepted in '%s'" % s)
    t = vt.hiid_str(ints, ".", 1)
    if hazy: t2 = canon = t
    if t != canon: ctx.fail("'%s' became %s and then '%s', expected '%s'" % (s, ints, t, canon))
    back = vt.hiid_parse(t, 1, "._")
    if back != ints: ctx.fail("'%s' became %s and then '%s', which is %s" % (s, ints, t, back))
    if hazy:   # a number is not to become another one
        for c in case["comps"]:
            if c[0] == "i" and str(c[1]) not in t: ctx.fail("'%s' became '%s'" % (s, t))
    h = dmi.hiid(s) if lit else dmi.hiid(ints)
    if list(h) != list(ints): ctx.fail("python: '%s' is %s, expected %s" % (s, list(h), ints))
    if dmi.hiid(str(h)) != h: ctx.fail("python: %s becomes '%s' and then %s" % (list(h), str(h), list(dmi.hiid(str(h)))))
    ctx.label(*set(c[0] for c in case["comps"]))
    ctx.trivial(len(case["comps"]) < 2)

# ---- atoms --------------------------------------------------------------------------------------
@P.check("atoms", st.lists(st.integers(-1500, 3000), min_size=10, max_size=40).map(wrap), quick=1000, thorough=30000, shards=4)
def atoms(case, ctx):
    for i in case["a"]:
        n = vt.atom_name(i)
        if i >= 0:
            if n != str(i) or vt.atom(n) != i: ctx.fail("index %d has name '%s' which is %s" % (i, n, vt.atom(n)))
        elif not n.startswith("["):
            for m in (n, n.lower(), n.upper()):
                if vt.atom(m) != i: ctx.fail("atom %d has name '%s' which is %s" % (i, m, vt.atom(m)), key="atom %d named %s" % (i, n))

# ids as arbitrary integers, as these may come from anywhere
@P.check("hostile", st.lists(st.one_of(st.integers(-7, 40), st.integers(-2**31, 2**31 - 1), st.integers(2**31 - 65536, 2**31 - 1)), max_size=6).map(wrap), quick=8000, thorough=500000, shards=8)
def hostile(case, ctx):
    a = case["a"]
    for sep in "._":
        for mark in (0, 1): vt.hiid_str(a, sep, mark)
    str(dmi.hiid(a))
    ctx.trivial(not a)
