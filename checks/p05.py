"""Request ids against tuples of 16 components."""
from vmeq import *
from hypothesis import strategies as st
import vfw

P = vfw.Property("P05",
    rule="a case is a program of up to 10 operations on three request ids, a history of symbolic dependencies, or ids made by the Python layer; "
         "non-trivial if a mask selects some but not all of the components of an id",
    assumptions=["masks are 0 to 65535: an id has at most 16 components that a mask can address", "components raised are numbers below 2^31-1",
                 "an empty id equals no other under a non-empty mask, as documented; masking with 0 gives the id 0"])
P.setup = lambda: vt.init(0, 1)
BITS = 16
NAMED = ["ev", "e1", "e2", "ds", "pu"]
comp = st.one_of(st.integers(0, 3), st.integers(0, 3), st.integers(0, 2000000000))
@st.composite
def ids(draw):
    a = draw(st.lists(comp, max_size=draw(st.sampled_from([6, 6, 18]))))
    if a and draw(st.booleans()): a[0] = draw(st.sampled_from(NAMED))
    return a
masks = st.one_of(st.integers(0, 63), st.integers(0, 15).map((1).__lshift__), st.integers(0, 65535), st.just(0))
OPS = ["mask", "incr", "set", "maskc", "incrc", "setc", "cmp", "cmp", "diff", "text", "mode", "type", "req", "reqtype"]

@st.composite
def progs(draw):
    base = draw(ids())
    regs = [base]
    for _ in range(2):
        if draw(st.booleans()):
            r = list(base)[:draw(st.integers(0, 20))] + draw(st.lists(st.sampled_from([0, 0, 1]), max_size=3))
            if r and draw(st.booleans()): r[draw(st.integers(0, len(r) - 1))] = draw(comp)
            regs.append(r)
        else: regs.append(draw(ids()))
    ops = [[draw(st.sampled_from(OPS)), draw(st.integers(0, 2)), draw(st.integers(0, 2)), draw(masks),
            draw(st.one_of(st.integers(0, 5), st.sampled_from(NAMED)))] for _ in range(draw(st.integers(1, 10)))]
    return dict(regs=regs, ops=ops)

def msb(m): return m.bit_length()
def num(x): return vt.atom(x) if isinstance(x, str) else x
def at(a, i): return a[i] if i < len(a) else 0
def m_mask(a, m): return [0] if not m else [x if i >= BITS or m >> i & 1 else 0 for i, x in enumerate(a)]
def m_incr(a, m):
    a = a + [0] * (msb(m) - len(a))
    return [x + 1 if i < BITS and m >> i & 1 else x for i, x in enumerate(a)]
def m_set(a, m, v):
    a = a + [0] * (msb(m) - len(a))
    return [v if i < BITS and m >> i & 1 else x for i, x in enumerate(a)]
def m_diff(a, b): return sum(1 << i for i in range(BITS) if at(a, i) != at(b, i))
def m_mode(a):
    return 0 if not a or a[0] in (0, num("ev")) else 1 if a[0] == num("e1") else 2 if a[0] == num("e2") else -1

@P.check("programs", progs(), quick=30000, thorough=2000000, shards=8)
def programs(case, ctx):
    r = [[num(x) for x in a] for a in case["regs"]]
    ops, want, part = [], [], False
    for op, a, b, m, v in case["ops"]:
        v, ret = num(v), 0
        src = r[b] if op in ("maskc", "incrc", "setc") else r[a]
        if op in ("incr", "incrc") and any(m >> i & 1 and x < 0 or x > 2**31 - 20 for i, x in enumerate(src)): continue
        new = None
        if op in ("mask", "maskc"): new = m_mask(src, m)
        elif op in ("incr", "incrc"): new = m_incr(src, m)
        elif op in ("set", "setc"): new = m_set(src, m, v)
        elif op == "cmp": ret = int(not m or bool(r[a] and r[b] and not m_diff(r[a], r[b]) & m))
        elif op == "diff": ret = m_diff(r[a], r[b])
        elif op == "text":
            if not r[b]: continue
            new = r[b]
        elif op == "mode": ret = m_mode(r[b])
        elif op == "type": new = [v] + r[a][1:]
        elif op == "req": new, ret = r[b], m_mode(r[b])
        elif op == "reqtype": new, ret = [v] + r[b][1:], 1
        if new is not None: r[a] = list(new)
        ops.append((op, a, b, m, v))
        want.append((ret, [list(x) for x in r]))
        part |= bool(m) and any(0 < m & ((1 << min(len(x), BITS)) - 1) < (1 << min(len(x), BITS)) - 1 for x in (r[a], r[b]))
        if op == "cmp": ctx.label("equal under the mask" if ret else "different under the mask")
    start = [[num(x) for x in a] for a in case["regs"]]
    got = vt.rqid_prog(start, ops)
    for i, (g, w) in enumerate(zip(got, want)):
        if g[0] != w[0]: ctx.fail("operation %d %s returns %s, expected %s; ids %s" % (i, ops[i], g[0], w[0], w[1]))
        if g[1] != w[1]: ctx.fail("after operation %d %s the ids are %s, expected %s" % (i, ops[i], g[1], w[1]))
    ctx.trivial(not part)

# --- what raising a component changes -----------------------------------------------------------------
@st.composite
def raises(draw):
    return dict(a=draw(ids()), b=draw(ids()), up=draw(masks), dep=draw(masks), v=draw(st.integers(0, 3)), op=draw(st.sampled_from(["incrc", "setc"])))

@P.check("dependencies", raises(), quick=20000, thorough=1000000, shards=8)
def dependencies(case, ctx):
    """metamorphic: an id with components raised differs from the id before exactly for the dependencies that include one of them"""
    a = [num(x) for x in case["a"]] or [0]
    up, dep = case["up"], case["dep"]
    if a[0] < 0: up &= ~1
    full = a + [0] * (16 - len(a))
    got = vt.rqid_prog([a, [], []], [(case["op"], 1, 0, up, case["v"]), ("cmp", 0, 1, dep, 0), ("cmp", 1, 0, dep, 0), ("diff", 0, 1, 0, 0),
                                      ("maskc", 2, 0, dep, 0), ("maskc", 1, 1, dep, 0), ("cmp", 1, 2, 65535, 0), ("cmp", 1, 2, dep, 0)])
    changed = up if case["op"] == "incrc" else sum(1 << i for i in range(16) if up >> i & 1 and full[i] != case["v"])
    same = int(not changed & dep)
    what = "%s of %s with mask %#x for dependency %#x" % (case["op"], a, up, dep)
    if got[1][0] != same or got[2][0] != same: ctx.fail("%s: compares %s and %s, expected %s" % (what, got[1][0], got[2][0], same))
    if got[3][0] != changed: ctx.fail("%s: difference %#x, expected %#x" % (what, got[3][0], changed))
    # beyond 16 components no mask applies
    if len(a) <= 16 and (got[6][0] != same or got[7][0] != same): ctx.fail("%s: masked ids compare %s" % (what, got[6][0]))
    ctx.label("visible" if not same else "invisible")
    ctx.trivial(not up or not dep)

# --- symbolic dependencies ---------------------------------------------------------------------------------
SYM = dict(Iteration=2, State=4, Resolution=8, Domain=16, Dataset=32)
UNKNOWN = ["Value", "Node"]
@st.composite
def incs(draw):
    return dict(steps=[[draw(st.lists(st.sampled_from(sorted(SYM) + UNKNOWN), min_size=1, max_size=3)), draw(st.lists(st.integers(0, 3), max_size=8))]
                       for _ in range(draw(st.integers(2, 8)))])

@P.check("running", incs(), quick=8000, thorough=300000, shards=4)
def running(case, ctx):
    """the forest's running counts never give out the same component twice"""
    last = {}
    for names, a in case["steps"]:
        got = vt.symdep_incr(names, a)
        want = list(a)
        for n in names:
            if n not in SYM: continue
            i = SYM[n].bit_length() - 1
            want += [0] * (i + 1 - len(want))
            want[i] = got[i] if i < len(got) else None
        if got != want: ctx.fail("raising %s of %s gives %s" % (names, a, got))
        for n in set(names):
            if n not in SYM: continue
            i = SYM[n].bit_length() - 1
            if n in last and got[i] != last[n] + names.count(n): ctx.fail("%s of %s: component %s after %s" % (names, a, got[i], last[n]))
            last[n] = got[i]
    ctx.trivial(len(last) < 2)

@st.composite
def symprogs(draw):
    names = sorted(SYM) + UNKNOWN
    return [[draw(st.sampled_from(["set", "set", "active", "get", "reload", "copy"])), draw(st.lists(st.sampled_from(names), min_size=1, max_size=4)),
             draw(masks)] for _ in range(draw(st.integers(1, 10)))]

@P.check("symbols", symprogs(), quick=12000, thorough=500000, shards=4)
def symbols(case, ctx):
    """a node's set of symbolic dependencies and its mask"""
    m, active = {}, []
    got = vt.symdep_prog([tuple(o) for o in case])
    def mask(l):
        x = 0
        for n in l: x |= m.get(n, 0)
        return x
    for (op, names, v), (ret, act, rec) in zip(case, got):
        if op == "set": m[names[0]] = v
        elif op == "active": active = names
        want = mask(names) if op == "get" else mask(active)
        if ret != want: ctx.fail("%s %s %s returns %s, expected %s" % (op, names, v, ret, want))
        if act != mask(active): ctx.fail("%s %s %s: active mask %s, expected %s" % (op, names, v, act, mask(active)))
        g = dict((str(k).lower(), x) for k, x in rec.items())
        if g != dict((k.lower(), x) for k, x in m.items()): ctx.fail("%s %s: map is %s, expected %s" % (op, names, g, m))
    ctx.trivial(not active or not m)

# --- the Python layer --------------------------------------------------------------------------------------
@st.composite
def pyids(draw):
    steps = []
    for _ in range(draw(st.integers(1, 6))):
        k = draw(st.sampled_from(["plain", "dataset", "domain", "both", "given", "given", "given", "explicit"]))
        steps.append([k, draw(st.integers(0, 50)), draw(st.integers(0, 50)), draw(st.sampled_from(["ev", "e1", "e2", "0", None])), draw(st.integers(0, 6))])
    return steps

@P.check("python", pyids(), quick=4000, thorough=200000, shards=4)
def python(case, ctx):
    meq._meqdataset_id = meq._meqdomain_id = 0
    cells = meq.cells(meq.domain(0, 1, 0, 1), num_freq=2, num_time=2)
    seen, doms = [], []
    for kind, dom, ds, typ, n in case:
        kw = {} if typ is None else dict(rqtype=typ)
        t0 = [num("ev") if typ is None or typ == "ev" else 0 if typ == "0" else num(typ)]
        if kind in ("given", "explicit"):
            rid = meq.requestid(dom, ds, typ or "ev")
            if list(map(int, rid)) != t0 + [0, 0, 0, dom, ds]: ctx.fail("requestid(%s,%s,%s) is %r" % (dom, ds, typ, rid))
            got = meq.split_request_id(rid)
            if [int(dmi.hiid(x)[0]) for x in got] != [dom, ds]: ctx.fail("domain and dataset of %s are given as %s" % (rid, got))
            if str(dmi.hiid(str(rid))) != str(rid) or dmi.hiid(str(rid)) != rid: ctx.fail("%s read back is %s" % (rid, dmi.hiid(str(rid))))
        if kind == "given":
            req = meq.request(cells, rqid=dmi.make_hiid(tuple(rid)[:n]) if n else rid)
            want = list(map(int, rid))[:n or None]
        elif kind == "explicit":
            req = meq.request(cells, new_dataset=False, domain_id=dom, dataset_id=ds, **kw)
            want = list(map(int, rid))
        else:
            req = meq.request(cells, domain_id=dom, dataset_id=ds, new_dataset=kind in ("dataset", "both", "plain"), new_domain=kind in ("domain", "both"), **kw)
            want = None
        r = req.request_id
        if not isinstance(r, dmi.hiid): ctx.fail("request id is %r" % (r,))
        got = list(map(int, r))
        if want is not None:
            if got != want: ctx.fail("%s: id %s, expected %s" % (kind, got, want))
        else:
            if len(got) != 6 or got[:4] != t0 + [0, 0, 0]: ctx.fail("%s: id %s" % (kind, got))
            if kind == "domain" and got[5] != ds: ctx.fail("%s: id %s, dataset %s asked for" % (kind, got, ds))
            if kind in ("dataset", "plain") and got[4] != dom: ctx.fail("%s: id %s, domain %s asked for" % (kind, got, dom))
            if kind != "domain":
                for s in seen:
                    if len(s) == 6 and s[5] == got[5]: ctx.fail("a request for a new dataset gets the id %s after %s" % (got, s))
        if kind not in ("explicit", "domain"): seen.append(got)
        # a domain asked for anew is one that no earlier request had
        if kind in ("domain", "both") and got[4] in doms: ctx.fail("a request for a new domain gets the id %s" % got)
        if kind in ("domain", "both", "given") and len(got) > 4: doms.append(got[4])
    ctx.trivial(len(case) < 2)
