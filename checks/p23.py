"""Written forms of objects: read back in order; corrupted ones refused or read as valid objects."""
from fmodel import *
from hypothesis import strategies as st
import os, struct, tempfile
import vfw, vdmi

vdmi.EMPTY_AXES = True
P = vfw.Property("P23",
    rule="a case is a random object (nested containers, arrays, results, requests, cells) or a file of up to four, written as blocks or file, and either read back "
         "or read after changes of its bytes; non-trivial if the object has content of at least two kinds, or a changed form differs from the original",
    assumptions=["of changed bytes any valid object may come out, since there are no checksums",
                 "blocks are placed in front of an inaccessible page, so that reading beyond their end is a crash"])
P.setup = lambda: vt.init(0, 1)

# --- objects: containers as in P22, with empty references, and the types of the kernel
@st.composite
def meqs(draw):
    k = draw(st.sampled_from(["cells", "request", "result", "result"]))
    if k == "result":
        full = draw(st.lists(st.integers(1, 3), min_size=1, max_size=2))
        return {"t": "result", "full": full, "cells": draw(st.booleans()),
                "o": draw(result(full, dims=draw(st.sampled_from([[], [2], [2, 2]])), kinds="rc", styles=(0, 1, 2, 3), spids=(1, 7), nset=draw(st.integers(1, 2))))}
    return {"t": k, "full": draw(st.lists(st.integers(1, 4), min_size=2, max_size=2)), "id": draw(st.lists(st.integers(0, 3), min_size=6, max_size=6)),
            "rider": draw(st.booleans())}

@st.composite
def things(draw, depth=3):
    if draw(st.integers(0, 3)) == 0:
        m = draw(meqs())
        return m if draw(st.booleans()) else {"t": "rec", "f": [["Value", m], ["Name", draw(vdmi.objs(1))]]}
    return draw(vdmi.objs(depth=depth, nulls=True))

def real(s):
    "spec for the harness"
    if s is None: return None
    if s["t"] == "rec": return {"t": "rec", "f": [[k, real(v)] for k, v in s["f"]]}
    if s["t"] == "list": return {"t": "list", "v": [real(v) for v in s["v"]]}
    if s["t"] in ("vec", "arr"): return s
    full = tuple(s["full"]) + (1,) * (2 - len(s["full"]))
    if s["t"] == "result": return {"t": "result", "o": to_spec(realise(s["o"]), grid(full), force_cells=s["cells"])}
    if s["t"] == "cells": return {"t": "py", "o": grid(full)}
    r = meq.request(grid(full), rqid=meq.requestid(domain_id=1 + s["id"][0], dataset_id=s["id"][1]))
    if s["rider"]: r.rider = dmi.record(all=dmi.record(command_by_list=[dmi.record(name="x", state=dmi.record(value=[1., 2.]))]))
    return {"t": "py", "o": r}

def kinds(d, out):
    if isinstance(d, tuple):
        out.add(d[0])
        for x in d[1:]: kinds(x, out)
    elif isinstance(d, list):
        for x in d: kinds(x, out)
    return out

def safe(s): return s is not None
def same(a, b): return repr(vdmi.norm(a)) == repr(vdmi.norm(b))

@st.composite
def files(draw):
    n = draw(st.integers(1, 4))
    return dict(objs=[draw(things()) or {"t": "list", "v": []} for _ in range(n)], append=draw(st.integers(0, n)), peek=draw(st.integers(0, 3)))

@P.check("written", files(), quick=8000, thorough=100000, shards=8)
def written(case, ctx):
    specs = [real(s) for s in case["objs"]]
    dumps = []
    for s in specs:
        d, blocks = vt.dmi_blocks(s); dumps.append(d)
        r = vt.dmi_unblock(blocks)
        if r[0] != "ok": return ctx.fail("blocks not readable: %s" % r[1])
        if r[2]: ctx.fail("%d blocks left over" % r[2])
        for k, x in ("read", r[1]), ("rewritten", r[3]), ("read and rewritten", r[4]):
            if not same(x, d): return ctx.fail("%s: %r, expected %r" % (k, x, d))
    with tempfile.TemporaryDirectory(dir=os.environ.get("VT_TMP")) as tmp:
        fn = tmp + "/f.boio"; k = case["append"]
        w = list(vt.boio_write(fn, specs[:k]))
        if k < len(specs): w += list(vt.boio_write(fn, specs[k:], 1))
        got, err = vt.boio_read(fn, case["peek"])
        if err: return ctx.fail("file not readable: %s" % err)
        if not same(got, dumps): ctx.fail("file contains %r, expected %r" % (got, dumps))
    kk = kinds(dumps, set()); ctx.label(*sorted(x for x in kk if isinstance(x, str) and x and len(x) < 20)[:6])
    ctx.trivial(len(kk & {"rec", "list", "vec", "arr", "MeqResult", "MeqRequest", "MeqCells"}) < 2)

# --- changed bytes
I32 = [0, 1, 2, 3, 4, 8, 16, 100, 255, -1, -2, -3, -4, -8, -100, 2**31 - 1, -2**31, -2**31 + 1, 2**30, 2**29, 2**28, 2**16, 2**24, -2**30, 2**31 - 8]
TYPES = []
def type_ids():
    if not TYPES:
        for n in ("DMIRecord DMIList DMIVec DMINumArray DMIHIID string bool char short int long float double fcomplex dcomplex DMIObjRef MeqCells MeqResult MeqVellSet MeqVells "
                  "MeqRequest MeqDomain MeqPolc MeqFunklet LorrayDouble1 LorrayDouble2 DMITimestamp").split():
            try: a = vt.atom(n)
            except vt.Error: a = None
            if a is not None: TYPES.append(a)
    return TYPES

def mutate(blocks, muts):
    bl = [bytearray(b) for b in blocks]
    for kind, b, pos, val in muts:
        if not bl: break
        b %= len(bl); x = bl[b]
        if kind in ("i32", "type", "rel") and len(x) >= 4:
            p = pos % (len(x) // 4) * 4
            old = struct.unpack_from("<i", x, p)[0]
            v = I32[val % len(I32)] if kind == "i32" else type_ids()[val % len(type_ids())] if kind == "type" else old + val % 9 - 4
            struct.pack_into("<i", x, p, (v + 2**31) % 2**32 - 2**31)
        elif kind == "byte" and x: x[pos % len(x)] = val % 256
        elif kind == "trunc": del x[pos % (len(x) + 1):]
        elif kind == "cut": del x[max(0, len(x) - 1 - val % 16):]
        elif kind == "ext": x += bytes([val % 256]) * (pos % 40)
        elif kind == "drop": del bl[b]
        elif kind == "dup": bl.insert(b, bytearray(x))
        elif kind == "swap": c = val % len(bl); bl[b], bl[c] = bl[c], bl[b]
        elif kind == "head": bl = bl[b:]
    return [bytes(x) for x in bl]

def uvbrick(blocks, known=[]):
    "MeqUVBrick cannot be created in this build (its library is missing, the stand-in aborts)"
    if not known: known.append(struct.pack("<i", vt.atom("MeqUVBrick") or 0))
    return any(known[0] in b for b in blocks)

def probe(ctx, blocks, what):
    if uvbrick(blocks): return "excluded"
    try: r = vt.dmi_unblock(blocks)
    except vt.Error as e:
        if "no funklet list" in str(e): return "incomplete"   # a ComposedPolc created by default cannot be read: mandatory content
        ctx.fail("%s: %s" % (what, e)); return "bad"
    if r[0] == "ok":
        # funklets created by default obtain further fields when they are read
        funk = any(k in repr(r[1]) for k in ("'MeqFunklet'", "'MeqPolc'", "'MeqPolcLog'", "'MeqSpline'", "'MeqComposedPolc'"))
        if not funk and not (same(r[1], r[3]) and same(r[1], r[4])): ctx.fail("%s: reads as %r, rewritten as %r and %r" % (what, r[1], r[3], r[4])); return "bad"
        if r[2] >= 1000: ctx.fail("%s: %d blocks left over after rewriting" % (what, r[2] // 1000)); return "bad"
    return r[0]

mut = st.tuples(st.sampled_from(["i32"] * 6 + ["rel"] * 3 + ["type"] * 3 + ["byte", "trunc", "cut", "ext", "drop", "dup", "swap", "head"]), st.integers(0, 7), st.integers(0, 60), st.integers(0, 255))

@st.composite
def corrupted(draw):
    return dict(obj=draw(things(2)) or {"t": "list", "v": []}, muts=[draw(st.lists(mut, min_size=1, max_size=3)) for _ in range(draw(st.integers(1, 12)))])

@P.check("corrupted", corrupted(), quick=24000, thorough=400000, shards=8)
def corrupt(case, ctx):
    d, blocks = vt.dmi_blocks(real(case["obj"])); n = 0
    for m in case["muts"]:
        b = mutate(blocks, m)
        if b == blocks: continue
        n += 1
        r = probe(ctx, b, "changed by %s" % m); ctx.label("changed: " + r)
        if r == "bad": break
    ctx.trivial(not n)

@st.composite
def swept(draw):
    return dict(obj=draw(things(1)) or {"t": "list", "v": []}, block=draw(st.integers(0, 5)))

@P.check("every_word", swept(), quick=1600, thorough=30000, shards=8, case_timeout=60)
def sweep(case, ctx):
    "every word of one block is replaced by every unusual value, every other type and a few values around its own; every truncation"
    d, blocks = vt.dmi_blocks(real(case["obj"])); b = case["block"] % len(blocks); x = blocks[b]; n = 0
    for p in range(min(len(x) // 4, 40)):
        old = struct.unpack_from("<i", x, p * 4)[0]
        for v in set(I32 + [old + k for k in (-8, -4, -2, -1, 1, 2, 4, 8)] + (type_ids() if old < -1000 else [])) - {old}:
            y = x[:p * 4] + struct.pack("<i", (v + 2**31) % 2**32 - 2**31) + x[p * 4 + 4:]
            n += 1
            if probe(ctx, blocks[:b] + [y] + blocks[b + 1:], "word %d of block %d set to %d" % (p, b, v)) == "bad": return
    for k in range(len(x)):
        if k > 100 and k < len(x) - 20: continue
        if probe(ctx, blocks[:b] + [x[:k]] + blocks[b + 1:], "block %d truncated to %d" % (b, k)) == "bad": return
    for k in range(len(blocks)):
        if probe(ctx, blocks[:k], "%d blocks only" % k) == "bad": return
    ctx.trivial(n < 20)

fmut = st.tuples(st.sampled_from(["i32"] * 4 + ["i64"] * 4 + ["byte", "trunc", "trunc", "del", "ins"]), st.integers(0, 3), st.integers(0, 40), st.integers(0, 255))
@st.composite
def badfiles(draw):
    return dict(objs=[draw(things(1)) or {"t": "list", "v": []} for _ in range(draw(st.integers(1, 3)))], muts=[draw(st.lists(fmut, min_size=1, max_size=2)) for _ in range(draw(st.integers(1, 5)))])

@P.check("corrupted_files", badfiles(), quick=9000, thorough=100000, shards=8)
def badfile(case, ctx):
    specs = [real(s) for s in case["objs"]]
    with tempfile.TemporaryDirectory(dir=os.environ.get("VT_TMP")) as tmp:
        fn = tmp + "/f.boio"; start = [0]; dumps = []
        for i, s in enumerate(specs):
            dumps += list(vt.boio_write(fn, [s], i > 0)); start.append(os.path.getsize(fn))
        data = open(fn, "rb").read(); n = 0
        for muts in case["muts"]:
            x = bytearray(data); first = len(x)
            for kind, o, pos, val in muts:
                p = start[o % len(specs)] + pos * (4 if kind in ("i32", "i64") else 1)
                if p >= len(x): continue
                if kind == "i32" and p + 4 <= len(x): struct.pack_into("<i", x, p, I32[val % len(I32)])
                elif kind == "i64" and p + 8 <= len(x): struct.pack_into("<q", x, p, I32[val % len(I32)] << 8 * (val % 5))
                elif kind == "byte": x[p] = val
                elif kind == "trunc": del x[p:]
                elif kind == "del": del x[p:p + 1 + val % 9]
                elif kind == "ins": x[p:p] = bytes(val % 9)
                first = min(first, p)
            if x == data: continue
            n += 1
            open(fn, "wb").write(x)
            try: got, err = vt.boio_read(fn)
            except vt.Error as e: return ctx.fail("%s: %s" % (muts, e))
            whole = sum(e <= first for e in start[1:])          # objects in front of the first change
            if not same(got[:whole], dumps[:whole]): return ctx.fail("%s: reads %r, but the file starts with %r" % (muts, got, dumps[:whole]))
            if len(x) == first and x == data[:first] and first not in start and err is None: return ctx.fail("%s: file cut at %d of %s reads without error" % (muts, first, start))
            ctx.label("file: " + ("error" if err else "read"))
        ctx.trivial(not n)
