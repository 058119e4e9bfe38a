"""Runs one check (one shard) of a property in this process; see run.py for the parent.
   worker.py PID CHECK TIER SEED N OUTDIR [fork]
   worker.py --replay FILE
"""
import sys, os, json, time, traceback, signal, faulthandler
sys.path.insert(0, os.path.dirname(os.path.abspath(__file__)))
sys.path.insert(0, os.path.join(os.path.dirname(os.path.dirname(os.path.abspath(__file__))), "checks"))
import importlib
import vfw

VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))

def load(pid):
    mod = importlib.import_module(pid.lower())
    return mod.P

def known_keys(pid):
    p = os.path.join(VERIF, "known_findings.json")
    if not os.path.exists(p):
        return []
    return [e["key"] for e in json.load(open(p)).get("findings", []) if e["property"] == pid]

def setup(prop, chk):
    (chk.setup or prop.setup or (lambda: None))()

def run_case(chk, case, ctx):
    """None if the case passes, else the message."""
    ctx.reset()
    try:
        chk.run(case, ctx)
    except vfw.Known:
        ctx.nontrivial = False
        return None
    except vfw.Violation as e:
        return str(e)[:4000]
    except Exception:
        return ("unexpected exception: " + traceback.format_exc())[-4000:]
    return None

def run_forked(chk, case, ctx):
    r, w = os.pipe()
    pid = os.fork()
    if pid == 0:
        os.close(r)
        signal.alarm(int(chk.case_timeout))
        m = run_case(chk, case, ctx)
        os.write(w, json.dumps([m, ctx.nontrivial, ctx.labels, ctx.evals]).encode()[:60000])
        os._exit(0)
    os.close(w)
    buf = b""
    while True:
        b = os.read(r, 65536)
        if not b:
            break
        buf += b
    os.close(r)
    _, st = os.waitpid(pid, 0)
    if os.WIFSIGNALED(st):
        s = os.WTERMSIG(st)
        return "case does not terminate within %d s" % chk.case_timeout if s == signal.SIGALRM \
            else "process killed by signal %d (%s)" % (s, signal.Signals(s).name)
    if st != 0 or not buf:
        return "process died with status %d" % st
    m, ctx.nontrivial, ctx.labels, ctx.evals = json.loads(buf)
    return m

def quiet():
    """The project writes progress to stdout/stderr; keep it in the worker's log."""

def main():
    if sys.argv[1] == "--replay":
        d = json.load(open(sys.argv[2]))
        prop = load(d["property"]); chk = prop.checks[d["check"]]
        setup(prop, chk)
        ctx = vfw.Ctx(known_keys(d["property"]))
        for i in range(chk.repeat):
            m = run_case(chk, d["case"], ctx)
            if m:
                print("REPLAY-FAILS " + m); sys.stdout.flush()
                os._exit(1)
        print("REPLAY-PASSES"); sys.stdout.flush()
        os._exit(0)
    pid, cname, tier, seed, n, out = sys.argv[1:7]
    seed, n = int(seed), int(n)
    fork = len(sys.argv) > 7 and sys.argv[7] == "fork"
    prop = load(pid); chk = prop.checks[cname]
    import hypothesis
    from hypothesis import given, settings, HealthCheck, Phase
    setup(prop, chk)
    ctx = vfw.Ctx(known_keys(pid))
    st = dict(evals=0, skipped=0, labels={}, samples=[], hashes=set(), fails=0)
    best = [None]
    t0 = time.time()
    limit = float(os.environ.get("VT_TIME_LIMIT", "240"))
    shrink_limit = 45.0
    first_fail = [None]
    cur = os.open(os.path.join(out, "cur.json"), os.O_RDWR | os.O_CREAT | os.O_TRUNC)
    def body(case):
        now = time.time()
        if first_fail[0] is None and now - t0 > limit:
            st["skipped"] += 1
            return
        if first_fail[0] is not None and now - first_fail[0] > shrink_limit:
            return
        js = json.dumps(case)
        os.ftruncate(cur, 0)
        os.pwrite(cur, js.encode(), 0)
        m = (run_forked if (fork or chk.fork) else run_case)(chk, case, ctx)
        st["evals"] += ctx.evals
        for l in ctx.labels:
            st["labels"][l] = st["labels"].get(l, 0) + 1
        if ctx.nontrivial:
            h = vfw.case_hash(case)
            if h not in st["hashes"]:
                st["hashes"].add(h)
                if len(st["samples"]) < 3 and len(js) < 3000:
                    st["samples"].append(case)
        if m:
            if first_fail[0] is None:
                first_fail[0] = time.time()
            if best[0] is None or len(js) <= len(best[0][2]) or True:
                best[0] = (case, m, js)
            raise vfw.Violation(m)
    test = hypothesis.seed(seed)(settings(max_examples=n, database=None, deadline=None,
        suppress_health_check=list(HealthCheck), phases=[Phase.generate, Phase.shrink],
        print_blob=False, report_multiple_bugs=False)(given(chk.strategy)(body)))
    err = None
    try:
        test()
    except BaseException as e:
        if best[0] is None:
            err = traceback.format_exc()
    res = dict(check=cname, evals=st["evals"], skipped=st["skipped"], labels=st["labels"],
               samples=st["samples"], hashes=sorted(st["hashes"]), wall=time.time() - t0,
               known=ctx.known_hits, error=err,
               fail=None if best[0] is None else dict(case=best[0][0], message=best[0][1]))
    with open(os.path.join(out, "result.json.tmp"), "w") as f:
        json.dump(res, f)
    os.rename(os.path.join(out, "result.json.tmp"), os.path.join(out, "result.json"))
    sys.stdout.flush()
    os._exit(0)

main()
