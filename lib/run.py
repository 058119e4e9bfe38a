"""run.py PID [quick|thorough] [--check NAME]  -- builds, runs all checks of a property, reports."""
import sys, os, json, time, subprocess, shutil, signal, importlib
VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
LIB = os.path.join(VERIF, "lib")
sys.path.insert(0, LIB)
sys.path.insert(0, os.path.join(VERIF, "checks"))
WORK = os.environ.get("VERIF_WORK", os.path.join(VERIF, ".work"))

def env_for(chk, tier):
    e = {k: v for k, v in os.environ.items() if k not in ("LD_LIBRARY_PATH", "PYTHONPATH", "PYTHONHOME", "LD_PRELOAD")}
    e.update(PYTHONDONTWRITEBYTECODE="1", PYTHONHASHSEED="0", OMP_NUM_THREADS="1", OPENBLAS_NUM_THREADS="1", VERIF_TIER=tier)
    e.update(chk.env)
    return e

def spawn(args, out, env, log):
    f = open(log, "wb")
    return subprocess.Popen(["/usr/bin/python3", os.path.join(LIB, "worker.py")] + args, stdout=f, stderr=subprocess.STDOUT,
                            stdin=subprocess.DEVNULL, cwd=out, env=env, start_new_session=True)

def killpg(p):
    try:
        os.killpg(p.pid, signal.SIGKILL)
    except ProcessLookupError:
        pass

def progress(out):
    try:
        return os.stat(os.path.join(out, "cur.json")).st_mtime_ns
    except OSError:
        return 0

class Job:
    def __init__(self, chk, seed, n, out, tier, fork=False):
        self.chk, self.seed, self.n, self.out, self.tier, self.fork = chk, seed, n, out, tier, fork
        self.p = None; self.status = None
    def start(self, pid):
        shutil.rmtree(self.out, ignore_errors=True); os.makedirs(self.out)
        self.log = os.path.join(self.out, "log.txt")
        self.p = spawn([pid, self.chk.name, self.tier, str(self.seed), str(self.n), self.out] + (["fork"] if self.fork else []),
                       self.out, env_for(self.chk, self.tier), self.log)
        self.last = (progress(self.out), time.time())
    def poll(self):
        rc = self.p.poll()
        if rc is not None:
            killpg(self.p)
            self.status = "done" if os.path.exists(os.path.join(self.out, "result.json")) else ("crash", rc)
            return True
        pr = progress(self.out)
        if pr != self.last[0]:
            self.last = (pr, time.time())
        elif time.time() - self.last[1] > 2 * self.chk.case_timeout + 30:
            killpg(self.p); self.p.wait()
            self.status = ("hang", 0)
            return True
        return False

def run_jobs(pid, jobs, ncpu=8):
    todo = list(jobs); live = []
    while todo or live:
        while todo and len(live) < ncpu:
            j = todo.pop(0); j.start(pid); live.append(j)
        time.sleep(0.03)
        live = [j for j in live if not j.poll()]

def replay(path, chk, tier, timeout):
    out = path + ".d"
    os.makedirs(out, exist_ok=True)
    log = os.path.join(out, "replay.log")
    p = spawn(["--replay", path], out, env_for(chk, tier), log)
    try:
        rc = p.wait(timeout)
    except subprocess.TimeoutExpired:
        killpg(p); p.wait(); rc = "timeout"
    killpg(p)
    txt = open(log, errors="replace").read()
    shutil.rmtree(out, ignore_errors=True)
    if rc == 0:
        return None
    if rc == "timeout":
        return "case does not terminate within %d s" % timeout
    if rc == 1 and "REPLAY-FAILS" in txt:
        return txt[txt.index("REPLAY-FAILS") + 13:][:3000]
    if isinstance(rc, int) and rc < 0:
        return "process killed by signal %d" % -rc
    return None      # a failure of the machinery, not of the case

def main():
    pid = sys.argv[1]
    tier = sys.argv[2] if len(sys.argv) > 2 and not sys.argv[2].startswith("--") else os.environ.get("VERIF_TIER", "quick")
    only = sys.argv[sys.argv.index("--check") + 1] if "--check" in sys.argv else None
    scale = float(os.environ.get("VT_SCALE", "1"))
    seed = int(os.environ.get("VERIF_SEED", "1"))
    t0 = time.time()
    if "--replay" not in sys.argv and not os.environ.get("VT_NOBUILD"):
        rc = subprocess.call(["bash", os.path.join(VERIF, "tools", "build.sh"), os.environ.get("VT_MODE", "release")])
        if rc != 0:
            print("build failed"); return 2
    tbuild = time.time() - t0
    prop = importlib.import_module(pid.lower()).P
    if "--replay" in sys.argv:
        path = os.path.abspath(sys.argv[sys.argv.index("--replay") + 1])
        d = json.load(open(path))
        m = replay(path, prop.checks[d["check"]], tier, 120)
        print("REPRODUCED: " + m if m else "does not reproduce")
        return 1 if m else 0
    base = os.path.join(WORK, "run", pid)
    shutil.rmtree(base, ignore_errors=True)
    os.makedirs(base)
    jobs = []
    for name, chk in prop.checks.items():
        if only and name != only:
            continue
        n = chk.thorough if tier == "thorough" else chk.quick
        n = max(1, int(n * scale))
        shards = chk.shards if tier == "quick" else max(chk.shards, min(8, n // 200 or 1))
        shards = max(1, min(shards, n))
        for s in range(shards):
            jobs.append(Job(chk, seed * 1000 + s, max(1, n // shards), os.path.join(base, "%s.%d" % (name, s)), tier))
    os.environ.setdefault("VT_TIME_LIMIT", "150" if tier == "quick" else "1500")
    run_jobs(pid, jobs)
    # crashes and hangs: search again with every case in a process of its own
    cand = []
    again = []
    broken = []
    for j in jobs:
        if j.status == "done":
            r = json.load(open(os.path.join(j.out, "result.json")))
            j.result = r
            if r["error"]:
                broken.append((j, r["error"]))
            if r["fail"]:
                cand.append((j, r["fail"]["case"], r["fail"]["message"]))
        else:
            j.result = None
            again.append(j)
    # one crash per check is enough
    seen = set()
    fj = []
    for j in again:
        try:
            case = json.load(open(os.path.join(j.out, "cur.json")))
        except Exception:
            broken.append((j, "worker died before its first case (%s); log: %s" % (j.status, open(j.log, errors="replace").read()[-2000:])))
            continue
        j.crash_case = case
        if j.chk.name in seen:
            continue
        seen.add(j.chk.name)
        k = Job(j.chk, j.seed, j.n, j.out + ".fork", tier, fork=True); k.parent = j
        fj.append(k)
    if fj:
        os.environ["VT_TIME_LIMIT"] = "120"
        run_jobs(pid, fj)
    for k in fj:
        got = None
        if k.status == "done":
            r = json.load(open(os.path.join(k.out, "result.json")))
            if r["fail"]:
                got = (r["fail"]["case"], r["fail"]["message"])
        if got:
            cand.append((k.parent, got[0], got[1]))
        cand.append((k.parent, k.parent.crash_case, "worker %s on this case" % (k.parent.status,)))
    # confirm
    violations = []; unconfirmed = []
    rdir = os.path.join(WORK, "replays"); os.makedirs(rdir, exist_ok=True)
    done_checks = set()
    for j, case, msg in cand:
        if j.chk.name in done_checks:
            continue
        path = os.path.join(rdir, "%s-%s-%d.json" % (pid, j.chk.name, j.seed))
        json.dump(dict(property=pid, check=j.chk.name, seed=j.seed, case=case, message=msg), open(path, "w"), indent=1)
        to = 2 * j.chk.case_timeout * max(1, min(j.chk.repeat, 5)) + 30
        ms = []
        for _ in range(3):
            m = replay(path, j.chk, tier, to)
            ms.append(m)
            if m is None:
                break
        if all(ms) and len(ms) == 3:
            violations.append((j.chk.name, path, ms[0]))
            done_checks.add(j.chk.name)
            continue
        # perhaps it needs the history of the whole run: same worker, same seed, again
        ok = True
        for i in range(2):
            k = Job(j.chk, j.seed, j.n, j.out + ".again%d" % i, tier)
            run_jobs(pid, [k])
            if k.status == "done":
                r = json.load(open(os.path.join(k.out, "result.json")))
                if not r["fail"]:
                    ok = False
            if not ok:
                break
        if ok:
            d = json.load(open(path)); d["needs_history"] = "run.py %s --check %s with VERIF_SEED=%d" % (pid, j.chk.name, seed)
            json.dump(d, open(path, "w"), indent=1)
            violations.append((j.chk.name, path, "(needs the preceding cases of the run) " + msg))
            done_checks.add(j.chk.name)
        else:
            unconfirmed.append((j.chk.name, path, msg))
    # evidence
    per = {}
    hashes = set(); evals = 0; samples = []; known = {}; skipped = 0
    for j in jobs:
        d = per.setdefault(j.chk.name, dict(cases=0, skipped=0, nontrivial=0, labels={}, wall=0, rule=j.chk.rule))
        r = j.result
        if not r:
            continue
        evals += r["evals"]; d["cases"] += r["evals"]; d["skipped"] += r["skipped"]; skipped += r["skipped"]
        new = set(j.chk.name + h for h in r["hashes"])
        d["nontrivial"] += len(new - hashes); hashes |= new
        d["wall"] = round(max(d["wall"], r["wall"]), 2)
        for l, c in r["labels"].items():
            d["labels"][l] = d["labels"].get(l, 0) + c
        if r["samples"] and not any(s["check"] == j.chk.name for s in samples):
            samples.append(dict(check=j.chk.name, cases=r["samples"][:2]))
        for k, c in r["known"].items():
            known[k] = known.get(k, 0) + c
    ev = dict(property=pid, tier=tier, seed=seed, level="exploration",
              coverage=dict(evaluations=evals, distinct_nontrivial=len(hashes), rule=prop.rule, samples=samples,
                            checks=per, skipped_for_time=skipped, known_findings_hit=known,
                            unconfirmed=[u[0] + ": " + u[2][:300] for u in unconfirmed], build_s=round(tbuild, 1)),
              assumptions=prop.assumptions, wall_s=round(time.time() - t0, 2), violations=len(violations))
    os.makedirs(os.path.join(VERIF, "evidence"), exist_ok=True)
    if not only:
        json.dump(ev, open(os.path.join(VERIF, "evidence", pid + ".json"), "w"), indent=1)
    kf = os.path.join(VERIF, "known_findings.json")
    if os.path.exists(kf):
        for e in json.load(open(kf)).get("findings", []):
            if e["property"] == pid:
                print("KNOWN-FINDING: property=%s %s" % (pid, e["what"]))
    for name, d in per.items():
        print("  %-28s cases=%-7d nontrivial=%-7d skipped=%d %.1fs %s" % (name, d["cases"], d["nontrivial"], d["skipped"], d["wall"],
              " ".join("%s=%d" % kv for kv in sorted(d["labels"].items())) if "-v" in sys.argv else ""))
    for name, path, msg in unconfirmed:
        print("  unconfirmed (not reported): %s %s\n    %s" % (name, path, msg.replace("\n", "\n    ")))
    for name, path, msg in violations:
        print("  check %s: %s" % (name, msg.replace("\n", "\n    ")))
        print("VIOLATION property=%s replay=%s" % (pid, path))
    print("%s %s seed=%d: %d cases, %d distinct non-trivial, %d violations, %.1f s" % (pid, tier, seed, evals, len(hashes), len(violations), time.time() - t0))
    if violations:
        return 1
    if broken:
        for j, e in broken:
            print("machinery failure in %s: %s" % (j.chk.name, e))
        return 2
    return 0

sys.exit(main())
