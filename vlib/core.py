"""Shared check driver: runs case families in parallel worker processes, collects what the
monitors observed, applies the known-findings file, writes evidence, prints the verdict.

A check module (checks/pNN.py) defines
  PROP, LEVEL, RULE, ASSUMPTIONS
  FAMILIES = [Family(name, fn, quick, thorough, ...)]
where fn(rng, rec) runs ONE case, drawn from rng only, and reports to rec.

Verdicts:
  held         -> exit 0    (every deciding monitor was reached, no violation)
  violated     -> exit 1    VIOLATION property=<id> replay=<path>
  inconclusive -> exit 3    only when a deciding monitor was never reached
"""
import hashlib, json, multiprocessing, os, random, resource, signal, sys, time, traceback
from multiprocessing import connection

ROOT = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
REPO = os.environ.get("SHRINKO_REPO", "/repo")
PY = "/opt/venv/bin/python"
EVID = os.path.join(ROOT, "evidence")
KNOWN = os.path.join(ROOT, "known_findings.jsonl")

MEM_LIMIT = 3 << 30        # address space of one worker (a runaway program or tool fails alone)
CASE_CPU_LIMIT = 60       # seconds of CPU before a case is re-run under the step counter
STEP_LIMIT = 30_000_000   # python-level loop/call events: the deterministic hang verdict


class Family:
    def __init__(m, name, fn, quick, thorough=None, need=None, exhaustive=False):
        """need: names of monitor events that must be observed at least once in this family"""
        m.name, m.fn, m.quick = name, fn, quick
        m.thorough = thorough if thorough is not None else quick * 12
        m.need = need or []
        m.exhaustive = exhaustive  # the case index enumerates a finite space (rng unused)


class Hang(BaseException):
    pass


class Rec:
    """what the monitors of one worker observed"""
    def __init__(m):
        m.evals = 0
        m.keys = set()
        m.events = {}
        m.skips = {}
        m.samples = []
        m.viols = []
        m.cur = None

    def eval(m, key, nontrivial=True, n=1):
        """one oracle decision; `key` identifies the case content (for distinctness)"""
        m.evals += n
        if nontrivial:
            if not isinstance(key, bytes):
                key = repr(key).encode("utf8", "surrogatepass")
            m.keys.add(hashlib.blake2b(key, digest_size=8).digest())

    def event(m, name, n=1):
        m.events[name] = m.events.get(name, 0) + n

    def skip(m, reason):
        m.skips[reason] = m.skips.get(reason, 0) + 1

    def sample(m, s, limit=2):
        if len(m.samples) < limit:
            m.samples.append(s if isinstance(s, str) else json.dumps(s, default=repr)[:1500])

    def violation(m, mech, what, **detail):
        """mech: short stable name of the failing mechanism (what known findings match on)"""
        m.viols.append(dict(mech=mech, what=what, detail=detail, case=m.cur))


def case_seed(prop, fam, seed, i):
    h = hashlib.sha256(f"{prop}/{fam}/{seed}/{i}".encode()).digest()
    return int.from_bytes(h[:8], "big")


def run_case(mod, fam, seed, i, rec):
    rec.cur = dict(property=mod.PROP, family=fam.name, seed=seed, index=i)
    rng = random.Random(case_seed(mod.PROP, fam.name, seed, i))
    rng.index = i

    def on_alarm(*_):
        raise Hang()

    signal.signal(signal.SIGPROF, on_alarm)
    signal.setitimer(signal.ITIMER_PROF, getattr(mod, "CASE_CPU_LIMIT", CASE_CPU_LIMIT))
    try:
        fam.fn(rng, rec)
    except Hang:
        signal.setitimer(signal.ITIMER_PROF, 0)
        if getattr(mod, "SLOW_OK", False):
            rec.skip("slow case")
            return
        count_steps(mod, fam, seed, i, rec)
    except MemoryError:
        signal.setitimer(signal.ITIMER_PROF, 0)
        rec.skip("out of memory")
    except Exception as ex:
        signal.setitimer(signal.ITIMER_PROF, 0)
        if any(f.filename.startswith(REPO + "/") for f in traceback.extract_tb(ex.__traceback__)):
            rec.violation("crash", f"the code under test raised {type(ex).__name__}: {ex}", tb=traceback.format_exc())
            return
        rec.viols.append(dict(mech="HARNESS", what="harness exception", detail=dict(tb=traceback.format_exc()),
                              case=rec.cur, harness=True))
    finally:
        signal.setitimer(signal.ITIMER_PROF, 0)


def count_steps(mod, fam, seed, i, rec):
    """deterministic re-run of a case that used a lot of CPU: more than STEP_LIMIT python-level
    jumps/calls on our small inputs is non-termination"""
    mon = sys.monitoring
    left = [getattr(mod, "STEP_LIMIT", STEP_LIMIT)]

    def tick(*_):
        left[0] -= 1
        if left[0] < 0:
            mon.set_events(mon.PROFILER_ID, 0)
            raise Hang()

    try:
        mon.use_tool_id(mon.PROFILER_ID, "steps")
    except ValueError:
        pass
    mon.register_callback(mon.PROFILER_ID, mon.events.JUMP, tick)
    mon.register_callback(mon.PROFILER_ID, mon.events.PY_START, tick)
    mon.set_events(mon.PROFILER_ID, mon.events.JUMP | mon.events.PY_START)

    def on_alarm(*_):
        raise TimeoutError()
    signal.signal(signal.SIGPROF, on_alarm)
    signal.setitimer(signal.ITIMER_PROF, CASE_CPU_LIMIT * 5)
    rng = random.Random(case_seed(mod.PROP, fam.name, seed, i))
    rng.index = i
    try:
        fam.fn(rng, Rec())
        rec.skip("slow case (finished under the step counter)")
    except Hang:
        rec.violation("non-termination", f"more than {getattr(mod, 'STEP_LIMIT', STEP_LIMIT)} python-level steps without finishing")
    except BaseException as ex:
        rec.skip("slow case: " + type(ex).__name__)
    finally:
        signal.setitimer(signal.ITIMER_PROF, 0)
        mon.set_events(mon.PROFILER_ID, 0)
        mon.free_tool_id(mon.PROFILER_ID)


def _worker_main(conn, cur):
    mod = _G["mod"]
    resource.setrlimit(resource.RLIMIT_AS, (MEM_LIMIT, MEM_LIMIT))
    signal.signal(signal.SIGINT, signal.SIG_IGN)
    while True:
        job = conn.recv()
        if job is None:
            return
        fi, seed, lo, hi, deadline = job
        fam = mod.FAMILIES[fi]
        rec = Rec()
        for i in range(lo, hi):
            cur.value = i
            if time.time() > deadline:
                rec.skip("deadline")
                continue
            run_case(mod, fam, seed, i, rec)
            if len(rec.viols) > int(os.environ.get("VERIF_MAXV", "20")):
                break
        conn.send((fi, rec))


def run_jobs(jobs, nproc, hard_deadline, on_result, on_death):
    """a pool that survives the death of a worker (a VM crash, the memory watchdog): the case the
    worker was on is reported through on_death, the rest of its batch is done by another worker"""
    ctx = multiprocessing.get_context("fork")
    jobs = list(reversed(jobs))
    workers = {}

    def start():
        a, b = ctx.Pipe()
        cur = ctx.Value("i", -1, lock=False)
        p = ctx.Process(target=_worker_main, args=(b, cur), daemon=True)
        p.start()
        b.close()
        workers[a] = [p, cur, None, 0]

    def give(c):
        if jobs:
            workers[c][2] = jobs.pop()
            workers[c][3] += 1
            c.send(workers[c][2])
        else:
            workers[c][2] = None
            try:
                c.send(None)
            except OSError:
                pass

    for _ in range(min(nproc, len(jobs))):
        start()
    for c in list(workers):
        give(c)
    while any(w[2] is not None for w in workers.values()):
        left = hard_deadline - time.time()
        if left <= 0:
            break
        ready = connection.wait([c for c, w in workers.items() if w[2] is not None], timeout=min(left, 30))
        for c in ready:
            p, cur, job, n = workers[c]
            try:
                on_result(*c.recv())
            except (EOFError, ConnectionError, OSError):
                fi, seed, lo, hi, deadline = job
                on_death(fi, cur.value)
                # (what the dead worker saw earlier in the batch is lost: redo it without that case)
                if lo < cur.value:
                    jobs.append((fi, seed, lo, cur.value, deadline))
                if cur.value + 1 < hi:
                    jobs.append((fi, seed, cur.value + 1, hi, deadline))
                p.join(1)
                del workers[c]
                c.close()
                if jobs:
                    start()
                    give(list(workers)[-1])
                continue
            give(c)
    lost = len(jobs)
    for c, w in workers.items():
        if w[2] is not None:
            lost += 1
        w[0].kill()
    for w in workers.values():
        w[0].join()
    return lost


_G = {}


def load_known(prop):
    out = []
    if os.path.exists(KNOWN):
        for line in open(KNOWN):
            line = line.strip()
            if line:
                k = json.loads(line)
                if k.get("property") == prop and k.get("status") == "known":
                    out.append(k)
    return out


def is_known(v, known):
    for k in known:
        if k["mech"] == v["mech"]:
            return k
    return None


def main(mod):
    import argparse
    ap = argparse.ArgumentParser()
    ap.add_argument("--tier", default=os.environ.get("VERIF_TIER", "quick"))
    ap.add_argument("--seed", type=int, default=int(os.environ.get("VERIF_SEED", "1") or 1))
    ap.add_argument("--family")
    ap.add_argument("--scale", type=float, default=1.0)
    ap.add_argument("--jobs", type=int, default=min(8, os.cpu_count() or 1))
    ap.add_argument("--replay")
    ap.add_argument("--dump", type=int, default=0, help="developer aid: dump this many violations per mechanism to /tmp")
    ap.add_argument("--show", type=int, default=3)
    a = ap.parse_args()
    prop = mod.PROP
    t0 = time.time()
    _G["mod"] = mod

    if a.replay:
        rep = json.load(open(a.replay))
        c = rep["case"]
        rec = Rec()
        fam = next(f for f in mod.FAMILIES if f.name == c["family"])
        run_case(mod, fam, c["seed"], c["index"], rec)
        for v in rec.viols:
            print(json.dumps(v, indent=1, default=repr))
        if rec.viols:
            print(f"VIOLATION property={prop} replay={a.replay}")
            return 1
        print("replay: no violation")
        return 0

    tier = a.tier if a.tier in ("quick", "thorough") else "quick"
    deadline = t0 + (620 if tier == "quick" else 3 * 3600)
    jobs = []
    for fi, fam in enumerate(mod.FAMILIES):
        if a.family and fam.name != a.family:
            continue
        n = fam.quick if tier == "quick" else fam.thorough
        if not fam.exhaustive:
            n = max(1, int(n * a.scale))
        chunk = max(1, min(200, (n + 8 * 6 - 1) // (8 * 6)))
        for lo in range(0, n, chunk):
            jobs.append((fi, a.seed, lo, min(n, lo + chunk), deadline))
    # interleave the families so that a deadline cuts all of them evenly
    random.Random(a.seed).shuffle(jobs)

    if hasattr(mod, "setup"):
        mod.setup()
    total = Rec()
    fam_events = {}
    fam_evals = {}
    deaths = []

    def on_result(fi, rec):
        name = mod.FAMILIES[fi].name
        ev = fam_events.setdefault(name, {})
        for k, n in rec.events.items():
            ev[k] = ev.get(k, 0) + n
        fam_evals[name] = fam_evals.get(name, 0) + rec.evals
        total.evals += rec.evals
        total.keys.update(rec.keys)
        for k, n in rec.skips.items():
            total.skips[k] = total.skips.get(k, 0) + n
        if len(total.samples) < 6:
            total.samples.extend(f"[{name}] {s}" for s in rec.samples[:1])
        total.viols.extend(rec.viols)

    def on_death(fi, i):
        deaths.append((mod.FAMILIES[fi].name, i))
        total.skip("worker died")

    lost = run_jobs(jobs, a.jobs, deadline + (120 if tier == "quick" else 3600), on_result, on_death)
    if deaths:
        print("workers died on:", deaths[:10])
    if hasattr(mod, "teardown"):
        mod.teardown()

    known = load_known(prop)
    new, seen_known, harness = [], {}, []
    for v in total.viols:
        if v.get("harness"):
            harness.append(v)
            continue
        k = is_known(v, known)
        if k:
            seen_known.setdefault(k["mech"], k)
        else:
            new.append(v)

    unreached = []
    if not a.family:
        for fam in mod.FAMILIES:
            for need in fam.need:
                if not fam_events.get(fam.name, {}).get(need):
                    unreached.append(f"{fam.name}:{need}")
            if not fam_evals.get(fam.name):
                unreached.append(f"{fam.name}:(no evaluations)")

    wall = time.time() - t0
    ev = dict(property=prop, tier=tier, seed=a.seed, level=mod.LEVEL,
              coverage=dict(evaluations=total.evals, distinct_nontrivial=len(total.keys), rule=mod.RULE,
                            samples=total.samples[:6] or ["(none)"], per_family=fam_evals,
                            monitor_events=fam_events, skipped=total.skips, unreached=unreached,
                            lost_batches=lost, harness_errors=len(harness)),
              assumptions=list(getattr(mod, "ASSUMPTIONS", [])), wall_s=round(wall, 2), violations=len(new))
    os.makedirs(EVID, exist_ok=True)
    tmp = os.path.join(EVID, f".{prop}.tmp{os.getpid()}")
    with open(tmp, "w") as f:
        json.dump(ev, f, indent=1, default=repr)
    os.replace(tmp, os.path.join(EVID, f"{prop}.json"))

    print(f"{prop} tier={tier} seed={a.seed} evals={total.evals} distinct={len(total.keys)} "
          f"wall={wall:.1f}s skips={total.skips} lost={lost}")
    for name, e in fam_events.items():
        print(f"  {name}: {fam_evals.get(name)} evals; events {e}")
    # every listed finding is announced, whether or not this run happened to hit it
    for k in known:
        print(f"KNOWN-FINDING: property={prop} {k['what']}")
    if new:
        by = {}
        for v in new:
            by.setdefault(v["mech"], []).append(v)
        rdir = os.path.join(EVID, "replay")
        os.makedirs(rdir, exist_ok=True)
        shown = 0
        for mech, vs in by.items():
            if a.dump:
                for i, v in enumerate(vs[:a.dump]):
                    json.dump(v, open(f"/tmp/dump-{prop}-{mech}-{a.seed}-{i}.json", "w"), default=repr)
            v = vs[0]
            path = os.path.join(rdir, f"{prop}-{hashlib.sha1((mech + json.dumps(v['case'])).encode()).hexdigest()[:10]}.json")
            with open(path, "w") as f:
                json.dump(v, f, indent=1, default=repr)
            if shown < 8:
                print(f"--- {mech} (x{len(vs)}): {v['what']}"[:600])
                if shown < a.show:
                    print(json.dumps(v["detail"], indent=1, default=repr)[:2500].replace("\\n", "\n"))
                print(f"VIOLATION property={prop} replay={path}")
                shown += 1
        return 1
    if harness:
        print("HARNESS ERROR:", harness[0]["detail"]["tb"], harness[0]["case"])
        if len(harness) > max(3, total.evals // 500):   # (a stray case the harness can't handle decides nothing, but isn't hidden either)
            return 3
    if unreached:
        print("INCONCLUSIVE: deciding monitors never reached:", unreached)
        return 3
    return 0
