"""Deterministic simulation core.

One *plan* (a JSON value: operations, faults, schedule) fully determines one
simulated run.  Plans are generated from one PRNG seeded with
(property, VERIF_SEED, run index).  Every run executes in its own process,
forked from a pristine parent that has only imported the library, so no run can
be influenced by another and a plan replays exactly.
"""
import hashlib
import importlib
import json
import os
import pickle
import random
import re
import select
import signal
import struct
import subprocess
import sys
import time
import traceback

VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
REPO = "/repo"
PKG = os.path.join(REPO, "refellips") + os.sep
PY = "/opt/venv/bin/python"
RUN_WALL = 180  # seconds for one simulated run: exceeding it is a harness error
HANG_CPU = 60  # a run normally takes milliseconds: this much processor time is a busy loop
HANG_WALL = 150  # ... and this long without getting there is a deadlock


class Violation(Exception):
    """The property is broken.  `kind` is the violation class kept by shrinking."""

    def __init__(self, kind, msg, **detail):
        super().__init__(f"{kind}: {msg}")
        self.kind = kind
        self.msg = msg
        self.detail = detail


class SimHang(BaseException):
    """Raised inside the library when it exceeds the step budget (liveness)."""


class SimCrash(BaseException):
    """Simulated process death."""


class SutError:
    """An exception that came out of the library."""

    def __init__(self, exc):
        self.exc = exc

    def __repr__(self):
        return f"{type(self.exc).__name__}({str(self.exc)[:160]})"


class Sim:
    """Per-run recorder: event log, fault/probe counters, simulated time."""

    def __init__(self, plan):
        self.plan = plan
        self.events = []
        self.faults = {}
        self.probes = {}
        self.states = set()
        self.now = 0.0  # simulated seconds
        self.steps = 0

    def log(self, *ev):
        self.events.append(ev)

    def fault(self, kind, n=1):
        self.faults[kind] = self.faults.get(kind, 0) + n
        self.events.append(("FAULT", kind))

    def probe(self, name, n=1):
        self.probes[name] = self.probes.get(name, 0) + n

    def state(self, *key):
        self.states.add(hash8(key))

    def call(self, fn, *a, **k):
        """Call the library; returns value or SutError. Sim control exceptions
        of the harness pass through."""
        try:
            return fn(*a, **k)
        except (SimCrash, Violation):
            raise
        except SimHang as e:
            raise Violation("hang", f"library did not terminate within the step budget: {e}")
        except (Exception, KeyboardInterrupt) as e:
            return SutError(e)

    def digest(self):
        return hashlib.sha256(
            neutral(json.dumps(self.events, default=repr)).encode()
        ).hexdigest()[:24]


def neutral(text):
    """names that differ between processes: the scratch directory and addresses"""
    from . import scratch

    if scratch.ROOT:
        text = re.sub(re.escape(scratch.ROOT) + r"(/r\d+)?", "<scratch>", text)
    return re.sub(r"0x[0-9a-f]{6,}", "0x", text)


def hash8(x):
    return hashlib.sha256(json.dumps(x, default=repr).encode()).hexdigest()[:12]


def rng_for(prop, seed, i):
    return random.Random(f"{prop}:{seed}:{i}")


# --------------------------------------------------------------------------
# executing one plan in a forked child


def _on_cpu(*a):
    # the library spins without doing I/O or library-level steps
    signal.setitimer(signal.ITIMER_PROF, 0)
    raise SimHang(f"no end after {HANG_CPU} s of processor time")


def _on_wall(*a):
    # the library blocks (processor time does not pass)
    signal.signal(signal.SIGALRM, signal.SIG_DFL)
    signal.alarm(RUN_WALL - HANG_WALL)
    raise SimHang("blocked: no end and no progress")


def _child(mod, plan, wfd, keep_log):
    res = {"status": "error", "error": "no result"}
    try:
        signal.signal(signal.SIGPROF, _on_cpu)
        signal.setitimer(signal.ITIMER_PROF, HANG_CPU)
        signal.signal(signal.SIGALRM, _on_wall)
        signal.alarm(HANG_WALL)
        if not os.environ.get("VERIF_SHOW"):
            devnull = os.open(os.devnull, os.O_WRONLY)
            os.dup2(devnull, 1)
            os.dup2(devnull, 2)
        random.seed(12345)
        import numpy as np

        np.random.seed(12345)
        sim = Sim(plan)
        cpu0 = time.process_time()
        try:
            try:
                mod.execute(plan, sim)
            except SimHang as e:
                raise Violation("hang", f"the library did not terminate: {e}")
            res = {"status": "ok"}
        except Violation as v:
            res = {"status": "violation", "kind": v.kind, "msg": neutral(str(v.msg)[:2000]),
                   "detail": {k: repr(x)[:2000] for k, x in v.detail.items()}}
            sim.log("VIOLATION", v.kind, neutral(str(v.msg)[:400]))
        res.update(cpu=time.process_time() - cpu0, digest=sim.digest(), faults=sim.faults, probes=sim.probes,
                   states=sorted(sim.states)[:4000], now=sim.now, steps=sim.steps,
                   nevents=len(sim.events))
        if keep_log:
            res["log"] = sim.events
    except BaseException:
        res = {"status": "error", "error": traceback.format_exc()[-4000:]}
    try:
        blob = pickle.dumps(res)
        with os.fdopen(wfd, "wb") as f:
            f.write(struct.pack("<Q", len(blob)))
            f.write(blob)
    finally:
        os._exit(0)


def run_plan(mod, plan, keep_log=False):
    r, w = os.pipe()
    pid = os.fork()
    if pid == 0:
        os.close(r)
        _child(mod, plan, w, keep_log)
    os.close(w)
    chunks = []
    with os.fdopen(r, "rb") as f:
        data = f.read()
    _, st = os.waitpid(pid, 0)
    if len(data) < 8:
        return {"status": "error", "error": f"run process ended without a result (wait status {st})"}
    return pickle.loads(data[8:])


# --------------------------------------------------------------------------
# a batch of runs over worker processes


def batch(mod, prop, seed, n, tier, workers=None, wall=None, start=0):
    """Run plans start..start+n-1.  Returns list of (i, result) for executed
    runs, ordered by i; stops early after a violation/error at lower index."""
    workers = workers or min(8, os.cpu_count() or 1)
    t0 = time.monotonic()
    import mmap

    # shared "lowest failing index" so that later runs are skipped
    shm = mmap.mmap(-1, 8)
    shm[:8] = struct.pack("<q", 1 << 60)
    procs = []
    for w in range(workers):
        r, wfd = os.pipe()
        pid = os.fork()
        if pid == 0:
            os.close(r)
            out = os.fdopen(wfd, "wb")
            code = 0
            try:
                for i in range(start + w, start + n, workers):
                    if i > struct.unpack("<q", shm[:8])[0]:
                        break
                    if wall and time.monotonic() - t0 > wall:
                        break
                    try:
                        plan = mod.gen(rng_for(prop, seed, i), tier)
                    except Exception:
                        res = {"status": "error", "error": "gen: " + traceback.format_exc()[-3000:]}
                    else:
                        res = run_plan(mod, plan)
                    if res["status"] != "ok" and not (
                        res["status"] == "violation" and is_known(prop, res)
                    ):
                        cur = struct.unpack("<q", shm[:8])[0]
                        if i < cur:
                            shm[:8] = struct.pack("<q", i)
                    blob = pickle.dumps((i, res))
                    out.write(struct.pack("<Q", len(blob)))
                    out.write(blob)
                out.close()
            except BaseException:
                traceback.print_exc()
                code = 3
            os._exit(code)
        os.close(wfd)
        procs.append((pid, r))
    bufs = {r: bytearray() for _, r in procs}
    openfds = set(bufs)
    while openfds:
        rd, _, _ = select.select(list(openfds), [], [])
        for fd in rd:
            d = os.read(fd, 1 << 16)
            if not d:
                openfds.discard(fd)
                os.close(fd)
            else:
                bufs[fd] += d
    bad_worker = False
    for pid, _ in procs:
        _, st = os.waitpid(pid, 0)
        if st != 0:
            bad_worker = True
    out = []
    for b in bufs.values():
        o = 0
        while o + 8 <= len(b):
            (ln,) = struct.unpack_from("<Q", b, o)
            out.append(pickle.loads(bytes(b[o + 8 : o + 8 + ln])))
            o += 8 + ln
    out.sort(key=lambda t: t[0])
    return out, bad_worker


# --------------------------------------------------------------------------
# known findings

_known = None


def known_findings():
    global _known
    if _known is None:
        path = os.path.join(VERIF, "known_findings.json")
        _known = json.load(open(path)) if os.path.exists(path) else {"findings": [], "fixed": []}
    return _known


def is_known(prop, res):
    for k in known_findings().get("findings", []):
        if k["property"] == prop and k["kind"] == res.get("kind") and k.get("match", "") in res.get("msg", ""):
            return k
    return None


# --------------------------------------------------------------------------
# minimisation


def _ddmin(items, test, budget):
    """Greedy chunk removal; test(list)->bool (still fails)."""
    n = max(1, len(items) // 2)
    while items and n >= 1:
        i = 0
        changed = False
        while i < len(items):
            if budget[0] <= 0 or time.monotonic() > budget[1]:
                return items
            cand = items[:i] + items[i + n :]
            budget[0] -= 1
            if test(cand):
                items = cand
                changed = True
            else:
                i += n
        if n == 1 and not changed:
            break
        n = n if (changed and n == 1) else n // 2
    return items


def minimise(mod, plan, kind, wall=90, evals=600):
    budget = [evals, time.monotonic() + wall]

    def fails(p):
        r = run_plan(mod, p)
        return r["status"] == "violation" and r["kind"] == kind

    for _ in range(2):
        for key in getattr(mod, "SHRINK", ("preempts", "faults", "ops")):
            if isinstance(plan.get(key), list) and plan[key]:
                def t(c, key=key):
                    return fails({**plan, key: c})
                plan = {**plan, key: _ddmin(plan[key], t, budget)}
        simp = getattr(mod, "simplify", None)
        if simp:
            progress = True
            while progress and budget[0] > 0 and time.monotonic() < budget[1]:
                progress = False
                for cand in simp(plan):
                    if budget[0] <= 0 or time.monotonic() > budget[1]:
                        break
                    budget[0] -= 1
                    if fails(cand):
                        plan = cand
                        progress = True
                        break
    return plan


# --------------------------------------------------------------------------
# a whole check


def load_library():
    """Import the real library from /repo's working tree."""
    from . import threads

    threads.patch_locks()
    import refellips
    import matplotlib.pyplot  # noqa: once, before the runs are forked
    import refnx.analysis  # noqa

    import gc

    threads.library_code()
    gc.collect()
    gc.freeze()  # forked runs do not touch the parent's objects
    f = os.path.abspath(refellips.__file__)
    if not f.startswith(PKG):
        raise RuntimeError(f"refellips imported from {f}, not {PKG}")


def check(prop, tier, seed, runs=None, workers=None):
    mod = importlib.import_module("checks." + prop.lower())
    load_library()
    if hasattr(mod, "setup"):
        mod.setup()
    t0 = time.monotonic()
    n = runs or mod.RUNS[tier]
    wall = {"quick": 420, "thorough": 3600}[tier]
    results, bad_worker = batch(mod, prop, seed, n, tier, workers, wall)
    wall_s = time.monotonic() - t0
    errors = [(i, r) for i, r in results if r["status"] == "error"]
    viol = [(i, r) for i, r in results if r["status"] == "violation"]
    new = [(i, r) for i, r in viol if not is_known(prop, r)]
    seen = {}
    for i, r in viol:
        k = is_known(prop, r)
        if k:
            seen.setdefault(k["what"], []).append(i)
    for what in seen:
        print(f"KNOWN-FINDING: property={prop} {what}")

    replay, first = None, None
    for exact in (True, False):
        # `exact` fails only where the changed library itself is not deterministic:
        # then a replay that shows the same kind of violation is accepted
        for i, r in new[:3]:
            if replay is None:
                plan = mod.gen(rng_for(prop, seed, i), tier)
                small = minimise(mod, plan, r["kind"])
                first = (i, r)
                replay = write_replay(mod, prop, seed, i, tier, small, r["kind"], exact) or write_replay(mod, prop, seed, i, tier, plan, r["kind"], exact)

    write_evidence(mod, prop, tier, seed, results, n, len(new), wall_s, time.monotonic() - t0)
    done = len(results)
    if new:
        i, r = first
        print(f"violation in run {i} (seed {seed}): {r['kind']}: {r['msg'][:600]}")
        if replay is None:
            print("harness error: the violation did not replay", file=sys.stderr)
            return 2
        print(f"VIOLATION property={prop} replay={replay}")
        return 1
    if errors:
        print(f"harness error in run {errors[0][0]} (seed {seed}):\n{errors[0][1]['error']}", file=sys.stderr)
        return 2
    if bad_worker or done < max(1, n // 4):
        print(f"harness error: only {done} of {n} runs finished", file=sys.stderr)
        return 2
    slow = max((r.get("cpu", 0) for _, r in results), default=0)
    print(f"ok property={prop} tier={tier} seed={seed} runs={done} wall={wall_s:.1f}s slowest run {slow:.1f}s")
    return 0


def write_replay(mod, prop, seed, i, tier, plan, kind, exact=True):
    res = run_plan(mod, plan, keep_log=True)
    for _ in range(0 if exact else 5):
        if res["status"] == "violation" and res["kind"] == kind:
            break
        res = run_plan(mod, plan, keep_log=True)
    if res["status"] != "violation" or res["kind"] != kind:
        return None
    d = os.path.join(VERIF, "replays")
    os.makedirs(d, exist_ok=True)
    path = os.path.join(d, f"{prop}-seed{seed}-run{i}.json")
    with open(path, "w") as f:
        json.dump(dict(property=prop, verif_seed=seed, run=i, tier=tier, kind=kind,
                       message=res["msg"], detail=res.get("detail"), digest=res["digest"],
                       plan=plan, log=res["log"][-200:],
                       how=f"{PY} {VERIF}/run.py {prop} --replay {path}"),
                  f, indent=1, default=repr)
    # replay in a fresh interpreter with another hash seed: must fail the same way
    env = dict(os.environ, PYTHONHASHSEED="7")
    for _ in range(1 if exact else 4):
        cp = subprocess.run([PY, os.path.join(VERIF, "run.py"), prop, "--replay", path],
                            capture_output=True, text=True, env=env, timeout=RUN_WALL + 60)
        if cp.returncode == 1 and (not exact or "digest match" in cp.stdout):
            return path
    return None


def replay(path):
    rec = json.load(open(path))
    mod = importlib.import_module("checks." + rec["property"].lower())
    load_library()
    if hasattr(mod, "setup"):
        mod.setup()
    res = run_plan(mod, rec["plan"], keep_log=True)
    print(f"replay {path}: {res['status']} {res.get('kind','')}: {res.get('msg', res.get('error',''))}")
    if res["status"] == "violation" and res["kind"] == rec["kind"]:
        print("digest match" if res["digest"] == rec["digest"] else
              f"digest DIFFERS {res['digest']} != {rec['digest']}")
        print(f"VIOLATION property={rec['property']} replay={path}")
        return 1
    return 0 if res["status"] == "ok" else 2


def write_evidence(mod, prop, tier, seed, results, n, nviol, batch_wall, wall_s):
    ok = [r for _, r in results if r["status"] != "error"]
    faults, probes, states = {}, {}, set()
    for r in ok:
        for k, v in r["faults"].items():
            faults[k] = faults.get(k, 0) + v
        for k, v in r["probes"].items():
            probes[k] = probes.get(k, 0) + v
        states.update(r["states"])
    nontriv = {r["digest"] for r in ok if r["nevents"] >= getattr(mod, "MIN_EVENTS", 3)
               and (not getattr(mod, "NEED_FAULT", False) or r["faults"])}
    samples = []
    for i, r in results[:3]:
        samples.append(dict(run=i, digest=r.get("digest"), plan=mod.gen(rng_for(prop, seed, i), tier)))
    txt = json.dumps(samples, default=repr)
    if len(txt) > 20000:
        samples = [dict(run=s["run"], digest=s["digest"], plan=json.dumps(s["plan"], default=repr)[:5000]) for s in samples]
    else:
        samples = json.loads(txt)
    idx = [i for i, _ in results]
    ev = dict(
        property=prop, tier=tier, seed=seed, level=mod.LEVEL,
        coverage=dict(
            evaluations=len(results), distinct_nontrivial=len(nontriv), rule=mod.RULE,
            samples=samples,
            planned_runs=n, run_index_range=[min(idx), max(idx)] if idx else [],
            simulated_runs_per_hour=round(len(results) / max(batch_wall, 1e-6) * 3600),
            seeds="one PRNG seed (property, VERIF_SEED, run index) per simulated run",
            simulated_seconds_covered=round(sum(r["now"] for r in ok), 3),
            scheduler_steps=sum(r["steps"] for r in ok),
            faults_injected=dict(sorted(faults.items())),
            probes_hit=dict(sorted(probes.items())),
            probes_never_hit=[p for p in getattr(mod, "PROBES", []) if p not in probes],
            distinct_states=len(states), state_measure=getattr(mod, "STATE", "distinct event-log digests"),
            components_real=getattr(mod, "REAL", []), components_stubbed=getattr(mod, "STUB", []),
            events_logged=sum(r["nevents"] for r in ok),
        ),
        assumptions=getattr(mod, "ASSUME", []),
        wall_s=round(wall_s, 2), violations=nviol,
    )
    d = os.path.join(VERIF, "evidence")
    os.makedirs(d, exist_ok=True)
    tmp = os.path.join(d, f".{prop}.tmp")
    with open(tmp, "w") as f:
        json.dump(ev, f, indent=1, default=repr)
    os.replace(tmp, os.path.join(d, f"{prop}.json"))


def determinism(prop, seed, n, tier="quick"):
    """Every run twice: digests must agree.  (Other worker counts and hash
    seeds are covered by calling this from tools/determinism.sh.)"""
    mod = importlib.import_module("checks." + prop.lower())
    load_library()
    if hasattr(mod, "setup"):
        mod.setup()
    a, _ = batch(mod, prop, seed, n, tier, workers=8)
    b, _ = batch(mod, prop, seed, n, tier, workers=3)
    da = {i: (r["status"], r.get("digest"), r.get("error", "")[-300:]) for i, r in a}
    db = {i: (r["status"], r.get("digest"), r.get("error", "")[-300:]) for i, r in b}
    diff = [i for i in da if i in db and da[i] != db[i]]
    print(f"{prop}: {len(da)} runs twice, {len(diff)} differ {diff[:5]}")
    h = hashlib.sha256(json.dumps(sorted((i, da[i][1]) for i in da)).encode()).hexdigest()[:16]
    print(f"{prop}: batch digest {h}")
    return 1 if diff else 0
