"""C15: a parallel fit or sampling run gives the serial answer."""
import math
import random

import numpy as np

from simlib import evalcheck as EC, pool as PL, threads, usermat, world as W
from simlib.core import SutError, Violation

from . import c09

RUNS = {"quick": 1800, "thorough": 24000}
LEVEL = "exploration"
RULE = ("one run = one objective (or several fitted together), one optimiser or sampler with a random seed, run serially on fresh objects and then several "
        "times on one set of objects through simulated pools and with interruptions and restarts; non-trivial = at least one pool or interrupted run")
MIN_EVENTS = 2
NEED_FAULT = True
SHRINK = ("tries",)
TECH = "schedules and faults of the worker pool and interruption points of differential evolution, MCMC and parallel-tempering runs"
NOTE = "Each completed run is compared with the serial run on fresh objects; the final objective values also with the independent reference."
STATE = "distinct (method, kind of attempt, number of varying parameters, interrupted function) and pool completion patterns"
REAL = ["refellips", "refnx CurveFitter, emcee and ptemcee", "scipy differential_evolution", "pickle protocols"]
STUB = ["worker pool (pickled messages, simulated time)", "Ctrl-C (raised at a chosen library line or inside a user material)"]
ASSUME = c09.ASSUME + ["the optimiser and samplers are deterministic functions of seed and objective values"]
PROBES = ["de", "mcmc", "pt", "global objective", "interrupted run", "interrupted pool run", "pool run", "worker crashed", "fit succeeded", "final value checked"]

EXC = ["KeyboardInterrupt", "KeyboardInterrupt", "MemoryError", "RuntimeError"]


def gen(rng, tier):
    w = W.gen_world(rng, nmat=(1, 3), nslab=(1, 3), nstruct=(1, 2), nmodel=(1, 2), ndata=(1, 2), nobj=(1, 3), must_user=rng.random() < 0.7)
    for d in w["data"]:
        n = rng.randint(1, 3)
        d["rows"], d["mask"] = d["rows"][:n], d["mask"][:n]
        if not any(d["mask"]):
            d["mask"][0] = 1
    # few varying parameters, all with finite uniform bounds
    for k in list(w["bounds"]):
        if w["bounds"][k][0] != "unif":
            del w["bounds"][k]
    w["vary"] = [k for k in w["vary"] if k in w["bounds"]]
    rng.shuffle(w["vary"])
    w["vary"] = w["vary"][: rng.randint(1, 4)]
    if not w["vary"]:
        w["vary"] = ["s2.thick"]
        w["alias"], w["constr"] = {}, {}
        w["bounds"]["s2.thick"] = ["unif", w["vals"]["s2.thick"] - 5, w["vals"]["s2.thick"] + 20]
    tries = []
    for _ in range(rng.randint(1, 3 if tier == "quick" else 8)):
        x = rng.random()
        pool = PL.gen(rng) if x < 0.7 else None
        stop = None
        if pool is None or rng.random() < 0.4:
            stop = [rng.choice(["hook", "line"]), rng.choice(EXC), int(2 ** rng.uniform(0, 11))]
        tries.append([pool, stop])
    return dict(world=w, method=rng.choice(["de", "de", "mcmc", "mcmc", "pt"]), obj=rng.randrange(100), glob=rng.random() < 0.3, seed=rng.randrange(1 << 31),
                pop=rng.randint(2, 4), gens=rng.randint(1, 3), target=rng.choice(["nll", "nlpost"]), tries=tries,
                strategy=rng.choice(["best1bin", "rand1exp", "currenttobest1bin"]))


def pick(w, plan):
    """-> objective, indices"""
    n = len(w.objs)
    oi = plan["obj"] % n
    if plan["glob"] and n > 1:
        from refnx.analysis import GlobalObjective

        same = [i for i in range(n) if bool(w.objs[i].weighted) == bool(w.objs[oi].weighted)]
        if len(same) > 1:
            return GlobalObjective([w.objs[i] for i in same]), same
    return w.objs[oi], [oi]


def fit(w, plan, pool):
    from refnx.analysis import CurveFitter

    obj, ids = pick(w, plan)
    mapper = map if pool is None else pool.map
    nv = len(obj.varying_parameters())
    if plan["method"] == "de":
        f = CurveFitter(obj)
        r = f.fit("differential_evolution", target=plan["target"], seed=plan["seed"], workers=mapper, updating="deferred", polish=False,
                  popsize=plan["pop"], maxiter=plan["gens"], tol=1e-1, verbose=False, strategy=plan["strategy"])
        out = dict(x=r.x, fun=float(r.fun), nfev=int(r.nfev), nit=int(r.nit), ok=bool(r.success), pop=r.population, energies=r.population_energies)
        if r.success:
            out["stderr"] = np.asarray(r.stderr, float)
            out["pars"] = [float(p.value) for p in obj.varying_parameters()]
        return out
    nwalk = 2 * nv + 2 * (plan["pop"] - 2)
    f = CurveFitter(obj, nwalkers=nwalk, ntemps=-1 if plan["method"] == "mcmc" else 2)
    # explicit start positions: refnx redraws walkers outside the bounds from an unseeded generator
    rng = random.Random(plan["seed"])
    nw = nwalk if plan["method"] == "mcmc" else 2 * nwalk
    bnd = [w.state["bounds"][w.keyof(p)] for p in obj.varying_parameters()]
    pos = np.array([[b[1] + (b[2] - b[1]) * rng.uniform(0.02, 0.98) for b in bnd] for _ in range(nw)])
    f.initialise(pos if plan["method"] == "mcmc" else pos.reshape(2, -1, nv), random_state=plan["seed"] % 100000)
    res = f.sample(plan["gens"], random_state=(plan["seed"] // 7) % 100000, pool=1 if pool is None else pool.map, verbose=False)
    out = dict(chain=np.array(f.chain), pars=[float(p.value) for p in obj.varying_parameters()], res=[[float(r.median), float(r.stderr)] for r in res])
    out["logpost"] = np.array(f.logpost)
    return out


def start(w):
    for k, p in w.par.items():
        if k not in w.state["constr"]:
            p.value = w.state["vals"][k]


def same(a, b):
    if isinstance(a, SutError) or isinstance(b, SutError):
        return isinstance(a, SutError) and isinstance(b, SutError) and type(a.exc) is type(b.exc)
    if a.keys() != b.keys():
        return False
    for k in a:
        x, y = np.asarray(a[k], float), np.asarray(b[k], float)
        tol = 1e-3 if k == "stderr" else 1e-7
        if x.shape != y.shape or not np.allclose(x, y, rtol=tol, atol=tol, equal_nan=True):
            return False
    return True


def show(a):
    if isinstance(a, SutError):
        return repr(a)
    return repr({k: np.round(np.asarray(v, float), 8).ravel()[:4].tolist() for k, v in a.items()})[:500]


def execute(plan, sim):
    base = W.World(plan["world"])
    obj, ids = pick(base, plan)
    keys = [base.keyof(p) for p in obj.varying_parameters()]
    if not keys or None in keys:
        return
    if len(ids) > 1:
        sim.probe("global objective")
    sim.probe(plan["method"])
    want = sim.call(fit, base, plan, None)
    sim.log("serial", plan["method"], show(want))
    truth(plan, keys, ids, want, sim)
    w = W.World(plan["world"])
    for spec, stop in plan["tries"]:
        sim.now += 1
        start(w)
        pool = PL.Pool(sim, spec) if spec else None
        if stop is not None:
            sim.state(plan["method"], "pool" if pool else "serial", stop[0], len(keys))
            if interrupted(w, plan, pool, stop, sim):
                sim.log("interrupted", *stop)
                sim.probe("interrupted run")
                if pool:
                    sim.probe("interrupted pool run")
            start(w)
            pool = PL.Pool(sim, dict(spec, seed=spec["seed"] + 1)) if spec else None
        got = sim.call(fit, w, plan, pool)
        sim.state(plan["method"], "pool" if pool else "serial", len(keys))
        sim.log("pool" if pool else "again", show(got))
        if pool:
            sim.probe("pool run")
            if sim.faults.get("pool:crash-before") or sim.faults.get("pool:crash-after"):
                sim.probe("worker crashed")
        if not same(want, got):
            how = ("a pool" if pool else "serially") + (" after an interrupted run" if stop else "")
            raise Violation("different-result", f"{plan['method']} run through {how} gives {show(got)}, the serial run {show(want)}")
        if not isinstance(got, SutError) and got.get("ok"):
            sim.probe("fit succeeded")


def interrupted(w, plan, pool, stop, sim):
    how, exc, n = stop
    cls = getattr(__import__("builtins"), exc)
    if how == "line":
        with threads.LineInterrupt(n, cls) as li:
            sim.call(fit, w, plan, pool)
        if li.fired:
            sim.fault("line:" + exc)
            sim.state("line", li.fired[0])
        return bool(li.fired)
    left = [1 + n % 97]
    fired = []

    def hook(tag):
        left[0] -= 1
        if left[0] == 0:
            fired.append(tag)
            raise cls("simulated")

    usermat._hook = hook
    try:
        sim.call(fit, w, plan, pool)
    finally:
        usermat._hook = None
    if fired:
        sim.fault("hook:" + exc)
    return bool(fired)


def truth(plan, keys, ids, want, sim):
    """the values the serial run reports are those of the reference"""
    if isinstance(want, SutError):
        return
    v = W.World.__new__(W.World)
    v.__dict__.update(W.World(plan["world"]).__dict__)

    def total(vec):
        for k, x in zip(keys, vec):
            v.state["vals"][k] = float(x)
        logl = logp = 0.0
        for i in ids:
            e = EC.expected_obj(v, i, sim)
            if e is None or not e["ok"]:
                return None
            logl += e["logl"]
            logp += e["logp"]
        return logl, logp

    if plan["method"] == "de":
        t = total(want["x"])
        got = -want["fun"]
        use = 0 if plan["target"] == "nll" else 1
    elif plan["method"] == "mcmc":
        lp = want["logpost"]
        if lp.shape != want["chain"].shape[:-1]:
            return
        t = total(want["chain"][-1, 0])
        got, use = float(lp[-1, 0]), 1
    else:
        return
    if t is None:
        return
    e = t[0] + use * t[1]
    sim.probe("final value checked")
    if not (math.isfinite(e) or math.isfinite(got)):
        return
    if not W.num_close(got, e, rel=2e-5, ab=2e-5):
        raise Violation("run-value", f"the {plan['method']} run reports {got:.10g} where the reference gives {e:.10g}")
