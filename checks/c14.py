"""C14: copies and worker copies are faithful and independent."""
import copy
import pickle
import random

import numpy as np

from simlib import evalcheck as EC, pool as PL, world as W
from simlib.core import SutError, Violation

from . import c09, c12

RUNS = {"quick": 2600, "thorough": 40000}
LEVEL = "exploration"
RULE = ("one run = a random world, a history of edits, whole and partial copies (copy, deepcopy, pickle), edits on either side, and evaluations on simulated "
        "pool workers with reordering, duplication, loss, crash and restart; non-trivial = at least one copy or pool map")
MIN_EVENTS = 4
SHRINK = ("ops",)
TECH = "histories of edits, copies and evaluations, and schedules and faults of pool workers"
NOTE = "Every copy and every worker result is compared with the independent reference of the configuration at copy time; independence by editing both sides."
STATE = "distinct (what is copied, how, features) and pool completion patterns"
REAL = ["refellips structure/model/objective/data/dispersion code", "copy and pickle protocols", "refnx Parameter machinery"]
STUB = ["worker pool (pickled messages, simulated time)", "clients"]
ASSUME = c09.ASSUME + ["logp_extra and user materials are picklable"]
PROBES = ["whole world cloned", "pool map", "worker crashed", "copy of an edited structure", "interfaces or contraction", "copy of a copy", "constraint copied"]

HOW = ["copy", "deepcopy", "pickle", "pickle2", "pickle0", "deeppickle"]
WHAT = ["struct", "struct", "model", "objective", "objective", "data", "mat", "slab"]


def gen(rng, tier):
    w = W.gen_world(rng)
    for k in sorted(w["vals"]):
        if rng.random() < 0.15 and k in w["bounds"] and k not in w["vary"] and k not in w["alias"] and k not in w["constr"]:
            w["vary"].append(k)
    n = rng.randint(4, 14 if tier == "quick" else 40)
    ops = []
    r3 = lambda: [rng.randrange(1000), rng.randrange(1000), rng.randrange(1 << 30)]
    for _ in range(n):
        x = rng.random()
        if x < 0.35:
            ops.append(["edit", rng.randrange(100), [rng.choice(c09.EDITS)] + r3()])
        elif x < 0.45:
            ops.append(["eval", rng.randrange(100), [rng.choice(c09.EVALS)] + r3()])
        elif x < 0.6:
            ops.append(["clone", rng.randrange(100), rng.choice([h for h in HOW if h != "copy"])])
        elif x < 0.85:
            ops.append(["one", rng.randrange(100), rng.choice(WHAT), rng.choice(HOW)] + r3() + [rng.choice(["", "", "interface", "contract"])])
        else:
            ops.append(["pool", rng.randrange(100), rng.randrange(1000), rng.choice(["logpost", "logl", "chisqr", "residuals", "nlpost", "logp"]),
                        rng.randint(1, 10), PL.gen(rng), rng.randrange(1 << 30)])
    return dict(world=w, ops=ops)


def dup(x, how):
    if how == "copy":
        return copy.copy(x)
    if how == "deepcopy":
        return copy.deepcopy(x)
    if how == "deeppickle":
        return pickle.loads(pickle.dumps(copy.deepcopy(x)))
    return pickle.loads(pickle.dumps(x, protocol={"pickle": 5, "pickle2": 2, "pickle0": 4}[how]))


def clone(w, how, sim):
    got = sim.call(dup, dict(mats=w.mats, slabs=w.slabs, structs=w.structs, models=w.models, data=w.data, objs=w.objs, par=w.par), how)
    if isinstance(got, SutError):
        raise Violation("copy-failed", f"{how} of a fit raised {got!r}")
    v = W.World.__new__(W.World)
    v.__dict__.update(got)
    v.state = copy.deepcopy(w.state)
    v.seam = None
    return v


def shadow(w, obj):
    """a view on a copied object: own state, parameters found by name"""
    v = W.World.__new__(W.World)
    v.state = copy.deepcopy(w.state)
    v.par = {}
    for p in obj.parameters.flattened():
        v.par[p.name] = p
    return v


def observe(kind, x, sim):
    """canonical values of an object (features the reference does not model included)"""
    pts = np.array([[450.0, 55.0], [633.0, 65.0], [633.0, 70.0]])

    def f():
        with np.errstate(all="ignore"):
            if kind == "struct":
                own = x.wavelength  # what it was last asked for, or was told
                now = [] if own is None else [x.slabs()]
                try:
                    return now + [own, x.name] + [x.slabs(wavelength=q) for q in (450.0, 700.0)] + [x.ri_profile(z=np.linspace(-20.0, 150.0, 18))]
                finally:
                    x.wavelength = own
            if kind == "model":
                return list(x(pts)) + [x.structure.slabs(wavelength=500.0)]
            if kind == "objective":
                return [getattr(x, q)() for q in ("residuals", "chisqr", "logp", "logl", "logpost")] + list(x.model(pts))
            if kind == "data":
                return [list(x.data), np.array(x.mask), len(x), x.name, bool(x.weighted), [list(q) for q in x.unique_wavelength_data()], x.filename, x.delimiter, sorted((str(k), str(v)) for k, v in x.metadata.items())]
            if kind == "mat":
                return [complex(x.complex(q)) for q in (450.0, 700.0)] + [complex(x), x.name]
            if kind == "slab":
                return [x.slabs(), x.name, repr(x.interfaces)]

    return c12.canon(sim.call(f))


def differ(a, b):
    return not c12.agree(a, b, 1e-9)


def execute(plan, sim):
    worlds = [W.World(plan["world"])]
    kept = []
    for op in plan["ops"]:
        w = worlds[op[1] % len(worlds)]
        sim.log(*[x for x in op if not isinstance(x, (list, dict))])
        sim.now += 1
        if op[0] in ("edit", "eval"):
            c09.step(w, op[2], sim)
        elif op[0] == "clone":
            if len(worlds) < 4:
                worlds.append(clone(w, op[2], sim))
                sim.probe("whole world cloned")
                sim.state("clone", op[2], len(worlds))
                if w.state["constr"]:
                    sim.probe("constraint copied")
                c09.step(worlds[-1], ["final", 0, 0, 1], sim)
        elif op[0] == "one":
            one(w, op, sim, kept)
        else:
            pool(w, op, sim)
    for v in worlds:
        c09.step(v, ["final", 0, 0, 1], sim)
    for kind, c, before, v in kept:
        if differ(observe(kind, c, sim), before):
            raise Violation("not-independent", f"a copied {kind} changed when other objects were edited")


def one(w, op, sim, kept):
    _, _, kind, how, a, b, seed, feat = op
    rng = random.Random(seed)
    st = w.state
    seqs = dict(struct=w.structs, model=w.models, objective=w.objs, data=w.data, mat=w.mats, slab=w.slabs)
    i = a % len(seqs[kind])
    orig = seqs[kind][i]
    undo = None
    s = None
    if feat and kind in ("struct", "model", "objective"):
        s = orig if kind == "struct" else orig.structure if kind == "model" else orig.model.structure
        if feat == "interface" and sum(abs(float(q.thick.value)) for q in s) > 120:
            s = None  # micro-slicing a thick stack costs seconds
    if s is not None:
        if feat == "contract":
            s.contract = rng.choice([0.5, 2.0])

            def undo():
                s.contract = 0
        else:
            from refnx.reflect.interface import Erf, Linear, Tanh

            comp = s[rng.randrange(1, len(s))]
            comp.interfaces = rng.choice([Linear(), Tanh(), Erf()])
            thin = comp.rough.value
            if comp.rough.constraint is None:
                comp.rough.value = 3.0

            def undo():
                comp.interfaces = None
                if comp.rough.constraint is None:
                    comp.rough.value = thin
        sim.probe("interfaces or contraction")
    before = observe(kind, orig, sim)
    c = sim.call(dup, orig, how)
    if isinstance(c, SutError):
        raise Violation("copy-failed", f"{how} of a {kind} raised {c!r}")
    if type(c) is not type(orig):
        raise Violation("unfaithful", f"{how} of a {kind} is a {type(c).__name__}")
    if b % 4 == 0:
        c = sim.call(dup, c, how)
        sim.probe("copy of a copy")
        if isinstance(c, SutError):
            raise Violation("copy-failed", f"second {how} of a {kind} raised {c!r}")
    sim.state(kind, how, feat)
    got = observe(kind, c, sim)
    if differ(got, before):
        raise Violation("unfaithful", f"{how} of {kind} {i} gives {repr(got)[:300]}, the original {repr(before)[:300]}")
    if differ(observe(kind, orig, sim), before):
        raise Violation("not-independent", f"evaluating a {how} of {kind} {i} changed the original")
    deep = how != "copy"
    if kind == "data":
        if deep:
            arr = [np.array([500.0, 600.0]), np.array([50.0, 60.0]), np.array([20.0, 30.0]), np.array([200.0, 100.0])]
            c.mask = [rng.random() < 0.5 for _ in np.asarray(c.mask)]
            if differ(observe(kind, orig, sim), before):
                raise Violation("not-independent", f"masking a {how} of a dataset changed the original")
            c.metadata["note"] = "copy"
            if differ(observe(kind, orig, sim), before):
                raise Violation("not-independent", f"editing the metadata of a {how} of a dataset changed the original")
            c.data = tuple(arr)
            if differ(observe(kind, orig, sim), before):
                raise Violation("not-independent", f"assigning data to a {how} of a dataset changed the original")
            e = W.shown_delta(200.0, st["data"][i]["reflect"])
            if abs(float(c.delta[0]) - e) > 1e-9:
                raise Violation("unfaithful", f"a {how} of a dataset has another delta convention")
    elif deep:
        v = shadow(w, c)
        ks = sorted(k for k in v.par if k in w.par and k not in st["constr"])
        # edit the copy
        if ks:
            for _ in range(3):
                k = rng.choice(ks)
                if v.par[k] is w.par[k]:
                    raise Violation("not-independent", f"parameter {k} is shared between a {kind} and its {how}")
                v.setval(k, W.in_range(rng, k, st))
            if kind == "objective" and rng.random() < 0.5:
                keys = [p.name for p in c.varying_parameters()]
                vals = [W.in_range(rng, k, st) for k in keys]
                if keys:
                    c.setp(np.array(vals))
                    for k, x in zip(keys, vals):
                        v.state["vals"][k] = x
            if kind == "struct" and rng.random() < 0.5:
                c.ema = v.state["structs"][i]["ema"] = rng.choice(["linear", "maxwell-garnett", "bruggeman"])
                c.reverse_structure = not c.reverse_structure
                v.state["structs"][i]["rev"] = int(c.reverse_structure)
                if len(c) > 2 and rng.random() < 0.5:
                    del c[1]
                    v.state["structs"][i]["c"] = st["structs"][i]["c"][:1] + st["structs"][i]["c"][2:]
        if differ(observe(kind, orig, sim), before):
            raise Violation("not-independent", f"editing a {how} of {kind} {i} changed the original")
        if undo is None:
            c09.check_values(w)
            vp = {k: p for k, p in v.par.items() if k in w.par}
            v.par = vp
            c09.check_values(v)
            if kind == "struct":
                EC.slabs(v, i, 512.0, sim, real=c)
            elif kind == "model":
                EC.model(v, i, W.gen_points(rng, 3), sim, real=c)
            elif kind == "objective":
                EC.objective(v, i, sim, real=c)
                EC.model(v, st["objs"][i]["m"], W.gen_points(rng, 3), sim, real=c.model)
            elif kind == "mat":
                EC.material(v, i, [444.0, 777.0], sim, real=c)
            kept.append((kind, c, observe(kind, c, sim), v))
    if kind == "struct" and not deep:  # the layers and settings are its own
        for _ in range(2):
            x = rng.randrange(5)
            if x == 0:
                c.append(w.slabs[1])
            elif x == 1 and len(c) > 2:
                del c[1]
            elif x == 2:
                c.reverse_structure = not c.reverse_structure
            elif x == 3:
                c.solvent = rng.choice([None] + w.mats)
            else:
                c.insert(1, w.slabs[rng.randrange(2, len(w.slabs))])
        if differ(observe(kind, orig, sim), before) or [q for q in orig] != [w.slabs[q] for q in st["structs"][i]["c"]]:
            raise Violation("not-independent", f"editing the layers or settings of a copy of structure {i} changed the original")
    if undo is not None:
        undo()
    if st["constr"]:
        sim.probe("constraint copied")
    if kind == "struct" and [q for q in st["structs"][i]["c"]] != []:
        sim.probe("copy of an edited structure")


def pool(w, op, sim):
    _, _, a, what, n, spec, seed = op
    rng = random.Random(seed)
    st = w.state
    oi = a % len(st["objs"])
    o = w.objs[oi]
    keys = w.varying_keys(oi)
    if not keys or None in keys:
        return
    vecs = [[W.in_range(rng, k, st) for k in keys] for _ in range(n)]
    p = PL.Pool(sim, spec)
    got = sim.call(p.map, getattr(o, what), [np.array(v) for v in vecs])
    sim.probe("pool map")
    if sim.faults.get("pool:crash-before") or sim.faults.get("pool:crash-after"):
        sim.probe("worker crashed")
    if isinstance(got, SutError):
        # the serial evaluation may legitimately raise (NaN): it must do the same
        v = clone(w, "deepcopy", sim)
        for x in vecs:
            r = sim.call(getattr(v.objs[oi], what), np.array(x))
            if isinstance(r, SutError):
                return
        raise Violation("worker-raised", f"{what} on workers raised {got!r}, serially it does not")
    for k, g in p.all:
        v = W.World.__new__(W.World)
        v.__dict__.update(w.__dict__)
        v.state = copy.deepcopy(st)
        for key, x in zip(keys, vecs[k]):
            v.state["vals"][key] = x
        exp = EC.expected_obj(v, oi, sim)
        if exp is None or (what in ("logl", "logpost", "nlpost") and not exp["ok"]):
            continue
        if what == "residuals":
            e = np.array(exp[what])
            g = np.asarray(g, float)
            if g.shape != e.shape or any(not abs(x - y) <= EC.tol_for(v, oi, i, len(e)) for i, (x, y) in enumerate(zip(g, e))):
                raise Violation("worker-value", f"residuals on a worker {g.tolist()}, expected {e.tolist()}")
        else:
            e = -exp["logpost"] if what == "nlpost" else exp[what]
            if not W.num_close(float(g), e, rel=2e-5, ab=2e-5):
                raise Violation("worker-value", f"{what} on a worker: {g}, expected {e}")
    c09.check_values(w)
