"""C11: queries leave the fit state untouched, completing, failing or abandoned."""
import importlib.util
import random

import numpy as np

from simlib import usermat, world as W
from simlib.core import SutError, Violation

from . import c09, c10

RUNS = {"quick": 4000, "thorough": 50000}
LEVEL = "exploration"
RULE = ("one run = a random world with sampled parameters and a history of queries, some failing inside a material evaluation or a drawing call, "
        "some left half-consumed and resumed later, interleaved with edits; the complete visible state is compared before and after each query; "
        "non-trivial = at least 8 logged operations")
MIN_EVENTS = 8
SHRINK = ("ops",)
TECH = "histories of queries, failing at arbitrary material accesses or drawing calls, or abandoned half-consumed, interleaved with edits"
NOTE = "Complete snapshots of parameters, structures, models and data are compared around every query, and evaluations with the reference afterwards."
STATE = "distinct (query, outcome, fault) combinations"
REAL = ["refellips objective/structure/model/data code, tools/plottools.py", "refnx Parameter machinery"]
STUB = ["user-written materials that fail on command", "figure and axes objects that record and may fail (matplotlib itself in a few runs)"]
ASSUME = ["StructureSE.wavelength is scratch space for evaluations, not fit state", "queries made without passing parameter values"]
PROBES = ["covar failed inside", "plot failed while sampling", "half-consumed pgen", "half-consumed wavelength generator", "real matplotlib",
          "plot_structure reversed", "covar with a zero parameter"]

QUERIES = ["residuals", "chisqr", "logp", "logl", "logpost", "covar", "covar", "profile", "profilez", "slabs", "model", "splot", "splot", "splots", "splots", "oplot",
           "pstruct", "pstructo", "pell", "pellres", "str", "repr", "pgen", "uwd", "adv", "drop", "prior", "lenstr", "mat", "params", "tmm", "mixing", "circ"]


def gen(rng, tier):
    w = W.gen_world(rng, must_user=rng.random() < 0.8, contract=0.25, thin=0.12)
    if rng.random() < 0.1:  # a failed reading among the data
        d = rng.choice(w["data"])
        rng.choice(d["rows"])[rng.choice([2, 3])] = float("nan")
    # give parameters a chance to vary
    for k in sorted(w["vals"]):
        if rng.random() < 0.15 and k in w["bounds"] and k not in w["vary"] and k not in w["alias"] and k not in w["constr"]:
            w["vary"].append(k)
    n = rng.randint(5, 16 if tier == "quick" else 40)
    ops = []
    kinds = rng.sample(sorted(set(QUERIES)), rng.randint(4, len(set(QUERIES))))
    kinds += [k for k in ("covar", "splots") if rng.random() < 0.5]
    for _ in range(n):
        r3 = [rng.randrange(1000), rng.randrange(1000), rng.randrange(1 << 30)]
        if rng.random() < 0.2:
            ops.append([rng.choice(c09.EDITS)] + r3)
        else:
            f = None
            if rng.random() < 0.5:
                f = [rng.choice(["hook", "hook", "draw"]), int(2 ** rng.uniform(0, 5)), rng.choice(c10.EXC)]
            ops.append(["q"] + r3 + [rng.choice(kinds), f])
    return dict(world=w, ops=ops, chains=rng.choice([0, 1, 1, 1]), real_mpl=int(rng.random() < 0.02), fixed_chain=int(rng.random() < 0.3))


_pt = None


def setup():
    global _pt
    spec = importlib.util.spec_from_file_location("plottools", "/repo/tools/plottools.py")
    _pt = importlib.util.module_from_spec(spec)
    spec.loader.exec_module(_pt)


def bkey(b, ident):
    if type(b).__name__ == "Interval":
        return ("Interval", float(b.lb), float(b.ub))
    return (type(b).__name__, ident(b))


def snapshot(w):
    s = {}
    seen = w.__dict__.setdefault("_seen", [])

    def ident(o):
        """stable name for an object, the same in every process"""
        for i, x in enumerate(seen):
            if x is o:
                return i
        seen.append(o)
        return len(seen) - 1

    for k, p in w.par.items():
        s["param " + k] = (float(p.value), bool(p.vary), bkey(p.bounds, ident), ident(p.constraint) if p.constraint is not None else None,
                           p.name, None if p.chain is None else p.chain.tobytes(), p.stderr)
    for i, t in enumerate(w.structs):
        s[f"structure {i}"] = ([ident(c) for c in t.data], bool(t.reverse_structure), ident(t.solvent) if t.solvent is not None else None, t.ema,
                               float(t.depolarisation_factor), float(t.contract), t.name)
    for i, c in enumerate(w.slabs):
        s[f"slab {i}"] = (c.name, [ident(q) for q in c.parameters.flattened()], repr(c.interfaces))
    for i, m in enumerate(w.models):
        s[f"model {i}"] = (ident(m.structure), m.name, ident(m.delta_offset))
    for i, d in enumerate(w.data):
        msk = d.mask
        s[f"data {i}"] = ([np.array(x).tobytes() for x in d.data], None if msk is None else np.array(msk).tolist(), d.name, bool(d.weighted), len(d))
        d_all = d.mask
        d.mask = None  # the complete rows, then back
        s[f"data {i} all rows"] = [np.array(x).tobytes() for x in d.data]
        d.mask = d_all
    for i, o in enumerate(w.objs):
        s[f"objective {i}"] = (ident(o.model), ident(o.data), bool(o.weighted), o.name)
    for i, m in enumerate(w.mats):
        s[f"material {i}"] = (getattr(m, "wavelength", None), m.name, [ident(q) for q in m.parameters.flattened()])
    return s


def execute(plan, sim):
    w = W.World(plan["world"])
    st = w.state
    crng = np.random.default_rng(1)
    if plan["chains"]:
        # as after an MCMC run: varying parameters, and those that follow them
        for k in sorted(w.par):
            if k in st["vary"] or k in st["constr"] or (plan["fixed_chain"] and crng.random() < 0.1):
                v = W.Ref(st).val(k)
                w.par[k].chain = v * (1 + 0.02 * crng.standard_normal((3, 4)))
    gens = []
    for op in plan["ops"]:
        sim.log(*[x for x in op if not isinstance(x, list)])
        sim.now += 1
        if op[0] != "q":
            c09.step(w, op, sim, evals=False)
            continue
        _, a, b, seed, q, f = op
        before = snapshot(w)
        ok = query(w, a, b, random.Random(seed), q, f, gens, sim, plan)
        after = snapshot(w)
        for k in before:
            if before[k] != after[k]:
                raise Violation("state-changed", f"query {q} ({ok}) changed {k}: {_short(before[k])} -> {_short(after[k])}")
        if set(after) != set(before):
            raise Violation("state-changed", f"query {q} ({ok}) added {set(after) ^ set(before)}")
    if not any(v != v for d in st["data"] for row in d["rows"] for v in row):
        c09.step(w, ["final", 0, 0, 1], sim)


def _short(x):
    return repr(x)[:300]


def query(w, a, b, rng, q, f, gens, sim, plan):
    st = w.state
    mi, oi, si, di = a % len(st["models"]), a % len(st["objs"]), a % len(st["structs"]), a % len(st["data"])
    o, m, s, d = w.objs[oi], w.models[mi], w.structs[si], w.data[di]
    draw = f and f[0] == "draw"
    arrays = []

    def arr(x):
        x = np.array(x, float)
        arrays.append((x, x.copy()))
        return x

    if draw:
        ax = c10.StubAxes(f[1], c10.exc(f[2]))
    else:
        ax = c10.StubAxes()
    fig = c10.StubFig(ax)
    if plan["real_mpl"] and not draw:
        import matplotlib.pyplot as plt

        plt.close("all")
        fig, ax = plt.subplots()
        sim.probe("real matplotlib")
    if q in ("residuals", "chisqr", "logp", "logl", "logpost", "covar"):
        call = getattr(o, q)
        if q == "covar" and any(st["vals"][k] == 0 for k in w.expected_varying(oi)):
            sim.probe("covar with a zero parameter")
    elif q == "profile":
        call = lambda: s.ri_profile(align=rng.choice([0, 0, -1, 1]))
    elif q == "profilez":
        z = arr(np.linspace(-20, 60, 7))
        call = lambda: s.ri_profile(z=z)
    elif q == "slabs":
        call = lambda: s.slabs(wavelength=500.0 + a)
    elif q == "model":
        pts = arr(W.gen_points(rng, 4))
        call = lambda: m(pts)
    elif q == "splot":
        call = lambda: s.plot(fig=fig)
    elif q == "splots":
        call = lambda: s.plot(samples=1 + b % 6, fig=fig, align=rng.choice([0, 0, -1]))
    elif q == "oplot":
        call = lambda: o.plot(xaxis=rng.choice([None, "aoi", "wavelength", "nonsense"]), fig=fig)
    elif q == "pstruct":
        rev = rng.random() < 0.5
        if rev != bool(st["structs"][si]["rev"]):
            sim.probe("plot_structure reversed")
        call = lambda: _pt.plot_structure(ax, structure=s, reverse_structure=rev)
    elif q == "pstructo":
        call = lambda: _pt.plot_structure(ax, objective=o, reverse_structure=rng.random() < 0.5)
    elif q == "pell":
        call = lambda: _pt.plot_ellipsdata(ax, data=d, model=m, xaxis=rng.choice(["aoi", "wavelength"]))
    elif q == "pellres":
        call = lambda: _pt.plot_ellipsdata(ax, objective=o, xaxis=rng.choice(["aoi", "wavelength"]), resax=ax)
    elif q == "str":
        call = lambda: [str(x) for x in (o, m, s, d)]
    elif q == "repr":
        call = lambda: [repr(x) for x in (o, m, s, d)]
    elif q == "lenstr":
        call = lambda: [(len(x), str(x)) for x in (s, d)] + [str(c) for c in s] + [repr(c) for c in s]
    elif q == "mat":
        lam = arr([450.0, 600.0])
        call = lambda: [x.complex(lam) if st["mats"][i]["k"] != "const" else complex(x) for i, x in enumerate(w.mats)] + [str(x) for x in w.mats] + [repr(x) for x in w.mats]
    elif q == "tmm":
        from refellips.reflect_modelSE import Delta_Psi_TMM

        sl = sim.call(lambda: s.slabs(wavelength=500.0))
        if isinstance(sl, SutError) or sl is None:
            return "nothing"
        layers, angles = arr(sl), arr([45.0, 60.0, 71.3])
        call = lambda: Delta_Psi_TMM(angles, layers if b % 2 else layers[..., :4], 500.0, 0.1, reflect_delta=bool(b & 4))
    elif q == "mixing":
        from refellips.structureSE import overall_ri

        na, nb, vf = arr([1.5, 2.2, 0.3]), arr([1.33, 1.0, 2.0]), arr([0.0, 0.3, 1.0])
        call = lambda: overall_ri(na, nb, vf_B=vf, ema=rng.choice(["linear", "maxwell-garnett", "bruggeman"]), depolarisation_factor=rng.choice([0.0, 1 / 3, 1.0]))
    elif q == "circ":
        from refellips.objectiveSE import circular_distance

        x, y = arr([0.0, 350.0, 725.0, -10.0]), arr([359.0, 10.0, 5.0, 190.0])
        call = lambda: circular_distance(x, y, period=360)
    elif q == "params":
        call = lambda: [list(x.parameters.flattened()) for x in (o, m, s)] + [list(o.varying_parameters()), o.npoints, o.weighted, s.interfaces]
    elif q == "prior":
        keys = w.varying_keys(oi)
        u = arr([rng.random() for _ in keys])
        call = lambda: o.prior_transform(u)
    elif q == "pgen":
        g = o.pgen(ngen=1 + b % 8) if b % 2 else s.parameters.pgen(ngen=3)
        gens.append(g)
        sim.probe("half-consumed pgen")
        call = lambda: next(g)
    elif q == "uwd":
        g = d.unique_wavelength_data()
        gens.append(g)
        sim.probe("half-consumed wavelength generator")
        call = lambda: next(g, None)
    elif q == "adv":
        if not gens:
            return "nothing"
        g = gens[b % len(gens)]
        call = lambda: next(g, None)
    elif q == "drop":
        if not gens:
            return "nothing"
        g = gens.pop(b % len(gens))
        call = g.close if b % 2 else (lambda: list(g))
    else:
        raise KeyError(q)
    box = dict(n=0, fired=None)
    if f and f[0] == "hook":
        E = c10.exc(f[2])

        def hook(tag):
            box["n"] += 1
            if box["n"] == f[1]:
                box["fired"] = tag
                raise E("simulated")

        usermat._hook = hook
    try:
        got = sim.call(call)
    finally:
        usermat._hook = None
    failed = isinstance(got, SutError)
    if box["fired"] is not None:
        sim.fault("material:" + f[2])
        if q == "covar":
            sim.probe("covar failed inside")
        if q == "splots" and failed:
            sim.probe("plot failed while sampling")
    if draw and getattr(ax, "n", 0) >= f[1]:
        sim.fault("drawing:" + f[2])
        if q == "splots" and failed:
            sim.probe("plot failed while sampling")
    for x, keep in arrays:
        if not np.array_equal(x, keep, equal_nan=np.asarray(keep).dtype.kind in 'fc'):
            raise Violation("input-modified", f"query {q} modified an array passed to it")
    sim.log("->", failed)
    sim.state(q, failed, f[0] if f else "", f[2] if f and failed else "")
    return "raised " + repr(got) if failed else "completed"
