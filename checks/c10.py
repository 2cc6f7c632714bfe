"""C10: failed, interrupted or rejected evaluations and edits leave nothing behind."""
import random

import numpy as np

from simlib import evalcheck as EC, threads, usermat, world as W
from simlib.core import SutError, Violation

from . import c09

RUNS = {"quick": 3000, "thorough": 50000}
LEVEL = "exploration"
RULE = ("one run = a random world, a random history of edits and evaluations, and evaluations aborted at a chosen material access, log-probability call "
        "or library line, or edits and values that must be rejected; all observables then compared with the independent reference; "
        "non-trivial = at least one fault was injected")
MIN_EVENTS = 6
NEED_FAULT = True
SHRINK = ("ops",)
TECH = "histories of edits and evaluations in which evaluations are aborted at arbitrary points and invalid input is rejected"
NOTE = "After each abort the parameter values are set again and every observable is compared with a from-scratch reference."
STATE = "distinct (failing operation, fault, line function or access count) combinations"
REAL = c09.REAL
STUB = ["user-written materials and log-probability terms that fail on command", "Ctrl-C / MemoryError raised at a chosen line of the library (sys.settrace)"]
ASSUME = c09.ASSUME + ["an interruption at an arbitrary library line is only judged when all datasets of a world share one delta convention "
                       "(an interruption between two statements of a try/finally that switches the convention is not survivable in Python)"]
PROBES = ["abort inside covar", "abort with new values", "rejection", "bad value then restored", "line interrupt fired", "extra fired"]

EXC = ["ValueError", "KeyboardInterrupt", "MemoryError", "FloatingPointError", "ZeroDivisionError", "StopIteration", "LinAlgError", "AssertionError"]
TARGETS = ["model", "model", "residuals", "chisqr", "logl", "logpost", "covar", "slabs", "profile", "str", "plot", "splot", "mat"]
REJECT = ["setp", "setpnan", "setpinf", "modelp", "objp", "append", "ior", "solvent", "dep", "structure", "plotp", "ctor"]
SPOIL = ["nan", "inf", "ema", "points", "dep", "ends"]


def gen(rng, tier):
    w = W.gen_world(rng, must_user=True)
    line = rng.random() < 0.4
    if line:
        v = rng.randrange(2)
        for d in w["data"]:
            d["reflect"] = v
    for o in w["objs"]:
        if rng.random() < 0.4:
            o["extra"] = -2.5
    n = rng.randint(3, 12 if tier == "quick" else 30)
    kinds = rng.sample(sorted(set(c09.EDITS)), rng.randint(3, len(set(c09.EDITS))))
    if line:
        kinds = [k for k in kinds if k not in ("newobj",)] or ["set"]
    ops = []
    r3 = lambda: [rng.randrange(1000), rng.randrange(1000), rng.randrange(1 << 30)]
    for _ in range(n):
        x = rng.random()
        if x < 0.25:
            ops.append([rng.choice([e for e in c09.EDITS if e in kinds])] + r3())
        elif x < 0.4:
            ops.append([rng.choice(c09.EVALS)] + r3())
        elif x < 0.75:
            mode = "line" if line and rng.random() < 0.7 else "hook"
            nth = int(2 ** rng.uniform(0, 9)) if mode == "line" else int(2 ** rng.uniform(0, 4.5))
            ops.append(["fail"] + r3() + [rng.choice(TARGETS), mode, nth, rng.choice(EXC), int(rng.random() < 0.5)])
        elif x < 0.9:
            ops.append(["reject"] + r3() + [rng.choice(REJECT)])
        else:
            ops.append(["spoil"] + r3() + [rng.choice(SPOIL)])
    return dict(world=w, ops=ops)


def execute(plan, sim):
    w = W.World(plan["world"])
    for op in plan["ops"]:
        sim.log(*op[:3], *op[4:])
        if op[0] == "fail":
            fail(w, op, sim)
        elif op[0] == "reject":
            reject(w, op, sim)
        elif op[0] == "spoil":
            spoil(w, op, sim)
        else:
            c09.step(w, op, sim)
        sim.now += 1
    c09.step(w, ["final", 0, 0, 1], sim)


def exc(name):
    if name == "LinAlgError":
        return np.linalg.LinAlgError
    return __builtins__[name] if isinstance(__builtins__, dict) else getattr(__builtins__, name)


def restore(w):
    for k, p in w.par.items():
        if k not in w.state["constr"]:
            p.value = w.state["vals"][k]


def after(w, sim, seed):
    """all observables, in an order the plan decides"""
    rng = random.Random(seed)
    st = w.state
    todo = [("m", i) for i in range(len(st["models"]))] + [("o", i) for i in range(len(st["objs"]))] + \
           [("s", i) for i in range(len(st["structs"]))] + [("x", i) for i in range(len(st["mats"]))]
    rng.shuffle(todo)
    for k, i in todo:
        if k == "m":
            EC.model(w, i, W.gen_points(rng, 3), sim)
        elif k == "o":
            EC.objective(w, i, sim, what=rng.sample(["residuals", "chisqr", "logp", "logl", "logpost"], 3))
        elif k == "s":
            if rng.random() < 0.3:
                EC.profile(w, i, 612.5, sim)
            EC.slabs(w, i, 555.5, sim)
        else:
            EC.material(w, i, [450.0, 800.0], sim)
    c09.check_values(w)


def target(w, name, a, rng, newvals):
    """-> callable performing the evaluation"""
    st = w.state
    mi, oi, si = a % len(st["models"]), a % len(st["objs"]), a % len(st["structs"])
    o = w.objs[oi]

    def vec(ps):
        out = []
        for p in ps:
            k = w.keyof(p)
            out.append(W.in_range(rng, k, st) if k else 1.0)
        return np.array(out)

    if name == "model":
        pts = np.array(W.gen_points(rng, rng.randint(1, 5)), float)
        m = w.models[mi]
        if newvals:
            ps = []
            from refnx._lib import flatten

            for p in flatten(m.parameters):
                if p.vary and not any(p is q for q in ps):
                    ps.append(p)
            pv = vec(ps)
            return lambda: m(pts, pv)
        return lambda: m(pts)
    if name in ("residuals", "chisqr", "logl", "logpost"):
        if newvals:
            pv = vec(o.varying_parameters())
            return lambda: getattr(o, name)(pv)
        return lambda: getattr(o, name)()
    if name == "covar":
        return lambda: o.covar()
    if name == "slabs":
        return lambda: w.structs[si].slabs(wavelength=round(rng.uniform(400, 900), 1))
    if name == "profile":
        return lambda: w.structs[si].ri_profile()
    if name == "str":
        return lambda: str(o)
    if name == "plot":
        return lambda: _plot(o.plot)
    if name == "splot":
        return lambda: _plot(w.structs[si].plot)
    if name == "mat":
        return lambda: [complex(w.mats[i].complex(500.0)) for i in range(len(w.mats))]
    raise KeyError(name)


def _plot(fn):
    return fn(fig=StubFig())


class StubAxes:
    """accepts every drawing call"""

    def __init__(self, fail_at=None, exc=None):
        self.n, self.fail_at, self.exc = 0, fail_at, exc
        self.transAxes = None

    def _draw(self):
        self.n += 1
        if self.fail_at is not None and self.n == self.fail_at:
            raise self.exc("simulated")

    def twinx(self):
        return self

    def __getattr__(self, k):
        if k.startswith("__"):
            raise AttributeError(k)

        def f(*a, **kw):
            self._draw()

        return f


class StubFig:
    def __init__(self, ax=None):
        self.ax = ax or StubAxes()

    def gca(self):
        return self.ax

    def add_subplot(self, *a):
        return self.ax


def fail(w, op, sim):
    _, a, b, seed, tname, mode, nth, en, newvals = op
    rng = random.Random(seed)
    # the objective's convention on a shared bare model is unaffected by evaluations
    call = target(w, tname, a, rng, newvals)
    E = exc(en)
    if mode == "line":
        E = KeyboardInterrupt if b % 2 else MemoryError
        tr = threads.LineInterrupt(nth, E)
        with tr:
            got = sim.call(call)
        fired = tr.fired
        if fired:
            sim.probe("line interrupt fired")
            sim.state(tname, E.__name__, fired[0])
    else:
        box = dict(n=0, fired=None)

        def hook(tag):
            box["n"] += 1
            if box["n"] == nth:
                box["fired"] = tag
                raise E("simulated")

        usermat._hook = hook
        try:
            got = sim.call(call)
        finally:
            usermat._hook = None
        fired = box["fired"]
        if fired == "extra":
            sim.probe("extra fired")
        sim.state(tname, en, box["n"] if fired is not None else -1)
    if fired is not None:
        sim.fault(f"{mode}:{E.__name__}")
        sim.log("fired", str(fired), isinstance(got, SutError))
        if newvals:
            sim.probe("abort with new values")
        if tname == "covar":
            sim.probe("abort inside covar")
    restore(w)
    after(w, sim, seed)


def reject(w, op, sim):
    _, a, b, seed, kind = op
    rng = random.Random(seed)
    st = w.state
    mi, oi, si = a % len(st["models"]), a % len(st["objs"]), a % len(st["structs"])
    o, m, s = w.objs[oi], w.models[mi], w.structs[si]
    from refnx._lib import flatten

    def wrong(root):
        nf = len(list(flatten(root.parameters)))
        seen = []
        for p in flatten(root.parameters):
            if p.vary and not any(p is q for q in seen):
                seen.append(p)
        n = rng.choice([x for x in (0, 1, 2, 3, len(seen) - 1, len(seen) + 1, nf - 1, nf + 1) if x >= 0 and x not in (len(seen), nf)])
        return [W.r(rng, 1, 2) for _ in range(n)], len(seen)

    pts = np.array(W.gen_points(rng, 2), float)
    if kind == "setp":
        v, _ = wrong(o)
        call = lambda: o.setp(np.array(v))
    elif kind == "objp":
        v, _ = wrong(o)
        q = rng.choice(["residuals", "chisqr", "logp", "logl", "logpost", "nlpost"])
        call = lambda: getattr(o, q)(np.array(v))
    elif kind == "modelp":
        v, _ = wrong(m)
        call = lambda: m(pts, np.array(v))
    elif kind == "setpnan":
        keys = w.varying_keys(oi)
        if not keys:
            return
        v = [W.in_range(rng, k, st) for k in keys]
        v[rng.randrange(len(v))] = rng.choice(["abc", "", object()])
        call = rng.choice([lambda: o.setp(v), lambda: o.residuals(v), lambda: o.logpost(v)])
    elif kind == "setpinf":  # may be refused (then nothing changes) or accepted
        keys = w.varying_keys(oi)
        if not keys:
            return
        v = [W.in_range(rng, k, st) for k in keys]
        for _ in range(rng.randint(1, 2)):
            v[rng.randrange(len(v))] = rng.choice([float("nan"), float("inf"), -float("inf"), 1e300])
        got = sim.call(o.setp, rng.choice([list, np.array])(v))
        if not isinstance(got, SutError):
            for k in keys:
                w.setval(k, st["vals"][st["alias"].get(k, k)])
            return

        def call():
            raise ValueError("refused")
    elif kind == "append":
        x = rng.choice([3.0, "x", object(), None, w.models[mi], w.data[0]])
        call = lambda: s.append(x)
    elif kind == "ior":
        x = rng.choice([3.0, "x", object(), None, w.models[mi], w.data[0]])

        def call():
            t = s
            t |= x
    elif kind == "solvent":
        x = rng.choice([3.0, "x", 1.5 + 0.1j, w.slabs[0], w.data[0]])

        def call():
            s.solvent = x
    elif kind == "dep":
        x = rng.choice([-0.1, 1.1, 5, -3, float("nan"), "x"])

        def call():
            s.depolarisation_factor = x
    elif kind == "structure":
        x = rng.choice([3.0, None, w.slabs[0], w.mats[0]])

        def call():
            m.structure = x
    elif kind == "plotp":
        v, _ = wrong(s)
        call = lambda: s.plot(pvals=np.array(v), fig=StubFig())
    elif kind == "ctor":
        from refellips import ReflectModelSE, SlabSE

        call = rng.choice([lambda: ReflectModelSE(w.slabs[0]), lambda: SlabSE(w.P("s2.thick"), 1.5, 3.0)])
    else:
        raise KeyError(kind)
    sim.fault("reject:" + kind)
    sim.probe("rejection")
    got = sim.call(call)
    if not isinstance(got, SutError):
        raise Violation("accepted", f"invalid input accepted: {kind}")
    sim.state("reject", kind)
    # nothing at all may have changed: no values are set again
    c09.check_values(w)
    if m.structure is not w.structs[st["models"][mi]["s"]]:
        raise Violation("rejected-but-changed", "the model's structure was replaced by a rejected one")
    check_struct(w, si)
    after(w, sim, seed)


def check_struct(w, si):
    st, s = w.state["structs"][si], w.structs[si]
    if [c for c in s.components] != [w.slabs[c] for c in st["c"]]:
        raise Violation("rejected-but-changed", "the structure's components changed")
    sv = None if st["solvent"] is None else w.mats[st["solvent"]]
    if s.solvent is not sv or s.ema != st["ema"] or bool(s.reverse_structure) != bool(st["rev"]) or abs(s.depolarisation_factor - st["dep"]) > 1e-12:
        raise Violation("rejected-but-changed", "the structure's settings changed")


def spoil(w, op, sim):
    """set something invalid, evaluate (may fail or give nonsense), set it back"""
    _, a, b, seed, kind = op
    rng = random.Random(seed)
    st = w.state
    si = a % len(st["structs"])
    s = w.structs[si]
    oi = b % len(st["objs"])
    evals = [lambda: w.objs[oi].logpost(), lambda: w.objs[oi].residuals(), lambda: w.models[a % len(w.models)](np.array([[500.0, 60.0], [600.0, 50.0]])),
             lambda: s.slabs(wavelength=500.0), lambda: s.ri_profile(), lambda: str(w.objs[oi]), lambda: w.objs[oi].covar()]
    rng.shuffle(evals)
    if kind in ("nan", "inf"):
        free = [k for k in sorted(w.par) if k not in st["constr"]]
        # not a thickness: an infinite profile would be a memory question
        free = [k for k in free if not k.endswith((".thick", ".rough"))] or free[:1]
        k = free[b % len(free)]
        w.par[k].value = rng.choice([float("nan"), 1e300, -1e300, 0.0, -5.0]) if kind == "inf" else float("nan")
    elif kind == "ema":
        s.ema = rng.choice(["foo", None, 3])
    elif kind == "points":
        bad = rng.choice([np.zeros((3, 3)), np.zeros(4), np.array([[0.0, 60.0]]), np.array([[np.nan, 60.0]]), np.zeros((0, 2)), [[500, 60]], None])
        evals = [lambda: w.models[a % len(w.models)](bad)] + evals[:1]
    elif kind == "dep":
        s.depolarisation_factor = rng.choice([0.0, 1.0])
    elif kind == "ends":
        # a structure without a proper first component cannot be evaluated
        c = s[0]
        del s[0]
        for e in evals[:3]:
            sim.call(e)
        s.insert(0, c)
    sim.fault("spoil:" + kind)
    n = rng.randint(1, 4)
    for e in evals[:n]:
        with np.errstate(all="ignore"):
            sim.call(e)
    # put back
    s.ema = st["structs"][si]["ema"]
    s.depolarisation_factor = st["structs"][si]["dep"]
    restore(w)
    sim.probe("bad value then restored")
    sim.state("spoil", kind)
    after(w, sim, seed)
