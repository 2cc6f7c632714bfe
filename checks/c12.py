"""C12: independent fits in different threads do not disturb each other."""
import copy
import math
import os
import pickle
import random
import re

import numpy as np

from simlib import disk as D, formats as F, scratch, threads, world as W
from simlib.core import SutError, Violation

from . import c09, c10

RUNS = {"quick": 2400, "thorough": 40000}
LEVEL = "exploration"
RULE = ("one run = 2 to 4 threads, each with its own structure, model and objective over shared materials, layers, parameters and datasets, and its own files; "
        "a seeded schedule preempts them at lines or bytecodes of the library; every result compared with the same thread running alone; "
        "non-trivial = at least two preemptions happened")
MIN_EVENTS = 2
NEED_FAULT = True
SHRINK = ("preempts", "fresh", "ops")
TECH = "thread interleavings at line and bytecode granularity"
NOTE = "Each thread's results are compared with the same operations run alone in a separate process."
STATE = "distinct (library function preempted, runnable threads) pairs"
REAL = ["refellips (all modules), preempted at every line or bytecode", "refnx", "numpy/scipy/pandas"]
STUB = ["thread scheduler (baton passing, seeded)", "library locks, if any", "figures"]
ASSUME = ["preemption happens inside library code only, not inside refnx, numpy, scipy or pandas (their own thread safety is not in question)",
          "each thread modifies only its own objects"]
PROBES = ["grain opcode", "grain line", "3+ threads", "load while evaluating", "shared dataset", "switches >= 10"]

TASKS = ["model", "model", "model", "residuals", "chisqr", "logpost", "logl", "logpostp", "covar", "slabs", "slabs", "profile", "set", "ema", "rev", "solvent", "dep",
         "str", "mat", "mat", "uwd", "load", "load", "material", "ri", "build", "copy", "save", "splot", "oplot", "mask", "call"]


def gen(rng, tier):
    nt = rng.choice([2, 2, 2, 3, 4])
    w = W.gen_world(rng, share=False)
    vals = w["vals"]
    w["vary"], w["bounds"], w["constr"] = [], {}, {}
    for k in list(vals):
        if k.startswith(("M", "o")):
            del vals[k]
    w["structs"], w["models"], w["objs"] = [], [], []
    nshared, nm = len(w["slabs"]), len(w["mats"])
    same = [rng.randrange(2, nshared) for _ in range(rng.randint(0, 3))]
    for t in range(nt):
        i = len(w["slabs"])
        if rng.random() < 0.3:
            w["slabs"].append(dict(a=rng.randrange(2, nm), b=rng.randrange(0, nm)))
            vals[f"s{i}.vfb"] = W.r(rng, 0, 1)
        else:
            w["slabs"].append(dict(m=rng.randrange(2, nm)))
            vals[f"s{i}.vf"] = rng.choice([0.0, W.r(rng, 0, 1)])
        vals[f"s{i}.thick"] = W.r(rng, 5, 800, 2)
        vals[f"s{i}.rough"] = W.r(rng, 0, 5, 2)
        c = list(same) if rng.random() < 0.5 else [rng.randrange(2, nshared) for _ in range(rng.randint(0, 3))]
        c.insert(rng.randint(0, len(c)), i)
        w["structs"].append(dict(c=[0] + c + [1], solvent=rng.choice([None, rng.randrange(nm)]), rev=int(rng.random() < 0.25),
                                 ema=rng.choice(["linear", "maxwell-garnett", "bruggeman"]), dep=rng.choice([1 / 3, W.r(rng, 0.05, 0.9)])))
        vals[f"M{t}.off"] = W.r(rng, -5, 5)
        w["models"].append(dict(s=t))
        lns = rng.random() < 0.3
        if lns:
            vals[f"o{t}.lns"] = W.r(rng, -6, -2)
        w["objs"].append(dict(m=t, d=rng.randrange(len(w["data"])), lns=int(lns), weights=1, extra=0))
        for k in (f"s{i}.thick", f"M{t}.off"):
            if rng.random() < 0.7:
                w["bounds"][k] = W.gen_bounds(rng, k, vals[k])
                w["vary"].append(k)
    nops = rng.randint(2, 8 if tier == "quick" else 16)
    kinds = rng.sample(sorted(set(TASKS)), rng.randint(2, len(set(TASKS)))) + rng.choice([[], ["model"] * 4])
    if rng.random() < 0.35:  # the threads do the same thing at the same time
        kinds = rng.sample(sorted(set(TASKS)), rng.choice([1, 1, 2]))
    ops = []
    for _ in range(nops * nt):
        ops.append([rng.randrange(nt), rng.choice(kinds), rng.randrange(1000), rng.randrange(1 << 30)])
    grain = rng.choice(["line", "line", "opcode"])
    horizon = nops * nt * (250 if grain == "line" else 1500)
    np_ = int(2 ** rng.uniform(1, 7))
    files = [F.gen(rng, rng.choice(F.FORMATS)) for _ in range(nt)]
    if rng.random() < 0.5:  # the same kind of file in every thread
        f0 = files[0]["fmt"]
        files = [F.gen(rng, f0) for _ in range(nt)]
    return dict(world=w, nt=nt, ops=ops, preempts=threads.gen_preempts(rng, horizon, np_), fresh=threads.gen_fresh(rng), grain=grain, files=files)


def canon(x):
    if isinstance(x, SutError):
        return ("raised", type(x.exc).__name__)
    if isinstance(x, np.ndarray):
        x = x.tolist()
    if isinstance(x, (list, tuple)):
        return [canon(i) for i in x]
    if isinstance(x, dict):
        return [[canon(k), canon(x[k])] for k in sorted(x)]
    if isinstance(x, (complex, np.complexfloating)):
        return [float(x.real), float(x.imag)]
    if isinstance(x, (bool, np.bool_, type(None), str)):
        return x
    if isinstance(x, (int, float, np.number)):
        return float(x)
    return type(x).__name__


def agree(a, b, rel=1e-9):
    if isinstance(a, (list, tuple)) and isinstance(b, (list, tuple)):
        return len(a) == len(b) and all(agree(x, y, rel) for x, y in zip(a, b))
    if isinstance(a, float) and isinstance(b, float):
        return a == b or (a != a and b != b) or abs(a - b) <= rel * max(1.0, abs(a), abs(b))
    return a == b


def numbers(x):
    """printed text with its numbers compared as numbers"""
    if isinstance(x, tuple):
        return x
    out = []
    for t in x:
        for part in re.split(r"(0x[0-9a-f]+|[-+]?\d+\.?\d*(?:[eE][-+]?\d+)?)", t):
            if part.startswith("0x"):
                continue
            try:
                out.append(float(part))
            except ValueError:
                out.append(part)
    return out


def rows(res):
    if isinstance(res, dict):
        return [[float(k), F.rows_of(res[k])] for k in sorted(res)]
    if isinstance(res, list):
        return [[F.rows_of(d), d.name] for d in res]
    if hasattr(res, "psi"):
        return F.rows_of(res)
    return [complex(res.complex(lam)) for lam in (250.0, 500.0, 900.0)]


class Client:
    """one thread's operations on its own objects"""

    def __init__(self, w, t, root, plan, sim):
        self.w, self.t, self.root, self.plan, self.sim = w, t, root, plan, sim
        self.out = []
        self.keep = []

    def run(self):
        for t, name, a, seed in self.plan["ops"]:
            if t == self.t:
                got = self.sim.call(self.op, name, a, random.Random(seed))
                self.out.append((name, canon(got)))
        return self.out

    def op(self, name, a, rng):
        w, t = self.w, self.t
        s, m, o = w.structs[t], w.models[t], w.objs[t]
        own = w.state["structs"][t]["c"]
        mine = w.slabs[max(own)]
        ns = len(w.mats)
        if name == "model":
            return m(np.array(W.gen_points(rng, rng.randint(1, 6)), float))
        if name in ("residuals", "chisqr", "logpost", "logl", "covar"):
            return getattr(o, name)()
        if name == "logpostp":
            p = o.varying_parameters()
            return o.logpost(np.array(p) * rng.uniform(0.95, 1.05))
        if name == "slabs":
            return s.slabs(wavelength=rng.uniform(380, 980))
        if name == "profile":
            s.wavelength = rng.uniform(380, 980)
            return s.ri_profile()
        if name == "set":
            mine.thick.value = rng.uniform(1, 900)
            return None
        if name == "ema":
            s.ema = rng.choice(["linear", "maxwell-garnett", "bruggeman"])
            return None
        if name == "rev":
            s.reverse_structure = a % 2 == 0
            return None
        if name == "dep":
            s.depolarisation_factor = rng.uniform(0.05, 0.9)
            return None
        if name == "solvent":
            s.solvent = rng.choice([None] + w.mats)
            return None
        if name == "str":
            return [str(o), str(s)]
        if name == "mat":
            i = a % ns
            lam = rng.uniform(380, 980)
            out = [w.mats[i].complex(lam), complex(w.mats[i])]
            if w.state["mats"][i]["k"] != "const":
                out.append(w.mats[i].complex(np.array([lam, 500.0, 700.0])))
            return out
        if name == "uwd":
            d = w.data[a % len(w.data)]
            return [list(x) for x in d.unique_wavelength_data()] + [len(d), list(d.data)]
        if name == "load":
            f = self.plan["files"][t]
            kw = {}
            if f["fmt"] == "native" and f["delim"] != "\t":
                kw["delimiter"] = f["delim"]
            return rows(F.load(f["fmt"], os.path.join(self.root, f"f{t}_20200929-083122.ds.dat"), **kw))
        if name == "material":
            import refellips.dispersion as disp

            names = W._bundled_names()
            r = disp.load_material(names[a % len(names)])
            return [r.complex(x) for x in (400.0, 555.0, 800.0)] + [r.name]
        if name == "ri":
            from refellips import RI

            tab = np.array([[0.3, 1.5, 0.1], [0.5, 1.4 + t, 0.2], [0.9, 1.3, 0.0]])
            r = RI((tab[:, 0], tab[:, 1], tab[:, 2]), name=f"t{t}")
            return [r.complex(x) for x in (400.0, 555.0, 800.0)]
        if name == "build":
            from refellips import ReflectModelSE

            q = w.slabs[0] | mine
            q |= w.slabs[1]
            mm = ReflectModelSE(q)
            return mm(np.array(W.gen_points(rng, 2), float))
        if name == "copy":
            q = copy.copy(s)
            return q.slabs(wavelength=rng.uniform(380, 980))
        if name == "save":
            p = os.path.join(self.root, f"save{t}")
            w.data[a % len(w.data)].save(p)
            with D.bypass():
                with open(p) as f:
                    return f.read()
        if name == "splot":
            s.plot(fig=c10.StubFig())
            return None
        if name == "oplot":
            o.plot(fig=c10.StubFig())
            return None
        if name == "mask":  # a dataset of its own made from a shared one
            from refellips import DataSE

            d = DataSE(w.data[a % len(w.data)])
            n = len(np.asarray(d.mask))
            d.mask = np.array([rng.random() < 0.6 for _ in range(n)], dtype=bool)
            o.data = d
            return [list(d.data), o.residuals()]
        if name == "call":
            i = 2 + a % (ns - 2)
            return w.mats[i](100 + t, 2).slabs()
        raise KeyError(name)


def alone(plan, root, sim):
    """results of every thread run alone, each in its own process"""
    out = []
    for t in range(plan["nt"]):
        r, wfd = os.pipe()
        pid = os.fork()
        if pid == 0:
            try:
                os.close(r)
                w = W.World(plan["world"])
                blob = pickle.dumps(Client(w, t, root, plan, sim).run())
            except BaseException as e:
                import traceback

                blob = pickle.dumps(traceback.format_exc())
            with os.fdopen(wfd, "wb") as f:
                f.write(blob)
            os._exit(0)
        os.close(wfd)
        with os.fdopen(r, "rb") as f:
            res = pickle.loads(f.read())
        os.waitpid(pid, 0)
        if isinstance(res, str):
            raise RuntimeError(res)
        out.append(res)
    return out


def execute(plan, sim):
    nt = plan["nt"]
    with scratch.rundir() as root:
        for t in range(nt):
            with open(os.path.join(root, f"f{t}_20200929-083122.ds.dat"), "wb") as f:
                f.write(F.build(plan["files"][t]).data)
        exp = alone(plan, root, sim)
        w = W.World(plan["world"])
        sched = threads.Scheduler(sim, plan["preempts"], plan["grain"], plan["fresh"])
        clients = [Client(w, t, root, plan, sim) for t in range(nt)]
        for c in clients:
            sched.spawn(c.run)
        sched.run()
        sim.now = sched.step * 1e-6
        sim.probe("grain " + plan["grain"])
        if nt > 2:
            sim.probe("3+ threads")
        if sched.switches >= 10:
            sim.probe("switches >= 10")
        kinds = {o[1] for o in plan["ops"]}
        if "load" in kinds and kinds & {"model", "logpost", "residuals"}:
            sim.probe("load while evaluating")
        if len({o["d"] for o in plan["world"]["objs"]}) < nt:
            sim.probe("shared dataset")
        for t, c in enumerate(clients):
            sim.log("results", t, len(c.out))
            for i, ((name, g), (_, e)) in enumerate(zip(c.out, exp[t])):
                rel = 1e-9
                if name == "covar":
                    rel = 1e-4
                    if isinstance(g, tuple) or isinstance(e, tuple):
                        if g != e and "LinAlgError" in (g[1] if isinstance(g, tuple) else "", e[1] if isinstance(e, tuple) else ""):
                            continue
                if name == "str":
                    ok = agree(numbers(g), numbers(e), 1e-6)
                elif name == "save":
                    ok = g == e
                else:
                    ok = agree(g, e, rel)
                if not ok:
                    raise Violation("thread-interference", f"thread {t} operation {i} ({name}) gave {repr(g)[:300]}, alone it gives {repr(e)[:300]}")
