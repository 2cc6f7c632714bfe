"""C13: library calls leave process-wide state alone, in every interleaving."""
import decimal
import gc
import locale
import logging
import os
import random
import signal
import sys
import tempfile
import warnings

import numpy as np

from simlib import disk as D, formats as F, scratch, threads, usermat, world as W
from simlib.core import SutError, Violation

from . import c10, c12

RUNS = {"quick": 2600, "thorough": 40000}
LEVEL = "exploration"
RULE = ("one run = 1 to 3 threads of library calls (succeeding and failing) and an unrelated thread that warns, draws random numbers and does floating point "
        "work, under a seeded schedule; non-trivial = at least one preemption and five bystander steps")
MIN_EVENTS = 3
NEED_FAULT = True
SHRINK = ("preempts", "fresh", "ops")
TECH = "thread interleavings of library calls with an unrelated thread, with failing evaluations and loads"
NOTE = "Process-wide state is compared before and after; every warning and random number of the unrelated thread is accounted for."
STATE = c12.STATE
REAL = c12.REAL
STUB = c12.STUB + ["unrelated thread"]
ASSUME = ["preemption happens inside library code only", "floating point error handling is per thread in numpy 2: compared within each thread"]
PROBES = ["library call failed", "bystander ran inside a library call", "grain opcode", "mixing evaluated", "covar"]

TASKS = c12.TASKS + ["text", "draw", "model", "covar", "slabs", "badload", "badpoints", "failing", "failing", "logl", "logpost", "logpostp", "pgen", "prior", "hot", "hot"]


def gen(rng, tier):
    p = c12.gen(rng, tier)
    nt = p["nt"] = rng.choice([1, 2, 2, 3][: 1 + p["nt"]])
    nt = p["nt"] = min(nt, len(p["world"]["structs"]))
    kinds = rng.sample(sorted(set(TASKS)), rng.randint(2, len(set(TASKS))))
    if rng.random() < 0.35:  # the threads do the same thing at the same time
        kinds = rng.sample(sorted(set(TASKS)), rng.choice([1, 1, 2]))
    n = rng.randint(2, 7) * nt
    p["ops"] = [[rng.randrange(nt), rng.choice(kinds), rng.randrange(1000), rng.randrange(1 << 30)] for _ in range(n)]
    horizon = n * (250 if p["grain"] == "line" else 1500)
    p["preempts"] = threads.gen_preempts(rng, horizon, int(2 ** rng.uniform(2, 7)))
    p["files"] = p["files"][:nt]
    p["by"] = rng.randint(5, 60)
    p["back"] = int(rng.random() < 0.6)  # the unrelated thread takes one step at a time
    if p["back"]:
        p["by"] = 3000
        if rng.random() < 0.7:
            a = rng.choice([1, 1, 2, 5])
            p["fresh"] = [[k, -1] for k in range(1, 2500, a)]
    p["seed"] = rng.randrange(1 << 30)
    p["env"] = {"VERIF_X": str(rng.randrange(1000))}
    # rules with floating point trouble
    for s in p["world"]["structs"]:
        if rng.random() < 0.6:
            s["ema"] = rng.choice(["maxwell-garnett", "bruggeman"])
            s["dep"] = rng.choice([0.0, 1.0, 1 / 3])
    return p


class Client(c12.Client):
    in_call = 0

    def run(self):
        for t, name, a, seed in self.plan["ops"]:
            if t == self.t:
                before = thread_state()
                Client.in_call += 1
                got = self.sim.call(self.op, name, a, random.Random(seed))
                Client.in_call -= 1
                after = thread_state()
                if isinstance(got, SutError):
                    self.sim.probe("library call failed")
                if before != after:
                    raise Violation("error-state", f"{name} changed the floating point error handling or number formatting: {before} -> {after}")
        return None

    def op(self, name, a, rng):
        w, t = self.w, self.t
        s, o = w.structs[t], w.objs[t]
        if name == "covar":
            self.sim.probe("covar")
        if name == "badload":
            p = os.path.join(self.root, f"bad{t}")
            with open(p, "w") as f:
                f.write(rng.choice(["", "x\ty\n1\t2\n", "1\t2\t3\tfoo\n", "a,b,c\n"]))
            return F.load(rng.choice(F.FORMATS), p if a % 2 else p + "-missing")
        if name == "badpoints":
            return w.models[t](rng.choice([np.zeros((1, 2)), np.array([[np.nan, 60.0]]), np.array([[500.0, 90.0]]), np.zeros(3), np.array([[500.0, np.nan]]),
                                            np.array([[500.0, np.inf]]), np.array([[500.0, 60.0], [600.0, np.nan]])]))
        if name == "failing":
            own = w.slabs[max(w.state["structs"][t]["c"])]
            keep = own.thick.value
            old = s.ema
            k = a % 3
            if k == 0:
                s.ema = "nonsense"
            elif k == 1:
                own.thick.value = float("nan")
            else:
                usermat._hook = _boom
            try:
                for f in (o.covar, o.logpost, o.residuals, lambda: s.slabs(wavelength=500.0)):
                    self.sim.call(f)
            finally:
                s.ema = old
                own.thick.value = keep
                usermat._hook = None
            raise ValueError("done")
        if name == "hot":  # configurations that divide by zero or overflow
            from refellips.structureSE import overall_ri

            self.sim.probe("mixing evaluated")
            out = []
            for e in ("linear", "maxwell-garnett", "bruggeman"):
                for dp in (0.0, 1.0, 0.3):
                    out.append(overall_ri(np.array([1.5 + 0.1j, 0j]), 0j if a % 2 else 1e200 + 0j, vf_B=rng.random(), ema=e, depolarisation_factor=dp))
            return None
        if name == "text":
            from refellips import DataSE

            x = np.linspace(400.0, 800.0, rng.choice([0, 1, 40, 1200]))
            return [f(x) for x in (o, w.models[t], s, o.data, DataSE([x, x, x, x]), *w.mats, *s) for f in (str, repr)]
        if name == "draw":
            ax = c10.StubAxes()
            f = c10.StubFig(ax)
            o.plot(xaxis=rng.choice(["aoi", "wavelength"]) if self.plan["grain"] == "line" and a % 4 == 0 else "aoi", fig=f)
            return s.plot(samples=0, fig=f)
        if name == "pgen":
            ps = o.varying_parameters()
            for p in ps:
                p.chain = np.full((2, 3), p.value)
            return [np.array(x) for x in o.pgen(ngen=3)]
        if name == "prior":
            return o.prior_transform(np.full(len(o.varying_parameters()), 0.4))
        return super().op(name, a, rng)


def _boom(tag):
    raise FloatingPointError("simulated")


def thread_state():
    """kept per thread by numpy 2"""
    return np.geterr(), np.geterrcall(), repr(np.get_printoptions()), np.getbufsize()


def process_state():
    return dict(filters=list(warnings.filters), showwarning=warnings.showwarning, cwd=os.getcwd(), env=dict(os.environ), err=(np.geterr(), np.geterrcall()),
                print=repr(np.get_printoptions()), formatwarning=warnings.formatwarning, limits=(sys.getrecursionlimit(), sys.getswitchinterval()),
                gc=(gc.isenabled(), gc.get_threshold()), locale=locale.setlocale(locale.LC_ALL), excepthook=sys.excepthook, path=list(sys.path),
                streams=(sys.stdout, sys.stderr, sys.stdin), signals=[signal.getsignal(x) for x in (signal.SIGINT, signal.SIGTERM, signal.SIGCHLD)],
                logging=(logging.getLogger().level, list(logging.getLogger().handlers), logging.root.manager.disable), umask=_umask(), pandas=_pandas(), mpl=_mpl(),
                bufsize=np.getbufsize(), tempdir=tempfile.tempdir, float=repr(getattr(decimal.getcontext(), "prec", None)))


def _umask():
    old = os.umask(0o022)
    os.umask(old)
    return old


def _pandas():
    try:
        from pandas._config import config

        return repr(config._global_config)
    except (ImportError, AttributeError):
        return None


def _mpl():
    if "matplotlib" not in sys.modules:
        return None
    m = sys.modules["matplotlib"]
    return repr(sorted((k, str(m.rcParams._get(k) if hasattr(m.rcParams, "_get") else m.rcParams[k])) for k in m.rcParams)) + str(dict.get(m.rcParams, "backend"))


def execute(plan, sim):
    nt = plan["nt"]
    Client.in_call = 0
    with scratch.rundir() as root:
        os.chdir(root)
        os.environ.update(plan["env"])
        for t in range(nt):
            with open(os.path.join(root, f"f{t}_20200929-083122.ds.dat"), "wb") as f:
                f.write(F.build(plan["files"][t]).data)
        w = W.World(plan["world"])
        random.seed(plan["seed"])
        np.random.seed(plan["seed"] % (1 << 32))
        myr, mynp = random.Random(plan["seed"]), np.random.RandomState(plan["seed"] % (1 << 32))
        seen = set()
        nseen = [0]
        warnings.resetwarnings()
        warnings.simplefilter("always")

        def show(message, category, filename, lineno, file=None, line=None):
            seen.add(str(message))
            nseen[0] += 1

        warnings.showwarning = show
        sched = threads.Scheduler(sim, plan["preempts"], plan["grain"], plan["fresh"])
        clients = [Client(w, t, root, plan, sim) for t in range(nt)]
        sent = []
        before = process_state()

        def bystander():
            for i in range(plan["by"]):
                if plan["back"] and i and not any(x == "ready" for x in sched.state[:nt]):
                    break
                if Client.in_call:
                    sim.probe("bystander ran inside a library call")
                msg = f"bystander {i}"
                sent.append(msg)
                warnings.warn(msg)
                if msg not in seen:
                    raise Violation("warning-swallowed", f"a warning raised by unrelated code was swallowed (step {i})")
                if os.getcwd() != before["cwd"]:
                    raise Violation("process-state", f"the working directory was changed under unrelated code: {os.getcwd()}")
                if dict(os.environ) != before["env"]:
                    raise Violation("process-state", "the environment was changed under unrelated code")
                k = nseen[0]
                np.log(np.array([-1.0]))
                if nseen[0] == k:
                    raise Violation("warning-swallowed", "a floating point warning raised by unrelated code was swallowed")
                a, b = random.random(), float(np.random.random_sample())
                ea, eb = myr.random(), float(mynp.random_sample())
                if a != ea or b != eb:
                    raise Violation("random-stream", f"the global random stream gave {a, b}, expected {ea, eb}")
                sim.steps += 1
                if plan["back"]:
                    sched.hand_back()
                else:
                    sched.yield_point()

        for c in clients:
            sched.spawn(c.run)
        sched.spawn(bystander)
        try:
            sched.run()
        finally:
            usermat._hook = None
        after = process_state()
        sim.now = sched.step * 1e-6
        sim.probe("grain " + plan["grain"])
        sim.log("bystander", len(sent), sched.switches)
        for k in before:
            if before[k] != after[k]:
                raise Violation("process-state", f"{k} changed: {str(before[k])[:300]} -> {str(after[k])[:300]}")
        if random.random() != myr.random() or float(np.random.random_sample()) != float(mynp.random_sample()):
            raise Violation("random-stream", "the global random streams were consumed or reseeded")
        missing = [m for m in sent if m not in seen]
        if missing:
            raise Violation("warning-swallowed", f"warnings of unrelated code swallowed: {missing[:3]}")
        os.chdir("/")
