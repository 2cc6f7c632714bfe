"""Simulated worker pool (map-like): workers are separate copies of the task
function made by pickling, tasks and results travel as pickles through an event
queue with simulated time.  Delay, reordering, duplication, loss with retry,
worker crash and restart are plan decisions drawn from the plan's own PRNG seed.
"""
import heapq
import pickle
import random

from .core import SimHang


class Pool:
    def __init__(self, sim, spec):
        self.sim = sim
        self.rng = random.Random(spec["seed"])
        self.nw = spec.get("workers", 3)
        self.p = spec  # p_dup p_loss p_crash p_slow
        self.calls = 0
        self.tasks = 0
        self.all = []  # every delivered result of the last map: (task, value)

    def __call__(self, fn, it):
        return self.map(fn, it)

    def map(self, fn, it, chunksize=None):
        args = list(it)
        self.calls += 1
        self.all = []
        blob = pickle.dumps(fn)
        argb = [pickle.dumps(a) for a in args]
        rng, sim = self.rng, self.sim
        results = {}
        workers = [None] * self.nw
        q = []
        seq = 0
        t = 0.0

        def push(dt, ev):
            nonlocal seq
            seq += 1
            heapq.heappush(q, (t + dt, seq, ev))

        for k in range(len(args)):
            push(rng.expovariate(1.0) if self.p.get("reorder", 1) else 0.0, ("task", k, 0))
        guard = 0
        while q:
            guard += 1
            if guard > 200 * (len(args) + 5):
                raise SimHang("simulated pool made no progress")
            t, _, ev = heapq.heappop(q)
            if ev[0] == "task":
                _, k, attempt = ev
                if k in results and not ev[2] < 0:
                    continue
                w = rng.randrange(self.nw)
                faults = attempt < 3  # faults stop: progress is then guaranteed
                if faults and rng.random() < self.p.get("p_loss", 0):
                    sim.fault("pool:loss")
                    push(5.0, ("task", k, attempt + 1))  # retry after a timeout
                    continue
                if faults and rng.random() < self.p.get("p_dup", 0):
                    sim.fault("pool:duplicate")
                    push(rng.uniform(0, 4), ("task", k, 3))
                if workers[w] is None:
                    workers[w] = pickle.loads(blob)
                crash = faults and rng.random() < self.p.get("p_crash", 0)
                if crash and rng.random() < 0.5:
                    sim.fault("pool:crash-before")
                    workers[w] = None
                    push(1.0, ("task", k, attempt + 1))
                    continue
                self.tasks += 1
                val = workers[w](pickle.loads(argb[k]))
                if crash:
                    sim.fault("pool:crash-after")
                    workers[w] = None
                    push(1.0, ("task", k, attempt + 1))
                    continue
                dt = rng.uniform(0.1, 1)
                if rng.random() < self.p.get("p_slow", 0):
                    sim.fault("pool:slow")
                    dt += 30
                push(dt, ("done", k, pickle.dumps(val), w))
            else:
                _, k, vb, w = ev
                self.all.append((k, pickle.loads(vb)))
                results.setdefault(k, vb)
                sim.state("done", k % 7, w, len(results) % 11)
        sim.now += t
        missing = [k for k in range(len(args)) if k not in results]
        if missing:
            raise SimHang(f"pool lost tasks {missing[:4]}")
        return [pickle.loads(results[k]) for k in range(len(args))]


def gen(rng):
    on = rng.random
    return dict(seed=rng.randrange(1 << 30), workers=rng.randint(1, 4), reorder=int(on() < 0.8),
                p_dup=rng.choice([0, 0.2, 0.5]), p_loss=rng.choice([0, 0.1, 0.3]),
                p_crash=rng.choice([0, 0.1, 0.3]), p_slow=rng.choice([0, 0.2]))
