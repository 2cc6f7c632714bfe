"""C08: a dataset shows exactly what its history of edits implies."""
import copy
import os
import pickle

import numpy as np

from simlib import disk as D, ioh, scratch
from simlib.core import SutError, Violation
from simlib.world import shown_delta

RUNS = {"quick": 6000, "thorough": 120000}
LEVEL = "exploration"
RULE = ("one run = several clients constructing, masking, assigning, saving, loading, refreshing and copying datasets, also through failing calls; every dataset is compared "
        "with a plain list of rows after every operation; non-trivial = at least 5 operations")
MIN_EVENTS = 5
SHRINK = ("ops",)
TECH = "histories of dataset operations by several clients with shared arrays, copies and files, including rejected and failing operations"
NOTE = "Refinement against a list-of-rows model: all datasets and all caller-owned arrays are compared after every operation."
STATE = "distinct (operation, previous operation, mask/reflect/copy status)"
REAL = ["DataSE"]
STUB = ["clients", "raw file I/O (simulated disk)"]
ASSUME = ["the mask array a dataset hands out is not written into (writing into it is a way of masking)",
          "all four columns have the same length"]
PROBES = ["masked", "reflected", "copied", "pickled", "constructed from dataset", "caller array overwritten", "rejected mask", "rejected data", "failed load", "loaded own save", "refreshed", "repeated wavelength", "handed-out array overwritten", "metadata edited", "no data"]

OPS = ["new", "new", "fromds", "copy", "deepcopy", "pickle", "mask", "mask", "mask", "unmask", "badmask", "data", "data", "baddata", "scribble",
       "save", "save", "load", "load", "refresh", "refresh", "badload", "badload", "group", "group", "str", "takeout", "takeout", "meta", "meta", "empty"]


def gen(rng, tier):
    ops = []
    pool = rng.sample(OPS, rng.randint(8, len(OPS)))
    for _ in range(rng.randint(4, 20 if tier == "quick" else 50)):
        n = rng.choice([1, 2, 3, 5, 8]) if rng.random() < 0.99 else rng.randint(80, 300)
        ops.append(dict(op=rng.choice(pool), d=rng.randrange(8), p=rng.randrange(2), n=n, bits=rng.randrange(1 << 16), form=rng.randrange(8),
                        reflect=int(rng.random() < 0.35), withmask=int(rng.random() < 0.3),
                        rows=[[rng.choice([500.0, 600.0, 650.5, round(rng.uniform(300, 900), 2), 500.0004 if rng.random() < 0.4 else 500.0]), rng.choice([60.0, 65.0, 70.0]),
                               round(rng.uniform(0, 90), 3), rng.choice([180.0, 180.5, 0.0, 360.0, round(rng.uniform(0, 360), 3), round(rng.uniform(-180, 540), 2)])] for _ in range(n)],
                        fault=ioh.gen_read_faults(rng)))
    ops.insert(0, dict(ops[0], op="new"))
    if rng.random() < 0.6:  # a file to work with
        ops[1:1] = [dict(ops[0], op="save"), dict(ops[0], op="load", bits=1)]
    return dict(ops=ops, knobs=D.knobs(rng))


class M:
    """The model."""

    def __init__(self, rows, reflect, mask, name, home, meta=None):
        self.reflect, self.name, self.home = reflect, name, home
        self.meta = dict(meta or {})
        self.put(rows)
        if mask is not None:
            self.mask = list(mask)

    def put(self, rows):
        self.rows = [[r[0], r[1], r[2], shown_delta(r[3], self.reflect)] for r in rows]
        self.mask = [True] * len(rows)

    def shown(self):
        return [r for r, k in zip(self.rows, self.mask) if k]

    def clone(self):
        m = copy.deepcopy(self)
        return m


def mkmask(op, n):
    return [bool(op["bits"] >> (j % 16) & 1) for j in range(n)]


def compare(ds, m, what):
    exp = m.shown()
    cols = [np.asarray(c) for c in (ds.wavelength, ds.aoi, ds.psi, ds.delta)]
    tup = [np.asarray(c) for c in ds.data]
    for j, c in enumerate(cols):
        e = [r[j] for r in exp]
        nm = ("wavelength", "aoi", "psi", "delta")[j]
        if c.shape != (len(e),) or not np.allclose(c, e, rtol=0, atol=1e-9):
            raise Violation("points", f"{what}: {nm} is {c.tolist()}, expected {e}")
        if not np.array_equal(c, tup[j]):
            raise Violation("points", f"{what}: data[{j}] differs from {nm}")
    mk = np.asarray(ds.mask)
    if mk.shape != (len(m.mask),) or mk.astype(bool).tolist() != m.mask:
        raise Violation("mask", f"{what}: mask {mk.tolist()}, expected {m.mask}")
    if len(ds) != len(exp):
        raise Violation("length", f"{what}: length {len(ds)}, expected {len(exp)}")
    if ds.name != m.name:
        raise Violation("name", f"{what}: name {ds.name!r}, expected {m.name!r}")
    if dict(ds.metadata) != m.meta:
        raise Violation("metadata", f"{what}: metadata {ds.metadata!r}, expected {m.meta!r}")
    if ds.filename != m.home:
        raise Violation("filename", f"{what}: filename {ds.filename!r}, expected {m.home!r}")


def grouping(ds, m, what, sim):
    got = sim.call(lambda: [(float(w), np.asarray(a).tolist(), np.asarray(p).tolist(), np.asarray(d).tolist()) for w, a, p, d in ds.unique_wavelength_data()])
    if isinstance(got, SutError):
        raise Violation("grouping", f"{what}: unique_wavelength_data raised {got!r}")
    sh = m.shown()
    exp = []
    for w in sorted({r[0] for r in sh}):
        s = [r for r in sh if r[0] == w]
        if len(s) > 1:
            sim.probe("repeated wavelength")
        exp.append((w, [r[1] for r in s], [r[2] for r in s], [r[3] for r in s]))
    if len(got) != len(exp) or any(g[0] != e[0] or len(g[1]) != len(e[1]) or not np.allclose(g[1:], e[1:], rtol=0, atol=1e-9) for g, e in zip(got, exp)):
        raise Violation("grouping", f"{what}: per-wavelength groups {got}, expected {exp}")


def execute(plan, sim):
    from refellips import DataSE

    with scratch.rundir() as root:
        disk = D.Disk(sim, root, plan["knobs"])
        disk.install()
        real, model, held, prev = [], [], [], ""  # held: (caller arrays, expected contents)
        files = {}

        def arrays(op):
            rows = op["rows"]
            a = np.array(rows, dtype=float).reshape(-1, 4)
            f = op["form"]
            if f == 0:
                src = a.T.copy()
            elif f == 1:
                src = [a[:, j].tolist() for j in range(4)]
            elif f == 2:
                src = tuple(a[:, j].copy() for j in range(4))
            elif f == 3:
                a = np.round(a)
                rows = a.tolist()
                src = tuple(a[:, j].astype(int) for j in range(4))
            elif f == 4:
                import pandas as pd

                df = pd.DataFrame(a, columns=list("wapd"))
                src = [df["w"], df["a"], df["p"], df["d"]]
            else:
                src = [a[:, j].copy() for j in range(4)]
            held.append([src, copy.deepcopy(src)])
            return src, rows

        def add(ds, m):
            if len(real) >= 6:
                real.pop(0)
                model.pop(0)
            real.append(ds)
            model.append(m)

        def ok(r, what):
            if isinstance(r, SutError):
                raise Violation("raised", f"{what} raised {r!r}")
            return r

        for op in plan["ops"]:
            o = op["op"]
            disk.begin(())
            i = op["d"] % len(real) if real else 0
            ds, m = (real[i], model[i]) if real else (None, None)
            path = disk.path(f"p{op['p']}.txt")
            if ds is None and o != "new":
                continue
            sim.log(o, op["n"], op["form"], op["bits"] & 255)
            if m is not None:
                sim.state(o, prev, m.reflect, all(m.mask), len(m.rows) > 1)
                if not all(m.mask):
                    sim.probe("masked")
            prev = o
            if o == "new":
                src, rows = arrays(op)
                mk = mkmask(op, len(rows)) if op["withmask"] else None
                kw = dict(name=f"n{len(held)}", reflect_delta=bool(op["reflect"]))
                if mk is not None:
                    kw["mask"] = mk
                meta = {"sample": "s%d" % (op["bits"] % 7)} if op["bits"] & 64 else {}
                add(ok(sim.call(DataSE, src, **kw, **meta), "construction"), M(rows, bool(op["reflect"]), mk, kw["name"], None, meta))
                if op["reflect"]:
                    sim.probe("reflected")
            elif o == "fromds":
                kw = {}
                n = m.clone()
                if op["reflect"]:
                    kw["reflect_delta"] = True
                    n.reflect = True
                    n.rows = [[r[0], r[1], r[2], shown_delta(r[3], True)] for r in n.rows]
                if op["withmask"]:
                    kw["mask"] = n.mask = mkmask(op, len(n.rows))
                    n.mask = list(n.mask)
                add(ok(sim.call(DataSE, ds, **kw), "construction from a dataset"), n)
                sim.probe("constructed from dataset")
            elif o in ("copy", "deepcopy", "pickle"):
                f = dict(copy=copy.copy, deepcopy=copy.deepcopy, pickle=lambda x: pickle.loads(pickle.dumps(x)))[o]
                n = m.clone()
                if o == "copy":
                    n.meta = m.meta  # a shallow copy
                add(ok(sim.call(f, ds), o), n)
                sim.probe("pickled" if o == "pickle" else "copied")
            elif o == "mask":
                n = len(m.rows)
                if op["form"] == 0:
                    v = bool(op["bits"] & 1)
                    arg, new = v, [v] * n
                else:
                    new = mkmask(op, n)
                    arg = [list(new), np.array(new), np.array(new, dtype=int), tuple(new)][op["form"] % 4]
                    held.append([arg, copy.deepcopy(arg)])
                ok(sim.call(setattr, ds, "mask", arg), "mask assignment")
                m.mask = new
            elif o == "empty":
                add(ok(sim.call(DataSE, name="none"), "construction without data"), M([], False, None, "none", None))
                sim.probe("no data")
            elif o == "meta":
                ds.metadata[f"key{op['form'] % 3}"] = op["bits"]
                m.meta[f"key{op['form'] % 3}"] = op["bits"]
                sim.probe("metadata edited")
            elif o == "unmask":
                ok(sim.call(setattr, ds, "mask", None), "mask = None")
                m.mask = [True] * len(m.rows)
            elif o == "badmask":
                n = len(m.rows)
                got = sim.call(setattr, ds, "mask", np.ones(n + 2 if n > 0 else 3, dtype=bool))
                if not isinstance(got, SutError):
                    raise Violation("accepted", f"a mask of {n + 2} values for {n} points was accepted")
                sim.fault("rejected mask")
                sim.probe("rejected mask")
            elif o == "data":
                src, rows = arrays(op)
                ok(sim.call(setattr, ds, "data", src), "data assignment")
                m.put(rows)
            elif o == "baddata":
                bad = [([1.0], [2.0], [3.0]), ([1.0], [2.0], [3.0], ["x"]), (["x"], [1.0], [1.0], [1.0]), 5, None][op["form"] % 5]
                got = sim.call(setattr, ds, "data", bad)
                if not isinstance(got, SutError):
                    raise Violation("accepted", f"data {bad!r} was accepted")
                sim.fault("rejected data")
                sim.probe("rejected data")
            elif o == "scribble":
                if held:  # the caller reuses its arrays
                    k = op["bits"] % len(held)
                    src = held[k][0]
                    for j in range(len(src)) if isinstance(src, (list, tuple)) and src and not isinstance(src[0], (bool, np.bool_)) else ():
                        x = src[j]
                        if isinstance(x, (np.ndarray, list)):
                            for q in range(len(x)):
                                x[q] = 7 + q
                    if isinstance(src, np.ndarray):
                        src[...] = 0 if src.dtype == bool else 7
                    elif isinstance(src, list) and src and isinstance(src[0], bool):
                        src[:] = [not b for b in src]
                    held[k][1] = copy.deepcopy(src)
                    sim.probe("caller array overwritten")
            elif o == "save":
                if not m.rows:
                    continue
                ok(sim.call(ds.save, path), "save")
                files[path] = [list(r) for r in m.rows]
            elif o == "load":
                if path in files:
                    ok(sim.call(ds.load, path), "load")
                    m.put(files[path])
                    sim.probe("loaded own save")
                    if op["bits"] & 1:
                        d2 = ok(sim.call(DataSE, path, name="fromfile", reflect_delta=bool(op["reflect"])), "construction from a file")
                        add(d2, M(files[path], bool(op["reflect"]), None, "fromfile", path))
            elif o == "refresh":
                for k in range(len(real)):
                    if m.home is None and model[k].home:
                        ds, m = real[k], model[k]
                if m.home is not None and m.home in files:
                    ok(sim.call(ds.refresh), "refresh")
                    m.put(files[m.home])
                    sim.probe("refreshed")
            elif o == "badload":
                if path in files:
                    disk.begin(op["fault"])
                    got = sim.call(ds.load, path)
                    if isinstance(got, SutError):
                        sim.probe("failed load")
                    else:
                        m.put(files[path])
                    disk.end()
                    disk.close_leftovers()
            elif o == "group":
                grouping(ds, m, "grouping", sim)
            elif o == "takeout":
                # arrays the dataset hands out belong to the caller
                out = [ds.wavelength, ds.aoi, ds.psi, ds.delta, *ds.data]
                for grp in ok(sim.call(lambda: list(ds.unique_wavelength_data())), "unique_wavelength_data"):
                    out.extend(grp[1:])
                out = [x for x in out if isinstance(x, np.ndarray) and x.size]
                held.append([out, copy.deepcopy(out)])
                if op["form"] & 1:
                    for x in out:
                        if x.flags.writeable:
                            x[...] = x * 2 + 1
                    held[-1][1] = copy.deepcopy(out)
                    sim.probe("handed-out array overwritten")
            elif o == "str":
                ok(sim.call(lambda: (str(ds), repr(ds))), "str/repr")
            for k, (a, b) in enumerate(zip(real, model)):
                compare(a, b, f"after {o}, dataset {k}")
            for src, exp in held:
                same = all(np.array_equal(np.asarray(x), np.asarray(y)) for x, y in zip(src, exp)) if not isinstance(src, bool) else src == exp
                if not same:
                    raise Violation("array-modified", f"after {o} an array of the caller was modified")
            sim.now += 1
        for k, (a, b) in enumerate(zip(real, model)):
            grouping(a, b, f"finally, dataset {k}", sim)
