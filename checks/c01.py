"""C01: a save that returned is complete and exact on disk."""
import os
import pathlib

import numpy as np

from simlib import disk as D, ioh, scratch
from simlib.core import SutError, Violation

RUNS = {"quick": 4000, "thorough": 80000}
LEVEL = "fault_enumeration"
RULE = ("one run = a sequence of saves of random datasets to paths and handles through the simulated disk with errors, full disk at a chosen byte, "
        "short writes and random buffer sizes; non-trivial = at least one disk fault fired or a short write happened")
NEED_FAULT = True
MIN_EVENTS = 2
SHRINK = ("ops",)
TECH = "save sequences, targets, write/close/open failures, disk-full byte and short-write sizes"
NOTE = "The real save runs over a simulated disk; a returned save is judged by an independent parse of the bytes and by loading them again."
STATE = "distinct (target, fault kind, outcome, previous outcome)"
REAL = ["DataSE.save and DataSE.load", "numpy.savetxt/loadtxt", "io buffering and text layers"]
STUB = ["raw file I/O (simulated disk over a scratch directory)"]
ASSUME = ["a save to a handle is judged after the caller closed the handle without faults", "datasets have at least one point",
          "file names without a compression suffix"]
PROBES = ["saved complete", "save raised", "failed: open", "failed: space", "failed: write", "failed: close", "binary handle", "text handle", "overwrote longer file", "retry after failure"]


def gen(rng, tier):
    nd = rng.randint(1, 3)
    ds = []
    for _ in range(nd):
        n = rng.choice([1, 1, 2, 3, 5, 9, 40 if rng.random() < 0.2 else 4])
        if rng.random() < 0.02:
            n = rng.choice([64, 100, 128, 256, 500, 512, 1000, 1024, 2048, rng.randint(100, 2500)]) + rng.choice([-1, 0, 1])
        rows = []
        for _ in range(n):
            v = [rng.uniform(200, 1500), rng.uniform(0, 90), rng.uniform(0, 90), rng.uniform(-360, 720)]
            if rng.random() < 0.1:
                v[rng.randrange(4)] = rng.choice([0.0, -0.0, 1e-300, 1e22, 123456789.123456789, 5e-324])
            if rng.random() < 0.03:
                v[rng.choice([2, 3])] = float("nan")
            rows.append(v)
        form = rng.choice(["float64"] * 4 + ["int64", "float32", "list", "strided", "2d"])
        if form == "int64":
            rows = [[float(round(x)) if abs(x) < 1e15 else 7.0 for x in r] for r in rows]
        elif form == "float32":
            rows = [[float(np.float32(x)) if abs(x) < 1e30 else 7.0 for x in r] for r in rows]
        ds.append(dict(rows=rows, form=form, mask=[int(rng.random() < 0.7) for _ in rows] if rng.random() < 0.5 else None,
                       reflect=int(rng.random() < 0.2), delim=rng.choice(["\t", "\t", ","])))
    ops = []
    swarm = rng.random()
    for _ in range(rng.randint(1, 6)):
        f = []
        if rng.random() < 0.15 + swarm * 0.7:
            x = rng.random()
            if x < 0.45:
                f = [dict(op="space", after=int(rng.uniform(0, 1) ** 2 * 800 * (1 + len(max(ds, key=lambda d: len(d["rows"]))["rows"]) // 8)))]
            elif x < 0.7:
                f = [dict(op="write", n=rng.randint(1, 5), kind=rng.choice(["EIO", "ENOSPC", "EDQUOT", "interrupt"]))]
            elif x < 0.85:
                f = [dict(op="open", n=rng.choice([1, 2]), kind=rng.choice(["EACCES", "EROFS", "ENOSPC", "EMFILE"]))]
            else:
                f = [dict(op="close", n=rng.choice([1, 2]), kind=rng.choice(["EIO", "ENOSPC"]))]
        ops.append(dict(d=rng.randrange(nd), file=rng.randrange(2), target=rng.choice(["str", "str", "path", "text", "binary"]), faults=f))
    return dict(data=ds, ops=ops, knobs=D.knobs(rng))


def parse(data):
    """Independent reading of the saved text."""
    rows = []
    for line in data.decode("utf-8").split("\n"):
        line = line.strip()
        if not line or line.startswith("#"):
            continue
        c = line.split("\t")
        if len(c) != 4:
            raise ValueError(f"{len(c)} columns: {line!r}")
        rows.append([float(x) for x in c])
    return rows


def execute(plan, sim):
    from refellips import DataSE

    with scratch.rundir() as root:
        disk = D.Disk(sim, root, plan["knobs"])
        sets = []
        for d in plan["data"]:
            a = np.array(d["rows"], dtype=float)
            cols = [a[:, j].copy() for j in range(4)]
            f = d.get("form", "float64")
            if f in ("int64", "float32"):
                cols = [c.astype(f) for c in cols]
            elif f == "list":
                cols = tuple(c.tolist() for c in cols)
            elif f == "strided":
                cols = [a[:, j] for j in range(4)]
            elif f == "2d":
                cols = a.T.copy()
            s = DataSE(cols, name="d", reflect_delta=bool(d["reflect"]), delimiter=d["delim"])
            if d["mask"]:
                s.mask = np.array(d["mask"], dtype=bool)
            sets.append(s)
        disk.install()
        last = {}
        for i, op in enumerate(plan["ops"]):
            ds, spec = sets[op["d"] % len(sets)], plan["data"][op["d"] % len(sets)]
            path = disk.path(f"save{op['file']}.txt")
            before = ioh.snap(ds)
            exp = list(zip(*[np.asarray(c, float).tolist() for c in ioh.full(ds)]))
            src = [[r[0], r[1], r[2]] for r in spec["rows"]]
            if not ioh.same([list(r[:3]) for r in exp], src):
                raise Violation("dataset-changed", "the dataset in memory does not show the points it was made from")
            handle, target = None, path
            old = D.read_bytes(path) if os.path.exists(path) else b""
            disk.begin(())
            if op["target"] == "path":
                target = pathlib.Path(path)
            elif op["target"] == "text":
                handle = target = open(path, "w")
            elif op["target"] == "binary":
                handle = target = open(path, "wb")
            if handle is not None:
                sim.probe(op["target"] + " handle")
                disk.armed = [dict(f) for f in op["faults"] if f["op"] in ("space", "write")]
                disk.count["write"] = 0
                disk.written = 0
            else:
                disk.begin(op["faults"])
            got = sim.call(ds.save, target)
            fired = [f for f in disk.fired]
            disk.armed = []
            failed = isinstance(got, SutError)
            kinds = [f"{f['op']}:{f.get('kind', 'ENOSPC')}" for f in fired]
            sim.log("save", op["target"], failed, kinds)
            sim.state(op["target"], kinds, failed, last.get(path))
            after = ioh.snap(ds)
            if not ioh.same(before, after):
                raise Violation("dataset-changed", f"saving ({'failed' if failed else 'ok'}) changed the dataset in memory")
            if handle is not None:
                if handle.closed:
                    raise Violation("handle-closed", "save closed the caller's handle")
                if failed:
                    disk.close_leftovers()
                else:
                    c = sim.call(handle.close)
                    if isinstance(c, SutError):
                        raise Violation("harness", f"closing the handle without faults failed: {c!r}")
            else:
                disk.end()
                disk.close_leftovers()
            if failed:
                sim.probe("save raised")
                for f in fired:
                    sim.probe("failed: " + f["op"])
                if not fired:
                    raise Violation("spurious-failure", f"save raised {got!r} although no fault was injected")
                last[path] = "failed"
                continue
            if any(f["op"] == "close" or f.get("kind") == "interrupt" for f in fired):
                raise Violation("error-swallowed", f"save returned although {kinds} occurred")
            data = D.read_bytes(path)
            if len(old) > len(data):
                sim.probe("overwrote longer file")
            if last.get(path) == "failed":
                sim.probe("retry after failure")
            last[path] = "ok"
            try:
                rows = parse(data)
            except ValueError as e:
                raise Violation("incomplete", f"save returned but the file is malformed ({e}); faults {kinds}")
            if not ioh.same([list(r) for r in rows], [list(r) for r in exp]):
                raise Violation("incomplete", f"save returned: {len(exp)} points in memory, {len(rows)} on disk or different values; faults {kinds}")
            disk.begin(())
            back = sim.call(DataSE, path)
            if isinstance(back, SutError):
                raise Violation("unreadable", f"the saved file cannot be loaded: {back!r}")
            got = list(zip(*[np.asarray(c, float).tolist() for c in back.data]))
            if not ioh.same([list(r) for r in got], [list(r) for r in exp]):
                raise Violation("round-trip", f"loading the saved file gives {len(got)} points that differ from the {len(exp)} saved")
            sim.probe("saved complete")
