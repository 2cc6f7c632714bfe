"""C16: materials load intact or not at all, and do not affect each other."""
import os
import pathlib
import random

import numpy as np

from simlib import disk as D, ioh, scratch, world as W
from simlib.core import SutError, Violation

RUNS = {"quick": 6000, "thorough": 120000}
LEVEL = "fault_enumeration"
RULE = ("one run = a history of loading bundled and user curves through a faulty disk from changing directories, making materials from arrays, editing those "
        "arrays and files, and querying all materials; non-trivial = a fault fired or at least two materials exist")
MIN_EVENTS = 3
SHRINK = ("ops",)
TECH = "histories of material loads, array edits and file replacements, with I/O errors, interruptions and short reads"
NOTE = "All materials alive are compared with linear interpolation of an independently parsed table after every step."
STATE = "distinct (operation, source, columns, fault, outcome)"
REAL = ["refellips.dispersion.RI and load_material", "numpy.loadtxt", "bundled CSV files"]
STUB = ["raw file I/O (simulated disk)", "clients"]
ASSUME = ["tables have distinct wavelengths and a header line", "a wavelength tabulated twice is a jump and not judged there"]
PROBES = ["bundled", "user file", "arrays", "load failed", "retry after failure", "array edited", "file replaced", "decreasing wavelengths", "relative path", "query", "two columns",
          "result scribbled on", "unknown material", "same length"]

LAMS = [350.0, 450.0, 532.0, 633.3, 700.0, 999.0]


def table(rng):
    n = rng.randint(1, 9) if rng.random() < 0.95 else rng.choice([40, 257, 1025, 3000])
    lam = {round(rng.uniform(0.3, 1.1), 4) for _ in range(n)}
    if rng.random() < 0.2:  # a finely resolved stretch
        x = rng.choice(sorted(lam))
        lam |= {round(x + i * rng.choice([1e-4, 1e-5, 1e-6]), 6) for i in range(rng.randint(1, 3))}
    lam = sorted(lam)
    cols = rng.choice([2, 3, 3])
    some = lambda: rng.choice([0.0, 1e-5, rng.uniform(0, 0.001), rng.uniform(3, 12), -rng.uniform(0, 0.01)]) if rng.random() < 0.1 else rng.uniform(0, 4)
    rows = [[x, round(rng.uniform(0.2, 3), 5), round(some(), 5) if cols == 3 else 0.0] for x in lam]
    order = rng.choice(["up", "up", "up", "down", "mixed"])
    if order == "down":
        rows.reverse()
    elif order == "mixed":
        rng.shuffle(rows)
    return rows, cols


def gen(rng, tier):
    ops = []
    r = lambda: rng.randrange(1 << 30)
    for _ in range(rng.randint(3, 12 if tier == "quick" else 40)):
        k = rng.choice(["bundled", "bundled", "user", "user", "arrays", "arrays", "const", "edit", "replace", "reload", "reload", "query", "query", "chdir", "setwl", "unknown", "slab"])
        faults = []
        if k in ("bundled", "user", "reload") and rng.random() < 0.5:
            faults = ioh.gen_read_faults(rng, 12)
        ops.append([k, rng.randrange(1000), r(), faults])
    if rng.random() < 0.6:  # a client that keeps to a few materials
        few = [rng.randrange(1000) for _ in range(rng.randint(1, 2))]
        for o in ops:
            if o[0] == "bundled" and rng.random() < 0.8:
                o[1] = rng.choice(few)
    return dict(ops=ops, knobs=D.knobs(rng), pre=rng.randrange(1000))


def text(rng, rows, cols):
    bom = rng.random() < 0.4
    eol = rng.choice(["\n", "\n", "\r\n"])
    head = rng.choice(["Wavelength,n,k", '"Wavelength, µm",n,k', "wl,n"])
    fmt = rng.choice(["%r", "%.6f", "%.6e"])
    lines = [("\ufeff" if bom else "") + head]
    for row in rows:
        lines.append(",".join(fmt % x for x in row[:cols]))
    t = eol.join(lines) + (eol if rng.random() < 0.8 else "")
    return t.encode("utf-8")


def parse(data):
    out = []
    for ln in data.decode("utf-8").replace("\r\n", "\n").split("\n")[1:]:
        if ln:
            v = [float(x) for x in ln.split(",")]
            out.append(v + [0.0] * (3 - len(v)))
    return out


class Mat:
    def __init__(self, obj, rows=None, const=None, wl=658, what=""):
        self.obj, self.rows, self.const, self.wl, self.what = obj, rows and sorted(rows, key=lambda r: r[0]), const, wl, what

    def index(self, lam):
        if self.const is not None:
            return self.const
        return W.table_interp(self.rows, lam)

    def inside(self, lam):
        return self.const is not None or self.rows[0][0] * 1000 <= lam <= self.rows[-1][0] * 1000

    def probes(self, rng):
        if self.const is not None:
            return rng.sample(LAMS, 2)
        xs = [r[0] * 1000 for r in self.rows]
        out = []
        for _ in range(3):
            i = rng.randrange(len(xs))
            j = min(i + 1, len(xs) - 1)
            t = rng.choice([0.0, 0.5, 1.0, rng.random()])
            out.append(min(max(xs[i] + t * (xs[j] - xs[i]), xs[0]), xs[-1]))
        if rng.random() < 0.4:  # beyond the ends the value at the end holds
            i = rng.choice([0, -1])
            if len(xs) < 2 or abs(xs[i] - xs[1 if i == 0 else -2]) > 1e-3:
                out.append(xs[i] * (1 + (rng.choice([1e-4, 0.05, 2.0]) if i else -rng.choice([1e-4, 0.05, 0.6]))))
        # a tabulated wavelength that occurs twice is a jump: not judged there
        return [x for x in out if sum(abs(x - y) < 1e-6 for y in xs) < 2] or [xs[0]]


def look(m, rng, sim, why):
    sim.probe("query")
    for lam in m.probes(rng):
        got = sim.call(m.obj.complex, lam)
        if isinstance(got, SutError):
            raise Violation("index", f"{m.what}: index at {lam} nm raised {got!r} {why}")
        e = m.index(lam)
        if not abs(complex(got) - e) <= 1e-9 * max(1.0, abs(e)):
            raise Violation("index", f"{m.what}: index at {lam:.4f} nm is {complex(got)}, the table gives {e} {why}")
    if m.const is None:
        lams = np.array(m.probes(rng))
        keep = lams.copy()
        got = sim.call(m.obj.complex, lams)
        if isinstance(got, SutError):
            raise Violation("index", f"{m.what}: index at {lams.tolist()} nm raised {got!r} {why}")
        if not np.array_equal(lams, keep):
            raise Violation("input-modified", "the wavelength array was modified")
        e = np.array([m.index(x) for x in keep])
        if np.shape(got) != e.shape or not np.allclose(got, e, rtol=1e-9, atol=1e-9):
            raise Violation("index", f"{m.what}: index at {keep.tolist()} nm is {np.asarray(got).tolist()}, the table gives {e.tolist()} {why}")
        if rng.random() < 0.5:  # what was handed out belongs to the caller
            try:
                np.asarray(got)[...] = -7.0
                sim.probe("result scribbled on")
            except ValueError:
                pass
    if m.obj.wavelength != m.wl:
        raise Violation("linked", f"{m.what}: default wavelength is {m.obj.wavelength}, expected {m.wl} {why}")
    if m.inside(m.wl):
        got = sim.call(complex, m.obj)
        e = m.index(m.wl)
        if isinstance(got, SutError) or not abs(got - e) <= 1e-9 * max(1.0, abs(e)):
            raise Violation("index", f"{m.what}: complex() is {got}, the table gives {e} at {m.wl} nm {why}")


def execute(plan, sim):
    import refellips
    from refellips import dispersion
    from refellips.dispersion import RI

    home = os.getcwd()
    with scratch.rundir() as root:
        disk = D.Disk(sim, root, plan["knobs"])
        disk.extra_roots = ["/repo/refellips/materials/"]
        disk.install()
        os.makedirs(os.path.join(root, "a", "b"))
        names = W._bundled_names()
        if sorted(dispersion.materials) != names:
            raise Violation("index", f"materials lists {sorted(dispersion.materials)}, bundled are {names}")
        for n in names:
            with D.bypass(disk):
                W.bundled_rows(n)
        cwd = ""
        mats, arrays, files = [], [], []
        os.chdir(root)
        try:
            for k, (op, a, seed, faults) in enumerate(plan["ops"]):
                rng = random.Random(seed)
                sim.now += 1
                new = None
                if op in ("bundled", "user", "reload"):
                    if op == "reload" and not files:
                        continue
                    if op == "bundled":
                        name = names[a % len(names)]
                        rows, wl, what = W.bundled_rows(name), 658, f"bundled {name}"
                        call = lambda: refellips.load_material(name)
                        if rng.random() < 0.3:
                            p = f"/repo/refellips/materials/{name}.csv"
                            call = lambda: RI(p, name=name)
                        sim.probe("bundled")
                    else:
                        if op == "user":
                            f = dict(name=f"u{k}.csv", dir=rng.choice(["", "a", "a/b"]))
                            files.append(f)
                            write(f, rng, root, sim)
                        f = files[a % len(files)] if op == "reload" else files[-1]
                        rows, wl, what = f["rows"], rng.choice([658, 500.0]), "user curve"
                        full = os.path.join(root, f["dir"], f["name"])
                        src = full
                        if rng.random() < 0.4:
                            src = os.path.relpath(full, os.path.join(root, cwd))
                            sim.probe("relative path")
                        if rng.random() < 0.4:
                            src = pathlib.Path(src)
                        call = lambda: RI(src, wavelength=wl)
                        sim.probe("user file")
                        if f["cols"] == 2:
                            sim.probe("two columns")
                        xs = [q[0] for q in rows]
                        if xs != sorted(xs):
                            sim.probe("decreasing wavelengths")
                    disk.begin(faults)
                    got = sim.call(call)
                    fired = list(disk.fired)
                    disk.end()
                    disk.close_leftovers()
                    disk.begin(())
                    sim.log(op, "raised" if isinstance(got, SutError) else "ok", [x["op"] + str(x.get("kind")) for x in fired])
                    sim.state(op, len(rows) > 1, [x["op"] + str(x.get("kind")) for x in fired], isinstance(got, SutError))
                    if isinstance(got, SutError):
                        if not fired:
                            raise Violation("load-failed", f"{what}: a complete file does not load: {got!r}")
                        sim.probe("load failed")
                        # the fault is gone: the very next load works
                        if rng.random() < 0.6:
                            got = sim.call(call)
                            if isinstance(got, SutError):
                                raise Violation("load-failed", f"{what}: loading again after a failure raised {got!r}")
                            sim.probe("retry after failure")
                            new = Mat(got, rows, wl=wl, what=what + " loaded again after a failure")
                    else:
                        new = Mat(got, rows, wl=wl, what=what)
                elif op == "arrays":
                    if arrays and rng.random() < 0.5:
                        arr = arrays[a % len(arrays)]
                    else:
                        rows, cols = table(rng)
                        arr = make(rng, rows)
                        arrays.append(arr)
                    now = [[float(x) for x in c] for c in arr]
                    keep = snapshot(arr)
                    got = sim.call(RI, arr, wavelength=600.0)
                    if isinstance(got, SutError):
                        raise Violation("load-failed", f"a material from arrays raised {got!r}")
                    if snapshot(arr) != keep:
                        raise Violation("input-modified", "making a material altered the arrays it was made from")
                    sim.probe("arrays")
                    sim.log("arrays", len(now[0]))
                    sim.state("arrays", type(arr).__name__, len(now[0]) > 1)
                    new = Mat(got, [list(x) for x in zip(*now)], wl=600.0, what="material from arrays")
                elif op == "const":
                    c = complex(round(rng.uniform(1, 3), 4), round(rng.uniform(0, 2), 4))
                    new = Mat(sim.call(RI, (c.real, c.imag)), const=c, what="constant material")
                    sim.log("const")
                elif op == "edit":
                    if arrays:
                        edit(arrays[a % len(arrays)], rng)
                        sim.probe("array edited")
                        sim.log("edit")
                elif op == "replace":
                    if files:
                        write(files[a % len(files)], rng, root, sim)
                        sim.probe("file replaced")
                        sim.log("replace")
                elif op == "chdir":
                    cwd = rng.choice(["", "a", "a/b"])
                    os.chdir(os.path.join(root, cwd))
                    sim.log("chdir", cwd)
                elif op == "setwl":
                    if mats:
                        m = mats[a % len(mats)]
                        m.wl = m.obj.wavelength = rng.choice(LAMS)
                        sim.log("setwl")
                elif op == "unknown":
                    got = sim.call(refellips.load_material, rng.choice(["unobtainium", "", "../materials/gold", "gold.csv", "Gold "]))
                    sim.probe("unknown material")
                    if not isinstance(got, SutError):
                        raise Violation("index", "an unknown material was loaded")
                elif op == "slab":
                    if mats:
                        m = mats[a % len(mats)]
                        lam = m.probes(rng)[0]
                        s = sim.call(m.obj, 25.0, 3.0)
                        g = s if isinstance(s, SutError) else sim.call(lambda: refellips.StructureSE([m.obj(), s, m.obj()]).slabs(wavelength=lam))
                        e = m.index(lam)
                        if isinstance(g, SutError) or not np.allclose(g[1][:3], [25.0, e.real, e.imag], rtol=1e-9, atol=1e-9):
                            raise Violation("index", f"{m.what}: a layer of it has {g} at {lam} nm, expected index {e}")
                        sim.log("slab")
                if new is not None:
                    if isinstance(new.obj, SutError):
                        raise Violation("load-failed", f"{new.what} raised {new.obj!r}")
                    look(new, rng, sim, "after loading")
                    mats.append(new)
                for m in mats if len(mats) < 5 else rng.sample(mats, 4):
                    look(m, rng, sim, f"after {op}")
            for m in mats:
                look(m, random.Random(plan["pre"]), sim, "at the end")
        finally:
            os.chdir(home)


def write(f, rng, root, sim):
    """(re)place a user file atomically"""
    p = os.path.join(root, f["dir"], f["name"])
    stamp = None
    if "rows" in f and rng.random() < 0.4:
        # a correction that leaves the length (and, restored from an archive, the
        # time stamp) of the file as it was
        cols = f["cols"]
        data = D.read_bytes(p)
        digits = [i for i, c in enumerate(data) if chr(c).isdigit() and data[i - 1: i] == b"." and b"\n" in data[:i]]
        i = rng.choice(digits)
        data = data[:i] + str((int(data[i: i + 1]) + rng.randint(1, 9)) % 10).encode() + data[i + 1:]
        if len({r[0] for r in parse(data)}) < len(f["rows"]):
            return
        if rng.random() < 0.5:
            stamp = os.stat(p).st_mtime_ns
        sim.probe("same length")
    else:
        rows, cols = table(rng)
        data = text(rng, rows, cols)
    D.write_bytes(p + ".tmp", data)
    if stamp is not None:
        os.utime(p + ".tmp", ns=(stamp, stamp))
    os.replace(p + ".tmp", p)
    f["rows"], f["cols"] = parse(data), cols


def make(rng, rows):
    cols = [np.array(c, dtype=float) for c in zip(*rows)]
    how = rng.choice(["tuple", "tuple", "list", "matrix", "lists", "views", "readonly", "transposed"])
    if how == "tuple":
        return tuple(cols)
    if how == "list":
        return list(cols)
    if how == "matrix":
        return np.array(cols)
    if how == "lists":
        return [c.tolist() for c in cols]
    if how == "views":
        m = np.repeat(np.array(cols), 2, axis=1)
        return tuple(m[i, ::2] for i in range(3))
    if how == "transposed":
        return np.array(rows, dtype=float).T
    m = np.array(cols)
    m.flags.writeable = False
    return m


def snapshot(arr):
    return repr([np.asarray(c).tolist() for c in arr])


def edit(arr, rng):
    for c in arr:
        if isinstance(c, list):
            c[rng.randrange(len(c))] += 0.0712345
        elif c.flags.writeable:
            c[rng.randrange(c.size)] += 0.0712345
