"""C06: every file the library opens is closed again, whatever fails."""
import gc
import pathlib

import numpy as np

from simlib import disk as D, formats as F, ioh, scratch
from simlib.core import SutError, Violation

RUNS = {"quick": 5000, "thorough": 100000}
LEVEL = "fault_enumeration"
RULE = ("one run = a sequence of loads, refreshes, saves and material loads over complete, truncated and garbled files with injected I/O failures; after each call the "
        "set of files it opened must be explicitly closed; non-trivial = a fault fired or a damaged file was used")
NEED_FAULT = True
MIN_EVENTS = 2
SHRINK = ("ops",)
TECH = "calls, file contents (complete, cut, garbled) and the I/O call at which an error, interruption or memory failure strikes"
NOTE = "Every raw file the library opens is an instrumented object: left open, or closed only by its finaliser, is a violation; caller handles are checked to stay open and usable."
STATE = "distinct (call, damage, fault, outcome)"
REAL = ["all loaders, DataSE.save/refresh, RI, load_material", "numpy and pandas file handling", "Python io finalisers"]
STUB = ["raw file I/O (simulated disk)"]
ASSUME = ["interruptions arrive inside I/O calls", "judged when the call returns or raises, before any garbage collection of its objects"]
PROBES = ["ok", "raised", "caller handle", "save", "refresh", "load_material"] + ["format " + f for f in F.FORMATS]


def gen(rng, tier):
    ops = []
    for _ in range(rng.randint(1, 6)):
        kind = rng.choice(["load"] * 6 + ["save", "save", "refresh", "refresh", "material"])
        f = F.gen(rng, "native" if kind == "refresh" else rng.choice(F.FORMATS), big=0.03)
        dmg = rng.choice(["none", "none", "cut", "garble", "empty", "other"])
        if kind == "material" or kind == "save":
            dmg = "none"
        faults = []
        if rng.random() < 0.6:
            if kind == "save":
                faults = [rng.choice([dict(op="space", after=rng.randint(0, 300)), dict(op="write", n=rng.randint(1, 3), kind=rng.choice(["EIO", "interrupt", "memory"])),
                                      dict(op="close", n=1, kind="EIO"), dict(op="open", n=1, kind="EACCES")])]
            else:
                faults = ioh.gen_read_faults(rng)
        ops.append(dict(kind=kind, file=f, dmg=dmg, at=rng.random(), byte=rng.choice([0, 9, 10, 32, 35, 65, 255]), faults=faults,
                        src=rng.choice(["str", "path", "handle", "bhandle"]), mat=rng.randrange(100), kw=rng.randrange(4)))
    return dict(ops=ops, knobs=D.knobs(rng))


def damage(img, op, rng_at):
    data = img.data
    k = int(op["at"] * len(data))
    if op["dmg"] == "cut":
        return data[:k]
    if op["dmg"] == "garble":
        return data[:k] + bytes([op["byte"]]) * 3 + data[k + 3 :]
    if op["dmg"] == "empty":
        return b""
    if op["dmg"] == "other":
        return b"\xff\xfe\x00garbage\n" * 5
    return data


def execute(plan, sim):
    import refellips
    from refellips import DataSE, dispersion

    with scratch.rundir() as root:
        disk = D.Disk(sim, root, plan["knobs"])
        disk.extra_roots = ["/repo/refellips/materials/"]
        disk.install()
        names = sorted(dispersion.materials)
        gc.disable()
        for i, op in enumerate(plan["ops"]):
            img = F.build(op["file"])
            fmt = img.fmt
            path = disk.path(f"g{i}_20200929-083122.ds.dat")
            D.write_bytes(path, damage(img, op, op["at"]))
            if op["dmg"] != "none":
                sim.fault("damaged file: " + op["dmg"])
            handle = None
            kind = op["kind"]
            disk.begin(())
            arg = path
            if op["src"] == "path":
                arg = pathlib.Path(path)
            elif op["src"] in ("handle", "bhandle"):
                if kind == "load" and fmt != "ri_csv":
                    arg = handle = open(path, encoding="utf-8")
                elif kind == "save":
                    arg = handle = open(path, "wb" if op["src"] == "bhandle" else "w")
            ds = None
            if kind in ("save", "refresh"):
                ds = DataSE([np.arange(1.0, 6.0)] * 4, name="x")
                ds.filename = path
            mine = list(disk.files)
            disk.begin(op["faults"])
            disk.files = []
            if kind == "load":
                kw = {}
                if op["kw"] == 1 and fmt in ("native", "ep4", "horiba"):
                    kw = dict(reflect_delta=True)
                if fmt == "native" and img.info["delim"] != "\t":
                    kw["delimiter"] = img.info["delim"]
                if op["kw"] == 2 and fmt.startswith("m2000"):
                    kw = dict(dropdatapoints=2, take_every=2)
                got = sim.call(F.load, fmt, arg, **kw)
                sim.probe("format " + fmt)
            elif kind == "save":
                got = sim.call(ds.save, arg)
                sim.probe("save")
            elif kind == "refresh":
                got = sim.call(ds.refresh)
                sim.probe("refresh")
            else:
                got = sim.call(refellips.load_material, names[op["mat"] % len(names)])
                sim.probe("load_material")
            failed = isinstance(got, SutError)
            fired = list(disk.fired)
            left = disk.end()
            sim.log(kind, fmt, op["dmg"], "raised" if failed else "ok", left)
            sim.state(kind, fmt, op["dmg"], [f["op"] + str(f.get("kind")) for f in fired], failed)
            sim.probe("raised" if failed else "ok")
            sim.now += 1
            if left:
                raise Violation("file-left-open", f"{kind} of {fmt} ({'raised ' + repr(got) if failed else 'returned'}; file damage {op['dmg']}; faults {fired}) left open: {left}")
            got = None  # whatever the call left behind dies now
            if disk.leaks:
                raise Violation("file-left-open", f"{kind} of {fmt}: {disk.leaks} closed only by the finaliser")
            if kind == "load" and failed and op["dmg"] == "none" and not fired:
                raise Violation("load-failed", f"a complete {fmt} file does not load")
            if handle is not None:
                sim.probe("caller handle")
                if handle.closed or any(f.closed for f in mine):
                    raise Violation("handle-closed", f"{kind} of {fmt} ({'raised' if failed else 'returned'}) closed the caller's handle")
                try:
                    if handle.readable():
                        handle.seek(0)
                        handle.read()
                except UnicodeDecodeError:
                    pass
                for f in mine:
                    D.io.FileIO.close(f)
                handle = arg = None
        gc.enable()
