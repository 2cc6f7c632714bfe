"""C02: a failed load or refresh leaves the dataset as it was, and a retry works."""
import os
import pathlib

import numpy as np

from simlib import disk as D, formats as F, ioh, scratch
from simlib.core import SutError, Violation

RUNS = {"quick": 5000, "thorough": 100000}
LEVEL = "fault_enumeration"
RULE = ("one run = datasets with masks and delta conventions going through loads and refreshes while files vanish, are garbled, cut or replaced and reads fail; "
        "non-trivial = at least one load or refresh failed")
NEED_FAULT = True
MIN_EVENTS = 3
SHRINK = ("ops",)
TECH = "histories of loads/refreshes, file damage and the I/O call at which reading fails"
NOTE = "After a failure every observable of the dataset is compared with the snapshot taken before; after a success with an independent reading of the file."
STATE = "distinct (operation, source, damage, fault, outcome, previous outcome)"
REAL = ["DataSE.load, refresh, mask and data handling", "numpy.loadtxt", "refnx possibly_open_file"]
STUB = ["raw file I/O (simulated disk)", "the instrument replacing the file"]
ASSUME = ["interruptions arrive inside I/O calls", "a garbled file may load or raise; only a raise is judged (nothing may have changed)"]
PROBES = ["failed load", "failed refresh", "success after failure", "file missing", "masked dataset", "reflected dataset", "interrupted"]


def gen(rng, tier):
    nd = rng.randint(1, 3)
    delim = rng.choice(["\t", "\t", ","])
    files = []
    for _ in range(rng.randint(1, 3)):
        f = F.gen(rng, "native", big=0.03)
        f["header"] = [h.replace(f["delim"], delim) for h in f["header"]]
        f["delim"] = delim
        files.append(f)
    ds = []
    for _ in range(nd):
        n = rng.randint(1, 6)
        ds.append(dict(rows=[[round(rng.uniform(300, 900), 2), 70.0, round(rng.uniform(1, 89), 3), round(rng.uniform(1, 359), 3)] for _ in range(n)],
                       mask=[int(rng.random() < 0.6) for _ in range(n)], reflect=int(rng.random() < 0.4), fromfile=int(rng.random() < 0.5), src=rng.choice(["str", "path"])))
    ops = []
    for _ in range(rng.randint(2, 9)):
        op = dict(k=rng.choice(["load", "load", "refresh", "refresh", "refresh", "mask", "put", "put"]), d=rng.randrange(nd), f=rng.randrange(3), p=rng.randrange(2),
                  dmg=rng.choice(["none", "none", "none", "cut", "garble", "empty", "cols3", "cols5", "ragged", "binary", "missing", "delim"]),
                  at=rng.random(), byte=rng.choice([9, 10, 32, 35, 65, 45]), src=rng.choice(["str", "path", "handle"]), bits=rng.randrange(1 << 12),
                  faults=ioh.gen_read_faults(rng) if rng.random() < 0.5 else [])
        ops.append(op)
    return dict(files=files, data=ds, ops=ops, delim=delim, knobs=D.knobs(rng))


def damaged(img, op):
    d, data = op["dmg"], img.data
    k = int(op["at"] * len(data))
    if d == "cut":
        return data[:k]
    if d == "garble":
        return data[:k] + bytes([op["byte"]]) * 2 + data[k + 2 :]
    if d == "empty":
        return b""
    sep = img.info["delim"].encode()
    nl = img.eol.encode()
    if d in ("cols3", "cols5", "ragged"):
        out = []
        for i, ln in enumerate(data.split(nl)):
            c = ln.split(sep)
            if len(c) == 4 and (d != "ragged" or i % 2):
                c = c[:3] if d == "cols3" else c + [b"1.0"]
            out.append(sep.join(c))
        return nl.join(out)
    if d == "delim":  # exported with another separator
        return data.replace(sep, b" " if op["at"] < 0.3 else b";" if op["at"] < 0.6 else b"," if sep == b"\t" else b"\t")
    if d == "binary":
        return data[:k] + b"\xff\xfe\x80" + data[k:]
    return data


def execute(plan, sim):
    from refellips import DataSE

    with scratch.rundir() as root:
        disk = D.Disk(sim, root, plan["knobs"])
        disk.install()
        imgs = [F.build(f) for f in plan["files"]]
        paths = [disk.path("a.txt"), disk.path("b.txt")]
        content = {}  # path -> (image index | None) of a complete well-formed file
        for i, p in enumerate(paths):
            D.write_bytes(p, imgs[i % len(imgs)].data)
            content[p] = i % len(imgs)
        sets, home = [], []
        for i, d in enumerate(plan["data"]):
            kw = dict(name=f"set {i}", reflect_delta=bool(d["reflect"]), delimiter=plan["delim"])
            p = paths[i % 2]
            if d["fromfile"]:
                s = sim.call(lambda: DataSE(pathlib.Path(p) if d["src"] == "path" else p, **kw))
                if isinstance(s, SutError):
                    raise Violation("load-failed", f"a complete file does not load: {s!r}")
                home.append(p)
            else:
                a = np.array(d["rows"], float)
                s = DataSE([a[:, j].copy() for j in range(4)], **kw)
                home.append(None)
            n = len(np.atleast_1d(s.mask))
            s.mask = [bool(d["mask"][j % len(d["mask"])]) for j in range(n)]
            sets.append(s)
        prev = {}
        for op in plan["ops"]:
            di = op["d"] % len(sets)
            s = sets[di]
            reflect = bool(plan["data"][di]["reflect"])
            path = paths[op["p"]]
            if op["k"] == "mask":
                n = s.mask.size
                s.mask = [bool(op["bits"] >> (j % 12) & 1) for j in range(n)]
                sim.log("mask")
                continue
            if op["k"] == "put":  # the instrument (or an accident) changes a file
                im = imgs[op["f"] % len(imgs)]
                if op["dmg"] == "missing":
                    if os.path.exists(path):
                        os.unlink(path)
                    content[path] = None
                    sim.probe("file missing")
                else:
                    D.write_bytes(path, damaged(im, op))
                    content[path] = op["f"] % len(imgs) if op["dmg"] == "none" else None
                if op["dmg"] != "none":
                    sim.fault("file " + op["dmg"])
                sim.log("put", op["dmg"])
                continue
            refresh = op["k"] == "refresh"
            if refresh:
                if home[di] is None:
                    before = ioh.snap(s)
                    got = sim.call(s.refresh)
                    if isinstance(got, SutError) or not ioh.same(before, ioh.snap(s)):
                        raise Violation("changed", "refreshing a dataset that has no file changed it")
                    continue
                path = home[di]
            others = [ioh.snap(x) for j, x in enumerate(sets) if j != di]
            before = ioh.snap(s)
            if not all(before["mask"]):
                sim.probe("masked dataset")
            if reflect:
                sim.probe("reflected dataset")
            handle = None
            arg = pathlib.Path(path) if op["src"] == "path" else path
            disk.begin(())
            if op["src"] == "handle" and not refresh and os.path.exists(path):
                arg = handle = open(path, encoding="utf-8")
            disk.begin(op["faults"])
            got = sim.call(s.refresh) if refresh else sim.call(s.load, arg)
            fired = list(disk.fired)
            disk.end()
            disk.close_leftovers()
            if handle is not None:
                D.io.FileIO.close(handle.buffer.raw)
            failed = isinstance(got, SutError)
            what = "refresh" if refresh else "load"
            kinds = [f["op"] + ":" + f["kind"] for f in fired]
            sim.log(what, op["src"], "raised" if failed else "ok", kinds)
            sim.state(what, op["src"], content[path] is None, kinds, failed, prev.get(di))
            if any(f["kind"] == "interrupt" for f in fired):
                sim.probe("interrupted")
                if not failed:
                    raise Violation("interrupt-swallowed", f"{what} returned although it was interrupted")
            after = ioh.snap(s)
            if [ioh.snap(x) for j, x in enumerate(sets) if j != di] != others:
                raise Violation("other-changed", f"{what} of one dataset changed another")
            if failed:
                if content[path] is None:
                    sim.fault("load of unreadable file")
                sim.probe("failed " + what)
                if not ioh.same(before, after):
                    diff = [k for k in before if not ioh.same(before[k], after[k])]
                    raise Violation("changed", f"{what} raised {got!r} (faults {kinds}) but the dataset's {diff} changed")
                if not fired and content[path] is not None:
                    raise Violation("retry-failed", f"{what} of a complete file without faults raised {got!r}")
                prev[di] = "failed"
                continue
            if content[path] is not None:
                msg = F.judge(imgs[content[path]], s, None, reflect)
                if msg:
                    raise Violation("wrong-points", f"{what} returned (faults {kinds}): {msg}")
                if not np.all(s.mask) or np.size(s.mask) != len(s):
                    raise Violation("mask", f"{what} returned but the mask is not cleared: {np.asarray(s.mask).tolist()}")
                if s.name != before["name"]:
                    raise Violation("name", f"{what} changed the name {before['name']!r} to {s.name!r}")
                if prev.get(di) == "failed":
                    sim.probe("success after failure")
            prev[di] = "ok"
            sim.now += 1
