"""C05: a file atomically replaced while it is loaded is seen in one version."""
import os
import pathlib

from simlib import disk as D, formats as F, scratch
from simlib.core import SutError, Violation, hash8

RUNS = {"quick": 6000, "thorough": 120000}
LEVEL = "exploration"
RULE = ("one run = a loader reading a file while another program atomically replaces it once or several times at chosen I/O calls; the result must be exactly one version; "
        "non-trivial = at least one replacement took place during the call")
NEED_FAULT = True
MIN_EVENTS = 2
SHRINK = ("swaps", "versions")
TECH = "file versions, the I/O call of the loader before which the other program replaces the file, and read/buffer sizes"
NOTE = "Two-party simulation: the loader's opens and reads are interleaved with the other program's renames; every result is judged against each version that existed during the call."
STATE = "distinct (format, call before which the file was replaced, number of replacements, version seen)"
REAL = ["all path-based loaders of dataSE.py and dispersion.py", "rename on a real file system (scratch)"]
STUB = ["the other program", "raw file I/O (simulated disk)"]
ASSUME = ["the replacement is a rename, so an already opened file keeps showing its own version", "all versions are complete and well formed"]
PROBES = ["saw old", "saw new", "replaced before open", "replaced between reads", "replaced at close"] + ["format " + f for f in F.FORMATS]

SIB = {"m2000_std": "m2000_kin", "m2000_kin": "m2000_std", "fs_std": "fs_dyn", "fs_dyn": "fs_std"}


def gen(rng, tier):
    fmt = rng.choice(F.FORMATS)
    versions = [F.gen(rng, fmt, big=0.03)]
    for _ in range(rng.choice([1, 1, 1, 2])):
        f2 = SIB[fmt] if fmt in SIB and rng.random() < 0.25 else fmt
        v = F.gen(rng, f2, big=0.03)
        if fmt == "native":
            v["delim"] = versions[0]["delim"]
            v["header"] = [h.replace("\t", v["delim"]).replace(",", v["delim"]) for h in v["header"]]
        versions.append(v)
    swaps = []
    for _ in range(len(versions) - 1):
        swaps.append([rng.choice(["open", "open", "read", "read", "close"]), rng.choice([1, 1, 2, 2, 3, rng.randint(1, 12)])])
    return dict(versions=versions, swaps=swaps, src=rng.choice(["str", "path", "refresh", "method"]), reflect=int(rng.random() < 0.1), knobs=D.knobs(rng))


def execute(plan, sim):
    from refellips import DataSE

    with scratch.rundir() as root:
        disk = D.Disk(sim, root, plan["knobs"])
        disk.install()
        imgs = [F.build(v) for v in plan["versions"]]
        fmt = imgs[0].fmt
        sim.probe("format " + fmt)
        sim.log("versions", [hash8(repr(im.data)) for im in imgs])
        path = disk.path("f_20200929-083122.ds.dat")
        D.write_bytes(path, imgs[0].data)
        kw = {}
        reflect = bool(plan["reflect"]) and fmt in ("native", "ep4", "horiba")
        if reflect:
            kw["reflect_delta"] = True
        if fmt == "native" and imgs[0].info["delim"] != "\t":
            kw["delimiter"] = imgs[0].info["delim"]
        todo = [list(s) for s in plan["swaps"]][: len(imgs) - 1]
        state = dict(v=0)

        def party(op, n):
            while todo and todo[0][0] == op and todo[0][1] <= n:
                todo.pop(0)
                state["v"] += 1
                tmp = disk.path("tmp")
                D.write_bytes(tmp, imgs[state["v"]].data)
                os.replace(tmp, path)
                sim.fault("file replaced before " + op)
                sim.log("replace", op, n)
                sim.state(fmt, op, min(n, 20), state["v"])
                sim.probe({"open": "replaced before open", "read": "replaced between reads", "close": "replaced at close"}[op])

        src = plan["src"]
        prep = None
        if fmt == "native" and src in ("refresh", "method"):
            prep = DataSE([[1.0], [2.0], [3.0], [4.0]], **kw)
            prep.filename = path
        disk.begin((), party)
        if prep is not None:
            got = sim.call(prep.refresh) if src == "refresh" else sim.call(prep.load, path)
            got = got if isinstance(got, SutError) else prep
        else:
            got = sim.call(F.load, fmt, pathlib.Path(path) if src == "path" else path, **kw)
        disk.end()
        disk.close_leftovers()
        sim.log("load", fmt, src, isinstance(got, SutError), state["v"])
        sim.now += 1
        if isinstance(got, SutError):
            raise Violation("load-failed", f"{fmt}: replaced {state['v']} times while loading: {got!r}")
        msgs = []
        for k in range(state["v"] + 1):
            m = F.judge(imgs[k], got, None, reflect) or F.judge_meta(imgs[k], got)
            if m is None:
                sim.probe("saw old" if k == 0 else "saw new")
                sim.state(fmt, "seen", k, state["v"])
                return
            msgs.append(f"not version {k}: {m}")
        raise Violation("mixture", f"{fmt} replaced {state['v']} times while loading: " + "; ".join(msgs))
