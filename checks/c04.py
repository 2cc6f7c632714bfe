"""C04: the loaded points do not depend on how the bytes are delivered."""
import io
import os
import pathlib

from simlib import disk as D, formats as F, scratch
from simlib.core import SutError, Violation

RUNS = {"quick": 3000, "thorough": 60000}
LEVEL = "exploration"
RULE = ("one run = a few complete files in random formats, each loaded several ways (string, path object, seekable and non-seekable handles, in-memory handle) with "
        "random buffer sizes and short reads; non-trivial = at least two loads, at least one through short reads")
NEED_FAULT = True
MIN_EVENTS = 3
SHRINK = ("loads", "files")
TECH = "file formats and contents, kinds of source, read sizes and buffer sizes"
NOTE = "Every delivery of a complete file is judged against an independent reading of its lines, and all deliveries against each other."
STATE = "distinct (format, source kind, read limit, chunk size)"
REAL = ["all loaders of dataSE.py and dispersion.py", "pandas/numpy parsers", "io text layers"]
STUB = ["raw file I/O (simulated disk over a scratch directory)", "instrument (writes the file)"]
ASSUME = ["files are complete and well formed, at least two points for HORIBA and dispersion files", "handles are text handles in universal-newline mode, placed at the start of the measurement",
          "dispersion curves are read from paths only (RI documents no handles)"]
PROBES = ["source " + s for s in ("str", "path", "handle", "pipe", "stringio", "refresh", "later")] + ["format " + f for f in F.FORMATS]

SOURCES = ["str", "path", "handle", "pipe", "stringio", "refresh", "later"]


class Pipe(io.RawIOBase):
    """Non-seekable byte source delivering the given sizes."""

    def __init__(self, data, sizes):
        self.d, self.o, self.i = data, 0, 0
        self.sizes = [max(n, len(data) // 2500) for n in sizes]

    def readable(self):
        return True

    def readinto(self, b):
        n = self.sizes[self.i % len(self.sizes)]
        self.i += 1
        k = min(len(b), max(1, n), len(self.d) - self.o)
        b[:k] = self.d[self.o : self.o + k]
        self.o += k
        return k


def gen(rng, tier):
    nf = rng.randint(1, 2)
    files = [F.gen(rng, rng.choice(F.FORMATS), big=0.03) for _ in range(nf)]
    loads = []
    for _ in range(rng.randint(2, 6)):
        loads.append(dict(file=rng.randrange(nf), src=rng.choice(SOURCES), knobs=D.knobs(rng), reflect=int(rng.random() < 0.2),
                          sizes=[rng.choice([1, 2, 7, 50, 1000, 8192]) for _ in range(3)]))
    return dict(files=files, loads=loads)


def points(res):
    if isinstance(res, dict):
        return {repr(float(k)): F.rows_of(res[k]) for k in res}
    if isinstance(res, list):
        return [F.rows_of(d) for d in res]
    if hasattr(res, "_wav") or not hasattr(res, "psi"):
        return None
    return F.rows_of(res)


def execute(plan, sim):
    from refellips import DataSE

    with scratch.rundir() as root:
        disk = D.Disk(sim, root)
        disk.install()
        imgs = [F.build(s) for s in plan["files"]]
        for i, im in enumerate(imgs):
            D.write_bytes(disk.path(f"f{i}_20200929-083122.ds.dat"), im.data)
        first = {}
        for ld in plan["loads"]:
            i = ld["file"] % len(imgs)
            im = imgs[i]
            fmt = im.fmt
            path = disk.path(f"f{i}_20200929-083122.ds.dat")
            src = ld["src"]
            if fmt == "ri_csv" and src not in ("str", "path"):
                src = "str"
            if src == "refresh" and fmt != "native":
                src = "handle"
            disk.k.update(ld["knobs"])
            kw = {}
            reflect = bool(ld["reflect"]) and fmt in ("native", "ep4", "horiba")
            if reflect:
                kw["reflect_delta"] = True
            if fmt == "native" and im.info["delim"] != "\t":
                kw["delimiter"] = im.info["delim"]
            disk.begin(())
            handle = None
            if src == "str" or src == "refresh":
                arg = path
            elif src == "path":
                arg = pathlib.Path(path)
            elif src == "handle":
                arg = handle = open(path, encoding="utf-8")
            elif src == "later":
                # a log in front of the measurement, already read by the caller
                D.write_bytes(path + ".log", b"operator: x\nsee below\n" + im.data)
                arg = handle = open(path + ".log", encoding="utf-8")
                handle.readline()
                handle.readline()
            elif src == "stringio":
                arg = handle = io.StringIO(im.data.decode("utf-8").replace("\r\n", "\n"))
            else:
                arg = handle = io.TextIOWrapper(io.BufferedReader(Pipe(im.data, ld["sizes"]), 64), encoding="utf-8")
                sim.fault("read:short")
            if src == "refresh":
                def go():
                    d = DataSE([[1.0, 2.0]] * 4, **kw)
                    d.mask = [True, False]
                    d.filename = path
                    d.refresh()
                    return d
                got = sim.call(go)
            else:
                got = sim.call(F.load, fmt, arg, **kw)
            sim.log("load", fmt, src, isinstance(got, SutError), disk.count.get("read"))
            sim.probe("source " + src)
            sim.probe("format " + fmt)
            sim.state(fmt, src, ld["knobs"]["maxread"], ld["knobs"]["chunk"])
            if isinstance(got, SutError):
                raise Violation("load-failed", f"{fmt} given as {src}: {got!r}")
            msg = F.judge(im, got, None, reflect)
            if msg:
                raise Violation("wrong-points", f"{fmt} given as {src}: {msg}")
            pts = points(got)
            key = (i, reflect)
            if pts is not None:
                if key in first and first[key][1] != pts:
                    raise Violation("delivery-dependent", f"{fmt} given as {src} differs from {first[key][0]}")
                first.setdefault(key, (src, pts))
            if handle is not None:
                if handle.closed:
                    raise Violation("handle-closed", f"{fmt}: the caller's handle was closed")
                if src in ("handle", "stringio"):
                    r = sim.call(lambda: (handle.seek(0), handle.read())[1])
                    if isinstance(r, SutError) or r != im.data.decode("utf-8").replace("\r\n", "\n"):
                        raise Violation("handle-unusable", f"{fmt}: the caller's handle is unusable afterwards: {r!r}")
                handle.close()
            disk.end()
            disk.close_leftovers()
            sim.now += 1
