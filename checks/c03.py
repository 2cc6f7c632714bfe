"""C03: a file cut off at any byte never yields invented, altered or lost points."""
import pathlib

from simlib import disk as D, formats as F, scratch
from simlib.core import SutError, Violation

RUNS = {"quick": 6000, "thorough": 120000}
LEVEL = "fault_enumeration"
RULE = ("one run = an instrument writing a file in a random format chunk by chunk (or crashing mid-write) while a reader loads what is on disk after each chunk; "
        "every load is judged against the complete lines at that byte; non-trivial = at least one load of a truncated file")
NEED_FAULT = True
MIN_EVENTS = 2
SHRINK = ("cuts",)
TECH = "file formats and contents, and the byte offsets at which the writer is cut off"
NOTE = "The byte at which the file ends is the crash point; the expected content is computed from the lines complete at that byte, independently of the parsers."
STATE = "distinct (format, line in which the cut falls, field of that line, outcome)"
REAL = ["all loaders of dataSE.py and dispersion.py", "pandas/numpy parsers"]
STUB = ["instrument writing the file", "raw file I/O (simulated disk)"]
ASSUME = ["the instrument writes its lines in order", "a measurement spread over several lines (M2000) is complete when all its lines are",
          "either raising or returning is acceptable for a truncated file"]
PROBES = ["truncated load returned", "truncated load raised", "cut in header", "cut inside a data line", "cut between lines", "complete file"] + ["format " + f for f in F.FORMATS]


def gen(rng, tier):
    spec = F.gen(rng, rng.choice(F.FORMATS), big=0.015)
    img = F.build(spec)
    n = len(img.data)
    cuts = set()
    for _ in range(rng.randint(2, 8)):
        x = rng.random()
        if x < 0.45:
            cuts.add(rng.randrange(0, n + 1))
        elif x < 0.75:  # around a line end
            cuts.add(max(0, min(n, rng.choice(img.ends) + rng.randint(-3, 3))))
        else:  # near the end of the file
            cuts.add(max(0, n - int(rng.expovariate(0.08))))
    return dict(file=spec, cuts=sorted(cuts), src=rng.choice(["str", "path", "handle"]), reflect=int(rng.random() < 0.15), knobs=D.knobs(rng))


def execute(plan, sim):
    with scratch.rundir() as root:
        disk = D.Disk(sim, root, plan["knobs"])
        disk.install()
        img = F.build(plan["file"])
        fmt = img.fmt
        sim.probe("format " + fmt)
        path = disk.path("f_20200929-083122.ds.dat")
        kw = {}
        reflect = bool(plan["reflect"]) and fmt in ("native", "ep4", "horiba")
        if reflect:
            kw["reflect_delta"] = True
        if fmt == "native" and img.info["delim"] != "\t":
            kw["delimiter"] = img.info["delim"]
        first_data = next(i for i, ln in enumerate(img.lines) if ln.meas)
        for cut in [c for c in plan["cuts"] if c < len(img.data)] + [len(img.data)]:
            D.write_bytes(path, img.data[:cut])
            whole = cut == len(img.data)
            n = img.complete_lines(cut)
            if not whole:
                sim.fault("truncated at byte")
                start = img.ends[n - 1] if n else 0
                sim.probe("cut between lines" if start == cut else "cut in header" if n < first_data else "cut inside a data line")
            disk.begin(())
            handle = None
            arg = path
            if plan["src"] == "path":
                arg = pathlib.Path(path)
            elif plan["src"] == "handle" and fmt != "ri_csv":
                arg = handle = open(path, encoding="utf-8")
            got = sim.call(F.load, fmt, arg, **kw)
            failed = isinstance(got, SutError)
            disk.end()
            disk.close_leftovers()
            sim.log("load", fmt, cut, "raised" if failed else "returned")
            field = img.data[(img.ends[n - 1] if n else 0):cut].count(b"\t") if not whole else -1
            sim.state(fmt, n, field, failed)
            sim.now += 1
            if whole:
                sim.probe("complete file")
                if failed:
                    raise Violation("complete-file-rejected", f"{fmt}: the complete file does not load: {got!r}")
                msg = F.judge(img, got, None, reflect)
            elif failed:
                sim.probe("truncated load raised")
                continue
            else:
                sim.probe("truncated load returned")
                msg = F.judge(img, got, cut, reflect)
            if msg:
                raise Violation("wrong-points", f"{fmt} cut at byte {cut} of {len(img.data)} ({n} complete lines): {msg}")
