"""C07: time-resolved and mapped measurements are conserved by the loaders."""
import numpy as np

from simlib import disk as D, formats as F, scratch
from simlib.core import SutError, Violation, hash8

RUNS = {"quick": 6000, "thorough": 120000}
LEVEL = "exploration"
RULE = ("one run = a simulated measuring session (clock that jumps, stalls or runs back; stage that drifts and revisits; failing readings) writing one file, loaded once or "
        "several times with sub-sampling options; non-trivial = more than one time/location or an instrument fault")
NEED_FAULT = True
MIN_EVENTS = 2
SHRINK = ("rows", "loads")
TECH = "instrument sessions: clock jumps, stalls and steps back, stage drift and revisits, failed readings, and the sub-sampling options"
NOTE = "A simulated instrument writes the file; what must come back is computed from the session record, not from the file."
STATE = "distinct (format, instrument faults so far, times, locations, options)"
REAL = ["open_EP4file, open_M2000file, open_FilmSenseFile, open_HORIBAfile", "pandas grouping"]
STUB = ["the instrument: clock, stage, detector"]
ASSUME = ["stage drift at one location stays below 0.16 mm and locations are more than 0.45 mm apart, or the stage scans in equal steps below 0.2 mm (the loader separates locations by 0.2 mm from the first reading of a location)",
          "every visit and every time has at least one valid reading", "M2000 times identify a dataset to the nearest 0.1 s (the loader's documented key is the time in seconds)"]
PROBES = ["ep4 map", "ep4 series", "ep4 series of maps", "m2000 series", "filmsense series", "take_every", "dropdatapoints", "cutoffs"]


def gen(rng, tier):
    fmt = rng.choice(["ep4", "ep4", "ep4", "m2000_kin", "m2000_kin", "fs_dyn", "m2000_std", "horiba"])
    loads = [dict(te=rng.choice([1, 1, 2, 3, 7]), dd=rng.choice([1, 1, 2, 3, 5]), lo=rng.choice([0, 400, 555.5]), hi=rng.choice([2000, 800, 600]),
                  reflect=int(rng.random() < 0.2)) for _ in range(rng.randint(1, 3))]
    nt = rng.choice([1, 2, 3, 4, 6, 12]) if rng.random() < 0.97 else rng.choice([30, 65, 101, 130])
    times, faults, t = [], [], rng.choice([0.0, round(rng.uniform(0.5, 50), 3), round(rng.uniform(0.5, 50), 3)])
    weird = rng.random() < 0.6
    for _ in range(nt):
        times.append(round(t, 4))
        x = rng.random()
        if weird and x < 0.12:
            faults.append("clock:stall")
        elif weird and x < 0.24 and t > 5:
            t -= rng.choice([0.001, 1.0, 4.9, t / 2])
            faults.append("clock:back")
        elif weird and x < 0.36:
            t += rng.choice([3600.0, 86400.0])
            faults.append("clock:jump")
        elif weird and x < 0.5:
            t += rng.choice([0.001, 0.012, 0.06])  # very fast readings
            faults.append("clock:fast")
        else:
            t += rng.choice([0.5, 2.0, 60.0, rng.uniform(0.1, 9)])
    base = dict(fmt=fmt, loads=loads, faults=faults, eol=rng.choice(["\n", "\r\n"]), knobs=D.knobs(rng), opt=rng.randrange(1000))
    if rng.random() < 0.6:
        base["odd"] = rng.randrange(1 << 20)
    r3 = F.r3
    rows = []
    if fmt == "ep4":
        pos = rng.random() < 0.7
        nloc = rng.choice([1, 2, 3, 5]) if pos else 1
        locs = []
        while len(locs) < nloc:
            c = (r3(rng, -20, 20), r3(rng, -20, 20))
            if rng.random() < 0.3:  # on an axis of the stage, or in the middle
                c = rng.choice([(0.0, c[1]), (c[0], 0.0), (0.0, 0.0)])
            if rng.random() < 0.3 and locs:  # move along one axis only
                c = (locs[-1][0], c[1]) if rng.random() < 0.5 else (c[0], locs[-1][1])
            if locs and rng.random() < 0.3:  # a fine map
                c = (round(locs[-1][0] + rng.choice([0, 0.5]), 3), round(locs[-1][1] + rng.choice([0.5, 0.6]), 3))
            if all(max(abs(c[0] - q[0]), abs(c[1] - q[1])) > 0.45 for q in locs):
                locs.append(c)
        lams = sorted({round(rng.uniform(400, 900), 1) for _ in range(rng.choice([1, 1, 2, 3]))})
        aois = sorted({round(rng.uniform(45, 75), 1) for _ in range(rng.choice([1, 2, 3]))})
        zones = rng.choice([1, 2, 4])
        drift = rng.choice([0, 0, 0.02, 0.08])
        bad = rng.choice([0, 0.1, 0.4])
        if drift:
            faults.append("stage:drift")
        timed = rng.random() < 0.7
        step = 0
        if pos and rng.random() < 0.25:  # a scan: small steps of the stage, none of them a jump
            step = rng.choice([0.06, 0.08, 0.12, 0.15, 0.18])
            nloc = rng.choice([3, 6, 10])
            ax = rng.choice([(1, 0), (0, 1), (-1, 0), (0, -1), (1, 1)])
            locs = [(round(locs[0][0] + ax[0] * step * i, 3), round(locs[0][1] + ax[1] * step * i, 3)) for i in range(nloc)]
            drift, zones, times = 0, min(zones, 2), times[:4]
            faults.append("stage:scan")
        for t in times if timed else times[:1]:
            order = list(locs)
            if rng.random() < 0.3 and not step:
                rng.shuffle(order)
            if rng.random() < 0.3 and not step and len(order) > 1:
                order.append(order[0])
                faults.append("stage:revisit")
            for x, y in order:
                some = False
                for a in aois:
                    for lam in lams:
                        for z in range(zones):
                            ok = rng.random() >= bad
                            if not some and (a, lam, z) == (aois[-1], lams[-1], zones - 1):
                                ok = True
                            if not ok:
                                faults.append("reading:failed")
                            some = some or ok
                            rows.append([lam, a, F.any_delta(rng), r3(rng, 1, 89), ok, t, round(x + rng.uniform(-drift, drift), 3), round(y + rng.uniform(-drift, drift), 3)])
        base.update(time=timed, pos=pos, theta=rng.random() < 0.3)
    elif fmt == "m2000_kin":
        pts = F.gen_rows(rng, rng.choice([1, 2, 3, 5, 8]))
        tm = [round(t / 60, 4) for t in times]
        ragged = rng.random() < 0.3  # the instrument skipped points
        for t in tm:
            for b in rng.sample(pts, rng.randint(1, len(pts))) if ragged else pts:
                rows.append([b[0], b[1], r3(rng, 1, 89), F.any_delta(rng), t])
        if rng.random() < 0.2:
            rng.shuffle(rows)
            faults.append("rows:interleaved")
        base["tdec"] = 4
    elif fmt == "fs_dyn":
        k = rng.randint(1, 5)
        base["wl"] = sorted(r3(rng, 350, 1000, 2) for _ in range(k))
        base["aoi"] = r3(rng, 40, 80)
        rows = [[round(t, 3), [[r3(rng, 5, 85), r3(rng, 0, 359.9)] for _ in range(k)]] for t in times]
    elif fmt == "m2000_std":
        rows = F.gen_rows(rng, rng.choice([1, 2, 5, 9, 14]) if rng.random() < 0.95 else rng.choice([100, 257, 600]))
    else:
        rows = [[b[0], b[2], b[3]] for b in F.gen_rows(rng, rng.choice([2, 5, 9, 14]) if rng.random() < 0.95 else rng.choice([100, 257, 600]))]
        base["aoi"] = r3(rng, 40, 80, 2)
    if not faults:
        faults.append("none") if len(times) < 2 else None
    base["rows"] = rows
    return base


def rows_match(got, exp, fmt, what):
    same = F.same_for(fmt)
    if len(got) != len(exp):
        raise Violation("not-conserved", f"{what}: {len(got)} points, {len(exp)} measured")
    for i, (g, e) in enumerate(zip(got, exp)):
        if not same(g, e):
            raise Violation("not-conserved", f"{what}: point {i} is {g}, measured {tuple(e)}")


def execute(plan, sim):
    fmt = plan["fmt"]
    for f in plan["faults"]:
        if f != "none":
            sim.fault(f)
    if not plan["rows"]:
        return
    with scratch.rundir() as root:
        disk = D.Disk(sim, root, plan["knobs"])
        disk.install()
        img = F.build(plan)
        path = disk.path("s_20200929-083122.ds.dat")
        D.write_bytes(path, img.data)
        sim.log("session", fmt, hash8(repr(img.data)))
        meas = [ln.meas for ln in img.lines if ln.meas]
        if fmt == "ep4" and not any(m["valid"] for m in meas):
            return
        for ld in plan["loads"] or [dict(te=1, dd=1, lo=0, hi=2000, reflect=0)]:
            kw = {}
            reflect = False
            if fmt in ("ep4", "horiba") and ld["reflect"]:
                kw["reflect_delta"] = reflect = True
            if fmt == "m2000_kin":
                kw.update(take_every=ld["te"], dropdatapoints=ld["dd"])
            if fmt == "m2000_std":
                kw.update(dropdatapoints=ld["dd"])
            if fmt == "horiba":
                kw.update(lambda_cutoffs=[ld["lo"], ld["hi"]])
                sim.probe("cutoffs")
            disk.begin(())
            got = sim.call(F.load, fmt, path, **kw)
            disk.end()
            sim.log("load", kw, isinstance(got, SutError))
            sim.state(fmt, sorted(set(plan["faults"])), len(got) if isinstance(got, (list, dict)) else 1, sorted(map(str, kw.items())))
            sim.now += 1
            if isinstance(got, SutError):
                raise Violation("load-failed", f"{fmt} session does not load: {got!r}")
            if fmt == "ep4":
                groups, series = F.ep4_expect(img, len(img.lines))
                sim.probe("ep4 " + ("series of maps" if series and len(groups) > len({g["time"] for g in groups}) else "series" if series else "map" if len(groups) > 1 else "single"))
                msg = F.judge(img, got, None, reflect)
                if msg:
                    raise Violation("not-conserved", f"ep4: {msg}")
            elif fmt == "m2000_kin":
                sim.probe("m2000 series")
                if ld["te"] > 1:
                    sim.probe("take_every")
                if ld["dd"] > 1:
                    sim.probe("dropdatapoints")
                if not isinstance(got, dict):
                    raise Violation("not-conserved", f"m2000 series returned as {type(got).__name__}")
                exp = {}
                for m in meas:
                    exp.setdefault(m["key"] * 60, []).append(m["v"])
                keep = sorted(exp)[:: ld["te"]]
                if len(got) != len(keep):
                    raise Violation("not-conserved", f"m2000 series: {len(got)} datasets, {len(keep)} times kept of {len(exp)} (take_every={ld['te']})")
                for key, t in zip(sorted(got), keep):
                    if abs(float(key) - t) > 0.0501:
                        raise Violation("not-conserved", f"m2000 series: dataset at {key} s, measured at {t} s")
                    rows_match(F.rows_of(got[key]), exp[t][:: ld["dd"]], fmt, f"m2000 time {t}")
            elif fmt == "fs_dyn":
                sim.probe("filmsense series")
                if not isinstance(got, dict):
                    raise Violation("not-conserved", f"filmsense series returned as {type(got).__name__}")
                exp = {}
                for m in meas:
                    exp.setdefault(m["key"], []).extend(m["vs"])
                if sorted(got) != sorted(exp):
                    raise Violation("not-conserved", f"filmsense: times {sorted(got)[:6]}, measured {sorted(exp)[:6]}")
                for t in exp:
                    rows_match(F.rows_of(got[t]), exp[t], fmt, f"filmsense time {t}")
            elif fmt == "m2000_std":
                if ld["dd"] > 1:
                    sim.probe("dropdatapoints")
                rows_match(F.rows_of(got), [m["v"] for m in meas][:: ld["dd"]], fmt, f"m2000 (dropdatapoints={ld['dd']})")
            else:
                ex = [m["v"] for m in meas if ld["lo"] < m["v"][0] < ld["hi"]]
                rows_match(F.rows_of(got), [F.reflect(v) if reflect else v for v in ex], fmt, f"horiba cutoffs {ld['lo']},{ld['hi']}")
