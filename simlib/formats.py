"""Instrument file formats: writers (what the instrument puts on disk, line by
line) and the expected meaning of the completely written lines.

A FileImage is a list of lines; some lines carry measurements.  The expected
content after any byte offset is computed from the lines complete at that offset
- independently of the library's parsers.
"""
import math
import random

import numpy as np


class Line:
    __slots__ = ("text", "meas")

    def __init__(self, text, meas=None):
        self.text = text
        self.meas = meas  # dict or None


class FileImage:
    """lines + rules to interpret them."""

    def __init__(self, fmt, lines, eol="\n", final_eol=True, info=None):
        self.fmt = fmt
        self.lines = lines
        self.eol = eol
        self.final_eol = final_eol
        self.info = info or {}
        data = b""
        self.ends = []
        for i, ln in enumerate(lines):
            last = i == len(lines) - 1
            e = eol if (not last or final_eol) else ""
            data += (ln.text + e).encode("utf-8")
            self.ends.append(len(data))
        self.data = data

    def complete_lines(self, cut):
        """Number of lines completely on disk (their text and terminator, or
        the whole file)."""
        n = 0
        for e in self.ends:
            if e <= cut:
                n += 1
            else:
                break
        return n


def fnum(x, style):
    if style == "full":
        return "%.18e" % x
    if style == "g":
        return "%.6g" % x
    return "%.*f" % (style, x)


class Odd:
    """What the instrument puts in the columns that are not points: ordinary, or
    (spec["odd"] is a seed) anything a real instrument may write there."""

    def __init__(self, spec):
        self.rng = random.Random(spec["odd"]) if spec.get("odd") is not None else None

    def __call__(self, usual, nd=4, lo=-5.0, hi=50.0):
        if self.rng is None:
            return usual
        x = self.rng.random()
        if x < 0.4:
            return usual
        v = self.rng.choice([0.0, -0.0, -1.0, 1.0, 100.0, self.rng.uniform(lo, hi), self.rng.uniform(lo, hi), self.rng.uniform(-1, 1)])
        return "%.*f" % (nd, max(lo, min(hi, v)))


# ---------------------------------------------------------------- builders
# every builder takes a JSON spec and returns a FileImage whose lines carry the
# *parsed-back* values (float of the written text).


def native(spec):
    d = spec.get("delim", "\t")
    st = spec.get("style", "g")
    lines = [Line(h) for h in spec.get("header", [])]
    for r in spec["rows"]:
        cells = [fnum(x, st) for x in r]
        lines.append(Line(d.join(cells), dict(v=[float(c) for c in cells], key=0)))
    return FileImage("native", lines, spec.get("eol", "\n"), spec.get("final_eol", True), dict(delim=d))


def ep4(spec):
    """rows: [lam, aoi, delta, psi, valid, time|None, x|None, y|None]"""
    cols = ["#Lambda", "Bandwidth", "AOI", "Delta", "Psi", "Zone", "Amin", "Pmin"]
    units = ["#nm", "nm", "deg", "deg", "deg", "-", "deg", "deg"]
    tail = []
    if spec.get("time"):
        tail.append(("Time", "s"))
    if spec.get("pos"):
        tail += [("X_pos", "mm"), ("Y_pos", "mm")]
    if spec.get("theta"):
        tail.append(("Theta_pos", "deg"))
    cols = cols + [t[0] for t in tail]
    units = units + [t[1] for t in tail]
    lines = [Line("\t".join(cols)), Line("\t".join(units))]
    odd = Odd(spec)
    for r in spec["rows"]:
        lam, aoi, delta, psi, valid, t, x, y = r
        c = ["%.1f" % lam, odd("2.0", 1), "%.3f" % aoi, "%.3f" % delta, "%.3f" % psi, odd("4" if valid else "5", 0, 0, 9)]
        c += [odd("31.452", 3, -90, 90), odd("50.186", 3, -90, 90)] if valid else ["NaN", "NaN"]
        m = dict(lam=float(c[0]), aoi=float(c[2]), delta=float(c[3]), psi=float(c[4]), valid=bool(valid))
        if spec.get("time"):
            c.append("%.3f" % t)
            m["t"] = float(c[-1])
        if spec.get("pos"):
            c += ["%.3f" % x, "%.3f" % y]
            m["x"], m["y"] = float(c[-2]), float(c[-1])
        if spec.get("theta"):
            c.append(odd("0.000", 3, -360, 360))
        lines.append(Line("\t".join(c), m))
    return FileImage("ep4", lines, spec.get("eol", "\n"), spec.get("final_eol", True), dict(time=bool(spec.get("time")), pos=bool(spec.get("pos"))))


def ep4_expect(img, nlines):
    """Groups in the order the instrument visited them:
    list of dict(time, visit, pts={(aoi,lam):(psi,delta)}, xs, ys)."""
    groups = []
    rows = [ln.meas for ln in img.lines[:nlines] if ln.meas and ln.meas["valid"]]
    times = []
    for m in rows:
        if m.get("t") not in times:
            times.append(m.get("t"))
    series = img.info["time"] and len(times) > 1
    for t in times if series else [None]:
        sub = [m for m in rows if not series or m["t"] == t]
        cur = None
        for m in sub:
            if img.info["pos"]:
                here = (m["x"], m["y"])
                if cur is None or max(abs(here[0] - cur["at"][0]), abs(here[1] - cur["at"][1])) > 0.225:
                    cur = dict(time=t, at=here, rows=[])
                    groups.append(cur)
            elif cur is None:
                cur = dict(time=t, at=None, rows=[])
                groups.append(cur)
            cur["rows"].append(m)
    for g in groups:
        acc = {}
        for m in g["rows"]:
            acc.setdefault((m["aoi"], m["lam"]), []).append((m["psi"], m["delta"]))
        g["pts"] = {k: tuple(math.fsum(c) / len(v) for c in zip(*v)) for k, v in acc.items()}
    return groups, series


def m2000_std(spec):
    """rows: [lam, aoi, psi, delta]"""
    lines = [Line(""), Line(m2000_header(spec)), Line("nm")]
    odd = Odd(spec)
    for lam, aoi, psi, delta in spec["rows"]:
        c = ["%.3f" % lam, "%.3f" % aoi, "%.4f" % psi, "%.4f" % delta, odd("0.0140"), odd("0.0318")]
        lines.append(Line("\t".join(c) + "\t", dict(v=[float(q) for q in c[:4]], key=0)))
        lines.append(Line("\t".join(["dPolE", c[0], odd("0.000", 3), odd("-5.2834"), odd("1.0000")])))
        lines.append(Line("\t".join(["uR", c[0], odd("0.000", 3), odd("0.6113"), odd("1.0000")])))
    return FileImage("m2000_std", lines, spec.get("eol", "\r\n"), spec.get("final_eol", True), dict(meta=spec.get("meta", {})))


def m2000_header(spec):
    meta = spec.get("meta") or {"EllipsometerType": "4", "CompleteEASE": "3.65", "AcqTime": "30.013"}
    return "VASEmethod[" + ", ".join(f"{k}={v}" for k, v in meta.items()) + "]"


def m2000_kin(spec):
    """rows: [lam, aoi, psi, delta, t_min]"""
    dec = spec.get("tdec", 4)
    lines = [Line(""), Line(m2000_header(spec)), Line("Dynamic"), Line("nm")]
    odd = Odd(spec)
    for lam, aoi, psi, delta, t in spec["rows"]:
        c = ["%.3f" % lam, "%.3f" % aoi, "%.4f" % psi, "%.4f" % delta, odd("0.0988"), odd("0.2195"), "", "%.*f" % (dec, t)]
        lines.append(Line("\t".join(c), dict(v=[float(q) for q in c[:4]], key=float(c[7]))))
    return FileImage("m2000_kin", lines, spec.get("eol", "\r\n"), spec.get("final_eol", True), dict(meta=spec.get("meta", {})))


def _fs_ncs(psi, delta):
    p, d = math.radians(psi), math.radians(delta)
    return ["%.5f" % math.cos(2 * p), "%.5f" % (math.sin(2 * p) * math.cos(d)), "%.5f" % (math.sin(2 * p) * math.sin(d))]


def _fs_back(n, c, s):
    n, c, s = float(n), float(c), float(s)
    return math.degrees(math.acos(n)) / 2, math.degrees(math.atan2(s, c)) % 360


def _fs_led(lam, odd):
    return "\t".join(["%.2f" % lam, odd("14.32", 2), odd("3.39", 2), odd("2.48", 2), odd("1.218", 3), odd("1.363", 3), odd("0.059", 3)])


def fs_std(spec):
    """wl: [..]; rows: [[psi, delta], ..] one per wavelength"""
    wl = spec["wl"]
    odd = Odd(spec)
    lines = [Line("Film_Sense_Data"), Line("%d\t1\t%.3f\t-0.002\t-0.003\t19.0913" % (len(wl), spec["aoi"]))]
    lines += [Line(_fs_led(w, odd)) for w in wl]
    for w, (psi, delta) in zip(wl, spec["rows"]):
        n, c, s = _fs_ncs(psi, delta)
        p, d = _fs_back(n, c, s)
        lines.append(Line("\t".join([n, c, s, odd("0.99860", 5), odd("14.1648")]),
                          dict(v=[float("%.2f" % w), float("%.3f" % spec["aoi"]), p, d], key=0)))
    if spec.get("trailer", True):
        lines += [Line("Amb_n(633nm)\t0.99793"), Line("Model: (not saved), Date: 2024-07-19 16:35, Ver: 3.40, Temp: 29.8")]
    return FileImage("fs_std", lines, "\n", spec.get("final_eol", True))


def fs_dyn(spec):
    """wl; rows: [t, [[psi, delta] per wavelength]]"""
    wl = spec["wl"]
    odd = Odd(spec)
    lines = [Line("Film_Sense_Dyn_Data"), Line("%d\t%d\t%.3f\t2" % (len(wl), len(spec["rows"]), spec["aoi"]))]
    lines += [Line(_fs_led(w, odd)) for w in wl]
    lines.append(Line("Time\t" + "\t".join(["N\tC\tS\tP\tInten"] * len(wl))))
    for t, pts in spec["rows"]:
        cells = ["%.3f" % t]
        v = []
        for w, (psi, delta) in zip(wl, pts):
            n, c, s = _fs_ncs(psi, delta)
            cells += [n, c, s, odd("0.99860", 5), odd("14.1648")]
            v.append([float("%.2f" % w), float("%.3f" % spec["aoi"]), *_fs_back(n, c, s)])
        lines.append(Line("\t".join(cells) + "\t", dict(vs=v, key=float(cells[0]))))
    return FileImage("fs_dyn", lines, "\n", spec.get("final_eol", True), dict(wl=wl))


def horiba(spec):
    """rows: [lam, psi, delta]"""
    lines = []
    odd = Odd(spec)
    for k, v in spec.get("meta", [["TITLE", ["simulated"]], ["COMMENTS", []]]):
        lines += [Line(f"# {k}:")] + [Line(x) for x in v] + [Line("")]
    lines += [Line("# INCIDENCE ANGLE:"), Line("%.2f deg" % spec["aoi"]), Line("")]
    lines += [Line("# DATA:"), Line(" ".join(spec.get("cols", ["nm", "Psi", "Delta"])))]
    for lam, psi, delta in spec["rows"]:
        c = {"nm": "%.3f" % lam, "Psi": "%.4f" % psi, "Delta": "%.4f" % delta}
        lines.append(Line(" ".join(c.get(k) or odd("0.5") for k in spec.get("cols", ["nm", "Psi", "Delta"])),
                          dict(v=[float(c["nm"]), float("%.2f" % spec["aoi"]), float(c["Psi"]), float(c["Delta"])], key=0)))
    if spec.get("trailer", True):
        lines.append(Line(""))
        lines += [Line("# END:"), Line("done"), Line("")]
    meta = {k: v[0] for k, v in spec.get("meta", []) if len(v) == 1}
    return FileImage("horiba", lines, spec.get("eol", "\n"), spec.get("final_eol", True), dict(meta=meta, cols=spec.get("cols", ["nm", "Psi", "Delta"])))


def ri_csv(spec):
    """rows: [um, n] or [um, n, k]"""
    lines = [Line(spec.get("header", "Wavelength,n,k"))]
    for r in spec["rows"]:
        c = [fnum(x, spec.get("style", 6)) for x in r]
        lines.append(Line(",".join(c), dict(v=[float(x) for x in c], key=0)))
    return FileImage("ri_csv", lines, spec.get("eol", "\n"), spec.get("final_eol", True))


BUILD = dict(native=native, ep4=ep4, m2000_std=m2000_std, m2000_kin=m2000_kin,
             fs_std=fs_std, fs_dyn=fs_dyn, horiba=horiba, ri_csv=ri_csv)


def build(spec):
    return BUILD[spec["fmt"]](spec)


# ---------------------------------------------------------------- loading


def load(spec_or_fmt, src, **kw):
    """Call the real loader for a format."""
    from refellips import dataSE, dispersion

    fmt = spec_or_fmt if isinstance(spec_or_fmt, str) else spec_or_fmt["fmt"]
    if fmt == "native":
        return dataSE.DataSE(src, **kw)
    if fmt == "ep4":
        return dataSE.open_EP4file(src, **kw)
    if fmt in ("m2000_std", "m2000_kin"):
        return dataSE.open_M2000file(src, **kw)
    if fmt in ("fs_std", "fs_dyn"):
        return dataSE.open_FilmSenseFile(src, **kw)
    if fmt == "horiba":
        return dataSE.open_HORIBAfile(src, **kw)
    if fmt == "ri_csv":
        return dispersion.RI(src, **kw)
    raise KeyError(fmt)


def rows_of(ds):
    """Visible points of a DataSE as a list of 4-tuples of floats."""
    cols = [np.asarray(c, dtype=float).reshape(-1) for c in (ds.wavelength, ds.aoi, ds.psi, ds.delta)]
    if len({c.size for c in cols}) != 1:
        raise ValueError(f"columns of different lengths {[c.size for c in cols]}")
    return list(zip(*[c.tolist() for c in cols]))


def close(a, b, tol=1e-9):
    return all(abs(x - y) <= tol * max(1.0, abs(x), abs(y)) for x, y in zip(a, b))


def close_fs(a, b):
    """Film Sense: psi/delta derived through float32."""
    if not close(a[:2], b[:2]):
        return False
    dd = abs(a[3] - b[3]) % 360
    return abs(a[2] - b[2]) < 2e-3 and min(dd, 360 - dd) < 2e-2


def close_reflected(a, b, same):
    return same(a, b)


def reflect(v):
    v = list(v)
    if v[3] > 180:
        v[3] = 360 - v[3]
    return v


def same_for(fmt):
    return close_fs if fmt in ("fs_std", "fs_dyn") else close


def m2000_keys(times):
    """Allowed dictionary keys of an M2000 time (minutes): the documented key is
    the time in seconds."""
    return {t: t * 60 for t in times}


# ---------------------------------------------------------------- judging


def judge(img, result, cut=None, reflected=False):
    """None if `result` (a loaded object) is a legal reading of the first `cut`
    bytes of the image; otherwise a message.  cut=None: the whole file, exact."""
    whole = cut is None or cut >= len(img.data)
    n = len(img.lines) if whole else img.complete_lines(cut)
    # a cut between two lines leaves no cut-off line
    torn = not whole and cut > (img.ends[n - 1] if n else 0)
    extra = 1 if torn else 0
    same = same_for(img.fmt)
    rf = reflect if reflected else (lambda v: v)
    if img.fmt == "ep4":
        return judge_ep4(img, result, n, whole, rf, extra, torn_ep4(img, n, cut) if torn else None)
    if img.fmt == "ri_csv":
        return judge_ri(img, result, n, whole)
    meas = [ln.meas for ln in img.lines[:n] if ln.meas]
    if img.fmt in ("native", "m2000_std", "fs_std", "horiba"):
        if isinstance(result, (dict, list)):
            return f"expected one dataset, got {type(result).__name__}"
        rows = rows_of(result)
        exp = [rf(m["v"]) for m in meas]
        need = len(exp)
        if img.fmt == "m2000_std" and not whole:
            # a measurement is three lines
            need = sum(1 for i, ln in enumerate(img.lines[: max(0, n - 2)]) if ln.meas)
        if len(rows) < need:
            return f"{len(exp)} complete points in the file, {len(rows)} returned"
        if len(rows) > len(exp) + extra:
            return f"{len(rows)} points returned, {len(exp)} in the file (+{extra} cut off)"
        for i, (r, e) in enumerate(zip(rows, exp)):
            if not same(r, e):
                return f"point {i}: returned {r}, file has {tuple(e)}"
        tail = rows[len(exp):]
        if tail:
            return not_torn(tail, torn_points(img, n, cut), same, rf)
        return None
    if not isinstance(result, dict):
        return f"expected a dict of datasets, got {type(result).__name__}"
    # time resolved: conservation of (time, point)
    exp = {}
    for m in meas:
        k = m["key"] * 60 if img.fmt == "m2000_kin" else m["key"]
        exp.setdefault(k, []).extend([m["v"]] if "v" in m else m["vs"])
    ktol = 0.0501 if img.fmt == "m2000_kin" else 1e-6
    left = extra * (1 if img.fmt == "m2000_kin" else len(img.info["wl"]))
    newsets = extra
    half = torn_points(img, n, cut) if torn else []
    used = {}
    for key in sorted(result):
        rows = rows_of(result[key])
        cands = [k for k in exp if abs(float(key) - k) <= ktol and k not in used.values()]
        hit = None
        for k in sorted(cands, key=lambda k: abs(k - float(key))):
            e = exp[k]
            if (len(rows) == len(e) or (img.fmt == "m2000_kin" and len(rows) > len(e))) and all(same(r, q) for r, q in zip(rows, e)):
                msg = not_torn(rows[len(e):], half, same, rf)
                if msg:
                    return msg
                hit = k
                left -= len(rows) - len(e)
                break
        if hit is None:
            if newsets > 0 and len(rows) <= left:
                msg = not_torn(rows, half, same, rf)
                if msg:
                    return f"dataset at time {key}: {msg}"
                newsets -= 1
                left -= len(rows)
                continue
            return f"dataset at time {key} ({len(rows)} points) matches no measurement of that time"
        used[key] = hit
    if left < 0:
        return "more points returned than written"
    missing = [k for k in exp if k not in used.values()]
    if missing:
        return f"measurements at times {missing[:4]} lost ({len(exp)} in the file, {len(result)} returned)"
    return None


def torn_points(img, n, cut):
    """The points that stand in the line the file was cut off in (its last number
    may have lost digits)."""
    start = img.ends[n - 1] if n else 0
    if n >= len(img.lines) or not img.lines[n].meas:
        return []
    text = img.data[start:cut].decode("utf-8", "ignore").rstrip("\r\n")
    meas = img.lines[n].meas
    cells = text.split(img.info["delim"] if img.fmt == "native" else " " if img.fmt == "horiba" else "\t")

    def num(i):
        try:
            return float(cells[i])
        except (ValueError, IndexError):
            return None

    if img.fmt in ("fs_std", "fs_dyn"):
        out = []
        for j, full in enumerate(meas["vs"] if img.fmt == "fs_dyn" else [meas["v"]]):
            o = 5 * j + (1 if img.fmt == "fs_dyn" else 0)
            v = [num(o), num(o + 1), num(o + 2)]
            try:
                pd = [None, None] if None in v else _fs_back(*v)
            except ValueError:
                pd = [None, None]
            out.append([*full[:2], *pd])
        return out
    if img.fmt == "horiba":
        cols = img.info["cols"]
        v = [num(cols.index("nm")), meas["v"][1], num(cols.index("Psi")), num(cols.index("Delta"))]
    else:
        v = [num(i) for i in range(4)]
    return [v]


def not_torn(rows, half, same, rf):
    """Points taken from a cut-off line: only numbers that stand there (NaN for
    those that do not)."""
    for i, r in enumerate(rows):
        bad = i >= len(half)
        if not bad:
            h = half[i]
            bad = any(b is None and not math.isnan(a) for a, b in zip(r, h))
            known = [a if b is None else b for a, b in zip(r, h)]
            if not bad and None not in h:
                bad = not same(r, rf(known))
            elif not bad:
                bad = not all(math.isnan(a) or math.isclose(a, b, rel_tol=1e-6) or math.isclose(a, 360 - b, rel_tol=1e-6) for a, b in zip(r, h) if b is not None)
        if bad:
            return f"point {r} returned; the cut-off line holds {half[i:]}"
    return None


def torn_ep4(img, n, cut):
    """(aoi, lam, psi, delta) standing in the cut-off line, None where absent"""
    if n >= len(img.lines) or not img.lines[n].meas:
        return None
    cells = img.data[(img.ends[n - 1] if n else 0):cut].decode("utf-8", "ignore").rstrip("\r\n").split("\t")

    def num(i):
        try:
            return float(cells[i])
        except (ValueError, IndexError):
            return None

    return num(2), num(0), num(4), num(3)


def ep4_from_torn(key, val, half, rf):
    if half is None:
        return False
    for a, b in zip(key, half[:2]):
        if not (math.isnan(a) if b is None else math.isclose(a, b, rel_tol=1e-9)):
            return False
    e = [0, 0, half[2], half[3]]
    if e[3] is not None:
        e = rf(e)
    return all(math.isnan(a) or (b is not None and math.isclose(a, b, rel_tol=1e-9, abs_tol=1e-9)) for a, b in zip(val, e[2:]))


def judge_ep4(img, result, n, whole, rf, slack, half=None):
    groups, series = ep4_expect(img, n)
    sets = result if isinstance(result, list) else [result]
    if isinstance(result, list) and len(result) == 1:
        return "a single dataset returned as a list"
    got = []
    for ds in sets:
        pts = {}
        for w, a, p, d in rows_of(ds):
            if (a, w) in pts:
                return f"point (aoi {a}, wavelength {w}) twice in one dataset"
            pts[(a, w)] = (p, d)
        got.append((ds, pts))
    if not groups:
        got = [g for g in got if g[1]]
    if len(got) < len(groups):
        return f"{len(groups)} measured locations/times, {len(got)} datasets returned"
    if len(got) > len(groups) + slack:
        return f"{len(got)} datasets returned, {len(groups)} locations/times measured"
    for ds, pts in got[len(groups):]:
        for key in pts:
            if not ep4_from_torn(key, pts[key], half, rf):
                return f"additional dataset: point {key} {pts[key]} stands nowhere in the file (cut-off line: {half})"
    for i, g in enumerate(groups):
        ds, pts = got[i]
        last = i == len(groups) - 1
        for key, e in g["pts"].items():
            e = rf([0, 0, e[0], e[1]])[2:]
            if key not in pts:
                return f"dataset {i}: point (aoi {key[0]}, wavelength {key[1]}) lost"
            if not close(pts[key], e, 1e-9):
                if half and last and None not in half and key == half[:2]:
                    # averaged with the cut-off reading
                    k = sum(1 for m in g["rows"] if (m["aoi"], m["lam"]) == key)
                    e0 = g["pts"][key]
                    e1 = rf([0, 0] + [(k * a + b) / (k + 1) for a, b in zip(e0, half[2:])])[2:]
                    if close(pts[key], e1, 1e-9):
                        continue
                return f"dataset {i} point {key}: returned {pts[key]}, expected {tuple(e)}"
        if len(pts) > len(g["pts"]) + (slack if last else 0):
            return f"dataset {i}: {len(pts)} points, {len(g['pts'])} measured"
        for key in pts:
            if key not in g["pts"] and not ep4_from_torn(key, pts[key], half, rf):
                return f"dataset {i}: point {key} {pts[key]} stands nowhere in the file (cut-off line: {half})"
        if whole:
            md = ds.metadata
            if series and md.get("time") != g["time"]:
                return f"dataset {i}: time {md.get('time')!r}, measured at {g['time']}"
            if len({(m.get('x'), m.get('y')) for q in groups for m in q["rows"] if not series or q["time"] == g["time"]}) > 1:
                for lab, c in (("X pos", "x"), ("Y pos", "y")):
                    v = [m[c] for m in g["rows"]]
                    if md.get(lab) is None or not (min(v) - 0.006 <= float(md[lab]) <= max(v) + 0.006):
                        return f"dataset {i}: {lab} {md.get(lab)!r}, measured in [{min(v)}, {max(v)}]"
    return None


def judge_ri(img, result, n, whole):
    rows = [ln.meas["v"] for ln in img.lines[:n] if ln.meas]
    if len(rows) < 1:
        return None
    lam = [r[0] * 1000 for r in rows]
    # at and between the complete tabulated wavelengths
    probe = sorted(set(lam + [(a + b) / 2 for a, b in zip(lam, lam[1:])]))
    if len(probe) > 600:
        probe = probe[:200] + probe[200:-200:len(probe) // 200] + probe[-200:]
    ns = np.interp(probe, lam, [r[1] for r in rows])
    ks = np.interp(probe, lam, [r[2] if len(r) > 2 else 0.0 for r in rows])
    for p, en, ek in zip(probe, ns.tolist(), ks.tolist()):
        got = complex(result.complex(p))
        if abs(got.real - en) > 1e-9 * max(1, abs(en)) or abs(got.imag - ek) > 1e-9 * max(1, abs(ek)):
            return f"index at {p} nm is {got}, table gives {complex(en, ek)}"
    return None


def judge_meta(img, result):
    """The header information belongs to the same file as the points."""
    meta = img.info.get("meta") or {}
    for ds in result.values() if isinstance(result, dict) else result if isinstance(result, list) else [result]:
        for k, v in meta.items():
            if str(ds.metadata.get(k)) != str(v):
                return f"metadata {k} is {ds.metadata.get(k)!r}, file has {v!r}"
    return None


# ---------------------------------------------------------------- generators


def r3(rng, a, b, nd=3):
    return round(rng.uniform(a, b), nd)


def any_delta(rng, lo=0.0, hi=359.9):
    return rng.choice([0.0, 90.0, 180.0, 270.0, 360.0]) if rng.random() < 0.06 else r3(rng, lo, hi)


def gen_rows(rng, n, deltamax=359.9):
    lo, hi = rng.choice([(300, 1000), (300, 1000), (190, 1700), (1000, 30000)])
    wl = sorted({r3(rng, lo, hi) for _ in range(n)})
    while len(wl) < n:
        wl = sorted(set(wl) | {r3(rng, lo, hi)})
    aois = [r3(rng, 40, 80, 2) for _ in range(rng.randint(1, 3))]
    dlo, dhi = rng.choice([(0.1, deltamax), (0.1, deltamax), (-90, 269.9), (-180, 180)])  # the usual conventions
    rows = [[w, rng.choice(aois), r3(rng, 1, 89), any_delta(rng, dlo, dhi)] for w in wl]
    if rng.random() < 0.3:
        rng.shuffle(rows)
    if rng.random() < 0.3 and n > 2:  # repeated wavelength, other angle
        rows[-1][0] = rows[0][0]
    return rows


HEADERS = [[], ["wavelength\tAOI\tPsi\tDelta"], ["# wavelength\tAOI\tPsi\tDelta"],
           ["nm AOI\tPsi\tDelta"], ["instrument log", "", "nm\tdeg\tdeg\tdeg"],
           ["a"] * 7]


def gen(rng, fmt, size=None, big=0.0):
    """`big`: probability of a file as long as real ones (beyond every buffer size)"""
    if big and rng.random() < big:
        size = rng.choice([130, 257, 400] if fmt in ("ep4", "fs_dyn") else [130, 257, 600, 1001, 2500, 6000])
    spec = _gen(rng, fmt, size)
    if size and size > 100:
        spec["big"] = 1
    if rng.random() < 0.5:
        spec["odd"] = rng.randrange(1 << 20)
    return spec


def _gen(rng, fmt, size=None):
    n = size or rng.choice([1, 2, 3, 4, 6, 9])
    eol = rng.choice(["\n", "\n", "\r\n"])
    fe = rng.random() < 0.75
    if fmt == "native":
        d = "\t" if rng.random() < 0.8 else ","
        h = rng.choice(HEADERS)
        return dict(fmt=fmt, header=[x.replace("\t", d) for x in h], rows=gen_rows(rng, n),
                    style=rng.choice(["full", "g", 3]), eol=eol, final_eol=fe, delim=d)
    if fmt == "m2000_std":
        return dict(fmt=fmt, rows=gen_rows(rng, n), eol=eol, final_eol=fe,
                    meta={"EllipsometerType": str(rng.randint(1, 9)), "AcqTime": str(r3(rng, 1, 50))})
    if fmt == "m2000_kin":
        nt = rng.choice([1, 2, 3, 5])
        if n > 100:
            nt = rng.choice([2, 5, 20, 64])
        t, rows = rng.choice([0.0, r3(rng, 0.01, 0.1, 4)]), []
        base = gen_rows(rng, max(1, n // (2 if n < 100 else nt)))
        for _ in range(nt):
            for b in base:
                rows.append([b[0], b[1], r3(rng, 1, 89), any_delta(rng), round(t, 4)])
            t += rng.choice([0.02, 0.05, 0.5])
        return dict(fmt=fmt, rows=rows, eol=eol, final_eol=fe, tdec=4,
                    meta={"EllipsometerType": str(rng.randint(1, 9)), "AcqTime": str(r3(rng, 1, 50))})
    if fmt in ("fs_std", "fs_dyn"):
        k = rng.randint(1, 5)
        wl = sorted(r3(rng, 350, 1000, 2) for _ in range(k))
        pt = lambda: [r3(rng, 5, 85), r3(rng, 0, 359.9)]
        aoi = rng.choice([-1, 1]) * r3(rng, 40, 80)
        if fmt == "fs_std":
            return dict(fmt=fmt, wl=wl, aoi=aoi, rows=[pt() for _ in wl], trailer=rng.random() < 0.6, final_eol=fe)
        t, rows = 0.0, []
        for _ in range(n):
            t = round(t + rng.choice([0.5, 4.95, 9.9]), 3)
            rows.append([t, [pt() for _ in wl]])
        return dict(fmt=fmt, wl=wl, aoi=aoi, rows=rows, final_eol=True)
    if fmt == "horiba":
        base = gen_rows(rng, max(2, n))
        cols = rng.choice([["nm", "Psi", "Delta"], ["nm", "Is", "Psi", "Ic", "Delta"], ["eV", "nm", "Delta", "Psi"]])
        return dict(fmt=fmt, aoi=r3(rng, 40, 80, 2), rows=[[b[0], b[2], b[3]] for b in base], cols=cols,
                    trailer=rng.random() < 0.6, eol=eol, final_eol=fe,
                    meta=rng.choice([[["TITLE", ["sample %d" % rng.randrange(1000)]]], [["TITLE", ["x%d" % rng.randrange(1000)]], ["COMMENTS", []], ["DATE", ["a", "b"]]]]))
    if fmt == "ri_csv":
        three = rng.random() < 0.6
        lam = sorted({r3(rng, 0.2, 1.6, 4) for _ in range(n + 1)})
        return dict(fmt=fmt, style=rng.choice([6, "full"]), eol=eol, final_eol=fe,
                    header=rng.choice(["Wavelength,n,k", '"Wavelength, µm",n,k', "\ufeffWavelength,n,k"]),
                    rows=[[w, r3(rng, 1, 4, 6)] + ([r3(rng, 0, 3, 6)] if three else []) for w in lam])
    if fmt == "ep4":
        return gen_ep4(rng, size=n)
    raise KeyError(fmt)


def gen_ep4(rng, allow_time=True, size=0):
    """A mapping / kinetics session of the instrument."""
    time = rng.random() < 0.6
    pos = rng.random() < 0.7
    nloc = rng.choice([1, 2, 3, 4]) if pos else 1
    ntime = rng.choice([1, 1, 2, 3]) if (time and allow_time) else 1
    if size > 100:
        ntime = rng.choice([6, 15]) if (time and allow_time) else 1
        nloc = rng.choice([1, 5, 12]) if pos else 1
    lams = sorted({round(rng.uniform(400, 900), 1) for _ in range(rng.choice([1, 1, 2, 3]))})
    if size > 100:
        lams = sorted({round(rng.uniform(400, 900), 1) for _ in range(max(1, min(30, size // (ntime * nloc * 3))))})
    aois = sorted({round(rng.uniform(45, 75), 1) for _ in range(rng.choice([1, 2, 3]))})
    zones = rng.choice([1, 2, 4])
    rows = []
    t = rng.choice([0.0, round(rng.uniform(1, 5), 3)])
    locs = []
    while len(locs) < nloc:
        c = (round(rng.uniform(-20, 20), 3), round(rng.uniform(-20, 20), 3))
        if locs and rng.random() < 0.3:  # a fine map
            c = (round(locs[-1][0] + rng.choice([0, 0.5]), 3), round(locs[-1][1] + rng.choice([0.5, 0.6]), 3))
        if all(max(abs(c[0] - q[0]), abs(c[1] - q[1])) > 0.45 for q in locs):
            locs.append(c)
    drift = rng.choice([0, 0, 0.01, 0.08])
    per_loc_bad = rng.choice([0, 0.1, 0.3])
    visits = []
    for it in range(ntime):
        order = list(locs)
        if rng.random() < 0.3:
            rng.shuffle(order)
        if rng.random() < 0.2 and len(order) > 2:
            order.append(order[0])  # revisit
        visits.append((t, order))
        t = round(t + rng.choice([0.5, 2.0, 60.0]), 3)
    for t, order in visits:
        prev = None
        for (x, y) in order:
            if prev == (x, y):
                continue
            prev = (x, y)
            some = False
            for a in aois:
                for lam in lams:
                    for z in range(zones):
                        ok = rng.random() >= per_loc_bad
                        if not some and a == aois[-1] and lam == lams[-1] and z == zones - 1:
                            ok = True  # at least one valid reading per visit
                        some = some or ok
                        rows.append([lam, a, any_delta(rng), r3(rng, 1, 89), ok, t,
                                     round(x + rng.uniform(-drift, drift), 3), round(y + rng.uniform(-drift, drift), 3)])
    return dict(fmt="ep4", time=time, pos=pos, theta=rng.random() < 0.3, rows=rows,
                eol=rng.choice(["\n", "\r\n"]), final_eol=rng.random() < 0.8)


FORMATS = ["native", "ep4", "m2000_std", "m2000_kin", "fs_std", "fs_dyn", "horiba", "ri_csv"]
