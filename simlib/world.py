"""A small 'world' of materials, layers, structures, models, datasets and
objectives: a JSON spec, its realisation with the real library, and an
independent reference that computes every observable from the spec alone.

The reference shares no code with the library: recursive (Airy) reflection
instead of transfer matrices, scalar complex arithmetic, own Hilbert transform.
"""
import cmath
import copy
import math

import numpy as np

HC = 1239.841984055


class Uncertain(Exception):
    """The reference cannot decide (branch cut / wrap-around within rounding)."""


# ---------------------------------------------------------------- materials


def _hilbert(x):
    n = len(x)
    X = np.fft.fft(x)
    k = np.fft.fftfreq(n)
    s = np.sign(k)
    if n % 2 == 0:
        s[n // 2] = 0
    return np.real(np.fft.ifft(1j * s * X))


_GRID = np.linspace(-20, 20, 2048)
_gauss_cache = {}


def _gauss_eps(Am, Br, En, Einf, e):
    key = (tuple(Am), tuple(Br), tuple(En))
    hit = _gauss_cache.get(key)
    if hit is None:
        e2 = np.zeros_like(_GRID)
        for a, b, c in zip(Am, Br, En):
            sg = b / (2 * math.sqrt(math.log(2)))
            e2 = e2 + a * (np.exp(-(((_GRID - c) / sg) ** 2)) - np.exp(-(((_GRID + c) / sg) ** 2)))
        hit = _gauss_cache[key] = (_hilbert(e2), e2)
    return complex(np.interp(e, _GRID, hit[0]) + Einf, np.interp(e, _GRID, hit[1]))


def _tl_eps(Am, C, En, Eg, Einf, E):
    e1, e2 = Einf, 0.0
    for A, C0, E0 in zip(Am, C, En):
        if E > Eg:
            e2 += A * E0 * C0 * (E - Eg) ** 2 / (((E * E - E0 * E0) ** 2 + C0 * C0 * E * E) * E)
        al = math.sqrt(4 * E0**2 - C0**2)
        g2 = E0**2 - C0**2 / 2
        z4 = (E * E - g2) ** 2 + al * al * C0 * C0 / 4
        aln = (Eg**2 - E0**2) * E * E + Eg**2 * C0**2 - E0**2 * (E0**2 + 3 * Eg**2)
        aat = (E * E - E0**2) * (E0**2 + Eg**2) + Eg**2 * C0**2
        e1 += A * C0 / (math.pi * z4) * aln / (2 * al * E0) * math.log((E0**2 + Eg**2 + al * Eg) / (E0**2 + Eg**2 - al * Eg))
        e1 -= A / (math.pi * z4) * aat / E0 * (math.pi - math.atan((2 * Eg + al) / C0) + math.atan((al - 2 * Eg) / C0))
        e1 += 2 * A * E0 * Eg / (math.pi * z4 * al) * (E * E - g2) * (math.pi + 2 * math.atan(2 * (g2 - Eg**2) / (al * C0)))
        e1 -= A * E0 * C0 / (math.pi * z4) * (E * E + Eg * Eg) / E * math.log(abs(E - Eg) / (E + Eg))
        e1 += 2 * A * E0 * C0 / (math.pi * z4) * Eg * math.log(abs(E - Eg) * (E + Eg) / math.sqrt((E0**2 - Eg**2) ** 2 + Eg**2 * C0**2))
    return complex(e1, e2)


def _sqrt(z, what="sqrt"):
    z = complex(z)
    if z.real < 0 and abs(z.imag) < 1e-9 * abs(z.real):
        raise Uncertain(what)
    return cmath.sqrt(z)


MATP = dict(cauchy=["A", "B", "C"], sell=["Am", "En", "P", "Einf"],
            lorentz=["Am*", "Br*", "En*", "Einf"], gauss=["Am*", "Br*", "En*", "Einf"],
            tl=["Am*", "C*", "En*", "Eg", "Einf"], user=["n", "k", "disp"], usereps=["n", "k", "disp"])


def table_interp(rows, lam):
    xs = [r[0] * 1000 for r in rows]
    return complex(np.interp(lam, xs, [r[1] for r in rows]), np.interp(lam, xs, [r[2] for r in rows]))


_bundled = {}


def bundled_rows(name):
    if name not in _bundled:
        import csv

        rows = []
        with open(f"/repo/refellips/materials/{name}.csv", encoding="utf-8") as f:
            for i, r in enumerate(csv.reader(f)):
                if i == 0 or not r:
                    continue
                v = [float(x) for x in r]
                rows.append(v + [0.0] * (3 - len(v)))
        _bundled[name] = rows
    return _bundled[name]


class Ref:
    """Reference evaluation of a state (see World.state)."""

    tir = 0  # totally reflected points evaluated so far

    def __init__(self, st):
        self.st = st

    def val(self, key, depth=0):
        st = self.st
        key = st["alias"].get(key, key)
        c = st["constr"].get(key)
        if c is not None:
            if depth > 6:
                raise Uncertain("constraint depth")
            return c[1] * self.val(c[0], depth + 1) + c[2]
        return st["vals"][key]

    def seq(self, i, p):
        out, j = [], 0
        while f"m{i}.{p}.{j}" in self.st["vals"]:
            out.append(self.val(f"m{i}.{p}.{j}"))
            j += 1
        return out

    def n(self, i, lam):
        m = self.st["mats"][i]
        v = lambda p: self.val(f"m{i}.{p}")
        k = m["k"]
        if k == "const":
            return complex(m["n"], m["kk"])
        if k == "table":
            return table_interp(m["rows"], lam)
        if k == "bundled":
            return table_interp(bundled_rows(m["name"]), lam)
        if k == "cauchy":
            u = lam / 1000.0
            return complex(v("A") + v("B") / u**2 + v("C") / u**4, 0.0)
        if k == "sell":
            u2 = (lam / 1000.0) ** 2
            x = v("Einf") + v("Am") * u2 / (u2 - v("En") ** 2) - v("P") * u2
            if x <= 1e-6:
                raise Uncertain("sellmeier")
            return complex(math.sqrt(x), 0.0)
        E = HC / lam
        if k == "lorentz":
            e = complex(v("Einf"))
            for a, b, c in zip(self.seq(i, "Am"), self.seq(i, "Br"), self.seq(i, "En")):
                e += a / (c * c - E * E - 1j * b * E)
            return _sqrt(e)
        if k == "gauss":
            return _sqrt(_gauss_eps(self.seq(i, "Am"), self.seq(i, "Br"), self.seq(i, "En"), v("Einf"), E))
        if k == "tl":
            return _sqrt(_tl_eps(self.seq(i, "Am"), self.seq(i, "C"), self.seq(i, "En"), v("Eg"), v("Einf"), E))
        if k == "user":
            return complex(v("n") + v("disp") * (lam / 1000 - 0.5), v("k"))
        if k == "usereps":
            return _sqrt(complex(v("n") + v("disp") * E, v("k")) ** 2)
        raise KeyError(k)

    def mix(self, na, nb, vf, ema, dep):
        ea, eb = na * na, nb * nb
        if ema == "linear":
            e = (1 - vf) * ea + vf * eb
        elif ema == "maxwell-garnett":
            num = ea + (dep * (1 - vf) + vf) * (eb - ea)
            den = ea + dep * (1 - vf) * (eb - ea)
            if abs(den) < 1e-6 * abs(ea):
                raise Uncertain("mg pole")
            e = ea * num / den
        else:
            b = ea * ((1 - vf) - dep) + eb * (vf - dep)
            if 1 - dep < 1e-6:
                raise Uncertain("bruggeman")
            root = _sqrt(b * b - 4 * (dep - 1) * ea * eb * dep, "bruggeman")
            if abs(b + root) < 1e-3 * abs(b):
                raise Uncertain("bruggeman: ill-conditioned")
            e = (b + root) / (2 * (1 - dep))
        n = _sqrt(e, "mix")
        if n.imag < -1e-9:
            raise Uncertain("the documented root has gain")
        return n

    def slabs(self, si, lam):
        s = self.st["structs"][si]
        rows = []
        faces = []
        for c in s["c"]:
            sl = self.st["slabs"][c]
            faces.append(sl.get("face"))
            if "prof" in sl:
                nn, k = self.n(sl["m"], lam), sl["prof"]
                for j in range(k):
                    rows.append([self.val(f"s{c}.thick") / k, nn, self.val(f"s{c}.rough"), self.val(f"s{c}.vf") * (j + 1) / k])
                faces += faces[-1:] * (k - 1)
                continue
            if "a" in sl:
                nn = self.mix(self.n(sl["a"], lam), self.n(sl["b"], lam), self.val(f"s{c}.vfb"), s["ema"], s["dep"])
                vf = 0.0
            else:
                nn = self.n(sl["m"], lam)
                vf = self.val(f"s{c}.vf")
            rows.append([self.val(f"s{c}.thick"), nn, self.val(f"s{c}.rough"), vf])
        if any(faces):
            rows = self.micro(s, rows, faces, lam)
        if s["rev"]:
            rough = [r[2] for r in rows[1:]]
            rows = [list(r) for r in reversed(rows)]
            for i, q in enumerate([0.0] + rough[::-1]):
                rows[i][2] = q
        if any(r[3] > 0 for r in rows):
            solv = self.n(s["solvent"], lam) if s["solvent"] is not None else rows[-1][1]
            for r in rows[1:-1]:
                r[1] = self.mix(r[1], solv, r[3], s["ema"], s["dep"])
        if s.get("contract"):
            from refnx.reflect import _reflect

            a = np.array([[q[0], q[1].real, q[1].imag, q[2], q[3]] for q in rows])
            rows = [[q[0], complex(q[1], q[2]), q[3], q[4]] for q in _reflect._contract_by_area(a, s["contract"]).tolist()]
            if any(q[1] != q[1] for q in rows):
                raise Uncertain  # refnx averages over a group of no thickness
        return rows

    def micro(self, s, rows, faces, lam):
        """thin layers that follow the shape of the interfaces"""
        solv = self.n(s["solvent"], lam) if s["solvent"] is not None else rows[0 if s["rev"] else -1][1]
        for r in rows[1:-1]:
            r[1] = self.mix(r[1], solv, r[3], s["ema"], s["dep"])
        dist = np.cumsum([abs(r[0]) for r in rows[:-1]])
        if dist[-1] > 2000:
            raise Uncertain("too thick to slice")
        lo, hi = -5.0 - 8 * rows[1][2], 5.0 + dist[-1] + 8 * rows[-1][2]
        z = np.linspace(lo, hi, int((hi - lo) / 0.5 + 1))
        n = np.full(z.shape, rows[0][1], complex)
        for i in range(len(rows) - 1):
            sg = rows[i + 1][2]
            f = shape_fn("step" if sg == 0 else faces[i + 1] or "erf")
            n = n + (rows[i + 1][1] - rows[i][1]) * f(z, scale=sg, loc=dist[i])
        n[0], n[-1] = rows[0][1], rows[-1][1]
        return [[z[1] - z[0], complex(x), 0.0, 0.0] for x in n]

    def logp_structure(self, si):
        t = 0.0
        for c in self.st["structs"][si]["c"]:
            t += self.st["slabs"][c].get("lp", 0) * self.val(f"s{c}.thick") / 100
        return t

    def rho(self, si, lam, aoi):
        """rp/rs"""
        rows = self.slabs(si, lam)
        n = [r[1] for r in rows]
        n[0] = complex(n[0].real, 0.0)
        d = [r[0] / 10.0 for r in rows]
        s = n[0] * math.sin(math.radians(aoi))
        if s.real > n[-1].real and n[-1].imag == 0:
            Ref.tir += 1
        q = []
        for x in n:
            z = cmath.sqrt(x * x - s * s)
            if abs(z.imag) > 1e-13:
                z = z if z.imag > 0 else -z
            elif z.real < 0:
                z = -z
            if abs(z) < 1e-5:
                raise Uncertain("grazing inside a layer")
            q.append(z)
        out = []
        for pol in (0, 1):
            y = q if pol == 0 else [a / (b * b) for a, b in zip(q, n)]
            f = lambda a, b: (y[a] - y[b]) / (y[a] + y[b])
            r = f(len(n) - 2, len(n) - 1)
            for i in range(len(n) - 2, 0, -1):
                x = 2 * math.pi / lam * q[i] * d[i]
                if x.imag > 33:  # opaque: the layers behind do not matter
                    ph = 0.0
                else:
                    ph = cmath.exp(2j * x)
                a = f(i - 1, i)
                r = (a + r * ph) / (1 + a * r * ph)
            out.append(r)
        rs, rp = out
        if min(abs(rs), abs(rp)) < 1e-7:
            raise Uncertain("vanishing reflection")
        return rp / rs

    def psi_delta(self, mi, lam, aoi, flip=None):
        m = self.st["models"][mi]
        rho = self.rho(m["s"], lam, aoi)
        psi = math.degrees(math.atan(abs(rho)))
        # delta in [0, 360): phase of rho with the library's sign convention
        dlt = math.degrees(cmath.phase(-1 / rho)) + 180.0
        raw = dlt
        flip = m["flip"] if flip is None else flip
        if flip and dlt > 180:
            dlt = 360 - dlt
        return psi, dlt + self.val(f"M{mi}.off"), raw

    def obj(self, oi):
        """dict of residuals, chisqr, logp, logl, logpost"""
        o = self.st["objs"][oi]
        d = self.st["data"][o["d"]]
        rows = [r for r, k in zip(d["rows"], d["mask"]) if k]
        psi, dlt, near = [], [], False
        for w, a, p, dd in rows:
            x, y, raw = self.psi_delta(o["m"], w, a, flip=d["reflect"])
            psi.append(x)
            dlt.append(y)
            near = near or min(raw, 360 - raw) < 1e-4
        res = [x - r[2] for x, r in zip(psi, rows)]
        for y, r in zip(dlt, rows):
            t = abs(y - shown_delta(r[3], d["reflect"])) % 360
            res.append(min(t, 360 - t))
        lns = o["lns"]
        logl = 0.0
        weighted = d["weighted"] and o["weights"]
        ok = not (lns and near)
        mod = psi + dlt
        for i, e in enumerate(res):
            var = 1.0
            if lns:
                var += math.exp(2 * self.val(f"o{oi}.lns")) * mod[i] ** 2
            t = e * e / var
            if weighted:
                t += math.log(2 * math.pi * var)
            logl += t
        logl = -0.5 * logl
        if o.get("extra"):
            logl += o["extra"]
        logl += self.logp_structure(self.st["models"][o["m"]]["s"])
        return dict(residuals=res, chisqr=sum(e * e for e in res), logl=logl, ok=ok)

    def logp(self, keys):
        """keys: unique varying parameters"""
        t = 0.0
        for k in keys:
            b = self.st["bounds"].get(k)
            v = self.val(k)
            if b is None:
                continue
            if b[0] == "unif":
                if not (b[1] <= v <= b[2]):
                    return -math.inf
                t += -math.log(b[2] - b[1])
            else:
                z = (v - b[1]) / b[2]
                t += -0.5 * z * z - math.log(b[2]) - 0.5 * math.log(2 * math.pi)
        return t


def shape_fn(name):
    from refnx.reflect import interface as I

    return dict(erf=I.Erf, tanh=I.Tanh, linear=I.Linear, step=I.Step)[name]()


def shown_delta(d, reflect):
    return 360 - d if (reflect and d > 180) else d


# ---------------------------------------------------------------- comparing


def pd_close(psi1, d1, psi2, d2, tol=2e-6):
    a1, a2 = math.radians(psi1), math.radians(psi2)
    z1 = math.sin(a1) * cmath.exp(1j * math.radians(d1))
    z2 = math.sin(a2) * cmath.exp(1j * math.radians(d2))
    # |cos| weight: near psi=90 the phase is carried by the s component
    return abs(math.cos(a1) - math.cos(a2)) < tol and abs(z1 - z2) < tol


def num_close(a, b, rel=1e-6, ab=1e-6):
    if math.isinf(a) or math.isinf(b):
        return a == b
    return abs(a - b) <= ab + rel * max(abs(a), abs(b))


# ---------------------------------------------------------------- the world


class World:
    """Real objects built from a state, kept alongside the state."""

    def __init__(self, spec, seam=None):
        self.state = st = copy.deepcopy(spec)
        for k in ("alias", "constr", "bounds"):
            st.setdefault(k, {})
        st.setdefault("vary", [])
        self.seam = seam  # callable(kind, material index) inside user materials
        self.par = {}
        self._build()

    def P(self, key):
        from refnx.analysis import Parameter

        st = self.state
        k = st["alias"].get(key, key)
        if k not in self.par:
            b = st["bounds"].get(k)
            p = Parameter(st["vals"][k], name=k)
            if b:
                p.bounds = real_bounds(b)
            p.vary = k in st["vary"]
            self.par[k] = p
        return self.par[k]

    def _mat(self, i, m):
        import refellips
        from refellips import dispersion as D

        k = m["k"]
        P = lambda p: self.P(f"m{i}.{p}")

        def S(p):
            out, j = [], 0
            while f"m{i}.{p}.{j}" in self.state["vals"]:
                out.append(self.P(f"m{i}.{p}.{j}"))
                j += 1
            return out

        nm = f"mat{i}"
        dw = m.get("dw", 658)
        if k == "const":
            return D.RI((m["n"], m["kk"]), name=nm, wavelength=dw)
        if k == "table":
            a = np.array(m["rows"], dtype=float)
            r = D.RI((a[:, 0].copy(), a[:, 1].copy(), a[:, 2].copy()), name=nm, wavelength=dw)
            return r
        if k == "bundled":
            r = D.load_material(m["name"])
            r.wavelength = dw
            return r
        if k == "cauchy":
            return D.Cauchy(P("A"), P("B"), P("C"), name=nm, wavelength=dw)
        if k == "sell":
            return D.Sellmeier(P("Am"), P("En"), P("P"), Einf=P("Einf"), name=nm, wavelength=dw)
        if k == "lorentz":
            return D.Lorentz(S("Am"), S("Br"), S("En"), Einf=P("Einf"), name=nm, wavelength=dw)
        if k == "gauss":
            return D.Gauss(S("Am"), S("Br"), S("En"), Einf=P("Einf"), name=nm, wavelength=dw)
        if k == "tl":
            return D.TaucLorentz(S("Am"), S("C"), S("En"), P("Eg"), Einf=P("Einf"), name=nm, wavelength=dw)
        if k in ("user", "usereps"):
            cls = user_classes()[k]
            return cls(P("n"), P("k"), P("disp"), i, dw, self.seam)
        raise KeyError(k)

    def _slab(self, i, s):
        from refellips import SlabSE
        from refellips.structureSE import MixedSlabSE

        if "a" in s:
            return MixedSlabSE(self.P(f"s{i}.thick"), self.mats[s["a"]], self.mats[s["b"]], self.P(f"s{i}.vfb"),
                               self.P(f"s{i}.rough"), name=f"slab{i}")
        if "prof" in s:
            from . import usermat

            return usermat.UserProfile(self.P(f"s{i}.thick"), self.mats[s["m"]], self.P(f"s{i}.rough"), self.P(f"s{i}.vf"), s["prof"], s["lp"], name=f"slab{i}")
        return SlabSE(self.P(f"s{i}.thick"), self.mats[s["m"]], self.P(f"s{i}.rough"), name=f"slab{i}",
                      vfsolv=self.P(f"s{i}.vf"))

    def _struct(self, s):
        from refellips import StructureSE

        return StructureSE([self.slabs[c] for c in s["c"]], name="st", contract=s.get("contract", 0),
                           solvent=None if s["solvent"] is None else self.mats[s["solvent"]],
                           reverse_structure=bool(s["rev"]), ema=s["ema"], depolarisation_factor=s["dep"])

    def _data(self, d):
        from refellips import DataSE

        a = np.array(d["rows"], dtype=float).reshape(-1, 4)
        ds = DataSE([a[:, j].copy() for j in range(4)], name="d", reflect_delta=bool(d["reflect"]), sample="wafer 7", rows=len(a))
        ds.mask = np.array(d["mask"], dtype=bool)
        ds.weighted = bool(d["weighted"])
        return ds

    def _obj(self, oi, o):
        from refellips import ObjectiveSE

        kw = {}
        if o.get("extra"):
            kw["logp_extra"] = Extra(o["extra"])
        r = ObjectiveSE(self.models[o["m"]], self.data[o["d"]],
                        lnsigma=self.P(f"o{oi}.lns") if o["lns"] else None,
                        use_weights=bool(o["weights"]), name=f"obj{oi}", **kw)
        self.state["models"][o["m"]]["flip"] = bool(self.state["data"][o["d"]]["reflect"])
        return r

    def _build(self):
        from refellips import ReflectModelSE

        st = self.state
        self.mats = [self._mat(i, m) for i, m in enumerate(st["mats"])]
        self.slabs = [self._slab(i, s) for i, s in enumerate(st["slabs"])]
        for q, s in zip(self.slabs, st["slabs"]):
            if s.get("face"):
                q.interfaces = shape_fn(s["face"])
        self.structs = [self._struct(s) for s in st["structs"]]
        self.models = []
        for i, m in enumerate(st["models"]):
            m.setdefault("flip", False)
            self.models.append(ReflectModelSE(self.structs[m["s"]], delta_offset=self.P(f"M{i}.off"), name=f"model{i}"))
        self.data = [self._data(d) for d in st["data"]]
        self.objs = [self._obj(i, o) for i, o in enumerate(st["objs"])]
        for k, c in st["constr"].items():
            self.set_constraint(k, c)

    def set_constraint(self, key, c):
        p = self.P(key)
        if c is None:
            p.constraint = None
            p.vary = False
        else:
            p.constraint = self.P(c[0]) * c[1] + c[2]

    def keyof(self, param):
        for k, p in self.par.items():
            if p is param:
                return k
        return None

    # keys reachable from an objective, in the library's own order
    def varying_keys(self, oi):
        return [self.keyof(p) for p in self.objs[oi].varying_parameters()]

    def expected_varying(self, oi):
        """Set of parameters that should vary in an objective."""
        st = self.state
        o = st["objs"][oi]
        ks = set(self.model_keys(o["m"]))
        if o["lns"]:
            ks.add(f"o{oi}.lns")
        al = {st["alias"].get(k, k) for k in ks}
        return {k for k in al if k in st["vary"] and k not in st["constr"]}

    def model_keys(self, mi):
        st = self.state
        m = st["models"][mi]
        out = [f"M{mi}.off"]
        for c in st["structs"][m["s"]]["c"]:
            s = st["slabs"][c]
            out += [f"s{c}.thick", f"s{c}.rough", f"s{c}.vfb" if "a" in s else f"s{c}.vf"]
            for mi_ in ([s["a"], s["b"]] if "a" in s else [s["m"]]):
                out += [k for k in st["vals"] if k.startswith(f"m{mi_}.")]
        sv = st["structs"][m["s"]]["solvent"]
        if sv is not None:
            out += [k for k in st["vals"] if k.startswith(f"m{sv}.")]
        return out

    # -- edits applied to both sides
    def setval(self, key, v):
        k = self.state["alias"].get(key, key)
        self.par[k].value = v
        self.state["vals"][k] = v


class Extra:
    """picklable logp_extra"""

    def __init__(self, v):
        self.v = v

    def __call__(self, model, data):
        from . import usermat

        if usermat._hook is not None:
            usermat._hook("extra")
        return self.v


def real_bounds(b):
    from scipy.stats import norm

    return (b[1], b[2]) if b[0] == "unif" else norm(b[1], b[2])


_uc = None


def user_classes():
    global _uc
    if _uc is None:
        from . import usermat

        _uc = dict(user=usermat.UserIndex, usereps=usermat.UserEps)
    return _uc


# ---------------------------------------------------------------- generators


def r(rng, a, b, nd=4):
    return round(rng.uniform(a, b), nd)


BUNDLED = ["air", "water", "silica", "silicon", "polymer", "gold", "d2o", "dmso", "pnipam", "pdms"]


def _bundled_names():
    import glob
    import os

    return sorted(os.path.basename(p)[:-4] for p in glob.glob("/repo/refellips/materials/*.csv"))


def gen_mat(rng, vals, i, kinds=None):
    k = rng.choice(kinds or ["const", "const", "table", "bundled", "cauchy", "cauchy", "sell", "lorentz", "gauss", "tl", "user", "usereps"])
    m = dict(k=k, dw=rng.choice([658, 532.0, 700.5]))
    V = lambda p, v: vals.__setitem__(f"m{i}.{p}", v)
    if k == "const":
        m.update(n=r(rng, 1.3, 2.4), kk=rng.choice([0.0, 0.0, r(rng, 0, 0.5)]))
        if rng.random() < 0.12:  # a metal
            m.update(n=r(rng, 0.15, 3), kk=r(rng, 1, 5))
    elif k == "table":
        lam = sorted({r(rng, 0.3, 1.1, 3) for _ in range(rng.randint(2, 6))})
        m["rows"] = [[w, r(rng, 1.3, 2.5), rng.choice([0.0, r(rng, 0, 0.8)])] for w in lam]
    elif k == "bundled":
        names = _bundled_names()
        m["name"] = rng.choice(names)
    elif k == "cauchy":
        V("A", r(rng, 1.3, 1.7))
        V("B", r(rng, 0, 0.02, 5))
        V("C", rng.choice([0.0, r(rng, 0, 0.001, 6)]))
    elif k == "sell":
        V("Am", r(rng, 0.5, 2))
        V("En", r(rng, 0.05, 0.2))
        V("P", r(rng, 0, 0.05))
        V("Einf", r(rng, 1, 2))
    elif k in ("lorentz", "gauss"):
        n = rng.choice([1, 1, 2])
        for j in range(n):
            V(f"Am.{j}", r(rng, 0.5, 8) if k == "lorentz" else r(rng, 0.5, 4))
            V(f"Br.{j}", r(rng, 0.1, 0.6))
            V(f"En.{j}", r(rng, 3.0, 6.5))
        V("Einf", r(rng, 1.2, 2.5))
        if k == "lorentz" and rng.random() < 0.15:  # a sharp line
            m["line"] = r(rng, 400, 900, 2)
            V("Am.0", r(rng, 0.02, 0.6))
            V("Br.0", r(rng, 0.003, 0.02, 4))
            V("En.0", r(rng, 1239.841984 / m["line"] - 0.002, 1239.841984 / m["line"] + 0.002, 4))
    elif k == "tl":
        n = rng.choice([1, 1, 2])
        for j in range(n):
            V(f"Am.{j}", r(rng, 10, 120))
            V(f"C.{j}", r(rng, 0.5, 3))
            V(f"En.{j}", r(rng, 3.0, 6))
        V("Eg", r(rng, 1.2, 2.8))
        V("Einf", r(rng, 1, 2))
    else:
        V("n", r(rng, 1.3, 2.2))
        V("k", rng.choice([0.0, r(rng, 0, 0.4)]))
        V("disp", r(rng, -0.05, 0.05))
    return m


def gen_points(rng, n, wls=None):
    wls = wls or [r(rng, 380, 980, 1) for _ in range(rng.randint(1, 4))]
    return [[rng.choice(wls), r(rng, 42, 80, 2)] for _ in range(n)]


def gen_world(rng, nmat=(2, 5), nslab=(3, 6), nstruct=(1, 3), nmodel=(1, 3), ndata=(1, 2), nobj=(1, 3),
              kinds=None, reflect=True, share=True, must_user=False, thin=0.0, contract=0.0):
    vals = {}
    st = dict(vals=vals, mats=[], slabs=[], structs=[], models=[], data=[], objs=[], alias={}, constr={}, bounds={}, vary=[])
    # 0: fronting, 1: backing
    st["mats"].append(dict(k="const", n=rng.choice([1.0, 1.0, 1.33, 1.5]), kk=0.0, dw=658))
    st["mats"].append(rng.choice([dict(k="const", n=r(rng, 3, 4), kk=r(rng, 0.005, 0.2), dw=658),
                                  dict(k="const", n=r(rng, 3, 4), kk=0.0, dw=658),
                                  dict(k="bundled", name="silicon", dw=658)]))
    for i in range(rng.randint(*nmat)):
        kk = kinds
        if must_user and i == 0:
            kk = ["user", "usereps"]
        st["mats"].append(gen_mat(rng, vals, len(st["mats"]), kk))
    if rng.random() < 0.15:  # prism geometry: total internal reflection
        st["mats"][0]["n"] = rng.choice([1.52, 1.8])
        st["mats"][1] = dict(k="const", n=rng.choice([1.0, 1.33]), kk=rng.choice([0.0, 0.0, 0.01]), dw=658)
    nm = len(st["mats"])
    for i, m in enumerate((0, 1)):
        st["slabs"].append(dict(m=m))
    for _ in range(rng.randint(*nslab)):
        if rng.random() < 0.25:
            st["slabs"].append(dict(a=rng.randrange(2, nm), b=rng.randrange(0, nm)))
        elif rng.random() < 0.15:
            st["slabs"].append(dict(m=rng.randrange(2, nm), prof=rng.randint(1, 4), lp=rng.choice([0, 0, -1])))
        else:
            st["slabs"].append(dict(m=rng.randrange(2, nm)))
    if rng.random() < thin:
        st["thin"] = 1
        for s in st["slabs"][1:]:
            s["face"] = rng.choice([None, None, "erf", "tanh", "linear"])
    if must_user:
        st["slabs"][2] = dict(m=2)
    for i, s in enumerate(st["slabs"]):
        vals[f"s{i}.thick"] = 0.0 if i < 2 else rng.choice([0.0, r(rng, 5, 400, 2), r(rng, 5, 400, 2), r(rng, 100, 3000, 2)]) if not st.get("thin") else r(rng, 2, 60, 2)
        vals[f"s{i}.rough"] = r(rng, 0, 5, 2)
        if "a" in s:
            vals[f"s{i}.vfb"] = rng.choice([0.0, 1.0, r(rng, 0, 1), r(rng, 0, 1), rng.choice([1e-4, 0.004, 0.996, 0.9999])])
        else:
            vals[f"s{i}.vf"] = 0.0 if i < 2 else rng.choice([0.0, 0.0, r(rng, 0, 1), rng.choice([1.0, 1e-4, 0.004, 0.996, 0.9999])])
        if i >= 2 and not st.get("thin") and rng.random() < 0.04:
            vals[f"s{i}.thick"] = r(rng, 2e4, 2e5, 1)
    ns = len(st["slabs"])
    for j in range(rng.randint(*nstruct)):
        c = [rng.randrange(2, ns) for _ in range(rng.randint(0, 4))]
        if must_user and 2 not in c:
            c = [2] + c
        st["structs"].append(dict(c=[0] + c + [1], solvent=rng.choice([None, None, rng.randrange(0, nm)]), rev=int(rng.random() < 0.25),
                                  ema=rng.choice(["linear", "maxwell-garnett", "bruggeman"]), dep=rng.choice([1 / 3, r(rng, 0.05, 0.9)])))
        if rng.random() < contract:
            st["structs"][-1]["contract"] = rng.choice([0.5, 2.0, 10.0])
    for i in range(rng.randint(*nmodel)):
        vals[f"M{i}.off"] = rng.choice([0.0, 0.0, r(rng, -5, 5)])
        st["models"].append(dict(s=rng.randrange(len(st["structs"]))))
    for _ in range(rng.randint(*ndata)):
        st["data"].append(gen_data(rng, reflect))
    for i in range(rng.randint(*nobj)):
        lns = rng.random() < 0.3
        if lns:
            vals[f"o{i}.lns"] = r(rng, -6, -2)
        st["objs"].append(dict(m=rng.randrange(len(st["models"])), d=rng.randrange(len(st["data"])), lns=int(lns),
                               weights=int(rng.random() < 0.8), extra=rng.choice([0, 0, -2.5])))
    keys = sorted(vals)
    # shared parameters and constraints
    if share and rng.random() < 0.4:
        th = [k for k in keys if k.endswith(".thick") and k not in ("s0.thick", "s1.thick")]
        if len(th) >= 2:
            a, b = rng.sample(th, 2)
            if rng.random() < 0.5:
                st["alias"][b] = a
                vals[b] = vals[a]
            else:
                st["constr"][b] = [a, rng.choice([0.5, 1.0, 2.0]), rng.choice([0.0, 10.0])]
    fixed = {"s0.thick", "s1.thick", "s0.vf", "s1.vf", "s0.rough", "s1.rough"}
    for k in keys:
        kk = st["alias"].get(k, k)
        if k in fixed or k in st["alias"] or k in st["constr"]:
            continue
        x = rng.random()
        if x < 0.5:
            v = vals[kk]
            b = gen_bounds(rng, k, v)
            st["bounds"][kk] = b
            if x < 0.3 and kk not in st["vary"]:
                st["vary"].append(kk)
    for k in keys:  # the library gives fractions bounds only if they are plain numbers
        pass
    return st


def gen_bounds(rng, k, v):
    if rng.random() < 0.15 and not k.endswith((".vf", ".vfb")):
        return ["norm", v, max(0.01, round(abs(v) * 0.1, 4))]
    if k.endswith((".vf", ".vfb")):
        return ["unif", 0.0, 1.0]
    w = max(0.01, abs(v) * 0.5)
    return ["unif", round(v - w * rng.uniform(0.2, 1), 5), round(v + w * rng.uniform(0.2, 1), 5)]


def in_range(rng, key, st):
    """A fresh sensible value for a parameter."""
    k = st["alias"].get(key, key)
    if k.endswith((".vf", ".vfb")):
        return rng.choice([0.0, 1.0, r(rng, 0, 1), rng.choice([1e-4, 0.004, 0.996, 0.9999])])
    if k.endswith(".thick"):
        if st.get("thin"):
            return r(rng, 1, 60, 2)
        return rng.choice([0.0, r(rng, 1, 500, 2), r(rng, 1, 3000, 2)])
    if k.endswith(".rough"):
        return r(rng, 0, 5, 2)
    if k.endswith(".off"):
        return r(rng, -20, 20, 3)
    if k.endswith(".lns"):
        return r(rng, -6, -2, 3)
    return round(st["vals"][k] * rng.uniform(0.9, 1.1), 6)


def gen_data(rng, reflect=True):
    n = rng.randint(1, 8)
    pts = gen_points(rng, n)
    return dict(rows=[p + [r(rng, 2, 88), r(rng, 0, 359)] for p in pts],
                mask=[1] * n if rng.random() < 0.6 else [int(rng.random() < 0.7) for _ in range(n)],
                reflect=int(reflect and rng.random() < 0.35), weighted=int(rng.random() < 0.25))
