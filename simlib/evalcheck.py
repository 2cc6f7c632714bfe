"""Compare the real library with the reference for one configuration."""
import math

import numpy as np

from . import world as W
from .core import SutError, Violation


def ref_or_none(fn, sim):
    try:
        return fn()
    except (W.Uncertain, ZeroDivisionError, OverflowError):
        sim.probe("reference undecided")
        return None


def _ret(sim, name, got):
    if isinstance(got, SutError):
        raise Violation("raised", f"{name} raised {got!r}")
    return got


def scribble(*arrays):
    """what is handed out belongs to the caller, who may overwrite it"""
    for x in arrays:
        if isinstance(x, np.ndarray) and x.size and x.flags.writeable and x.dtype.kind in "fc":
            x[...] = -77.0


def model(w, mi, pts, sim, real=None, p=None):
    ref = W.Ref(w.state)
    exp = ref_or_none(lambda: [ref.psi_delta(mi, a, b) for a, b in pts], sim)
    m = real if real is not None else w.models[mi]
    arr = np.array(pts, dtype=float).reshape(-1, 2)
    if all(float(v).is_integer() for v in arr.flat) and len(pts) % 2:
        arr = arr.astype(int)
    keep = arr.copy()
    got = sim.call(m, arr) if p is None else sim.call(m, arr, p)
    if exp is None:
        return
    psi, dlt = _ret(sim, "model evaluation", got)
    if not np.array_equal(arr, keep):
        raise Violation("input-modified", "the wavelength/angle array was modified")
    out = (psi, dlt)
    psi, dlt = np.array(psi, float), np.array(dlt, float)
    scribble(arr, *out)
    if psi.shape != (len(pts),) or dlt.shape != (len(pts),):
        raise Violation("model-value", f"{len(pts)} points asked, shapes {psi.shape} {dlt.shape} returned")
    for i, (x, y, _) in enumerate(exp):
        if not (math.isfinite(psi[i]) and math.isfinite(dlt[i]) and W.pd_close(psi[i], dlt[i], x, y)):
            raise Violation("model-value", f"model {mi} at {tuple(pts[i])}: psi,delta = {psi[i]:.8g},{dlt[i]:.8g}, expected {x:.8g},{y:.8g}")
    off = W.Ref(w.state).val(f"M{mi}.off")
    for i, (x, y, raw) in enumerate(exp):
        # range convention: [0, 360] before the offset
        if not (-1e-6 <= dlt[i] - off <= 360 + 1e-6):
            raise Violation("model-value", f"delta - offset = {dlt[i] - off} outside [0, 360]")


def slabs(w, si, lam, sim, real=None):
    ref = W.Ref(w.state)
    exp = ref_or_none(lambda: ref.slabs(si, lam), sim)
    s = real if real is not None else w.structs[si]
    got = sim.call(s.slabs, wavelength=lam)
    if exp is None:
        return
    out = _ret(sim, "slabs()", got)
    got = np.array(out, float)
    scribble(out)
    e = np.array([[a[0], a[1].real, a[1].imag, a[2], a[3]] for a in exp], float)
    if got.shape != e.shape or not np.allclose(got, e, rtol=1e-8, atol=1e-8):
        raise Violation("slabs-value", f"structure {si} slabs at {lam}: {got.tolist()}, expected {e.tolist()}")


def profile(w, si, lam, sim):
    from refnx.reflect.structure import sld_profile

    ref = W.Ref(w.state)
    exp = ref_or_none(lambda: ref.slabs(si, lam), sim)
    s = w.structs[si]
    s.wavelength = lam
    got = sim.call(s.ri_profile)
    if exp is None:
        return
    z, ri = _ret(sim, "ri_profile()", got)
    e = np.array([[a[0], a[1].real, a[1].imag, a[2], a[3]] for a in exp], float)
    ze, re_ = sld_profile(e)
    if np.shape(z) != np.shape(ze) or not (np.allclose(z, ze, atol=1e-6) and np.allclose(ri, re_, rtol=1e-6, atol=1e-6)):
        raise Violation("profile-value", f"ri_profile of structure {si} at {lam} differs from the profile of its layers")


def material(w, i, lams, sim, real=None):
    ref = W.Ref(w.state)
    m = real if real is not None else w.mats[i]
    for lam in lams:
        exp = ref_or_none(lambda: ref.n(i, lam), sim)
        if exp is None:
            continue
        got = complex(_ret(sim, "complex()", sim.call(m.complex, lam)))
        if abs(got - exp) > 1e-7 * max(1, abs(exp)):
            raise Violation("index-value", f"material {i} ({w.state['mats'][i]['k']}) at {lam} nm: {got}, expected {exp}")
    if len(lams) > 1 and w.state["mats"][i]["k"] != "const":
        exp = ref_or_none(lambda: [ref.n(i, lam) for lam in lams], sim)
        if exp is not None:
            got = _ret(sim, "complex(array)", sim.call(m.complex, np.array(lams, float)))
            out = got
            got = np.array(got)
            scribble(out)
            if got.shape != (len(lams),) or not np.allclose(got, exp, rtol=1e-7, atol=1e-7):
                raise Violation("index-value", f"material {i} at {lams}: {got}, expected {exp}")
    dw = w.state["mats"][i].get("dw", 658)
    exp = ref_or_none(lambda: ref.n(i, dw), sim)
    if exp is not None:
        got = _ret(sim, "complex(material)", sim.call(complex, m))
        if abs(got - exp) > 1e-7 * max(1, abs(exp)):
            raise Violation("index-value", f"complex(material {i}) at its default wavelength {dw}: {got}, expected {exp}")


def expected_obj(w, oi, sim):
    ref = W.Ref(w.state)
    exp = ref_or_none(lambda: ref.obj(oi), sim)
    if exp is not None:
        exp["logp"] = ref.logp(w.expected_varying(oi))
        exp["logpost"] = -math.inf if math.isinf(exp["logp"]) else exp["logp"] + exp["logl"]
    return exp


def objective(w, oi, sim, what=("residuals", "chisqr", "logp", "logl", "logpost"), real=None, pvals=None):
    """Evaluate the listed quantities; pvals is only passed to the first."""
    o = real if real is not None else w.objs[oi]
    exp = expected_obj(w, oi, sim)
    for q in what:
        if q == "nll" and pvals is None:
            # refnx's BaseObjective.nll() needs explicit values
            pvals = np.array(o.varying_parameters())
            if not len(pvals):
                pvals = None
                continue
        got = sim.call(getattr(o, q), pvals) if pvals is not None else sim.call(getattr(o, q))
        pvals = None
        if exp is None or (q in ("logl", "logpost", "nll", "nlpost") and not exp["ok"]):
            continue
        got = _ret(sim, q, got)
        if q == "residuals":
            g = np.array(got, float)
            scribble(got)
            e = np.array(exp[q])
            tol = 2e-3
            if g.shape != e.shape:
                raise Violation("objective-value", f"residuals of objective {oi}: {g.shape[0]} values, expected {e.shape[0]}")
            # psi/delta in degrees; delta is ill-conditioned for small psi, so
            # compare through a tolerance that follows the model comparison
            bad = [i for i in range(len(e)) if not abs(g[i] - e[i]) <= tol_for(w, oi, i, len(e))]
            if bad:
                i = bad[0]
                raise Violation("objective-value", f"residual {i} of objective {oi}: {g[i]:.8g}, expected {e[i]:.8g}")
        else:
            base = {"nll": ("logl", -1), "nlpost": ("logpost", -1)}.get(q, (q, 1))
            e = exp[base[0]] * base[1]
            if not W.num_close(float(got), e, rel=2e-5, ab=2e-5):
                raise Violation("objective-value", f"{q} of objective {oi}: {float(got):.10g}, expected {e:.10g}")
    return exp


def tol_for(w, oi, i, n):
    return 2e-4 if i < n // 2 else 5e-3


def globalobjective(w, ois, sim):
    """several objectives fitted together"""
    from refnx.analysis import GlobalObjective

    if len({bool(w.state["objs"][i]["weights"] and w.state["data"][w.state["objs"][i]["d"]]["weighted"]) for i in ois}) > 1:
        return  # refnx refuses a mixture of weighted and unweighted objectives
    g = sim.call(GlobalObjective, [w.objs[i] for i in ois])
    g = _ret(sim, "GlobalObjective", g)
    exps = [expected_obj(w, i, sim) for i in ois]
    got = {q: sim.call(getattr(g, q)) for q in ("residuals", "chisqr", "logl")}
    if None in exps:
        return
    r = np.array(_ret(sim, "residuals of a GlobalObjective", got["residuals"]), float)
    e = np.concatenate([np.array(x["residuals"], float) for x in exps])
    if r.shape != e.shape or not np.allclose(r, e, rtol=0, atol=5e-3):
        raise Violation("objective-value", f"residuals of objectives {ois} together: {r.tolist()}, expected {e.tolist()}")
    for q in ("chisqr", "logl"):
        if q == "logl" and not all(x["ok"] for x in exps):
            continue
        t = sum(x[q] for x in exps)
        v = float(_ret(sim, q + " of a GlobalObjective", got[q]))
        if not W.num_close(v, t, rel=2e-5, ab=2e-5):
            raise Violation("objective-value", f"{q} of objectives {ois} together: {v:.10g}, expected {t:.10g}")
