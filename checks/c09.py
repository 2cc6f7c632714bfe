"""C09: answers depend on the current configuration only."""
import random

import numpy as np

from simlib import evalcheck as EC, world as W
from simlib.core import SutError, Violation

RUNS = {"quick": 5000, "thorough": 60000}
LEVEL = "exploration"
RULE = ("one run = a random world (materials, shared layers, structures, models, datasets, objectives) and a random history of "
        "edits and evaluations by several clients, every evaluation compared with the independent reference; non-trivial = at least 8 logged operations")
MIN_EVENTS = 8
SHRINK = ("ops",)
TECH = "histories of edits and evaluations over shared materials, layers, structures, models and objectives"
NOTE = "Every evaluation is compared with an independent from-scratch reference of the current configuration."
STATE = "distinct (operation, previous operation, sharing) triples and evaluated configurations"
REAL = ["refellips dispersion/structure/model/objective/data code", "refnx Parameter machinery", "numpy/scipy"]
STUB = ["clients (interleaved operation streams)", "user-written materials"]
ASSUME = ["reference model (simlib/world.py) is right: recursive Airy reflection, mixing rules and oscillators from the documentation",
          "comparisons to 2e-6 in (sin psi e^{i delta}, cos psi); configurations on a branch cut are not judged"]
PROBES = ["repeated component", "repeated group", "shared model, two conventions", "mask edit", "constraint", "structure swap", "total internal reflection", "interface shape edit", "contraction edit"]

EDITS = ["set", "set", "set", "setp", "setpfull", "vary", "bounds", "append", "insert", "delete", "replace", "solvent", "ema", "dep", "rev",
         "restruct", "mask", "data", "objdata", "newobj", "constr", "weights", "dw", "modelp", "listop", "objmodel", "lns", "extra", "name"]
EVALS = ["model", "model", "obj", "obj", "slabs", "mat", "profile", "prior", "pobj", "gobj"]


def gen(rng, tier):
    w = W.gen_world(rng, thin=0.1, contract=0.1)
    # few wavelengths, some of them close together: the same ones come again and again
    wls = [round(rng.uniform(380, 980), rng.choice([0, 1])) for _ in range(rng.randint(1, 3))]
    wls += [round(x + rng.choice([0.04, 0.3, -0.4, 0.6]), 2) for x in wls if rng.random() < 0.5]
    if rng.random() < 0.2:
        wls.append(round(wls[0] + 0.006, 3))
    for m in w["mats"]:
        if "line" in m:  # readings across the line
            wls = wls[:2] + [m["line"], round(m["line"] + 0.006, 3)]
    for d in w["data"]:
        for r in d["rows"]:
            if rng.random() < 0.6:
                r[0] = rng.choice(wls)
    edits = EDITS + (["iface", "iface"] if w.get("thin") else []) + (["contract"] if any(x.get("contract") for x in w["structs"]) else [])
    n = rng.randint(6, 26 if tier == "quick" else 60)
    kinds = rng.sample(sorted(set(edits)), rng.randint(3, len(set(edits))))  # swarm
    ops = []
    r3 = lambda: [rng.randrange(1000), rng.randrange(1000), rng.randrange(1 << 30)]
    edit = lambda: [rng.choice([e for e in edits if e in kinds])] + r3()
    while len(ops) < n:
        x = rng.random()
        if x < 0.3:
            ops.append(edit())
        elif x < 0.6:
            ops.append([rng.choice(EVALS)] + r3())
        else:  # the same question before and after
            q = [rng.choice(EVALS)] + r3()
            ops.append(q)
            ops.extend(edit() for _ in range(rng.choice([1, 1, 1, 2])))
            ops.append(list(q))
    return dict(world=w, ops=ops, wls=wls)


def execute(plan, sim):
    w = W.World(plan["world"])
    w.wls = plan["wls"]
    prev = ""
    for op in plan["ops"] + [["final", 0, 0, 1]]:
        sim.log(*op[:3])
        sim.state(op[0], prev, len(w.state["objs"]))
        step(w, op, sim)
        sim.now += 1
        prev = op[0]
    if W.Ref.tir:
        sim.probe("total internal reflection", W.Ref.tir)


def step(w, op, sim, evals=True):
    st = w.state
    name, a, b, seed = op
    rng = random.Random(seed)
    pick = lambda seq, i: seq[i % len(seq)]
    wls = getattr(w, "wls", None)
    points = lambda n: W.gen_points(rng, n, wls if wls and rng.random() < 0.75 else None)
    lam = lambda: rng.choice(wls) if wls and rng.random() < 0.75 else round(rng.uniform(380, 980), 1)
    free = [k for k in sorted(w.par) if k not in st["constr"]]
    if name == "set":
        k = pick(free, a)
        w.setval(k, W.in_range(rng, k, st))
    elif name in ("setp", "pobj", "setpfull"):
        oi = a % len(st["objs"])
        o = w.objs[oi]
        if name == "setpfull":
            from refnx._lib import flatten

            ps = list(flatten(o.parameters))
            keys = [w.keyof(p) for p in ps]
            # all values, repeated parameters get the same value
            new = {}
            vals = []
            for k in keys:
                if k is None:
                    raise Violation("parameters", "objective lists a parameter that is not part of it")
                if k in st["constr"]:
                    return
                new.setdefault(k, W.in_range(rng, k, st))
                vals.append(new[k])
            if len(vals) == len(o.varying_parameters()):
                return
            got = sim.call(o.setp, np.array(vals))
            if isinstance(got, SutError):
                raise Violation("raised", f"setp(all values) raised {got!r}")
            for k, v in new.items():
                st["vals"][k] = v
        else:
            keys = w.varying_keys(oi)
            if set(keys) != w.expected_varying(oi) or len(set(keys)) != len(keys):
                raise Violation("parameters", f"varying parameters of objective {oi}: {keys}, expected {sorted(w.expected_varying(oi))}")
            vals = [W.in_range(rng, k, st) for k in keys]
            if not keys:
                return
            last = w.__dict__.setdefault("lastpv", {})
            if last.get(oi, [None])[0] == keys and rng.random() < 0.5:
                vals = last[oi][1]  # the same vector again
            last[oi] = [keys, vals]
            pv = np.array(vals)
            for k, v in zip(keys, vals):
                st["vals"][k] = v
            if name == "setp":
                got = sim.call(o.setp, pv)
                if isinstance(got, SutError):
                    raise Violation("raised", f"setp raised {got!r}")
            elif evals:
                EC.objective(w, oi, sim, what=[rng.choice(["residuals", "chisqr", "logpost", "logl", "logp"])] + rng.choice([[], ["logpost"]]), pvals=pv)
        check_values(w)
    elif name == "modelp":
        mi = a % len(st["models"])
        m = w.models[mi]
        from refnx._lib import flatten

        ps = []
        for p in flatten(m.parameters):
            if p.vary and not any(p is q for q in ps):
                ps.append(p)
        keys = [w.keyof(p) for p in ps]
        if not keys or None in keys:
            return
        vals = [W.in_range(rng, k, st) for k in keys]
        for k, v in zip(keys, vals):
            st["vals"][k] = v
        if evals:
            EC.model(w, mi, points(3), sim, p=np.array(vals))
        else:
            m.parameters.pvals = np.array(vals)
        check_values(w)
    elif name == "vary":
        k = pick(free, a)
        w.par[k].vary = bool(b % 2)
        if b % 2 and k not in st["vary"]:
            st["vary"].append(k)
        if not b % 2 and k in st["vary"]:
            st["vary"].remove(k)
    elif name == "bounds":
        k = pick(free, a)
        st["bounds"][k] = W.gen_bounds(rng, k, st["vals"][k])
        w.par[k].bounds = W.real_bounds(st["bounds"][k])
    elif name in ("append", "insert", "delete", "replace"):
        si = a % len(st["structs"])
        s, c = w.structs[si], st["structs"][si]["c"]
        new = 2 + b % (len(st["slabs"]) - 2)
        pos = 1 + rng.randrange(max(1, len(c) - 1))
        if name == "insert" or name == "append":
            if len(c) > 8:
                return
            pos = min(pos, len(c) - 1)
            if name == "append" and rng.random() < 0.5:
                # rebuild by the | operators
                from refellips import StructureSE

                t = StructureSE()
                for q in c[:-1] + [new] + c[-1:]:
                    t |= w.slabs[q]
                t.solvent, t.ema, t.depolarisation_factor, t.reverse_structure = s.solvent, s.ema, s.depolarisation_factor, s.reverse_structure
                t.contract = s.contract
                w.structs[si] = t
                c.insert(len(c) - 1, new)
                for mi, m in enumerate(st["models"]):
                    if m["s"] == si:
                        w.models[mi].structure = t
            else:
                s.insert(pos, w.slabs[new])
                c.insert(pos, new)
        elif name == "delete" and len(c) > 2:
            pos = min(pos, len(c) - 2)
            del s[pos]
            del c[pos]
        elif name == "replace" and len(c) > 2:
            pos = min(pos, len(c) - 2)
            s[pos] = w.slabs[new]
            c[pos] = new
    elif name == "solvent":
        si = a % len(st["structs"])
        m = None if b % 3 == 0 else b % len(st["mats"])
        w.structs[si].solvent = None if m is None else w.mats[m]
        st["structs"][si]["solvent"] = m
    elif name == "ema":
        si = a % len(st["structs"])
        v = pick(["linear", "maxwell-garnett", "bruggeman"], b)
        w.structs[si].ema = v
        st["structs"][si]["ema"] = v
    elif name == "dep":
        si = a % len(st["structs"])
        v = round(rng.uniform(0.02, 0.9), 3)
        w.structs[si].depolarisation_factor = v
        st["structs"][si]["dep"] = v
    elif name == "rev":
        si = a % len(st["structs"])
        v = int(b % 2)
        w.structs[si].reverse_structure = bool(v)
        st["structs"][si]["rev"] = v
    elif name == "restruct":
        mi, si = a % len(st["models"]), b % len(st["structs"])
        w.models[mi].structure = w.structs[si]
        st["models"][mi]["s"] = si
        sim.probe("structure swap")
    elif name == "mask":
        di = a % len(st["data"])
        d = st["data"][di]
        if b % 3 == 0:
            d["mask"] = [1] * len(d["rows"])
            w.data[di].mask = None
        else:
            d["mask"] = [int(rng.random() < 0.6) for _ in d["rows"]]
            w.data[di].mask = np.array(d["mask"], dtype=bool)
        sim.probe("mask edit")
    elif name == "data":
        di = a % len(st["data"])
        d = st["data"][di]
        nd = W.gen_data(rng)
        d["rows"], d["mask"] = nd["rows"], [1] * len(nd["rows"])
        arr = np.array(d["rows"], float)
        w.data[di].data = tuple(arr[:, j] for j in range(4))
    elif name == "objdata":
        oi, di = a % len(st["objs"]), b % len(st["data"])
        w.objs[oi].data = w.data[di]
        st["objs"][oi]["d"] = di
    elif name == "newobj":
        if len(st["objs"]) > 5:
            return
        o = dict(m=a % len(st["models"]), d=b % len(st["data"]), lns=0, weights=1, extra=0)
        st["objs"].append(o)
        w.objs.append(w._obj(len(st["objs"]) - 1, o))
        fl = {bool(st["data"][x["d"]]["reflect"]) for x in st["objs"] if x["m"] == o["m"]}
        if len(fl) > 1:
            sim.probe("shared model, two conventions")
    elif name == "constr":
        th = [k for k in sorted(w.par) if k.endswith(".thick") and not k.startswith(("s0.", "s1."))]
        if len(th) < 2:
            return
        k, o = pick(th, a), pick(th, b)
        if k in st["constr"]:
            v = W.Ref(st).val(k)
            del st["constr"][k]
            w.set_constraint(k, None)
            w.setval(k, v)
            if k in st["vary"]:
                st["vary"].remove(k)
            return
        if k == o or o in st["constr"] or any(c[0] == k for c in st["constr"].values()):
            return
        st["constr"][k] = [o, rng.choice([0.5, 1.5]), rng.choice([0.0, 7.0])]
        w.set_constraint(k, st["constr"][k])
        if k in st["vary"]:
            st["vary"].remove(k)
        sim.probe("constraint")
    elif name == "weights":
        if b % 2:
            di = a % len(st["data"])
            v = int(rng.random() < 0.5)
            st["data"][di]["weighted"] = v
            w.data[di].weighted = bool(v)
        else:
            oi = a % len(st["objs"])
            v = int(rng.random() < 0.5)
            st["objs"][oi]["weights"] = v
            w.objs[oi].weighted = bool(v)
    elif name == "listop":
        si = a % len(st["structs"])
        s, c = w.structs[si], st["structs"][si]["c"]
        new = [2 + rng.randrange(len(st["slabs"]) - 2) for _ in range(2)]
        k = b % 7
        if k == 0 and len(c) < 8:
            s[1:1] = [w.slabs[q] for q in new]
            c[1:1] = new
        elif k == 1 and len(c) > 3:
            s.pop(1)
            c.pop(1)
        elif k == 2 and len(c) > 3:
            s[1:-1] = [w.slabs[q] for q in c[-2:0:-1]]
            c[1:-1] = c[-2:0:-1]
        elif k == 3 and len(c) < 8:  # taken apart and put together again in place
            top = s.pop()
            t = c.pop()
            s.append(w.slabs[new[0]])
            s.extend([w.slabs[new[1]]])
            s |= top
            w.structs[si] = s
            c.extend(new + [t])
        elif k == 4 and len(c) > 3:
            q = c[1]
            s.remove(w.slabs[q])
            c.remove(q)
        elif k == 5 and len(c) < 7:  # a repeated component
            n = rng.choice([1, 2, 3])
            top, t = s.pop(), c.pop()
            s |= w.slabs[new[0]] * n
            s |= top
            w.structs[si] = s
            c.extend([new[0]] * n + [t])
            sim.probe("repeated component")
        elif k == 6 and len(c) < 6:  # a repeated group
            from refellips import StructureSE

            g = StructureSE([w.slabs[q] for q in new]) if rng.random() < 0.5 else w.slabs[new[0]] | w.slabs[new[1]]
            top, t = s.pop(), c.pop()
            s |= g * 2
            s |= top
            w.structs[si] = s
            c.extend(new * 2 + [t])
            sim.probe("repeated group")
    elif name == "objmodel":
        oi, mi = a % len(st["objs"]), b % len(st["models"])
        w.objs[oi].model = w.models[mi]
        st["objs"][oi]["m"] = mi
    elif name == "lns":
        oi = a % len(st["objs"])
        o, k = st["objs"][oi], f"o{oi}.lns"
        if o["lns"]:
            w.objs[oi].lnsigma = None
            o["lns"] = 0
        else:
            st["vals"].setdefault(k, W.r(rng, -6, -2))
            w.objs[oi].lnsigma = w.P(k)
            o["lns"] = 1
    elif name == "extra":
        oi = a % len(st["objs"])
        v = rng.choice([0, -2.5, -7.25])
        st["objs"][oi]["extra"] = v
        w.objs[oi].logp_extra = W.Extra(v) if v else None
    elif name == "name":
        rng.choice(w.slabs + w.mats + w.structs + w.models + w.objs).name = "renamed"
    elif name == "iface":
        i = 2 + a % (len(st["slabs"]) - 2)
        v = rng.choice([None, "erf", "tanh", "linear"])
        st["slabs"][i]["face"] = v
        w.slabs[i].interfaces = None if v is None else W.shape_fn(v)
        sim.probe("interface shape edit")
    elif name == "contract":
        si = a % len(st["structs"])
        v = rng.choice([0, 0.5, 2.0, 10.0])
        st["structs"][si]["contract"] = v
        w.structs[si].contract = v
        sim.probe("contraction edit")
    elif name == "dw":
        i = a % len(st["mats"])
        v = round(rng.uniform(400, 900), 1)
        st["mats"][i]["dw"] = v
        w.mats[i].wavelength = v
    # ---- evaluations
    elif name == "model":
        EC.model(w, a % len(st["models"]), points(rng.randint(1, 6)), sim)
    elif name == "obj":
        qs = ["residuals", "chisqr", "logp", "logl", "logpost", "nll", "nlpost"]
        rng.shuffle(qs)
        EC.objective(w, a % len(st["objs"]), sim, what=qs[: rng.randint(1, 4)])
    elif name == "slabs":
        EC.slabs(w, a % len(st["structs"]), lam(), sim)
    elif name == "mat":
        EC.material(w, a % len(st["mats"]), [lam() for _ in range(rng.randint(1, 3))], sim)
    elif name == "profile":
        EC.profile(w, a % len(st["structs"]), lam(), sim)
    elif name == "prior":
        oi = a % len(st["objs"])
        keys = w.varying_keys(oi)
        if not keys or any(st["bounds"].get(k, ["x"])[0] != "unif" for k in keys):
            return
        u = [rng.random() for _ in keys]
        got = sim.call(w.objs[oi].prior_transform, u)
        if isinstance(got, SutError):
            raise Violation("raised", f"prior_transform raised {got!r}")
        exp = [st["bounds"][k][1] + x * (st["bounds"][k][2] - st["bounds"][k][1]) for k, x in zip(keys, u)]
        if not np.allclose(got, exp, rtol=1e-9, atol=1e-12):
            raise Violation("objective-value", f"prior_transform gives {got}, expected {exp}")
        check_values(w)
    elif name == "gobj":
        EC.globalobjective(w, [a % len(st["objs"]), b % len(st["objs"])], sim)
    elif name == "final":
        for mi in range(len(st["models"])):
            EC.model(w, mi, points(4), sim)
        for oi in range(len(st["objs"])):
            EC.objective(w, oi, sim)
        for si in range(len(st["structs"])):
            EC.slabs(w, si, 555.5, sim)
        for i in range(len(st["mats"])):
            EC.material(w, i, [450.0, 800.0], sim)
        check_values(w)
    else:
        raise KeyError(name)


def check_values(w):
    ref = W.Ref(w.state)
    for k, p in w.par.items():
        e = ref.val(k)
        if abs(p.value - e) > 1e-9 * max(1, abs(e)):
            raise Violation("parameter-value", f"parameter {k} is {p.value}, was set to {e}")
