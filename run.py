#!/opt/venv/bin/python
"""run.py PROPERTY [--tier quick|thorough] [--seed N] [--runs N] | --replay FILE | --determinism N"""
import os
import sys

HERE = os.path.dirname(os.path.abspath(__file__))
ENV = dict(
    OMP_NUM_THREADS="1", OPENBLAS_NUM_THREADS="1", MKL_NUM_THREADS="1",
    MPLBACKEND="Agg", LC_ALL="C.UTF-8", PYTHONDONTWRITEBYTECODE="1",
    # never trust bytecode left over in /repo
    PYTHONPYCACHEPREFIX="/nonexistent-pycache",
)


def main():
    env = dict(os.environ)
    env.setdefault("PYTHONHASHSEED", "0")
    want = {**ENV, "PYTHONHASHSEED": env["PYTHONHASHSEED"]}
    if any(os.environ.get(k) != v for k, v in want.items()) or "VERIF_CHILD" not in os.environ:
        env.update(want)
        env["VERIF_CHILD"] = "1"
        env.pop("PYTHONPATH", None)
        py = "/opt/venv/bin/python"
        os.execve(py, [py, "-s", os.path.abspath(__file__)] + sys.argv[1:], env)
    import argparse

    ap = argparse.ArgumentParser()
    ap.add_argument("prop")
    ap.add_argument("--tier", default=os.environ.get("VERIF_TIER", "quick"))
    ap.add_argument("--seed", type=int, default=int(os.environ.get("VERIF_SEED", "1") or 1))
    ap.add_argument("--runs", type=int)
    ap.add_argument("--workers", type=int)
    ap.add_argument("--replay")
    ap.add_argument("--determinism", type=int)
    ap.add_argument("--show", type=int)
    a = ap.parse_args()
    sys.path.insert(0, "/repo")
    sys.path.insert(0, HERE)
    from simlib import scratch

    with scratch.root():
        from simlib import core

        if a.replay:
            return core.replay(a.replay)
        if a.determinism:
            return core.determinism(a.prop, a.seed, a.determinism, a.tier)
        if a.show is not None:
            import importlib, json

            mod = importlib.import_module("checks." + a.prop.lower())
            core.load_library()
            if hasattr(mod, "setup"):
                mod.setup()
            plan = mod.gen(core.rng_for(a.prop, a.seed, a.show), a.tier)
            print(json.dumps(plan, default=repr)[:6000])
            r = core.run_plan(mod, plan, keep_log=True)
            for e in r.pop("log", []):
                print(e)
            print({k: v for k, v in r.items() if k != "states"})
            if "error" in r:
                print(r["error"])
            return 0
        return core.check(a.prop, a.tier, a.seed, a.runs, a.workers)


if __name__ == "__main__":
    sys.exit(main())
