import argparse
import importlib
import json
import os
import sys
import types


def stub_version():
    """diffstar/_version.py is generated by the build and not tracked"""
    if not os.path.exists("/repo/diffstar/_version.py"):
        m = types.ModuleType("diffstar._version")
        m.__version__ = "0+unknown"
        m.version = m.__version__
        sys.modules["diffstar._version"] = m


def main():
    ap = argparse.ArgumentParser()
    ap.add_argument("pid")
    ap.add_argument("--tier", default=os.environ.get("VERIF_TIER", "quick"))
    ap.add_argument("--replay")
    a = ap.parse_args()
    if a.tier not in ("quick", "thorough"):
        a.tier = "quick"
    try:
        seed = int(os.environ.get("VERIF_SEED", "1"))
    except ValueError:
        seed = 1
    stub_version()
    sys.setrecursionlimit(20000)
    from vc.report import Run, Case, EVID
    R = Run(a.pid, a.tier, seed)
    try:
        mod = importlib.import_module("props." + a.pid.lower())
    except Exception as e:
        import traceback
        tb = traceback.format_exc()
        if "/repo/diffstar/" in tb.splitlines()[-3] or "/repo/diffstar/" in tb:
            # the package under test does not even import
            os.makedirs(EVID, exist_ok=True)
            rp = os.path.join(EVID, f"replay_{a.pid}.json")
            with open(rp, "w") as f:
                json.dump({"property": a.pid, "import_failure": tb}, f)
            print(tb[-1500:])
            print(f"VIOLATION property={a.pid} replay={rp} no-failing-input-found")
            return 1
        raise
    if a.replay:
        mod.cases(R)
        rep = json.load(open(a.replay))
        if "case" not in rep:
            print("replay file names failed obligations only:")
            print(json.dumps(rep.get("failed_obligations"), indent=1)[:4000])
            return 1
        c = next(c for c in R.cases if c.name == rep["case"])
        msg = R.run_one(c, rep["inputs"])
        print("reproduced: " + msg if msg else "not reproduced: the real code satisfies the property on this input")
        return 1 if msg else 0
    mod.cases(R)
    R.early = R.run_cases(first=True)
    if not os.environ.get("VC_CASE"):
        mod.obligations(R)
    return R.finish()


if __name__ == "__main__":
    sys.exit(main())
