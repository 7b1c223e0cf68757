"""Engine C: the compiler's IR of /repo's sources, executed symbolically and decided by z3 over linear integer arithmetic."""
import json, os, subprocess, sys
import run as R

KEY = "m"
SCRIPT = {"P01": "p01.py", "P29": "p29.py"}


def script(prop, args, timeout):
    p = os.path.join(R.VERIF, "engine/ir", SCRIPT[prop])
    return R.sh(["python3-vt", p] + args, timeout=timeout)


def run(prop, tier, seed):
    d = os.path.join(R.BUILD, "run")
    os.makedirs(d, exist_ok=True)
    out = os.path.join(d, f"{prop}.{os.getpid()}.ir.json")
    if os.path.exists(out):
        os.unlink(out)
    rc, txt = script(prop, [out, tier], 700 if tier == "quick" else 14400)
    if rc or not os.path.exists(out):
        raise R.Fail(f"IR run ended with status {rc}: {txt[-1500:]}")
    r = json.load(open(out))
    os.unlink(out)
    for f in r["found"]:
        f.update(seed=seed, engine="ir")
    return r["found"], r["notes"], r["stats"]


def replay(f):
    rc, txt = script(f["property"], ["-", "quick", f["case"]] + [str(x) for x in f["assign"]["args"]], 300)
    return txt.strip()
