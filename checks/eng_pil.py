"""Engine P: the constraint program the compressor renders, as polynomials over its cells (engine/pil)."""
import json, os, tempfile
import run as R

KEY = "p"
HERE = os.path.join(R.VERIF, "engine/pil")


def binary():
    d = os.path.join(R.BUILD, "pil")
    for f in ("Cargo.toml", "src/main.rs"):
        t = open(os.path.join(HERE, "crate", f)).read().replace("@REPO@", R.REPO)
        p = os.path.join(d, f)
        os.makedirs(os.path.dirname(p), exist_ok=True)
        if not os.path.exists(p) or open(p).read() != t:
            with open(p, "w") as g:
                g.write(t)
    rc, out = R.sh(["cargo", "build", "--offline", "-q", "--release"], cwd=d)
    if rc:
        raise R.Fail("build failed: " + out[-1500:])
    return os.path.join(d, "target/release/pilx")


def run(prop, tier, seed):
    b = binary()
    out = os.path.join(R.BUILD, "pil", f"{prop}.{os.getpid()}.json")
    rc, txt = R.sh(["python3-vt", os.path.join(HERE, "p25.py"), b, out, tier], timeout=700 if tier == "quick" else 7200)
    if rc or not os.path.exists(out):
        raise R.Fail(f"ended with status {rc}: {txt[-1500:]}")
    r = json.load(open(out))
    os.unlink(out)
    for f in r["found"]:
        f.update(seed=seed, engine="pil", property=prop)
    return r["found"], r["notes"], r["stats"]


def replay(f):
    b = binary()
    with tempfile.NamedTemporaryFile("w", suffix=".json", delete=False) as t:
        json.dump(f, t)
    rc, txt = R.sh(["python3-vt", os.path.join(HERE, "p25.py"), "--replay", b, t.name], timeout=300)
    os.unlink(t.name)
    return txt.strip()


def setup():
    binary()
