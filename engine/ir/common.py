"""Builds the wrapper crate from /repo's current sources, hands out its LLVM IR, and runs it natively for replay."""
import os, re, subprocess, sys, time, json

HERE = os.path.dirname(os.path.abspath(__file__))
VERIF = os.path.dirname(os.path.dirname(HERE))
BUILD = os.environ.get("VERIF_BUILD", os.path.join(VERIF, "build"))
REPO = os.environ.get("VERIF_REPO", "/repo")
ENV = dict(os.environ, RUSTUP_TOOLCHAIN="1.88.0", CARGO_NET_OFFLINE="true", CARGO_TERM_COLOR="never")
ENV.pop("CARGO_TARGET_DIR", None)


def write(path, text):
    os.makedirs(os.path.dirname(path), exist_ok=True)
    if os.path.exists(path) and open(path).read() == text:
        return
    with open(path, "w") as f:
        f.write(text)


def layout(name, special=None, dst=None, subst=None):
    """copies engine/ir/<name> into the build directory, with the paths of the sources filled in"""
    d = os.path.join(BUILD, "ir", dst or name)
    for root, _, files in os.walk(os.path.join(HERE, name)):
        for f in files:
            p = os.path.join(root, f)
            t = open(p).read().replace("@REPO@", REPO).replace("@OUT@", d)
            for k, v in (subst or {}).items():
                t = t.replace(k, v)
            write(os.path.join(d, os.path.relpath(p, os.path.join(HERE, name))), t)
    for k, v in (special or {}).items():
        write(os.path.join(d, k), v)
    if os.path.exists(os.path.join(REPO, "Cargo.lock")) and not os.path.exists(os.path.join(d, "Cargo.lock")):
        write(os.path.join(d, "Cargo.lock"), open(os.path.join(REPO, "Cargo.lock")).read())
    return d


def cargo(d, args, flags=""):
    env = dict(ENV)
    if flags:
        env["RUSTFLAGS"] = flags
    p = subprocess.run(["cargo"] + args, cwd=d, env=env, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, stdin=subprocess.DEVNULL)
    if p.returncode:
        t = p.stdout.decode(errors="replace")
        raise SystemExit("build failed: " + "\n".join(re.findall(r"(?m)^error.*(?:\n.*){0,6}", t)[:5]))


def ir(d, profile="release", flags="", target="target"):
    cargo(d, ["rustc", "--offline", "-q", "--lib", "--profile", profile, "--target-dir", target, "--", "--emit=llvm-ir"], flags)
    deps = os.path.join(d, target, profile, "deps")
    c = [os.path.join(deps, f) for f in os.listdir(deps) if f.startswith("irx") and f.endswith(".ll")]
    return open(max(c, key=os.path.getmtime)).read()


def binary(d, flags="", target="target"):
    cargo(d, ["build", "--offline", "-q", "--release", "--target-dir", target], flags)
    return os.path.join(d, target, "release", "irbin")


def native(binp, reqs, timeout=60):
    txt = "".join(" ".join(map(str, r)) + "\n" for r in reqs)
    try:
        p = subprocess.run([binp], input=txt.encode(), stdout=subprocess.PIPE, stderr=subprocess.DEVNULL, timeout=timeout)
    except subprocess.TimeoutExpired:
        return ["timeout"] * len(reqs)
    out = p.stdout.decode().split()
    out += ["died"] * (len(reqs) - len(out))
    return [int(x) if x.isdigit() else x for x in out]
