#!/usr/bin/env python3
"""Lays out /verif/build/{sym,real}: two cargo workspaces made from /repo's current sources.

real: the crates of /repo (symlinks), for replay and for validating the lifted execution.
sym:  the same sources of starky/recursion/... against the lifted field types of engine/shims.
In both, items are only made public (see lift()); no statement of the code under test is changed.
Files are rewritten only when their content changes, so cargo works incrementally."""
import os, re, shutil, sys

HERE = os.path.dirname(os.path.abspath(__file__))
REPO = os.environ.get("VERIF_REPO", "/repo")
OUT = os.environ.get("VERIF_BUILD", os.path.join(os.path.dirname(HERE), "build"))


def write(path, text):
    os.makedirs(os.path.dirname(path), exist_ok=True)
    if os.path.islink(path):
        os.unlink(path)
    try:
        with open(path) as f:
            if f.read() == text:
                return
    except OSError:
        pass
    with open(path, "w") as f:
        f.write(text)


def read(path):
    with open(path) as f:
        return f.read()


def lift(text):
    """make items, inherent methods and struct fields public; drop test modules' effect by leaving them"""
    out = []
    block = None
    for line in text.split("\n"):
        if block is None:
            line = re.sub(r"^(pub\(crate\) |pub\(super\) )?(?=(async |unsafe |const )*(fn|struct|enum|trait|type|static|mod) )", "pub ", line) \
                if not line.startswith("pub ") and not re.match(r"^mod tests?\b", line) else line
            line = re.sub(r"^(pub\(crate\) )?const (?=[A-Z])", "pub const ", line)
            if re.match(r"^(unsafe )?impl\b.*\{\s*$", line) and not re.search(r"\bfor\b(?!<)", line):
                block = "impl"
            elif re.match(r"^pub struct .*\{\s*$", line):
                block = "struct"
            elif re.match(r"^(unsafe )?impl\b", line) and "{" not in line:
                block = "implhead:" + line
        elif block.startswith("implhead"):
            block += line
            if "{" in line:
                block = "impl" if not re.search(r"\bfor\b(?!<)", block) else "other"
        else:
            if line.startswith("}"):
                block = None
            elif block == "impl":
                line = re.sub(r"^    (pub\(crate\) )?(?=(async |unsafe |const )*fn )", "    pub ", line)
            elif block == "struct":
                line = re.sub(r"^    (pub\(crate\) )?(?=\w+:)", "    pub ", line)
        out.append(line)
    return "\n".join(out)


def toml(text, drop=(), subst=(), add=""):
    """keep package, lib, dependencies, features; drop dev-dependencies and benches"""
    out, keep, dep = [], True, False
    for line in text.split("\n"):
        m = re.match(r"^\[+([\w.-]+)\]+", line.strip())
        if m:
            keep = m[1] in ("package", "lib", "dependencies", "features")
            dep = m[1] == "dependencies"
            if keep:
                out.append(line)
                if dep and add:
                    out.append(add)
            continue
        if not keep:
            continue
        n = re.match(r"^([\w-]+)\s*=", line)
        if dep and n and n[1] in drop:
            continue
        if dep and n:
            for k, v in subst:
                if n[1] == k:
                    line = v
        if not dep and n:
            for k in drop:
                line = re.sub(r'"%s(/[^"]*)?"\s*,?\s*' % re.escape(k), "", line)
        if line.startswith("crate-type"):
            line = 'crate-type = ["rlib"]'
        out.append(line)
    return "\n".join(out) + "\n"


def mirror_src(src, dst, special, skip=()):
    """copy the tree of sources (visibility lifted), constants files as symlinks"""
    seen = set()
    for root, dirs, files in os.walk(src):
        rel = os.path.relpath(root, src)
        for f in files:
            p = os.path.normpath(os.path.join(rel, f))
            if not f.endswith(".rs") or p in skip:
                continue
            seen.add(p)
            d = os.path.join(dst, p)
            if p in special:
                write(d, special[p](read(os.path.join(root, f)), os.path.join(root, f)))
            elif "constants" in f and "compressor12" not in rel and os.path.getsize(os.path.join(root, f)) > 20000:
                t = os.path.join(root, f)
                if not (os.path.islink(d) and os.readlink(d) == t):
                    os.makedirs(os.path.dirname(d), exist_ok=True)
                    if os.path.lexists(d):
                        os.unlink(d)
                    os.symlink(t, d)
            else:
                write(d, lift(read(os.path.join(root, f))))
    for root, dirs, files in os.walk(dst):
        for f in files:
            p = os.path.normpath(os.path.relpath(os.path.join(root, f), dst))
            if p not in seen:
                os.unlink(os.path.join(root, f))


def pub_mods(text, _=None):
    return re.sub(r"(?m)^(pub\(crate\) )?mod (\w+);", r"pub mod \2;", text)


def starky(mode, ws):
    src = os.path.join(REPO, "starky/src")
    special = {"lib.rs": pub_mods}
    if mode == "sym":
        big = read(os.path.join(HERE, "shims/field_big.rs"))
        for f, k in (("field_bn128.rs", "bn"), ("field_bls12381.rs", "bls")):
            special[f] = lambda t, p, k=k: big.replace("@SRC@", p).replace("@F@", k)
    mirror_src(src, os.path.join(ws, "starky/src"), special)
    add = 'symcore = { path = "../symcore" }' if mode == "sym" else ""
    write(os.path.join(ws, "starky/Cargo.toml"), toml(
        read(os.path.join(REPO, "starky/Cargo.toml")), drop=("ark-std",),
        subst=(("profiler_macro", 'profiler_macro = { path = "../profiler_macro" }'),
               ("num_cpus", 'num_cpus = { path = "../num_cpus" }'))
        + ((("num-bigint", 'num-bigint = { path = "../num_bigint" }'),) if mode == "sym" else ()), add=add))


def fields(mode, ws):
    if mode == "sym":
        for f in ("Cargo.toml", "src/lib.rs", "src/field_gl.rs"):
            write(os.path.join(ws, "fields", f), read(os.path.join(HERE, "shims/fields", f)).replace("@REPO@", REPO))
        return
    def lib(t, _):
        t = t.replace("pub use franklin_crypto::bellman as bellman_ce;", "")
        return t.replace("pub use bellman_ce::pairing::ff;", "pub extern crate ff;")
    mirror_src(os.path.join(REPO, "fields/src"), os.path.join(ws, "fields/src"), {"lib.rs": lib},
               skip=("field_gl_test.rs",))
    write(os.path.join(ws, "fields/Cargo.toml"), toml(
        read(os.path.join(REPO, "fields/Cargo.toml")), drop=("franklin-crypto",),
        add='ff = {package="ff_ce", version="0.12", features=["derive"]}'))


def recursion(mode, ws):
    def lib(t, _):
        t = pub_mods(t)
        return t
    mirror_src(os.path.join(REPO, "recursion/src"), os.path.join(ws, "recursion/src"), {
        "lib.rs": lib, "compressor12/mod.rs": pub_mods},
        skip=())
    # the circuit reader crate and the constraint-language compiler are replaced by data types
    write(os.path.join(ws, "recursion/Cargo.toml"), toml(
        read(os.path.join(REPO, "recursion/Cargo.toml")),
        subst=(("powdr", 'powdr = { path = "../powdr" }'),
               ("powdr-parser-util", 'powdr-parser-util = { path = "../powdr-parser-util" }'),
               ("algebraic", 'algebraic = { path = "../algebraic" }'))))


def main():
    for mode in ("sym", "real"):
        ws = os.path.join(OUT, mode)
        os.makedirs(ws, exist_ok=True)
        fields(mode, ws)
        starky(mode, ws)
        members = ["fields", "starky", "harness"]
        for shim in ("profiler_macro", "num_cpus") + (("num_bigint",) if mode == "sym" else ()):
            for root, _, fs in os.walk(os.path.join(HERE, "shims", shim)):
                for f in fs:
                    p = os.path.join(root, f)
                    write(os.path.join(ws, os.path.relpath(p, os.path.join(HERE, "shims"))), read(p))
            members.append(shim)
        for root, _, fs in os.walk(os.path.join(HERE, "symcore")):
            for f in fs:
                p = os.path.join(root, f)
                write(os.path.join(ws, os.path.relpath(p, HERE)), read(p))
        members.append("symcore")
        for root, _, fs in os.walk(os.path.join(HERE, "harness")):
            for f in fs:
                p = os.path.join(root, f)
                t = read(p)
                if f == "Cargo.toml":
                    t = t.replace("@FEATURE@", mode).replace("@BIGINT@", '{ path = "../num_bigint" }' if mode == "sym" else '"0.4"')
                write(os.path.join(ws, os.path.relpath(p, HERE)), t)
        write(os.path.join(ws, "Cargo.toml"),
              '[workspace]\nmembers = [%s]\nresolver = "2"\n\n[profile.release]\nopt-level = 2\ndebug = 1\nincremental = true\n'
              % ", ".join('"%s"' % m for m in members))
        lock = read(os.path.join(REPO, "Cargo.lock"))
        seen = os.path.join(ws, ".repo-lock")
        if not os.path.exists(seen) or read(seen) != lock or not os.path.exists(os.path.join(ws, "Cargo.lock")):
            write(os.path.join(ws, "Cargo.lock"), lock)
            write(seen, lock)


if __name__ == "__main__":
    main()
