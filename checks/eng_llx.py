"""Engine D: symbolic execution of the whole-program LLVM IR of the real sources (engine/llx)."""
import json, os, re, subprocess, sys, time
import run as R

KEY = "d"
HERE = os.path.join(R.VERIF, "engine/llx")
LIBS = ("fields", "fields_real")


def write(path, text):
    os.makedirs(os.path.dirname(path), exist_ok=True)
    if os.path.exists(path) and open(path).read() == text:
        return
    with open(path, "w") as f:
        f.write(text)


def crates():
    return [c for c in sorted(os.listdir(HERE)) if os.path.exists(os.path.join(HERE, c, "src/lib.rs")) and c not in LIBS]


def table():
    """property -> (crate, harnesses): the functions named pNN_* of module pNN"""
    out = {}
    for crate in crates():
        s = os.path.join(HERE, crate, "src")
        for f in sorted(os.listdir(s)):
            m = re.fullmatch(r"p(\d\d)\.rs", f)
            if m:
                t = open(os.path.join(s, f)).read()
                out["P" + m.group(1)] = (crate, re.findall(r"(?m)^\s*(?:pub fn )?(p\d\d_\w+)(?:\(\) \{| = )", t))
    return out


def layout(crate, native):
    d = os.path.join(R.BUILD, "llx", crate + ("_native" if native else ""))
    src = os.path.join(HERE, crate)
    def sub(t):
        # lines of Cargo.toml for one of the two builds only
        t = re.sub(r"(?m)^.*#%s\n" % ("sym" if native else "native"), "", t)
        return t.replace("@REPO@", R.REPO).replace("@BUILD@/llx/fields", R.BUILD + "/llx/fields" + ("_real" if native else ""))
    for root, _, files in os.walk(src):
        for f in files:
            p = os.path.join(root, f)
            write(os.path.join(d, os.path.relpath(p, src)), sub(open(p).read()))
    write(os.path.join(d, "src/any.rs"), open(os.path.join(HERE, "any.rs")).read())
    if 'path = "serializer.rs"' in open(os.path.join(src, "src/lib.rs")).read():
        write(os.path.join(d, "src/serializer.rs"), serializer())
    write(os.path.join(d, "src/table.rs"), "table!(" + ", ".join(f"p{p[1:]}::{f}" for p, (c, fs) in table().items() if c == crate for f in fs) + ");\n")
    for lib in LIBS:
        for root, _, files in os.walk(os.path.join(HERE, lib)):
            for f in files:
                p = os.path.join(root, f)
                write(os.path.join(R.BUILD, "llx", lib, os.path.relpath(p, os.path.join(HERE, lib))), open(p).read().replace("@REPO@", R.REPO))
    for l in ("/opt/vp/ws/Cargo.lock", os.path.join(R.REPO, "Cargo.lock")):
        if os.path.exists(l) and not os.path.exists(os.path.join(d, "Cargo.lock")):
            write(os.path.join(d, "Cargo.lock"), open(l).read())
    return d


def serializer():
    """starky/src/serializer.rs without what it needs of the prover (as in /opt/vp/mkws.py): the STARK proof's own impls"""
    out, skip = [], False
    for l in open(os.path.join(R.REPO, "starky/src/serializer.rs")):
        if re.match(r"use crate::(fri|stark_gen)\b", l):
            continue
        if re.match(r"impl.*\b(StarkProof|FRIProof|Query)<|(pub )?mod tests", l) or (l.startswith("#[cfg(test)]")):
            skip = not l.startswith("#[")
            if not skip:
                continue
        if not skip:
            out.append(l)
        elif l.startswith("}"):
            skip = False
    return "".join(out)


def cargo(d, args):
    rc, out = R.sh(["cargo"] + args, cwd=d)
    if rc:
        raise R.Fail("build failed: " + "\n".join(re.findall(r"(?m)^error.*(?:\n.*){0,8}", out)[:5] or [out[-2000:]]))


def ir(crate):
    d = layout(crate, False)
    cargo(d, ["rustc", "--offline", "-q", "--lib", "--release", "--crate-type", "cdylib", "--", "--emit=llvm-ir", "-C", "no-vectorize-loops", "-C", "no-vectorize-slp"])
    deps = os.path.join(d, "target/release/deps")
    c = [os.path.join(deps, f) for f in os.listdir(deps) if f.startswith("hx") and f.endswith(".ll")]
    return max(c, key=os.path.getmtime)


def native_bin(crate):
    d = layout(crate, True)
    cargo(d, ["build", "--offline", "-q", "--release", "--features", "native", "--bin", "hxbin"])
    return os.path.join(d, "target/release/hxbin")


def executor():
    b = os.path.join(R.BUILD, "llx", "llx")
    s = os.path.join(HERE, "llx.cpp")
    if not os.path.exists(b) or os.path.getmtime(b) < os.path.getmtime(s):
        os.makedirs(os.path.dirname(b), exist_ok=True)
        rc, out = R.sh(["g++", "-O2", "-std=c++17", "-o", b, s, "-lz3"])
        if rc:
            raise R.Fail("executor does not build: " + out[-800:])
    return b


def native(crate, name, hexin, timeout=60):
    rc, out = R.sh(["bash", "-c", 'ulimit -v 8000000; exec "$@"', "x", native_bin_cached(crate), name, hexin], timeout=timeout)
    return rc, out


_bins = {}


def native_bin_cached(crate):
    if crate not in _bins:
        _bins[crate] = native_bin(crate)
    return _bins[crate]


def judge(crate, name, hexin):
    """what the real code does on these inputs: None if nothing is wrong"""
    rc, out = native(crate, name, hexin)
    if rc == -999:
        return "does not terminate within 60 s"
    if "SKIP" in out:
        return None
    m = re.findall(r"(?m)^FAILED (.*)$", out)
    if m:
        return "; ".join(m[:3])
    m = re.findall(r"(?m)^PANIC (.*)$", out)
    if m:
        return None if name.endswith("_mp") else "panics: " + m[0]
    if rc:
        return f"dies with status {rc}: {out[-200:]}"
    return None


LABEL = {"panic": "no panic", "steps": "terminates", "mem": "memory safety", "alloc": "allocation in proportion to the input", "unreachable": "memory safety"}


def demangle(n):
    m = re.match(r"_ZN(.*)17h[0-9a-f]{16}E$", n)
    if not m:
        return None
    s, out = m.group(1), []
    while s and s[0].isdigit():
        k = re.match(r"\d+", s)[0]
        out.append(s[len(k):len(k) + int(k)])
        s = s[len(k) + int(k):]
    t = "::".join(out)
    for a, b in (("$LT$", "<"), ("$GT$", ">"), ("$u20$", " "), ("..", "::"), ("$RF$", "&"), ("$C$", ","), ("$u7b$", "{"), ("$u7d$", "}")):
        t = t.replace(a, b)
    return t


def run(prop, tier, seed):
    crate, names = table()[prop]
    if tier == "quick":
        names = [n for n in names if "_deep" not in n]
    t0 = time.time()
    ll = ir(crate)
    ex = executor()
    tb = time.time() - t0
    lim = LIMITS.get(prop, {}).get(tier, {})
    out = os.path.join(R.BUILD, "llx", prop + ".jsonl")
    secs = lim.get("secs", 300 if tier == "quick" else 5400)
    env = dict(R.ENV)
    if lim.get("fmt"):
        env["LLX_FMT"] = "1"
    p = subprocess.run([ex, ll, out, str(secs), "8", str(lim.get("paths", 40000 if tier == "quick" else 2000000)), str(lim.get("steps", 5000000)), str(lim.get("alloc", 4096))] + names,
                       stdout=subprocess.PIPE, stderr=subprocess.PIPE, env=env, timeout=secs + 600)
    try:
        st = json.loads(p.stdout.decode())
    except ValueError:
        raise R.Fail("executor died: " + p.stderr.decode()[-500:])
    recs = []
    for l in open(out):
        try:
            recs.append(json.loads(l))
        except ValueError:
            pass
    ends, found, notes, tried = {}, [], [], {}
    for r in recs:
        ends[r["t"]] = ends.get(r["t"], 0) + 1
    tj = time.time()
    for r in recs:
        t, h = r["t"], r["h"]
        if t in ("done", "assume", "failed"):
            continue
        if t in ("unsup", "limit", "unknown"):
            notes.append(f"{h}: {t}: {r['m'][:160]} {r.get('at', '')[:160]}")
            continue
        if t == "panic" and h.endswith("_mp"):
            continue
        label = r["m"] if t == "viol" else LABEL[t]
        if t == "alloc" and "_alloc" not in h:
            # sizes above the bound are outside it unless the harness is about them
            notes.append(f"{h}: path with an allocation above {lim.get('alloc', 4096)} bytes not followed")
            continue
        k = (h, label, r["m"] if t != "alloc" else "")
        if len(found) >= 12 or (found and time.time() - tj > 100) or tried.get(k, 0) >= 3 or any((f["case"], f["label"], f["message"]) == k for f in found):
            continue
        tried[k] = tried.get(k, 0) + 1
        what = judge(crate, h, r["in"])
        if what:
            found.append(dict(case=h, label=label, what=what, message=k[2], assign={"input": r["in"]}, seed=seed, engine="llx", crate=crate))
        else:
            notes.append(f"{h}: {label}: {r['m'][:100]}: not confirmed by the real code (input {r['in'][:200]})")
    # the executor against the compiled code: one input per finished path
    done = [r for r in recs if r["t"] == "done"]
    import random
    rnd = random.Random(seed)
    pick = done if tier == "thorough" and len(done) < 4000 else rnd.sample(done, min(len(done), 60))
    okc = 0
    for r in pick:
        rc, txt = native(crate, r["h"], r["in"])
        marks = re.findall(r"(?m)^MARK (\d+)$", txt)
        bad = re.findall(r"(?m)^(?:FAILED|PANIC) .*$", txt)
        if "DONE" in txt and not bad and marks == r.get("marks", []):
            okc += 1
        elif bad and "DONE" in txt:
            if not any(f["case"] == r["h"] for f in found):
                found.append(dict(case=r["h"], label="native run", what="; ".join(bad[:2]), message="", assign={"input": r["in"]}, seed=seed, engine="llx", crate=crate))
        else:
            notes.append(f"{r['h']}: compiled code and executor differ on {r['in'][:200]}: {txt[-200:]!r} {r.get('marks')}")
    seen = sorted({d for d in (demangle(l.strip()) for l in open(out + ".fns")) if d and d.startswith(("hx::", "<hx::")) and "::any::" not in d})
    miss = [n for n in names if not any(r["h"] == n for r in recs)]
    notes += [f"{n}: no result" for n in miss]
    notes = list(dict.fromkeys(notes))
    if len(miss) == len(names):
        raise R.Fail("no harness gave a result")
    stats = dict(obligations=max(1, st["asserts"] + len(done)), harnesses=len(names), paths=st["paths"], path_ends=ends, instructions=st["insts"], queries=st["queries"], solver_s=st["solver_s"],
                 unknown=st["unknown"], solver="z3 4.8.12 (QF_BV)", discharged=max(0, st["asserts"] + len(done) - len(found)), stopped=bool(st["stopped"]), build_s=round(tb, 1),
                 functions_executed=seen[:200], traces_validated_against_impl=okc)
    return found, notes, stats


# limits per property: secs, paths, steps per path, alloc (bytes assumed enough for an allocation whose size the input chooses)
LIMITS = {
    "P11": {"quick": dict(secs=150), "thorough": {}},
    "P19": {"quick": dict(fmt=True), "thorough": dict(fmt=True)},
    "P21": {"quick": dict(steps=300000, secs=150), "thorough": dict(steps=300000)},
    "P22": {"quick": dict(steps=300000, secs=120), "thorough": dict(steps=300000)},
}


def replay(f):
    w = judge(f["crate"], f["case"], f["assign"]["input"])
    return "REPRODUCED " + w if w else "not reproduced"


def setup():
    executor()
    for c in crates():
        ir(c)
        native_bin(c)
