#!/usr/bin/env python3
"""run.py PROPERTY [quick|thorough]      decide one property on /repo's current tree
   run.py --replay FILE                  run a recorded counterexample against the real code
   run.py --setup                        build everything once

exit 0: nothing violated; exit 1 with a VIOLATION line; exit 2: the check could not run."""
import fcntl, json, os, re, subprocess, sys, time

HERE = os.path.dirname(os.path.abspath(__file__))
VERIF = os.path.dirname(HERE)
sys.path.insert(0, HERE)
BUILD = os.environ.get("VERIF_BUILD", os.path.join(VERIF, "build"))
REPO = os.environ.get("VERIF_REPO", "/repo")
import bounds  # noqa: E402

ENV = dict(os.environ, RUSTUP_TOOLCHAIN="1.88.0", CARGO_NET_OFFLINE="true", CARGO_TERM_COLOR="never")
ENV.pop("CARGO_TARGET_DIR", None)


class Fail(Exception):
    pass


def log(*a):
    print(*a, file=sys.stderr, flush=True)


def sh(cmd, cwd=None, env=None, timeout=None):
    try:
        p = subprocess.run(cmd, cwd=cwd, env=env or ENV, timeout=timeout, stdout=subprocess.PIPE, stderr=subprocess.STDOUT,
                           stdin=subprocess.DEVNULL)
        return p.returncode, p.stdout.decode(errors="replace")
    except subprocess.TimeoutExpired as e:
        return -999, (e.stdout or b"").decode(errors="replace")


# ------------------------------------------------------------------ engine A

def build_a():
    t = time.time()
    rc, out = sh([sys.executable, os.path.join(VERIF, "engine/gen.py")])
    if rc:
        raise Fail("layout failed: " + out[-2000:])
    procs = []
    for mode in ("sym", "real"):
        procs.append((mode, subprocess.Popen(["cargo", "build", "--release", "--offline", "-q", "-p", "harness"],
                                             cwd=os.path.join(BUILD, mode), env=ENV, stdout=subprocess.PIPE,
                                             stderr=subprocess.STDOUT, stdin=subprocess.DEVNULL)))
    for mode, p in procs:
        out = p.communicate()[0].decode(errors="replace")
        if p.returncode:
            errs = "\n".join(re.findall(r"(?m)^error.*(?:\n.*){0,6}", out)[:8])
            raise Fail(f"{mode} build failed:\n{errs}")
    return time.time() - t


def native(prop, reqs, timeout=300, extra=None):
    """runs the real code on requests; a crash of the process is reported as such"""
    d = os.path.join(BUILD, "run")
    os.makedirs(d, exist_ok=True)
    rq = os.path.join(d, f"{prop}.{os.getpid()}.req.json")
    out = os.path.join(d, f"{prop}.{os.getpid()}.res.json")
    with open(rq, "w") as f:
        json.dump(reqs, f)
    if os.path.exists(out):
        os.unlink(out)
    env = dict(ENV)
    env.update(extra or {})
    rc, txt = sh([os.path.join(BUILD, "real/target/release/harness"), prop, out, rq], env=env, timeout=timeout)
    res = None
    if os.path.exists(out):
        res = json.load(open(out))
        os.unlink(out)
    os.unlink(rq)
    return rc, res, txt[-600:]


def judge(prop, cand):
    """replays one candidate in a fresh process; returns a description of the failure or None"""
    req = {"case": cand["case"], "seed": cand.get("seed", 1), "assign": cand.get("assign", {})}
    rc, res, txt = native(prop, [req], timeout=120)
    if rc == -999:
        return "does not terminate within 120 s"
    if rc != 0 or not res:
        return f"process died (status {rc}): {txt.strip()[-300:]}"
    r = res[0]
    if r["failures"]:
        return "; ".join(r["details"][:3] or r["failures"][:3])
    if r["panic"] and "assumption does not hold" not in r["panic"]:
        return "panic: " + r["panic"]
    return None


def symbolic(prop, tier, seed):
    """the symbolic run, its cases spread over all processors"""
    d = os.path.join(BUILD, "run")
    os.makedirs(d, exist_ok=True)
    n = max(1, min(8, os.cpu_count() or 1))
    limit = 420 if tier == "quick" else 14400
    ps = []
    for i in range(n):
        out = os.path.join(d, f"{prop}.{os.getpid()}.{i}.sym.json")
        if os.path.exists(out):
            os.unlink(out)
        env = dict(ENV, VERIF_TIER=tier, VERIF_SEED=str(seed), SX_SHARD=f"{i}/{n}", SX_SECS=str(limit - 60))
        logf = open(out + ".log", "w+")
        ps.append((out, logf, subprocess.Popen([os.path.join(BUILD, "sym/target/release/harness"), prop, out], env=env, cwd=d,
                                               stdin=subprocess.DEVNULL, stdout=logf, stderr=logf)))
    end = time.time() + limit
    reps, bad, stuck = [], [], []
    for out, logf, p in ps:
        try:
            rc = p.wait(max(1, end - time.time()))
        except subprocess.TimeoutExpired:
            p.kill()
            p.wait()
            rc = -999
        if rc or not os.path.exists(out):
            logf.seek(0)
            cur = open(out + ".cur").read() if os.path.exists(out + ".cur") else "?"
            bad.append(f"symbolic run ended with status {rc} in case {cur}: {logf.read()[-800:]}")
            stuck.append(cur)
        else:
            reps.append(json.load(open(out)))
            os.unlink(out)
        logf.close()
        os.unlink(out + ".log")
        if os.path.exists(out + ".cur"):
            os.unlink(out + ".cur")
    if not reps:
        reps = [{"cases": [], "candidates": [], "inconclusive": [], "obligations": 0, "paths": 0, "forks": 0, "constants": 0,
                 "generic_assumptions": 0, "solver": {"name": "-", "queries": 0, "unsat": 0, "sat": 0, "unknown": 0, "secs": 0, "bytes": 0}}]
    rep = reps[0]
    rep["errors"], rep["stuck"] = bad, stuck
    for r in reps[1:]:
        for k, v in r.items():
            if isinstance(v, (list, int, float)):
                rep[k] += v
            elif k == "solver":
                for kk, x in v.items():
                    if not isinstance(x, str):
                        rep["solver"][kk] += x
    rep["cases"].sort(key=lambda c: c["case"])
    rep["candidates"] = rep["candidates"][:60]
    return rep


def engine_a(prop, tier, seed):
    secs = build_a()
    rep = symbolic(prop, tier, seed)
    found, notes = [], list(rep["inconclusive"])
    # a case the symbolic run did not survive: does the real code?
    for cur in rep["stuck"]:
        what = judge(prop, {"case": cur, "seed": seed})
        if what:
            found.append({"case": cur, "label": "does not return", "what": what, "assign": {}, "seed": seed, "engine": "lifted"})
    seen = set()
    for c in rep["candidates"]:
        c["seed"] = seed
        what = judge(prop, c)
        if what is not None and (c["case"], what) in seen:
            continue
        seen.add((c["case"], what))
        if what is None:
            notes.append(f"counterexample not confirmed by the real code: {c['case']}: {c['label']}")
        else:
            found.append({"case": c["case"], "label": c["label"], "what": what, "assign": c["assign"], "seed": seed,
                          "engine": "lifted", "message": c.get("message", "")})
    # the lifted execution against the real code, at the evaluation point
    traces = [c for c in rep["cases"] if c["obs"]]
    ok = 0
    bad = {f["case"] for f in found}
    reqs = [{"case": c["case"], "seed": seed, "assign": {}} for c in traces]
    rc, res, txt = native(prop, reqs) if reqs else (0, [], "")
    if res is None:
        notes.append(f"native validation run died ({rc}): {txt[-200:]}")
        res = []
        for r in reqs:
            if r["case"] in bad:
                continue
            w = judge(prop, r)
            if w and not w.startswith("does not"):
                found.append({"case": r["case"], "label": "native run", "what": w, "assign": {}, "seed": seed, "engine": "lifted"})
                break
    by = {r["case"]: r for r in res}
    for c in traces:
        r = by.get(c["case"])
        if r is None:
            continue
        if r["panic"] and "assumption does not hold" in r["panic"]:
            continue
        if r["failures"] and c["case"] not in bad:
            found.append({"case": c["case"], "label": r["failures"][0], "what": "; ".join(r["details"][:3] or r["failures"][:3]),
                          "assign": {}, "seed": seed, "engine": "lifted (native validation)"})
            bad.add(c["case"])
        elif r["obs"] == c["obs"] and not r["panic"]:
            ok += 1
        elif c["case"] not in bad:
            notes.append(f"lifted and real execution differ in {c['case']}: {c['obs']} {r['obs']} {r['panic']}")
    s = rep["solver"]
    stats = {
        "obligations": rep["obligations"], "discharged": rep["obligations"] - len(rep["candidates"]) - len(rep["inconclusive"]),
        "symbolic_cases": len(rep["cases"]), "symbolic_paths": rep["paths"], "forks": rep["forks"],
        "generic_assumptions": rep["generic_assumptions"],
        "solver": s["name"], "queries": s["queries"], "unsat": s["unsat"], "sat": s["sat"], "unknown": s["unknown"],
        "solver_s": round(s["secs"], 3), "solver_bytes": s["bytes"],
        "traces_validated_against_impl": ok, "build_s": round(secs, 1),
        "largest_cases": sorted(({"case": c["case"], "paths": c["paths"], "obligations": c["obligations"], "terms": c["terms"],
                                  "secs": round(c["secs"], 3)} for c in rep["cases"]), key=lambda c: -c["terms"])[:6],
    }
    if rep["errors"] and not found:
        raise Fail("; ".join(rep["errors"]))
    notes += rep["errors"]
    if rep["obligations"] == 0 and not found:
        raise Fail("no obligation was generated")
    return found, notes, stats


# ------------------------------------------------------------------ driver

def known(prop):
    p = os.path.join(VERIF, "known_findings.json")
    if not os.path.exists(p):
        return []
    return [k for k in json.load(open(p)).get("findings", []) if k["property"] == prop]


def matches(k, f):
    return re.fullmatch(k["case"], f["case"]) and re.fullmatch(k["label"], f["label"]) and re.search(k.get("what_re", ""), f["what"])


ENGINES = {"a": engine_a}


def engines():
    for name in ("eng_llx", "eng_mir", "eng_pil"):
        try:
            m = __import__(name)
            ENGINES[m.KEY] = m.run
        except ModuleNotFoundError as e:
            if name not in str(e):
                raise
    return ENGINES


def main():
    a = sys.argv[1:]
    if a[:1] == ["--replay"]:
        f = json.load(open(a[1]))
        if f["engine"].startswith("lifted"):
            build_a()
            w = judge(f["property"], f)
            print("REPRODUCED " + w if w else "not reproduced")
            sys.exit(1 if w else 0)
        m = sys.modules[engines()[{"ir": "m", "llx": "d", "pil": "p"}[f["engine"]]].__module__]
        w = m.replay(f)
        print(w)
        sys.exit(0 if w.startswith("not") else 1)
    if a[:1] == ["--setup"]:
        build_a()
        for e, fn in engines().items():
            m = sys.modules.get(fn.__module__)
            if hasattr(m, "setup"):
                m.setup()
        return
    prop = a[0]
    tier = a[1] if len(a) > 1 else os.environ.get("VERIF_TIER", "quick")
    seed = int(os.environ.get("VERIF_SEED", "1") or 1)
    os.makedirs(BUILD, exist_ok=True)
    lock = open(os.path.join(BUILD, ".lock"), "w")
    fcntl.flock(lock, fcntl.LOCK_EX)
    t0 = time.time()
    info = bounds.PROPS[prop]
    found, notes, stats, errors = [], [], {}, []
    engines()
    for e in info["engines"]:
        try:
            f, n, s = ENGINES[e](prop, tier, seed)
            found += f
            notes += n
            stats[e] = s
        except Fail as x:
            errors.append(f"engine {e}: {x}")
    ks = known(prop)
    news, olds = [], {}
    for f in found:
        k = next((k for k in ks if matches(k, f)), None)
        if k:
            olds.setdefault(k["id"], k)
        else:
            news.append(f)
    for k in olds.values():
        print(f"KNOWN-FINDING: property={prop} {k['id']}: {k['what']}")
    rdir = os.path.join(BUILD, "replay")
    os.makedirs(rdir, exist_ok=True)
    for i, f in enumerate(news[:8]):
        f["property"] = prop
        path = os.path.join(rdir, f"{prop}.{i}.json")
        with open(path, "w") as o:
            json.dump(f, o, indent=1)
        print(f"  {f['case']}: {f['label']}: {f['what'][:400]}")
        print(f"VIOLATION property={prop} replay={path}")
    for n in notes[:20]:
        log("note:", n)
    for e in errors:
        log("error:", e)
    ev = {"property": prop, "tier": tier, "seed": seed, "level": info.get("level", "other"),
          "coverage": {
              "explanation": info["explain"], "functions_encoded": info["functions"], "bounds": info["bounds"][tier] if isinstance(info["bounds"], dict) else info["bounds"],
              "outside": info["outside"], "engines": stats, "inconclusive": notes[:200], "errors": errors,
              "known_findings_seen": sorted(olds)},
          "wall_s": round(time.time() - t0, 2), "violations": len(news),
          "assumptions": info.get("assumptions", [])}
    os.makedirs(os.path.join(VERIF, "evidence"), exist_ok=True)
    with open(os.path.join(VERIF, "evidence", prop + ".json"), "w") as o:
        json.dump(ev, o, indent=1)
    if news:
        sys.exit(1)
    if errors:
        sys.exit(2)
    ob = sum(s.get("obligations", 0) for s in stats.values())
    print(f"{prop}: held on {ob} obligations, {len(notes)} inconclusive, {ev['wall_s']} s")


if __name__ == "__main__":
    import run
    run.main()
