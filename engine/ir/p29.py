"""P29: the packed field operations, lane by lane, decided on the compiler's IR of /repo/fields/src/arch/x86_64"""
import json, os, re, sys, time, itertools, random
from concurrent.futures import ProcessPoolExecutor
sys.path.insert(0, os.path.dirname(os.path.abspath(__file__)))
import z3
import common
from llir import *
from common import *
import p01
from p01 import P, solve, formula, st, MOD

p01.R = 1
p01.RI = 1
VARIANTS = {
    "avx2": dict(type="Avx2GoldilocksField", lanes=4, flags="-C target-feature=+avx2", toolchain="1.88.0"),
    "avx512": dict(type="Avx512GoldilocksField", lanes=8, flags="-C target-feature=+avx512f,+avx512bw,+avx512cd,+avx512dq,+avx512vl", toolchain="1.98.1"),
}
U = 2**64 - 1


def ops(n):
    """name -> (top of a, top of b, expected lanes of o and of q as (kind, f)): field results, or moved words"""
    A, B = (lambda i: ("a", i)), (lambda i: ("b", i))
    add = lambda i: ("field", [(1, "a", i), (1, "b", i)])
    d = {}
    for k in ("add", "add_assign"):
        d[f"v_{k}"] = [("lin", [(1, "a", i), (1, "b", i)]) for i in range(n)]
    for k in ("add_scalar", "scalar_add", "add_assign_scalar"):
        d[f"v_{k}"] = [("lin", [(1, "a", i), (1, "b", 0)]) for i in range(n)]
    for k in ("sub", "sub_assign"):
        d[f"v_{k}"] = [("lin", [(1, "a", i), (-1, "b", i)]) for i in range(n)]
    for k in ("sub_scalar", "sub_assign_scalar"):
        d[f"v_{k}"] = [("lin", [(1, "a", i), (-1, "b", 0)]) for i in range(n)]
    d["v_scalar_sub"] = [("lin", [(-1, "a", i), (1, "b", 0)]) for i in range(n)]
    d["v_neg"] = [("lin", [(-1, "a", i)]) for i in range(n)]
    for k in ("mul", "mul_assign"):
        d[f"v_{k}"] = [("mul", ("a", i), ("b", i)) for i in range(n)]
    for k in ("mul_scalar", "scalar_mul", "mul_assign_scalar"):
        d[f"v_{k}"] = [("mul", ("a", i), ("b", 0)) for i in range(n)]
    d["v_square"] = [("mul", ("a", i), ("a", i)) for i in range(n)]
    d["v_reduce"] = [("lin", [(2**32 - 1, "a", i), (1, "b", i)]) for i in range(n)]
    d["v_from"] = [("word", "a", 0)] * n
    d["v_zeros"] = d["v_default"] = [("const", 0)] * n
    d["v_ones"] = [("const", 1)] * n
    d["v_roundtrip"] = [("word", "a", i) for i in range(n)]
    d["v_pack_slice"] = [("word", "a", i) for i in range(n)] + [("word", "b", i) for i in range(n)]
    for name, k in (("1", 1), ("2", 2), ("4", 4), ("_all", n)):
        if k > n:
            continue
        o, q = [], []
        for i in range(n):
            blk, off = divmod(i, k)
            if k == n:
                o.append(("word", "a", i))
                q.append(("word", "b", i))
            else:
                src = "a" if blk % 2 == 0 else "b"
                o.append(("word", src, (blk // 2 * 2) * k + off))
                q.append(("word", src, (blk // 2 * 2 + 1) * k + off))
        d[f"v_interleave{name}"] = o + q
    return d


def want(e, a, b):
    v = {"a": a, "b": b}
    if e[0] == "lin":
        return sum(k * v[x][i] for k, x, i in e[1]) % P
    if e[0] == "mul":
        return v[e[1][0]][e[1][1]] * v[e[2][0]][e[2][1]] % P
    if e[0] == "word":
        return v[e[1]][e[2]]
    return e[1]


def check(job):
    variant, name, tmo = job
    p01.R = p01.RI = 1
    MOD["m"] = MOD["mods"].setdefault(variant, Module(MOD["text"][variant]))
    n = VARIANTS[variant]["lanes"]
    spec = ops(n)[name]
    top = U if name in ("v_reduce",) else P - 1
    st.update(queries=0, secs=0.0, unsat=0, sat=0, unknown=0, paths=0)
    notes, cands, ob = [], [], 0
    t0 = time.time()
    pts = [q for q in p01.POINTS if q <= top]
    done = {}

    def attempt(fixed, tmo):
        nonlocal ob
        out = []

        def run(c):
            ex = Exec(MOD["m"], c)
            c.a = [c.inp(64, f"a{i}", top=top) for i in range(n)]
            c.b = [conc(64, fixed) if fixed is not None else c.inp(64, f"b{i}", top=top) for i in range(n)]
            ps = []
            for words in (c.a, c.b, None, None):
                p = Ptr(ex.alloc(), 0)
                for i in range(n):
                    ex.store(Ptr(p.o, 8 * i), ("i", 64), words[i] if words else conc(64, 0))
                ps.append(p)
            ex.call(name, ps)
            return [ex.load(Ptr(ps[2 + j].o, 8 * i), ("i", 64)) for j in (0, 1) for i in range(n)]
        for c, r in explore(run):
            st["paths"] += 1
            c.done = done
            v = {"a": c.a, "b": c.b}

            def args(m):
                return [m.eval(c.z(x.e), model_completion=True).as_long() for x in c.a + c.b]
            if isinstance(r, Panic):
                ob += 1
                s, m = solve(c, z3.BoolVal(True), tmo)
                if s == "sat":
                    out.append((f"does not panic: {r}", args(m)))
                continue
            for i, e in enumerate(spec):
                x = c.u(r[i])
                gs = []
                if e[0] in ("word", "const"):
                    y = v[e[1]][e[2]].e if e[0] == "word" else Lin({}, e[1])
                    d = x.e - y
                    if not d.t and d.c == 0:
                        ob += 1
                        st["unsat"] += 1
                        continue
                    gs.append((f"lane {i} is the word it should be", c.z(d) != 0))
                else:
                    if e[0] == "lin":
                        y = Lin()
                        for k, w, j in e[1]:
                            y = y + v[w][j].e.scale(k)
                    else:
                        y = c.product(c.u(v[e[1][0]][e[1][1]]), c.u(v[e[2][0]][e[2][1]]), 128).e
                    gs.append((f"lane {i} is canonical", c.z(x.e) >= P))
                    g = shrink(c, x.e - y)
                    lo, hi = c.bounds(g)
                    if hi // P - lo // P > 12:
                        gs.append((f"lane {i} is right modulo p", formula(c, ("", "mod", g, 0))))
                    else:
                        for k in range(lo // P, hi // P + 1):
                            gs.append((f"lane {i} is right modulo p", z3.And(c.z(g) > k * P, c.z(g) < (k + 1) * P)))
                for label, f in gs:
                    ob += 1
                    s, m = solve_lane(c, f, x, y if e[0] != "word" else None, tmo)
                    st[s] += 1
                    if s == "unknown":
                        notes.append(f"{variant} {name}: {label}: no answer")
                    elif s == "sat":
                        out.append((label, args(m)))
                        return out
        return out

    def confirmed(cs):
        if variant not in open("/proc/cpuinfo").read().replace("avx512f", "avx512"):
            return []
        got = native(MOD["bin"][variant], [[name] + c[1] for c in cs])
        return [(l, a, g) for (l, a), g in zip(cs, got) if bad(name, n, a, g)]
    try:
        sat = attempt(None, tmo)
        if sat:
            cands = confirmed(sat + [("", [x] * n + [y] * n) for x in pts for y in pts])
            for q in pts:
                if cands or time.time() - t0 > 120:
                    break
                cands = confirmed(attempt(q, 10000))
            if not cands:
                notes.append(f"counterexample not confirmed by the real code: {variant} {name}: {sat[0]}")
    except Unsupported as e:
        notes.append(f"{variant} {name}: not encodable: {e}")
    return dict(name=name, variant=variant, ob=ob, notes=notes, cands=cands, st=dict(st), secs=time.time() - t0)


def bad(name, n, a, got):
    if not isinstance(got, str) or "," not in got:
        return True
    g = [int(x) for x in got.split(",")]
    return any(g[i] != want(e, a[:n], a[n:]) for i, e in enumerate(ops(n)[name]))


def shrink(c, e):
    """a term congruent to e modulo p with small coefficients: words that were split into halves are replaced by the halves"""
    def red(e):
        t = {}
        for v, k in e.t.items():
            k %= P
            k = k - P if 2 * k > P else k
            if k:
                t[v] = k
        k = e.c % P
        return Lin(t, k - P if 2 * k > P else k)

    def size(e):
        lo, hi = c.bounds(e)
        return hi - lo
    eqs = []
    for k, v in c.memo.items():
        if k[0] == "split" and isinstance(v, tuple):
            eqs.append(Lin(dict(k[1][0]), k[1][1]) - v[0].scale(1 << k[2]) - v[1])
    e = red(e)
    best = size(e)
    moved = True
    while moved:
        moved = False
        for q in eqs:
            for v, k in q.t.items():
                if abs(k) == 1 and v in e.t:
                    n = red(e - q.scale(k * e.t[v]))
                    s = size(n)
                    if s < best:
                        e, best, moved = n, s, True
    return e


def solve_lane(c, f, x, y, tmo):
    """only the constraints the goal depends on: lanes are independent, and a lane that differs from one already decided only
    in the names of its variables is not decided again"""
    s = Slice(c, f)
    ren = {}
    key = re.sub(r"\b[a-zA-Z]\w*", lambda m: m.group(0) if m.group(0) in WORDS else ren.setdefault(m.group(0), f"x{len(ren)}"),
                 "|".join([f.sexpr()] + [k.sexpr() for k in s.cons]))
    if key not in c.done:
        r = solve(s, f, tmo)
        if r[0] != "unsat":
            return r
        c.done[key] = r
    return c.done[key]


WORDS = {"and", "or", "not", "ite", "let", "true", "false", "xor"}


class Slice:
    def __init__(self, c, f):
        names = lambda t: {str(v) for v in vars_of(t)}
        if not hasattr(c, "sup"):
            c.sup = {}
        cons = []
        for k in c.cons:
            i = k.get_id()
            if i not in c.sup:
                c.sup[i] = names(k)
            cons.append((c.sup[i], k))
        live, out, rest = names(f), [], cons
        while True:
            nxt, hit = [], False
            for s, k in rest:
                if s & live:
                    live |= s
                    out.append(k)
                    hit = True
                else:
                    nxt.append((s, k))
            rest = nxt
            if not hit:
                break
        self.cons = out


def vars_of(t):
    todo, seen, out = [t], set(), []
    while todo:
        x = todo.pop()
        if x.get_id() in seen:
            continue
        seen.add(x.get_id())
        if z3.is_const(x) and x.decl().kind() == z3.Z3_OP_UNINTERPRETED:
            out.append(x)
        todo += x.children()
    return out


def main():
    out, tier = sys.argv[1], sys.argv[2]
    MOD.update(text={}, bin={}, mods={})
    t0 = time.time()
    for v, i in VARIANTS.items():
        d = layout("crate_avx", dst=f"crate_{v}", subst={"@VARIANT@": v, "@TYPE@": i["type"], "@LANES@": str(i["lanes"])})
        common.ENV["RUSTUP_TOOLCHAIN"] = i["toolchain"]
        MOD["text"][v] = ir(d, "release", i["flags"])
        MOD["bin"][v] = binary(d, i["flags"])
    build = time.time() - t0
    if len(sys.argv) > 3:
        v, name = sys.argv[3].split("/")
        a = [int(x) for x in sys.argv[4:]]
        got = native(MOD["bin"][v], [[name] + a])[0]
        b = bad(name, VARIANTS[v]["lanes"], a, got)
        print("REPRODUCED" if b else "not reproduced", got)
        sys.exit(b)
    jobs = [(v, n, 60000 if tier == "quick" else 600000) for v, i in VARIANTS.items() for n in ops(i["lanes"])]
    jobs.sort(key=lambda j: "mul" not in j[1] and "square" not in j[1])
    found, notes, ob = [], [], 0
    tot = {"queries": 0, "secs": 0.0, "unsat": 0, "sat": 0, "unknown": 0, "paths": 0}
    rs = []
    with ProcessPoolExecutor(8) as ex:
        for r in ex.map(check, jobs):
            rs.append(r)
            ob += r["ob"]
            notes += r["notes"]
            for k in tot:
                tot[k] += r["st"][k]
            for l, a, g in r["cands"][:1]:
                n = VARIANTS[r["variant"]]["lanes"]
                found.append(dict(case=f"{r['variant']}/{r['name']}", label=l or "value",
                                  what=f"{a} gives {g}, expected {[want(e, a[:n], a[n:]) for e in ops(n)[r['name']]]}", assign={"args": a}))
    # the encoding against the real code
    ok, rnd = 0, random.Random(int(os.environ.get("VERIF_SEED", "1") or 1))
    cpu = open("/proc/cpuinfo").read().replace("avx512f", "avx512")
    for v, i in VARIANTS.items():
        if v not in cpu:
            continue
        m = Module(MOD["text"][v])
        n = i["lanes"]
        reqs = [[name] + [rnd.choice(p01.POINTS + [rnd.randrange(P)]) % P for _ in range(2 * n)] for name in ops(n) for _ in range(2)]
        for q, g in zip(reqs, native(MOD["bin"][v], reqs)):
            try:
                c = Ctx()
                e = Exec(m, c)
                ps = []
                for k in range(4):
                    p = Ptr(e.alloc(), 0)
                    for j in range(n):
                        e.store(Ptr(p.o, 8 * j), ("i", 64), conc(64, q[1 + k * n + j] if k < 2 else 0))
                    ps.append(p)
                e.call(q[0], ps)
                r = ",".join(str(c.const(c.u(e.load(Ptr(ps[2 + j].o, 8 * k), ("i", 64))))) for j in (0, 1) for k in range(n))
                if r == g:
                    ok += 1
                else:
                    notes.append(f"encoding and real code differ on {v} {q}: {r} {g}")
            except Unsupported as x:
                notes.append(f"validation of {v} {q[0]}: {x}")
    json.dump(dict(found=found, notes=notes, stats=dict(
        obligations=ob, discharged=tot["unsat"], solver="z3 " + z3.get_version_string(), queries=tot["queries"], unsat=tot["unsat"], sat=tot["sat"],
        unknown=tot["unknown"], solver_s=round(tot["secs"], 2), symbolic_paths=tot["paths"], traces_validated_against_impl=ok, build_s=round(build, 1),
        slowest=sorted(({"case": r["variant"] + "/" + r["name"], "secs": round(r["secs"], 1)} for r in rs), key=lambda r: -r["secs"])[:6])),
        open(out, "w"), indent=1)


if __name__ == "__main__":
    main()
