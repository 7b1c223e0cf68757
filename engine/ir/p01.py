"""P01: base-field arithmetic, decided on the compiler's IR of /repo/fields/src/field_gl.rs"""
import json, os, re, sys, time
from concurrent.futures import ProcessPoolExecutor
sys.path.insert(0, os.path.dirname(os.path.abspath(__file__)))
import z3
from llir import *
from common import *

P = 2**64 - 2**32 + 1
R = None            # the word that stands for 1, from Fr::one()
RI = None
MOD = {}


def val(raw):       # element a raw word denotes
    return raw * RI % P


def raw(x):
    return x * R % P


# each case: arguments (name, upper bound), and the specification: given the context, arguments and result (low word, high word)
# the list of (label, term): a term is ("zero mod p", Lin) or ("true", z3 or bool)
CANON, ANY = P - 1, 2**64 - 1


def lin(v):
    return v.e


def S(r):           # signed residue of smallest size
    r %= P
    return r if r <= P // 2 else r - P


def canon(lo, hi):
    return [("result is canonical", "le", lin(lo), P - 1), ("no value above 64 bits", "eq", lin(hi), 0)]


def prod(c, a, b):
    v = c.product(c.u(a), c.u(b), 128)
    return v.e


def arith(f):
    return lambda c, a, lo, hi: canon(lo, hi) + [("result is right modulo p", "mod", f(c, a, lo), 0)]


MUL = arith(lambda c, a, r: lin(r).scale(S(R)) - prod(c, a[0], a[1]))
ADD = arith(lambda c, a, r: lin(r) - lin(a[0]) - lin(a[1]))
DBL = arith(lambda c, a, r: lin(r) - lin(a[0]).scale(2))
SUB = arith(lambda c, a, r: lin(r) - lin(a[0]) + lin(a[1]))
NEG = arith(lambda c, a, r: lin(r) + lin(a[0]))
INT = arith(lambda c, a, r: lin(r).scale(S(R)) - lin(a[0]))
SAME = arith(lambda c, a, r: lin(r) - lin(a[0]))
CASES = {
    "w_mul": ([CANON, CANON], MUL),
    "w_op_mul": ([CANON, CANON], MUL),
    "w_square": ([CANON], arith(lambda c, a, r: lin(r).scale(S(R)) - prod(c, a[0], a[0]))),
    "w_add": ([CANON, CANON], ADD),
    "w_op_add": ([CANON, CANON], ADD),
    "w_add_self": ([CANON], DBL),
    "w_double": ([CANON], DBL),
    "w_sub": ([CANON, CANON], SUB),
    "w_op_sub": ([CANON, CANON], SUB),
    "w_sub_self": ([CANON], arith(lambda c, a, r: lin(r))),
    "w_negate": ([CANON], NEG),
    "w_op_neg": ([CANON], NEG),
    "w_frobenius": ([CANON, 3], SAME),
    "w_from_repr": ([ANY], "repr"),
    "w_from_raw_repr": ([ANY], "raw_repr"),
    "w_from_u64": ([CANON], arith(lambda c, a, r: lin(r) - lin(a[0]).scale(S(R)))),
    "w_into_repr": ([CANON], INT),
    "w_repr_from": ([CANON], INT),
    "w_as_int": ([CANON], INT),
    "w_to_u64": ([CANON], INT),
    "w_into_raw_repr": ([CANON], SAME),
    "w_is_zero": ([CANON], "is_zero"),
    "w_eq": ([CANON, CANON], "eq"),
    "n_cmp": ([CANON, CANON], "cmp"),
}
CONSTS = {"w_one": lambda: raw(1), "w_zero": lambda: 0, "w_const_one": lambda: raw(1), "w_const_zero": lambda: 0,
          "w_default": lambda: 0, "w_char": lambda: P, "w_num_bits": lambda: 64, "w_capacity": lambda: 63, "w_s": lambda: 32}


def expected(name, a):
    """the specification on concrete arguments, for replay; None = any panic is right"""
    v = [val(x) for x in a]
    n = name[2:]
    if n in ("mul", "op_mul"):
        return raw(v[0] * v[1])
    if n == "square":
        return raw(v[0] * v[0])
    if n in ("add", "op_add"):
        return raw(v[0] + v[1])
    if n in ("add_self", "double"):
        return raw(2 * v[0])
    if n in ("sub", "op_sub"):
        return raw(v[0] - v[1])
    if n == "sub_self":
        return 0
    if n in ("negate", "op_neg"):
        return raw(-v[0])
    if n == "frobenius":
        return a[0]
    if n == "from_repr":
        return (1 << 64) | raw(a[0]) if a[0] < P else 0
    if n == "from_raw_repr":
        return (1 << 64) | a[0] if a[0] < P else 0
    if n == "from_u64":
        return raw(a[0])
    if n in ("into_repr", "repr_from", "as_int", "to_u64"):
        return v[0]
    if n == "into_raw_repr":
        return a[0]
    if n == "is_zero":
        return int(a[0] == 0)
    if n == "eq":
        return int(a[0] == a[1])
    if n == "cmp":
        return 0 if v[0] < v[1] else 1 if v[0] == v[1] else 2
    if n == "inverse":
        return ((1 << 64) | raw(pow(v[0], P - 2, P))) if v[0] else 1 << 64
    if n == "div":
        return raw(v[0] * pow(v[1], P - 2, P)) if v[1] else 0
    if n in ("exp", "pow"):
        return raw(pow(v[0], a[1], P))
    return CONSTS[name]()


def goals(c, spec, a, r):
    """list of (label, [z3 formula of the negation])"""
    if not isinstance(spec, str):
        r = c.u(r)
        _, (l, ll, lh) = c.split(r, 64)
        (h, hl, hh), _ = c.split(r, 64)
        lo, hi = V(64, l, ll, lh), V(64, h, hl, hh)
        out = []
        for g in spec(c, a, lo, hi):
            out.append((g[0], formula(c, g)))
        return out
    z = lambda e: c.z(e)
    r = c.u(r)
    _, (l, ll, lh) = c.split(r, 64)
    (h, hl, hh), _ = c.split(r, 64)
    zr = z(r.e)
    if spec in ("repr", "raw_repr"):
        valid = z(a[0].e) < P
        k = S(R) if spec == "repr" else 1
        return [("accepts exactly the integers below p", z3.Not(z3.If(valid, z(h) == 1, z3.And(z(h) == 0, z(l) == 0)))),
                ("result is canonical", z3.And(valid, z(l) >= P)),
                ("result is right modulo p", z3.And(valid, formula(c, ("", "mod", l - a[0].e.scale(k), 0))))]
    if spec == "is_zero":
        return [("zero exactly for zero", z3.Not(zr == z3.If(z(a[0].e) == 0, 1, 0)))]
    if spec == "eq":
        return [("equal exactly when the words are", z3.Not(zr == z3.If(z(a[0].e) == z(a[1].e), 1, 0)))]
    if spec == "cmp":
        ia, ib = (c.ints[x.e.key()].e if x.e.key() in c.ints else None for x in a)
        if ia is not None and ib is not None:
            d = z(ia - ib)
            return [("ordered by value", z3.Not(zr == z3.If(d < 0, 0, z3.If(d == 0, 1, 2))))]
        # the order is that of the values: x = a/R
        x, y = c.var(0, P - 1), c.var(0, P - 1)
        m, n = c.var(-2**66, 2**66), c.var(-2**66, 2**66)
        c.add(z(x.scale(S(R)) - a[0].e) == z(m.scale(P)))
        c.add(z(y.scale(S(R)) - a[1].e) == z(n.scale(P)))
        return [("ordered by value", z3.Not(zr == z3.If(z(x - y) < 0, 0, z3.If(z(x - y) == 0, 1, 2))))]
    raise Unsupported(spec)


def formula(c, g):
    _, kind, e, k = g
    if kind == "le":
        return c.z(e) > k
    if kind == "eq":
        return c.z(e) != k
    lo, hi = c.bounds(e)
    m = c.var(lo // P - 1, hi // P + 1)
    q = c.var(0, P - 1)
    c.add(c.z(e) == c.z(m.scale(P) + q))
    return c.z(q) != 0


def solve(c, f, timeout):
    """(status, model) of the path condition and f; z3's linear solver, first with equations eliminated"""
    for seed, tmo in ((0, timeout), (7, timeout // 2), (17, timeout // 2), (3, timeout)):
        s = z3.SolverFor("QF_LIA") if seed else z3.Solver()
        s.set("timeout", tmo)
        s.set("random_seed", seed)
        s.add(*c.cons)
        s.add(f)
        st.update(queries=st["queries"] + 1)
        t = time.time()
        r = s.check()
        st["secs"] += time.time() - t
        if r == z3.sat:
            return "sat", s.model()
        if r == z3.unsat:
            return "unsat", None
    return "unknown", None


st = {"queries": 0, "secs": 0.0, "unsat": 0, "sat": 0, "unknown": 0, "paths": 0}
ORDER = ["w_square", "w_to_u64", "w_repr_from", "w_into_repr", "w_as_int", "w_from_u64", "w_from_repr", "w_mul", "w_op_mul"]
POINTS = [1, 2, 3, 7, 2**31, 2**32 - 1, 2**32, 2**32 + 1, 2**63, P - 1, P - 2, P - 2**32, 2**64 - 2**32, 0xFFFFFFFE00000000, 0x123456789ABCDEF0,
          0, 4294967295 << 16, 0x8000000080000001, P // 3, P // 2 + 1]


def inputs(c, tops, fixed=None):
    out = []
    for i, t in enumerate(tops):
        if fixed and i in fixed:
            out.append(conc(64, fixed[i]))
        else:
            out.append(c.inp(64, f"a{i}", top=t))
    return out


def model_args(c, a, m):
    return [m.eval(c.z(x.e), model_completion=True).as_long() for x in a]


def check(job):
    name, kind, timeout = job
    global R, RI
    st.update(queries=0, secs=0.0, unsat=0, sat=0, unknown=0, paths=0)
    t0 = time.time()
    notes, cands, n = [], [], 0
    tops, spec = CASES[name]

    def attempt(fixed, tmo):
        nonlocal n
        sat = []
        for c, r in explore(lambda c: run_one(c, name, tops, fixed)):
            st["paths"] += 1
            a = c.args
            if isinstance(r, Panic):
                gs = [("does not panic: " + str(r)[:80], z3.BoolVal(True))]
            else:
                gs = goals(c, spec, a, r)
            for label, f in gs:
                n += 1
                res, m = solve(c, f, tmo)
                st[res] += 1
                if res == "unknown":
                    notes.append(f"{name} ({kind}): {label}: no answer within {tmo} ms")
                elif res == "sat":
                    sat.append((label, model_args(c, a, m)))
        return sat
    def confirmed(cs):
        """the counterexamples the real code confirms"""
        cs = [c for c in cs if len(c[3]) == len(tops)]
        got = native(MOD["bin"], [[c[0]] + c[3] for c in cs])
        return [c for c, x in zip(cs, got) if x != (expected(c[0], c[3]) if c[0] != "w_from_u64" or c[3][0] < P else "panic")]
    try:
        sat = attempt(None, timeout)
        if sat:
            first = [(name, kind, label, args) for label, args in sat]
            pts = [q for q in POINTS if q <= min(tops)]
            cands += confirmed(first) or confirmed([(name, kind, first[0][2], [x]) for x in pts] if len(tops) == 1
                                                   else [(name, kind, first[0][2], [x, y]) for x in pts for y in pts])
            # products are abstract: with one factor fixed every counterexample is real
            for q in pts if len(tops) > 1 else []:
                if cands or time.time() - t0 > 200:
                    break
                cands += confirmed([(name, kind, label, args) for label, args in attempt({len(tops) - 1: q}, 10000)])
            cands = cands or first
    except Unsupported as e:
        notes.append(f"{name} ({kind}): not encodable: {e}")
    return dict(name=name, kind=kind, obligations=n, notes=notes, cands=cands, st=dict(st), secs=round(time.time() - t0, 2))


def run_one(c, name, tops, fixed):
    a = inputs(c, tops, fixed)
    c.args = a
    c.ints = {}

    def into_repr(ex, fn, args):
        # the integer value of an element: proved right by w_into_repr; here one word per element
        p = args[-1]
        x = ex.load(p, ("i", 64)) if isinstance(p, Ptr) else p
        k = x.e.key()
        if k not in c.ints:
            c.ints[k] = c.inp(64, f"i{len(c.ints)}", top=P - 1)
        if len(args) == 2:
            return ex.store(args[0], ("i", 64), c.ints[k])
        return c.ints[k]
    return Exec(MOD["m"], c, [(r"field_ni\.\..*PrimeField.*9into_repr17h", into_repr)]).call(name, a)


# ------------------------------------------------------------------ multiplication chains: exponents

class Chain:
    """runs a function whose multiplications are intercepted; every value is a power of the arguments"""

    def __init__(self, c):
        self.c = c

    def power(self, exps):
        v = self.c.inp(64, f"m{len(self.c.vars)}", top=P - 1)
        v.tag = ("pow", exps)
        self.c.pows.append(v)
        return v

    def exps(self, v):
        if isinstance(v, V):
            if v.tag and v.tag[0] == "pow":
                return v.tag[1]
            k = self.c.const(v)
            if k == R:
                return ()
        raise Unsupported("a factor that is not a power of the arguments")

    @staticmethod
    def mul(x, y):
        d = dict(x)
        for k, n in y:
            d[k] = d.get(k, 0) + n
        return tuple(sorted((k, n) for k, n in d.items() if n))

    def hook(self, ex, name, args):
        ps = [a for a in args]
        loadv = lambda p: ex.load(p, ("i", 64)) if isinstance(p, Ptr) else p
        x = self.exps(loadv(ps[0]))
        y = self.exps(loadv(ps[1])) if len(ps) > 1 else x
        ex.store(ps[0], ("i", 64), self.power(self.mul(x, y)))


def chains(timeout):
    """inverse, quotient, exp, pow: exponents of the result"""
    out = []
    powers = sorted({0, 1, 2, 3, 4, 5, 7, 8, 10, 2**31, 2**32, 2**32 - 1, 2**63, 2**64 - 1, P, P - 1, P - 2, (P - 1) // 2}
                    | {1 << k for k in range(64)} | {(1 << k) - 1 for k in range(64)} | {0xAAAAAAAAAAAAAAAA, 0x5555555555555555})
    jobs = [("n_inverse", [None], (("a", P - 2),)), ("n_div", [None, None], (("a", 1), ("b", P - 2)))]
    jobs += [(f, [None, e], (("a", e),)) for f in ("n_exp", "n_pow") for e in powers]
    st.update(queries=0, secs=0.0, unsat=0, sat=0, unknown=0, paths=0)
    notes, cands, n = [], [], 0
    for name, args, want in jobs:
        want = tuple((k, e) for k, e in want if e)

        def run(c):
            c.pows = []
            ch = Chain(c)
            a = []
            for i, x in enumerate(args):
                if x is None:
                    v = ch.power((("ab"[i], 1),))
                    c.add(c.z(v.e) != 0)
                    a.append(v)
                else:
                    a.append(conc(64, x))
            ex = Exec(MOD["m"], c, [(r"field_ni\.\..*Field.*10mul_assign17h", ch.hook), (r"field_ni\.\..*Field.*6square17h", ch.hook)])
            r = ex.call(name, a)
            rr = c.u(r)
            _, (l, ll, lh) = c.split(rr, 64)
            (h, hl, hh), _ = c.split(rr, 64)
            for k, v in list(enumerate(c.pows)):
                if Lin(dict(v.e.t), v.e.c).key() == l.key():
                    return ("pow", v.tag[1], (hl, hh))
            if not l.t and l.c == R:
                return ("pow", (), (hl, hh))
            return ("other", str(l.key())[:80], (hl, hh))
        try:
            for c, r in explore(run):
                st["paths"] += 1
                n += 1
                args_now = [5 if x is None else x for x in args]
                if isinstance(r, Panic):
                    cands.append((("w" + name[1:]), "chain", f"panics: {r}", args_now))
                elif r[0] != "pow" or red(r[1]) != red(want) or r[2] != ((1, 1) if name == "n_inverse" else (0, 0)):
                    cands.append((("w" + name[1:]), "chain", f"exponents {r[1]}, expected {want}", args_now))
        except Unsupported as e:
            notes.append(f"{name} {args}: not encodable: {e}")
    return dict(name="chains", kind="chain", obligations=n, notes=notes[:20], cands=cands[:200], st=dict(st), secs=0)


def red(w):
    """exponents of nonzero elements matter modulo p-1"""
    return tuple((k, e % (P - 1)) for k, e in w if e % (P - 1))


def closure(m, name):
    """text of a function and of everything it calls"""
    seen, todo, out = set(), [name], []
    while todo:
        n = todo.pop()
        n = m.alias.get(n, n)
        if n in seen or n not in m.fn:
            continue
        seen.add(n)
        t = "\n".join(x for l in m.fn[n]["order"] for x in m.fn[n]["blocks"][l])
        todo += [x.strip('"') for x in re.findall(r'@("[^"]+"|[\w.$]+)\(', t)]
        out.append(re.sub(r", ?![\w.]+ ![\w.]+|, !\w+|#\d+|17h[0-9a-f]{16}E|@alloc_[0-9a-f]+", "", t))
    return out


def load_mod(kind):
    MOD["m"] = Module(MOD["text"][kind])


def worker(job):
    if job[0] == "chains":
        load_mod("release")
        r = chains(job[2])
    else:
        load_mod(job[1])
        r = check(job)
    return r


def main():
    global R, RI
    out, tier = sys.argv[1], sys.argv[2]
    timeout = 60000 if tier == "quick" else 600000
    t0 = time.time()
    src = open(os.path.join(REPO, "fields/src/field_gl.rs")).read()
    ni = re.sub(r"(?m)^(\s*)((?:#\[inline[^\]]*\]\s*)*)((?:pub )?fn (?:mul_assign|square|into_repr)\()", r"\1#[inline(never)]\n\1\3", src)
    ni = ni.split("#[cfg(test)]")[0]
    d = layout("crate", {"field_ni.rs": ni})
    MOD["text"] = {"release": ir(d, "release")}
    MOD["text"]["checked"] = ir(d, "checked")
    binp = MOD["bin"] = binary(d)
    build = time.time() - t0
    if len(sys.argv) > 3:           # replay
        name, args = sys.argv[3], [int(x) for x in sys.argv[4:]]
        R = native(binp, [["w_one"]])[0]
        RI = pow(R, P - 2, P)
        got, want = native(binp, [[name] + args])[0], expected(name, args)
        print("REPRODUCED" if got != want else "not reproduced", got, want)
        sys.exit(got != want)
    R = native(binp, [["w_one"]])[0]
    RI = pow(R, P - 2, P) if isinstance(R, int) else 0
    found, notes, ob, shared = [], [], 0, []
    tot = {"queries": 0, "secs": 0.0, "unsat": 0, "sat": 0, "unknown": 0, "paths": 0}
    # constants
    ks = list(CONSTS)
    for k, got in zip(ks, native(binp, [[k] for k in ks])):
        ob += 1
        if got != CONSTS[k]():
            found.append(dict(case=k, label="constant", what=f"{got}, expected {CONSTS[k]()}", assign={"args": []}))
    gen, root = native(binp, [["w_generator"], ["w_root"]])
    g = val(gen)
    for f in (2, 3, 5, 17, 257, 65537):
        ob += 1
        if pow(g, (P - 1) // f, P) == 1:
            found.append(dict(case="w_generator", label="generates the multiplicative group", what=f"order divides (p-1)/{f}", assign={"args": []}))
    if pow(val(root), 2**31, P) != P - 1:
        found.append(dict(case="w_root", label="root of unity of order 2^32", what=str(root), assign={"args": []}))
    ob += 1
    # absent inverse of zero, decided by executing the code on zero
    extra = [("w_inverse", [0]), ("w_div", [raw(7), 0]), ("w_from_u64", [P]), ("w_from_u64", [2**64 - 1])]
    jobs = [("chains", "release", timeout)] + [(n, k, timeout) for k in ("release", "checked") for n in sorted(CASES, key=lambda n: ORDER.index(n) if n in ORDER else 99)]
    # a function whose checked IR is that of the release build is decided once
    a, b = Module(MOD["text"]["release"]), Module(MOD["text"]["checked"])
    same = {n for n in CASES if closure(a, n) == closure(b, n)}
    keep, seen = [], {}
    for j in jobs:
        if j[0] in CASES:
            if j[1] == "checked" and j[0] in same:
                continue
            k = (str(closure(a if j[1] == "release" else b, j[0])), str(CASES[j[0]][0]), id(CASES[j[0]][1]))
            if k in seen:
                shared.append((j[0], j[1], seen[k]))
                continue
            seen[k] = j[0]
        keep.append(j)
    jobs = keep
    res = []
    with ProcessPoolExecutor(8) as ex:
        for r in ex.map(worker, jobs):
            res.append(r)
    cands = []
    for r in res:
        ob += r["obligations"]
        notes += r["notes"]
        cands += r["cands"]
        for k in tot:
            tot[k] += r["st"][k]
    cands += [(n, "point", "absent or rejected", a) for n, a in extra]
    got = native(binp, [[c[0]] + c[3] for c in cands])
    seen = set()
    conf = set()
    for c, x in zip(cands, got):
        want = expected(c[0], c[3]) if c[0] != "w_from_u64" or c[3][0] < P else "panic"
        if x != want and (c[0]) not in seen:
            seen.add(c[0])
            found.append(dict(case=c[0], label=c[2] or "value", what=f"{c[0]}{tuple(c[3])} = {x}, expected {want}", assign={"args": c[3]}))
    for r in res:
        for c in r["cands"]:
            if c[2] and c[0] not in seen:
                notes.append(f"counterexample not confirmed by the real code: {c[:4]}")
    # the encoding against the real code, on concrete points
    load_mod("release")
    ok = 0
    reqs = []
    import random
    rnd = random.Random(int(os.environ.get("VERIF_SEED", "1") or 1))
    for n, (tops, _) in CASES.items():
        for _ in range(6):
            a = [rnd.choice(POINTS + [rnd.getrandbits(64)]) for _ in tops]
            a = [x if x <= t else t for x, t in zip(a, tops)]
            reqs.append([n] + a)
    reqs += [["w_inverse", 12345], ["w_inverse", 0], ["w_exp", 77, 5]]
    for q, x in zip(reqs, native(binp, reqs)):
        try:
            v = Exec(MOD["m"], Ctx()).call(q[0], [conc(64, y) for y in q[1:]])
            v = v.lo & (2**128 - 1)
        except Panic:
            v = "panic"
        except Unsupported as e:
            notes.append(f"validation of {q}: {e}")
            continue
        if v == x:
            ok += 1
        else:
            notes.append(f"encoding and real code differ on {q}: {v} {x}")
    json.dump(dict(found=found, notes=notes, stats=dict(
        obligations=ob, discharged=tot["unsat"], solver="z3 " + z3.get_version_string(), queries=tot["queries"], unsat=tot["unsat"],
        sat=tot["sat"], unknown=tot["unknown"], solver_s=round(tot["secs"], 2), symbolic_paths=tot["paths"],
        traces_validated_against_impl=ok, build_s=round(build, 1),
        decided_with=[f"{x} ({k}): same code as {y}" for x, k, y in shared] + [f"{n}: same code with overflow checks" for n in sorted(same)],
        slowest=sorted(({"case": r["name"] + "/" + r["kind"], "secs": r["secs"], "obligations": r["obligations"]} for r in res), key=lambda r: -r["secs"])[:6])),
        open(out, "w"), indent=1)


if __name__ == "__main__":
    main()
