"""P25: the constraint program the compressor renders, against the gates it is meant to enforce.

The real `render` is run for each trace size and number of public inputs; the text it returns is read as a PIL program
(a namespace of constant and committed columns, intermediate polynomials, identities, public inputs, one connection) and
every identity becomes a polynomial over the cells of a row and of the next one. Each specified identity is paired with
a rendered one and the solver is asked for values where the two differ; what cannot be paired is searched for a row that
one of the two accepts and the other rejects, and that row is evaluated against the rendered text again."""
import json, os, random, re, subprocess, sys, time
import z3

P = 0xFFFFFFFF00000001
CIRC = [17, 15, 41, 16, 2, 28, 13, 13, 39, 18, 34, 20]


# ------------------------------------------------------------------ polynomials as expression trees
class E:
    """a polynomial: evaluates at a point and translates to the solver"""
    def __init__(self, op, *a):
        self.op, self.a = op, a
    def __add__(self, o): return E("+", self, lift(o))
    def __radd__(self, o): return E("+", lift(o), self)
    def __sub__(self, o): return E("-", self, lift(o))
    def __rsub__(self, o): return E("-", lift(o), self)
    def __mul__(self, o): return E("*", self, lift(o))
    def __rmul__(self, o): return E("*", lift(o), self)
    def ev(self, m, memo=None):
        memo = {} if memo is None else memo
        k = id(self)
        if k not in memo:
            if self.op == "n": r = self.a[0]
            elif self.op == "v": r = m[self.a[0]]
            else:
                x, y = self.a[0].ev(m, memo), self.a[1].ev(m, memo)
                r = x + y if self.op == "+" else x - y if self.op == "-" else x * y
            memo[k] = r % P
        return memo[k]
    def z(self, zs, memo):
        k = id(self)
        if k not in memo:
            if self.op == "n": r = z3.IntVal(self.a[0])
            elif self.op == "v":
                if self.a[0] not in zs: zs[self.a[0]] = z3.Int(self.a[0])
                r = zs[self.a[0]]
            else:
                x, y = self.a[0].z(zs, memo), self.a[1].z(zs, memo)
                r = x + y if self.op == "+" else x - y if self.op == "-" else x * y
            memo[k] = r
        return memo[k]
    def vars(self, memo=None):
        memo = {} if memo is None else memo
        k = id(self)
        if k not in memo:
            memo[k] = frozenset() if self.op == "n" else frozenset([self.a[0]]) if self.op == "v" else self.a[0].vars(memo) | self.a[1].vars(memo)
        return memo[k]


def lift(x): return x if isinstance(x, E) else E("n", x)
def V(n): return E("v", n)


# ------------------------------------------------------------------ the PIL text
class Bad(Exception):
    pass


TOK = re.compile(r"\s*(?:(0x[0-9a-fA-F]+|\d+)|(\w+)|(\*\*|.))")


class Prog:
    def __init__(self, text):
        text = re.sub(r"/\*.*?\*/", " ", re.sub(r"//[^\n]*", " ", text), flags=re.S)
        self.consts, self.ns, self.kind, self.defs, self.ids, self.pubs, self.conn, self.spaces = {}, None, {}, {}, [], {}, [], []
        for st in text.split(";"):
            if st.strip():
                self.statement(st.strip())
    def toks(self, s):
        out, i = [], 0
        s = s.rstrip()
        while i < len(s):
            m = TOK.match(s, i)
            if not m: raise Bad(f"cannot read {s[i:i+40]!r}")
            out.append(m)
            i = m.end()
        return out
    def statement(self, s):
        m = re.fullmatch(r"(?:let|constant)\s+%?(\w+)\s*(?::\s*\w+)?\s*=\s*(.*)", s, re.S)
        if m:
            self.consts[m[1]] = self.number(m[2])
            return
        m = re.fullmatch(r"namespace\s+(\w+)\s*\((.*)\)", s, re.S)
        if m:
            self.ns = m[1]
            self.spaces.append((m[1], self.number(m[2])))
            return
        m = re.fullmatch(r"pol\s+(constant|commit)\s+(.*)", s, re.S)
        if m:
            for d in m[2].split(","):
                k = re.fullmatch(r"\s*(\w+)\s*(?:\[\s*(\d+)\s*\])?\s*", d)
                if not k: raise Bad(f"declaration {s!r}")
                if (self.ns, k[1]) in self.kind: raise Bad(f"{k[1]} declared twice")
                self.kind[(self.ns, k[1])] = (m[1], int(k[2]) if k[2] else None)
            return
        m = re.fullmatch(r"public\s+(\w+)\s*=\s*([\w.]+)\s*(?:\[\s*(\d+)\s*\])?\s*\((.*)\)", s, re.S)
        if m:
            if m[1] in self.pubs: raise Bad(f"public {m[1]} declared twice")
            self.pubs[m[1]] = (self.col(m[2], int(m[3]) if m[3] else None), self.number(m[4]))
            return
        m = re.fullmatch(r"pol\s+(\w+)\s*=\s*(.*)", s, re.S)
        if m:
            if (self.ns, m[1]) in self.defs or (self.ns, m[1]) in self.kind: raise Bad(f"{m[1]} defined twice")
            self.defs[(self.ns, m[1])] = self.expr(m[2])
            return
        m = re.fullmatch(r"[\[{](.*)[\]}]\s*connect\s*[\[{](.*)[\]}]", s, re.S)
        if m:
            self.conn.append(tuple([t.strip() for t in re.split(r",", x)] for x in m.groups()))
            return
        if re.search(r"\b(in|is|connect)\b", s): raise Bad(f"unexpected argument {s[:60]!r}")
        if s.count("=") != 1: raise Bad(f"cannot read {s[:60]!r}")
        l, r = s.split("=")
        self.ids.append(self.expr(l) - self.expr(r) if r.strip() != "0" else self.expr(l))
    def number(self, s):
        e = self.expr(s)
        if e.vars(): raise Bad(f"not a constant: {s!r}")
        return self.num(e)
    def num(self, e):
        if e.op == "n": return e.a[0]
        x, y = self.num(e.a[0]), self.num(e.a[1])
        return x + y if e.op == "+" else x - y if e.op == "-" else x * y
    def expr(self, s):
        self.t, self.i = self.toks(s), 0
        e = self.sum()
        if self.i != len(self.t): raise Bad(f"cannot read {s[:60]!r}")
        return e
    def peek(self): return self.t[self.i][0].strip() if self.i < len(self.t) else ""
    def next(self):
        if self.i >= len(self.t): raise Bad("expression ends early")
        self.i += 1
        return self.t[self.i - 1]
    def sum(self):
        e = self.prod()
        while self.peek() in ("+", "-"):
            o = self.next()[0].strip()
            f = self.prod()
            e = E(o, e, f)
        return e
    def prod(self):
        e = self.unary()
        while self.peek() == "*":
            self.next()
            e = e * self.unary()
        return e
    def unary(self):
        if self.peek() == "-":
            self.next()
            return lift(0) - self.unary()
        e = self.atom()
        if self.peek() == "**":
            self.next()
            n, r = self.num(self.unary()), lift(1)
            for _ in range(n): r = r * e
            return self.fold(r)
        return e
    def fold(self, e): return e if e.vars() else lift(self.num(e))
    def atom(self):
        m = self.next()
        if m[1]: return lift(int(m[1], 0))
        if m[3] == "(":
            e = self.sum()
            if self.next()[0].strip() != ")": raise Bad("missing )")
            return e
        if m[3] == ":": return V(":" + self.next()[0].strip())
        if not m[2]: raise Bad(f"unexpected {m[0]!r}")
        n = m[2]
        if n in self.consts: return lift(self.consts[n])
        if self.peek() == ".":
            self.next()
            n += "." + self.next()[0].strip()
        ix = None
        if self.peek() == "[":
            self.next()
            ix = int(self.next()[1], 0)
            if self.next()[0].strip() != "]": raise Bad("missing ]")
        nx = self.peek() == "'"
        if nx: self.next()
        k = tuple(n.split(".")) if "." in n else (self.ns, n)
        if k in self.defs:
            return self.shift(self.defs[k]) if nx else self.defs[k]
        return V(self.col(n, ix) + ("'" if nx else ""))
    def shift(self, e):
        if e.op == "n": return e
        if e.op == "v":
            if e.a[0].endswith("'"): raise Bad("a row beyond the next one")
            return e if e.a[0].startswith(":") else V(e.a[0] + "'")
        return E(e.op, self.shift(e.a[0]), self.shift(e.a[1]))
    def col(self, n, ix):
        k = tuple(n.split(".")) if "." in n else (self.ns, n)
        if k not in self.kind: raise Bad(f"{n} is not declared")
        size = self.kind[k][1]
        if (size is None) != (ix is None) or (size is not None and not 0 <= ix < size): raise Bad(f"{n}[{ix}] is not a column")
        return f"{k[0]}.{k[1]}" + ("" if ix is None else f"[{ix}]")


# ------------------------------------------------------------------ what is meant
def cub(x, y):
    """product in F_p[X]/(X^3 - X - 1)"""
    c = [lift(0)] * 5
    for i in range(3):
        for j in range(3):
            c[i + j] = c[i + j] + x[i] * y[j]
    # X^3 = X + 1, X^4 = X^2 + X
    return [c[0] + c[3], c[1] + c[3] + c[4], c[2] + c[4]]


CUTS = []


def spec(n_publics):
    """(name, selector, output cell, identity without its selector)"""
    CUTS.clear()
    a = [V(f"Compressor.a[{i}]") for i in range(12)]
    b = [V(f"Compressor.a[{i}]'") for i in range(12)]
    C = [V(f"Compressor.C[{i}]") for i in range(12)]
    sel = lambda n: f"Compressor.{n}"
    out = []
    for i in range(n_publics):
        out.append((f"public input {i}", f"Global.L{i // 12 + 1}", f":pub{i}", a[i % 12] - V(f":pub{i}")))
    for g in range(4):
        k, x, y, w = (0 if g < 2 else 6), a[3 * g], a[3 * g + 1], a[3 * g + 2]
        out.append((f"gate {g}: qM x y + qL x + qR y + qO z + qC = 0", sel("GATE"), f"Compressor.a[{3 * g + 2}]", C[k + 3] * (x * y) + C[k] * x + C[k + 1] * y + C[k + 2] * w + C[k + 4]))
    s = []
    for i in range(12):
        t = a[i] + C[i]
        t7 = t * t * t * t * t * t * t
        # partial rounds raise only the first word to the seventh power
        s.append(t7 if i == 0 else t7 + V(sel("PARTIAL")) * (t - t7))
    for i in range(12):
        o = lift(0)
        for j in range(12):
            o = o + (CIRC[(j - i) % 12] + (8 if i == j == 0 else 0)) * s[j]
        out.append((f"Poseidon round, word {i}", sel("POSEIDON12"), f"Compressor.a[{i}]'", b[i] - o))
    x, y, z = ([(a[i] + C[i]) * C[9] for i in range(3)], [a[i] + C[i] for i in range(3, 6)], [(a[i] + C[i]) * C[10] for i in range(6, 9)])
    m = cub(x, y)
    for i in range(3):
        out.append((f"extension multiply-add, coefficient {i}", sel("CMULADD"), f"Compressor.a[{9 + i}]", a[9 + i] - (m[i] + z[i])))
    acc = b[0:3]
    for k in (3, 2, 1, 0):
        acc = [p + q for p, q in zip(cub(acc, b[3:6]), a[3 * k:3 * k + 3])]
        if k: CUTS.extend(acc)
    for i in range(3):
        out.append((f"degree-four evaluation, coefficient {i}", sel("EVPOL4"), f"Compressor.a[{6 + i}]'", b[6 + i] - acc[i]))
    return out


def fft_spec(kind):
    """the butterflies over three-word values, by the parameters the constants are filled from"""
    a = lambda k, i: V(f"Compressor.a[{3 * k + i}]")
    s, w, w2, inc = V("scale"), V("firstW"), V("firstW2"), V("incW")
    out = []
    for i in range(3):
        x = [a(k, i) for k in range(4)]
        if kind == 4:
            u, v = [x[0] + w2 * x[1], x[0] - w2 * x[1]], [x[2] + w2 * x[3], x[2] - w2 * x[3]]
            r = [u[0] + w * v[0], u[1] + w * (inc * v[1]), u[0] - w * v[0], u[1] - w * (inc * v[1])]
        else:
            r = [x[0] + w * x[1], x[0] - w * x[1], x[2] + w * (inc * x[3]), x[2] - w * (inc * x[3])]
        for k in range(4):
            out.append((f"{kind}-point FFT, value {k} word {i}", "Compressor.FFT4", f"Compressor.a[{3 * k + i}]'", V(f"Compressor.a[{3 * k + i}]'") - s * r[k]))
    return out


def fft_consts(kind):
    s, w, w2, inc = V("scale"), V("firstW"), V("firstW2"), V("incW")
    if kind == 4: c = [s, s * w2, s * w, s * (w * w2), s * (w * inc), s * (w * (w2 * inc)), 0, 0, 0]
    else: c = [0] * 6 + [s, s * w, s * (w * inc)]
    return {f"Compressor.C[{i}]": lift(x) for i, x in enumerate(c + [0, 0, 0])}


def subst(e, m, memo):
    k = id(e)
    if k not in memo:
        memo[k] = m.get(e.a[0], e) if e.op == "v" else e if e.op == "n" else E(e.op, subst(e.a[0], m, memo), subst(e.a[1], m, memo))
    return memo[k]


# ------------------------------------------------------------------ deciding
ST = dict(queries=0, solver_s=0.0, unknown=0)


def differ(x, y):
    """does the solver find values where the polynomials differ? unsat / sat / unknown"""
    zs, memo = {}, {}
    ST["queries"] += 1
    t = time.time()
    s = z3.Then(z3.With("simplify", som=True), "smt").solver()
    s.set("timeout", 60000)
    s.add(x.z(zs, memo) - y.z(zs, memo) != 0)
    r = str(s.check())
    ST["solver_s"] += time.time() - t
    if r == "unknown": ST["unknown"] += 1
    return r


def nodes(e, seen):
    """sub-expressions, inner ones first"""
    st = [(e, False)]
    out = []
    while st:
        n, done = st.pop()
        if done: out.append(n)
        elif id(n) not in seen:
            seen.add(id(n))
            st.append((n, True))
            if n.op in "+-*": st += [(n.a[0], False), (n.a[1], False)]
    return out


def same(x, y, cuts):
    """differ, after replacing equal parts of the two: each part of y listed in cuts (inner ones first) whose value at a
    point is some part's of x is shown equal to that part and becomes one new variable in both"""
    if not cuts: return differ(x, y)
    pt = Point(99)
    for k, c in enumerate(cuts):
        v = c.ev(pt)
        memo = {}
        c2 = subst_nodes(c, same.map, {})
        for n in nodes(x, set()):
            if n.op in "+-*" and n.ev(pt, memo) == v:
                if differ(subst_nodes(n, same.map, {}), c2) == "unsat":
                    f = V(f"cut {k}")
                    same.map[id(n)] = same.map[id(c)] = f
    return differ(subst_nodes(x, same.map, {}), subst_nodes(y, same.map, {}))


same.map = {}


def subst_nodes(e, m, memo):
    if id(e) in m: return m[id(e)]
    k = id(e)
    if k not in memo:
        memo[k] = E(e.op, subst_nodes(e.a[0], m, memo), subst_nodes(e.a[1], m, memo)) if e.op in "+-*" else e
    return memo[k]


class Point(dict):
    def __init__(self, seed):
        self.r = random.Random(seed)
    def __missing__(self, k):
        self[k] = self.r.randrange(P)
        return self[k]


def solve_for(e, t, m):
    """set t so that e is 0 at m, if e is linear in t"""
    v = []
    for x in (0, 1, 2):
        m[t] = x
        v.append(e.ev(m))
    k = (v[1] - v[0]) % P
    if k == 0 or (v[2] - v[1]) % P != k: return False
    m[t] = -v[0] * pow(k, -1, P) % P
    return True


def config(n_bits, n_pub, prog, ob):
    """violations of one configuration: (label, message, point or None)"""
    bad = []
    def need(c, label, msg, point=None):
        ob[0] += 1
        if not c: bad.append((label, msg, point))
    need([s for s in prog.spaces] == [("Global", 2 ** n_bits), ("Compressor", 2 ** n_bits)], "trace size", f"name spaces {prog.spaces}")
    rows = max(1, -(-n_pub // 12))
    want = {("Global", f"L{k + 1}"): ("constant", None) for k in range(rows)}
    want.update({("Compressor", n): ("constant", None) for n in ("PARTIAL", "POSEIDON12", "GATE", "CMULADD", "EVPOL4", "FFT4")})
    want.update({("Compressor", "S"): ("constant", 12), ("Compressor", "C"): ("constant", 12), ("Compressor", "a"): ("commit", 12)})
    need(prog.kind == want, "columns", f"declared columns differ: {sorted(set(map(str, prog.kind.items())) ^ set(map(str, want.items())))[:4]}")
    need(prog.pubs == {f"pub{i}": (f"Compressor.a[{i % 12}]", i // 12) for i in range(n_pub)}, "public inputs", f"public inputs {str(prog.pubs)[:200]}")
    conn = [(x.replace(" ", ""), y.replace(" ", "")) for l, r in prog.conn for x, y in zip(l, r)]
    need(len(prog.conn) == 1 and all(len(l) == len(r) for l, r in prog.conn) and sorted(conn) == sorted((f"a[{i}]", f"S[{i}]") for i in range(12)), "connections", f"connections {conn}")
    # every identity: its selector times what is meant; the FFT's, with the constants put in
    sp = [(n, V(s) * e, s, t, e) for n, s, t, e in spec(n_pub)]
    same.map = {}
    cuts = list(CUTS)
    ffts = {k: fft_spec(k) for k in (4, 2)}
    pt = Point(1)
    for v in ("firstW2",): pt[v] = pt["firstW"] ** 2 % P
    left = []
    vals = [e.ev(pt) for e in prog.ids]
    free = set(range(len(prog.ids)))
    fft_ids = [i for i, e in enumerate(prog.ids) if "Compressor.FFT4" in e.vars()]
    for n, full, s, t, e in sp:
        v = full.ev(pt)
        hit = next((i for i in sorted(free) if vals[i] in (v, (-v) % P) and i not in fft_ids), None)
        ob[0] += 1
        if hit is None:
            left.append((n, full, s, t, e))
            continue
        free.discard(hit)
        d = same(prog.ids[hit], full if vals[hit] == v else lift(0) - full, cuts if "EVPOL4" in s else [])
        if d != "unsat": bad.append(("undecided", f"{n}: {d}", None))
    for kind, fs in ffts.items():
        cs = fft_consts(kind)
        memo = {}
        ids = [subst(prog.ids[i], cs, memo) for i in fft_ids]
        iv = [x.ev(pt) for x in ids]
        rest = set(range(len(ids)))
        for n, s, t, e in fs:
            full = V(s) * e
            v = full.ev(pt)
            hit = next((i for i in sorted(rest) if iv[i] in (v, (-v) % P)), None)
            ob[0] += 1
            if hit is None:
                left.append((n, full, s, t, e, cs))
                continue
            rest.discard(hit)
            d = differ(ids[hit], full if iv[hit] == v else lift(0) - full)
            if d != "unsat": bad.append(("undecided", f"{n}: {d}", None))
        for i in rest: free.add(fft_ids[i])
        for i in set(range(len(ids))) - rest: free.discard(fft_ids[i])
    if not left and not (free - set(fft_ids)) and not (free & set(fft_ids)):
        return bad
    w = witness(n_pub, prog)
    if w: bad.append(w)
    else: bad.append(("undecided", f"{[x[0] for x in left][:4]} not among the rendered identities, {len(free)} left over, and no row tells the difference", None))
    return bad


SELS = ["GATE", "POSEIDON12", "CMULADD", "EVPOL4", "FFT4"]


def groups(n_pub):
    g = {}
    for n, s, t, e in spec(n_pub): g.setdefault(s, []).append((n, t, e))
    for k in (4, 2): g[f"FFT4 {k}"] = [(n, t, e) for n, _, t, e in fft_spec(k)]
    return g


def base_point(seed, g, eqs):
    m = Point(seed)
    m["firstW2"] = m["firstW"] ** 2 % P
    for s in SELS: m[f"Compressor.{s}"] = 0
    for i in range(1, 40): m[f"Global.L{i}"] = 0
    if g.startswith("FFT4"):
        for k, e in fft_consts(int(g[-1])).items(): m[k] = e.ev(m)
        m["Compressor.FFT4"] = 1
    elif g != "none": m[g] = 1
    m["Compressor.PARTIAL"] = seed % 2
    return m


def truth(eqs, m): return [n for n, _, e in eqs if e.ev(m) != 0]


def witness(n_pub, prog):
    """a row that one of the two accepts and the other rejects"""
    gs = groups(n_pub)
    gs["none"] = []
    for seed in range(2, 8):
        for g, eqs in gs.items():
            m = base_point(seed, g, eqs)
            if not all(solve_for(e, t, m) for n, t, e in eqs): continue
            if truth(eqs, m): continue
            r = [i for i, e in enumerate(prog.ids) if e.ev(m) != 0]
            if r: return ("identities", f"a row that satisfies {g} is rejected", dict(g=g, m=dict(m)))
            cells = sorted({t for _, t, _ in eqs} | {v for _, _, e in eqs for v in e.vars() if v.startswith("Compressor.a")})
            for t in cells:
                m2 = Point(seed)
                m2.update(m)
                m2[t] = (m2[t] + 1) % P
                if truth(eqs, m2) and all(e.ev(m2) == 0 for e in prog.ids):
                    return ("identities", f"a row that breaks {truth(eqs, m2)[0]} is accepted", dict(g=g, m=dict(m2)))
            # and rows built from the rendered identities
            m3 = base_point(seed, g, eqs)
            live = [e for e in prog.ids if e.ev(m3) != 0]
            used, ok = set(), True
            for e in live:
                for t in sorted(e.vars(), key=lambda v: (not v.endswith("'"), v)):
                    if (t.startswith("Compressor.a") or t.startswith(":")) and t not in used:
                        old = m3[t]
                        if solve_for(e, t, m3):
                            used.add(t)
                            break
                        m3[t] = old
                else:
                    ok = False
            if ok and all(e.ev(m3) == 0 for e in prog.ids) and truth(eqs, m3):
                return ("identities", f"a row that breaks {truth(eqs, m3)[0]} is accepted", dict(g=g, m=dict(m3)))
    return None


# ------------------------------------------------------------------ driver
def rendered(binary, confs):
    a = [str(x) for c in confs for x in c]
    p = subprocess.run([binary] + a, stdout=subprocess.PIPE, stderr=subprocess.PIPE, timeout=300)
    if p.returncode: return None, None, p.stderr.decode()[-400:]
    lines = p.stdout.decode().split("\n")
    n = int(lines[0].split()[1])
    consts, i, out = [int(x) for x in lines[1:1 + n]], 1 + n, {}
    while i < len(lines) and lines[i].startswith("P "):
        _, b, q, k = lines[i].split()
        out[(int(b), int(q))] = "\n".join(lines[i + 1:i + 1 + int(k)])
        i += 1 + int(k)
    return consts, out, None


def round_constants():
    t = open(os.path.join(os.path.dirname(os.path.abspath(__file__)), "../harness/src/gl_rc.rs")).read()
    return [int(x, 16) for x in re.findall(r"0x[0-9a-f]{1,16}", t[t.index("RC: [u64; 360]"):])][:360]


def confs(tier):
    if tier == "quick": return [(5, n) for n in (0, 1, 2, 11, 12, 13, 24, 25, 36)] + [(n, 5) for n in (1, 3, 10, 24)]
    return [(5, n) for n in range(0, 150)] + [(n, 13) for n in range(1, 33)]


def main():
    binary, out, tier = sys.argv[1:4]
    cs = confs(tier)
    found, notes, ob = [], [], [0]
    consts, progs, err = rendered(binary, cs)
    if err is not None:
        # which configuration
        for c in cs:
            _, _, e = rendered(binary, [c])
            if e is not None:
                found.append(dict(case=f"{c[0]} {c[1]}", label="renders", what=f"render{c} fails: {e.strip()[-200:]}", assign={"point": None}))
                break
        progs = {}
    else:
        ob[0] += 1
        if consts[:360] != round_constants():
            i = next((i for i, (x, y) in enumerate(zip(consts, round_constants())) if x != y), len(consts))
            found.append(dict(case="constants", label="round constants", what=f"the constant of word {i % 12} in round {i // 12} is not Poseidon's", assign={"point": None}))
    seen = set()
    for c, t in progs.items():
        try:
            bad = config(c[0], c[1], Prog(t), ob)
        except Bad as e:
            notes.append(f"render{c}: cannot be read: {e}")
            # names that do not exist make the text no program at all
            if re.search(r"not declared|not a column|twice", str(e)) and "read" not in seen:
                seen.add("read")
                found.append(dict(case=f"{c[0]} {c[1]}", label="well-formed", what=f"the rendered text is not a program: {e}", assign={"point": None}))
            continue
        for label, msg, point in bad:
            if label == "undecided": notes.append(f"render{c}: {msg}")
            elif (label, msg) not in seen and len(found) < 8:
                seen.add((label, msg))
                found.append(dict(case=f"{c[0]} {c[1]}", label=label, what=f"render{c}: {msg}", assign={"point": point}))
    stats = dict(obligations=ob[0], configurations=len(cs), queries=ST["queries"], solver_s=round(ST["solver_s"], 2), unknown=ST["unknown"],
                 solver="z3 (integer polynomials)", discharged=ob[0] - len(found), functions_encoded=["recursion::compressor12::compressor12_pil::render (its output, symbolically)", "recursion::compressor12::constants::CPOSEIDON"])
    json.dump(dict(found=found, notes=notes, stats=stats), open(out, "w"))


def replay(binary, f):
    if f["label"] == "round constants":
        consts, _, err = rendered(binary, [])
        return f["what"] if err is None and consts[:360] != round_constants() else None
    b, q = map(int, f["case"].split())
    _, progs, err = rendered(binary, [(b, q)])
    if err is not None: return f"render fails: {err}"
    try:
        prog = Prog(progs[(b, q)])
    except Bad as e:
        return f"not a program: {e}"
    pt = f["assign"]["point"]
    if pt:
        m = Point(1)
        m.update(pt["m"])
        eqs = groups(q).get(pt["g"], [])
        x, y = truth(eqs, m), [i for i, e in enumerate(prog.ids) if e.ev(m) != 0]
        return f["what"] if bool(x) != bool(y) else None
    bad = [m for l, m, _ in config(b, q, prog, [0]) if l == f["label"]]
    return bad[0] if bad else None


if __name__ == "__main__":
    if sys.argv[1] == "--replay":
        w = replay(sys.argv[2], json.load(open(sys.argv[3])))
        print("REPRODUCED " + w if w else "not reproduced")
    else:
        main()
