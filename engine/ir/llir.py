"""A symbolic executor for LLVM IR with exact integer semantics.

Every iN value is an integer-linear expression over bounded integer variables together with an interval; operations that may wrap
introduce a quotient variable, so the path condition and every value stay linear integer arithmetic and z3 decides all of it.
The product of two symbolic words is a variable of its own per pair of 32-bit pieces (only its range is known): sound for "holds";
counterexamples are therefore searched again with one factor concrete and replayed on the compiled code.
Paths are explored by re-execution with recorded decisions."""
import re
import z3

z3.set_param("smt.random_seed", 1)


class Unsupported(Exception):
    pass


class Panic(Exception):
    pass


class Infeasible(Exception):
    pass


# ------------------------------------------------------------------ linear integer terms

class Lin:
    __slots__ = ("t", "c")

    def __init__(self, t=None, c=0):
        self.t = t or {}
        self.c = c

    def key(self):
        return (tuple(sorted(self.t.items())), self.c)

    def __add__(self, o):
        if isinstance(o, int):
            return Lin(dict(self.t), self.c + o)
        t = dict(self.t)
        for k, v in o.t.items():
            n = t.get(k, 0) + v
            if n:
                t[k] = n
            else:
                t.pop(k, None)
        return Lin(t, self.c + o.c)

    def scale(self, k):
        if k == 0:
            return Lin()
        return Lin({a: b * k for a, b in self.t.items()}, self.c * k)

    def __sub__(self, o):
        return self + (-o if isinstance(o, int) else o.scale(-1))


class V:
    """integer of width w: congruent to e mod 2^w, e within [lo, hi]"""
    __slots__ = ("w", "e", "lo", "hi", "tag")

    def __init__(self, w, e, lo, hi, tag=None):
        self.w, self.e, self.lo, self.hi, self.tag = w, e, lo, hi, tag


class Vec(list):
    pass


class Agg(list):
    pass


class Ptr:
    __slots__ = ("o", "off")

    def __init__(self, o, off):
        self.o, self.off = o, off


def conc(w, n):
    n &= (1 << w) - 1
    return V(w, Lin({}, n), n, n)


class Ctx:
    """one path"""

    def __init__(self, decisions=(), limit=200000):
        self.solver = z3.SolverFor("QF_LIA")
        self.vars = {}
        self.rng = {}
        self.cons = []
        self.decisions = list(decisions)
        self.pos = 0
        self.branches = []        # (taken, other feasible?)
        self.memo = {}
        self.queries = 0
        self.limit = limit
        self.steps = 0
        self.prods = {}
        self.extra = []

    # -- variables
    def var(self, lo, hi, name=None):
        n = name or f"v{len(self.vars)}"
        x = z3.Int(n)
        self.vars[n] = x
        self.rng[n] = (lo, hi)
        self.add(z3.And(x >= lo, x <= hi))
        return Lin({n: 1})

    def add(self, c):
        self.cons.append(c)
        self.solver.add(c)

    def z(self, e):
        s = [self.vars[k] * v if v != 1 else self.vars[k] for k, v in e.t.items()]
        return z3.Sum(s + [z3.IntVal(e.c)]) if s else z3.IntVal(e.c)

    def bounds(self, e):
        lo = hi = e.c
        for k, v in e.t.items():
            a, b = self.rng[k]
            lo += min(a * v, b * v)
            hi += max(a * v, b * v)
        return lo, hi

    def mk(self, w, e, lo=None, hi=None, tag=None):
        a, b = self.bounds(e)
        lo = a if lo is None else max(a, lo)
        hi = b if hi is None else min(b, hi)
        v = V(w, e, lo, hi, tag)
        if hi - lo > 1 << (w + 8):
            return self.u(v)
        return v

    def inp(self, w, name, top=None, pieces=32):
        """a symbolic input word, made of 32-bit pieces"""
        top = (1 << w) - 1 if top is None else top
        e, sh, rest = Lin(), 0, w
        while rest > 0:
            k = min(pieces, rest)
            hi = min((1 << k) - 1, top >> sh)
            e = e + self.var(0, hi, f"{name}_{sh}").scale(1 << sh)
            sh += k
            rest -= k
        self.add(self.z(e) <= top)
        return V(w, e, 0, top)

    # -- views
    def u(self, v):
        """the same value with 0 <= e < 2^w"""
        return self.view(v, 0)

    def s(self, v):
        return self.view(v, -(1 << (v.w - 1)))

    def view(self, v, base):
        w = v.w
        top = base + (1 << w) - 1
        if v.lo >= base and v.hi <= top:
            return v
        d = (v.lo - base) >> w
        if d == (v.hi - base) >> w:
            return V(w, v.e - (d << w), v.lo - (d << w), v.hi - (d << w), v.tag)
        k = ("view", v.e.key(), w, base)
        if k not in self.memo:
            q = self.var((v.lo - base) >> w, (v.hi - base) >> w)
            e = v.e - q.scale(1 << w)
            # r is its own variable, so that later operations have a small interval
            r = self.var(base, top)
            self.add(self.z(e) == self.z(r))
            self.memo[k] = r
        return V(w, self.memo[k], base, top, v.tag)

    def split(self, v, k):
        """(hi, lo) of the unsigned value at bit k, as linear terms with bounds"""
        v = self.u(v)
        if k == 0:
            return (v.e, v.lo, v.hi), (Lin(), 0, 0)
        if v.hi < 1 << k:
            return (Lin(), 0, 0), (v.e, v.lo, v.hi)
        m = 1 << k
        top, rest = {}, {}
        for a, b in v.e.t.items():
            r = b % m
            r = r - m if 2 * r > m else r
            if b != r:
                top[a] = b - r
            if r:
                rest[a] = r
        c = v.e.c
        for cc in ((c % m), (c % m) - m):
            r = Lin(rest, cc)
            lo, hi = self.bounds(r)
            if lo >= 0 and hi < m:
                h = Lin({a: b // m for a, b in top.items()}, (c - cc) // m)
                hl, hh = self.bounds(h)
                return (h, max(hl, 0), min(hh, v.hi >> k)), (r, lo, hi)
        key = ("split", v.e.key(), k)
        if key not in self.memo:
            h = self.var(v.lo >> k, v.hi >> k)
            l = self.var(0, m - 1)
            self.add(self.z(v.e) == self.z(h.scale(m) + l))
            self.memo[key] = (h, l)
        h, l = self.memo[key]
        return (h, v.lo >> k, v.hi >> k), (l, 0, m - 1)

    # -- arithmetic
    def binop(self, op, a, b):
        w = a.w
        ca, cb = self.const(a), self.const(b)
        M = (1 << w) - 1
        if ca is not None and cb is not None:
            return conc(w, self.cop(op, ca, cb, w))
        if op == "add":
            return self.mk(w, a.e + b.e, a.lo + b.lo, a.hi + b.hi)
        if op == "sub":
            return self.mk(w, a.e - b.e, a.lo - b.hi, a.hi - b.lo)
        if op == "mul":
            if ca is not None:
                a, b, ca, cb = b, a, cb, ca
            if cb is not None:
                k = cb if cb <= 1 << (w - 1) else cb - (1 << w)
                a = self.u(a)
                x, y = a.lo * k, a.hi * k
                return self.mk(w, a.e.scale(k), min(x, y), max(x, y))
            return self.u(self.product(self.u(a), self.u(b), w))
        if op == "shl":
            if cb is None:
                raise Unsupported("shl by a symbolic amount")
            if cb >= w:
                return conc(w, 0)
            # bits shifted out disappear
            if w - cb < w:
                a = self.u(a)
                if a.hi >> (w - cb):
                    (_, (l, lo, hi)) = self.split(a, w - cb)
                    a = V(w, l, lo, hi)
            return self.mk(w, a.e.scale(1 << cb), a.lo << cb, a.hi << cb)
        if op == "lshr":
            if cb is None:
                raise Unsupported("lshr by a symbolic amount")
            if a.tag and a.tag[0] == "mask":
                return self.select(a.tag[1], conc(w, M >> cb), conc(w, 0))
            (h, lo, hi), _ = self.split(a, cb)
            return V(w, h, lo, hi)
        if op == "ashr":
            if cb is None:
                raise Unsupported("ashr by a symbolic amount")
            x = self.s(a)
            o = V(w + 1, x.e + (1 << (w - 1)), x.lo + (1 << (w - 1)), x.hi + (1 << (w - 1)))
            (h, lo, hi), _ = self.split(o, cb)
            d = (1 << (w - 1)) >> cb
            return V(w, h - d, lo - d, hi - d)
        if op == "and":
            if ca is not None:
                a, b, ca, cb = b, a, cb, ca
            for x, y in ((a, b), (b, a)):
                if x.tag and x.tag[0] == "mask":
                    return self.select(x.tag[1], y, conc(w, 0))
            if cb is None:
                if a.e.key() == b.e.key():
                    return a
                raise Unsupported("and of two symbolic words")
            if cb == M:
                return a
            if cb == 0:
                return conc(w, 0)
            return self.and_mask(a, cb)
        if op == "or":
            if ca is not None:
                a, b, ca, cb = b, a, cb, ca
            if cb == 0:
                return a
            if cb == M:
                return conc(w, M)
            a, b = self.u(a), self.u(b)
            for x, y in ((a, b), (b, a)):
                k = self.tz(x)
                if y.hi < 1 << k:
                    return self.mk(w, x.e + y.e, None, None)
            for x, y in ((a, b), (b, a)):
                if x.tag and x.tag[0] == "mask":
                    return self.select(x.tag[1], conc(w, M), y)
            if cb is not None:   # a | c = (a & ~c) + c
                return self.mk(w, self.u(self.and_mask(a, M & ~cb)).e + cb)
            raise Unsupported("or of two symbolic words")
        if op == "xor":
            if ca is not None:
                a, b, ca, cb = b, a, cb, ca
            if cb == 0:
                return a
            if cb == M:
                v = self.mk(w, a.e.scale(-1) - 1, -a.hi - 1, -a.lo - 1)
                if a.tag and a.tag[0] == "mask":
                    v.tag = ("mask", self.bnot(a.tag[1]))
                return v
            if cb == 1 << (w - 1):
                if a.lo >= 0:
                    return self.mk(w, a.e - cb, a.lo - cb, a.hi - cb)
                return self.mk(w, a.e + cb, a.lo + cb, a.hi + cb)
            if cb is not None:   # a ^ c = a + c - 2 (a & c)
                x = self.u(a)
                y = self.u(self.and_mask(x, cb))
                return self.mk(w, x.e + cb - y.e.scale(2))
            for x, y in ((a, b), (b, a)):
                if y.tag and y.tag[0] == "xor":
                    if y.tag[1].e.key() == x.e.key():
                        return y.tag[2]
                    if y.tag[2].e.key() == x.e.key():
                        return y.tag[1]
            if a.e.key() == b.e.key():
                return conc(w, 0)
            r = self.var(0, M)
            return V(w, r, 0, M, ("xor", a, b))
        if op in ("udiv", "urem") and cb:
            a = self.u(a)
            if cb & (cb - 1) == 0:
                k = cb.bit_length() - 1
                h, l = self.split(a, k)
                return V(w, *(h if op == "udiv" else l))
            key = ("div", a.e.key(), cb)
            if key not in self.memo:
                q = self.var(a.lo // cb, a.hi // cb)
                r = self.var(0, cb - 1)
                self.add(self.z(a.e) == self.z(q.scale(cb) + r))
                self.memo[key] = (q, r)
            q, r = self.memo[key]
            return V(w, q, a.lo // cb, a.hi // cb) if op == "udiv" else V(w, r, 0, cb - 1)
        raise Unsupported(op)

    def cop(self, op, x, y, w):
        sx = x - (1 << w) if x >> (w - 1) else x
        return {"add": lambda: x + y, "sub": lambda: x - y, "mul": lambda: x * y, "shl": lambda: x << y if y < w else 0,
                "lshr": lambda: x >> y, "ashr": lambda: sx >> y, "and": lambda: x & y, "or": lambda: x | y, "xor": lambda: x ^ y,
                "udiv": lambda: x // y, "urem": lambda: x % y}[op]()

    def and_mask(self, a, m):
        """bits of a selected by the constant m: one term per run of ones"""
        w = a.w
        a = self.u(a)
        top = m.bit_length()
        z = ((1 << top) - 1) & ~m
        if z and bin(z).count("1") < 8:
            # everything below the top bit, less the zero runs
            _, (l, ll, lh) = self.split(a, top)
            e, i = l, 0
            while z >> i:
                if not (z >> i) & 1:
                    i += 1
                    continue
                (h, hl, hh), _ = self.split(a, i)
                _, (b, bl, bh) = self.split(V(w, h, hl, hh), 1)
                e = e - b.scale(1 << i)
                i += 1
            return self.mk(w, e, 0, min(lh, m))
        e, lo, hi, i = Lin(), 0, 0, 0
        while m >> i:
            if not (m >> i) & 1:
                i += 1
                continue
            j = i
            while (m >> j) & 1:
                j += 1
            (h, hl, hh), _ = self.split(a, i)
            _, (l, ll, lh) = self.split(V(w, h, hl, hh), j - i)
            e = e + l.scale(1 << i)
            lo += ll << i
            hi += lh << i
            i = j
        return self.mk(w, e, lo, hi)

    def tz(self, v):
        k = v.w
        for c in list(v.e.t.values()) + ([v.e.c] if v.e.c else []):
            k = min(k, (c & -c).bit_length() - 1)
        return k

    def const(self, v):
        if v.lo == v.hi:
            return v.lo & ((1 << v.w) - 1)
        return None

    def pieces(self, v):
        out, sh = [], 0
        cur = v
        while True:
            (h, hl, hh), (l, ll, lh) = self.split(cur, 32)
            if lh > 0 or ll > 0:
                out.append((sh, V(32, l, ll, lh)))
            if hh == 0:
                return out
            sh += 32
            cur = V(v.w, h, hl, hh)

    def product(self, a, b, w):
        e = Lin()
        for i, x in self.pieces(a):
            for j, y in self.pieces(b):
                cx, cy = self.const(x), self.const(y)
                if cx is not None or cy is not None:
                    t = y.e.scale(cx) if cx is not None else x.e.scale(cy)
                else:
                    k = tuple(sorted((x.e.key(), y.e.key())))
                    if k not in self.prods:
                        if k[0] == k[1]:   # a square is 0 or 1 modulo 4 (the compiler knows)
                            sq = self.var(x.lo * y.lo // 4, x.hi * y.hi // 4).scale(4) + self.var(0, 1)
                            self.prods[k] = (sq, x, y)
                        else:
                            self.prods[k] = (self.var(x.lo * y.lo, x.hi * y.hi), x, y)
                    t = self.prods[k][0]
                e = e + t.scale(1 << (i + j))
        v = V(max(w, 2 * 64), e, 0, a.hi * b.hi)
        if v.hi >> w:
            return self.u(self.mk(w, e))
        lo, hi = self.bounds(e)
        if hi > a.hi * b.hi:
            key = ("pb", e.key())
            if key not in self.memo:
                self.add(self.z(e) <= a.hi * b.hi)
                self.memo[key] = 1
        return V(w, e, 0, min(hi, a.hi * b.hi))

    # -- booleans: python bool or z3 Bool
    def bnot(self, c):
        return (not c) if isinstance(c, bool) else z3.Not(c)

    def cmp(self, pred, a, b):
        if pred in ("eq", "ne"):
            r = self.eq(a, b)
            return r if pred == "eq" else self.bnot(r)
        f = self.u if pred[0] == "u" else self.s
        a, b = f(a), f(b)
        p = pred[1:]
        if p in ("gt", "ge"):
            a, b, p = b, a, {"gt": "lt", "ge": "le"}[p]
        d = b.e - a.e
        lo, hi = self.bounds(d)
        lo, hi = max(lo, b.lo - a.hi), min(hi, b.hi - a.lo)
        k = 1 if p == "lt" else 0
        if lo >= k:
            return True
        if hi < k:
            return False
        return self.z(d) >= k

    def eq(self, a, b):
        a, b = self.u(a), self.u(b)
        d = a.e - b.e
        lo, hi = self.bounds(d)
        if lo > 0 or hi < 0 or a.lo > b.hi or a.hi < b.lo:
            return False
        if lo == 0 and hi == 0:
            return True
        return self.z(d) == 0

    def select(self, c, a, b):
        if c is True:
            return a
        if c is False:
            return b
        if isinstance(a, (Vec, Agg)):
            return type(a)(self.select(c, x, y) for x, y in zip(a, b))
        if isinstance(a, (bool, z3.BoolRef)) or isinstance(b, (bool, z3.BoolRef)):
            return z3.If(c, tob(a), tob(b))
        if isinstance(a, Ptr) or isinstance(b, Ptr) or not isinstance(a, V) or not isinstance(b, V):
            return a if self.decide(c) else b
        if a.e.key() == b.e.key():
            return a
        lo, hi = min(a.lo, b.lo), max(a.hi, b.hi)
        x = self.var(lo, hi)
        self.add(z3.If(c, self.z(x) == self.z(a.e), self.z(x) == self.z(b.e)))
        return V(a.w, x, lo, hi)

    def decide(self, c):
        if isinstance(c, bool):
            return c
        if self.pos < len(self.decisions):
            r = self.decisions[self.pos]
            self.pos += 1
            self.branches.append((r, False))
            self.add(c if r else z3.Not(c))
            return r
        self.queries += 1
        self.solver.push()
        self.solver.add(c)
        t = self.solver.check()
        self.solver.pop()
        self.queries += 1
        self.solver.push()
        self.solver.add(z3.Not(c))
        f = self.solver.check()
        self.solver.pop()
        if t == z3.unsat and f == z3.unsat:
            raise Infeasible()
        r = t != z3.unsat
        self.pos += 1
        self.decisions.append(r)
        self.branches.append((r, r and f != z3.unsat))
        self.add(c if r else z3.Not(c))
        return r

    def v_of_bool(self, c, w, ext):
        if isinstance(c, bool):
            return conc(w, 0 if not c else (1 if ext == "zext" else (1 << w) - 1))
        x = self.var(0, 1)
        self.add(z3.If(c, self.z(x) == 1, self.z(x) == 0))
        if ext == "zext":
            return V(w, x, 0, 1, ("bit", c))
        return V(w, x.scale(-1), -1, 0, ("mask", c))


def tob(x):
    return z3.BoolVal(x) if isinstance(x, bool) else x


def explore(run, max_paths=4096):
    """runs `run(ctx)` on every feasible path; yields (ctx, result or exception)"""
    stack = [()]
    n = 0
    while stack:
        d = stack.pop()
        ctx = Ctx(d)
        n += 1
        if n > max_paths:
            raise Unsupported("too many paths")
        try:
            r = run(ctx)
        except Infeasible:
            continue
        except Panic as e:
            r = e
        for i in range(len(d), len(ctx.branches)):
            if ctx.branches[i][1]:
                stack.append(tuple(ctx.decisions[:i]) + (not ctx.branches[i][0],))
        yield ctx, r


# ------------------------------------------------------------------ module

TYPE = r"(?:\{[^}]*\}|<[^>]*>|\[[^\]]*\]|[\w%.:$]+)"


class Module:
    def __init__(self, text):
        self.fn, self.globals = {}, {}
        self.alias = {}
        cur = None
        for line in text.split("\n"):
            if line.startswith("define "):
                m = re.search(r'@("[^"]+"|[\w.$]+)\((.*)$', line)
                cur = m[1].strip('"')
                self.fn[cur] = dict(params=self.params(m[2]), blocks={}, order=[], head=line)
                lab = None
            elif line == "}":
                cur = None
            elif cur:
                m = re.match(r'^("[^"]+"|[\w.$-]+):', line)
                if m:
                    lab = m[1].strip('"')
                    self.fn[cur]["blocks"][lab] = []
                    self.fn[cur]["order"].append(lab)
                elif line.strip() and not line.lstrip().startswith(";"):
                    f = self.fn[cur]
                    if lab is None:
                        lab = "0"
                        f["blocks"][lab] = []
                        f["order"].append(lab)
                    body = f["blocks"][lab]
                    s = line.strip()
                    if body and body[-1].startswith("switch") and "]" not in body[-1]:
                        body[-1] += " " + s
                    else:
                        body.append(s)
            elif line.startswith("@"):
                m = re.match(r'^@("[^"]+"|[\w.$]+) = (.*)$', line)
                al = re.match(r'.*\balias\b.*, ptr @("[^"]+"|[\w.$]+)$', m[2])
                if al:
                    self.alias[m[1].strip('"')] = al[1].strip('"')
                self.globals[m[1].strip('"')] = m[2]

    def params(self, s):
        depth, cur, out = 0, "", []
        for ch in s:
            if ch == ")" and depth == 0:
                break
            if ch in "([{<":
                depth += 1
            if ch in ")]}>":
                depth -= 1
            if ch == "," and depth == 0:
                out.append(cur)
                cur = ""
            else:
                cur += ch
        if cur.strip():
            out.append(cur)
        r = []
        for p in out:
            m = re.search(r"%[\w.$\"-]+$", p.strip())
            r.append((p.strip().split()[0] if not p.strip()[0] in "<{[" else p.strip(), m[0] if m else None))
        return r


def split_args(s):
    depth, cur, out, q = 0, "", [], False
    for ch in s:
        if ch == '"':
            q = not q
        if not q:
            if ch in "([{<":
                depth += 1
            if ch in ")]}>":
                depth -= 1
                if depth < 0:
                    break
            if ch == "," and depth == 0:
                out.append(cur.strip())
                cur = ""
                continue
        cur += ch
    if cur.strip():
        out.append(cur.strip())
    return out


def ty_parse(s):
    """type at the start of s -> (type, rest)"""
    s = s.strip()
    if s[0] in "{[<":
        close = {"{": "}", "[": "]", "<": ">"}
        st, i = [], 0
        while True:
            if s[i] in close:
                st.append(close[s[i]])
            elif st and s[i] == st[-1]:
                st.pop()
            i += 1
            if not st:
                break
        t, rest = s[:i], s[i:]
        if t[0] == "{":
            return ("struct", [ty_parse(x)[0] for x in split_args(t[1:-1])]), rest.strip()
        n, el = t[1:-1].split(" x ", 1)
        return ("vec" if t[0] == "<" else "arr", int(n), ty_parse(el)[0]), rest.strip()
    m = re.match(r"[\w%.]+", s)
    t = m[0]
    rest = s[m.end():].strip()
    if re.fullmatch(r"i\d+", t):
        return ("i", int(t[1:])), rest
    return {"float": ("i", 32), "double": ("i", 64), "ptr": ("ptr",), "void": ("void",)}.get(t, ("named", t)), rest


def size(t):
    if t[0] == "i":
        return max(1, t[1] // 8)
    if t[0] == "ptr":
        return 8
    if t[0] in ("arr", "vec"):
        return t[1] * size(t[2])
    if t[0] == "struct":
        o = 0
        for x in t[1]:
            a = min(size(x), 16) if x[0] != "arr" else min(size(x[2]), 8)
            o = (o + a - 1) // a * a + size(x)
        return o
    raise Unsupported(f"size of {t}")


ATTR = re.compile(r"^(?:noundef|nonnull|readonly|readnone|writeonly|nocapture|noalias|signext|zeroext|returned|immarg|captures\([^)]*\)|"
                  r"align \d+|dereferenceable\(\d+\)|dereferenceable_or_null\(\d+\)|range\([^)]*\)|sret\([^)]*\)|inreg|nofree|nuw|nsw|"
                  r"exact|disjoint|fast|samesign|inbounds|nneg|dead_on_unwind|writable|initializes\(\([^)]*\)\))\s+")


def strip_attr(s):
    while True:
        m = ATTR.match(s)
        if not m:
            return s
        s = s[m.end():]


class Exec:
    def __init__(self, mod, ctx, intercept=None):
        self.m, self.c = mod, ctx
        self.mem = {}
        self.nobj = 0
        self.havoc = set()
        self.intercept = intercept or []

    def alloc(self, name=""):
        self.nobj += 1
        self.mem[self.nobj] = {}
        return self.nobj

    # -- operands
    def val(self, t, s, env):
        s = strip_attr(s.strip())
        if s.startswith("%"):
            return env[s.strip('"')]
        if t[0] == "i":
            if t[1] == 1:
                if s in ("true", "false"):
                    return s == "true"
            if s in ("undef", "poison", "zeroinitializer"):
                return conc(t[1], 0) if t[1] > 1 else False
            if s in ("true", "false"):
                return s == "true"
            if re.fullmatch(r"-?\d+", s):
                return conc(t[1], int(s)) if t[1] > 1 else bool(int(s) & 1)
            if re.match(r"^[-\d.]+e[+-]\d+|^0x", s) and re.match(r"^0x[0-9A-Fa-f]+$", s):
                return conc(t[1], int(s, 16))
            raise Unsupported(f"operand {s}")
        if t[0] == "vec":
            n, el = t[1], t[2]
            if s in ("zeroinitializer", "undef", "poison"):
                return Vec(conc(el[1], 0) if el[1] > 1 else False for _ in range(n))
            m = re.match(r"splat \((.*)\)$", s)
            if m:
                tt, r = ty_parse(m[1])
                return Vec(self.val(tt, r, env) for _ in range(n))
            if s.startswith("<"):
                out = Vec()
                for x in split_args(s[1:-1]):
                    tt, r = ty_parse(x)
                    out.append(self.val(tt, r, env))
                return out
        if t[0] == "struct" or t[0] == "arr":
            ts = t[1] if t[0] == "struct" else [t[2]] * t[1]
            if s in ("zeroinitializer", "undef", "poison"):
                return Agg(self.val(x, "undef", env) for x in ts)
            if s[0] in "{[":
                out = Agg()
                for x in split_args(s[1:-1].strip()):
                    tt, r = ty_parse(x)
                    out.append(self.val(tt, r, env))
                return out
        if t[0] == "ptr":
            if s.startswith("@"):
                return Ptr(("g", s[1:].strip('"')), 0)
            if s in ("null", "undef", "poison"):
                return Ptr(None, 0)
            m = re.match(r"getelementptr (?:inbounds |nuw |nusw )*\((.*)\)$", s)
            if m:
                a = split_args(m[1])
                bt, _ = ty_parse(a[0])
                p = self.val(("ptr",), ty_parse(a[1])[1], env)
                return self.gep(bt, p, [(lambda q: self.val(q[0], q[1], env))(ty_parse(x)) for x in a[2:]])
        raise Unsupported(f"operand {t} {s}")

    def gep(self, bt, p, idx):
        off = p.off
        t = bt
        for i, x in enumerate(idx):
            n = self.c.const(x)
            if n is None:
                raise Unsupported("symbolic index")
            n = n - (1 << x.w) if n >> (x.w - 1) else n
            if i == 0:
                off += n * size(t)
            elif t[0] in ("arr", "vec"):
                t = t[2]
                off += n * size(t)
            else:
                for x in t[1][:n]:
                    off += size(x)
                t = t[1][n]
        return Ptr(p.o, off)

    # -- memory: objects map offset -> (bytes, value), scalars only
    def store(self, p, t, v):
        if p.o is None:
            return
        if p.o not in self.mem:
            raise Unsupported("store to unknown memory")
        m = self.mem[p.o]
        if t[0] in ("vec", "arr"):
            n = size(t[2])
            for i, x in enumerate(v):
                self.store(Ptr(p.o, p.off + i * n), t[2], x)
            return
        if t[0] == "struct":
            raise Unsupported("store of a struct")
        n = size(t)
        for k in [k for k in m if k < p.off + n and k + m[k][0] > p.off]:
            if not (k >= p.off and k + m[k][0] <= p.off + n):
                raise Unsupported("partial overwrite")
            del m[k]
        m[p.off] = (n, v)

    def load(self, p, t):
        if t[0] in ("vec", "arr"):
            n = size(t[2])
            return (Vec if t[0] == "vec" else Agg)(self.load(Ptr(p.o, p.off + i * n), t[2]) for i in range(t[1]))
        n = size(t)
        if isinstance(p.o, tuple):
            return self.gload(p, t)
        if p.o not in self.mem:
            raise Unsupported("load from unknown memory")
        m = self.mem[p.o]
        if p.off in m:
            k, v = m[p.off]
            if k == n:
                if t[0] == "i" and t[1] == 1 and isinstance(v, V):
                    return self.c.cmp("ne", v, conc(v.w, 0))
                if t[0] == "i" and isinstance(v, bool):
                    return conc(t[1], int(v))
                if t[0] == "i" and isinstance(v, z3.BoolRef):
                    return self.c.v_of_bool(v, t[1], "zext")
                return v
            if k > n and isinstance(v, V):
                return self.cast("trunc", v, n * 8)
        # assembled from smaller pieces
        e, o = None, 0
        while o < n:
            if p.off + o not in m:
                if p.o in self.havoc:
                    if t[0] == "ptr":
                        return Ptr(None, 0)
                    v = self.c.inp(n * 8, f"u{len(self.c.vars)}", top=(1 << (n * 8 - 1)) - 1)
                    m[p.off] = (n, v)
                    return v
                raise Unsupported("load of unwritten memory")
            k, v = m[p.off + o]
            x = self.cast("zext", v, n * 8)
            x = self.c.binop("shl", x, conc(n * 8, o * 8))
            e = x if e is None else self.c.mk(n * 8, self.c.u(e).e + self.c.u(x).e)
            o += k
        return e

    def gload(self, p, t):
        g = self.m.globals.get(p.o[1])
        if g is None or " constant " not in " " + g:
            raise Unsupported(f"load from global {p.o[1]}")
        init = g.split("constant ", 1)[1]
        tt, rest = ty_parse(init)
        by = self.gbytes(tt, rest.split(", align")[0])
        n = size(t)
        return conc(n * 8, int.from_bytes(by[p.off:p.off + n], "little"))

    def gbytes(self, t, s):
        s = s.strip()
        if s.startswith("zeroinitializer"):
            return bytes(size(t))
        if t[0] == "i":
            return (int(s) & ((1 << t[1]) - 1)).to_bytes(size(t), "little")
        if s.startswith('c"'):
            out, i = bytearray(), 2
            while s[i] != '"':
                if s[i] == "\\":
                    out.append(int(s[i + 1:i + 3], 16))
                    i += 3
                else:
                    out.append(ord(s[i]))
                    i += 1
            return bytes(out)
        if s[0] in "[<{":
            inner = s[1:-1]
            if s.startswith("<{"):
                inner = s[2:-2]
            out = b""
            for x in split_args(inner):
                tt, r = ty_parse(x)
                out += self.gbytes(tt, r)
            return out
        raise Unsupported("global " + s[:40])

    # -- casts
    def cast(self, op, v, w):
        c = self.c
        if isinstance(v, (bool, z3.BoolRef)):
            if op in ("zext", "sext"):
                return c.v_of_bool(v, w, op)
            raise Unsupported("cast of i1")
        if op == "zext":
            v = c.u(v)
            return V(w, v.e, v.lo, v.hi, v.tag if v.tag and v.tag[0] == "bit" else None)
        if op == "sext":
            x = c.s(v)
            return V(w, x.e, x.lo, x.hi, v.tag if v.tag and v.tag[0] == "mask" else None)
        if op == "trunc":
            if w == 1:
                if v.tag and v.tag[0] in ("bit", "mask"):
                    return v.tag[1]
                _, (l, lo, hi) = c.split(v, 1)
                return c.cmp("ne", V(8, l, lo, hi), conc(8, 0))
            if v.tag and v.tag[0] in ("bit", "mask"):
                return V(w, v.e, v.lo, v.hi, v.tag)
            if v.hi - v.lo < 1 << w:
                return V(w, v.e, v.lo, v.hi)
            _, (l, lo, hi) = c.split(v, w)
            return V(w, l, lo, hi)
        raise Unsupported(op)

    def bitcast(self, v, t):
        if isinstance(v, V):
            v = Vec([v])
        if all(isinstance(x, (bool, z3.BoolRef)) for x in v):
            if t[0] == "i":
                e = Lin()
                for i, x in enumerate(v):
                    e = e + self.c.u(self.c.v_of_bool(x, 64, "zext")).e.scale(1 << i)
                return self.c.mk(t[1], e)
            return v
        src = v[0].w
        if t[0] == "i":
            dst, n = t[1], 1
        else:
            dst, n = t[2][1], t[1]
        if src == dst:
            r = Vec(v)
        elif src > dst:
            if dst == 1:
                raise Unsupported("bitcast to i1")
            r = Vec()
            for x in v:
                cur = x
                if x.tag and x.tag[0] == "mask":
                    r += [self.c.select(x.tag[1], conc(dst, -1), conc(dst, 0))] * 0
                for k in range(src // dst):
                    if k == src // dst - 1:
                        cu = self.c.u(cur)
                        r.append(V(dst, cu.e, cu.lo, cu.hi))
                    else:
                        (h, hl, hh), (l, ll, lh) = self.c.split(cur, dst)
                        r.append(V(dst, l, ll, lh))
                        cur = V(src, h, hl, hh)
        else:
            k = dst // src
            r = Vec()
            for i in range(0, len(v), k):
                e = Lin()
                lo = hi = 0
                for j in range(k):
                    x = self.c.u(v[i + j])
                    e = e + x.e.scale(1 << (j * src))
                    lo += x.lo << (j * src)
                    hi += x.hi << (j * src)
                tags = [x.tag for x in v[i:i + k]]
                r.append(V(dst, e, lo, hi))
                if all(t and t[0] == "mask" for t in tags) and all(t[1] is tags[0][1] for t in tags):
                    r[-1].tag = tags[0]
        return r[0] if t[0] == "i" else r

    def lanes(self, f, *vs):
        if isinstance(vs[0], Vec):
            return Vec(f(*x) for x in zip(*vs))
        return f(*vs)

    def boolop(self, op, a, b):
        if isinstance(a, bool) and isinstance(b, bool):
            return {"and": a and b, "or": a or b, "xor": a != b}[op]
        if op == "xor":
            if isinstance(b, bool):
                a, b = b, a
            if isinstance(a, bool):
                return self.c.bnot(b) if a else b
            return z3.Xor(a, b)
        for x, y in ((a, b), (b, a)):
            if isinstance(x, bool):
                if op == "and":
                    return y if x else False
                return True if x else y
        return z3.And(a, b) if op == "and" else z3.Or(a, b)

    # -- functions
    def call(self, name, args):
        for pat, fn in self.intercept:
            if re.search(pat, name):
                r = fn(self, name, args)
                if r is not NotImplemented:
                    return r
        name = self.m.alias.get(name, name)
        if name in self.m.fn:
            return self.run(name, args)
        c = self.c
        m = re.match(r"llvm\.([us])cmp\.i(\d+)", name)
        if m:
            w = int(m[2])
            lt, eq = c.cmp(m[1] + "lt", *args), c.eq(*args)
            return c.select(lt, conc(w, -1), c.select(eq, conc(w, 0), conc(w, 1)))
        m = re.match(r"llvm\.([us])(add|sub|mul)\.with\.overflow\.i(\d+)", name)
        if m:
            a, b = (c.u(x) if m[1] == "u" else c.s(x) for x in args)
            w = a.w
            if m[2] == "mul":
                ca, cb = c.const(a), c.const(b)
                if ca is None and cb is None:
                    e = c.product(a, b, 2 * w)
                    e = V(2 * w, e.e, e.lo, e.hi)
                else:
                    if ca is not None:
                        a, b, cb = b, a, ca
                    e = V(2 * w, a.e.scale(cb), a.lo * cb, a.hi * cb)
            elif m[2] == "add":
                e = V(w + 2, a.e + b.e, a.lo + b.lo, a.hi + b.hi)
            else:
                e = V(w + 2, a.e - b.e, a.lo - b.hi, a.hi - b.lo)
            lo, hi = (0, (1 << w) - 1) if m[1] == "u" else (-(1 << (w - 1)), (1 << (w - 1)) - 1)
            if e.lo >= lo and e.hi <= hi:
                ov = False
            elif e.hi < lo or e.lo > hi:
                ov = True
            else:
                z = c.z(e.e)
                ov = z3.Or(z < lo, z > hi)
            return Agg([V(w, e.e, e.lo, e.hi), ov])
        m = re.match(r"llvm\.([us])(min|max)\.", name)
        if m:
            def mm(a, b):
                k = c.cmp(m[1] + ("lt" if m[2] == "min" else "gt"), a, b)
                return c.select(k, a, b)
            return self.lanes(mm, *args)
        m = re.match(r"llvm\.usub\.sat\.", name)
        if m:
            return self.lanes(lambda a, b: c.select(c.cmp("ult", a, b), conc(a.w, 0), c.binop("sub", a, b)), *args)
        m = re.match(r"llvm\.fsh([lr])\.", name)
        if m:
            a, b, k = args
            n = c.const(k)
            if n is None:
                raise Unsupported("symbolic funnel shift")
            w = a.w
            n %= w
            if m[1] == "r":
                n = (w - n) % w
                if n == 0:
                    return b
            if n == 0:
                return a
            return c.binop("or", c.binop("shl", a, conc(w, n)), c.binop("lshr", b, conc(w, w - n)))
        if name.startswith("llvm.ctlz") or name.startswith("llvm.cttz") or name.startswith("llvm.ctpop"):
            n = c.const(args[0])
            w = args[0].w
            if n is None:
                raise Unsupported(name)
            if "ctpop" in name:
                return conc(w, bin(n).count("1"))
            if n == 0:
                return conc(w, w)
            return conc(w, w - n.bit_length() if "ctlz" in name else (n & -n).bit_length() - 1)
        if name.startswith("llvm.memcpy") or name.startswith("llvm.memmove"):
            d, s, n = args[0], args[1], c.const(args[2])
            if n % 8:
                raise Unsupported("memcpy")
            for i in range(0, n, 8):
                self.store(Ptr(d.o, d.off + i), ("i", 64), self.load(Ptr(s.o, s.off + i), ("i", 64)))
            return None
        if name.startswith("llvm.memset"):
            d, b, n = args[0], c.const(args[1]), c.const(args[2])
            for i in range(0, n, 8):
                self.store(Ptr(d.o, d.off + i), ("i", 64), conc(64, int.from_bytes(bytes([b]) * 8, "little")))
            return None
        if re.match(r"llvm\.(lifetime|assume|experimental|dbg|invariant)", name):
            return None
        if name.startswith("llvm.abs"):
            a = c.s(args[0])
            k = c.cmp("slt", a, conc(a.w, 0))
            return c.select(k, c.binop("sub", conc(a.w, 0), a), a)
        if re.search(r"panic|unwrap_failed|expect_failed|unreachable|assert_failed|slice_.*_fail|handle_alloc", name):
            raise Panic(name)
        if re.search(r"fmt|dealloc|drop_in_place|__rust_no_alloc", name):
            # its effect is only a message: whatever it wrote is unknown
            for a in args:
                if isinstance(a, Ptr) and a.o in self.mem:
                    self.mem[a.o] = {}
                    self.havoc.add(a.o)
            return None
        raise Unsupported("call " + name)

    def run(self, name, args):
        f = self.m.fn[name]
        env = {}
        k = 0
        for (t, p), a in zip(f["params"], args):
            env[p if p else f"%{k}"] = a
            k += 1
        lab, prev = f["order"][0], None
        c = self.c
        while True:
            body = f["blocks"][lab]
            i = 0
            # phis read the old environment
            new = {}
            while i < len(body):
                m = re.match(r"^(%[\w.$\"-]+) = phi (.*)$", body[i])
                if not m:
                    break
                t, rest = ty_parse(m[2])
                for x in re.finditer(r"\[ (.*?), %\"?([\w.$-]+)\"? \]", rest):
                    if x[2] == prev:
                        new[m[1].strip('"')] = self.val(t, x[1], env)
                i += 1
            env.update(new)
            jump = None
            while i < len(body):
                c.steps += 1
                if c.steps > c.limit:
                    raise Unsupported("step limit")
                s = body[i]
                i += 1
                s = re.sub(r", ![\w.]+ ![\w.]+", "", s)
                s = re.sub(r", !\w+$", "", s)
                s = re.sub(r" #\d+$", "", s)
                m = re.match(r"^(%[\w.$\"-]+) = (.*)$", s)
                if m:
                    env[m[1].strip('"')] = self.inst(m[2], env)
                    continue
                op = s.split()[0]
                if op == "ret":
                    if s == "ret void":
                        return None
                    t, r = ty_parse(s[4:])
                    return self.val(t, r, env)
                if op == "br":
                    m = re.match(r"br label %\"?([\w.$-]+)", s)
                    if m:
                        jump = m[1]
                    else:
                        m = re.match(r"br i1 (.*?), label %\"?([\w.$-]+)\"?, label %\"?([\w.$-]+)", s)
                        jump = m[2] if c.decide(self.val(("i", 1), m[1], env)) else m[3]
                    break
                if op == "switch":
                    m = re.match(r"switch (i\d+) (.*?), label %\"?([\w.$-]+)\"? \[(.*)\]", s)
                    t, _ = ty_parse(m[1])
                    v = self.val(t, m[2], env)
                    jump = m[3]
                    for x in re.finditer(r"i\d+ (-?\d+), label %\"?([\w.$-]+)", m[4]):
                        if c.decide(c.eq(v, conc(t[1], int(x[1])))):
                            jump = x[2]
                            break
                    break
                if op == "store":
                    m = re.match(r"store (?:volatile )?(.*)$", s)
                    a = split_args(m[1])
                    t, r = ty_parse(a[0])
                    p = self.val(("ptr",), ty_parse(a[1])[1], env)
                    self.store(p, t, self.val(t, r, env))
                    continue
                if op == "unreachable":
                    raise Panic("unreachable")
                if op in ("call", "tail", "musttail", "notail", "invoke"):
                    self.inst(s, env)
                    if op == "invoke":
                        jump = re.search(r"to label %\"?([\w.$-]+)", s)[1]
                        break
                    continue
                raise Unsupported(s)
            prev, lab = lab, jump
            if jump is None:
                raise Unsupported("fell off a block")

    def inst(self, s, env):
        c = self.c
        s = re.sub(r"^(tail|musttail|notail) ", "", s)
        op, rest = s.split(" ", 1) if " " in s else (s, "")
        if op in ("add", "sub", "mul", "shl", "lshr", "ashr", "and", "or", "xor", "udiv", "urem", "sdiv", "srem"):
            rest = strip_attr(rest)
            t, r = ty_parse(rest)
            x, y = split_args(r)
            a, b = self.val(t, x, env), self.val(t, y, env)
            el = t[2] if t[0] == "vec" else t
            if el == ("i", 1):
                return self.lanes(lambda p, q: self.boolop(op, p, q), a, b)
            return self.lanes(lambda p, q: c.binop(op, p, q), a, b)
        if op == "icmp":
            m = re.match(r"(?:samesign )?(\w+) (.*)$", rest)
            t, r = ty_parse(m[2])
            x, y = split_args(r)
            a, b = self.val(t, x, env), self.val(t, y, env)
            if t[0] == "ptr":
                same = (a.o, a.off) == (b.o, b.off)
                return same if m[1] == "eq" else not same
            el = t[2] if t[0] == "vec" else t
            if el == ("i", 1):
                q = self.lanes(lambda p, q: self.boolop("xor", p, q), a, b)
                return q if m[1] == "ne" else self.lanes(c.bnot, q)
            return self.lanes(lambda p, q: c.cmp(m[1], p, q), a, b)
        if op in ("zext", "sext", "trunc"):
            rest = strip_attr(rest)
            t, r = ty_parse(rest)
            x, d = r.rsplit(" to ", 1)
            dt, _ = ty_parse(d)
            v = self.val(t, x, env)
            w = (dt[2] if dt[0] == "vec" else dt)[1]
            return self.lanes(lambda p: self.cast(op, p, w), v)
        if op == "bitcast":
            t, r = ty_parse(rest)
            x, d = r.rsplit(" to ", 1)
            return self.bitcast(self.val(t, x, env), ty_parse(d)[0])
        if op == "freeze":
            t, r = ty_parse(rest)
            return self.val(t, r, env)
        if op == "select":
            a = split_args(rest)
            (t0, r0), (t1, r1), (t2, r2) = (ty_parse(x) for x in a)
            cc, x, y = self.val(t0, r0, env), self.val(t1, r1, env), self.val(t2, r2, env)
            if isinstance(cc, Vec):
                return Vec(c.select(p, q, r) for p, q, r in zip(cc, x, y))
            return c.select(cc, x, y)
        if op == "shufflevector":
            a = split_args(rest)
            (t0, r0), (t1, r1), (t2, r2) = (ty_parse(x) for x in a)
            x, y = self.val(t0, r0, env), self.val(t1, r1, env)
            both = list(x) + list(y)
            if r2 in ("zeroinitializer", "poison"):
                idx = [0] * t2[1]
            else:
                m = re.match(r"splat \(i32 (\d+)\)", r2)
                idx = [int(m[1])] * t2[1] if m else [(-1 if "poison" in q or "undef" in q else int(q.split()[1])) for q in split_args(r2[1:-1])]
            el = t0[2][1]
            return Vec(both[i] if i >= 0 else (conc(el, 0) if el > 1 else False) for i in idx)
        if op == "extractelement":
            a = split_args(rest)
            t, r = ty_parse(a[0])
            k = c.const(self.val(*ty_parse(a[1]), env))
            return self.val(t, r, env)[k]
        if op == "insertelement":
            a = split_args(rest)
            t, r = ty_parse(a[0])
            v = Vec(self.val(t, r, env))
            k = c.const(self.val(*ty_parse(a[2]), env))
            v[k] = self.val(*ty_parse(a[1]), env)
            return v
        if op == "extractvalue":
            a = split_args(rest)
            t, r = ty_parse(a[0])
            v = self.val(t, r, env)
            for k in a[1:]:
                v = v[int(k)]
            return v
        if op == "insertvalue":
            a = split_args(rest)
            t, r = ty_parse(a[0])
            v = Agg(self.val(t, r, env))
            if len(a) != 3:
                raise Unsupported("insertvalue")
            v[int(a[2])] = self.val(*ty_parse(a[1]), env)
            return v
        if op == "alloca":
            return Ptr(self.alloc(), 0)
        if op == "load":
            a = split_args(rest.replace("volatile ", ""))
            t, _ = ty_parse(a[0])
            return self.load(self.val(("ptr",), ty_parse(a[1])[1], env), t)
        if op == "getelementptr":
            rest = strip_attr(rest)
            rest = re.sub(r"^(inbounds |nuw |nusw )+", "", rest)
            a = split_args(rest)
            bt, _ = ty_parse(a[0])
            p = self.val(("ptr",), ty_parse(a[1])[1], env)
            return self.gep(bt, p, [self.val(*ty_parse(x), env) for x in a[2:]])
        if op in ("call", "invoke"):
            m = re.search(r'@("[^"]+"|[\w.$]+)\(', rest)
            if not m:
                raise Unsupported("indirect call")
            name = m[1].strip('"')
            args = []
            for x in split_args(rest[m.end():]):
                if x.startswith("metadata"):
                    continue
                t, r = ty_parse(x)
                args.append(self.val(t, r, env))
            return self.call(name, args)
        raise Unsupported(s)
