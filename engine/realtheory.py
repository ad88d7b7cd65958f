"""Real-arithmetic interpretation of a path: terms are rational functions N/D (D nonzero on the
path), sin and cos are uninterpreted functions (congruence, values in [-1, 1])."""
import math
import struct
from fractions import Fraction

import z3

import poly as P


def bits2float(b):
    return struct.unpack("<d", struct.pack("<Q", b))[0]


def float2bits(x):
    return struct.unpack("<Q", struct.pack("<d", x))[0]


class Unsupported(Exception):
    pass


def f32(q):
    try:
        return Fraction(struct.unpack("<f", struct.pack("<f", float(q)))[0])
    except OverflowError:
        raise Unsupported("single overflow")


def away(q):
    return Fraction(math.floor(abs(q) + Fraction(1, 2))) * (1 if q >= 0 else -1)


# the value of a function that is an uninterpreted symbol to the solver
FN = {
    "sin": lambda q: Fraction(math.sin(max(-1e15, min(1e15, float(q))))),
    "cos": lambda q: Fraction(math.cos(max(-1e15, min(1e15, float(q))))),
    "sqrt": lambda q: Fraction(math.sqrt(float(q))) if q >= 0 else Fraction(0),
    "f32": f32,
    "floor": lambda q: Fraction(math.floor(q)),
    "ceil": lambda q: Fraction(math.ceil(q)),
    "trunc": lambda q: Fraction(math.trunc(q)),
    "round": away,
    "rint": lambda q: Fraction(round(q)),
}


def facts(fn, z, x):
    """What the solver knows about z = fn(x)."""
    if fn in ("sin", "cos"):
        return [z <= 1, z >= -1]
    if fn == "sqrt":
        return [z >= 0, z * z == x]
    if fn == "f32":
        e = z3.If(x < 0, -x, x) / 2 ** 24 + z3.RealVal("1/2") ** 149
        return [z - x <= e, x - z <= e]
    h = z3.RealVal("1/2")
    if fn == "floor":
        r = [z <= x, x < z + 1]
        small = [(k, k <= x, x < k + 1) for k in range(-2, 3)]
    elif fn == "ceil":
        r = [z >= x, x > z - 1]
        small = [(k, k - 1 < x, x <= k) for k in range(-2, 3)]
    elif fn == "trunc":
        r = [z3.Implies(x >= 0, z3.And(z <= x, x < z + 1)), z3.Implies(x <= 0, z3.And(z >= x, x > z - 1))]
        small = [(0, -1 < x, x < 1)] + [(k, k <= x, x < k + 1) for k in (1, 2)] + [(-k, -k - 1 < x, x <= -k) for k in (1, 2)]
    else:
        r = [z - x <= h, x - z <= h]
        small = [(k, k - h < x, x < k + h) for k in range(-2, 3)]
    return r + [z3.Implies(z3.And(a, b), z == k) for k, a, b in small]


DEFAULTS = [Fraction(2), Fraction(-3), Fraction(5, 2), Fraction(7), Fraction(-1, 2), Fraction(11, 4), Fraction(-13, 2),
            Fraction(3, 8), Fraction(17, 4), Fraction(-19, 8), Fraction(23, 2), Fraction(29, 16), Fraction(-31, 8),
            Fraction(37, 4), Fraction(-41, 16), Fraction(43, 8)]


class RealPath:
    """State of one path in real mode."""

    name = "QF_NRA + UF(sin, cos)"

    def __init__(self, stats, timeout_ms):
        self.stats = stats
        self.timeout = timeout_ms
        self.terms = {}       # id -> (N, D)
        self.raw = {}         # id -> (z3 N, z3 D) without normalisation, built on demand
        self.defs = {}        # id -> definition, for raw
        self.vars = []        # var number -> (kind, name/args)
        self.zvars = []
        self.inputs = {}      # name -> var number
        self.atoms = {}       # canonical key -> var number
        self.atomdefs = []    # (var number, fn, N, D)
        self.forms = {}       # id -> formula tree
        self.path = []        # list of formula trees asserted
        self.rawpath = []     # the same as computed: (p, a, b, taken) or (formula, None, None, True)
        self.side = []        # z3 side constraints (atoms)
        self.model = {}       # var number -> Fraction
        self.seedmodel = {}   # name -> Fraction (from the parent path)
        self.zcache = {}
        self.facs = []        # irreducible-ish factors of denominators, leading coefficient 1
        self.facnum = {}
        self.rsize = {}
        self.excache = {}
        self.nonzero = set()  # factors the path keeps nonzero
        self.exact = True     # the current model satisfies the path exactly

    # ---- variables
    def newvar(self, kind, name):
        n = len(self.vars)
        self.vars.append((kind, name))
        self.zvars.append(z3.Real(name))
        return n

    def op_input(self, i, name, kind):
        n = self.newvar("input", name)
        self.inputs[name] = n
        self.terms[i] = (P.var(n), ())
        self.defs[i] = ("var", n)
        self.model[n] = self.seedmodel.get(name, DEFAULTS[n % len(DEFAULTS)] + n // len(DEFAULTS))

    def op_const(self, i, bits):
        v = bits2float(bits)
        if v != v or v in (math.inf, -math.inf):
            raise Unsupported("non-finite constant term")
        self.terms[i] = (P.const(Fraction(v)), ())
        self.defs[i] = ("const", Fraction(v))

    def atom(self, fn, a):
        N, D = a
        if P.is_const(D):
            c = P.cval(D)
            N = P.mul(N, P.const(1 / c))
            D = P.ONE
        else:
            c = P.lead(D)
            N = P.mul(N, P.const(1 / c))
            D = P.mul(D, P.const(1 / c))
        k = (fn, P.key(N), P.key(D))
        if k in self.atoms:
            return self.atoms[k]
        n = self.newvar("atom", f"{fn}!{len(self.atomdefs)}")
        self.atoms[k] = n
        z = self.zvars[n]
        x = self.zpoly(N) if P.is_const(D) else self.zpoly(N) / self.zpoly(D)
        self.side.extend(facts(fn, z, x))
        # values at the arguments the code may compute concretely (0, 1 and -1)
        fixed = None
        for c in (0, 1, -1) if fn != "sqrt" else (0, 1):
            q = P.sub(N, P.mul(P.const(Fraction(c)), D))
            fv = FN[fn](Fraction(c))
            if not q:
                fixed = fv
            if not P.is_const(q) or not q:
                self.side.append(z3.Implies(self.zpoly(q) == 0, z == z3.RealVal(str(fv))))
                if P.evaluate(q, self.model) == 0:
                    fixed = fv
        # congruence with earlier applications
        val = None
        dv = P.evaluate(D, self.model)
        av = P.evaluate(N, self.model) / dv if dv else Fraction(0)
        for (m, f2, N2, D2) in self.atomdefs:
            if f2 != fn:
                continue
            diff = P.sub(P.mul(N, D2), P.mul(N2, D))
            self.side.append(z3.Implies(self.zpoly(diff) == 0, z == self.zvars[m]))
            if P.evaluate(diff, self.model) == 0:
                val = self.model[m]
        if fixed is not None:
            val = fixed
        if val is None:
            name = self.vars[n][1]
            if name in self.seedmodel:
                val = self.seedmodel[name]
            else:
                val = FN[fn](av)
        self.model[n] = val
        self.atomdefs.append((n, fn, N, D))
        return n

    # ---- rational functions: numerator polynomial, denominator as ((factor number, exponent), ...)
    def factor(self, q):
        """q (not identically zero) as (coefficient, {factor number: exponent})."""
        fs = {}

        def put(f, e=1):
            k = P.key(f)
            n = self.facnum.get(k)
            if n is None:
                n = self.facnum[k] = len(self.facs)
                self.facs.append(f)
            fs[n] = fs.get(n, 0) + e
        if not P.is_const(q):
            common = None
            for m in q:
                d = dict(m)
                common = d if common is None else {v: min(e, d[v]) for v, e in common.items() if v in d}
                if not common:
                    break
            if common:
                t = tuple(sorted(common.items()))
                q = {P.mdiv(m, t): c for m, c in q.items()}
                for v, e in t:
                    put(P.var(v), e)
            for f in list(self.facs):
                if len(f) > 1 and len(f) <= len(q):
                    while not P.is_const(q):
                        r = P.divexact(q, f)
                        if r is None:
                            break
                        q = r
                        put(f)
        if P.is_const(q):
            return P.cval(q), fs
        c = P.lead(q)
        put({m: x / c for m, x in q.items()})
        return c, fs

    def expand(self, D):
        r = self.excache.get(D)
        if r is None:
            r = P.ONE
            for n, e in D:
                for _ in range(e):
                    r = P.mul(r, self.facs[n])
            self.excache[D] = r
        return r

    def reduce(self, N, D):
        if not N:
            return N, ()
        out = []
        for n, e in D:
            f = self.facs[n]
            while e and len(N) <= 400:
                r = P.divexact(N, f)
                if r is None:
                    break
                N = r
                e -= 1
            if e:
                out.append((n, e))
        return N, tuple(out)

    @staticmethod
    def dmul(a, b):
        if not a:
            return b
        if not b:
            return a
        d = dict(a)
        for n, e in b:
            d[n] = d.get(n, 0) + e
        return tuple(sorted(d.items()))

    def common(self, x, y, sign):
        """Numerator over the least common denominator, and that denominator."""
        (Na, Da), (Nb, Db) = x, y
        if sign < 0:
            Nb = P.neg(Nb)
        if Da == Db:
            return P.add(Na, Nb), Da
        da, db = dict(Da), dict(Db)
        L = dict(da)
        for n, e in db.items():
            L[n] = max(L.get(n, 0), e)
        ma = tuple(sorted((n, e - da.get(n, 0)) for n, e in L.items() if e > da.get(n, 0)))
        mb = tuple(sorted((n, e - db.get(n, 0)) for n, e in L.items() if e > db.get(n, 0)))
        return P.add(P.mul(Na, self.expand(ma)), P.mul(Nb, self.expand(mb))), tuple(sorted(L.items()))

    def op_term(self, i, op, a, b):
        T = self.terms
        self.defs[i] = (op, a, b)
        Na, Da = T[a]
        if op == "neg":
            T[i] = (P.neg(Na), Da)
            return
        if op in FN:
            n = self.atom(op, (Na, self.expand(Da)))
            T[i] = (P.var(n), ())
            return
        if op == "abs" or op == "max" or op == "min":
            raise Unsupported(op)
        Nb, Db = T[b]
        if op in ("add", "sub"):
            N, D = self.common(T[a], T[b], 1 if op == "add" else -1)
            T[i] = self.reduce(N, D) if D else (N, D)
        elif op == "mul":
            Na, Db = self.reduce(Na, Db) if Db else (Na, Db)
            Nb, Da = self.reduce(Nb, Da) if Da else (Nb, Da)
            T[i] = (P.mul(Na, Nb), self.dmul(Da, Db))
            if not T[i][0]:
                T[i] = (P.ZERO, ())
        elif op == "div":
            if not Nb:
                raise Unsupported("division by a term that is identically zero")
            if not Na:
                T[i] = (P.ZERO, ())
                return
            c, fs = self.factor(Nb)
            # cancel common denominators, then common factors
            da, db = dict(Da), dict(Db)
            for n in list(db):
                k = min(db[n], da.get(n, 0))
                if k:
                    db[n] -= k
                    da[n] -= k
            for n, e in fs.items():
                k = min(e, db.get(n, 0))
                if k:
                    fs[n] -= k
                    db[n] -= k
            N = Na if c == 1 else {m: x / c for m, x in Na.items()}
            N, D = self.reduce(N, tuple(sorted((n, e) for n, e in fs.items() if e)))
            N = P.mul(N, self.expand(tuple(sorted((n, e) for n, e in db.items() if e))))
            T[i] = (N, self.dmul(D, tuple(sorted((n, e) for n, e in da.items() if e))))
        else:
            raise Unsupported(op)

    # ---- formulas: ("true",), ("false",), ("cmp", sym, poly) with sym in "= < <= != ", ("not", f), ("and", f, g), ("or", f, g)
    def cmp(self, p, a, b):
        """p: bits 1 eq, 2 gt, 4 lt"""
        p &= 7
        if p == 0:
            return ("false",)
        if p == 7:
            return ("true",)
        q, D = self.common(self.terms[a], self.terms[b], -1)
        sym = {1: "=", 2: "<", 3: "<=", 4: "<", 5: "<=", 6: "!="}[p]
        if p in (1, 6):
            # factors that the path keeps nonzero do not matter
            for n in sorted(self.nonzero):
                f = self.facs[n]
                while q and not P.is_const(q) and len(q) <= 400:
                    r = P.divexact(q, f)
                    if r is None:
                        break
                    q = r
            return self.mkcmp(sym, self.radical(q))
        for n, e in D:
            if e & 1:
                q = P.mul(q, self.facs[n])
        if p & 2 and not p & 4:       # gt / ge  ->  lt / le of the negation
            q = P.neg(q)
        return self.mkcmp(sym, q)

    @staticmethod
    def radical(q):
        """A monomial vanishes where its square-free part does."""
        if len(q) == 1:
            (m, c), = q.items()
            return {tuple((v, 1) for v, _ in m): Fraction(1)}
        return q

    @staticmethod
    def mkcmp(sym, q):
        if P.is_const(q):
            c = P.cval(q)
            r = {"=": c == 0, "!=": c != 0, "<": c < 0, "<=": c <= 0}[sym]
            return ("true",) if r else ("false",)
        l = abs(P.lead(q))
        if l != 1:
            q = {m: c / l for m, c in q.items()}
        if sym in ("=", "!=") and P.lead(q) < 0:
            q = P.neg(q)
        return ("cmp", sym, q)

    def op_form(self, i, w):
        F = self.forms
        if w[0] in ("true", "false"):
            F[i] = (w[0],)
        elif w[0] == "cmp":
            F[i] = self.cmp(int(w[1]), int(w[2]), int(w[3]))
            self.defs[i] = ("cmp", int(w[1]), int(w[2]), int(w[3]))
        elif w[0] == "not":
            F[i] = self.neg(F[int(w[1])])
            self.defs[i] = ("not", int(w[1]))
        else:
            a, b = F[int(w[1])], F[int(w[2])]
            self.defs[i] = (w[0], int(w[1]), int(w[2]))
            if w[0] == "and":
                F[i] = ("false",) if ("false",) in (a, b) else b if a == ("true",) else a if b == ("true",) else ("and", a, b)
            else:
                F[i] = ("true",) if ("true",) in (a, b) else b if a == ("false",) else a if b == ("false",) else ("or", a, b)

    @staticmethod
    def neg(f):
        if f[0] == "true":
            return ("false",)
        if f[0] == "false":
            return ("true",)
        if f[0] == "not":
            return f[1]
        if f[0] == "cmp":
            s, q = f[1], f[2]
            if s == "=":
                return ("cmp", "!=", q)
            if s == "!=":
                return ("cmp", "=", q)
            if s == "<":
                return ("cmp", "<=", P.neg(q))
            return ("cmp", "<", P.neg(q))
        return ("not", f)

    def holds(self, f, model):
        k = f[0]
        if k == "true":
            return True
        if k == "false":
            return False
        if k == "not":
            return not self.holds(f[1], model)
        if k == "and":
            return self.holds(f[1], model) and self.holds(f[2], model)
        if k == "or":
            return self.holds(f[1], model) or self.holds(f[2], model)
        v = P.evaluate(f[2], model)
        s = f[1]
        return v == 0 if s == "=" else v != 0 if s == "!=" else v < 0 if s == "<" else v <= 0

    # ---- z3
    def zpoly(self, q):
        k = P.key(q)
        e = self.zcache.get(k)
        if e is not None:
            return e
        ts = []
        for m, c in q.items():
            fs = []
            for v, e in m:
                fs += [self.zvars[v]] * e
            cz = z3.RealVal(str(c)) if c.denominator != 1 else z3.RealVal(c.numerator)
            if not fs:
                ts.append(cz)
            elif c == 1:
                ts.append(z3.Product(*fs) if len(fs) > 1 else fs[0])
            else:
                ts.append(z3.Product(cz, *fs))
        e = z3.Sum(*ts) if len(ts) > 1 else (ts[0] if ts else z3.RealVal(0))
        self.zcache[k] = e
        return e

    def zform(self, f):
        k = f[0]
        if k == "true":
            return z3.BoolVal(True)
        if k == "false":
            return z3.BoolVal(False)
        if k == "not":
            return z3.Not(self.zform(f[1]))
        if k == "and":
            return z3.And(self.zform(f[1]), self.zform(f[2]))
        if k == "or":
            return z3.Or(self.zform(f[1]), self.zform(f[2]))
        e = self.zpoly(f[2])
        s = f[1]
        return e == 0 if s == "=" else e != 0 if s == "!=" else e < 0 if s == "<" else e <= 0

    def zraw(self, i):
        """Un-normalised numerator and denominator of a term, for proof obligations."""
        r = self.raw.get(i)
        if r is not None:
            return r
        d = self.defs[i]
        one = z3.RealVal(1)
        if d[0] == "var":
            r = (self.zvars[d[1]], one)
        elif d[0] == "const":
            r = (z3.RealVal(str(d[1])), one)
        elif d[0] in FN:
            (N, D) = self.terms[i]
            (m, _), = N.items()
            r = (self.zvars[m[0][0]], one)
        elif d[0] == "neg":
            a, b = self.zraw(d[1])
            r = (-a, b)
        else:
            (a, b), (c, e) = self.zraw(d[1]), self.zraw(d[2])
            if d[0] in ("add", "sub"):
                s = (lambda x, y: x + y) if d[0] == "add" else (lambda x, y: x - y)
                if z3.eq(b, e):
                    r = (s(a, c), b)
                else:
                    r = (s(a * e, c * b), b * e)
            elif d[0] == "mul":
                r = (a * c, b if z3.eq(e, one) else e if z3.eq(b, one) else b * e)
            else:
                r = (a if z3.eq(e, one) else a * e, c if z3.eq(b, one) else b * c)
        self.raw[i] = r
        return r

    def rawsize(self, i):
        """Tree size of the un-normalised numerator and denominator of a term."""
        r = self.rsize.get(i)
        if r is None:
            d = self.defs[i]
            if d[0] in ("var", "const") or d[0] in FN:
                r = (1, 1)
            elif d[0] == "neg":
                r = self.rawsize(d[1])
            else:
                (a, b), (c, e) = self.rawsize(d[1]), self.rawsize(d[2])
                r = (a + b + c + e, b + e) if d[0] in ("add", "sub") else (a + c, b + e)
            self.rsize[i] = r
        return r

    def rawformsize(self, i):
        d = self.defs.get(i)
        if d is None:
            return 1
        if d[0] in ("not", "and", "or"):
            return sum(self.rawformsize(j) for j in d[1:])
        return sum(self.rawsize(d[2])) + sum(self.rawsize(d[3]))

    def zrawform(self, i):
        d = self.defs.get(i)
        if d is None:
            return self.zform(self.forms[i])
        if d[0] == "not":
            return z3.Not(self.zrawform(d[1]))
        if d[0] == "and":
            return z3.And(self.zrawform(d[1]), self.zrawform(d[2]))
        if d[0] == "or":
            return z3.Or(self.zrawform(d[1]), self.zrawform(d[2]))
        p = d[1] & 7
        (a, b), (c, e) = self.zraw(d[2]), self.zraw(d[3])
        N, D = a * e - c * b, b * e
        if p == 0 or p == 7:
            return z3.BoolVal(p == 7)
        if p == 1:
            return N == 0
        if p == 6:
            return N != 0
        q = N * D
        return {2: q > 0, 3: q >= 0, 4: q < 0, 5: q <= 0}[p]

    def check(self, extra, kind, timeout=None):
        """Satisfiability of path and extra (a z3 formula). Returns 'sat', 'unsat', 'unknown'; sets self.found."""
        import time
        s = z3.SolverFor("QF_NRA")
        s.set("timeout", timeout or self.timeout)
        for f in self.path:
            s.add(self.zform(f))
        s.add(*self.side)
        s.add(extra)
        t = time.time()
        r = s.check()
        dt = time.time() - t
        self.stats["queries"] = self.stats.get("queries", 0) + 1
        self.stats["q_" + kind] = self.stats.get("q_" + kind, 0) + 1
        self.stats["solver_s"] = self.stats.get("solver_s", 0.0) + dt
        self.stats["max_query_s"] = max(self.stats.get("max_query_s", 0.0), dt)
        if r == z3.sat:
            m = s.model()
            self.found = {}
            for n, z in enumerate(self.zvars):
                v = m.eval(z)
                if z3.is_rational_value(v):
                    self.found[n] = Fraction(v.numerator_as_long(), v.denominator_as_long())
                elif z3.is_algebraic_value(v):
                    a = v.approx(40)
                    self.found[n] = Fraction(a.numerator_as_long(), a.denominator_as_long())
                else:
                    self.found[n] = self.model.get(n, Fraction(0))
            return "sat"
        if r == z3.unsat:
            return "unsat"
        return "unknown"

    def decide(self, f, kind="branch"):
        """Returns (can_be_true, can_be_false, model_true, model_false)."""
        if f[0] == "true":
            return True, False, self.model, None
        if f[0] == "false":
            return False, True, None, self.model
        nf = self.neg(f)
        for g in self.path:
            if g == f:
                return True, False, self.model, None
            if g == nf:
                return False, True, None, self.model
        if not self.exact:
            # the model only approximates irrational values: it decides nothing
            rt = self.check(self.zform(f), kind)
            mt = dict(self.found) if rt == "sat" else None
            rf = self.check(self.zform(nf), kind)
            mf = dict(self.found) if rf == "sat" else None
            if "unknown" in (rt, rf):
                raise Unsupported("solver: unknown on a branch")
            return mt is not None, mf is not None, mt, mf
        cur = self.holds(f, self.model)
        other = nf if cur else f
        r = self.check(self.zform(other), kind)
        if r == "unknown":
            raise Unsupported("solver: unknown on a branch")
        om = dict(self.found) if r == "sat" else None
        if cur:
            return True, om is not None, self.model, om
        return om is not None, True, om, self.model

    def add(self, f):
        if f[0] != "true":
            self.path.append(f)
            if f[0] == "cmp" and f[1] == "!=":
                self.nonzero.update(self.factor(f[2])[1])
            if self.exact and not self.holds(f, self.model):
                self.exact = False

    def prove(self, i):
        """None if the assertion holds on the whole path, else a counter-model."""
        f = self.forms[i]
        if f[0] != "true" and self.exact and not self.holds(f, self.model):
            self.stats["q_assert_refuted_by_model"] = self.stats.get("q_assert_refuted_by_model", 0) + 1
            return dict(self.model)
        if f[0] == "true":
            z = self.defs.get(i)
            if z is None:
                self.stats["assert_concrete"] = self.stats.get("assert_concrete", 0) + 1
                return None
        # the obligation as computed, without polynomial normalisation
        r = self.check(z3.Not(self.zrawform(i)), "assert", 3000) if self.rawformsize(i) <= 250 else "unknown"
        if r == "unknown":
            if f[0] == "true":
                self.stats["assert_by_normalisation"] = self.stats.get("assert_by_normalisation", 0) + 1
                return None
            r = self.check(z3.Not(self.zform(f)), "assert")
        if r == "unsat":
            return None
        if r == "unknown":
            raise Unsupported("solver: unknown on an assertion")
        return dict(self.found)

    def setmodel(self, m):
        if m is not self.model:
            self.model = m
            self.exact = all(self.holds(f, m) for f in self.path)

    def plain(self, model):
        """The model satisfies the path exactly and gives sine and cosine their true values."""
        return all(self.holds(f, model) for f in self.path) and \
            all(abs(model[n] - v) <= 1e-9 * (1 + abs(v))
                for (n, v) in self.truths(model))

    def truths(self, model):
        return ((n, FN[fn](P.evaluate(N, model) / P.evaluate(D, model)))
                for (n, fn, N, D) in self.atomdefs)

    def pick(self, i, model, kind):
        """A double for a symbolic value: the value itself or its integer part."""
        N, D = self.terms[i]
        v = P.evaluate(N, model) / P.evaluate(self.expand(D), model)
        return float(v) if kind == "x" else float(math.trunc(v))

    def others(self, i, values, kind):
        """A model in which the value (or its integer part) is none of the given ones."""
        N, D = self.terms[i]
        x = self.zpoly(N) if not D else self.zpoly(N) / self.zpoly(self.expand(D))
        fs = []
        for v in values:
            r = z3.RealVal(str(Fraction(v)))
            if kind == "x":
                fs.append(x != r)
            else:
                fs.append(z3.Or(x <= -1, x >= 1) if v == 0 else z3.Or(x < r, x >= r + 1) if v > 0 else z3.Or(x > r, x <= r - 1))
        return dict(self.found) if self.check(z3.And(*fs), "pick") == "sat" else None

    def export(self, model):
        """model as name -> double bits (inputs only), plus name -> Fraction for re-seeding."""
        bits = {}
        seed = {}
        for n, (kind, name) in enumerate(self.vars):
            if n in model:
                seed[name] = model[n]
                if kind == "input":
                    try:
                        bits[name] = float2bits(float(model[n]))
                    except OverflowError:
                        bits[name] = float2bits(math.inf)
        return bits, seed

    def native_model(self, model):
        """The inputs of a model rounded to doubles, with the true sines and cosines."""
        m = {}
        for n, (kind, name) in enumerate(self.vars):
            if kind == "input":
                m[n] = Fraction(float(model[n]))
        for (n, fn, N, D) in self.atomdefs:
            a = P.evaluate(N, m) / P.evaluate(D, m)
            m[n] = FN[fn](a)
        return m

    def value(self, i, model):
        N, D = self.terms[i]
        d = P.evaluate(self.expand(D), model)
        if d == 0:
            return None
        return float(P.evaluate(N, model) / d)

    # ---- exact evaluation with a bound for the rounding of the real code
    U = 2.0 ** -53

    def judge(self, model):
        """Evaluator of terms: (exact value, bound of the error the same computation makes in doubles)."""
        memo = {}

        def fin(v, e, op=True):
            if v and not 1e-200 < abs(v) < 1e200 or v.numerator.bit_length() + v.denominator.bit_length() > 1 << 16:
                raise Unsupported("range")
            if op and not (e == 0 and Fraction(float(v)) == v):
                e += self.U * float(abs(v))
            return v, e

        def term(i):
            stack = [i]
            while stack:
                j = stack[-1]
                if j in memo:
                    stack.pop()
                    continue
                d = self.defs[j]
                if d[0] == "var":
                    memo[j] = (model[d[1]], 0.0)
                elif d[0] == "const":
                    memo[j] = (d[1], 0.0)
                else:
                    todo = [k for k in (d[1:2] if d[0] == "neg" or d[0] in FN else d[1:3]) if k not in memo]
                    if todo:
                        stack.extend(todo)
                        continue
                    memo[j] = step(d)
                stack.pop()
            return memo[i]

        def step(d):
            op = d[0]
            va, ea = memo[d[1]]
            if op == "neg":
                return -va, ea
            if op in FN:
                v = FN[op](va)
                if op in ("sin", "cos"):
                    return v, ea + 4 * self.U * (1 + (float(abs(va)) if Fraction(float(va)) != va else 0))
                if op == "sqrt":
                    return fin(v, ea / max(float(v), 1e-200) + self.U * float(v), False)
                if ea == 0:
                    return fin(v, 0.0, False)
                if op == "f32":
                    return fin(v, 2 * ea + float(abs(v)) * 2.0 ** -22, False)
                same = FN[op](va - Fraction(ea)) == FN[op](va + Fraction(ea))
                return v, 0.0 if same else ea + 1
            vb, eb = memo[d[2]]
            if op == "add" or op == "sub":
                return fin(va + vb if op == "add" else va - vb, ea + eb)
            if op == "mul":
                return fin(va * vb, float(abs(va)) * eb + float(abs(vb)) * ea + ea * eb)
            if float(abs(vb)) <= eb:
                raise Unsupported("range")
            v = va / vb
            return fin(v, (ea + float(abs(v)) * eb) / (float(abs(vb)) - eb))

        def cmp(p, a, b):
            (va, ea), (vb, eb) = term(a), term(b)
            t = 4 * (ea + eb)
            d = va - vb
            poss = 0
            if abs(d) <= t:
                poss |= 1
            if d + Fraction(t) > 0:
                poss |= 2
            if d - Fraction(t) < 0:
                poss |= 4
            return poss & p != 0, poss & ~p & 7 != 0

        def form(i):
            d = self.defs.get(i)
            if d is None:
                t = self.forms[i]
                if t[0] == "cmp":
                    raise Unsupported("formula without definition")
                return t[0] == "true", t[0] == "false"
            if d[0] == "cmp":
                return cmp(d[1] & 7, d[2], d[3])
            if d[0] == "not":
                t, f = form(d[1])
                return f, t
            (t, f), (t2, f2) = form(d[1]), form(d[2])
            return (t and t2, f or f2) if d[0] == "and" else (t or t2, f and f2)
        return cmp, form

    def standing(self, i, inputs):
        """How formula i fares in doubles at given inputs (var number -> double): 'out' if the path may not
        be taken, 'false' if it is false whatever the rounding, else 'open'."""
        try:
            m = {n: Fraction(v) for n, v in inputs.items()}
            cmp, form = self.judge(m)
            for (p, a, b, d) in self.rawpath:
                t, f = form(p) if a is None else cmp(p & 7, a, b)
                if (f if d else t):
                    return "out"
            t, f = form(i)
            return "open" if t else "false"
        except (ZeroDivisionError, Unsupported, OverflowError, ValueError):
            return "out"

    def sharpen(self, i, model, tries=60):
        """A nearby model at which the real code, rounding included, must violate formula i.
        Returns (standing at the model itself, inputs by name or None)."""
        import random
        names = {n: name for n, (kind, name) in enumerate(self.vars) if kind == "input"}
        try:
            base = {n: float(model[n]) for n in names}
        except OverflowError:
            return "out", None
        rng = random.Random(7)
        first = None
        for k in range(tries):
            m = dict(base)
            if k:
                for n in m:
                    r = rng.random()
                    x = m[n]
                    if k % 3 == 0 and r < .6:
                        x = math.ldexp(round(math.ldexp(x, k)), -k) if abs(x) < 1e100 else x
                    elif k % 3 == 1 and r < .5:
                        x = x * rng.choice([1.5, .5, -1., 2., 1.25, 1.])
                    elif k % 3 == 2 and r < .4:
                        x = rng.choice([1., 2., -3., .5, 7., -1., -2.5, 3.25, .75, 100.])
                    m[n] = x
            st = self.standing(i, m)
            if first is None:
                first = st
            if st == "false":
                return first, {names[n]: float2bits(x) for n, x in m.items()}
        return first, None
