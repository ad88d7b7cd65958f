"""Bit-precise IEEE-754 double interpretation of a path (QF_FP, round to nearest even)."""
import math
import random
import time

import z3

from realtheory import Unsupported, bits2float, float2bits

POOL = [0., 1., -1., 2., 1.5, -3., 1e300, -1e300, math.inf, -math.inf, math.nan, 5e-324, 7., 0.5]

PZERO, NZERO, ONE, MONE = (float2bits(x) for x in (0., -0., 1., -1.))
S = z3.Float64()
RNE = z3.RNE()


class FpPath:
    name = "QF_FP (binary64, RNE)"

    def __init__(self, stats, timeout_ms):
        self.stats = stats
        self.timeout = timeout_ms
        self.t = {}
        self.inputs = {}
        self.forms = {}
        self.path = []
        self.model = None      # z3-free: name -> bits
        self.seedmodel = {}
        self.zv = {}
        self.kbits = {}
        self.ops = {}          # id -> operand ids, for arithmetic terms
        self.rawpath = []
        self.cuts = set()      # arithmetic terms that are operands of another one

    def op_input(self, i, name, kind):
        v = z3.FP(name, S)
        self.t[i] = v
        self.inputs[name] = i
        self.zv[name] = v
        if kind == "real":
            self.path.append(z3.Not(z3.Or(z3.fpIsNaN(v), z3.fpIsInf(v))))

    def const(self, bits):
        x = bits2float(bits)
        if x != x:
            return z3.fpNaN(S)
        return z3.fpBVToFP(z3.BitVecVal(bits, 64), S)

    def op_const(self, i, bits):
        self.t[i] = self.const(bits)
        self.kbits[i] = bits

    def exact(self, op, a, b):
        """Operations with a neutral constant, without a rounding circuit (exact for every operand)."""
        ka, kb = self.kbits.get(a), self.kbits.get(b)
        if op == "add":
            for k, x in ((ka, b), (kb, a)):
                if k == PZERO:
                    return z3.If(z3.fpIsZero(self.t[x]), z3.fpPlusZero(S), self.t[x])
                if k == NZERO:
                    return self.t[x]
        if op == "sub" and kb == PZERO:
            return self.t[a]
        if op == "mul":
            for k, x in ((ka, b), (kb, a)):
                if k == ONE:
                    return self.t[x]
                if k == MONE:
                    return z3.fpNeg(self.t[x])
        if op == "div" and kb == ONE:
            return self.t[a]
        return None

    def op_term(self, i, op, a, b):
        A = self.t[a]
        if op in ("add", "sub", "mul", "div"):
            r = self.exact(op, a, b)
            if r is not None:
                self.t[i] = r
                return
        if op in ("add", "sub", "mul", "div"):
            self.ops[i] = (a, b)
            self.cuts.update(x for x in (a, b) if x in self.ops)
        if op == "neg":
            r = z3.fpNeg(A)
        elif op == "abs":
            r = z3.fpAbs(A)
        elif op == "f32":
            r = z3.fpFPToFP(RNE, z3.fpFPToFP(RNE, A, z3.Float32()), S)
        elif op == "sqrt":
            r = z3.fpSqrt(RNE, A)
        elif op in ("floor", "ceil", "trunc", "round", "rint"):
            r = z3.fpRoundToIntegral({"floor": z3.RTN(), "ceil": z3.RTP(), "trunc": z3.RTZ(), "round": z3.RNA(), "rint": RNE}[op], A)
        else:
            B = self.t.get(b)
            if op == "add":
                r = z3.fpAdd(RNE, A, B)
            elif op == "sub":
                r = z3.fpSub(RNE, A, B)
            elif op == "mul":
                r = z3.fpMul(RNE, A, B)
            elif op == "div":
                r = z3.fpDiv(RNE, A, B)
            elif op == "max":
                r = z3.If(z3.fpIsNaN(A), B, z3.If(z3.fpIsNaN(B), A, z3.If(z3.fpLT(A, B), B, A)))
            elif op == "min":
                r = z3.If(z3.fpIsNaN(A), B, z3.If(z3.fpIsNaN(B), A, z3.If(z3.fpLT(B, A), B, A)))
            else:
                raise Unsupported(op + " in fp mode")
        self.t[i] = r

    def cmp(self, p, a, b):
        A, B = self.t[a], self.t[b]
        fs = []
        if p & 1:
            fs.append(z3.fpEQ(A, B))
        if p & 2:
            fs.append(z3.fpGT(A, B))
        if p & 4:
            fs.append(z3.fpLT(A, B))
        if p & 8:
            fs.append(z3.Or(z3.fpIsNaN(A), z3.fpIsNaN(B)))
        return z3.Or(*fs) if len(fs) != 1 else fs[0]

    def op_form(self, i, w):
        F = self.forms
        if w[0] in ("true", "false"):
            F[i] = z3.BoolVal(w[0] == "true")
        elif w[0] == "cmp":
            F[i] = self.cmp(int(w[1]), int(w[2]), int(w[3]))
        elif w[0] == "not":
            F[i] = z3.Not(F[int(w[1])])
        else:
            a, b = F[int(w[1])], F[int(w[2])]
            F[i] = z3.And(a, b) if w[0] == "and" else z3.Or(a, b)

    def neg(self, f):
        return z3.Not(f)

    def guess(self, f):
        names = list(self.zv)
        rng = random.Random(len(self.path) * 31 + len(names))
        tries = [dict(self.model)] if self.model and all(n in self.model for n in names) else []
        for _ in range(40):
            m = {n: float2bits(rng.choice(POOL)) for n in names}
            if self.model and rng.random() < .6:
                k = rng.choice(names) if names else None
                m = {n: (m[n] if n == k or n not in self.model else self.model[n]) for n in names}
            tries.append(m)
        for m in tries:
            if self.holds(f, m):
                return m
        return None

    def solve(self, extra, kind):
        if self.cuts:
            # generalised query first: inner arithmetic results are arbitrary values
            fs = list(self.path) + [extra]
            for c in sorted(self.cuts, reverse=True):
                v = z3.FP(f"cut!{c}", S)
                fs = [z3.substitute(f, (self.t[c], v)) for f in fs]
            s = z3.SolverFor("QF_FP")
            s.set("timeout", self.timeout)
            s.add(*fs)
            t = time.time()
            r = s.check()
            st = self.stats
            st["queries"] = st.get("queries", 0) + 1
            st["q_generalised"] = st.get("q_generalised", 0) + 1
            st["solver_s"] = st.get("solver_s", 0.0) + time.time() - t
            if r == z3.unsat:
                return None
            # a satisfying assignment is often among simple values
            m = self.guess(z3.And(*(self.path + [extra])))
            if m is not None:
                st["q_guessed"] = st.get("q_guessed", 0) + 1
                return m
        s = z3.SolverFor("QF_FP")
        s.set("timeout", self.timeout)
        s.add(*self.path)
        s.add(extra)
        t = time.time()
        r = s.check()
        dt = time.time() - t
        st = self.stats
        st["queries"] = st.get("queries", 0) + 1
        st["q_" + kind] = st.get("q_" + kind, 0) + 1
        st["solver_s"] = st.get("solver_s", 0.0) + dt
        st["max_query_s"] = max(st.get("max_query_s", 0.0), dt)
        if r == z3.unknown:
            raise Unsupported("solver: unknown")
        if r == z3.unsat:
            return None
        m = s.model()
        out = {}
        for n, v in self.zv.items():
            x = m.eval(v, model_completion=True)
            bv = z3.simplify(z3.fpToIEEEBV(x))
            if z3.is_bv_value(bv):
                out[n] = bv.as_long()
            else:
                out[n] = float2bits(math.nan)
        return out

    def holds(self, f, model):
        if model is None:
            return None
        subs = [(v, self.const(model.get(n, 0))) for n, v in self.zv.items()]
        r = z3.simplify(z3.substitute(f, *subs))
        return True if z3.is_true(r) else False if z3.is_false(r) else None

    def decide(self, f, kind="branch"):
        f2 = z3.simplify(f)
        if z3.is_true(f2):
            return True, False, self.model, None
        if z3.is_false(f2):
            return False, True, None, self.model
        mt = self.solve(f, kind)
        mf = self.solve(z3.Not(f), kind)
        return mt is not None, mf is not None, mt, mf

    def add(self, f):
        self.path.append(f)

    def prove(self, i):
        f = self.forms[i]
        return self.solve(z3.Not(f), "assert")

    def export(self, model):
        return dict(model or {}), {}

    def value(self, i, model):
        subs = [(v, self.const(model.get(n, 0))) for n, v in self.zv.items()]
        x = z3.simplify(z3.substitute(self.t[i], *subs))
        if z3.is_fp_value(x):
            bv = z3.simplify(z3.fpToIEEEBV(x))
            if z3.is_bv_value(bv):
                return bits2float(bv.as_long())
            return math.nan
        return None

    def pick(self, i, model, kind):
        v = self.value(i, model)
        if v is None:
            raise Unsupported("value of a term")
        return v if kind == "x" or v != v or math.isinf(v) else float(math.trunc(v))

    def others(self, i, values, kind):
        fs = []
        t = self.t[i] if kind == "x" else z3.fpRoundToIntegral(z3.RTZ(), self.t[i])
        for v in values:
            fs.append(z3.Not(z3.fpIsNaN(t)) if v != v else z3.Not(z3.fpEQ(t, self.const(float2bits(v)))))
        return self.solve(z3.And(*fs), "pick")

    def feasible(self):
        return self.solve(z3.BoolVal(True), "feasible")
