"""Which harness runs decide which property, and within which bounds."""


class Run:
    def __init__(self, harness, mode, params, bounds, need=(), alarm=20, timeout_ms=20000, workers=8, budget=None,
                 max_validate=60, sample_p=0.02):
        self.harness, self.mode, self.params, self.bounds = harness, mode, list(params), bounds
        self.need, self.alarm, self.timeout_ms, self.workers, self.budget = need, alarm, timeout_ms, workers, budget
        self.max_validate, self.sample_p = max_validate, sample_p


ARITH, TRIG, NODIV, NOSUB = 1, 2, 4, 8


def expr(h, nv, nc, ns, k, ops=3, extra=(), **kw):
    o = []
    if ops & ARITH:
        o.append("+ *" + ("" if ops & NOSUB else " - neg") + ("" if ops & NODIV else " /"))
    if ops & TRIG:
        o.append("sin cos")
    cons = extra and extra[0] == 1
    return Run(h, "real", [nv, nc, ns, k, ops] + list(extra),
               f"every chain of {k} operations ({', '.join(o)}; {'node constructors' if cons else 'operators'}) over {nv} variables, "
               f"{nc} constant nodes and {ns} f64 operands, each using the previous result; all real values of constants and variables", **kw)


HAND = 54


def shapes(h, n, cons, extra=(), first=0, ops=0, **kw):
    what = f"{n} larger expressions over 3, 5 or 6 variables and up to 2 constants (sums of up to 35 terms, nesting to depth 15, nested products and quotients, shared parts"
    what += f"; {max(0, first + n - HAND)} of them generated from fixed seeds)"
    return Run(h, "real", [99, n, first, 0, ops, cons] + list(extra), what + f", {'node constructors' if cons else 'operators'}; all real values of constants and variables", **kw)


def c01(t):
    if t == "quick":
        return [Run("c01_forms", "real", [], "one operation (+ - * / neg), all 8 operand forms, operands of 12 shapes each; all real constants and points", need=["evaluated"]),
                expr("c01_prog", 2, 1, 1, 2, need=["evaluated"]),
                expr("c01_prog", 1, 0, 1, 3, need=["evaluated"]),
                shapes("c01_prog", 300, 0, need=["evaluated"]),
                shapes("c01_prog", 180, 1, need=["evaluated"])]
    return c01("quick") + [expr("c01_prog", 2, 1, 1, 3, need=["evaluated"]),
                           expr("c01_prog", 1, 0, 1, 4, ARITH, need=["evaluated"]),
                           shapes("c01_prog", 2000, 0, first=300), shapes("c01_prog", 1000, 1, first=180)]


def c02(t):
    r = [Run("c02", "real", [2, 1, 2], "every chain of 2 constructor operations over 2 same-named variables and 1 constant, every subset of mapped variables, extra entries", need=["missing", "complete"])]
    if t != "quick":
        r.append(Run("c02", "real", [3, 0, 3], "3 operations over 3 same-named variables, every subset mapped", need=["missing", "complete"]))
    return r


def c03(t):
    def r(n, c):
        return Run("c03", "real", [n, c], f"every history of {n} {'constraint' if c else 'node'} handles, each created (" + ("3 forms" if c else "8 kinds") + ") or cloned directly or indirectly from an earlier one; all real constants and map values",
                   need=["clones", "distinct"])
    return [r(3, 0), r(3, 1)] if t == "quick" else [r(4, 0), r(5, 1)]


def c04(t):
    r = [expr("c04", 2, 1, 0, 2, 3, (0, 0), need=["differentiated"]),
         expr("c04", 2, 1, 0, 2, 3, (1, 1), need=["differentiated"]),
         expr("c04", 1, 1, 0, 3, 3, (0, 0), need=["differentiated"]),
         shapes("c04", 300, 0, (0,), need=["differentiated"]),
         shapes("c04", 180, 1, (1,), need=["differentiated"])]
    if t != "quick":
        r += [expr("c04", 2, 1, 0, 3, 3, (0, 0), need=["differentiated"]),
              expr("c04", 2, 1, 0, 3, 3, (1, 0), need=["differentiated"]),
              shapes("c04", 2000, 0, (1,), first=300), shapes("c04", 1000, 1, (0,), first=180)]
    return r


def c05(t):
    r = [expr("c05", 2, 1, 0, 2, 3, (0, 2), need=["hessian", "gradient"]),
         expr("c05", 2, 1, 0, 2, 3, (1, 1), need=["hessian", "gradient"]),
         expr("c05", 1, 1, 0, 3, 3, (0, 1), need=["hessian", "gradient"]),
         shapes("c05", 300, 0, (2,), need=["hessian", "gradient"]),
         shapes("c05", 180, 1, (1,), need=["hessian", "gradient"])]
    if t != "quick":
        r += [expr("c05", 2, 0, 0, 3, 3, (0, 1), need=["hessian", "gradient"]),
              expr("c05", 3, 0, 0, 3, ARITH | NODIV, (0, 3), need=["hessian", "gradient"]),
              expr("c05", 2, 1, 0, 3, 3, (1, 1), need=["hessian", "gradient"]),
              shapes("c05", 2000, 0, (1,), first=300), shapes("c05", 1000, 1, (1,), first=180)]
    return r


def c06(t):
    r = [expr("c06", 2, 1, 0, 2, 3, (0,), need=["affine", "not_affine", "unreported"]),
         expr("c06", 2, 1, 0, 2, 3, (1,), need=["affine", "not_affine", "unreported"]),
         expr("c06", 2, 1, 0, 3, ARITH, (0,), need=["affine", "not_affine", "unreported"]),
         shapes("c06", 300, 0, need=["affine", "not_affine", "unreported"]),
         shapes("c06", 180, 1, need=["affine", "not_affine", "unreported"])]
    if t != "quick":
        r += [expr("c06", 2, 1, 0, 3, 3, (0,), need=["affine", "not_affine", "unreported"]),
              expr("c06", 2, 1, 0, 3, 3, (1,), need=["affine", "not_affine", "unreported"]),
              shapes("c06", 2000, 0, first=300), shapes("c06", 1000, 1, first=180)]
    return r


def c07(t):
    return [Run("c07", "fp", [], "3 relations, with and without tag, 9 forms of the sides (variables, sums, constants, numbers), every subset of mapped variables; all 2^64 bit patterns of each value (NaN payloads identified)",
                need=["missing", "complete"])]


def c08(t):
    def r(nv, nc, ns, k, ops, cons, seeds, need=("linear_row", "nonlinear_row")):
        e = expr("c08", nv, nc, ns, k, ops, (cons, seeds), need=list(need))
        e.bounds = "one side: " + e.bounds + f"; other side: a constant, either variable or variable plus constant; ==, <= and >=, sides swapped, {seeds} map orders, row offsets 0 and nonzero"
        return e
    def big(n, cons, first):
        e = shapes("c08", n, cons, (1,), first, need=["linear_row", "nonlinear_row", "limit_only"] if first == 0 and cons == 0 else [])
        e.bounds = "one side: " + e.bounds + "; other side and relations as in the other runs"
        return e
    q = [r(2, 1, 0, 1, 3, 0, 2, ("linear_row", "nonlinear_row", "limit_only")), r(2, 0, 1, 2, 1, 0, 1, ("linear_row", "nonlinear_row", "limit_only")), big(60, 0, 0)]
    return q if t == "quick" else q + [big(400, 0, 60), big(200, 1, 0), r(2, 1, 0, 2, 3, 0, 2), r(2, 1, 0, 2, 3, 1, 1), r(1, 0, 0, 3, 3, 0, 1)]


def c09(t):
    def r(m, ts, os_, vary):
        return Run("c09", "real", [m, ts, os_, vary], f"models of up to {m} constraints drawn from {[14, 2, 5, 5][ts]} templates (limits, rows, products, sine, cancelling and constant sides), "
                   f"{[3, 7, 2][os_]} objectives, minimized and maximized" + ("; 4 naming schemes (equal names, reversed, names of auxiliary variables), all integer/continuous kinds, 6 ways of giving initial values, 2 map orders" if vary else "")
                   + "; all real constants within 1e7 and points within 1e8", need=["lp", "milp", "minlp", "linear_row", "nonlinear_row"])
    def big(n, first, nv, k):
        return Run("c09", "real", [n, 9, first, nv, k], f"{n} models of {k} constraints over {nv} variables (limits, rows of up to 4 terms, products, sine and cosine) drawn from fixed seeds; "
                   "given coefficients; all real values of two limits, two right-hand sides and all points", need=["linear_row"])
    q = [r(1, 0, 1, 0), r(2, 2, 0, 0), r(1, 1, 2, 1), big(12, 0, 4, 6), big(6, 20, 6, 14), big(3, 9, 12, 16)]
    return q if t == "quick" else q + [r(2, 0, 0, 0), r(2, 2, 1, 0), r(3, 2, 0, 0), r(1, 2, 2, 1), big(200, 100, 5, 8), big(60, 400, 7, 16)]


def c10(t):
    def r(m, f, v, d):
        return Run("c10", "fp", [m, f, v, d], f"every list of {m} constraints, each x<=s, s<=x, x>=s or s>=x" + (", equality, sum or product constraint" if f > 4 else "") + (" on either of two variables" if v else "")
                   + (", the first possibly added twice" if d else "") + "; all bit patterns of each s except NaN (infinities included)", need=["recorded", "no_limit"])
    def big(m, n):
        return Run("c10", "fp", [m, 7, 1, 0, n], f"{n} fixed lists of {m} bounds and other constraints on three variables; all bit patterns of each bound except NaN", need=["recorded", "no_limit"])
    q = [r(2, 7, 1, 1), r(3, 4, 0, 0), big(6, 4)]
    return q if t == "quick" else q + [r(3, 7, 0, 0), r(4, 4, 0, 0), r(3, 4, 1, 0), big(8, 12)]


def c11(t):
    def r(m, s, k):
        return Run("c11", "real", [m, s, k], f"models of up to {m} constraints of {k} kinds (limits, linear and nonlinear rows of each relation), 3 objectives, every sequence of {s} solves with 5 outcomes each, "
                   "the model edited in between in 5 ways; all real solution values and multipliers", need=["published", "failed", "dual"])
    def big(m, s, n):
        return Run("c11", "real", [m, s, 10, n], f"{n} models of {m} constraints of 10 kinds, 3 objectives, every sequence of {s} solves with 5 outcomes each, the model edited in between in 5 ways; all real solution values and multipliers",
                   need=["published", "failed", "dual"])
    return [r(2, 2, 8), big(14, 2, 2), big(12, 1, 12)] if t == "quick" else [r(2, 2, 10), r(1, 3, 8), r(3, 1, 10), big(14, 2, 20), big(30, 1, 60)]


def c12(t):
    def r(nc, k, ops, s):
        o = ", ".join((["+ - * neg"] if ops & ARITH else []) + ([] if ops & NODIV or not ops & ARITH else ["/"]) + (["sin cos"] if ops & TRIG else []))
        return Run("c12", "real", [nc, k, ops, s], f"models whose objective or constraint is any chain of {k} operations ({o}) over 2 variables and {nc} constants, beside other nonlinear parts; every relation; "
                   f"columns in either order; {s} successive points with arbitrary auxiliary values; all real values", need=["constraint", "again"])
    def big(n, nv, k):
        return Run("c12", "real", [99, n, 0, 2, nv, k], f"{n} nonlinear models of {k} constraints over {nv} variables drawn from fixed seeds; two successive points; all real points", need=["constraint", "again"])
    return [r(1, 1, 3, 2), r(0, 1, 3, 3), r(0, 2, 5, 2), big(20, 3, 6), big(4, 12, 14)] if t == "quick" else [r(1, 1, 3, 3), r(0, 2, 3, 2), r(1, 2, 3, 2), big(200, 4, 6), big(40, 12, 14)]


def c13(t):
    def r(nx, nf, k, steps):
        return Run("c13", "real", [nx, nf, k, steps], f"up to {nf} constraints over {nx} variables, every list of up to {k} lower-triangular positions per Hessian "
                   f"(duplicates included), every evaluate/combine history of {steps} steps, NLP and MINLP; all real values, points and multipliers", need=["combined", "empty_block"])
    def big(nx, nf, n):
        return Run("c13", "real", [nx, nf, 99, 3, n], f"{n} fixed sets of {nf} Hessian patterns of up to 30 entries over {nx} variables, every evaluate/combine history of 3 steps; all real values, points and multipliers", need=["combined", "empty_block"])
    return [r(2, 2, 2, 4), big(5, 6, 12)] if t == "quick" else [r(2, 3, 2, 3), r(2, 2, 3, 4), r(3, 2, 2, 3), big(5, 6, 100), big(20, 12, 20)]


def large(h, need):
    return Run(h, "real", [999, 38], "38 larger patterns (up to 70 rows, 300 columns and 150 entries, or 66001 rows or columns; in order, in descending order, with long runs of repeated positions) drawn from fixed seeds; all real values", need=need)


def c14(t):
    def r(h, a, b, k, need):
        return Run(h, "real", [a, b, k], f"every shape up to {a}x{b} (0 included), every list of up to {k} triplets in any order; all real values", need=need)
    n = ["multiplied", "duplicates", "no_rows"]
    return [r("c14", 3, 3, 3, n), r("c14", 2, 2, 4, n), large("c14", ["multiplied", "duplicates"])] if t == "quick" else [r("c14", 3, 3, 4, n), r("c14", 2, 2, 5, n), large("c14", ["multiplied", "duplicates"])]


def c15(t):
    def r(h, a, b, k, need):
        return Run(h, "real", [a, b, k], f"every shape up to {a}x{b} (0 included), every list of up to {k} triplets in any order; all real values", need=need)
    n = ["converted", "summed"]
    return [r("c15", 3, 3, 4, n), r("c15", 2, 2, 5, n), large("c15", n)] if t == "quick" else [r("c15", 3, 3, 5, n), r("c15", 4, 2, 5, n), r("c15", 2, 2, 6, n), large("c15", n)]


def c16(t):
    def r(nx, na, k, v, tg, need=("written",)):
        vals = ["all real values of every number", "all real values of every number, each limit possibly infinite", "all real values of the matrix entries and right-hand sides"][v]
        return Run("c16", "real", [nx, na, k, v, tg], f"problems with 1..{nx} variables, 0..{na} rows and every list of up to {k} matrix entries (duplicates included), all integer/continuous kinds; {vals}"
                   + ("; file new, replaced, in a missing folder, a folder, on a full device" if tg else ""), need=list(need))
    q = [r(1, 1, 3, 1, 1, ("written", "refused")), r(2, 2, 1, 0, 0), r(3, 2, 2, 2, 0),
         Run("c16", "real", [13, 12, 30, 3, 0, 8], "8 problems with 13 variables, 12 rows and 30 matrix entries drawn from fixed seeds (values such as 0, 1, -1, 1e-12 and -1e20, infinite limits); one number of each kind any real", need=["written"]),
         Run("c16", "real", [150, 110, 260, 3, 0, 4], "4 problems with 150 variables, 110 rows and 260 matrix entries drawn from fixed seeds, integer variables none, all, every third, the last four; one number of each kind any real", need=["written"])]
    return q if t == "quick" else q + [r(2, 0, 0, 1, 1), r(2, 1, 2, 0, 0), r(3, 2, 3, 2, 0)]


def c17(t):
    def r(nx, na, k):
        return Run("c17", "real", [nx, na, k, 17], f"solution files of cbc and (two formats) clp for {nx} variables (every other one integer) and {na} rows: 11 headers or none, every list of up to {k} different items in any order, at most one line of 16 unusual shapes; all real values and multipliers",
                   need=["solved", "malformed", "infeasible", "other"])
    def big(nx, na, n):
        return Run("c17_large", "real", [nx, na, n], f"optimal solution files for {nx} variables and {na} rows, {n} orders and subsets of the lines; all real values and multipliers of two lines, others given", need=["solved"])
    return [r(2, 1, 3), r(1, 2, 2), big(13, 12, 12)] if t == "quick" else [r(2, 2, 4), r(2, 1, 3), big(13, 12, 40), big(120, 110, 12)]


def c18(t):
    def r(n, e):
        return Run("c18", "real", [n, 16, e], f"every sequence of {n} solves (cbc, clp; 4 problem types) with each of 16 behaviours of the solver process" + ("; log level default, 0 or negative; no folder for temporary files, working folder gone" if e else "")
                   + "; all real values the process may write", need=["solved", "fault", "not_started", "infeasible", "unsupported"])
    return [r(1, 1), r(2, 0)] if t == "quick" else [r(1, 1), r(3, 0)]


def c19(t):
    def r(nx, shapes, steps, red, bad, need=("history", "hessian")):
        return Run("c19", "real", [nx, shapes, steps, red, bad], f"every sequence of {steps} callbacks (objective, gradient, constraints, Jacobian, Hessian, both structures), each at a new point or the last one and with new or the last multipliers"
                   + (", flags also set redundantly" if red else "") + (", ending in a call with each null pointer or wrong dimension" if bad else "")
                   + (f"; every problem with {nx} variables, up to 1 linear row of {shapes} entries, 2 nonlinear constraints, Hessian entries up to {shapes}" if shapes else "; one sparsity pattern") + ", LP and NLP; all real data, points, multipliers, objective factors",
                   need=list(need))
    def big(nx, n, steps):
        return Run("c19", "real", [nx, 90 + n, steps, 0, 0], f"{n} larger problems over {nx} variables (3 linear rows, up to 4 nonlinear constraints) drawn from fixed seeds, LP and NLP; every sequence of {steps} callbacks; all real data, points, multipliers, objective factors", need=["history", "hessian"])
    q = [big(5, 6, 1), big(4, 1, 3), r(2, 0, 3, 0, 1, ("history", "hessian", "refused")), r(2, 0, 3, 1, 0), r(2, 1, 1, 0, 0), r(1, 1, 2, 0, 0)]
    return q if t == "quick" else q + [r(2, 0, 5, 0, 0), r(2, 1, 2, 0, 0), r(2, 0, 4, 1, 1), big(6, 9, 2)]


def c20(t):
    def r(nx, shapes, n, faults, need):
        return Run("c20", "real", [nx, shapes, n, faults], (f"every problem with {nx} variables, up to 1 linear row of {shapes} entries, 2 nonlinear constraints, with and without initial point" if shapes else "one LP and one NLP sparsity")
                   + f", {n} solves in a row; " + ["30 return codes", "each native call failing, parameters missing or of another type, options changed, 4 problem types, 5 return codes", "return code 0"][faults] + "; all real data and results", need=need)
    q = [r(1, 1, 1, 1, ["result", "failure", "unsupported"]), r(2, 0, 2, 1, ["result", "failure", "unsupported"]), r(2, 0, 2, 0, ["result"]), r(2, 1, 1, 2, ["result"]),
         Run("c20", "real", [6, 96, 1, 1], "6 larger problems over 6 variables (3 linear rows, up to 4 nonlinear constraints) drawn from fixed seeds, LP and NLP; each native call failing, parameters changed, 4 problem types; all real data and results", need=["result", "failure", "unsupported"])]
    return q if t == "quick" else q + [r(2, 1, 1, 1, ["result", "failure", "unsupported"]), r(2, 0, 3, 1, ["result", "failure"]), r(2, 1, 1, 0, ["result"])]


def c21(t):
    def r(n, wide):
        return Run("c21", "fp", [n, wide], f"every sequence of {n} sets on the cbc, clp and Ipopt solvers and a user's solver with parameters of every type: 5 names, {12 if wide else 5} values of all types (integers including the least and greatest, texts including empty, padded and with NUL); all bit patterns of float values (NaN payloads identified)", need=["set", "refused"])
    return [r(2, 1), r(3, 0)] if t == "quick" else [r(3, 1), r(3, 0)]


def c22(t):
    def m(n, parts):
        return Run("c22_model", "real", [n, parts], f"models of up to {n} constraints with sides among {parts} expressions, 3 relations, with and without tag, every sense of objective; all real constants and points", need=["model"])
    q = [expr("c22", 2, 1, 1, 2, 3, (0,), need=["printed"]), expr("c22", 2, 1, 0, 2, 3, (1,), need=["printed"]), expr("c22", 2, 0, 0, 3, 3, (0,), need=["printed"]), m(1, 7), m(2, 2),
         shapes("c22", 300, 0, need=["printed"]), shapes("c22", 180, 1, need=["printed"]),
         Run("c22_large", "real", [20, 5, 14], "20 models of 14 constraints over 5 variables drawn from fixed seeds; all real values of two limits, two right-hand sides and all points", need=["model"])]
    return q if t == "quick" else q + [expr("c22", 2, 1, 0, 3, 3, (0,), need=["printed"]), expr("c22", 2, 1, 0, 3, 3, (1,), need=["printed"]), m(2, 5), shapes("c22", 2000, 0, first=300), shapes("c22", 1000, 1, first=180), Run("c22_large", "real", [200, 12, 20], "200 models of 20 constraints over 12 variables drawn from fixed seeds", need=["model"])]


def c23(t):
    def r(nx, na, k, s):
        return Run("c23", "real", [nx, na, k, s], f"problems with 1..{nx} variables, 0..{na} rows, up to {k} matrix entries, with and without initial point, every sequence of {s} evaluations through any view; all real data and points",
                   need=["lp", "milp", "nlp"])
    def big(nx, na, n):
        return Run("c23", "real", [nx, na, 99, 2, n], f"{n} fixed problems with {nx} variables, {na} rows and {3 * na} matrix entries, every sequence of 2 evaluations through any view; all real data and points", need=["lp", "milp", "nlp"])
    return [r(2, 2, 2, 2), big(12, 9, 4)] if t == "quick" else [r(2, 2, 3, 2), r(2, 1, 1, 3), big(12, 9, 40)]


def c24(t):
    S = ["cbc and clp", "Ipopt", "cbc, clp and Ipopt"]
    def r(which, n, tset, solves, more, need=("feasible", "optimal")):
        return Run("c24", "real", [which, n, tset, solves, more], f"{S[which]}: models of up to {n} constraints of {[12, 9, 3][tset]} templates over two variables"
                   + ("" if more == 2 else ", minimised and maximised") + (f", names in either order, integer variables" if more == 1 else "") + (f"; every sequence of {solves} solves with a constraint added, the objective replaced or nothing changed in between" if solves > 1 else "")
                   + "; all real coefficients, sides, limits and every optimal point and multipliers", need=list(need))
    def big(which, n, nv, first, k):
        return Run("c24", "real", [which, n, 9, 1, nv, first, k], f"{S[which]}: {n} models of {k} constraints over {nv} variables drawn from fixed seeds, linear and (Ipopt) nonlinear; all real values of one limit and one right-hand side, every optimal point and multipliers", need=["feasible", "optimal"])
    q = [r(0, 1, 0, 1, 0), r(1, 2, 1, 1, 0), r(0, 1, 2, 2, 2), r(1, 1, 2, 2, 2), r(2, 1, 2, 1, 1, ("feasible", "optimal", "refused")), big(2, 10, 4, 0, 6), big(2, 10, 6, 30, 9), big(2, 12, 5, 100, 7)]
    return q if t == "quick" else q + [r(1, 2, 1, 1, 1), r(1, 1, 1, 3, 2), r(1, 1, 1, 2, 0), big(2, 100, 5, 100, 8), r(0, 2, 2, 1, 0), r(0, 2, 0, 1, 0)]

def c25(t):
    def nested(nx, a, b):
        return Run("c25_nested", "real", [nx, a, b], f"an Ipopt solve within a callback of another one, LP or NLP each, over {nx} and {nx} or {nx + 1} variables: every {a} value callbacks before it, every {b} within it, then one of each in turn or one of the outer after it; all real data, points, multipliers, results", need=["nested", "hessian"])
    q = [Run("c25", "real", [], "two command-line solves in one folder, cbc and clp in each combination, nested or overlapping in time, their solutions written before or after the wait, the second problem of the same size or larger, the second one solved, infeasible, without solution file, killed or failing; all real values of a coefficient, the solution and a multiplier of each", need=["both_solved", "one_infeasible", "one_failed"]), nested(2, 1, 1)]
    return q if t == "quick" else q + [nested(3, 1, 1), nested(1, 2, 1), nested(1, 1, 2)]


PROPS = {
    "C01": dict(runs=c01),
    "C02": dict(runs=c02),
    "C03": dict(runs=c03),
    "C04": dict(runs=c04),
    "C05": dict(runs=c05),
    "C06": dict(runs=c06),
    "C07": dict(runs=c07, theory="QF_FP"),
    "C08": dict(runs=c08),
    "C09": dict(runs=c09),
    "C10": dict(runs=c10, theory="QF_FP"),
    "C11": dict(runs=c11),
    "C12": dict(runs=c12),
    "C13": dict(runs=c13),
    "C14": dict(runs=c14),
    "C15": dict(runs=c15),
    "C16": dict(runs=c16),
    "C17": dict(runs=c17),
    "C18": dict(runs=c18),
    "C19": dict(runs=c19),
    "C20": dict(runs=c20),
    "C21": dict(runs=c21, theory="QF_FP"),
    "C22": dict(runs=c22),
    "C23": dict(runs=c23),
    "C24": dict(runs=c24),
    "C25": dict(runs=c25),
}
NOT_APPLICABLE = {p: "its check is not built yet" for p in ["C%02d" % i for i in range(1, 26)] if p not in PROPS}
