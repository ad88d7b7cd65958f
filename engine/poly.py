"""Exact multivariate polynomials over the rationals, as dicts monomial -> Fraction.

A monomial is a tuple of (variable number, exponent) sorted by variable number.
"""
from fractions import Fraction

ONE = {(): Fraction(1)}
ZERO = {}


class TooBig(Exception):
    pass


LIMIT = 20000


def const(c):
    c = Fraction(c)
    return {(): c} if c else {}


def var(i):
    return {((i, 1),): Fraction(1)}


def add(a, b):
    if not a:
        return b
    if not b:
        return a
    r = dict(a)
    for m, c in b.items():
        s = r.get(m)
        if s is None:
            r[m] = c
        else:
            s = s + c
            if s:
                r[m] = s
            else:
                del r[m]
    return r


def neg(a):
    return {m: -c for m, c in a.items()}


def sub(a, b):
    return add(a, neg(b))


def mmul(m, n):
    if not m:
        return n
    if not n:
        return m
    d = dict(m)
    for v, e in n:
        d[v] = d.get(v, 0) + e
    return tuple(sorted(d.items()))


def mul(a, b):
    if not a or not b:
        return {}
    if len(a) == 1 and () in a:
        c = a[()]
        return b if c == 1 else {m: c * d for m, d in b.items()}
    if len(b) == 1 and () in b:
        c = b[()]
        return a if c == 1 else {m: c * d for m, d in a.items()}
    if len(a) * len(b) > LIMIT * 10:
        raise TooBig()
    r = {}
    for m, c in a.items():
        for n, d in b.items():
            k = mmul(m, n)
            s = r.get(k)
            r[k] = c * d if s is None else s + c * d
    r = {m: c for m, c in r.items() if c}
    if len(r) > LIMIT:
        raise TooBig()
    return r


def is_const(a):
    return not a or (len(a) == 1 and () in a)


def cval(a):
    return a.get((), Fraction(0))


def key(a):
    return tuple(sorted(a.items()))


def evaluate(a, env):
    """env: variable number -> Fraction"""
    t = Fraction(0)
    for m, c in a.items():
        for v, e in m:
            c = c * env[v] ** e
        t += c
    return t


def variables(a):
    s = set()
    for m in a:
        for v, _ in m:
            s.add(v)
    return s


def lead(a):
    m = max(a)
    return a[m]


def mkey(m):
    """Lexicographic monomial order."""
    return [(-v, e) for v, e in m]


def degrees(a):
    d = {}
    for m in a:
        for v, e in m:
            if e > d.get(v, 0):
                d[v] = e
    return d


def mdiv(m, n):
    d = dict(m)
    for v, e in n:
        k = d.get(v, 0) - e
        if k < 0:
            return None
        if k:
            d[v] = k
        else:
            del d[v]
    return tuple(sorted(d.items()))


def divexact(a, b):
    """a / b if b divides a, else None."""
    if not a:
        return a
    if is_const(b):
        c = cval(b)
        return a if c == 1 else {m: x / c for m, x in a.items()}
    if len(b) == 1:
        (n, c), = b.items()
        r = {}
        for m, x in a.items():
            q = mdiv(m, n)
            if q is None:
                return None
            r[q] = x / c
        return r
    if len(a) == 1:
        return None
    da, db = degrees(a), degrees(b)
    for v, e in db.items():
        if da.get(v, 0) < e:
            return None
    bm = max(b, key=mkey)
    bs = min(b, key=mkey)
    if mdiv(max(a, key=mkey), bm) is None or mdiv(min(a, key=mkey), bs) is None:
        return None
    bc = b[bm]
    rest = [(m, c) for m, c in b.items() if m != bm]
    r = dict(a)
    q = {}
    for _ in range(4 * len(a) + 16):
        if not r:
            return q
        m = max(r, key=mkey)
        t = mdiv(m, bm)
        if t is None:
            return None
        c = r.pop(m) / bc
        q[t] = c
        for n, d in rest:
            k = mmul(t, n)
            s = r.get(k, 0) - c * d
            if s:
                r[k] = s
            else:
                r.pop(k, None)
    return None
