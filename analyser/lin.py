"""Affine expressions over integer symbols and a small exact polyhedral
entailment test (Fourier-Motzkin with integer tightening)."""
from fractions import Fraction
from math import gcd


def _nz(x):
    if isinstance(x, Fraction) and x.denominator == 1:
        return x.numerator
    return x


class Lin:
    """c + sum(coef*sym).  Immutable.  Every Lin denotes an integer."""
    __slots__ = ("t", "c", "_h")

    def __init__(self, t, c):
        self.t = t
        self.c = c
        self._h = hash((t, c))

    def __hash__(self):
        return self._h

    def __eq__(self, o):
        return isinstance(o, Lin) and self.t == o.t and self.c == o.c

    def __repr__(self):
        s = []
        for k, v in self.t:
            s.append(k if v == 1 else "-" + k if v == -1 else "%s*%s" % (v, k))
        if self.c or not s:
            s.append(str(self.c))
        return "+".join(s).replace("+-", "-")

    def d(self):
        return dict(self.t)


def mk(d, c):
    """dict, const -> int if constant else Lin"""
    t = tuple(sorted((k, _nz(v)) for k, v in d.items() if v != 0))
    c = _nz(c)
    if not t:
        if isinstance(c, Fraction):
            return Lin((), c)
        return c
    return Lin(t, c)


def sym(name):
    return Lin(((name, 1),), 0)


def parts(x):
    if isinstance(x, Lin):
        return x.t, x.c
    return (), x


def add(a, b, kb=1):
    if isinstance(a, int) and isinstance(b, int):
        return a + kb * b
    ta, ca = parts(a)
    tb, cb = parts(b)
    if not tb:
        r = ca + kb * cb
        return Lin(ta, _nz(r)) if ta else _nz(r)
    d = dict(ta)
    for k, v in tb:
        d[k] = d.get(k, 0) + kb * v
    return mk(d, ca + kb * cb)


def sub(a, b):
    return add(a, b, -1)


def scale(a, k):
    if isinstance(a, int) and isinstance(k, int):
        return a * k
    t, c = parts(a)
    return mk({s: v * k for s, v in t}, c * k)


def subst(e, m):
    """m: dict sym -> int|Lin"""
    if not isinstance(e, Lin):
        return e
    hit = False
    for k, _ in e.t:
        if k in m:
            hit = True
            break
    if not hit:
        return e
    d = {}
    c = e.c
    for k, v in e.t:
        if k in m:
            t2, c2 = parts(m[k])
            c += v * c2
            for k2, v2 in t2:
                d[k2] = d.get(k2, 0) + v * v2
        else:
            d[k] = d.get(k, 0) + v
    return mk(d, c)


def norm_ge(e):
    """Normalise e>=0 to integer primitive form; returns (terms tuple, const)"""
    t, c = parts(e)
    if not t:
        return (), c
    den = 1
    for _, v in t:
        if isinstance(v, Fraction):
            den = den * v.denominator // gcd(den, v.denominator)
    if isinstance(c, Fraction):
        den = den * c.denominator // gcd(den, c.denominator)
    if den != 1:
        t = tuple((k, int(v * den)) for k, v in t)
        c = c * den
        c = int(c)
    g = 0
    for _, v in t:
        g = gcd(g, v)
    if g > 1:
        t = tuple((k, v // g) for k, v in t)
        c = c // g  # floor: integer tightening
    return t, c


_inf_cache = {}


def infeasible(cons):
    """cons: iterable of (terms, const) meaning >=0 over integers.
    True only if there is no integer solution."""
    cons = frozenset(cons)
    r = _inf_cache.get(cons)
    if r is None:
        r = _infeasible(cons)
        if len(_inf_cache) > 400000:
            _inf_cache.clear()
        _inf_cache[cons] = r
    return r


def _infeasible(cons):
    best = {}
    for t, c in cons:
        if not t:
            if c < 0:
                return True
            continue
        o = best.get(t)
        if o is None or c < o:
            best[t] = c
    while best:
        # parallel contradictions
        cnt = {}
        for t, c in best.items():
            nt = tuple((k, -v) for k, v in t)
            o = best.get(nt)
            if o is not None and o + c < 0:
                return True
            for k, v in t:
                p = cnt.get(k)
                if p is None:
                    p = cnt[k] = [0, 0]
                p[0 if v > 0 else 1] += 1
        # choose variable
        bv, bs = None, None
        for k, (p, n) in cnt.items():
            s = p * n - p - n
            if bs is None or s < bs or (s == bs and k < bv):
                bv, bs = k, s
        pos, neg, rest = [], [], {}
        for t, c in best.items():
            co = 0
            for k, v in t:
                if k == bv:
                    co = v
                    break
            if co > 0:
                pos.append((t, c, co))
            elif co < 0:
                neg.append((t, c, -co))
            else:
                rest[t] = c
        if len(pos) * len(neg) > 3000:
            return False
        for tp, cp, a in pos:
            for tn, cn, b in neg:
                d = {}
                for k, v in tp:
                    d[k] = v * b
                for k, v in tn:
                    d[k] = d.get(k, 0) + v * a
                c = cp * b + cn * a
                t = tuple(sorted((k, v) for k, v in d.items() if v != 0))
                if not t:
                    if c < 0:
                        return True
                    continue
                g = 0
                for _, v in t:
                    g = gcd(g, v)
                if g > 1:
                    t = tuple((k, v // g) for k, v in t)
                    c = c // g
                o = rest.get(t)
                if o is None or c < o:
                    rest[t] = c
        best = rest
        if len(best) > 400:
            return False
    return False


def relevant(cons, terms):
    """connected component of constraints around the given symbols"""
    syms = {k for k, _ in terms}
    todo = list(cons)
    out = []
    changed = True
    while changed:
        changed = False
        nt = []
        for c in todo:
            if any(k in syms for k, _ in c[0]):
                out.append(c)
                for k, _ in c[0]:
                    if k not in syms:
                        syms.add(k)
                        changed = True
            else:
                nt.append(c)
        todo = nt
    return out


def entails(cons, e):
    """cons entail e >= 0 ?"""
    t, c = norm_ge(e)
    if not t:
        return c >= 0
    # quick: syntactic
    neg = (tuple((k, -v) for k, v in t), -c - 1)
    return infeasible([*relevant(cons, t), neg])
