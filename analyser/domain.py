"""Abstract state: affine symbols + finite value tables (columns) + text facts."""
import numpy as np
from . import lin
from .lin import Lin, add, sub, scale, subst, norm_ge, entails

LIMIT = 4_600_000
SPLIT = 1_500_000
USIZE_MAX = (1 << 64) - 1
ISIZE_MAX = (1 << 63) - 1


class Recent:
    """results for the long arrays seen last, recognised by identity"""

    def __init__(self, size):
        self.size, self.d = size, {}

    def get(self, key, arr, fn):
        k = (key, id(arr))
        r = self.d.pop(k, None)
        if r is None or r[0] is not arr:
            r = (arr, fn())
            if len(self.d) >= self.size:
                del self.d[next(iter(self.d))]
        self.d[k] = r
        return r[1]


RECENT = Recent(24)
SAME = Recent(48)


def pack(a):
    """narrowest storage for a long column"""
    if len(a) < 8192 or a.dtype != np.int64:
        return a
    return SAME.get("pack", a, lambda: pack1(a))


def constant(a):
    """are all rows equal"""
    if len(a) < 8192:
        return bool((a == a[0]).all())
    return a[0] == a[-1] and SAME.get("const", a, lambda: bool((a == a[0]).all()))


def pack1(a):
    lo, hi = int(a.min()), int(a.max())
    if lo >= 0 and hi < 256:
        return a.astype(np.uint8)
    if lo >= -(1 << 31) and hi < (1 << 31):
        return a.astype(np.int32)
    return a


def small_unique(a):
    """sorted distinct values; fast for narrow ranges"""
    lo, hi = int(a.min()), int(a.max())
    if hi - lo < (1 << 22):
        return np.flatnonzero(np.bincount(a - lo)) + lo
    return np.unique(a)


class Fork(Exception):
    def __init__(self, states):
        self.states = states


class Infeasible(Exception):
    pass


class Unsupported(Exception):
    pass


class Violation(Exception):
    """definite property violation on the current path"""

    def __init__(self, kind, msg):
        self.kind = kind
        self.msg = msg


# ---------------------------------------------------------------- values
class Col:
    __slots__ = ("v",)

    def __init__(self, v):
        self.v = v

    def __eq__(self, o):
        return isinstance(o, Col) and self.v == o.v

    def __hash__(self):
        return hash(("col", self.v))

    def __repr__(self):
        return "Col(%s)" % self.v


class Rad:
    """sum of column<<shift over disjoint bit fields: ((vid,shift,width),...)"""
    __slots__ = ("f",)

    def __init__(self, f):
        self.f = tuple(sorted(f, key=lambda x: x[1]))

    def __eq__(self, o):
        return isinstance(o, Rad) and self.f == o.f

    def __hash__(self):
        return hash(("rad", self.f))

    def __repr__(self):
        return "Rad%r" % (self.f,)


class Top:
    """unknown scalar in [lo,hi]"""
    __slots__ = ("lo", "hi")

    def __init__(self, lo, hi):
        self.lo = lo
        self.hi = hi

    def __eq__(self, o):
        return isinstance(o, Top) and (self.lo, self.hi) == (o.lo, o.hi)

    def __hash__(self):
        return hash(("top", self.lo, self.hi))

    def __repr__(self):
        return "Top(%s,%s)" % (self.lo, self.hi)


class Agg:
    """struct / tuple / enum value / closure / unit / fndef"""
    __slots__ = ("var", "f")

    def __init__(self, var, f):
        self.var = var
        self.f = tuple(f)

    def __repr__(self):
        return "Agg%d%r" % (self.var, self.f)


class Arr:
    __slots__ = ("e",)

    def __init__(self, e):
        self.e = tuple(e)

    def __repr__(self):
        return "Arr%r" % (self.e,)


class Ptr:
    """thin pointer: fields and ("ix", i) elements from base; a last ("v4", s)
    is the array of the four elements from s on"""
    __slots__ = ("base", "path")

    def __init__(self, base, path=()):
        self.base = base
        self.path = tuple(path)

    def __repr__(self):
        return "Ptr(%r,%r)" % (self.base, self.path)


def view_len(e):
    """length of an array view at the end of a path, 0 for other elements"""
    return int(e[0][1:]) if isinstance(e, tuple) and e[0] != "ix" else 0


class Slc:
    """fat pointer to elements [start,end) of the array-like at base/path"""
    __slots__ = ("base", "path", "start", "end")

    def __init__(self, base, path, start, end):
        self.base = base
        self.path = tuple(path)
        self.start = start
        self.end = end

    def __repr__(self):
        return "Slc(%r,%r,%r,%r)" % (self.base, self.path, self.start, self.end)


class It:
    """opaque library value (iterators, Utf8Error, ...) with named fields"""
    __slots__ = ("kind", "f")

    def __init__(self, kind, f):
        self.kind = kind
        self.f = tuple(f)

    def __repr__(self):
        return "It(%s,%r)" % (self.kind, self.f)


class FnP:
    __slots__ = ("inst",)

    def __init__(self, inst):
        self.inst = inst

    def __repr__(self):
        return "FnP(%s)" % self.inst


class Uninit:
    def __repr__(self):
        return "UNINIT"


UNINIT = Uninit()
UNIT = Agg(0, ())


def map_value(v, f):
    """apply f to every scalar leaf of a value tree (f gets int|Lin|Col|Rad|Top)"""
    if isinstance(v, (int, Lin, Col, Rad, Top)):
        return f(v)
    if isinstance(v, Agg):
        n = tuple(map_value(x, f) for x in v.f)
        return v if all(a is b for a, b in zip(n, v.f)) else Agg(v.var, n)
    if isinstance(v, Arr):
        n = tuple(map_value(x, f) for x in v.e)
        return v if all(a is b for a, b in zip(n, v.e)) else Arr(n)
    if isinstance(v, Ptr):
        p = tuple((x[0], f(x[1])) if isinstance(x, tuple) else x for x in v.path)
        return v if p == v.path else Ptr(v.base, p)
    if isinstance(v, Slc):
        p = tuple((x[0], f(x[1])) if isinstance(x, tuple) else x for x in v.path)
        a, b = f(v.start), f(v.end)
        return v if (p == v.path and a is v.start and b is v.end) else Slc(v.base, p, a, b)
    if isinstance(v, It):
        n = tuple(map_value(x, f) for x in v.f)
        return v if all(a is b for a, b in zip(n, v.f)) else It(v.kind, n)
    return v


def leaves(v, out):
    if isinstance(v, (int, Lin, Col, Rad, Top)):
        out.append(v)
    elif isinstance(v, Agg):
        for x in v.f:
            leaves(x, out)
    elif isinstance(v, Arr):
        for x in v.e:
            leaves(x, out)
    elif isinstance(v, (Ptr, Slc)):
        for x in v.path:
            if isinstance(x, tuple):
                out.append(x[1])
        if isinstance(v, Slc):
            out.append(v.start)
            out.append(v.end)
    elif isinstance(v, It):
        for x in v.f:
            leaves(x, out)


def shape(v):
    """hashable structure without scalar leaves"""
    if isinstance(v, (int, Lin, Col, Rad, Top)):
        return "."
    if isinstance(v, Agg):
        return ("A", v.var) + tuple(shape(x) for x in v.f)
    if isinstance(v, Arr):
        return ("R",) + tuple(shape(x) for x in v.e)
    if isinstance(v, Ptr):
        return ("P", v.base, tuple((x[0],) if isinstance(x, tuple) else x for x in v.path))
    if isinstance(v, Slc):
        return ("S", v.base, tuple((x[0],) if isinstance(x, tuple) else x for x in v.path))
    if isinstance(v, It):
        return ("I", v.kind) + tuple(shape(x) for x in v.f)
    if isinstance(v, FnP):
        return ("F", v.inst)
    if v is UNINIT:
        return "U"
    return ("?", repr(v))


def eval_lin_set(e):
    return e


BYTES = (1 << 256) - 1
ASCII = (1 << 128) - 1
_masks = {}


def mask_of(a):
    """a set of byte values as a number"""
    t = np.zeros(256, dtype=np.uint8)
    t[np.asarray(a)] = 1
    return int.from_bytes(np.packbits(t, bitorder="little").tobytes(), "little")


def mask_bytes(m):
    r = _masks.get(m)
    if r is None:
        if len(_masks) > 256:
            _masks.clear()
        b = np.frombuffer(m.to_bytes(32, "little"), dtype=np.uint8)
        r = _masks[m] = np.flatnonzero(np.unpackbits(b, bitorder="little")).astype(np.int64)
    return r


class State:
    __slots__ = (
        "frames", "mem", "clus", "c2c", "atoms", "cons", "cset", "nb", "bd", "rng", "rad",
        "P", "Q", "T", "pend", "bulk", "exact", "why", "nforks", "log", "marks",
        "uid", "shared", "stale", "loops", "cmpdet", "steps", "clob", "note", "env", "bytefacts", "commits",
    )

    def __init__(self):
        self.frames = []
        self.mem = {}
        self.clus = {}     # cid -> {vid: array}
        self.c2c = {}      # vid -> cid
        self.atoms = {}    # (kind, posLin) -> vid | int
        self.cons = ()     # tuple of (terms,const)
        self.cset = frozenset()
        self.nb = frozenset()    # {(a,b)} positions [a,b) are not char boundaries
        self.bd = frozenset()    # {pos} char boundaries
        self.rng = ()            # range facts: (set of byte values, a, b)
        self.rad = {}            # Rad.f -> tuple of intervals
        self.P = 0
        self.Q = 0
        self.T = None            # end of known-valid text region in 'in'
        self.pend = {}           # rel offset -> value
        self.stale = {}          # output position -> what it held before the call
        self.bulk = ()           # ((outstart, n, base, srcstart),...)
        self.exact = True
        self.why = ()
        self.nforks = 0
        self.log = ()
        self.marks = {}
        self.uid = [0]
        self.loops = {}
        self.cmpdet = False
        self.steps = 0
        self.clob = False
        self.note = ()
        self.env = None
        self.bytefacts = {}
        self.commits = ()

    def copy(self):
        s = State.__new__(State)
        s.frames = [list(f) for f in self.frames]
        s.mem = dict(self.mem)
        s.clus = dict(self.clus)
        s.c2c = dict(self.c2c)
        s.atoms = dict(self.atoms)
        s.cons = self.cons
        s.cset = self.cset
        s.nb = self.nb
        s.bd = self.bd
        s.rng = self.rng
        s.rad = dict(self.rad)
        s.P = self.P
        s.Q = self.Q
        s.T = self.T
        s.pend = dict(self.pend)
        s.stale = self.stale
        s.bulk = self.bulk
        s.exact = self.exact
        s.why = self.why
        s.nforks = self.nforks
        s.log = self.log
        s.marks = dict(self.marks)
        s.uid = self.uid
        s.loops = dict(self.loops)
        s.cmpdet = self.cmpdet
        s.steps = self.steps
        s.clob = self.clob
        s.note = self.note
        s.env = self.env
        s.bytefacts = dict(self.bytefacts)
        s.commits = self.commits
        return s

    def fresh(self, p="x"):
        self.uid[0] += 1
        return "%s%d" % (p, self.uid[0])

    def inexact(self, reason):
        self.exact = False
        if reason not in self.why:
            self.why = self.why + (reason,)

    # ------------------------------------------------------------ columns
    def new_cluster(self, cols):
        cid = self.fresh("k")
        self.clus[cid] = {v: pack(a) for v, a in cols.items()}
        for v in cols:
            self.c2c[v] = cid
        return cid

    def arr(self, vid):
        a = self.clus[self.c2c[vid]][vid]
        return a if a.dtype == np.int64 else RECENT.get("arr", a, lambda: a.astype(np.int64))

    def new_col(self, arr, name="v"):
        v = self.fresh(name)
        self.new_cluster({v: pack(arr)})
        return Col(v)

    def derive(self, vid, arr):
        """new column in the cluster of vid"""
        if len(arr) and constant(arr):
            return int(arr[0])
        cid = self.c2c[vid]
        v = self.fresh("d")
        c = dict(self.clus[cid])
        c[v] = pack(arr)
        self.clus[cid] = c
        self.c2c[v] = cid
        return Col(v)

    def norm(self, x):
        """collapse single valued columns"""
        if isinstance(x, Col):
            a = self.arr(x.v)
            if len(a) == 1:
                return int(a[0])
            if a[0] == a[-1] and constant(a):
                return int(a[0])
            return x
        if isinstance(x, Rad):
            return self.norm_rad(x)
        if isinstance(x, Top):
            return self.materialise_top(x)
        return x

    def materialise_top(self, x):
        self.inexact("unknown value read")
        if x.hi - x.lo < 70000:
            return self.new_col(np.arange(x.lo, x.hi + 1, dtype=np.int64), "top")
        v = self.fresh("t")
        e = lin.sym(v)
        self.assume_ge(add(e, -x.lo))
        self.assume_ge(sub(x.hi, e))
        return e

    def norm_rad(self, x):
        n = 1
        seen = set()
        for v, sh, w in x.f:
            c = self.c2c[v]
            if c not in seen:
                seen.add(c)
                n *= len(self.arr(v))
        if n <= LIMIT:
            acc = None
            first = x.f[0]
            cid = self.merge([v for v, _, _ in x.f])
            for v, sh, w in x.f:
                a = self.arr(v) << sh
                acc = a if acc is None else acc + a
            return self.derive(first[0], acc)
        return x

    def merge(self, vids):
        cids = []
        for v in vids:
            c = self.c2c[v]
            if c not in cids:
                cids.append(c)
        if len(cids) == 1:
            return cids[0]
        n = 1
        for c in cids:
            n *= len(next(iter(self.clus[c].values())))
        if n > SPLIT:
            # look at one value of the simplest column at a time instead
            best = None
            for v in vids:
                u = len(small_unique(self.arr(v)))
                if 1 < u <= 300 and (best is None or u < best[0]):
                    best = (u, v)
            if best is not None:
                self.split_values(Col(best[1]), 300)
        if n > LIMIT:
            raise Unsupported("value table too large (%d rows)" % n)
        cols = {}
        rep_after = n
        for c in cids:
            cl = self.clus.pop(c)
            m = len(next(iter(cl.values())))
            rep_after //= m
            tile = n // (m * rep_after)
            for v, a in cl.items():
                b = np.repeat(a, rep_after) if rep_after > 1 else a
                if tile > 1:
                    b = np.tile(b, tile)
                cols[v] = b
        return self.new_cluster(cols)

    def live_cols(self):
        out = set()
        vals = list(self.mem.values())
        lv = []
        for v in vals:
            leaves(v, lv)
        for v in self.pend.values():
            lv.append(v)
        for v in self.stale.values():
            lv.append(v)
        for x in lv:
            if isinstance(x, Col):
                out.add(x.v)
            elif isinstance(x, Rad):
                for f in x.f:
                    out.add(f[0])
        for v in self.atoms.values():
            if isinstance(v, str):
                out.add(v)
        for f in self.rad:
            for v, _, _ in f:
                out.add(v)
        for fr in self.frames:
            if len(fr) > 5 and fr[5]:
                for v in fr[5]:
                    lv2 = []
                    leaves(v, lv2)
                    for x in lv2:
                        if isinstance(x, Col):
                            out.add(x.v)
        return out

    def gc(self):
        live = self.live_cols()
        for cid in list(self.clus):
            cl = self.clus[cid]
            keep = {v: a for v, a in cl.items() if v in live}
            if len(keep) != len(cl):
                for v in cl:
                    if v not in live:
                        self.c2c.pop(v, None)
                if keep:
                    self.clus[cid] = keep
                else:
                    del self.clus[cid]

    def big(self):
        """holds long columns: dead ones are worth dropping early"""
        for cl in self.clus.values():
            for a in cl.values():
                if len(a) > 100_000:
                    return True
                break
        return False

    def restrict(self, vid, mask):
        """keep rows of vid's cluster where mask"""
        cid = self.c2c[vid]
        if not mask.any():
            raise Infeasible()
        if mask.all():
            return
        idx = np.flatnonzero(mask)
        self.clus[cid] = {v: a[idx] for v, a in self.clus[cid].items()}

    def split_mask(self, vid, mask):
        """decide a row predicate; forks when it varies"""
        if mask.all():
            return True
        if not mask.any():
            return False
        a = self.copy()
        b = self.copy()
        a.restrict(vid, mask)
        b.restrict(vid, ~mask)
        a.nforks += 1
        b.nforks += 1
        raise Fork([a, b])

    def split_values(self, x, limit=24):
        """return an int/Lin; forks a Col by distinct values"""
        x = self.norm(x)
        if not isinstance(x, Col):
            return x
        a = self.arr(x.v)
        vals = small_unique(a)
        if len(vals) == 1:
            return int(vals[0])
        if len(vals) > limit:
            raise Unsupported("data-dependent quantity with %d values" % len(vals))
        out = []
        for v in vals:
            s = self.copy()
            s.restrict(x.v, a == v)
            s.nforks += 1
            out.append(s)
        raise Fork(out)

    # -------------------------------------------------------- constraints
    def entails(self, e):
        if isinstance(e, int):
            return e >= 0
        return entails(self.cons, e)

    def entails_eq(self, a, b):
        d = sub(a, b)
        if isinstance(d, int):
            return d == 0
        return self.entails(d) and self.entails(scale(d, -1))

    def assume_ge(self, e):
        """add e >= 0"""
        t, c = norm_ge(e)
        if not t:
            if c < 0:
                raise Infeasible()
            return
        if self.entails(e):
            return
        neg = scale(e, -1)
        if self.entails(sub(neg, 1)):
            raise Infeasible()
        if self.entails(neg):
            self.assume_eq(e, 0)
            return
        nc = [x for x in self.cons if not (x[0] == t and x[1] >= c)]
        # adding may turn neg into equality
        nc.append((t, c))
        self.cons = tuple(nc)
        if entails(self.cons, neg):
            self.assume_eq(e, 0)

    PRIO = {"L": 9, "O": 8, "P": 6, "Q": 5}

    def assume_eq(self, a, b):
        d = sub(a, b)
        if isinstance(d, int):
            if d != 0:
                raise Infeasible()
            return
        if self.entails(sub(d, 1)) or self.entails(sub(scale(d, -1), 1)):
            raise Infeasible()
        # choose symbol with unit coefficient if possible, lowest priority
        best = None
        for k, v in d.t:
            p = (0 if abs(v) == 1 else 1, self.PRIO.get(k, 0), k)
            if best is None or p < best[0]:
                best = (p, k, v)
        _, k, v = best
        from fractions import Fraction
        rest = {s: c for s, c in d.t if s != k}
        e = scale(lin.mk(rest, d.c), Fraction(-1) / Fraction(v))
        self.substitute({k: e})

    def substitute(self, m):
        f = lambda x: subst(x, m) if isinstance(x, Lin) else x
        for k, v in self.mem.items():
            n = map_value(v, f)
            if n is not v:
                self.mem[k] = n
        for fr in self.frames:
            if fr[5]:
                fr[5] = [map_value(x, f) for x in fr[5]]
            if fr[3] and fr[3][1]:
                fr[3] = (fr[3][0], tuple((x[0], f(x[1])) if isinstance(x, tuple) else x for x in fr[3][1]))
        na = {}
        same = []
        for k, v in self.atoms.items():
            nk = (k[0], f(k[1]))
            if nk in na:
                same.append((na[nk], v))
            else:
                na[nk] = v
        self.atoms = na
        for x, y in same:
            self.unify(x, y)
        if self.T is not None:
            self.link_text()
        old = self.cons
        self.cons = ()
        for t, c in old:
            e = subst(Lin(t, c), m)
            t2, c2 = norm_ge(e)
            if not t2:
                if c2 < 0:
                    raise Infeasible()
                continue
            if (t2, c2) not in self.cons:
                self.cons = self.cons + ((t2, c2),)
        self.nb = frozenset((f(a), f(b)) for a, b in self.nb)
        self.bd = frozenset(f(a) for a in self.bd)
        self.rng = tuple((tag, f(a), f(b)) for tag, a, b in self.rng)
        self.P = f(self.P)
        self.Q = f(self.Q)
        if self.T is not None:
            self.T = f(self.T)
        self.pend = {k: f(v) for k, v in self.pend.items()}
        if self.stale:
            self.stale = {f(k): v for k, v in self.stale.items()}
        self.bulk = tuple((f(a), f(n), b, f(c)) for a, n, b, c in self.bulk)
        self.marks = {k: {n: f(v) for n, v in d.items()} for k, d in self.marks.items()}
        self.env = {k: f(v) for k, v in self.env.items()}
        self.commits = tuple(tuple(f(x) for x in c) for c in self.commits)
        if self.T is not None or True:
            self.check_facts()

    def unify(self, x, y):
        """two names of the same input datum"""
        if not isinstance(x, str) and not isinstance(y, str):
            if x != y:
                raise Infeasible()
            return
        if not isinstance(x, str):
            x, y = y, x
        if not isinstance(y, str):
            self.restrict(x, self.arr(x) == y)
            return
        cx, cy = self.c2c[x], self.c2c[y]
        if cx != cy:
            if len(self.clus[cx]) == 1:
                x, y, cx, cy = y, x, cy, cx
            X, Y = self.arr(x), self.arr(y)
            if len(self.clus[cy]) == 1:
                u = small_unique(Y)
                lo = int(u[0])
                t = np.zeros(int(u[-1]) - lo + 1, dtype=bool)
                t[u - lo] = True
                z = X - lo
                m = (z >= 0) & (z < len(t))
                m[m] = t[z[m]]
                self.restrict(x, m)
                self.clus.pop(cy)
                c = dict(self.clus[cx])
                c[y] = c[x]
                self.clus[cx] = c
                self.c2c[y] = cx
                return
            o = np.argsort(Y, kind="stable")
            ys = Y[o]
            lf = np.searchsorted(ys, X, "left")
            cnt = np.searchsorted(ys, X, "right") - lf
            tot = int(cnt.sum())
            if not tot:
                raise Infeasible()
            if tot > LIMIT:
                raise Unsupported("value table too large (%d rows)" % tot)
            ix = np.repeat(np.arange(len(X)), cnt)
            iy = o[np.repeat(lf - np.cumsum(cnt) + cnt, cnt) + np.arange(tot)]
            cols = {v: a[ix] for v, a in self.clus.pop(cx).items()}
            cols.update((v, a[iy]) for v, a in self.clus.pop(cy).items())
            self.new_cluster(cols)
            return
        self.restrict(x, self.arr(x) == self.arr(y))

    def lone(self, w):
        """is column w related to nothing else and not held anywhere"""
        return not any(x in self.clus[self.c2c[w]] for x in self.live_cols())

    def link_text(self):
        """bytes read one by one that turn out to lie inside a known character"""
        from .spec import utf8_class, utf8_bytes
        for (k, p), v in list(self.atoms.items()):
            if k != "c":
                continue
            n = 0
            for (k2, q), w in list(self.atoms.items()):
                if k2 != "b":
                    continue
                d = sub(q, p)
                if not isinstance(d, int) or d < 0 or d > 3:
                    continue
                a = self.arr(v) if isinstance(v, str) else np.array([v])
                n = n or int(utf8_class(a[:1])[0])
                if d >= n:
                    continue
                b = utf8_bytes(a, n)[d]
                del self.atoms[(k2, q)]
                if isinstance(v, str) and (not isinstance(w, str) or self.lone(w)):
                    t = np.zeros(256, dtype=bool)
                    t[self.arr(w) if isinstance(w, str) else w] = True
                    if d == 0 or not t[0x80:0xC0].all():
                        self.restrict(v, t[b])
                    continue
                b = self.derive(v, b) if isinstance(v, str) else int(b[0])
                self.unify(b.v if isinstance(b, Col) else b, w)

    def decide_ge(self, e):
        """e >= 0 ?"""
        if isinstance(e, int):
            return e >= 0
        if self.entails(e):
            return True
        neg = sub(scale(e, -1), 1)
        if self.entails(neg):
            return False
        out = []
        for c in (e, neg):
            s = self.copy()
            try:
                s.assume_ge(c)
            except Infeasible:
                continue
            s.nforks += 1
            out.append(s)
        raise Fork(out)

    def decide_eq(self, a, b):
        d = sub(a, b)
        if isinstance(d, int):
            return d == 0
        if isinstance(d, Lin) and not d.t:
            return d.c == 0
        ge = self.entails(d)
        le = self.entails(scale(d, -1))
        if ge and le:
            return True
        if self.entails(sub(d, 1)) or self.entails(sub(scale(d, -1), 1)):
            return False
        out = []
        s = self.copy()
        try:
            s.assume_eq(a, b)
            s.nforks += 1
            out.append(s)
        except Infeasible:
            pass
        for c in (sub(d, 1), sub(scale(d, -1), 1)):
            s = self.copy()
            try:
                s.assume_ge(c)
            except Infeasible:
                continue
            s.nforks += 1
            out.append(s)
        raise Fork(out)

    def bounds(self, e, lo=-8, hi=64):
        """(min,max) integer bounds of e if small, else None entries"""
        if isinstance(e, int):
            return e, e
        mn = mx = None
        for k in range(lo, hi):
            if self.entails(sub(e, k)):
                mn = k
            else:
                break
        for k in range(hi, lo - 1, -1):
            if self.entails(sub(k, e)):
                mx = k
            else:
                break
        return mn, mx

    def concrete(self, e, lo=0, hi=16):
        """force e to a constant by forking, if it has small bounds"""
        if isinstance(e, Col):
            e = self.split_values(e)
        if isinstance(e, int):
            return e
        mn, mx = self.bounds(e, lo - 1, hi + 1)
        if mn is None or mx is None or mn < lo or mx > hi:
            raise Unsupported("unbounded quantity %r" % (e,))
        for k in range(mn, mx + 1):
            if self.decide_eq(e, k):
                return k
        raise Infeasible()

    # ------------------------------------------------------- range facts
    def add_range(self, mask, a, b):
        """every input byte of [a,b) is one of mask"""
        if mask == BYTES or self.entails(sub(a, b)):
            return
        out = []
        for f in self.rng:
            m, x, y = f
            if m == mask and self.entails_eq(y, a) and self.entails(sub(y, x)):
                a = x
            elif m == mask and self.entails_eq(b, x) and self.entails(sub(y, x)):
                b = y
            elif not m & ~mask and self.entails(sub(a, x)) and self.entails(sub(y, b)):
                return
            elif mask & ~m or not (self.entails(sub(x, a)) and self.entails(sub(b, y))):
                out.append(f)
        self.rng = tuple(out) + ((mask, a, b),)

    def cover(self, a, b):
        """the byte values known to be all that occur in input[a..b); None when
        some of it is unknown"""
        memo = {}
        d = sub(b, a)
        if isinstance(d, int) and not self.rng:
            # plain case: one byte after the other
            if d > 12:
                return None
            r = 0
            for i in range(d):
                v = self.atoms.get(("b", add(a, i)))
                if v is None:
                    break
                r |= mask_of(self.arr(v)) if isinstance(v, str) else 1 << v
            else:
                return r

        def best(cur):
            if cur in memo or len(memo) > 60:
                return memo.get(cur)
            if self.entails(sub(cur, b)):
                memo[cur] = 0
                return 0
            memo[cur] = None
            known = [(m, y) for m, x, y in self.rng
                     if self.entails(sub(cur, x)) and self.entails(sub(sub(y, cur), 1))]
            for (k, p), v in self.atoms.items():
                if p == cur or not isinstance(sub(p, cur), int) and self.entails_eq(p, cur):
                    t = self.arr(v) if isinstance(v, str) else [v]
                    if k == "b" or t[0] < 128:
                        known.append((mask_of(t), add(cur, 1)))
            r = None
            for m, y in known:
                for m2, y2 in known:
                    if m2 & m != m and self.entails(sub(y2, y)):
                        m &= m2
                w = best(y)
                if w is not None and (r is None or bin(w | m).count("1") < bin(r).count("1")):
                    r = w | m
            memo[cur] = r
            return r
        return best(a)

    def in_range(self, pos):
        """what the range facts say about one byte (may fork)"""
        m = BYTES
        for w, a, b in self.rng:
            d = sub(pos, a)
            if not self.entails(d):
                if self.entails(sub(scale(d, -1), 1)):
                    continue
                if self.entails(sub(pos, b)) or not self.decide_ge(d):
                    continue
            if self.decide_ge(sub(sub(b, pos), 1)):
                m &= w
        if not m:
            raise Infeasible()
        return m

    # -------------------------------------------------------- text facts
    def is_bd(self, p):
        """tri-state: is input position p a char boundary"""
        if isinstance(p, int) and p == 0:
            return True
        if self.T is not None and self.entails_eq(p, self.T):
            return True
        for b in self.bd:
            if b == p or self.entails_eq(b, p):
                return True
        if self.in_nb(p):
            return False
        for m, a, b in self.rng:
            if not m & ~ASCII and self.entails(sub(p, a)) and self.entails(sub(b, p)):
                return True
        if self.nb:
            # no character is longer than four bytes
            run = 0
            for k in (1, 2, 3):
                if not self.in_nb(sub(p, k)):
                    break
                run += 1
            if run < 3:
                for k in (1, 2, 3):
                    if not self.in_nb(add(p, k)):
                        break
                    run += 1
            if run >= 3:
                return True
        return None

    def in_nb(self, p):
        for a, b in self.nb:
            if self.entails(sub(p, a)) and self.entails(sub(sub(b, p), 1)):
                return True
        return False

    def add_bd(self, p):
        r = self.is_bd(p)
        if r is True:
            return
        if r is False:
            raise Infeasible()
        self.bd = self.bd | {p}

    def nb_holds(self, a, b):
        """all positions in [a,b) known to be non-boundaries"""
        cur = a
        for _ in range(8):
            if self.entails(sub(cur, b)):
                return True
            nxt = None
            for x, y in self.nb:
                if self.entails(sub(cur, x)) and self.entails(sub(sub(y, cur), 1)):
                    nxt = y
                    break
            if nxt is None:
                return False
            cur = nxt
        return False

    def add_nb(self, a, b):
        if self.nb_holds(a, b):
            return
        self.nb = self.nb | {(a, b)}
        self.check_facts()

    def check_facts(self):
        """contradictions between boundary facts"""
        if not self.nb:
            return
        pts = list(self.bd)
        pts.append(0)
        if self.T is not None:
            pts.append(self.T)
        for a, b in self.nb:
            for p in pts:
                lo = sub(p, a)
                hi = sub(sub(b, p), 1)
                if isinstance(lo, int) and lo < 0:
                    continue
                if isinstance(hi, int) and hi < 0:
                    continue
                if self.entails(lo) and self.entails(hi):
                    raise Infeasible()
        if len(self.nb) < 2 or self.T is None:
            return
        start = {}
        for a, b in self.nb:
            start.setdefault(a, []).append(b)
        for a, b in self.nb:
            run, q = sub(b, a), b
            # no character is longer than four bytes
            while isinstance(run, int) and q in start:
                nq = max((x for x in start[q]), key=lambda x: (isinstance(sub(x, q), int), sub(x, q) if isinstance(sub(x, q), int) else 0))
                n = sub(nq, q)
                if not isinstance(n, int) or n <= 0:
                    break
                run, q = run + n, nq
                if run > 3:
                    raise Infeasible()
