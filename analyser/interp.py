"""Abstract interpreter over the dumped MIR (values, memory, control flow)."""
import os
import sys
import time
from fractions import Fraction
import numpy as np
from . import lin
from .lin import Lin, add, sub, scale
from .domain import (BYTES, ASCII, mask_of, mask_bytes, State, Fork, Infeasible, Unsupported, Violation, Col, Rad, Top, Agg, Arr, Ptr, Slc,
                     It, FnP, UNINIT, UNIT, map_value, view_len, leaves, shape, ISIZE_MAX, LIMIT)
from .prog import CArr
from .spec import small_unique, fork_by, utf8_class, utf8_bytes, arr_of, chars_of

UNROLL_CAP = 80
MAX_STATES = 30000


class Restart(Exception):
    def __init__(self, key):
        self.key = key


DEBUG = os.environ.get("VERIF_DEBUG")


class Finding:
    __slots__ = ("kind", "where", "msg", "exact", "why", "witness", "tags")

    def __init__(self, kind, where, msg, exact, why, witness, tags=()):
        self.kind, self.where, self.msg, self.exact, self.why, self.witness = kind, where, msg, exact, why, witness
        self.tags = tuple(sorted(tags))

    def key(self):
        return (self.kind, self.where, self.exact, self.tags)


def is_scalar(v):
    return isinstance(v, (int, Lin, Col, Rad, Top))


class Interp:
    def __init__(self, prog, fid, text_input, time_limit=200):
        from . import models
        self.p = prog
        self.fid = fid
        self.text = text_input
        self.models = models
        self.findings = {}
        self.unsupported = {}
        self.stats = {"states": 0, "steps": 0, "returns": 0, "panic_sites": set(), "calls": set(),
                      "functions": set(), "heads": 0, "joins": 0, "asserts": set(), "accesses": 0,
                      "back_edges": 0}
        self.blacklist = set()
        self.t0 = time.time()
        self.time_limit = time_limit
        self.work = []
        self.soft_limit = 1e9   # once something is left open, go deeper instead of on
        self.low = {}      # loop-head states waiting for the rest of the body
        self.hulls = {}
        self.nested = 0

    # ------------------------------------------------------------ reporting
    def where(self, st):
        for fr in reversed(st.frames):
            f = self.p.fns[fr[0]]
            if f["crate"] == "text_encoding":
                b = f["body"]["blocks"][fr[1]]
                line = b["l"]
                if fr[2] < len(b["s"]) and b["s"][fr[2]][0] == "=":
                    line = b["s"][fr[2]][3]
                if f["file"] and "/src/" in f["file"]:
                    fn = "src/" + f["file"].split("/src/", 1)[1]
                else:
                    fn = f["file"]
                return "%s:%s in %s" % (fn, line, f["name"])
        return self.p.fns[st.frames[0][0]]["name"]

    def tags(self, st, kind, got):
        return ()

    def report(self, st, kind, msg, got=None):
        w = self.where(st)
        exact = st.exact
        m = lin_model(st.cons)
        why = st.why
        if exact and m is None:
            # only a path with a concrete instance counts as a definite violation
            exact, why = False, ("no integer instance found",)
        elif exact and not self.consistent(st, m):
            exact, why = False, ("instance does not fit the text facts",)
        f = Finding(kind, w, msg, exact, why, "", self.tags(st, kind, got))
        k = f.key()
        if k not in self.findings:
            f.witness = self.witness(st, m)
            self.findings[k] = f

    def consistent(self, st, m):
        """does the instance respect every recorded fact about the input text"""
        try:
            bd, nb = set(), set()
            by, cs = {}, {}
            for (k, pos), v in st.atoms.items():
                a = st.arr(v) if isinstance(v, str) else np.array([v])
                i = ev(pos, m)
                if k == "c":
                    n = int(utf8_class(a[:1])[0])
                    cs[i] = a
                    bd |= {i, i + n}
                    nb |= set(range(i + 1, i + n))
                    for j in range(n):
                        w = set(utf8_bytes(a, n)[j].tolist())
                        by[i + j] = by[i + j] & w if i + j in by else w
                else:
                    w = set(a.tolist())
                    by[i] = by[i] & w if i in by else w
                if not by[i]:
                    return False
            text = []
            for w, x, y in st.rng:
                x, y = ev(x, m), ev(y, m)
                w = set(mask_bytes(w).tolist())
                for i in by:
                    if x <= i < y:
                        by[i] = by[i] & w
                if x < y and max(w) < 128:
                    text.append((x, y))
                elif x < y and st.T is not None and x < ev(st.T, m):
                    if not (min(w) >= 0x80 and max(w) < 0xC0):
                        return False
                    if y - x > 3:
                        return False
                    nb |= set(range(x, y))
            if any(not w for w in by.values()):
                return False
            if st.T is None:
                return True
            if any(x <= i <= y for i in nb for x, y in text):
                return False
            T = ev(st.T, m)
            bd |= {0, T} | {ev(p, m) for p in st.bd}
            for x, y in st.nb:
                x, y = ev(x, m), ev(y, m)
                if y - x > 3:
                    return False
                nb |= set(range(x, y))
            for i, w in by.items():
                if i < T:
                    if all(0x80 <= b < 0xC0 for b in w):
                        nb.add(i)
                    elif not any(0x80 <= b < 0xC0 for b in w):
                        bd.add(i)
            if bd & nb or any({x, x + 1, x + 2, x + 3} <= nb for x in nb):
                return False
            return all(0 <= x < T for x in nb)
        except Exception:
            return False

    def witness(self, st, m):
        try:
            out = []
            names = {}
            for k, pos in (("consumed", st.P), ("written", st.Q), ("input_len", st.env["L"]),
                           ("out_len", st.env["O"])):
                names[k] = ev(pos, m) if m is not None else repr(pos)
            out.append(" ".join("%s=%s" % x for x in names.items()))
            ats = []
            for (k, pos), v in st.atoms.items():
                x = v
                if isinstance(v, str):
                    a = st.arr(v)
                    x = int(a[len(a) // 2])
                rel = sub(pos, st.P)
                ats.append((str(rel), "%s@%s=%s" % ({"b": "byte", "c": "char"}[k],
                                                    ev(pos, m) if m is not None else pos,
                                                    ("U+%04X" if k == "c" else "%02X") % x)))
            out.extend(x[1] for x in sorted(ats))
            if "is_end" in st.env:
                out.append("is_end=%s" % bool(st.env["is_end"]))
            if m is None:
                out.append("(no small integer model found)")
            return ", ".join(out)
        except Exception as e:  # witness text is best effort
            return "n/a (%s)" % e

    # ------------------------------------------------------------- running
    def run(self, init):
        self.work = [init]
        self.low = {}
        while self.work or self.low:
            # a widened loop summary is re-entered only after everything that
            # may still widen it has been followed
            st = self.work.pop() if self.work else self.low.popitem()[1]
            self.stats["states"] += 1
            late = time.time() - self.t0
            if self.stats["states"] > MAX_STATES or late > self.time_limit or (
                    late > self.soft_limit and (self.findings or self.unsupported)):
                raise Unsupported("analysis budget exhausted (%d states)" % self.stats["states"])
            self.drive(st)

    def drive(self, st):
        while True:
            self.stats["steps"] += 1
            if (self.stats["steps"] & 1023) == 0 and time.time() - self.t0 > self.time_limit:
                raise Unsupported("analysis budget exhausted (time)")
            try:
                if not self.step(st):
                    return
            except Fork as f:
                n = f.states
                if not n:
                    return
                self.work.extend(n[1:])
                st = n[0]
            except Infeasible:
                return
            except Unsupported as e:
                self.unsup(st, str(e))
                return
            except Violation as v:
                self.report(st, v.kind, v.msg)
                return

    def unsup(self, st, msg):
        k = (msg, self.where(st))
        if DEBUG and k not in self.unsupported:
            print("UNSUP", k, [self.p.fns[fr[0]]["name"][:160] for fr in st.frames[1:]], file=sys.stderr)
        self.unsupported[k] = self.unsupported.get(k, 0) + 1

    # ---------------------------------------------------------------- step
    def step(self, st):
        if st.note:
            if not self.at_head(st):
                return False
            st.note = ()
        fr = st.frames[-1]
        body = self.p.fns[fr[0]]["body"]
        blk = body["blocks"][fr[1]]
        ss = blk["s"]
        if fr[2] == 0 and st.clus and not st.env.get("_nested") and st.big():
            self.prune(st)
        while fr[2] < len(ss):
            self.stmt(st, fr, body, ss[fr[2]])
            fr[2] += 1
        return self.term(st, fr, body, blk["t"])

    def goto(self, st, bb):
        fr = st.frames[-1]
        src = fr[1]
        fr[1] = bb
        fr[2] = 0
        if bb in self.p.cfg(fr[0])[1]:
            st.note = ("head", src)
        return True

    def stmt(self, st, fr, body, s):
        k = s[0]
        if k == "=":
            place, rv = s[1], s[2]
            if not place[1]:
                v = self.rvalue(st, fr, body, rv, body["locals"][place[0]])
                st.mem[("l", len(st.frames) - 1, place[0])] = v
            else:
                ty = None
                v = self.rvalue(st, fr, body, rv, ty)
                base, path, _ = self.resolve(st, place)
                self.store(st, base, path, v)
        elif k == "dead" or k == "live":
            st.mem.pop(("l", len(st.frames) - 1, s[1]), None)
        elif k == "sd":
            base, path, _ = self.resolve(st, s[1])
            old = self.load(st, base, path)
            ty = self.place_ty(body, s[1])
            nf = len(self.p.field_tys(ty, s[2])) if ty is not None else 0
            f = list(old.f) if isinstance(old, Agg) else []
            f = (f + [UNINIT] * nf)[:max(nf, 0)]
            self.store(st, base, path, Agg(s[2], f))
        elif k == "assume":
            v = st.norm(self.operand(st, s[1]))
            if isinstance(v, int):
                if v == 0:
                    raise Violation("UNSAFE", "optimiser assumption violated")
            elif isinstance(v, Col):
                if not st.split_mask(v.v, st.arr(v.v) != 0):
                    raise Violation("UNSAFE", "optimiser assumption violated")
        elif k == "cno":
            src, dst, cnt = [self.operand(st, x) for x in s[1:4]]
            self.models.copy_elems(self, st, dst, src, cnt)
        else:
            raise Unsupported("statement " + k)

    # -------------------------------------------------------------- places
    def place_ty(self, body, place):
        """static type of a place (None if it cannot be computed)"""
        ty = body["locals"][place[0]]
        var = 0
        for e in place[1]:
            t = self.p.types[ty]
            if e == "*":
                if t["k"] not in ("ref", "ptr"):
                    return None
                ty = t["to"]
                var = 0
            elif e == "oc":
                return None
            elif e[0] == "f":
                ty = e[2]
                var = 0
            elif e[0] in ("i", "ci"):
                ty = t["elem"]
            elif e[0] == "ss":
                pass
            elif e[0] == "d":
                var = e[1]
        return ty

    def resolve(self, st, place):
        depth = len(st.frames) - 1
        base = ("l", depth, place[0])
        path = ()
        rng = None
        for e in place[1]:
            if e == "*":
                v = self.load(st, base, path)
                while isinstance(v, Agg) and len(v.f) == 1:
                    v = v.f[0]
                if isinstance(v, Slc):
                    base, path, rng = v.base, v.path, (v.start, v.end)
                elif isinstance(v, Ptr):
                    base, path, rng = v.base, v.path, None
                else:
                    raise Unsupported("dereference of %s" % type(v).__name__)
            elif e == "oc":
                pass
            elif e[0] == "f":
                path = path + (e[1],)
            elif e[0] == "d":
                pass
            elif e[0] == "i":
                ix = st.mem[("l", depth, e[1])]
                ix = st.norm(ix)
                if rng is not None:
                    ix = self.addv(st, rng[0], ix)
                    rng = None
                elif path and view_len(path[-1]):
                    ix = self.addv(st, path[-1][1], ix)
                    path = path[:-1]
                path = path + (("ix", ix),)
            elif e[0] == "ci":
                off, _mn, fe = e[1], e[2], e[3]
                if rng is not None:
                    ix = sub(rng[1], off) if fe else add(rng[0], off)
                    rng = None
                else:
                    if fe:
                        a = self.load(st, base, path)
                        ix = self.alen(a) - off
                    else:
                        ix = off
                    if path and view_len(path[-1]):
                        ix = add(path[-1][1], ix)
                        path = path[:-1]
                path = path + (("ix", ix),)
            elif e[0] == "ss":
                a, b, fe = e[1], e[2], e[3]
                if rng is None and path and view_len(path[-1]):
                    rng = (path[-1][1], add(path[-1][1], view_len(path[-1])))
                    path = path[:-1]
                if rng is None:
                    n = self.alen(self.load(st, base, path))
                    rng = (0, n)
                rng = (add(rng[0], a), sub(rng[1], b) if fe else add(rng[0], b))
            else:
                raise Unsupported("projection %r" % (e,))
        return base, path, rng

    def addv(self, st, a, b):
        """a + b where b may be a column (no wrap considered)"""
        if isinstance(b, (Rad, Top)):
            b = st.norm(b)
        if isinstance(b, Col):
            if isinstance(a, int):
                return b if a == 0 else st.derive(b.v, st.arr(b.v) + a)
            b = st.split_values(b)
        return add(a, b)

    @staticmethod
    def alen(a):
        if isinstance(a, Arr):
            return len(a.e)
        if isinstance(a, CArr):
            return a.n
        raise Unsupported("length of %s" % type(a).__name__)

    def load(self, st, base, path):
        if path and view_len(path[-1]):
            s = path[-1][1]
            return Arr([self.load(st, base, path[:-1] + (("ix", add(s, j)),)) for j in range(view_len(path[-1]))])
        k = base[0]
        i = 0
        if k == "l":
            v = st.mem.get(base, UNINIT)
        elif k == "k":
            v = self.p.cell(base)
        elif k == "in":
            if not path:
                raise Unsupported("whole input read")
            v = self.read_in(st, path[0][1])
            i = 1
        elif k == "out":
            if not path:
                raise Unsupported("whole output read")
            v = self.read_out(st, path[0][1])
            i = 1
        else:
            raise Unsupported("load from " + k)
        n = len(path)
        while i < n:
            e = path[i]
            if isinstance(e, tuple):
                v = self.index(st, v, e[1])
            else:
                v = self.field(v, e)
            i += 1
        return v

    @staticmethod
    def field(v, i):
        if isinstance(v, Agg):
            if i < len(v.f):
                return v.f[i]
            return UNINIT
        if v is UNINIT:
            return v
        if i == 0 and isinstance(v, (Ptr, Slc, int, Lin, Col, FnP)):
            return v  # transparent wrapper
        raise Unsupported("field of %s" % (v.kind if isinstance(v, It) else type(v).__name__))

    def index(self, st, v, ix):
        ix = st.norm(ix)
        if v is UNINIT:
            return v
        n = self.alen(v)
        if isinstance(ix, Lin):
            ix = st.concrete(ix, 0, 16)
        if isinstance(ix, int):
            if not (0 <= ix < n):
                raise Violation("UNSAFE", "access out of bounds (index %d, length %d)" % (ix, n))
            return v.e[ix] if isinstance(v, Arr) else v.elem(ix)
        a = st.arr(ix.v)
        if a.min() < 0 or a.max() >= n:
            if st.split_mask(ix.v, (a < 0) | (a >= n)):
                raise Violation("UNSAFE", "access out of bounds (length %d)" % n)
            a = st.arr(ix.v)
        if isinstance(v, CArr):
            return self.gather(st, v, ix, v.ty, 0)
        if all(isinstance(x, int) for x in v.e):
            return st.derive(ix.v, np.array(v.e, dtype=np.int64)[a])
        j = st.split_values(ix)
        return v.e[j]

    def gather(self, st, c, ix, ty, off):
        sc = self.p.scalar(ty)
        t = self.p.types[ty]
        if sc is not None:
            n = self.p.size(ty)
            arr = c.leaf_array(off, n, sc[1])
            return st.derive(ix.v, arr[st.arr(ix.v)])
        if t["k"] == "array":
            if t["len"] > 16:
                raise Unsupported("gather of nested array")
            s = self.p.size(t["elem"])
            return Arr([self.gather(st, c, ix, t["elem"], off + i * s) for i in range(t["len"])])
        if t["k"] in ("tuple", "adt") and t.get("layout"):
            v = t["layout"]["variants"]
            if v is not None and "single" in v:
                offs = t["layout"]["fields"]
                if offs == "prim":
                    offs = [0] * 8
                fts = self.p.field_tys(ty, v["single"])
                return Agg(v["single"], [self.gather(st, c, ix, x, off + o) for x, o in zip(fts, offs)])
            if v is not None:
                # enum: decide the variant first
                tag = c.leaf_array(off + v["tag_off"], v["tag_size"], False)[st.arr(ix.v)]
                if v["enc"] == "direct":
                    ds = np.array([int(x["discr"]) for x in t["variants"]])
                    var = np.searchsorted(ds, tag)
                else:
                    e = v["enc"]
                    rel = (tag - int(e["niche_start"])) % (1 << (8 * v["tag_size"])) if v["tag_size"] < 8 \
                        else tag - int(e["niche_start"])
                    inn = (rel >= 0) & (rel <= e["end"] - e["start"])
                    var = np.where(inn, e["start"] + rel, e["untagged"])
                k = fork_by(st, ix, var)
                fts = self.p.field_tys(ty, k)
                return Agg(k, [self.gather(st, c, ix, x, off + o) for x, o in zip(fts, v["variants"][k])])
        j = st.split_values(ix)
        return c.elem(j)

    def store(self, st, base, path, v):
        if path and view_len(path[-1]):
            s = path[-1][1]
            for j in range(view_len(path[-1])):
                x = UNINIT if v is UNINIT else v.e[j] if isinstance(v, Arr) else v.elem(j)
                self.store(st, base, path[:-1] + (("ix", add(s, j)),), x)
            return
        k = base[0]
        if k == "l":
            if not path:
                st.mem[base] = v
                return
            old = st.mem.get(base, UNINIT)
            st.mem[base] = self.setpath(st, old, path, 0, v)
        elif k == "out":
            if len(path) != 1:
                raise Unsupported("output store path")
            self.write_out(st, path[0][1], v)
        elif k == "in" or k == "k":
            raise Violation("UNSAFE", "write through a shared reference")
        else:
            raise Unsupported("store to " + k)

    def setpath(self, st, old, path, i, v):
        if i == len(path):
            return v
        e = path[i]
        if isinstance(e, tuple):
            ix = st.norm(e[1])
            if isinstance(ix, Lin):
                ix = st.concrete(ix, 0, 16)
            if isinstance(ix, Col):
                ix = st.split_values(ix)
            if isinstance(old, CArr):
                if old.n > 4096:
                    raise Unsupported("large array update")
                old = Arr([old.elem(j) for j in range(old.n)])
            if old is UNINIT:
                raise Unsupported("store into uninitialised array")
            if not (0 <= ix < len(old.e)):
                raise Violation("UNSAFE", "store out of bounds")
            n = list(old.e)
            n[ix] = self.setpath(st, n[ix], path, i + 1, v)
            return Arr(n)
        if isinstance(old, Agg):
            f = list(old.f)
            var = old.var
        elif old is UNINIT:
            f, var = [], 0
        elif e == 0 and isinstance(old, (Ptr, Slc, int, Lin, Col)):
            f, var = [old], 0
        else:
            raise Unsupported("store into %s" % type(old).__name__)
        while len(f) <= e:
            f.append(UNINIT)
        f[e] = self.setpath(st, f[e], path, i + 1, v)
        return Agg(var, f)

    # ------------------------------------------------------------ operands
    def operand(self, st, o):
        k = o[0]
        if k == "p" or k == "m":
            pl = o[1]
            depth = len(st.frames) - 1
            if not pl[1]:
                v = st.mem.get(("l", depth, pl[0]), UNINIT)
            else:
                base, path, rng = self.resolve(st, pl)
                if rng is not None:
                    raise Unsupported("copy of unsized place")
                v = self.load(st, base, path)
            if isinstance(v, (Col, Rad, Top)):
                n = st.norm(v)
                if n is not v and not pl[1]:
                    st.mem[("l", depth, pl[0])] = n
                return n
            return v
        if k == "c":
            return self.p.const(o[1], o[2])
        if k == "z":
            return self.p.zst(o[1])
        if k == "n":
            return int(o[2])
        if k == "rc":
            # UB checks are modelled explicitly; overflow checks are on
            return 1 if "Overflow" in o[1] else 0
        raise Unsupported("operand " + str(o))

    def operand_ty(self, body, o):
        k = o[0]
        if k in ("p", "m"):
            return self.place_ty(body, o[1])
        if k in ("c", "z", "n"):
            return o[1]
        return None

    # ------------------------------------------------------------- rvalues
    def rvalue(self, st, fr, body, rv, dty):
        k = rv[0]
        if k == "use":
            return self.operand(st, rv[1])
        if k == "ref" or k == "addr":
            base, path, rng = self.resolve(st, rv[1])
            if rng is not None:
                return Slc(base, path, rng[0], rng[1])
            return Ptr(base, path)
        if k == "bin":
            a, b = self.operand(st, rv[2]), self.operand(st, rv[3])
            ty = self.operand_ty(body, rv[2])
            if ty is None:
                ty = self.operand_ty(body, rv[3])
            return self.binop(st, rv[1], a, b, ty)
        if k == "cbin":
            a, b = self.operand(st, rv[2]), self.operand(st, rv[3])
            return self.binop(st, rv[1] + "WithOverflow", a, b, self.operand_ty(body, rv[2]))
        if k == "agg":
            ops = [self.operand(st, o) for o in rv[2]]
            kk = rv[1]
            if kk[0] == "array":
                return Arr(ops)
            if kk[0] == "tuple" or kk[0] == "closure":
                return Agg(0, ops)
            if kk[0] == "adt":
                if kk[3] is not None and "Union" in self.p.types[kk[1]]["kind"]:
                    return ops[0] if False else Agg(0, [ops[0]] * 1) if kk[3] == 0 else Agg(0, [UNINIT] * kk[3] + ops)
                return Agg(kk[2], ops)
            if kk[0] == "rawptr":
                if len(ops) == 2 and isinstance(ops[0], Ptr) and is_scalar(ops[1]):
                    return self.models.fat(self, st, ops[0], ops[1])
                if isinstance(ops[0], Ptr) and isinstance(ops[1], Agg):
                    return ops[0]
            raise Unsupported("aggregate " + str(kk))
        if k == "cast":
            v = self.operand(st, rv[2])
            return self.cast(st, rv[1], v, self.operand_ty(body, rv[2]), rv[3])
        if k == "discr":
            base, path, rng = self.resolve(st, rv[1])
            v = self.load(st, base, path)
            ty = self.place_ty(body, rv[1])
            return self.discr(v, ty)
        if k == "len":
            base, path, rng = self.resolve(st, rv[1])
            if rng is not None:
                return sub(rng[1], rng[0])
            return self.alen(self.load(st, base, path))
        if k == "repeat":
            v = self.operand(st, rv[1])
            n = int(rv[2])
            if n > 70000:
                raise Unsupported("huge array")
            return Arr([v] * n)
        if k == "un":
            v = self.operand(st, rv[2])
            ty = self.operand_ty(body, rv[2])
            if rv[1] == "PtrMetadata":
                if isinstance(v, Slc):
                    return sub(v.end, v.start)
                return UNIT
            return self.unop(st, rv[1], v, ty)
        raise Unsupported("rvalue %s" % (rv[1] if k == "other" else k))

    def discr(self, v, ty):
        if not isinstance(v, Agg):
            if ty is not None and self.p.is_enum(ty):
                # an enum with one possible variant has nothing to read
                one = (self.p.types[ty].get("layout") or {}).get("variants")
                if isinstance(one, dict) and "single" in one:
                    return int(self.p.types[ty]["variants"][one["single"]]["discr"])
            raise Unsupported("discriminant of %s" % type(v).__name__)
        if ty is not None and self.p.is_enum(ty):
            return int(self.p.types[ty]["variants"][v.var]["discr"])
        return v.var

    # ---------------------------------------------------------- arithmetic
    def wrap(self, x, bits, signed):
        x &= (1 << bits) - 1
        if signed and x >> (bits - 1):
            x -= 1 << bits
        return x

    def wrap_arr(self, a, bits, signed):
        if bits >= 63:
            return a
        a = a & ((1 << bits) - 1)
        if signed:
            a = np.where(a >> (bits - 1), a - (1 << bits), a)
        return a

    def rngof(self, bits, signed):
        if signed:
            return -(1 << (bits - 1)), (1 << (bits - 1)) - 1
        return 0, (1 << bits) - 1

    def align(self, st, a, b):
        """rows of two operands (int|Col), anchor column"""
        if isinstance(a, Col) and isinstance(b, Col):
            st.merge([a.v, b.v])
            return st.arr(a.v), st.arr(b.v), a
        if isinstance(a, Col):
            return st.arr(a.v), b, a
        return a, st.arr(b.v), b

    CMP = ("Eq", "Ne", "Lt", "Le", "Gt", "Ge")

    def binop(self, st, op, a, b, ty):
        if isinstance(a, (Agg, Ptr, Slc, It, FnP)) or isinstance(b, (Agg, Ptr, Slc, It, FnP)):
            return self.ptr_binop(st, op, a, b)
        if a is UNINIT or b is UNINIT:
            raise Unsupported("use of uninitialised value")
        if isinstance(a, Top) or isinstance(b, Top):
            try:
                return self.top_binop(st, op, a, b)
            except Unsupported:
                pass
        a, b = st.norm(a), st.norm(b)
        sc = self.p.scalar(ty) if ty is not None else (64, False)
        if sc is None:
            sc = (64, False)
        bits, signed = sc
        if isinstance(a, Rad) or isinstance(b, Rad):
            return self.rad_binop(st, op, a, b, bits)
        if op in self.CMP or op == "Cmp":
            return self.compare(st, op, a, b)
        checked = op.endswith("WithOverflow")
        base = op[:-12] if checked else op
        unchecked = base.endswith("Unchecked")
        if unchecked:
            base = base[:-9]
        if isinstance(a, int) and isinstance(b, int):
            return self.int_binop(base, a, b, bits, signed, checked, unchecked)
        if isinstance(a, Lin) or isinstance(b, Lin):
            return self.lin_binop(st, base, a, b, bits, signed, checked, unchecked)
        # columns
        if base in ("Add", "Sub", "Mul", "BitAnd", "BitOr", "BitXor", "Shl", "Shr", "Div", "Rem"):
            if isinstance(a, Col) and isinstance(b, Col) and st.c2c[a.v] != st.c2c[b.v]:
                n = len(st.arr(a.v)) * len(st.arr(b.v))
                if n > 4096 and base == "BitOr":
                    x, y = small_unique(st.arr(a.v)), small_unique(st.arr(b.v))
                    if 0 <= x[0] and x[-1] < 256 and 0 <= y[0] and y[-1] < 256 \
                            and np.bitwise_or.reduce(x) & np.bitwise_or.reduce(y):
                        return self.top_binop(st, op, a, b)
                if n > LIMIT // 4 and base in ("BitOr", "BitXor", "Add"):
                    try:
                        ra, rb = self.as_rad(st, a, bits), self.as_rad(st, b, bits)
                        return self.rad_or(st, ra, rb)
                    except Unsupported:
                        # overlapping digits: tabulate in parts
                        v = max(a, b, key=lambda c: len(st.arr(c.v))).v
                        if n > 4 * LIMIT:
                            raise
                        st.split_mask(v, st.arr(v) <= np.sort(st.arr(v))[(len(st.arr(v)) - 1) // 2])
            x, y, anchor = self.align(st, a, b)
            flag = None
            lo, hi = self.rngof(bits, signed)
            if base in ("Add", "Sub", "Mul"):
                if bits > 62:
                    mx = max(abs(int(np.max(x))), abs(int(np.min(x))))
                    my = max(abs(int(np.max(y))), abs(int(np.min(y))))
                    if (mx + my if base != "Mul" else mx * my) >= 1 << 62:
                        raise Unsupported("64-bit value arithmetic")
                r = x + y if base == "Add" else x - y if base == "Sub" else x * y
                flag = (r < lo) | (r > min(hi, (1 << 62)))
                if not checked and flag.any():
                    if unchecked:
                        if st.split_mask(anchor.v, flag):
                            raise Violation("UNSAFE", "unchecked arithmetic overflows")
                        return self.binop(st, op, a, b, ty)
                    if bits > 62:
                        if st.split_mask(anchor.v, flag):
                            raise Unsupported("wrapped 64-bit value")
                        return self.binop(st, op, a, b, ty)
                    r = self.wrap_arr(r, bits, signed)
                if checked:
                    # decide the flag so that wrapped 64-bit values never flow on
                    if flag.any() and not flag.all():
                        st.split_mask(anchor.v, flag)
                    if flag.all():
                        return Agg(0, [self.wrapped_any(st, anchor, r, bits, signed), 1])
                    return Agg(0, [st.derive(anchor.v, r), 0])
                return st.derive(anchor.v, r)
            if base == "BitAnd":
                return st.derive(anchor.v, x & y)
            if base == "BitOr":
                return st.derive(anchor.v, x | y)
            if base == "BitXor":
                return st.derive(anchor.v, x ^ y)
            if base in ("Shl", "Shr"):
                big = (y < 0) | (y >= bits) if not isinstance(y, int) else (y < 0 or y >= bits)
                if isinstance(y, int):
                    if big and checked:
                        return Agg(0, [0, 1])
                    y %= bits
                else:
                    if big.any():
                        if checked:
                            f = st.split_mask(anchor.v, big)
                            if f:
                                return Agg(0, [0, 1])
                        else:
                            y = y % bits
                if base == "Shl":
                    if bits > 62 and int(np.max(np.abs(x))).bit_length() + int(np.max(y)) > 62:
                        raise Unsupported("64-bit shift")
                    if bits > 31:
                        if int(np.max(np.abs(x))).bit_length() + int(np.max(y)) > 62:
                            x = x & ((1 << (bits - int(np.max(y)))) - 1) if isinstance(y, int) else x
                    r = self.wrap_arr(x << y, bits, signed)
                else:
                    r = x >> y
                r = st.derive(anchor.v, r)
                return Agg(0, [r, 0]) if checked else r
            if base in ("Div", "Rem"):
                z = (y == 0)
                if (z if isinstance(z, bool) else z.any()):
                    raise Unsupported("division by zero value")
                q = np.where((x < 0) != (y < 0), -(np.abs(x) // np.abs(y)), np.abs(x) // np.abs(y))
                return st.derive(anchor.v, q if base == "Div" else x - q * y)
        if base == "Offset":
            raise Unsupported("offset of non pointer")
        raise Unsupported("operator %s" % op)

    def top_binop(self, st, op, a, b):
        """values of which only the range is kept, such as many bytes or-ed together"""
        if op in self.CMP:
            (alo, ahi), (blo, bhi) = self.range_of(st, a), self.range_of(st, b)
            if op in ("Gt", "Ge"):
                op = {"Gt": "Lt", "Ge": "Le"}[op]
                alo, ahi, blo, bhi = blo, bhi, alo, ahi
            if op == "Lt" and (ahi < blo or alo >= bhi):
                return int(ahi < blo)
            if op == "Le" and (ahi <= blo or alo > bhi):
                return int(ahi <= blo)
            if op in ("Eq", "Ne") and (ahi < blo or bhi < alo):
                return int(op == "Ne")
        elif op == "BitAnd":
            if isinstance(a, int):
                a, b = b, a
            if isinstance(b, int) and isinstance(a, Top) and a.lo >= 0:
                free = (1 << (a.lo ^ a.hi).bit_length()) - 1
                if not b & free:
                    return a.lo & b
        elif op == "BitOr":
            lo = hi = 0
            sure = any(0x80 <= self.range_of(st, x)[0] and self.range_of(st, x)[1] < 256 for x in (a, b))
            for x in (a, b):
                if isinstance(x, Col) and not sure:
                    # the highest bit is the one that tells ASCII from the rest
                    k = st.arr(x.v) >= 0x80
                    if not k.all() and k.any():
                        st.split_mask(x.v, k)
                l, h = self.range_of(st, x)
                lo = max(lo, l)
                hi |= (1 << h.bit_length()) - 1
            if lo >= 0x80:
                lo = 1 << (lo.bit_length() - 1)
            return Top(lo, hi)
        raise Unsupported("operator %s on a value of which only the range is known" % op)

    def range_of(self, st, x):
        if isinstance(x, int):
            return x, x
        if isinstance(x, Top):
            return x.lo, x.hi
        if isinstance(x, Col):
            a = st.arr(x.v)
            return int(a.min()), int(a.max())
        raise Unsupported("range of a wide value")

    def wrapped_any(self, st, anchor, r, bits, signed):
        if bits > 62:
            return Top(*self.rngof(bits, signed))
        return st.derive(anchor.v, self.wrap_arr(r, bits, signed))

    def int_binop(self, base, a, b, bits, signed, checked, unchecked):
        if base == "Add":
            r = a + b
        elif base == "Sub":
            r = a - b
        elif base == "Mul":
            r = a * b
        elif base == "BitAnd":
            return a & b
        elif base == "BitOr":
            return a | b
        elif base == "BitXor":
            return a ^ b
        elif base in ("Shl", "Shr"):
            ov = b < 0 or b >= bits
            b %= bits
            if base == "Shl":
                r = self.wrap(a << b, bits, signed)
            else:
                r = a >> b
            if ov and unchecked:
                raise Violation("UNSAFE", "unchecked shift out of range")
            return Agg(0, [r, int(ov)]) if checked else r
        elif base in ("Div", "Rem"):
            if b == 0:
                raise Violation("PANIC", "division by zero")
            q = abs(a) // abs(b)
            if (a < 0) != (b < 0):
                q = -q
            return q if base == "Div" else a - q * b
        else:
            raise Unsupported("operator " + base)
        w = self.wrap(r, bits, signed)
        if unchecked and w != r:
            raise Violation("UNSAFE", "unchecked arithmetic overflows")
        if checked:
            return Agg(0, [w, int(w != r)])
        return w

    def tolin(self, st, x):
        """int|Lin from any scalar, forking small columns"""
        x = st.norm(x)
        if isinstance(x, (int, Lin)):
            return x
        if isinstance(x, Col):
            return st.split_values(x)
        raise Unsupported("value too wide for index arithmetic")

    def lin_binop(self, st, base, a, b, bits, signed, checked, unchecked):
        a, b = self.tolin(st, a), self.tolin(st, b)
        if isinstance(a, int) and isinstance(b, int):
            return self.int_binop(base, a, b, bits, signed, checked, unchecked)
        lo, hi = self.rngof(bits, signed)
        if base in ("Add", "Sub", "Mul"):
            if base == "Mul":
                if isinstance(a, int):
                    r = scale(b, a)
                elif isinstance(b, int):
                    r = scale(a, b)
                else:
                    raise Unsupported("product of two lengths")
            else:
                r = add(a, b) if base == "Add" else sub(a, b)
            ok_lo = st.decide_ge(sub(r, lo)) if isinstance(r, (Lin, int)) else True
            ok_hi = st.decide_ge(sub(hi, r))
            if ok_lo and ok_hi:
                return Agg(0, [r, 0]) if checked else r
            if unchecked:
                raise Violation("UNSAFE", "unchecked arithmetic overflows")
            r = add(r, (1 << bits) if not ok_lo else -(1 << bits))
            return Agg(0, [r, 1]) if checked else r
        if isinstance(b, int):
            if base == "Shl":
                if checked:
                    return Agg(0, [self.lin_binop(st, "Mul", a, 1 << b, bits, signed, False, False), int(b >= bits)])
                return self.lin_binop(st, "Mul", a, 1 << b, bits, signed, False, False)
            d = None
            if base in ("Div", "Rem") and b > 0:
                d = b
            elif base == "Shr" and b < 60:
                d = 1 << b
            elif base == "BitAnd" and b >= 0 and (b & (b + 1)) == 0:
                d = b + 1
            elif base == "BitAnd" and not signed and ((hi - b) & (hi - b + 1)) == 0 and b <= hi:
                d = hi - b + 1
            if d is not None:
                if not st.entails(a):
                    if not st.decide_ge(a):
                        raise Unsupported("negative division")
                q = None
                for (e, dd, s) in st.commits:
                    if e == a and dd == d:
                        q = s
                if q is None:
                    if d == 1:
                        q = a
                    else:
                        q = lin.sym(st.fresh("q"))
                        st.env = dict(st.env, _q=q, _a=a)
                        st.assume_ge(sub(a, scale(q, d)))
                        st.assume_ge(sub(add(scale(st.env["_q"], d), d - 1), st.env["_a"]))
                        q, a = st.env["_q"], st.env["_a"]
                        st.env = {k: v for k, v in st.env.items() if k not in ("_q", "_a")}
                        st.commits = st.commits + ((a, d, q),)
                if base == "Div":
                    r = q
                elif base == "Shr":
                    r = q
                elif base == "Rem" or (base == "BitAnd" and b == d - 1):
                    r = sub(a, scale(q, d))
                else:
                    r = scale(q, d)
                if isinstance(r, Lin):
                    mn, mx = None, None
                    if base == "Rem" or (base == "BitAnd" and b == d - 1):
                        if d <= 16:
                            pass
                return Agg(0, [r, 0]) if checked else r
        mn, mx = st.bounds(a) if isinstance(a, Lin) else (0, 0)
        if mn is not None and mx is not None and mx - mn <= 16:
            a = st.concrete(a, mn, mx)
            return self.lin_binop(st, base, a, b, bits, signed, checked, unchecked)
        raise Unsupported("operator %s on a length" % base)

    def compare(self, st, op, a, b):
        if isinstance(a, int) and isinstance(b, int):
            self.mark_cmp(st)
            if op == "Cmp":
                return Agg(0 if a < b else 1 if a == b else 2, ())
            return int({"Eq": a == b, "Ne": a != b, "Lt": a < b, "Le": a <= b, "Gt": a > b, "Ge": a >= b}[op])
        if isinstance(a, Lin) or isinstance(b, Lin):
            if isinstance(a, Col) or isinstance(b, Col):
                c, o = (a, b) if isinstance(a, Col) else (b, a)
                arr = st.arr(c.v)
                if len(small_unique(arr)) > 24:
                    # try to decide by bounds
                    lo, hi = int(arr.min()), int(arr.max())
                    d_hi = st.entails(sub(sub(o, hi), 1))   # o > all
                    d_lo = st.entails(sub(sub(lo, o), 1))   # o < all
                    if d_hi or d_lo:
                        # stands for any row: replace by its extreme value
                        v = hi if d_hi else lo
                        return self.compare(st, op, v if c is a else a, v if c is b else b)
                    # case split on the other side's relation to the range
                    if st.decide_ge(sub(sub(o, hi), 1)) or st.decide_ge(sub(sub(lo, o), 1)):
                        return self.compare(st, op, a, b)
                v = st.split_values(c, 300)
                if c is a:
                    a = v
                else:
                    b = v
            d = sub(a, b)
            if op == "Eq":
                return int(st.decide_eq(a, b))
            if op == "Ne":
                return int(not st.decide_eq(a, b))
            if op == "Lt":
                return int(not st.decide_ge(d))
            if op == "Ge":
                return int(st.decide_ge(d))
            if op == "Gt":
                return int(not st.decide_ge(scale(d, -1)))
            if op == "Le":
                return int(st.decide_ge(scale(d, -1)))
            if st.decide_ge(d):
                return Agg(1 if st.decide_eq(a, b) else 2, ())
            return Agg(0, ())
        hook = st.env.get("_cmp") if st.env else None
        if isinstance(a, Col) and isinstance(b, Col) and hook is not None:
            t = self.models.cmp_hook(self, st, op, a, b)
            if t is not None:
                return t
        if isinstance(a, Col) and isinstance(b, int):
            x, y, an = st.arr(a.v), b, a
        elif isinstance(b, Col) and isinstance(a, int):
            x, y, an = a, st.arr(b.v), b
        else:
            if st.c2c[a.v] != st.c2c[b.v]:
                # disjoint / ordered ranges need no product
                ax, bx = st.arr(a.v), st.arr(b.v)
                if ax.max() < bx.min() or ax.min() > bx.max():
                    va, vb = int(ax.max() if ax.max() < bx.min() else ax.min()), 0
                    vb = int(bx.min() if ax.max() < bx.min() else bx.max())
                    r = self.compare(st, op, va, vb)
                    return r
            x, y, an = self.align(st, a, b)
        if op == "Cmp":
            k = fork_by(st, an, np.where(x < y, 0, np.where(x == y, 1, 2)))
            return Agg(k, ())
        r = {"Eq": np.equal, "Ne": np.not_equal, "Lt": np.less, "Le": np.less_equal, "Gt": np.greater,
             "Ge": np.greater_equal}[op](x, y)
        return st.derive(an.v, r.astype(np.int64))

    def mark_cmp(self, st):
        st.cmpdet = True

    def ptr_binop(self, st, op, a, b):
        while isinstance(a, Agg) and len(a.f) == 1:
            a = a.f[0]
        while isinstance(b, Agg) and len(b.f) == 1:
            b = b.f[0]
        if op == "Offset" and isinstance(a, Ptr):
            return self.models.ptr_add(self, st, a, self.tolin(st, b))
        if isinstance(a, Ptr) and isinstance(b, Ptr) and op in self.CMP:
            if a.base == b.base and len(a.path) == len(b.path) and a.path and isinstance(a.path[-1], tuple) \
                    and isinstance(b.path[-1], tuple) and a.path[:-1] == b.path[:-1]:
                return self.compare(st, op, a.path[-1][1], b.path[-1][1])
            if op in ("Eq", "Ne"):
                if a.base == b.base and a.path == b.path:
                    return int(op == "Eq")
                if a.base != b.base:
                    return int(op == "Ne")
        raise Unsupported("pointer operator " + op)

    def unop(self, st, op, v, ty):
        v = st.norm(v)
        sc = self.p.scalar(ty) if ty is not None else None
        if sc is None:
            raise Unsupported("unary on non scalar")
        bits, signed = sc
        if isinstance(v, Lin):
            if op == "Neg":
                return scale(v, -1)
            if op == "Not" and not signed:
                return sub((1 << bits) - 1, v)
            raise Unsupported("unary on length")
        if isinstance(v, int):
            if op == "Not":
                return self.wrap(~v, bits, signed) if bits > 1 else 1 - v
            return self.wrap(-v, bits, signed)
        if isinstance(v, Col):
            a = st.arr(v.v)
            if op == "Not":
                if bits > 62:
                    raise Unsupported("64-bit not")
                return st.derive(v.v, self.wrap_arr(~a, bits, signed) if bits > 1 else 1 - a)
            return st.derive(v.v, self.wrap_arr(-a, bits, signed))
        raise Unsupported("unary on wide value")

    # --------------------------------------------------------- radix values
    def as_rad(self, st, x, bits):
        if isinstance(x, Rad):
            return x
        if isinstance(x, int):
            return x
        a = st.arr(x.v)
        if a.min() < 0:
            raise Unsupported("negative radix digit")
        # strip common low zero bits
        o = int(np.bitwise_or.reduce(a))
        sh = (o & -o).bit_length() - 1 if o else 0
        w = max(o.bit_length() - sh, 1)
        v = x.v if sh == 0 else st.derive(x.v, a >> sh).v
        return Rad([(v, sh, w)])

    def rad_or(self, st, a, b):
        if isinstance(a, int) and isinstance(b, int):
            return a | b
        if isinstance(b, int):
            a, b = b, a
        if isinstance(a, int):
            if a == 0:
                return b
            c = st.new_col(np.array([a], dtype=np.int64), "c")
            a = Rad([(c.v, 0, a.bit_length())])
        f = sorted(a.f + b.f, key=lambda x: x[1])
        for x, y in zip(f, f[1:]):
            if x[1] + x[2] > y[1]:
                raise Unsupported("overlapping wide value")
        return Rad(f)

    def rad_binop(self, st, op, a, b, bits):
        if op in self.CMP:
            flip = not isinstance(a, Rad)
            r, c = (b, a) if flip else (a, b)
            if not isinstance(c, int):
                raise Unsupported("wide comparison")
            o = op
            if flip:
                o = {"Lt": "Gt", "Gt": "Lt", "Le": "Ge", "Ge": "Le"}.get(op, op)
            pred = {"Eq": lambda lo, hi: (lo == hi) & (lo == c), "Ne": None}
            return int(self.rad_decide(st, r, o, c))
        if isinstance(b, int):
            if op == "BitAnd":
                f = []
                for v, sh, w in a.f:
                    m = (b >> sh) & ((1 << w) - 1)
                    if m == 0:
                        continue
                    if m == (1 << w) - 1:
                        f.append((v, sh, w))
                    else:
                        d = st.derive(v, st.arr(v) & m)
                        if isinstance(d, int):
                            d = st.new_col(np.array([d], dtype=np.int64), "c")
                        f.append((d.v, sh, w))
                return st.norm(Rad(f)) if f else 0
            if op in ("Shr", "ShrUnchecked"):
                f = []
                for v, sh, w in a.f:
                    if sh >= b:
                        f.append((v, sh - b, w))
                    elif sh + w > b:
                        d = st.derive(v, st.arr(v) >> (b - sh))
                        if isinstance(d, int):
                            d = st.new_col(np.array([d], dtype=np.int64), "c")
                        f.append((d.v, 0, w - (b - sh)))
                return st.norm(Rad(f)) if f else 0
            if op in ("Shl", "ShlUnchecked"):
                return self.rad_trunc(st, Rad([(v, sh + b, w) for v, sh, w in a.f]), bits)
        if op in ("BitOr", "BitXor", "Add"):
            return self.rad_or(st, self.as_rad(st, a, bits), self.as_rad(st, b, bits))
        if op == "AddWithOverflow":
            return Agg(0, [self.rad_or(st, self.as_rad(st, a, bits), self.as_rad(st, b, bits)), 0])
        raise Unsupported("operator %s on a wide value" % op)

    def rad_trunc(self, st, r, bits):
        return self.rad_binop(st, "BitAnd", r, (1 << bits) - 1, bits)

    def rad_decide(self, st, r, op, c):
        """decide comparison of a wide value with a constant, splitting on the top digit"""
        v, sh, w = max(r.f, key=lambda x: x[1])
        a = st.arr(v)
        rest_lo = sum(int(st.arr(x).min()) << s for x, s, _ in r.f if x != v or s != sh)
        rest_hi = sum(int(st.arr(x).max()) << s for x, s, _ in r.f if x != v or s != sh)
        lo = (a << sh) + rest_lo
        hi = (a << sh) + rest_hi
        f = {"Lt": (hi < c, lo >= c), "Le": (hi <= c, lo > c), "Gt": (lo > c, hi <= c), "Ge": (lo >= c, hi < c),
             "Eq": ((lo == c) & (hi == c), (hi < c) | (lo > c)), "Ne": ((hi < c) | (lo > c), (lo == c) & (hi == c))}
        t, n = f[op]
        k = fork_by(st, Col(v), np.where(t, 1, np.where(n, 0, 2)))
        if k < 2:
            return k
        # drop the decided top digit and recurse when it is constant
        vals = np.unique(a)
        if len(vals) == 1 and len(r.f) > 1:
            rest = Rad([g for g in r.f if not (g[0] == v and g[1] == sh)])
            return self.rad_decide(st, rest, op, c - (int(vals[0]) << sh))
        # undecided rows: the value must now be small enough to tabulate
        x = st.norm(r)
        if isinstance(x, Rad):
            st.split_values(Col(v), 300)
        y = self.compare(st, op, x, c)
        if isinstance(y, Col):
            y = int(st.split_mask(y.v, st.arr(y.v) != 0))
        return y

    # ---------------------------------------------------------------- casts
    def cast(self, st, kind, v, fty, tty):
        p = self.p
        if kind.startswith("IntToInt"):
            return self.int_cast(st, v, fty, tty)
        if kind.startswith("PtrToPtr") or kind.startswith("PointerCoercion(MutToConst") \
                or kind.startswith("PointerCoercion(ArrayToPointer"):
            tk = p.types[tty]
            if tk["k"] in ("ptr", "ref"):
                to = p.types[tk["to"]]["k"]
                if isinstance(v, Slc):
                    if to in ("slice", "str"):
                        return v
                    if to == "array":
                        n = p.types[tk["to"]]["len"]
                        ft = p.types[fty]
                        if ft["k"] not in ("ptr", "ref") or p.types[ft["to"]]["k"] != "slice" or not 0 < n <= 64 \
                                or p.types[p.types[ft["to"]]["elem"]] != p.types[p.types[tk["to"]]["elem"]]:
                            raise Unsupported("pointer cast between types")
                        return Ptr(v.base, v.path + (("v%d" % n, v.start),))
                    return Ptr(v.base, v.path + (("ix", v.start),))
                if isinstance(v, Ptr) and v.path and view_len(v.path[-1]):
                    fto = p.types[p.types[fty]["to"]] if p.types[fty]["k"] in ("ptr", "ref") else {}
                    if tk["to"] == p.types[fty].get("to"):
                        return v
                    if fto.get("k") == "array" and p.types[tk["to"]] == p.types[fto["elem"]]:
                        return Ptr(v.base, v.path[:-1] + (("ix", v.path[-1][1]),))
                    raise Unsupported("pointer cast between types")
                if isinstance(v, Ptr) and "ArrayToPointer" in kind:
                    return Ptr(v.base, v.path + (("ix", 0),))
                ft = p.types[fty]
                if isinstance(v, Ptr) and ft["k"] in ("ptr", "ref"):
                    fto = p.types[ft["to"]]
                    if fto["k"] == "array" and p.types[tk["to"]] == p.types[fto["elem"]]:
                        return Ptr(v.base, v.path + (("ix", 0),))
                    if to == "array" and v.path and isinstance(v.path[-1], tuple) and 0 < p.types[tk["to"]]["len"] <= 64 \
                            and p.types[p.types[tk["to"]]["elem"]] == fto:
                        return Ptr(v.base, v.path[:-1] + (("v%d" % p.types[tk["to"]]["len"], v.path[-1][1]),))
                    if self.layout_same(ft["to"], tk["to"]):
                        return v
                    raise Unsupported("pointer cast between types")
            return v
        if "Unsize" in kind:
            ft = p.types[fty]
            if isinstance(v, Ptr) and ft["k"] in ("ref", "ptr"):
                a = p.types[ft["to"]]
                if a["k"] == "array" and p.types[p.types[tty]["to"]]["k"] == "slice":
                    if v.path and view_len(v.path[-1]):
                        return Slc(v.base, v.path[:-1], v.path[-1][1], add(v.path[-1][1], a["len"]))
                    return Slc(v.base, v.path, 0, a["len"])
            raise Unsupported("unsizing cast")
        if kind.startswith("Transmute"):
            return self.transmute(st, v, fty, tty)
        if "ReifyFnPointer" in kind or "ClosureFnPointer" in kind:
            t = p.types[fty]
            return FnP(t["inst"])
        if kind.startswith("Subtype"):
            return v
        raise Unsupported("cast " + kind)

    def layout_same(self, a, b):
        if a == b:
            return True
        ta, tb = self.p.types[a], self.p.types[b]
        if ta["k"] in ("adt", "tuple") and tb["k"] in ("adt", "tuple"):
            return False
        sa, sb = self.p.scalar(a), self.p.scalar(b)
        if sa and sb and sa == sb:
            return True
        # MaybeUninit / Cell style wrappers
        for x, y in ((ta, b), (tb, a)):
            if x["k"] == "adt" and len(x["variants"]) == 1:
                fs = [f[1] for f in x["variants"][0]["fields"]]
                if y in fs and ("MaybeUninit" in x["name"] or "ManuallyDrop" in x["name"]):
                    return True
        return False

    def int_cast(self, st, v, fty, tty):
        tb, ts = self.p.scalar(tty)
        fb, fs = self.p.scalar(fty)
        v = st.norm(v)
        if isinstance(v, int):
            return self.wrap(v, tb, ts)
        lo, hi = self.rngof(tb, ts)
        if isinstance(v, Lin):
            if st.entails(sub(v, lo)) and st.entails(sub(hi, v)):
                return v
            if st.decide_ge(sub(v, lo)) and st.decide_ge(sub(hi, v)):
                return v
            raise Unsupported("truncating cast of a length")
        if isinstance(v, Col):
            a = st.arr(v.v)
            if a.min() >= lo and a.max() <= hi:
                return v
            if tb > 62:
                raise Unsupported("sign change of 64-bit value")
            return st.derive(v.v, self.wrap_arr(a, tb, ts))
        if isinstance(v, Rad):
            if tb >= max(s + w for _, s, w in v.f):
                return v
            return self.rad_trunc(st, v, tb)
        raise Unsupported("cast of %s" % type(v).__name__)

    def transmute(self, st, v, fty, tty):
        p = self.p
        if fty == tty:
            return v
        f, t = p.types[fty], p.types[tty]
        fs, ts = p.scalar(fty), p.scalar(tty)
        if fs and ts:
            if t["k"] == "char":
                self.models.check_scalar(self, st, v)
            if t["k"] == "bool":
                vv = st.norm(v)
                if isinstance(vv, int) and vv > 1:
                    raise Violation("UNSAFE", "invalid bool")
            if fs[0] == ts[0] or {fs[0], ts[0]} == {1, 8}:
                if fs[1] == ts[1]:
                    return v
                return self.int_cast(st, v, fty, tty)
        if ts and f["k"] == "array" and p.scalar(f["elem"]):
            return self.from_bytes(st, v, p.size(f["elem"]), ts)
        if fs and t["k"] == "array" and p.scalar(t["elem"]):
            return self.to_bytes(st, v, p.size(t["elem"]) * 8, t["len"])
        ptrs = ("ref", "ptr")
        if f["k"] in ptrs and t["k"] in ptrs:
            return v
        # newtype wrappers around pointers / scalars (NonNull, Option<NonNull>...)
        w = v
        while isinstance(w, Agg) and len(w.f) == 1 and f["k"] == "adt":
            w = w.f[0]
        if isinstance(w, (Ptr, Slc)):
            return self.rewrap(w, tty)
        if isinstance(w, (int, Lin, Col)) and p.size(fty) == p.size(tty):
            return self.rewrap(w, tty)
        raise Unsupported("transmute")

    def rewrap(self, w, tty):
        p = self.p
        t = p.types[tty]
        if t["k"] in ("ref", "ptr", "int", "char", "bool"):
            return w
        if t["k"] == "adt" and "Struct" in t["kind"]:
            fs = p.field_tys(tty)
            nz = [i for i, x in enumerate(fs) if not p._zs(x)]
            if len(nz) == 1:
                return Agg(0, [self.rewrap(w, x) if i == nz[0] else p.zst(x) for i, x in enumerate(fs)])
        if t["k"] == "adt" and "Enum" in t["kind"] and isinstance(w, (Ptr, Slc)):
            for vi, var in enumerate(t["variants"]):
                if len(var["fields"]) == 1:
                    return Agg(vi, [self.rewrap(w, var["fields"][0][1])])
        raise Unsupported("transmute to " + t["k"])

    def from_bytes(self, st, v, esz, ts):
        """little-endian array -> integer"""
        es = [st.norm(x) for x in (v.e if isinstance(v, Arr) else [v.elem(i) for i in range(v.n)])]
        bits, signed = ts
        if any(isinstance(x, (Lin, Top)) or x is UNINIT for x in es):
            raise Unsupported("byte array of lengths")
        if all(isinstance(x, int) for x in es):
            r = 0
            for i, x in enumerate(es):
                r |= (x & ((1 << (8 * esz)) - 1)) << (8 * esz * i)
            return self.wrap(r, bits, signed)
        n = 1
        seen = set()
        f = []
        for i, x in enumerate(es):
            if isinstance(x, int):
                if x == 0:
                    continue
                x = st.new_col(np.array([x], dtype=np.int64), "c")
            if isinstance(x, Rad):
                raise Unsupported("nested wide value")
            c = st.c2c[x.v]
            if c not in seen:
                seen.add(c)
                n *= len(st.arr(x.v))
            f.append((x.v, 8 * esz * i, 8 * esz))
        r = Rad(f)
        if n <= 1 << 17 and not signed:
            return st.norm_rad(r)
        if signed:
            raise Unsupported("signed wide value")
        return r

    def to_bytes(self, st, v, ebits, n):
        v = st.norm(v)
        m = (1 << ebits) - 1
        if isinstance(v, int):
            return Arr([(v >> (ebits * i)) & m for i in range(n)])
        if isinstance(v, Col):
            a = st.arr(v.v)
            return Arr([st.derive(v.v, (a >> (ebits * i)) & m) if ebits * i < 62 else 0 for i in range(n)])
        if isinstance(v, Rad):
            out = []
            for i in range(n):
                x = self.rad_binop(st, "Shr", v, ebits * i, 64) if i else v
                if isinstance(x, Rad):
                    x = self.rad_trunc(st, x, ebits)
                elif isinstance(x, int):
                    x &= m
                else:
                    x = st.derive(x.v, st.arr(x.v) & m)
                out.append(x)
            return Arr(out)
        raise Unsupported("bytes of a length")

    # ---------------------------------------------------------- terminators
    def term(self, st, fr, body, t):
        k = t[0]
        if k == "goto":
            return self.goto(st, t[1])
        if k == "switch":
            v = st.norm(self.operand(st, t[1]))
            tg = [(int(x[0]), x[1]) for x in t[2]]
            if not isinstance(v, int):
                ty = self.operand_ty(body, t[1])
                if isinstance(v, Col):
                    a = st.arr(v.v)
                    sc = self.p.scalar(ty) if ty is not None else None
                    if sc and sc[1]:
                        tg = [(self.wrap(x, sc[0], True), b) for x, b in tg]
                    cls = np.full(len(a), -1, dtype=np.int64)
                    seen = {}
                    for i, (x, b) in enumerate(tg):
                        cls[a == x] = seen.setdefault(b, i)
                    fork_by(st, v, cls)
                    x0 = int(cls[0])
                    return self.goto(st, t[3] if x0 < 0 else tg[x0][1])
                if isinstance(v, Lin):
                    for x, b in tg:
                        if st.decide_eq(v, x):
                            return self.goto(st, b)
                    return self.goto(st, t[3])
                if isinstance(v, Rad):
                    for x, b in tg:
                        if self.rad_decide(st, v, "Eq", x):
                            return self.goto(st, b)
                    return self.goto(st, t[3])
                raise Unsupported("switch on %s" % type(v).__name__)
            ty = self.operand_ty(body, t[1])
            sc = self.p.scalar(ty) if ty is not None else None
            for x, b in tg:
                if sc and sc[1]:
                    x = self.wrap(x, sc[0], True)
                if v == x:
                    return self.goto(st, b)
            return self.goto(st, t[3])
        if k == "return":
            return self.do_return(st)
        if k == "assert":
            v = st.norm(self.operand(st, t[1]))
            self.stats["asserts"].add((fr[0], fr[1]))
            if isinstance(v, Col):
                v = int(st.split_mask(v.v, st.arr(v.v) != 0))
            if isinstance(v, Lin):
                v = int(not st.decide_eq(v, 0))
            if v is UNINIT or not isinstance(v, int):
                raise Unsupported("assert on unknown")
            if bool(v) == t[2]:
                return self.goto(st, t[3])
            raise Violation("PANIC", "panics: %s" % t[5])
        if k == "call":
            return self.call(st, fr, body, t)
        if k == "drop":
            return self.goto(st, t[1])
        if k == "unreachable":
            raise Violation("UNSAFE", "reaches code marked unreachable")
        raise Unsupported("terminator " + k)

    # ---------------------------------------------------------------- calls
    def call(self, st, fr, body, t):
        fop = t[1]
        fty = self.operand_ty(body, fop)
        fid = None
        if fty is not None and self.p.types[fty]["k"] == "fndef":
            fid = self.p.types[fty]["inst"]
        else:
            v = self.operand(st, fop)
            if isinstance(v, FnP):
                fid = v.inst
        if fid is None:
            raise Unsupported("indirect call")
        f = self.p.fns[fid]
        args = [self.operand(st, o) for o in t[2]]
        atys = [self.operand_ty(body, o) for o in t[2]]
        self.stats["calls"].add((fr[0], fr[1]))
        if (f["kind"] == "item" and f["path"].endswith("}") and len(args) == 2 and isinstance(args[1], Agg)
                and self.p.types[fty]["k"] == "fndef" and self.p.types[fty]["name"].startswith("core::ops::Fn")):
            # a closure body takes the tuple's fields as its own arguments
            args = [args[0]] + list(args[1].f)
            atys = [None] * len(args)
        return self.invoke(st, f, args, atys, t[3], t[4])

    def invoke(self, st, f, args, atys, dest, target):
        path = f["path"]
        m = self.models.lookup(f)
        if m is not None:
            r = m(self, st, f, args, atys)
            if r is not NotImplemented:
                if isinstance(r, tuple) and r and r[0] == "tailcall":
                    return self.invoke(st, r[1], r[2], [None] * len(r[2]), dest, target)
                if target is None:
                    raise Unsupported("diverging model")
                base, pth, _ = self.resolve(st, dest)
                self.store(st, base, pth, r)
                return self.goto(st, target)
        if f["never"]:
            if f["crate"] != "text_encoding" or f["body"] is None:
                self.stats["panic_sites"].add((st.frames[-1][0], st.frames[-1][1]))
                raise Violation("PANIC", "panics: call to %s" % path)
        if f["body"] is None:
            raise Unsupported("call of %s (%s)" % (path, f["intrinsic"] or f["kind"]))
        if f["kind"] == "virtual":
            raise Unsupported("dynamic dispatch")
        if len(st.frames) > 40:
            raise Unsupported("call depth")
        self.push(st, f, args, dest, target)
        return True

    def push(self, st, f, args, dest, target):
        b = f["body"]
        argc = b["argc"]
        if b["spread"] is not None:
            # last formal is a tuple of the remaining actuals
            sp = b["spread"]
            k = sp - 1
            if not (len(args) == argc and isinstance(args[k], Agg)):
                args = args[:k] + [Agg(0, args[k:])]
        elif len(args) != argc:
            if args and isinstance(args[-1], Agg) and len(args) - 1 + len(args[-1].f) == argc:
                args = args[:-1] + list(args[-1].f)
            else:
                raise Unsupported("argument count mismatch for %s" % f["path"])
        if dest is not None:
            base, pth, _ = self.resolve(st, dest)
            d = (base, pth)
        else:
            d = None
        self.stats["functions"].add(f["id"])
        depth = len(st.frames)
        st.frames.append([f["id"], 0, 0, d, target, []])
        for i, a in enumerate(args):
            st.mem[("l", depth, i + 1)] = a
        if 0 in self.p.cfg(f["id"])[1]:
            st.note = ("head", -1)

    def do_return(self, st):
        depth = len(st.frames) - 1
        v = st.mem.get(("l", depth, 0), UNINIT)
        if depth == self.nested_base(st):
            return self.finish(st, v)
        fr = st.frames[-1]
        if v is UNINIT:
            v = UNIT
        dest, target = fr[3], fr[4]
        for k in [k for k in st.mem if k[1] == depth]:
            del st.mem[k]
        for k in [k for k in st.loops if k[0] > depth]:
            del st.loops[k]
        for k in [k for k in st.marks if k[0] > depth]:
            del st.marks[k]
        st.frames.pop()
        if target is None:
            raise Unsupported("return into diverging call")
        self.store(st, dest[0], dest[1], v)
        return self.goto(st, target)

    def nested_base(self, st):
        return st.env.get("_base", 0)

    def finish(self, st, v):
        raise NotImplementedError

    def at_head(self, st):
        raise NotImplementedError

    # ------------------------------------------------------------ ext input
    def read_in(self, st, pos):
        pos = self.tolin(st, pos)
        self.stats["accesses"] += 1
        L = st.env["L"]
        if not (st.decide_ge(pos) and st.decide_ge(sub(sub(L, pos), 1))):
            raise Violation("UNSAFE", "reads outside the input")
        return self.in_byte(st, pos)

    def find_atom(self, st, kind, pos):
        v = st.atoms.get((kind, pos))
        if v is not None:
            return v
        for (k, p), v in st.atoms.items():
            if k != kind:
                continue
            d = sub(p, pos)
            if isinstance(d, int):
                continue
            if st.decide_eq(p, pos):
                v2 = st.atoms.get((kind, pos))
                if v2 is not None:
                    return v2
                return v
        return None

    @staticmethod
    def av(v):
        return Col(v) if isinstance(v, str) else v

    def in_byte(self, st, pos):
        if st.T is not None and st.decide_ge(sub(sub(st.T, pos), 1)):
            return self.text_byte(st, pos)
        v = self.find_atom(st, "b", pos)
        if v is not None:
            return st.norm(self.av(v))
        if st.marks and st.entails(sub(sub(st.P, pos), 1)):
            st.inexact("re-reads consumed input")
        c = st.new_col(mask_bytes(st.in_range(pos)), "b")
        st.atoms[("b", pos)] = c.v
        return c

    def text_byte(self, st, pos):
        # inside a known character?
        for (k, p), v in list(st.atoms.items()):
            if k != "c":
                continue
            d = sub(pos, p)
            if isinstance(d, int):
                if d < 0 or d > 3:
                    continue
                c = self.av(v)
                a = arr_of(st, c)
                n = int(utf8_class(a[:1])[0])
                if d < n:
                    b = utf8_bytes(a, n)[d]
                    return st.derive(c.v, b) if isinstance(c, Col) else int(b[0])
        v = self.find_atom(st, "b", pos)
        if v is not None:
            return st.norm(self.av(v))
        m = st.in_range(pos)
        m &= LEADS if not m & CONTS or self.decide_bd(st, pos) else CONTS
        if not m:
            raise Infeasible()
        c = st.new_col(mask_bytes(m), "b")
        st.atoms[("b", pos)] = c.v
        return c

    def decide_bd(self, st, pos):
        r = st.is_bd(pos)
        if r is not None:
            return r
        for a, b in st.nb:
            if st.entails(sub(pos, a)) and not st.entails(sub(pos, add(b, 3))):
                if st.decide_ge(sub(sub(b, pos), 1)):
                    return False
                r = st.is_bd(pos)
                if r is not None:
                    return r
        if st.env.get("_ph") and not st.entails(sub(pos, st.P)):
            st.inexact("text facts dropped by acceleration")
        out = []
        a = st.copy()
        try:
            a.add_bd(pos)
            a.nforks += 1
            out.append(a)
        except Infeasible:
            pass
        b = st.copy()
        try:
            b.add_nb(pos, add(pos, 1))
            b.nforks += 1
            out.append(b)
        except Infeasible:
            pass
        raise Fork(out)

    def char_at(self, st, pos):
        """character starting at boundary pos (< T); forks by encoded length"""
        v = self.find_atom(st, "c", pos)
        if v is not None:
            return st.norm(self.av(v))
        if st.is_bd(pos) is not True:
            if not self.decide_bd(st, pos):
                raise Violation("UNSAFE", "decodes text from the middle of a character")
        out = []
        bv = st.atoms.get(("b", pos))
        m = st.in_range(pos)
        for n in (1, 2, 3, 4):
            s = st.copy()
            s.env = dict(s.env, _pos=pos)
            try:
                s.assume_ge(sub(sub(s.T, pos), n))
                if n > 1:
                    p = s.env["_pos"]
                    s.add_nb(add(p, 1), add(p, n))
                p = s.env["_pos"]
                s.add_bd(add(p, n))
                a = chars_of(n)
                if bv is not None or m != BYTES:
                    ok = m if bv is None else m & mask_of(s.arr(bv) if isinstance(bv, str) else [bv])
                    a = lead_chars(n, mask_bytes(ok))
                    if not len(a):
                        continue
                if bv is not None:
                    if isinstance(s.atoms.pop(("b", p), None), str) and not s.lone(bv):
                        s.atoms[("b", p)] = bv
                c = s.new_col(a, "c")
                s.atoms[("c", p)] = c.v
                s.link_text()
            except Infeasible:
                continue
            s.env = {k: v for k, v in s.env.items() if k != "_pos"}
            s.nforks += 1
            out.append(s)
        raise Fork(out)

    # ----------------------------------------------------------- ext output
    def write_out(self, st, pos, v):
        pos = self.tolin(st, pos)
        self.stats["accesses"] += 1
        if not (st.decide_ge(pos) and st.decide_ge(sub(sub(st.env["O"], pos), 1))):
            raise Violation("UNSAFE", "writes outside the output buffer")
        rel = sub(pos, st.Q)
        if isinstance(rel, int):
            if rel < 0:
                raise Unsupported("rewrites output already checked")
        else:
            for k in list(st.pend):
                if k != rel and not isinstance(sub(k, rel), int) and st.entails_eq(k, rel):
                    rel = k
        if isinstance(v, (Lin,)):
            st.inexact("length stored as data")
            v = Top(0, 255)
        st.pend[rel] = v

    def read_out(self, st, pos):
        pos = self.tolin(st, pos)
        if not (st.decide_ge(pos) and st.decide_ge(sub(sub(st.env["O"], pos), 1))):
            raise Violation("UNSAFE", "reads outside the output buffer")
        rel = sub(pos, st.Q)
        if rel in st.pend:
            return st.pend[rel]
        if isinstance(rel, int) and rel >= 0 and not st.bulk and all(isinstance(k, int) for k in st.pend) \
                and st.exact:
            # nothing was written there yet: whatever the caller left in the buffer
            for k, v in st.stale.items():
                if k == pos or st.entails_eq(k, pos):
                    return st.norm(v)
            if all(isinstance(sub(k, pos), int) for k in st.stale):
                st.env = dict(st.env, _stale=1)
                c = st.new_col(np.arange(256, dtype=np.int64), "s")
                st.stale = dict(st.stale)
                st.stale[pos] = c
                return c
        st.inexact("reads back unknown output")
        return Top(0, 255)


_leads = {}
CONTS = mask_of(range(0x80, 0xC0))
LEADS = mask_of(list(range(128)) + list(range(0xC2, 0xF5)))


def lead_chars(n, ok):
    """the characters of n bytes whose first byte is one of ok"""
    k = (n, tuple(ok.tolist()))
    if k not in _leads:
        t = np.zeros(256, dtype=bool)
        t[ok] = True
        a = chars_of(n)
        if len(_leads) > 64:
            _leads.clear()
        _leads[k] = a[t[utf8_bytes(a, n)[0]]]
    return _leads[k]


def ev(e, m):
    if isinstance(e, int):
        return e
    r = e.c
    for k, v in e.t:
        r += v * m[k]
    return int(r) if Fraction(r).denominator == 1 else r


def lin_model(cons):
    """a small integer solution of the constraints, or None"""
    syms = sorted({k for t, _ in cons for k, _ in t})
    cur = [(dict(t), c) for t, c in cons]
    stack = []
    order = []
    rem = list(syms)
    while rem:
        # eliminate the variable with the fewest products
        best = None
        for v in rem:
            p = sum(1 for d, _ in cur if d.get(v, 0) > 0)
            n = sum(1 for d, _ in cur if d.get(v, 0) < 0)
            s = p * n - p - n
            if best is None or s < best[0]:
                best = (s, v)
        v = best[1]
        rem.remove(v)
        pos = [x for x in cur if x[0].get(v, 0) > 0]
        neg = [x for x in cur if x[0].get(v, 0) < 0]
        rest = [x for x in cur if x[0].get(v, 0) == 0]
        stack.append((v, pos, neg))
        new = []
        if len(pos) * len(neg) > 4000:
            return None
        for dp, cp in pos:
            for dn, cn in neg:
                a, b = dp[v], -dn[v]
                d = {}
                for k, x in dp.items():
                    d[k] = d.get(k, 0) + x * b
                for k, x in dn.items():
                    d[k] = d.get(k, 0) + x * a
                d = {k: x for k, x in d.items() if x}
                c = cp * b + cn * a
                if not d:
                    if c < 0:
                        return None
                    continue
                new.append((d, c))
        seen = {}
        for d, c in rest + new:
            k = tuple(sorted(d.items()))
            if k not in seen or c < seen[k]:
                seen[k] = c
        cur = [(dict(k), c) for k, c in seen.items()]
        if len(cur) > 2000:
            return None
    m = {}
    import math
    for v, pos, neg in reversed(stack):
        lo, hi = None, None
        for d, c in pos:
            x = Fraction(-(c + sum(co * m[k] for k, co in d.items() if k != v)), d[v])
            x = math.ceil(x)
            lo = x if lo is None else max(lo, x)
        for d, c in neg:
            x = Fraction(c + sum(co * m[k] for k, co in d.items() if k != v), -d[v])
            x = math.floor(x)
            hi = x if hi is None else min(hi, x)
        if lo is None and hi is None:
            m[v] = 0
        elif lo is None:
            m[v] = min(hi, 0) if hi < 0 else (0 if hi >= 0 else hi)
        elif hi is not None and lo > hi:
            return None
        else:
            m[v] = max(lo, 0) if (hi is None or hi >= 0) and lo <= 0 else lo
    return m
