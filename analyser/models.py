"""Library models: the semantics of core functions the analyser does not inline."""
import re
import numpy as np
from . import lin
from .lin import Lin, add, sub, scale
from .domain import (view_len, Fork, Infeasible, Unsupported, Violation, Col, Rad, Top, Agg, Arr, Ptr, Slc, It, FnP,
                     UNINIT, UNIT)
from .prog import CArr
from .spec import fork_by, utf8_class, utf8_bytes, arr_of, utf8_step, chars_of

NONE = Agg(0, ())


def some(x):
    return Agg(1, (x,))


def unwrap1(v):
    while isinstance(v, Agg) and len(v.f) == 1:
        v = v.f[0]
    return v


def slc(v):
    v = unwrap1(v)
    if not isinstance(v, Slc):
        raise Unsupported("expected a slice, got %s" % type(v).__name__)
    return v


def ptr(v):
    v = unwrap1(v)
    if not isinstance(v, Ptr):
        raise Unsupported("expected a pointer, got %s" % type(v).__name__)
    return v


def slen(s):
    return sub(s.end, s.start)


def el(s, i):
    return Ptr(s.base, s.path + (("ix", add(s.start, i)),))


def subsl(s, a, b):
    return Slc(s.base, s.path, add(s.start, a), add(s.start, b))


def elem_ptr(p):
    if p.path and view_len(p.path[-1]):
        raise Unsupported("arithmetic on pointers to arrays")
    return p


def ptr_add(I, st, p, n):
    elem_ptr(p)
    if p.path and isinstance(p.path[-1], tuple):
        e = p.path[-1][1]
        if isinstance(e, Col):
            e = st.split_values(e)
        return Ptr(p.base, p.path[:-1] + (("ix", add(e, n)),))
    if n == 0:
        return p
    raise Unsupported("pointer arithmetic")


def fat(I, st, p, n):
    elem_ptr(p)
    n = I.tolin(st, n)
    if p.path and isinstance(p.path[-1], tuple):
        e = I.tolin(st, p.path[-1][1])
        lim = {"in": "L", "out": "O"}.get(p.base[0])
        end = add(e, n)
        if lim and not (st.decide_ge(e) and st.decide_ge(sub(st.env[lim], end))):
            raise Violation("UNSAFE", "builds a slice outside its buffer")
        return Slc(p.base, p.path[:-1], e, end)
    if n == 0:
        return Slc(p.base, p.path, 0, 0)
    raise Unsupported("slice from raw parts")


# ------------------------------------------------------------- bulk copies
def small(I, st, n, hi=16):
    """concrete int if n is (or can be split into) a small constant, else None"""
    n = I.tolin(st, n)
    if isinstance(n, int):
        return n if n <= 4096 else None
    mn, mx = st.bounds(n, -1, hi + 1)
    if mn is not None and mx is not None and 0 <= mn and mx <= hi:
        return st.concrete(n, 0, hi)
    return None


def copy_elems(I, st, dst, src, cnt):
    dst, src = ptr(dst), ptr(src)
    cnt = I.tolin(st, cnt)
    k = small(I, st, cnt)

    def pos(p):
        if p.path and view_len(p.path[-1]):
            return p.path, None
        if p.path and isinstance(p.path[-1], tuple):
            return p.path[:-1], I.tolin(st, p.path[-1][1])
        return p.path, None
    dp, d0 = pos(dst)
    sp, s0 = pos(src)
    if k is not None:
        if d0 is None or s0 is None:
            if k == 1:
                I.store(st, dst.base, dst.path, I.load(st, src.base, src.path))
                return
            if k == 0:
                return
            raise Unsupported("copy of raw memory")
        vals = [I.load(st, src.base, sp + (("ix", add(s0, i)),)) for i in range(k)]
        if dst.base[0] == "out":
            if k and not (st.decide_ge(d0) and st.decide_ge(sub(st.env["O"], add(d0, k)))):
                raise Violation("UNSAFE", "copies outside the output buffer")
        for i, v in enumerate(vals):
            I.store(st, dst.base, dp + (("ix", add(d0, i)),), v)
        return
    if dst.base[0] == "out" and src.base[0] == "in":
        if not (st.decide_ge(d0) and st.decide_ge(sub(st.env["O"], add(d0, cnt)))
                and st.decide_ge(s0) and st.decide_ge(sub(st.env["L"], add(s0, cnt)))):
            raise Violation("UNSAFE", "copies outside a buffer")
        st.bulk = st.bulk + ((d0, cnt, "in", s0),)
        return
    raise Unsupported("unbounded copy")


def m_copy_from_slice(I, st, f, a, t):
    d, s = slc(a[0]), slc(a[1])
    if not st.decide_eq(slen(d), slen(s)):
        raise Violation("PANIC", "panics: copy between slices of different lengths")
    copy_elems(I, st, Ptr(d.base, d.path + (("ix", d.start),)), Ptr(s.base, s.path + (("ix", s.start),)), slen(s))
    return UNIT


def m_fill(I, st, f, a, t):
    d = slc(a[0])
    k = small(I, st, slen(d))
    if k is not None:
        for i in range(k):
            p = el(d, i)
            I.store(st, p.base, p.path, a[1])
        return UNIT
    if d.base[0] == "out" and st.entails(sub(d.start, st.Q)) and not st.pend and not st.bulk:
        return UNIT  # contents beyond the verified prefix are unknown anyway
    raise Unsupported("unbounded fill")


def m_copy_nonoverlapping(I, st, f, a, t):
    copy_elems(I, st, a[1], a[0], a[2])
    return UNIT


# ------------------------------------------------------------ slice index
def rng_of(I, st, name, v, n):
    """(start, end) or None when single index; applies to SliceIndex impls"""
    L = lambda x: I.tolin(st, x)
    if "RangeToInclusive" in name:
        return 0, add(L(unwrap1(v) if isinstance(v, Agg) else v), 1)
    if "RangeInclusive" in name:
        f = v.f
        return L(f[0]), add(L(f[1]), 1)
    if "RangeTo" in name:
        return 0, L(v.f[0])
    if "RangeFrom" in name:
        return L(v.f[0]), n
    if "RangeFull" in name:
        return 0, n
    if "Range" in name:
        return L(v.f[0]), L(v.f[1])
    return None


SLIX = re.compile(r"^<(.*) as core::slice::SliceIndex<\[T\]>>::(\w+)$")
STRIX = re.compile(r"^core::str::traits::<impl core::slice::SliceIndex<str> for (.*)>::(\w+)$")


def m_slice_index(I, st, f, a, t):
    m = SLIX.match(f["path"])
    ty, meth = m.group(1), m.group(2)
    s = slc(a[1])
    n = slen(s)
    r = rng_of(I, st, ty, a[0], n)
    if r is None:
        if ty != "usize":
            return NotImplemented
        i = st.norm(a[0])
        if isinstance(i, Col) and isinstance(n, int):
            x = st.arr(i.v)
            ok = st.split_mask(i.v, (x >= 0) & (x < n))
        else:
            i = I.tolin(st, i)
            ok = st.decide_ge(i) and st.decide_ge(sub(sub(n, i), 1))
        if ok:
            if isinstance(i, Col):
                res = Ptr(s.base, s.path + (("ix", I.addv(st, s.start, i)),))
            else:
                res = el(s, i)
    else:
        b, e = r
        ok = st.decide_ge(sub(e, b)) and st.decide_ge(sub(n, e))
        if ok and isinstance(b, int) and b < 0:
            ok = False
        if ok:
            res = subsl(s, b, e)
    if ok:
        return some(res) if meth in ("get", "get_mut") else res
    if meth in ("get", "get_mut"):
        return NONE
    if "unchecked" in meth:
        raise Violation("UNSAFE", "unchecked slice access out of bounds")
    raise Violation("PANIC", "panics: slice index out of range")


def is_cb(I, st, s, i):
    """is i a char boundary of str s"""
    i = I.tolin(st, i)
    if st.decide_eq(i, 0):
        return True
    n = slen(s)
    if not st.decide_ge(sub(n, i)):
        return False
    if st.decide_eq(i, n):
        return True
    p = add(s.start, i)
    if s.base[0] == "in":
        return I.decide_bd(st, p)
    b = st.norm(I.load(st, s.base, s.path + (("ix", p),)))
    if isinstance(b, Col):
        x = st.arr(b.v)
        return st.split_mask(b.v, (x & 0xC0) != 0x80)
    return (b & 0xC0) != 0x80


def m_is_char_boundary(I, st, f, a, t):
    return int(is_cb(I, st, slc(a[0]), a[1]))


def m_str_index(I, st, f, a, t):
    m = STRIX.match(f["path"])
    ty, meth = m.group(1), m.group(2)
    s = slc(a[1])
    n = slen(s)
    r = rng_of(I, st, ty, a[0], n)
    if r is None:
        return NotImplemented
    b, e = r
    ok = st.decide_ge(sub(e, b)) and st.decide_ge(sub(n, e)) and is_cb(I, st, s, b) and is_cb(I, st, s, e)
    if ok:
        return some(subsl(s, b, e)) if meth in ("get", "get_mut") else subsl(s, b, e)
    if meth in ("get", "get_mut"):
        return NONE
    if "unchecked" in meth:
        raise Violation("UNSAFE", "unchecked str slicing off a character boundary")
    raise Violation("PANIC", "panics: str slice index out of range or not a character boundary")


def m_len(I, st, f, a, t):
    return slen(slc(a[0]))


def m_ident(I, st, f, a, t):
    return a[0]


def m_unit(I, st, f, a, t):
    return UNIT


def m_split_at(I, st, f, a, t):
    s = slc(a[0])
    m = I.tolin(st, a[1])
    ok = st.decide_ge(m) and st.decide_ge(sub(slen(s), m))
    name = f["path"].rsplit("::", 1)[1]
    if "str>" in f["path"] and ok:
        ok = is_cb(I, st, s, m)
    if not ok:
        if "checked" in name and "unchecked" not in name:
            return NONE
        if "unchecked" in name:
            raise Violation("UNSAFE", "unchecked split out of bounds")
        raise Violation("PANIC", "panics: split index out of range")
    r = Agg(0, (subsl(s, 0, m), Slc(s.base, s.path, add(s.start, m), s.end)))
    return some(r) if ("checked" in name and "unchecked" not in name) else r


# -------------------------------------------------------------- iterators
def it_load(I, st, p):
    p = ptr(p)
    v = I.load(st, p.base, p.path)
    if isinstance(v, Agg) and len(v.f) == 1:
        v = unwrap1(v)
    if not isinstance(v, It):
        raise Unsupported("expected an iterator, got %s" % type(v).__name__)
    return p, v


def m_iter(I, st, f, a, t):
    return It("iter", (slc(a[0]),))


def m_iter_next(I, st, f, a, t):
    p, it = it_load(I, st, a[0])
    s = it.f[0]
    I.iter_cmp(st, s)
    if not st.decide_ge(sub(slen(s), 1)):
        return NONE
    I.store(st, p.base, p.path, It(it.kind, (Slc(s.base, s.path, add(s.start, 1), s.end),)))
    return some(el(s, 0))


def m_iter_next_back(I, st, f, a, t):
    p, it = it_load(I, st, a[0])
    s = it.f[0]
    I.iter_cmp(st, s)
    if not st.decide_ge(sub(slen(s), 1)):
        return NONE
    e = sub(s.end, 1)
    I.store(st, p.base, p.path, It(it.kind, (Slc(s.base, s.path, s.start, e),)))
    return some(Ptr(s.base, s.path + (("ix", e),)))


def m_iter_nth(I, st, f, a, t):
    p, it = it_load(I, st, a[0])
    s = it.f[0]
    n = I.tolin(st, a[1])
    if not st.decide_ge(sub(sub(slen(s), n), 1)):
        I.store(st, p.base, p.path, It(it.kind, (Slc(s.base, s.path, s.end, s.end),)))
        return NONE
    I.store(st, p.base, p.path, It(it.kind, (Slc(s.base, s.path, add(s.start, add(n, 1)), s.end),)))
    return some(el(s, n))


def m_iter_len(I, st, f, a, t):
    p, it = it_load(I, st, a[0])
    return slen(it.f[0])


def m_iter_size_hint(I, st, f, a, t):
    p, it = it_load(I, st, a[0])
    n = slen(it.f[0])
    if it.kind not in ("iter", "bytes"):
        raise Unsupported("size_hint")
    return Agg(0, (n, some(n)))


def m_iter_as_slice(I, st, f, a, t):
    p, it = it_load(I, st, a[0])
    return it.f[0]


def m_iter_get_unchecked(I, st, f, a, t):
    p, it = it_load(I, st, a[0])
    return el(it.f[0], I.tolin(st, a[1]))


def m_into_iter(I, st, f, a, t):
    return It("iter", (slc(a[0]),))


def m_array_iter(I, st, f, a, t):
    if not isinstance(a[0], Arr):
        raise Unsupported("array iterator")
    return It("array", (a[0], 0))


def m_array_next(I, st, f, a, t):
    p, it = it_load(I, st, a[0])
    v, i = it.f
    if i >= len(v.e):
        return NONE
    I.store(st, p.base, p.path, It("array", (v, i + 1)))
    return some(v.e[i])


def m_clone_it(I, st, f, a, t):
    p, it = it_load(I, st, a[0])
    return it


def m_chunks(I, st, f, a, t):
    n = I.tolin(st, a[1])
    s = slc(a[0])
    if not isinstance(n, int):
        raise Unsupported("variable chunk size")
    if n == 0:
        raise Violation("PANIC", "panics: chunk size is zero")
    if f["path"].endswith("::chunks_exact") or f["path"].endswith("::chunks_exact_mut"):
        ln = slen(s)
        q = I.lin_binop(st, "Div", ln, n, 64, False, False, False) if not isinstance(ln, int) else ln // n
        s = slc(a[0])
        if not isinstance(ln, int):     # the division may have refined the length
            ln = slen(s)
            q = I.lin_binop(st, "Div", ln, n, 64, False, False, False) if not isinstance(ln, int) else ln // n
        mid = add(s.start, scale(q, n))
        # the number of chunks left is kept beside the bounds
        return It("chunksx", (Slc(s.base, s.path, s.start, mid), Slc(s.base, s.path, mid, s.end), q, n))
    return It("windows" if f["path"].endswith("::windows") else "chunks", (s, n))


def m_chunks_next(I, st, f, a, t):
    p, it = it_load(I, st, a[0])
    s = it.f[0]
    n = it.f[-1]
    I.iter_cmp(st, s)
    if it.kind == "windows":
        if not st.decide_ge(sub(slen(s), n)):
            return NONE
        I.store(st, p.base, p.path, It(it.kind, (Slc(s.base, s.path, add(s.start, 1), s.end), n)))
        return some(subsl(s, 0, n))
    if it.kind == "chunksx":
        q = it.f[2]
        if not st.decide_ge(sub(q, 1)):
            return NONE
        I.store(st, p.base, p.path, It(it.kind, (Slc(s.base, s.path, add(s.start, n), s.end), it.f[1], sub(q, 1), n)))
        return some(subsl(s, 0, n))
    if not st.decide_ge(sub(slen(s), 1)):
        return NONE
    k = n if st.decide_ge(sub(slen(s), n)) else slen(s)
    I.store(st, p.base, p.path, It(it.kind, (Slc(s.base, s.path, add(s.start, k), s.end),) + it.f[1:]))
    return some(subsl(s, 0, k))


def chunk_count(I, st, a):
    """number of chunks left; the division may refine the length, so the
    iterator is loaded again"""
    it = it_load(I, st, a)[1]
    if it.kind == "chunksx":
        return it.f[2]
    n = it.f[-1]
    if it.kind == "windows":
        ln = slen(it.f[0])
        return add(sub(ln, n), 1) if st.decide_ge(sub(ln, n)) else 0
    while True:
        ln = slen(it_load(I, st, a)[1].f[0])
        q = I.lin_binop(st, "Div", add(ln, n - 1), n, 64, False, False, False)
        if repr(slen(it_load(I, st, a)[1].f[0])) == repr(ln):
            return q


def m_chunks_size_hint(I, st, f, a, t):
    n = chunk_count(I, st, a[0])
    return Agg(0, (n, some(n)))


def m_chunks_len(I, st, f, a, t):
    return chunk_count(I, st, a[0])


def m_chunks_get(I, st, f, a, t):
    it = it_load(I, st, a[0])[1]
    s = it.f[0]
    n = it.f[-1]
    i = I.tolin(st, a[1])
    if it.kind == "windows":
        return subsl(s, i, add(i, n))
    b = scale(i, n)
    if it.kind == "chunks" and not st.decide_ge(sub(sub(slen(s), b), n)):
        return subsl(s, b, slen(s))
    return subsl(s, b, add(b, n))


def m_chunks_remainder(I, st, f, a, t):
    p, it = it_load(I, st, a[0])
    return it.f[1]


# ------------------------------------------------------------------- text
def m_char_indices(I, st, f, a, t):
    s = slc(a[0])
    return It("chidx", (s, s.start))


def m_chars(I, st, f, a, t):
    return It("chars", (slc(a[0]),))


def m_bytes(I, st, f, a, t):
    return It("bytes", (slc(a[0]),))


def decode_front(I, st, s):
    """(char value, length) of the first character of non-empty str s"""
    if s.base[0] == "in":
        c = I.char_at(st, s.start)
        a = arr_of(st, c)
        return c, int(utf8_class(a[:1])[0])
    n = small(I, st, slen(s))
    if n is None:
        raise Unsupported("text of unbounded length")
    b0 = st.norm(I.load(st, *el(s, 0).__reduce_pair__())) if False else st.norm(
        I.load(st, s.base, s.path + (("ix", s.start),)))
    bs = [b0]
    a0 = arr_of(st, b0)
    cls = np.where(a0 < 0x80, 1, np.where(a0 < 0xE0, 2, np.where(a0 < 0xF0, 3, 4)))
    k = fork_by(st, b0, cls if isinstance(b0, Col) else int(cls[0]))
    if k == 1:
        return b0, 1
    xs = [st.norm(I.load(st, s.base, s.path + (("ix", add(s.start, i)),))) for i in range(k)]
    cols = [x for x in xs if isinstance(x, Col)]
    if cols:
        st.merge([c.v for c in cols])
    sh = {2: (0x1F, 6, 0), 3: (0x0F, 12, 6, 0), 4: (0x07, 18, 12, 6, 0)}[k]
    r = 0
    for i, x in enumerate(xs):
        m = sh[0] if i == 0 else 0x3F
        v = st.arr(x.v) if isinstance(x, Col) else x
        r = r + ((v & m) << sh[i + 1])
    return (st.derive(cols[0].v, r) if cols else int(r)), k


def m_ci_next(I, st, f, a, t):
    p, it = it_load(I, st, a[0])
    s = it.f[0]
    I.iter_cmp(st, s)
    if not st.decide_ge(sub(slen(s), 1)):
        return NONE
    c, n = decode_front(I, st, s)
    ns = Slc(s.base, s.path, add(s.start, n), s.end)
    I.store(st, p.base, p.path, It(it.kind, (ns,) + it.f[1:]))
    if it.kind == "chidx":
        return some(Agg(0, (sub(s.start, it.f[1]), c)))
    return some(c)


def m_ci_next_back(I, st, f, a, t):
    p, it = it_load(I, st, a[0])
    s = it.f[0]
    if not st.decide_ge(sub(slen(s), 1)):
        return NONE
    if s.base[0] != "in":
        raise Unsupported("backward text iteration")
    # a known character ending here?
    for (k, q), v in list(st.atoms.items()):
        if k != "c":
            continue
        c = I.av(v)
        n = int(utf8_class(arr_of(st, c)[:1])[0])
        if st.entails_eq(add(q, n), s.end):
            I.store(st, p.base, p.path, It(it.kind, (Slc(s.base, s.path, s.start, q),) + it.f[1:]))
            c = st.norm(c)
            return some(Agg(0, (sub(q, it.f[1]), c))) if it.kind == "chidx" else some(c)
    out = []
    for n in range(1, 5):
        w = st.copy()
        w.env = dict(w.env, _pos=sub(s.end, n), _s=s.start)
        try:
            w.assume_ge(sub(w.env["_pos"], w.env["_s"]))
            w.add_bd(w.env["_pos"])
            if n > 1:
                w.add_nb(add(w.env["_pos"], 1), add(w.env["_pos"], n))
            x = chars_of(n)
            q = w.env["_pos"]
            if ("c", q) not in w.atoms:
                w.atoms[("c", q)] = w.new_col(x, "c").v
                w.link_text()
        except Infeasible:
            continue
        w.env = {k: v for k, v in w.env.items() if k not in ("_pos", "_s")}
        w.nforks += 1
        out.append(w)
    raise Fork(out)


def m_bytes_next(I, st, f, a, t):
    r = m_iter_next(I, st, f, a, t)
    if r.var == 0:
        return r
    p = r.f[0]
    return some(st.norm(I.load(st, p.base, p.path)))


def m_ci_offset(I, st, f, a, t):
    p, it = it_load(I, st, a[0])
    return sub(it.f[0].start, it.f[1])


def m_ci_as_str(I, st, f, a, t):
    p, it = it_load(I, st, a[0])
    return it.f[0]


# ------------------------------------------------------------------- char
def scalar_ok(x):
    return ((x >= 0) & (x < 0xD800)) | ((x > 0xDFFF) & (x < 0x110000))


def decide_scalar(I, st, v):
    v = st.norm(v)
    if isinstance(v, int):
        return bool(scalar_ok(v))
    if isinstance(v, Col):
        x = st.arr(v.v)
        return st.split_mask(v.v, scalar_ok(x))
    if isinstance(v, Rad):
        if I.rad_decide(st, v, "Lt", 0xD800):
            return True
        if not I.rad_decide(st, v, "Gt", 0xDFFF):
            return False
        return bool(I.rad_decide(st, v, "Lt", 0x110000))
    raise Unsupported("character from a length")


def check_scalar(I, st, v):
    if not decide_scalar(I, st, v):
        raise Violation("UNSAFE", "constructs an invalid char")


def m_from_u32(I, st, f, a, t):
    if decide_scalar(I, st, a[0]):
        return some(st.norm(a[0]))
    return NONE


def m_from_u32_unchecked(I, st, f, a, t):
    check_scalar(I, st, a[0])
    return st.norm(a[0])


def m_encode_utf8(I, st, f, a, t):
    c = st.norm(a[0])
    d = slc(a[1])
    if not isinstance(c, (int, Col)):
        raise Unsupported("wide char")
    x = arr_of(st, c)
    n = fork_by(st, c, utf8_class(x) if isinstance(c, Col) else int(utf8_class(x)[0]))
    if not st.decide_ge(sub(slen(d), n)):
        raise Violation("PANIC", "panics: encode_utf8 buffer too small")
    for i, b in enumerate(utf8_bytes(arr_of(st, c), n)):
        p = el(d, i)
        I.store(st, p.base, p.path, st.derive(c.v, b) if isinstance(c, Col) else int(b[0]))
    return subsl(d, 0, n)


# ------------------------------------------------------------- from_utf8
class _IO:
    def __init__(self, I, st, v, e):
        self.I, self.st, self.v, self.e = I, st, v, e

    def at_end(self, k):
        return self.st.decide_ge(sub(add(self.v, k), self.e))

    def byte(self, k):
        return self.I.in_byte(self.st, add(self.v, k))


def m_from_utf8(I, st, f, a, t):
    s = slc(a[0])
    if s.base[0] == "out":
        I.commit(st, s.end)
        if isinstance(s.start, int) and s.start == 0 and st.decide_eq(s.end, st.Q):
            return Agg(0, (s,))
        raise Unsupported("validation of unverified output")
    if s.base[0] != "in":
        n = small(I, st, slen(s))
        if n is None:
            raise Unsupported("validation of unbounded text")
        ok = valid_utf8(I, st, [st.norm(I.load(st, s.base, s.path + (("ix", add(s.start, i)),))) for i in range(n)])
        if ok:
            return Agg(0, (s,))
        return Agg(1, (It("utf8err", (Top(0, n), Top(-1, 3))),))
    if I.text:
        return Agg(0, (s,)) if (is_cb(I, st, s, 0) and I.decide_bd(st, s.end) and I.decide_bd(st, s.start)) \
            else Agg(1, (It("utf8err", (Top(0, 1 << 40), Top(-1, 3))),))
    mk = st.env.get("_u8")
    if mk is None:
        if not st.decide_eq(s.start, st.P) and s.start != 0:
            raise Unsupported("validation away from the cursor")
        if st.T is not None:
            if st.entails(sub(st.T, s.end)):
                return Agg(0, (s,))
            raise Unsupported("second validation of the input")
        x = st.copy()
        x.env = dict(x.env, _u8=1)
        x.T = s.end
        x.nforks += 1
        y = st.copy()
        v = lin.sym(y.fresh("V"))
        y.env = dict(y.env, _u8=0, _v=v, _s=s.start, _e=s.end)
        out = [x]
        try:
            y.assume_ge(sub(y.env["_v"], y.env["_s"]))
            y.assume_ge(sub(sub(y.env["_e"], y.env["_v"]), 1))
            y.T = y.env["_v"]
            y.nforks += 1
            out.append(y)
        except Infeasible:
            pass
        raise Fork(out)
    if mk == 1:
        st.env = {k: v for k, v in st.env.items() if k != "_u8"}
        return Agg(0, (s,))
    v = st.env["_v"]
    r = utf8_step(st, _IO(I, st, v, s.end))
    if r[0] == "OK":
        raise Infeasible()
    st.env = {k: x for k, x in st.env.items() if k not in ("_u8", "_v", "_s", "_e")}
    return Agg(1, (It("utf8err", (sub(v, s.start), -1 if r[0] == "INC" else r[1])),))


def valid_utf8(I, st, bs):
    """decide whether byte values bs are valid UTF-8 (forks on rows)"""
    class IO2:
        def __init__(self, o):
            self.o = o

        def at_end(self, k):
            return self.o + k >= len(bs)

        def byte(self, k):
            b = bs[self.o + k]
            if not isinstance(b, (int, Col)):
                raise Unsupported("unknown byte")
            return b
    o = 0
    while o < len(bs):
        r = utf8_step(st, IO2(o))
        if r[0] != "OK":
            return False
        o += r[1]
    return True


def err_of(I, st, v):
    if isinstance(v, Ptr):
        v = I.load(st, v.base, v.path)
    if isinstance(v, It) and v.kind == "utf8err":
        return v
    raise Unsupported("Utf8Error")


def m_valid_up_to(I, st, f, a, t):
    return st.norm(err_of(I, st, a[0]).f[0])


def m_error_len(I, st, f, a, t):
    n = err_of(I, st, a[0]).f[1]
    n = I.tolin(st, n)
    return NONE if n == -1 else some(n)


# --------------------------------------------------------- table searches
class NestedDone(Exception):
    def __init__(self, v):
        self.v = v


def closure_inst(I, ty, st=None, v=None):
    if ty is None:
        if isinstance(v, FnP):
            return v.inst
        raise Unsupported("closure of unknown type")
    t = I.p.types[ty]
    if t["k"] in ("ref",):
        t = I.p.types[t["to"]]
    if t["k"] == "closure" or t["k"] == "fndef":
        return t["inst"]
    raise Unsupported("callable " + t["k"])


def nested(I, st, fid, args, env=None):
    """evaluate a pure call to completion without case splits"""
    f = I.p.fns[fid]
    if f["body"] is None:
        raise Unsupported("nested call of " + f["path"])
    depth = len(st.frames)
    old = st.env
    st.env = dict(st.env, _base=depth, _nested=1)
    if env:
        st.env.update(env)
    note = st.note
    st.note = ()
    I.push(st, f, args, None, None)
    try:
        for _ in range(2000):
            if not I.step(st):
                raise Unsupported("nested call failed")
        raise Unsupported("nested call too long")
    except NestedDone as d:
        v = d.v
    except Fork:
        raise Unsupported("case split inside a search predicate")
    del st.frames[depth:]
    for k in [k for k in st.mem if k[0] == "l" and k[1] >= depth]:
        del st.mem[k]
    st.env = old
    st.note = note
    return v


def cmp_hook(I, st, op, a, b):
    h = st.env["_cmp"]
    ia = isinstance(a, Col) and st.c2c[a.v] == st.c2c[h]
    ib = isinstance(b, Col) and st.c2c[b.v] == st.c2c[h]
    if ia and not ib:
        return It("cmptok", (a, b, ("op", op, False)[2] and 1 or 0)) if False else It("cmp:" + op + ":0", (a, b))
    if ib and not ia:
        return It("cmp:" + op + ":1", (a, b))
    return None


def emu_search(n, cmpf, m):
    """the standard library's binary search, on all key rows at once"""
    base = np.zeros(m, dtype=np.int64)
    size = n
    while size > 1:
        half = size // 2
        mid = base + half
        c = cmpf(mid)
        base = np.where(c > 0, base, mid)
        size -= half
    c = cmpf(base)
    return c == 0, base, base + (c < 0)


def table_of(I, st, s):
    if s.base[0] != "k":
        raise Unsupported("search outside a constant table")
    n = slen(s)
    if not isinstance(n, int) or not isinstance(s.start, int):
        raise Unsupported("search of a variable range")
    return n


def search_result(I, st, key, keys, n, f):
    """keys: element keys (rows 0..n); key: int|Col searched value"""
    if n == 0:
        return Agg(1, (0,))
    K = keys
    ka = arr_of(st, key)
    if len(K) > 1 and not (np.diff(K) > 0).all():
        found, base, ins = emu_search(n, lambda i: np.sign(K[i] - ka), len(ka))
    else:
        ins = np.searchsorted(K, ka)
        c = np.minimum(ins, n - 1)
        found = K[c] == ka
        base = c
    return found_result(I, st, key, found, base, ins)


def found_result(I, st, key, found, base, ins):
    if not isinstance(key, Col):
        return Agg(0, (int(base[0]),)) if found[0] else Agg(1, (int(ins[0]),))
    if st.split_mask(key.v, found):
        return Agg(0, (st.derive(key.v, base),))
    return Agg(1, (st.derive(key.v, ins),))


def m_binary_search_by_key(I, st, f, a, t):
    s = slc(a[0])
    n = table_of(I, st, s)
    bp = ptr(a[1])
    key = st.norm(I.load(st, bp.base, bp.path))
    if not isinstance(key, (int, Col)):
        return NotImplemented
    if n == 0:
        return Agg(1, (0,))
    idx = st.new_col(np.arange(n, dtype=np.int64), "ix")
    I.stats["calls"].add(("table", s.base, n))
    kv = nested(I, st, closure_inst(I, t[2], st, a[2]),
                [a[2], Ptr(s.base, s.path + (("ix", I.addv(st, s.start, idx)),))])
    K = rows_of(st, kv, idx, n)
    return search_result(I, st, key, K, n, f)


def rows_of(st, kv, idx, n):
    if isinstance(kv, int):
        return np.full(n, kv, dtype=np.int64)
    if isinstance(kv, Col) and (n == 1 or st.c2c[kv.v] == st.c2c[idx.v]):
        return st.arr(kv.v)
    raise Unsupported("search key is not a table column")


def m_binary_search(I, st, f, a, t):
    s = slc(a[0])
    n = table_of(I, st, s)
    bp = ptr(a[1])
    key = st.norm(I.load(st, bp.base, bp.path))
    if not isinstance(key, (int, Col)):
        return NotImplemented
    if n == 0:
        return Agg(1, (0,))
    idx = st.new_col(np.arange(n, dtype=np.int64), "ix")
    kv = I.load(st, s.base, s.path + (("ix", I.addv(st, s.start, idx)),))
    return search_result(I, st, key, rows_of(st, kv, idx, n), n, f)


def m_binary_search_by(I, st, f, a, t):
    s = slc(a[0])
    n = table_of(I, st, s)
    if n == 0:
        return Agg(1, (0,))
    if n == 1:
        return NotImplemented
    idx = st.new_col(np.arange(n, dtype=np.int64), "ix")
    r = nested(I, st, closure_inst(I, t[1], st, a[1]),
               [a[1], Ptr(s.base, s.path + (("ix", I.addv(st, s.start, idx)),))], {"_cmp": idx.v})
    if not (isinstance(r, It) and r.kind.startswith("cmp:Cmp:")):
        raise Unsupported("search comparator")
    x, y = r.f
    rev = r.kind.endswith(":1")
    e, key = (y, x) if rev else (x, y)
    K = rows_of(st, e, idx, n)
    if rev:
        # closure compares key with element: search on negated order
        ka = arr_of(st, key)
        found, base, ins = emu_search(n, lambda i: np.sign(ka - K[i]), len(ka))
        return found_result(I, st, key, found, base, ins)
    return search_result(I, st, key, K, n, f)


def m_partition_point(I, st, f, a, t):
    s = slc(a[0])
    n = table_of(I, st, s)
    if n < 2:
        return NotImplemented
    idx = st.new_col(np.arange(n, dtype=np.int64), "ix")
    r = nested(I, st, closure_inst(I, t[1], st, a[1]),
               [a[1], Ptr(s.base, s.path + (("ix", I.addv(st, s.start, idx)),))], {"_cmp": idx.v})
    if not (isinstance(r, It) and r.kind.startswith("cmp:")):
        raise Unsupported("search predicate")
    _, op, rev = r.kind.split(":")
    fn = {"Lt": np.less, "Le": np.less_equal, "Gt": np.greater, "Ge": np.greater_equal, "Eq": np.equal,
          "Ne": np.not_equal}[op]
    x, y = r.f
    e, key = (y, x) if rev == "1" else (x, y)
    K = rows_of(st, e, idx, n)
    ka = arr_of(st, key)
    cf = (lambda i: np.where(fn(ka, K[i]), -1, 1)) if rev == "1" else (lambda i: np.where(fn(K[i], ka), -1, 1))
    _, _, ins = emu_search(n, cf, len(ka))
    return st.derive(key.v, ins) if isinstance(key, Col) else int(ins[0])


# --------------------------------------------------------------- equality
def elems(I, st, s):
    n = small(I, st, slen(s))
    if n is None:
        raise Unsupported("comparison of unbounded slices")
    return [st.norm(I.load(st, s.base, s.path + (("ix", add(s.start, i)),))) for i in range(n)]


def m_slice_eq(I, st, f, a, t):
    def get(v):
        v = unwrap1(v) if not isinstance(v, Slc) else v
        if isinstance(v, Ptr):
            x = I.load(st, v.base, v.path)
            if isinstance(x, (Ptr, Slc)):
                return get(x)
            n = I.alen(x)
            if v.path and view_len(v.path[-1]):
                return Slc(v.base, v.path[:-1], v.path[-1][1], add(v.path[-1][1], n))
            return Slc(v.base, v.path, 0, n)
        return v
    x, y = get(a[0]), get(a[1])
    if not st.decide_eq(slen(x), slen(y)):
        return 0
    for p, q in zip(elems(I, st, x), elems(I, st, y)):
        if not isinstance(p, (int, Col)) or not isinstance(q, (int, Col)):
            raise Unsupported("comparison of structured elements")
        r = I.compare(st, "Eq", p, q)
        if isinstance(r, Col):
            r = int(st.split_mask(r.v, st.arr(r.v) != 0))
        if not r:
            return 0
    return 1


# -------------------------------------------------------------- intrinsics
def bswap(I, st, f, a, t):
    bits = I.p.scalar(f["args"][0])[0] if f["args"] else 16
    v = st.norm(a[0])
    n = bits // 8
    if isinstance(v, int):
        return int.from_bytes(v.to_bytes(n, "little"), "big")
    if isinstance(v, Rad):
        out = []
        for c, sh, w in v.f:
            if sh % 8 or w > 8:
                # split into bytes
                for i in range(0, w, 8):
                    if sh % 8:
                        raise Unsupported("byte swap of unaligned value")
                    d = st.derive(c, (st.arr(c) >> i) & 255)
                    if isinstance(d, int):
                        d = st.new_col(np.array([d], dtype=np.int64), "c")
                    out.append((d.v, bits - 8 - (sh + i), 8))
            else:
                out.append((c, bits - 8 - sh, 8))
        return st.norm(Rad(out))
    if isinstance(v, Col):
        x = st.arr(v.v)
        r = 0
        for i in range(n):
            r = r | (((x >> (8 * i)) & 255) << (8 * (n - 1 - i)))
        return st.derive(v.v, r)
    raise Unsupported("byte swap of a length")


def bitfn(fn):
    def m(I, st, f, a, t):
        bits = I.p.scalar(f["args"][0])[0]
        v = st.norm(a[0])
        if isinstance(v, int):
            return fn(v & ((1 << bits) - 1), bits)
        if isinstance(v, Col):
            x = st.arr(v.v)
            u, inv = np.unique(x, return_inverse=True)
            r = np.array([fn(int(k) & ((1 << bits) - 1), bits) for k in u], dtype=np.int64)[inv]
            return st.derive(v.v, r)
        raise Unsupported("bit count of a length")
    return m


def arith(op):
    def m(I, st, f, a, t):
        return I.binop(st, op, a[0], a[1], f["args"][0] if f["args"] else None)
    return m


def m_sat(sign):
    def m(I, st, f, a, t):
        ty = f["args"][0]
        bits, signed = I.p.scalar(ty)
        r = I.binop(st, ("Add" if sign > 0 else "Sub") + "WithOverflow", a[0], a[1], ty)
        if r.f[1]:
            lo, hi = I.rngof(bits, signed)
            if signed:
                raise Unsupported("signed saturation")
            return hi if sign > 0 else lo
        return r.f[0]
    return m


def m_select(I, st, f, a, t):
    c = st.norm(a[0])
    if isinstance(c, Col):
        c = int(st.split_mask(c.v, st.arr(c.v) != 0))
    return a[1] if c else a[2]


def m_minmax(sign):
    def m(I, st, f, a, t):
        x, y = st.norm(a[0]), st.norm(a[1])
        if isinstance(x, (int, Lin)) and isinstance(y, (int, Lin)):
            le = st.decide_ge(sub(y, x))
            return (x if le else y) if sign < 0 else (y if le else x)
        r = I.compare(st, "Le", x, y)
        if isinstance(r, Col):
            r = int(st.split_mask(r.v, st.arr(r.v) != 0))
        return (x if r else y) if sign < 0 else (y if r else x)
    return m


def m_transmute(I, st, f, a, t):
    return I.transmute(st, a[0], f["args"][0], f["args"][1])


def m_read(I, st, f, a, t):
    p = ptr(a[0])
    return I.load(st, p.base, p.path)


def m_write(I, st, f, a, t):
    p = ptr(a[0])
    I.store(st, p.base, p.path, a[1])
    return UNIT


def m_ptr_offset(I, st, f, a, t):
    p = unwrap1(a[0])
    return ptr_add(I, st, ptr(p), I.tolin(st, a[1]))


def m_ptr_offset_from(I, st, f, a, t):
    p, q = elem_ptr(ptr(a[0])), elem_ptr(ptr(a[1]))
    if p.base == q.base and p.path[:-1] == q.path[:-1]:
        return sub(p.path[-1][1], q.path[-1][1])
    raise Unsupported("pointer difference")


def m_size_of(I, st, f, a, t):
    return I.p.size(f["args"][0])


def m_assume(I, st, f, a, t):
    v = st.norm(a[0])
    if isinstance(v, Col):
        v = int(st.split_mask(v.v, st.arr(v.v) != 0))
    if v == 0:
        raise Violation("UNSAFE", "unchecked assumption violated")
    return UNIT


def m_unreachable(I, st, f, a, t):
    raise Violation("UNSAFE", "reaches unreachable_unchecked")


def m_discriminant(I, st, f, a, t):
    p = ptr(a[0])
    return I.discr(I.load(st, p.base, p.path), f["args"][0])


def m_exact_div(I, st, f, a, t):
    return I.binop(st, "Div", a[0], a[1], f["args"][0])


def m_eval_select(I, st, f, a, t):
    # const_eval_select(args, const_fn, runtime_fn): take the runtime arm
    v = a[2]
    if isinstance(v, FnP):
        return ("tailcall", I.p.fns[v.inst], list(a[0].f))
    raise Unsupported("const_eval_select")


def m_raw_eq(I, st, f, a, t):
    return m_slice_eq(I, st, f, a, t)


def m_rotate(I, st, f, a, t):
    bits = I.p.scalar(f["args"][0])[0]
    v, n = st.norm(a[0]), I.tolin(st, a[1])
    if not isinstance(n, int):
        raise Unsupported("variable rotate")
    n %= bits
    if f["intrinsic"] == "rotate_right":
        n = (bits - n) % bits
    m = (1 << bits) - 1
    if isinstance(v, int):
        return ((v << n) | (v >> (bits - n))) & m
    if isinstance(v, Col) and bits <= 32:
        x = st.arr(v.v)
        return st.derive(v.v, ((x << n) | (x >> (bits - n))) & m)
    raise Unsupported("rotate")


def m_write_bytes(I, st, f, a, t):
    p = ptr(a[0])
    k = small(I, st, a[2])
    if k is None:
        raise Unsupported("unbounded fill")
    for i in range(k):
        q = ptr_add(I, st, p, i)
        I.store(st, q.base, q.path, a[1])
    return UNIT


INTR = {
    "bswap": bswap, "ctpop": bitfn(lambda v, b: bin(v).count("1")),
    "ctlz": bitfn(lambda v, b: b - v.bit_length()), "ctlz_nonzero": bitfn(lambda v, b: b - v.bit_length()),
    "cttz": bitfn(lambda v, b: b if v == 0 else (v & -v).bit_length() - 1),
    "cttz_nonzero": bitfn(lambda v, b: b if v == 0 else (v & -v).bit_length() - 1),
    "wrapping_add": arith("Add"), "wrapping_sub": arith("Sub"), "wrapping_mul": arith("Mul"),
    "add_with_overflow": arith("AddWithOverflow"), "sub_with_overflow": arith("SubWithOverflow"),
    "mul_with_overflow": arith("MulWithOverflow"), "unchecked_add": arith("AddUnchecked"),
    "unchecked_sub": arith("SubUnchecked"), "unchecked_mul": arith("MulUnchecked"),
    "unchecked_shl": arith("ShlUnchecked"), "unchecked_shr": arith("ShrUnchecked"),
    "unchecked_div": arith("Div"), "unchecked_rem": arith("Rem"), "three_way_compare": arith("Cmp"),
    "saturating_add": m_sat(1), "saturating_sub": m_sat(-1), "exact_div": m_exact_div,
    "select_unpredictable": m_select, "integer_min": m_minmax(-1), "integer_max": m_minmax(1),
    "transmute": m_transmute, "transmute_unchecked": m_transmute,
    "read_via_copy": m_read, "write_via_move": m_write, "volatile_load": m_read,
    "offset": m_ptr_offset, "arith_offset": m_ptr_offset,
    "ptr_offset_from": m_ptr_offset_from, "ptr_offset_from_unsigned": m_ptr_offset_from,
    "size_of": m_size_of, "assume": m_assume, "unreachable": m_unreachable,
    "cold_path": m_unit, "assert_inhabited": m_unit, "assert_zero_valid": m_unit,
    "likely": m_ident, "unlikely": m_ident, "black_box": m_ident, "forget": m_unit,
    "discriminant_value": m_discriminant, "copy_nonoverlapping": m_copy_nonoverlapping,
    "copy": m_copy_nonoverlapping, "const_eval_select": m_eval_select, "raw_eq": m_raw_eq,
    "rotate_left": m_rotate, "rotate_right": m_rotate, "write_bytes": m_write_bytes,
    "slice_get_unchecked": None, "is_val_statically_known": lambda I, st, f, a, t: 0,
    "ptr_metadata": lambda I, st, f, a, t: slen(a[0]) if isinstance(a[0], Slc) else UNIT,
}

S = "core::slice::<impl [T]>::"
R = "core::str::<impl str>::"
ITER = "<core::slice::Iter<'a, T> as core::iter::"
ITERM = "<core::slice::IterMut<'a, T> as core::iter::"
EXACT = {
    S + "len": m_len, S + "iter": m_iter, S + "iter_mut": m_iter,
    S + "chunks": m_chunks, S + "chunks_exact": m_chunks, S + "windows": m_chunks, S + "chunks_mut": m_chunks,
    S + "chunks_exact_mut": m_chunks,
    S + "copy_from_slice": m_copy_from_slice, S + "clone_from_slice": m_copy_from_slice, S + "fill": m_fill,
    S + "split_at": m_split_at, S + "split_at_mut": m_split_at, S + "split_at_unchecked": m_split_at,
    S + "split_at_mut_unchecked": m_split_at, S + "split_at_checked": m_split_at,
    S + "split_at_mut_checked": m_split_at,
    S + "binary_search": m_binary_search, S + "binary_search_by": m_binary_search_by,
    S + "binary_search_by_key": m_binary_search_by_key, S + "partition_point": m_partition_point,
    R + "len": m_len, R + "as_bytes": m_ident, R + "as_bytes_mut": m_ident, R + "char_indices": m_char_indices,
    R + "chars": m_chars, R + "bytes": m_bytes, R + "is_char_boundary": m_is_char_boundary,
    R + "split_at": m_split_at, R + "split_at_checked": m_split_at, R + "split_at_unchecked": m_split_at,
    "core::str::from_utf8": m_from_utf8, "core::str::from_utf8_mut": m_from_utf8,
    "core::str::from_utf8_unchecked": m_ident, "core::str::from_utf8_unchecked_mut": m_ident,
    "core::str::<impl str>::from_utf8": m_from_utf8, "core::str::<impl str>::from_utf8_unchecked": m_ident,
    "core::str::Utf8Error::valid_up_to": m_valid_up_to, "core::str::Utf8Error::error_len": m_error_len,
    "core::char::methods::<impl char>::encode_utf8": m_encode_utf8,
    "core::char::from_u32": m_from_u32, "core::char::convert::from_u32": m_from_u32,
    "core::char::methods::<impl char>::from_u32": m_from_u32,
    "core::char::from_u32_unchecked": m_from_u32_unchecked,
    "core::char::convert::from_u32_unchecked": m_from_u32_unchecked,
    "core::char::methods::<impl char>::from_u32_unchecked": m_from_u32_unchecked,
    "core::slice::Iter::<'a, T>::as_slice": m_iter_as_slice,
    "core::slice::IterMut::<'a, T>::into_slice": m_iter_as_slice,
    "core::str::Chars::<'a>::as_str": m_ci_as_str, "core::str::CharIndices::<'a>::as_str": m_ci_as_str,
    "core::str::CharIndices::<'a>::offset": m_ci_offset,
    "core::slice::ChunksExact::<'a, T>::remainder": m_chunks_remainder,
    "<core::str::CharIndices<'a> as core::iter::Iterator>::next": m_ci_next,
    "<core::str::CharIndices<'a> as core::iter::DoubleEndedIterator>::next_back": m_ci_next_back,
    "<core::str::Chars<'a> as core::iter::Iterator>::next": m_ci_next,
    "<core::str::Chars<'a> as core::iter::DoubleEndedIterator>::next_back": m_ci_next_back,
    "<core::str::Bytes<'_> as core::iter::Iterator>::next": m_bytes_next,
    "<core::str::Bytes<'_> as core::iter::ExactSizeIterator>::len": m_iter_len,
    "core::slice::cmp::<impl core::cmp::PartialEq<[U]> for [T]>::eq": m_slice_eq,
    "core::str::traits::<impl core::cmp::PartialEq for str>::eq": m_slice_eq,
    "core::array::equality::<impl core::cmp::PartialEq<[U; N]> for [T; N]>::eq": m_slice_eq,
    "core::slice::iter::<impl core::iter::IntoIterator for &'a [T]>::into_iter": m_into_iter,
    "core::slice::iter::<impl core::iter::IntoIterator for &'a mut [T]>::into_iter": m_into_iter,
    "core::array::iter::<impl core::iter::IntoIterator for [T; N]>::into_iter": m_array_iter,
    "<core::array::IntoIter<T, N> as core::iter::Iterator>::next": m_array_next,
    "core::hint::assert_unchecked": m_assume,
    "core::hint::unreachable_unchecked": m_unreachable,
    "core::hint::black_box": m_ident,
}
for _i in (ITER, ITERM):
    EXACT.update({
        _i + "Iterator>::next": m_iter_next, _i + "DoubleEndedIterator>::next_back": m_iter_next_back,
        _i + "Iterator>::nth": m_iter_nth, _i + "ExactSizeIterator>::len": m_iter_len,
        _i + "Iterator>::size_hint": m_iter_size_hint,
        _i + "Iterator>::__iterator_get_unchecked": m_iter_get_unchecked,
    })
for _c in ("Chunks", "ChunksExact", "Windows", "ChunksMut", "ChunksExactMut"):
    EXACT["<core::slice::%s<'a, T> as core::iter::Iterator>::next" % _c] = m_chunks_next
    EXACT["<core::slice::%s<'a, T> as core::iter::Iterator>::size_hint" % _c] = m_chunks_size_hint
    EXACT["<core::slice::%s<'a, T> as core::iter::Iterator>::__iterator_get_unchecked" % _c] = m_chunks_get
    EXACT["<core::slice::%s<'a, T> as core::iter::ExactSizeIterator>::len" % _c] = m_chunks_len
CLONE = re.compile(r"^<core::(slice|str)::(Iter|Chars|CharIndices|Bytes|Chunks|ChunksExact|Windows)<.*> as "
                   r"core::clone::Clone>::clone$")


LIFE = re.compile(r"'(?!static\b)\w+\b")
EXACT = {LIFE.sub("'_", _k): _v for _k, _v in EXACT.items()}


def lookup(f):
    p = LIFE.sub("'_", f["path"])
    if f["intrinsic"]:
        m = INTR.get(f["intrinsic"])
        if m is not None:
            return m
    m = EXACT.get(p)
    if m is not None:
        return m
    if p.endswith("::precondition_check"):
        return m_unit
    if "SliceIndex<" in p:
        if SLIX.match(p):
            return m_slice_index
        if STRIX.match(p):
            return m_str_index
    if CLONE.match(p):
        return m_clone_it
    return None
