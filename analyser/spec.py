"""Independent definition of every encoding, as "next token" relations.

Nothing here is derived from the crate's source: the mapping tables come from
data/oracle.json (frozen, cross-checked against a second source) and the
algorithms are written from the WHATWG / Unicode definitions.

token(state) returns one of
  ("END",)
  ("OK", consumed, [out bytes])      out bytes are int | Col
  ("ERR", length, char|None)
  ("INC",)                           incomplete sequence at end of input
  ("WAIT", size)                     encoder needs more input to decide
and may raise Fork on the state's value tables."""
import json
import os
import numpy as np
from .lin import add, sub
from .domain import Col, Fork, Infeasible, Unsupported, SAME

_O = json.load(open(os.path.join(os.path.dirname(__file__), "..", "data", "oracle.json")))
SINGLE = {k: np.array(v, dtype=np.int64) for k, v in _O["single"].items()}
BIG5 = np.array(_O["big5"], dtype=np.int64)
JIS = np.array(_O["jis0208"], dtype=np.int64)
BIG5_SPECIAL = {1133: (0xCA, 0x304), 1135: (0xCA, 0x30C), 1164: (0xEA, 0x304), 1166: (0xEA, 0x30C)}
NCP = 0x110000

MODULES = (["utf8", "utf16_be", "utf16_le", "utf32_be", "utf32_le", "big5_whatwg", "shiftjis_whatwg"]
           + ["single_byte::" + m for m in sorted(SINGLE)])


def enc_single(mod):
    """code point -> byte or -1"""
    t = np.full(NCP, -1, dtype=np.int64)
    t[:128] = np.arange(128)
    for i, c in enumerate(SINGLE[mod]):
        if c >= 0:
            assert t[c] == -1
            t[c] = 128 + i
    return t


def _two(ptr, per, lead_base, trail):
    return ptr


def big5_bytes(p):
    lead = p // 157 + 0x81
    tr = p % 157
    trail = np.where(tr < 0x3F, tr + 0x40, tr + 0x62)
    return (lead << 8) | trail


def sjis_bytes(p):
    lead = p // 188
    tr = p % 188
    lead = np.where(lead < 0x1F, lead + 0x81, lead + 0xC1)
    trail = np.where(tr < 0x3F, tr + 0x40, tr + 0x41)
    return (lead << 8) | trail


def enc_big5():
    """code point -> (b1<<8|b2), or byte, or -1 (WHATWG index Big5 pointer)"""
    t = np.full(NCP, -1, dtype=np.int64)
    last = {0x2550, 0x255E, 0x2561, 0x256A, 0x5341, 0x5345}
    # the encoder index excludes pointers below (0xA1-0x81)*157 in WHATWG;
    # the crate documents lossless encoding of everything it can decode
    for p in range(len(BIG5)):
        c = int(BIG5[p])
        if c < 0:
            continue
        if t[c] == -1 or c in last:
            t[c] = p
    idx = np.flatnonzero(t >= 0)
    t[idx] = big5_bytes(t[idx])
    t[:128] = np.arange(128)
    return t


def enc_sjis():
    t = np.full(NCP, -1, dtype=np.int64)
    for p in range(len(JIS)):
        c = int(JIS[p])
        if c < 0 or 8272 <= p <= 8835:
            continue
        if t[c] == -1:
            t[c] = p
    # private use range, the inverse of the decoder's 8836..10715 rule
    t[0xE000:0xE758] = np.arange(8836, 8836 + 0x758)
    t[0x2212] = t[0xFF0D]
    idx = np.flatnonzero(t >= 0)
    t[idx] = sjis_bytes(t[idx])
    t[:129] = np.arange(129)
    t[0xA5] = 0x5C
    t[0x203E] = 0x7E
    t[0xFF61:0xFFA0] = np.arange(0xA1, 0xE0)
    return t


_cache = {}


def table(name):
    r = _cache.get(name)
    if r is None:
        if name == "big5":
            r = enc_big5()
        elif name == "sjis":
            r = enc_sjis()
        else:
            r = enc_single(name)
        _cache[name] = r
    return r


def dec_big5():
    r = _cache.get("dec_big5")
    if r is None:
        r = _cache["dec_big5"] = np.concatenate([BIG5, np.full(126 * 157 - len(BIG5), -1, dtype=np.int64)]) \
            if len(BIG5) < 126 * 157 else BIG5
    return r


def dec_sjis():
    r = _cache.get("dec_sjis")
    if r is None:
        r = np.full(60 * 188, -1, dtype=np.int64)
        r[:len(JIS)] = JIS[:len(r)]
        r[8836:10716] = 0xE000 + np.arange(1880)
        _cache["dec_sjis"] = r
    return r


# ------------------------------------------------------------------ helpers
CLS = ((0, 0x80), (0x80, 0x800), (0x800, 0x10000), (0x10000, 0x110000))
_chars = {}


def chars_of(n):
    """all characters that take n bytes in UTF-8"""
    if n not in _chars:
        a = np.arange(*CLS[n - 1], dtype=np.int64)
        _chars[n] = a[(a < 0xD800) | (a > 0xDFFF)]
    return _chars[n]


def utf8_class(a):
    if len(a) < 8192:
        return np.where(a < 0x80, 1, np.where(a < 0x800, 2, np.where(a < 0x10000, 3, 4)))
    return SAME.get("cls", a, lambda: utf8_class1(a))


def utf8_class1(a):
    lo, hi = int(a.min()), int(a.max())
    for n, (x, y) in enumerate(((0, 0x80), (0x80, 0x800), (0x800, 0x10000), (0x10000, 1 << 62)), 1):
        if x <= lo and hi < y:
            return np.broadcast_to(np.int64(n), (len(a),))
    return np.where(a < 0x80, 1, np.where(a < 0x800, 2, np.where(a < 0x10000, 3, 4)))


def utf8_bytes(a, n):
    """columns of the n-byte UTF-8 encoding of code points a"""
    if len(a) < 8192:
        return utf8_bytes1(a, n)
    return SAME.get(("utf8", n), a, lambda: utf8_bytes1(a, n))


def utf8_bytes1(a, n):
    if n == 1:
        return [a]
    if n == 2:
        return [0xC0 | (a >> 6), 0x80 | (a & 63)]
    if n == 3:
        return [0xE0 | (a >> 12), 0x80 | ((a >> 6) & 63), 0x80 | (a & 63)]
    return [0xF0 | (a >> 18), 0x80 | ((a >> 12) & 63), 0x80 | ((a >> 6) & 63), 0x80 | (a & 63)]


def small_unique(a):
    """sorted distinct values; fast for small non-negative classes"""
    a = np.asarray(a)
    if a.dtype == bool:
        a = a.astype(np.int8)
    f = a[0]
    if (a == f).all():
        return np.array([f], dtype=np.int64)
    lo, hi = int(a.min()), int(a.max())
    if hi - lo < (1 << 22):
        return np.flatnonzero(np.bincount(a - lo)) + lo
    return np.unique(a)


def fork_by(st, x, classes):
    """fork st so that class array (aligned to col x) is constant; returns it"""
    if isinstance(x, int):
        return int(np.ravel(classes)[0])
    u = small_unique(classes)
    if len(u) == 1:
        return int(u[0])
    out = []
    for c in u:
        s = st.copy()
        s.restrict(x.v, classes == c)
        s.nforks += 1
        out.append(s)
    raise Fork(out)


def arr_of(st, x):
    return st.arr(x.v) if isinstance(x, Col) else np.array([x], dtype=np.int64)


def mkcol(st, x, a):
    """value with rows a aligned with x's cluster"""
    if isinstance(x, Col):
        return st.derive(x.v, a)
    return int(a[0])


def utf8_out(st, x, cps):
    """x anchors the cluster; cps row code points, all in one length class"""
    n = int(utf8_class(cps[:1])[0])
    return [mkcol(st, x, b) for b in utf8_bytes(cps, n)]


class Spec:
    """direction 'enc' or 'dec' of one module"""

    def __init__(self, module, direction):
        self.module = module
        self.dir = direction
        self.short = module.split("::")[-1]
        self.max_out = 4
        if direction == "enc":
            self.max_out = {"utf8": 4, "utf16_be": 4, "utf16_le": 4, "utf32_be": 4, "utf32_le": 4,
                            "big5_whatwg": 2, "shiftjis_whatwg": 2}.get(module, 1)
        self.fn = getattr(self, "%s_%s" % (direction, self.short if module in MODULES[:7] else "single"))

    def token(self, st, io):
        """io: accessor with at_end(p), byte(p), char(p) on the state"""
        return self.fn(st, io)

    # ---------------------------------------------------------- decoders
    def dec_single(self, st, io):
        if io.at_end(0):
            return ("END",)
        b = io.byte(0)
        a = arr_of(st, b)
        t = SINGLE[self.short]
        cp = np.where(a < 128, a, t[np.maximum(a - 128, 0)])
        k = fork_by(st, b, np.where(cp < 0, 0, utf8_class(cp)))
        if k == 0:
            return ("ERR", 1, None)
        return ("OK", 1, utf8_out(st, b, cp))

    def _utf16(self, st, io, hi, lo):
        if io.at_end(0):
            return ("END",)
        if io.at_end(1):
            return ("INC",)
        h, l = io.byte(hi), io.byte(lo)
        ha = arr_of(st, h)
        k = fork_by(st, h, np.where((ha & 0xFC) == 0xD8, 1, np.where((ha & 0xFC) == 0xDC, 2, 0)))
        if k == 2:
            return ("ERR", 2, None)
        if k == 0:
            c = self.comb(st, [h, l], [8, 0])
            a = arr_of(st, c)
            fork_by(st, c, utf8_class(a))
            return ("OK", 2, utf8_out(st, c, a))
        if io.at_end(2) or io.at_end(3):
            return ("INC",)
        h2, l2 = io.byte(2 + hi), io.byte(2 + lo)
        a2 = arr_of(st, h2)
        if fork_by(st, h2, ((a2 & 0xFC) == 0xDC).astype(int)) == 0:
            return ("ERR", 2, None)
        c = self.comb(st, [h, l, h2, l2], [0, 0, 0, 0], lambda h, l, x, y:
                      0x10000 + ((((h & 3) << 8) | l) << 10) + (((x & 3) << 8) | y))
        return ("OK", 4, utf8_out(st, c, arr_of(st, c)))

    def comb(self, st, xs, sh, f=None):
        cols = [x for x in xs if isinstance(x, Col)]
        if cols:
            st.merge([c.v for c in cols])
        arrs = []
        n = len(st.arr(cols[0].v)) if cols else 1
        for x in xs:
            arrs.append(st.arr(x.v) if isinstance(x, Col) else np.full(n, x, dtype=np.int64))
        if f is None:
            r = 0
            for a, s in zip(arrs, sh):
                r = r + (a << s)
        else:
            r = f(*arrs)
        if not cols:
            return int(r[0])
        key = ("spec",) + tuple(x.v if isinstance(x, Col) else x for x in xs)
        return st.derive(cols[0].v, r)

    def dec_utf16_be(self, st, io):
        return self._utf16(st, io, 0, 1)

    def dec_utf16_le(self, st, io):
        return self._utf16(st, io, 1, 0)

    def _utf32(self, st, io, order):
        if io.at_end(0):
            return ("END",)
        if io.at_end(1) or io.at_end(2) or io.at_end(3):
            return ("INC",)
        b = [io.byte(i) for i in order]
        if fork_by(st, b[0], (arr_of(st, b[0]) == 0).astype(int)) == 0:
            return ("ERR", 4, None)
        if fork_by(st, b[1], (arr_of(st, b[1]) <= 0x10).astype(int)) == 0:
            return ("ERR", 4, None)
        c = self.comb(st, [b[1], b[2], b[3]], [16, 8, 0])
        a = arr_of(st, c)
        k = fork_by(st, c, np.where((a >= 0xD800) & (a <= 0xDFFF), 0, utf8_class(a)))
        if k == 0:
            return ("ERR", 4, None)
        return ("OK", 4, utf8_out(st, c, a))

    def dec_utf32_be(self, st, io):
        return self._utf32(st, io, [0, 1, 2, 3])

    def dec_utf32_le(self, st, io):
        return self._utf32(st, io, [3, 2, 1, 0])

    def dec_big5_whatwg(self, st, io):
        if io.at_end(0):
            return ("END",)
        b = io.byte(0)
        a = arr_of(st, b)
        k = fork_by(st, b, np.where(a < 128, 0, np.where((a == 0x80) | (a == 0xFF), 1, 2)))
        if k == 0:
            return ("OK", 1, [b])
        if k == 1:
            return ("ERR", 1, None)
        if io.at_end(1):
            return ("INC",)
        b2 = io.byte(1)
        a2 = arr_of(st, b2)
        ok = ((a2 >= 0x40) & (a2 <= 0x7E)) | ((a2 >= 0xA1) & (a2 <= 0xFE))
        k = fork_by(st, b2, np.where(ok, 0, np.where(a2 < 128, 1, 2)))
        if k:
            return ("ERR", k, None)
        p = self.comb(st, [b, b2], [0, 0],
                      lambda x, y: (x - 0x81) * 157 + np.where(y < 0x7F, y - 0x40, y - 0x62))
        pa = arr_of(st, p)
        cp = dec_big5()[pa]
        y = arr_of(st, b2)
        if isinstance(p, Col) and not isinstance(b2, Col):
            y = np.full(len(pa), b2)
        cls = np.where(cp < 0, np.where(y < 128, 11, 12), utf8_class(cp))
        for i, sp in enumerate(BIG5_SPECIAL):
            cls = np.where(pa == sp, 20 + i, cls)
        if isinstance(p, int):
            cls = cls[0] if hasattr(cls, "__len__") else cls
        k = fork_by(st, p, cls)
        if k >= 20:
            c1, c2 = list(BIG5_SPECIAL.values())[k - 20]
            return ("OK", 2, list((chr(c1) + chr(c2)).encode()))
        if k > 10:
            return ("ERR", k - 10, None)
        return ("OK", 2, utf8_out(st, p, cp))

    def dec_shiftjis_whatwg(self, st, io):
        if io.at_end(0):
            return ("END",)
        b = io.byte(0)
        a = arr_of(st, b)
        k = fork_by(st, b, np.where(a < 128, 0, np.where(a == 128, 1, np.where(
            (a >= 0xA1) & (a <= 0xDF), 2, np.where((a == 0xA0) | (a >= 0xFD), 3, 4)))))
        if k == 0:
            return ("OK", 1, [b])
        if k == 1:
            return ("OK", 1, [0xC2, 0x80])
        if k == 2:
            return ("OK", 1, utf8_out(st, b, arr_of(st, b) - 0xA1 + 0xFF61))
        if k == 3:
            return ("ERR", 1, None)
        if io.at_end(1):
            return ("INC",)
        b2 = io.byte(1)
        a2 = arr_of(st, b2)
        ok = (a2 >= 0x40) & (a2 <= 0xFC) & (a2 != 0x7F)
        k = fork_by(st, b2, np.where(ok, 0, np.where(a2 < 128, 1, 2)))
        if k:
            return ("ERR", k, None)
        p = self.comb(st, [b, b2], [0, 0], lambda x, y:
                      (np.where(x < 0xA0, x - 0x81, x - 0xC1)) * 188 + np.where(y < 0x7F, y - 0x40, y - 0x41))
        pa = arr_of(st, p)
        cp = dec_sjis()[pa]
        y = arr_of(st, b2)
        cls = np.where(cp < 0, np.where(y < 128, 11, 12), utf8_class(cp))
        if isinstance(p, int):
            cls = np.ravel(cls)[0]
        k = fork_by(st, p, cls)
        if k > 10:
            return ("ERR", k - 10, None)
        return ("OK", 2, utf8_out(st, p, cp))

    def dec_utf8(self, st, io):
        if io.at_end(0):
            return ("END",)
        if io.in_text(0):
            c = io.char(0)
            a = arr_of(st, c)
            n = fork_by(st, c, utf8_class(a))
            return ("OK", n, utf8_out(st, c, a))
        r = utf8_step(st, io)
        if r[0] == "OK":
            return ("OK", r[1], [io.byte(i) for i in range(r[1])])
        if r[0] == "INC":
            return ("INC",)
        return ("ERR", None, None)

    # ---------------------------------------------------------- encoders
    def _char(self, st, io):
        c = io.char(0)
        a = arr_of(st, c)
        n = fork_by(st, c, utf8_class(a))
        return c, a, n

    def enc_utf8(self, st, io):
        if io.at_end(0):
            return ("END",)
        c, a, n = self._char(st, io)
        return ("OK", n, utf8_out(st, c, a))

    def _eutf16(self, st, io, be):
        if io.at_end(0):
            return ("END",)
        c, a, n = self._char(st, io)
        if n < 4:
            u = [(a >> 8) & 255, a & 255]
        else:
            v = a - 0x10000
            h = 0xD800 + (v >> 10)
            l = 0xDC00 + (v & 0x3FF)
            u = [h >> 8, h & 255, l >> 8, l & 255]
        if not be:
            u = [u[i ^ 1] for i in range(len(u))]
        return ("OK", n, [mkcol(st, c, x) for x in u])

    def enc_utf16_be(self, st, io):
        return self._eutf16(st, io, True)

    def enc_utf16_le(self, st, io):
        return self._eutf16(st, io, False)

    def _eutf32(self, st, io, sh):
        if io.at_end(0):
            return ("END",)
        c, a, n = self._char(st, io)
        return ("OK", n, [mkcol(st, c, (a >> s) & 255) for s in sh])

    def enc_utf32_be(self, st, io):
        return self._eutf32(st, io, [24, 16, 8, 0])

    def enc_utf32_le(self, st, io):
        return self._eutf32(st, io, [0, 8, 16, 24])

    def enc_single(self, st, io):
        if io.at_end(0):
            return ("END",)
        c, a, n = self._char(st, io)
        e = table(self.short)[a]
        k = fork_by(st, c, (e >= 0).astype(int) if isinstance(c, Col) else int(e[0] >= 0))
        if k == 0:
            return ("ERR", n, c)
        return ("OK", n, [mkcol(st, c, e)])

    def _mb(self, st, c, n, e):
        k = fork_by(st, c, np.where(e < 0, 0, np.where(e < 256, 1, 2)) if isinstance(c, Col)
                    else (0 if e[0] < 0 else 1 if e[0] < 256 else 2))
        if k == 0:
            return ("ERR", n, c)
        if k == 1:
            return ("OK", n, [mkcol(st, c, e)])
        return ("OK", n, [mkcol(st, c, e >> 8), mkcol(st, c, e & 255)])

    def enc_shiftjis_whatwg(self, st, io):
        if io.at_end(0):
            return ("END",)
        c, a, n = self._char(st, io)
        return self._mb(st, c, n, table("sjis")[a])

    def enc_big5_whatwg(self, st, io):
        if io.at_end(0):
            return ("END",)
        c, a, n = self._char(st, io)
        k = fork_by(st, c, np.where((a == 0xCA) | (a == 0xEA), 1, 0) if isinstance(c, Col)
                    else int(a[0] in (0xCA, 0xEA)))
        if k == 1:
            base = st.split_values(c)
            if io.at_end(n):
                if not io.is_end():
                    return ("WAIT", 2)
            else:
                c2 = io.char(n)
                a2 = arr_of(st, c2)
                k2 = fork_by(st, c2, np.where(a2 == 0x304, 1, np.where(a2 == 0x30C, 2, 0)) if isinstance(c2, Col)
                             else (1 if c2 == 0x304 else 2 if c2 == 0x30C else 0))
                if k2:
                    p = {(0xCA, 1): 1133, (0xCA, 2): 1135, (0xEA, 1): 1164, (0xEA, 2): 1166}[(base, k2)]
                    w = int(big5_bytes(np.array([p]))[0])
                    return ("OK", n + 2, [w >> 8, w & 255])
        return self._mb(st, c, n, table("big5")[a])


def utf8_step(st, io):
    """byte-level UTF-8 automaton at offset 0: ("OK",n) | ("INC",) | ("BAD",error_len)"""
    b = io.byte(0)
    a = arr_of(st, b)
    cls = np.where(a < 0x80, 1, np.where(a < 0xC2, 0, np.where(a < 0xE0, 2, np.where(
        a == 0xE0, 30, np.where(a == 0xED, 31, np.where(a < 0xF0, 3, np.where(a == 0xF0, 40, np.where(
            a < 0xF4, 4, np.where(a == 0xF4, 41, 0)))))))))
    k = fork_by(st, b, cls if isinstance(b, Col) else int(cls[0]))
    if k == 0:
        return ("BAD", 1)
    if k == 1:
        return ("OK", 1)
    n = {2: 2, 3: 3, 30: 3, 31: 3, 4: 4, 40: 4, 41: 4}[k]
    rng = {30: (0xA0, 0xBF), 31: (0x80, 0x9F), 40: (0x90, 0xBF), 41: (0x80, 0x8F)}.get(k, (0x80, 0xBF))
    for i in range(1, n):
        if io.at_end(i):
            return ("INC",)
        x = io.byte(i)
        xa = arr_of(st, x)
        ok = (xa >= rng[0]) & (xa <= rng[1])
        if fork_by(st, x, ok.astype(int) if isinstance(x, Col) else int(ok[0])) == 0:
            return ("BAD", i)
        rng = (0x80, 0xBF)
    return ("OK", n)
