"""Loop summaries, output certification against the specification, obligations."""
from fractions import Fraction
import numpy as np
from . import lin, models
from .lin import Lin, add, sub, scale
from .domain import (BYTES, ASCII, mask_of, mask_bytes, State, Fork, Infeasible, Unsupported, Violation, Col, Rad, Top, Agg, Arr, Ptr, Slc, It,
                     UNINIT, map_value, leaves, shape, ISIZE_MAX)
from .interp import Interp, Restart, is_scalar
from .spec import (Spec, arr_of, utf8_class, chars_of, small_unique, table, big5_bytes, dec_big5, dec_sjis, SINGLE,
                   BIG5_SPECIAL)

DET_CAP = 320
CMP_CAP = 400
QUIET_CAP = 6
SEARCH_CAP = 20
STARTERS = np.zeros(256, dtype=bool)
STARTERS[:0x80] = True
STARTERS[0xC0:0xF8] = True
START = mask_of(np.flatnonzero(STARTERS))
CLASSES = [mask_of(range(a, b)) for a, b in ((0, 0x80), (0x80, 0xC0), (0xC0, 0xF8), (0xF8, 0x100))]


class IO:
    """what the specification may look at: the input from the verified cursor on"""

    def __init__(self, I, st):
        self.I, self.st = I, st

    def at_end(self, k):
        return self.st.decide_ge(sub(add(self.st.P, k), self.st.env["L"]))

    def byte(self, k):
        return self.I.in_byte(self.st, add(self.st.P, k))

    def char(self, k):
        return self.I.char_at(self.st, add(self.st.P, k))

    def in_text(self, k):
        st = self.st
        return st.T is not None and st.decide_ge(sub(sub(st.T, add(st.P, k)), 1))

    def is_end(self):
        return bool(self.st.env["is_end"])


class Reading(IO):
    reach = -1

    def byte(self, k):
        self.reach = max(self.reach, k)
        return IO.byte(self, k)


class Analysis(Interp):
    def __init__(self, prog, fid, module, direction, peel=1, time_limit=200, blacklist=None, accel=False, exact=False):
        self.accel = accel
        self.exact_only = exact   # follow the first iterations only, without summaries
        self.acc = []
        Interp.__init__(self, prog, fid, direction == "enc", time_limit)
        self.module, self.dir = module, direction
        self.spec = Spec(module, direction)
        self.peel = peel
        if blacklist:
            self.blacklist = set(blacklist)
        self.cur = None
        self.measures = {}
        self.hull_ids = {}
        self.stats["tokens"] = 0
        self.stats["return_checks"] = 0
        self.stats["rows"] = 0

    # ---------------------------------------------------------------- entry
    def entry_states(self):
        f = self.p.fns[self.fid]
        body = f["body"]
        n = body["argc"]
        out = []
        for is_end in ((0, 1) if n == 3 else (None,)):
            st = State()
            st.env = {"L": lin.sym("L"), "O": lin.sym("O")}
            if is_end is not None:
                st.env["is_end"] = is_end
            else:
                st.env["is_end"] = 1
            for s in ("L", "O"):
                st.assume_ge(st.env[s])
                st.assume_ge(sub(ISIZE_MAX, st.env[s]))
            st.frames = [[self.fid, 0, 0, None, None, []]]
            st.mem[("l", 0, 1)] = Slc(("in",), (), 0, st.env["L"])
            st.mem[("l", 0, 2)] = Slc(("out",), (), 0, st.env["O"])
            if is_end is not None:
                st.mem[("l", 0, 3)] = is_end
            if self.text:
                st.T = st.env["L"]
            self.stats["functions"].add(self.fid)
            if 0 in self.p.cfg(self.fid)[1]:
                st.note = ("head", -1)
            out.append(st)
        return out

    def analyse(self):
        for st in self.entry_states():
            self.run_one(st)
        return self

    def run_one(self, st):
        self.run(st)

    # ---------------------------------------------------------------- commit
    def pend_eq(self, st, vals, k):
        """rows where pend[0..k) equals vals: True/False (forks on rows)"""
        for i in range(k):
            if i not in st.pend:
                return False
        for i in range(k):
            a, b = st.norm(st.pend[i]), vals[i]
            if isinstance(b, Col):
                b = st.norm(b)
            if isinstance(a, Top) or a is UNINIT:
                return False
            if isinstance(a, Lin):
                return False
            r = self.compare(st, "Eq", a, b)
            if isinstance(r, Col):
                r = st.split_mask(r.v, st.arr(r.v) != 0)
            if not r:
                return False
        return True

    def advance(self, st, n, k):
        st.P = add(st.P, n)
        st.Q = add(st.Q, k)
        np_ = {}
        for key, v in st.pend.items():
            r = sub(key, k)
            if isinstance(r, int) and r < 0:
                continue
            np_[r] = v
        st.pend = np_

    def commit(self, st, limit=None):
        for _ in range(64):
            if limit is not None and st.decide_eq(st.Q, limit):
                return
            done = False
            for ent in st.bulk:
                o, n, base, s = ent
                if self.module.startswith(("utf16", "utf32")):
                    continue
                if st.entails_eq(o, st.Q) and st.entails_eq(s, st.P):
                    if limit is not None:
                        # only as much as is reported counts
                        if not st.decide_ge(sub(sub(limit, st.Q), n)):
                            if self.module != "utf8" and ent in st.bulk and st.decide_ge(sub(sub(limit, st.Q), 1)):
                                k = sub(limit, st.Q)
                                st.bulk = tuple(e for e in st.bulk if e is not ent) + (
                                    (o, k, base, s), (add(o, k), sub(n, k), base, add(s, k)))
                                done = True
                                break
                            continue
                        if ent not in st.bulk:
                            done = True
                            break
                    if self.module != "utf8":
                        self.copied(st, ent)
                        done = True
                        break
                    if st.T is None or not st.decide_ge(sub(st.T, add(s, n))):
                        continue
                    if not self.decide_bd(st, add(s, n)):
                        continue
                    st.bulk = tuple(e for e in st.bulk if e is not ent)
                    self.advance(st, n, n)
                    done = True
                    break
            if done:
                continue
            if 0 not in st.pend:
                return
            self.stats["tokens"] += 1
            tok = self.spec.token(st, IO(self, st))
            if tok[0] != "OK":
                return
            _, n, bs = tok
            k = len(bs)
            if limit is not None and not st.decide_ge(sub(limit, add(st.Q, k))):
                return
            if not self.pend_eq(st, bs, k):
                return
            self.advance(st, n, k)
        raise Unsupported("commit loop")

    def copied(self, st, ent):
        """a block of input copied to the output as it is: right as far as it is ASCII"""
        o, n, base, s = ent
        end = add(s, n)
        if not st.decide_ge(n):
            raise Infeasible()
        m = st.cover(s, add(s, 1))
        if m and not m & ASCII:
            k = 0
            while k < 4 and st.decide_ge(sub(n, k + 1)):
                st.pend[k] = self.in_byte(st, add(s, k))
                k += 1
            if ent in st.bulk:
                st.bulk = tuple(e for e in st.bulk if e is not ent)
                if not st.entails_eq(n, k):
                    st.bulk = st.bulk + ((add(o, k), sub(n, k), base, add(s, k)),)
            return
        m = st.cover(s, end)
        if m is None or m & ~ASCII:
            # how far is it known to be
            cur = s
            for _ in range(8):
                for w, a, b in st.rng:
                    if not w & ~ASCII and st.entails(sub(cur, a)) and st.entails(sub(sub(b, cur), 1)):
                        cur = b
                        break
                else:
                    break
            j = lin.sym(st.fresh("j"))
            out = []
            for whole in (True, False):
                x = st.copy()
                x.env = dict(x.env, _e=(s, n, o, cur, end, j))
                try:
                    if whole:
                        for (k, p), v in list(x.atoms.items()):
                            if k == "b" and isinstance(v, str) and x.entails(sub(p, cur)) \
                                    and x.entails(sub(sub(end, p), 1)):
                                x.restrict(v, x.arr(v) < 128)
                        x.add_range(ASCII, cur, end)
                    else:
                        x.assume_ge(sub(j, cur))
                        x.assume_ge(sub(sub(end, j), 1))
                        s1, n1, o1, c1, e1, j1 = x.env["_e"]
                        x.add_range(ASCII, c1, j1)
                        x.add_range(BYTES & ~ASCII, j1, add(j1, 1))
                        k1 = sub(j1, s1)
                        x.bulk = tuple(e for e in x.bulk if e[0] != o1)
                        if not isinstance(k1, int) or k1:
                            x.bulk = x.bulk + ((o1, k1, base, s1),)
                        x.bulk = x.bulk + ((add(o1, k1), sub(n1, k1), base, j1),)
                except Infeasible:
                    continue
                x.env = {k: v for k, v in x.env.items() if k != "_e"}
                x.nforks += 1
                out.append(x)
            raise Fork(out)
        st.bulk = tuple(e for e in st.bulk if e != ent)
        self.advance(st, n, n)

    # ------------------------------------------------------------------ tags
    def tags(self, st, kind, got):
        """facts about a finding that decide which properties it concerns"""
        try:
            return self._tags(st, kind, got)
        except (Fork, Infeasible, Unsupported):
            return ()

    def _tags(self, st, kind, got):
        tags = set()
        if st.env.get("_stale"):
            tags.add("stale")
        if st.env.get("_asciitail"):
            tags.add("ascii")
        if kind.startswith("ERR_") and self.cur is not None and self.cur[0] == "INC":
            tags.add("inc")
        k = "c" if self.dir == "enc" else "b"
        src = self.find_atom(st, k, st.P)
        if src is None and self.dir == "dec" and st.T is not None:
            src = self.find_atom(st, "c", st.P)
        if src is not None:
            src = self.av(src)
            a = arr_of(st, src)
            if (a < 128).any():
                tags.add("ascii")
            if self.dir == "enc" and (enc_known(self.module, a)).any():
                tags.add("known")
        if got is not None and not any(isinstance(x, Top) or x is UNINIT or isinstance(x, Lin) for x in got):
            s = st.copy()
            cols = [x for x in got if isinstance(x, Col)]
            if isinstance(src, Col):
                cols.append(src)
            if cols:
                s.merge([x.v for x in cols])
            n = len(s.arr(cols[0].v)) if cols else 1
            rows = np.stack([s.arr(x.v) if isinstance(x, Col) else np.full(n, x, dtype=np.int64) for x in got], axis=1)
            if self.dir == "enc" and src is not None:
                c = s.arr(src.v) if isinstance(src, Col) else np.full(n, src, dtype=np.int64)
                d = decodes_to(self.module, rows)
                if d is None or (d != c).any():
                    tags.add("rt")
            elif self.dir == "dec":
                for r in rows[:: max(1, len(rows) // 2000)]:
                    try:
                        bytes(int(x) & 255 for x in r).decode("utf-8")
                    except UnicodeDecodeError as e:
                        if e.reason != "unexpected end of data":
                            tags.add("notutf8")
                        break
        if self.dir == "dec" and self.in_image(st):
            tags.add("image")
        return tags

    def in_image(self, st):
        """some input of this finding is something the encoder produces"""
        if self.module.startswith("utf"):
            return True
        img = image(self.module)
        b = self.find_atom(st, "b", st.P)
        if b is None:
            return False
        b = self.av(b)
        b2 = self.find_atom(st, "b", add(st.P, 1))
        if b2 is None:
            return bool(np.isin(arr_of(st, b), img[img < 256]).any())
        b2 = self.av(b2)
        if bool(np.isin(arr_of(st, b), img[img < 256]).any()):
            return True
        s = st.copy()
        cols = [x for x in (b, b2) if isinstance(x, Col)]
        if len(cols) == 2:
            s.merge([x.v for x in cols])
        x = s.arr(b.v) if isinstance(b, Col) else b
        y = s.arr(b2.v) if isinstance(b2, Col) else b2
        return bool(np.isin((x << 8) | y, img).any())

    # ---------------------------------------------------------------- finish
    def fieldmap(self):
        """names of the error struct fields, from the type table"""
        f = self.p.fns[self.fid]
        ty = f["body"]["locals"][0]
        ek = self.p.field_tys(ty, 1)[0]
        t = self.p.types[ek]
        return {n[0]: i for i, n in enumerate(t["variants"][0]["fields"])}, t

    def finish(self, st, v):
        if st.env.get("_nested"):
            raise models.NestedDone(v)
        if not isinstance(v, Agg):
            raise Unsupported("return value")
        self.stats["return_checks"] += 1
        if v.var == 0:
            self.check_ok(st, v.f[0])
        else:
            self.check_err(st, v.f[0])
        self.stats["returns"] += 1
        return False

    def off(self, st, v):
        v = self.tolin(st, v)
        return v

    def slc_of(self, v):
        v = models.unwrap1(v)
        if not isinstance(v, Slc):
            raise Unsupported("returned slice")
        return v

    def certify(self, st, w):
        """the first w output bytes are exactly the verified prefix"""
        self.commit(st, w)
        if not st.decide_eq(st.Q, w):
            more = st.decide_ge(sub(sub(w, st.Q), 1))
            if not more:
                return "less"
            return "more"
        return None

    def tok(self, st):
        self.stats["tokens"] += 1
        self.cur = None
        self.cur = self.spec.token(st, IO(self, st))
        return self.cur

    def check_ok(self, st, pair):
        if not isinstance(pair, Agg) or len(pair.f) != 2:
            raise Unsupported("Ok payload")
        s = self.slc_of(pair.f[0])
        if s.base != ("out",):
            self.report(st, "WRITTEN", "Ok does not refer to the output buffer")
            return
        if not st.decide_eq(s.start, 0):
            self.report(st, "WRITTEN", "Ok data does not start at the beginning of the output buffer")
            return
        w = s.end
        c = self.off(st, pair.f[1])
        r = self.certify(st, self.slc_of(pair.f[0]).end)
        w = s.end
        if r is not None:
            self.mismatch(st, pair, r)
            return
        c = self.off(st, pair.f[1])
        if not st.decide_eq(st.P, c):
            if not st.decide_ge(sub(c, st.P)):
                self.report(st, "CONSUMED", "reports fewer input bytes than the output accounts for")
            else:
                self.report(st, "CONSUMED", "reports more input bytes than the output accounts for")
            return
        t = self.tok(st)
        O = st.env["O"]
        if t[0] == "END":
            return
        if t[0] == "OK":
            k = len(t[2])
            if st.decide_ge(sub(sub(add(st.Q, k), O), 1)):
                return
            self.report(st, "PREMATURE_STOP", "stops although the next character (%d output bytes) fits" % k)
            return
        if t[0] == "WAIT":
            return
        if t[0] == "INC" and not st.env["is_end"]:
            return
        need = 1 if self.dir == "dec" else self.spec.max_out
        if st.decide_ge(sub(sub(add(st.Q, need), O), 1)):
            return
        if t[0] == "ERR":
            self.report(st, "MISSED_ERROR", "returns Ok in front of input that must be reported as an error")
        else:
            self.report(st, "DROPPED_INCOMPLETE",
                        "returns Ok in front of an incomplete sequence at the end of the input")

    def mismatch(self, st, pair, r):
        """written bytes differ from the definition; classify"""
        t = self.tok(st)
        w = self.slc_of(pair.f[0]).end if pair is not None else None
        if r == "less":
            self.report(st, "WRITTEN", "reports less output than it consumed input for")
            return
        if t[0] == "OK":
            k = len(t[2])
            if w is not None and not st.decide_ge(sub(w, add(st.Q, k))):
                self.report(st, "PARTIAL", "output ends inside a character")
                return
            miss = [i for i in range(k) if i not in st.pend]
            if miss:
                self.report(st, "STALE", "reports output bytes that were not written (or not all known)")
                return
            got = self.show(st, [st.pend[i] for i in range(k)])
            want = self.show(st, t[2])
            self.report(st, "VALUE", "writes %s where the definition gives %s" % (got, want),
                        [st.pend[i] for i in range(k)])
            return
        if t[0] == "ERR":
            self.report(st, "ACCEPTED", "produces output for input that must be reported as an error")
        elif t[0] == "INC":
            self.report(st, "DROPPED_INCOMPLETE" if st.env["is_end"] else "INC_OUTPUT",
                        "produces output for an incomplete sequence")
        elif t[0] == "WAIT":
            self.report(st, "INC_OUTPUT", "encodes a character that needs the following one to be decided")
        else:
            self.report(st, "STALE", "reports output bytes beyond the end of the input")

    def show(self, st, vals):
        o = []
        for v in vals:
            v = st.norm(v) if not isinstance(v, Top) else v
            if isinstance(v, Col):
                a = st.arr(v.v)
                v = int(a[len(a) // 2])
            o.append("%02X" % v if isinstance(v, int) else "??")
        return " ".join(o)

    def check_err(self, st, e):
        fm, t = self.fieldmap()
        if not isinstance(e, Agg):
            raise Unsupported("Err payload")
        er = e.f[fm["error_range"]]
        if not isinstance(er, Agg):
            raise Unsupported("error range")
        wr = self.off(st, e.f[fm["output_bytes_written"]])
        r = self.certify(st, wr)
        if r is not None:
            wr = self.off(st, e.f[fm["output_bytes_written"]])
            if r == "less":
                self.report(st, "ERR_WRITTEN", "error reports fewer output bytes than were produced")
                return
            k = self.tok(st)
            if k[0] == "OK" and all(i in st.pend for i in range(len(k[2]))):
                self.mismatch(st, None, r)
            else:
                self.report(st, "ERR_STALE", "error reports more output bytes than were produced")
            return
        k = self.tok(st)
        a, b = self.off(st, er.f[0]), self.off(st, er.f[1])
        if k[0] == "ERR" or (k[0] == "INC" and st.env["is_end"]):
            if (self.dir == "enc" or self.module in ("utf8", "big5_whatwg", "shiftjis_whatwg")) \
                    and not st.decide_ge(sub(sub(st.env["O"], st.Q), 1)):
                self.report(st, "FULL_ERROR", "fails although the output buffer is full")
            if not st.decide_eq(a, st.P):
                self.report(st, "ERR_RANGE" if k[0] == "ERR" else "INC_RANGE", "error range does not start at the offending sequence")
                return
            b = self.off(st, er.f[1])
            if k[0] == "INC":
                if not st.decide_eq(b, st.env["L"]):
                    self.report(st, "INC_RANGE", "error range of an incomplete sequence does not end at the end of input")
                    return
            elif k[1] is None:
                if not self.utf8_range(st, b):
                    return
            else:
                if not st.decide_eq(b, add(st.P, k[1])):
                    if self.dir == "dec" and st.decide_ge(sub(sub(b, add(st.P, k[1])), 1)) and \
                            st.decide_ge(sub(sub(st.env["L"], add(st.P, k[1])), 1)):
                        self.swallowed(st, self.in_byte(st, add(st.P, k[1])))
                    self.report(st, "ERR_RANGE", "error range does not cover exactly the offending sequence")
                    return
            if "cause" in fm:
                c = e.f[fm["cause"]]
                ct = self.p.types[t["variants"][0]["fields"][fm["cause"]][1]]
                want = [v["name"] for v in ct["variants"]].index("InvalidData")
                if not isinstance(c, Agg):
                    raise Unsupported("error cause")
                if c.var != want:
                    self.report(st, "ERR_CAUSE", "error cause is not InvalidData")
                    return
            if "character" in fm and k[0] == "ERR":
                c = st.norm(e.f[fm["character"]])
                x = k[2]
                x = st.norm(x) if isinstance(x, Col) else x
                if isinstance(c, (int, Col)):
                    q = self.compare(st, "Eq", c, x)
                    if isinstance(q, Col):
                        q = st.split_mask(q.v, st.arr(q.v) != 0)
                    if not q:
                        self.report(st, "ERR_CHAR", "error names a character other than the unencodable one")
                        return
                else:
                    raise Unsupported("error character")
            return
        if k[0] == "INC":
            self.report(st, "EARLY_ERROR", "incomplete trailing sequence reported as an error before the end of input")
        elif k[0] == "WAIT":
            self.report(st, "SPURIOUS_ERROR", "error where more input is needed")
        elif k[0] == "END":
            self.report(st, "SPURIOUS_ERROR", "error at the end of valid input")
        else:
            self.report(st, "SPURIOUS_ERROR", "error in front of a valid character")

    def swallowed(self, st, x):
        """the first byte after an offending sequence is inside the declared range"""
        if self.module.startswith(("utf16", "utf32")):
            return
        x = st.norm(x)
        if isinstance(x, (int, Col)) and (arr_of(st, x) < 128).any():
            st.env = dict(st.env, _asciitail=1)

    def utf8_range(self, st, b):
        P, L = st.P, st.env["L"]
        if not st.decide_ge(sub(sub(b, P), 1)) or not st.decide_ge(sub(L, b)):
            self.report(st, "ERR_RANGE", "error range is empty or leaves the input")
            return False
        if not self.ns_holds(st, add(P, 1), b):
            d = sub(b, P)
            if isinstance(d, int) and d <= 8:
                for i in range(1, d):
                    x = st.norm(self.in_byte(st, add(P, i)))
                    if isinstance(x, Col):
                        if not st.split_mask(x.v, ~STARTERS[st.arr(x.v)]):
                            self.swallowed(st, x)
                            self.report(st, "ERR_RANGE", "error range swallows a byte that starts a character")
                            return False
                    elif STARTERS[x]:
                        self.swallowed(st, x)
                        self.report(st, "ERR_RANGE", "error range swallows a byte that starts a character")
                        return False
            else:
                st.inexact("error range of unknown extent")
                self.report(st, "ERR_RANGE", "error range may swallow a byte that starts a character")
                return False
        if st.decide_ge(sub(sub(L, b), 1)):
            x = st.norm(self.in_byte(st, b))
            if isinstance(x, Col):
                a = st.arr(x.v)
                if st.split_mask(x.v, ~STARTERS[a]):
                    self.report(st, "ERR_RANGE", "error range ends in front of a byte that starts no character")
                    return False
            elif not STARTERS[x]:
                self.report(st, "ERR_RANGE", "error range ends in front of a byte that starts no character")
                return False
        return True

    def ns_holds(self, st, a, b):
        """no byte of input[a..b) can start a character"""
        m = st.cover(a, b)
        return m is not None and not m & START

    # ------------------------------------------------------------- iterators
    def iter_cmp(self, st, s):
        if isinstance(sub(s.end, s.start), int):
            st.cmpdet = True

    def odd(self, st):
        """output is waiting that the definition gives for no input"""
        if 0 not in st.pend or any(not isinstance(k, int) for k in st.pend):
            return False
        self.stats["tokens"] += 1
        tok = self.spec.token(st, IO(self, st))
        if tok[0] != "OK":
            return True
        bs = tok[2]
        for i in range(len(bs)):
            if i not in st.pend:
                return False
            a, b = st.norm(st.pend[i]), bs[i]
            if isinstance(a, (Top, Lin)) or a is UNINIT:
                return True
            r = self.compare(st, "Eq", a, st.norm(b) if isinstance(b, Col) else b)
            if isinstance(r, Col):
                r = st.split_mask(r.v, st.arr(r.v) != 0)
            if not r:
                return True
        return False

    # ------------------------------------------------------------ loop heads
    def at_head(self, st):
        fr = st.frames[-1]
        src = st.note[1]
        fid, head = fr[0], fr[1]
        depth = len(st.frames)
        _, loops, back = self.p.cfg(fid)
        isback = src in back.get(head, ())
        key = (depth, head)
        self.stats["heads"] += 1
        if st.env.get("_nested"):
            return True
        self.commit(st)
        self.prune(st)
        snap = (st.P, st.Q, len(st.pend), len(st.bulk))
        if len(st.pend) > 8 and len(st.loops) <= 1:
            raise Unsupported("output runs ahead of what the definition allows here")
        if isback and st.pend and self.odd(st):
            # whether this ends in a wrong result is seen best without a summary
            n = st.env.get("_odd", 0)
            if n >= 2 or not st.exact:
                raise Unsupported("output that the definition does not allow here")
            st.env = dict(st.env, _odd=n + 1)
            self.stats["back_edges"] += 1
            self.check_term(st, key, fid, head)
            st.loops[key] = (st.loops.get(key, (0,))[0], 0, 0, st.nforks, snap)
            st.cmpdet = False
            self.set_mark(st, key)
            return True
        if not isback:
            for k in [k for k in st.loops if k[0] > depth or (k[0] == depth and k[1] in loops[head])]:
                if k != key:
                    del st.loops[k]
                    st.marks.pop(k, None)
            st.loops[key] = (0, 0, 0, st.nforks, snap)
            st.cmpdet = False
            self.set_mark(st, key)
            if self.accel and st.exact:
                self.fold(st)
                view = self.describe(st, key)
                st.env = dict(st.env, _av=(key, len(self.acc)))
                self.acc.append((view, st.copy()))
            return True
        self.stats["back_edges"] += 1
        k, det, quiet, nf, osnap = st.loops.get(key, (0, 0, 0, -1, None))
        mk = st.marks.get(key)
        if mk and osnap is not None:
            osnap = (mk["P"], mk["Q"]) + osnap[2:]
        self.check_term(st, key, fid, head)
        black = (fid, head) in self.blacklist
        if not black:
            if nf == st.nforks and osnap is not None:
                if det < DET_CAP:
                    st.loops[key] = (k, det + 1, quiet, nf, snap)
                    self.set_mark(st, key)
                    return True
                raise Restart((fid, head))
            if osnap is not None and st.entails_eq(snap[0], osnap[0]) and st.entails_eq(snap[1], osnap[1]) \
                    and snap[2:] == osnap[2:]:
                seen = st.env.get("_qa")
                st.env = dict(st.env, _qa=frozenset(st.atoms))
                # a search in a table reads no more input from one round to the next
                if quiet < (CMP_CAP if st.cmpdet else QUIET_CAP) or quiet < SEARCH_CAP and seen == st.env["_qa"]:
                    st.loops[key] = (k, det, quiet + 1, st.nforks, snap)
                    st.cmpdet = False
                    self.set_mark(st, key)
                    return True
                raise Restart((fid, head))
        if k + 1 < self.peel:
            st.loops[key] = (k + 1, 0, 0, st.nforks, snap)
            st.cmpdet = False
            self.set_mark(st, key)
            return True
        if self.accel:
            return self.accelerate(st, key)
        if self.exact_only:
            return False
        # may split the state, so it comes before anything is recorded in it
        view = self.describe(st, key)
        st.loops[key] = (k, 0, 0, st.nforks, snap)
        st.cmpdet = False
        self.set_mark(st, key)
        return self.join(st, key, fid, head, view)

    # --------------------------------------------------------- acceleration
    def accelerate(self, st, key):
        """many rounds at once: when one iteration moves every coordinate by a
        constant and changes nothing else, the state after n such iterations is
        known exactly, and since the conditions of an iteration are linear in
        its number they need checking for the first and the last one only"""
        ph = st.env.get("_ph")
        snap = (st.P, st.Q, len(st.pend), len(st.bulk))
        if ph is None or ph[0] == 2:
            if not st.exact:
                return False
        if ph is not None and ph[0] == 2:
            # a couple of ordinary iterations after the long run
            if ph[1] >= 2:
                return False
            st.loops[key] = (0, 0, 0, st.nforks, snap)
            st.cmpdet = False
            self.set_mark(st, key)
            st.env = dict(st.env, _ph=(2, ph[1] + 1))
            return True
        if st.pend or st.bulk:
            return False
        self.fold(st)
        ahead = [x for x in st.atoms if not st.entails(sub(sub(st.P, x[1]), 1))]
        if ahead:
            # what is known about input still to come must be what was known before
            av = st.env.get("_av")
            if ph is None and (av is None or av[0] != key):
                return False
            o = self.acc[ph[1] if ph is not None else av[1]][1]
            if not st.entails_eq(st.P, o.P) or any(
                    o.atoms.get(x) != st.atoms[x] or not isinstance(st.atoms[x], int)
                    and not np.array_equal(o.arr(o.atoms[x]), st.arr(st.atoms[x])) for x in ahead):
                if ph is not None:
                    return False
                ahead = None
        view = self.describe(st, key)
        st.loops[key] = (0, 0, 0, st.nforks, snap)
        st.cmpdet = False
        self.set_mark(st, key)
        if ph is None:
            av = st.env.get("_av")
            if av is None or av[0] != key:
                return False
            base, bst = self.acc[av[1]]
            if st.env.get("_u8") != bst.env.get("_u8"):
                return False
            d = self.deltas(base, bst, view, st) if ahead is not None else None
            if d is not None and d[0][2] and ("_u8" in st.env or ahead):
                return False
            n = st.env.get("_an", 0)
            if d is None:
                if n >= 3:
                    return False
                st.env = dict(st.env, _av=(key, len(self.acc)), _an=n + 1)
                self.acc.append((view, st.copy()))
                return True
            sig = (view[0], tuple(str(x) for _, x in base[1]), tuple(d[0]), tuple(sorted(d[1].items())))
            seen = self.stats.setdefault("accelerated", set())
            pq = (d[0][2:4], [n for n, _ in base[1]][2:4])
            again = n < 1
            if not again and st.env.get("_ad") not in (None, pq):
                return False      # not twice the same kind of item
            if again:
                # counters kept relative to the last item settle after one round
                nx = st.copy()
                nx.env = dict(st.env, _av=(key, len(self.acc)), _an=n + 1, _ad=pq)
                self.acc.append((view, st.copy()))
            if sig in seen:
                if again:
                    st.env = nx.env
                return again
            seen.add(sig)
            if len(seen) > 12:
                return False
            if again:
                nx.note = ()
                self.low[("next", len(self.acc))] = nx
            k = lin.sym(st.fresh("k"))
            g = self.moved(bst, base, d, k)
            g.assume_ge(k)
            g.inexact("generalised iteration")
            g.env = dict(g.env, _ph=(1, av[1], d, k, len(seen)))
            g.loops[key] = (0, 0, 0, g.nforks, (g.P, g.Q, 0, 0))
            self.set_mark(g, key)
            g.note = ()
            self.low[("acc", len(seen))] = g
            return False
        # one generalised iteration came back: conditions in terms of its number
        _, bi, d, k, no = ph
        base, bst = self.acc[bi]
        d2 = self.deltas(base, bst, view, st, k, d)
        if d2 is None or d2 != d:
            return False
        kn = k.t[0][0]
        known = {kn} | {s for t, _ in bst.cons for s, _ in t} | {"L", "O"}
        cond = [Lin(t, c) for t, c in st.cons]
        if any(s not in known for e in cond for s, _ in e.t):
            return False
        cnt = self.stats.setdefault("long_runs", {})
        cnt[no] = cnt.get(no, 0) + 1
        if cnt[no] > 6:
            return False
        self.stats["accelerated_runs"] = self.stats.get("accelerated_runs", 0) + 1
        n = lin.sym(st.fresh("n"))
        a = self.moved(bst, base, d, n)
        a.note = ()
        try:
            a.assume_ge(sub(n, 1))
            for e in cond:
                a.assume_ge(lin.subst(e, {kn: 0}))
                a.assume_ge(lin.subst(e, {kn: sub(n, 1)}))
        except Infeasible:
            return False
        a.env = dict(a.env, _ph=(2, 0))
        a.loops[key] = (0, 0, 0, a.nforks, (a.P, a.Q, 0, 0))
        self.set_mark(a, key)
        self.low[("run", no, cnt[no])] = a
        return False

    def fold(self, st):
        """single input bytes about which only their own value is known, as facts
        about ranges: says the same, and a scan then leaves one growing range"""
        st.gc()
        for x in sorted((x for x in st.atoms if x[0] == "b"), key=lambda x: str(x[1])):
            v, pos = st.atoms[x], x[1]
            if st.entails(sub(sub(st.P, pos), 1)):
                continue
            if isinstance(v, str):
                if not st.lone(v) or len(st.clus[st.c2c[v]]) > 1:
                    continue
                m = mask_of(st.arr(v))
            else:
                m = 1 << v
            if st.T is not None and m & ~ASCII and not st.entails(sub(pos, st.T)):
                continue
            del st.atoms[x]
            st.add_range(m, pos, add(pos, 1))
        st.gc()

    def deltas(self, base, bst, view, st, k=None, prev=None):
        """constant step of every coordinate from base (after k steps of the
        same kind) to the view; None when something else changed"""
        if base[0] != view[0] or [n for n, _ in base[1]] != [n for n, _ in view[1]] or \
                [n for n, _ in base[2]] != [n for n, _ in view[2]]:
            return None
        if any(n[0] == "pend" for n, _ in base[2]):
            return None
        ds = []
        for i, ((_, x), (_, y)) in enumerate(zip(base[1], view[1])):
            if k is not None:
                x = add(x, scale(k, prev[0][i])) if prev[0][i] else x
            e = sub(y, x)
            if isinstance(e, Lin) and not e.t:
                e = e.c
            if not isinstance(e, int):
                return None
            ds.append(e)
        steps = {}
        vb, vv = [], []
        for i, ((n, x), (_, y)) in enumerate(zip(base[2], view[2])):
            if k is not None and i in prev[1]:
                x = add(x, scale(k, prev[1][i]))
            if isinstance(x, (int, Lin)) and isinstance(y, (int, Lin)):
                e = sub(y, x)
                if isinstance(e, Lin) and not e.t:
                    e = e.c
                if not isinstance(e, int):
                    return None
                if e:
                    steps[i] = e
                continue
            if isinstance(x, Top) and isinstance(y, Top) and x == y:
                continue
            vb.append((n, x))
            vv.append((n, y))
        if vb:
            a, b = value_rows(bst, vb), value_rows(st, vv)
            if len(a) != len(b):
                return None
            for (i, t), (j, u) in zip(a, b):
                if i != j or not np.array_equal(t, u):
                    return None
        if not any(ds) and not steps:
            return None
        return ds, steps

    def moved(self, bst, base, d, k):
        """the base state k steps on"""
        s = bst.copy()
        s.atoms, s.rad, s.commits = {}, {}, ()
        if not d[0][2]:
            s.atoms = {x: v for x, v in bst.atoms.items() if not bst.entails(sub(sub(bst.P, x[1]), 1))}
        s.nb = frozenset()
        s.bd = frozenset()
        nm, vm = {}, {}
        for i, (n, x) in enumerate(base[1]):
            nm[n] = add(x, scale(k, d[0][i])) if d[0][i] else x
        for i, (n, x) in enumerate(base[2]):
            vm[n] = add(x, scale(k, d[1][i])) if i in d[1] else x
        s.P, s.Q = nm["P"], nm["Q"]
        s.rng = ()
        for n, x in base[1]:
            if n[0] == "rng" and n[3] == "a":
                s.add_range(n[2], nm[n], nm[n[:3] + ("b",)])
        if s.T is not None:
            s.T = nm["T"]
        for mk in list(s.mem):
            if mk[0] != "l":
                continue
            cnt = [-1]

            def f(x):
                cnt[0] += 1
                n = (mk, cnt[0])
                return nm[n] if n in nm else vm[n] if n in vm and isinstance(vm[n], (int, Lin)) else x
            s.mem[mk] = map_value(s.mem[mk], f)
        for hk in list(s.marks):
            if any(("mark", hk, n) in nm for n in s.marks[hk]):
                s.marks[hk] = {n: nm.get(("mark", hk, n), x) for n, x in s.marks[hk].items()}
        s.env = {x: y for x, y in s.env.items() if x not in ("_av", "_an", "_ph", "_ad")}
        if s.T is not None:
            bd, nb = {s.P}, set()
            for p in bst.bd:
                for n, x in base[1]:
                    if bst.entails_eq(x, p):
                        bd.add(nm[n])
                if bst.entails(sub(sub(p, bst.P), 1)):
                    s.inexact("text facts dropped by acceleration")
            for n, x in base[1]:
                for m, y in base[1]:
                    if nm[n] != nm[m] and x != y and n not in ("L", "O", "T") and bst.entails(sub(y, x)) \
                            and bst.nb_holds(x, y):
                        nb.add((nm[n], nm[m]))
            for x, y in bst.nb:
                if bst.entails(sub(y, add(bst.P, 1))):
                    s.inexact("text facts dropped by acceleration")
            s.bd, s.nb = frozenset(bd), frozenset(nb)
        return s

    # ---------------------------------------------------------- termination
    def owned(self, st, key):
        """scalars that can tell one iteration from the next: of the loop's own
        frame, of callers' iterators, and of what the frame points to"""
        here = key[0] - 1
        seen, todo = set(), [k for k in st.mem if k[0] == "l" and k[1] == here]
        while todo:
            mk = todo.pop()
            if mk in seen or mk not in st.mem:
                continue
            seen.add(mk)
            todo.extend(bases(st.mem[mk]))
        out = {}
        for mk in st.mem:
            if mk[0] != "l" or mk[1] > here:
                continue
            v = st.mem[mk]
            if mk[1] != here and mk not in seen and not isinstance(v, It):
                continue
            lv = []
            leaves(v, lv)
            for i, x in enumerate(lv):
                if isinstance(x, (int, Lin)):
                    out[(mk[2], i) if mk[1] == here else (mk[1], mk[2], i)] = x
        return out

    def set_mark(self, st, key):
        d = self.owned(st, key)
        d["P"] = st.P
        d["Q"] = st.Q
        st.marks[key] = d
        st.env = dict(st.env)
        st.env["_mem%d_%d" % key] = dict(st.mem)

    def check_term(self, st, key, fid, head):
        old = st.marks.get(key)
        if not old:
            return
        good = set()
        cur = self.owned(st, key)
        if st.entails(sub(sub(st.P, old["P"]), 1)):
            good.add("P")
        O = st.env["O"]
        if st.entails(sub(sub(st.Q, old["Q"]), 1)):
            good.add("Q")
        changed = False
        for n, x in cur.items():
            o = old.get(n)
            if o is None:
                changed = True
                continue
            d = sub(x, o)
            if isinstance(d, int) and d == 0:
                continue
            changed = True
            if st.entails(sub(d, 1)):
                # moving up: bounded by the input, the output or a constant
                if isinstance(x, int) or st.entails(sub(add(st.env["L"], 8), x)) or st.entails(sub(add(O, 8), x)):
                    good.add((n, 1))
            elif st.entails(sub(scale(d, -1), 1)):
                if st.entails(add(x, 8)):
                    good.add((n, -1))
        hk = (key[0], fid, head)
        self.narrowing(st, cur, old, good)
        if not good:
            if not changed and st.exact and self.repeat(st, key):
                raise Violation("TERM", "loop iteration changes nothing: never terminates")
            self.measures.setdefault(hk, set()).add(None)
            return
        g = frozenset(good)
        self.measures.setdefault(hk, set()).add(g)

    @staticmethod
    def narrowing(st, cur, old, good):
        """intervals whose ends approach each other, as in a search by halves"""
        step = {}
        for n, x in cur.items():
            o = old.get(n)
            d = sub(x, o) if o is not None else None
            if isinstance(d, int) or d is not None and isinstance(x, int):
                step[n] = d
        move = [n for n, d in step.items() if not isinstance(d, int) or d]
        if len(move) > 4:
            return
        for lo in step:
            for hi in step:
                if lo == hi or (lo not in move and hi not in move):
                    continue
                if not isinstance(cur[lo], int) or not isinstance(cur[hi], int) \
                        or not isinstance(old[lo], int) or not isinstance(old[hi], int):
                    continue
                if cur[hi] - cur[lo] < old[hi] - old[lo] and cur[hi] - cur[lo] >= 0:
                    good.add((lo, hi))

    def repeat(self, st, key):
        """no scalar the loop owns changed and nothing was consumed or produced"""
        old = st.marks[key]
        if not (st.entails_eq(st.P, old["P"]) and st.entails_eq(st.Q, old["Q"])):
            return False
        k, det, quiet, nf, osnap = st.loops.get(key, (0, 0, 0, -1, None))
        if osnap is None or snap_len(st) != osnap[2:]:
            return False
        mem = st.env.get("_mem%d_%d" % key)
        if mem is None or set(mem) != set(st.mem):
            return False
        for mk, v in st.mem.items():
            if repr(v) != repr(mem[mk]):
                return False
            lv = []
            leaves(v, lv)
            if any(isinstance(x, (Col, Rad, Top)) for x in lv):
                return False
        return True

    def term_verdict(self):
        """list of loops whose termination is not established"""
        bad = []
        for hk, gs in self.measures.items():
            if None in gs:
                bad.append(hk)
                continue
            rest = [g for g in gs if "P" not in g]
            rest2 = [g for g in rest if "Q" not in g]
            if rest2 and not frozenset.intersection(*rest2):
                bad.append(hk)
        return bad

    # --------------------------------------------------------------- pruning
    def prune(self, st):
        keep = set()
        n = len(st.frames)
        for d in range(n):
            fid = st.frames[d][0]
            live, addr = self.p.live_in(fid)
            bb = st.frames[d][1] if d == n - 1 else st.frames[d + 1][4]
            if bb is None:
                return
            for l in live[bb]:
                keep.add(("l", d, l))
            if d < n - 1 and st.frames[d + 1][3] is not None:
                keep.add(st.frames[d + 1][3][0])
        todo = [k for k in keep if k in st.mem]
        seen = set(todo)
        while todo:
            v = st.mem[todo.pop()]
            for b in bases(v):
                if b[0] == "l" and b not in seen and b in st.mem:
                    seen.add(b)
                    todo.append(b)
        for k in [k for k in st.mem if k[0] == "l" and k not in seen]:
            del st.mem[k]
        st.gc()

    # ----------------------------------------------------------------- joins
    def kinds(self, v, ty, out):
        p = self.p
        if is_scalar(v):
            if ty is None:
                out.append("n")
            else:
                t = p.types[ty]
                sc = p.scalar(ty)
                if t["k"] == "bool":
                    out.append("b")
                elif sc and sc[0] >= 64:
                    out.append("n")
                elif sc:
                    out.append("v")
                else:
                    out.append("n")
            return
        if isinstance(v, Agg):
            fts = None
            if ty is not None:
                t = p.types[ty]
                if t["k"] in ("adt", "tuple"):
                    try:
                        fts = p.field_tys(ty, v.var)
                    except Exception:
                        fts = None
            for i, x in enumerate(v.f):
                self.kinds(x, fts[i] if fts and i < len(fts) else None, out)
            return
        if isinstance(v, Arr):
            et = None
            if ty is not None and p.types[ty]["k"] == "array":
                et = p.types[ty]["elem"]
            for x in v.e:
                self.kinds(x, et, out)
            return
        lv = []
        leaves(v, lv)
        out.extend("n" for _ in lv)

    def describe(self, st, key):
        """canonical view of a state at a loop head: partition key, numeric
        coordinates, value leaves"""
        nums = [("L", st.env["L"]), ("O", st.env["O"]), ("P", st.P), ("Q", st.Q)]
        if st.T is not None:
            nums.append(("T", st.T))
        vals = []
        pk = []
        for i, fr in enumerate(st.frames):
            pk.append((fr[0], fr[1], fr[2], fr[3] if fr[3] is None else (fr[3][0], shape(Ptr(*fr[3]))), fr[4]))
        for mk in sorted(k for k in st.mem if k[0] == "l"):
            v = st.mem[mk]
            ty = self.p.fns[st.frames[mk[1]][0]]["body"]["locals"][mk[2]]
            lv, kd = [], []
            leaves(v, lv)
            self.kinds(v, ty, kd)
            if len(lv) != len(kd):
                raise Unsupported("value layout at a loop head")
            sk = []
            for i, (x, k) in enumerate(zip(lv, kd)):
                x0 = x
                if isinstance(x, (Col, Rad)):
                    x = st.norm(x)
                if k == "b":
                    if isinstance(x, Col):
                        x = int(st.split_mask(x.v, st.arr(x.v) != 0))
                    sk.append(("b", x if isinstance(x, int) else "?"))
                    vals.append(((mk, i), x)) if not isinstance(x, int) else None
                    continue
                if isinstance(x, Top):
                    sk.append("t")
                    vals.append(((mk, i), x))
                elif isinstance(x, Lin) or (isinstance(x, int) and k == "n"):
                    sk.append("n")
                    nums.append(((mk, i), x))
                elif k == "n" and isinstance(x, Col):
                    if len(small_unique(st.arr(x.v))) <= 24:
                        y = st.split_values(x)
                        sk.append("n")
                        nums.append(((mk, i), y))
                    else:
                        sk.append("v")
                        vals.append(((mk, i), x))
                else:
                    sk.append("v")
                    vals.append(((mk, i), x))
            pk.append((mk, shape(v), tuple(sk)))
        pk.append(("end", st.env.get("is_end")))
        pk.append(("T", st.T is not None, st.T is not None and st.entails_eq(st.T, st.env["L"])))
        ats = []
        reach = 3
        if self.module == "utf8" and self.dir == "dec":
            # only what decides the next token matters; scans beyond it leave
            # facts about whole ranges instead
            io = Reading(self, st)
            self.spec.token(st, io)
            reach = io.reach
        for (k, pos), v in sorted(st.atoms.items(), key=lambda x: (x[0][0], str(x[0][1]))):
            r = sub(pos, st.P)
            if not isinstance(r, int):
                if not st.entails(scale(r, 1)):
                    continue
                continue
            if r < 0 or r > reach:
                # further lookahead never decides the next token; what scans
                # learned about it is kept as a fact about the range
                continue
            v = self.av(v)
            cl = 0
            if k == "c":
                cl = int(utf8_class(arr_of(st, v)[:1])[0])
            ats.append((k, r, cl))
            vals.append((("atom", k, r), v))
        pk.append(("atoms", tuple(ats)))
        if self.accel:
            rg = sorted(st.rng, key=lambda x: (x[0], str(x[1])))
            pk.append(("rng", tuple(x[0] for x in rg)))
            for i, (w, a, b) in enumerate(rg):
                nums.append((("rng", i, w, "a"), a))
                nums.append((("rng", i, w, "b"), b))
        pd = []
        for r in sorted(k for k in st.pend if isinstance(k, int)):
            pd.append(r)
            vals.append((("pend", r), st.pend[r]))
        pk.append(("pend", tuple(pd)))
        for hk in sorted(st.marks):
            if hk == key:
                continue
            if hk not in st.loops:
                continue
            names = []
            for n in sorted(st.marks[hk], key=str):
                nums.append((("mark", hk, n), st.marks[hk][n]))
                names.append(str(n))
            pk.append(("mark", hk, tuple(names)))
        pk.append(("loops", tuple(sorted((k, v[0]) for k, v in st.loops.items()))))
        return tuple(pk), nums, vals

    def join(self, st, key, fid, head, view):
        pk, nums, vals = view
        self.stats["joins"] += 1
        hk = (key, fid, head, pk)
        h = self.hulls.get(hk)
        m = self.member(st, nums, vals)
        if h is None:
            h = Hull(len(self.hulls))
            self.hulls[hk] = h
        if not h.add(self, st, m):
            return False
        h.rounds += 1
        if h.rounds > 60:
            raise Unsupported("loop summary does not stabilise")
        ns = h.make(self, st, nums, vals, key)
        self.low.pop(hk, None)
        self.low[hk] = ns
        return False

    def member(self, st, nums, vals):
        # affine part
        names = [n for n, _ in nums]
        exprs = [x for _, x in nums]
        syms = sorted({k for x in exprs if isinstance(x, Lin) for k, _ in x.t})
        c = [Fraction(lin.parts(x)[1]) for x in exprs]
        gens = []
        for s in syms:
            gens.append([Fraction(dict(lin.parts(x)[0]).get(s, 0)) for x in exprs])
        rows = value_rows(st, vals)
        return Member(st, names, exprs, c, gens, rows)


def snap_len(st):
    return (len(st.pend), len(st.bulk))


def bases(v):
    if isinstance(v, (Ptr, Slc)):
        yield v.base
    elif isinstance(v, Agg):
        for x in v.f:
            yield from bases(x)
    elif isinstance(v, Arr):
        for x in v.e:
            yield from bases(x)
    elif isinstance(v, It):
        for x in v.f:
            yield from bases(x)


ROWCAP = 300000


def table_name(module):
    return {"big5_whatwg": "big5", "shiftjis_whatwg": "sjis"}.get(module, module)


_img = {}


def image(module):
    """everything a table encoder may output, as numbers"""
    r = _img.get(module)
    if r is None:
        t = table(table_name(module))
        t = t[t >= 0]
        if module == "big5_whatwg":
            t = np.concatenate([t, big5_bytes(np.array(sorted(BIG5_SPECIAL)))])
        r = _img[module] = np.unique(t)
    return r


def enc_known(module, a):
    """characters the module's definition can encode"""
    if module.startswith("utf"):
        return np.ones(len(a), dtype=bool)
    return table(table_name(module))[a] >= 0


def decodes_to(module, rows):
    """code points the definition gives for encoded rows (-1: malformed);
    None when no row can be right"""
    n, k = rows.shape
    if module.startswith("utf"):
        return None
    if module == "big5_whatwg" or module == "shiftjis_whatwg":
        out = np.full(n, -1, dtype=np.int64)
        if k == 1:
            b = rows[:, 0]
            out = np.where(b < 128, b, -1)
            if module == "shiftjis_whatwg":
                out = np.where(b == 128, 128, np.where((b >= 0xA1) & (b <= 0xDF), b - 0xA1 + 0xFF61, out))
            return out
        x, y = rows[:, 0], rows[:, 1]
        if module == "big5_whatwg":
            ok = (x >= 0x81) & (x <= 0xFE) & (((y >= 0x40) & (y <= 0x7E)) | ((y >= 0xA1) & (y <= 0xFE)))
            p = (x - 0x81) * 157 + np.where(y < 0x7F, y - 0x40, y - 0x62)
            t = dec_big5()
        else:
            ok = (((x >= 0x81) & (x <= 0x9F)) | ((x >= 0xE0) & (x <= 0xFC))) & (y >= 0x40) & (y <= 0xFC) & (y != 0x7F)
            p = np.where(x < 0xA0, x - 0x81, x - 0xC1) * 188 + np.where(y < 0x7F, y - 0x40, y - 0x41)
            t = dec_sjis()
        return np.where(ok, t[np.where(ok, p, 0)], -1)
    b = rows[:, 0]
    t = np.concatenate([np.arange(128), SINGLE[module]])
    return t[b] if len(t) == 256 else np.where(b < len(t), t[np.minimum(b, len(t) - 1)], -1)


def uniq_rows(t):
    if t.shape[1] == 0:
        return t[:1]
    if t.shape[1] == 1:
        return small_unique(t[:, 0])[:, None]
    if len(t) < 2:
        return t
    lo = t.min(axis=0)
    w = t.max(axis=0) - lo + 1
    n = 1
    for x in w:
        n *= int(x)
    if n < (1 << 62):
        # pack rows into one key, preserving lexicographic order
        key = np.zeros(len(t), dtype=np.int64)
        for i in range(t.shape[1]):
            key = key * int(w[i]) + (t[:, i] - lo[i])
        if n < (1 << 24):
            u = np.flatnonzero(np.bincount(key))
        else:
            if (key[1:] > key[:-1]).all():
                return t
            u = np.unique(key)
        out = np.empty((len(u), t.shape[1]), dtype=np.int64)
        for i in range(t.shape[1] - 1, -1, -1):
            out[:, i] = u % int(w[i]) + lo[i]
            u = u // int(w[i])
        return out
    return np.unique(t, axis=0)


def value_rows(st, vals):
    """tables of the value leaves: a list of (leaf indices, rows).  Everything
    goes into one joint table; clusters of columns that are independent of the
    rest are kept apart only when the joint table would be too large.  Leaves
    without a table are left out."""
    groups = [[]]
    n = 1
    where = {}
    for i, (_, x) in enumerate(vals):
        if isinstance(x, (Rad, Top)) or x is UNINIT or isinstance(x, Lin):
            continue
        if isinstance(x, Col):
            c = st.c2c[x.v]
            if c not in where:
                m = len(st.arr(x.v))
                if m > ROWCAP:
                    continue
                if n * m > ROWCAP:
                    groups.append([])
                    where[c] = len(groups) - 1
                else:
                    n *= m
                    where[c] = 0
            groups[where[c]].append((i, x))
        else:
            groups[0].append((i, x))
    out = []
    for g in groups:
        cv = [x.v for _, x in g if isinstance(x, Col)]
        if cv:
            st.merge(cv)
            k = len(st.arr(cv[0]))
        else:
            k = 1
        arrs = [st.arr(x.v) if isinstance(x, Col) else np.full(k, x, dtype=np.int64) for _, x in g]
        if arrs:
            out.append(([i for i, _ in g], uniq_rows(np.stack(arrs, axis=1))))
    return out


def project(idx, t, keep):
    return t if keep == idx else uniq_rows(t[:, [idx.index(i) for i in keep]])


def align(fs, comps):
    """regroup factor tables into the given components: independent tables are
    multiplied; None where the product is too large"""
    out = []
    for comp in comps:
        parts = [(i, t) for i, t in fs if i and i[0] in comp]
        n = 1
        for _, t in parts:
            n *= len(t)
        if n > ROWCAP:
            out.append(None)
            continue
        idx, tab = [], np.zeros((1, 0), dtype=np.int64)
        for i, t in parts:
            idx = idx + i
            tab = np.concatenate([np.repeat(tab, len(t), axis=0), np.tile(t, (len(tab), 1))], axis=1)
        o = sorted(idx)
        out.append((o, uniq_rows(tab[:, [idx.index(i) for i in o]])))
    return out


def factor_union(fa, fb, settle=False):
    """smallest representable superset of both; (factors, grew).  settle: only
    ever take factors apart, so that repeated unions come to an end"""
    ia = {i for x, _ in fa for i in x}
    ib = {i for x, _ in fb for i in x}
    keep = ia & ib
    grew = keep != ia
    fa = [(k, project(x, t, k)) for x, t in fa for k in [[i for i in x if i in keep]] if k]
    fb = [(k, project(x, t, k)) for x, t in fb for k in [[i for i in x if i in keep]] if k]
    comps = [set(x) for x, _ in fa]
    for x, _ in fb:
        hit = [c for c in comps if c & set(x)]
        comps = [c for c in comps if not (c & set(x))]
        comps.append(set(x).union(*hit))
    aa, bb = align(fa, comps), align(fb, comps)
    out = []
    for comp, a, b in zip(comps, aa, bb):
        if a is None or b is None or settle:
            # the common refinement, each part on its own
            for x, t in fa:
                for y, u in fb:
                    k = [i for i in x if i in y and i in comp]
                    if not k:
                        continue
                    p, q = project(x, t, k), project(y, u, k)
                    if k != x:
                        grew = True
                    r = p if np.array_equal(p, q) else uniq_rows(np.concatenate([p, q]))
                    grew = grew or len(r) != len(p)
                    out.append((k, r))
            continue
        (x, t), (_, u) = a, b
        r = t if np.array_equal(t, u) else uniq_rows(np.concatenate([t, u]))
        grew = grew or len(r) != len(t)
        if len(r) > ROWCAP:
            grew = True
            continue
        out.append((x, r))
    return out, grew


class Member:
    __slots__ = ("st", "names", "exprs", "c", "gens", "rows")

    def __init__(self, st, names, exprs, c, gens, rows):
        self.st, self.names, self.exprs, self.c, self.gens, self.rows = st, names, exprs, c, gens, rows


def rref(gens, n):
    rows = []
    piv = []
    for g in gens:
        g = list(g)
        for r, p in zip(rows, piv):
            if g[p]:
                k = g[p]
                g = [a - k * b for a, b in zip(g, r)]
        p = next((i for i in range(n) if g[i]), None)
        if p is None:
            continue
        k = g[p]
        g = [a / k for a in g]
        for j, r in enumerate(rows):
            if r[p]:
                f = r[p]
                rows[j] = [a - f * b for a, b in zip(r, g)]
        rows.append(g)
        piv.append(p)
    o = sorted(range(len(piv)), key=lambda i: piv[i])
    return [rows[i] for i in o], [piv[i] for i in o]


class Hull:
    def __init__(self, hid):
        self.id = hid
        self.rounds = 0
        self.names = None

    def add(self, I, st, m):
        """include member; True when the summary grew"""
        if self.names is None:
            self.names = m.names
            self.c = m.c
            self.basis, self.piv = rref(m.gens, len(m.c))
            self.exprs_from()
            self.cons = None
            self.facts = None
            self.ranges = None
            self.factors = m.rows
            self.learn(I, m)
            self.inh = [dict(pairs=[(m, Lin(t, k))], f=None, no=i) for i, (t, k) in enumerate(
                [x for x in m.st.cons if len(x[0]) > 2 or any(abs(v) > 1 for _, v in x[0])][:8])]
            for r in self.inh:
                r["f"] = self.solve(r["pairs"])
            self.inh = [r for r in self.inh if r["f"]]
            return True
        grew = False
        d = [a - b for a, b in zip(m.c, self.c)]
        b2, p2 = rref(self.basis + m.gens + [d], len(self.c))
        if len(b2) != len(self.basis):
            self.basis, self.piv = b2, p2
            self.exprs_from()
            grew = True
        # constraints
        if self.learn(I, m, grew):
            grew = True
        if self.inherit(m, grew):
            grew = True
        # values
        self.factors, g = factor_union(self.factors, m.rows, self.rounds > 16)
        grew = grew or g
        return grew

    def exprs_from(self):
        """each coordinate as an affine function of the pivot coordinates"""
        n = len(self.c)
        names = {}
        for p in self.piv:
            nm = self.names[p]
            names[p] = nm if isinstance(nm, str) else "h%d_%d" % (self.id, p)
        self.ex = []
        for j in range(n):
            if j in names:
                self.ex.append(lin.sym(names[j]))
                continue
            c = self.c[j]
            d = {}
            for g, p in zip(self.basis, self.piv):
                if g[j]:
                    d[names[p]] = g[j]
                    c -= g[j] * self.c[p]
            self.ex.append(lin.mk(d, c) if d else (int(c) if Fraction(c).denominator == 1 else lin.mk(d, c)))
        # representatives: distinct linear parts
        self.reps = [None]
        seen = set()
        for j in range(n):
            t = lin.parts(self.ex[j])[0]
            if not t or t in seen:
                continue
            seen.add(t)
            self.reps.append(j)

    def solve(self, pairs):
        """a combination of the pivot coordinates that has the value of the
        given expression in each of the given members"""
        n = len(self.piv)
        rows = []
        for m, e in pairs:
            et, ec = dict(e.t), e.c
            pt = [dict(lin.parts(m.exprs[p])[0]) for p in self.piv]
            for s in sorted(set(et).union(*pt)):
                rows.append([Fraction(t.get(s, 0)) for t in pt] + [Fraction(0), Fraction(et.get(s, 0))])
            rows.append([Fraction(lin.parts(m.exprs[p])[1]) for p in self.piv] + [Fraction(1), Fraction(ec)])
        b, piv = rref(rows, n + 2)
        if n + 1 in piv:
            return None
        x = [Fraction(0)] * (n + 1)
        for r, p in zip(b, piv):
            x[p] = r[n + 1]
        return tuple((p, v) for p, v in zip(self.piv, x) if v), x[n]

    @staticmethod
    def value(f, exprs):
        r = f[1]
        for j, k in f[0]:
            r = add(r, scale(exprs[j], k))
        return r

    def inherit(self, m, moved):
        """relations a loop starts with, such as a division by a constant, in
        terms of the coordinates that keep them"""
        ch = False
        out = []
        for r in self.inh:
            e = m.st.env.get("_hx_%d_%d" % (self.id, r["no"]))
            if e is None:
                t = r["pairs"][0][1]
                e = t if (t.t, t.c) in m.st.cons else None
            f = r["f"]
            if isinstance(e, Lin) and len(r["pairs"]) < 6:
                r["pairs"].append((m, e))
                moved = True
            if moved:
                g = self.solve(r["pairs"])
                if g is not None and g != f:
                    f = g
                    if len(self.hist) >= 40 or not all(self.at(f, o) for o in self.hist):
                        f = None
            if f is None or not self.at(f, m):
                ch = True
                continue
            if f != r["f"]:
                r["f"] = f
                ch = True
            out.append(r)
        self.inh = out
        return ch

    def at(self, f, m):
        v = self.value(f, m.exprs)
        return m.st.entails(v) if isinstance(v, Lin) else v >= 0

    def learn(self, I, m, reset=False):
        st = m.st
        pairs = {}
        old = self.cons
        R = self.reps
        for a in R:
            for b in R:
                if a is b or a == b:
                    continue
                if old is not None and (a, b) in old:
                    lim = old[(a, b)]
                elif old is None:
                    lim = self.far(m) if a is None or b is None else 4
                else:
                    # a new representative: previously known only through the old members
                    lim = self.oldbound(a, b)
                if lim is None:
                    continue
                x = m.exprs[a] if a is not None else 0
                y = m.exprs[b] if b is not None else 0
                v = self.below(st, sub(x, y), lim)
                if v is not None:
                    pairs[(a, b)] = v
        ch = pairs != old
        self.cons = pairs
        # text facts
        f = set()
        if st.T is not None:
            for j in range(len(self.names)):
                if st.is_bd(m.exprs[j]) is True:
                    f.add(("bd", j))
            memo = {}
            n = len(self.names)
            use = [j for j in range(n) if j > 1 and self.names[j][0] != "mark"
                   and not (j != 2 and isinstance(m.exprs[j], int) and m.exprs[j] == 0)]
            for a in use:
                for b in use:
                    if a == b or (self.facts is not None and ("nb", a, b) not in self.facts):
                        continue
                    k = (m.exprs[a], m.exprs[b])
                    if k not in memo:
                        memo[k] = st.nb_holds(*k)
                    if memo[k]:
                        f.add(("nb", a, b))
        if self.facts is not None:
            f &= self.facts
            if f != self.facts:
                ch = True
        self.facts = f
        # what is known about whole ranges of the input
        use = [j for j in range(len(self.names)) if j > 1 and self.names[j][0] != "mark"
               and not (j != 2 and isinstance(m.exprs[j], int) and m.exprs[j] == 0)]
        w = {}
        if self.ranges is None and len(use) <= 16:
            todo = [(a, k, b) for a in use for b in use if a != b for k in (0, 1)]
        else:
            todo = list(self.ranges or ())
        for a, k, b in todo:
            x = st.cover(add(m.exprs[a], k), m.exprs[b])
            if x is not None and self.ranges is not None:
                o = self.ranges[(a, k, b)]
                x |= o
                if x != o and o:
                    # by classes of bytes, so that it settles soon
                    for g in CLASSES:
                        if x & g:
                            x |= g
            if x is not None and x != BYTES:
                w[(a, k, b)] = x
        if w != self.ranges:
            ch = True
        self.ranges = w
        self.hist = getattr(self, "hist", [])
        if len(self.hist) < 40 and not any(o.exprs == m.exprs and o.st.cons == st.cons for o in self.hist):
            self.hist.append(m)
        return ch

    @staticmethod
    def far(m):
        """largest constant worth keeping as a bound: the first member's own positions"""
        return max([4] + [e for e in m.exprs if isinstance(e, int) and e <= 64])

    @staticmethod
    def below(st, d, lim):
        """a constant in [-4, lim] below d, the largest one up to 4"""
        if isinstance(d, int):
            return min(lim, d) if d >= -4 else None
        if lim > 4 and st.entails(sub(d, lim)):
            return lim
        for k in range(min(lim, 4), -5, -1):
            if st.entails(sub(d, k)):
                return k
        return None

    def oldbound(self, a, b):
        """bound of x_a - x_b over the members recorded so far"""
        lim = 4
        for m in self.hist:
            x = m.exprs[a] if a is not None else 0
            y = m.exprs[b] if b is not None else 0
            v = self.below(m.st, sub(x, y), lim)
            if v is None:
                return None
            lim = v
        if len(self.hist) >= 40:
            return None
        return lim

    def make(self, I, st, nums, vals, key):
        s = st.copy()
        s.inexact("summarised loop")
        nm = {n: e for n, e in zip(self.names, self.ex)}
        s.cons = ()
        s.atoms = {}
        s.nb = frozenset()
        s.bd = frozenset()
        s.rng = ()
        s.rad = {}
        s.commits = ()
        s.clus = {}
        s.c2c = {}
        s.bulk = ()
        s.pend = {}
        s.env = {k: v for k, v in s.env.items() if not k.startswith("_")}
        s.env["L"], s.env["O"] = nm["L"], nm["O"]
        s.P, s.Q = nm["P"], nm["Q"]
        if s.T is not None:
            s.T = nm["T"]
        # value leaves
        newv = {}
        for idx, table in self.factors:
            cl = {}
            for c, i in enumerate(idx):
                a = table[:, c]
                if (a == a[0]).all():
                    newv[vals[i][0]] = int(a[0])
                else:
                    v = s.fresh("j")
                    cl[v] = np.ascontiguousarray(a)
                    newv[vals[i][0]] = Col(v)
            if cl:
                s.new_cluster(cl)
        for i, (n, x) in enumerate(vals):
            if n not in newv:
                newv[n] = x if isinstance(x, Top) else Top(*self.bound(st, x))
        # rebuild memory
        for mk in list(s.mem):
            if mk[0] != "l":
                continue
            cnt = [-1]

            def f(x):
                cnt[0] += 1
                n = (mk, cnt[0])
                if n in nm:
                    return nm[n]
                if n in newv:
                    return newv[n]
                return x
            s.mem[mk] = map_value(s.mem[mk], f)
        for hk in list(s.marks):
            if hk == key or hk not in s.loops:
                s.marks.pop(hk)
                continue
            s.marks[hk] = {n: nm[("mark", hk, n)] for n in s.marks[hk]}
        atomcls = {}
        for (k, pos), v in st.atoms.items():
            r = sub(pos, st.P)
            if k == "c" and isinstance(r, int):
                atomcls[r] = int(utf8_class(arr_of(st, I.av(v))[:1])[0])
        for n, v in newv.items():
            if n[0] == "atom":
                if isinstance(v, Top):
                    if n[1] == "c":
                        cl = atomcls[n[2]]
                        v = s.new_col(chars_of(cl), "c")
                    else:
                        v = s.new_col(np.arange(256, dtype=np.int64), "b")
                pos = add(s.P, n[2])
                s.atoms[(n[1], pos)] = v.v if isinstance(v, Col) else v
            elif n[0] == "pend":
                s.pend[n[1]] = v
        for e in (s.env["L"], s.env["O"]):
            if isinstance(e, Lin):
                s.assume_ge(e)
                s.assume_ge(sub(ISIZE_MAX, e))
        for (a, b), k in sorted(self.cons.items(), key=str):
            x = self.ex[a] if a is not None else 0
            y = self.ex[b] if b is not None else 0
            s.assume_ge(sub(sub(x, y), k))
        for r in self.inh:
            v = self.value(r["f"], self.ex)
            if isinstance(v, Lin) and v.t:
                s.assume_ge(v)
                s.env = dict(s.env)
                s.env["_hx_%d_%d" % (self.id, r["no"])] = v
        # substitution may have renamed: re-read expressions is unnecessary because
        # equalities are already part of the affine form
        for f in sorted(self.facts, key=str):
            if f[0] == "bd":
                s.add_bd(self.ex[f[1]])
            elif f[0] == "nb":
                a, b = self.ex[f[1]], self.ex[f[2]]
                if not s.entails(sub(a, b)):
                    s.nb = s.nb | {(a, b)}
        for (a, k, b), w in sorted(self.ranges.items()):
            if w:
                s.add_range(w, add(self.ex[a], k), self.ex[b])
        for (k, pos), v in list(s.atoms.items()):
            if k == "c":
                n = int(utf8_class(arr_of(s, I.av(v))[:1])[0])
                s.assume_ge(sub(sub(s.T, pos), n))
                s.add_bd(pos)
                s.add_bd(add(pos, n))
                if n > 1:
                    s.add_nb(add(pos, 1), add(pos, n))
        kk = s.loops[key]
        s.loops[key] = (kk[0], 0, 0, s.nforks, (s.P, s.Q, len(s.pend), len(s.bulk)))
        I.set_mark(s, key)
        s.note = ()
        return s

    @staticmethod
    def bound(st, x):
        if isinstance(x, int):
            return x, x
        if isinstance(x, Col):
            a = st.arr(x.v)
            return int(a.min()), int(a.max())
        return 0, (1 << 64) - 1
