"""The dumped program: functions, types, constants, CFG facts."""
import json
import numpy as np
from .domain import Agg, Arr, Ptr, Slc, FnP, UNINIT, Unsupported


class CArr:
    """constant array: lazily decoded elements of one type"""
    __slots__ = ("prog", "ty", "blob", "off", "n", "stride", "_cache")

    def __init__(self, prog, ty, blob, off, n):
        self.prog, self.ty, self.blob, self.off, self.n = prog, ty, blob, off, n
        self.stride = prog.size(ty)
        self._cache = {}

    def elem(self, i):
        r = self._cache.get(i)
        if r is None:
            if not (0 <= i < self.n):
                raise Unsupported("constant index out of range")
            r = self._cache[i] = self.prog.decode(self.ty, self.blob, self.off + i * self.stride)
        return r

    def leaf_array(self, off, size, signed):
        """numpy array of the scalar at byte offset off of every element"""
        k = ("l", off, size, signed)
        r = self._cache.get(k)
        if r is None:
            b = self.prog.blob_bytes(self.blob)
            a = np.frombuffer(b, dtype=np.uint8)[self.off:self.off + self.n * self.stride]
            a = a.reshape(self.n, self.stride)[:, off:off + size].astype(np.int64)
            r = np.zeros(self.n, dtype=np.int64)
            for i in range(size):
                r |= a[:, i] << (8 * i)
            if signed and size < 8:
                r = np.where(r >> (8 * size - 1), r - (1 << (8 * size)), r)
            self._cache[k] = r
        return r

    def __repr__(self):
        return "CArr[%d]" % self.n


class Prog:
    def __init__(self, path):
        d = json.load(open(path))
        self.d = d
        self.types = {int(k): v for k, v in d["types"].items()}
        self.fns = {f["id"]: f for f in d["fns"]}
        self.allocs = {int(k): v for k, v in d["allocs"].items()}
        self.blobs = d["blobs"]
        self.api = d["api"]
        self.items = d["items"]
        self._bytes = {}
        self._cfg = {}
        self._live = {}
        self._const = {}
        self._cells = {}

    # ------------------------------------------------------------- types
    def size(self, ty):
        t = self.types[ty]
        k = t["k"]
        if k == "bool":
            return 1
        if k == "char":
            return 4
        if k == "int":
            return t["bits"] // 8
        if k in ("ref", "ptr"):
            return 16 if self.types[t["to"]]["k"] in ("slice", "str") else 8
        if k == "array":
            return t["len"] * self.size(t["elem"])
        if k in ("adt", "tuple", "closure"):
            if t["layout"] is None:
                raise Unsupported("no layout")
            return t["layout"]["size"]
        if k == "fndef":
            return 0
        if k == "fnptr":
            return 8
        raise Unsupported("size of " + k)

    def scalar(self, ty):
        """(bits, signed) for scalar types else None"""
        t = self.types[ty]
        k = t["k"]
        if k == "int":
            return t["bits"], t["signed"]
        if k == "bool":
            return 1, False
        if k == "char":
            return 32, False
        return None

    def field_tys(self, ty, var=0):
        t = self.types[ty]
        k = t["k"]
        if k == "adt":
            return [f[1] for f in t["variants"][var]["fields"]]
        if k == "tuple":
            return list(t["elems"])
        if k == "closure":
            u = t["upvars"]
            return list(self.types[u]["elems"]) if u is not None else []
        return []

    def is_enum(self, ty):
        t = self.types[ty]
        return t["k"] == "adt" and "Enum" in t["kind"]

    # ------------------------------------------------------------ consts
    def blob_bytes(self, i):
        r = self._bytes.get(i)
        if r is None:
            r = self._bytes[i] = bytes.fromhex(self.blobs[i]["hex"])
        return r

    def const(self, ty, blob):
        k = (ty, blob)
        r = self._const.get(k)
        if r is None:
            r = self._const[k] = self.decode(ty, blob, 0)
        return r

    def zst(self, ty):
        t = self.types[ty]
        if t["k"] == "fndef":
            return FnP(t["inst"])
        if t["k"] == "array":
            return Arr(())
        if t["k"] in ("adt", "tuple", "closure"):
            if t["k"] == "adt" and not t["variants"]:
                return Agg(0, ())
            return Agg(0, [self.zst(x) if self.size(x) == 0 else UNINIT for x in self.field_tys(ty)])
        return Agg(0, ())

    def decode(self, ty, blob, off):
        t = self.types[ty]
        k = t["k"]
        b = self.blob_bytes(blob)
        if k in ("bool", "char", "int"):
            n = self.size(ty)
            return int.from_bytes(b[off:off + n], "little", signed=(k == "int" and t["signed"]))
        if k == "array":
            n = t["len"]
            if n > 16:
                return CArr(self, t["elem"], blob, off, n)
            s = self.size(t["elem"])
            return Arr([self.decode(t["elem"], blob, off + i * s) for i in range(n)])
        if k in ("ref", "ptr"):
            return self.decode_ptr(t["to"], blob, off)
        if k in ("tuple", "closure"):
            offs = t["layout"]["fields"]
            if offs == "prim":
                offs = [0] * 8
            return Agg(0, [self.decode(x, blob, off + o) for x, o in zip(self.field_tys(ty), offs)])
        if k == "adt":
            lay = t["layout"]
            if lay is None:
                if "Union" in t["kind"]:
                    return UNINIT
                raise Unsupported("constant of " + t["name"])
            v = lay["variants"]
            if v is None:
                return Agg(0, ())
            if "single" in v:
                var = v["single"]
                offs = lay["fields"]
                if offs == "prim":
                    offs = [0] * 8
                elif isinstance(offs, dict):
                    offs = [0] * 8
            else:
                n = v["tag_size"]
                to = off + v["tag_off"]
                tag = int.from_bytes(b[to:to + n], "little")
                isptr = any(p[0] == to for p in self.blobs[blob]["ptrs"])
                if v["enc"] == "direct":
                    var = None
                    for i, x in enumerate(t["variants"]):
                        if int(x["discr"]) % (1 << (8 * n)) == tag:
                            var = i
                    if var is None:
                        raise Unsupported("bad tag")
                else:
                    e = v["enc"]
                    rel = (tag - int(e["niche_start"])) % (1 << (8 * n))
                    if isptr or rel > e["end"] - e["start"]:
                        var = e["untagged"]
                    else:
                        var = e["start"] + rel
                offs = v["variants"][var]
            fts = self.field_tys(ty, var)
            return Agg(var, [self.decode(x, blob, off + o) for x, o in zip(fts, offs)])
        if k == "fndef":
            return FnP(t["inst"])
        raise Unsupported("constant of kind " + k)

    def decode_ptr(self, to, blob, off):
        al = None
        for p in self.blobs[blob]["ptrs"]:
            if p[0] == off:
                al = p[1]
        b = self.blob_bytes(blob)
        inner = int.from_bytes(b[off:off + 8], "little")
        tk = self.types[to]["k"]
        n = int.from_bytes(b[off + 8:off + 16], "little") if tk in ("slice", "str") else None
        if al is None:
            if n == 0 or self._zs(to):
                return Slc(("k", -1, 0, to, 0), (), 0, 0) if n is not None else Ptr(("k", -1, 0, to, 0))
            raise Unsupported("constant pointer without provenance")
        a = self.allocs[al]
        if a["k"] == "fn":
            return FnP(a.get("inst"))
        if a["k"] not in ("mem", "static"):
            raise Unsupported("pointer to " + a["k"])
        if n is not None:
            return Slc(("k", al, inner, to, n), (), 0, n)
        return Ptr(("k", al, inner, to, None))

    def _zs(self, ty):
        try:
            return self.size(ty) == 0
        except Unsupported:
            return False

    def cell(self, base):
        r = self._cells.get(base)
        if r is None:
            _, al, off, ty, n = base
            if al == -1:
                r = Arr(()) if n is not None else self.zst(ty)
            else:
                a = self.allocs[al]
                if a.get("blob") is None:
                    raise Unsupported("static without initialiser")
                t = self.types[ty]
                if t["k"] == "slice":
                    r = CArr(self, t["elem"], a["blob"], off, n)
                elif t["k"] == "str":
                    r = CArr(self, self.u8(), a["blob"], off, n)
                else:
                    r = self.decode(ty, a["blob"], off)
            self._cells[base] = r
        return r

    def u8(self):
        for i, t in self.types.items():
            if t["k"] == "int" and t["bits"] == 8 and not t["signed"]:
                return i
        raise Unsupported("no u8")

    # --------------------------------------------------------------- cfg
    def succs(self, b):
        t = b["t"]
        k = t[0]
        if k == "goto":
            return [t[1]]
        if k == "switch":
            return [x[1] for x in t[2]] + ([t[3]] if t[3] is not None else [])
        if k == "drop":
            return [t[1]]
        if k == "call":
            return [t[4]] if t[4] is not None else []
        if k == "assert":
            return [t[3]]
        return []

    def cfg(self, fid):
        r = self._cfg.get(fid)
        if r is not None:
            return r
        body = self.fns[fid]["body"]
        bl = body["blocks"]
        n = len(bl)
        succ = [self.succs(b) for b in bl]
        # iterative dfs for back edges (target on stack)
        color = [0] * n
        back = {}
        st = [(0, 0)]
        color[0] = 1
        while st:
            v, i = st.pop()
            if i < len(succ[v]):
                st.append((v, i + 1))
                w = succ[v][i]
                if color[w] == 0:
                    color[w] = 1
                    st.append((w, 0))
                elif color[w] == 1:
                    back.setdefault(w, set()).add(v)
            else:
                color[v] = 2
        pred = [[] for _ in range(n)]
        for v in range(n):
            for w in succ[v]:
                pred[w].append(v)
        loops = {}
        for h, srcs in back.items():
            body_ = {h}
            stk = list(srcs)
            while stk:
                v = stk.pop()
                if v in body_:
                    continue
                body_.add(v)
                stk.extend(pred[v])
            loops[h] = body_
        r = self._cfg[fid] = (succ, loops, back)
        return r

    # ---------------------------------------------------------- liveness
    def live_in(self, fid):
        """per block: set of locals whose value may be read from block start"""
        r = self._live.get(fid)
        if r is not None:
            return r
        body = self.fns[fid]["body"]
        bl = body["blocks"]
        succ = self.cfg(fid)[0]
        gen, kill = [], []
        addr = set()

        def place_uses(p, out):
            for e in p[1]:
                if isinstance(e, list) and e[0] == "i":
                    out.add(e[1])

        def op_uses(o, out):
            if o[0] in ("p", "m"):
                out.add(o[1][0])
                place_uses(o[1], out)

        def rv_uses(rv, out):
            k = rv[0]
            if k == "use":
                op_uses(rv[1], out)
            elif k in ("ref", "addr"):
                p = rv[1]
                out.add(p[0])
                place_uses(p, out)
                if not (p[1] and p[1][0] == "*"):
                    addr.add(p[0])
            elif k == "agg":
                for o in rv[2]:
                    op_uses(o, out)
            elif k in ("bin", "cbin"):
                op_uses(rv[2], out)
                op_uses(rv[3], out)
            elif k == "cast":
                op_uses(rv[2], out)
            elif k in ("discr", "len"):
                out.add(rv[1][0])
                place_uses(rv[1], out)
            elif k == "repeat":
                op_uses(rv[1], out)
            elif k == "un":
                op_uses(rv[2], out)

        for b in bl:
            g, kl = set(), set()

            def use(s):
                for x in s:
                    if x not in kl:
                        g.add(x)
            for s in b["s"]:
                u = set()
                if s[0] == "=":
                    rv_uses(s[2], u)
                    d = s[1]
                    if d[1]:
                        u.add(d[0])
                        place_uses(d, u)
                        use(u)
                    else:
                        use(u)
                        kl.add(d[0])
                elif s[0] == "sd":
                    u.add(s[1][0])
                    use(u)
                elif s[0] == "dead" or s[0] == "live":
                    kl.add(s[1])
                elif s[0] in ("assume",):
                    op_uses(s[1], u)
                    use(u)
                elif s[0] == "cno":
                    for o in s[1:]:
                        if isinstance(o, list):
                            op_uses(o, u)
                    use(u)
            t = b["t"]
            u = set()
            if t[0] == "switch":
                op_uses(t[1], u)
            elif t[0] == "call":
                op_uses(t[1], u)
                for o in t[2]:
                    op_uses(o, u)
                if t[3][1]:
                    u.add(t[3][0])
                    place_uses(t[3], u)
                    use(u)
                else:
                    use(u)
                    kl.add(t[3][0])
                    u = set()
            elif t[0] == "assert":
                op_uses(t[1], u)
            elif t[0] == "return":
                u.add(0)
            use(u)
            gen.append(g)
            kill.append(kl)
        n = len(bl)
        live = [set() for _ in range(n)]
        ch = True
        while ch:
            ch = False
            for v in range(n - 1, -1, -1):
                o = set()
                for w in succ[v]:
                    o |= live[w]
                nv = gen[v] | (o - kill[v])
                if nv != live[v]:
                    live[v] = nv
                    ch = True
        r = self._live[fid] = (live, addr)
        return r
