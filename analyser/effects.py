"""Call-graph effect analysis: nothing reachable from the API keeps state,
talks to the outside or observes anything but its arguments."""

ALLOWED_CRATES = {"core", "compiler_builtins", "verif_shims"}


def consts(x, out):
    """operand constants and function items inside a MIR fragment"""
    if isinstance(x, list):
        if x and x[0] in ("c", "z", "n", "?") and len(x) >= 2 and isinstance(x[1], int):
            out.append(x)
            return
        for y in x:
            consts(y, out)


class Effects:
    def __init__(self, prog):
        self.p = prog
        self.refs = {}
        self.stat = {}
        for i, f in prog.fns.items():
            self.scan(i, f)

    def scan(self, i, f):
        refs, stats = set(), []
        b = f["body"]
        if b:
            for blk in b["blocks"]:
                cs = []
                for s in blk["s"]:
                    consts(s, cs)
                consts(blk["t"], cs)
                for c in cs:
                    self.ty_refs(c[1], refs)
                    if c[0] == "c":
                        self.blob_refs(c[2], refs, stats, blk["l"], set())
            for t in b["locals"]:
                self.ty_refs(t, refs, closures_only=True)
        self.refs[i], self.stat[i] = refs, stats

    def ty_refs(self, t, refs, closures_only=False):
        ty = self.p.types.get(t)
        if ty is None:
            return
        if ty["k"] in ("fndef", "closure") and ty.get("inst") is not None:
            if ty["k"] == "closure" or not closures_only:
                refs.add(ty["inst"])

    def blob_refs(self, blob, refs, stats, line, seen):
        if blob in seen or not isinstance(blob, int):
            return
        seen.add(blob)
        for _, aid in self.p.blobs[blob].get("ptrs", []):
            a = self.p.allocs.get(aid)
            if a is None:
                continue
            if a["k"] == "fn":
                refs.add(a["inst"])
            elif a["k"] == "static":
                stats.append((a, line))
                if a.get("blob") is not None and not a.get("mut"):
                    self.blob_refs(a["blob"], refs, stats, line, seen)
            elif a["k"] == "mem":
                self.blob_refs(a["blob"], refs, stats, line, seen)

    def reach(self, root):
        seen, todo, via = {root}, [root], {root: None}
        while todo:
            n = todo.pop()
            for m in self.refs.get(n, ()):
                if m not in seen and m in self.p.fns:
                    seen.add(m)
                    via[m] = n
                    todo.append(m)
        return seen, via

    def path(self, via, n):
        out = []
        while n is not None:
            out.append(self.p.fns[n]["name"])
            n = via[n]
        return " -> ".join(reversed(out))

    def loc(self, f, line=None):
        fn = f["file"] or ""
        if "/src/" in fn:
            fn = "src/" + fn.split("/src/", 1)[1]
        return "%s:%s" % (fn, line or f["line"])

    def check(self, own="text_encoding"):
        """(violations, undecided, counts)"""
        viol, und = {}, {}
        sites = 0
        fns = set()
        for name, root in self.p.api:
            seen, via = self.reach(root)
            fns |= seen
            for n in seen:
                f = self.p.fns[n]
                where = self.loc(f)
                sites += 1

                def bad(what, line=None):
                    viol.setdefault((what, self.loc(f, line)), "%s in %s; reached by %s" % (
                        what, self.loc(f, line), self.path(via, n)))
                for a, line in self.stat[n]:
                    if a.get("blob") is None:
                        bad("refers to external static %s" % a.get("name"), line)
                    elif a.get("mut"):
                        bad("refers to mutable global state %s" % a.get("name"), line)
                if f["foreign"]:
                    bad("calls foreign function %s" % f["name"])
                if f["kind"] == "llvm" and not f["name"].startswith("core::"):
                    bad("calls backend intrinsic %s" % f["name"])
                intr = f["intrinsic"] or ""
                if intr.startswith("atomic_"):
                    bad("atomic access %s" % intr)
                if intr.startswith("volatile_") or intr.startswith("unaligned_volatile"):
                    bad("volatile access %s" % intr)
                if f["crate"] not in ALLOWED_CRATES and f["crate"] != own:
                    bad("uses crate %s (%s)" % (f["crate"], f["name"]))
                if f["body"]:
                    for blk in f["body"]["blocks"]:
                        if blk["t"][0] == "asm":
                            if f["crate"] == own:
                                bad("inline assembly", blk["l"])
                            else:
                                und[("inline assembly", where)] = self.path(via, n)
                        for s in blk["s"]:
                            if f["crate"] == own and "PointerExposeAddress" in str(s):
                                und[("address observed as a number", self.loc(f, blk["l"]))] = self.path(via, n)
                elif not f["never"] and f["kind"] == "virtual":
                    und[("dynamic call %s" % f["name"], where)] = self.path(via, n)
        return viol, und, dict(functions=len(fns), roots=len(self.p.api), function_root_pairs=sites)
