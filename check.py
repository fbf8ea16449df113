#!/usr/bin/env python3-vt
"""check.py PROPERTY [--tier quick|thorough]

Extracts the compiler's view of /repo's current tree, analyses the functions
the property is about, and reports violations.  Exit 0: nothing violated;
1: a definite violation (VIOLATION line); 2: the tree could not be read."""
import argparse
import json
import multiprocessing as mp
import os
import sys
import tempfile
import time

HERE = os.path.dirname(os.path.abspath(__file__))
sys.path.insert(0, HERE)
sys.setrecursionlimit(10000)
for v in ("OMP_NUM_THREADS", "OPENBLAS_NUM_THREADS", "MKL_NUM_THREADS"):
    os.environ.setdefault(v, "1")

from analyser import extract, props  # noqa: E402
from analyser.prog import Prog  # noqa: E402
from analyser.analysis import Analysis  # noqa: E402
from analyser.interp import Restart  # noqa: E402
from analyser.domain import Unsupported  # noqa: E402

_P = {}


def prog(path):
    if path not in _P:
        _P[path] = Prog(path)
    return _P[path]


def run(p, fid, mod, d, peel, limit, bl, accel=False, exact=False, soft=1e9):
    t0 = time.time()
    while True:
        a = Analysis(p, fid, mod.split("::")[-1], d, peel, limit, blacklist=bl, accel=accel, exact=exact)
        a.soft_limit = soft
        try:
            a.analyse()
            return a, None
        except Restart as r:
            if r.key in bl or time.time() - t0 > limit:
                return a, "loop at %s does not summarise" % (r.key,)
            bl.add(r.key)
        except Unsupported as e:
            return a, str(e)
        except MemoryError:
            a.work, a.low = [], {}
            return a, "out of memory"


def stage(r, p, fid, peel, limit, pid, accel=False, exact=False, soft=1e9):
    """one round for one entry point; its outcome is folded into r"""
    want = props.PROPS[pid][1]
    t0 = time.time()
    bl = set(r["bl"])
    a, e = run(p, fid, r["mod"], r["dir"], peel, limit, bl, accel, exact, soft)
    r["bl"] = bl
    new = [(f.kind, f.where, f.msg, f.exact, list(f.why), f.witness, list(f.tags)) for f in a.findings.values()]
    sure = [f for f in new if f[3]]
    if accel:
        r["stats"]["accelerated_runs"] = a.stats.get("accelerated_runs", 0)
    if accel or exact:
        r["findings"] += sure
        r["stats"]["exact_states"] = r["stats"].get("exact_states", 0) + a.stats["states"]
    else:
        old = [f for f in r["findings"] if f[3]]
        seen = {(f[0], f[1]) for f in old}
        size = len(a.unsupported) + len(new) - len(sure)
        if r["peel"] == 0 or (not e and (r["error"] or size <= r["open"])):
            r["open"] = size
            r["findings"] = old + [f for f in new if f[3] or (f[0], f[1]) not in seen]
            r["error"] = e
            r["unsupported"] = [(m, w, n) for (m, w), n in a.unsupported.items()]
            r["term"] = ["%s (bb%d)" % (p.fns[t[1]]["name"], t[2]) for t in a.term_verdict()]
            st = {k: (len(v) if isinstance(v, set) else v) for k, v in a.stats.items()}
            for k in ("accelerated_runs", "exact_states"):
                if k in r["stats"]:
                    st[k] = r["stats"][k]
            r["stats"] = st
            r["functions"] = sorted(p.fns[f]["name"] for f in a.stats["functions"])
            r["loops"] = len(a.measures)
            r["peel"] = peel
        else:
            r["findings"] += sure
    r["wall"] += time.time() - t0
    r["hit"] = any(f[3] and want(f[0], set(f[6]), r["dir"], r["mod"]) for f in r["findings"])
    r["done"] = not (r["findings"] or r["error"] or r["unsupported"] or r["term"])


def job(args, send):
    """one stage of one entry point; every round's result is sent"""
    path, r, fid, pid, rounds = args
    p = prog(path)
    t0 = time.time()
    for kw in rounds:
        # what the rounds of a stage may not overrun together
        try:
            stage(r, p, fid, pid=pid, **kw)
        except MemoryError:
            r["error"] = r["error"] or "out of memory"
        except Exception as e:  # a construct the analyser does not know: undecided, never an alarm
            import traceback
            r["error"] = "analyser: %r %s" % (e, traceback.format_exc().splitlines()[-3:])
            r["done"] = False
            send(r)
            return
        send(r)
        if r["hit"] or r["done"]:
            return


def child(conn, args, mem):
    import resource
    resource.setrlimit(resource.RLIMIT_AS, (mem, mem))
    try:
        job(args, conn.send)
    except BaseException:
        pass
    conn.close()
    os._exit(0)


def schedule(jobs, workers, hard, until):
    """run jobs in their own processes; none may hang, swell or take the rest down"""
    from multiprocessing.connection import wait
    ctx = mp.get_context("fork")
    todo = list(jobs)
    live = {}
    got = {}
    while todo or live:
        while todo and len(live) < workers and time.time() < until:
            j = todo.pop(0)
            r, w = ctx.Pipe(False)
            p = ctx.Process(target=child, args=(w, j, 3_400_000_000), daemon=True)
            p.start()
            w.close()
            live[r] = (p, j, time.time())
        if not live:
            break
        for r in wait(list(live), timeout=1.0):
            try:
                got[id(live[r][1])] = r.recv()
            except Exception:
                p, j, _ = live.pop(r)
                r.close()
                p.join()
        now = time.time()
        for r in [r for r, (p, j, t) in live.items() if now - t > hard or now > until]:
            p, j, _ = live.pop(r)
            p.kill()
            p.join()
            r.close()
    return [got.get(id(j)) for j in jobs]


COST = {("utf8", "dec"): 28, ("big5_whatwg", "enc"): 8, ("shiftjis_whatwg", "dec"): 6, ("big5_whatwg", "dec"): 6,
        ("utf16_be", "enc"): 3, ("utf16_le", "enc"): 3, ("utf16_be", "dec"): 3, ("utf16_le", "dec"): 3,
        ("shiftjis_whatwg", "enc"): 3, ("utf32_be", "dec"): 1, ("utf32_le", "dec"): 1}


def analyse(dump, targets, tier, pid, until):
    p = prog(dump)
    api = dict((a, b) for a, b in p.api)
    rs, missing = [], []
    quick = tier == "quick"
    for m, d in sorted(targets, key=lambda t: -COST.get(t, 2 if t[1] == "enc" else 0.2)):
        name = m + "::" + ("encode_from_str" if d == "enc" else "decode_to_str")
        if name not in api:
            missing.append(name)
            continue
        rs.append(dict(name=name, mod=m, dir=d, findings=[], peel=0, loops=0, unsupported=[], open=0, bl=(),
                       error="no result within the time or memory allowed", term=[], stats={}, functions=[],
                       wall=0.0, hit=False, done=False))
    # every entry point gets a stage before any gets the next one; a violation
    # found in a stage ends the search after it
    lim = 120 if quick else 200
    exact = [dict(peel=n, limit=60, exact=True) for n in ((2, 3, 4) if quick else (2, 3, 4, 5, 6, 8))]
    full = [dict(peel=n, limit=lim // 2) for n in ((2, 3) if quick else (2, 3, 4, 6))]
    for rounds, hard in (([dict(peel=1, limit=lim, soft=30 if quick else 60)], lim + 30),
                         (exact, 150 if quick else 300),
                         ([dict(peel=1, limit=60, accel=True)], 90),
                         (full, 150 if quick else 300)):
        todo = [r for r in rs if not r["done"] and not r["hit"]]
        if not todo or time.time() > until or any(r["hit"] for r in rs):
            break
        got = schedule([(dump, r, api[r["name"]], pid, rounds) for r in todo], 8, hard, until)
        for r, n in zip(todo, got):
            if n is not None:
                rs[rs.index(r)] = n
    rs.sort(key=lambda r: r["name"])
    return rs, missing


def main():
    ap = argparse.ArgumentParser()
    ap.add_argument("property")
    ap.add_argument("--tier", default=os.environ.get("VERIF_TIER", "quick"))
    ap.add_argument("--repo", default="/repo")
    a = ap.parse_args()
    tier = a.tier if a.tier in ("quick", "thorough") else "quick"
    t0 = time.time()
    from analyser import decide
    scratch = tempfile.mkdtemp(prefix="verif-")
    try:
        rc = decide.decide(a.property, tier, a.repo, scratch, HERE, analyse, t0)
    finally:
        import shutil
        shutil.rmtree(scratch, ignore_errors=True)
    sys.exit(rc)


if __name__ == "__main__":
    main()
