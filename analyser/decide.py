"""Decide one property on the current tree and write its evidence."""
import json
import os
import time
import numpy as np
from . import apitypes, effects, extract, props
from .prog import Prog
from .spec import MODULES, SINGLE, table

TRUST = ["rustc nightly front end: MIR building, type layout, constant evaluation",
         "the analyser's transfer functions and library models (analyser/interp.py, models.py)",
         "the frozen definition tables data/oracle.json and token rules analyser/spec.py",
         "python, numpy"]


# seconds after the start at which the first / second configuration must be done
LIMIT = (400, 780)


def known(here, pid):
    d = json.load(open(os.path.join(here, "known_findings.json")))
    return {f["key"]: f for f in d["findings"] if f["property"] == pid}


class Result:
    def __init__(self):
        self.violations = []     # (title, detail dict)
        self.undecided = []
        self.known = []
        self.obl = 0
        self.dis = 0
        self.extra = {}


def engine(res, pid, rs, missing, label=""):
    """fold the analysis of the functions in scope into the verdict"""
    want = props.PROPS[pid][1]
    tot = {}
    fns = set()
    loops = 0
    samples = []
    for n in missing:
        res.obl += 1
        res.undecided.append("%s%s: no such public function" % (label, n))
    for r in rs:
        st = r["stats"]
        for k, v in st.items():
            if isinstance(v, (int, float)):
                tot[k] = tot.get(k, 0) + v
        fns |= set(r["functions"])
        loops += r["loops"]
        # obligations of this function: certified return states, asserted or
        # guarded accesses, loops, and completeness of the exploration itself
        n = st.get("return_checks", 0) + st.get("asserts", 0) + st.get("accesses", 0) + r["loops"] + 1
        res.obl += n
        left = 0
        mine = [f for f in r["findings"] if want(f[0], set(f[6]), r["dir"], r["mod"])]
        other = len(r["findings"]) - len(mine)
        hit = set()
        for kind, where, msg, exact, why, wit, tags in mine:
            left += 1
            if exact:
                if (kind, where) in hit:
                    continue
                hit.add((kind, where))
                res.violations.append(("%s%s: %s" % (label, r["name"], msg),
                                       dict(function=r["name"], kind=kind, construct=where, problem=msg, instance=wit,
                                            tags=tags)))
            else:
                res.undecided.append("%s%s: possible %s at %s: %s (%s) e.g. %s" % (
                    label, r["name"], kind, where, msg, "; ".join(why), wit))
        if r["error"]:
            left += 1
            res.undecided.append("%s%s: analysis incomplete: %s" % (label, r["name"], r["error"]))
        for m, w, c in r["unsupported"]:
            left += c
            res.undecided.append("%s%s: %d path(s) not followed at %s: %s" % (label, r["name"], c, w, m))
        if want("TERM", set(), r["dir"], r["mod"]):
            for t in r["term"]:
                left += 1
                res.undecided.append("%s%s: termination of the loop in %s not established" % (label, r["name"], t))
        # findings that concern other properties end paths early here as well
        left += other
        if other:
            res.undecided.append("%s%s: %d path end(s) break another property" % (label, r["name"], other))
        res.dis += max(0, n - left)
        if len(samples) < 4:
            samples.append("%s: %d states, %d return states certified, %d accesses and %d assertion sites proved, "
                           "%d loops, %.1fs" % (r["name"], st.get("states", 0), st.get("return_checks", 0),
                                                st.get("accesses", 0), st.get("asserts", 0), r["loops"], r["wall"]))
    e = res.extra.setdefault("analysed" + (" " + label.strip(": ") if label else ""), {})
    e.update(entry_points=len(rs), functions=len(fns), abstract_states=tot.get("states", 0),
             statements_interpreted=tot.get("steps", 0), returns_certified=tot.get("return_checks", 0),
             accesses=tot.get("accesses", 0), assertion_sites=tot.get("asserts", 0), loops=loops,
             loop_joins=tot.get("joins", 0), back_edges=tot.get("back_edges", 0), tokens_compared=tot.get("tokens", 0))
    res.extra.setdefault("samples", []).extend(samples)


def roundtrip_tables(res, here):
    """decode(encode(c)) == c on the definition the code is certified against"""
    from .analysis import decodes_to, table_name
    kn = known(here, "C24")
    n = 0
    for m in MODULES:
        short = m.split("::")[-1]
        if m.startswith("utf"):
            continue
        t = table(table_name(short))
        c = np.flatnonzero(t >= 0)
        b = t[c]
        d = np.full(len(c), -2, dtype=np.int64)
        one = b < 256
        d[one] = decodes_to(short, b[one][:, None])
        if (~one).any():
            d[~one] = decodes_to(short, np.stack([b[~one] >> 8, b[~one] & 255], axis=1))
        n += len(c)
        for i in np.flatnonzero(d != c):
            key = "%s U+%04X" % (short, c[i])
            if key in kn:
                res.known.append(kn[key]["what"])
            else:
                res.violations.append(("%s does not survive encoding and decoding" % key, dict(
                    function=m, kind="ROUNDTRIP", construct="definition tables", problem=key, instance=key)))
                res.obl += 1
        # every character the decoder yields can be encoded again
    res.obl += n
    res.dis += n
    res.extra["characters_composed"] = n


def decide(pid, tier, repo, scratch, here, analyse, t0):
    res = Result()
    try:
        if pid in props.PROPS:
            targets = props.PROPS[pid][0]
            dump = extract.dump(here, repo, scratch)
            rs, missing = analyse(dump, targets, tier, pid, t0 + LIMIT[0])
            engine(res, pid, rs, missing)
            if pid == "C21" or tier == "thorough":
                dump = extract.dump(here, repo, scratch, extract.RELEASE, "release.json")
                rs, missing = analyse(dump, targets, tier, pid, t0 + LIMIT[1])
                engine(res, pid, rs, missing, "without debug assertions: ")
        if pid == "C24":
            roundtrip_tables(res, here)
        if pid in ("C20", "C22"):
            if pid == "C22":
                dump = extract.dump(here, repo, scratch)
            p = Prog(dump)
        if pid == "C20":
            v, u, cnt = effects.Effects(p).check(extract.lib_info(repo)[0])
            res.obl += cnt["function_root_pairs"]
            res.dis += cnt["function_root_pairs"] - len(v) - len(u)
            for (what, loc), text in sorted(v.items()):
                res.violations.append((text, dict(function=loc, kind="EFFECT", construct=loc, problem=what, instance=text)))
            res.undecided.extend("%s at %s: %s" % (a, b, t) for (a, b), t in sorted(u.items()))
            res.extra["call_graph"] = cnt
        if pid == "C22":
            ws, cargo = apitypes.check(repo, scratch)
            for ok, nm, what, text, codes in ws:
                res.obl += 1
                if ok:
                    res.dis += 1
                elif ok is None:
                    res.undecided.append("%s: %s" % (what, text))
                else:
                    res.violations.append(("%s: does not hold (%s)" % (what, text), dict(
                        function=nm, kind="TYPE", construct=nm, problem=what, instance=text)))
            ext = sorted({i["path"] for i in p.items if i["kind"] == "ExternCrate"})
            res.obl += 2
            bad = [e for e in ext if e not in ("core", "compiler_builtins")]
            if bad:
                res.violations.append(("links %s: the crate must need nothing but core" % ", ".join(bad), dict(
                    function="crate root", kind="LINK", construct="extern crate " + bad[0], problem="links " + bad[0],
                    instance="")))
            else:
                res.dis += 1
            deps = sorted(cargo.get("dependencies", {}))
            if deps:
                res.undecided.append("Cargo.toml lists dependencies: %s" % ", ".join(deps))
            else:
                res.dis += 1
            v, u, cnt = effects.Effects(p).check(extract.lib_info(repo)[0])
            res.obl += cnt["functions"]
            b = [t for (w, l), t in v.items() if w.startswith("uses crate")]
            res.dis += cnt["functions"] - min(len(b), cnt["functions"])
            for t in b:
                res.violations.append((t, dict(function="", kind="LINK", construct=t, problem=t, instance="")))
            res.extra["witness_programs"] = len(ws)
            res.extra["call_graph"] = cnt
            res.extra["samples"] = ["%s: %s" % (w[1], w[2]) for w in ws[:2] + ws[-3:]]
    except extract.ExtractError as e:
        print("ERROR property=%s %s" % (pid, e))
        return 2
    return finish(res, pid, tier, here, t0)


RULES = {
    "C20": "effect rule: no function reachable from the API refers to mutable or external statics, foreign functions, "
           "atomics, volatile accesses or assembly; plus no return state depends on prior buffer contents",
    "C22": "type rule: accept-witnesses must type-check and reject-witnesses must fail with the expected borrow error",
}


def finish(res, pid, tier, here, t0):
    os.makedirs(os.path.join(here, "evidence", "replay"), exist_ok=True)
    replay = os.path.join(here, "evidence", "replay", pid + ".json")
    ev = dict(property=pid, tier=tier, seed=int(os.environ.get("VERIF_SEED", "1") or 1), level="proof",
              wall_s=round(time.time() - t0, 2),
              coverage=dict(obligations=res.obl, discharged=res.dis,
                            checker_cmd="python3-vt /verif/check.py %s --tier %s" % (pid, tier), trusted_base=TRUST,
                            rule=RULES.get(pid, "every abstract path from entry to return is compared with the "
                                                "independent definition; findings on exact paths are violations, "
                                                "findings behind a loop summary count as undecided"),
                            undecided=res.undecided[:40], undecided_count=len(res.undecided), **res.extra),
              assumptions=["inputs are at most isize::MAX bytes (a Rust guarantee)", "64-bit target",
                           "library crate built with its default features"])
    if res.known:
        ev["coverage"]["known_findings"] = res.known
    if res.violations:
        ev["violations"] = len(res.violations)
        ev["coverage"]["violation_list"] = [dict(summary=s, **d) for s, d in res.violations[:20]]
    json.dump(ev, open(os.path.join(here, "evidence", pid + ".json"), "w"), indent=1)
    for k in res.known:
        print("KNOWN-FINDING: property=%s %s" % (pid, k))
    for u in res.undecided[:12]:
        print("UNDECIDED property=%s %s" % (pid, u[:600]))
    if len(res.undecided) > 12:
        print("UNDECIDED property=%s ... %d more" % (pid, len(res.undecided) - 12))
    print("%s: %d obligations, %d discharged, %.1fs" % (pid, res.obl, res.dis, time.time() - t0))
    if res.violations:
        json.dump(dict(property=pid, violations=[dict(summary=s, **d) for s, d in res.violations]),
                  open(replay, "w"), indent=1)
        for s, d in res.violations[:10]:
            print("  %s" % s)
            print("    at %s; instance: %s" % (d["construct"], d["instance"]))
        print("VIOLATION property=%s replay=%s" % (pid, replay))
        return 1
    if os.path.exists(replay):
        os.remove(replay)
    return 0
