"""Session kinds executed by driver.py against the real code."""
import json
import os
import sys

import driver as _d  # the module's helpers (also when driver runs as __main__)

D = sys.modules.get("__main__") if hasattr(sys.modules.get("__main__"), "OutOfTime") else _d
call, cps, Names = D.call, D.cps, D.Names

from graphtransliterator import GraphTransliterator  # noqa


class Stop(Exception):
    pass


def build_gt(g, how="dict", **kw):
    s = D.direct_settings(g)
    kw.setdefault("check_ambiguity", False)
    if how == "dict":
        return GraphTransliterator.from_dict(s, **kw)
    gt = GraphTransliterator.from_dict(s, **kw)
    for h in how:  # chain of dump levels: "0", "1", "2" (text) or "a", "b", "c" (data)
        if h in "012":
            gt = GraphTransliterator.loads(gt.dumps(compression_level=int(h)))
        else:
            gt = GraphTransliterator.load(gt.dump(compression_level="abc".index(h)))
    return gt


def key1(k, n):
    """Rule key of the code as 1-based key; 0 for none, -1 for anything else."""
    if k is None:
        return 0
    if isinstance(k, int) and not isinstance(k, bool) and 0 <= k < n:
        return k + 1
    return -1


def index_in(rules, r):
    for k, x in enumerate(rules):
        if x is r:
            return k + 1
    for k, x in enumerate(rules):
        if x == r:
            return k + 1
    return -1


def matches(gt, toks):
    n = len(gt.rules)
    best, alls, st = [], [], "ok"
    for k in range(len(toks)):
        s1, b, _ = call(gt.match_at, k, toks)
        s2, a, _ = call(gt.match_at, k, toks, match_all=True)
        if s1 != "ok" or s2 != "ok" or not isinstance(a, list):
            st = s1 if s1 != "ok" else s2 if s2 != "ok" else "other:type"
            best.append(-1)
            alls.append([])
            if st == "timeout":
                best += [-1] * (len(toks) - k - 1)
                alls += [[] for _ in range(len(toks) - k - 1)]
                break
        else:
            best.append(key1(b, n))
            alls.append([key1(x, n) for x in a])
    return st, best, alls


def build_event(gt, nm):
    rules = gt.rules
    costs = [r.cost for r in rules]
    return {"op": "build", "rules": [nm.rule(r) for r in rules],
            "prods": [cps(p) for p in gt.productions],
            "crank": D.ranks(costs), "cpos": int(all(0 < c <= 1 for c in costs)),
            "ign": int(bool(gt.ignore_errors))}


def tr_event(gt, nm, x, details=True, toggle=0):
    """toggle: errors cease to be ignored as this many warnings have been logged."""
    ev = {"op": "tr", "x": cps(x), "tg": toggle}
    if toggle:
        D.ON_WARN.append((D.warn_count() + toggle, lambda: setattr(gt, "ignore_errors", False)))
    st, v, nw = call(gt.transliterate, x)
    if toggle:
        del D.ON_WARN[:]
        gt.ignore_errors = True
    ev.update(st=st, out=cps(v) if st == "ok" else [], nw=nw, lt=[], rk=[], rt=[])
    if st == "ok":
        ev["lt"] = nm.toks(gt.last_input_tokens)
        rules = gt.rules
        ev["rk"] = [index_in(rules, r) for r in gt.last_matched_rules]
        ev["rt"] = [nm.toks(q) for q in gt.last_matched_rule_tokens]
    tks, tv, nwk = call(gt.tokenize, x)
    ev.update(tks=tks, tk=nm.toks(tv) if tks == "ok" else [], nwk=nwk, best=[], all=[], mst="ok")
    if tks == "ok" and details:
        ev["mst"], ev["best"], ev["all"] = matches(gt, tv)
    return ev


def run_session(w):
    g = w["cfg"]
    nm = Names(g)
    ign = bool(w.get("ign"))
    out = {"kind": "run", "cfg": D.abstract_cfg(g), "ign": int(ign), "ev": []}
    st, gt, _ = call(build_gt, g, w.get("how", "dict"), ignore_errors=ign)
    if st != "ok":
        return {"fatal": "valid settings refused: %s %r" % (st, gt), "kind": "run"}
    for op in w["ops"]:
        o = op[0]
        if o == "build":
            ev = build_event(gt, nm)
        elif o == "ign":
            gt.ignore_errors = bool(op[1])
            ev = {"op": "ign", "v": int(op[1])}
        elif o == "tk":
            tks, tv, nwk = call(gt.tokenize, op[1])
            ev = {"op": "tk", "x": cps(op[1]), "tks": tks, "st": "none",
                  "tk": nm.toks(tv) if tks == "ok" else [], "nwk": nwk}
        elif o == "tr":
            ev = tr_event(gt, nm, op[1])
        elif o == "tg":
            ev = tr_event(gt, nm, op[1], toggle=op[2])
        elif o == "ma":
            toks = [g["tok"][k - 1] for k in op[1]]
            mst, best, alls = matches(gt, toks)
            ev = {"op": "ma", "ts": op[1], "st": mst, "best": best, "all": alls}
        out["ev"].append(ev)
    return out


# ------------------------------ ambiguity -------------------------------------


def amb_session(w):
    """Build a rule set in several ways; ops: [how, check, pruned productions]."""
    g = w["cfg"]
    out = {"kind": "amb", "cfg": D.abstract_cfg(g), "ev": []}
    s = D.direct_settings(g)
    plain = None
    for how, chk, prods in w["ops"]:
        kw = {} if chk == 2 else {"check_ambiguity": bool(chk)}
        keep = [0 if r["p"] in prods else 1 for r in g["rules"]]
        if how == "dict":
            st, v, _ = call(GraphTransliterator.from_dict, s, **kw)
        elif how in ("load", "loads"):
            if plain is None:
                plain = GraphTransliterator.from_dict(s, check_ambiguity=False)
            lev = w.get("level", 0)
            if how == "load":
                st, v, _ = call(GraphTransliterator.load, plain.dump(compression_level=lev), **kw)
            else:
                st, v, _ = call(GraphTransliterator.loads, plain.dumps(compression_level=lev), **kw)
            if chk == 2:
                chk = 0
        elif how == "prune":
            st, v, _ = call(GraphTransliterator.from_dict, s, **kw)
            if st != "ok":
                keep = [1] * len(keep)
            else:
                st, v, _ = call(v.pruned_of, list(prods))
        out["ev"].append({"op": "new", "how": how, "chk": int(bool(chk)), "st": st, "keep": keep})
    return out


KINDS = {"run": run_session, "amb": amb_session}


def run(w):
    if w["kind"] not in KINDS:
        for m in ("life", "graphsess", "setsess", "bundsess", "clisess", "threadsess"):
            __import__(m)
    return KINDS[w["kind"]](w)
