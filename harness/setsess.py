"""Sessions that build transliterators from settings documents and text."""
import os

import yaml

import driver as _d
import sessions

D = sessions.D
call = D.call
from graphtransliterator import GraphTransliterator  # noqa


def value(n):
    k = n["k"]
    if k in ("str", "rule", "om", "junk"):
        return n["s"]
    if k == "list":
        return [value(v) for v in n["vs"]]
    if k == "dict":
        return {value(a): value(b) for a, b in zip(n["ks"], n["vs"])}
    return {"int": 7, "float": 2.5, "none": None, "bool": True}[k]


def build(how, doc, kw):
    if how == "direct":
        return GraphTransliterator.from_dict(doc, **kw)
    if how == "easy":
        return GraphTransliterator.from_easyreading_dict(doc, **kw)
    text = yaml.safe_dump(doc, allow_unicode=True, sort_keys=False)
    if how == "yaml":
        return GraphTransliterator.from_yaml(text, **kw)
    path = os.path.join(os.environ.get("GT_SCRATCH", "/tmp"), "s.yaml")
    with open(path, "w", encoding="utf-8") as f:
        f.write(text)
    return GraphTransliterator.from_yaml_file(path, **kw)


def settings_session(w):
    out = {"kind": "settings", "ev": []}
    for e in w["ev"]:
        st, v, _ = call(build, e["how"], value(e["doc"]), {"check_ambiguity": bool(e["chk"])})
        if st == "ok" and not isinstance(v, GraphTransliterator):
            st = "other:type"
        out["ev"].append(dict(e, st=st))
    return out


sessions.KINDS["settings"] = settings_session


# ------------------------------ notation ---------------------------------------


def fingerprint(gt):
    """What can be seen of a transliterator, as plain data."""
    def lists(r):
        return [list(x) if x is not None else [] for x in r]
    return [sorted((t, sorted(c)) for t, c in gt.tokens.items()),
            [[r.production] + lists(r[1:6]) + [r.cost] for r in gt.rules],
            [[r.production] + lists((r.prev_classes, r.next_classes)) for r in gt.onmatch_rules or []],
            list(gt.whitespace), gt.metadata or {}, bool(gt.ignore_errors), gt.dump()["graph"]]


def notation_session(w):
    tok, cls = w["tok"], w["cls"]
    out = {"kind": "notation", "tok": [D.cps(t) for t in tok], "cls": [D.cps(c) for c in cls], "ev": []}
    base = {"tokens": {t: list(cls) for t in tok},
            "whitespace": {"default": tok[-1], "token_class": cls[0], "consolidate": False}}
    for e in w["ev"]:
        if e[0] == "same":
            out["ev"].append(same(w, *e[1:]))
            continue
        op, x, how = e
        doc = dict(base, rules={x: "P"}) if op == "rule" else \
            dict(base, rules={[t for t in tok if t.strip()][0]: "P"}, onmatch_rules=[{x: "P"}])
        st, gt, _ = call(build, how, doc, {"check_ambiguity": False})
        ev = {"op": op, "x": D.cps(x), "st": st, "got": {}}
        if st == "ok":
            rules = gt.rules if op == "rule" else gt.onmatch_rules
            if len(rules) != 1 or rules[0].production != "P":
                ev["st"] = "other:rules"
            else:
                r = rules[0]
                names = {"pc": r.prev_classes, "nc": r.next_classes}
                if op == "rule":
                    names.update(pt=r.prev_tokens, t=r.tokens, nt=r.next_tokens)
                ev["got"] = {k: [D.cps(y) for y in v or []] for k, v in names.items()}
        out["ev"].append(ev)
    return out


def same(w, ign, meta, chk):
    g = dict(w["cfg"])
    if meta:
        g["meta"] = {"name": "x", "n": [1, {"a": None}]}
    direct = D.direct_settings(g)
    easy = {k: v for k, v in direct.items() if k not in ("rules", "onmatch_rules")}
    easy["rules"] = {x: r["p"] for x, r in zip(w["spell"], g["rules"])}
    if len(easy["rules"]) < len(g["rules"]):  # two rules spelt alike: the last remains
        last = {x: k for k, x in enumerate(w["spell"])}
        direct["rules"] = [direct["rules"][last[x]] for x in easy["rules"]]
    if g["om"]:
        easy["onmatch_rules"] = [{x: o["p"]} for x, o in zip(w["omspell"], g["om"])]
    kw = {"ignore_errors": bool(ign), "check_ambiguity": bool(chk)}
    seen, ids = [], []
    for how in ("direct", "easy", "yaml", "yamlfile"):
        st, v, _ = call(build, how, direct if how == "direct" else easy, kw)
        f = fingerprint(v) if st == "ok" else st
        if f not in seen:
            seen.append(f)
        ids.append(seen.index(f))
    return {"op": "same", "ids": ids}


sessions.KINDS["notation"] = notation_session


# ------------------------------ named escapes -----------------------------------


def escapes_session(w):
    out = {"kind": "escapes", "names": w["names"], "ev": []}
    for e in w["ev"]:
        if e.get("whole"):
            st, gt = read_escaped(e, e["text"])
            st0, gt0 = read_escaped(dict(e, how="yaml", default=0, unesc=0), e["plain"])
            assert st0 == "ok", (st0, e["plain"])
            same = st == "ok" and gt.dumps(compression_level=0) == gt0.dumps(compression_level=0)
            out["ev"].append({"whole": 1, "unesc": 1, "st": st, "texts": [D.cps(e["text"])],
                              "plain": D.cps(e["plain"]), "same": int(same), "got": []})
            continue
        lines = []
        if e["note"]:
            lines.append("# " + e["note"])
        lines.append("tokens:")
        lines += ["  '%s': ['%s']" % (t, e["cls"]) for t in e["toks"]]
        lines += ["  ' ': [wb]", "rules:"]
        lines += ["  '%s': %s%s%s" % (t, q, p, q) for t, (q, p) in zip(e["toks"], e["prods"])]
        lines += ["onmatch_rules:", "  - '<%s> + <wb>': '%s'" % (e["cls"], e["om"]),
                  "whitespace: {default: ' ', token_class: wb, consolidate: false}",
                  "metadata: {m: [%s]}" % ", ".join("'%s'" % m for m in e["meta"])]
        st, gt = read_escaped(e, "\n".join(lines) + "\n")
        texts = [p for _, p in e["prods"]] + e["meta"] + [e["om"]] + e["toks"] + [e["cls"]]
        got = []
        if st == "ok":
            got = ([r.production for r in gt.rules] + list(gt.metadata["m"])
                   + [gt.onmatch_rules[0].production] + [t for t in gt.tokens if t != " "]
                   + [gt.onmatch_rules[0].prev_classes[0]])
            assert len(got) == len(texts)
        out["ev"].append({"whole": 0, "unesc": e["unesc"], "st": st, "texts": [D.cps(t) for t in texts + [e["note"]]],
                          "plain": [], "same": 0, "got": [D.cps(t) for t in got]})
    return out


def read_escaped(e, text):
    kw = {"check_ambiguity": False}
    ign, chk, cov = e.get("opts", [0, 0, 0])
    if ign:
        kw["ignore_errors"] = True
    if chk:  # there is one rule for each token
        kw["check_ambiguity"] = True
    if cov:
        kw["coverage"] = True
    if not e["default"]:
        kw["charnames_escaped"] = bool(e["unesc"])
    if e["how"] == "yaml":
        st, gt, _ = call(GraphTransliterator.from_yaml, text, **kw)
    else:
        path = os.path.join(os.environ.get("GT_SCRATCH", "/tmp"), "e.yaml")
        with open(path, "w", encoding="utf-8", newline="") as f:
            f.write(text)
        st, gt, _ = call(GraphTransliterator.from_yaml_file, path, **kw)
    return st, gt


sessions.KINDS["escapes"] = escapes_session
