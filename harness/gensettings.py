"""Settings documents, valid and not, as trees of nodes (see spec/Settings.tla)."""
import copy

import gen

STR = "zz"


def s(x):
    return {"k": "str", "s": x}


def lst(vs):
    return {"k": "list", "vs": vs}


def dct(items):
    return {"k": "dict", "ks": [k for k, _ in items], "vs": [v for _, v in items]}


def strs(xs):
    return lst([s(x) for x in xs])


OTHER = [{"k": "int"}, {"k": "float"}, {"k": "none"}, {"k": "bool"}, s(STR), s(""), lst([]), strs([STR]), strs([""]),
         dct([]), dct([(s(STR), s(STR))]), dct([(s(STR), strs([STR]))]), lst([lst([])]),
         lst([{"k": "int"}]), lst([{"k": "none"}]), lst([dct([])])]
OTHER_KEYS = [{"k": "int"}, {"k": "none"}, {"k": "float"}, s(STR), s("")]


def key_text(rng, r, g):
    """A rule in the notation (single spaces)."""
    tok, cls = g["tok"], g["cls"]
    pc = ["<%s>" % cls[c - 1] for c in r["pc"]]
    nc = ["<%s>" % cls[c - 1] for c in r["nc"]]
    pt, t, nt = ([tok[k - 1] for k in r[p]] for p in ("pt", "t", "nt"))
    out = []
    if pt:
        out.append("(%s)" % " ".join(pc + pt))
    else:
        out += pc
    out += t
    if nt:
        out.append("(%s)" % " ".join(nt + nc))
    else:
        out += nc
    return " ".join(out)


def rule_key(rng, r, g):
    tok, cls = g["tok"], g["cls"]
    return {"k": "rule", "s": key_text(rng, r, g),
            "pc": [cls[c - 1] for c in r["pc"]], "nc": [cls[c - 1] for c in r["nc"]],
            "pt": [tok[k - 1] for k in r["pt"]], "t": [tok[k - 1] for k in r["t"]],
            "nt": [tok[k - 1] for k in r["nt"]]}


def om_key(rng, o, g):
    cls = g["cls"]
    pc, nc = ([cls[c - 1] for c in o[p]] for p in ("pc", "nc"))
    return {"k": "om", "s": " ".join("<%s>" % c for c in pc) + " + " + " ".join("<%s>" % c for c in nc),
            "pc": pc, "nc": nc}


JUNK_RULE = ["", "<zz>", "(", "()", "(zz", "zz)", "<> zz"]
JUNK_OM = ["", "<c1>", "c1 + c1", "+", "<c1> +", "+ <c1>", "<c1> <c1>", "c1", "<c1> + <c1> + <c1>"]


def junk(x):
    return {"k": "junk", "s": x}


def config(rng, easy, clash, nrules=None):
    g = gen.config(rng, style="plain", easy=easy, nom=rng.choice([0, 1, 2]),
                   nrules=rng.choice([0, 1, 2, 3]) if nrules is None else nrules, ntok=rng.randint(2, 4))
    if easy:  # tokens that the notation can spell
        ws = [w for w in g["tok"] if w in "_\t#"]
        ok = [k + 1 for k, t in enumerate(g["tok"]) if t.strip() and "#" not in t]
        rules = []
        for r in g["rules"]:
            for p in ("pt", "t", "nt"):
                r[p] = [k if k in ok else rng.choice(ok) for k in r[p]]
            rules.append(r)
        g["rules"] = rules
    if clash == "none":
        first, rules = set(), []
        for r in g["rules"]:
            if r["t"][0] not in first:
                first.add(r["t"][0])
                rules.append(r)
        g["rules"] = rules
    elif clash == "same":
        def size(r):
            return sum(len(r[k]) for k in ("pc", "pt", "t", "nt", "nc"))
        r = copy.deepcopy(max(g["rules"], key=size))
        r["p"] += "!"
        g["rules"].insert(rng.randint(0, len(g["rules"])), r)
    return g


def document(rng, g, easy):
    tok, cls = g["tok"], g["cls"]
    items = [(s("tokens"), dct([(s(t), strs([c for c, m in zip(cls, row) if m]))
                                for t, row in zip(tok, g["cm"])]))]
    if easy:
        rules = {}
        for r in g["rules"]:
            k = rule_key(rng, r, g)
            if k["s"] in rules:  # the same rule spelt otherwise
                if k["s"].endswith(")"):
                    continue
                k["s"] = k["s"] + " "
            rules[k["s"]] = (k, s(r["p"]))
        items.append((s("rules"), dct(list(rules.values()))))
    else:
        rs = []
        for r in g["rules"]:
            parts = [(s("production"), s(r["p"])), (s("tokens"), strs([tok[k - 1] for k in r["t"]]))]
            for key, short, names in (("prev_classes", "pc", cls), ("prev_tokens", "pt", tok),
                                      ("next_tokens", "nt", tok), ("next_classes", "nc", cls)):
                if r[short]:
                    parts.append((s(key), strs([names[k - 1] for k in r[short]])))
                elif rng.random() < 0.15:
                    parts.append((s(key), rng.choice([{"k": "none"}, lst([])])))
            rng.shuffle(parts)
            rs.append(dct(parts))
        items.append((s("rules"), lst(rs)))
    if g["om"] or rng.random() < 0.2:
        if easy:
            om = [dct([(om_key(rng, o, g), s(o["p"]))]) for o in g["om"]]
        else:
            om = [dct([(s("prev_classes"), strs([cls[c - 1] for c in o["pc"]])),
                       (s("next_classes"), strs([cls[c - 1] for c in o["nc"]])),
                       (s("production"), s(o["p"]))]) for o in g["om"]]
        items.append((s("onmatch_rules"), lst(om)))
    items.append((s("whitespace"), dct([(s("default"), s(tok[g["wd"] - 1])),
                                        (s("token_class"), s(cls[g["wc"] - 1])),
                                        (s("consolidate"), {"k": "bool"})])))
    if rng.random() < 0.4:
        items.append((s("metadata"), dct([(s("name"), s("x")), (s("n"), {"k": "int"})][:rng.randint(0, 2)])))
    rng.shuffle(items)
    return dct(items)


def paths(n, at=()):
    """(path, what) of every node: what is "v" (value) or "k" (key of a dictionary)."""
    yield at, "v"
    if n["k"] == "list":
        for j, x in enumerate(n["vs"]):
            yield from paths(x, at + (j,))
    elif n["k"] == "dict":
        for j, x in enumerate(n["vs"]):
            yield at + (j,), "k"
            yield from paths(x, at + (j,))


def node(d, path):
    for j in path:
        d = d["vs"][j]
    return d


def changes(d):
    """Every single change: (path, what, replacement) with None for deletion."""
    for path, what in paths(d):
        if what == "v":
            old = node(d, path)
            for o in OTHER:
                if o != old:
                    yield path, "v", o
            if path:
                yield path, "v", None
            if old["k"] == "list" and path:
                yield path, "+", s(STR)
                yield path, "+", {"k": "int"}
        else:
            up = node(d, path[:-1])
            old = up["ks"][path[-1]]
            if old["k"] in ("rule", "om"):
                for t in (JUNK_RULE if old["k"] == "rule" else JUNK_OM):
                    yield path, "k", junk(t)
                for part in ("pc", "pt", "t", "nt", "nc"):
                    for j in range(len(old.get(part, ()))):
                        new = copy.deepcopy(old)
                        new[part][j] = STR
                        yield path, "k", respelt(new)
            for o in OTHER_KEYS:
                if o != old:
                    yield path, "k", o


def respelt(k):
    g = {"tok": [], "cls": []}

    def ids(xs, names):
        out = []
        for x in xs:
            if x not in names:
                names.append(x)
            out.append(names.index(x) + 1)
        return out
    r = {"pc": ids(k["pc"], g["cls"]), "nc": ids(k["nc"], g["cls"])}
    if k["k"] == "om":
        return dict(om_key(None, r, g))
    r.update(pt=ids(k["pt"], g["tok"]), t=ids(k["t"], g["tok"]), nt=ids(k["nt"], g["tok"]))
    return rule_key(None, r, g)


def apply(d, change):
    path, what, new = change
    if not path:
        return new
    d = dict(d, **{k: list(d[k]) for k in ("ks", "vs") if k in d})
    j = path[0]
    if len(path) > 1:
        d["vs"][j] = apply(d["vs"][j], (path[1:], what, new))
    elif what == "k":
        d["ks"][j] = new
    elif what == "+":
        d["vs"][j] = dict(d["vs"][j], vs=d["vs"][j]["vs"] + [new])
    elif new is None:
        del d["vs"][j]
        if d["k"] == "dict":
            del d["ks"][j]
    else:
        d["vs"][j] = new
    return d


def usable(d):
    """Keys are distinct (as Python sees them)."""
    if d["k"] == "dict":
        ks = [k.get("s", k["k"]) for k in d["ks"]]
        # text that the notation gives another meaning than a rule of the kind wanted
        return len(set(ks)) == len(ks) and all(usable(v) for v in d["vs"])
    if d["k"] == "list":
        return all(usable(v) for v in d["vs"])
    return True


def easy_keys(d):
    """Keys of rules and on-match rules that became other text: junk."""
    d = copy.deepcopy(d)
    if d["k"] != "dict":
        return d
    for k, v in zip(d["ks"], d["vs"]):
        if k.get("s") == "rules" and v["k"] == "dict":
            v["ks"] = [x if x["k"] != "str" else junk(x["s"]) if x["s"] != STR else
                       {"k": "rule", "s": STR, "pc": [], "pt": [], "t": [STR], "nt": [], "nc": []}
                       for x in v["ks"]]
        if k.get("s") == "onmatch_rules" and v["k"] == "list":
            for o in v["vs"]:
                if o["k"] == "dict":
                    o["ks"] = [junk(x["s"]) if x["k"] == "str" else x for x in o["ks"]]
    return d


def gen_settings(rng, tier, rnd):
    out = []
    nbase = 4 if tier == "quick" else 12
    for easy in (False, True):
        for b in range(nbase):
            clash = rng.choice(["none", "same", "any"])
            g = config(rng, easy, clash)
            if b < 2:  # parts of several members, each changed in turn
                nc = len(g["cls"])
                g["om"] = [{"pc": [rng.randint(1, nc) for _ in range(rng.choice([3, 4]))],
                            "nc": [rng.randint(1, nc) for _ in range(rng.choice([3, 4]))], "p": "+"}]
                r = max(g["rules"], key=lambda r: len(r["t"]))
                for k in rng.sample(["pc", "pt", "nt", "nc"], 2) + ["t"]:
                    v = r[k] or (r["t"] if k.endswith("t") else [rng.randint(1, nc)])
                    r[k] = [rng.choice(v) for _ in range(rng.choice([3, 4]))]
            base = document(rng, g, easy)
            cs = list(changes(base))
            docs = [base] + [apply(base, c) for c in cs]
            for _ in range(len(cs) // 3):  # two changes
                d = apply(base, rng.choice(cs))
                try:
                    docs.append(apply(d, rng.choice(list(changes(d)))))
                except IndexError:
                    pass
            evs = []
            for k, d in enumerate(docs):
                if not usable(d):
                    continue
                how = "direct"
                if easy:
                    d = easy_keys(d)
                    how = rng.choice(["easy", "easy", "yaml", "yamlfile"])
                evs.append({"how": how, "chk": int(k == 0 or rng.random() < 0.3), "doc": d})
                if k == 0:
                    evs.append(dict(evs[0], chk=0))
            for j in range(0, len(evs), 60):
                out.append({"kind": "settings", "ev": evs[j:j + 60]})
        for size in (25, 60, 110):  # one of many rules is changed
            base = document(rng, config(rng, easy, "any", size), easy)
            cs = list(changes(base))
            at = [k.get("s") for k in base["ks"]].index("rules")
            last = len(base["vs"][at]["vs"]) - 1
            # a name put in the last rules or the first that no token or class has
            far = [c for c in cs if len(c[0]) > 1 and c[0][0] == at and c[0][1] in (last, last - 1, 0)
                   and (c[2] == s(STR) and c[1] in ("v", "+") or c[1] == "k" and c[2]["k"] == "rule")]
            cs += far * (len(cs) // (2 * len(far)))
            evs = []
            for d in [base] + [apply(base, rng.choice(cs)) for _ in range(40)]:
                if usable(d):
                    evs.append({"how": rng.choice(["easy", "yaml", "yamlfile"]) if easy else "direct",
                                "chk": 0, "doc": easy_keys(d) if easy else d})
            for j in range(0, len(evs), 10):
                out.append({"kind": "settings", "ev": evs[j:j + 10]})
        for b in range(60 if tier == "quick" else 200):  # valid, or ambiguous
            evs = []
            for _ in range(4):
                d = document(rng, config(rng, easy, rng.choice(["none", "same", "any"])), easy)
                evs.append({"how": rng.choice(["easy", "yaml", "yamlfile"]) if easy else "direct",
                            "chk": int(rng.random() < 0.7), "doc": d})
            out.append({"kind": "settings", "ev": evs})
    return out


def design(tier):
    return {"type": "mc", "module": "MCSettings", "timeout": 850, "cfg": """SPECIFICATION Spec
CONSTANTS
  Names = {"a", "b"}
  Classes = {"c", "w"}
  MaxRules = %d
INVARIANTS DirectExact EasyExact Checked
CHECK_DEADLOCK FALSE
""" % (2 if tier == "thorough" else 1)}
