"""Seeded generators of configurations and inputs (no dependence on /repo)."""
import random

LETTERS = list("abcdef")
PLAIN = ["a", "b", "c", "d", "ab", "ba", "abc", "aab", "aa", "bb", "cd", "abcd", "dc"]
SPECIAL = [".", "*", "\\", "(", ")", "[", "]", "^", "$", "|", "+", "?", "{", "}", "-",
           "#", "&", "~", "\\d", "(a", "a|b", ".*", "[a]", "a{2}", "<", ">", "'", '"',
           ":", "\\N", "%", "/", ",", "a.", "^a", "\\\\", "a+"]
ASTRAL = ["\U0001F600", "\U0001D4B3", "\U0001F468\u200d\U0001F469", "e\u0301", "e",
          "\u00e9", "\u0101", "\u05d0\u05b7", "\u05d0", "\u0915", "\u0915\u094d",
          "\u0915\u094d\u0937", "\U00010330", "\U00010330\U00010331", "\ud7ff", "\uffff",
          "\u00df", "\u0130", "\u017f", "K", "\u212a"]
SPACEY = ["a b", " a", "a ", "b\n", "\na", "a\tb", "a  b", ". ."]
CONTROL = ["\r", "\n", "\x00", "\x0b", "\u2028", "\x85", "\r\n"]
WS = [" ", "\t", "\n", "  ", " \n", "\u00a0", "_", "\u00b6", "--", "\r\n", "\u3000", "#"]
UNKNOWN = ["?", "\u2603", "Z", "\n", "\U0001F4A9", "\x00", "7", "A", "\t", "*", "\u0301", "Q\u0301", "\r\n", "\ufe0f", "\U0001F468\u200d\U0001F469"]
PRODS = ["A", "B", "AB", "A B", "", "X", "XA", "\u0905", "\U0001F600", "a", "aa", "-", ",",
         "\n", "ABA", "<A>", "\\1", "\\g<0>", "%s", "{}", "C", "D", "E", "F", " ",
         "e", "\u0301", "\u212b", "\uac00", "\u11a8", "\ufb01", " x ", "\u0130"]


def pick(rng, xs, k):
    xs = list(dict.fromkeys(xs))
    rng.shuffle(xs)
    return xs[:k]


def tokens_of(rng, style, n):
    pools = {
        "plain": PLAIN, "special": SPECIAL + ["a", "b"], "astral": ASTRAL,
        "spacey": SPACEY + ["a", "b", "."], "control": CONTROL + ["a", "b"],
        "mixed": PLAIN + SPECIAL + ASTRAL + SPACEY + CONTROL,
    }
    toks = pick(rng, pools[style], n)
    if rng.random() < 0.3:  # long tokens and chains of prefixes
        base = rng.choice(["a", "b", "\u0915", "."])
        toks += [base * k for k in pick(rng, range(1, 7), 3)]
    if rng.random() < 0.15:  # concatenations of others
        toks += [rng.choice(toks) + rng.choice(toks) for _ in range(2)]
    return list(dict.fromkeys(toks))


def config(rng, style=None, ntok=None, nrules=None, nom=None, consolidate=None,
           rich=1.0, nocover=False, maxpart=2, distinct_prods=False, wstokens=None,
           ncls=None, easy=False):
    style = style or rng.choice(
        ["plain"] * 5 + ["special"] * 2 + ["astral"] * 2 + ["spacey", "control", "mixed"])
    if easy:
        style = "plain"
    toks = tokens_of(rng, style, ntok or rng.randint(1, 6))
    nws = wstokens if wstokens is not None else rng.choice([1, 1, 2, 2, 3])
    ws = pick(rng, [w for w in WS if w not in toks], nws) if not easy else \
        pick(rng, [w for w in [" ", "_", "\t", "#"] if w not in toks], nws)
    if easy and " " not in ws:
        ws[0] = " "
    if not ntok and not easy and rng.random() < 0.04:
        toks = []  # whitespace alone
    toks = toks + ws
    rng.shuffle(toks)
    nc = ncls or rng.randint(1, 4)
    wc = rng.randint(1, nc)
    cls = ["c%d" % k for k in range(1, nc + 1)]
    cls[wc - 1] = rng.choice(["wb", "whitespace", "c%d" % wc])
    cm = []
    for t in toks:
        row = [1 if rng.random() < 0.4 else 0 for _ in range(nc)]
        if t in ws:
            row[wc - 1] = 1
        elif rng.random() < 0.92:
            row[wc - 1] = 0
        cm.append(row)
    wd = toks.index(rng.choice(ws)) + 1
    # every class is held by at least one token
    for c in range(nc):
        if not any(r[c] for r in cm):
            cm[rng.randrange(len(cm))][c] = 1
            if c == wc - 1:
                cm[wd - 1][c] = 1
    g = {"tok": toks, "cls": cls, "cm": cm, "rules": [], "om": [], "wd": wd, "wc": wc,
         "wk": (rng.randint(0, 1) if consolidate is None else consolidate)}
    n = len(toks)
    hot = [rng.randint(1, n) for _ in range(rng.randint(1, 3))]

    def tk():
        return rng.choice(hot) if rng.random() < 0.6 else rng.randint(1, n)

    def part(p, f):
        k = 0
        while k < maxpart and rng.random() < p:
            k += 1
        return [f() for _ in range(k)]

    def cl():
        return rng.randint(1, nc)

    seen = set()
    rules = []

    def add(r):
        key = repr([r[k] for k in ("pc", "pt", "t", "nt", "nc")])
        if key in seen and rng.random() < 0.9:
            return
        seen.add(key)
        rules.append(r)

    prods = list(PRODS)

    def prod():
        if distinct_prods:
            return "%s%d." % (rng.choice("ABC"), len(rules))
        return rng.choice(prods) + (str(rng.randint(0, 9)) if rng.random() < 0.5 else "")

    if not nocover:
        for t in range(1, n + 1):
            if rng.random() < 0.8:
                add({"p": prod(), "pc": [], "pt": [], "t": [t], "nt": [], "nc": []})
    for _ in range(nrules if nrules is not None else rng.choice([1, 2, 3, 4, 6, 9, 14])):
        x = rng.random()
        if rules and x < 0.35:  # vary another rule: shares tokens, adds context
            b = rng.choice(rules)
            r = {k: list(v) if isinstance(v, list) else v for k, v in b.items()}
            r["p"] = prod()
            what = rng.choice(["pc", "pt", "t", "nt", "nc"])
            v = cl() if what in ("pc", "nc") else tk()
            if len(r[what]) < maxpart + 2:
                r[what] = (r[what] + [v]) if rng.random() < 0.5 else ([v] + r[what])
            add(r)
        else:
            add({"p": prod(), "pc": part(0.3 * rich, cl), "pt": part(0.3 * rich, tk),
                 "t": [tk()] + part(0.4, tk), "nt": part(0.3 * rich, tk),
                 "nc": part(0.3 * rich, cl)})
    if not rules:
        add({"p": prod(), "pc": [], "pt": [], "t": [tk()], "nt": [], "nc": []})
    rng.shuffle(rules)
    g["rules"] = rules
    m = nom if nom is not None else rng.choice([0, 0, 1, 2, 3, 5])
    sizes = [3, 4, 5, 6] if rng.random() < 0.12 else [1, 1, 1, 2, 2, 3]
    for k in range(m):
        g["om"].append({
            "pc": [cl() for _ in range(rng.choice(sizes))],
            "nc": [cl() for _ in range(rng.choice(sizes))],
            "p": rng.choice(["+", ",", "", "^%d" % k, "\u094d", "(%d)" % k])})
    if rng.random() < 0.35:
        overhang(rng, g, cl, tk, ["nc", "pc"] if easy else ["nc", "pc", "nt", "pt", "t"])
    return g


def bare(rng, g):
    """Now and then a configuration without any rules, or with its whitespace token alone."""
    x = rng.random()
    if x < 0.02:
        g["rules"] = []
    elif x < 0.04:
        w = g["tok"][g["wd"] - 1]
        g["cm"] = [[1] * len(g["cls"])]
        g["tok"], g["wd"] = [w], 1
        for r in g["rules"]:
            for k in ("pt", "t", "nt"):
                r[k] = [1] * len(r[k])
    return g


def overhang(rng, g, cl, tk, parts):
    """Lets contexts go on beyond where the boundary token fits."""
    for o in [o for o in g["om"] if rng.random() < 0.6]:
        k = rng.choice(["pc", "nc"])
        more = [g["wc"]] + [cl() for _ in range(rng.randint(1, 2))]
        o[k] = (o[k] + more)[:4] if k == "nc" else (more[::-1] + o[k])[-4:]
    for r in [r for r in g["rules"] if rng.random() < 0.25]:
        how = rng.choice(parts)
        e = g["wc"] if how in ("nc", "pc") else g["wd"]
        more = [e] + [(cl if how in ("nc", "pc") else tk)() for _ in range(rng.randint(0, 2))]
        n = dict({k: list(v) if isinstance(v, list) else v for k, v in r.items()})
        n[how] = more[::-1] + n[how] if how in ("pc", "pt") else n[how] + more
        if not any(all(n[k] == x[k] for k in ("pc", "pt", "t", "nt", "nc")) for x in g["rules"]):
            r.update(n)


def cut_short(rng, g):
    """A sequence in which a rule or an on-match rule fits but for its outermost part:
    the boundary token is where one of the parts before that can be."""
    rows = g["cm"]
    if g["om"] and rng.random() < 0.6:
        o = rng.choice(g["om"])
        need = [("c", c) for c in o["pc"]], [("c", c) for c in o["nc"]]
    elif not g["rules"]:
        return token_seq(rng, g)
    else:
        r = rng.choice(g["rules"])
        need = ([("c", c) for c in r["pc"]] + [("t", t) for t in r["pt"]],
                [("t", t) for t in list(r["t"]) + list(r["nt"])] + [("c", c) for c in r["nc"]])
    wd = g["wd"]

    def fits(x):
        return x[1] == wd if x[0] == "t" else rows[wd - 1][x[1] - 1] == 1

    def one(x):
        return x[1] if x[0] == "t" else rng.choice(members(g, x[1]))
    left, right = need
    cl_ = [k + 1 for k, x in enumerate(left) if fits(x)]
    cr = [k for k, x in enumerate(right) if fits(x) and k > 0]
    if cl_ and rng.random() < 0.5:
        left = left[rng.choice(cl_):]
    elif cr:
        right = right[:rng.choice(cr)]
    return [one(x) for x in left + right]


def add_long_rules(rng, g):
    """Rules of many tokens, neighbouring sizes."""
    n = len(g["tok"])
    base = rng.randint(8, 40) if rng.random() < 0.85 else rng.randint(41, 220)
    t = rng.randint(1, n)
    for k in range(rng.randint(2, 4)):
        size = base + k
        g["rules"].append({"p": "L%d." % size, "pc": [], "pt": [], "t": [t] * size,
                           "nt": [], "nc": []})
    if rng.random() < 0.5:
        g["rules"].append({"p": "M.", "pc": [], "pt": [t] * rng.randint(3, 12), "t": [t] * 2,
                           "nt": [t] * rng.randint(3, 12), "nc": []})
    if rng.random() < 0.5:  # long contexts, of classes too
        c = [rng.randint(1, len(g["cls"])) for _ in range(rng.randint(6, 14))]
        k = rng.randint(0, len(c))
        g["rules"].append({"p": "N.", "pc": c[:k], "pt": [], "t": [t], "nt": [], "nc": c[k:]})
    rng.shuffle(g["rules"])
    return t, base


def add_bush(rng, g):
    """Many rules of one token, told apart by what surrounds it, and longer ones that begin with it."""
    n, m = len(g["tok"]), len(g["cls"])
    t = rng.randint(1, n)
    more = [[]] * 4 + [[rng.randint(1, n)], [rng.randint(1, n), t]]
    for k in range(rng.randint(9, 24)):
        r = {"p": "B%d." % k, "pc": [], "pt": [], "t": [t] + rng.choice(more), "nt": [], "nc": []}
        for _ in range(rng.choice([0, 1, 1, 2, 2, 3])):
            part = rng.choice(["pc", "pt", "nt", "nc"])
            r[part] = r[part] + [rng.randint(1, m if part in ("pc", "nc") else n)]
        g["rules"].insert(rng.randint(0, len(g["rules"])), r)


def large(rng, what):
    """(configuration, operations) of unusual size; one dimension at a time."""
    def rule(p, t, **kw):
        return dict({"p": p, "pc": [], "pt": [], "t": t, "nt": [], "nc": []}, **kw)

    size = rng.choice([130, 300, 1100, 1300])
    if what == "real":  # settings in actual use: Devanagari from ITRANS
        import json
        import os
        with open(os.path.join(os.path.dirname(os.path.abspath(__file__)), "..", "data",
                               "devanagari.json")) as fh:
            data = json.load(fh)
        g = data["cfg"]
        rng.shuffle(g["rules"])
        g["wk"] = rng.randint(0, 1)
        xs = [rng.choice(["", " "]).join(rng.choice(data["xs"]) for _ in range(rng.randint(1, 5)))
              for _ in range(6)]
        xs += [text_of(g, [rng.randint(1, len(g["tok"])) for _ in range(rng.randint(2, 12))])
               for _ in range(6)]
        return g, xs
    if what == "vast":  # long texts of overlapping tokens
        toks = ["a", "ab", "abc", "bcd", "cd", "dddd", "d"]
        g = base(toks, [rule(t.upper(), [k + 1]) for k, t in enumerate(toks)])
        return g, ["".join(rng.choice(toks) for _ in range(n)) for n in (600, 1200, 2400, 2400, 5000)]
    if what == "tokens":  # many tokens, some of them long, prefixes of one another
        n = rng.choice([70, 140, 260])
        toks = ["%s%s" % (rng.choice("xyz"), chr(0x100 + k)) for k in range(n)]
        toks += ["q" * k for k in (1, 2, 40, 70, 140, 300)] + list("xyz")
        rng.shuffle(toks)
        g = base(toks, [rule("P%d." % k, [k + 1]) for k in range(0, len(toks), 7)])
        xs = [toks[0] + toks[-1] + toks[n // 2], "q" * rng.randint(300, 700),
              "".join(rng.choice(toks) for _ in range(40))]
    elif what == "rules":  # many rules, of one token, or of one context
        n = rng.choice([60, 90, 130])
        toks = ["a", "b", "c"]
        rules = [rule("R%d." % k, [1] * rng.randint(1, 3) + [2] * rng.randint(0, 2),
                      pc=[rng.randint(1, 2)] * rng.randint(0, 3), nc=[rng.randint(1, 2)] * rng.randint(0, 3))
                 for k in range(n)]
        rules.append(rule("b", [2]))
        g = base(toks, rules)
        xs = ["a" * rng.randint(5, 9) + "b" * rng.randint(0, 3) + "aab" for _ in range(3)]
    elif what == "totals":  # rules of very many tokens
        g = base(list("abcde"), [rule(t, [k + 1]) for k, t in enumerate("abcde")])
        for t, n in enumerate((rng.randint(14, 30), rng.randint(30, 60), rng.randint(60, 120),
                               rng.randint(120, 250), rng.randint(250, 420)), 1):
            what = [0, 1] if rng.random() < 0.6 else [rng.randint(0, 1), rng.randint(0, 1)]
            if rng.random() < 0.4:
                what.reverse()
            for k in range(2):  # neighbouring totals, of tokens alone or of contexts
                g["rules"].append(rule("T%d." % (n + k), [t] * (n + k)) if what[k] else
                                  rule("U%d." % (n + k), [t, t], nt=[t] * (n + k - 12), pc=[1] * 10))
        rng.shuffle(g["rules"])
        xs = ["".join("abcde"[t] * rng.randint(20, m) for t, m in ts) for ts in (
            [(1, 150), (0, 90), (2, 250)], [(3, 500)], [(4, 900), (0, 80)])]
    elif what == "onmatch":
        n = rng.choice([40, 90])
        toks = ["a", "b", "c"]
        g = base(toks, [rule(t, [k + 1]) for k, t in enumerate(toks)])
        for k in range(n):
            g["om"].append({"pc": [rng.randint(1, 3) for _ in range(rng.randint(2, 7))],
                            "nc": [rng.randint(1, 3) for _ in range(rng.randint(2, 7))], "p": "(%d)" % k})
        xs = ["".join(rng.choice("aaabc") for _ in range(40)) for _ in range(3)]
        if rng.random() < 0.6:  # rules that seldom match before ones that often do
            g["cm"][:3] = [[1, 1, 0, 0], [1, 1, 0, 0], [0, 0, 1, 0]]
            for o in g["om"]:
                o["pc"] = [3] * rng.randint(0, 2) + [rng.randint(1, 2) for _ in o["pc"]]
                o["nc"] = [rng.randint(1, 2) for _ in o["nc"]] + [3] * int(len(o["pc"]) == 0 or rng.random() < 0.8)
            g["om"] += [{"pc": [x], "nc": [y], "p": "<%d%d>" % (x, y)} for x in (1, 2) for y in (1, 2)]
            xs = ["ab" * 6, "".join(rng.choice("aaaaaabbbbbbc") for _ in range(60))]
    elif what == "spaces":
        g = base(["a", "\t"], [rule("A", [1])], wk=1)
        g["cm"][1] = [0, 0, 0, 1]
        xs = ["a" + " " * size + "a", " " * size, "\t " * (size // 2) + "a" + "\t" * size]
    elif what == "errors":  # very many places passed over
        g = base(["a", "b", "c"], [rule("A", [1]), rule("B", [2, 1])])
        xs = ["?" * size, "b" * size + "a", "a" + "?b" * (size // 2)]
    else:
        g = base(["a", "b", "c"], [rule("A", [1]), rule("BA", [2, 1]), rule("B", [2]), rule("C", [3]),
                                   rule("D", [1], pc=[2]), rule("_", [4])])
        if rng.random() < 0.5:
            g["om"].append({"pc": [2], "nc": [1], "p": ","})
        xs = ["".join(rng.choice("aabbc ") for _ in range(size)), "a" * size]
    return g, xs


def base(toks, rules, wk=0):
    """A configuration around given tokens; three classes and the whitespace class."""
    n = len(toks)
    return {"tok": toks + [" "], "cls": ["c1", "c2", "c3", "wb"],
            "cm": [[1, int(k % 3 < 2), int(k % 2 == 0), 0] for k in range(n)] + [[0, 1, 0, 1]],
            "rules": rules, "om": [], "wd": n + 1, "wc": 4, "wk": wk}


def members(g, c):
    return [k + 1 for k, row in enumerate(g["cm"]) if row[c - 1]]


def spell(rng, g, r):
    """A token sequence in which rule r matches."""
    return ([rng.choice(members(g, c)) for c in r["pc"]] + list(r["pt"]) + list(r["t"])
            + list(r["nt"]) + [rng.choice(members(g, c)) for c in r["nc"]])


def spell_om(rng, g, o):
    return [rng.choice(members(g, c)) for c in o["pc"] + o["nc"]]


def token_seq(rng, g, maxlen=8):
    n = len(g["tok"])
    ws = members(g, g["wc"])
    q = []
    while len(q) < maxlen:
        x = rng.random()
        if x < 0.35 and g["rules"]:
            q += spell(rng, g, rng.choice(g["rules"]))
        elif x < 0.45 and g["om"] or x < 0.6 and any(len(o["pc"]) > 3 for o in g["om"]):
            q += spell_om(rng, g, rng.choice(g["om"]))
        elif x < 0.6:
            q += [rng.choice(ws) for _ in range(rng.randint(1, 3))]
        elif x < 0.85 or not q:
            q.append(rng.randint(1, n))
        else:
            break
    return q[: maxlen + 6]


def text_of(g, q):
    return "".join(g["tok"][t - 1] for t in q)


def input_text(rng, g, errors=0.25, maxlen=8):
    if rng.random() < 0.12:
        return text_of(g, cut_short(rng, g))
    x = rng.random()
    ws = [g["tok"][t - 1] for t in members(g, g["wc"])]
    if x < 0.04:
        return ""
    if x < 0.1:
        return "".join(rng.choice(ws) for _ in range(rng.randint(1, 4)))
    s = text_of(g, token_seq(rng, g, maxlen))
    if rng.random() < 0.3:
        s = "".join(rng.choice(ws) for _ in range(rng.randint(0, 2))) + s + "".join(
            rng.choice(ws) for _ in range(rng.randint(0, 3)))
    if rng.random() < errors:
        for _ in range(rng.randint(1, 3)):
            k = rng.choice([0, len(s), rng.randint(0, len(s))])
            s = s[:k] + rng.choice(UNKNOWN) + s[k:]
    if s and rng.random() < 0.1:  # break a token apart
        k = rng.randrange(len(s))
        s = s[:k] + s[k + 1:]
    return s


def bounded(g, q):
    return [g["wd"]] + list(q) + [g["wd"]]


# ------------------------------ ambiguity ---------------------------------------


def amb_config(rng, big=False):
    """Small alphabet, no class of every token, many rules of the same size."""
    nt = rng.choice([2, 3, 3, 4]) if not big else rng.randint(3, 6)
    toks = ["a", "b", "c", "d", "e"][: nt - 1] + [" "]
    if rng.random() < 0.2:
        toks = ["\U0001F600", "a", "ab", ".", "x"][: nt - 1] + [" "]
    order = list(range(nt))
    rng.shuffle(order)
    toks = [toks[k] for k in order]
    wd = toks.index(" ") + 1
    nc = rng.randint(1, 4)
    cm = [[0] * nc for _ in range(nt)]
    for c in range(nc):
        k = rng.randint(1, nt - 1)
        for t in pick(rng, range(nt), k):
            cm[t][c] = 1
    cls = ["c%d" % (c + 1) for c in range(nc)]
    # a whitespace class of only whitespace
    cls.append("wb")
    for t in range(nt):
        cm[t].append(int(t == wd - 1))
    nc += 1
    width = 4 if big else rng.choice([2, 3, 4])
    hot = [rng.randint(1, nt) for _ in range(2)]

    def tk():
        return rng.choice(hot) if rng.random() < 0.7 else rng.randint(1, nt)

    def cl():
        return rng.randint(1, nc)

    def rule(size):
        r = {"p": "", "pc": [], "pt": [], "t": [tk()], "nt": [], "nc": []}
        for _ in range(size - 1):
            k = rng.choice(["pc", "nc", "pc", "nc", "pt", "nt", "t"])
            if k in ("pc", "pt") and len(r["pc"]) + len(r["pt"]) >= 2:
                k = "nc"
            v = cl() if k in ("pc", "nc") else tk()
            if k in ("pc", "pt"):
                r[k].insert(0, v)
            else:
                r[k].append(v)
        return r

    def need(r, d):
        seq = [("c", x) for x in r["pc"]] + [("t", x) for x in r["pt"]]
        cur = [("t", x) for x in r["t"] + r["nt"]] + [("c", x) for x in r["nc"]]
        k = d + len(seq) if d < 0 else d
        part = seq if d < 0 else cur
        if k < 0 or k >= len(part):
            return None
        kind, x = part[k]
        return {x} if kind == "t" else {t + 1 for t in range(nt) if cm[t][x - 1]}

    rules = []
    size = rng.randint(1, width)
    for _ in range(rng.choice([2, 2, 3, 4]) if not big else rng.randint(4, 10) if big < 2 else rng.randint(20, 40)):
        rules.append(rule(rng.choice([size, size, rng.randint(1, width)])))
    if rng.random() < 0.5:  # change one component of another rule
        b = rng.choice(rules)
        r = {k: list(v) if isinstance(v, list) else v for k, v in b.items()}
        ks = [k for k in ("pc", "nc", "pt", "nt", "t") if r[k]]
        k = rng.choice(ks)
        j = rng.randrange(len(r[k]))
        r[k][j] = cl() if k in ("pc", "nc") else tk()
        rules.append(r)
    # a rule that resolves (or nearly resolves) a conflict: the joint context spelled out
    for _ in range(rng.choice([0, 1, 1, 2])):
        if len(rules) < 2:
            break
        x, y = rng.sample(rules, 2)
        lo = max(len(r["pc"]) + len(r["pt"]) for r in (x, y))
        hi = max(len(r["t"]) + len(r["nt"]) + len(r["nc"]) for r in (x, y))
        joint = {}
        ok = True
        for d in range(-lo, hi):
            a, b = need(x, d), need(y, d)
            j = a if b is None else b if a is None else a & b
            if not j:
                ok = False
                break
            joint[d] = j
        if not ok:
            continue

        def cover(j):
            """a class covering j, if any, else a token"""
            cands = [c + 1 for c in range(nc) if all(cm[t - 1][c] for t in j)]
            if cands and rng.random() < 0.85:
                return "c", rng.choice(cands)
            if rng.random() < 0.15:
                return "c", cl()
            return "t", rng.choice(sorted(j))

        r = {"p": "", "pc": [], "pt": [], "t": [], "nt": [], "nc": []}
        good = True
        stage = 0
        for d in range(-lo, 0):
            kind, v = cover(joint[d]) if stage == 0 else ("t", rng.choice(sorted(joint[d])))
            if kind == "t":
                stage = 1
                r["pt"].append(v)
            else:
                r["pc"].append(v)
        stage = 0
        for d in range(0, hi):
            if d == 0:
                r["t"].append(sorted(joint[0])[0])
                continue
            if stage == 0 and len(joint[d]) == 1 and rng.random() < 0.5:
                r[rng.choice(["t", "nt"]) if not r["nt"] else "nt"].append(sorted(joint[d])[0])
                continue
            stage = 1
            kind, v = cover(joint[d])
            if kind == "t" and not r["nc"]:
                r["nt"].append(v)
            elif kind == "t":
                good = False
            else:
                r["nc"].append(v)
        if good:
            rules.append(r)
    seen, out = set(), []
    for r in rules:
        key = repr(sorted((k, v) for k, v in r.items() if k != "p"))
        if key not in seen or rng.random() < 0.1:
            seen.add(key)
            out.append(r)
    rng.shuffle(out)
    same = rng.choice([99, 99, 99, 1, 1, 2])  # rules may have one production
    for k, r in enumerate(out):
        r["p"] = "P%d" % (k % same)
    return {"tok": toks, "cls": cls, "cm": cm, "rules": out, "om": [], "wd": wd, "wc": nc,
            "wk": 0}


def amb_spread(rng):
    """Many rules apart from one another, and perhaps two or three that are not."""
    toks = list("abcde") + [" "]
    cls = ["c1", "c2", "c3", "wb"]
    cm = [[int(k in q) for q in ((0, 1), (1, 2), (3,), (5,))] for k in range(6)]
    seqs = [[x] for x in range(1, 6)] + [[x, y] for x in range(1, 6) for y in range(1, 6)]
    rules = [{"p": "", "pc": [], "pt": [], "t": q, "nt": [], "nc": []}
             for q in rng.sample(seqs, rng.randint(15, 30))]
    t = rng.choice(seqs)
    k = rng.choice(["pc", "nc"])
    for c in rng.choice([[1, 2], [1, 2], rng.sample([1, 2, 3, 4], rng.choice([0, 2, 2, 3]))]):
        r = {"p": "", "pc": [], "pt": [], "t": t, "nt": [], "nc": []}
        r[k] = [c] if rng.random() < 0.6 else [c, rng.randint(1, 4)]
        rules.append(r)
    if rng.random() < 0.3:  # what b does after a, both of the first two classes
        rules.append({"p": "", "pc": [], "pt": [2] if k == "pc" else [], "t": t,
                      "nt": [2] if k == "nc" else [], "nc": [rng.randint(1, 4)] if rng.random() < 0.5 else []})
    rng.shuffle(rules)
    for j, r in enumerate(rules):
        r["p"] = "P%d" % j
    return {"tok": toks, "cls": cls, "cm": cm, "rules": rules, "om": [], "wd": 6, "wc": 4, "wk": 0}


def amb_long(rng):
    """Two long rules, or two of wide classes, that meet, and a rule that may settle it; others among them."""
    nt = rng.choice([3, 4, 9, 10])
    toks = list("abcdefghi")[: nt - 1] + [" "]
    long = nt < 5
    n = rng.randint(8, 14) if long else rng.randint(1, 2)
    t = [rng.randint(1, min(nt - 1, 3)) for _ in range(n)]
    wide = [k for k in range(1, nt + 1) if rng.random() < 0.8] or [1]
    other = [k for k in range(1, nt + 1) if rng.random() < 0.8] or [1]

    def lacking(ks):
        x = rng.choice(ks)
        return [k for k in ks if k != x] if len(ks) > 1 and rng.random() < 0.4 else ks
    cls = [wide, other, lacking(wide), lacking(other), [nt]]
    cm = [[int(k in c) for c in cls] for k in range(1, nt + 1)]

    def r(pc=(), nc=(), t=t):
        cut = rng.randint(1, len(t)) if rng.random() < 0.4 else len(t)
        return {"p": "", "pc": list(pc), "pt": [], "t": t[:cut], "nt": t[cut:], "nc": list(nc)}
    rules = [r(pc=[1]), r(nc=[2])] if rng.random() < 0.8 else [r(nc=[1]), r(nc=[2])]
    if rng.random() < 0.7:
        rules.append(r(pc=[rng.choice([1, 3])], nc=[rng.choice([2, 4])]))
    for _ in range(rng.choice([0, 0, 2, 20])):  # of the same size, elsewhere
        q = list(t)
        q[rng.randrange(n)] = rng.randint(1, nt)
        if q != t and all(q != x["t"] + x["nt"] for x in rules):
            rules.append(r(nc=[rng.randint(1, 5)], t=q))
    rng.shuffle(rules)
    for j, x in enumerate(rules):
        x["p"] = "P%d" % j
    return {"tok": toks, "cls": ["c1", "c2", "c3", "c4", "wb"], "cm": cm, "rules": rules, "om": [],
            "wd": nt, "wc": 5, "wk": 0}
