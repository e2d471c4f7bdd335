"""Texts in (and near) the easy-reading notation (see spec/Notation.tla)."""
import itertools

import gen
import gensettings

TOKS = ["a", "b", "ab", "bx", ".", "*", "\\", "$", "+", "|", "\U0001F600", "\u0915\u094d", "-", "a.", "1", "^",
        "ax", "xa", "'", '"', "?", "[", "]", "{", "}", "=", ",", "/", "#", "&", "%", "a\u00a0b", "x\u3000y"]
CLSS = ["c", "d", "c1", "dx", "wb", "class_a", "\u0915", "c.d", "c-d", "C"]
ODD = ["a b", "c+d", "p  q", "{c}", "d:"]  # names of classes that only rules can spell


def show(q, rng=None):
    out = ""
    for j, e in enumerate(q):
        if j and e != ")" and q[j - 1] != "(":
            out += " "
        out += e
    return out


def loose(rng, q):
    """The lexemes with other spacing."""
    out = rng.choice(["", "", "", " ", "\n"])
    for j, e in enumerate(q):
        if j:
            proper = "" if e == ")" or q[j - 1] == "(" else " "
            out += proper if rng.random() < 0.75 else rng.choice(["", " ", "  ", "\t", "\n", " \n"])
        out += e
    return out + rng.choice(["", "", "", " ", "\n"])


def lexemes(rng, toks, clss):
    def some(xs, f, lo=0):
        return [f(rng.choice(xs)) for _ in range(rng.choice(sizes) or lo)]
    sizes = [0, 1, 1, 2, 3] if rng.random() < 0.95 else [1, 7, 12, 25]

    def w(x):
        return x

    def c(x):
        return "<%s>" % x
    pc, nc, pt, nt = some(clss, c), some(clss, c), some(toks, w), some(toks, w)
    if rng.random() < 0.5:
        pt = []
    if rng.random() < 0.5:
        nt = []
    q = (["("] + pc + pt + [")"] if pt else pc) + some(toks, w, 1)
    return q + (["("] + nt + nc + [")"] if nt else nc)


def om_lexemes(rng, clss):
    def some():
        return ["<%s>" % rng.choice(clss) for _ in range(rng.choice(sizes))]
    sizes = [1, 1, 2, 3] if rng.random() < 0.95 else [1, 6, 11]
    return some() + ["+"] + some()


def spoil(rng, q, toks, clss):
    q = list(q)
    for _ in range(rng.choice([1, 1, 2])):
        j = rng.randrange(len(q) + 1)
        x = rng.random()
        e = rng.choice(["(", ")", "<%s>" % rng.choice(clss), rng.choice(toks), "<zz>", "zz", "+", "<", ">", "<>",
                        "<%s" % rng.choice(clss), "%s>" % rng.choice(clss)])
        if x < 0.35 or not q:
            q.insert(j, e)
        elif x < 0.6:
            del q[min(j, len(q) - 1)]
        elif x < 0.8:
            q[min(j, len(q) - 1)] = e
        else:
            k = rng.randrange(len(q))
            j = min(j, len(q) - 1)
            q[j], q[k] = q[k], q[j]
    return q


def spoil_text(rng, x, toks, clss):
    for _ in range(rng.choice([1, 1, 2])):
        j = rng.randrange(len(x) + 1)
        if rng.random() < 0.5 and x:
            x = x[:j] + x[j + 1:]
        else:
            x = x[:j] + rng.choice(["(", ")", "<", ">", " ", "+", "z", "\n", rng.choice(toks), rng.choice(clss)]) + x[j:]
    return x


def how(rng):
    return rng.choice(["easy"] * 6 + ["yaml", "yamlfile"])


def gen_notation(rng, tier, rnd):
    out = []
    if rnd == 0:
        exhaustive(rng, 6 if tier == "thorough" else 4, out)
    for _ in range(120 if tier == "quick" else 500):
        toks = gen.pick(rng, TOKS, rng.randint(1, 4))
        clss = gen.pick(rng, CLSS, rng.randint(1, 3))
        plain = list(clss)
        if rng.random() < 0.3:
            clss = clss + gen.pick(rng, ODD, rng.randint(1, 2))
        blank = rng.random() < 0.2
        if blank:
            toks.append(" ")
        words = [t for t in toks if t != " "]
        ev = []
        for _ in range(30):
            om = rng.random() < 0.3
            q = om_lexemes(rng, plain) if om else lexemes(rng, words, clss)
            y = rng.random()
            if y < 0.35:
                x = show(q)
            elif y < 0.5:
                x = loose(rng, q)
            elif y < 0.75:
                x = show(spoil(rng, q, words, plain if om else clss))
            elif y < 0.85:
                x = loose(rng, spoil(rng, q, words, plain if om else clss))
            else:
                x = spoil_text(rng, show(q), words, plain if om else clss)
            if blank and not om and rng.random() < 0.1:
                x = " "
            ev.append(["om" if om else "rule", x, how(rng)])
        out.append({"kind": "notation", "tok": toks, "cls": clss, "ev": ev})
    for _ in range(60 if tier == "quick" else 300):
        g = gensettings.config(rng, True, "any")
        ev = []
        for ign, meta in ((0, 0), (1, 1)):
            for chk in (0, 1):
                ev.append(["same", ign, meta, chk])
        out.append({"kind": "notation", "tok": g["tok"], "cls": g["cls"], "cfg": g, "ev": ev,
                    "spell": [gensettings.key_text(rng, r, g) for r in g["rules"]],
                    "omspell": [gensettings.om_key(rng, o, g)["s"] for o in g["om"]]})
    return out


def exhaustive(rng, n, out):
    """Every sequence of up to n lexemes, properly spaced."""
    toks, clss = ["a", "bx", "_"], ["c", "dx"]
    ev = []
    for k in range(0, n + 1):
        for q in itertools.product(["a", "bx", "<c>", "<dx>", "(", ")"], repeat=k):
            ev.append(["rule", show(q), "easy"])
    for k in range(0, n + 1):
        for q in itertools.product(["<c>", "<dx>", "+", "a"], repeat=k):
            ev.append(["om", show(q), "easy"])
            if k > 1:
                ev.append(["om", "".join(q), "easy"])
    for j in range(0, len(ev), 60):
        out.append({"kind": "notation", "tok": toks, "cls": clss, "ev": ev[j:j + 60]})


def design(tier):
    return {"type": "mc", "module": "MCNotation", "timeout": 850, "cfg": """SPECIFICATION Spec
CONSTANTS
  MaxLex = %d
  MaxPart = %d
INVARIANTS LexInverse ReadExact EveryRule EveryOm
CHECK_DEADLOCK FALSE
""" % ((7, 2) if tier == "thorough" else (5, 1))}
