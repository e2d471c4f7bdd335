"""Workloads of bundled transliterators, generated tests and the command line."""
import gen
import gensettings


def gen_tests(rng, tier, rnd):
    out = []
    for _ in range(350 if tier == "quick" else 1200):
        g = gen.config(rng, nocover=rng.random() < 0.2, nrules=rng.choice([0, 2, 4, 8]),
                       nom=rng.choice([0, 1, 2, 4]), rich=rng.choice([1, 1.5, 2.2]))
        if rng.random() < 0.5:  # every sample can be tokenized, every token has a rule
            singles(rng, g)
        out.append({"kind": "testgen", "cfg": g,
                    "ev": [[how, int(rng.random() < 0.6)] for how in ("plain", "json", "coverage")]})
    for what in ("real", "rules", "onmatch", "tokens"):
        out.append({"kind": "testgen", "cfg": gen.large(rng, what)[0],
                    "ev": [[how, int(rng.random() < 0.6)] for how in ("plain", "json", "coverage")]})
    return out


def singles(rng, g):
    seen = []
    for k, t in enumerate(g["tok"]):
        t = next((c for c in t + "abcdefghij\U0001F600\u0915" if c not in seen))
        seen.append(t)
        g["tok"][k] = t
        if not any(r["t"] == [k + 1] and not (r["pc"] or r["pt"] or r["nt"] or r["nc"]) for r in g["rules"]):
            g["rules"].append({"p": "T%d" % k, "pc": [], "pt": [], "t": [k + 1], "nt": [], "nc": []})


def tests_design(tier):
    return {"type": "mc", "module": "MCTestGen", "timeout": 850, "cfg": """SPECIFICATION Spec
CONSTANTS
  MaxRules = %d
INVARIANTS Passes Exercised Matches
CHECK_DEADLOCK FALSE
""" % (2 if tier == "thorough" else 1)}


# ------------------------------ bundled transliterators --------------------------

LOADS = ["yaml", "json", "ctor"]
WRONG = ["more", "less", "other", "bad", "space", "before", "trim", "newline", "case", "front", "nfd", "doubled",
         "spaces", "empty"]
JUNK = ["?", "\u2603", "~", "^", " ", "  ", "\t", "a", "Z", "\n"]


def package(rng, classes, clash="none"):
    g = gensettings.config(rng, True, clash, rng.choice([None] * 15 + [30, 60]))
    seen, rules = set(), []
    for r in g["rules"]:
        k = gensettings.key_text(rng, r, g)
        if k not in seen:
            seen.add(k)
            rules.append(r)
    g["rules"] = rules
    return {"cfg": g, "classes": classes, "level": rng.choice([0, 1, 2]),
            "spell": [gensettings.key_text(rng, r, g) for r in rules],
            "omspell": [gensettings.om_key(rng, o, g)["s"] for o in g["om"]]}


def inputs(rng, n, g=None):
    out = []
    for _ in range(n):
        if g and rng.random() < 0.8:
            x = gen.input_text(rng, g, 0.3, rng.choice([3, 6, 9]))
            if rng.random() < 0.1:
                x = rng.choice(["\n", "\t", " "]) + x if rng.random() < 0.5 else x + rng.choice(["\n", "\t", " "])
            out.append([x])
        else:
            x = [rng.randrange(200) for _ in range(rng.choice([0, 1, 2, 4, 7]))]
            if rng.random() < 0.3:
                x.insert(rng.choice([0, len(x), rng.randint(0, len(x))]), rng.choice(JUNK))
            out.append(x)
    return out


def load_ops(rng, sym, xs, n):
    ops = [["load", sym, how, rng.choice([0, 1, 1, 2]), rng.choice([0, 1, 2]), rng.choice([0, 1, 2]), xs]
           for how in LOADS]
    ops += [["load", sym, rng.choice(LOADS), rng.choice([0, 1, 2]), rng.choice([0, 1, 2]),
             rng.choice([0, 1, 2]), xs] for _ in range(n)]
    rng.shuffle(ops)
    return ops


def test_ops(rng, sym, n, g=None):
    out = []
    for _ in range(n):
        given = []
        for x in inputs(rng, rng.choice([0, 1, 2, 5] if rng.random() < 0.9 else [30]), g):
            given.append([x, "right"])
        for _ in range(rng.choice([0, 0, 1])):
            given.insert(rng.randint(0, len(given)),
                         [inputs(rng, 1, g)[0], rng.choice(WRONG)])
        out.append(["tests", sym, rng.choice(["yaml", "json"]), rng.randint(0, 1), rng.randint(0, 1), given])
    return out


def gen_bundled(rng, tier, rnd):
    out = []
    big = tier == "thorough"
    for _ in range(8 if not big else 24):  # those that come with the library
        ops = []
        for sym in (1, 2):
            xs = inputs(rng, 25 if sym == 2 else 12)
            ops += load_ops(rng, sym, xs, 5)
            if sym == 1:
                ops += [["load", sym, "iter", ign, 2, 2, xs] for ign in (0, 1, 2)]
            ops += test_ops(rng, sym, 4)
            ops += [["tests", sym, how, rng.randint(0, 1), cov, None]
                    for how in ("yaml", "json") for cov in (0, 1)]
        out.append({"kind": "bundled", "dirs": [], "ops": ops})
    for _ in range(90 if not big else 250):  # directories of others
        dirs, ops, c, fresh, mine = [], [], 100, 3, {}
        for d in range(rng.choice([1, 1, 2, 3])):
            pkgs = []
            for _ in range(rng.choice([1, 1, 2, 3])):
                classes = []
                for _ in range(rng.choice([1, 1, 1, 2, 3])):
                    x = rng.random()
                    if x < 0.08:
                        sym = rng.choice([0, 1, 2])
                    elif x < 0.18 and fresh > 3:
                        sym = rng.randrange(3, fresh)
                    elif x < 0.28:
                        sym = rng.choice([-1, -2])
                    else:
                        sym, fresh = fresh, fresh + 1
                    if sym in [k[0] for k in classes]:
                        continue
                    c += 1
                    classes.append([sym, c, rng.choice(["YAML", "JSON"])])
                p = package(rng, classes, rng.choice(["none", "none", "same", "any"]))
                if (rng.random() < 0.04 and any(k[0] >= 0 for k in classes)
                        and not any(q.get("clash") for q in pkgs)):
                    p["clash"] = 1
                for sym, _, _ in classes:
                    mine.setdefault(sym, p["cfg"])
                pkgs.append(p)
            dirs.append(pkgs)
            ops.append(["add", d])
            for sym in sorted(k for k in mine if k > 0):
                if rng.random() < 0.7:
                    g = mine[sym] if sym > 2 else None
                    ops += load_ops(rng, sym, inputs(rng, 5, g), 2) + test_ops(rng, sym, 2, g)
        ops.append(["load", 1, "ctor", 0, 2, 2, [["a"], ["a", "b"], ["?"]]])
        out.append({"kind": "bundled", "dirs": dirs, "ops": ops})
    return out


def bundled_design(tier):
    return {"type": "mc", "module": "MCBundled", "timeout": 850, "cfg": """SPECIFICATION Spec
CONSTANTS
  Names = {"a", "b", "c"}
  MaxLen = 3
  MaxAdds = %d
INVARIANTS Uniq Refused Allowed
PROPERTY NeverReplaced
CHECK_DEADLOCK FALSE
""" % (3 if tier == "thorough" else 2)}
