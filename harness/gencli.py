"""Command lines."""
import genbundled

SOURCES = ["bundled", "json", "json_file", "yaml_file"]


def source(rng, kinds=SOURCES, good=False):
    kind = rng.choice(kinds)
    k = rng.choice([1, 2, 3, 4, 3, 4]) if kind == "bundled" else 5
    if not good and rng.random() < 0.1:
        k = -rng.choice([9, 1, 2, 3, 4, 5, 6])
    return [kind, k, rng.choice([0, 1, 2]), rng.randint(0, 1)]


def args(rng, g):
    n = rng.choice([0, 1, 1, 1, 2, 2, 3, 5, 12])
    out = genbundled.inputs(rng, n, g if rng.random() < 0.7 else None)
    if rng.random() < 0.3:  # several alike
        out += out[:1]
    return out


def gen_cli(rng, tier, rnd):
    out = []
    for w in range(75 if tier == "quick" else 250):
        p = genbundled.package(rng, [], rng.choice(["none", "same", "same", "any"]))
        g = p["cfg"]
        ops = []
        for n in range(14):
            s = source(rng)
            ops.append(["transliterate", s, rng.choice(["none", "python", "json"]), rng.randint(0, 1),
                        rng.randint(0, 1), args(rng, g if s[1] > 2 else None), int(n < 1 and w % 4 == 0)])
        for _ in range(4):
            ops.append(["dump", source(rng, ["bundled", "yaml_file"]), rng.randint(0, 1),
                        rng.choice([None, 0, 1, 2, 2, 0, 1, 3, -1])])
        for _ in range(3):
            ops.append(["generate_tests", source(rng), rng.randint(0, 1)])
        for _ in range(3):
            k = rng.choice([1, 2, 3, 4, 3, 4, -1])
            given = [x[5] for x in genbundled.test_ops(rng, 3, 1, g)][0] + [[["a"], "right"]]
            ops.append(["test", k, rng.randint(0, 1), given])
            if rng.random() < 0.3:  # all of them right
                ops[-1][3] = [x for x in given if x[1] == "right"]
            ops.append(["dump_tests", k, rng.choice(["none", "json", "yaml"]), given])
        if rng.random() < 0.2:
            ops.append(["list_bundled"])
        rng.shuffle(ops)
        out.append({"kind": "cli", "pkg": p, "ops": ops})
    return out


MORE = ["Exam", "Example2", "ExampleOfExample", "E", "ITRANS", "ITRANSDevanagariToUnicode2", "Other", "Ex"]


def cp(x):
    return [ord(c) for c in x]


def pattern(rng, names):
    """(argument, the pattern): regular expressions of the kind Cli.tla knows."""
    alts, txt = [], []
    for _ in range(rng.choice([1, 1, 2])):
        n = rng.choice(names)
        lit = n[:rng.randint(1, len(n))]
        if rng.random() < 0.1:
            lit = lit.swapcase()
        tail = rng.choice(["open", "open", "end", "one", "last"])
        z = n[-rng.randint(1, 2):] if tail == "last" else ""
        alts.append({"lit": cp(lit), "tail": tail, "z": cp(z)})
        txt.append("^" + lit + {"open": rng.choice(["", ".*"]), "end": "$", "one": rng.choice([".", ".+"]),
                                "last": ".*" + z + "$"}[tail])
    return "|".join(txt), alts


def gen_make(rng, tier, rnd):
    out = []
    for _ in range(8 if tier == "quick" else 24):
        more = [[n, genbundled.package(rng, [])] for n in sorted(set(rng.choice(MORE) for _ in range(3)))]
        names = ["Example", "ITRANSDevanagariToUnicode"] + [n for n, _ in more]
        ops = []
        for _ in range(4 if tier == "quick" else 6):
            ops.append(["stale", sorted(set(rng.randint(1, len(names)) for _ in range(rng.choice([1, 3, 5]))))])
            if rng.random() < 0.4:
                n = rng.choice(names + ["Nobody", "Exampl", "Example22"])
                if rng.random() < 0.2:  # names have a case
                    n = rng.choice([n.lower(), n.upper(), n.swapcase()])
                ops.append(["make", n, [], [{"lit": cp(n), "tail": "end", "z": []}]])
            else:
                arg, pat = pattern(rng, names)
                ops.append(["make", arg, [rng.choice(["--regex", "-re"])], pat])
        out.append({"kind": "make", "more": more, "ops": ops})
    return out


def design(tier):
    return {"type": "mc", "module": "MCCli", "timeout": 850, "cfg": """SPECIFICATION Spec
CONSTANTS
  MaxArgs = %d
  Texts0 = {"x", "y"}
  Letters = {1, 2}
  MaxName = %d
INVARIANTS Printed Made Exact Wider
CHECK_DEADLOCK FALSE
""" % ((5, 3) if tier == "thorough" else (3, 2))}
