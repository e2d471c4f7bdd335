"""Concurrent and re-entrant calls."""
import gen


def gen_threads(rng, tier, rnd):
    out = []
    big = tier == "thorough"
    for n in range(64 if not big else 120):
        g = gen.config(rng, nrules=rng.choice([2, 4, 8]), nom=rng.choice([0, 1, 3]),
                       nocover=rng.random() < 0.2, rich=rng.choice([1, 1.5, 2]))
        calls = []
        for _ in range(rng.choice([2, 3, 4])):
            x = rng.random()
            q = gen.bounded(g, gen.token_seq(rng, g, rng.choice([2, 3, 5])))
            if x < 0.65:
                calls.append(["tr", gen.input_text(rng, g, 0.35, rng.choice([2, 4, 6]))])
            elif x < 0.75:
                calls.append(["tk", gen.input_text(rng, g, 0.35, rng.choice([2, 4, 6]))])
            else:
                calls.append([rng.choice(["ma", "all"]), rng.randint(1, len(q) - 1), q])
        if rng.random() < 0.15:  # the same call twice
            calls.append(calls[0])
        m = len(calls)
        groups = [[0, 1]]
        if m > 2:
            groups.append(rng.sample(range(m), 2))
            groups.append(rng.sample(range(m), rng.randint(2, m)))
        fine = int(rng.random() < 0.08)
        out.append({"kind": "threads", "cfg": g, "ign": int(rng.random() < 0.6), "fine": fine,
                    "how": rng.choice(["dict"] * 5 + ["0", "1", "2", "cov", "cov"]),
                    "fresh": int(rng.random() < 0.4), "calls": calls, "groups": groups,
                    "single": 60 if not big else 1000, "multi": 10 if not big else 150,
                    "seed": rng.randrange(1 << 30)})
    return out


def design(tier):
    return {"type": "mc", "module": "MCThreads", "timeout": 850, "cfg": """SPECIFICATION Spec
CONSTANTS
  Cfg <- CfgDef
  MaxInput = 2
  Letters = {97, %s}
INVARIANTS BothAgree
PROPERTY BothEnd
CHECK_DEADLOCK FALSE
""" % ("98, 32, 63" if tier == "thorough" else "98, 63")}
