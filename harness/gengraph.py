"""Workloads about graphs (C18), coverage (C19) and directed graphs (C20)."""
import gen


def cfg(rng, **kw):
    kw.setdefault("nrules", rng.choice([0, 2, 4, 8, 12]))
    if rng.random() < 0.1:
        kw["maxpart"] = 3
    kw.setdefault("rich", rng.choice([0.5, 1.0, 1.8]))
    return gen.config(rng, **kw)


def gen_graph(rng, tier, rnd):
    out = []
    for _ in range(700 if tier == "quick" else 2500):
        g = cfg(rng)
        if rng.random() < 0.05:
            gen.add_long_rules(rng, g)
        elif rng.random() < 0.05:
            gen.add_bush(rng, g)
        if rng.random() < 0.05:
            g = cfg(rng, nrules=40)
        gen.bare(rng, g)
        ops = [["graph", 0, 0]]
        for _ in range(rng.randint(1, 4)):
            k = rng.randint(0, 4)
            x = rng.random()
            if x < 0.35:
                ops.append([rng.choice(["load", "loaddata"]), k, rng.choice([0, 1, 1, 2])])
            elif x < 0.55:
                ops.append(["prune", k, gen.pick(rng, [r["p"] for r in g["rules"]] + ["none"], rng.randint(1, 4))])
            elif x < 0.7:
                ops.append(["run", k, gen.input_text(rng, g)])
            elif x < 0.8:
                ops.append(["cover", k])
            else:
                ops.append(["graph", k, rng.choice([0, 1, 2])])
        ops.append(["graph", 0, rng.choice([0, 1, 2])])
        ops.append(["graph", rng.randint(1, 3), rng.choice([0, 1, 2])])
        out.append({"kind": "graph", "cfg": g, "ops": ops})
    for what in ("real", "totals", "tokens", "rules"):
        g = gen.large(rng, what)[0]
        if what == "totals":  # the three smaller pairs
            g["rules"] = [r for r in g["rules"] if sum(len(r[k]) for k in ("pc", "t", "nt")) < 122]
        out.append({"kind": "graph", "cfg": g, "ops": [
            ["graph", 0, 0], ["load", 0, rng.choice([0, 1])], ["graph", 1, 0],
            ["prune", 0, gen.pick(rng, [r["p"] for r in g["rules"]], 30)], ["graph", 2, 0]]})
    return out


def gen_cov(rng, tier, rnd):
    """Histories of coverage-checking transliterators; some visit everything."""
    out = []
    for _ in range(700 if tier == "quick" else 2500):
        full = rng.random() < 0.5
        g = cfg(rng, nom=rng.choice([0, 1, 2, 3]), nrules=rng.choice([0, 1, 2, 4, 6] if full else [2, 4, 8]),
                consolidate=0 if full else None)
        if rng.random() < 0.25:
            g["om"] = []
        elif rng.random() < 0.3:  # more of them
            nc = len(g["cls"])
            g["om"] = [{"pc": [rng.randint(1, nc)], "nc": [rng.randint(1, nc)], "p": str(k)}
                       for k in range(rng.randint(4, 9))]
        gen.bare(rng, g)
        if g["rules"] and rng.random() < 0.2:  # rules that nothing can match
            r = dict(rng.choice(g["rules"]), pc=[], nc=[], nt=[], p="dup")
            g["rules"].append(r)
        ign = int(rng.random() < 0.5)
        todo = []
        if full:
            for r in g["rules"]:
                todo.append(["run", gen.text_of(g, gen.spell(rng, g, r))])
                if rng.random() < 0.3:
                    q = gen.bounded(g, gen.spell(rng, g, r))
                    todo.append(["ma", q, 1 + len(r["pc"]) + len(r["pt"]), rng.randint(0, 1)])
            for o in g["om"]:
                todo.append(["run", gen.text_of(g, gen.spell_om(rng, g, o))])
            rng.shuffle(todo)
        ops = []
        for _ in range(rng.randint(3, 10)):
            x = rng.random()
            if x < 0.4:
                ops.append(["run", gen.input_text(rng, g, 0.2, rng.choice([2, 4, 8]))])
            elif x < 0.5:
                q = gen.bounded(g, gen.token_seq(rng, g, 5))
                ops.append(["ma", q, rng.randint(1, max(1, len(q) - 2)), rng.randint(0, 1)])
            elif x < 0.55:
                ops.append(["tok", gen.input_text(rng, g)])
            elif x < 0.62:
                ops.append(["clear"])
            elif x < 0.8:
                ops.append([rng.choice(["check", "checkquiet", "omcheck", "omcheckquiet", "gcheck", "gcheckquiet"])])
            elif x < 0.87:
                ops.append(["dump", rng.choice([0, 1, 2])])
            elif x < 0.92:
                ops.append(["prune", gen.pick(rng, [r["p"] for r in g["rules"]] + ["none"], rng.randint(1, 3))])
            elif x < 0.96:
                ops.append(["useother", gen.input_text(rng, g)])
            else:
                ops.append(["read"])
        k = rng.randint(0, len(ops)) if rng.random() < 0.5 else 0
        ops = ops[:k] + todo + ops[k:]
        if rng.random() < 0.3 and len(todo) > 1:  # everything but one
            ops.remove(rng.choice(todo))
        ops += [["check"], ["checkquiet"], ["omcheck"], ["omcheckquiet"], ["gcheck"]]
        if rng.random() < 0.4:
            ops += [["clear"], ["check"], ["omcheckquiet"]]
        out.append({"kind": "cov", "cfg": g, "ign": ign, "ops": ops,
                    "how": rng.choice(["dict", "dict", "dict", "1", "0"])})
    for what in ("real", "onmatch", "tokens"):
        g = gen.large(rng, what)[0]
        if what == "onmatch":
            for o in g["om"]:
                o["pc"], o["nc"] = o["pc"][-2:], o["nc"][:2]
        ops = [["run", gen.text_of(g, gen.spell(rng, g, r))] for r in g["rules"]]
        ops += [["run", gen.text_of(g, gen.spell_om(rng, g, o))] for o in g["om"]]
        rng.shuffle(ops)
        if rng.random() < 0.5:
            ops.pop()
        out.append({"kind": "cov", "cfg": g, "ign": 1, "how": rng.choice(["dict", "1"]),
                    "ops": ops + [["check"], ["omcheck"], ["clear"], ["checkquiet"]]})
    return out


# ------------------------------ directed graphs ---------------------------------

DG_CFG = """SPECIFICATION %s
CONSTANTS
  Depth = %d
  Emitting = %s
  MaxNodes = %d
%s
CHECK_DEADLOCK FALSE
"""


def dg_design(tier):
    return {"type": "mc", "module": "MCDG", "timeout": 850,
            "cfg": DG_CFG % ("Free", 0, "FALSE", 1,
                             "VIEW FreeView\nINVARIANTS Joined Consecutive\n"
                             "PROPERTIES Refused LastGiven Kept")}


DATA = [{}, {"a": 1}, {"b": {"c": [1, 2]}, "a": None}, {"": ""}, {"cost": 0.5, "token": "a"}]


def dg_op(rng, op):
    """An abstract operation of MCDG with actual data."""
    if op[0] == "construct":
        order = list(range(len(op[2])))
        rng.shuffle(order)
        return ["construct", [DATA[k] for k in op[1]], [[h, t, rng.choice(DATA)] for h, t in op[2]],
                int(op[3]), order]
    if op[0] == "node":
        return ["node", op[1], rng.randrange(50) if op[1] == "bad" else DATA[op[2]]]
    if op[0] in ("edge", "odd"):
        return ["edge"] + op[1:4] + [rng.randrange(50) if op[3] == "bad" else DATA[op[4]]]
    return op


def gen_dg(rng, tier, rnd, work):
    import json
    import orchestrate
    from genlife import HIST
    hs = []
    quick = tier == "quick"
    todo = [(2, 2, [])] if rnd == 0 else []
    todo.append((12, 4, ["-simulate", "num=%d" % (1200 if quick else 4000), "-depth", "15", "-seed",
                         str(rng.randrange(10 ** 6))]))
    if rnd == 0 and not quick:
        todo.append((3, 2, []))
    for depth, nodes, extra in todo:
        rc, out, _, _ = orchestrate.tlc("MCDG", DG_CFG % ("Spec", depth, "TRUE", nodes, ""), work,
                                        workers=1, timeout=300, extra=extra)
        got = [json.loads(json.loads('"' + h + '"')) for h in HIST.findall(out)]
        if rc != 0 or not got:
            raise orchestrate.CheckError("no histories from MCDG: " + out[-2000:])
        hs += got
    out = []
    for h in hs:
        ops = [dg_op(rng, op) for op in h]
        if rng.random() < 0.5:
            for _ in range(rng.randint(1, 3)):
                k = rng.randint(1, len(ops))
                ops.insert(k, [rng.choice(["touch", "touchedge"]), rng.randrange(8), rng.randrange(9)])
        if rng.random() < 0.2:
            ops += [["edge", rng.randrange(12), rng.randrange(12), "data", rng.choice(DATA)]
                    for _ in range(20)]
            for _ in range(10):
                ops.insert(rng.randint(1, len(ops)), ["node", "default", {}])
        out.append({"kind": "dg", "ops": ops})
    for n, listed in ((70, 0), (70, 1), (150, 0)):  # larger graphs
        pairs = [(h, (h * 7) % n) for h in range(n)] + gen.pick(
            rng, [(h, t) for h in range(n) for t in range(n) if t != (h * 7) % n], n)
        given = [[h, t, rng.choice(DATA)] for h, t in pairs]
        order = list(range(len(given)))
        rng.shuffle(order)
        ops = [["construct", [rng.choice(DATA) for _ in range(n)], given, listed, order]]
        for _ in range(12):
            ops.append(["edge", rng.randrange(n + 2), rng.randrange(n + 2), "data", rng.choice(DATA)])
            if rng.random() < 0.4:
                ops.append(["node", "data", rng.choice(DATA)])
        out.append({"kind": "dg", "ops": ops})
    return out


def cov_design(tier):
    return {"type": "mc", "module": "MCCoverage", "timeout": 850, "cfg": """SPECIFICATION Spec
CONSTANTS
  MaxRules = %d
  MaxLen = 2
  MaxOps = 3
INVARIANTS Banded Decided Cleared Quietly Grows MatchedAll LedTo
CHECK_DEADLOCK FALSE
""" % (3 if tier == "thorough" else 2)}
