"""Workloads of live transliterators: histories generated by TLC from spec/MCLife.tla."""
import json
import re

import gen

HIST = re.compile(r'^"HIST (.*)"$', re.M)
CFG = """SPECIFICATION Spec
CONSTANTS
  Bases = {1, 2}
  Prods = {1, 2}
  Inputs = {1, 2}
  Levels = {0, 1, 2}
  MaxObjs = 6
  MaxDocs = 3
  Depth = %d
  Emitting = %s
  MaxBuilds = 2
  Ops = {%s}
INVARIANTS Functional Grounded
%s
CHECK_DEADLOCK FALSE
"""


ALL = "build dump redump baddump load prune set run tok mat".split()
FOCUS = {"C12": "build dump load baddump".split(), "C13": "build dump load set".split(),
         "C17": "build prune set run".split(), "C24": "build dump redump load".split(),
         "C08": ALL}


def ops(names):
    return ", ".join('"%s"' % n for n in sorted(set(names)))


def design(tier):
    return {"type": "mc", "module": "MCLife", "timeout": 850,
            "cfg": CFG % (4 if tier == "thorough" else 3, "FALSE", ops(ALL), "PROPERTY Unaffected")}


def version_design(tier):
    return {"type": "mc", "module": "MCVersion", "timeout": 850, "cfg": """SPECIFICATION Spec
CONSTANTS
  Parts = {%s}
  MaxLen = %d
INVARIANTS Total Irreflexive Transitive
CHECK_DEADLOCK FALSE
""" % (("0, 1, 2, 10", 3) if tier == "thorough" else ("0, 1, 10", 3))}


METAS = [None, {"name": "x"}, {"author": "A \u0905", "n": [1, 2.5, None, True], "d": {"a": {"b": []}}},
         {"": "", "k": 0, "z": False}, {"version": "1.0", "tokens": ["a"]},
         {"a": None, "b": "", "c": [], "d": {}, "e": 0, "x": [None]}, {}]


def base(rng):
    kw = {"nrules": rng.choice([0, 2, 4, 7])}
    if rng.random() < 0.5:
        kw["nom"] = rng.randint(1, 3)
    if rng.random() < 0.1:
        kw["maxpart"] = 3
    g = gen.config(rng, **kw)
    if rng.random() < 0.15:
        gen.add_long_rules(rng, g)
    elif rng.random() < 0.1:
        gen.add_bush(rng, g)
    m = rng.choice(METAS)
    if m is not None:
        g["meta"] = m
    gen.bare(rng, g)
    if not g["rules"]:
        g["groups"] = [["none"], [""]]
        g["xs"] = [gen.input_text(rng, g, 0.3, rng.choice([3, 6])) for _ in range(2)]
        return g
    if rng.random() < 0.3:  # a production inside another, and shared productions
        r = rng.choice(g["rules"])
        q = rng.choice(g["rules"])
        q["p"] = r["p"] + "x"
    if rng.random() < 0.3:
        rng.choice(g["rules"])["p"] = rng.choice(g["rules"])["p"]
    ps = list(dict.fromkeys(r["p"] for r in g["rules"]))
    g["groups"] = []
    for _ in range(2):
        n = rng.choice([1, 1, 1, 2, 3])
        grp = gen.pick(rng, ps, n)
        if rng.random() < 0.2:
            grp = [rng.choice(["nothing", "", "ABAB", ps[0] + ps[-1]])]
        g["groups"].append(grp)
    g["xs"] = [gen.input_text(rng, g, 0.3, rng.choice([3, 6, 9])) for _ in range(2)]
    return g


def grown(rng, what):
    """A configuration of unusual size."""
    g, xs = gen.large(rng, what)
    ps = list(dict.fromkeys(r["p"] for r in g["rules"]))
    g["groups"] = [gen.pick(rng, ps, rng.choice([1, 2, 20, 60])) for _ in range(2)]
    g["xs"] = [x[:150] for x in rng.sample(xs, 2)]
    return g


def sibling(rng, a, kinds=None):
    """Another configuration that differs from a in one or two respects only."""
    import copy
    g = copy.deepcopy(a)
    nc, nt = len(g["cls"]), len(g["tok"])
    if not g["rules"]:
        g["rules"] = [{"p": "", "pc": [], "pt": [], "t": [1], "nt": [], "nc": []}]
        return g
    for _ in range(rng.choice([1, 1, 2])):
        r = rng.choice(g["rules"])
        what = rng.choice(kinds or [
            "context", "context", "classes", "onmatch", "consol", "order", "production",
            "meta", "drop", "default", "omp", "tok"])
        if what == "context":
            k = rng.choice(["pc", "nc", "pt", "nt"])
            n = nc if k in ("pc", "nc") else nt
            full = [(q, x) for q in g["rules"] for x in ("pc", "nc", "pt", "nt") if q[x]]
            if full and n > 1 and rng.random() < 0.5:  # another context of the same size
                q, x = rng.choice(full)
                was = list(q[x])
                while q[x] == was:
                    q[x][rng.randrange(len(was))] = rng.randint(1, nc if x in ("pc", "nc") else nt)
                    if (nc if x in ("pc", "nc") else nt) < 2:
                        break
                g["near"] = q
            elif r[k] and rng.random() < 0.5:
                r[k] = r[k][1:]
            else:
                r[k] = [rng.randint(1, nc if k in ("pc", "nc") else nt)] + r[k]
        elif what == "classes":
            k, c = rng.randrange(nt), rng.randrange(nc)
            if c != g["wc"] - 1:
                g["cm"][k][c] = 1 - g["cm"][k][c]
                if not any(row[c] for row in g["cm"]):
                    g["cm"][k][c] = 1
        elif what == "onmatch":
            g["om"] = g["om"][1:] if g["om"] and rng.random() < 0.5 else g["om"] + [
                {"pc": [rng.randint(1, nc)], "nc": [rng.randint(1, nc)], "p": "/"}]
        elif what == "omp" and g["om"]:
            rng.choice(g["om"])["p"] += "'"
        elif what == "consol":
            g["wk"] = 1 - g["wk"]
        elif what == "order":
            rng.shuffle(g["rules"])
        elif what == "production":
            r["p"] += "!"
        elif what == "meta":
            g["meta"] = {"other": 1}
        elif what == "drop" and len(g["rules"]) > 1:
            g["rules"].remove(r)
        elif what == "default":
            g["wd"] = rng.choice(gen.members(g, g["wc"]))
        elif what == "tok":
            g["tok"][rng.randrange(nt)] += "z"
            if len(set(g["tok"])) < nt:
                return sibling(rng, a, kinds)
    near = g.pop("near", None)
    if near and rng.random() < 0.8:  # places where that rule applies, and applied before
        old = a["rules"][g["rules"].index(near)] if near in g["rules"] and len(a["rules"]) == len(g["rules"]) else near
        g["xs"] = [gen.text_of(g, gen.spell(rng, g, near)), gen.text_of(g, gen.spell(rng, g, old))]
    elif rng.random() < 0.5:
        g["xs"] = [gen.input_text(rng, g, 0.3, 6), a["xs"][1]]
    return g


def histories(work, seed, num, depth, names=ALL):
    import orchestrate
    rc, out, gens, dist = orchestrate.tlc(
        "MCLife", CFG % (depth, "TRUE", ops(names), ""), work, workers=1, timeout=300,
        extra=["-simulate", "num=%d" % num, "-depth", str(depth + 3), "-seed", str(seed)])
    hs = [json.loads(json.loads('"' + h + '"')) for h in HIST.findall(out)]
    if rc != 0 or len(hs) != num:
        raise orchestrate.CheckError("no histories from MCLife: %s" % out[-2000:])
    return hs


def redumped(rng, h, p=0.4):
    """Now and then, dump an object, change its error setting, and dump it alike again."""
    h = list(h)
    n = sum(op[0] in ("build", "load", "prune") for op in h)
    d = sum(op[0] == "dump" for op in h)
    if n and rng.random() < p:
        k, lev, form = rng.randint(1, n), rng.choice([0, 1, 2]), rng.choice(["data", "text"])
        first = rng.randint(0, 1)
        h += [["set", k, first], ["dump", k, lev, form], ["set", k, 1 - first], ["dump", k, lev, form],
              ["load", d + 2, 2, 2], ["load", d + 1, 2, 2]]
    return h


def shifted(h, n):
    """The history after n other objects were made."""
    return [[op[0], op[1] + n] + op[2:] if op[0] in ("dump", "redump", "baddump", "set", "prune", "run", "tok", "mat")
            else op for op in h]


def census(h):
    """Afterwards, use every object, and its twin built afresh, on every input."""
    objs, docs = [], []
    for op in h:
        o = op[0]
        if o == "build":
            objs.append((op[1], tuple(sorted(op[3])), op[4]))
        elif o == "dump":
            docs.append(objs[op[1] - 1])
        elif o == "load":
            b, gone, ign = docs[op[1] - 1]
            objs.append((b, gone, ign if op[2] == 2 else op[2]))
        elif o == "prune":
            b, gone, ign = objs[op[1] - 1]
            objs.append((b, tuple(sorted(set(gone) | set(op[2]))), ign))
        elif o == "set":
            b, gone, _ = objs[op[1] - 1]
            objs[op[1] - 1] = (b, gone, op[2])
    out = list(h)
    for t in dict.fromkeys(objs):
        out.append(["build", t[0], 0, list(t[1]), t[2], 0])
        objs.append(t)
    for k in range(1, len(objs) + 1):
        for x in (1, 2):
            out.append(["run", k, x])
    return out


def gen_life(prop, num, depth):
    def f(rng, tier, rnd, work):
        n = num if tier == "quick" else num * 4
        d = depth + (rnd % 3) * 4
        out = []
        for names in (ALL, FOCUS[prop]):
            for h in histories(work, rng.randrange(1 << 30), n // 2, d, names):
                a = base(rng)
                b = sibling(rng, a) if rng.random() < 0.5 else base(rng)
                out.append({"kind": "life", "cfgs": [a, b], "hist": census(redumped(rng, h)),
                            "badlev": rng.choice([3, -1, 4, 10, 2.5, "2"])})
        if prop == "C08":  # alike ones, also built alone
            for h in histories(work, rng.randrange(1 << 30), 16, 5, FOCUS[prop]):
                a = base(rng)
                while len(a["rules"]) < 2:
                    a = base(rng)
                hist = [["build", 1, 0, [], 0, 0], ["build", 2, 0, [], 1, 0]] + shifted(h, 2)
                out.append({"kind": "life", "badlev": 3,
                            "cfgs": [a, sibling(rng, a, rng.choice([["context"], ["classes"], None]))],
                            "hist": census(hist) + [["fresh", 1, 0], ["fresh", 2, 1]]})
        kinds = ["tokens", "rules", "totals", "onmatch", "real", "real"]
        for h, what in zip(histories(work, rng.randrange(1 << 30), len(kinds), d, FOCUS[prop]), kinds):
            out.append({"kind": "life", "cfgs": [grown(rng, what), base(rng)], "hist": census(redumped(rng, h)), "badlev": 3})
        return out
    return f


def versions(rng, lib):
    """Version strings around that of the library; no trailing zero parts beyond it."""
    v = list(lib)
    x = rng.random()
    if x < 0.15:
        pass
    elif x < 0.5:
        k = rng.randrange(len(v))
        v[k] = max(0, v[k] + rng.choice([-1, 1, 1, 7, 8, 9, 10, 98]))
        if rng.random() < 0.5:
            for j in range(k + 1, len(v)):
                v[j] = rng.choice([0, 1, v[j], 10])
    elif x < 0.65:
        v.append(rng.randint(1, 12))
    elif x < 0.8:
        v = [rng.choice([0, 1, 2, 3, 9, 10, 11, 100]) for _ in range(3)]
    elif x < 0.9:
        v = v[:-1] if v[-1] else v
    else:
        v = [rng.choice([0, 1, 2, 10]), rng.choice([0, 1, 2, 3, 10, 20]), rng.randint(1, 30)]
    while len(v) > 1 and v[-1] == 0 and v != list(lib) and len(v) > len(lib):
        v.pop()
    return v


DERIVED = ["onmatch_rules_lookup", "tokens_by_class", "graph", "tokenizer_pattern",
           "graphtransliterator_version", "metadata?", "ignore_errors", "cost", "edge_list"]


def gen_gate(rng, tier, rnd):
    out = []
    for _ in range(150 if tier == "quick" else 500):
        g = base(rng) if rng.random() < 0.97 else grown(rng, rng.choice(["rules", "onmatch", "real"]))
        ops = []
        for _ in range(rng.randint(2, 5)):
            ops.append(["ver", rng.random(), rng.choice([0, 1, 2]), rng.choice(["data", "text"]),
                        rng.randrange(1 << 30)])
        for _ in range(rng.randint(2, 6)):
            ops.append(["drop", [k for k in DERIVED if rng.random() < rng.choice([0.2, 0.5, 0.9])
                                 and not k.endswith("?")],
                        rng.choice(["data", "text"]), rng.choice([0, 1, 2]), rng.choice([0, 0, 1, 2])])
        if g["om"]:
            ops.append(["lookup", rng.choice(["data", "text"]), rng.randint(0, 2)])
        for _ in range(rng.randint(1, 4)):
            ops.append(["opt", rng.randint(0, 2), rng.choice(["data", "text"]), rng.randint(0, 1),
                        rng.randint(0, 2), rng.randint(0, 2)])
        rng.shuffle(ops)
        out.append({"kind": "gate", "cfg": g, "ops": ops})
    return out
