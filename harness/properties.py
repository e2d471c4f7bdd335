"""The parts (design models, trace workloads) that decide each property."""
import gen
import genbundled
import gencli
import genlife
import gengraph
import genescapes
import gennotation
import gensettings
import genthreads

MACHINE_INV = {
    "C01": ["TokensExact", "Spelling", "Ends"],
    "C02": ["TokensCorrect", "TokensExact", "Collapsed", "Ends"],
    "C03": ["BestApplied"],
    "C04": ["BestApplied"],
    "C05": ["Covered", "OutputIs", "AgreesWithReference"],
    "C06": ["FirstOnMatch", "OutputIs"],
    "C07": ["NoRaiseIfIgnored", "RaisesRight", "AgreesWithReference"],
}
#            rules, input, on-match lists
MACHINE_SIZE = {
    "C01": ((1, 3, 0), (1, 5, 0)), "C02": ((1, 3, 0), (1, 5, 0)),
    "C03": ((2, 3, 0), (3, 4, 0)), "C04": ((2, 3, 0), (3, 4, 0)), "C05": ((2, 3, 0), (2, 4, 1)),
    "C06": ((1, 3, 1), (2, 3, 2)), "C07": ((2, 3, 0), (3, 4, 0)),
}


def machine(prop, tier):
    r, n, o = MACHINE_SIZE[prop][tier == "thorough"]
    return {"type": "mc", "module": "MCMachine", "timeout": 850, "cfg": """SPECIFICATION Spec
CONSTANTS
  Cfg <- CfgDef
  MaxRules = %d
  MaxInput = %d
  OmLists = %d
INVARIANTS TypeOK %s
%s
CHECK_DEADLOCK FALSE
""" % (r, n, o, " ".join(MACHINE_INV[prop]), "PROPERTY Terminates" if prop == "C07" else "")}


# ------------------------------ runs (C01..C07, C25) --------------------------

PROFILE = {
    "C01": dict(errors=0.15, nrules=1, nom=0, p_off=0.75, tk=0.7),
    "C02": dict(errors=0.2, nrules=1, nom=0, p_off=0.15, tk=0.7, ws=3),
    "C03": dict(errors=0.05, rich=1.5, nom=0, tk=0.0, ma=0.6, long=0.15),
    "C04": dict(errors=0.05, rich=1.5, nom=0, tk=0.0, ma=0.8, long=0.15),
    "C05": dict(errors=0.1, tk=0.0, ma=0.0),
    "C06": dict(errors=0.1, tk=0.0, ma=0.0, nom=(1, 2, 3, 4, 6, 12)),
    "C07": dict(errors=0.8, tk=0.2, ma=0.0, toggles=True, uncovered=0.6),
    "C25": dict(errors=0.0, tk=0.0, ma=0.0, long=0.5, many=0.3, ops=1),
}


def gen_runs(prop, n):
    pf = PROFILE[prop]

    def f(rng, tier, rnd):
        out = []
        for _ in range(n if tier == "quick" else n * 3):
            kw = {}
            if "nrules" in pf:
                kw["nrules"] = rng.choice([0, pf["nrules"], 3])
            if "nom" in pf:
                kw["nom"] = rng.choice(pf["nom"]) if isinstance(pf["nom"], tuple) else pf["nom"]
            if "rich" in pf:
                kw["rich"] = rng.choice([0.7, 1.0, 1.5, 2.2])
            if "ws" in pf:
                kw["wstokens"] = rng.randint(1, pf["ws"])
            if "p_off" in pf:
                kw["consolidate"] = int(rng.random() >= pf["p_off"])
            if rng.random() < 0.1:
                kw["maxpart"] = 4
            if rng.random() < pf.get("many", 0.05):
                kw["nrules"] = rng.randint(30, 70)
            kw["nocover"] = rng.random() < pf.get("uncovered", 0.2)
            g = gen.config(rng, **kw)
            longs = None
            if rng.random() < pf.get("long", 0.04):
                longs = gen.add_long_rules(rng, g)
            elif rng.random() < 0.04:
                gen.add_bush(rng, g)
            else:
                gen.bare(rng, g)
            ign = int(rng.random() < (0.5 if pf["errors"] > 0.05 else 0.2))
            ops = [["build"]]
            for _ in range(pf.get("ops", rng.randint(2, 6))):
                if pf.get("toggles") and rng.random() < 0.3:
                    ign = int(rng.random() < 0.6)
                    ops.append(["ign", ign])
                if rng.random() < pf.get("ma", 0.1):
                    q = gen.token_seq(rng, g, rng.choice([3, 6, 9]))
                    if rng.random() < 0.15:
                        q = gen.cut_short(rng, g)
                    if longs and rng.random() < 0.7:
                        q = [longs[0]] * (longs[1] + rng.randint(-1, 5))
                    ops.append(["ma", gen.bounded(g, q)])
                else:
                    x = gen.input_text(rng, g, pf["errors"], rng.choice([3, 6, 9, 14]))
                    if rng.random() < 0.2:  # once more
                        x = rng.choice([o[1] for o in ops if o[0] in ("tk", "tr", "tg")] or [x])
                    if longs and rng.random() < 0.5:
                        x = g["tok"][longs[0] - 1] * (longs[1] + rng.randint(-1, 5))
                    if ign and pf.get("toggles") and rng.random() < 0.3:
                        # errors cease to be ignored during the call
                        ops.append(["tg", x, rng.randint(1, 3)])
                        continue
                    ops.append(["tk" if rng.random() < pf["tk"] else "tr", x])
            out.append({"kind": "run", "cfg": g, "ign": ops and int(rng.random() < 0.0) or 0,
                        "how": rng.choice(["dict"] * 6 + ["0", "1", "2", "c", "12"]),
                        "ops": ops})
            w = out[-1]
            w["ign"] = int(rng.random() < 0.4)
        for what in LARGE[prop]:
            g, xs = gen.large(rng, what)
            op = "tk" if prop in ("C01", "C02") else "tr"
            out.append({"kind": "run", "cfg": g, "ign": int(what == "errors"),
                        "how": rng.choice(["dict", "dict", "0", "1", "2"]),
                        "ops": [["build"]] + [[op, x] for x in xs]})
        return out
    return f


LARGE = {"C01": ["tokens", "tokens", "length", "vast", "real"], "C02": ["spaces", "spaces", "length", "real"],
         "C03": ["rules", "totals", "length", "real"], "C04": ["rules", "rules", "totals", "real"],
         "C05": ["length", "length", "rules", "real"], "C06": ["onmatch", "onmatch", "length", "real"],
         "C07": ["errors", "errors", "length", "real"], "C25": ["rules", "totals", "totals", "tokens", "real"]}


def runs(prop, n):
    return {"type": "trace", "name": "runs", "module": "TraceRun", "gen": gen_runs(prop, n)}


# ------------------------------ ambiguity (C10, C11) ---------------------------


def ambiguity(prop, tier):
    return {"type": "mc", "module": "MCAmbiguity", "timeout": 850, "cfg": """SPECIFICATION Spec
CONSTANTS
  MaxRules = %d
  Full = TRUE
INVARIANTS WindowsExact MustImpliesMay AlgorithmSound NeverUnjustified
CHECK_DEADLOCK FALSE
""" % (4 if tier == "thorough" else 3)}


def gen_amb(rng, tier, rnd):
    out = []
    for _ in range(900 if tier == "quick" else 2500):
        g = gen.amb_config(rng, big=rng.choice([0] * 40 + [1] * 10 + [2]))
        if rng.random() < 0.05:
            g = gen.amb_spread(rng)
        elif rng.random() < 0.1:
            g = gen.amb_long(rng)
        ops = [["dict", rng.choice([1, 2]), []]]
        if rng.random() < 0.3:
            ops.append([rng.choice(["dict", "load", "loads"]), 0, []])
        if rng.random() < 0.4:
            ops.append([rng.choice(["load", "loads"]), rng.choice([1, 1, 2]), []])
        if rng.random() < 0.3:
            ops.append(["prune", rng.choice([0, 1]), [rng.choice(g["rules"])["p"]]])
        out.append({"kind": "amb", "cfg": g, "ops": ops, "level": rng.choice([0, 1, 2])})
    out.append(WINDOW_END)
    return out


def _r(p, t, nc):
    return {"p": p, "pc": [], "pt": [], "t": t, "nt": [], "nc": nc}


# The listed finding C10-window-end.
WINDOW_END = {"kind": "amb", "known": "C10-window-end", "ops": [["dict", 1, []]], "cfg": {
    "tok": ["a", "b", " "], "cls": ["c1", "c2", "all", "wb"],
    "cm": [[1, 1, 1, 0], [1, 0, 1, 0], [1, 1, 1, 1]], "om": [], "wd": 3, "wc": 4, "wk": 0,
    "rules": [_r("X", [1], [1]), _r("Y", [1], [2]), _r("Z", [1], [3, 3])]}}


def scope_sessions(n):
    """Small rule sets, every token sequence of up to four tokens."""
    def f(rng, tier, rnd):
        import itertools
        out = []
        seqs = [list(q) for k in range(1, 5) for q in itertools.product([1, 2, 3], repeat=k)]
        for _ in range(n if tier == "quick" else n * 4):
            cm = [[rng.randint(0, 1), rng.randint(0, 1), 0], [1, rng.randint(0, 1), 0],
                  [rng.randint(0, 1), 1, 1]]
            rules = []
            for k in range(rng.choice([2, 3, 3, 4, 5])):
                def part(p, m):
                    q = []
                    while rng.random() < p and len(q) < 3:
                        q.append(rng.choice(m))
                    return q
                rules.append({"p": "P%d" % k, "pc": part(0.3, [1, 2, 3]), "pt": part(0.25, [1, 2, 3]),
                              "t": [rng.choice([1, 1, 2])] + part(0.5, [1, 2]),
                              "nt": part(0.25, [1, 2, 3]), "nc": part(0.3, [1, 2, 3])})
            g = {"tok": ["a", "b", " "], "cls": ["c1", "c2", "wb"], "cm": cm, "rules": rules,
                 "om": [], "wd": 3, "wc": 3, "wk": 0}
            out.append({"kind": "run", "cfg": g, "ign": 0, "how": "dict",
                        "ops": [["build"]] + [["ma", [3] + q + [3]] for q in seqs]})
        return out
    return f


def search(tier):
    return {"type": "mc", "module": "MCSearch", "timeout": 850, "cfg": """SPECIFICATION Spec
CONSTANTS
  MaxRules = %d
  MaxLen = %d
INVARIANTS BestFound AllFound Once Descending VisitBand
PROPERTY Ends
CHECK_DEADLOCK FALSE
""" % ((3, 4) if tier == "thorough" else (2, 3))}


def parts(prop, tier):
    out = []
    if prop in MACHINE_INV:
        out.append(machine(prop, tier))
        out.append(runs(prop, 700))
        if prop in ("C03", "C04"):
            out.append(search(tier))
            out.append({"type": "trace", "name": "scope", "module": "TraceRun",
                        "gen": scope_sessions(60)})
    elif prop in ("C10", "C11"):
        out.append(ambiguity(prop, tier))
        out.append({"type": "trace", "name": "ambiguity", "module": "TraceAmb", "gen": gen_amb})
    elif prop == "C25":
        out.append({"type": "mc", "module": "MCOrder", "timeout": 850, "cfg": """SPECIFICATION Spec
CONSTANTS
  MaxRules = %d
  MaxSize = %d
INVARIANTS AsDefined Decreasing TiesKept EachOnce Costs
PROPERTY Ends
CHECK_DEADLOCK FALSE
""" % ((6, 5) if tier == "thorough" else (4, 4))})
        out.append(runs(prop, 500))
    elif prop in ("C08", "C12", "C13", "C17", "C24"):
        out.append(genlife.design(tier))
        out.append({"type": "trace", "name": "life", "module": "TraceLife", "wants_work": True,
                    "gen": genlife.gen_life(prop, 400, 9)})
        if prop == "C13":
            out.append(genlife.version_design(tier))
            out.append({"type": "trace", "name": "gate", "module": "TraceGate",
                        "gen": genlife.gen_gate})
    elif prop == "C18":
        out.append(search(tier))
        out.append({"type": "trace", "name": "graph", "module": "TraceGraph",
                    "gen": gengraph.gen_graph})
    elif prop == "C19":
        out.append(gengraph.cov_design(tier))
        out.append({"type": "trace", "name": "coverage", "module": "TraceCov",
                    "gen": gengraph.gen_cov})
    elif prop == "C20":
        out.append(gengraph.dg_design(tier))
        out.append({"type": "trace", "name": "digraph", "module": "TraceDG", "wants_work": True,
                    "gen": gengraph.gen_dg})
    elif prop == "C14":
        out.append(gensettings.design(tier))
        out.append({"type": "trace", "name": "settings", "module": "TraceSettings",
                    "gen": gensettings.gen_settings})
    elif prop == "C15":
        out.append(gennotation.design(tier))
        out.append({"type": "trace", "name": "notation", "module": "TraceNotation",
                    "gen": gennotation.gen_notation})
    elif prop == "C16":
        out.append(genescapes.design(tier))
        out.append({"type": "trace", "name": "escapes", "module": "TraceEscapes",
                    "gen": genescapes.gen_escapes})
    elif prop == "C21":
        out.append(genbundled.bundled_design(tier))
        out.append({"type": "trace", "name": "bundled", "module": "TraceBundled",
                    "gen": genbundled.gen_bundled})
    elif prop == "C22":
        out.append(gencli.design(tier))
        out.append({"type": "trace", "name": "cli", "module": "TraceCli", "gen": gencli.gen_cli})
        out.append({"type": "trace", "name": "make", "module": "TraceCli", "gen": gencli.gen_make})
    elif prop == "C09":
        out.append(genthreads.design(tier))
        out.append({"type": "trace", "name": "threads", "module": "TraceThreads",
                    "gen": genthreads.gen_threads})
    elif prop == "C23":
        out.append(genbundled.tests_design(tier))
        out.append({"type": "trace", "name": "tests", "module": "TraceTestGen",
                    "gen": genbundled.gen_tests})
    else:
        raise SystemExit("no check for " + prop)
    return out
