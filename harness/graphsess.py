"""Sessions about the search graph (C18), coverage (C19) and directed graphs (C20)."""
import copy
import json

from sessions import D, KINDS, call, cps, Names, index_in, matches, build_gt
import life

from graphtransliterator import CoverageTransliterator, DirectedGraph, GraphTransliterator

CONS = ("prev_classes", "prev_tokens", "next_tokens", "next_classes")


def project_graph(node, edge, edge_list, nm, costs):
    """Nodes and edges as arrays; keys are 1-based; costs is a list to rank into."""
    def tk(x):
        return nm.t.get(x, -1)

    nodes, edges = [], []
    for nd in node:
        oc = nd.get("ordered_children") or {}
        nodes.append({
            "ty": {"Start": 0, "token": 1, "rule": 2}.get(nd.get("type"), 9),
            "tok": tk(nd["token"]) if "token" in nd else 0,
            "rule": nd["rule_key"] + 1 if isinstance(nd.get("rule_key"), int) else 0,
            "acc": int(bool(nd.get("accepting"))),
            "oc": [{"k": 0 if k == "__rules__" else tk(k), "c": [int(x) + 1 for x in v]}
                   for k, v in oc.items()]})
    for h, tails in edge.items():
        for t, d in tails.items():
            c = d.get("constraints") or {}
            edges.append({"h": int(h) + 1, "t": int(t) + 1, "cost": len(costs),
                          "pc": nm.clss(c.get("prev_classes")), "pt": nm.toks(c.get("prev_tokens")),
                          "nt": nm.toks(c.get("next_tokens")), "nc": nm.clss(c.get("next_classes")),
                          "odd": int(any(k not in CONS for k in c))})
            x = d.get("cost")
            costs.append(x if isinstance(x, (int, float)) else -1.0)
    return {"nodes": nodes, "edges": edges,
            "el": [[int(a) + 1, int(b) + 1] for a, b in edge_list]}


def rank_all(costs):
    """Ranks, treating numbers that differ by rounding as equal."""
    ys = sorted(set(costs))
    rank, out, prev, n = {}, [], None, 0
    for y in ys:
        if prev is None or y - prev > 1e-12:
            n += 1
        rank[y] = n
        prev = y
    return [rank[c] for c in costs]


def graph_event(how, gt, nm, dumped):
    rules = gt.rules
    costs = [r.cost for r in rules]
    n = len(costs)
    if dumped:
        g = gt.dump()["graph"]
        if dumped == 2:
            g = json.loads(json.dumps(g))
        p = project_graph(g["node"], g["edge"], g["edge_list"], nm, costs)
    else:
        g = gt.graph
        p = project_graph(list(g.node), dict(g.edge), list(g.edge_list), nm, costs)
    rk = rank_all(costs)
    for e in p["edges"]:
        e["cost"] = rk[e["cost"]]
    p["rcost"] = rk[:n]
    p["rules"] = [nm.rule(r) for r in rules]
    p.update(op="graph", how=how, st="ok")
    return p


def graph_session(w):
    g = w["cfg"]
    nm = Names(g)
    out = {"kind": "graph", "ev": []}
    gt = build_gt(g)
    objs = [gt]
    for op in w["ops"]:
        o = objs[op[1] % len(objs)] if len(op) > 1 else gt
        if op[0] == "graph":
            st, ev, _ = call(graph_event, op[0], o, nm, op[2])
            if st != "ok":
                ev = {"op": "graph", "st": st, "nodes": [], "edges": [], "el": [], "rcost": [],
                      "rules": [], "how": repr(ev)[:200]}
            out["ev"].append(ev)
        elif op[0] == "load":
            st, v, _ = call(lambda: GraphTransliterator.loads(o.dumps(compression_level=op[2])))
            if st == "ok":
                objs.append(v)
        elif op[0] == "loaddata":
            st, v, _ = call(lambda: GraphTransliterator.load(o.dump(compression_level=op[2])))
            if st == "ok":
                objs.append(v)
        elif op[0] == "prune":
            st, v, _ = call(o.pruned_of, op[2])
            if st == "ok":
                objs.append(v)
        elif op[0] == "cover":
            st, v, _ = call(coverage_of, o)
            if st == "ok":
                objs.append(v)
        elif op[0] == "run":
            call(o.transliterate, op[2])
            call(o.tokenize, op[2])
    return out


KINDS["graph"] = graph_session


# ------------------------------ coverage ------------------------------------------


def coverage_of(gt):
    return CoverageTransliterator(
        gt.tokens, gt.rules, gt.whitespace, onmatch_rules=gt.onmatch_rules,
        metadata=gt.metadata, ignore_errors=gt.ignore_errors, check_ambiguity=False,
        onmatch_rules_lookup=gt.onmatch_rules_lookup, tokens_by_class=gt.tokens_by_class,
        graph=gt.graph, tokenizer_pattern=gt.tokenizer_pattern)


def identities(gt, nm):
    """Node key -> {q: token path, k: rule}."""
    g = gt.graph
    out = {0: {"q": [], "k": 0}}
    heads = {}
    for h, tails in g.edge.items():
        for t in tails:
            heads[int(t)] = int(h)
    for k, nd in enumerate(g.node):
        path, x, rule = [], k, 0
        if nd.get("type") == "rule":
            rule = nd["rule_key"] + 1
            x = heads[k]
        n = 0
        while x != 0 and n < 1000:
            path.insert(0, nm.t.get(list(g.node)[x]["token"], -1))
            x = heads[x]
            n += 1
        out[k] = {"q": path, "k": rule}
    return out, heads


def cov_session(w):
    g = w["cfg"]
    nm = Names(g)
    gt = build_gt(g, w.get("how", "dict"), ignore_errors=bool(w["ign"]))
    ids, heads = identities(gt, nm)
    cov = coverage_of(gt)
    twin = build_gt(g, ignore_errors=bool(w["ign"]))
    out = {"kind": "cov", "cfg": D.abstract_cfg(g), "ign": int(w["ign"]), "ev": []}
    res = life.Intern()
    others = []

    def visited():
        """Keys of visited nodes, tails of visited edges, on match rules."""
        graph = cov.graph
        nodes = sorted(graph.node.visited)
        tails = sorted((int(h), int(t)) for h in graph.edge.data for t in graph.edge.data[h].visited)
        om = sorted(k + 1 for k in cov.onmatch_rules.visited)
        vn = [ids.get(k, {"q": [-1], "k": -1}) for k in nodes]
        ve = [ids[t] if t in ids and heads.get(t) == h else {"q": [-1], "k": -1} for h, t in tails]
        return {"vn": vn, "ve": ve, "vo": om}

    out["hasv"] = 1
    try:
        visited()
    except AttributeError:
        out["hasv"] = 0
    out["allfirst"] = visited() if out["hasv"] else {"vn": [], "ve": [], "vo": []}
    for op in w["ops"]:
        o = op[0]
        ev = {"op": o, "st": "ok", "x": [], "ts": [], "i": 0, "all": 0, "rk": [], "best": [],
              "same": 1, "v": 0, "tkst": "ok"}
        if o == "run":
            ev["x"] = cps(op[1])
            tkst, ts, _ = call(twin.tokenize, op[1])
            st, v, nw = call(cov.transliterate, op[1])
            st2, v2, nw2 = call(twin.transliterate, op[1])
            same = st == st2 and nw == nw2 and (st != "ok" or v == v2)
            if st == "ok" and st2 == "ok":
                ev["rk"] = [index_in(cov.rules, r) for r in cov.last_matched_rules]
                same = same and ev["rk"] == [index_in(twin.rules, r) for r in twin.last_matched_rules]
            ev.update(st=st, same=int(same), tkst=tkst, ts=nm.toks(ts) if tkst == "ok" else [])
            if tkst == "ok":
                _, ev["best"], _ = matches(twin, ts)
        elif o == "tok":
            ev["x"] = cps(op[1])
            r1, r2 = call(cov.tokenize, op[1]), call(twin.tokenize, op[1])
            ev["same"] = int(r1[0] == r2[0] and (r1[0] != "ok" or r1[1] == r2[1]))
        elif o == "ma":
            toks = [g["tok"][k - 1] for k in op[1]]
            ev.update(ts=op[1], i=op[2] + 1, all=int(op[3]))
            st, v, _ = call(cov.match_at, op[2], toks, match_all=bool(op[3]))
            st2, v2, _ = call(twin.match_at, op[2], toks, match_all=bool(op[3]))
            ev.update(st=st, same=int(st == st2 and (st != "ok" or v == v2)))
            if st == "ok":
                ev["rk"] = [k + 1 for k in v] if op[3] else [] if v is None else [v + 1]
        elif o == "clear":
            ev["st"] = call(cov.clear_visited)[0]
        elif o in ("check", "checkquiet"):
            st, v, _ = call(cov.check_coverage, raise_exception=o == "check")
            ev.update(st=st, v=int(bool(v)) if st == "ok" else 0)
        elif o in ("gcheck", "gcheckquiet"):
            st, v, _ = call(cov.graph.check_coverage, *([] if o == "gcheck" else [False]))
            ev.update(st=st, v=int(bool(v)) if st == "ok" else 0)
        elif o in ("omcheck", "omcheckquiet"):
            st, v, _ = call(cov.check_onmatchrules_coverage, raise_exception=o == "omcheck")
            ev.update(st=st, v=int(bool(v)) if st == "ok" else 0)
        elif o == "dump":
            ev["st"] = call(lambda: (cov.dump(compression_level=op[1]),
                                     cov.dumps(compression_level=op[1])))[0]
        elif o == "prune":
            st, v, _ = call(cov.pruned_of, op[1])
            ev["st"] = st
            if st == "ok":
                others.append(v)
        elif o == "useother":
            for v in others + [gt, twin]:
                call(v.transliterate, op[1])
                call(v.dump)
        elif o == "read":
            def read():
                return ([r.production for r in cov.rules], cov.productions, cov.tokens,
                        [r.production for r in cov.onmatch_rules], cov.metadata,
                        cov.whitespace, cov.onmatch_rules_lookup, cov.tokens_by_class,
                        cov.graph.edge_list, len(cov.graph.node), [n for n in cov.graph.node],
                        [h for h in cov.graph.edge], [h for h in cov.graph.edge.items()],
                        len(cov.onmatch_rules), cov.last_matched_rules)
            ev["st"] = call(read)[0]
        ev.update(visited() if out["hasv"] else {"vn": [], "ve": [], "vo": []})
        out["ev"].append(ev)
    return out


KINDS["cov"] = cov_session


# ------------------------------ directed graphs -------------------------------------


class Weird(dict):
    pass


VALUES = {
    "T": True, "F": False, "N": None, "s": "0", "f": 0.0, "f1": 1.0, "l": [], "t": (0, 1),
    "neg": -1, "big": 10 ** 30, "neg2": -2, "i0": 0,
}
BADDATA = [[], [["a", 1]], "x", 1, 0, "", (), True, False, 1.5, [("a", 1)], {1, 2}]


def dg_session(w):
    out = {"kind": "dg", "ev": []}
    data = life.Intern()
    graph = None

    def did(x):
        return data(json.dumps(x, sort_keys=True)) if isinstance(x, dict) else -1

    def state():
        return {"nn": [did(x) for x in graph.node],
                "ee": [[h, t, did(x)] for h in graph.edge for t, x in graph.edge[h].items()],
                "el": [list(x) for x in graph.edge_list],
                "elt": int(all(type(x) is tuple for x in graph.edge_list))}

    def whole():
        """All there is to see, edge maps without edges too."""
        if graph is None:
            return None
        return repr(([did(x) for x in graph.node], sorted((h, sorted(ts)) for h, ts in graph.edge.items()),
                     list(graph.edge_list)))

    for op in w["ops"]:
        o = op[0]
        was = call(whole)[:2]
        ev = {"op": o, "st": "ok", "h": 0, "t": 0, "d": 0, "ok": 1, "rk": -1, "rd": 0, "same": 1,
              "nodes": [], "edges": [], "ell": []}
        if o == "new":
            st, graph2, _ = call(DirectedGraph)
            graph = graph2
            ev["st"] = st
        elif o == "construct":
            nodes = [dict(x) for x in op[1]]
            edges = {}
            for h, t, d in op[2]:
                edges.setdefault(h, {})[t] = dict(d)
            kw = {}
            if op[3]:
                kw["edge_list"] = [(h, t) for h, t, _ in
                                   [op[2][k] for k in op[4]]]
            st, graph2, _ = call(DirectedGraph, node=nodes, edge=edges, **kw)
            ev["st"] = st
            ev["nodes"] = [did(x) for x in nodes]
            ev["edges"] = [[h, t, did(d)] for h in edges for t, d in edges[h].items()]
            if st == "ok":
                graph = graph2
        elif o == "node":
            args = []
            if op[1] == "default":
                ev["d"] = did({})
            elif op[1] == "none":
                args, ev["d"] = [None], did({})
            elif op[1] == "data":
                args, ev["d"] = [dict(op[2])], did(op[2])
            else:
                ev["ok"] = 0
                args = [BADDATA[op[2] % len(BADDATA)]]
            st, v, _ = call(graph.add_node, *args)
            ev["st"] = st
            if st == "ok" and isinstance(v, tuple) and len(v) == 2:
                ev["rk"], ev["rd"] = (v[0] if isinstance(v[0], int) else -2), did(v[1])
                ev["same"] = int(0 <= ev["rk"] < len(graph.node) and graph.node[v[0]] is v[1])
        elif o == "edge":
            n = len(graph.node)
            h, t = op[1], op[2]
            bad = 0
            vals = []
            for x in (h, t):
                if isinstance(x, str):
                    vals.append(VALUES[x] if x != "n" else n)
                    if x == "i0":
                        bad |= int(n == 0)
                    else:
                        bad = 1
                else:
                    vals.append(x)
                    bad |= int(not 0 <= x < n)
            args = []
            if op[3] == "default":
                ev["d"] = did({})
            elif op[3] == "none":
                args, ev["d"] = [None], did({})
            elif op[3] == "data":
                args, ev["d"] = [dict(op[4])], did(op[4])
            else:
                bad = 1
                args = [BADDATA[op[4] % len(BADDATA)]]
            ev["ok"] = 1 - bad
            if not bad:
                ev["h"], ev["t"] = vals
            st, v, _ = call(graph.add_edge, vals[0], vals[1], *args)
            ev["st"] = st
            if st == "ok":
                ev["rd"] = did(v)
                if not bad:
                    ev["same"] = int(graph.edge.get(vals[0], {}).get(vals[1]) is v)
        elif o == "touch":
            # data returned by an addition is that of the graph, and of it alone
            if graph.node:
                k = op[1] % len(graph.node)
                graph.node[k]["touched"] = op[2]
                ev["h"], ev["d"] = k, did(graph.node[k])
            else:
                ev["op"] = "noop"
        elif o == "touchedge":
            es = [(h, t) for h in graph.edge for t in graph.edge[h]]
            if es:
                h, t = es[op[1] % len(es)]
                graph.edge[h][t]["touched"] = op[2]
                ev["h"], ev["t"], ev["d"] = h, t, did(graph.edge[h][t])
            else:
                ev["op"] = "noop"
        st, more, _ = call(state)
        ev["ss"] = st
        ev["kept"] = int(ev["st"] == "ok" or call(whole)[:2] == was)
        ev.update(more if st == "ok" else {"nn": [], "ee": [], "el": [], "elt": 0})
        out["ev"].append(ev)
    return out


KINDS["dg"] = dg_session
