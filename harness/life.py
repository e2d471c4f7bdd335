"""Sessions with several live transliterators and dumps (C08, C12, C13, C17, C24)."""
import copy
import json
import os
import subprocess
import sys

from sessions import D, KINDS, call, cps, Names, index_in

import graphtransliterator
from graphtransliterator import GraphTransliterator

PLAIN = (str, int, float, bool, type(None))


def canon(x, loose=False):
    """A hashable canonical form; dictionary order does not matter."""
    if isinstance(x, dict):
        out = {}
        for k, v in x.items():
            if loose and k in ("tokens", "tokens_by_class") and isinstance(v, dict):
                v = {a: sorted(b) if isinstance(b, (list, tuple, set)) else b
                     for a, b in v.items()}
            out[str(k)] = json.loads(canon(v, loose))
        return json.dumps(out, sort_keys=True)
    if isinstance(x, (list, tuple)):
        return json.dumps([json.loads(canon(v, loose)) for v in x])
    if isinstance(x, (set, frozenset)):
        return json.dumps(sorted(x))
    if isinstance(x, PLAIN):
        return json.dumps(x)
    if hasattr(x, "data") and isinstance(x.data, (list, dict)):
        return canon(x.data, loose)
    return json.dumps(repr(x))


def plain(x):
    if isinstance(x, dict):
        return all(isinstance(k, (str, int)) and plain(v) for k, v in x.items())
    if isinstance(x, (list, tuple)):
        return all(plain(v) for v in x)
    return type(x) in PLAIN


class Intern:
    def __init__(self):
        self.ids = {}

    def __call__(self, x):
        return self.ids.setdefault(x, len(self.ids) + 1)


def rule_tuple(r):
    return canon([r.production, r.prev_classes or [], r.prev_tokens or [], r.tokens,
                  r.next_tokens or [], r.next_classes or []])


class Life:
    def __init__(self, w):
        self.w = w
        self.i = {k: Intern() for k in ("rules", "tok", "om", "ws", "meta", "extra",
                                        "res", "text", "norm", "rule")}
        self.rulelists = []
        self.objs, self.docs, self.inputs = [], [], []
        self.held = []
        self.ambmemo = {}

    def settings(self, b, v, gone):
        """Direct settings of a base, its tokens and their classes in one of two orders, some
        rules gone."""
        g = self.w["cfgs"][b - 1]
        s = D.direct_settings(g, order=(lambda q: list(reversed(q))) if v else None)
        if v:
            s["tokens"] = dict(reversed(list(s["tokens"].items())))
        prods = self.prods(b, gone)
        s["rules"] = [r for r in s["rules"] if r["production"] not in prods]
        return s

    def prods(self, b, gone):
        g = self.w["cfgs"][b - 1]
        return [p for k in gone for p in g["groups"][k - 1]]

    def amb(self, b, gone):
        key = (b, tuple(sorted(gone)))
        if key not in self.ambmemo:
            st, _, _ = call(GraphTransliterator.from_dict, self.settings(b, 0, gone),
                            check_ambiguity=True)
            self.ambmemo[key] = int(st == "ambiguous")
        return self.ambmemo[key]

    def project(self, gt):
        if gt is None:
            return {"rules": 0, "tok": 0, "om": 0, "ws": 0, "meta": 0, "ign": 0, "extra": 0}
        if isinstance(gt, dict):  # one of another process
            return gt

        def one():
            rules = [self.i["rule"](rule_tuple(r)) for r in gt.rules]
            n = len(self.i["rules"].ids)
            rid = self.i["rules"](canon(rules))
            if rid > n:
                self.rulelists.append({"r": rules, "p": [cps(r.production) for r in gt.rules]})
            om = gt.onmatch_rules
            om = [[o.prev_classes, o.next_classes, o.production] for o in om] if om else []
            lookup = gt.onmatch_rules_lookup
            return {
                "rules": rid,
                "tok": self.i["tok"](canon(sorted([t, sorted(c)] for t, c in gt.tokens.items()))),
                "om": self.i["om"](canon(om)),
                "ws": self.i["ws"](canon([gt.whitespace.default, gt.whitespace.token_class,
                                          bool(gt.whitespace.consolidate)])),
                "meta": self.i["meta"](canon(gt.metadata)),
                "ign": int(bool(gt.ignore_errors)),
                "extra": self.i["extra"](canon([
                    lookup if lookup is None else dict(lookup),
                    {c: sorted(t) for c, t in gt.tokens_by_class.items()},
                    gt.productions, gt.tokenizer_pattern]))}
        st, p, _ = call(one)
        return p if st == "ok" else {"rules": -1, "tok": -1, "om": -1, "ws": -1, "meta": -1,
                                     "ign": -1, "extra": -1}

    def use(self, kind, k, x):
        gt = self.objs[k - 1]["gt"]
        g = self.w["cfgs"][self.objs[k - 1]["b"] - 1]
        xs = g["xs"]
        x = xs[(x - 1) % len(xs)]
        if kind == "run":
            st, v, nw = call(gt.transliterate, x)
            if st == "ok":
                rules = gt.rules
                self.hold(gt.last_input_tokens)
                self.hold(gt.last_matched_rule_tokens)
                got = [st, v, nw, gt.last_input_tokens,
                       [index_in(rules, r) for r in gt.last_matched_rules],
                       gt.last_matched_rule_tokens]
            else:
                got = [st, nw]
        elif kind == "tok":
            st, v, nw = call(gt.tokenize, x)
            if st == "ok":
                self.hold(v)
            got = [st, v if st == "ok" else None, nw]
        else:
            st, v, _ = call(gt.tokenize, x)
            if st != "ok":
                v = list(gt.tokens)[:3]
            got = []
            for i in range(len(v)):
                for al in (False, True):
                    s, m, _ = call(gt.match_at, i, v, match_all=al)
                    if s == "ok" and al:
                        self.hold(m)
                    got.append([s, m if s == "ok" else None])
        return self.i["res"](canon(got))

    def dump(self, k, lev, form):
        gt = self.objs[k - 1]["gt"]
        st, v, _ = call(gt.dump if form == "data" else gt.dumps, compression_level=lev)
        if st != "ok":
            return st, None, None
        data = v if form == "data" else json.loads(v)
        ev = {"text": self.i["text"](json.dumps(v) if form == "data" else v),
              "norm": self.i["norm"](canon(data, True)),
              "ver": int(data.get("graphtransliterator_version") == graphtransliterator.__version__),
              "plain": int(plain(data) and (form == "data" or isinstance(v, str)))}
        return st, v, ev

    def guard(self, x):
        self.inputs.append((x, copy.deepcopy(x), json.dumps(x) if not isinstance(x, str) else x))

    def hold(self, x):
        """Remember a list the library handed out, and what it said then."""
        if isinstance(x, list) and len(self.held) < 4000:
            self.held.append((x, json.dumps(x)))

    def kept(self):
        """Whether every list handed out so far still says what it said then."""
        return int(all(json.dumps(x) == t for x, t in self.held))

    def intact(self):
        for x, y, t in self.inputs:
            if x != y or (not isinstance(x, str) and json.dumps(x) != t):
                return 0
        return 1

    def step(self, op):
        o = op[0]
        ev = {"op": o, "st": "ok", "o": 0, "d": 0, "x": 0, "rid": 0, "lev": 0, "form": "",
              "text": 0, "norm": 0, "ver": 1, "plain": 1, "amb": 0, "ign": 2, "chk": 2,
              "prods": [], "key": 0}

        def add(st, v, b, gone):
            ev["st"] = st
            self.objs.append({"gt": v if st == "ok" else None, "b": b, "gone": sorted(gone)})
        if o == "build":
            _, b, v, gone, ign, chk = op
            s = self.settings(b, v, gone)
            self.guard(s)
            ev.update(ign=ign, chk=chk, amb=self.amb(b, gone) if chk else 0,
                      key=self.i["res"](canon(["key", b, v, sorted(gone)])),
                      o=self.i["res"](canon(["key0", b, sorted(gone)])))
            kw = {}
            if ign or len(self.objs) % 2:
                kw["ignore_errors"] = bool(ign)
            st, gt, _ = call(GraphTransliterator.from_dict, s, check_ambiguity=bool(chk), **kw)
            add(st, gt, b, gone)
        elif o == "load":
            d = self.docs[op[1] - 1]
            ev.update(d=op[1], ign=op[2], chk=op[3])
            if d is None:
                ev["st"] = "skip"
                self.objs.append({"gt": None, "b": 1, "gone": []})
                return ev
            kw = {}
            if op[2] != 2:
                kw["ignore_errors"] = bool(op[2])
            if op[3] != 2:
                kw["check_ambiguity"] = bool(op[3])
            ev["amb"] = self.amb(d["b"], d["gone"]) if op[3] == 1 else 0
            f = GraphTransliterator.load if d["form"] == "data" else GraphTransliterator.loads
            st, gt, _ = call(f, d["v"], **kw)
            add(st, gt, d["b"], d["gone"])
        else:
            k = op[1]
            ev["o"] = k
            ob = self.objs[k - 1] if k <= len(self.objs) else None
            if ob is None or ob["gt"] is None:
                ev["st"] = "skip"
                if o == "dump":
                    self.docs.append(None)
                elif o == "prune":
                    self.objs.append({"gt": None, "b": 1, "gone": []})
                return ev
            gt = ob["gt"]
            if o in ("dump", "redump"):
                ev.update(lev=op[2], form=op[3])
                st, v, more = self.dump(k, op[2], op[3])
                ev["st"] = st
                if st == "ok":
                    ev.update(more)
                if o == "dump":
                    if st == "ok":
                        self.guard(v)
                        self.docs.append({"v": v, "b": ob["b"], "gone": ob["gone"], "form": op[3]})
                    else:
                        self.docs.append(None)
            elif o == "baddump":
                lev = self.w.get("badlev", 3)
                s1, _, _ = call(gt.dump, compression_level=lev)
                s2, _, _ = call(gt.dumps, compression_level=lev)
                ev["st"] = s1 if s1 == s2 else "ok"
            elif o == "set":
                gt.ignore_errors = bool(op[2])
                ev["ign"] = op[2]
            elif o == "prune":
                gone = sorted(set(ob["gone"]) | set(op[2]))
                ps = self.prods(ob["b"], op[2])
                ev["amb"] = self.amb(ob["b"], gone)
                if op[3] == "str" and len(ps) == 1:
                    arg = ps[0]
                else:
                    arg = ps
                    self.guard(arg)
                ev["prods"] = [cps(p) for p in ps]
                st, v, _ = call(gt.pruned_of, arg)
                add(st, v, ob["b"], gone)
            else:
                ev["x"] = op[2] + 100 * ["run", "tok", "mat"].index(o) + 1000 * ob["b"]
                ev["op"] = "use"
                ev["rid"] = self.use(o, k, op[2])
        return ev

    def fresh(self, op):
        """The events of building and using a transliterator in a process of its own."""
        _, b, ign = op
        k = len(self.objs) + 1
        hist = [["build", b, 0, [], ign, 0]] + [[o, 1, x] for o in ("run", "tok", "mat") for x in (1, 2)]
        given = {"w": {"cfgs": self.w["cfgs"], "hist": hist}, "rl": self.rulelists,
                 "ids": {n: list(i.ids) for n, i in self.i.items()}}
        p = subprocess.run([sys.executable, os.path.abspath(__file__)], input=json.dumps(given),
                           stdout=subprocess.PIPE, universal_newlines=True, check=True)
        got = json.loads(p.stdout)
        self.rulelists = got["rl"]
        for n, i in self.i.items():
            i.ids = {x: j for j, x in enumerate(got["ids"][n], 1)}
        before = [self.project(ob["gt"]) for ob in self.objs]
        self.objs.append({"gt": got["ev"][-1]["proj"][0], "b": b, "gone": []})
        for ev in got["ev"]:
            ev["proj"] = before + ev["proj"]
            if ev["op"] != "build":
                ev["o"] = k
        return got["ev"]

    def run(self):
        out = {"kind": "life", "ev": []}
        for op in self.w["hist"]:
            if op[0] == "fresh":
                out["ev"] += self.fresh(op)
                continue
            ev = self.step(op)
            ev["proj"] = [self.project(ob["gt"]) for ob in self.objs]
            ev["intact"] = self.intact()
            ev["kept"] = self.kept()
            out["ev"].append(ev)
        out["rl"] = self.rulelists
        return out


KINDS["life"] = lambda w: Life(w).run()


# ------------------------------ loading options ----------------------------------


def gate_session(w):
    import random
    import re
    import genlife
    g = w["cfg"]
    s = D.direct_settings(g)
    lib = [int(x) for x in re.findall(r"\d+", graphtransliterator.__version__)]
    ids, out = Intern(), {"kind": "gate", "lib": lib, "om": int(bool(g["om"])), "ev": []}
    plain_gt = {ign: GraphTransliterator.from_dict(s, check_ambiguity=False, ignore_errors=bool(ign))
                for ign in (0, 1)}
    st, _, _ = call(GraphTransliterator.from_dict, s, check_ambiguity=True)
    amb = int(st == "ambiguous")

    def behaviour(gt):
        got = []
        for x in g["xs"]:
            st, v, nw = call(gt.transliterate, x)
            got.append([st, v if st == "ok" else None, nw])
            st, v, nw = call(gt.tokenize, x)
            got.append([st, v if st == "ok" else None, nw])
        got.append([rule_tuple(r) for r in gt.rules])
        got.append([list(r)[:3] for r in gt.onmatch_rules] if gt.onmatch_rules else [])
        return ids(canon(got))

    ref = {ign: behaviour(plain_gt[ign]) for ign in (0, 1)}

    def load(doc, form, **kw):
        before = copy.deepcopy(doc)
        text = json.dumps(doc)
        if form == "data":
            r = call(GraphTransliterator.load, doc, **kw)
        else:
            r = call(GraphTransliterator.loads, text, **kw)
        same = doc == before and json.dumps(doc) == text
        return r[0], r[1], int(same)

    for op in w["ops"]:
        ev = {"op": op[0], "v": [], "want": 0, "rid": 0, "ign": 0, "got": 0, "amb": amb, "chk": 2}
        if op[0] == "ver":
            v = genlife.versions(random.Random(op[4]), lib)
            doc = copy.deepcopy(plain_gt[0].dump(compression_level=op[2]))
            wide = random.Random(op[4] + 1)  # leading zeros have no value
            doc["graphtransliterator_version"] = ".".join(
                str(x).zfill(wide.choice([1, 1, 1, 1, 2, 3, 4])) for x in v)
            ev["v"] = v
            ev["st"], gt, ev["intact"] = load(doc, op[3])
            ev["want"], ev["rid"] = ref[0], behaviour(gt) if ev["st"] == "ok" else 0
        elif op[0] in ("drop", "lookup"):
            ign = 1 if op[0] == "drop" and op[3] == 1 else 0
            doc = json.loads(json.dumps(plain_gt[ign].dump()))
            if op[0] == "lookup":
                del doc["onmatch_rules"]
                if op[2] == 1:
                    doc.pop("graph", None)
                drops = []
                if op[2] == 2:
                    doc["onmatch_rules"] = [] if op[1] == "data" else None
                form, kw = op[1], {}
            else:
                drops, form = op[1], op[2]
                kw = {} if op[4] == 0 else {"ignore_errors": op[4] == 2}
                for k in drops:
                    if k == "cost":
                        for r in doc["rules"]:
                            r.pop("cost", None)
                    elif k == "edge_list":
                        if "graph" in doc:
                            doc["graph"].pop("edge_list", None)
                    else:
                        doc.pop(k, None)
                if "ignore_errors" in drops:
                    ign = 0
                if op[4]:
                    ign = int(op[4] == 2)
            if form == "data" and "graph" in doc and drops != []:
                # as given by dump(): integer keys
                if "edge" in doc["graph"]:
                    doc["graph"]["edge"] = {int(h): {int(t): d for t, d in x.items()}
                                            for h, x in doc["graph"]["edge"].items()}
            ev["st"], gt, ev["intact"] = load(doc, form, **kw)
            ev["want"], ev["rid"] = ref[ign], behaviour(gt) if ev["st"] == "ok" else 0
        else:
            lev, form, was, ign, chk = op[1:]
            doc = plain_gt[was].dump(compression_level=lev)
            kw = {}
            if ign != 2:
                kw["ignore_errors"] = bool(ign)
            if chk != 2:
                kw["check_ambiguity"] = bool(chk)
            ev["ign"] = was if ign == 2 else ign
            ev["chk"] = chk
            ev["st"], gt, ev["intact"] = load(doc, form, **kw)
            if ev["st"] == "ok":
                ev["got"] = int(bool(gt.ignore_errors))
                ev["want"], ev["rid"] = ref[ev["ign"]], behaviour(gt)
        out["ev"].append(ev)
    return out


KINDS["gate"] = gate_session


if __name__ == "__main__":  # a part of a history in a process of its own
    import logging
    import signal
    signal.signal(signal.SIGPROF, D._alarm)
    logging.getLogger().addHandler(D._Handler())
    logging.getLogger().setLevel(logging.WARNING)
    given = json.load(sys.stdin)
    L = Life(given["w"])
    L.rulelists = given["rl"]
    for name, xs in given["ids"].items():
        L.i[name].ids = {x: j for j, x in enumerate(xs, 1)}
    ev = L.run()["ev"]
    json.dump({"ev": ev, "rl": L.rulelists, "ids": {n: list(i.ids) for n, i in L.i.items()}}, sys.stdout)
