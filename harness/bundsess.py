"""Sessions of bundled transliterators, generated tests and the command line."""
import os
import shutil
import unicodedata

import yaml

import sessions
import setsess

D = sessions.D
call, cps = D.call, D.cps
import graphtransliterator  # noqa
from graphtransliterator import GraphTransliterator  # noqa
from graphtransliterator.transliterators import Bundled  # noqa

COUNT = [0]


def scratch(name):
    """A new directory of that name."""
    COUNT[0] += 1
    d = os.path.join(os.environ.get("GT_SCRATCH", "/tmp"), "b%d" % COUNT[0], name)
    os.makedirs(os.path.join(d, "tests"))
    return d


def write(path, text):
    with open(path, "w", encoding="utf-8", newline="") as f:
        f.write(text)


def bundled_class(d, name):
    """A bundled transliterator whose files are in directory d."""

    class Scratch(Bundled):
        def __init__(self, **kw):
            self.from_JSON(**kw)

        def _module_dir(self, **kw):
            return d

        def _module_name(self, **kw):
            return name
    return Scratch


def testgen_session(w):
    g = w["cfg"]
    out = {"kind": "testgen", "cfg": D.abstract_cfg(g), "ev": []}
    for how, ign in w["ev"]:
        kw = {"ignore_errors": bool(ign)}
        gt = sessions.build_gt(g, **kw)
        d = None
        if how == "plain":
            st, text, _ = call(Bundled.generate_yaml_tests, gt)
        else:
            d = scratch("k")
            write(os.path.join(d, "k.json"), gt.dumps())
            st, gt, _ = call(bundled_class(d, "k").new, coverage=how == "coverage", **kw)
            if st == "ok":
                st, text, _ = call(gt.generate_yaml_tests)
        ev = {"ign": ign, "how": how, "st": st, "form": "ok", "tests": [], "run": "none"}
        if st == "ok":
            try:
                tests = yaml.safe_load(text)
                ok = isinstance(tests, dict) and all(
                    isinstance(k, str) and isinstance(v, str) for k, v in tests.items())
            except yaml.YAMLError:
                ok = False
            if not ok:
                ev["form"] = "not a map of strings"
            else:
                for x, y in tests.items():
                    s1, real, _ = call(gt.transliterate, x)
                    ev["tests"].append({"x": cps(x), "y": cps(y), "st": s1,
                                        "real": cps(real) if s1 == "ok" else []})
                if d is None:
                    ev["run"], _, _ = call(Bundled.run_tests, gt, tests)
                else:
                    write(os.path.join(d, "tests", "k_tests.yaml"), text)
                    ev["run"], v, _ = call(gt.run_yaml_tests)
                    if ev["run"] == "ok" and v is not True:
                        ev["run"] = "other:false"
        if d:
            shutil.rmtree(os.path.dirname(d))
        out["ev"].append(ev)
    return out


sessions.KINDS["testgen"] = testgen_session


# ------------------------------ bundled transliterators --------------------------

import graphtransliterator.transliterators as TR  # noqa

REAL = {1: TR.Example, 2: TR.ITRANSDevanagariToUnicode}
CODE = """from graphtransliterator.transliterators import Bundled
from collections import OrderedDict  # noqa
"""
CLASS = """

class %s(Bundled):
    ident = %d

    def __init__(self, **kwargs):
        self.from_%s(**kwargs)
"""


def easy_doc(p):
    g = p["cfg"]
    easy = {k: v for k, v in D.direct_settings(g).items() if k not in ("rules", "onmatch_rules")}
    easy["rules"] = {x: r["p"] for x, r in zip(p["spell"], g["rules"])}
    if g["om"]:
        easy["onmatch_rules"] = [{x: o["p"]} for x, o in zip(p["omspell"], g["om"])]
    return easy


class BundledSession:
    def __init__(self, w):
        COUNT[0] += 1
        self.w, self.k = w, COUNT[0]
        self.tag = "%d_%d" % (os.getpid(), self.k)
        self.root = os.path.join(os.environ.get("GT_SCRATCH", "/tmp"), "r" + self.tag)
        self.views, self.extra = [], sorted(set(TR.iter_names()))
        self.kept = {n: getattr(TR, n) for n in self.extra if n not in self.names().values()}
        self.xs = {}
        self.left = []

    def names(self):
        return {1: "Example", 2: "ITRANSDevanagariToUnicode", 0: "MetadataSchema"}

    def name(self, sym):
        if sym == -1:
            return "Bundled"
        if sym == -2:
            return "_Private"
        return self.names().get(sym) or "T%sx%d" % (self.tag, sym)

    def ident(self, c):
        for k, v in REAL.items():
            if c is v:
                return k
        return getattr(c, "ident", -1)

    def bound(self):
        """Registered names of interest, and how often a name is registered twice."""
        listed = [n for n in TR.iter_names() if n not in self.kept]
        back = {self.name(k): k for k in range(-2, 30)}
        b = [[back.get(n, -9), self.ident(getattr(TR, n, None))] for n in listed]
        lost = sum(1 for n, c in self.kept.items() if getattr(TR, n, None) is not c)
        all_ = list(TR.iter_names())
        return b + [[0, 0 if TR.MetadataSchema.__module__.startswith("graphtransliterator") else -1]], \
            len(all_) - len(set(all_)) + lost

    def add(self, d):
        pkgs, q = self.w["dirs"][d], []
        at = os.path.join(self.root, "d%d" % d)
        for n, p in enumerate(pkgs):
            mod = "example" if p.get("clash") else "gtp%s_%d_%d" % (self.tag, d, n)
            pd = os.path.join(at, mod)
            os.makedirs(os.path.join(pd, "tests"))
            code = CODE
            cs = sorted((self.name(sym), sym, c, how) for sym, c, how in p["classes"])
            for nm, sym, c, how in cs:
                if nm == "Bundled":
                    continue
                code += CLASS % (nm, c, how)
            entries = [[sym, c, int(bool(p.get("clash")))] for nm, sym, c, how in cs if sym >= 0]
            q += entries
            write(os.path.join(pd, "__init__.py"), code)
            text = yaml.safe_dump(easy_doc(p), allow_unicode=True, sort_keys=False)
            write(os.path.join(pd, mod + ".yaml"), text)
            gt = GraphTransliterator.from_yaml(text, check_ambiguity=False)
            write(os.path.join(pd, mod + ".json"), gt.dumps(compression_level=p["level"]))
        st, v, _ = call(TR.add_transliterators, path=[at])
        b, dups = self.bound()
        return {"op": "add", "q": q, "st": st, "bound": b, "dups": dups}

    def make(self, sym, how, kw):
        cls = getattr(TR, self.name(sym))
        if how == "ctor":
            return cls(**kw)
        if how == "iter":
            return next(x for x in TR.iter_transliterators(**kw) if type(x) is cls)
        return cls.new(**kw) if how == "json" and self.k % 2 else cls.new(method=how, **kw)

    def load(self, sym, how, wign, chk, cov, inputs):
        kw = {k: bool(v) for k, v in (("ignore_errors", wign), ("check_ambiguity", chk),
                                      ("coverage", cov)) if v != 2}
        cls = getattr(TR, self.name(sym), None)
        if cls is None:
            return None
        st, gt, _ = call(self.make, sym, how, kw)
        ev = {"op": "load", "c": self.ident(cls), "how": how, "st": st, "wign": wign, "chk": chk,
              "ign": 0, "view": 0, "runs": []}
        if st == "ok":
            f = setsess.fingerprint(gt)[:4]
            if f not in self.views:
                self.views.append(f)
            ev["view"] = self.views.index(f)
            ev["ign"] = int(bool(gt.ignore_errors))
            toks = sorted(gt.tokens)
            for x in inputs:
                x = "".join(toks[t % len(toks)] if isinstance(t, int) else t for t in x)
                n = self.xs.setdefault(x, len(self.xs))
                st, y, _ = call(gt.transliterate, x)
                ev["runs"].append({"x": n, "st": st, "y": cps(y) if st == "ok" else []})
            self.left.append(gt)  # a use that no later load may notice
            if len(self.left) % 2:
                gt.ignore_errors = not gt.ignore_errors
        return ev

    def tests(self, sym, how, ign, cov, given):
        """given: [input, how to expect] or None for its own."""
        kw = {"ignore_errors": bool(ign), "coverage": bool(cov), "check_ambiguity": False}
        cls = getattr(TR, self.name(sym), None)
        if cls is None:
            return None
        st, gt, _ = call(cls.new, method=how, **kw)
        if st != "ok":
            return {"op": "tests", "own": 1, "run": st, "cov": "none", "same": 1, "tests": []}
        ev = {"op": "tests", "own": int(given is None), "cov": "ok", "same": 1, "tests": []}
        if given is None:
            tests = gt.load_yaml_tests()
        else:
            toks, tests = sorted(gt.tokens), {}
            for x, y in given:
                x = "".join(toks[t % len(toks)] if isinstance(t, int) else t for t in x)
                s1, real, _ = call(gt.transliterate, x)
                if s1 != "ok":
                    if y != "bad":
                        continue
                    real = "?"
                tests[x] = {"right": real, "bad": real, "more": real + "A", "less": real[:-1],
                            "other": "zz", "space": real + " ", "before": " " + real, "trim": real.strip(),
                            "newline": real + "\n", "case": real.swapcase(), "front": "A" + real,
                            "nfd": unicodedata.normalize("NFD", real), "doubled": real + real,
                            "spaces": real.replace(" ", "  "), "empty": ""}[y]
        for x, y in tests.items():
            s1, real, _ = call(gt.transliterate, x)
            ev["tests"].append({"y": cps(y), "st": s1, "real": cps(real) if s1 == "ok" else []})
        if given is None:
            ev["run"], v, _ = call(gt.run_yaml_tests)
        elif sym in REAL or self.k % 3 == 0:
            ev["run"], v, _ = call(gt.run_tests, tests)
            v = True
        else:
            path = os.path.join(gt.directory, "tests", gt.name + "_tests.yaml")
            write(path, yaml.safe_dump(tests, allow_unicode=False))
            ev["run"], v, _ = call(gt.run_yaml_tests)
            s2, back, _ = call(gt.load_yaml_tests)
            ev["same"] = int(s2 == "ok" and back == tests)
        if ev["run"] == "ok" and v is not True:
            ev["run"] = "other:not true"
        if given is None and cov:
            st, gt, _ = call(cls.new, method=how, **kw)
            gt.run_yaml_tests()
            ev["cov"], _, _ = call(gt.check_coverage)
        return ev


def bundled_session(w):
    S = BundledSession(w)
    b, _ = S.bound()
    out = {"kind": "bundled", "bound": b, "ev": []}
    for op in w["ops"]:
        ev = getattr(S, op[0])(*op[1:])
        if ev:
            out["ev"].append(ev)
    shutil.rmtree(S.root, ignore_errors=True)
    return out


sessions.KINDS["bundled"] = bundled_session
