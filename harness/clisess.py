"""Sessions of the command line."""
import ast
import json
import os
import shutil
import subprocess
import sys

import yaml
from click.testing import CliRunner

import bundsess
import sessions
import setsess

D = sessions.D
call, cps = D.call, D.cps
import graphtransliterator  # noqa
import graphtransliterator.transliterators as TR  # noqa
from graphtransliterator import GraphTransliterator, cli  # noqa

BAD = {"json": ["", "{", "[]", "{}", "null", '{"tokens": {}}'], "bundled": ["Nobody", "example"],
       "yaml": ["", "tokens: [", "rules: {}", "tokens: {a: [b]}\nrules: {a: A}\n"]}


class Sess:
    def __init__(self, w):
        self.w = w
        p = dict(w["pkg"], classes=[[3, 103, "YAML"], [4, 104, "JSON"]])
        self.b = bundsess.BundledSession({"dirs": [[p]]})
        self.b.add(0)
        self.root = self.b.root
        self.yaml = yaml.safe_dump(bundsess.easy_doc(p), allow_unicode=True, sort_keys=False)
        self.runner = CliRunner()
        self.views = []

    def view(self, x):
        if x not in self.views:
            self.views.append(x)
        return self.views.index(x)

    def source(self, kind, k, lev, ign):
        """(arguments of --from, how the library loads it)"""
        if kind == "bundled":
            n = BAD["bundled"][k % 2] if k < 0 else self.b.name(k)
            return n, lambda **kw: getattr(TR, n)(**kw)
        if kind == "yaml_file":
            t = BAD["yaml"][k % 4] if k < 0 else self.yaml
            path = os.path.join(self.root, "s \u0915.yaml")
            if k == -9:
                path += "x"
            else:
                bundsess.write(path, t)
            return path, lambda **kw: GraphTransliterator.from_yaml_file(path, **kw)
        if k < 0:
            t = BAD["json"][k % 6]
        else:
            gt = GraphTransliterator.from_yaml(self.yaml, check_ambiguity=False, ignore_errors=bool(ign))
            t = gt.dumps(compression_level=lev)
        if kind == "json":
            return t, lambda **kw: GraphTransliterator.loads(t, **kw)
        path = os.path.join(self.root, "s.json")
        if k == -9:
            path += "x"
        else:
            bundsess.write(path, t)

        def load(**kw):
            with open(path, encoding="utf-8") as f:
                return GraphTransliterator.loads(f.read(), **kw)
        return path, load

    def run(self, args, real):
        """(exit status, standard output)"""
        if real:
            e = dict(os.environ, PYTHONPATH=os.path.dirname(os.path.dirname(graphtransliterator.__file__)))
            p = subprocess.run([sys.executable, "-m", "graphtransliterator.cli"] + args, env=e,
                               stdout=subprocess.PIPE, stderr=subprocess.PIPE)
            return p.returncode, p.stdout.decode("utf-8")
        st, r, _ = call(self.runner.invoke, cli.main, args)
        if st != "ok":
            return -1, st
        return r.exit_code, r.stdout_bytes.decode("utf-8")

    def transliterate(self, src, to, ca, ie, args, real):
        name, load = self.source(*src)
        st, gt, _ = call(load, check_ambiguity=bool(ca), ignore_errors=bool(ie))
        ev = {"op": "transliterate", "src": src, "load": st, "res": [], "shape": "none", "ys": []}
        toks = sorted(gt.tokens) if st == "ok" else ["a"]
        xs = []
        for x in args:
            x = "".join(toks[t % len(toks)] if isinstance(t, int) else t for t in x)
            if not any(c in "\x00\x1b" for c in x):
                xs.append(x)
        if st == "ok":
            for x in xs:
                s1, y, _ = call(gt.transliterate, x)
                ev["res"].append({"st": s1, "y": cps(y) if s1 == "ok" else []})
        a = ["transliterate", ["--from", "-f"][len(xs) % 2], src[0], name]
        if to != "none":
            a += [["--to", "-t"][ca], to]
        for on, names in ((ca, ["--no-check-ambiguity", "-nca", "--check-ambiguity", "-ca"]),
                          (ie, ["--no-ignore-errors", "-nie", "--ignore-errors", "-ie"])):
            k = (len(name) + len(xs)) % 3
            if on or k:
                a.append(names[2 * on + k % 2])
        ev["exit"], out = self.run(a + ["--"] + xs, real and src[1] < 3)
        if ev["exit"] == 0:
            try:
                if to == "json":
                    v = json.loads(out)
                elif len(xs) == 1:
                    assert out.endswith("\n")
                    v = out[:-1]
                else:
                    v = ast.literal_eval(out.strip())
                if isinstance(v, str):
                    ev["shape"], ev["ys"] = "str", [cps(v)]
                elif isinstance(v, list):
                    ev["shape"], ev["ys"] = "list", [cps(y) for y in v]
            except (ValueError, SyntaxError, AssertionError):
                ev["shape"] = "unreadable"
        return ev

    def dump(self, src, ca, lev):
        name, load = self.source(*src)
        st, gt, _ = call(load, check_ambiguity=bool(ca))
        ev = {"op": "dump", "src": src, "load": st, "loaded": -1, "lib": -2, "text": 0}
        kw = {} if lev is None else {"compression_level": lev}
        if st == "ok":
            ev["load"], text, _ = call(gt.dumps, **kw)
        a = ["dump", "--from", src[0], name] + (["--check-ambiguity"] if ca else [])
        if lev is not None:
            a += ["--compression-level", str(lev)]
        ev["exit"], out = self.run(a, False)
        if ev["exit"] == 0 and ev["load"] == "ok":
            ev["lib"] = self.view(setsess.fingerprint(gt))
            s1, back, _ = call(GraphTransliterator.loads, out)
            ev["loaded"] = self.view(setsess.fingerprint(back)) if s1 == "ok" else -1
            try:
                ev["text"] = int(json.loads(out) == json.loads(text))
            except ValueError:
                pass
        return ev

    def tests_of(self, k, given):
        """Write a test file of the scratch transliterators."""
        gt = getattr(TR, self.b.name(k)).new("json")
        toks, tests = sorted(gt.tokens), {}
        for x, y in given:
            x = "".join(toks[t % len(toks)] if isinstance(t, int) else t for t in x)
            s1, real, _ = call(gt.transliterate, x)
            if s1 != "ok" and y == "right":  # nothing is right
                continue
            tests[x] = real + ("" if y == "right" else "A") if s1 == "ok" else "?"
        bundsess.write(os.path.join(gt.directory, "tests", gt.name + "_tests.yaml"),
                       yaml.safe_dump(tests, allow_unicode=False))

    def test(self, k, ca, given):
        if k > 2:
            self.tests_of(k, given)
        name, load = self.source("bundled", k, 0, 0)
        st, gt, _ = call(load, check_ambiguity=bool(ca))
        if st == "ok":
            st, v, _ = call(gt.run_yaml_tests)
        ev = {"op": "test", "load": st, "lib": 1, "got": 0}
        ev["exit"], out = self.run(["test", name] + (["-ca"] if ca else []), False)
        ev["got"] = int(out.strip() == "True")
        return ev

    def dump_tests(self, k, to, given):
        if k > 2:
            self.tests_of(k, given)
        name, load = self.source("bundled", k, 0, 0)
        st, gt, _ = call(load)
        if st == "ok":
            st, tests, _ = call(gt.load_yaml_tests)
        ev = {"op": "dump-tests", "load": st, "lib": -1, "got": -2}
        ev["exit"], out = self.run(["dump-tests", name] + (["--to", to] if to != "none" else []), False)
        if ev["exit"] == 0 and st == "ok":
            ev["lib"] = self.view(tests)
            try:
                got = json.loads(out) if to == "json" else yaml.safe_load(out)
                ev["got"] = self.view({str(a): str(b) for a, b in got.items()})
            except (ValueError, yaml.YAMLError, AttributeError):
                pass
        return ev

    def generate_tests(self, src, ca):
        name, load = self.source(*src)
        st, gt, _ = call(load, check_ambiguity=bool(ca))
        if st == "ok":
            st, text, _ = call(TR.Bundled.generate_yaml_tests, gt)
        ev = {"op": "generate-tests", "src": src, "load": st, "lib": -1, "got": -2}
        ev["exit"], out = self.run(["generate-tests", "--from", src[0], name] + (["-ca"] if ca else []), False)
        if ev["exit"] == 0 and st == "ok":
            ev["lib"] = self.view(yaml.safe_load(text))
            try:
                ev["got"] = self.view(yaml.safe_load(out))
            except yaml.YAMLError:
                pass
        return ev

    def list_bundled(self):
        ev = {"op": "list-bundled", "load": "ok"}
        ev["exit"], out = self.run(["list-bundled"], False)
        words = out.split()
        ev["lib"] = sorted([cps(n) for n in TR.iter_names()])
        ev["got"] = sorted([cps(n) for n in words if n in set(words) & set(dir(TR)) - {"Bundled"}])
        return ev


def cli_session(w):
    S = Sess(w)
    out = {"kind": "cli", "names": [], "ev": []}
    for op in w["ops"]:
        out["ev"].append(getattr(S, op[0])(*op[1:]))
    shutil.rmtree(S.root, ignore_errors=True)
    return out


sessions.KINDS["cli"] = cli_session


# ------------------------------ make-json ---------------------------------------

LOOK = """
import json, sys
import graphtransliterator.transliterators as TR
import setsess
out = []
for n in sys.argv[1:]:
    v = []
    for m in ("yaml", "json"):
        try:
            f = setsess.fingerprint(getattr(TR, n).new(m, check_ambiguity=False))
            v.append(f[:5])
        except Exception as e:
            v.append(type(e).__name__)
    out.append(int(v[0] == v[1]))
print("LOOK", json.dumps(out))
"""


def make_session(w):
    """Everything happens in a copy of the package in the scratch directory."""
    base = os.path.join(os.environ["GT_SCRATCH"], "make%d" % bundsess.COUNT[0])
    bundsess.COUNT[0] += 1
    pkg = os.path.dirname(graphtransliterator.__file__)
    new = os.path.join(base, "graphtransliterator")
    shutil.copytree(pkg, new, ignore=shutil.ignore_patterns("__pycache__"))
    env = dict(os.environ, PYTHONPATH=base + os.pathsep + os.path.dirname(os.path.abspath(__file__)))
    trd = os.path.join(new, "transliterators")
    names = ["Example", "ITRANSDevanagariToUnicode"] + [n for n, _ in w["more"]]
    dirs = ["example", "itrans_devanagari_to_unicode"]
    for k, (n, p) in enumerate(w["more"]):
        mod = "extra_%d" % k
        dirs.append(mod)
        d = os.path.join(trd, mod)
        os.makedirs(os.path.join(d, "tests"))
        bundsess.write(os.path.join(d, "__init__.py"), bundsess.CODE + bundsess.CLASS % (n, k, "YAML"))
        text = yaml.safe_dump(bundsess.easy_doc(p), allow_unicode=True, sort_keys=False)
        bundsess.write(os.path.join(d, mod + ".yaml"), text)
        gt = GraphTransliterator.from_yaml(text, check_ambiguity=False)
        bundsess.write(os.path.join(d, mod + ".json"), gt.dumps())
    files = [os.path.join(trd, d, d + ".json") for d in dirs]
    e = dict(env, PYTHONDONTWRITEBYTECODE="1")
    p = subprocess.run([sys.executable, "-c", "import graphtransliterator as g; print(g.__file__)"],
                       env=e, cwd=base, stdout=subprocess.PIPE)
    assert p.stdout.decode().startswith(base), p.stdout
    other = GraphTransliterator.from_easyreading_dict(
        {"tokens": {"zz": ["q"]}, "rules": {"zz": "stale"},
         "whitespace": {"default": "zz", "token_class": "q", "consolidate": False}})
    out = {"kind": "make", "names": [cps(n) for n in names], "ev": []}

    def read(f):
        if not os.path.exists(f):
            return None
        with open(f, "rb") as h:
            return h.read()
    for op in w["ops"]:
        if op[0] == "stale":
            for n in op[1]:
                bundsess.write(files[n - 1], other.dumps())
            out["ev"].append({"op": "stale", "ns": op[1]})
            continue
        _, arg, regex, pat = op
        old = [read(f) for f in files]
        # the time of change tells a rewritten file from one left alone
        for f in files:
            os.utime(f, (1, 1))
        p = subprocess.run([sys.executable, "-m", "graphtransliterator.cli", "make-json"]
                           + regex + [arg], env=e, cwd=base, stdout=subprocess.PIPE, stderr=subprocess.PIPE)
        changed = [k + 1 for k, f in enumerate(files)
                   if read(f) != old[k] or (os.path.exists(f) and os.stat(f).st_mtime > 10)]
        q = subprocess.run([sys.executable, "-c", LOOK] + names, env=e, cwd=base,
                           stdout=subprocess.PIPE, stderr=subprocess.PIPE)
        look = [x for x in q.stdout.decode().splitlines() if x.startswith("LOOK ")]
        same = json.loads(look[0][5:]) if look else [0] * len(names)
        out["ev"].append({"op": "make", "arg": cps(arg), "pat": pat, "exit": p.returncode, "changed": changed,
                          "differ": [k + 1 for k, x in enumerate(same) if not x]})
    shutil.rmtree(base, ignore_errors=True)
    return out


sessions.KINDS["make"] = make_session
