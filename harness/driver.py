"""Runs workloads against the real code in /repo and records what happens.

usage: python driver.py WORKLOAD.json TRACE.json

Runs under the interpreter /repo is installed for.  Only the public API is used.
A workload is a list of sessions; the trace holds one record per session with all
strings as sequences of code points and tokens, classes and rules as 1-based indices.
"""
import json
import logging
import os
import resource
import signal
import sys
import traceback

sys.dont_write_bytecode = True
os.environ["PYTHONDONTWRITEBYTECODE"] = "1"
HERE = os.path.dirname(os.path.abspath(__file__))
sys.path.insert(0, HERE)


class OutOfTime(BaseException):
    pass


def _alarm(signum, frame):
    raise OutOfTime()


LIMIT = float(os.environ.get("OP_LIMIT", "4"))
TIMEOUTS = [0]
WARN = []
ON_WARN = []  # (number of warnings, what to do then)


class _Handler(logging.Handler):
    def emit(self, record):
        if record.levelno >= logging.WARNING:
            WARN.append(record.getMessage())
            for n, f in ON_WARN:
                if len(WARN) == n:
                    f()


def warn_count():
    return len(WARN)


STATUS = {
    "UnrecognizableInputTokenException": "unrec",
    "NoMatchingTransliterationRuleException": "nomatch",
    "AmbiguousTransliterationRulesException": "ambiguous",
    "IncompleteGraphCoverageException": "graphcov",
    "IncompleteOnMatchRulesCoverageException": "omcov",
    "IncorrectVersionException": "version",
}


def call(f, *a, **k):
    """(status, value, number of warnings); never raises."""
    n = len(WARN)
    if TIMEOUTS[0] > 6:
        return "timeout", None, 0
    signal.setitimer(signal.ITIMER_PROF, LIMIT)
    try:
        try:
            v = f(*a, **k)
            st = "ok"
        finally:
            signal.setitimer(signal.ITIMER_PROF, 0)
    except OutOfTime:
        TIMEOUTS[0] += 1
        st, v = "timeout", None
    except BaseException as e:  # noqa
        if isinstance(e, (KeyboardInterrupt,)):
            raise
        names = [c.__name__ for c in type(e).__mro__]
        st = next((STATUS[x] for x in names if x in STATUS), "other:" + names[0])
        v = e
    w = len(WARN) - n
    if len(WARN) > 10000:
        del WARN[:]
    return st, v, w


def cps(s):
    return [ord(ch) for ch in s] if isinstance(s, str) else [-1]


class Names:
    """Strings <-> indices of a configuration."""

    def __init__(self, g):
        self.g = g
        self.t = {x: k + 1 for k, x in enumerate(g["tok"])}
        self.c = {x: k + 1 for k, x in enumerate(g["cls"])}

    def toks(self, q):
        return [self.t.get(x, 0) for x in (q or [])]

    def clss(self, q):
        return [self.c.get(x, 0) for x in (q or [])]

    def rule(self, r):
        return {"p": cps(r.production), "pc": self.clss(r.prev_classes),
                "pt": self.toks(r.prev_tokens), "t": self.toks(r.tokens),
                "nt": self.toks(r.next_tokens), "nc": self.clss(r.next_classes)}

    def om(self, r):
        return {"pc": self.clss(r.prev_classes), "nc": self.clss(r.next_classes),
                "p": cps(r.production)}


def abstract_cfg(g):
    """The configuration as data of the specification."""
    return {
        "tok": [cps(t) for t in g["tok"]], "cm": g["cm"],
        "rules": [dict(r, p=cps(r["p"])) for r in g["rules"]],
        "om": [dict(o, p=cps(o["p"])) for o in g["om"]],
        "wd": g["wd"], "wc": g["wc"], "wk": g["wk"]}


def direct_settings(g, order=None, nulls=False):
    """Direct settings (documented format) of a configuration."""
    tok, cls = g["tok"], g["cls"]

    def rule(r):
        out = {"production": r["p"], "tokens": [tok[k - 1] for k in r["t"]]}
        for key, short, names in (
            ("prev_classes", "pc", cls), ("prev_tokens", "pt", tok),
            ("next_tokens", "nt", tok), ("next_classes", "nc", cls),
        ):
            if r[short]:
                out[key] = [names[k - 1] for k in r[short]]
            elif nulls:
                out[key] = None
        return out

    def classes(k):
        out = [c for c, m in zip(cls, g["cm"][k]) if m]
        if order:
            out = order(out)
        return out

    s = {
        "tokens": {t: classes(k) for k, t in enumerate(tok)},
        "rules": [rule(r) for r in g["rules"]],
        "whitespace": {"default": tok[g["wd"] - 1], "token_class": cls[g["wc"] - 1],
                       "consolidate": bool(g["wk"])},
    }
    if g["om"]:
        s["onmatch_rules"] = [
            {"prev_classes": [cls[k - 1] for k in o["pc"]],
             "next_classes": [cls[k - 1] for k in o["nc"]],
             "production": o["p"]} for o in g["om"]]
    if "meta" in g:
        s["metadata"] = g["meta"]
    return s


def ranks(xs):
    ys = sorted(set(xs))
    return [ys.index(x) + 1 for x in xs]


def main():
    wl, outf = sys.argv[1:3]
    resource.setrlimit(resource.RLIMIT_AS, (6 << 30, 6 << 30))
    signal.signal(signal.SIGPROF, _alarm)
    logging.getLogger().addHandler(_Handler())
    logging.getLogger().setLevel(logging.WARNING)
    with open(wl) as f:
        work = json.load(f)
    out = []
    import sessions
    for w in work:
        try:
            out.append(sessions.run(w))
        except BaseException:  # machinery failure, or code misbehaving outside call()
            out.append({"fatal": traceback.format_exc(), "kind": w.get("kind")})
    with open(outf, "w") as f:
        json.dump(out, f)


if __name__ == "__main__":
    main()
