"""Sessions of concurrent and re-entrant calls under schedules chosen here (C09).

Threads are run one at a time: a trace function stops a thread before every line of the
library (or every byte code), where the schedule may hand over to another thread.
"""
import logging
import os
import random
import sys
import threading
import time

import sessions

D = sessions.D
call, cps = D.call, D.cps
import graphtransliterator  # noqa
import graphtransliterator.transliterators as TR  # noqa
from graphtransliterator import CoverageTransliterator, GraphTransliterator  # noqa

LIB = os.path.dirname(os.path.abspath(graphtransliterator.__file__)) + os.sep
MANY = 1 << 60


class Sched:
    """Runs calls in threads; plan: [(thread, number of stops to pass), ...]."""

    def __init__(self, calls, plan, fine=False):
        self.calls, self.plan, self.fine = calls, list(plan), fine
        self.cond = threading.Condition()
        self.done = [False] * len(calls)
        self.out = [None] * len(calls)
        self.stops = [0] * len(calls)
        self.lines = [[] for _ in calls]
        self.turn, self.left, self.moves = None, 0, 0
        self.advance()

    def advance(self):
        while self.plan:
            i, n = self.plan.pop(0)
            if not self.done[i] and n > 0:
                self.turn, self.left = i, n
                return
        rest = [i for i, d in enumerate(self.done) if not d]
        self.turn, self.left = (rest[0] if rest else None), MANY

    def wait_turn(self, i):
        with self.cond:
            seen, since = self.moves, time.time()
            while self.turn != i:
                self.cond.wait(0.05)
                if self.moves != seen:
                    seen, since = self.moves, time.time()
                elif time.time() - since > 0.3:  # the other one waits for something of ours
                    self.turn, self.left = i, MANY
                    self.moves += 1

    def stop(self, i):
        self.stops[i] += 1
        self.moves += 1
        if self.turn == i:
            if self.left > 1:
                self.left -= 1
                return
            with self.cond:
                self.advance()
                self.cond.notify_all()
        self.wait_turn(i)

    def worker(self, i):
        kind = "opcode" if self.fine else "line"

        def local(frame, event, arg):
            if event == kind:
                self.lines[i].append((frame.f_code.co_name, frame.f_lineno))
                self.stop(i)
            return local

        def top(frame, event, arg):
            if event == "call" and frame.f_code.co_filename.startswith(LIB):
                if self.fine:
                    frame.f_trace_opcodes = True
                return local
            return None
        self.wait_turn(i)
        try:
            sys.settrace(top)
            try:
                st, v = "ok", self.calls[i]()
            finally:
                sys.settrace(None)
        except BaseException as e:  # noqa
            names = [c.__name__ for c in type(e).__mro__]
            st, v = next((D.STATUS[x] for x in names if x in D.STATUS), "other:" + names[0]), None
        with self.cond:
            self.out[i] = (st, v)
            self.done[i] = True
            self.moves += 1
            if self.turn == i:
                self.advance()
            self.cond.notify_all()

    def run(self):
        ts = [threading.Thread(target=self.worker, args=(i,), daemon=True) for i in range(len(self.calls))]
        for t in ts:
            t.start()
        end = time.time() + 20
        for t in ts:
            t.join(max(0.01, end - time.time()))
        return [o if o is not None else ("timeout", None) for o in self.out]


class Reenter(logging.Handler):
    """Calls f from within the first warnings."""

    def __init__(self, f):
        logging.Handler.__init__(self)
        self.f, self.busy, self.outs = f, False, []

    def emit(self, record):
        if not self.busy and len(self.outs) < 3:
            self.busy = True
            self.outs.append(call_plain(self.f))
            self.busy = False


def call_plain(f):
    try:
        return "ok", f()
    except Exception as e:
        names = [c.__name__ for c in type(e).__mro__]
        return next((D.STATUS[x] for x in names if x in D.STATUS), "other:" + names[0]), None


class Sess:
    def __init__(self, w):
        self.w, self.g = w, w["cfg"]
        self.nm = sessions.Names(self.g)
        self.gt = None

    def build(self):
        w = self.w
        kw = {"ignore_errors": bool(w["ign"]), "check_ambiguity": False}
        if w["how"] == "cov":
            s = GraphTransliterator.from_dict(D.direct_settings(self.g), **kw)
            return CoverageTransliterator(s.tokens, s.rules, s.whitespace, onmatch_rules=s.onmatch_rules,
                                          metadata=s.metadata, **kw)
        if w["how"] == "itrans":
            return TR.ITRANSDevanagariToUnicode(**kw)
        gt = sessions.build_gt(self.g, w["how"], **kw)
        gt.ignore_errors = bool(w["ign"])
        return gt

    def fresh(self):
        if self.gt is None or self.w["fresh"]:
            self.gt = self.build()
        return self.gt

    def text(self, q):
        return q

    def fn(self, gt, c):
        op, a = c[0], c[1:]
        if op == "tr":
            return lambda: gt.transliterate(a[0])
        if op == "tk":
            return lambda: gt.tokenize(a[0])
        toks = [self.g["tok"][k - 1] for k in a[1]]
        return lambda: gt.match_at(a[0], toks, match_all=op == "all")

    def show(self, c, out):
        st, v = out
        y = []
        if st == "ok":
            y = {"tr": cps, "tk": lambda q: [-1 - x for q1 in q for x in cps(q1) + [-2]],
                 "ma": lambda k: [-1 if k is None else k], "all": list}[c[0]](v)
        return {"st": st, "y": y}

    def go(self):
        w, calls = self.w, self.w["calls"]
        rng = random.Random(w["seed"])
        out = {"kind": "threads", "ev": [], "schedules": 0}
        counts = []
        for k, c in enumerate(calls):  # each call on its own
            st, v, _ = call(self.fn(self.build(), c))
            out["ev"].append({"op": "solo", "call": k + 1, "out": self.show(c, (st, v)), "n": 1})
            if st == "timeout":
                return out
            s = Sched([self.fn(self.build(), c)], [], w["fine"])
            s.run()
            counts.append(s.lines[0])
        found = {}

        def note(op, ks, outs, plan):
            shown = [self.show(calls[k], o) for k, o in zip(ks, outs)]
            e = found.setdefault(repr((op, ks, shown)), {
                "op": op, "calls": [k + 1 for k in ks], "outs": shown, "n": 0, "plan": plan})
            e["n"] += 1
            out["schedules"] += 1
            return all(o[0] != "timeout" for o in outs)
        for ks in w["groups"]:
            for plan in self.plans(rng, ks, counts):
                gt = self.fresh()
                s = Sched([self.fn(gt, calls[k]) for k in ks], plan, w["fine"])
                if not note("conc", ks, s.run(), plan):
                    break
            for a in ks:  # from a logging handler
                for b in ks:
                    gt = self.fresh()
                    h = Reenter(self.fn(gt, calls[b]))
                    logging.getLogger().addHandler(h)
                    try:
                        st, v, _ = call(self.fn(gt, calls[a]))
                    finally:
                        logging.getLogger().removeHandler(h)
                    note("nested", [a] + [b] * len(h.outs), [(st, v)] + h.outs, [])
        out["ev"] += list(found.values())
        return out

    def plans(self, rng, ks, counts):
        """Every schedule with one preemption (or a sample), and some with more."""
        w, n = self.w, len(ks)
        first, more = [], []
        for i in range(n):
            for j in range(n):
                if i != j:
                    seen = set()
                    for k, line in enumerate(counts[ks[i]]):
                        (more if line in seen else first).append([(i, k + 1), (j, MANY), (i, MANY)])
                        seen.add(line)
        rng.shuffle(first)  # before every line once, then elsewhere
        rng.shuffle(more)
        k = max(0, w["single"] - len(first))
        for p in first[:w["single"] if not k else None] + more[:max(k, w["single"] // 4)]:
            yield p
        for _ in range(w["multi"]):
            p, left = [], [len(counts[k]) for k in ks]
            step = rng.choice([1, 3, 10, 40, 200])
            while sum(left) > 0 and len(p) < 400:
                i = rng.choice([i for i in range(n) if left[i] > 0])
                k = rng.randint(1, step)
                p.append((i, k))
                left[i] -= min(k, left[i])
            yield p


def threads_session(w):
    return Sess(w).go()


sessions.KINDS["threads"] = threads_session
