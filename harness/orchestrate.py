"""Runs the check of one property.

  python3 check.py PROPERTY          tier and seed from VERIF_TIER and VERIF_SEED
  python3 check.py --replay FILE     run and judge the session of a replay file again

1. model-check the design (spec/MC*.tla) with TLC,
2. generate workloads, run them on the real code (harness/driver.py),
3. let TLC judge every recorded session against the specification (spec/Trace*.tla),
4. print verdicts, write evidence/PROPERTY.json.

Exit 0: held.  Exit 1: VIOLATION line.  Exit 2: the check itself failed.
"""
import concurrent.futures as cf
import json
import os
import random
import re
import shutil
import subprocess
import sys
import tempfile
import time

HERE = os.path.dirname(os.path.abspath(__file__))
VERIF = os.path.dirname(HERE)
SPEC = os.path.join(VERIF, "spec")
REPO = os.environ.get("GT_REPO", "/repo")
PYPY = "/opt/venv-pypy/bin/python"
EVID = os.path.join(VERIF, "evidence")
JAR = ("/opt/veriftools/tla/tla2tools.jar:"
       "/opt/veriftools/tla/CommunityModules-deps.jar")


class CheckError(Exception):
    pass


class ModelError(CheckError):
    pass


def log(*a):
    print(*a, flush=True)


# ------------------------------- TLC ----------------------------------------

STATS = re.compile(r"(\d+) states generated, (\d+) distinct states found")


def tlc(module, cfg_text, work, env=None, workers=8, timeout=600, extra=(), heap="4g"):
    """Run TLC; returns (returncode, output, generated, distinct)."""
    d = tempfile.mkdtemp(prefix="tlc", dir=work)
    cfgf = os.path.join(d, module + ".cfg")
    with open(cfgf, "w") as f:
        f.write(cfg_text)
    e = dict(os.environ, **(env or {}))
    e.pop("JAVA_TOOL_OPTIONS", None)
    cmd = ["java", "-XX:+UseParallelGC", "-Xmx" + heap, "-Xss64m", "-cp", JAR,
           "tlc2.TLC", "-workers", str(workers), "-config", cfgf,
           "-metadir", os.path.join(d, "md"), "-noGenerateSpecTE", *extra,
           os.path.join(SPEC, module + ".tla")]
    try:
        p = subprocess.run(cmd, stdout=subprocess.PIPE, stderr=subprocess.STDOUT,
                           env=e, timeout=timeout, cwd=d)
        out = p.stdout.decode("utf-8", "replace")
        rc = p.returncode
    except subprocess.TimeoutExpired as ex:
        out = (ex.stdout or b"").decode("utf-8", "replace") + "\nTIMEOUT"
        rc = -9
    finally:
        shutil.rmtree(d, ignore_errors=True)
    gen = dist = 0
    for m in STATS.finditer(out):
        gen, dist = int(m.group(1)), int(m.group(2))
    return rc, out, gen, dist


def model_check(part, work, workers):
    t = time.time()
    rc, out, gen, dist = tlc(part["module"], part["cfg"], work, workers=workers,
                             env=part.get("env"), timeout=part.get("timeout", 600),
                             extra=part.get("extra", ()))
    if rc != 0 and not part.get("simulate"):
        raise ModelError("design model %s: TLC exit %s\n%s" % (part["module"], rc, out[-3000:]))
    if part.get("expect") and part["expect"] not in out:
        raise ModelError("design model %s: no %r\n%s" % (part["module"], part["expect"], out[-3000:]))
    return {"module": part["module"], "states": dist, "transitions": gen,
            "seconds": round(time.time() - t, 1), "output": out}


# ------------------------------ driver ---------------------------------------

def drive(workload, work, n=8, timeout=420, script="driver.py", env=None):
    """Run sessions on the real code, in parallel processes; list of records."""
    if not workload:
        return []
    n = max(1, min(n, len(workload)))
    shards = [list(range(k, len(workload), n)) for k in range(n)]
    out = [None] * len(workload)

    def one(k):
        idx = shards[k]
        d = tempfile.mkdtemp(prefix="drv", dir=work)
        wf, tf = os.path.join(d, "w.json"), os.path.join(d, "t.json")
        with open(wf, "w") as f:
            json.dump([workload[i] for i in idx], f)
        e = dict(os.environ, PYTHONPATH=REPO, PYTHONDONTWRITEBYTECODE="1",
                 LANG="C.UTF-8", LC_ALL="C.UTF-8", PYTHONHASHSEED="0",
                 GT_SCRATCH=d, **(env or {}))
        e.pop("PYTHONHOME", None)
        try:
            p = subprocess.run([PYPY, os.path.join(HERE, script), wf, tf], env=e, cwd=d,
                               stdout=subprocess.PIPE, stderr=subprocess.STDOUT, timeout=timeout)
            msg, rc = p.stdout.decode("utf-8", "replace")[-3000:], p.returncode
        except subprocess.TimeoutExpired as ex:
            msg, rc = "driver timed out " + repr((ex.stdout or b"")[-1000:]), -9
        rec = None
        if rc == 0:
            with open(tf) as f:
                rec = json.load(f)
        shutil.rmtree(d, ignore_errors=True)
        if rec is None:
            rec = [{"fatal": "driver exit %s: %s" % (rc, msg), "kind": "?", "crash": 1}
                   for _ in idx]
        for i, r in zip(idx, rec):
            out[i] = r

    with cf.ThreadPoolExecutor(n) as ex:
        list(ex.map(one, range(n)))
    return out


# ------------------------------ judging ---------------------------------------

DONE = re.compile(r'<<\s*"DONE",\s*(\d+),\s*\{(.*?)\}\s*>>', re.S)
CLAUSE = re.compile(r'<<\s*"([^"]+)",\s*(-?\d+)\s*>>')


def judge(module, records, work, workers=8, timeout=600, cfg=None, env=None):
    """TLC verdicts: ({index: [(clause, event)]}, generated, distinct)."""
    if not records:
        return {}, 0, 0
    with open(os.path.join(SPEC, module + ".cfg")) as f:
        cfg = cfg or f.read()
    d = tempfile.mkdtemp(prefix="trace", dir=work)
    tf = os.path.join(d, "trace.json")
    with open(tf, "w") as f:
        json.dump(records, f)
    rc, out, gen, dist = tlc(module, cfg, work, env=dict(env or {}, TRACE=tf), workers=workers,
                             timeout=timeout, heap="8g")
    shutil.rmtree(d, ignore_errors=True)
    verdict = {}
    for m in DONE.finditer(out):
        verdict[int(m.group(1)) - 1] = sorted(
            (c, int(k)) for c, k in CLAUSE.findall(m.group(2)))
    if rc == 0 and len(verdict) == len(records):
        return verdict, gen, dist
    if rc == -9:
        raise CheckError("TLC timed out judging %d sessions with %s" % (len(records), module))
    if len(records) == 1:
        if "Parsing or semantic analysis failed" in out or "OutOfMemory" in out:
            raise CheckError(out[-3000:])
        # The specification cannot even interpret what was recorded.
        log("TLC could not interpret a session:", " ".join(out[-600:].split()))
        return {0: [("ANY.uninterpretable", 0)]}, gen, dist
    if "Parsing or semantic analysis failed" in out:
        raise CheckError(out[-3000:])
    # Bisect, keeping total verdicts.
    h = len(records) // 2
    v1, g1, d1 = judge(module, records[:h], work, workers, timeout, cfg, env)
    if sum(1 for v in v1.values() if v and v[0][0] == "ANY.uninterpretable") > 2:
        v2, g2, d2 = {k: [] for k in range(len(records) - h)}, 0, 0  # enough is known
    else:
        v2, g2, d2 = judge(module, records[h:], work, workers, timeout, cfg, env)
    v1.update({k + h: v for k, v in v2.items()})
    return v1, g1 + g2, d1 + d2


# ------------------------------ findings --------------------------------------

def known_findings():
    with open(os.path.join(VERIF, "known_findings.json")) as f:
        return json.load(f)["findings"]


def relevant(prop, clause):
    return clause.startswith(prop + ".") or clause.startswith("ANY.")


def short(x, n=2000):
    s = json.dumps(x)
    return json.loads(s) if len(s) <= n else s[:n] + "..."


class Check:
    def __init__(self, prop, tier, seed):
        self.prop, self.tier, self.seed = prop, tier, seed
        self.states = self.trans = self.validated = 0
        self.violations = []
        self.samples = []
        self.known = []
        self.parts = []
        self.events = self.schedules = 0
        self.t0 = time.time()
        self.listed = {f["id"]: f for f in known_findings() if f["property"] == prop}

    def run_trace(self, part, rnd, work, workers):
        rng = random.Random("%s:%s:%s:%s" % (self.seed, self.prop, part["name"], rnd))
        t = time.time()
        workload = part["gen"](rng, self.tier, rnd, work) if part.get("wants_work") \
            else part["gen"](rng, self.tier, rnd)
        recs = drive(workload, work, script=part.get("script", "driver.py"),
                     env=part.get("env"), n=part.get("procs", 8))
        t1 = time.time()
        self.assess(part, workload, recs, work, workers)
        self.parts.append({"part": part["name"], "round": rnd, "sessions": len(workload),
                           "drive_s": round(t1 - t, 1), "judge_s": round(time.time() - t1, 1)})

    def assess(self, part, workload, recs, work, workers):
        good, where = [], []
        for i, r in enumerate(recs):
            if "fatal" in r:
                self.violation(part, workload[i], r, [("ANY.fatal", 0)])
            else:
                good.append(r)
                where.append(i)
        verdict, gen, dist = judge(part["module"], good, work, workers,
                                   env=part.get("jenv"))
        self.states += dist
        self.trans += gen
        self.validated += len(good)
        self.schedules += sum(r.get("schedules", 0) for r in good)
        self.events += sum(len(r.get("ev", ())) for r in good)
        for j, i in enumerate(where):
            errs = [e for e in verdict[j] if relevant(self.prop, e[0])]
            w = workload[i]
            kf = self.listed.get(w.get("known"))
            if kf:
                want = set(kf["clauses"])
                got = {e[0] for e in errs}
                if got and got <= want:
                    self.known.append(kf)
                    continue
            if errs:
                self.violation(part, w, recs[i], errs)
        if good:
            k = len(good) // 2
            self.samples.append({"part": part["name"], "workload": short(workload[where[k]], 1500),
                                 "trace": short(good[k], 1500)})

    def violation(self, part, w, rec, errs):
        if len(self.violations) < 200:
            self.violations.append({"part": part["name"], "workload": w, "record": rec,
                                    "errs": errs})

    def evidence(self, level="model_checking"):
        cov = {"states": self.states, "transitions": self.trans,
               "traces_validated_against_impl": self.validated,
               "events_validated": self.events,
               "samples": self.samples[:4], "parts": self.parts,
               "schedules_run": self.schedules,
               "known_findings_reproduced": len(self.known)}
        ev = {"property": self.prop, "tier": self.tier, "seed": self.seed, "level": level,
              "coverage": cov, "wall_s": round(time.time() - self.t0, 1),
              "violations": len(self.violations),
              "assumptions": ["PyPy 3.9 interpreter of /opt/venv-pypy runs the code",
                              "TLC evaluates the specification correctly",
                              "the driver's projection of public results is faithful"]}
        os.makedirs(EVID, exist_ok=True)
        with open(os.path.join(EVID, self.prop + ".json"), "w") as f:
            json.dump(ev, f, indent=1)


def main(argv):
    import properties
    if argv[:1] == ["--replay"]:
        return replay(argv[1])
    if argv[:1] == ["--selfcheck"]:
        return selfcheck()
    prop = argv[0]
    tier = os.environ.get("VERIF_TIER", "quick")
    tier = tier if tier in ("quick", "thorough") else "quick"
    seed = int(os.environ.get("VERIF_SEED", "1") or 1)
    chk = Check(prop, tier, seed)
    work = tempfile.mkdtemp(prefix="gtcheck-")
    try:
        return run(chk, properties.parts(prop, tier), work)
    except CheckError as e:
        log("CHECK-ERROR", prop, e)
        chk.evidence()
        return 2
    finally:
        shutil.rmtree(work, ignore_errors=True)


QUICK_ROUNDS = 2    # sets of sessions per generator; the second is left out on a slow machine


def run(chk, parts, work):
    budget = 200 if chk.tier == "quick" else float(os.environ.get("VERIF_BUDGET", "600"))
    mcs = [p for p in parts if p["type"] == "mc"]
    traces = [p for p in parts if p["type"] == "trace"]
    with cf.ThreadPoolExecutor(max(1, len(mcs))) as ex:
        futs = [ex.submit(model_check, p, work, 4 if chk.tier == "quick" else 8) for p in mcs]
        try:
            rnd = 0
            while True:
                for p in traces:
                    chk.run_trace(p, rnd, work, 8)
                rnd += 1
                spent = time.time() - chk.t0
                if chk.violations or spent > budget or (
                        chk.tier == "quick" and rnd == QUICK_ROUNDS):
                    break
        finally:
            results = []
            err = None
            for f in futs:
                try:
                    results.append(f.result())
                except ModelError as e:
                    err = e
    for r in results:
        r.pop("output")
        chk.states += r["states"]
        chk.trans += r["transitions"]
        chk.parts.append(r)
    for k in {json.dumps(k, sort_keys=True) for k in chk.known}:
        k = json.loads(k)
        log("KNOWN-FINDING: property=%s %s" % (chk.prop, k["what"]))
    chk.evidence()
    if chk.violations:
        report(chk)
        return 1
    if err:
        raise err
    log("OK property=%s states=%d transitions=%d sessions=%d wall=%.1fs" % (
        chk.prop, chk.states, chk.trans, chk.validated, time.time() - chk.t0))
    return 0


def report(chk):
    d = os.path.join(EVID, "replay")
    os.makedirs(d, exist_ok=True)
    seen = {}
    for v in chk.violations:
        key = (v["part"], v["errs"][0][0])
        if key not in seen or len(json.dumps(v["workload"])) < len(json.dumps(seen[key]["workload"])):
            seen[key] = v
    for n, (key, v) in enumerate(sorted(seen.items())[:5]):
        path = os.path.join(d, "%s-%d.json" % (chk.prop, n))
        with open(path, "w") as f:
            json.dump({"property": chk.prop, "tier": chk.tier, "seed": chk.seed, **v}, f, indent=1)
        log("clauses:", v["errs"][:6], (v["record"].get("fatal") or "")[-600:])
        log("VIOLATION property=%s replay=%s" % (chk.prop, path))
    log("%d sessions violate %s" % (len(chk.violations), chk.prop))


def selfcheck():
    """The tools are there and every specification parses."""
    for f in sorted(os.listdir(SPEC)):
        if f.endswith(".tla"):
            p = subprocess.run(["java", "-cp", JAR, "tla2sany.SANY", os.path.join(SPEC, f)],
                               stdout=subprocess.PIPE, stderr=subprocess.STDOUT, cwd=SPEC)
            if p.returncode:
                log(p.stdout.decode()[-2000:])
                return 2
    p = subprocess.run([PYPY, "-c", "import graphtransliterator"],
                       env=dict(os.environ, PYTHONPATH=REPO, PYTHONDONTWRITEBYTECODE="1"))
    return 2 if p.returncode else 0


def replay(path):
    import properties
    with open(path) as f:
        v = json.load(f)
    chk = Check(v["property"], "quick", v["seed"])
    part = next(p for p in properties.parts(v["property"], v["tier"])
                if p["type"] == "trace" and p["name"] == v["part"])
    work = tempfile.mkdtemp(prefix="gtreplay-")
    try:
        recs = drive([v["workload"]], work, script=part.get("script", "driver.py"),
                     env=part.get("env"))
        chk.assess(part, [v["workload"]], recs, work, 1)
        for x in chk.violations:
            log(json.dumps(x["record"])[:4000])
            log("VIOLATION property=%s replay=%s" % (chk.prop, path), x["errs"])
        return 1 if chk.violations else 0
    finally:
        shutil.rmtree(work, ignore_errors=True)
