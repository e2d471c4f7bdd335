"""Tries the planted bugs of /verif/seeded, each in scratch copies of /repo and /verif.

  python3 tools/seeded.py [--all-checks] [--no-tests] [--no-checks] [-jN] [ID ...]

For each: the patch only touches lines of the original repository, the demonstration
passes on the clean tree, the patch applies, the stable tests pass, the demonstration
fails, and which checks raise a violation.  /repo itself is not touched.  Results are
kept in tools/seeded.json (not read by any check).
"""
import json
import os
import shutil
import subprocess
import sys
import tempfile
from concurrent.futures import ThreadPoolExecutor
import queue
import threading

V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
S = os.path.join(V, "seeded")
OUT = os.path.join(V, "tools", "seeded.json")
FLAGS = [a for a in sys.argv[1:] if a.startswith("-")]


def sh(cmd, cwd, timeout=900, **env):
    p = subprocess.run(cmd, shell=True, cwd=cwd, stdout=subprocess.PIPE, stderr=subprocess.STDOUT,
                       timeout=timeout, env=dict(os.environ, PYTHONDONTWRITEBYTECODE="1", **env))
    return p.returncode, p.stdout.decode("utf-8", "replace")


def stable():
    base = json.load(open("/opt/vp/BASELINE.json"))
    want = base.get("stable") or base.get("passed") or base.get("pass") or base
    return list(want)


def tests_pass(repo):
    w = tempfile.mkdtemp(prefix="seedt")
    try:
        sh("/opt/venv-pypy/bin/python -m pytest -q -p no:cacheprovider --timeout=300 "
           "--continue-on-collection-errors --doctest-modules -o junit_family=xunit2 "
           "--basetemp=%s/p --junitxml=%s/j.xml tests graphtransliterator; "
           "/usr/bin/python3 /opt/vp/results.py %s/out.json junit:%s/j.xml" % (w, w, w, w),
           repo, PYTHONPATH=repo, PYTHONHASHSEED="0")
        got = json.load(open(w + "/out.json"))
    finally:
        shutil.rmtree(w)
    passed = got.get("passed") or got.get("pass") or []
    return [t for t in stable() if t not in passed]


def original_lines(repo, patch):
    """The lines that the patch takes away and which are not of the first commit."""
    base = sh("git log --format=%h --grep='^base$' | tail -1", repo)[1].strip()
    bad, f, n = [], None, 0
    blame = {}
    for line in open(patch, encoding="utf-8").read().split("\n"):
        if line.startswith("--- a/"):
            f = line[6:]
        elif line.startswith("@@"):
            n = int(line.split()[1].split(",")[0][1:])
        elif line.startswith("-"):
            if f not in blame:
                blame[f] = sh("git blame -s HEAD -- " + f, repo)[1].split("\n")
            if not blame[f][n - 1].lstrip("^").startswith(base[:7]):
                bad.append(line)
            n += 1
        elif line.startswith(" "):
            n += 1
    return bad


def one(i, repo, verif, claimed):
    d = os.path.join(S, i)
    meta = json.load(open(os.path.join(d, "meta.json")))
    r = {"property": meta["property"]}
    sh("git checkout -q -- .", repo)
    bad = original_lines(repo, d + "/patch.diff")
    if bad:
        r["not_original"] = bad
    rc, o = sh("bash %s/demo.sh" % d, repo)
    r["demo_clean"] = rc
    if rc:
        r["demo_out"] = o[-500:]
    rc, o = sh("git apply %s/patch.diff" % d, repo)
    if rc:
        r["apply"] = o
    else:
        r["demo_bug"] = sh("bash %s/demo.sh" % d, repo)[0]
        if "--no-tests" not in FLAGS:
            r["tests_failed"] = tests_pass(repo)
            sh("git checkout -q -- . && git apply %s/patch.diff" % d, repo)
        r["caught"] = []
        for p in (claimed if "--all-checks" in FLAGS else [meta["property"]]):
            if p not in claimed or "--no-checks" in FLAGS:
                continue
            rc, o = sh("python3 check.py " + p, verif, VERIF_SEED="1", VERIF_TIER="quick",
                       GT_REPO=repo)
            if rc == 1 and "VIOLATION property=" + p in o:
                r["caught"].append(p)
            elif rc:
                r.setdefault("broken", []).append(p)
                r["broken_out"] = o[-800:]
    sh("git checkout -q -- .", repo)
    ok = (r.get("demo_clean") == 0 and r.get("demo_bug") and not r.get("tests_failed")
          and not bad and "apply" not in r)
    r["counts"] = bool(ok)
    print(i, "COUNTS" if ok else "BAD", "CAUGHT" if meta["property"] in r.get("caught", [])
          else "missed", json.dumps(r), flush=True)
    return i, r


def main():
    args = [a for a in sys.argv[1:] if not a.startswith("-")]
    jobs = int(([a[2:] for a in FLAGS if a.startswith("-j")] or ["1"])[0])
    claimed = [c["property"] for c in json.load(open(os.path.join(V, "MANIFEST.json")))["checks"]]
    work = tempfile.mkdtemp(prefix="seeded")
    places = queue.Queue()
    lock = threading.Lock()
    try:
        for j in range(jobs):
            shutil.copytree("/repo", "%s/repo%d" % (work, j), symlinks=True)
            shutil.copytree(V, "%s/verif%d" % (work, j), symlinks=True)
            places.put(("%s/repo%d" % (work, j), "%s/verif%d" % (work, j)))

        def job(i):
            where = places.get()
            try:
                i, r = one(i, where[0], where[1], claimed)
            finally:
                places.put(where)
            with lock:
                res = json.load(open(OUT)) if os.path.exists(OUT) else {}
                if "--no-checks" in FLAGS and i in res:
                    r.pop("caught", None)
                    r = dict(res[i], **r)
                if "--all-checks" in FLAGS:
                    r["all_checks"] = True
                res[i] = r
                with open(OUT, "w") as f:
                    json.dump(res, f, indent=1, sort_keys=True)

        with ThreadPoolExecutor(jobs) as ex:
            list(ex.map(job, args or sorted(os.listdir(S))))
    finally:
        shutil.rmtree(work)


main()
