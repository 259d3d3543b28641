"""mkbug.py FILE...: plant the changes a batch file describes, confirm them in a scratch copy, keep the confirmed ones.

A batch file calls bug(id, prop, file, [(old, new), ...], needs, breaks, demo) for each change."""
import json, os, shutil, subprocess, sys, tempfile
from concurrent.futures import ThreadPoolExecutor

VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
BASE = subprocess.run(["git", "-C", "/repo", "rev-list", "--max-parents=0", "HEAD"], capture_output=True, text=True).stdout.strip()
BUGS = []
PRE = "import os\nimport sys\nsys.path.insert(0, os.getcwd())\nimport numpy as np\n"
SH = '#!/bin/bash\nexport PYTHONDONTWRITEBYTECODE=1 MPLBACKEND=Agg MPLCONFIGDIR=/opt/venv/mplconfig\nexec /opt/venv/bin/python -W ignore "$(dirname "$0")/demo.py"\n'


def bug(id, prop, file, edits, needs, breaks, demo):
    BUGS.append(dict(id=id, prop=prop, file=file, edits=edits, needs=needs, breaks=breaks, demo=demo))


def sh(cmd, cwd, env=None, timeout=300):
    e = dict(os.environ, PYTHONDONTWRITEBYTECODE="1", MPLBACKEND="Agg", MPLCONFIGDIR="/opt/venv/mplconfig", OMP_NUM_THREADS="1")
    e.update(env or {})
    r = subprocess.run(cmd, cwd=cwd, env=e, capture_output=True, text=True, timeout=timeout)
    return r.returncode, r.stdout + r.stderr


def copy():
    d = tempfile.mkdtemp(prefix="aerobug_")
    t = os.path.join(d, "repo")
    shutil.copytree("/repo", t, ignore=shutil.ignore_patterns("__pycache__", ".pytest_cache"))
    return d, t


def original(t, file, n0, lines):
    """are the given lines of the file (1-based) the ones of the original repository?"""
    bad = []
    for k in lines:
        rc, out = sh(["git", "blame", "-s", "-l", "-L", "%d,%d" % (k, k), "HEAD", "--", file], t)
        commit = out.split()[0].lstrip("^")
        rc, _ = sh(["git", "merge-base", "--is-ancestor", commit, BASE], t)
        if rc:
            bad.append(k)
    return bad


def one(b):
    d, t = copy()
    try:
        p = os.path.join(t, b["file"])
        s = open(p).read()
        for old, new in b["edits"]:
            if s.count(old) != 1:
                return b["id"], "old text found %d times: %r" % (s.count(old), old[:60])
            s = s.replace(old, new)
        open(p, "w").write(s)
        rc, diff = sh(["git", "diff"], t)
        rc, d0 = sh(["git", "diff", "-U0"], t)
        lines = []
        for l in d0.splitlines():
            if l.startswith("@@"):
                a = l.split()[1][1:]
                k, n = (a.split(",") + ["1"])[:2]
                lines += list(range(int(k), int(k) + int(n)))
        bad = original(t, b["file"], 0, lines)
        note = " (changes lines of a fix: %s)" % bad if bad else ""
        rc, out = sh(["/opt/venv/bin/python", "-m", "pytest", "-q", "--no-cov", "-p", "no:cacheprovider", "tests"], t, {"PYTHONPATH": t})
        if rc:
            return b["id"], "TESTS FAIL: " + " | ".join(l for l in out.splitlines() if l.startswith("FAILED"))[:300]
        out_dir = os.path.join(VERIF, "seeded", b["id"])
        tmp = os.path.join(d, "kit")
        os.makedirs(tmp)
        open(os.path.join(tmp, "patch.diff"), "w").write(diff)
        open(os.path.join(tmp, "demo.py"), "w").write(PRE + b["demo"].strip() + "\n")
        open(os.path.join(tmp, "demo.sh"), "w").write(SH)
        json.dump({"property": b["prop"], "needs": b["needs"], "what_it_breaks": b["breaks"]}, open(os.path.join(tmp, "meta.json"), "w"), indent=1)
        rc1, o1 = sh(["bash", os.path.join(tmp, "demo.sh")], t)
        sh(["git", "checkout", "-q", "--", "."], t)
        rc0, o0 = sh(["bash", os.path.join(tmp, "demo.sh")], t)
        if rc0 or not rc1:
            return b["id"], "DEMO unchanged=%d changed=%d\n%s\n%s" % (rc0, rc1, o0[-600:], o1[-300:])
        if bad:
            return b["id"], "not kept" + note
        shutil.rmtree(out_dir, ignore_errors=True)
        shutil.copytree(tmp, out_dir)
        return b["id"], "kept"
    finally:
        shutil.rmtree(d, ignore_errors=True)


if __name__ == "__main__":
    for f in sys.argv[1:]:
        exec(open(f).read())
    with ThreadPoolExecutor(8) as ex:
        for r in ex.map(one, BUGS):
            print(*r)
