"""trybug.py [ID...] [--all]: which checks catch the changes of /verif/seeded (checks run on a scratch copy)."""
import json, os, shutil, subprocess, sys, tempfile
from concurrent.futures import ThreadPoolExecutor

VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
ALL = sorted(f[:-3].upper() for f in os.listdir(os.path.join(VERIF, "aerostat/props")) if f[0] == "c" and f[1:3].isdigit())


def one(job):
    b, props = job
    d = tempfile.mkdtemp(prefix="aerotry_")
    t = os.path.join(d, "repo")
    try:
        shutil.copytree("/repo", t, ignore=shutil.ignore_patterns("__pycache__", ".pytest_cache"))
        src = os.path.join(VERIF, "seeded", b, "patch.diff")
        r = subprocess.run(["git", "apply", src], cwd=t, capture_output=True, text=True)
        if r.returncode:
            return b, {"?": "patch does not apply"}
        res = {}
        for p in props:
            r = subprocess.run([os.path.join(VERIF, "run.py"), p], cwd=VERIF, capture_output=True, text=True,
                               env=dict(os.environ, AEROSTAT_REPO=t, AEROSTAT_EVIDENCE=d))
            if r.returncode:
                first = [l for l in (r.stdout + r.stderr).splitlines() if "VIOLATION" not in l and l.strip()]
                res[p] = (r.returncode, (first or [""])[0][:140])
        return b, res
    finally:
        shutil.rmtree(d, ignore_errors=True)


if __name__ == "__main__":
    args = [a for a in sys.argv[1:] if not a.startswith("-")]
    every = "--all" in sys.argv
    ids = args or sorted(os.listdir(os.path.join(VERIF, "seeded")))
    jobs = []
    for b in ids:
        own = json.load(open(os.path.join(VERIF, "seeded", b, "meta.json")))["property"]
        jobs.append((b, ALL if every else [own]))
    with ThreadPoolExecutor(8) as ex:
        for b, res in ex.map(one, jobs):
            own = json.load(open(os.path.join(VERIF, "seeded", b, "meta.json")))["property"]
            hit = own in res and res[own][0] == 1
            print("%-28s %s %s  others: %s %s" % (b, own, "CAUGHT" if hit else "missed", " ".join("%s%s" % (p, "" if v[0] == 1 else "(rc%s)" % v[0]) for p, v in res.items() if p != own), res.get(own, ("", ""))[1]))
