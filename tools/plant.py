"""Make planted bugs (development tool; no check uses it).

usage: plant.py SPEC.py [SPEC.py ...]   (-n: skip the test suite)

A spec defines PLANTS, a list of dicts: id, property, needs, breaks, edits
[(file under src/aaf2, old, new)], demo (Python source run with the tree's src
on the path; must exit non-zero with the change).  The tool copies /repo,
applies the edits, checks demo and stable tests, and writes seeded/<id>/.
"""
import json, os, shutil, subprocess, sys, tempfile
from concurrent.futures import ThreadPoolExecutor

ROOT = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
DEMO_SH = '''#!/bin/bash
# run in the root of the source tree
exec env PYTHONPATH="$PWD/src" PYTHONDONTWRITEBYTECODE=1 PYTHONHASHSEED=0 timeout 250 python3 "$(dirname "$0")/demo.py"
'''


def demo(d, repo):
    p = subprocess.run(["bash", os.path.join(d, "demo.sh")], cwd=repo, stdout=subprocess.PIPE, stderr=subprocess.STDOUT)
    return p.returncode, p.stdout.decode(errors="replace")[-600:]


def blame(repo, files, diff):
    base = subprocess.check_output(["git", "-C", repo, "rev-list", "--max-parents=0", "HEAD"]).decode().split()[0]
    res, name, n = [], None, 0
    for l in diff.splitlines():
        if l.startswith("--- a/"):
            name = l[6:]
            who = subprocess.check_output(["git", "-C", repo, "blame", "-s", "-l", "HEAD", "--", name]).decode().splitlines()
        elif l.startswith("@@"):
            n = int(l.split("-")[1].split(",")[0].split(" ")[0])
        elif name and l.startswith("-"):
            if not who[n - 1].lstrip("^").startswith(base[:39]):
                res.append((name, n))
            n += 1
        elif name and l.startswith(" "):
            n += 1
    return res


def one(s, tests=True):
    tmp = tempfile.mkdtemp(prefix="plant-")
    try:
        repo = os.path.join(tmp, "repo")
        shutil.copytree("/repo", repo, symlinks=True, ignore=shutil.ignore_patterns("results"))
        for f, old, new in s["edits"]:
            p = os.path.join(repo, "src/aaf2", f)
            t = open(p).read()
            if t.count(old) != 1:
                return s["id"], "edit matches %d times in %s" % (t.count(old), f)
            open(p, "w").write(t.replace(old, new))
        d = os.path.join(tmp, "seed")
        os.mkdir(d)
        diff = subprocess.check_output(["git", "-C", repo, "diff"])
        open(os.path.join(d, "patch.diff"), "wb").write(diff)
        open(os.path.join(d, "demo.sh"), "w").write(DEMO_SH)
        open(os.path.join(d, "demo.py"), "w").write(s["demo"].lstrip("\n"))
        json.dump({"property": s["property"], "needs": s["needs"], "what_it_breaks": s["breaks"]},
                  open(os.path.join(d, "meta.json"), "w"), indent=1)
        rc, out = demo(d, "/repo")
        if rc:
            return s["id"], "demo fails on the unchanged tree: " + out
        rc, out = demo(d, repo)
        if not rc:
            return s["id"], "demo passes with the change: " + out
        res = out.strip().splitlines()[-1] if out.strip() else ""
        # the lines changed must be of the original repository
        own = blame(repo, [e[0] for e in s["edits"]], diff.decode())
        if own:
            return s["id"], "changes lines of our own commits: %s" % own[:3]
        if tests:
            env = dict(os.environ, PYTHONDONTWRITEBYTECODE="1", PYTHONHASHSEED="0", TZ="UTC",
                       PYTHONPATH="%s/src:%s/tests" % (repo, repo))
            x = os.path.join(tmp, "j.xml")
            subprocess.run(["/opt/venv/bin/python", "-m", "pytest", "-q", "-p", "no:cacheprovider", "-p", "no:xdist",
                            "--timeout=120", "--continue-on-collection-errors", "-o", "junit_family=xunit2",
                            "--junitxml=" + x, "tests"], cwd=repo, env=env, stdout=subprocess.DEVNULL, stderr=subprocess.DEVNULL)
            import xml.etree.ElementTree as ET
            ok = set()
            for c in ET.parse(x).getroot().iter("testcase"):
                if not any(k.tag in ("failure", "error", "skipped") for k in c):
                    ok.add("%s::%s" % (c.get("classname"), c.get("name")))
            want = json.load(open("/opt/vp/BASELINE.json"))["stable"]
            bad = [w for w in want if w not in ok]
            if bad:
                return s["id"], "tests fail: %s" % bad[:4]
        dst = os.path.join(ROOT, "seeded", s["id"])
        shutil.rmtree(dst, ignore_errors=True)
        shutil.copytree(d, dst)
        return s["id"], "ok (%s)" % res[:100]
    finally:
        shutil.rmtree(tmp, ignore_errors=True)


def main():
    args = [a for a in sys.argv[1:] if a != "-n"]
    plants = []
    for a in args:
        ns = {}
        exec(open(a).read(), ns)
        plants += ns["PLANTS"]
    with ThreadPoolExecutor(4) as ex:
        for i, r in ex.map(lambda s: one(s, "-n" not in sys.argv), plants):
            print(i, r, flush=True)


main()
