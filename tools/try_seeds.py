"""Run the checks of the seeded bugs' properties against each bug, in a scratch
copy (development tool).  usage: try_seeds.py [id ...] [--all-checks]"""
import json, os, shutil, subprocess, sys, tempfile, time
from concurrent.futures import ThreadPoolExecutor
ROOT = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))


def run(job):
    sid, prop = job
    tmp = tempfile.mkdtemp(prefix="try-")
    try:
        repo = os.path.join(tmp, "repo")
        shutil.copytree("/repo", repo, symlinks=True, ignore=shutil.ignore_patterns("results"))
        subprocess.check_call(["git", "-C", repo, "apply", os.path.join(ROOT, "seeded", sid, "patch.diff")])
        t = time.time()
        env = dict(os.environ, VERIF_REPO=repo, VERIF_SEED=os.environ.get("VERIF_SEED", "1"))
        p = subprocess.run(["python3-vt", "run.py", prop, "--tier", "quick", "--no-evidence"], cwd=ROOT, env=env,
                           stdout=subprocess.PIPE, stderr=subprocess.STDOUT)
        out = p.stdout.decode(errors="replace")
        v = [l for l in out.splitlines() if l.startswith("VIOLATION")]
        return sid, prop, p.returncode, time.time() - t, (v or out.strip().splitlines()[-1:])[:1], out
    finally:
        shutil.rmtree(tmp, ignore_errors=True)


def main():
    ids = [a for a in sys.argv[1:] if not a.startswith("-")] or sorted(os.listdir(os.path.join(ROOT, "seeded")))
    allc = [a[8:].split(",") for a in sys.argv if a.startswith("-checks=")]
    jobs = []
    for s in ids:
        m = json.load(open(os.path.join(ROOT, "seeded", s, "meta.json")))
        for p in (allc[0] if allc else [m["property"]]):
            jobs.append((s, p))
    with ThreadPoolExecutor(int(os.environ.get("JOBS", "2"))) as ex:
        for sid, prop, rc, dt, v, out in ex.map(run, jobs):
            print("%-32s %-4s rc=%d %5.0fs %s" % (sid, prop, rc, dt, v), flush=True)
            if "-v" in sys.argv:
                print(out[-1500:])


main()
