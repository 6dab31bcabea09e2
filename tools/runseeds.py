"""Runs the check of each planted bug's property on a scratch copy with the bug: python3 tools/runseeds.py [ID ...]"""
import json, os, shutil, subprocess, sys, tempfile
from concurrent.futures import ThreadPoolExecutor
HERE = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))


def run(i):
    d = tempfile.mkdtemp(prefix="seed")
    try:
        meta = json.load(open(os.path.join(HERE, "seeded", i, "meta.json")))
        subprocess.check_call(["cp", "-a", "/repo", d + "/repo"])
        subprocess.check_call(["git", "-C", d + "/repo", "apply", os.path.join(HERE, "seeded", i, "patch.diff")])
        subprocess.check_call(["git", "clone", "-q", HERE, d + "/verif"])
        for f in subprocess.check_output(["git", "-C", HERE, "diff", "--name-only", "HEAD"], text=True).split() + \
                subprocess.check_output(["git", "-C", HERE, "ls-files", "-o", "--exclude-standard"], text=True).split():
            if os.path.exists(os.path.join(HERE, f)):
                os.makedirs(os.path.dirname(os.path.join(d, "verif", f)), exist_ok=True)
                shutil.copy(os.path.join(HERE, f), os.path.join(d, "verif", f))
        p = subprocess.run([sys.executable, "check.py", meta["property"]], cwd=d + "/verif", text=True, capture_output=True,
                           env=dict(os.environ, VERIF_REPO=d + "/repo", VERIF_TIER="quick", VERIF_SEED=os.environ.get("VERIF_SEED", "1")))
        ev = json.load(open(os.path.join(d, "verif", "evidence", meta["property"] + ".json")))
        v = [l for l in p.stdout.splitlines() if l.startswith("VIOLATION")]
        return i, meta["property"], p.returncode, v[:2], p.stderr[-200:] if p.returncode not in (0, 1) else "", ev.get("refuted") or ""
    finally:
        shutil.rmtree(d)


ids = sys.argv[1:] or sorted(os.listdir(os.path.join(HERE, "seeded")))
with ThreadPoolExecutor(4) as ex:
    for r in ex.map(run, ids):
        print(*r, flush=True)
