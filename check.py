#!/usr/bin/env python3
"""check.py PROPERTY            decide one property on /repo's current working tree
   check.py --replay FILE       run the failing input of a replay file again

Exit 0: every obligation decided holds (and nothing else was violated); 1: violation (VIOLATION line); 2: error.
Parts: (a) dv - verification conditions generated from /repo's source, discharged by z3; (b) rt - the property's
executable contract on the real code: replay of refuted obligations and labelled bounded stand-in.
"""
import hashlib, json, os, shutil, signal, subprocess, sys, tempfile, time

HERE = os.path.dirname(os.path.abspath(__file__))
REPO = os.environ.get("VERIF_REPO", "/repo")
RT_PY = os.environ.get("VERIF_RT_PY", "/opt/venv/bin/python")
DV_PY = os.environ.get("VERIF_DV_PY", "/opt/veriftools/pyvenv/bin/python")
if not os.path.exists(DV_PY):
    DV_PY = shutil.which("python3-vt") or sys.executable
TIER = os.environ.get("VERIF_TIER", "quick")
SEED = int(os.environ.get("VERIF_SEED", "1") or 1)
QUICK = dict(rt=25.0, dv=480.0, hint=40.0, lost=120.0)
THOROUGH = dict(rt=400.0, dv=500.0, hint=120.0, lost=200.0)
LIMIT = 900.0        # seconds a check may take
BUDGET = THOROUGH if TIER == "thorough" else QUICK


def env_rt(scratch):
    e = dict(os.environ)
    e.update(RT_SCRATCH=scratch, PYTHONPATH=REPO + os.pathsep + HERE, PYTHONDONTWRITEBYTECODE="1", HOME=scratch,
             TMPDIR=scratch, OPENBLAS_NUM_THREADS="1", OMP_NUM_THREADS="1")
    return e


class Rt(object):
    """The run-time side in its own process group and its own scratch directory."""

    def __init__(self, root, prop, seconds, seed, spec=None, tag=""):
        self.dir = os.path.join(root, "rt" + tag)
        os.makedirs(self.dir)
        cmd = [RT_PY, "-W", "ignore", "-m", "rt.main", prop, str(seconds), str(seed)]
        if spec is not None:
            f = os.path.join(root, "spec%s.json" % tag)
            with open(f, "w") as fh:
                json.dump(spec, fh)
            cmd.append(f)
        self.limit = seconds + 180
        self.err = open(os.path.join(root, "err" + tag), "w+")
        self.p = subprocess.Popen(cmd, cwd=self.dir, env=env_rt(self.dir), stdout=subprocess.PIPE, stderr=self.err,
                                  stdin=subprocess.DEVNULL, start_new_session=True, text=True)

    def result(self):
        try:
            out, _ = self.p.communicate(timeout=self.limit)
        except subprocess.TimeoutExpired:
            out = ""
        finally:
            try:
                os.killpg(self.p.pid, signal.SIGKILL)
            except OSError:
                pass
        for line in reversed((out or "").splitlines()):
            try:
                return json.loads(line)
            except ValueError:
                pass
        self.err.seek(0)
        return dict(status="error", message="the run-time side gave no answer:\n" + self.err.read()[-3000:])


def dv_run(root, prop):
    out = os.path.join(root, "dv.json")
    e = dict(os.environ)
    e.update(PYTHONPATH=HERE, PYTHONDONTWRITEBYTECODE="1", VERIF_REPO=REPO, VERIF_TIER=TIER, VERIF_SEED=str(SEED))
    err = open(os.path.join(root, "dv.err"), "w+")
    p = subprocess.Popen([DV_PY, "-m", "dv.run", prop, out, str(BUDGET["dv"])], cwd=root, env=e, stdout=err, stderr=err,
                         stdin=subprocess.DEVNULL, start_new_session=True)

    def result():
        try:
            p.wait(timeout=BUDGET["dv"] + 60)
        except subprocess.TimeoutExpired:
            pass
        finally:
            try:
                os.killpg(p.pid, signal.SIGKILL)
            except OSError:
                pass
        try:
            with open(out) as fh:
                return json.load(fh)
        except Exception:
            err.seek(0)
            return dict(error="the verifier gave no answer:\n" + err.read()[-3000:])
    return result


def replay_file(prop, data):
    d = os.path.join(HERE, "replays")
    os.makedirs(d, exist_ok=True)
    txt = json.dumps(data, indent=1, sort_keys=True, default=str)
    f = os.path.join(d, "%s-%s.json" % (prop, hashlib.sha256(txt.encode()).hexdigest()[:10]))
    with open(f, "w") as fh:
        fh.write(txt + "\n")
    return f


def open_findings(prop):
    """known_findings.txt: 'open: property=<id> match=<text> <what fails>' (fixed: lines suppress nothing)."""
    res = []
    try:
        for l in open(os.path.join(HERE, "known_findings.txt")):
            w = l.split(None, 3)
            if l.startswith("open:") and len(w) == 4 and w[1] == "property=" + prop and w[2].startswith("match="):
                res.append((w[2][6:], w[3].strip()))
    except IOError:
        pass
    return res


def main(prop):
    t0 = time.time()
    for d in ("evidence", "replays"):
        os.makedirs(os.path.join(HERE, d), exist_ok=True)
    root = tempfile.mkdtemp(prefix="hpelm-check-")
    try:
        return decide(prop, root, t0)
    finally:
        shutil.rmtree(root, ignore_errors=True)


def decide(prop, root, t0):
    dvr = dv_run(root, prop)
    rt = Rt(root, prop, BUDGET["rt"], SEED)
    r = rt.result()
    d = dvr()
    if r["status"] == "error":
        print("ERROR: " + r["message"])
        return 2
    if "error" in d:
        print("ERROR: " + d["error"])
        return 2
    obs = d["obligations"]
    proved = [o for o in obs if o["status"] == "proved"]
    refuted = [o for o in obs if o["status"] == "refuted"]
    failed = [o for o in obs if o["status"] == "failed"]     # the solver has a model of the negation, nothing to run
    undecided = [o for o in obs if o["status"] not in ("proved", "refuted", "failed")]
    fail = r if r["status"] == "fail" else None
    tried = [r]
    if (refuted or failed or undecided) and not fail:
        # the proof does not go through: look for a failing input with the solver's values and with other seeds
        hints = [o["hints"] for o in refuted if o.get("hints")][:20]
        left = LIMIT - 60 - (time.time() - t0)
        sec = max(20.0, min(BUDGET["hint"] if refuted else BUDGET["lost"], left))
        more = [Rt(root, prop, sec, SEED + 1000003 * (i + 1), dict(hints=hints) if hints and i == 0 else None, "x%d" % i)
                for i in range(4)]
        for x in more:
            r2 = x.result()
            if r2["status"] in ("ok", "fail"):
                tried.append(r2)
            if r2["status"] == "fail" and not fail:
                fail = r2
    violation = None
    if fail:
        data = dict(property=prop, kind="failing input", case=fail["case"], seed=fail["seed"], hints=fail.get("hints"),
                    message=fail["message"], input=fail["input"], failed_obligations=refuted + failed,
                    undecided_obligations=[o["name"] for o in undecided],
                    command="cd /verif && python3 check.py --replay <this file>")
        violation = (replay_file(prop, data), "", "%s: %s" % (fail["case"], fail["message"]))
    elif refuted or failed:
        data = dict(property=prop, kind="failed obligation", failed_obligations=refuted + failed,
                    undecided_obligations=[o["name"] for o in undecided])
        o = (refuted + failed)[0]
        violation = (replay_file(prop, data), " no-failing-input-found", o["name"] + ": " + o.get("reason", ""))
    bounded = [o for o in obs if o.get("scope", "unbounded") != "unbounded"]
    wall = time.time() - t0
    ev = dict(property=prop, tier=TIER, seed=SEED, wall_s=round(wall, 2), violations=1 if violation else 0)
    evals = sum(x.get("evaluations", 0) for x in tried)
    dist = sum(x.get("distinct", 0) for x in tried)
    cov = dict(evaluations=evals, distinct_nontrivial=dist,
               rule="inputs drawn by the seeded generators of the property's executable contract (rt/cases_*.py) inside its "
                    "preconditions; distinct = different drawn choices (sizes, types, options, batch, ranges); skipped draws "
                    "are not counted",
               samples=r.get("samples", []), runtime_per_contract=r.get("per_case", {}), runtime_skipped=r.get("skipped", 0),
               obligations=len(obs) - len(bounded), discharged=len([o for o in proved if o not in bounded]), refuted=len(refuted) + len(failed),
               undecided=[dict(name=o["name"], reason=o.get("reason", "")) for o in undecided],
               obligation_list=[dict(name=o["name"], status=o["status"], backend=o.get("backend", ""), solver_s=o.get("solver_s", 0),
                                     function=o.get("function", ""), scope=o.get("scope", "unbounded")) for o in obs],
               obligations_bounded=len(bounded), discharged_bounded=len([o for o in proved if o in bounded]),
               functions_under_contract=d.get("functions", []), functions_bounded_only=d.get("bounded_functions", []),
               solver_s=round(sum(o.get("solver_s", 0) for o in obs), 3), back_ends=d.get("backends", {}),
               checker_cmd="cd /verif && python3 check.py " + prop, trusted_base=d.get("trusted", []),
               vacuity=d.get("vacuity", {}),
               explanation=d.get("explanation", ""))
    ev["level"] = d.get("level", "exploration")
    ev["coverage"] = cov
    ev["assumptions"] = d.get("assumptions", [])
    with open(os.path.join(HERE, "evidence", prop + ".json"), "w") as fh:
        json.dump(ev, fh, indent=1, default=str)
        fh.write("\n")
    print("%s: %d obligations, %d discharged, %d refuted, %d failed, %d undecided; %d run-time evaluations (bounded); %.1f s" % (
        prop, len(obs), len(proved), len(refuted), len(failed), len(undecided), evals, wall))
    for o in undecided:
        print("  undecided: %s (%s)" % (o["name"], o.get("reason", "")[:200]))
    for o in failed:
        print("  failed: %s (%s)" % (o["name"], o.get("reason", "")[:400]))
    for o in refuted:
        print("  refuted: %s (%s)" % (o["name"], o.get("reason", "")[:400]))
    known = open_findings(prop)
    if violation:
        for m, what in known:
            if m in violation[2]:
                print("KNOWN-FINDING: property=%s %s" % (prop, what))
                return 0
        print("  " + violation[2].replace("\n", "\n  "))
        print("VIOLATION property=%s replay=%s%s" % (prop, violation[0], violation[1]))
        return 1
    if len(obs) == 0 and d.get("level") == "proof":
        print("ERROR: no obligations were generated")
        return 2
    if evals == 0:
        print("ERROR: no run-time case was inside the preconditions")
        return 2
    return 0


def replay(f):
    data = json.load(open(f))
    if data.get("kind") != "failing input":
        print(json.dumps(data, indent=1))
        print("the verifier gave no input; run: python3 check.py " + data["property"])
        return 1
    root = tempfile.mkdtemp(prefix="hpelm-replay-")
    try:
        r = Rt(root, data["property"], 60, 1, dict(replay=dict(case=data["case"], seed=data["seed"], hints=data["hints"]))).result()
    finally:
        shutil.rmtree(root, ignore_errors=True)
    print(json.dumps(r, indent=1))
    if r["status"] == "fail":
        print("VIOLATION property=%s replay=%s" % (data["property"], f))
        return 1
    return 0 if r["status"] in ("ok", "skip") else 2


if __name__ == "__main__":
    if len(sys.argv) == 3 and sys.argv[1] == "--replay":
        sys.exit(replay(sys.argv[2]))
    if len(sys.argv) != 2:
        sys.exit(__doc__)
    sys.exit(main(sys.argv[1]))
