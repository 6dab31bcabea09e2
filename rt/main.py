"""python -m rt.main PROPERTY SECONDS SEED [HINTS.json]  -> one JSON line on the original stdout."""
import json, os, shutil, sys, tempfile, random

os.environ.setdefault("OPENBLAS_NUM_THREADS", "1")
os.environ.setdefault("OMP_NUM_THREADS", "1")
sys.dont_write_bytecode = True


def main():
    out = os.fdopen(os.dup(1), "w")
    prop, seconds, seed = sys.argv[1], float(sys.argv[2]), int(sys.argv[3])
    spec = json.load(open(sys.argv[4])) if len(sys.argv) > 4 else {}
    from rt import base
    import rt.cases
    scratch = os.environ["RT_SCRATCH"]
    os.chdir(scratch)
    if "replay" in spec:
        r = spec["replay"]
        fn = [c for c in base.CASES[prop] if c[0] == r["case"]][0][1]
        st, msg, log = base.run_one(prop, r["case"], fn, r["seed"], r.get("hints"))
        res = dict(status=st, message=msg, input=log)
    else:
        res = base.campaign(prop, seed, seconds, hints=spec.get("hints", ()), only=spec.get("only"))
    out.write(json.dumps(res, default=str) + "\n")
    out.flush()
    os._exit(0)


if __name__ == "__main__":
    main()
