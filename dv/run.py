"""python -m dv.run PROPERTY OUT.json SECONDS: generates and discharges the property's obligations from /repo's source."""
import importlib, json, multiprocessing, os, pkgutil, random, sys, time

WORKERS = int(os.environ.get("DV_WORKERS", "7"))


def work(prop, i, deadline, conn):
    from dv import smt, spec
    name, fn, bounded, about = spec.REG[prop][i]
    t0 = time.time()
    rnd = random.Random(int(os.environ.get("VERIF_SEED", "1") or 1) * 1000 + i)
    res, m = spec.run_harness(prop, name, fn, bounded, deadline, rnd)
    vac = None
    if getattr(m, "end_pc", None) is not None:
        vac = m.end_pc
    conn.send(dict(name=name, sec=time.time() - t0, bounded=bounded,
                   obligations=[dict(name=r.name, status=r.status, reason=r.reason, backend=r.backend, solver_s=round(r.sec, 3),
                                     function=name, scope=r.bounded or "unbounded", hints=hints(r.hints)) for r in res],
                   called=sorted(m.called), assumptions=sorted(m.assumptions), vacuity=vac,
                   queries=smt.STATS["queries"], solver=smt.STATS["seconds"]))
    conn.close()


def hints(h):
    if not h:
        return None
    out = {}
    for k, v in h.items():
        if any(c in k for c in "~?!"):
            continue
        try:
            f = float(v)
        except (TypeError, ValueError):
            continue
        out[k] = int(f) if f == int(f) else f
    return out


def load():
    import dv.h
    for x in pkgutil.iter_modules(dv.h.__path__):
        importlib.import_module("dv.h." + x.name)


def run(prop, limit):
    from dv import spec
    load()
    items = spec.REG.get(prop, [])
    deadline = time.time() + limit - 5
    ctx = multiprocessing.get_context("fork")
    todo = sorted(range(len(items)), key=lambda i: -spec.COST.get((prop, items[i][0]), 0))
    live, done = {}, {}
    while todo or live:
        while todo and len(live) < WORKERS and time.time() < deadline:
            i = todo.pop(0)
            a, b = ctx.Pipe(False)
            p = ctx.Process(target=work, args=(prop, i, deadline, b))
            p.start()
            b.close()
            live[i] = (p, a)
        if time.time() >= deadline:
            for i in todo:
                done[i] = None
            todo = []
        for i, (p, a) in list(live.items()):
            if a.poll(0.02):
                try:
                    done[i] = a.recv()
                except EOFError:
                    done[i] = None
                p.join(2)
                del live[i]
            elif not p.is_alive():
                done[i] = done.get(i)
                del live[i]
            elif time.time() > deadline + 3:
                p.kill()
                done[i] = None
                del live[i]
    obs, called, bcalled, ass, vac = [], set(), set(), set(), {}
    q = 0
    for i, (name, fn, bounded, about) in enumerate(items):
        r = done.get(i)
        if r is None:
            obs.append(dict(name=name + ": all obligations", status="undecided", reason="no answer within the time budget",
                            backend="", solver_s=0, function=name, scope=bounded or "unbounded", hints=None))
            continue
        obs += r["obligations"]
        (bcalled if bounded else called).update(r["called"])
        ass.update(r["assumptions"])
        q += r["queries"]
        vac[name] = r["vacuity"]
    from dv import levels
    back = {}
    for o in obs:
        if o["status"] == "proved":
            for b in o["backend"].split("+"):
                back[b] = back.get(b, 0) + 1
    names = [o["name"] for o in obs]
    return dict(obligations=obs, functions=sorted(called), bounded_functions=sorted(bcalled - called), backends=back,
                trusted=levels.TRUSTED + levels.TRUSTED_OF.get(prop, []), vacuity=vac, queries=q,
                explanation=levels.NOTES.get(prop, ""), level=levels.LEVELS.get(prop, "exploration"),
                assumptions=levels.ASSUMED + sorted(ass), duplicates=len(names) - len(set(names)))


def main():
    prop, out, limit = sys.argv[1], sys.argv[2], float(sys.argv[3])
    res = run(prop, limit)
    with open(out + ".tmp", "w") as fh:
        json.dump(res, fh)
    os.rename(out + ".tmp", out)


if __name__ == "__main__":
    main()
