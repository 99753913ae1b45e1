"""One shard of a check, in its own process: python worker.py JOB.json"""
import faulthandler, importlib, json, os, sys, time

def main():
    job = json.load(open(sys.argv[1]))
    root = job["root"]
    sys.path.insert(0, root)
    faulthandler.enable()
    spec = importlib.import_module("vlib.core")
    mode = job["mode"]
    if mode == "sim":
        sim = importlib.import_module("vlib.sim")
        sim.install(job["stage"])
    import snmp
    assert os.path.realpath(snmp.__file__).startswith(os.path.realpath(job["stage"])), snmp.__file__
    check = importlib.import_module("checks." + job["check"].lower())
    ctx = spec.Context(job["check"], job["seed"], job["tier"], job["stage"])
    ctx.shard = job["shard"]
    t0 = time.monotonic()
    groups = {g.name: g for g in check.GROUPS}
    if job.get("only"):
        name, index = job["only"]
        ctx.replaying = True
        ctx.run_case(groups[name], index)
    else:
        ctx.replaying = False
        # round-robin over groups so that a time cap cuts all of them evenly
        todo = []
        for g in check.GROUPS:
            if job.get("groups") and g.name not in job["groups"]:
                continue
            n = g.thorough if job["tier"] == "thorough" else g.quick
            idx = [i for i in range(n) if i % job["nshards"] == job["shard"]]
            todo += [((k + 0.5) / max(1, len(idx)), g, i) for k, i in enumerate(idx)]
        todo.sort(key=lambda t: t[0])
        total = len(todo)
        done = 0
        for _, g, i in todo:
            if ctx.full() or len(ctx.errors) > 20:
                break
            if time.monotonic() - t0 > job["budget"]:
                ctx.count("cases-cut-by-time-cap", total - done)
                break
            faulthandler.dump_traceback_later(job["hang"], exit=True)
            json_progress(job, g.name, i)
            ctx.run_case(g, i)
            done += 1
        faulthandler.cancel_dump_traceback_later()
    if hasattr(check, "finish"):
        try:
            check.finish(ctx)
        except spec.CaseFailed as f:
            ctx.record(f.key, f.message, f.detail)
    r = ctx.result()
    r["seconds"] = time.monotonic() - t0
    with open(job["out"] + ".tmp", "w") as f:
        json.dump(r, f)
    os.rename(job["out"] + ".tmp", job["out"])
    sys.stdout.flush()
    os._exit(0)

_pf = None
def json_progress(job, group, index):
    """Last case started, so that a crash or hang of the worker can be replayed."""
    global _pf
    if _pf is None:
        _pf = os.open(job["out"] + ".case", os.O_WRONLY | os.O_CREAT)
    os.pwrite(_pf, json.dumps([group, index]).ljust(200).encode(), 0)

main()
