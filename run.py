#!/opt/venv/bin/python
"""Runs one check: run.py C01 [--replay FILE] [--keep].

Stages a copy of /repo/snmp, builds the cffi extension in it, runs the check's
cases in parallel workers, writes evidence/<id>.json and prints the verdict.
Exit 0: held; 1: VIOLATION; 2: error or inconclusive.
"""
import importlib, json, os, shutil, signal, subprocess, sys, tempfile, time, ast

ROOT = os.path.dirname(os.path.abspath(__file__))
REPO = os.environ.get("VERIF_REPO", "/repo")
EVIDENCE = os.environ.get("VERIF_OUT") or os.path.join(ROOT, "evidence")
PY = sys.executable

def stage_copy(dst, native=True):
    shutil.copytree(os.path.join(REPO, "snmp"), os.path.join(dst, "snmp"),
                    ignore=shutil.ignore_patterns("__pycache__", "*.so", "*.o", "openssl.c", "*.pyd"))
    if native and os.environ.get("VERIF_EXT"):
        shutil.copy(os.environ["VERIF_EXT"], os.path.join(dst, "snmp"))      # only to try many Python changes quickly
    elif native:
        code = ("import sys, runpy\n"
                "ffi = runpy.run_path(sys.argv[1] + '/snmp/cffi/openssl.py')['ffi']\n"
                "ffi.compile(tmpdir=sys.argv[1], verbose=False)\n")
        p = subprocess.run([PY, "-c", code, dst], capture_output=True, text=True, cwd=dst, env=clean_env(dst))
        if p.returncode:
            raise RuntimeError("extension build failed:\n" + p.stdout[-2000:] + p.stderr[-2000:])

def clean_env(path, **extra):
    env = {k: v for k, v in os.environ.items() if not k.startswith("PYTHON")}
    env.update(PYTHONPATH=path, PYTHONDONTWRITEBYTECODE="1", PYTHONHASHSEED="0",
               OPENSSL_CONF=os.path.join(ROOT, "openssl-legacy.cnf"), **extra)
    return env

def load_known():
    try:
        data = json.load(open(os.path.join(ROOT, "known_findings.json")))
    except FileNotFoundError:
        return []
    return data.get("findings", [])

def selftest():
    """Confirms that the tools the checks need are there and that the extension builds."""
    tmp = tempfile.mkdtemp(prefix="pysnmp-mon-")
    try:
        stage_copy(tmp)
        p = subprocess.run([PY, "-c", "import snmp, Crypto; print('ok')"], env=clean_env(tmp), cwd=tmp)
        sys.exit(p.returncode)
    finally:
        shutil.rmtree(tmp, ignore_errors=True)

def main():
    sys.path.insert(0, ROOT)
    sys.dont_write_bytecode = True
    if sys.argv[1] == "--selftest":
        return selftest()
    prop = sys.argv[1].upper()
    tier = os.environ.get("VERIF_TIER", "quick")
    if "--thorough" in sys.argv:
        tier = "thorough"
    seed = int(os.environ.get("VERIF_SEED", "1"))
    only = None
    if "--replay" in sys.argv:
        rec = json.load(open(sys.argv[sys.argv.index("--replay") + 1]))
        only, seed, tier = [rec["group"], rec["index"]], rec["seed"], rec["tier"]
    t0 = time.monotonic()
    meta = importlib.import_module("checks.meta").META[prop]
    tmp = tempfile.mkdtemp(prefix="pysnmp-mon-")
    children = []
    code = 2
    def bye(*a):
        raise SystemExit(2)
    signal.signal(signal.SIGTERM, bye)
    try:
        code = run(prop, tier, seed, only, meta, tmp, children, t0)
    except SystemExit:
        raise
    except BaseException as e:
        import traceback
        traceback.print_exc()
        print(f"ERROR property={prop} {e}")
        code = 2
    finally:
        for p in children:
            if p.poll() is None:
                p.kill()
                p.wait()
        if "--keep" in sys.argv:
            print("kept", tmp)
        else:
            shutil.rmtree(tmp, ignore_errors=True)
    sys.stdout.flush()
    sys.exit(code)

def run(prop, tier, seed, only, meta, tmp, children, t0):
    variants = meta.get("variants", [dict(name="native", native=True)])
    for v in variants:
        d = os.path.join(tmp, v["name"])
        os.mkdir(d)
        if v.get("prepare"):
            importlib.import_module("vlib." + v["prepare"]).prepare(sys.modules["__main__"], d, tier)
        else:
            stage_copy(d, v.get("native", True))
    nshards = int(os.environ.get("VERIF_SHARDS") or meta.get("shards", 8))
    budget = float(os.environ.get("VERIF_BUDGET") or meta.get("budget", {}).get(tier, 240 if tier == "quick" else 3000))
    hang = meta.get("hang", 120)
    jobs = []
    for v in variants:
        if only and v.get("groups") and only[0] not in v["groups"]:
            continue
        n = 1 if only else max(1, min(nshards, v.get("shards", nshards)))
        for shard in range(n):
            d = os.path.join(tmp, v["name"])
            out = os.path.join(tmp, f"{v['name']}-{shard}.json")
            job = dict(check=prop, variant=v["name"], shard=shard, nshards=n, seed=seed, tier=tier, stage=d, only=only,
                       budget=budget, hang=hang, mode=v.get("mode", meta["mode"]), groups=v.get("groups"), root=ROOT, out=out)
            jf = out + ".job"
            json.dump(job, open(jf, "w"))
            env = clean_env(d, VERIF_VARIANT=v["name"], **v.get("env", {}))
            if v.get("envfn"):
                env.update(importlib.import_module("vlib." + v["prepare"]).env(d))
            jobs.append((job, v, [*v.get("wrap", []), PY, os.path.join(ROOT, "vlib", "worker.py"), jf], env))
    pending, running, finished = list(jobs), [], []
    limit = meta.get("parallel", os.cpu_count() or 4)
    while pending or running:
        while pending and len(running) < limit:
            job, v, cmd, env = pending.pop(0)
            log = open(job["out"] + ".log", "w")
            p = subprocess.Popen(cmd, env=env, stdout=log, stderr=log, cwd=tmp)
            children.append(p)
            running.append((p, job, v, time.monotonic()))
        time.sleep(0.02)
        still = []
        for p, job, v, st in running:
            if p.poll() is None:
                if time.monotonic() - st > budget + hang + 60:
                    p.kill()
                    p.wait()
                    finished.append((p, job, v))
                else:
                    still.append((p, job, v, st))
            else:
                finished.append((p, job, v))
        running = still
    counters, samples, hashes, violations, errors, maxima, evaluations = {}, {}, set(), [], [], {}, 0
    for p, job, v in finished:
        log = open(job["out"] + ".log", errors="replace").read()
        if os.path.exists(job["out"]):
            r = json.load(open(job["out"]))
            for k, n in r["counters"].items():
                counters[k] = counters.get(k, 0) + n
            for k, n in r["maxima"].items():
                maxima[k] = max(maxima.get(k, n), n)
            for k, lst in r["samples"].items():
                s = samples.setdefault(k, [])
                s += lst[:max(0, 2 - len(s))]
            hashes.update(r["hashes"])
            evaluations += r["evaluations"]
            violations += [dict(x, variant=v["name"]) for x in r["violations"]]
            errors += r["errors"]
        else:
            try:
                group, index = json.loads(open(job["out"] + ".case").read())
            except Exception:
                group, index = None, None
            desc = f"worker {v['name']}-{job['shard']} ended with status {p.returncode} in case {group}[{index}]"
            crash = meta.get("crash_is_violation")
            hung = "Timeout (" in log
            if crash and group is not None and (p.returncode < 0 or p.returncode in (66, 67)) and p.returncode != -9:
                violations.append(dict(key="crash", message=desc, group=group, index=index, seed=seed, tier=tier,
                                       variant=v["name"], detail=dict(log=log[-6000:])))
            elif hung and meta.get("hang_is_violation") and group is not None:
                violations.append(dict(key="hang", message=desc + " (no end in sight)", group=group, index=index,
                                       seed=seed, tier=tier, variant=v["name"], detail=dict(log=log[-6000:])))
            else:
                errors.append(desc + "\n" + log[-3000:])
        extra = meta.get("logscan")
        if extra:
            for key, msg in importlib.import_module("vlib." + extra).scan(job, log):
                violations.append(dict(key=key, message=msg, group="logscan", index=job["shard"], seed=seed, tier=tier,
                                       variant=v["name"], detail=dict(log=msg)))
    known = [k for k in load_known() if k["property"] == prop]
    new, old = [], {}
    for x in violations:
        for k in known:
            if x["key"] == k["key"]:
                old[k["key"]] = k["what"]
                break
        else:
            new.append(x)
    missing = []
    if not only and not new:
        for name, n in meta.get("required", {}).items():
            if counters.get(name, 0) < n:
                missing.append(f"{name}: {counters.get(name, 0)} < {n}")
    wall = time.monotonic() - t0
    coverage = dict(evaluations=evaluations, distinct_nontrivial=len(hashes), rule=meta["rule"],
                    samples=[dict(group=k, case=c) for k, lst in sorted(samples.items()) for c in lst][:24] or ["none"],
                    counters=counters, maxima=maxima, variants=[v["name"] for v in variants])
    evidence = dict(property=prop, tier=tier, seed=seed, level="exploration", coverage=coverage,
                    assumptions=meta.get("assumptions", []), wall_s=round(wall, 2), violations=len(new))
    if errors:
        evidence["errors"] = errors[:5]
    if missing:
        evidence["inconclusive"] = missing
    os.makedirs(EVIDENCE, exist_ok=True)
    if not only:
        ev = os.path.join(EVIDENCE, prop + ".json")
        with open(ev + ".tmp", "w") as f:
            json.dump(evidence, f, indent=1)
        os.rename(ev + ".tmp", ev)
    for k, what in sorted(old.items()):
        print(f"KNOWN-FINDING: property={prop} {what}")
    print(f"{prop} {tier} seed={seed}: {evaluations} evaluations, {len(hashes)} distinct, {wall:.1f}s")
    if only or os.environ.get("VERIF_VERBOSE"):
        print(json.dumps(dict(counters=counters, maxima=maxima), indent=1))
    if new:
        os.makedirs(os.path.join(EVIDENCE, "replay"), exist_ok=True)
        seen = set()
        for i, x in enumerate(new):
            if x["key"] in seen:
                continue
            seen.add(x["key"])
            path = os.path.join("evidence", "replay", f"{prop}-{len(seen)}.json")
            if not only:
                json.dump(x, open(os.path.join(EVIDENCE, "replay", os.path.basename(path)), "w"), indent=1)
            print(f"--- {x['key']}: {x['message']} [{x['group']} {x['index']}]")
            for k, d in x["detail"].items():
                print(f"    {k}: {d[:3000]}")
            print(f"VIOLATION property={prop} replay={path}")
        return 1
    if errors:
        for e in errors[:3]:
            print("ERROR", e)
        return 2
    if missing:
        print("INCONCLUSIVE", "; ".join(missing))
        return 2
    return 0

if __name__ == "__main__":
    main()
