"""C23: any number of threads share managers; nothing deadlocks, gets lost or is handed out twice."""
import gc, random, sys, threading, time
from vlib.core import Group
from vlib import sim as S, world as W, scenario as Sc, agent as A, ref_ber as R
from checks import c05

SERVED = ("ok", "error")

def judge(w, lossless, alone=True):
    """Everything a single thread could rely on still holds."""
    W.judge_match(w)
    W.judge_outcomes(w)
    W.judge_schedule(w)
    c05.judge(w)
    seen = {}
    for tx in w.txs:
        if tx.version == 3 and tx.msg and tx.msg.level == 2:
            if tx.msg.problem:
                w.fail("corrupt", "a message does not open: " + tx.msg.problem)
            key = (tx.msg.engine, tx.msg.username, tx.msg.salt)
            if key in seen:
                w.fail("repeat", f"a salt was used for two messages: {tx.msg.salt.hex()}")
            seen[key] = tx.t
            w.ctx.count("salts")
    for q in w.reqs:
        if q.outcome is None:
            continue
        w.ctx.count("operations")
        if lossless and q.outcome != "ok":
            w.fail("disturbed", f"a request ended with {q.outcome} {q.detail} although its agent answers and no packet was lost", q)
    together = [(q.created, q.wait1) for q in w.reqs if q.wait1 is not None]
    together.sort()
    ends, most = [], 0
    for a, b in together:
        ends = [e for e in ends if e > a] + [b]
        most = max(most, len(ends))
    w.ctx.maximum("operations-at-once", most)

def preempting(rng, **kw):
    return dict(dict(line=rng.choice([.02, .05, .1, .2, .4]), switch=rng.choice([.2, .5, 1.0]), opcodes=rng.random() < .3), **kw)

def crowd(ctx, rng, i):
    """Threads issue, wait and drop on shared managers while the engine gets further managers and users."""
    lossless = i % 2 == 0
    if lossless:
        # nothing is ever sent twice: a lost wake-up or a lost datagram shows
        o = dict(timeouts=[8.0], periods=[20.0], dropping=0)
    else:
        o = dict(loss=.1, dup=.2, timeouts=[.6, 1.5], periods=[.1, .25], dropping=.15)
    w = W.World(ctx, rng, sim=preempting(rng), mixlevels=.2, **o)
    r = random.Random(rng.getrandbits(64))
    def main():
        Sc.setup(w, versions=(0, 1, 3), agents=rng.choice([1, 1, 2]))
        Sc.engine_and_managers(w, versions=rng.choice([(3,), (3,), (0, 1, 3), (0,), (1,)]), managers=rng.choice([1, 1, 2, 3]))
        base = list(w.mans)
        ts = []
        for k in range(rng.choice([3, 4, 6])):
            plan = [w.plan(rng.choice(base)) for _ in range(rng.choice([2, 3, 4]))]
            ts.append(w.sim.spawn(Sc.program, w, random.Random(rng.getrandbits(64)), plan))
        # this thread owns the engine
        for k in range(rng.choice([0, 2, 5])):
            x = r.random()
            if x < .5:
                a = r.choice(w.agents)
                kw = {}
                if r.random() < .6:
                    kw["localAddress"] = ("10.0.0.%d" % r.choice([7, 8, 9]), r.choice([0, 5000 + k]))
                m = w.add_manager(a, r.choice([0, 1, 3, 3]), give_engine=r.random() < .4, **kw)
                ctx.count("managers-meanwhile")
                if r.random() < .7:
                    q = w.plan(m)
                    ts.append(w.sim.spawn(w.issue, q, True))
            elif x < .7:
                ns = r.choice(w.agents).namespace
                W.add_user(w.engine, W.make_user(r, b"more%d" % k, r.choice([0, 1, 2])), ns)
                ctx.count("users-meanwhile")
            elif x < .85:
                ns = r.choice(sorted(w.users))
                W.add_user(w.engine, r.choice(w.users[ns]), ns)
                ctx.count("users-meanwhile")
            else:
                w.sim.sleep(r.choice([0, .01, .3]))
        w.sim.wait_all(ts)
        Sc.close(w)
    w.run(main)
    judge(w, lossless)
    for tx in w.txs:
        if tx.bad:
            w.fail("corrupt", "a malformed message was sent: " + tx.bad)

def draws(ctx, rng, i):
    """Threads that do nothing but draw identifiers and send, switched at every step."""
    v = (0, 1, 3)[i % 3]
    w = W.World(ctx, rng, sim=preempting(rng, line=rng.choice([.2, .4, .6]), switch=1.0, opcodes=rng.random() < .5), timeouts=[8.0], periods=[20.0], dropping=0, mixlevels=0)
    def main():
        Sc.setup(w, versions=(v,), agents=1, levels=(0,))
        Sc.engine_and_managers(w, versions=(v,), managers=rng.choice([1, 2]))
        for m in w.mans:
            w.issue(w.plan(m), wait=True)
        def work(qs):
            for q in qs:
                w.issue(q)
        w.sim.wait_all([w.sim.spawn(work, [w.plan(rng.choice(w.mans)) for _ in range(6)]) for _ in range(rng.choice([3, 5]))])
        for q in w.reqs:
            if q.outcome is None:
                w.wait(q)
        Sc.close(w)
    w.run(main)
    judge(w, True)
    ctx.count("draws", len(w.reqs))

def settling(ctx, rng, i):
    """Threads meet on a v3 manager that is not synchronized, falls out of time, or finds another engine."""
    kind = ["fresh", "known", "reboot", "engine", "late", "late"][i % 6]
    # nothing may depend on a retransmission when all is answered
    patient = kind != "late" and i // 6 % 2 == 0
    w = W.World(ctx, rng, sim=preempting(rng, early=rng.choice([0, 1e-4]), jitter=0), timeouts=[9.0], periods=[20.0 if patient else .4], dropping=0, mixlevels=rng.choice([0, .4]), dup=rng.choice([0, .3]))
    def main():
        Sc.setup(w, versions=(3,), agents=1, levels=rng.choice([(0,), (1,), (2,), (0, 1, 2)]), boots=5, uptime=1000.0)
        a = w.agents[0]
        Sc.engine_and_managers(w, versions=(3,), managers=rng.choice([1, 1, 2]), give_engine=kind == "known" or (kind == "late" and rng.random() < .4))
        if kind in ("reboot", "engine"):
            for m in w.mans:
                w.issue(w.plan(m), wait=True)
            w.sim.sleep(rng.choice([0, 1]))
            kw = dict(engine=b"\x80\x00\x1f\x88" + rng.randbytes(8)) if kind == "engine" else {}
            a.reboot(w.sim.now, **kw)
        if kind == "late":
            # the first probes are not answered: they are repeated, or die with their owner
            t = w.sim.now + rng.choice([.1, .3, .39, .41, .5])
            a.silent = lambda rec: rec.t < t
        reqs = []
        for _ in range(rng.choice([2, 3, 5])):
            if kind == "late" and rng.random() < .4:
                q = w.plan(rng.choice(w.mans), timeout=rng.choice([.1, .3, .4]))
            else:
                q = w.plan(rng.choice(w.mans))
            reqs.append(q)
        at = w.sim.now
        def go(q, late):
            w.sim.sleep(late)
            w.issue(q, wait=True)
        w.sim.wait_all([w.sim.spawn(go, q, rng.choice([0, 0, 1e-3, 2e-3, 3e-3, .3, .4])) for q in reqs])
        Sc.close(w)
    w.run(main)
    judge(w, False)
    ctx.count("settling:" + kind)
    ctx.count("patient", patient)
    for q in w.reqs:
        if q.timeout > 1 and q.outcome != "ok":
            w.fail("starved", f"a request ended with {q.outcome} {q.detail} although its agent answers", q)

def collect(ctx, rng, i):
    """The garbage collector may release a request or a manager at any moment, in any thread, whatever that thread holds."""
    sim = preempting(rng)
    # a held request whose probe's owner has gone is sent when its own period is over
    warm = i % 2 == 0
    w = W.World(ctx, rng, sim=sim, timeouts=[8.0], periods=[20.0 if warm else .4], dropping=0, mixlevels=.2)
    r = random.Random(rng.getrandbits(64))
    rate = r.choice([.002, .01, .05])
    pool, n = [], [0]
    def main():
        Sc.setup(w, versions=(0, 1, 3), agents=rng.choice([1, 2]))
        Sc.engine_and_managers(w, versions=rng.choice([(3,), (3,), (0, 1, 3), (0, 1)]), managers=rng.choice([1, 2, 3]))
        if warm:
            for m in w.mans:
                w.issue(w.plan(m), wait=True)
        def spare():
            for _ in range(r.choice([3, 6])):
                m = r.choice(w.mans)
                q = w.plan(m)
                q.spare = True
                w.issue(q)
                if q.handle is not None:
                    pool.append(q.handle)
                    q.handle, q.dropped = None, 1e17
            for _ in range(r.choice([0, 2])):
                # a manager whose engine is known is registered until it goes
                x = r.choice(w.agents)
                if x.namespace in w.users and w.users[x.namespace]:
                    m = w.add_manager(x, 3, give_engine=True)
                    pool.append(m.obj)
                    w.mans.remove(m)
        spare()
        def release():
            if pool and r.random() < rate:
                obj = pool.pop(r.randrange(len(pool)))
                n[0] += 1
                before = w.sim.on_line
                w.sim.on_line = None
                try:
                    del obj
                finally:
                    w.sim.on_line = before
        w.sim.on_line = release
        ts = []
        for k in range(rng.choice([1, 2, 4])):
            plan = [w.plan(rng.choice(w.mans)) for _ in range(rng.choice([2, 4]))]
            ts.append(w.sim.spawn(Sc.program, w, random.Random(rng.getrandbits(64)), plan))
        for k in range(3):
            if r.random() < .5:
                W.add_user(w.engine, W.make_user(r, b"more%d" % k, r.choice([0, 1, 2])), r.choice(w.agents).namespace)
            if r.random() < .5:
                spare()
            w.sim.sleep(r.choice([0, 1e-3, .01]))
        w.sim.wait_all(ts)
        w.sim.on_line = None
        del pool[:]
        for m in w.mans:
            w.issue(w.plan(m), wait=True)
        # what was registered is released: another namespace may have the engines now
        mans, w.mans[:] = w.mans[:], []
        for m in mans:
            m.obj = None
        # the listener may be the last to let go of one, on its way out of a callback
        w.sim.sleep(1.0)
        e = w.engine
        for k, x in enumerate(w.agents):
            ns = "free%d" % k
            u = W.make_user(r, b"free", 1)
            W.add_user(e, u, ns)
            try:
                h = e.Manager(x.addr, engineID=x.engine, defaultUserName="free", namespace=ns)
                ctx.count("released")
            except Exception as err:
                w.fail("not-released", f"an engine that nothing uses any more was still taken: {type(err).__name__}: {err}")
        del e, h
        Sc.close(w)
        w.mans[:] = mans
    w.run(main)
    ctx.count("collected", n[0])
    W.judge_match(w)
    W.judge_outcomes(w)
    c05.judge(w)
    for q in w.reqs:
        if q.outcome not in (None, "ok"):
            w.fail("disturbed", f"a request ended with {q.outcome} {q.detail} although its agent answers and no packet was lost", q)
        if q.outcome:
            ctx.count("operations")

def real(ctx, rng, i):
    """Real threads that the interpreter switches as often as it can, with a busy garbage collector."""
    import snmp, socket
    from checks.c19 import RealAgent
    s = socket.socket(socket.AF_INET, socket.SOCK_DGRAM)
    s.bind(("127.0.0.1", 0))
    users = [W.make_user(rng, b"user0", rng.choice([0, 1, 2, 2]))]
    a = A.Agent(s.getsockname(), random.Random(rng.random()), communities=(b"public",), engine=b"\x80\0\1\2" + rng.randbytes(6), boots=5, now=time.time(), users=users)
    srv = RealAgent(a, s)
    sent = []
    srv.seen = sent.append
    srv.start()
    e = snmp.Engine(autowait=False)
    W.add_user(e, users[0])
    ms = [e.Manager(a.addr, version=v, **(dict(community=b"public") if v != 3 else {})) for v in rng.choice([(3,), (3, 3), (0, 1, 3)])]
    bad, done = [], []
    def work(k, r):
        try:
            for j in range(5):
                n = k * 1000 + j
                m = r.choice(ms)
                reqs = [(n * 10 + x, m.get("1.3.6.1.4.1.55555.%d.0" % (n * 10 + x), timeout=30.0, refreshPeriod=1.0)) for x in range(r.choice([1, 2]))]
                if r.random() < .4:
                    # a cycle that only the collector can undo
                    box = [m.get("1.3.6.1.4.1.55555.7.7", timeout=30.0, refreshPeriod=1.0)]
                    box.append(box)
                    del box
                    ctx.count("cycles")
                for x, h in reqs:
                    vbs = h.wait()
                    if tuple(vbs[0].name)[:8] != W.BASE + (x,):
                        bad.append(("mismatch", f"a request for {x} returned {vbs}"))
                    done.append(x)
        except Exception as err:
            bad.append(("disturbed", f"a request whose agent answers ended with {type(err).__name__}: {err}"))
    old, th = sys.getswitchinterval(), gc.get_threshold()
    sys.setswitchinterval(1e-6)
    gc.set_threshold(rng.choice([5, 50, 700]))
    try:
        ts = [threading.Thread(target=work, args=(k + 1, random.Random(rng.random())), daemon=True) for k in range(rng.choice([2, 4, 8]))]
        for t in ts:
            t.start()
        for k in range(3):
            # this thread owns the engine
            W.add_user(e, A.User(b"more%d" % k))
            m = e.Manager(a.addr, version=1, community=b"public", localAddress=("127.0.0.1", 0) if k else None)
            end = time.monotonic() + .01
            while time.monotonic() < end:
                pass
        end = time.monotonic() + 60
        for t in ts:
            t.join(max(0, end - time.monotonic()))
        stuck = [t for t in ts if t.is_alive()]
        if stuck:
            frames = sys._current_frames()
            import traceback
            text = "\n".join("".join(traceback.format_stack(frames[t.ident])[-6:]) for t in stuck if t.ident in frames)
            ctx.fail("deadlock", f"{len(stuck)} threads did not finish", stacks=text)
        for key, text in bad:
            ctx.fail(key, text)
        over = threading.Event()
        threading.Thread(target=lambda: (e.shutdown(), over.set()), daemon=True).start()
        ctx.check_that(over.wait(20), "shutdown-hangs", "the engine did not shut down")
    finally:
        sys.setswitchinterval(old)
        gc.set_threshold(*th)
        srv.on = False
        srv.join(1)
        s.close()
    ctx.count("real-operations", len(done))
    ids = {}
    for d in sent:
        try:
            if R.peek_version(d) == 3:
                o = A.Opened(d, {u.name: u for u in users}, None)
                if o.scoped and o.scoped[2][0] in ("get",):
                    ctx.check_that(ids.setdefault(o.msgid, d) is d or ids[o.msgid] == d, "repeat", "a message ID was used twice", msgid=o.msgid)
        except R.Malformed as err:
            ctx.fail("corrupt", f"a malformed message was sent: {err}", data=d.hex())
    ctx.distinct("real", tuple(done))

GROUPS = [Group("crowd", crowd, 300, 16000), Group("draws", draws, 480, 8000), Group("settling", settling, 360, 16000), Group("collect", collect, 300, 12000), Group("real", real, 80, 2000)]
