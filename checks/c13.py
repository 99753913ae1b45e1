"""C13: discovery and resynchronization succeed in a bounded exchange."""
import random
from vlib.core import Group
from vlib import world as W, scenario as Sc, agent as A, ref_ber as R

def new_engine(rng, a):
    return b"\x80\x00\x1f\x88" + rng.randbytes(rng.choice([1, 5, 8, 28])) + bytes([64 + rng.randrange(100)]) + a.engine[-1:]

def change(w, rng, allow_engine=True):
    """Something happens to an agent; returns what."""
    a = rng.choice(w.agents)
    kind = rng.choice(["boot", "boot", "boots", "engine", "engine", "swap", "ahead", "drift", "idle", "idle", "nothing"])
    now = w.sim.now
    if a.boots > A.MAX - 50 and kind in ("boot", "boots"):
        kind = "idle"
    if kind == "boot":
        a.reboot(now)
        a.booted -= rng.choice([0, 0, .5, 20, 149, 151, 4000])
    elif kind == "boots":
        a.reboot(now, boots=a.boots + rng.choice([1, 2, 9]))
    elif kind == "engine" and allow_engine:
        a.reboot(now, engine=new_engine(rng, a), boots=rng.choice([0, 1, 1, a.boots, 5]))
        a.booted -= rng.choice([0, 10, 10**6])
    elif kind == "swap" and allow_engine:
        # two devices exchange their addresses
        others = [b for b in w.agents if b is not a and b.namespace == a.namespace]
        if not others:
            return "nothing"
        b = others[0]
        a.engine, b.engine, a.boots, b.boots, a.booted, b.booted = b.engine, a.engine, b.boots, a.boots, b.booted, a.booted
        for x in (a, b):
            x.history.append((now, x.engine, x.boots))
    elif kind == "ahead":
        a.booted -= rng.choice([1, 100, 140, 160, 5000, 10**6])
    elif kind == "drift":
        # a slow clock, within the window however often this happens
        lag = rng.choice([1, 20, 70])
        if a.booted + lag > now or a.lag + lag > 120:
            return "nothing"
        a.booted += lag
        a.lag += lag
    elif kind == "idle":
        w.sim.sleep(rng.choice([1.0, 149.0, 151.0, 1000.0, 86400.0, 86400.0 * 30, 86400.0 * 365]))
    return kind

def options(rng):
    return dict(sim=dict(horizon=1e10, line=rng.choice([0, 0, .02])), dropping=0)

def setup(w, rng, managers=None, levels=None, **kw):
    Sc.setup(w, versions=(3,), levels=levels or rng.choice([(0,), (1,), (2,), (0, 1, 2)]), **kw)
    for a in w.agents:
        a.lag = 0
        # no engine reaches its last restart, or the end of its clock, while it is watched
        a.boots = min(a.boots, A.MAX - 500)
        a.booted = max(a.booted, w.sim.now - 2**29)
        a.history[0] = (a.history[0][0], a.engine, a.boots)
    Sc.engine_and_managers(w, versions=(3,), managers=managers)

def exchanges(ctx, rng, i):
    """No packet is lost and nothing is ever retransmitted: each step must follow from the last one at once."""
    w = W.World(ctx, rng, timeouts=[25.0], periods=[30.0], mixlevels=.3, **options(rng))
    conc = i % 3 == 0
    serial, settled = [], []
    def main():
        setup(w, rng, managers=rng.choice([1, 1, 2, 3]))
        authentic = set()
        known = set()                 # what was asked with success since the last change
        for _ in range(rng.choice([2, 4, 8])):
            kind = change(w, rng)
            if kind not in ("nothing", "idle"):
                known.clear()
            ctx.count("change:" + kind)
            if conc:
                n = len(w.reqs)
                Sc.threads(w, n=rng.choice([2, 3]), per=rng.choice([1, 2]))
                for q in w.reqs[n:]:
                    q.after = kind
            else:
                for _ in range(rng.choice([1, 1, 2, 4])):
                    q = w.plan(rng.choice(w.mans))
                    q.after = kind
                    k = len(w.net.sent)
                    w.issue(q, wait=True)
                    serial.append((q, len(w.net.sent) - k, kind))
                    if (q.man, q.level > 0) in known:
                        settled.append(serial[-1])
                    if q.outcome == "ok" and q.level:
                        authentic.add(q.man)
                        known.update(((q.man, True), (q.man, False)))
                    elif q.outcome == "ok" and q.man.engine_id is None and q.man not in authentic:
                        known.add((q.man, False))      # nothing better is known about where the engine is
        Sc.close(w)
    w.run(main)
    W.judge_match(w)
    sl = W.slack(w)
    for q in w.reqs:
        ctx.count("requests-completed")
        if q.outcome != "ok":
            w.fail("failed", f"a request after a change of kind {q.after} ended with {q.outcome} {q.detail} although no packet was lost", q)
        ctx.count("level:%d" % q.level)
        if q.man.engine_id is None:
            ctx.count("discovered")
        if len(q.txs) > 4:
            w.fail("exchanges", f"a request was transmitted {len(q.txs)} times although no packet was lost", q)
        if not conc and q.wait1 > q.created + .06 + 6 * sl:
            w.fail("slow", f"a request took {q.wait1 - q.created:.3f} s although every message was answered within 10 ms", q)
    for q, n, kind in serial:
        ctx.maximum("messages-per-request", n)
        ctx.count("exchanges:%d" % min(n, 5))
        if n > 4:
            w.fail("exchanges", f"a request took {n} exchanges although no packet was lost", q)
    W.judge_addressed(w)
    for q, n, kind in settled:
        ctx.count("settled-level:%d" % q.level)
        if n != 1:
            w.fail("settled", f"a request took {n} exchanges although the engine and its clock were known", q)

def losses(ctx, rng, i):
    """A bounded number of packets is lost: each costs at most one period."""
    w = W.World(ctx, rng, mixlevels=.3, **options(rng))
    r = random.Random(rng.getrandbits(64))
    budget = [0]
    restarts = rng.choice([0, .5, 1])
    base = w.net.filter
    lost = []
    def policy(direction, data, src, dst):
        if budget[0] > 0 and r.random() < .6:
            budget[0] -= 1
            lost.append((w.sim.now, direction))
            a = w.net.agents.get(dst) or w.net.agents.get(src)
            if a is not None and r.random() < restarts and a.boots < A.MAX - 500:
                # whatever comes next finds a new clock, which costs no further period
                a.reboot(w.sim.now)
                ctx.count("restarts-at-loss")
            return []
        return base(direction, data, src, dst)
    w.net.filter = policy
    cases = []
    def main():
        setup(w, rng, managers=rng.choice([1, 2]))
        for _ in range(rng.choice([1, 2, 4])):
            kind = change(w, rng)
            k = rng.choice([1, 2, 3, 5])
            period = rng.choice([.2, 1.0])
            budget[0] = k
            n = rng.choice([1, 1, 2, 4])
            qs = [w.plan(rng.choice(w.mans), timeout=(k + 1) * period + .2, period=period) for _ in range(n)]
            for q in qs:
                w.issue(q)
            if rng.random() < .5:
                w.sim.wait_all([w.sim.spawn(w.wait, q) for q in qs])
            else:
                for q in qs:
                    w.wait(q)
            budget[0] = 0
            cases.extend((q, k, kind) for q in qs)
        Sc.close(w)
    w.run(main)
    W.judge_match(w)
    W.judge_addressed(w)
    ctx.count("packets-lost", len(lost))
    for q, k, kind in cases:
        if q.outcome != "ok":
            w.fail("failed", f"a request after a change of kind {kind} and {k} lost packets ended with {q.outcome} {q.detail}", q)
        ctx.count("completed-despite-loss")

def held(ctx, rng, i):
    """Requests made while a probe is outstanding leave together as soon as it is answered."""
    w = W.World(ctx, rng, timeouts=[12.0], periods=[13.0], mixlevels=0, dropping=0)
    D = rng.choice([.05, .4, 1.0])
    slow = rng.choice([0, .3, .6])        # every later answer takes this long
    give = rng.random() < .5
    wrong = give and rng.random() < .35       # the engine is another one than was given
    answered, after = [], []
    def main():
        Sc.setup(w, agents=1, versions=(3,), levels=(1, 2) if give else (0, 1, 2))
        w.new_engine(autowait=False)
        for ns, us in w.users.items():
            for u in us:
                W.add_user(w.engine, u, ns)
        user = w.users[w.agents[0].namespace][0]
        w.add_manager(w.agents[0], 3, give_engine=b"\x80\0\0\0\x05elsewhere" if wrong else give, user=user, level=max(1, rng.randrange(0, user.level + 1)) if give else None)
        def at(level):
            return dict(level=level, explicit=dict(securityLevel=W.level_obj(level)))
        def tap(agent, rec, out):
            if not answered and out:
                t = rec.t + D
                answered.append(t)
                w.firstreply = out[0][0]
                return [(d, s, D) for d, s, _ in out]
            if rec.t < answered[0]:
                return [(d, s, D) for d, s, _ in out]
            return [(d, s, slow + x) for d, s, x in out] if slow else out
        w.agents[0].taps.append(tap)
        owner = w.plan(w.mans[0], **(at(rng.randrange(0, user.level + 1)) if rng.random() < .5 else {}))
        w.issue(owner)
        late = [w.plan(w.mans[0], **(at(rng.randrange(0, user.level + 1)) if rng.random() < .3 else {})) for _ in range(rng.choice([1, 2, 4, 8]))]
        ts = []
        for q in late:
            if rng.random() < .5:
                w.issue(q)
            else:
                ts.append(w.sim.spawn(w.issue, q, True))
            w.sim.sleep(rng.choice([0, .001, .01]))
        if rng.random() < .3 and len(late) > 1 and late[0].handle is not None:
            w.drop(late[0])
        w.wait(owner)
        for q in late:
            w.wait(q)
        if ts:
            w.sim.wait_all(ts)
        if rng.random() < .5:
            # the engine is known: nothing is held any more, whatever else is under way
            if rng.random() < .5:
                w.agents[0].silent = lambda rec: True
            for _ in range(rng.choice([2, 3, 5])):
                q = w.plan(w.mans[0], timeout=.5, **at(rng.randrange(0, user.level + 1)))
                after.append(q)
                w.issue(q)
                w.sim.sleep(rng.choice([0, .03, .1]))
            for q in after:
                w.wait(q)
        Sc.close(w)
    w.run(main)
    W.judge_match(w)
    W.judge_addressed(w)
    if wrong:
        ctx.count("misnamed")
        for q in w.reqs:
            if q.dropped is None and q not in after and q.outcome != "ok":
                w.fail("failed", f"a request for an engine that has another ID than was given ended with {q.outcome} {q.detail}", q)
        return
    sl = W.slack(w)
    t = min([x[0] for x in w.net.delivered] or [1e18])
    for q in w.reqs:
        if q.dropped is not None:
            continue
        times = [tx.t for tx in q.txs]
        if q in after:
            ctx.count("unheld")
            if not times or times[0] > q.created + sl:
                w.fail("held-needlessly", "a request was held although a probe had been answered", q, at=times and q.rel(times[0]))
            continue
        if q.outcome != "ok":
            w.fail("failed", f"a request that was held for discovery ended with {q.outcome} {q.detail}", q)
        if q is w.reqs[0] and give:
            continue
        if q.created < t - sl:
            if give and q.level == 0:
                continue        # needs no clock, and its engine is known
            ctx.count("held")
            if give and w.reqs[0].level == 0:
                ctx.count("held-for-unsecured")
            if times[0] < t - 1e-9:
                w.fail("premature", "a request was sent before the engine was known", q, at=q.rel(times[0]), known=q.rel(t))
            if times[0] > t + sl + .02:
                w.fail("delayed", "a held request was not sent as soon as the probe was answered", q, at=q.rel(times[0]), known=q.rel(t))
    if not give:
        probes = [tx for tx in w.txs if (not tx.pdu or not tx.pdu[4]) and tx.t < t]
        if len(probes) != 1:
            w.fail("probes", f"{len(probes)} probes were sent for requests that were made while the first was outstanding")

def unanswered(ctx, rng, i):
    """Nobody answers at first: the probe is repeated every period, and by the next request."""
    w = W.World(ctx, rng, mixlevels=0, dropping=0, delay=(1e-3, 2e-3))
    period = rng.choice([.1, .25, .5])
    dead = rng.choice([.35, .8, 1.6])
    mode = rng.choice(["retransmission", "next", "next", "dropped"])
    def main():
        Sc.setup(w, agents=1, versions=(3,), levels=rng.choice([(0,), (1,), (2,)]))
        Sc.engine_and_managers(w, versions=(3,), managers=1)
        t0 = w.sim.now
        w.agents[0].silent = lambda rec: rec.t < t0 + dead
        if mode == "retransmission":
            q = w.plan(w.mans[0], timeout=5.0, period=period)
            w.issue(q, wait=True)
        else:
            q = w.plan(w.mans[0], timeout=.3, period=rng.choice([period, 5.0]))
            w.issue(q)
            if mode == "dropped":
                w.drop(q)
            else:
                w.wait(q)
            w.sim.sleep(max(0, t0 + dead - w.sim.now) + rng.choice([0, .01, 3.0]))
            q = w.plan(w.mans[0], timeout=5.0, period=4.9)
            w.issue(q, wait=True)
        Sc.close(w)
    w.run(main)
    q = w.reqs[-1]
    if q.outcome != "ok":
        w.fail("failed", f"a request after an unanswered probe ended with {q.outcome}", q)
    ctx.count("unanswered:" + mode)
    if mode == "retransmission":
        if q.wait1 > q.created + dead + period + .1:
            w.fail("slow", "an unanswered probe was not repeated in time", q)
    elif q.wait1 > q.created + .1:
        w.fail("slow", "an unanswered probe was not repeated by the next request", q)

GROUPS = [Group("exchanges", exchanges, 900, 30000), Group("losses", losses, 700, 20000), Group("held", held, 400, 12000), Group("unanswered", unanswered, 300, 8000)]
