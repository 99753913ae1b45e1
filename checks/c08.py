"""C08: retransmissions follow the schedule, and only unanswered requests are retransmitted."""
import random
from vlib.core import Group
from vlib import world as W, scenario as Sc, agent as A

def worlds(ctx, rng, i):
    w = W.World(ctx, rng, sim=dict(quantum=rng.choice([0, 0, 0, 1 / 64])), **Sc.faults(rng))
    def main():
        Sc.setup(w)
        Sc.engine_and_managers(w)
        Sc.threads(w)
        Sc.close(w)
    w.run(main)
    judge(w)

def judge(w):
    first_transmissions(w)
    W.judge_schedule(w)
    W.judge_match(w)

def first_transmissions(w):
    """v1/v2c requests leave as they are issued; a v3 request leaves unless discovery is going on."""
    sl = W.slack(w)
    for q in w.reqs:
        if q.created is None or q.create_error is not None or q.man.version == 3 or q.outcome == "exception":
            continue
        if not q.txs or q.txs[0].t > (q.sent_by if q.sent_by is not None and q.wait0 != q.created else q.created) + sl:
            w.fail("not-sent", "a request was not transmitted when it was issued", q)
        w.ctx.count("sent-at-once")

def primed(w, versions, managers):
    """Engine and managers that have completed a request each."""
    Sc.setup(w, versions=versions, agents=1, namespaces=False)
    Sc.engine_and_managers(w, versions=versions, managers=managers)
    for m in w.mans:
        if m.version == 3:
            q = w.plan(m, timeout=30.0, period=7.0)
            w.issue(q, wait=True)
            if q.outcome != "ok":
                w.fail("not-served", "a request to an agent that answers was not served", q)

def schedule(w, q, t0):
    """Every moment at which q is due while it is unanswered."""
    k, out = 0, []
    while k * q.period < q.timeout:
        out.append(t0 + k * q.period)
        k += 1
    return out

def silent(ctx, rng, i):
    """A silent agent receives every request on its exact schedule, one wait after another or at once."""
    ver = (0, 1, 3)[i % 3]
    w = W.World(ctx, rng, sim=dict(line=rng.choice([0, 0, .01, .1])), mixlevels=0,
                timeouts=[.2, .45, .9, 1.7, 3.3, 1.0, 2.0], periods=[.05, .13, .25, .4, .7, 1.0, 2.0, 50.0], dropping=0)
    n = rng.choice([1, 1, 2, 3, 5, 8])
    def main():
        primed(w, (ver,), 1)
        w.agents[0].silent = lambda rec: True
        reqs = [w.plan(w.mans[0]) for _ in range(n)]
        gap = rng.choice([0, 0, .01, .11])
        for q in reqs:
            w.issue(q)
            if gap:
                w.sim.sleep(rng.random() * gap)
        order = reqs[:]
        rng.shuffle(order)
        mode = rng.choice(["serial", "threads", "threads", "some"])
        if mode == "serial":
            for q in order:
                w.wait(q)
        elif mode == "threads":
            w.sim.wait_all([w.sim.spawn(w.wait, q) for q in order])
        else:
            # some are waited for, the others are driven along by them
            k = rng.randrange(1, n + 1)
            w.sim.wait_all([w.sim.spawn(w.wait, q) for q in order[:k]])
            for q in order[k:]:
                w.wait(q)
        Sc.close(w)
    w.run(main)
    sl = W.slack(w)
    reqs = [q for q in w.reqs if q.timeout < 30]
    for q in reqs:
        if q.outcome != "timeout":
            w.fail("wrong-outcome", "an unanswered request ended with " + str(q.outcome), q)
        if not q.txs:
            w.fail("not-sent", "a request was never transmitted", q)
        t0 = q.txs[0].t
        if abs(t0 - q.created) > sl:
            w.fail("not-sent", "a request was not transmitted when it was issued", q)
        # while anything is being waited for on the manager, everything is on schedule
        waits = [(x.wait0, x.wait1) for x in reqs]
        due = schedule(w, q, t0)
        for d in due:
            if any(a + W.EPS < d < b - sl for a, b in waits) and d < q.created + q.timeout - sl:
                if not any(abs(tx.t - d) <= sl for tx in q.txs):
                    if q.wait0 < d:
                        w.fail("missed", "a request was not retransmitted when due", q, due=q.rel(d), sent=[q.rel(tx.t) for tx in q.txs])
                    ctx.count("missed-while-others-waited")
                ctx.count("due-moments")
        if len(q.txs) > len(due) + (len(due) * q.period < q.timeout + sl):
            w.fail("too-often", "a silent agent received more than one transmission per period", q, sent=[q.rel(tx.t) for tx in q.txs])
    judge(w)
    ctx.sample(dict(version=ver, sent=[(q.period, q.timeout, [q.rel(tx.t) for tx in q.txs][:6]) for q in reqs[:3]]))

def late_wait(ctx, rng, i):
    """Waiting starts long after the first transmission: no burst, and the grid is kept."""
    ver = (0, 1, 3)[i % 3]
    w = W.World(ctx, rng, mixlevels=0, dropping=0)
    n = rng.choice([1, 1, 2, 4])
    def main():
        primed(w, (ver,), 1)
        w.agents[0].silent = lambda rec: True
        for _ in range(n):
            q = w.plan(w.mans[0], timeout=rng.choice([2.0, 3.3, 5.0]), period=rng.choice([.1, .25, .4, 1.0]))
            w.issue(q)
        q0 = w.reqs[-n]

        k = rng.randrange(1, 8)
        d = q0.created + k * q0.period + rng.choice([-.005, 0, 0, .005, .3 * q0.period])
        w.sim.sleep(max(0, d - w.sim.now))
        w.sim.wait_all([w.sim.spawn(w.wait, q) for q in w.reqs[-n:]])
        Sc.close(w)
    w.run(main)
    sl = W.slack(w)
    for q in w.reqs[-n:]:
        over = [tx.t for tx in q.txs[1:] if tx.t < q.wait0 - sl]
        if over:
            w.fail("sent-unasked", "a request was retransmitted although nothing was being waited for", q)
        first = min((x.wait0 for x in w.reqs[-n:]))
        burst = [tx.t for tx in q.txs[1:] if tx.t < q.wait0 + min(q.period, .05)]
        if len(burst) > 2:
            w.fail("burst", "skipped retransmissions were all made up for at once", q, sent=[q.rel(tx.t) for tx in q.txs])
        ctx.count("late-waits")
        if q.wait0 > q.txs[0].t + q.period + sl and q.wait0 < q.deadline - sl and first + sl > q.wait0:
            if not any(abs(tx.t - q.wait0) <= sl for tx in q.txs):
                w.fail("missed", "a request that was overdue was not retransmitted when waiting began", q, sent=[q.rel(tx.t) for tx in q.txs])
            ctx.count("overdue-sent")
    judge(w)

def answered(ctx, rng, i):
    """The k-th transmission of each request is answered: there is never a k+1st after it."""
    ver = (0, 1, 3)[i % 3]
    w = W.World(ctx, rng, mixlevels=0, dropping=rng.choice([0, .2]), delay=(1e-3, rng.choice([2e-3, .03])), timeouts=[2.0, 3.0], periods=[.1, .2, .35])
    seen = {}
    r = random.Random(rng.getrandbits(64))
    def silent(rec):
        if not rec.pdu or not rec.pdu[4]:
            return False
        key = tuple(rec.pdu[4][0][0])
        st = seen.setdefault(key, [0, r.choice([1, 1, 2, 3, 5])])
        st[0] += 1
        return st[0] < st[1]
    def main():
        primed(w, (ver,), rng.choice([1, 2]))
        w.agents[0].silent = silent
        Sc.threads(w, n=rng.choice([1, 2, 4]), per=rng.choice([1, 2, 4]))
        w.sim.sleep(1.0)
        Sc.close(w)
    w.run(main)
    for q in w.reqs:
        st = seen.get(tuple(q.names[0]))
        if not st or q.timeout > 10:
            continue
        if q.outcome == "ok" and len(q.txs) < st[1]:
            w.fail("too-few", "a request was answered before the agent answered", q)
        if q.outcome in ("ok", "error"):
            ctx.count("answered-after:%d" % st[1])
        elif q.outcome == "timeout" and q.period * (st[1] + 2) < q.timeout and q.wait0 <= q.created + q.period:
            w.fail("not-retransmitted", "a request timed out although enough periods passed for its answered transmission", q, wanted=st[1])
    judge(w)

def dropped(ctx, rng, i):
    """Dropped requests are not retransmitted by those who wait for others."""
    ver = (0, 1, 3)[i % 3]
    w = W.World(ctx, rng, mixlevels=0, dropping=0)
    def main():
        primed(w, (ver,), 1)
        w.agents[0].silent = lambda rec: True
        keep = [w.plan(w.mans[0], timeout=2.0, period=rng.choice([.1, .3])) for _ in range(rng.choice([1, 2]))]
        gone = [w.plan(w.mans[0], timeout=rng.choice([1.0, 3.0]), period=rng.choice([.05, .1, .3])) for _ in range(rng.choice([1, 2, 4]))]
        every = keep + gone
        rng.shuffle(every)
        for q in every:
            w.issue(q)
        def dropper():
            for q in gone:
                w.sim.sleep(rng.choice([0, .05, .1, .2]))
                w.drop(q)
        d = w.sim.spawn(dropper)
        w.sim.wait_all([d] + [w.sim.spawn(w.wait, q) for q in keep])
        Sc.close(w)
    w.run(main)
    for q in w.reqs:
        if q.dropped is not None:
            ctx.count("dropped")
    judge(w)

def probes(ctx, rng, i):
    """Discovery probes that nobody answers are repeated once per period of the request behind them."""
    kind = ("unknown", "given")[i % 2]
    w = W.World(ctx, rng, mixlevels=0, timeouts=[.4, 1.1, 2.3], periods=[.1, .25, .6, 1.0], dropping=0)
    up = rng.choice([None, .35, .8])
    def main():
        Sc.setup(w, versions=(3,), agents=1, namespaces=False)
        Sc.engine_and_managers(w, versions=(3,), managers=1, give_engine=kind == "given")
        t = w.sim.now + up if up else w.sim.now + 1e6
        w.agents[0].silent = lambda rec: rec.t < t
        w.issue(w.plan(w.mans[0]), wait=True)
        Sc.close(w)
    w.run(main)
    q = w.reqs[0]
    sl = W.slack(w)
    alltx = [tx for tx in w.txs]
    if not alltx:
        w.fail("not-sent", "nothing was sent for a request", q)
    t0 = alltx[0].t
    end = min(q.wait1, q.deadline)
    quiet = [tx for tx in alltx if not up or tx.t < w.sim.start + up]
    k = 0
    while True:
        d = t0 + k * q.period
        if d >= end - sl or (up and d >= w.sim.start + up - sl):
            break
        hits = [tx for tx in quiet if abs(tx.t - d) <= sl]
        if len(hits) != 1:
            w.fail("probe-schedule", f"{len(hits)} transmissions where one was due before the first answer", q, due=q.rel(d), sent=[q.rel(tx.t) for tx in alltx])
        k += 1
        ctx.count("probes-due")
    if len([tx for tx in quiet if tx.t < end - sl and (not up or tx.t < w.sim.start + up - sl)]) > k:
        w.fail("too-often", "the silent agent received more than one transmission per period", q, sent=[q.rel(tx.t) for tx in alltx])
    if any(tx.t > q.deadline + sl for tx in alltx):
        w.fail("late-transmission", "a request was transmitted after its timeout", q)
    judge(w)

def defaults(ctx, rng, i):
    """Requests that name no timeout, no period or neither are sent once a second for ten seconds."""
    ver = (0, 1, 3)[i % 3]
    w = W.World(ctx, rng, sim=dict(line=0), mixlevels=.2, dropping=0)
    def main():
        primed(w, (ver,), 1)
        w.agents[0].silent = lambda rec: True
        reqs = []
        for _ in range(rng.choice([1, 1, 2, 4])):
            q = w.plan(w.mans[0], timeout=rng.choice([.7, 3.0, 14.0]), period=rng.choice([.3, 2.0]))
            q.bare = rng.choice([("timeout",), ("refreshPeriod",), ("timeout", "refreshPeriod")])
            if "timeout" in q.bare:
                q.timeout = 10.0
            if "refreshPeriod" in q.bare:
                q.period = 1.0
            reqs.append(q)
            w.issue(q)
        for q in reqs:
            w.wait(q)
        Sc.close(w)
    w.run(main)
    sl = W.slack(w)
    for q in w.reqs:
        if not q.bare:
            continue
        ctx.count("defaults:" + "+".join(q.bare))
        if q.outcome != "timeout":
            w.fail("undocumented", f"a request that nobody answered ended with {q.outcome}", q)
        if q.wait1 < q.deadline - W.EPS:
            w.fail("default", "a request ended before its timeout", q)
    last = max(w.reqs, key=lambda q: q.deadline)
    if last.bare and last.wait1 > last.deadline + sl:
        w.fail("default", "a request ended after its timeout", last)
    judge(w)

GROUPS = [Group("defaults", defaults, 60, 600), Group("worlds", worlds, 500, 20000), Group("silent", silent, 700, 20000), Group("late_wait", late_wait, 400, 12000),
          Group("answered", answered, 500, 15000), Group("dropped", dropped, 300, 9000), Group("probes", probes, 400, 12000)]
