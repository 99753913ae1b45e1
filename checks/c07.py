"""C07: every request completes in time, with a documented outcome."""
import random
from vlib.core import Group
from vlib import world as W, scenario as Sc, attack as X, agent as A, sim as S, ref_usm as U

def worlds(ctx, rng, i):
    w = W.World(ctx, rng, sim=dict(quantum=rng.choice([0, 0, 0, 1 / 64])), **Sc.faults(rng))
    def main():
        Sc.setup(w)
        Sc.engine_and_managers(w)
        Sc.threads(w)
        Sc.close(w)
    w.run(main)
    W.judge_match(w)
    W.judge_outcomes(w)
    ctx.sample(dict(outcomes=[(q.man.version, q.op, q.outcome) for q in w.reqs]))

def early(ctx, rng, i):
    """Answers arrive before, while and after wait() is entered, and waits happen in any order and late."""
    ver = (0, 1, 3)[i % 3]
    w = W.World(ctx, rng, delay=(1e-3, rng.choice([2e-3, .2])), timeouts=[.2, .5, 1.0], periods=[.1, .25, 5.0])
    def main():
        Sc.setup(w)
        Sc.engine_and_managers(w, versions=(ver,))
        reqs = [w.plan(rng.choice(w.mans)) for _ in range(rng.choice([1, 2, 4, 7]))]
        if ver == 3 and rng.random() < .7:
            q = w.plan(w.mans[0], timeout=5.0, period=.3)
            w.issue(q, wait=True)       # discovery is over
        for q in reqs:
            w.issue(q)
        w.sim.sleep(rng.choice([0, .05, .3, .6, 1.5]))
        rng.shuffle(reqs)
        if rng.random() < .5:
            for q in reqs:
                w.wait(q)
        else:
            w.sim.wait_all([w.sim.spawn(w.wait, q) for q in reqs])
        Sc.close(w)
    w.run(main)
    W.judge_match(w)
    W.judge_outcomes(w)

def silent(ctx, rng, i):
    """Nobody answers (some or all of) the requests: each times out on its own."""
    w = W.World(ctx, rng, sim=dict(quantum=rng.choice([0, 0, 1 / 64])), timeouts=[.1, .35, .8, 2.0, 2.5], periods=[.05, .1, .3, 1.0, 4.0])
    def main():
        Sc.setup(w)
        Sc.engine_and_managers(w)
        p = rng.choice([0, .2, .5])
        r = random.Random(rng.getrandbits(64))
        for a in w.agents:
            a.silent = lambda rec: r.random() >= p
        Sc.threads(w)
        Sc.close(w)
    w.run(main)
    W.judge_match(w)
    W.judge_outcomes(w)

BAD = ["user", "digest", "decrypt", "level", "context"]

def reports(ctx, rng, i):
    """Reports: unauthenticated ones are raised when the timeout has elapsed, authenticated ones at once."""
    kind = BAD[i % len(BAD)]
    authrep = kind in ("level", "context") and rng.random() < .6
    w = W.World(ctx, rng, timeouts=[.3, .7], periods=[.1, .25, 1.0], mixlevels=0, dup=rng.choice([0, .3]), dropping=0)
    def main():
        Sc.setup(w, agents=1, versions=(3,), levels=(2,), namespaces=False)
        a = w.agents[0]
        for name, u in list(a.users.items()):
            if kind == "user":
                a.users = {}
            elif kind == "digest":
                a.users[name] = A.User(name, (u.auth[0], u.auth[1] + b"x"), u.priv)
            elif kind == "decrypt":
                a.users[name] = A.User(name, u.auth, (u.priv[0], u.priv[1] + b"x"))
        def tap(agent, rec, out):
            # a conforming agent may refuse what it has authenticated: a report at the request's level
            m = rec.msg
            if kind in ("level", "context") and rec.verdict == "ok" and rec.pdu and rec.pdu[4]:
                oid = (1, 3, 6, 1, 6, 3, 15, 1, 1, 1, 0) if kind == "level" else (1, 3, 6, 1, 6, 3, 12, 1, 5, 0)
                from vlib import ref_ber as R
                scoped = R.enc_scoped(agent.engine, b"", R.enc_pdu("report", rec.pdu[1], 0, 0, [(oid, ("c32", 1))]))
                lv = m.level if authrep else 0
                return [(A.seal(m.user, lv, agent.engine, agent.boots, agent.time(rec.t), m.msgid, scoped, bytes(8)), agent.addr, 0.0)]
            return out
        a.taps.append(tap)
        # a wrong decryption looks like garbage; a conforming agent then reports a decryption error
        Sc.engine_and_managers(w, versions=(3,), managers=1, level=rng.choice([1, 2]) if kind in ("user", "digest", "level", "context") else 2)
        if rng.random() < .6:
            Sc.threads(w, n=1, per=1)
        else:
            Sc.threads(w, n=rng.choice([1, 2, 3]), per=rng.choice([1, 2]))
        Sc.close(w)
    w.run(main)
    sl = W.slack(w)
    # while a manager is not synchronized it sends one request and holds the others, which then
    # may see their own timeout before the agent has refused anything
    sole = len(w.reqs) == 1
    want = {"user": "UnknownUserNameReport", "digest": "WrongDigestReport", "decrypt": "DecryptionErrorReport",
            "level": "UnsupportedSecurityLevelReport", "context": "UnrecognizedReport"}[kind]
    for q in w.reqs:
        if q.outcome is None:
            continue
        if q.outcome != "report" or q.detail[0] != want:
            if q.outcome == "timeout" and not sole:
                ctx.count("held-beside-refused")
                continue
            w.fail("wrong-outcome", f"a request that was refused with a report ended with {q.outcome} {q.detail}", q, wanted=want)
        if authrep:
            if q.wait1 > max(q.wait0, q.created + (0 if sole else q.period)) + .1:
                w.fail("late-return", "an authenticated report did not end its request at once", q)
            ctx.count("authenticated-reports")
        else:
            if q.wait1 < q.deadline - W.EPS:
                w.fail("report-early", "an unauthenticated report ended its request before the timeout", q)
            if q.wait1 > max(q.wait0, q.deadline) + sl:
                w.fail("late-return", "a request with a report went on after its timeout", q)
            ctx.count("unauthenticated-reports")
        ctx.count("report:" + kind)

def refused(ctx, rng, i):
    """A request that cannot be sent fails alone: the others complete."""
    w = W.World(ctx, rng, timeouts=[1.0, 2.0], periods=[.1, .4, 3.0], mixlevels=0)
    def main():
        Sc.setup(w, agents=1, versions=(3,), levels=(0,), namespaces=False)
        low = A.User(b"low", None, None)
        mid = A.User(b"mid", ("sha", W.SECRETS[0]), None)
        w.users[""] += [low, mid]
        w.agents[0].users.update({b"low": low, b"mid": mid})
        Sc.engine_and_managers(w, versions=(3,), managers=1)
        plan = []
        for k in range(rng.choice([2, 3, 5])):
            q = w.plan(w.mans[0])
            if rng.random() < .5:
                bad = rng.choice([(b"low", 1), (b"low", 2), (b"mid", 2), (b"nobody", 1)])
                q.explicit = dict(user=bad[0], securityLevel=W.level_obj(bad[1]))
                q.bad = bad
            else:
                q.bad = None
            plan.append(q)
        mode = rng.choice(["seq", "batch", "threads"])
        if mode == "threads":
            w.sim.wait_all([w.sim.spawn(w.issue, q, True) for q in plan])
        elif mode == "seq":
            for q in plan:
                w.issue(q, wait=True)
        else:
            for q in plan:
                w.issue(q)
            order = plan[:]
            rng.shuffle(order)
            for q in order:
                w.wait(q)
        Sc.close(w)
    w.run(main)
    sl = W.slack(w)
    for q in w.reqs:
        if q.bad:
            if q.outcome != "exception" or not (q.detail.startswith("InvalidSecurityLevel") or q.detail.startswith("InvalidUserName")):
                w.fail("not-refused", "a request at a level its user cannot support was not refused", q)
            ctx.count("refused")
        elif q.outcome != "ok":
            w.fail("wrong-outcome", "a request ended with another request's failure", q)
        else:
            ctx.count("beside-refused")
            if q.wait1 > max(q.wait0, q.created) + .2:
                w.fail("late-return", "a request was held up by another one that could not be sent", q)

def stalls(ctx, rng, i):
    """Threads are held up anywhere: outcomes stay documented and answers are not lost."""
    w = W.World(ctx, rng, sim=dict(stall=(rng.choice([.001, .01, .05]), rng.choice([.05, .3])), line=rng.choice([0, .01])), dup=rng.choice([0, .3]), timeouts=[3.0, 6.0], periods=[.25, 1.0])
    def main():
        Sc.setup(w)
        Sc.engine_and_managers(w)
        Sc.threads(w)
        Sc.close(w)
    w.run(main)
    W.judge_match(w)
    W.judge_outcomes(w, tight=False, allowed=("ok", "timeout"))

def poke(ctx, rng, i):
    """The probe of one request times out while another request is held: the other still completes."""
    w = W.World(ctx, rng, sim=dict(switch=rng.choice([.2, .5, 1.0]), line=rng.choice([.05, .2, .5]), early=1e-4, jitter=0))
    def main():
        Sc.setup(w, agents=1, versions=(3,))
        Sc.engine_and_managers(w, versions=(3,), managers=1, give_engine=rng.random() < .3)
        t = w.sim.now + rng.choice([.2, .24, .26])
        w.agents[0].silent = lambda rec: rec.t < t
        reqs = [w.plan(w.mans[0], timeout=.25, period=rng.choice([.25, .05, 1.0])) for _ in range(rng.choice([1, 1, 2]))]
        reqs += [w.plan(w.mans[0], timeout=2.0, period=rng.choice([.25, .5])) for _ in range(rng.choice([1, 1, 2]))]
        for q in reqs:
            w.issue(q)
        w.sim.wait_all([w.sim.spawn(w.wait, q) for q in reqs])
        Sc.close(w)
    w.run(main)
    for q in w.reqs:
        if q.timeout > 1 and q.outcome != "ok":
            w.fail("starved", "a held request was never served although the agent answers", q)
        ctx.count("held-served")
    W.judge_outcomes(w)

GROUPS = [Group("worlds", worlds, 700, 20000), Group("early", early, 600, 12000), Group("silent", silent, 400, 10000), Group("reports", reports, 400, 8000),
          Group("refused", refused, 300, 6000), Group("stalls", stalls, 200, 6000), Group("poke", poke, 250, 6000)]
