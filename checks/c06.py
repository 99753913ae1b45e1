"""C06: a response completes only the request it answers."""
from vlib.core import Group
from vlib import world as W, scenario as Sc, attack as X, agent as A

def worlds(ctx, rng, i):
    o = dict(loss=rng.choice([0, .1, .3]), dup=rng.choice([0, .2, .5]), late=(rng.choice([.2, .5]), (0.05, rng.choice([.5, 2.0, 5.0]))))
    w = W.World(ctx, rng, **o)
    def main():
        Sc.setup(w)
        Sc.engine_and_managers(w, managers=rng.choice([2, 3, 4]))
        X.Replayer(w)
        if rng.random() < .5:
            X.Forger(w, rate=.3)
        Sc.threads(w)
        Sc.close(w)
    w.run(main)
    judge(w)

def judge(w):
    for q in w.reqs:
        if q.outcome == "ok" and any(v == X.MARK for _, v in q.detail):
            w.fail("forged", "a request returned a response that nobody made for it", q)
    W.judge_match(w)
    W.judge_outcomes(w)

def forgeries(ctx, rng, i):
    """Near misses arrive before the answer, which is still accepted."""
    ver = (0, 1, 3, 3, 3)[i % 5]
    silent = rng.random() < .3
    w = W.World(ctx, rng, sim=dict(line=rng.choice([0, 0, 0, .05])), timeouts=[.35, .8])
    def main():
        Sc.setup(w, agents=rng.choice([1, 2]), versions=(0, 1, 3))
        Sc.engine_and_managers(w, versions=(ver, ver, ver, rng.choice([0, 1, 3])), managers=rng.choice([1, 2, 3]))
        f = X.Forger(w, rate=1.0, most=6)
        if silent:
            # the request itself is never answered: whatever it returns is wrong
            for a in w.agents:
                a.silent = lambda rec: bool(rec.pdu and rec.pdu[4])
        else:
            w.delay = (1e-3, 3e-2)
        Sc.threads(w, n=rng.choice([1, 2, 3]), per=rng.choice([1, 2, 3]))
        Sc.close(w)
    w.run(main)
    for q in w.reqs:
        if silent and q.outcome not in (None, "timeout"):
            w.fail("forged", "a request that nobody answered ended with " + str(q.outcome), q)
        if not silent and q.outcome not in (None, "ok"):
            w.fail("disturbed", "a request that was answered ended with " + str(q.outcome), q)
    judge(w)
    ctx.sample(dict(version=ver, silent=silent, outcomes=[q.outcome for q in w.reqs]))

def errors(ctx, rng, i):
    """Errors are delivered to the request they answer, too."""
    w = W.World(ctx, rng, dup=.2, late=(.3, (.05, 1.0)))
    status = {}
    def responder(rec, serial):
        names = tuple(n for n, _ in rec.pdu[4])
        if not names:
            return 0, 0, []
        # the status tells requests apart: it depends on the request only
        k = names[0][len(W.BASE)] if names[0][:len(W.BASE)] == W.BASE else 0
        if k % 2:
            return rec.agent.answer(rec, serial)
        return 1 + k // 2 % 5, 0, rec.pdu[4]
    def main():
        Sc.setup(w, responder=responder)
        Sc.engine_and_managers(w, managers=rng.choice([1, 2, 3]))
        X.Forger(w, rate=.3)
        X.Replayer(w)
        Sc.threads(w)
        Sc.close(w)
    w.run(main)
    for q in w.reqs:
        k = q.index + 1
        if q.outcome == "error":
            ctx.check_that(k % 2 == 0 and q.detail[0] == 1 + k // 2 % 5, "mismatch", "a request raised another request's error", request=q, scenario=w.describe())
            ctx.count("matched-errors")
        elif q.outcome == "ok":
            ctx.check_that(k % 2 == 1, "mismatch", "a request that the agent refused returned bindings", request=q, scenario=w.describe())
    W.judge_match(w)

def late(ctx, rng, i):
    """Answers to a request arrive after it has ended, while other requests are waiting."""
    w = W.World(ctx, rng, timeouts=[.2, .5], periods=[.1, .25])
    def main():
        Sc.setup(w)
        Sc.engine_and_managers(w, managers=rng.choice([1, 2, 3]))
        r = rng
        def tap(agent, rec, out):
            if not rec.pdu or not rec.pdu[4]:
                return out
            return [(d, s, r.choice([0.0, .3, .6, .9])) for d, s, e in out for _ in range(r.choice([1, 2]))]
        for a in w.agents:
            a.taps.append(tap)
        Sc.threads(w, n=rng.choice([1, 2, 4]), per=rng.choice([3, 6]))
        Sc.close(w)
    w.run(main)
    judge(w)

GROUPS = [Group("worlds", worlds, 600, 20000), Group("forgeries", forgeries, 900, 30000), Group("errors", errors, 300, 10000), Group("late", late, 400, 12000)]
