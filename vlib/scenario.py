"""Families of random scenarios on a World."""
import random
from . import world as W, agent as A, ref_ber as R

def setup(w, versions=(0, 1, 3), agents=None, managers=None, levels=None, give_engine=None, namespaces=True, **agentkw):
    """Agents, users, engine and managers."""
    rng = w.rng
    na = agents or rng.choice([1, 1, 2, 3])
    for k in range(na):
        a = w.add_agent(**agentkw)
        if namespaces and rng.random() < .25:
            a.namespace = "ns%d" % k
    if any(v == 3 for v in versions):
        for ns in sorted({a.namespace for a in w.agents}):
            us = w.make_users(ns, levels or (0, 1, 2))
            for a in w.agents:
                if a.namespace == ns:
                    a.users = {u.name: u for u in us}
    return na

def engine_and_managers(w, versions=(0, 1, 3), managers=None, give_engine=None, level=None, **kw):
    rng = w.rng
    w.new_engine(autowait=False)
    for ns, us in w.users.items():
        for u in us:
            W.add_user(w.engine, u, ns)
    for k in range(managers or rng.choice([1, 1, 2, 3])):
        a = rng.choice(w.agents) if k else w.agents[0]
        v = rng.choice([v for v in versions])
        ge = give_engine if give_engine is not None else rng.random() < .4
        w.add_manager(a, v, level=level, give_engine=ge if v == 3 else None, **kw)

def program(w, rng, reqs, style=None):
    """What one application thread does with its requests."""
    style = style or rng.choice(["serial", "batch", "batch", "mixed", "mixed"])
    if style == "serial":
        for q in reqs:
            w.issue(q, wait=True)
            if rng.random() < .3:
                w.sim.sleep(rng.choice([0.0, 0.05, 0.3]))
        return
    if style == "batch":
        for q in reqs:
            w.issue(q)
        order = list(reqs)
        rng.shuffle(order)
        if rng.random() < .3:
            w.sim.sleep(rng.choice([0.001, 0.05, 0.3, 1.0]))
        for q in order:
            if rng.random() < w.o.get("dropping", .12):
                w.drop(q)
            else:
                w.wait(q)
        return
    todo, open_ = list(reqs), []
    while todo or open_:
        x = rng.random()
        if todo and (x < .5 or not open_):
            q = todo.pop(0)
            if rng.random() < .25:
                w.issue(q, wait=True)
            else:
                w.issue(q)
                open_.append(q)
        elif x < .9:
            q = open_.pop(rng.randrange(len(open_)))
            if rng.random() < w.o.get("dropping", .12):
                w.drop(q)
            else:
                w.wait(q)
        else:
            w.sim.sleep(rng.choice([0.0, 0.01, 0.2, 0.7]))

def threads(w, n=None, per=None, **kw):
    """Plans requests and runs n application threads over them."""
    rng = w.rng
    n = n or rng.choice([1, 1, 2, 3, 5])
    per = per or rng.choice([1, 2, 3, 5])
    plans = []
    for k in range(n):
        plans.append((random.Random(rng.getrandbits(64)), [w.plan(rng.choice(w.mans), **kw) for _ in range(per)]))
    if n == 1:
        program(w, *plans[0])
        return
    ts = [w.sim.spawn(program, w, r, p) for r, p in plans]
    w.sim.wait_all(ts)

def faults(rng, hard=True):
    """Options of a World: how the network behaves."""
    x = rng.random()
    if x < .3:
        return {}
    o = dict(loss=rng.choice([0, .1, .3, .6]), dup=rng.choice([0, 0, .2, .5]))
    if rng.random() < .4:
        o["late"] = (rng.choice([.1, .4]), (0.05, rng.choice([0.3, 1.0, 4.0])))
    if rng.random() < .2:
        o["delay"] = (0.01, rng.choice([0.1, 0.5]))
    return o

def close(w):
    """Shuts the engine down and lets it go."""
    e, w.engine = w.engine, None
    for m in w.mans:
        m.obj = None
    for q in w.reqs:
        q.handle = None
    e.shutdown()
