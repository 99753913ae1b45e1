"""C22: operations reach the agent and results reach the caller unchanged."""
from vlib.core import Group
from vlib import world as W, scenario as Sc, gen as G, ref_ber as R

STATUS = {0: "noError", 1: "tooBig", 2: "noSuchName", 3: "badValue", 4: "readOnly", 5: "genErr", 6: "noAccess", 7: "wrongType", 8: "wrongLength",
          9: "wrongEncoding", 10: "wrongValue", 11: "noCreation", 12: "inconsistentValue", 13: "resourceUnavailable", 14: "commitFailed",
          15: "undoFailed", 16: "authorizationError", 17: "notWritable", 18: "inconsistentName"}
DATA = [k for k in G.KINDS if k not in ("nso", "nsi", "eomv")]

def size(vbs):
    return sum(len(R.enc_oid(n)) + 8 + (len(v[1]) if len(v) > 1 and isinstance(v[1], bytes) else 4 * len(v[1]) if v[0] == "oid" else 12) for n, v in vbs)

def bindings(rng, room, kinds, lo=0):
    n = rng.choice([lo, 1, 1, 2, 3, 4, rng.randrange(1, 9), rng.choice([20, 40])])
    big = rng.random() < .2
    out = []
    for _ in range(max(n, lo)):
        vb = G.varbind(rng, kinds=kinds, maxlen=1000 if big else 60)
        if size(out + [vb]) > room:
            if len(out) >= lo:
                break
            vb = (G.oid(rng, maxlen=12), ("null",))
        out.append(vb)
    if len(out) > 1 and rng.random() < .2:
        out[-1] = (out[0][0], out[-1][1])        # the same name twice
    return out

def response(rng, room, vbs, op):
    """What the agent answers to a request for these bindings: status, index, bindings."""
    x = rng.random()
    if x < .35:
        out = bindings(rng, room, ["nso", "nsi", "eomv"] + DATA if rng.random() < .6 else ["nso", "nsi", "eomv"] if rng.random() < .5 else DATA)
        return 0, 0, out
    if x < .5:
        return 0, 0, [(n, G.value(rng, kinds=G.KINDS, maxlen=20)) for n, _ in vbs]
    status = rng.choice([1, 2, 3, 4, 5, rng.randrange(1, 19)])
    y = rng.random()
    back = vbs if y < .6 else vbs + [G.varbind(rng, maxlen=20) for _ in range(rng.choice([1, 2]))] if y < .9 else vbs[:rng.randrange(0, len(vbs) + 1)]
    index = rng.choice([0, len(back), rng.randrange(0, len(back) + 1)])
    return status, index, back

def name_arg(rng, n):
    from snmp.smi import OID
    return ".".join(map(str, n)) if rng.random() < .5 else OID(*n)

def issue(w, q, rng, wait, auto):
    from snmp.pdu import VarBind
    m = q.man.obj
    kw = dict(timeout=q.timeout, refreshPeriod=q.period, **q.explicit)
    if wait is not None:
        kw["wait"] = wait
    else:
        wait = auto
    names = [name_arg(rng, n) for n in q.names]
    q.created = w.sim.now
    try:
        if q.op == "set":
            args = []
            for n, v in zip(names, q.values):
                lv = None if v == ("null",) and rng.random() < .5 else G.to_lib(v)
                args.append((n, lv) if rng.random() < .6 else VarBind(n, lv))
            h = m.set(*args, **kw)
        elif q.op == "getbulk":
            a, b = q.bulk
            if a or rng.random() < .5:
                kw["nonRepeaters"] = a
            if b or rng.random() < .5:
                kw["maxRepetitions"] = b
            h = m.getBulk(*names, **kw)
        else:
            h = (m.get if q.op == "get" else m.getNext)(*names, **kw)
        if not wait:
            q.handle = h
            return
    except Exception as e:
        h = e
    collect(w, q, h)

def collect(w, q, r):
    q.wait1 = w.sim.now
    q.result = r
    if isinstance(r, Exception):
        r.__traceback__ = None
        q.outcome = "raised"
    else:
        q.outcome = "ok"

def wait(w, q):
    h, q.handle = q.handle, None
    try:
        r = h.wait()
    except Exception as e:
        r = e
    collect(w, q, r)

def fidelity(ctx, rng, i):
    ver = (0, 1, 3, 3)[i % 4]
    big = rng.random() < .15
    w = W.World(ctx, rng, sim=dict(line=0), delay=(1e-3, 5e-3), loss=rng.choice([0, 0, .25]), dup=rng.choice([0, 0, .2]))
    room = 60000 if big else 700
    todo, ids, seen = {}, {}, []
    def responder(rec, serial):
        p = rec.pdu
        if not p[4] and w.probing(p, rec):
            return 0, 0, []
        seen.append((rec, p))
        q = ids.get(p[1])
        if q is None:
            q = w.current or todo.get(p[4][0][0][-1] if p[4] and p[4][0][0][:len(W.BASE)] == W.BASE else None)
            if q is None:
                return None
            ids[p[1]] = q
        if q.reply is None:
            vbs = [(n, ("null",) if v[0] == "null" else v) for n, v in p[4]]
            q.reply = response(w.arng, room, vbs, q.op)
            q.asked = []
        q.asked.append(p)
        return q.reply
    w.probing = lambda p, rec: rec.version == 3 and rec.msg.level == 0 and rec.msg.username == b""
    w.arng = type(rng)(rng.getrandbits(64))
    def main():
        Sc.setup(w, agents=1, versions=(ver,), responder=responder, levels=rng.choice([(0, 1, 2), (2,), (1,)]))
        w.new_engine(autowait=rng.random() < .5, **({"msgMaxSize": 65507} if big else {}))
        for ns, us in w.users.items():
            for u in us:
                W.add_user(w.engine, u, ns)
        kw = {}
        if rng.random() < .5:
            kw["autowait"] = rng.random() < .5
        else:
            kw["autowait"] = None
        auto = kw["autowait"] if kw["autowait"] is not None else w.engine.autowaitDefault
        m = w.add_manager(w.agents[0], ver, give_engine=rng.random() < .4 if ver == 3 else None, **kw)
        for _ in range(rng.choice([2, 4, 8])):
            batch = []
            single = rng.random() < .5
            for _ in range(1 if single else rng.choice([2, 3, 5])):
                q = w.plan(m, timeout=60.0, period=1.0)
                vbs = bindings(rng, room, DATA, lo=0 if single else 1)
                if not single:
                    vbs[0] = (W.BASE + (q.index + 1,), vbs[0][1])
                    todo[q.index + 1] = q
                if q.op != "set":
                    vbs = [(n, ("null",)) for n, _ in vbs]
                q.names, q.values = [n for n, _ in vbs], [v for _, v in vbs]
                if q.op == "getbulk":
                    q.bulk = (G.nat31(rng), G.nat31(rng)) if rng.random() < .4 else (rng.randrange(0, 4), rng.randrange(0, 50))
                q.reply, q.asked = None, []
                batch.append(q)
            w.current = batch[0] if single else None
            for q in batch:
                x = rng.choice([None, True, False]) if single else False if auto else rng.choice([None, False])
                if x is None and auto:
                    q.implicit = True
                issue(w, q, rng, x, auto)
                ctx.count("implicit-wait" if x is None else "explicit-wait")
            rng.shuffle(batch)
            for q in batch:
                if q.handle is not None:
                    wait(w, q)
            w.current = None
        Sc.close(w)
    w.run(main)
    for q in w.reqs:
        judge(ctx, w, q)

def judge(ctx, w, q):
    from snmp.pdu import ErrorResponse, VarBindList
    det = dict(request=repr(q), scenario=w.describe())
    want = ("getbulk",) + tuple(q.bulk) if q.op == "getbulk" else (q.op, 0, 0)
    vbs = list(zip(q.names, q.values))
    if not q.asked:
        w.fail("lost", "a request never reached the agent as it was made", q)
        return
    for p in q.asked:
        ctx.count("requests-compared")
        if (p[0], p[2], p[3]) != want:
            w.fail("operation", f"the agent received {(p[0], p[2], p[3])} instead of {want}", q)
        if list(p[4]) != vbs:
            w.fail("bindings", f"the agent received bindings other than the request's: {p[4]!r:.300} instead of {vbs!r:.300}", q)
    status, index, back = q.reply
    r = q.result
    if status == 0:
        if isinstance(r, Exception):
            w.fail("result", f"a successful request raised {type(r).__name__}: {r}", q)
            return
        ctx.check_that(isinstance(r, VarBindList) and len(r) == len(back), "result", "the result has another number of bindings than the response", **det)
        got = [G.vb_from_lib(r[k]) for k in range(len(r))]
        if got != list(back) or G.vbs_from_lib(r) != list(back):
            w.fail("result", f"the result differs from the response: {got!r:.300} instead of {back!r:.300}", q)
        for _, v in back:
            ctx.count("value:" + v[0])
        ctx.count("results-compared")
        return
    if not isinstance(r, ErrorResponse):
        w.fail("error", f"error status {status} with index {index} gave {type(r).__name__}: {r!s:.200}", q)
        return
    if int(r.status) != status or getattr(r.status, "name", None) != STATUS[status]:
        w.fail("error", f"error status {status} was raised as {r.status!r}", q)
    ctx.count("errors-compared")
    ctx.count("status:%d" % status)
    c = r.cause
    if index == 0:
        ctx.count("cause:request")
        good = not isinstance(c, int) and G.kind_of(c) == q.op and G.vbs_from_lib(c.variableBindings) == vbs
    elif index <= len(vbs):
        ctx.count("cause:binding")
        good = not isinstance(c, int) and type(c).__name__ == "VarBind" and G.vb_from_lib(c) == vbs[index - 1]
    else:
        ctx.count("cause:index")
        good = isinstance(c, int) and c == index
    if not good:
        w.fail("cause", f"error index {index} of a request for {len(vbs)} bindings was reported as {c!r:.200}", q)

GROUPS = [Group("fidelity", fidelity, 1200, 40000)]
