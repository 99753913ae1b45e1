"""C11: only authentic v3 messages affect a secured request."""
import random
from vlib.core import Group
from vlib import world as W, scenario as Sc, attack as X, agent as A, ref_ber as R, ref_usm as U

def judge(w, answered=None):
    """Secured requests end with genuine answers, or at their own timeout."""
    ctx = w.ctx
    sl = W.slack(w)
    for q in w.reqs:
        if q.level < 1 or q.outcome is None:
            continue
        ctx.count("secured-requests")
        if q.outcome == "ok":
            if any(v == X.MARK for _, v in q.detail):
                w.fail("forged", "a request with authentication returned data that its agent never sent", q)
            s = A.serial_of(q.detail)
            ans = [a for a in w.answers[q.index] if a.serial == s]
            if not ans or ans[0].vbs != q.detail:
                w.fail("forged", "a request with authentication returned data other than its agent's", q)
            if ans[0].level < q.level:
                w.fail("level", "a request was completed by an answer at a lower level", q)
            ctx.count("genuine")
        elif q.outcome == "error":
            w.fail("forged", f"a request with authentication raised an error that its agent never sent: {q.detail}", q)
        elif q.wait1 < q.deadline - W.EPS - w.sim.quantum:
            w.fail("ended", f"a request with authentication was ended by a message that was not authentic: {q.outcome} {q.detail}", q)
        else:
            ctx.count("unaffected")
        if answered and answered(q) and q.outcome != "ok":
            w.fail("disturbed", f"a request ended with {q.outcome} {q.detail} although its answer arrived", q)

def alter(rng, d):
    """One alteration of the bytes of a datagram, and its kind."""
    k = rng.randrange(len(d))
    x = rng.random()
    if x < .75:
        return "bit" if x < .4 else "byte", d[:k] + bytes([d[k] ^ (1 << rng.randrange(8) if x < .4 else rng.randrange(1, 256))]) + d[k + 1:]
    if x < .8:
        return "cut", d[:k]
    if x < .85:
        return "removed", d[:k] + d[k + 1:]
    if x < .9:
        return "inserted", d[:k] + bytes([rng.randrange(256)]) + d[k:]
    if x < .95:
        j = rng.randrange(len(d))
        a, b = min(j, k), max(j, k)
        e = bytearray(d)
        e[a], e[b] = e[b], e[a]
        return "swapped", bytes(e)
    n = rng.choice([2, 8, 16])
    return "run", d[:k] + rng.randbytes(len(d[k:k + n])) + d[k + n:]

def altered(ctx, rng, i):
    """Altered copies of answers come before the answer, or instead of it."""
    w = W.World(ctx, rng, timeouts=[.4, .8], periods=[.15, 5.0], mixlevels=.1)
    r = random.Random(rng.getrandbits(64))
    withhold = rng.random() < .5
    def main():
        Sc.setup(w, agents=rng.choice([1, 2]), versions=(3,), levels=(1, 2))
        Sc.engine_and_managers(w, versions=(3,), managers=rng.choice([1, 2]))
        def tap(agent, rec, out):
            m = rec.msg
            if m is None or m.level < 1 or not rec.replies:
                return out
            made = []
            for data, src, extra in out:
                for _ in range(r.choice([1, 4, 8])):
                    kind, d = alter(r, data)
                    if d != data:
                        made.append((d, src, extra))
                        ctx.count("altered:" + kind)
                if not (withhold and rec.pdu and rec.pdu[4]):
                    made.append((data, src, extra + 6e-3))
            return made or [(b"", agent.addr, 0.0)]
        for a in w.agents:
            a.taps.append(tap)
        Sc.threads(w, n=rng.choice([1, 2]), per=rng.choice([1, 2, 3]))
        Sc.close(w)
    w.run(main)
    if withhold:
        for q in w.reqs:
            if q.level >= 1 and q.outcome not in (None, "timeout", "report"):
                w.fail("altered", f"a request that only altered answers reached ended with {q.outcome} {q.detail}", q)
            elif q.level >= 1 and q.outcome:
                ctx.count("only-altered")
    judge(w)

def every_byte(ctx, rng, i):
    """Every single byte of one answer, altered in turn."""
    w = W.World(ctx, rng, timeouts=[.8], periods=[5.0], mixlevels=0, dropping=0)
    r = random.Random(rng.getrandbits(64))
    def main():
        Sc.setup(w, agents=1, versions=(3,), levels=(1 + i % 2,))
        Sc.engine_and_managers(w, versions=(3,), managers=1, level=1 + i % 2)
        w.issue(w.plan(w.mans[0]), wait=True)
        q = w.plan(w.mans[0])
        def tap(agent, rec, out):
            made = []
            for data, src, extra in out:
                for k in range(len(data)):
                    d = data[:k] + bytes([data[k] ^ r.choice([1, 2, 4, 8, 16, 32, 64, 128, r.randrange(1, 256)])]) + data[k + 1:]
                    made.append((d, src, extra))
                ctx.count("altered-in-turn", len(data))
            return made
        w.agents[0].taps.append(tap)
        w.issue(q, wait=True)
        Sc.close(w)
    w.run(main)
    q = w.reqs[1]
    if q.outcome not in ("timeout", "report"):
        w.fail("altered", f"a request that only altered answers reached ended with {q.outcome} {q.detail}", q)
    judge(w)

KINDS = ["noauth", "privonly", "authonly", "empty", "zero", "short", "long", "protocol", "unlocalized", "otherengine", "otheruser", "wrongkey", "wrongprivkey",
         "claimuser", "model", "context", "contextengine", "engineid", "usmengine", "cleartext"]

def raw(user, flags, engine, boots, time, name, msgid, data, salt=b"", siglen=0, sign=None, model=3, maxsize=65507, sig=None):
    msg = R.enc_v3(msgid, maxsize, flags, model, R.enc_usm(engine, boots, time, name, bytes(siglen) if sig is None else sig, salt), data)
    if sign and siglen:
        s, n = R.v3_sig_offset(msg)
        msg = msg[:s] + (sign(msg) + bytes(100))[:n] + msg[s + n:]
    return msg

def forge(w, rng, a, m, now, kind):
    """A message that answers m but is not authentic, or not protected as m was."""
    user, engine, level, pdu = m.user, m.engine, m.level, m.scoped[2]
    x = rng.random()
    out = ("response", pdu[1], 0, 0, X.mark(pdu))
    if x < .15:
        out = ("response", pdu[1], rng.choice([1, 2, 5, 18]), rng.randrange(0, 2), pdu[4])
    elif x < .25 and kind != "contextengine":      # a report's context engine tells nothing
        # reports that would end the request at once
        out = ("report", pdu[1], 0, 0, [(A.USM_STATS + (rng.choice([1, 3, 5, 6]), 0), ("c32", 1))])
    ceid, cname = engine, b""
    proto = user.auth[0]
    key = user.authkey(engine)
    boots, time = a.boots, a.time(now)
    n = U.digest_len(proto)
    name = user.name
    salt = rng.randbytes(8)
    flags, siglen = (0, 1, 3)[level], n
    sign = lambda msg: U.digest(proto, key, msg)
    usmengine = engine
    model = 3
    if kind == "context":
        cname = rng.choice([b"x", b"\0", b"default"])
    if kind == "contextengine":
        ceid = rng.choice([b"", engine[:-1], engine + b"\0", b"\x80\0\0\0\1other"])
    if kind == "engineid":
        usmengine = rng.choice([b"", engine[:-1], engine + b"\0", engine[:-1] + bytes([engine[-1] ^ 1])])
        key = user.authkey(usmengine) if rng.random() < .5 else key
    def sealed(scoped, u=user, e=engine):
        return R.enc_str(U.encrypt(u.priv[0], u.privkey(e), boots, time, salt, scoped))
    scoped = R.enc_scoped(ceid, cname, R.enc_pdu(*out))
    data = sealed(scoped) if level == 2 else scoped
    psalt = salt if level == 2 else b""
    if kind == "noauth":
        flags, siglen, sign, data, psalt = 0, 0, None, scoped, b""
    elif kind == "privonly":
        if user.priv is None:
            return None
        flags, siglen, sign, data, psalt = 2, rng.choice([0, n]), None, sealed(scoped), salt
    elif kind == "authonly":
        # authentic, but readable by everyone, although the request was encrypted
        if level < 2:
            return None
        if out[0] == "report":
            return None
        flags, data, psalt = 1, scoped, b""
    elif kind == "cleartext":
        # flagged as encrypted but not encrypted, with and without a salt
        if level < 2:
            return None
        data, psalt = (scoped, rng.choice([salt, b""])) if rng.random() < .5 else (R.enc_str(scoped), rng.choice([salt, b""]))
    elif kind == "empty":
        siglen, sign = 0, None
    elif kind == "zero":
        sign = None
    elif kind == "short":
        siglen = rng.choice([1, n // 2, n - 1, rng.randrange(1, n)])
    elif kind == "long":
        siglen = rng.choice([n + 1, n + 4, 64, 2 * n])
        full = lambda msg: U.digest(proto, key, msg)
        sign = lambda msg: full(msg) + full(msg)
    elif kind == "protocol":
        p2 = rng.choice([p for p in U.AUTH if p != proto])
        k2 = U.localized(p2, user.auth[1], engine)
        siglen = rng.choice([n, U.digest_len(p2)])
        sign = lambda msg: (U.digest(p2, k2, msg) + bytes(64))[:siglen]
    elif kind == "unlocalized":
        k2 = rng.choice([U.password_to_key(proto, user.auth[1]), user.auth[1][:20], b"", bytes(len(key))])
        sign = lambda msg: U.digest(proto, k2, msg)
    elif kind == "otherengine":
        e2 = rng.choice([x.engine for x in w.agents if x.engine != engine] + [engine + b"\0", b"", engine[::-1]])
        k2 = user.authkey(e2)
        sign = lambda msg: U.digest(proto, k2, msg)
    elif kind == "otheruser":
        # another user of the same engine answers, under its own name
        others = [u for u in a.users.values() if u.name != user.name and u.level >= level]
        if not others:
            return None
        o = rng.choice(others)
        return A.seal(o, level, engine, boots, time, m.msgid, scoped, salt)
    elif kind == "claimuser":
        # another user of the same engine signs in the first one's name
        others = [u for u in a.users.values() if u.name != user.name and u.level >= 1]
        if not others:
            return None
        o = rng.choice(others)
        if o.auth == user.auth:
            return None
        k2 = o.authkey(engine)
        siglen = U.digest_len(o.auth[0])
        sign = lambda msg: U.digest(o.auth[0], k2, msg)
    elif kind == "wrongkey":
        k2 = key[:-1] + bytes([key[-1] ^ 1]) if rng.random() < .5 else rng.randbytes(len(key))
        sign = lambda msg: U.digest(proto, k2, msg)
    elif kind == "wrongprivkey":
        if level < 2:
            return None
        bad = A.User(name, user.auth, (user.priv[0], user.priv[1] + b"!"))
        data = sealed(scoped, bad)
    elif kind == "model":
        model = rng.choice([0, 1, 2, 4, 2**31 - 1])
    elif kind == "usmengine":
        # another engine that knows this user answers in its own name
        others = [x for x in w.agents if x.engine != engine and user.name in x.users and x.users[user.name].level >= level]
        if not others:
            return None
        o = rng.choice(others)
        if rng.random() < .5:
            scoped = R.enc_scoped(o.engine, cname, R.enc_pdu(*out))
        return A.seal(o.users[user.name], level, o.engine, o.boots, o.time(now), m.msgid, scoped, salt)
    return raw(user, flags | rng.choice([0, 0, 4]), usmengine, boots, time, name, m.msgid, data, psalt, siglen, sign, model)

def forgeries(ctx, rng, i):
    w = W.World(ctx, rng, timeouts=[.4, .8], periods=[.15, 5.0], mixlevels=.2)
    r = random.Random(rng.getrandbits(64))
    withhold = rng.random() < .5
    def main():
        Sc.setup(w, agents=rng.choice([1, 2, 3]), versions=(3,), levels=(1, 2), namespaces=rng.random() < .3)
        for ns in w.users:
            # a further user, so that there is somebody else to answer
            u = W.make_user(rng, b"other" + ns.encode(), 2)
            w.users[ns].append(u)
            for a in w.agents:
                if a.namespace == ns:
                    a.users[u.name] = u
        Sc.engine_and_managers(w, versions=(3,), managers=rng.choice([1, 2, 3]))
        def tap(agent, rec, out):
            m = rec.msg
            if m is None or m.level < 1 or m.problem or not rec.pdu or not rec.pdu[4]:
                return out
            made = []
            for _ in range(r.choice([2, 4, 8])):
                kind = r.choice(KINDS)
                d = forge(w, r, agent, m, rec.t, kind)
                if d is None:
                    continue
                ctx.count("forged:" + kind)
                made.append((d, agent.addr if r.random() < .7 else r.choice(w.agents).addr, 0.0))
            for data, src, extra in out:
                if not (withhold and rec.verdict == "ok"):
                    made.append((data, src, extra + 6e-3))
            return made or [(b"", agent.addr, 0.0)]
        for a in w.agents:
            a.taps.append(tap)
        Sc.threads(w, n=rng.choice([1, 2, 3]), per=rng.choice([1, 2, 3]))
        Sc.close(w)
    w.run(main)
    judge(w)
    for q in w.reqs:
        if withhold and q.level >= 1 and q.outcome == "ok":
            w.fail("forged", "a request that no genuine answer reached was completed", q)
    ctx.sample(dict(withhold=withhold, outcomes=[(q.level, q.outcome) for q in w.reqs]))

def reports(ctx, rng, i):
    """Reports that nobody has authenticated, or that others have, never end a request before its timeout."""
    w = W.World(ctx, rng, timeouts=[.6, 1.2], periods=[.2, .5], mixlevels=.2)
    r = random.Random(rng.getrandbits(64))
    silent = rng.random() < .5
    mild = rng.random() < .5
    def main():
        Sc.setup(w, agents=rng.choice([1, 2, 3]), versions=(3,), levels=(1, 2))
        Sc.engine_and_managers(w, versions=(3,), managers=rng.choice([1, 2, 3]))
        if silent:
            for a in w.agents:
                a.silent = lambda rec: bool(rec.pdu and rec.pdu[4])
        def attack(now, src, dst, data, sock):
            a = w.net.agents.get(dst)
            if a is None:
                return
            m = A.Opened(data, a.users, None)
            for _ in range(r.choice([1, 1, 2, 4])):
                kind = r.choice([1, 3, 5, 6, 77, 78] if mild else [1, 2, 3, 4, 5, 6, 77, 78])
                oid = {77: (1, 3, 6, 1, 6, 3, 11, 2, 1, 3, 0), 78: (1, 3, 6, 1, 6, 3, 15, 1, 1, r.randrange(0, 9), 0)[:r.choice([10, 11, 11])]}.get(kind, A.USM_STATS + (kind, 0))
                e = m.engine if mild or r.random() < .5 else r.choice([x.engine for x in w.agents] + [b"", a.engine + b"\1"])
                rid = r.choice([m.scoped[2][1] if m.scoped else 0, 0])
                body = lambda e: R.enc_scoped(r.choice([e, e, b""]), b"", R.enc_pdu("report", rid, 0, 0, [(oid, ("c32", r.randrange(2**32)))]))
                others = [x for x in w.agents if x.engine != m.engine and m.username in x.users and m.level >= 1 and x.users[m.username].level >= 1]
                if kind not in (2, 4) and others and r.random() < .4:
                    # another engine of the same user: authentic, but not from where the request went
                    o = r.choice(others)
                    d = A.seal(o.users[m.username], r.randrange(1, o.users[m.username].level + 1), o.engine, o.boots, o.time(now), m.msgid, body(o.engine), r.randbytes(8))
                    ctx.count("report:other-engine")
                elif m.user and m.level >= 1 and r.random() < .3:
                    bad = A.User(m.username, (m.user.auth[0], m.user.auth[1] + b"?"), m.user.priv)
                    d = A.seal(bad, 1, m.engine, a.boots, a.time(now), m.msgid, body(m.engine), b"")
                    ctx.count("report:wrong-key")
                else:
                    boots, time = r.choice([(0, 0), (a.boots, a.time(now))])
                    d = A.seal(A.User(r.choice([m.username, m.username, m.username, b""])), 0, e, boots, time, m.msgid, body(e), b"", flags=r.choice([0, 0, 0, 4]))
                    ctx.count("report:unauthenticated")
                w.net.inject(d, dst, src, r.choice([0, 5e-4, 2e-3, .1]))
        w.net.taps.append(attack)
        Sc.threads(w, n=rng.choice([1, 2, 3]), per=rng.choice([1, 2, 3]))
        Sc.close(w)
    w.run(main)
    for q in w.reqs:
        if silent and q.outcome in ("ok", "error") and q.level >= 1:
            w.fail("forged", "a request that nobody answered was completed", q)
    judge(w)

GROUPS = [Group("altered", altered, 500, 20000), Group("every_byte", every_byte, 120, 2000), Group("forgeries", forgeries, 600, 25000), Group("reports", reports, 500, 15000)]
