"""C10: outgoing v3 messages carry exactly the protection requested."""
import random
from vlib.core import Group
from vlib import world as W, scenario as Sc, agent as A, ref_ber as R, ref_usm as U

def judge(w, clock=None, engines=None):
    """Every v3 datagram is a probe or a request with exactly its protection.

    clock: how far the declared time may be from the agent's, once the agent has
    been heard of; engines: what a request may be addressed to."""
    ctx = w.ctx
    heard = first_heard(w)
    for tx in w.txs:
        if tx.bad:
            w.fail("malformed", "a datagram that a conforming agent cannot read: " + tx.bad)
        if tx.version != 3:
            continue
        m = tx.msg
        # parsing assigns a request by the names it can read
        if m.level == 0 and m.username == b"" and m.engine == b"":
            probe(w, tx)
            continue
        if m.level < 0 or m.model != 3 or not m.reportable:
            w.fail("header", f"a message with flags {m.flags:#x} and security model {m.model} left")
        if m.problem:
            w.fail("unverifiable", f"a message at level {m.level} for {m.username!r} and engine {m.engine.hex()} left with a wrong {m.problem}")
        q = tx.req
        if q is None:
            w.fail("unknown", f"a message that belongs to no request left: {w.brief(tx.data)}")
        if m.username != q.user.name:
            w.fail("user", f"a request of {q.user.name!r} left as {m.username!r}", q)
        if m.level != q.level:
            w.fail("level", f"a request at level {q.level} left at level {m.level}", q)
        if engines is None:
            known = {e for _, e, _ in tx.agent.history}
        else:
            known = engines(tx.agent)
        if m.engine not in known or m.scoped[0] != m.engine:
            w.fail("engine", f"a request left for engine {m.engine.hex()} and context engine {m.scoped[0].hex()}", q)
        if m.scoped[1] != b"":
            w.fail("context", f"a request left for context {m.scoped[1]!r}", q)
        ctx.count("messages:%d" % m.level)
        if m.level == 2:
            if not m.salt or m.cipher is None or len(m.salt) != 8:
                w.fail("salt", "an encrypted message has no salt of 8 bytes", q)
            for n, v in tx.pdu[4]:
                e = R.enc_oid(n)
                if e in tx.data or e[2:] in tx.data:
                    w.fail("plaintext", "a name of an encrypted request is readable on the wire", q)
                ctx.count("searched-for-plaintext")
            encoded = R.enc_pdu(*tx.pdu)
            for s in (encoded, encoded[:24], encoded[2:20]):
                if s in tx.data:
                    w.fail("plaintext", "an encrypted request is readable on the wire", q, data=tx.data.hex(), plain=m.plain.hex(), engine=m.engine.hex())
            if q.user.priv[0] == "des" and len(m.cipher) % 8:
                w.fail("cipher", "DES ciphertext is not whole blocks", q)
        elif m.salt:
            w.fail("salt", "a message that is not encrypted carries privacy parameters", q)
        if m.level == 0 and m.sig:
            w.fail("signature", "an unauthenticated message carries authentication parameters", q)
        if m.level and clock is not None:
            check_clock(w, tx, heard, clock)
    for q in w.reqs:
        # names that are not to be seen were never sent in any other way
        if q.man.version == 3 and q.level == 2:
            e = R.enc_oid(q.names[0])
            for t, _, dst, data, _ in w.net.sent:
                if e in data:
                    w.fail("plaintext", "a name of an encrypted request left in some datagram", q)
            ctx.count("confidential-requests")

def probe(w, tx):
    m = tx.msg
    p = tx.pdu
    if p is None or p[0] != "get" or p[4] or m.sig or m.salt or m.boots or m.time or m.scoped[0] or m.scoped[1] or not m.reportable or m.model != 3:
        w.fail("probe", "a discovery probe carries more than it may: " + w.brief(tx.data))
    w.ctx.count("probes")

def first_heard(w):
    """(agent, when it last started) -> when an authentic message with its clock first arrived."""
    sec = {}
    made = {}
    for a in w.agents:
        for ans in a.answers.values():
            if getattr(ans, "level", None):
                made[ans.data] = (a, ans.t)
        for t, problem, data in a.reports:
            if R.dec_v3(data)["flags"][0] & 1:
                made[data] = (a, t)
    for t, dst, src, data in w.net.delivered:
        if data in made and t >= made[data][1]:
            a, at = made[data]
            k = (a, epoch(a, at))
            sec[k] = min(sec.get(k, 1e18), t)
    return sec

def epoch(a, t):
    return max(k for k, h in enumerate(a.history) if h[0] <= t + 1e-9)

def check_clock(w, tx, heard, clock):
    a = tx.agent
    k = epoch(a, tx.t)
    since = heard.get((a, k))
    if since is None or since > tx.t - .01:
        return
    if a.history[k][1] != tx.msg.engine:
        return
    true = tx.t - booted(a, k)
    if tx.msg.boots != a.history[k][2] or abs(min(true, A.MAX) - tx.msg.time) > clock + 2.1:
        w.fail("clock", f"a message declares boots {tx.msg.boots} and time {tx.msg.time} while the engine's are {a.history[k][2]} and {true:.2f}", tx.req)
    w.ctx.count("clocks")

def booted(a, k):
    return a.history[k][0] if k else a.first_boot

def setup(w, **kw):
    Sc.setup(w, **kw)
    for a in w.agents:
        a.boots = min(a.boots, A.MAX - 60)
        a.history[0] = a.history[0][:2] + (a.boots,)
        a.first_boot = a.booted

def worlds(ctx, rng, i):
    o = Sc.faults(rng)
    w = W.World(ctx, rng, mixlevels=.4, **o)
    worst = o.get("delay", (0, 5e-3))[1] + (o["late"][1][1] if "late" in o else 0)
    def main():
        setup(w, versions=(3,), levels=rng.choice([(0, 1, 2), (1, 2), (2,)]))
        Sc.engine_and_managers(w, versions=(3,), managers=rng.choice([1, 2, 3, 4]))
        Sc.threads(w)
        Sc.close(w)
    w.run(main)
    judge(w, clock=worst)
    ctx.sample(dict(messages=[(t.msg.level, t.msg.username.decode("latin1"), t.msg.boots, t.msg.time) for t in w.txs][:6]))

def reboots(ctx, rng, i):
    """The agent restarts, is idle, or changes its engine ID while requests are under way."""
    w = W.World(ctx, rng, mixlevels=.3, timeouts=[2.0, 5.0], periods=[.3, 1.0], dropping=0, sim=dict(horizon=1e6), loss=rng.choice([0, 0, .2]))
    def main():
        setup(w, agents=rng.choice([1, 2]), versions=(3,), levels=(1, 2))
        Sc.engine_and_managers(w, versions=(3,), managers=rng.choice([1, 2, 3]))
        for _ in range(rng.choice([2, 3, 4])):
            for a in w.agents:
                x = rng.random()
                if x < .5 and a.boots < A.MAX - 20:
                    new = a.engine[:-1] + rng.randbytes(2) if rng.random() < .25 and all(m.engine_id is None for m in w.mans) else None
                    w.sim.at(w.sim.now + rng.choice([0, 0, .002, .5]), lambda a=a, new=new: a.reboot(w.sim.now, engine=new, boots=rng.choice([None, None, a.boots + 7]) if a.boots < A.MAX - 9 else None))
            if rng.random() < .5:
                w.sim.sleep(rng.choice([1.0, 100.0, 151.0, 5000.0]))
            Sc.threads(w, n=rng.choice([1, 2]), per=rng.choice([1, 2, 3]))
        Sc.close(w)
    w.run(main)
    judge(w, clock=.1)

def downgrade(ctx, rng, i):
    """Forged reports and answers without authentication try to make requests leave weaker or elsewhere."""
    w = W.World(ctx, rng, mixlevels=.3, timeouts=[1.0, 3.0], periods=[.2, .5], dropping=.1)
    r = random.Random(rng.getrandbits(64))
    invented = set()
    def main():
        setup(w, versions=(3,), levels=(1, 2), agents=rng.choice([1, 2]))
        Sc.engine_and_managers(w, versions=(3,), managers=rng.choice([1, 2, 3]))
        def attack(now, src, dst, data, sock):
            a = w.net.agents.get(dst)
            if a is None or r.random() < .4:
                return
            m = A.Opened(data, a.users, None)
            for _ in range(r.choice([1, 2])):
                # engine IDs that another namespace uses cannot be adopted at all; they are tried as well
                e = r.choice([a.engine, a.engine, b"", b"\x80\0\0\1\4evil" + bytes([r.randrange(3)]), r.choice(w.agents).engine, a.engine[:-1]])
                invented.add(e)
                kind = r.choice(list(A.REPORTS.values()) + [77])
                oid = A.USM_STATS + (kind, 0) if kind != 77 else (1, 3, 6, 1, 6, 3, 11, 2, 1, 3, 0)
                rid = m.scoped[2][1] if m.scoped else r.randrange(100)
                p = R.enc_pdu(r.choice(["report", "report", "report", "response"]), rid, 0, 0, [(oid, ("c32", r.randrange(100)))])
                boots, time = r.choice([(0, 0), (a.boots, a.time(now)), (a.boots + 1, 0), (A.MAX, 5), (2**31 - 2, 2**31 - 1), (a.boots, A.MAX)])
                user = A.User(r.choice([m.username, m.username, b""]), None, None)
                w.net.inject(A.seal(user, 0, e, min(boots, A.MAX), time, m.msgid, R.enc_scoped(r.choice([e, a.engine]), b"", p), b""), dst, src, r.choice([0, 5e-4, 2e-2]))
                ctx.count("forged-reports")
        w.net.taps.append(attack)
        Sc.threads(w, n=rng.choice([1, 2, 3]), per=rng.choice([1, 2, 3]))
        Sc.close(w)
    w.run(main)
    judge(w, engines=lambda a: {a.engine} | invented)

def refused(ctx, rng, i):
    """Levels beyond the user's credentials are refused, and nothing but a probe leaves."""
    w = W.World(ctx, rng, timeouts=[.6, 1.5], periods=[.2, .5], mixlevels=0, dropping=0)
    def main():
        setup(w, agents=rng.choice([1, 2]), versions=(3,), levels=(2,))
        for ns in list(w.users):
            low = A.User(b"low" + ns.encode(), None, None)
            mid = A.User(b"mid" + ns.encode(), (rng.choice(list(U.AUTH)), W.SECRETS[1]), None)
            w.users[ns] += [low, mid]
            for a in w.agents:
                if a.namespace == ns:
                    # the agent would serve them at any level
                    a.users.update({low.name: A.User(low.name, ("sha", W.SECRETS[0]), ("aes", W.SECRETS[0])), mid.name: A.User(mid.name, mid.auth, ("aes", W.SECRETS[1]))})
        Sc.engine_and_managers(w, versions=(3,), managers=rng.choice([1, 2]))
        for _ in range(rng.choice([2, 4])):
            m = rng.choice(w.mans)
            ns = m.agent.namespace
            q = w.plan(m)
            q.bad = None
            x = rng.random()
            if x < .6:
                us = w.users[ns]
                u = rng.choice([u for u in us if u.level < 2])
                lv = rng.randrange(u.level + 1, 3)
                q.user, q.level, q.bad = u, lv, u.name
                q.explicit = dict(user=u.name, securityLevel=W.level_obj(lv))
                if u.level == 0 and rng.random() < .2:
                    # a user that nobody has added
                    q.explicit["user"] = b"nobody"
            if rng.random() < .5:
                w.issue(q, wait=True)
            else:
                w.issue(q)
                w.wait(q)
        Sc.close(w)
    w.run(main)
    for q in w.reqs:
        if q.bad:
            if q.outcome != "exception" or not q.detail.startswith(("InvalidSecurityLevel", "InvalidUserName")):
                w.fail("not-refused", f"a request at level {q.level} of a user that supports {q.user.level} ended with {q.outcome}", q)
            if q.txs:
                w.fail("not-refused", "a request at a level that its user does not support was sent", q)
            ctx.count("refused")
        elif q.outcome != "ok":
            w.fail("wrong-outcome", "a request within its user's level was not served", q)
    judge(w)

GROUPS = [Group("worlds", worlds, 700, 20000), Group("reboots", reboots, 400, 12000), Group("downgrade", downgrade, 400, 12000), Group("refused", refused, 300, 9000)]
