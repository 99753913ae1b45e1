"""C12: the time window rules of RFC 3414, against a model of every engine's clock."""
import random
from vlib.core import Group
from vlib import world as W, scenario as Sc, agent as A, ref_ber as R, ref_usm as U

MAX = 2**31 - 1

class Clock:
    """What a non-authoritative engine knows about another engine's clock."""
    def __init__(self):
        self.state = None            # None, "hint" or "auth"
        self.boots = 0
        self.boot_at = 0.0           # local time at which the engine's time was 0
    def estimate(self, ts):
        """Boots and time (not truncated)."""
        if self.state is None:
            return 0, 0.0
        return self.boots, max(0.0, min(float(MAX), ts - self.boot_at))
    def set(self, boots, time, ts, state):
        self.boots, self.boot_at, self.state = boots, ts - time, state
    def hint(self, boots, time, ts):
        if self.state != "auth":
            self.set(boots, time, ts, "hint")
    def message(self, boots, time, ts):
        """True, False, or None where rounding may decide."""
        if self.state != "auth":
            self.set(boots, time, ts, "auth")
            return boots < MAX
        known, est = self.estimate(ts)
        if boots > known:
            self.set(boots, time, ts, "auth")
            return boots < MAX
        if boots < known or boots >= MAX:
            # at the maximum, time still moves forward; nothing is accepted any more
            if boots == known and time > est:
                self.set(boots, time, ts, "auth")
            return False
        if int(est) < time:
            self.set(boots, time, ts, "auth")
            return True
        age = est - time
        if age <= 150:
            return True
        if age < 151:
            return None
        return False

def values(rng, clock, ts):
    """Boots and time worth trying against a clock."""
    known, est = clock.estimate(ts)
    x = rng.random()
    if x < .25:
        boots = known
    elif x < .45:
        boots = known + rng.choice([-1, 1, 1, 2, -2])
    else:
        boots = known
    if rng.random() < .12:
        boots = rng.choice([0, 1, MAX - 1, MAX, MAX, rng.randrange(MAX + 1)])
    e = int(est)
    time = e + rng.choice([0, 0, 1, -1, 2, -2, 10, -10, -100, -140, -148, -149, -150, -151, -152, -153, -160, -1000, 100, 149, 150, 151, 152, 1000])
    if rng.random() < .15:
        time = rng.choice([0, 1, MAX, MAX - 1, MAX - 150, MAX - 151, rng.randrange(MAX + 1)])
    return max(0, min(MAX, boots)), max(0, min(MAX, time))

def step(rng, ts):
    return ts + rng.choice([0, 0, .125, .5, .875, 1, 1, 2.25, 10, 100, 149, 149.875, 150, 150.125, 151, 151.5, 200, 5000, 10.0**6, rng.choice([2.0**31, 4e9]) if rng.random() < .03 else 1])

def check_estimate(ctx, got, clock, ts, history, what):
    known, est = clock.estimate(ts)
    b, t = got
    if b != known or not (0 <= t <= MAX) or abs(t - est) >= 1:
        ctx.fail("estimate", f"{what} boots {b} and time {t}, but the estimate is {known} and {est}", history=history)
    ctx.count("estimates")

def family(rng, n):
    """Engine IDs that are alike in one way or another."""
    core = rng.randbytes(rng.choice([7, 12, 24]))
    kind = rng.randrange(6)
    out = []
    for k in range(n):
        if kind == 0:
            e = b"\x80\0\0" + bytes([k]) + core                  # the same end
        elif kind == 1:
            e = b"\x80\0\0\1" + core + bytes([k])               # the same start
        elif kind == 2:
            e = (b"\x80\0\0\1" + core)[:5 + k]                 # one starts with the other
        elif kind == 3:
            e = b"\x80\0\0\1" + core[:5] + bytes(k)             # zeros at the end
        elif kind == 4:
            e = b"\x80\0\0\1" + (b"name", b"NAME", b"Name")[k]  # case
        else:
            e = b"e%d" % k + bytes(3)
        out.append(e)
    rng.shuffle(out)
    return out

def keeper(ctx, rng, i):
    """Histories of hints and authenticated messages of several engines."""
    from snmp.security.usm.timekeeper import TimeKeeper
    k = TimeKeeper()
    engines = family(rng, rng.choice([1, 1, 2, 3]))
    clocks = {e: Clock() for e in engines}
    ts = float(rng.choice([0, 1000, 1.7e9, rng.randrange(10**9)])) + rng.choice([0, .125, .75])
    history = []
    for _ in range(rng.choice([5, 15, 40])):
        ts = step(rng, ts)
        e = rng.choice(engines)
        c = clocks[e]
        boots, time = values(rng, c, ts)
        if rng.random() < .3:
            k.hint(e, boots, time, ts)
            c.hint(boots, time, ts)
            history.append(("hint", e, boots, time, ts))
            ctx.count("hints")
        else:
            before = (c.state, *c.estimate(ts))
            want = c.message(boots, time, ts)
            got = k.updateAndVerify(e, boots, time, ts)
            history.append(("message", e, boots, time, ts, got, before))
            judge(ctx, got, want, before, boots, time, history)
        for x in engines:
            check_estimate(ctx, k.getEngineTime(x, ts), clocks[x], ts, history, "the time keeper gives")
        if rng.random() < .3:
            later = step(rng, ts)
            check_estimate(ctx, k.getEngineTime(e, later), clocks[e], later, history + [("asked at", later)], "the time keeper gives")
    ctx.distinct(history)
    ctx.sample(history[-3:])

def judge(ctx, got, want, before, boots, time, history):
    if want is None:
        ctx.count("on-the-edge")
        return
    if bool(got) != want:
        ctx.fail("accepted" if got else "rejected", f"a message with boots {boots} and time {time} was {'accepted' if got else 'rejected'} against state {before}", history=history)
    ctx.count("accepted" if want else "rejected")
    if before[0] == "auth":
        if boots < before[1]:
            ctx.count("older-boots")
        if boots == MAX:
            ctx.count("boots-at-maximum")
        if boots == before[1] and not want and boots < MAX:
            ctx.count("outside-window")

def usm(ctx, rng, i):
    """The same through the security module, with real messages."""
    from snmp.message.v3 import SNMPv3Message
    from snmp.security.usm import UserBasedSecurityModule
    from snmp.exception import IncomingMessageError
    from snmp.security.usm.implementation import NotInTimeWindow
    m = UserBasedSecurityModule()
    users = [W.make_user(rng, b"u%d" % n, rng.choice([1, 2, 2])) for n in range(rng.choice([1, 2]))]
    plain = A.User(b"plain", None, None)
    for u in users + [plain]:
        args = {}
        if u.auth:
            args.update(authProtocol=W.auth_class(u.auth[0]), authSecret=u.auth[1])
        if u.priv:
            args.update(privProtocol=W.priv_class(u.priv[0]), privSecret=u.priv[1])
        m.addUser(u.name.decode(), **args)
    engines = family(rng, rng.choice([1, 2, 2]))
    for e in engines:
        m.registerRemoteEngine(e)
    clocks = {e: Clock() for e in engines}
    ts = float(rng.choice([1000, 1.7e9, rng.randrange(10**9)])) + rng.choice([0, .125, .75])
    history = []
    mid = 1
    for _ in range(rng.choice([5, 12])):
        ts = step(rng, ts)
        e = rng.choice(engines)
        c = clocks[e]
        u = rng.choice(users)
        if rng.random() < .15:
            # users come and go; what is known about the engine's clock stays
            m.unregisterRemoteEngine(e)
            m.registerRemoteEngine(e)
            history.append(("again", e))
            ctx.count("registered-again")
        boots, time = values(rng, c, ts)
        mid += 1
        kind = rng.choice(["auth", "auth", "auth", "auth", "noauth", "digest", "otherkey", "garbled"])
        level = rng.randrange(1, u.level + 1)
        pdutype = rng.choice(["response", "report", "response"])
        scoped = R.enc_scoped(e, b"", R.enc_pdu(pdutype, mid, 0, 0, [((1, 3, 6, 1, 6, 3, 15, 1, 1, 2, 0), ("c32", 5))]))
        salt = rng.randbytes(8)
        if kind == "noauth":
            data = A.seal(rng.choice([plain, u]), 0, e, boots, time, mid, scoped, salt)
        else:
            other = [x for x in engines if x != e]
            data = A.seal(u, level, e, boots, time, mid, scoped, salt, key_engine=rng.choice(other) if kind == "otherkey" and other else None)
            if kind == "digest" or (kind == "otherkey" and not other):
                s, n = R.v3_sig_offset(data)
                p = s + rng.randrange(n)
                data = data[:p] + bytes([data[p] ^ (1 << rng.randrange(8))]) + data[p + 1:]
                kind = "digest"
            elif kind == "garbled":
                # authenticated, but the content does not decrypt to a PDU: the clock is still genuine
                if level == 2:
                    inner = U.encrypt(u.priv[0], u.privkey(e), boots, time, salt, b"\xff" * 24)
                    data = R.enc_v3(mid, 65507, 3, 3, R.enc_usm(e, boots, time, u.name, bytes(U.digest_len(u.auth[0])), salt), R.enc_str(inner))
                    data = A.sign(data, u.auth[0], u.authkey(e))
                else:
                    kind = "auth"
        before = (c.state, *c.estimate(ts))
        try:
            m.processIncoming(SNMPv3Message.decode(data), timestamp=ts)
            got = "ok"
        except NotInTimeWindow:
            got = "window"
        except IncomingMessageError as x:
            got = type(x).__name__
        history.append((kind, level, e, boots, time, ts, got, before))
        if kind == "noauth":
            c.hint(boots, time, ts)
            ctx.check_that(got == "ok", "rejected", f"an unauthenticated message was rejected with {got}", history=history)
            ctx.count("hints")
        elif kind in ("digest", "otherkey"):
            ctx.check_that(got not in ("ok", "window"), "forged", "a message with a wrong digest passed", history=history)
            ctx.count("forged")
        else:
            want = c.message(boots, time, ts)
            if kind == "garbled":
                if want is not None and (got == "window") != (not want):
                    ctx.fail("accepted", f"a message with boots {boots} and time {time} was judged wrongly ({got}) against state {before}", history=history)
                ctx.check_that(got != "ok", "accepted", "a message with garbled content was accepted", history=history)
            else:
                ctx.check_that(got in ("ok", "window"), "rejected", f"an authentic message was rejected with {got}", history=history)
                judge(ctx, got == "ok", want, before, boots, time, history)
        # what is sent tells what is believed
        for x in engines:
            outgoing(ctx, m, rng, rng.choice(users), x, ts if rng.random() < .7 else step(rng, ts), clocks[x], history)
    ctx.distinct(history)

def outgoing(ctx, m, rng, u, engine, ts, clock, history):
    from snmp.message.v3 import SNMPv3Message, HeaderData, MessageFlags, ScopedPDU
    from snmp.pdu import GetRequestPDU
    from snmp.security import SecurityModel
    from snmp.security.levels import noAuthNoPriv
    level = rng.randrange(1, u.level + 1)
    msg = SNMPv3Message(HeaderData(7, 65507, MessageFlags(W.level_obj(level), True), SecurityModel.USM), ScopedPDU(GetRequestPDU("1.3.6.1.2"), engine))
    data = m.prepareOutgoing(msg, engine, u.name, timestamp=ts)
    o = A.Opened(data, {u.name: u}, engine)
    if o.problem:
        ctx.fail("outgoing", f"a message went out with a wrong {o.problem}", history=history)
    check_estimate(ctx, (o.boots, o.time), clock, ts, history + [("sent at", ts)], "a request was sent with")

def lag(ctx, rng, i):
    """Whole engines: answers that are held back for minutes, agents whose boots are at the maximum."""
    kind = ("late", "maximum", "drift")[i % 3]
    w = W.World(ctx, rng, sim=dict(horizon=1e6), mixlevels=0, dropping=0, timeouts=[600.0], periods=[1000.0])
    hold = rng.choice([140.0, 148.5, 149.0, 152.0, 155.0, 170.0, 300.0])
    def main():
        Sc.setup(w, agents=1, versions=(3,), levels=(2,), namespaces=False)
        a = w.agents[0]
        if kind == "maximum":
            a.boots = A.MAX - 1
        else:
            a.boots = rng.choice([0, 5, A.MAX - 2])
        a.booted = w.sim.now - rng.choice([10.0, 5000.0, 10.0**6])
        Sc.engine_and_managers(w, versions=(3,), managers=1, level=rng.choice([1, 2]))
        first = w.plan(w.mans[0], timeout=20.0, period=5.0)
        w.issue(first, wait=True)
        if kind == "late":
            q = w.plan(w.mans[0])
            def tap(agent, rec, out):
                if rec.pdu and rec.pdu[4] and rec.pdu[4][0][0] == q.names[0]:
                    return [(d, s, hold) for d, s, _ in out]
                return out
            a.taps.append(tap)
            w.issue(q)
            # the estimate advances on its own, or through other messages
            if rng.random() < .5:
                w.sim.sleep(30.0)
                w.issue(w.plan(w.mans[0], timeout=20.0, period=5.0), wait=True)
            w.wait(q)
        elif kind == "maximum":
            a.reboot(w.sim.now, boots=A.MAX)
            a.booted = w.sim.now - rng.choice([0, 100])
            a.style["window"] = 10**12
            real = a._v3
            # this agent goes on answering although it must not
            def tap(agent, rec, out):
                if rec.msg and rec.msg.user and rec.pdu and rec.pdu[4]:
                    a.salt += 1
                    scoped = R.enc_scoped(a.engine, b"", R.enc_pdu("response", rec.pdu[1], 0, 0, rec.pdu[4]))
                    return [(A.seal(rec.msg.user, rec.msg.level, a.engine, A.MAX, a.time(rec.t), rec.msg.msgid, scoped, a.salt.to_bytes(8, "big")), a.addr, 0.0)]
                return out
            a.taps.append(tap)
            w.issue(w.plan(w.mans[0], timeout=3.0, period=1.0), wait=True)
        else:
            # after a long idle time, the values sent are still those of the agent's clock
            for _ in range(3):
                w.sim.sleep(rng.choice([1.0, 100.0, 160.0, 2000.0, 86400.0 / 30]))
                w.issue(w.plan(w.mans[0], timeout=20.0, period=5.0), wait=True)
        Sc.close(w)
    w.run(main)
    if w.reqs[0].outcome != "ok":
        w.fail("not-served", "a request to an agent that answers was not served", w.reqs[0])
    if kind == "late":
        q = w.reqs[1]
        want = "ok" if hold <= 149 else "timeout"
        if q.outcome != want:
            w.fail("accepted" if want == "timeout" else "rejected", f"an answer that was {hold} s old ended its request with {q.outcome}", q)
        ctx.count("held-back:" + want)
    elif kind == "maximum":
        q = w.reqs[1]
        if q.outcome not in ("timeout", "report"):
            w.fail("accepted", "a message from an engine whose boots are at the maximum was accepted", q)
        ctx.count("maximum-refused")
    else:
        for q in w.reqs[1:]:
            if q.outcome != "ok":
                w.fail("not-served", "a request after an idle time was not served", q)
            if len(q.txs) != 1:
                w.fail("estimate", "a request after an idle time had to be resynchronized", q)
            tx = q.txs[0]
            true = tx.t - w.agents[0].booted
            if tx.msg.boots != w.agents[0].boots or abs(tx.msg.time - true) > 1.1:
                w.fail("estimate", f"a request was sent with time {tx.msg.time} although the agent's clock shows {true}", q)
            ctx.count("idle-estimates")

GROUPS = [Group("keeper", keeper, 9000, 300000), Group("usm", usm, 3000, 100000), Group("lag", lag, 300, 9000)]
