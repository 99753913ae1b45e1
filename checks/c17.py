"""C17: salts do not repeat while an engine stays registered."""
import random
from vlib.core import Group
from snmp.security.usm import DecryptionError
from vlib import world as W, scenario as Sc, agent as A, ref_ber as R, ref_usm as U, sim as S

SALTLEN = {"aes": 8, "des": 4}

def start(rng, width):
    """Where the counter may start: near the wrap-around, near nothing, or anywhere."""
    top = 1 << (8 * width)
    x = rng.random()
    if x < .35:
        return top - rng.randrange(1, 6)
    if x < .5:
        return rng.choice([0, 1, (1 << (8 * width - 1)) - 2, top >> 8, (1 << 16) - 2, (1 << 32) % top - 2 if width == 8 else 254])
    return rng.randrange(top)

def constant(rng):
    """A random source that keeps returning a fixed number, whatever width is asked for."""
    vals = {}
    def urandom(n):
        if n not in vals:
            vals[n] = (start(rng, n) % (1 << (8 * n))).to_bytes(n, "big")
        return vals[n]
    return urandom

class Salts:
    """Every salt of a key, and what was encrypted with it."""
    def __init__(self, ctx):
        self.ctx, self.seen, self.order = ctx, {}, []
    def add(self, key, proto, cipher, salt, boots, time, plain, who):
        if len(salt) != 8:
            self.ctx.fail("salt", "a salt is not 8 bytes long", salt=salt)
        back = U.decrypt(proto, key, boots, time, salt, cipher)
        if back[:len(plain)] != plain:
            self.ctx.fail("carried", "a ciphertext was not made with the salt that goes with it", proto=proto, salt=salt.hex(), boots=boots, time=time)
        k = (key, salt)
        if k in self.seen:
            self.ctx.fail("repeat", "a salt was used twice with a key", proto=proto, salt=salt.hex(), first=self.seen[k], second=(boots, time, who), all=self.order[-12:])
        self.seen[k] = (boots, time, who)
        self.order.append((salt.hex(), boots, time, who))
        self.ctx.count("salts")

def ticking(rng):
    boots, time = rng.choice([0, 1, 2**31 - 2, rng.randrange(2**31)]), rng.randrange(2**31)
    while True:
        yield boots, time
        x = rng.random()
        if x < .1:
            boots, time = min(2**31 - 1, boots + 1), 0
        elif x < .4:
            time = min(2**31 - 1, time + rng.choice([1, 1, 100]))
        elif x < .45:
            boots, time = rng.choice([0, boots]), rng.choice([0, time])

def long(ctx, rng, i):
    """Many encryptions in a row: nothing that is shorter than the counter repeats."""
    proto = ("aes", "des")[i % 2]
    obj = W.priv_class(proto)(rng.randbytes(rng.choice([16, 32])))
    boots, time = rng.randrange(2**31), rng.randrange(2**31)
    seen = set()
    n = 70000 if ctx.tier == "quick" else 1 << 20
    for k in range(n):
        salt = obj.encrypt(b"", boots, time)[1]
        if salt in seen:
            ctx.fail("repeat", f"a salt was used again after at most {k} encryptions", proto=proto, salt=salt.hex())
        seen.add(salt)
    ctx.count("salts", n)
    ctx.count("long-runs")
    ctx.distinct(proto, boots, time)

def sequence(ctx, rng, i):
    """One object, one thread: many encryptions from any start."""
    proto = ("aes", "des")[i % 2]
    s = S.Sim(rng, line=0)
    def main():
        s.force_urandom = constant(rng)
        key = rng.randbytes(rng.choice([16, 20, 32, 64]))
        obj = W.priv_class(proto)(key)
        salts = Salts(ctx)
        clock = ticking(rng)
        decode = 0
        for k in range(rng.choice([20, 300])):
            boots, time = next(clock)
            plain = rng.randbytes(rng.choice([0, 1, 8, 20]))
            c, salt = obj.encrypt(plain, boots, time)
            salts.add(key, proto, c, salt, boots, time, plain, k)
            if rng.random() < .1:
                obj.decrypt(c, boots, time, salt)     # decrypting does not move the counter back
            if rng.random() < .05:
                try:
                    obj.decrypt(b"x" * 8, boots, time, rng.randbytes(rng.choice([3, 9])))
                except DecryptionError:
                    pass
        heads = [x[0] for x in salts.order]
        ctx.count("wrapped" if any(a > b for a, b in zip([h[-8:] for h in heads], [h[-8:] for h in heads][1:])) else "straight")
        ctx.distinct(proto, heads[0], len(heads))
    s.run(main)

def threads(ctx, rng, i):
    """One object, several threads that are switched between any two lines."""
    proto = ("aes", "des")[i % 2]
    s = S.Sim(rng, line=rng.choice([.1, .3, .6]), switch=rng.choice([.2, 1.0]))
    salts = Salts(ctx)
    key = rng.randbytes(rng.choice([16, 32]))
    made = []
    def main():
        s.force_urandom = constant(rng)
        obj = W.priv_class(proto)(key)
        n, per = rng.choice([2, 3, 5]), rng.choice([3, 8])
        def work(k, r):
            clock = ticking(r)
            for j in range(per):
                boots, time = next(clock)
                plain = r.randbytes(8)
                c, salt = obj.encrypt(plain, boots, time)
                made.append((c, salt, boots, time, plain, (k, j)))
        s.wait_all([s.spawn(work, k, random.Random(rng.getrandbits(64))) for k in range(n)])
    s.run(main)
    for t, e, text in s.thread_errors:
        raise e
    for c, salt, boots, time, plain, who in made:
        salts.add(key, proto, c, salt, boots, time, plain, who)
    ctx.count("concurrent", len(made))
    ctx.count("preemptions", s.preemptions)
    ctx.distinct(s.path, [m[1] for m in made])

def module(ctx, rng, i):
    """The security module: several users, repeated definitions, registrations, clock messages, other engines."""
    from snmp.message.v3 import SNMPv3Message, HeaderData, MessageFlags, ScopedPDU
    from snmp.pdu import GetRequestPDU
    from snmp.security import SecurityModel
    from snmp.security.levels import authPriv
    from snmp.security.usm import UserBasedSecurityModule
    s = S.Sim(rng, line=0)
    salts = Salts(ctx)
    def main():
        s.force_urandom = constant(rng) if rng.random() < .8 else None
        m = UserBasedSecurityModule()
        users = [W.make_user(rng, b"u%d" % n, 2) for n in range(rng.choice([1, 2, 3]))]
        def define(u, **kw):
            m.addUser(u.name.decode(), authProtocol=W.auth_class(u.auth[0]), authSecret=u.auth[1], privProtocol=W.priv_class(u.priv[0]), privSecret=u.priv[1], **kw)
        engines = [b"\x80\0\0\0e%d" % n for n in range(rng.choice([1, 2]))]
        late = [u for u in users if rng.random() < .3]
        for u in users:
            if u not in late:
                define(u)
        for e in engines:
            m.registerRemoteEngine(e)
        for u in late:
            define(u)
        extra = dict.fromkeys(engines, 0)
        clock = {e: [rng.randrange(5), 1] for e in engines}
        ts = 1000.0
        n = 0
        for k in range(rng.choice([20, 60])):
            x = rng.random()
            e, u = rng.choice(engines), rng.choice(users)
            if x < .62:
                plain = GetRequestPDU("1.3.6.1.%d" % k)
                msg = SNMPv3Message(HeaderData(k + 1, 65507, MessageFlags(authPriv, True), SecurityModel.USM), ScopedPDU(plain, e))
                data = m.prepareOutgoing(msg, e, u.name, timestamp=ts)
                o = A.Opened(data, {u.name: u}, e)
                if o.problem:
                    ctx.fail("carried", "a message was not encrypted with the salt it carries", problem=o.problem)
                key = (e, u.name, o.salt)
                if key in salts.seen:
                    ctx.fail("repeat", "a salt was used twice for a user of an engine", salt=o.salt.hex(), protocol=u.priv[0], history=salts.order[-20:])
                salts.seen[key] = k
                salts.order.append(("sent", e, u.name, o.salt.hex(), o.boots, o.time))
                ctx.count("messages")
            elif x < .72:
                define(u)
                salts.order.append(("defined again", u.name))
                ctx.count("redefinitions")
            elif x < .8:
                m.registerRemoteEngine(e)
                extra[e] += 1
                salts.order.append(("registered again", e))
                ctx.count("registrations")
            elif x < .88:
                if extra[e]:
                    m.unregisterRemoteEngine(e)
                    extra[e] -= 1
                    salts.order.append(("released once", e))
            elif x < .92:
                n += 1
                m.addUser("other%d" % n, namespace=rng.choice(["", "x"]))
            else:
                # the engine's clock moves on or the engine reboots
                c = clock[e]
                if rng.random() < .5:
                    c[0], c[1] = c[0] + 1, 0
                else:
                    c[1] += rng.choice([1, 1000])
                inner = R.enc_scoped(e, b"", R.enc_pdu("response", 1, 0, 0, []))
                data = A.seal(u, 1, e, c[0], c[1], 1, inner, bytes(8))
                m.processIncoming(SNMPv3Message.decode(data), timestamp=ts)
                salts.order.append(("clock", e, tuple(c)))
            ts += rng.choice([0, 0, .5, 3])
        ctx.distinct(salts.order)
    s.run(main)

def wire(ctx, rng, i):
    """Whole engines at authPriv: every ciphertext that leaves, with reboots, retransmissions and threads."""
    w = W.World(ctx, rng, sim=dict(line=rng.choice([0, .05, .2, .4]), switch=rng.choice([.2, .5, 1.0])), mixlevels=.1, loss=rng.choice([0, .3]), dup=rng.choice([0, .2]), periods=[.1, .25], timeouts=[.8, 1.5])
    def main():
        w.sim.force_urandom = constant(rng) if rng.random() < .3 else None
        Sc.setup(w, agents=1, versions=(3,), levels=(2,))
        a = w.agents[0]
        Sc.engine_and_managers(w, versions=(3,), managers=rng.choice([1, 2]), level=2, give_engine=True)
        if rng.random() < .5:
            for t in (.3, .7):
                w.sim.at(w.sim.now + t, lambda: a.reboot(w.sim.now))
        if rng.random() < .3:
            us = w.users[a.namespace]
            w.sim.at(w.sim.now + .2, lambda: None)
            def again():
                w.sim.sleep(.2)
                for u in us:
                    W.add_user(w.engine, u, a.namespace)
            w.sim.spawn(again)
        Sc.threads(w, n=rng.choice([2, 3, 5]), per=rng.choice([2, 4]))
        Sc.close(w)
    w.run(main)
    seen = {}
    for tx in w.txs:
        if tx.version == 3 and tx.msg and tx.msg.level == 2:
            if tx.msg.problem:
                w.fail("carried", "a message does not open with the salt it carries: " + tx.msg.problem)
            key = (tx.msg.engine, tx.msg.username, tx.msg.salt)
            if key in seen:
                w.fail("repeat", f"a salt was used for two messages: {tx.msg.salt.hex()} at +{seen[key] - w.sim.start:.6f} and +{tx.t - w.sim.start:.6f}")
            seen[key] = tx.t
            ctx.count("ciphertexts-on-wire")

def span(ctx, rng, i):
    """The counter has the width of its field: it passes every power of two instead of starting again there."""
    proto = ("aes", "des")[i % 2]
    width = SALTLEN[proto]
    bits = 8 * width
    s = S.Sim(rng, line=0)
    k = i // 8 % bits
    def main():
        first = ((1 << k) - 3) % (1 << bits)
        s.force_urandom = lambda n: (first % (1 << 8 * n)).to_bytes(n, "big")
        obj = W.priv_class(proto)(rng.randbytes(32))
        boots, time = rng.randrange(2**31), rng.randrange(2**31)
        got = [int.from_bytes(obj.encrypt(b"", boots, time)[1][-width:], "big") for _ in range(8)]
        if len(set(got)) != len(got):
            ctx.fail("repeat", "a salt was used twice in a row of eight", proto=proto, salts=got)
        seen = TOPS.setdefault(proto, {})
        seen[k] = max(seen.get(k, 0), max(got))
        ctx.count("boundaries")
        ctx.distinct(proto, k, got[0])
    s.run(main)

TOPS = {}

def finish(ctx):
    for proto, seen in TOPS.items():
        bits = 8 * SALTLEN[proto]
        if len(seen) >= 8:
            # whatever it starts from, the counter uses the upper half of its range too
            ctx.count("spans")
            if max(seen.values()) < 1 << (bits - 1) and max(seen) >= bits - 1:
                ctx.record("narrow", f"the salts of {proto} never reach the upper half of their range, and so repeat early", dict(proto=proto, highest=max(seen.values())))

GROUPS = [Group("span", span, 1024, 2048), Group("long", long, 16, 48), Group("sequence", sequence, 400, 12000), Group("threads", threads, 600, 30000), Group("module", module, 500, 20000), Group("wire", wire, 500, 15000)]
