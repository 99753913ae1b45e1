"""C14: the credentials used are those configured, per namespace, against a model of the registry."""
import random
from vlib.core import Group
from vlib import world as W, scenario as Sc, agent as A, ref_ber as R, ref_usm as U

NAMES = [b"alice", b"bob", b"carol", "j\u00fcrgen".encode()]
SPACES = ["", "ns1", "ns2"]

class Space:
    def __init__(self):
        self.users, self.default = {}, None      # name -> (A.User, default level)

def kwargs(rng, u):
    args = {}
    if u.auth:
        args["authProtocol"] = W.auth_class(u.auth[0])
        x = rng.random()
        if u.priv and u.priv[1] == u.auth[1] and x < .5 or not u.priv and x < .3:
            args["secret"] = u.auth[1]           # one secret for both
        elif u.priv and x < .2:
            args["authSecret"], args["secret"] = u.auth[1], u.priv[1]     # the other is for the one that is not given
        elif u.priv and x < .4:
            args["secret"], args["privSecret"] = u.auth[1], u.priv[1]
        else:
            args["authSecret"] = u.auth[1]
            if rng.random() < .2:
                args["secret"] = W.SECRETS[5]    # the specific ones take precedence
            if u.priv:
                args["privSecret"] = u.priv[1]
        if u.priv:
            args["privProtocol"] = W.priv_class(u.priv[0])
    return args

def variant(rng, u):
    """The same user with something else about it."""
    x = rng.randrange(6)
    auth, priv = u.auth, u.priv
    if x == 0 or not auth:
        return W.make_user(rng, u.name, rng.choice([1, 2]))
    if x == 1:
        auth = (auth[0], rng.choice([s for s in W.SECRETS if s != auth[1]]))
    elif x == 2:
        auth = (rng.choice([p for p in U.AUTH if p != auth[0]]), auth[1])
    elif x == 3:
        priv = (("aes" if priv[0] == "des" else "des"), priv[1]) if priv else ("aes", auth[1])
    elif x == 4:
        priv = (priv[0], rng.choice([s for s in W.SECRETS if s != priv[1]])) if priv else ("des", W.SECRETS[0])
    else:
        priv = None if priv else ("aes", W.SECRETS[1])
    return A.User(u.name, auth, priv)

def same(u, v):
    return u.auth == v.auth and u.priv == v.priv

class Model:
    def __init__(self, ctx, rng):
        from snmp.security.usm import UserBasedSecurityModule
        self.ctx, self.rng = ctx, rng
        self.m = UserBasedSecurityModule()
        self.spaces, self.touched, self.engines, self.log = {}, set(), {}, []
        self.mid = 0
    def fail(self, key, message, **kw):
        self.ctx.fail(key, message, history=self.log, **kw)

    # ------------------------------------------------------------ operations
    def add(self):
        rng = self.rng
        ns = rng.choice(SPACES)
        space = self.spaces.get(ns)
        name = rng.choice(NAMES)
        old = space.users.get(name) if space else None
        if old and rng.random() < .8:
            u = old[0] if rng.random() < .45 else variant(rng, old[0])
        else:
            u = W.make_user(rng, name, rng.choice([0, 1, 2, 2]))
        args = kwargs(rng, u)
        level = u.level
        if rng.random() < .4:
            level = rng.randrange(0, 3)
            args["defaultSecurityLevel"] = W.level_obj(level)
        default = rng.random() < .3
        if default or rng.random() < .3:
            args["default"] = default
        if ns or rng.random() < .5:
            args["namespace"] = ns
        bad = level > u.level
        clash = bool(old) and (not same(old[0], u) or old[1] != level or (default and space.default != name))
        try:
            self.m.addUser(name.decode(), **args)
            got = None
        except ValueError as e:
            got = type(e).__name__
        self.log.append(("add", ns, u, level, default, got))
        if bad or clash:
            if got is None:
                self.fail("redefined", "a user was accepted although it conflicts with an existing one or cannot support its default level", clash=clash, old=old)
            self.ctx.count("refused:clash" if clash else "refused:level")
            if space is None:
                self.touched.add(ns)
        else:
            if got is not None:
                self.fail("refused", f"adding a user that conflicts with nothing was refused with {got}", old=old)
            if space is None:
                space = self.spaces[ns] = Space()
            if not old:
                space.users[name] = (u, level)
            if default or space.default is None:
                space.default = name
            self.ctx.count("added-again" if old else "added")
            if any(n == ns for n, _ in self.engines.values()):
                self.ctx.count("added-after-registration")
    def register(self):
        rng = self.rng
        e = rng.choice(self.ids)
        ns = rng.choice(SPACES)
        got = self.m.registerRemoteEngine(e, ns) if ns or rng.random() < .5 else self.m.registerRemoteEngine(e)
        self.log.append(("register", e, ns, got))
        cur = self.engines.get(e)
        want = cur is None or cur[0] == ns
        if bool(got) != want:
            self.fail("registration", f"registering an engine gave {got}", current=cur)
        if want:
            self.engines[e] = [ns, (cur[1] if cur else 0) + 1]
            self.ctx.count("registered")
        else:
            self.ctx.count("registration-refused")
    def release(self):
        rng = self.rng
        if not self.engines:
            return
        e = rng.choice(sorted(self.engines))
        cur = self.engines[e]
        ns = cur[0] if rng.random() < .85 else rng.choice(SPACES)
        self.m.unregisterRemoteEngine(e, ns)
        self.log.append(("release", e, ns))
        if ns == cur[0]:
            cur[1] -= 1
            if not cur[1]:
                del self.engines[e]
                self.ctx.count("released")

    # --------------------------------------------------------------- oracles
    def probe(self):
        rng = self.rng
        e = rng.choice(self.ids)
        name = rng.choice(NAMES)
        cur = self.engines.get(e)
        rec = None
        if cur:
            space = self.spaces.get(cur[0])
            rec = space and space.users.get(name)
        self.outgoing(e, name, cur, rec)
        self.incoming(e, name, cur, rec)
    def outgoing(self, e, name, cur, rec):
        from snmp.message.v3 import SNMPv3Message, HeaderData, MessageFlags, ScopedPDU
        from snmp.pdu import GetRequestPDU
        from snmp.security import SecurityModel
        level = self.rng.choice([1, 2, 2])
        self.mid += 1
        msg = SNMPv3Message(HeaderData(self.mid, 65507, MessageFlags(W.level_obj(level), True), SecurityModel.USM), ScopedPDU(GetRequestPDU("1.3.6.1.2"), e))
        try:
            data = self.m.prepareOutgoing(msg, e, name, timestamp=1000.0)
        except ValueError as x:
            if rec and rec[0].level >= level:
                self.fail("outgoing-refused", f"a message for a configured user was refused with {type(x).__name__}", engine=e, user=rec[0])
            self.ctx.count("outgoing-refused")
            return
        if not rec or rec[0].level < level:
            self.fail("outgoing", "a message was secured for a user that is not configured for the engine", engine=e, name=name, level=level, registered=cur)
        o = A.Opened(data, {name: rec[0]}, e)
        if o.problem or o.level != level or o.username != name:
            self.fail("wrong-credentials", f"a message was secured with other credentials than the configured ones ({o.problem})", engine=e, user=rec[0], level=level)
        self.ctx.count("outgoing-verified")
    def incoming(self, e, name, cur, rec):
        from snmp.message.v3 import SNMPv3Message
        from snmp.exception import IncomingMessageError
        rng = self.rng
        # the configured user, the same user of another namespace, a variant, or what was refused
        candidates = [s.users[name][0] for s in self.spaces.values() if name in s.users]
        candidates += [u for op, *r in self.log if op == "add" for u in [r[1]] if u.name == name][-4:]
        if not candidates:
            return
        u = rec[0] if rec and rng.random() < .4 else rng.choice(candidates)
        if u.level == 0:
            return
        level = rng.randrange(1, u.level + 1)
        self.mid += 1
        data = A.seal(u, level, e, 5, 77, self.mid, R.enc_scoped(e, b"", R.enc_pdu("response", self.mid, 0, 0, [((1, 3, 6), ("int", 5))])), rng.randbytes(8))
        good = rec is not None and rec[0].auth == u.auth and (level < 2 or rec[0].priv == u.priv)
        partly = rec is not None and rec[0].auth == u.auth
        try:
            msg = SNMPv3Message.decode(data)
            self.m.processIncoming(msg, timestamp=1000.0)
            got = msg.scopedPDU is not None and msg.scopedPDU.pdu.requestID == self.mid
        except IncomingMessageError as x:
            got, why = False, type(x).__name__
            if good:
                self.fail("incoming-refused", f"a message with the configured credentials was refused with {why}", engine=e, user=u, level=level)
        if got and not good:
            self.fail("incoming", "a message with other credentials than the configured ones was accepted", engine=e, used=u, configured=rec, registered=cur, level=level)
        self.ctx.count("incoming-verified" if good else "incoming-refused")
    def defaults(self):
        for ns in SPACES:
            space = self.spaces.get(ns)
            if space is None and ns in self.touched:
                continue        # only refused definitions so far
            try:
                got = self.m.getDefaultUser(ns) if ns or self.rng.random() < .5 else self.m.getDefaultUser()
            except ValueError:
                got = ValueError
            want = space.default.decode() if space else ValueError
            if got != want:
                self.fail("default-user", f"the default user of namespace {ns!r} is {got!r}, not {want!r}")
            for name in NAMES:
                rec = space and space.users.get(name)
                try:
                    lv = self.m.getDefaultSecurityLevel(name.decode(), ns) if ns or self.rng.random() < .5 else self.m.getDefaultSecurityLevel(name.decode())
                except ValueError:
                    lv = None
                if (lv is None) != (not rec) or (rec and lv != W.level_obj(rec[1])):
                    self.fail("default-level", f"the default level of {name} in {ns!r} is {lv}", configured=rec)
            self.ctx.count("defaults")

def histories(ctx, rng, i):
    mo = Model(ctx, rng)
    mo.ids = [b"\x80\0\0\x09" + bytes([k]) * rng.choice([1, 8]) for k in range(rng.choice([1, 2, 3]))]
    for _ in range(rng.choice([6, 15, 30])):
        x = rng.random()
        if x < .4:
            mo.add()
        elif x < .65:
            mo.register()
        elif x < .8:
            mo.release()
        for _ in range(rng.choice([1, 2])):
            mo.probe()
        mo.defaults()
    ctx.distinct(mo.log)
    ctx.sample([str(x) for x in mo.log[:3]])

def counted(ctx, rng, i):
    """Registered n times, released n times: the credentials stay until the last release."""
    mo = Model(ctx, rng)
    mo.ids = [b"\x80\0\0\x09eng"]
    e = mo.ids[0]
    for _ in range(3):
        mo.add()
    ns, other = rng.sample(SPACES, 2)
    n = rng.choice([1, 2, 3, 7])
    for k in range(n):
        ctx.check_that(mo.m.registerRemoteEngine(e, ns), "registration", "an engine could not be registered again in its namespace", times=k)
        mo.engines[e] = [ns, k + 1]
        mo.log.append(("register", e, ns))
    for k in range(n):
        mo.probe()
        ctx.check_that(not mo.m.registerRemoteEngine(e, other), "registration", "an engine was registered in two namespaces", left=n - k)
        if rng.random() < .4:
            mo.m.unregisterRemoteEngine(e, other)     # not its own: no effect
            mo.log.append(("release", e, other))
        mo.m.unregisterRemoteEngine(e, ns)
        mo.log.append(("release", e, ns))
        mo.engines[e][1] -= 1
    del mo.engines[e]
    for _ in range(4):
        mo.probe()
    ctx.check_that(mo.m.registerRemoteEngine(e, other), "registration", "a released engine could not be registered in another namespace", history=mo.log)
    mo.engines[e] = [other, 1]
    mo.log.append(("register", e, other))
    for _ in range(4):
        mo.probe()
    ctx.count("counted", n)
    ctx.distinct(n, ns, other, [str(x) for x in mo.log])

def wire(ctx, rng, i):
    """Managers in two namespaces: the same user name with other secrets, and one engine for both."""
    w = W.World(ctx, rng, mixlevels=0, dropping=0, sim=dict(line=0))
    lv = rng.choice([1, 2])
    def main():
        a, b = w.add_agent(), w.add_agent()
        ua, ub, uc = (W.make_user(rng, b"user", 2) for _ in range(3))
        while ub.auth == ua.auth or uc.auth == ub.auth:
            ub = W.make_user(rng, b"user", 2)
        a.namespace, b.namespace = rng.sample(["", "one", "two"], 2)
        a.users, b.users = {b"user": ua}, {b"user": ub}
        w.users = {a.namespace: [ua], b.namespace: [ub]}
        w.new_engine(autowait=False)
        late = rng.random() < .5
        W.add_user(w.engine, ua, a.namespace)
        if not late:
            W.add_user(w.engine, ub, b.namespace)
        w.add_manager(a, 3, level=lv, give_engine=rng.random() < .5)
        w.issue(w.plan(w.mans[0], timeout=3.0, period=.5), wait=True)
        if late:
            W.add_user(w.engine, ub, b.namespace)
        w.add_manager(b, 3, level=lv, give_engine=rng.random() < .5)
        for m in w.mans:
            w.issue(w.plan(m, timeout=3.0, period=.5), wait=True)
        n = len(w.reqs)
        # now b's namespace turns to a's engine, which belongs to a's namespace as long as it is in use
        a.namespace, keep = b.namespace, a.namespace
        try:
            c = w.add_manager(a, 3, level=lv, user=ub, give_engine=rng.random() < .5)
        except Exception as e:
            w.notes.append(repr(e))
            c = None
        if c:
            q = w.plan(c, timeout=1.0, period=.4, user=ub)
            w.issue(q, wait=True)
            q.denied = True
        # until it is released
        w.mans[0].obj = None
        if c:
            c.obj = None
        a.users = {b"user": ub}
        a.reboot(w.sim.now)
        d = w.add_manager(a, 3, level=lv, user=ub, give_engine=rng.random() < .5)
        q = w.plan(d, timeout=3.0, period=.5, user=ub)
        w.issue(q, wait=True)
        Sc.close(w)
    w.run(main)
    for q in w.reqs:
        if getattr(q, "denied", False):
            if q.outcome == "ok":
                w.fail("shared-engine", "an engine was used in two namespaces at once", q)
            ctx.count("denied-on-wire")
        elif q.outcome != "ok":
            w.fail("wrong-credentials", "a request with the configured credentials was not served", q)
        else:
            ctx.count("served-on-wire")
    for tx in w.txs:
        if tx.bad:
            w.fail("malformed", tx.bad)

GROUPS = [Group("histories", histories, 4000, 120000), Group("counted", counted, 800, 20000), Group("wire", wire, 240, 6000)]
