"""C09: what is left of finished and abandoned requests, and of engines that were shut down."""
import gc, os, random, socket, threading, time, weakref
from vlib.core import Group
from vlib import sim as S, world as W, scenario as Sc, census, agent as A, ref_ber as R
from checks.c05 import Narrow

FATES = ["ok", "ok", "error", "timeout", "dropped", "dropped-late", "held-dropped", "refused", "send-error", "report", "kept", "unencodable"]

class Life:
    """Issues requests and ends each in one of the ways a request can end."""
    def __init__(self, ctx, rng, w):
        self.ctx, self.rng, self.w = ctx, rng, w
        self.mode = {}
        self.refs, self.kept = [], []
        self.failing = False
        w.net.send_error = lambda sock, data, dst: OSError(101, "Network is unreachable") if self.failing else None
        for a in w.agents:
            a.silent = self.silent
            a.responder = lambda rec, serial, a=a: self.respond(a, rec, serial)
    def silent(self, rec):
        return self.mode.get("silent", False)
    def respond(self, agent, rec, serial):
        if self.mode.get("error") and rec.pdu[4]:
            return 5, 1, rec.pdu[4]
        return agent.answer(rec, serial)
    def one(self, m, fate):
        w, rng, ctx = self.w, self.rng, self.ctx
        if fate == "unencodable":
            return self.unencodable(m)
        q = w.plan(m, timeout=rng.choice([.3, .5]), period=rng.choice([.1, .2, 2.0]))
        if fate == "refused" and (m.version != 3 or q.user.level == 2):
            fate = "ok"
        if fate == "report" and m.version != 3:
            fate = "timeout"
        self.mode = dict(silent=fate in ("timeout", "dropped", "dropped-late", "held-dropped", "kept"), error=fate == "error")
        if fate == "refused":
            q.explicit["securityLevel"] = W.level_obj(2)
        if fate == "report":
            q.explicit.update(user=b"nobody", securityLevel=W.level_obj(0))
        self.failing = fate == "send-error"
        more = [w.plan(m, timeout=q.timeout, period=q.period) for _ in range(rng.choice([1, 3]))] if fate == "held-dropped" else []
        w.issue(q)
        for x in more:
            w.issue(x)
        self.failing = False
        if q.create_error is not None:
            q.create_error = q.create_error.with_traceback(None)
            q.create_error.__context__ = q.create_error.__cause__ = None
        self.note(q)
        for x in more:
            self.note(x)
        if fate == "dropped":
            w.drop(q)
        elif fate == "dropped-late":
            w.sim.sleep(rng.choice([.05, .4, .9]))
            w.drop(q)
        elif fate == "held-dropped":
            order = [q] + more
            rng.shuffle(order)
            for x in order:
                w.drop(x)
        elif fate == "kept":
            # waited for, and its handle kept by the application
            self.kept.append(q.handle)
            w.wait(q)
        else:
            w.wait(q)
        for x in more:
            x.handle = None
        self.ctx.count("fate:" + fate)
        self.mode = {}
        if fate == "report" and q.outcome not in ("report", "timeout", "exception"):
            self.w.fail("harness", "unexpected outcome", q)
        q.exc = None
        w.reqs.clear()          # the world keeps nothing either
        return q
    def unencodable(self, m):
        """A request that cannot be written, because the application passed text where bytes are due."""
        from snmp.smi import OctetString
        kw = dict(timeout=.5, refreshPeriod=.2, wait=False)
        q = self.w.plan(m)
        q.outcome = "refused"
        try:
            if m.version != 3 and self.rng.random() < .5:
                h = m.obj.get("1.3.6.1.2.1", community="text", **kw)
            else:
                h = m.obj.set(("1.3.6.1.2.1", OctetString("text")), **kw)
            self.refs.append((weakref.ref(h), m.version))
            h.wait()
        except Exception as err:
            # a v3 request that is held until the engine is known fails when it is waited for
            q.create_error = err.with_traceback(None)
            q.create_error.__context__ = q.create_error.__cause__ = None
        else:
            self.w.fail("harness", "a request that cannot be written was answered", q)
        h = None
        self.ctx.count("fate:unencodable")
        self.w.reqs.clear()
        return q
    def note(self, q):
        if q.handle is not None:
            self.refs.append((weakref.ref(q.handle), q.man.version))
    def rest(self):
        """Every timeout passes, and each manager waits for one more request."""
        w = self.w
        w.sim.sleep(1.0)
        self.mode = {}
        for m in w.mans:
            for _ in range(2):
                q = w.plan(m, timeout=2.0, period=.5)
                w.issue(q, wait=True)
                if q.outcome != "ok":
                    w.fail("stuck", f"a manager does not get an answer any more: {q.outcome} {q.detail}", q)
        w.reqs.clear()
        gc.collect()

def setup(w, ctx, rng, versions=(0, 1, 3), **kw):
    Sc.setup(w, versions=versions, agents=rng.choice([1, 2]), levels=rng.choice([(0, 1, 2), (0, 1)]), **kw)
    Sc.engine_and_managers(w, versions=versions, managers=rng.choice([1, 2, 3]))
    return Life(ctx, rng, w)

def growth(ctx, rng, i):
    """State after a few requests and after many."""
    w = W.World(ctx, rng, mixlevels=.1, loss=rng.choice([0, 0, .1]))
    def main():
        life = setup(w, ctx, rng)
        def batch(n):
            for _ in range(n):
                life.one(rng.choice(w.mans), rng.choice(fates))
            life.kept.clear()
        loss, few, many = w.loss, rng.choice([5, 20]), 60
        fates = rng.sample(FATES, rng.choice([1, 1, 2, 3]))
        batch(few)
        w.loss = 0
        life.rest()
        roots = [w.engine] + [m.obj for m in w.mans]
        n1, by1 = census.size(*roots)
        w.loss = loss
        batch(many)
        w.loss = 0
        life.rest()
        n2, by2 = census.size(*roots)
        ctx.maximum("state", n2)
        ctx.maximum("growth", n2 - n1)
        ctx.count("requests-ended", few + many)
        alive = [v for r, v in life.refs if r() is not None]
        if alive:
            w.fail("kept-object", f"{len(alive)} request objects are still alive though finished, dropped and out of time", versions=sorted(set(alive)))
        ctx.count("objects-gone", len(life.refs))
        if n2 - n1 > 15:
            w.fail("growth", f"state grew by {n2 - n1} entries over {many} requests", before=by1, after=by2, more=by2 - by1, fates=fates)
        ctx.count("censuses", 2)
        del roots
        Sc.close(w)
    w.run(main)

def identifiers(ctx, rng, i):
    """More requests than identifiers: each must have been released when its request ended."""
    bits = rng.choice([4, 5])
    w = W.World(ctx, rng, mixlevels=.1)
    v = (0, 1, 3)[i % 3]
    def main():
        with Narrow(bits):
            life = setup(w, ctx, rng, versions=(v,))
            w_mans = w.mans
            for _ in range(40):
                q = life.one(rng.choice(w_mans), rng.choice([f for f in FATES if f != "held-dropped"]))
                e = q.create_error if q.create_error is not None else q.detail
                if "allocate" in str(e):
                    w.fail("identifiers", "an identifier could not be allocated although all earlier requests had ended", q, outcome=e)
                gc.collect() if rng.random() < .3 else None
            ctx.count("identifiers-reused")
            # all values at once are free again
            life.rest()
            for table in [t for mp in (getattr(w.engine, n, None) for n in ("mpv1", "mpv2c", "mpv3")) if mp is not None for t in [getattr(mp, "outstanding", None)] if t is not None]:
                if len(table):
                    w.fail("identifiers", f"{len(table)} identifiers are still outstanding with no request", left=list(table)[:5])
                ctx.count("tables-empty")
            # a burst of just as many requests as fit (retransmissions need their own)
            life.mode = dict(silent=True)
            qs = [w.plan(w.mans[0], timeout=.2, period=5.0) for _ in range(6)]
            for q in qs:
                w.issue(q)
                if q.create_error is not None:
                    w.fail("identifiers", f"a request could not be sent: {q.create_error}", q)
            life.mode = {}
            Sc.close(w)
    w.run(main)

def registrations(ctx, rng, i):
    """Engines that requests were registered with can be taken over by another namespace when all are gone."""
    w = W.World(ctx, rng, mixlevels=.2, timeouts=[.3, .8], periods=[.1, .3])
    r = random.Random(rng.getrandbits(64))
    def main():
        Sc.setup(w, versions=(3,), agents=2, namespaces=False)
        other = [W.make_user(rng, b"other", 2)]
        w.users["zz"] = other
        for a in w.agents:
            a.users = dict(a.users, other=None)
            del a.users["other"]
            a.users[b"other"] = other[0]
        Sc.engine_and_managers(w, versions=(3,), managers=rng.choice([1, 2, 3]), give_engine=rng.choice([None, True, False]))
        named = set()
        def tap(agent, rec, out):
            # somebody names another engine in a report that nobody authenticated
            if rec.msg and r.random() < .5:
                x = r.choice([b"\x80\0\0\0\x05" + r.randbytes(4), w.agents[1].engine, w.agents[0].engine])
                named.add(x)
                vb = [((1, 3, 6, 1, 6, 3, 15, 1, 1, 4, 0), ("c32", 1))]
                d = R.enc_v3(rec.msg.msgid, 1472, 0, 3, R.enc_usm(x, 1, 1, rec.msg.username, b"", b""), R.enc_scoped(x, b"", R.enc_pdu("report", 0, 0, 0, vb)))
                ctx.count("engines-named")
                return [(d, agent.addr, 0.0)] + [(o[0], o[1], o[2] + r.choice([0.0, .02])) for o in out]
            return out
        if rng.random() < .7:
            for a in w.agents:
                a.taps.append(tap)
        for a in w.agents:
            a.silent = lambda rec: r.random() < .2
        Sc.threads(w, per=rng.choice([2, 4]))
        for q in w.reqs:
            w.drop(q)
            q.exc = q.create_error = None
        for a in w.agents:
            a.taps.clear()
            a.silent = lambda rec: False
        w.mans.clear()
        man = [q.man for q in w.reqs]
        for m in man:
            m.obj = None
        w.sim.sleep(.1)
        gc.collect()
        # the listening thread may hold the last message it handled
        usm = w.engine.usm
        for eid in sorted(named | {a.engine for a in w.agents}):
            if not usm.registerRemoteEngine(eid, "zz"):
                w.fail("registration", "an engine is still registered though no request or manager is left", engine=eid, named=eid in named)
            usm.unregisterRemoteEngine(eid, "zz")
            ctx.count("registrations-gone")
        for a in w.agents:
            a.namespace = "zz"
            m = w.add_manager(a, 3, user=other[0], level=rng.randrange(3))
            q = w.plan(m, timeout=2.0, period=.5)
            q.user, q.explicit = other[0], {}
            q.level = m.level
            w.issue(q, wait=True)
            if q.outcome != "ok":
                w.fail("registration", f"an engine cannot be managed under another namespace: {q.outcome} {q.detail}", q)
            ctx.count("namespaces-taken-over")
        Sc.close(w)
    w.run(main)

def shutdown(ctx, rng, i):
    """Descriptors and threads after shutdown, in every way of getting there."""
    way = rng.choice(["plain", "twice", "with", "with-raise", "outstanding", "waiting", "empty", "listening"])
    ctx.count("shutdown:" + way)
    w = W.World(ctx, rng, sim=dict(line=rng.choice([0, .05, .3])), timeouts=[.4, 1.0], periods=[.1, .5], ipv6=rng.random() < .2)
    r = random.Random(rng.getrandbits(64))
    def main():
        import snmp
        before = len(w.sim.open_fds)
        Sc.setup(w, versions=(0, 1, 3))
        if way == "empty":
            w.new_engine()
            if rng.random() < .5:
                try:
                    w.engine.Manager("not an address")
                except ValueError:
                    pass
            w.engine.shutdown()
            if rng.random() < .5:
                w.engine.shutdown()
        else:
            Sc.engine_and_managers(w, managers=rng.choice([1, 2, 4]))
            e = w.engine
            if rng.random() < .5:
                for k in range(rng.choice([1, 2, 3])):
                    w.add_manager(rng.choice(w.agents), 1, localAddress=("fd00::5" if w.o["ipv6"] else "10.0.0.5", 6000 + k))
            if way in ("outstanding", "waiting"):
                for a in w.agents:
                    a.silent = lambda rec: r.random() < .7
            waiting = []
            if way == "waiting":
                waiting = [w.sim.spawn(app, w.plan(m)) for m in w.mans]
                w.sim.sleep(rng.choice([0, .05, .2]))
            elif way == "outstanding":
                for m in w.mans:
                    w.issue(w.plan(m))
            elif way == "listening":
                # datagrams keep arriving while the engine shuts down
                for m in w.mans:
                    q = w.plan(m)
                    w.issue(q, wait=True)
                for (k, sock) in list(w.net.bound.items()):
                    for n in range(20):
                        w.net.inject(r.randbytes(20), ("10.9.9.9", 5), k, n * 1e-5)
            else:
                Sc.threads(w, n=rng.choice([1, 2]), per=2)
            for q in w.reqs if way != "waiting" else ():
                if rng.random() < .5:
                    q.handle = None
            if way in ("with", "with-raise"):
                try:
                    with e as x:
                        if way == "with-raise":
                            raise KeyError("application")
                except KeyError:
                    pass
                else:
                    if way == "with-raise":
                        w.fail("swallowed", "the context manager swallowed an exception of the application")
            else:
                e.shutdown()
                if way == "twice" or rng.random() < .3:
                    e.shutdown()
            del e
            for t in waiting:
                w.sim.join(t)
        check("shutdown")
        w.engine = None
        for m in w.mans:
            m.obj = None
        for q in w.reqs:
            q.handle = None
        gc.collect()
        check("release")
    def app(q):
        w.issue(q)
        w.wait(q)
    def check(when):
        left = list(w.sim.open_fds.items())
        if left:
            w.fail("left-open", f"{len(left)} descriptors are still open after {when} ({way})", which=[(fd, type(o).__name__, getattr(o, "addr", None)) for fd, o in left])
        run = [t for t in w.sim.threads if t.library and not t.done]
        if run:
            w.fail("thread-left", f"{len(run)} library threads are still running after {when} ({way})")
        ctx.count("shutdowns")
    w.run(main)

# ------------------------------------------------------------- real sockets

def fds():
    out = {}
    for f in os.listdir("/proc/self/fd"):
        try:
            out[f] = os.readlink("/proc/self/fd/" + f)
        except OSError:
            pass
    return out

def real(ctx, rng, i):
    """Kernel descriptors and threads of many engines."""
    import snmp
    from snmp.transport import TransportDomain
    from checks.c19 import RealAgent
    s = socket.socket(socket.AF_INET, socket.SOCK_DGRAM)
    s.bind(("127.0.0.1", 0))
    a = A.Agent(s.getsockname(), random.Random(rng.random()), communities=(b"public",), engine=b"\x80\0\1\2" + rng.randbytes(6), boots=5, now=time.time(), users=[A.User(b"user0")])
    srv = RealAgent(a, s)
    srv.start()
    try:
        gc.collect()
        before, threads = fds(), set(threading.enumerate())
        for _ in range(rng.choice([1, 3])):
            way = rng.choice(["plain", "twice", "with", "outstanding"])
            e = snmp.Engine(autowait=False)
            e.usm.addUser("user0")
            ms = [e.Manager(a.addr, version=v, localAddress=("127.0.0.1", 0), **(dict(community=b"public") if v != 3 else {})) for v in (0, 1, 3)]
            if rng.random() < .5:
                ms.append(e.Manager(a.addr, version=1, community=b"public"))
            hs = [m.get("1.3.6.1.4.1.55555.1.0", timeout=10.0, refreshPeriod=.5) for m in ms]
            if way != "outstanding":
                for h in hs:
                    h.wait()
            over = threading.Event()
            def down():
                if way == "with":
                    with e:
                        pass
                else:
                    e.shutdown()
                    if way == "twice":
                        e.shutdown()
                over.set()
            t = threading.Thread(target=down, daemon=True)
            t.start()
            if not over.wait(20):
                ctx.fail("shutdown-hangs", f"the engine did not shut down within 20 s ({way})")
            t.join()
            left = [x for x in threading.enumerate() if x not in threads]
            ctx.check_that(not left, "thread-left", f"threads are still running after shutdown ({way})", threads=left)
            after = {k: v for k, v in fds().items() if before.get(k) != v}
            ctx.check_that(not after, "left-open", f"descriptors are still open after shutdown ({way})", descriptors=after)
            ctx.count("real-shutdowns")
            ctx.distinct("real", way, len(ms), i)
            del hs, ms, e
        gc.collect()
    finally:
        srv.on = False
        srv.join(1)
        s.close()

GROUPS = [Group("growth", growth, 240, 4000), Group("identifiers", identifiers, 210, 4000), Group("registrations", registrations, 300, 4000),
          Group("shutdown", shutdown, 700, 9000), Group("real", real, 80, 1000)]
