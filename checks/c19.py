"""C19: hostile datagrams, receive errors and spurious wake-ups while requests are outstanding."""
import os, random, socket, threading, time
from vlib.core import Group
from vlib import sim as S, world as W, scenario as Sc, hostile as H, agent as A, ref_ber as R

ERRORS = [BlockingIOError(11, "x"), ConnectionRefusedError(111, "x"), ConnectionResetError(104, "x")]

class Storm:
    """Sends hostile datagrams to every library socket, and breaks its receive calls."""
    def __init__(self, w, rate, faults, near):
        self.w, self.rate, self.faults, self.near = w, rate, faults, near
        self.rng = random.Random(w.rng.getrandbits(64))
        self.h = H.Hostile(w.agents, self.rng)
        w.net.taps.append(self.tap)
        self.srcs = {}
        for a in w.agents:
            a.taps.append(self.reply)
        self.on = True
        self.n = 0
    def tap(self, now, src, dst, data, sock):
        self.h.saw(data)
        self.srcs[src] = sock
        if self.near and self.rng.random() < .5:
            for _ in range(self.rng.choice([1, 3])):
                self.shoot(src, dst, self.rng.uniform(0, 9e-4))
    def shoot(self, src, frm, delay):
        kind, d = self.h.make(self.w.sim.now)
        self.n += 1
        self.w.ctx.count("hostile:" + kind)
        if self.rng.random() < .4:
            frm = self.rng.choice([("10.9.9.9", 161), ("10.0.1.1", 5), ("10.0.0.1", src[1])])
        self.w.net.inject(d, frm, src, delay)
    def reply(self, agent, rec, out):
        """Mutations of a genuine answer come just before it."""
        if not self.near:
            return out
        for o in out:
            self.h.saw(o[0])
        extra = []
        for o in out:
            for _ in range(self.rng.choice([0, 1, 4])):
                d = self.h.mutation(o[0])
                if self.h.harmless(d, [x[0] for x in out]):
                    extra.append((d, o[1], 0.0))
                    self.w.ctx.count("hostile:near")
        if extra:
            self.w.delay = (1e-3, 1e-3)
        return extra + [(o[0], o[1], o[2] + 2e-3) for o in out]
    def run(self, until):
        """A thread of its own."""
        w, rng = self.w, self.rng
        while w.sim.now < until and self.on:
            for src, sock in list(self.srcs.items()):
                if sock.fd < 0:
                    continue
                for _ in range(rng.choice([0, 1, 1, 5])):
                    self.shoot(src, w.agents[0].addr, rng.uniform(0, 1e-2))
                if self.faults and rng.random() < .4:
                    x = rng.random()
                    if x < .4:
                        sock.spurious += rng.choice([1, 3])
                        w.ctx.count("spurious-wake-ups")
                    else:
                        sock.errors.append(rng.choice(ERRORS))
                        w.ctx.count("receive-errors")
            # whatever else the library reads from can be reached by programs on the same host
            for dst, sock in list(w.net.bound.items()):
                if dst in self.srcs or dst[0] not in ("127.0.0.1", "::1"):
                    continue
                for _ in range(rng.choice([0, 1, 2])):
                    d = rng.choice([bytes(1), b"", bytes(2), b"\1", b"\xff" * 9, self.h.make(w.sim.now)[1]])
                    w.net.inject(d, (dst[0], rng.choice([1, 9999, dst[1], 40001])), dst, rng.uniform(0, 1e-2))
                    w.ctx.count("hostile:control")
                if self.faults and rng.random() < .3:
                    if rng.random() < .5:
                        sock.spurious += 1
                    else:
                        sock.errors.append(rng.choice(ERRORS))
            w.sim.sleep(self.rate * rng.random())

def storm(ctx, rng, i):
    w = W.World(ctx, rng, sim=dict(line=rng.choice([0, 0, .03])), timeouts=[3.0], periods=[.25, 5.0], dropping=0, dup=rng.choice([0, .3]))
    near = rng.random() < .6
    st = None
    def main():
        nonlocal st
        Sc.setup(w, versions=(0, 1, 3))
        Sc.engine_and_managers(w, versions=rng.choice([(0, 1, 3), (0, 1), (3,)]), managers=rng.choice([1, 2, 3]))
        st = Storm(w, rng.choice([.01, .05, .3]), rng.random() < .5, near)
        t = w.sim.spawn(st.run, w.sim.now + rng.choice([.3, 2.0, 6.0]))
        Sc.threads(w)
        st.on = False
        w.sim.join(t)
        st.near = False
        for a in w.agents:
            a.taps.clear()
        # everything still works
        for m in w.mans:
            q = w.plan(m, timeout=2.0, period=5.0)
            q.last = True
            w.issue(q, wait=True)
        Sc.close(w)
    w.run(main)
    for q in w.reqs:
        if q.outcome not in (None, "ok"):
            w.fail("disturbed", f"a request whose agent answers ended with {q.outcome} {q.detail} under hostile datagrams", q)
        if getattr(q, "last", False):
            ctx.count("served-afterwards")
    W.judge_match(w)
    ctx.count("hostile", st.n)

def direct(ctx, rng, i):
    """Hostile bytes straight into the engine's receiving side: nothing is raised, nothing gets stuck."""
    w = W.World(ctx, rng, timeouts=[30.0], periods=[50.0])
    def main():
        Sc.setup(w, agents=1, versions=(0, 1, 3), levels=(2,))
        Sc.engine_and_managers(w, versions=(0, 1, 3), managers=1)
        for v in (0, 1, 3):
            w.add_manager(w.agents[0], v)
        h = H.Hostile(w.agents, random.Random(rng.getrandbits(64)))
        socks = {}
        def tap(now, src, dst, data, sock):
            h.saw(data)
            socks[src] = sock
        w.net.taps.append(tap)
        for m in w.mans:
            w.issue(w.plan(m), wait=True)
        held = True
        w.agents[0].silent = lambda rec: held
        open_ = [w.issue(w.plan(m)) for m in w.mans]
        for _ in range(300):
            kind, d = h.make(w.sim.now)
            for src in socks:
                w.net.inject(d, ("10.0.1.1", 161), src, 1e-3)
            ctx.count("hostile:" + kind)
            ctx.distinct("direct", d)
            if rng.random() < .05:
                w.sim.sleep(2e-3)
        w.sim.sleep(.01)
        early = [q for q in open_ if q.handle is not None and q.handle.event.is_set()] if all(hasattr(q.handle, "event") for q in open_) else []
        if early:
            w.fail("ended", "a hostile datagram ended a request", early[0])
        held = False
        for a in w.agents:
            a.silent = lambda rec: False
        for m in w.mans:
            q = w.plan(m)
            w.issue(q, wait=True)
            if q.outcome != "ok":
                w.fail("disturbed", f"after hostile datagrams a request ended with {q.outcome}", q)
            ctx.count("served-afterwards")
        for q in open_:
            w.drop(q)
        Sc.close(w)
    w.run(main)

# ------------------------------------------------------------- real sockets

class RealAgent(threading.Thread):
    def __init__(self, agent, sock):
        super().__init__(daemon=True)
        self.agent, self.sock = agent, sock
        self.peers, self.on, self.seen = set(), True, None
        sock.settimeout(.05)
    def run(self):
        while self.on:
            try:
                d, src = self.sock.recvfrom(65535)
            except (TimeoutError, ConnectionError):
                continue
            except OSError:
                return
            self.peers.add(src)
            if self.seen:
                self.seen(d)
            for r, _, _ in self.agent(d, src[:2], time.time()):
                if self.seen:
                    self.seen(r)
                self.sock.sendto(r, src)

def real(ctx, rng, i):
    """Kernel sockets and threads: bursts of hostile datagrams between and during requests."""
    import snmp
    from snmp.transport import TransportDomain
    v6 = i % 3 == 2
    try:
        s = socket.socket(socket.AF_INET6 if v6 else socket.AF_INET, socket.SOCK_DGRAM)
        s.bind(("::1" if v6 else "127.0.0.1", 0))
    except OSError:
        ctx.count("no-ipv6")
        return
    users = [W.make_user(rng, b"user0", rng.choice([0, 1, 2, 2]))]
    a = A.Agent(s.getsockname()[:2], random.Random(rng.random()), communities=(b"public",), engine=b"\x80\0\1\2" + rng.randbytes(6), boots=5, now=time.time(), users=users)
    srv = RealAgent(a, s)
    h = H.Hostile([a], random.Random(rng.getrandbits(64)))
    lock = threading.Lock()
    def seen(d):
        with lock:
            h.saw(d)
    srv.seen = seen
    srv.start()
    evil = socket.socket(s.family, socket.SOCK_DGRAM)
    evil.bind((s.getsockname()[0], 0))
    e = snmp.Engine(autowait=False, **(dict(defaultDomain=TransportDomain.UDP_IPv6) if v6 else {}))
    try:
        W.add_user(e, users[0])
        ms = [e.Manager(a.addr, version=v, **(dict(community=b"public") if v != 3 else {})) for v in (0, 1, 3)]
        n = 0
        for _ in range(6):
            work = []
            for m in ms:
                n += 1
                work.append((n, m.get("1.3.6.1.4.1.55555.%d.0" % n, timeout=15.0, refreshPeriod=.5)))
            for peer in list(srv.peers):
                for _ in range(rng.choice([0, 5, 30])):
                    with lock:
                        kind, d = h.make(time.time())
                    try:
                        (evil if rng.random() < .7 else s).sendto(d, peer)
                    except OSError:
                        continue
                    ctx.count("real-hostile")
            for k, r in work:
                try:
                    vbs = r.wait()
                except Exception as x:
                    ctx.fail("disturbed", f"a request whose agent answers ended with {type(x).__name__}: {x}", version=k, ipv6=v6)
                name = tuple(vbs[0].name)
                ctx.check_that(name[:9] == W.BASE + (k, 0), "mismatch", "a request returned another request's answer", names=name)
                ctx.count("real-served")
        over = threading.Event()
        threading.Thread(target=lambda: (e.shutdown(), over.set()), daemon=True).start()
        ctx.check_that(over.wait(20), "shutdown-hangs", "the engine did not shut down after hostile datagrams")
        ctx.distinct("real", tuple(h.sent[-3:]))
    finally:
        srv.on = False
        srv.join(1)
        s.close()
        evil.close()

GROUPS = [Group("storm", storm, 700, 9000), Group("direct", direct, 160, 2400), Group("real", real, 120, 1200)]
