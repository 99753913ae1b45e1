"""C20: multiplexors on real loopback sockets; a listener records every datagram it is handed."""
import collections, importlib, os, socket, threading, time
from vlib.core import Group
from snmp.dispatcher import Dispatcher
from snmp.transport import TransportListener
from snmp.transport.udp import UdpIPv4Socket, UdpIPv6Socket

LIMIT = 20.0
KINDS = {"posix": importlib.import_module("snmp.transport.posix.udp").UdpMultiplexor,
         "generic": importlib.import_module("snmp.transport.generic.udp").UdpMultiplexor}

def family(v6):
    return (UdpIPv6Socket, socket.AF_INET6, "::1") if v6 else (UdpIPv4Socket, socket.AF_INET, "127.0.0.1")

def have6():
    try:
        with socket.socket(socket.AF_INET6, socket.SOCK_DGRAM) as s:
            s.bind(("::1", 0))
        return True
    except OSError:
        return False
HAVE6 = have6()

class Recorder(TransportListener):
    """Records what it hears; an action may run in the listening thread."""
    def __init__(self):
        self.cond = threading.Condition()
        self.heard = []
        self.action = None
        self.listening = 0
    def hear(self, transport, address, data):
        with self.cond:
            self.heard.append((transport, tuple(address)[:2], bytes(data), threading.get_ident(), type(data)))
            self.cond.notify_all()
        if self.action:
            self.action(transport, address, data)

class Dropped(Exception):
    """The kernel dropped datagrams: this case says nothing."""

class Bench:
    """One multiplexor, its transports, and senders; keeps what was sent to whom."""
    def __init__(self, ctx, rng, kind, v6, size=None):
        self.ctx, self.rng, self.kind = ctx, rng, kind
        self.cls, self.af, self.host = family(v6)
        self.size = size or rng.choice([1472, 1472, 484, 64])
        self.mux = KINDS[kind](self.size)
        self.rec = Recorder()
        self.transports, self.senders, self.sent = [], [], collections.Counter()
        self.extra = []
        self.serial = 0
        self.pending = collections.Counter()
        self.thread = None
        self.ended = None
    def add(self, cls=None):
        t = (cls or self.cls)(self.host, 0)
        self.transports.append(t)
        self.mux.register(t)
        return t
    def sender(self):
        s = socket.socket(self.af, socket.SOCK_DGRAM)
        s.bind((self.host, 0))
        self.senders.append(s)
        return s
    def target(self):
        return self.mux, self.rec
    def start(self):
        self.ended = threading.Event()
        def run(ended):
            try:
                self.mux.listen(self.rec)
                self.error = None
            except BaseException as e:
                self.error = e
            ended.set()
        self.thread = threading.Thread(target=run, args=(self.ended,), daemon=True)
        self.thread.start()
    def stop(self, what="stopping"):
        t0 = time.monotonic()
        self.mux.stop()
        self.joined(what)
        self.ctx.maximum("stop-ms", int(1000 * (time.monotonic() - t0)))
        self.ctx.count("stops")
    def joined(self, what):
        if not self.ended.wait(LIMIT):
            self.ctx.fail("listen-does-not-return", f"listen() did not return within {LIMIT:.0f} s of stop() ({what})", kind=self.kind, heard=len(self.rec.heard))
        if self.error is not None:
            self.ctx.fail("listen-raised", f"listen() raised {self.error!r}", kind=self.kind)
    def payload(self, n=None):
        r = self.rng
        if n is None:
            n = r.choice([0, 1, 2, 20, 100, 300, self.size - 1, self.size, r.randint(0, self.size)])
        n = min(n, self.size)
        self.serial += 1
        head = self.serial.to_bytes(4, "big")
        return head[:n] + r.randbytes(max(0, n - 4)) if n >= 4 else bytes([self.serial % 251] * n)
    def send(self, s, t, data=None):
        """From a plain socket or from another registered transport."""
        data = self.payload() if data is None else data
        addr = (self.host, t.port)
        if isinstance(s, socket.socket):
            s.sendto(data, addr)
            src = s.getsockname()[:2]
        else:
            s.send(addr, data)
            src = (self.host, s.port)
        self.sent[(id(t), src, data)] += 1
        self.ctx.count("datagrams")
        self.ctx.maximum("datagram-size", len(data))
        return src
    def total(self):
        return sum(self.sent.values())
    def dropped(self):
        """Whether the kernel itself dropped datagrams of these sockets (full receive buffer)."""
        ports = {"%04X" % t.port for t in self.transports if t.fileno != -1}
        for name in ("udp", "udp6"):
            try:
                for line in open("/proc/net/" + name):
                    f = line.split()
                    if f[1].rpartition(":")[2] in ports and f[-1] != "0":
                        return True
            except OSError:
                pass
        return False
    def drain(self):
        """Waits until as many datagrams were heard as were sent."""
        want = self.total()
        with self.rec.cond:
            if not self.rec.cond.wait_for(lambda: len(self.rec.heard) >= want or self.ended.is_set(), LIMIT):
                self.compare()
                self.ctx.fail("lost", "datagrams received on registered sockets never reached the listener", kind=self.kind)
            if len(self.rec.heard) < want:
                self.ctx.fail("listen-ended", f"listen() returned although nobody called stop(): {self.error!r}", kind=self.kind)
    def backlog(self):
        return self.total() - len(self.rec.heard)
    def compare(self):
        got = collections.Counter((id(t), a, d) for t, a, d, *_ in self.rec.heard)
        if got != self.sent:
            if self.dropped():
                self.ctx.count("kernel-dropped")
                raise Dropped()
            missing, extra = self.sent - got, got - self.sent
            names = {id(t): k for k, t in enumerate(self.transports)}
            show = lambda c: [(names.get(t, "unregistered"), a, len(d), d[:12].hex()) for t, a, d in list(c.elements())[:4]]
            key = "lost" if missing and not extra else "duplicated" if extra and not missing else "altered"
            self.ctx.fail(key, f"{sum(missing.values())} datagrams missing, {sum(extra.values())} not sent like that, of {self.total()}",
                          kind=self.kind, missing=show(missing), extra=show(extra))
        self.ctx.count("compared", self.total())
        self.ctx.distinct(self.kind, self.af, tuple(len(d) for *_, d in [h[:3] for h in self.rec.heard]))
    def finish(self):
        for t in self.transports:
            fd = t.fileno
        fds = [t.fileno for t in self.transports]
        self.mux.close()
        for t in self.transports:
            if t.fileno != -1:
                self.ctx.fail("left-open", "a registered socket is still open after close()", kind=self.kind)
        self.ctx.count("closed", len(fds))
    def cleanup(self):
        self.rec.action = None
        if self.thread is not None and not self.ended.is_set():
            try:
                self.mux.stop()
            except OSError:
                pass
            self.ended.wait(1)
        for s in self.senders:
            s.close()
        if self.thread is None or self.ended.is_set():
            try:
                self.mux.close()
            except OSError:
                pass

def bench(fn):
    def case(ctx, rng, index):
        kind = ("posix", "generic")[index % 2]
        v6 = HAVE6 and index // 2 % 2 == 1
        ctx.count("mux:" + kind)
        ctx.count("ipv6" if v6 else "ipv4")
        b = Bench(ctx, rng, kind, v6)
        try:
            fn(ctx, rng, b)
            b.compare()
            b.finish()
        except Dropped:
            pass
        finally:
            b.cleanup()
    return case

@bench
def traffic(ctx, rng, b):
    """Bursts to several sockets over several rounds of listening."""
    for _ in range(rng.choice([1, 2, 3, 6, 6, 18, rng.choice([34, 66, 130])])):
        b.add()
    ctx.maximum("sockets-at-once", len(b.transports))
    for _ in range(rng.choice([1, 2, 4])):
        b.sender()
    for _round in range(rng.choice([1, 2, 3, 5])):
        before = rng.choice([0, 0, 1, 10, 30])
        sources = b.senders + (b.transports if rng.random() < .5 else [])
        for _ in range(before):     # queued while nobody listens
            b.send(rng.choice(sources), rng.choice(b.transports))
        if before:
            ctx.count("queued-while-stopped", before)
        b.start()
        if len(b.transports) > 6 or rng.random() < .2:
            for t in b.transports:
                while b.backlog() > 40:
                    b.drain()
                b.send(rng.choice(sources), t)
        for _ in range(rng.choice([0, 1, 20, 60])):
            while b.backlog() > 40:
                b.drain()
            b.send(rng.choice(sources), rng.choice(b.transports))
            if rng.random() < .05:
                time.sleep(rng.choice([0, .001, .005]))
        if rng.random() < .6:
            b.drain()
        else:
            ctx.count("stopped-with-backlog")
        b.stop()
        heard = len(b.rec.heard)
        for _ in range(rng.choice([0, 1, 2])):
            b.add()
            ctx.count("registered-later")
        if rng.random() < .5:
            t = rng.choice(b.transports)
            b.send(b.senders[0], t)
        if len(b.rec.heard) != heard:
            ctx.fail("heard-after-return", "a datagram was handed over after listen() had returned", kind=b.kind)
        ctx.count("rounds")
    b.start()
    b.drain()
    b.stop()
    if any(h[3] == threading.get_ident() for h in b.rec.heard):
        ctx.fail("wrong-thread", "a datagram was handed over outside the listening thread")

@bench
def flood(ctx, rng, b):
    """One or more sockets always have a datagram queued: the others and stop() must still be served."""
    n = rng.choice([2, 3, 5])
    for _ in range(n):
        b.add()
    s, q = b.sender(), b.sender()
    k = rng.randrange(n)
    quiet = b.transports[k]
    busy = [t for t in b.transports if t is not quiet]
    state = dict(on=True, since=None, worst=0, stop=None)
    depth = rng.choice([1, 3, 10])
    cap = 40 * n * depth + 200
    def action(t, a, d):
        if not state["on"]:
            return
        if t is quiet:
            state["worst"] = max(state["worst"], len(b.rec.heard) - state["since"])
            ctx.count("served-during-flood")
            state["since"] = len(b.rec.heard)
            if state["left"] == 0:
                state["stop"] = len(b.rec.heard)
                b.mux.stop()
                state["left"] = -1
            elif state["left"] > 0:
                state["left"] -= 1
                b.send(q, quiet, b.payload(20))
            return
        if len(b.rec.heard) - max(state["since"], state["stop"] or 0) > cap:
            state["on"] = False
            return
        b.send(s, t, b.payload(20))
    state["left"] = rng.choice([2, 5, 20])
    state["since"] = 0
    for t in busy:
        for _ in range(depth):
            b.send(s, t, b.payload(20))
    b.send(q, quiet, b.payload(20))
    b.rec.action = action
    b.start()
    if not b.ended.wait(LIMIT):
        ctx.fail("listen-does-not-return", "listen() did not return although stop() was called during the flood", kind=b.kind, state=state)
    if state["stop"] is None:
        ctx.fail("starved", f"a socket with a datagram queued was not served while others delivered {cap}", kind=b.kind)
    if not state["on"]:
        ctx.fail("stop-ignored", f"listen() went on delivering {cap} datagrams after stop()", kind=b.kind)
    ctx.maximum("deliveries-between-services", state["worst"])
    ctx.maximum("deliveries-after-stop", len(b.rec.heard) - state["stop"])
    ctx.count("floods")
    b.rec.action = None
    b.start()
    b.drain()
    b.stop()

class Flaky:
    """Mixin: recv fails now and then, as the kernel reports errors of earlier sends."""
    plan = None
    def receive(self, size):
        if self.plan and self.plan(self):
            raise self.rng.choice([BlockingIOError, ConnectionRefusedError, ConnectionResetError])()
        return super().receive(size)
class Flaky4(Flaky, UdpIPv4Socket):
    pass
class Flaky6(Flaky, UdpIPv6Socket):
    pass

@bench
def errors(ctx, rng, b):
    """Errors and spurious wake-ups on some sockets while datagrams arrive."""
    cls = Flaky6 if b.af == socket.AF_INET6 else Flaky4
    rate = rng.choice([.1, .4, .8])
    def plan(t):
        bad = rng.random() < rate
        if bad:
            ctx.count("receive-errors")
        return bad
    for _ in range(rng.choice([1, 2, 4])):
        t = b.add(cls if rng.random() < .7 or not b.transports else None)
        t.plan, t.rng = plan, rng
    for _ in range(2):
        b.sender()
    b.start()
    for _ in range(rng.choice([1, 10, 50])):
        while b.backlog() > 40:
            b.drain()
        b.send(rng.choice(b.senders), rng.choice(b.transports))
    b.drain()
    b.stop()

@bench
def edges(ctx, rng, b):
    """No sockets; stop before listening; nothing queued; stop twice; sizes at the limit."""
    way = rng.choice(["empty", "early", "late-size", "idle", "again"])
    if way == "late-size":
        b.mux.close()
        b.size = rng.choice([1472, 9000, 65000])
        b.mux = KINDS[b.kind](b.size)
    ctx.count("edge:" + way)
    if way == "empty":
        if b.kind == "generic":
            b.start()           # nothing to listen to: returns at once or on stop
            b.mux.stop()
        else:
            b.start()
            b.mux.stop()
        b.joined("no sockets")
        return
    s = b.sender()
    t = b.add()
    if way == "early":
        # stop() before listen(): that round ends at once or with what is queued; nothing is lost
        for _ in range(3):
            b.send(s, t)
        b.mux.stop()
        b.start()
        b.joined("stop before listen")
    elif way == "idle":
        b.start()
        time.sleep(rng.choice([0, .001, .02]))
        b.stop()
    elif way == "again":
        for _ in range(30):
            b.start()
            if rng.random() < .5:
                b.send(s, t)
            b.stop()
    else:
        b.start()
        for n in (b.size, b.size - 1, 0, 1, b.size):
            b.send(s, t, b.payload(n))
        b.drain()
        b.stop()
    b.start()
    b.send(s, t)
    b.drain()
    b.stop()

def dispatching(ctx, rng, index):
    """A Dispatcher connecting further transports while datagrams keep arriving."""
    kind = ("posix", "generic")[index % 2]
    b = Bench(ctx, rng, kind, HAVE6 and index // 2 % 2 == 1)
    rec = b.rec
    class Recording(Dispatcher):
        def hear(self, transport, address, data):
            rec.hear(transport, address, data)
    d = Recording(b.mux)
    b.ended, b.error = threading.Event(), None
    try:
        lock = threading.Lock()
        done = threading.Event()
        def feed():
            r = random_like
            s = b.sender()
            n = 0
            while n < 200 and not done.is_set():
                with lock:
                    if b.transports and b.backlog() < 40:
                        b.send(s, r.choice(b.transports))
                        n += 1
                    else:
                        busy = True
                if r.random() < .1:
                    time.sleep(.001)
        import random
        random_like = random.Random(rng.random())
        th = threading.Thread(target=feed, daemon=True)
        th.start()
        for _ in range(rng.choice([1, 3, 8])):
            t = b.cls(b.host, 0)
            d.connectTransport(t)
            with lock:
                b.transports.append(t)
            ctx.count("connected")
            time.sleep(rng.choice([0, .001, .005]))
        th.join(LIMIT)
        done.set()
        th.join(LIMIT)
        b.drain()
        b.compare()
        fds = list(b.transports)
        over = threading.Event()
        def down():
            d.shutdown()
            if rng.random() < .5:
                d.shutdown()
            over.set()
        threading.Thread(target=down, daemon=True).start()
        if not over.wait(LIMIT):
            ctx.fail("shutdown-hangs", "shutdown() did not return", kind=kind)
        ctx.check_that(all(t.fileno == -1 for t in fds), "left-open", "a transport is still open after shutdown()")
        ctx.count("dispatchers")
    except Dropped:
        pass
    finally:
        for s in b.senders:
            s.close()

GROUPS = [Group("traffic", traffic, 400, 6000), Group("flood", flood, 160, 2400), Group("errors", errors, 240, 3600),
          Group("edges", edges, 200, 2000), Group("dispatching", dispatching, 120, 1600)]
