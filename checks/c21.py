"""C21: engines and managers of random configurations; every datagram is compared with what was configured."""
import ipaddress
from vlib.core import Group
from vlib import sim as S, world as W, scenario as Sc, agent as A, gen as G, ref_ber as R

BADHOST = ["localhost", "10.0.0", "10.0.0.256", "1.2.3.4.5", "10.0.0.1 ", " 10.0.0.1", "10.0.0.1:161", "example.org", "[::1]", "fe80::1::2", "12345::1", "::g", "0x7f.1.1.1x", "10,0,0,1", "fe80::1%eth0x"]
NOTHOST = [b"10.0.0.1", 5, 1.5, b"", object()]
BADPORT = [-1, 65536, 2**40, -161]

class Spec:
    """What one Manager(...) call should do: refuse, or send like this."""

def host_for(rng, v6):
    return f"fd00::{rng.randrange(1, 5):x}" if v6 else f"10.0.1.{rng.randrange(1, 5)}"

def call(rng, w, cfg, D, bad):
    """Arguments of a Manager() call, and the Spec it has to follow."""
    import snmp
    s = Spec()
    s.asked = False
    kw = {}
    s.domain = cfg.domain if rng.random() < .6 else rng.choice([D.UDP_IPv4, D.UDP_IPv6])
    if s.domain is not cfg.domain or rng.random() < .2:
        kw["domain"] = s.domain
    v6 = s.domain is D.UDP_IPv6
    host = host_for(rng, v6)
    port = rng.choice([161, 161, 1161, 65535, 1])
    s.dst = (host, port)
    address = host if port == 161 and rng.random() < .6 else (host, port)
    # local address
    x = rng.random()
    anyhost = "::" if v6 else "0.0.0.0"
    mine = "fd00::77" if v6 else "10.0.0.77"
    fixed = rng.randrange(5000, 5003)
    local, s.key = rng.choice([(None, (anyhost, 0)), ("", (anyhost, 0)), (anyhost, (anyhost, 0)), (("", 0), (anyhost, 0)), ((anyhost, 0), (anyhost, 0)), (mine, (mine, 0)), ((mine, 0), (mine, 0)),
                               ((mine, fixed), (mine, fixed)), (("", fixed + 10), (anyhost, fixed + 10)), ((anyhost, fixed + 10), (anyhost, fixed + 10))])
    if local is not None or rng.random() < .2:
        kw["localAddress"] = local
    s.version = cfg.version if rng.random() < .4 else rng.choice([0, 1, 3])
    if s.version != cfg.version or rng.random() < .3:
        v = rng.choice([s.version, getattr(snmp, W.VERSION[s.version])])
        kw["version"] = v
    s.autowait = cfg.autowait
    if rng.random() < .3:
        s.autowait = kw["autowait"] = rng.random() < .5
    s.ns, s.user, s.level, s.community, s.engine_id = "", None, None, None, None
    if s.version == 3:
        s.ns = cfg.place(s.dst)
        if s.ns or rng.random() < .2:
            kw["namespace"] = s.ns
        us = cfg.users[s.ns]
        s.user = cfg.default[s.ns]
        if rng.random() < .4:
            s.user = rng.choice(us)
            kw["defaultUserName"] = s.user.name.decode()
        s.level = cfg.levels[s.user]
        if rng.random() < .3:
            s.level = rng.randrange(0, s.user.level + 1)
            kw["defaultSecurityLevel"] = W.level_obj(s.level)
        if rng.random() < .2:
            kw["securityModel"] = rng.choice([3, snmp.security.SecurityModel.USM]) if hasattr(snmp, "security") else 3
        if rng.random() < .2:
            # a wrong one has to be tried first all the same
            s.engine_id = kw["engineID"] = w.net.agents[s.dst].engine if rng.random() < .7 else b"\x80\0\0\0\x05" + rng.randbytes(rng.choice([1, 7, 27]))
    else:
        s.community = cfg.community
        if rng.random() < .5:
            s.community = kw["community"] = rng.choice([b"public", b"private", b"c\xff\x00x", b""])
    s.refuse = None
    if bad:
        kinds = ["host", "type", "port", "zero-port", "family", "version", "domain", "local-host", "local-type", "local-port", "local-family"] + (["model", "user", "namespace"] if s.version == 3 else [])
        s.refuse = rng.choice(kinds)
        other = "10.1.2.3" if v6 else "fd00::9"
        s.allowed = (ValueError,)
        if s.refuse == "host":
            h = rng.choice(BADHOST + [""])
            address = h if rng.random() < .5 else (h, 161)
        elif s.refuse == "type":
            h = rng.choice(NOTHOST)
            address = h if rng.random() < .5 else (h, 161)
            s.allowed = (TypeError,)
        elif s.refuse == "port":
            address = (host, rng.choice(BADPORT))
        elif s.refuse == "zero-port":
            address = (host, 0)
        elif s.refuse == "family":
            address = other if rng.random() < .5 else (other, 161)
        elif s.refuse == "version":
            kw["version"] = rng.choice([2, 4, -1, 100, "x", "SNMPv3"])
        elif s.refuse == "domain":
            kw["domain"] = rng.choice(["udp", 2, "UDP_IPv4", 0])
        elif s.refuse == "local-host":
            h = rng.choice(BADHOST)
            kw["localAddress"] = h if rng.random() < .5 else (h, 0)
        elif s.refuse == "local-type":
            h = rng.choice(NOTHOST)
            kw["localAddress"] = h if rng.random() < .5 else (h, 0)
            s.allowed = (TypeError,)
        elif s.refuse == "local-port":
            kw["localAddress"] = (rng.choice(["", mine]), rng.choice(BADPORT))
        elif s.refuse == "local-family":
            kw["localAddress"] = rng.choice([other, (other, 5000)])
        elif s.refuse == "model":
            kw["securityModel"] = rng.choice([0, 1, 2, 4, 99, "usm"])
        elif s.refuse == "user":
            kw["defaultUserName"] = "nobody"
            kw.pop("defaultSecurityLevel", None)
        elif s.refuse == "namespace":
            kw["namespace"] = "unknown"
            if "defaultUserName" in kw:
                kw.pop("defaultSecurityLevel", None)
    return address, kw, s

class Config:
    def place(self, dst):
        """Each agent belongs to one namespace."""
        return self.spaces[hash_host(dst) % len(self.spaces)]

def hash_host(dst):
    return sum(dst[0].encode()) + dst[1]

def config(ctx, rng, index):
    w = W.World(ctx, rng, ops=["get", "getnext", "set"], sim=dict(line=rng.choice([0, 0, .02])))
    from snmp.transport import TransportDomain as D
    import snmp
    cfg = Config()
    cfg.spaces = [""] if rng.random() < .4 else ["", "lab"]
    w.users, cfg.default, cfg.levels = {}, {}, {}
    for ns in cfg.spaces:
        names = [b"alice", b"bob", b"carol"][:rng.choice([1, 2, 3])]
        w.users[ns] = [W.make_user(rng, n, rng.randrange(0, 3)) for n in names]
    cfg.users = w.users
    for v6 in (False, True):
        for k in range(1, 5):
            for port in (161, 1161, 65535, 1):
                host = f"fd00::{k:x}" if v6 else f"10.0.1.{k}"
                a = w.add_agent(addr=(host, port), communities=(b"public", b"private", b"c\xff\x00x", b"", b"default"), boots=3, uptime=100.0)
                a.namespace = cfg.place(a.addr)
                a.users = {u.name: u for u in w.users[a.namespace]}
    socks = {}
    w.net.taps.append(lambda t, src, dst, data, sock: socks.setdefault(len(w.net.sent) - 1, (sock, sock.addr)))
    specs, work = [], []
    def main():
        ekw = {}
        cfg.version = 3
        if rng.random() < .6:
            cfg.version = rng.choice([0, 1, 3])
            ekw["defaultVersion"] = getattr(snmp, W.VERSION[cfg.version])
        cfg.domain = D.UDP_IPv4
        if rng.random() < .5:
            cfg.domain = ekw["defaultDomain"] = rng.choice([D.UDP_IPv4, D.UDP_IPv6])
        cfg.community = b""
        if rng.random() < .5:
            cfg.community = ekw["defaultCommunity"] = rng.choice([b"default", b"public", b"c\xff\x00x"])
        cfg.size = 1472
        if rng.random() < .5:
            cfg.size = ekw["msgMaxSize"] = rng.choice([484, 1000, 1472, 8192, 65507])
        cfg.autowait = True
        if rng.random() < .5:
            cfg.autowait = ekw["autowait"] = rng.random() < .5
        w.new_engine(**ekw)
        if rng.random() < .2:
            # nobody to speak for: no v3 manager yet
            sent = len(w.net.sent)
            try:
                w.engine.Manager("10.0.1.1", version=3, domain=D.UDP_IPv4)
            except (ValueError, snmp.engine.NoDefaultUser):
                ctx.count("refused:no-user")
            except Exception as e:
                w.fail("wrong-exception", f"a v3 manager without any user was refused with {type(e).__name__}: {e}")
            else:
                w.fail("accepted", "a v3 manager was created although no user was added")
        for ns in cfg.spaces:
            for k, u in enumerate(w.users[ns]):
                akw = {}
                cfg.levels[u] = u.level
                if rng.random() < .3:
                    cfg.levels[u] = rng.randrange(0, u.level + 1)
                    akw["defaultSecurityLevel"] = W.level_obj(cfg.levels[u])
                if k == 0 or rng.random() < .3:
                    cfg.default[ns] = u
                    if k:
                        akw["default"] = True
                W.add_user(w.engine, u, ns, **akw)
        for _ in range(rng.choice([2, 4, 8, 12])):
            bad = rng.random() < .35
            address, kw, s = call(rng, w, cfg, D, bad)
            before = len(w.net.sent)
            w.notes.append(f"Manager({address!r}, {kw}) expects {s.refuse or vars(s)}")
            try:
                m = w.engine.Manager(address, **kw)
            except Exception as e:
                if not bad:
                    w.fail("refused", f"a supported configuration was refused: {type(e).__name__}: {e}", arguments=(address, kw))
                if not isinstance(e, s.allowed):
                    w.fail("wrong-exception", f"{s.refuse} was refused with {type(e).__name__}: {e}", arguments=(address, kw))
                ctx.count("refused:" + s.refuse)
            else:
                if bad:
                    w.fail("accepted", f"an unsupported configuration was accepted ({s.refuse})", arguments=(address, kw))
                s.man = W.Man(index=len(w.mans), world=w, agent=w.net.agents[s.dst], version=s.version, level=s.level, user=s.user, community=s.community, engine_id=s.engine_id, obj=m, spec=s)
                w.mans.append(s.man)
                specs.append(s)
                ctx.count("managers:v%d" % s.version)
            if len(w.net.sent) != before:
                w.fail("sent-early", "creating a manager sent a datagram", arguments=(address, kw))
            if specs and rng.random() < .5:
                request(rng.choice(specs))
        for s in specs:
            request(s)
        for q in work:
            finish(q)
        w.engine.shutdown()
        if rng.random() < .3:
            try:
                w.engine.shutdown()
            except Exception as e:
                w.fail("shutdown", f"shutdown() a second time raised {type(e).__name__}: {e}")
    def request(s):
        q = w.plan(s.man, timeout=5.0, period=1.0)
        q.explicit, q.user, q.level, q.community = {}, s.user, s.level, s.community
        q.refused = False
        if s.version == 3:
            us = w.users[s.ns]
            if rng.random() < .3:
                q.user = rng.choice(us)
                q.explicit["user"] = q.user.name
                q.level = min(q.level, q.user.level)
                q.explicit["securityLevel"] = W.level_obj(q.level)
            if rng.random() < .3:
                q.level = rng.randrange(0, 3)
                q.explicit["securityLevel"] = W.level_obj(q.level)
            q.refused = q.level > q.user.level
        elif rng.random() < .3:
            q.community = q.explicit["community"] = rng.choice([b"public", b"private", b"c\xff\x00x", b""])
        waits = s.autowait
        if rng.random() < .3:
            waits = q.explicit["wait"] = rng.random() < .5
        before = len(w.net.sent)
        w.issue(q)
        fresh = [x for x in w.net.sent[before:] if x[2] == s.dst]
        if s.engine_id is not None and not s.asked and fresh:
            s.asked = True
            named = R.dec_usm(R.dec_v3(fresh[0][3])["sp"])["engine"]
            if named != s.engine_id:
                w.fail("engine-id", f"the first message of a manager is for the engine {named.hex()} instead of {s.engine_id.hex()}", q)
            ctx.count("engine-ids")
        ctx.count("requests-configured")
        if q.create_error is None:
            handed = q.handle
            if waits == hasattr(handed, "wait"):
                w.fail("autowait", f"a request {'returned a handle' if waits else 'waited'} although it should {'wait' if waits else 'return a handle'}", q)
            if waits:
                q.handle = None
                w.ended(q, handed)
            elif rng.random() < .5:
                finish(q)
            ctx.count("waits" if waits else "handles")
        work.append(q)
    def finish(q):
        if q.handle is not None:
            w.wait(q)
    w.run(main)
    byspec = {}
    for q in work:
        if q.refused:
            e = q.create_error or getattr(q, "exc", None)
            if not isinstance(e, ValueError):
                w.fail("level-accepted", f"a level the user does not support ended with {q.outcome}: {q.detail}", q)
            if q.txs:
                w.fail("sent-early", "a request of an unsupported level was sent", q)
            ctx.count("refused:level")
        elif q.outcome not in ("ok", "error"):
            w.fail("no-answer", f"a request did not reach its agent or its answer did not come back: {q.outcome} {q.detail}", q)
        for tx in q.txs:
            s = q.man.spec
            k = next(i for i, x in enumerate(w.net.sent) if x[3] is tx.data)
            sock, bound = socks[k]
            byspec.setdefault((s.domain, s.key), set()).add(sock)
            if tx.dst != s.dst:
                w.fail("destination", f"a message went to {tx.dst} instead of {s.dst}", q)
            host, port = s.key
            if bound[0] != host or (port and bound[1] != port):
                w.fail("source", f"a message left from {bound} instead of {s.key}", q)
            if tx.version != s.version:
                w.fail("version", f"a message has version {tx.version} instead of {s.version}", q)
            if s.version == 3:
                if tx.msg.username != q.user.name or tx.msg.level != q.level:
                    w.fail("security", f"a message is of {tx.msg.username} at level {tx.msg.level} instead of {q.user.name} at {q.level}", q)
                if tx.msg.problem:
                    w.fail("security", f"a message does not carry its user's credentials: {tx.msg.problem}", q)
                if tx.msg.maxsize != cfg.size:
                    w.fail("max-size", f"a message announces {tx.msg.maxsize} bytes instead of {cfg.size}", q)
                if tx.msg.model != 3:
                    w.fail("model", f"a message is of security model {tx.msg.model}", q)
            elif tx.community != q.community:
                w.fail("community", f"a message has community {tx.community} instead of {q.community}", q)
            ctx.count("messages-compared")
    used = {}
    for key, ss in byspec.items():
        if len(ss) > 1:
            w.fail("not-shared", f"managers of one local address {key} use {len(ss)} transports")
        k = next(iter(ss))
        if k in used:
            w.fail("shared", f"managers of the local addresses {key} and {used[k]} share a transport")
        used[k] = key
    ctx.count("transports", len(used))
    ctx.count("transports-shared", len(specs) - len({(s.domain, s.key) for s in specs}))

def bigmsg(ctx, rng, index):
    """Responses up to the configured maximum size come through."""
    w = W.World(ctx, rng)
    a = w.add_agent(addr=("10.0.1.1", 161), communities=(b"public",))
    size = rng.choice([484, 1000, 1472, 4000, 20000, 65507])
    room = size - rng.choice([0, 0, 0, 1, 50])
    def responder(rec, serial):
        # the value is sized so that the whole message has exactly `room` bytes
        name = rec.pdu[4][0][0]
        n = room
        while True:
            vbs = [(name, ("str", bytes(n)))]
            whole = len(R.enc_community(rec.version, rec.community, R.enc_pdu("response", rec.pdu[1], 0, 0, vbs)))
            if whole <= room:
                break
            n -= 1 if whole - room < 50 else whole - room - 40
        ctx.maximum("response-bytes", whole)
        a.last = vbs
        return 0, 0, vbs
    a.responder = responder
    def main():
        w.new_engine(autowait=False, msgMaxSize=size) if size != 1472 else w.new_engine(autowait=False)
        m = w.add_manager(a, 1, community=b"public")
        q = w.plan(m, op="get", timeout=2.0, period=1.0)
        q.names = q.names[:1]
        w.issue(q, wait=True)
        if q.outcome != "ok" or q.detail != a.last:
            w.fail("big-response", f"a response of {room} bytes did not arrive although the engine receives {size}: {q.outcome}", q)
        ctx.count("big-responses")
        w.engine.shutdown()
    w.run(main)

def addresses(ctx, rng, index):
    """Normalization of single addresses for each usage."""
    from snmp.transport import AddressUsage as U
    from snmp.transport.udp import UdpIPv4Socket, UdpIPv6Socket
    for _ in range(100):
        v6 = rng.random() < .5
        cls = UdpIPv6Socket if v6 else UdpIPv4Socket
        anyhost = "::" if v6 else "0.0.0.0"
        usage = rng.choice([None, U.LISTENER, U.TRAP_LISTENER, U.SENDER])
        free = usage in (None, U.SENDER)
        default = {None: 0, U.LISTENER: 161, U.TRAP_LISTENER: 162, U.SENDER: 0}[usage]
        def ip(v6):
            if v6:
                a = ipaddress.IPv6Address(rng.choice([rng.getrandbits(128), rng.getrandbits(16), rng.getrandbits(64) << 64, 0, 1]))
                return rng.choice([str(a), a.exploded, str(a).upper()])
            return str(ipaddress.IPv4Address(rng.getrandbits(32)))
        kind = rng.choice(["good", "good", "bad", "family", "empty", "none", "type"])
        host = {"good": ip(v6), "family": ip(not v6), "bad": rng.choice(BADHOST), "empty": "", "none": None, "type": rng.choice(NOTHOST)}[kind]
        port = rng.choice([0, 1, 161, 65535, rng.randrange(1, 65536), rng.choice(BADPORT)])
        pair = kind != "none" and rng.random() < .5
        arg = (host, port) if pair else host
        want = None
        if kind == "type":
            want = TypeError
        elif kind in ("bad", "family") or (kind == "empty" and not free):
            want = ValueError
        elif pair and (not 0 <= port <= 65535 or (port == 0 and not free)):
            want = ValueError
        else:
            want = (anyhost if kind in ("empty", "none") else host, port if pair else default)
        try:
            got = tuple(cls.normalizeAddress(arg, usage) if usage or rng.random() < .5 else cls.normalizeAddress(arg))
        except Exception as e:
            got = type(e)
        ok = issubclass(got, want) if isinstance(want, type) and isinstance(got, type) else got == want
        ctx.check_that(ok, "address", f"address {arg!r} for {usage} became {got} instead of {want}", family=cls.__name__)
        ctx.count("addresses")
        ctx.count("address:" + (kind if isinstance(want, type) or kind in ("empty", "none") else "good"))

def unsupported(ctx, rng, index):
    """Engines whose defaults are not supported, and transports that are connected by hand."""
    import snmp
    from snmp.transport import TransportDomain as D
    from snmp.transport.udp import UdpIPv4Socket, UdpIPv6Socket
    w = W.World(ctx, rng)
    kind = ("version", "domain", "model", "twice", "foreign", "empty-namespace")[index % 6]
    def refused(what, fn, allowed=(ValueError,)):
        before = len(w.net.sent)
        try:
            got = fn()
        except allowed:
            ctx.count("refused-default:" + kind)
        except Exception as e:
            w.fail("wrong-exception", f"{what} was refused with {type(e).__name__}: {e}")
        else:
            w.fail("accepted", f"{what} was accepted and gave {type(got).__name__}")
        if len(w.net.sent) != before:
            w.fail("sent-early", f"{what} made the engine send")
    def main():
        v = getattr(snmp, W.VERSION[rng.choice([0, 1, 3])])
        if kind == "version":
            w.new_engine(defaultVersion=rng.choice([2, 4, -1, 99]))
        elif kind == "domain":
            w.new_engine(defaultDomain=rng.choice(["udp", 7, "UDP_IPv4"]))
        elif kind == "model":
            w.new_engine(defaultSecurityModel=rng.choice([0, 1, 2, 4, 99]))
        else:
            w.new_engine()
        e = w.engine
        if kind != "empty-namespace":
            e.usm.addUser("someone")
        if kind == "version":
            refused("an unsupported default version", lambda: e.Manager("10.0.1.1"))
        elif kind == "domain":
            refused("an unsupported default domain", lambda: e.Manager("10.0.1.1", v))
        elif kind == "model":
            refused("an unsupported default security model", lambda: e.Manager("10.0.1.1", snmp.SNMPv3))
            if not hasattr(e.Manager("10.0.1.1", snmp.SNMPv3, securityModel=3), "get"):
                w.fail("refused", "a supported security model was not served by an engine that defaults to another")
        elif kind == "twice":
            cls = rng.choice([UdpIPv4Socket, UdpIPv6Socket])
            host = "0.0.0.0" if cls is UdpIPv4Socket else "::"
            a, b = cls(host, 0), cls(host, 0)
            e.connectTransport(a)
            refused("a second transport of a domain", lambda: e.connectTransport(b))
            b.close()
        elif kind == "foreign":
            class Foreign:
                DOMAIN = rng.choice(["serial", 99, None])
            refused("a transport of an unsupported domain", lambda: e.connectTransport(Foreign()))
        else:
            e.usm.addUser("someone", namespace="here")
            refused("a namespace without users", lambda: e.Manager("10.0.1.1", snmp.SNMPv3, namespace="there"), (ValueError, snmp.engine.NoDefaultUser))
            if index % 12 < 6:
                # an addition that fails adds nobody
                try:
                    e.usm.addUser("nobody", namespace="there", defaultSecurityLevel=W.level_obj(2))
                except ValueError:
                    ctx.count("failed-additions")
                refused("a namespace without users", lambda: e.Manager("10.0.1.1", snmp.SNMPv3, namespace="there"), (ValueError, snmp.engine.NoDefaultUser))
            refused("the default namespace without users", lambda: e.Manager("10.0.1.1", snmp.SNMPv3), (ValueError, snmp.engine.NoDefaultUser))
        w.engine.shutdown()
        if w.sim.open_fds:
            w.fail("left-open", f"a transport was not closed with its engine: {sorted(w.sim.open_fds)}")
    w.run(main)
    ctx.distinct(kind, index)

GROUPS = [Group("unsupported", unsupported, 60, 600), Group("config", config, 700, 9000), Group("bigmsg", bigmsg, 80, 600), Group("addresses", addresses, 80, 1000)]
