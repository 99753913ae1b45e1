"""Random scenarios on the simulated engine, recorded as an event log for the oracles."""
import gc, random
from . import sim as S, agent as A, ref_ber as R, ref_usm as U, gen as G

BASE = (1, 3, 6, 1, 4, 1, 55555)
EPS = 1e-4

# a few long secrets: they hash to 1 MiB in few updates
_sec = random.Random("secrets")
SECRETS = [_sec.randbytes(65536) for _ in range(6)]

VERSION = {0: "SNMPv1", 1: "SNMPv2c", 3: "SNMPv3"}

def level_obj(n):
    import snmp
    return (snmp.noAuthNoPriv, snmp.authNoPriv, snmp.authPriv)[n]

def auth_class(p):
    import snmp.security.usm.auth as M
    return getattr(M, U.AUTHCLASS[p])

def priv_class(p):
    import snmp.security.usm.priv as M
    return getattr(M, U.PRIVCLASS[p])

def add_user(engine, user, namespace="", **kw):
    args = {}
    if user.auth:
        args.update(authProtocol=auth_class(user.auth[0]), authSecret=user.auth[1])
    if user.priv:
        args.update(privProtocol=priv_class(user.priv[0]), privSecret=user.priv[1])
    engine.usm.addUser(user.name.decode(), namespace=namespace, **args, **kw)

SUFFIXES = [b""] * 5 + [" \u00e9\u2713".encode(), b"x" * 20, bytes(14), b"\x04\x0c"]

def make_user(rng, name, level):
    auth = priv = None
    if level >= 1:
        auth = (rng.choice(list(U.AUTH)), rng.choice(SECRETS))
    if level >= 2:
        priv = (rng.choice(["aes", "aes", "des"]), rng.choice(SECRETS))
    return A.User(name, auth, priv)

class Req:
    """One application request and everything the application saw of it."""
    def __init__(self, index):
        self.index = index
        self.names = None
        self.outcome = None       # None: never waited for
        self.detail = None
        self.created = self.sent_by = self.wait0 = self.wait1 = None
        self.handle = None
        self.dropped = None
        self.create_error = None
        self.thread = None
    def __repr__(self):
        return (f"Req({self.index} man={self.man.index} v{self.man.version} op={self.op} level={self.level} timeout={self.timeout} period={self.period} "
                f"created=+{self.rel(self.created)} waited={self.rel(self.wait0)}..{self.rel(self.wait1)} outcome={self.outcome} {str(self.detail)[:120]})")
    def rel(self, t):
        return None if t is None else round(t - self.man.world.sim.start, 4)
    @property
    def deadline(self):
        return self.created + self.timeout

class Man:
    def __init__(self, **kw):
        self.__dict__.update(kw)

class Tx:
    """A datagram the library sent, as an independent reader sees it."""
    def __init__(self, t, src, dst, data, thread):
        self.t, self.src, self.dst, self.data, self.thread = t, src, dst, data, thread
        self.req = None
        self.msg = None
        self.pdu = None
        self.bad = None

class World:
    def __init__(self, ctx, rng, **o):
        self.ctx, self.rng, self.o = ctx, rng, o
        self.sim = S.Sim(rng, **o.get("sim", {}))
        self.net = self.sim.net
        self.reqs, self.mans, self.agents = [], [], []
        self.engine = None
        self.users = {}                # namespace -> list of users
        self.loss, self.dup = o.get("loss", 0.0), o.get("dup", 0.0)
        self.delay = o.get("delay", (1e-3, 5e-3))
        self.net.filter = self.policy
        self.nrng = random.Random(rng.getrandbits(64))
        self.notes = []

    # ----------------------------------------------------------- network
    def policy(self, direction, data, src, dst):
        r = self.nrng
        if r.random() < self.loss:
            return []
        n = 2 if r.random() < self.dup else 1
        lo, hi = self.delay
        out = []
        for _ in range(n):
            d = r.uniform(lo, hi)
            if self.o.get("late") and r.random() < self.o["late"][0]:
                d += r.uniform(*self.o["late"][1])
            out.append(d)
        return out

    # ------------------------------------------------------------- setup
    def add_agent(self, **kw):
        k = len(self.agents)
        rng = self.rng
        addr = kw.pop("addr", None) or ((f"10.0.1.{k + 1}", rng.choice([161, 161, 1161 + k])) if not self.o.get("ipv6") else (f"fd00::{k + 1}", 161))
        # among them IDs that contain what other fields of a message look like
        kw.setdefault("engine", rng.choice([b"\x80\x00\x1f\x88" + rng.randbytes(rng.choice([1, 5, 8, 13, 27])) + bytes([k])] * 3
            + [b"\x80\0\0\0\x05" + bytes(rng.choice([12, 16, 24, 26])) + bytes([k]), b"\x80\0\0\0\x05\x04\x0c" + bytes(12) + b"\x04\x08" + bytes([k])]))
        kw.setdefault("boots", rng.choice([0, 1, 2, 77, 2**31 - 3, rng.randrange(1, 2**31 - 50)]))
        kw.setdefault("uptime", rng.choice([0.0, 1.0, 5000.25, 10.0**6, rng.random() * 1e7, 2.0**31 - 5000]))
        kw.setdefault("communities", (b"public", b"private", b"c\xff\x00x"))
        kw.setdefault("report_clock", rng.choice(["real", "real", "zero"]))
        kw.setdefault("report_reqid", rng.choice(["request", "zero"]))
        a = A.Agent(addr, random.Random(rng.getrandbits(64)), now=self.sim.now, **kw)
        a.namespace = ""
        self.agents.append(a)
        self.net.agents[addr] = a
        return a

    def make_users(self, namespace="", levels=(0, 1, 2), n=None):
        rng = self.rng
        out = []
        for k in range(n or rng.choice([1, 1, 2])):
            lv = max(levels) if k == 0 else rng.choice(levels)
            out.append(make_user(rng, b"user%d" % k + namespace.encode() + rng.choice(SUFFIXES), lv))
        self.users[namespace] = out
        return out

    def new_engine(self, **kw):
        import snmp
        self.engine = snmp.Engine(**kw)
        return self.engine

    def add_manager(self, agent, version, level=None, user=None, give_engine=None, community=None, **kw):
        import snmp
        args = dict(kw)
        args.setdefault("autowait", False)
        host, port = agent.addr
        address = agent.addr if port != 161 or self.rng.random() < .3 else host
        if ":" in host:
            args["domain"] = self.domain6()
        m = Man(index=len(self.mans), world=self, agent=agent, version=version, level=None, user=None, community=None, engine_id=None)
        if version == 3:
            us = self.users[agent.namespace]
            m.user = user if user is not None else self.rng.choice(us)
            m.level = level if level is not None else self.rng.randrange(0, m.user.level + 1)
            args["defaultUserName"] = m.user.name.decode()
            args["defaultSecurityLevel"] = level_obj(m.level)
            if agent.namespace:
                args["namespace"] = agent.namespace
            if give_engine:
                m.engine_id = agent.engine if give_engine is True else give_engine
                args["engineID"] = m.engine_id
        else:
            m.community = community if community is not None else self.rng.choice(sorted(agent.communities))
            args["community"] = m.community
        m.obj = self.engine.Manager(address, version=getattr(snmp, VERSION[version]), **args)
        self.mans.append(m)
        return m

    def domain6(self):
        from snmp.transport import TransportDomain
        return TransportDomain.UDP_IPv6

    # ---------------------------------------------------------- requests
    def plan(self, man, **kw):
        """A request that is not yet issued."""
        rng = self.rng
        q = Req(len(self.reqs))
        self.reqs.append(q)
        q.man = man
        ops = self.o.get("ops") or (["get", "get", "getnext", "set"] + (["getbulk"] if man.version else []))
        q.op = kw.get("op") or rng.choice(ops)
        n = rng.choice([1, 1, 2, 3])
        q.names = [BASE + (q.index + 1, k) for k in range(n)]
        q.values = [("int", rng.randrange(-9, 9)) for _ in q.names]
        q.bulk = (rng.randrange(0, n + 1), rng.randrange(0, 4))
        q.timeout = kw.get("timeout", rng.choice(self.o.get("timeouts", [0.35, 0.8, 1.5, 3.0])))
        q.period = kw.get("period", rng.choice(self.o.get("periods", [0.1, 0.25, 0.5, 1.0])))
        q.level, q.user, q.community = man.level, man.user, man.community
        q.explicit, q.bare = {}, ()
        if man.version == 3 and rng.random() < self.o.get("mixlevels", .2):
            q.user = rng.choice([u for u in self.users[man.agent.namespace]])
            q.level = rng.randrange(0, q.user.level + 1)
            q.explicit = dict(user=q.user.name, securityLevel=level_obj(q.level))
        elif man.version != 3 and rng.random() < .15:
            q.community = rng.choice(sorted(man.agent.communities))
            q.explicit = dict(community=q.community)
        q.__dict__.update({k: v for k, v in kw.items() if k in ("level", "user", "explicit", "names", "values", "bulk")})
        return q

    def ref_pdu(self, q, reqid):
        null = ("null",)
        if q.op == "getbulk":
            return ("getbulk", reqid, q.bulk[0], q.bulk[1], [(n, null) for n in q.names])
        if q.op == "set":
            return ("set", reqid, 0, 0, list(zip(q.names, q.values)))
        return (q.op, reqid, 0, 0, [(n, null) for n in q.names])

    def issue(self, q, wait=None):
        """Calls the manager; returns the handle (also kept in q) or waits."""
        m = q.man.obj
        kw = dict(**q.explicit)
        for k, v in (("timeout", q.timeout), ("refreshPeriod", q.period)):
            if k not in q.bare:
                kw[k] = v
        if wait is not None:
            kw["wait"] = wait
        oids = [".".join(map(str, n)) for n in q.names]
        q.thread = self.sim.current.name
        q.created = self.sim.now
        if wait:
            q.wait0 = q.created
        try:
            if q.op == "get":
                h = m.get(*oids, **kw)
            elif q.op == "getnext":
                h = m.getNext(*oids, **kw)
            elif q.op == "getbulk":
                h = m.getBulk(*oids, nonRepeaters=q.bulk[0], maxRepetitions=q.bulk[1], **kw)
            else:
                h = m.set(*[(o, G.to_lib(v)) for o, v in zip(oids, q.values)], **kw)
        except Exception as e:
            if wait:
                self.ended(q, e)
            else:
                q.create_error = e
                q.outcome, q.detail = self.classify(e)
            q.sent_by = self.sim.now
            return None
        q.sent_by = self.sim.now
        if wait:
            self.ended(q, h)
        else:
            q.handle = h
        return q

    def wait(self, q):
        if q.handle is None:
            return
        q.wait0 = self.sim.now
        h, q.handle = q.handle, None
        try:
            r = h.wait()
        except Exception as e:
            r = e
        del h
        self.ended(q, r)

    def drop(self, q):
        q.dropped = self.sim.now
        q.handle = None

    def ended(self, q, r):
        q.wait1 = self.sim.now
        if isinstance(r, BaseException):
            q.outcome, q.detail = self.classify(r)
            q.exc = r.with_traceback(None)
            q.exc.__context__ = q.exc.__cause__ = None
        else:
            q.outcome, q.detail = "ok", G.vbs_from_lib(r)

    def classify(self, e):
        from snmp.manager import Timeout
        from snmp.pdu import ErrorResponse
        import snmp.manager.v3 as V
        if isinstance(e, Timeout):
            return "timeout", None
        if isinstance(e, ErrorResponse):
            return "error", (int(e.status), e.cause)
        if isinstance(e, V.UnhandledReport):
            return "report", (type(e).__name__, tuple(getattr(e, "name", ())))
        return "exception", f"{type(e).__name__}: {e}"

    # --------------------------------------------------------------- run
    def run(self, main):
        """Runs main() in the simulation; the engine is shut down afterwards unless main did."""
        ctx = self.ctx
        try:
            try:
                self.sim.run(main)
            except S.SimFailure as f:
                ctx.fail(f.key, f.message, scenario=self.describe(), **f.detail)
            for t, e, text in self.sim.thread_errors:
                if t.library:
                    ctx.fail("listener-died", f"the listening thread ended with {type(e).__name__}: {e}", traceback=text, scenario=self.describe())
                raise e
        finally:
            self.engine_closed = True
            if self.sim.harness_error:
                raise RuntimeError("harness: " + self.sim.harness_error) from None
        ctx.count("switches", self.sim.switches)
        ctx.count("preemptions", self.sim.preemptions)
        ctx.count("contended", self.sim.contended)
        ctx.count("datagrams-sent", len(self.net.sent))
        ctx.count("datagrams-delivered", len(self.net.delivered))
        ctx.count("virtual-seconds", int(self.sim.now - self.sim.start))
        ctx.count("requests", len(self.reqs))
        ctx.maximum("threads", len(self.sim.threads))
        for q in self.reqs:
            ctx.count("outcome:" + str(q.outcome))
        self.parse()
        ctx.distinct(self.sim.path, len(self.net.sent), [(q.op, q.outcome, q.rel(q.wait1)) for q in self.reqs])

    def describe(self, q=None):
        s = self.sim
        lines = [f"switch={s.switch} line={s.line} jitter={s.jitter} tick={s.tick} stall={s.stall} loss={self.loss} dup={self.dup} delay={self.delay}"]
        for m in self.mans:
            lines.append(f"manager {m.index}: v{m.version} agent={m.agent.addr} level={m.level} user={m.user} engine_id={m.engine_id and m.engine_id.hex()} community={m.community}")
        for x in self.reqs:
            lines.append("  " + repr(x))
        lines += self.notes
        log = [(t, "sent", dst, d) for t, _, dst, d, _ in self.net.sent] + [(t, "received", src, d) for t, _, src, d in self.net.delivered]
        log.sort(key=lambda x: x[0])
        if q is not None and q.created is not None:
            end = q.wait1 or q.created + q.timeout
            log = [x for x in log if q.created - .05 <= x[0] <= end + .05] or log
        for t, what, who, d in log[:60]:
            lines.append(f"  +{t - s.start:.6f} {what} {who} {self.brief(d)}")
        return "\n".join(lines)

    def brief(self, d):
        try:
            v = R.peek_version(d)
            if v in (0, 1):
                _, c, p = R.dec_community(d)
                return f"v{v} {c!r} {p[0]} id={p[1]} {p[2]}/{p[3]} {[('.'.join(map(str, n[7:])), x) for n, x in p[4]][:3]}"
            m = R.dec_v3(d)
            u = R.dec_usm(m["sp"])
            p = m["scoped"][2] if "scoped" in m else None
            return (f"v3 msgid={m['msgid']} flags={m['flags'].hex()} engine={u['engine'].hex()} boots={u['boots']} time={u['time']} user={u['user']!r} "
                    + (f"{p[0]} id={p[1]} {p[2]}/{p[3]} {[('.'.join(map(str, n[-4:])), x) for n, x in p[4]][:3]}" if p else "encrypted"))
        except Exception:
            return f"{len(d)} bytes {d[:40].hex()}"

    # --------------------------------------------------------------- log
    def parse(self):
        """Reads every sent datagram with the reference codec and assigns it to its request."""
        self.txs = []
        byname = {q.names[0][:len(BASE) + 1]: q for q in self.reqs if q.names and q.names[0][:len(BASE)] == BASE}
        for q in self.reqs:
            q.txs = []
        for item in self.net.sent:
            tx = Tx(*item)
            if tx.dst not in self.net.agents:
                continue
            self.txs.append(tx)
            tx.agent = self.net.agents[tx.dst]
            try:
                tx.version = R.peek_version(tx.data)
                if tx.version == 3:
                    tx.msg = A.Opened(tx.data, tx.agent.users, None)
                    if tx.msg.scoped:
                        tx.pdu = tx.msg.scoped[2]
                else:
                    _, tx.community, tx.pdu = R.dec_community(tx.data)
            except R.Malformed as e:
                tx.bad = str(e)
                continue
            if tx.pdu and tx.pdu[4]:
                tx.req = byname.get(tx.pdu[4][0][0][:len(BASE) + 1])
                if tx.req is not None:
                    tx.req.txs.append(tx)
        self.bydata = {}
        made = {data for a in self.agents for _, _, data in a.reports}
        self.reports = []
        for t, dst, src, data in self.net.delivered:
            self.bydata.setdefault(data, []).append(t)
            if data in made:
                self.reports.append((t, src, R.dec_v3(data)["msgid"]))
        # answers by the request they answer
        self.answers = {q.index: [] for q in self.reqs}
        for a in self.agents:
            for ans in a.answers.values():
                if not hasattr(ans, "data"):
                    continue
                p = ans.request.pdu
                q = byname.get(p[4][0][0][:len(BASE) + 1]) if p[4] else None
                ans.req = q
                ans.arrivals = [t for t in self.bydata.get(ans.data, []) if t >= ans.t]
                if q is not None:
                    self.answers[q.index].append(ans)

    def fail(self, key, message, q=None, **kw):
        self.ctx.fail(key, message, **({"request": q} if q is not None else {}), **kw, scenario=self.describe(q))

# --------------------------------------------------------------------- oracles

SLACK = 0.02

def slack(w):
    return SLACK + 2 * w.sim.jitter + w.sim.tick * 50 + 2 * w.sim.quantum

def judge_match(w):
    """C06: whatever a request returned answers that very request."""
    for q in w.reqs:
        if q.outcome == "ok":
            s = A.serial_of(q.detail)
            ans = [a for a in w.answers[q.index] if a.serial == s]
            if not ans:
                w.fail("mismatch", "a request returned bindings that no answer to it contained", q)
            a = ans[0]
            if a.vbs != q.detail:
                w.fail("bindings", "a request returned other bindings than its answer contained", q, answer=a.vbs)
            if not any(t <= q.wait1 for t in a.arrivals):
                w.fail("mismatch", "a request returned an answer that never arrived", q)
            if a.agent is not q.man.agent:
                w.fail("mismatch", "a request returned another agent's answer", q)
            w.ctx.count("matched")
        elif q.outcome == "error":
            ans = [a for a in w.answers[q.index] if a.status == q.detail[0] and any(t <= q.wait1 for t in a.arrivals)]
            if not ans:
                w.fail("mismatch", "a request raised an error that no answer to it contained", q)
            w.ctx.count("matched-errors")

def expected_arrivals(w, q):
    """Times at which an acceptable answer to q reached the socket before its deadline."""
    out = []
    for a in w.answers[q.index]:
        h = a.agent.history
        if len(h) > 1 and a.t < h[-1][0] + EPS:
            continue        # made before the agent changed: may be rejected as too old
        out += a.arrivals
    return sorted(out)

def judge_outcomes(w, tight=True, allowed=("ok", "error", "timeout", "report")):
    """C07: every wait ended in time and with a documented outcome."""
    sl = slack(w)
    for q in w.reqs:
        if q.outcome is None:
            continue
        if q.outcome not in allowed:
            w.fail("undocumented", f"a request ended with {q.outcome}", q)
        if q.wait1 is None:
            w.fail("undocumented", "a request was refused", q)
        w.ctx.count("waits")
        arr = expected_arrivals(w, q)
        good = [t for t in arr if t < q.deadline - sl]
        if q.outcome in ("timeout", "report"):
            if q.outcome == "timeout" and q.wait1 < q.deadline - EPS - w.sim.quantum:
                w.fail("early-timeout", "a request timed out before its timeout had elapsed", q)
            if tight and good and q.wait0 <= q.deadline:
                w.fail("lost-response", "a response that arrived in time was turned into a " + q.outcome, q, arrivals=[q.rel(t) for t in good])
            if tight and good:
                w.fail("lost-response", "a response that arrived before the deadline was turned into a " + q.outcome + " by a later wait", q, arrivals=[q.rel(t) for t in good])
        if tight:
            end = max(q.wait0, q.deadline)
            if q.outcome in ("ok", "error") and arr:
                end = min(end, max(q.wait0, arr[0]))
            if q.wait1 > end + sl:
                w.fail("late-return", "waiting went on after the request had been decided", q, late=q.wait1 - end)

def judge_schedule(w, v3=True):
    """C08: retransmissions of requests that no report touched follow the grid t0 + k*period."""
    sl = slack(w)
    for q in w.reqs:
        txs = q.txs
        if not txs:
            continue
        # identical PDUs
        want = w.ref_pdu(q, txs[0].pdu[1])
        for tx in txs:
            if tx.pdu != want:
                w.fail("pdu-changed", "a transmission carries another PDU than its request", q, want=want, got=tx.pdu)
            if q.man.version != 3 and tx.data != txs[0].data:
                w.fail("pdu-changed", "a retransmission differs from the original", q)
            if tx.t > q.sent_by + q.timeout + sl:
                w.fail("late-transmission", "a request was transmitted after its timeout", q, at=q.rel(tx.t))
            if q.wait1 is not None and tx.t > q.wait1 + sl:
                w.fail("transmission-after-result", "a request was transmitted after its result had been returned", q, at=q.rel(tx.t))
            if q.dropped is not None and tx.t > q.dropped + sl:
                w.fail("transmission-after-drop", "a dropped request was transmitted", q, at=q.rel(tx.t))
        w.ctx.count("transmissions", len(txs))
        w.ctx.count("retransmissions", len(txs) - 1)
        arr = [t for a in w.answers[q.index] for t in a.arrivals]
        first = min(arr) if arr else None
        if first is not None:
            for tx in txs:
                if tx.t > first + sl:
                    w.fail("transmission-after-answer", "a request was transmitted after its answer had arrived", q, at=q.rel(tx.t), answer=q.rel(first))
        times = [tx.t for tx in txs]
        if q.man.version == 3:
            # a report that concerns the request makes it start over
            reps = reports_for(w, q)
            starts = [0] + [i for i in range(1, len(times)) if any(times[i] - sl <= r <= times[i] + EPS for r in reps)]
        else:
            starts = [0]
        for i, k in enumerate(starts):
            nxt = starts[i + 1] if i + 1 < len(starts) else None
            grid(w, q, times[k:nxt], first, sl, None if nxt is None else times[nxt])

def reports_for(w, q):
    """When reports about q's own messages (not about probes) were delivered."""
    ids = {(tx.dst, tx.msg.msgid) for tx in q.txs if tx.msg}
    return sorted(t for t, src, mid in w.reports if (src, mid) in ids)

def judge_addressed(w):
    """C13: a new request is for the engine that was given or has authenticated itself, whatever unauthenticated messages name."""
    proven = []
    for t, dst, src, data in w.net.delivered:
        try:
            m = R.dec_v3(data)
            if m["flags"] and m["flags"][0] & 1:
                proven.append((t, src, R.dec_usm(m["sp"])["engine"]))
        except R.Malformed:
            continue
    settled = {}                # manager -> when it had certainly authenticated an engine
    for q in w.reqs:
        if q.outcome == "ok" and q.level and q.man.version == 3 and q.wait1 is not None:
            settled[q.man] = min(settled.get(q.man, 1e18), q.wait1)
    for q in w.reqs:
        if not q.txs or q.man.version != 3 or not q.txs[0].msg:
            continue
        tx, m = q.txs[0], q.man
        if m.engine_id is None and not settled.get(m, 1e18) < tx.t:
            continue
        w.ctx.count("addressed")
        if tx.msg.engine != m.engine_id and not any(t <= tx.t and src == tx.dst and e == tx.msg.engine for t, src, e in proven):
            w.fail("addressed", "a request was first sent to an engine that only an unauthenticated message named", q, engine=tx.msg.engine.hex())
            w.ctx.count("misaddressed")

def grid(w, q, times, answered, sl, until=None):
    t0, p = times[0], q.period
    last = -1
    for t in times:
        # a moment within the tolerance of a boundary may belong to either period
        cells = [k for k in range(int((t - t0 - sl) // p), int((t - t0 + sl) // p) + 1) if k > last]
        if not cells:
            w.fail("too-often", "a request was transmitted more than once in a period", q, at=[q.rel(t) for t in times])
        last = max(0, cells[0])
    w.ctx.count("periods-checked", len(times))
    if q.wait0 is None or q.wait1 is None:
        return
    end = min(q.wait1, q.created + q.timeout, answered if answered is not None else 1e18, until if until is not None else 1e18)
    k = 1
    while t0 + k * p < end - sl:
        due = t0 + k * p
        if due > q.wait0 + EPS and q.created + q.timeout > due + sl:
            if not any(due - sl <= t <= due + sl for t in times):
                w.fail("missed", "a request that was being waited for was not retransmitted when due", q, due=q.rel(due), sent=[q.rel(t) for t in times])
            w.ctx.count("retransmissions-due")
        k += 1
