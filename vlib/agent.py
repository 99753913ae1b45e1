"""A reference SNMP agent (v1, v2c, v3/USM authoritative) on the simulated or a real network.

Independent of the library.  Every response carries a serial number in its values
and is logged together with the request it answers.
"""
from . import ref_ber as R, ref_usm as U

USM_STATS = (1, 3, 6, 1, 6, 3, 15, 1, 1)
REPORTS = {"level": 1, "window": 2, "user": 3, "engine": 4, "digest": 5, "decrypt": 6}
MAX = 2**31 - 1

class User:
    """auth: None or (protocol, secret); priv: None or (protocol, secret)"""
    def __init__(self, name, auth=None, priv=None):
        self.name, self.auth, self.priv = name, auth, priv
    @property
    def level(self):
        return 0 if self.auth is None else 1 if self.priv is None else 2
    def authkey(self, engine):
        return U.localized(self.auth[0], self.auth[1], engine)
    def privkey(self, engine):
        return U.localized(self.auth[0], self.priv[1], engine)
    def __repr__(self):
        return f"User({self.name!r}, {self.auth and self.auth[0]}, {self.priv and self.priv[0]})"

def seal(user, level, engine, boots, time, msgid, scoped, salt, flags=None, maxsize=65507, model=3, username=None, key_engine=None):
    """A whole v3 message carrying the encoded scoped PDU at a level."""
    keng = engine if key_engine is None else key_engine
    fl = (0, 1, 3)[level] if flags is None else flags
    name = user.name if username is None else username
    sig, psalt, data = b"", b"", scoped
    if level == 2:
        psalt = salt
        data = R.enc_str(U.encrypt(user.priv[0], user.privkey(keng), boots, time, psalt, scoped))
    if level >= 1:
        sig = bytes(U.digest_len(user.auth[0]))
    msg = R.enc_v3(msgid, maxsize, fl, model, R.enc_usm(engine, boots, time, name, sig, psalt), data)
    if level >= 1:
        msg = sign(msg, user.auth[0], user.authkey(keng))
    return msg

def sign(msg, proto, key):
    s, n = R.v3_sig_offset(msg)
    assert n == U.digest_len(proto)
    msg = msg[:s] + bytes(n) + msg[s + n:]
    return msg[:s] + U.digest(proto, key, msg) + msg[s + n:]

class Opened:
    """A v3 message as an agent sees it; .problem names the first check that failed."""
    def __init__(self, data, users, engine):
        m = R.dec_v3(data)
        self.raw = data
        self.msgid, self.maxsize, self.model = m["msgid"], m["maxsize"], m["model"]
        self.flags = m["flags"][0]
        self.level = {0: 0, 1: 1, 3: 2}.get(self.flags & 3, -1)
        self.reportable = bool(self.flags & 4)
        u = R.dec_usm(m["sp"])
        self.engine, self.boots, self.time, self.username = u["engine"], u["boots"], u["time"], u["user"]
        self.sig, self.salt = u["sig"], u["salt"]
        self.scoped = m.get("scoped")
        self.cipher = m.get("cipher")
        self.user = None
        self.problem = None
        if self.model != 3 or self.level < 0 or m["version"] != 3:
            self.problem = "malformed"
        elif engine is not None and self.engine != engine:
            self.problem = "engine"
        elif self.username not in users:
            self.problem = "user"
        else:
            self.user = users[self.username]
            if self.level > self.user.level:
                self.problem = "level"
            elif self.level >= 1:
                s, n = R.v3_sig_offset(data)
                proto = self.user.auth[0]
                good = n == U.digest_len(proto) and sign(data, proto, self.user.authkey(self.engine)) == data
                if not good:
                    self.problem = "digest"
                elif self.level == 2:
                    try:
                        p = U.decrypt(self.user.priv[0], self.user.privkey(self.engine), self.boots, self.time, self.salt, self.cipher)
                        self.scoped = R.dec_scoped(p, trailing=True)
                        self.plain = p
                    except Exception:
                        self.problem = "decrypt"

class Received:
    def __init__(self, **kw):
        self.__dict__.update(kw)

class Answer:
    def __init__(self, **kw):
        self.__dict__.update(kw)

_serial = [0]

class Agent:
    def __init__(self, addr, rng, communities=(b"public",), versions=(0, 1, 3), engine=b"\x80\x00\x00\x00\x05agent",
                 boots=1, uptime=100.0, now=0.0, users=(), responder=None, **style):
        self.addr, self.rng = addr, rng
        self.communities, self.versions = set(communities), set(versions)
        self.users = {u.name: u for u in users}
        self.engine, self.boots = engine, boots
        self.booted = now - uptime
        self.responder = responder or self.answer
        self.log, self.answers, self.reports = [], {}, []
        self.counters = dict.fromkeys(REPORTS, 0)
        self.salt = rng.getrandbits(64)
        self.silent = lambda rec: False          # drop instead of answering
        self.style = dict(report_clock="real", window_report="auth", report_reqid="request", window=150)
        self.style.update(style)
        self.history = [(now, self.engine, self.boots)]
        self.taps = []                            # fn(agent, received, reply)

    # ------------------------------------------------------------- clock
    def time(self, now):
        return max(0, min(MAX, int(now - self.booted)))

    def reboot(self, now, engine=None, keep_boots=False, boots=None):
        self.boots = boots if boots is not None else self.boots if keep_boots else min(self.boots + 1, MAX)
        self.booted = now
        if engine is not None:
            self.engine = engine
        self.history.append((now, self.engine, self.boots))

    # ---------------------------------------------------------- handling
    def __call__(self, data, src, now):
        rec = Received(t=now, data=data, src=src, agent=self, version=None, pdu=None, verdict="malformed", msg=None, replies=[])
        self.log.append(rec)
        try:
            rec.version = R.peek_version(data)
            if rec.version in (0, 1):
                v, c, p = R.dec_community(data)
                rec.community, rec.pdu = c, p
            elif rec.version == 3:
                rec.msg = Opened(data, self.users, self.engine)
                if rec.msg.scoped:
                    rec.pdu = rec.msg.scoped[2]
        except R.Malformed:
            return []
        if rec.version not in self.versions:
            rec.verdict = "version"
            return []
        if self.silent(rec):
            rec.verdict = "silent"
            return []
        if rec.version == 3:
            out = self._v3(rec, now)
        else:
            out = self._community(rec, now)
        out = [o if isinstance(o, tuple) else (o, self.addr, 0.0) for o in out]
        rec.replies = out
        for tap in self.taps:
            out = tap(self, rec, out) or out
        return out

    def _community(self, rec, now):
        if rec.community not in self.communities:
            rec.verdict = "community"
            return []
        rec.verdict = "ok"
        made = self.respond(rec, now)
        if made is None:
            return []
        ans, pdu = made
        ans.data = R.enc_community(rec.version, rec.community, R.enc_pdu(*pdu))
        return [ans.data]

    def _v3(self, rec, now):
        m = rec.msg
        if m.problem == "malformed":
            return []
        clock = self.time(now)
        problem = m.problem
        if problem is None and m.level >= 1:
            if self.boots >= MAX or m.boots != self.boots or abs(m.time - clock) > self.style["window"]:
                problem = "window"
        rec.verdict = problem or "ok"
        if problem:
            if not m.reportable:
                return []
            return [self.report(problem, m, now)]
        made = self.respond(rec, now)
        if made is None:
            return []
        ans, pdu = made
        scoped = R.enc_scoped(self.engine, m.scoped[1], R.enc_pdu(*pdu))
        self.salt += 1
        b, t = (self.boots, clock)
        if m.level == 0 and self.style["report_clock"] == "zero":
            b, t = 0, 0
        ans.level = m.level
        ans.data = seal(m.user, m.level, self.engine, b, t, m.msgid, scoped, (self.salt % 2**64).to_bytes(8, "big"))
        return [ans.data]

    def report(self, problem, m, now, level=None):
        self.counters[problem] += 1
        clock = self.time(now)
        vb = (USM_STATS + (REPORTS[problem], 0), ("c32", self.counters[problem]))
        reqid = m.scoped[2][1] if m.scoped and self.style["report_reqid"] == "request" else 0
        scoped = R.enc_scoped(self.engine, b"" if not m.scoped else m.scoped[1], R.enc_pdu("report", reqid, 0, 0, [vb]))
        if level is None:
            level = 1 if problem == "window" and self.style["window_report"] == "auth" else 0
        boots, time = self.boots, clock
        if level == 0 and self.style["report_clock"] == "zero":
            boots, time = 0, 0
        user = m.user if level else None
        data = seal(user, level, self.engine, boots, time, m.msgid, scoped, bytes(8), username=m.username)
        self.reports.append((now, problem, data))
        return data

    # ----------------------------------------------------------- content
    def respond(self, rec, now):
        pdu = rec.pdu
        if pdu[0] not in ("get", "getnext", "getbulk", "set"):
            return None
        _serial[0] += 1
        serial = _serial[0]
        got = self.responder(rec, serial)
        if got is None:
            return None
        status, index, vbs = got
        out = ("response", pdu[1], status, index, vbs)
        ans = Answer(serial=serial, t=now, agent=self, request=rec, pdu=out, status=status, index=index, vbs=vbs, level=None)
        self.answers[serial] = ans
        return ans, out

    def answer(self, rec, serial):
        kind, _, a, b, vbs = rec.pdu
        mark = ("str", b"#%d" % serial)
        if kind == "get":
            return 0, 0, [(n, mark) for n, _ in vbs]
        if kind == "set":
            return 0, 0, [(n, v) for n, v in vbs] + [((1, 3, 6, 1, 4, 1, 55555, 0), mark)]
        if kind == "getnext":
            return 0, 0, [(n + (1,), mark) for n, _ in vbs]
        out = [(n + (1,), mark) for n, _ in vbs[:a]]
        for k in range(min(b, 4)):
            out += [(n + (k + 1,), mark) for n, _ in vbs[a:]]
        return 0, 0, out or [((1, 3, 6, 1, 4, 1, 55555, 0), mark)]

def serial_of(vbs):
    """The serial number in a list of reference bindings; None if there is none; -1 if they disagree."""
    found = {int(v[1][1:]) for _, v in vbs if v[0] == "str" and v[1][:1] == b"#" and v[1][1:].isdigit()}
    if not found:
        return None
    return found.pop() if len(found) == 1 else -1
