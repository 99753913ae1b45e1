"""Hostile datagrams: garbage, broken BER, mutations of real messages and unacceptable messages with the right identifiers."""
from . import ref_ber as R, agent as A, ref_usm as U

def ber(rng, depth=0):
    """Something that looks like BER, with lengths that may lie."""
    x = rng.random()
    if x < .1:
        return b"\x30\x80" + rng.randbytes(4) + b"\0\0"
    if x < .2:
        return bytes([rng.choice([0x30, 0x04, 0x02])]) + bytes([0x80 | rng.randrange(1, 127)]) + rng.randbytes(rng.randrange(0, 10))
    if x < .3:
        return b"\x1f" + bytes([0x80 | rng.randrange(128) for _ in range(rng.randrange(0, 12))]) + rng.randbytes(3)
    if x < .4:
        n = rng.choice([10, 100, 700])
        out = b""
        for _ in range(n):
            out = R.tlv(0x30, out)
            if len(out) > 1400:
                break
        return out
    if x < .5:
        return b"\x30\x84\xff\xff\xff\xff" + rng.randbytes(5)
    if x < .6:
        return R.seq(b"\x02\x00")
    if x < .7:
        return R.seq(R.tlv(2, rng.randbytes(rng.randrange(1, 12))), rng.randbytes(5))
    if depth < 4:
        return R.tlv(rng.choice([0x30, 0x30, 2, 4, 5, 6, 0x40, 0x41, 0x43, 0x46, 0xa0, 0xa2, 0xa8, 0x80, rng.randrange(256)]),
                     b"".join(ber(rng, depth + 1) for _ in range(rng.randrange(0, 4))))
    return R.tlv(2, bytes([rng.randrange(256)]))

def garbage(rng):
    x = rng.random()
    if x < .1:
        return b""
    if x < .35:
        return rng.randbytes(rng.choice([1, 2, 3, 10, 60, 484, 1472]))
    if x < .45:
        return bytes([rng.randrange(256)]) * rng.choice([1, 2, 50, 1472])
    if x < .7:
        return ber(rng)
    # a plausible start, then garbage
    ver = rng.choice([0, 1, 3, 3, 2, -1, 4, 2**31, 2**70, -2**40])
    body = R.tlv(2, (ver).to_bytes((ver.bit_length() // 8) + 1, "big", signed=True))
    y = rng.random()
    if y < .5:
        body += R.enc_str(rng.choice([b"public", b"", b"c\xff\x00x"])) + R.tlv(rng.choice(list(range(0xa0, 0xa9)) + [0x30, 0xbf]), ber(rng))
    elif y < .8:
        head = R.seq(R.enc_int(rng.choice([0, 1, 2**31 - 1, -1, 2**31])), R.enc_int(rng.choice([484, 483, 0, 65507, -1, 2**31 - 1])),
                     R.enc_str(rng.choice([b"", b"\0", b"\1", b"\2", b"\3", b"\4", b"\7", b"\xff", b"\0\0"])), R.enc_int(rng.choice([0, 1, 2, 3, 4, -1, 2**31])))
        sp = rng.choice([b"", ber(rng), R.enc_usm(rng.choice([b"", b"\0" * 4, rng.randbytes(33), rng.randbytes(5)]), rng.choice([0, -1, 2**31 - 1]), rng.choice([0, -5, 2**31 - 1]),
                                                  rng.choice([b"", b"\xff\xfe", b"user0"]), rng.choice([b"", b"\0" * 12, b"x" * 5]), rng.choice([b"", b"12345678", b"123"]))])
        body += head + R.enc_str(sp) + rng.choice([b"", ber(rng), R.enc_str(rng.randbytes(20)), R.enc_scoped(b"", b"", R.enc_pdu(rng.choice(["report", "response", "get", "trap2"]), 1, 0, 0, []))])
    else:
        body += ber(rng)
    return R.seq(body) if rng.random() < .9 else R.seq(body) + rng.randbytes(3)

def mutate(rng, d):
    d = bytearray(d)
    for _ in range(rng.choice([1, 1, 1, 2, 5])):
        if not d:
            break
        k = rng.randrange(len(d))
        x = rng.random()
        if x < .35:
            d[k] ^= 1 << rng.randrange(8)
        elif x < .6:
            d[k] = rng.choice([0, 0x7f, 0x80, 0xff, rng.randrange(256)])
        elif x < .75:
            del d[k:]
        elif x < .85:
            del d[k:k + rng.choice([1, 2, 8])]
        else:
            d[k:k] = rng.randbytes(rng.choice([1, 2, 8]))
    return bytes(d)

class Hostile:
    """Knows the identifiers in use on one network, to tell harmless messages from acceptable ones."""
    def __init__(self, agents, rng):
        self.agents, self.rng = agents, rng
        self.engines = {a.engine for a in agents}
        self.ids = {0: set(), 1: set()}
        self.msgids = set()
        self.sent = []
    def saw(self, data):
        """A genuine message (from either side)."""
        try:
            v = R.peek_version(data)
            if v in (0, 1):
                self.ids[v].add(R.dec_community(data)[2][1])
            elif v == 3:
                self.msgids.add(R.dec_v3(data)["msgid"])
        except R.Malformed:
            return
        self.sent.append(data)
        if len(self.sent) > 60:
            del self.sent[0]
    def harmless(self, data, genuine=()):
        """Whether no request may take notice of this message."""
        if data in self.sent or data in genuine:
            return False
        try:
            v = R.peek_version(data)
            if v in (0, 1):
                _, _, p = R.dec_community(data)
                return not (p[0] == "response" and p[1] in self.ids[v])
            if v != 3:
                return True
        except R.Malformed:
            return True
        try:
            m = R.dec_v3(data)
            u = R.dec_usm(m["sp"])
        except R.Malformed:
            # the reader stops at the first fault; unauthenticated times must not be affected either
            return not any(e in data for e in self.engines)
        if m["flags"][0] & 1:
            return True           # whoever altered it could not sign it
        if u["engine"] in self.engines:
            return False          # may shift the unauthenticated notion of time
        return m["msgid"] not in self.msgids
    def mutation(self, d):
        return mutate(self.rng, d)
    def forged(self, d, now):
        """From a genuine request d: messages with its identifiers that are not responses to it."""
        rng = self.rng
        v = R.peek_version(d)
        if v in (0, 1):
            _, c, p = R.dec_community(d)
            kind = rng.choice(["echo", "types", "report", "trap1", "broken", "version"])
            if kind == "echo":
                return d
            if kind == "types":
                k = rng.choice(["get", "getnext", "set"] + (["getbulk", "inform", "trap2"] if v else []))
                return R.enc_community(v, c, R.enc_pdu(k, p[1], 0, 0, p[4]))
            if kind == "report":
                return R.enc_community(v, c, R.enc_pdu("report", p[1], 0, 0, p[4][:rng.randrange(0, 2)]))
            if kind == "trap1":
                return R.seq(R.enc_int(v), R.enc_str(c), R.tlv(0xa4, R.enc_oid((1, 3, 6, 1)) + R.tlv(0x40, b"\1\2\3\4") + R.enc_int(6) + R.enc_int(1) + R.tlv(0x43, b"\1") + R.seq()))
            if kind == "version":
                return R.enc_community(rng.choice([2, 4, -1]), c, R.enc_pdu("response", p[1], 0, 0, p[4]))
            body = R.enc_int(p[1]) + rng.choice([b"", R.enc_int(0), R.enc_int(0) + R.enc_int(0), R.enc_int(0) * 2 + b"\x30\x05", R.enc_int(99) + R.enc_int(0) + R.seq(), R.enc_int(0) + R.enc_int(7) + R.seq(),
                                                 R.enc_int(0) * 2 + R.seq(R.seq(R.enc_oid((1, 3, 6)))), R.enc_int(0) * 2 + R.seq(R.enc_int(5)), R.enc_int(5) + R.enc_int(9) + R.seq(), R.enc_int(0) * 2 + R.seq() + b"xx"])
            return R.seq(R.enc_int(v), R.enc_str(c), R.tlv(0xa2, body))
        m = R.dec_v3(d)
        u = R.dec_usm(m["sp"])
        pdu = m["scoped"][2] if "scoped" in m else ("get", 1, 0, 0, [((1, 3, 6, 1), ("null",))])
        eng = u["engine"] or b"\x80\0\1\2\3\4\5"
        kind = rng.choice(["echo", "types", "emptyreport", "model", "flags", "usm", "unsigned", "junk", "broken"])
        mid = m["msgid"]
        stray = rng.randbytes(9)          # no engine of this network
        scoped = lambda k, vbs: R.enc_scoped(rng.choice([eng, b""]), b"", R.enc_pdu(k, rng.choice([pdu[1], 0, 1]), 0, 0, vbs))
        usm = lambda e=stray, **k: R.enc_usm(e, k.get("boots", 1), k.get("time", 1), k.get("user", u["user"]), k.get("sig", b""), k.get("salt", b""))
        if kind == "echo":
            return d if m["flags"][0] & 1 else None
        if kind == "types":
            return R.enc_v3(mid, 1472, 0, 3, usm(), scoped(rng.choice(["get", "getnext", "set", "getbulk", "inform", "trap2"]), pdu[4]))
        if kind == "emptyreport":
            return R.enc_v3(mid, 1472, 0, 3, usm(), scoped("report", []))
        if kind == "model":
            return R.enc_v3(mid, 1472, 0, rng.choice([0, 1, 2, 4, 2**31 - 1]), usm(eng), scoped("response", pdu[4]))
        if kind == "flags":
            return R.enc_v3(mid, rng.choice([1472, 10]), rng.choice([2, 6]), 3, usm(eng), scoped("response", pdu[4]))
        if kind == "usm":
            return R.enc_v3(mid, 1472, rng.choice([0, 1, 3]), 3, rng.choice([b"", b"\x30\x00", usm() + b"x", usm()[:-3], b"\x30\x80", R.enc_usm(stray, -1, -1, b"", b"", b"")]), scoped("response", pdu[4]))
        if kind == "unsigned":
            return R.enc_v3(mid, 1472, rng.choice([1, 3]), 3, usm(rng.choice([eng, eng, stray]), sig=rng.choice([b"", b"\0" * 12, rng.randbytes(12), rng.randbytes(24), rng.randbytes(48)]), salt=rng.choice([b"", rng.randbytes(8), b"abc"]),
                            user=rng.choice([u["user"], b"\xff\xfe\xfd", b""])), rng.choice([scoped("response", pdu[4]), R.enc_str(rng.randbytes(rng.choice([0, 1, 8, 50])))]))
        if kind == "junk":
            # properly signed by the agent itself, but it makes no sense
            for a in self.agents:
                if a.engine == u["engine"] and u["user"] in a.users and a.users[u["user"]].level >= 1:
                    usr = a.users[u["user"]]
                    body = rng.choice([scoped("report", []), scoped("get", pdu[4]), b"", b"\x30\x00", ber(rng), R.enc_scoped(eng, b"", ber(rng)), R.enc_scoped(rng.randbytes(5), b"ctx", R.enc_pdu("response", pdu[1], 0, 0, []))])
                    lv = rng.randrange(1, usr.level + 1)
                    try:
                        return A.seal(usr, lv, a.engine, a.boots, a.time(now), mid, body, rng.randbytes(8))
                    except Exception:
                        return None
            return None
        return R.enc_v3(mid, 1472, rng.choice([0, 1, 3]), 3, usm(stray), rng.choice([b"", b"\x30\x00", R.enc_str(b""), ber(rng)]))
    def make(self, now):
        """One datagram, and its kind."""
        rng = self.rng
        for _ in range(20):
            x = rng.random()
            if x < .3 or not self.sent:
                kind, d = "garbage", garbage(rng)
            elif x < .7:
                kind, d = "mutation", self.mutation(rng.choice(self.sent))
            else:
                kind = "forged"
                try:
                    d = self.forged(rng.choice(self.sent), now)
                except R.Malformed:
                    continue
                if d is not None and d in self.sent:
                    try:
                        v = R.peek_version(d)
                        if v in (0, 1) and R.dec_community(d)[2][0] != "response":
                            return "echo", d
                        if v == 3 and not R.dec_v3(d).get("scoped") is None and R.dec_v3(d)["scoped"][2][0] not in ("response", "report") and R.dec_v3(d)["flags"][0] & 1:
                            return "echo", d
                    except R.Malformed:
                        pass
                    continue
                if kind == "forged" and d is not None and self.good_forgery(d):
                    return kind, d
                continue
            if self.harmless(d):
                return kind, d
        return "garbage", b"\xff"
    def good_forgery(self, d):
        """Forgeries carry identifiers in use on purpose: what they are made to be must not be acceptable."""
        try:
            v = R.peek_version(d)
            if v in (0, 1):
                _, _, p = R.dec_community(d)
                return p[0] != "response"
            m = R.dec_v3(d)
            u = R.dec_usm(m["sp"])
        except R.Malformed:
            return True
        if m["flags"][0] & 1:
            return True
        if m["model"] != 3 or m["flags"][0] & 3 == 2:
            return True
        return u["engine"] not in self.engines and (m["scoped"][2][0] not in ("response", "report") or not m["scoped"][2][4])
