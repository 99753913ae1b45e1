"""Datagrams that no request may accept, made from what is on the wire."""
import random
from . import ref_ber as R, agent as A, ref_usm as U

MARK = ("str", b"FORGED")
NONRESPONSES = ["get", "getnext", "getbulk", "set", "inform", "trap2"]

def int32(n):
    return (n + 2**31) % 2**32 - 2**31

def near(rng, b, also=()):
    """A byte string that a sloppy comparison might take for b."""
    k = rng.randrange(len(b)) if b else 0
    made = [b[:-1], b[1:], b + b"\0", b"\0" + b, b + b" ", b" " + b, b.swapcase(), b.upper(), b.lower(), b.strip(), b.rstrip(b"\0"),
            b[::-1], b"", b + b, b + b"x", b[:k] + bytes([b[k] ^ 1 << rng.randrange(8)]) + b[k + 1:] if b else b"z", b[:len(b) // 2], b.ljust(32, b"\0")] + list(also)
    made = [x for x in made if x != b]
    return rng.choice(made)

def mark(pdu):
    return [(n, MARK) for n, _ in pdu[4]] or [((1, 3, 6, 1, 4, 1, 55555, 9), MARK)]

class Forger:
    """Sees what the library sends (as a tap) and injects near misses before the agent's answer arrives."""
    def __init__(self, w, rate=.5, most=4, kinds=None, delay=(0, 9e-4)):
        self.w, self.rate, self.most, self.kinds = w, rate, most, kinds
        self.rng = random.Random(w.rng.getrandbits(64))
        self.delay = delay
        self.ids = {0: {}, 1: {}}          # version -> id -> communities it was sent with
        self.msgids = set()
        self.seen = []
        w.net.taps.append(self.tap)
        self.made = 0
        self.forged = set()

    def tap(self, now, src, dst, data, sock):
        w, rng = self.w, self.rng
        a = w.net.agents.get(dst)
        if a is None:
            return
        try:
            v = R.peek_version(data)
            if v in (0, 1):
                _, c, p = R.dec_community(data)
                self.ids[v].setdefault(p[1], set()).add(c)
            else:
                m = A.Opened(data, a.users, a.engine)
                self.msgids.add(m.msgid)
        except R.Malformed:
            return
        if rng.random() > self.rate:
            return
        for _ in range(rng.randrange(1, self.most + 1)):
            made = self.community(v, c, p) if v in (0, 1) else self.v3(a, m, now)
            if made is None:
                continue
            kind, out = made
            w.ctx.count("forged:" + kind)
            self.made += 1
            self.forged.add(out)
            d = rng.uniform(*self.delay) if rng.random() < .8 else rng.uniform(0, .5)
            frm = dst if rng.random() < .7 else ("10.9.9.9", 161)
            w.net.inject(out, frm, src, d)

    def community(self, v, c, p):
        rng = self.rng
        out = ("response", p[1], 0, 0, mark(p))
        kind = rng.choice(self.kinds or ["id", "id", "community", "version", "type", "both"])
        if rng.random() < .3:
            out = ("response", p[1], rng.choice([1, 2, 5]), rng.randrange(0, 2), p[4])
        ver, com, rid = v, c, p[1]
        if kind in ("id", "both"):
            rid = rng.choice([rid + 1, rid - 1, -rid, rid ^ 2**31, 0, ~rid, rid >> 8, rid ^ 1 << rng.randrange(32)] + list(self.ids[1 - v])[-3:] + list(self.msgids)[:2])
            rid = int32(rid)
            if c in self.ids[v].get(rid, ()):
                return None
        if kind in ("community", "both"):
            com = near(rng, com, [b"private!"])
            if rng.random() < .4:
                com = rng.choice(sorted(self.w.agents[0].communities))
            if com in self.ids[v].get(rid, ()):
                return None
        if kind == "version":
            ver = rng.choice([1 - v, 1 - v, 2, 3, 4, -1])
            if ver in (0, 1) and com in self.ids[ver].get(rid, ()):
                return None
        if kind == "type":
            k = rng.choice(NONRESPONSES)
            out = (k,) + out[1:]
        return kind, R.enc_community(ver, com, R.enc_pdu(out[0], rid, *out[2:]))

    def v3(self, a, m, now):
        rng = self.rng
        if not m.scoped or not m.username or m.user is None:
            return None
        p = m.scoped[2]
        if p[0] not in ("get", "getnext", "getbulk", "set"):
            return None
        kind = rng.choice(self.kinds or ["msgid", "reqid", "user", "context", "contextengine", "engine", "level", "type", "nokey"])
        ceid, cname, rid, msgid, level, user, engine = m.scoped[0], m.scoped[1], p[1], m.msgid, m.level, m.user, m.engine
        pdu = ["response", rid, 0, 0, mark(p)]
        if rng.random() < .25:
            pdu = ["response", rid, rng.choice([1, 2, 5]), rng.randrange(0, 2), p[4]]
        username = None
        key_engine = None
        clock = a
        if kind == "msgid":
            msgid = rng.choice([msgid + 1, msgid - 1, msgid ^ 1 << rng.randrange(31), 0, rid & 0x7fffffff]) & 0x7fffffff
            if msgid in self.msgids:
                return None
        elif kind == "reqid":
            pdu[1] = int32(rng.choice([rid + 1, rid - 1, -rid, 0, rid ^ 1 << rng.randrange(32), m.msgid]))
            if pdu[1] == rid:
                return None
        elif kind == "user":
            others = [u for u in a.users.values() if u.name != user.name and u.level >= level]
            if others:
                user = rng.choice(others)
            elif level == 0:
                username = near(rng, user.name)
            else:
                return None
        elif kind == "context":
            cname = near(rng, cname, [b"x", b"public", ceid])
        elif kind == "contextengine":
            ceid = near(rng, ceid)
        elif kind == "engine":
            # another engine that shares the user's name (and perhaps its secrets)
            others = [x for x in self.w.agents if x.engine != engine and user.name in x.users]
            if others and rng.random() < .7:
                o = rng.choice(others)
                engine, user, clock = o.engine, o.users[user.name], o
                if user.level < level:
                    return None
                if rng.random() < .5:
                    ceid = engine
            else:
                key_engine = rng.choice([None, engine])
                engine = near(rng, engine)
                if rng.random() < .5:
                    ceid = engine
        elif kind == "level":
            if level == 0:
                return None
            level = rng.randrange(0, level)
        elif kind == "type":
            pdu[0] = rng.choice(NONRESPONSES)
        elif kind == "nokey":
            if level == 0:
                return None
            user = A.User(user.name, (user.auth[0], user.auth[1][:-1] + b"?"), user.priv)
        scoped = R.enc_scoped(ceid, cname, R.enc_pdu(*pdu))
        b, t = clock.boots, clock.time(now)
        return "v3-" + kind, A.seal(user, level, engine, b, t, msgid, scoped, rng.randbytes(8), username=username, key_engine=key_engine)

class Replayer:
    """Delivers genuine datagrams again, later, to any socket of the engine."""
    def __init__(self, w, n=6, span=3.0):
        rng = random.Random(w.rng.getrandbits(64))
        def again():
            seen = w.net.delivered
            socks = list(w.net.bound)
            if seen and socks:
                t, dst, src, data = rng.choice(seen[-40:])
                target = dst if rng.random() < .5 else rng.choice(socks)
                w.net._to_socket(data, src, target if target[0] not in ("0.0.0.0", "::") else target)
                w.ctx.count("replayed")
        for _ in range(n):
            w.sim.at(w.sim.now + rng.random() * span, again)
