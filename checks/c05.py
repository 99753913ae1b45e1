"""C05: identifiers do not repeat within a period, on their own and on the wire."""
import random
from vlib.core import Group
from vlib import world as W, scenario as Sc, attack as X

def bounds(n, signed):
    return (-(1 << (n - 1)), (1 << (n - 1)) - 1) if signed else (0, (1 << n) - 1)

def periods(ctx, rng, i):
    """Whole periods: each value once, zero last, and again."""
    from snmp.utils import NumberGenerator
    n = 1 + i % 14
    signed = bool(i // 14 % 2)
    g = NumberGenerator(n, signed=signed) if rng.random() < .7 or not signed else NumberGenerator(n)
    lo, hi = bounds(n, signed)
    for rnd in range(2 if n < 12 else 1):
        seen = bytearray(1 << n)
        for k in range(1 << n):
            v = next(g)
            if not isinstance(v, int) or not lo <= v <= hi:
                ctx.fail("range", "a generated identifier is out of range", n=n, signed=signed, value=v, at=k)
            if seen[v - lo]:
                ctx.fail("repeat", "an identifier was generated twice in a period", n=n, signed=signed, value=v, at=k, period=rnd)
            seen[v - lo] = 1
            if (v == 0) != (k == (1 << n) - 1):
                ctx.fail("zero", "zero was not the last value of a period", n=n, signed=signed, at=k)
        ctx.count("full-periods")
    ctx.count("values", 1 << n)
    ctx.distinct(n, signed, i)

def large(ctx, rng, i):
    """One whole period of a wide generator."""
    from snmp.utils import NumberGenerator
    n = rng.choice([15, 16, 17]) if ctx.tier == "quick" else rng.choice([18, 19, 20, 21])
    signed = rng.random() < .5
    g = NumberGenerator(n, signed=signed)
    lo, hi = bounds(n, signed)
    seen = bytearray(1 << n)
    last = None
    for k in range(1 << n):
        last = next(g)
        if not lo <= last <= hi:
            ctx.fail("range", "a generated identifier is out of range", n=n, signed=signed, value=last, at=k)
        if seen[last - lo]:
            ctx.fail("repeat", "an identifier was generated twice in a period", n=n, signed=signed, value=last, at=k)
        seen[last - lo] = 1
    ctx.check_that(last == 0, "zero", "zero was not the last value of a period", n=n, signed=signed)
    ctx.count("full-periods")
    ctx.count("values", 1 << n)
    ctx.distinct(n, signed, i)

def wide(ctx, rng, i):
    """The widths in use: a long stretch of a period, several generators side by side."""
    from snmp.utils import NumberGenerator
    kinds = [(31, False), (32, True), (32, False), (31, True), (rng.randrange(18, 65), rng.random() < .5)]
    gens = [(n, s, NumberGenerator(n, signed=s), set()) for n, s in rng.sample(kinds, rng.choice([1, 2]))]
    # the integers of a 2-adic progression come as close as they ever do within few steps, or after 2^k of them
    for k in range(6000):
        n, s, g, seen = gens[k % len(gens)]
        v = next(iter(g)) if k % 100 == 0 else next(g)
        lo, hi = bounds(n, s)
        if not lo <= v <= hi or v == 0:
            ctx.fail("range", "a generated identifier is zero or out of range", n=n, signed=s, value=v, at=k)
        if v in seen:
            ctx.fail("repeat", "an identifier was generated twice in a period", n=n, signed=s, value=v, at=k)
        seen.add(v)
    ctx.count("values", 6000)
    ctx.distinct([next(g) for *_, g, _ in gens])

def judge(w, wide=True):
    """Identifiers of all transmissions; outstanding means: from the first transmission to the end of the wait."""
    spans = {}
    for tx in w.txs:
        if tx.bad:
            w.fail("unreadable", "a malformed message was sent: " + tx.bad)
        if tx.version == 3:
            mid = tx.msg.msgid
            if not 0 < mid < 1 << 31:
                w.fail("range", f"message ID {mid} is out of range")
            w.ctx.count("message-ids")
            if tx.pdu and tx.pdu[4]:
                if not -(1 << 31) <= tx.pdu[1] < 1 << 31 or tx.pdu[1] == 0:
                    w.fail("range", f"request ID {tx.pdu[1]} is zero or out of range")
        else:
            rid = tx.pdu[1]
            if not -(1 << 31) <= rid < 1 << 31 or rid == 0:
                w.fail("range", f"request ID {rid} is zero or out of range")
            w.ctx.count("request-ids")
    for q in w.reqs:
        end = q.wait1 if q.wait1 is not None else q.dropped if q.dropped is not None else 1e18
        own = set()
        for tx in q.txs:
            if q.man.version == 3:
                if tx.msg.msgid in own:
                    w.fail("repeat", "two messages of a request carry the same message ID", q)
                own.add(tx.msg.msgid)
                spans.setdefault((3, tx.msg.msgid), []).append((tx.t, end, q))
                if wide:
                    spans.setdefault(("r", q.man.index, tx.pdu[1]), []).append((tx.t, end, q))
            else:
                spans.setdefault((q.man.version, tx.pdu[1]), []).append((tx.t, end, q))
        if len({tx.pdu[1] for tx in q.txs}) > 1:
            w.fail("changed", "a request was retransmitted with another request ID", q)
    for key, lst in spans.items():
        lst.sort(key=lambda x: x[0])
        for (a0, a1, p), (b0, b1, q) in zip(lst, lst[1:]):
            if p is not q and b0 < a1:
                w.fail("repeat", f"an identifier of an outstanding request was used again: {key}", q, other=p)
    # how many were outstanding at once
    ev = sorted([(q.txs[0].t, 1) for q in w.reqs if q.txs] + [(q.wait1 if q.wait1 is not None else q.dropped or 1e18, -1) for q in w.reqs if q.txs])
    n = 0
    for _, d in ev:
        n += d
        w.ctx.maximum("outstanding-at-once", n)
    w.ctx.count("identified", len(w.reqs))

def wire(ctx, rng, i):
    """Many managers and threads on one engine."""
    w = W.World(ctx, rng, sim=dict(line=rng.choice([.01, .05, .2, .4]), switch=rng.choice([.2, .5, 1.0])), loss=rng.choice([0, .2]), dup=rng.choice([0, .2]))
    def main():
        Sc.setup(w)
        v = rng.choice([(0,), (1,), (3,), (0, 1, 3)])
        Sc.engine_and_managers(w, versions=v, managers=rng.choice([1, 2, 4]))
        if rng.random() < .3:
            t = w.sim.now + rng.choice([.1, .5])
            for a in w.agents:
                a.silent = lambda rec: rec.t < t
        Sc.threads(w, n=rng.choice([1, 3, 6]), per=rng.choice([2, 5, 10]))
        Sc.close(w)
    w.run(main)
    judge(w)
    note(ctx, w)

def note(ctx, w):
    """The extremes of the identifiers of each kind, to see whether they use their range."""
    ids = ctx.__dict__.setdefault("extremes", {})
    for tx in w.txs:
        for kind, n in ((("message-id", tx.msg.msgid), ("v3-request-id", tx.pdu[1] if tx.pdu and tx.pdu[4] else None))
                        if tx.version == 3 else ((f"v{tx.version}-request-id", tx.pdu[1]),)):
            if n is not None:
                e = ids.setdefault(kind, [n, n, set()])
                e[0], e[1] = min(e[0], n), max(e[1], n)
                e[2].add(w.ctx.index)

def finish(ctx):
    """Generators start anywhere in their range: dozens of engines together reach both of its ends."""
    for kind, (lo, hi, worlds) in getattr(ctx, "extremes", {}).items():
        ctx.maximum("largest:" + kind, hi)
        if len(worlds) < 25:
            continue
        ctx.count("ranges-seen")
        want = 1 << 24
        if hi < want or (kind != "message-id" and lo > -want):
            ctx.record("narrow", f"the {kind}s of {len(worlds)} engines all lie between {lo} and {hi}", {})

class Narrow:
    """Makes every generator count in n bits for a while, so that whole periods pass."""
    def __init__(self, n):
        self.n = n
    def __enter__(self):
        from snmp.utils import NumberGenerator as G
        self.G, self.init = G, G.__init__
        init, n = self.init, self.n
        def narrow(obj, bits, *args, **kw):
            init(obj, min(bits, n), *args, **kw)
        G.__init__ = narrow
    def __exit__(self, *a):
        self.G.__init__ = self.init

def tiny(ctx, rng, i):
    """Identifiers of 4 or 5 bits: periods pass and values are taken, but never used twice at once."""
    bits = rng.choice([4, 4, 5])
    w = W.World(ctx, rng, sim=dict(line=rng.choice([0, .05, .3])), mixlevels=0, dropping=.2, loss=rng.choice([0, .2]), dup=rng.choice([0, .3]), timeouts=[.4, 1.0, 4.0], periods=[.2, .5, 9.0])
    def main():
        with Narrow(bits):
            Sc.setup(w)
            v = rng.choice([(0,), (1,), (3,)])
            Sc.engine_and_managers(w, versions=v, managers=rng.choice([1, 2]))
            r = random.Random(rng.getrandbits(64))
            for a in w.agents:
                a.silent = lambda rec: r.random() < .1
            # few at a time, so that a free value is always near
            for _ in range(rng.choice([4, 8])):
                Sc.threads(w, n=rng.choice([1, 2]), per=rng.choice([1, 2]))
            Sc.close(w)
    w.run(main)
    for q in w.reqs:
        if q.outcome == "exception" and "CacheError" not in q.detail:
            w.fail("undocumented", "a request failed", q)
        if q.outcome == "exception":
            ctx.count("allocation-failed")
    judge(w, wide=False)
    ids = {tx.msg.msgid if tx.version == 3 else tx.pdu[1] for tx in w.txs}
    ctx.count("tiny-values-used", len(ids))
    if len(ids) >= (1 << bits) - 1:
        ctx.count("tiny-periods-exhausted")

GROUPS = [Group("periods", periods, 560, 5600), Group("large", large, 40, 600), Group("wide", wide, 160, 8000),
          Group("wire", wire, 500, 15000), Group("tiny", tiny, 500, 15000)]
