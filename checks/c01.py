"""C01: encode() is the reference encoding; decode() inverts it, with or without a tail."""
from vlib.core import Group
from vlib import gen as G, ref_ber as R
from snmp.utils import subbytes
import snmp.ber, snmp.smi, snmp.pdu, snmp.asn1
from snmp.message import Message, ProtocolVersion
from snmp.message.v3 import HeaderData, MessageFlags, ScopedPDU, SNMPv3Message, pduTypes as v3types
from snmp.security import SecurityModel
from snmp.security.levels import SecurityLevel
from snmp.security.usm.parameters import UsmSecurityParameters

TYPES = {p: G.cls_of(p) for p in G.PDUCLASS}
V12 = {c.TAG: c for c in TYPES.values()}

def roundtrip(ctx, rng, obj, cls, ref, back, want, **kw):
    """obj encodes to ref; decoding yields `want` under `back`, and an equal object."""
    got = obj.encode()
    ctx.check_that(got == ref, "encoding", f"{cls.__name__} does not encode to the reference encoding",
                   value=want, got=got.hex(), reference=ref.hex())
    ctx.distinct(ref)
    ctx.maximum("longest-encoding", len(ref))
    tail = rng.randbytes(rng.choice([0, 1, 3, 40]))
    again = cls.decode(got, **kw)
    ctx.check_that(back(again) == want, "decode", f"{cls.__name__} decodes to something else",
                   value=want, got=back(again), bytes=got.hex())
    ctx.check_that(again == obj, "decode-equality", f"decoded {cls.__name__} is not equal to the original", value=want)
    ctx.check_that(again.encode() == got, "reencode", f"decoded {cls.__name__} encodes differently", value=want)
    part, rest = cls.decode(got + tail, leftovers=True, **kw)
    ctx.check_that(back(part) == want and part == obj, "decode-leftovers", "value differs when data follows", value=want, tail=tail)
    ctx.check_that(bytes(rest) == tail and len(rest) == len(tail), "leftovers", "wrong leftovers", value=want, tail=tail, got=bytes(rest))
    pre = rng.randbytes(rng.choice([1, 5]))
    view = subbytes(pre + got + tail, len(pre), len(pre) + len(got))
    ctx.check_that(back(cls.decode(view, **kw)) == want, "decode-view", "value differs when decoded inside a larger buffer", value=want)
    part, rest = cls.decode(subbytes(pre + got + tail, len(pre)), leftovers=True, **kw)
    ctx.check_that(back(part) == want and bytes(rest) == tail, "decode-view-leftovers", "value or leftovers differ inside a larger buffer", value=want)
    part, rest = cls.decode(got + tail, leftovers=True, copy=False, **kw)
    ctx.check_that(back(part) == want and bytes(rest) == tail, "decode-nocopy", "value differs without copying", value=want)
    ctx.count("roundtrips")

def smi(ctx, rng, i):
    for _ in range(40):
        v = G.value(rng)
        if v[0] == "oid":
            ctx.count("oid-values")
        roundtrip(ctx, rng, G.to_lib(v), G.cls_of(v[0]), R.enc_value(v), G.from_lib, v)
    ctx.sample(dict(value=repr(v)[:200], encoding=R.enc_value(v).hex()[:200]))

def edges(ctx, rng, i):
    """Every boundary integer of each type; every first-arc pair; every boundary length."""
    for kind, (lo, hi) in R.RANGE.items():
        for n in G.EDGES:
            if lo <= n <= hi:
                v = (kind, n)
                roundtrip(ctx, rng, G.to_lib(v), G.cls_of(kind), R.enc_value(v), G.from_lib, v)
            elif kind in R.RANGE:
                try:
                    G.to_lib((kind, n))
                except ValueError:
                    ctx.count("out-of-range-refused")
                else:
                    ctx.fail("range", "a value out of range was accepted by the constructor", value=(kind, n))
    for a in range(3):
        for b in range(40):
            for more in ((), (0,), (127, 128), (2**32 - 1,)):
                v = ("oid", (a, b) + more)
                roundtrip(ctx, rng, G.to_lib(v), G.cls_of("oid"), R.enc_value(v), G.from_lib, v)
    for k in range(33):
        for d in (-1, 0, 1):
            a = (1 << k) + d
            if 0 <= a < 2**32:
                v = ("oid", (1, 3, a, 5, a))
                roundtrip(ctx, rng, G.to_lib(v), G.cls_of("oid"), R.enc_value(v), G.from_lib, v)
    for n in list(range(0, 300)) + [511, 512, 16383, 16384, 32767, 32768, 65279, 65280, 65534, 65535]:
        v = ("str", rng.randbytes(n))
        roundtrip(ctx, rng, G.to_lib(v), G.cls_of("str"), R.enc_value(v), G.from_lib, v)
    for n in (65536, 70000, 1 << 17):
        v = ("opaque", rng.randbytes(n))
        roundtrip(ctx, rng, G.to_lib(v), G.cls_of("opaque"), R.enc_value(v), G.from_lib, v)
    for n in (2, 3, 126, 127, 128):
        v = ("oid", (1, 3) + (2**32 - 1,) * (n - 2))
        roundtrip(ctx, rng, G.to_lib(v), G.cls_of("oid"), R.enc_value(v), G.from_lib, v)

def pdus(ctx, rng, i):
    for _ in range(12):
        p = G.pdu(rng)
        roundtrip(ctx, rng, G.pdu_to_lib(p), TYPES[p[0]], R.enc_pdu(*p), G.pdu_from_lib, p)
    vb = G.varbind(rng)
    roundtrip(ctx, rng, G.vb_to_lib(vb), snmp.pdu.VarBind, R.enc_varbind(vb), G.vb_from_lib, vb)
    vbs = G.vblist(rng, 40)
    roundtrip(ctx, rng, snmp.pdu.VarBindList(*[G.vb_to_lib(v) for v in vbs]), snmp.pdu.VarBindList,
              R.enc_vblist(vbs), G.vbs_from_lib, vbs)
    ctx.sample(repr(p)[:300])

def community(ctx, rng, i):
    for _ in range(8):
        p = G.pdu(rng, most=12)
        ver = rng.choice([0, 1])
        c = G.blob(rng)
        m = Message(ProtocolVersion(ver), c, G.pdu_to_lib(p))
        roundtrip(ctx, rng, m, Message, R.enc_community(ver, c, R.enc_pdu(*p)),
                  lambda m: (int(m.version), bytes(m.community), G.pdu_from_lib(m.pdu)), (ver, c, p), types=V12)
        ctx.count("community-messages")

def v3(ctx, rng, i):
    for _ in range(6):
        p = G.pdu(rng, most=12)
        eid, cname = G.blob(rng, 64), G.blob(rng, 64)
        level = rng.randrange(3)
        rep = rng.random() < .5
        fl = (1 if level else 0) | (2 if level == 2 else 0) | (4 if rep else 0)
        flags = MessageFlags(SecurityLevel(level > 0, level == 2), rep)
        roundtrip(ctx, rng, flags, MessageFlags, R.enc_str(bytes([fl])),
                  lambda f: (f.authFlag, f.privFlag, f.reportableFlag), (level > 0, level == 2, rep))
        mid, size = G.nat31(rng), G.integer(rng, 484, 2**31 - 1)
        head = HeaderData(mid, size, flags, SecurityModel.USM)
        hback = lambda h: (h.id, h.maxSize, h.flags.authFlag, h.flags.privFlag, h.flags.reportableFlag, int(h.securityModel))
        hwant = (mid, size, level > 0, level == 2, rep, 3)
        roundtrip(ctx, rng, head, HeaderData, R.seq(R.enc_int(mid), R.enc_int(size), R.enc_str(bytes([fl])), R.enc_int(3)), hback, hwant)
        scoped = ScopedPDU(G.pdu_to_lib(p), eid, contextName=cname)
        rs = R.enc_scoped(eid, cname, R.enc_pdu(*p))
        sback = lambda s: (bytes(s.contextEngineID), bytes(s.contextName), G.pdu_from_lib(s.pdu))
        roundtrip(ctx, rng, scoped, ScopedPDU, rs, sback, (eid, cname, p), types=v3types)
        boots, time = G.nat31(rng), G.nat31(rng)
        user, sig, salt = G.blob(rng, 64), rng.randbytes(rng.choice([0, 12, 16, 24, 32, 48])), rng.randbytes(rng.choice([0, 8]))
        usm = UsmSecurityParameters(eid, boots, time, user, sig, salt)
        ru = R.enc_usm(eid, boots, time, user, sig, salt)
        uback = lambda u: (bytes(u.engineID), u.engineBoots, u.engineTime, bytes(u.userName), bytes(u.signature), bytes(u.salt))
        roundtrip(ctx, rng, usm, UsmSecurityParameters, ru, uback, (eid, boots, time, user, sig, salt))
        sp = snmp.smi.OctetString(ru)
        cipher = G.blob(rng)
        if level == 2:
            msg = SNMPv3Message(head, encryptedPDU=snmp.smi.OctetString(cipher), securityParameters=sp)
            data = R.enc_str(cipher)
            mback = lambda m: (hback(m.header), bytes(m.securityParameters.data), bytes(m.encryptedPDU.data), m.scopedPDU)
            mwant = (hwant, ru, cipher, None)
        else:
            msg = SNMPv3Message(head, scopedPDU=scoped, securityParameters=sp)
            data = rs
            mback = lambda m: (hback(m.header), bytes(m.securityParameters.data), sback(m.scopedPDU), m.encryptedPDU)
            mwant = (hwant, ru, (eid, cname, p), None)
        whole = R.enc_v3(mid, size, fl, 3, ru, data)
        roundtrip(ctx, rng, msg, SNMPv3Message, whole, mback, mwant)
        # the digest field is found where the reference finds it
        loc = UsmSecurityParameters.findSignature(SNMPv3Message.findSecurityParameters(whole))
        start, n = R.v3_sig_offset(whole)
        new = rng.randbytes(n)
        ctx.check_that(loc.replace(new) == whole[:start] + new + whole[start + n:], "signature-location",
                       "the digest field is not where it is encoded", data=whole.hex())
        ctx.count("v3-messages")
    ctx.sample(whole.hex()[:300])

def tags(ctx, rng, i):
    for _ in range(60):
        num = rng.choice([rng.randrange(0, 31), rng.randrange(31, 400), rng.getrandbits(rng.randrange(1, 29))])
        cls, con = rng.randrange(4), rng.random() < .5
        head = bytes([cls << 6 | (0x20 if con else 0) | min(num, 31)])
        if num >= 31:
            head += R.base128(num)
        body = G.blob(rng) if rng.random() < .9 else rng.randbytes(rng.choice([65535, 65536, 70000]))
        T = snmp.ber.Tag
        tag = T(num, con, T.Class(cls))
        e = snmp.ber.encode(tag, body)
        ctx.check_that(e == R.tlv(head, body), "tlv", "tag-length-value encoding differs", tag=repr(tag), got=e.hex()[:80])
        t, b = snmp.ber.decode(e)
        ctx.check_that(t == tag and b == body and hash(t) == hash(tag), "tlv-decode", "decoding a TLV does not give it back", tag=repr(tag))
        ctx.check_that(snmp.ber.decode(e, tag) == body, "tlv-expected", "decoding with the expected tag fails", tag=repr(tag))
        ctx.distinct(head, len(body))
        ctx.count("tlvs")

GROUPS = [Group("edges", edges, 4, 8), Group("smi", smi, 1200, 30000), Group("pdus", pdus, 900, 20000),
          Group("community", community, 700, 14000), Group("v3", v3, 450, 9000), Group("tags", tags, 300, 4000)]
