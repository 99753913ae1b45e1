"""C02: decoders on arbitrary bytes: reference reading or clean rejection."""
from vlib.core import Group
from vlib import gen as G, ref_ber as R
import snmp.ber, snmp.smi, snmp.pdu
from snmp.exception import IncomingMessageError
from snmp.utils import subbytes
from snmp.message import Message, VersionOnlyMessage
from snmp.message.v3 import HeaderData, MessageFlags, ScopedPDU, SNMPv3Message, pduTypes
from snmp.security.usm.parameters import UsmSecurityParameters

def value_target(kind):
    c = G.cls_of(kind)
    return (kind, lambda d: G.from_lib(c.decode(d)), lambda d: R.dec_value_body(kind, R.whole(d, R.TAGS[kind])),
            lambda rng: R.enc_value(G.value(rng, [kind], 140)))

def pdu_target(kind):
    c = G.cls_of(kind)
    return (kind, lambda d: G.pdu_from_lib(c.decode(d)),
            lambda d: R.check_pdu(R.dec_pdu_body(kind, R.whole(d, R.PDUS[kind]))),
            lambda rng: R.enc_pdu(*G.pdu(rng, [kind])))

def ref_message(d):
    v, c, p = R.dec_community(d)
    if v not in (0, 1):
        raise R.Malformed("version")
    return (v, c, R.check_pdu(p))

def ref_flags(b):
    if not b:
        raise R.Malformed("flags")
    if b[0] & 3 == 2:
        raise R.Malformed("privacy without authentication")
    return (bool(b[0] & 1), bool(b[0] & 2), bool(b[0] & 4))

def ref_header_body(b):
    a, i = R.want(b, 0, 2)
    s, i = R.want(b, i, 2)
    f, i = R.want(b, i, 4)
    m, i = R.want(b, i, 2)
    if i != len(b):
        raise R.Malformed("trailing")
    mid, size, model = R.dec_int_body(a), R.dec_int_body(s), R.dec_int_body(m)
    if mid < 0 or size < 484 or model != 3:
        raise R.Malformed("header range")
    return (mid, size, ref_flags(f), model)

def lib_header(h):
    return (h.id, h.maxSize, (h.flags.authFlag, h.flags.privFlag, h.flags.reportableFlag), int(h.securityModel))

def ref_scoped(d):
    e, c, p = R.dec_scoped(d)
    if len(e) > 65535 or len(c) > 65535:
        raise R.Malformed("string")
    return (e, c, R.check_pdu(p))

def lib_scoped(s):
    return (bytes(s.contextEngineID), bytes(s.contextName), G.pdu_from_lib(s.pdu))

def ref_v3(d):
    b = R.whole(d, 0x30)
    v, i = R.want(b, 0, 2)
    if R.dec_int_body(v) != 3:
        raise R.Malformed("version")
    h, i = R.want(b, i, 0x30)
    sp, i = R.want(b, i, 4)
    head = ref_header_body(h)
    if head[2][1]:
        return (head, sp, "cipher", R.whole(b[i:], 4))
    return (head, sp, "plain", ref_scoped(b[i:]))

def lib_v3(d):
    m = SNMPv3Message.decode(d)
    if m.header.flags.privFlag:
        return (lib_header(m.header), bytes(m.securityParameters.data), "cipher", bytes(m.encryptedPDU.data))
    return (lib_header(m.header), bytes(m.securityParameters.data), "plain", lib_scoped(m.scopedPDU))

def ref_usm(d):
    u = R.dec_usm(d)
    if u["boots"] < 0 or u["time"] < 0:
        raise R.Malformed("negative")
    return u

def lib_usm(d):
    u = UsmSecurityParameters.decode(d)
    return dict(engine=bytes(u.engineID), boots=u.engineBoots, time=u.engineTime, user=bytes(u.userName),
                sig=bytes(u.signature), salt=bytes(u.salt))

def ref_version(d):
    b = R.whole(d, 0x30)
    v, _ = R.want(b, 0, 2)
    n = R.dec_int_body(v)
    if n not in (0, 1, 3):
        raise R.Malformed("version")
    return n

def gen_v3(rng):
    level = rng.randrange(3)
    fl = (0, 1, 3)[level] | rng.choice([0, 4])
    sp = R.enc_usm(G.blob(rng, 32), G.nat31(rng), G.nat31(rng), G.blob(rng, 32), rng.randbytes(12 if level else 0), rng.randbytes(8 if level > 1 else 0))
    data = R.enc_str(rng.randbytes(24)) if level == 2 else R.enc_scoped(G.blob(rng, 20), b"", R.enc_pdu(*G.pdu(rng, most=3)))
    return R.enc_v3(G.nat31(rng), G.integer(rng, 484, 2**31 - 1), fl, 3, sp, data)

TARGETS = [value_target(k) for k in G.KINDS] + [pdu_target(k) for k in R.PDUS] + [
    ("varbind", lambda d: G.vb_from_lib(snmp.pdu.VarBind.decode(d)), lambda d: R.dec_varbind_body(R.whole(d, 0x30)),
     lambda rng: R.enc_varbind(G.varbind(rng))),
    ("vblist", lambda d: G.vbs_from_lib(snmp.pdu.VarBindList.decode(d)), lambda d: R.dec_vblist_body(R.whole(d, 0x30)),
     lambda rng: R.enc_vblist(G.vblist(rng))),
    ("message", lambda d: (lambda m: (int(m.version), bytes(m.community), G.pdu_from_lib(m.pdu)))(Message.decode(d, types=pduTypes)),
     ref_message, lambda rng: R.enc_community(rng.choice([0, 1]), G.blob(rng, 40), R.enc_pdu(*G.pdu(rng)))),
    ("flags", lambda d: (lambda f: (f.authFlag, f.privFlag, f.reportableFlag))(MessageFlags.decode(d)),
     lambda d: ref_flags(R.whole(d, 4)), lambda rng: R.enc_str(bytes([rng.choice([0, 1, 3, 4, 5, 7])]))),
    ("header", lambda d: lib_header(HeaderData.decode(d)), lambda d: ref_header_body(R.whole(d, 0x30)),
     lambda rng: R.seq(R.enc_int(G.nat31(rng)), R.enc_int(G.integer(rng, 484, 2**31 - 1)), R.enc_str(bytes([rng.choice([0, 1, 3, 4, 5, 7])])), R.enc_int(3))),
    ("scoped", lambda d: lib_scoped(ScopedPDU.decode(d, types=pduTypes)), ref_scoped,
     lambda rng: R.enc_scoped(G.blob(rng, 30), G.blob(rng, 30), R.enc_pdu(*G.pdu(rng, most=3)))),
    ("usm", lib_usm, ref_usm, lambda rng: R.enc_usm(G.blob(rng, 32), G.nat31(rng), G.nat31(rng), G.blob(rng, 32), rng.randbytes(12), rng.randbytes(8))),
    ("v3", lib_v3, ref_v3, gen_v3),
    ("version", lambda d: int(VersionOnlyMessage.decode(d).version), ref_version,
     lambda rng: R.seq(R.enc_int(rng.choice([0, 1, 3])), rng.randbytes(4))),
]
BYNAME = {t[0]: t for t in TARGETS}

def one(ctx, target, data):
    name, lib, ref, _ = target
    ctx.count("decodes")
    try:
        got = lib(data)
    except IncomingMessageError:
        ctx.count("rejected")
        return False
    except Exception as e:
        ctx.fail("foreign-exception:" + type(e).__name__, f"decoding as {name} raised {type(e).__name__}: {e}", data=bytes(data).hex())
    try:
        want = ref(bytes(data))
    except R.Malformed as m:
        ctx.fail("accepted-malformed", f"{name} accepted bytes that are malformed: {m}", data=bytes(data).hex(), got=got)
    ctx.check_that(got == want, "wrong-value", f"{name} decoded to another value than the bytes encode",
                   data=bytes(data).hex(), got=got, reference=want)
    ctx.count("accepted")
    ctx.distinct(name, bytes(data))
    return True

def relength(b):
    """The same TLV content with a redundant long-form length."""
    n = len(b).to_bytes(3, "big")
    return bytes([0x83]) + n + b

def tree(d, depth=0):
    """Parse into a tree of [tag byte, children or bytes] as far as possible."""
    out, i = [], 0
    while i < len(d):
        t, body, j = R.read_tlv(d, i)
        con = d[i] & 0x20 or (d[i] == 4 and body[:1] == b"\x30" and depth < 3)
        kids = None
        if con and depth < 8:
            try:
                kids = tree(body, depth + 1)
            except R.Malformed:
                kids = None
        out.append([d[i], kids if kids is not None else body])
        i = j
    return out

def flat(nodes, rng=None, bad=0.0):
    out = b""
    for t, c in nodes:
        body = flat(c, rng, bad) if isinstance(c, list) else c
        m = rng.random() if rng and bad else 1
        if m < bad * .5:
            out += bytes([t]) + relength(body)
        elif m < bad * .75:
            out += bytes([t]) + R.length(max(0, len(body) + rng.choice([-2, -1, 1, 2, 127, 5000]))) + body
        elif m < bad:
            out += bytes([t, 0x80]) + body + b"\0\0"
        else:
            out += R.tlv(t, body)
    return out

def allnodes(nodes):
    for n in nodes:
        yield nodes, n
        if isinstance(n[1], list):
            yield from allnodes(n[1])

TAGPOOL = list(R.TAGS.values()) + list(R.PDUS.values()) + [0x30, 0x1f, 0xa4, 0x24, 0x07, 0x45, 0x47, 0x83]

def mutate_tree(rng, d):
    nodes = tree(d)
    for _ in range(rng.choice([1, 1, 2, 3])):
        pairs = list(allnodes(nodes))
        if not pairs:
            break
        parent, node = rng.choice(pairs)
        op = rng.randrange(9)
        k = next(i for i, n in enumerate(parent) if n is node)
        if op == 0:
            del parent[k]
        elif op == 1:
            parent.insert(k, [node[0], node[1]])
        elif op == 2:
            node[0] = rng.choice(TAGPOOL)
        elif op == 3:
            parent.insert(rng.randrange(len(parent) + 1), [rng.choice(TAGPOOL), rng.randbytes(rng.randrange(0, 6))])
        elif op == 4 and not isinstance(node[1], list):
            node[1] = rng.choice([b"", rng.randbytes(rng.randrange(0, 12)), b"\x80", b"\xff" * 5, b"\x7f\xff\xff\xff", b"\x80\0\0\0",
                                  b"\0\x80\0\0\0", b"\xff\x7f\xff\xff\xff", b"\0" + node[1], node[1] + b"\x80", node[1] + b"\x81", b"\0" * 9])
        elif op == 5 and len(parent) > 1:
            j = rng.randrange(len(parent))
            parent[k], parent[j] = parent[j], parent[k]
        elif op == 6:
            parent[k] = [rng.choice([0x30, 0xa2, 0xa8, 4]), [node]]
        elif op == 7:
            node[1] = flat(node[1]) if isinstance(node[1], list) else node[1][:-1]
        else:
            node[1] = (flat(node[1]) if isinstance(node[1], list) else node[1]) + rng.randbytes(rng.choice([1, 2]))
    return flat(nodes, rng, rng.choice([0, 0, .1, .3]))

def truncations(ctx, rng, i):
    """Every strict prefix of a valid encoding is refused, for every type."""
    target = TARGETS[i % len(TARGETS)]
    d = target[3](rng)
    ctx.check_that(one(ctx, target, d), "refused-valid", f"a valid {target[0]} was refused", data=d.hex())
    cuts = range(len(d)) if len(d) < 400 else sorted(rng.sample(range(len(d)), 400))
    for n in cuts:
        ctx.check_that(not one(ctx, target, d[:n]), "truncated-accepted", "a truncated encoding was accepted", data=d[:n].hex(), of=d.hex())
        ctx.count("truncations")
    for extra in (b"\0", b"\5\0", rng.randbytes(3)):
        ctx.check_that(not one(ctx, target, d + extra), "trailing-accepted", "trailing bytes were accepted", data=(d + extra).hex())

def bytesweep(ctx, rng, i):
    """Every value of single bytes of a valid encoding."""
    target = TARGETS[i % len(TARGETS)]
    d = target[3](rng)
    pos = range(len(d)) if len(d) <= 24 else sorted(set(range(10)) | set(rng.sample(range(len(d)), 14)))
    for p in pos:
        for b in range(256) if len(d) < 120 else rng.sample(range(256), 48):
            if d[p] != b:
                one(ctx, target, d[:p] + bytes([b]) + d[p + 1:])
                ctx.count("byte-substitutions")

def trees(ctx, rng, i):
    for _ in range(60):
        target = rng.choice(TARGETS)
        d = mutate_tree(rng, target[3](rng))
        one(ctx, target, d)
        ctx.count("tree-mutations")
        if rng.random() < .2:
            one(ctx, rng.choice(TARGETS), d)
        if rng.random() < .2:
            pre = rng.randbytes(3)
            one(ctx, target, subbytes(pre + d + rng.randbytes(2), 3, 3 + len(d)))
            ctx.count("decodes-of-views")
    ctx.sample(dict(type=target[0], data=d.hex()[:200]))

def garbage(ctx, rng, i):
    for _ in range(60):
        target = rng.choice(TARGETS)
        m = rng.random()
        if m < .3:
            d = rng.randbytes(rng.randrange(0, 40))
        elif m < .6:
            d = bytes([rng.choice(TAGPOOL)]) + (lambda b: R.length(len(b)) + b)(rng.randbytes(rng.randrange(0, 40)))
        else:
            d = bytearray(target[3](rng))
            for _ in range(rng.randrange(1, 5)):
                if d:
                    d[rng.randrange(len(d))] = rng.choice([0, 1, 0x7f, 0x80, 0x81, 0x82, 0xff, rng.randrange(256)])
            d = bytes(d)
        one(ctx, target, d)

def outofrange(ctx, rng, i):
    """Values just outside the range of each type, encoded correctly, are refused."""
    cases = []
    for kind, (lo, hi) in R.RANGE.items():
        for n in (lo - 1, hi + 1, lo - 2**40, hi + 2**70, lo - rng.getrandbits(20) - 1, hi + rng.getrandbits(20) + 1):
            cases.append((kind, R.tlv(R.TAGS[kind], R.int_body(n))))
    cases.append(("str", R.enc_str(bytes(65536))))
    cases += [("ip", R.tlv(0x40, rng.randbytes(n))) for n in (0, 1, 3, 5, 8)]
    cases.append(("oid", R.tlv(6, b"\x2b" + b"\x01" * 127)))
    cases.append(("oid", R.tlv(6, b"\x2b" + R.base128(2**32))))
    cases.append(("oid", R.tlv(6, b"\x2b" + R.base128(2**32 + rng.getrandbits(31)))))
    cases.append(("oid", R.tlv(6, b"")))
    for tail in (b"\x80", b"\x81", b"\x05\x80\x80", b"\x83\x80"):
        cases.append(("oid", R.tlv(6, b"\x2b" + tail)))
    for s in (-1, 19, 20, 255, 2**31 - 1, -2**31):
        cases.append(("response", R.enc_pdu("response", 1, s, 0, [])))
    cases += [("response", R.enc_pdu("response", 1, 5, x, [((1, 3), ("null",))])) for x in (-1, 2, 2**31 - 1, -2**31)]
    cases += [("response", R.enc_pdu("response", 1, 0, 2, [((1, 3), ("null",))]))]
    cases += [("getbulk", R.enc_pdu("getbulk", 1, a, b, [])) for a, b in ((-1, 0), (0, -1), (-2**31, 5))]
    ok = dict(msgid=5, maxsize=484, flags=0, model=3)
    for ch in (dict(msgid=-1), dict(msgid=2**31), dict(maxsize=483), dict(maxsize=0), dict(maxsize=-1), dict(maxsize=2**31),
               dict(flags=2), dict(flags=6), dict(model=0), dict(model=1), dict(model=2), dict(model=4), dict(model=-3)):
        h = dict(ok, **ch)
        cases.append(("header", R.seq(R.enc_int(h["msgid"]), R.enc_int(h["maxsize"]), R.enc_str(bytes([h["flags"]])), R.enc_int(h["model"]))))
    cases.append(("flags", R.enc_str(b"")))
    for b, t in ((-1, 0), (0, -1), (2**31, 0), (0, 2**31), (-2**31, -2**31)):
        cases.append(("usm", R.enc_usm(b"e", b, t, b"u", b"", b"")))
    for v in (2, 4, -1, 256, 2**31 - 1):
        cases.append(("message", R.enc_community(v, b"c", R.enc_pdu("get", 1, 0, 0, []))))
        cases.append(("version", R.seq(R.enc_int(v))))
    cases.append(("message", R.enc_community(3, b"c", R.enc_pdu("get", 1, 0, 0, []))))
    cases.append(("message", R.enc_community(1, bytes(65536), R.enc_pdu("get", 1, 0, 0, []))))
    for name, d in cases:
        ctx.check_that(not one(ctx, BYNAME[name], d), "out-of-range-accepted", f"an out-of-range {name} was accepted", data=d.hex()[:400])
        ctx.count("out-of-range")

GROUPS = [Group("truncations", truncations, 900, 20000), Group("bytesweep", bytesweep, 240, 5000), Group("trees", trees, 1200, 40000),
          Group("garbage", garbage, 800, 30000), Group("outofrange", outofrange, 8, 64)]
