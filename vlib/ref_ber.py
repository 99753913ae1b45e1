"""An independent BER/SNMP codec.  It shares no code with the library.

Values are plain tuples: ("int", n) ("str", b) ("null",) ("oid", arcs)
("ip", b4) ("c32", n) ("g32", n) ("tt", n) ("opaque", b) ("c64", n)
("nso",) ("nsi",) ("eomv",).
"""

class Malformed(Exception):
    pass

TAGS = {"int": 0x02, "str": 0x04, "null": 0x05, "oid": 0x06, "ip": 0x40,
        "c32": 0x41, "g32": 0x42, "tt": 0x43, "opaque": 0x44, "c64": 0x46,
        "nso": 0x80, "nsi": 0x81, "eomv": 0x82}
NAMES = {v: k for k, v in TAGS.items()}
RANGE = {"int": (-2**31, 2**31 - 1), "c32": (0, 2**32 - 1),
         "g32": (0, 2**32 - 1), "tt": (0, 2**32 - 1), "c64": (0, 2**64 - 1)}
PDUS = {"get": 0xa0, "getnext": 0xa1, "response": 0xa2, "set": 0xa3,
        "getbulk": 0xa5, "inform": 0xa6, "trap2": 0xa7, "report": 0xa8}
PDUNAMES = {v: k for k, v in PDUS.items()}

# ---------------------------------------------------------------- encoding

def length(n):
    if n < 128:
        return bytes([n])
    s = b""
    while n:
        s = bytes([n & 255]) + s
        n >>= 8
    return bytes([0x80 + len(s)]) + s

def tlv(tag, body):
    head = bytes([tag]) if isinstance(tag, int) else tag
    return head + length(len(body)) + body

def int_body(n):
    size = 1
    while not -(1 << (8 * size - 1)) <= n < (1 << (8 * size - 1)):
        size += 1
    return (n % (1 << (8 * size))).to_bytes(size, "big")

def base128(n):
    groups = [n % 128]
    n //= 128
    while n:
        groups.insert(0, 128 + n % 128)
        n //= 128
    return bytes(groups)

def oid_body(arcs):
    arcs = tuple(arcs)
    first = arcs[0] if arcs else 0
    second = arcs[1] if len(arcs) > 1 else 0
    return base128(40 * first + second) + b"".join(base128(a) for a in arcs[2:])

def enc_int(n):
    return tlv(0x02, int_body(n))

def enc_str(b):
    return tlv(0x04, bytes(b))

def enc_oid(arcs):
    return tlv(0x06, oid_body(arcs))

def seq(*parts):
    return tlv(0x30, b"".join(parts))

def enc_value(v):
    kind = v[0]
    if kind in RANGE:
        return tlv(TAGS[kind], int_body(v[1]))
    if kind in ("str", "ip", "opaque"):
        return tlv(TAGS[kind], v[1])
    if kind == "oid":
        return tlv(6, oid_body(v[1]))
    return tlv(TAGS[kind], b"")

def enc_varbind(vb):
    return seq(enc_oid(vb[0]), enc_value(vb[1]))

def enc_vblist(vbs):
    return seq(*[enc_varbind(v) for v in vbs])

def enc_pdu(kind, reqid, a, b, vbs):
    return tlv(PDUS[kind], enc_int(reqid) + enc_int(a) + enc_int(b) + enc_vblist(vbs))

def enc_community(version, community, pdu):
    return seq(enc_int(version), enc_str(community), pdu)

def enc_scoped(ceid, cname, pdu):
    return seq(enc_str(ceid), enc_str(cname), pdu)

def enc_usm(eid, boots, time, user, sig, salt):
    return seq(enc_str(eid), enc_int(boots), enc_int(time), enc_str(user), enc_str(sig), enc_str(salt))

def enc_v3(msgid, maxsize, flags, secmodel, secparams, data):
    """data is the encoded scoped PDU, or the encoded string of ciphertext"""
    return seq(enc_int(3),
               seq(enc_int(msgid), enc_int(maxsize), enc_str(bytes([flags])), enc_int(secmodel)),
               enc_str(secparams), data)

# ---------------------------------------------------------------- decoding
# Lenient where BER is (long-form lengths, padded integers), strict about
# structure: containment, completeness, tags, ranges, trailing bytes.

def read_tag(d, i):
    if i >= len(d):
        raise Malformed("no tag")
    b = d[i]
    i += 1
    if b & 0x1f != 0x1f:
        return (b >> 6, bool(b & 0x20), b & 0x1f), i
    n = 0
    while True:
        if i >= len(d):
            raise Malformed("cut tag")
        c = d[i]
        i += 1
        n = n * 128 + (c & 127)
        if c < 128:
            return (b >> 6, bool(b & 0x20), n), i

def read_len(d, i):
    if i >= len(d):
        raise Malformed("no length")
    b = d[i]
    i += 1
    if b < 128:
        return b, i
    n = 0
    for _ in range(b - 128):
        if i >= len(d):
            raise Malformed("cut length")
        n = n * 256 + d[i]
        i += 1
    return n, i

def read_tlv(d, i=0):
    """-> tag triple, body, next index"""
    tag, i = read_tag(d, i)
    n, i = read_len(d, i)
    if i + n > len(d):
        raise Malformed("cut body")
    return tag, bytes(d[i:i + n]), i + n

def triple(tag):
    return (tag >> 6, bool(tag & 0x20), tag & 0x1f)

def want(d, i, tag):
    t, body, i = read_tlv(d, i)
    if t != triple(tag):
        raise Malformed(f"tag {t}, not {tag:#x}")
    return body, i

def whole(d, tag):
    body, i = want(d, 0, tag)
    if i != len(d):
        raise Malformed("trailing bytes")
    return body

def dec_int_body(b, lo=-2**31, hi=2**31 - 1):
    n = int.from_bytes(b, "big", signed=True)
    if not lo <= n <= hi:
        raise Malformed("range")
    return n

def dec_oid_body(b, maxlen=128, maxarc=2**32 - 1):
    if not b:
        raise Malformed("empty oid")
    first = b[0]
    if first >= 120:
        raise Malformed("first arc")
    arcs = [first // 40, first % 40]
    n, open_ = 0, False
    for c in b[1:]:
        n = n * 128 + (c & 127)
        open_ = c >= 128
        if not open_:
            arcs.append(n)
            n = 0
    if open_:
        raise Malformed("cut arc")
    if maxlen is not None and len(arcs) > maxlen:
        raise Malformed("too many arcs")
    if maxarc is not None and any(a > maxarc for a in arcs):
        raise Malformed("arc range")
    return tuple(arcs)

def dec_value_body(kind, b):
    if kind in RANGE:
        return (kind, dec_int_body(b, *RANGE[kind]))
    if kind == "str":
        if len(b) > 65535:
            raise Malformed("string length")
        return (kind, b)
    if kind == "opaque":
        return (kind, b)
    if kind == "ip":
        if len(b) != 4:
            raise Malformed("ip length")
        return (kind, b)
    if kind == "oid":
        return (kind, dec_oid_body(b))
    return (kind,)

KINDS = {triple(v): k for k, v in TAGS.items()}

def dec_varbind_body(b):
    name, i = want(b, 0, 6)
    t, body, i = read_tlv(b, i)
    if i != len(b):
        raise Malformed("trailing bytes in varbind")
    if t not in KINDS:
        raise Malformed("value type")
    return (dec_oid_body(name), dec_value_body(KINDS[t], body))

def dec_vblist_body(b):
    out, i = [], 0
    while i < len(b):
        body, i = want(b, i, 0x30)
        out.append(dec_varbind_body(body))
    return out

def dec_pdu(d, i=0):
    t, body, i = read_tlv(d, i)
    kinds = {triple(v): k for k, v in PDUS.items()}
    if t not in kinds:
        raise Malformed("pdu type")
    return dec_pdu_body(kinds[t], body), i

def dec_pdu_body(kind, body):
    b, j = want(body, 0, 2)
    reqid = dec_int_body(b)
    b, j = want(body, j, 2)
    x = dec_int_body(b)
    b, j = want(body, j, 2)
    y = dec_int_body(b)
    vbs, j = want(body, j, 0x30)
    if j != len(body):
        raise Malformed("trailing bytes in pdu")
    return (kind, reqid, x, y, dec_vblist_body(vbs))

def check_pdu(pdu):
    """Field rules that the standards put on top of the syntax."""
    kind, reqid, x, y, vbs = pdu
    if kind == "getbulk":
        if x < 0 or y < 0:
            raise Malformed("negative bulk parameter")
    else:
        if not 0 <= x <= 18:
            raise Malformed("error status")
        if y > len(vbs) or (x and y < 0):
            raise Malformed("error index")
    return pdu

def dec_community(d):
    b = whole(d, 0x30)
    v, i = want(b, 0, 2)
    c, i = want(b, i, 4)
    pdu, i = dec_pdu(b, i)
    if i != len(b):
        raise Malformed("trailing bytes in message")
    return dec_int_body(v), c, pdu

def dec_scoped(d, trailing=False):
    b, i = want(d, 0, 0x30)
    if i != len(d) and not trailing:
        raise Malformed("trailing bytes")
    ceid, i = want(b, 0, 4)
    cname, i = want(b, i, 4)
    pdu, i = dec_pdu(b, i)
    if i != len(b):
        raise Malformed("trailing bytes in scoped pdu")
    return ceid, cname, pdu

def dec_usm(d):
    b = whole(d, 0x30)
    eid, i = want(b, 0, 4)
    boots, i = want(b, i, 2)
    time, i = want(b, i, 2)
    user, i = want(b, i, 4)
    sig, i = want(b, i, 4)
    salt, i = want(b, i, 4)
    if i != len(b):
        raise Malformed("trailing bytes in security parameters")
    return dict(engine=eid, boots=dec_int_body(boots), time=dec_int_body(time),
                user=user, sig=sig, salt=salt)

def dec_v3(d):
    b = whole(d, 0x30)
    v, i = want(b, 0, 2)
    h, i = want(b, i, 0x30)
    sp, i = want(b, i, 4)
    rest = b[i:]
    msgid, j = want(h, 0, 2)
    size, j = want(h, j, 2)
    flags, j = want(h, j, 4)
    model, j = want(h, j, 2)
    if j != len(h):
        raise Malformed("trailing bytes in header")
    out = dict(version=dec_int_body(v), msgid=dec_int_body(msgid), maxsize=dec_int_body(size),
               flags=flags, model=dec_int_body(model), sp=sp, rest=rest)
    if not flags:
        raise Malformed("empty flags")
    if flags[0] & 2:
        out["cipher"] = whole(rest, 4)
    else:
        out["scoped"] = dec_scoped(rest)
    return out

def v3_sig_offset(d):
    """Offset and length of the digest in a whole message (found by walking it)."""
    def inner(i, end_tag=None):
        _, j = read_tag(d, i)
        n, j = read_len(d, j)
        return j, j + n
    p, _ = inner(0)
    _, p = inner(p)             # version
    _, p = inner(p)             # header
    p, _ = inner(p)             # into the security parameters string
    p, _ = inner(p)             # into the sequence
    _, p = inner(p)             # engine
    _, p = inner(p)             # boots
    _, p = inner(p)             # time
    _, p = inner(p)             # user
    s, e = inner(p)
    return s, e - s

def peek_version(d):
    b, _ = want(d, 0, 0x30)
    v, _ = want(b, 0, 2)
    return dec_int_body(v)
