"""Generators of values, and conversion between reference tuples and library objects."""
from . import ref_ber as R

EDGES = sorted({s * (1 << k) + d for k in (0, 1, 6, 7, 8, 14, 15, 16, 22, 23, 24, 30, 31, 32, 33, 39, 40, 47, 48, 55, 56, 62, 63, 64)
                for s in (1, -1) for d in (-2, -1, 0, 1, 2)} | {0})

def integer(rng, lo, hi):
    m = rng.random()
    if m < 0.45:
        c = [e for e in EDGES if lo <= e <= hi]
        return rng.choice(c)
    if m < 0.7:
        bits = rng.randrange(1, max(2, hi.bit_length() + 1))
        n = rng.getrandbits(bits) * rng.choice([1, 1, -1])
        return min(max(n, lo), hi)
    if m < 0.8:
        return rng.choice([lo, hi])
    return rng.randint(lo, hi)

LENS = [0, 1, 2, 3, 7, 8, 9, 15, 16, 17, 63, 64, 100, 119, 120, 121, 126, 127, 128, 129, 130, 200, 253, 254, 255, 256, 257, 300, 1000]

def blob(rng, maxlen=300):
    m = rng.random()
    n = rng.choice([l for l in LENS if l <= maxlen]) if m < 0.35 else rng.randrange(0, min(maxlen, 24) + 1)
    return rng.randbytes(n)

def arc(rng, top=2**32 - 1):
    m = rng.random()
    if m < 0.4:
        return min(top, rng.randrange(0, 200))
    if m < 0.75:
        return min(top, max(0, rng.choice([1 << 7, 1 << 14, 1 << 21, 1 << 28, 1 << 32, 1 << 31, 1 << 16]) + rng.choice([-2, -1, 0, 1])))
    return rng.getrandbits(rng.randrange(1, 33))

def oid(rng, minlen=2, maxlen=128):
    m = rng.random()
    if m < 0.06:
        n = rng.randrange(max(minlen, maxlen - 3), maxlen + 1)
    elif m < 0.15:
        n = min(maxlen, max(minlen, 2))
    else:
        n = min(maxlen, max(minlen, rng.randrange(2, 16)))
    arcs = [rng.randrange(0, 3), rng.randrange(0, 40)] + [arc(rng) for _ in range(max(0, n - 2))]
    return tuple(arcs[:n])

KINDS = ["int", "str", "null", "oid", "ip", "c32", "g32", "tt", "opaque", "c64", "nso", "nsi", "eomv"]

def value(rng, kinds=KINDS, maxlen=300):
    k = rng.choice(kinds)
    if k in R.RANGE:
        return (k, integer(rng, *R.RANGE[k]))
    if k in ("str", "opaque"):
        return (k, blob(rng, maxlen))
    if k == "ip":
        return (k, rng.choice([b"\0\0\0\0", b"\xff\xff\xff\xff", rng.randbytes(4), rng.randbytes(4)]))
    if k == "oid":
        return (k, oid(rng))
    return (k,)

def varbind(rng, **kw):
    return (oid(rng), value(rng, **kw))

def vblist(rng, most=6, **kw):
    return [varbind(rng, **kw) for _ in range(rng.choice([0, 1, 1, 1, 2, 3, rng.randrange(0, most + 1)]))]

def int32(rng):
    return integer(rng, -2**31, 2**31 - 1)

def nat31(rng):
    return integer(rng, 0, 2**31 - 1)

def pdu(rng, kinds=tuple(R.PDUS), most=6):
    kind = rng.choice(kinds)
    vbs = vblist(rng, most)
    if kind == "getbulk":
        return (kind, int32(rng), nat31(rng), nat31(rng), vbs)
    status = rng.choice([0, 0, rng.randrange(0, 19)])
    return (kind, int32(rng), status, rng.randrange(0, len(vbs) + 1), vbs)

# ------------------------------------------------------------ library objects

PDUCLASS = {"get": "GetRequestPDU", "getnext": "GetNextRequestPDU", "response": "ResponsePDU",
            "set": "SetRequestPDU", "getbulk": "GetBulkRequestPDU", "inform": "InformRequestPDU",
            "trap2": "SNMPv2TrapPDU", "report": "ReportPDU"}
SMICLASS = {"int": "Integer32", "str": "OctetString", "null": "Null", "oid": "OID", "ip": "IpAddress",
            "c32": "Counter32", "g32": "Gauge32", "tt": "TimeTicks", "opaque": "Opaque", "c64": "Counter64"}
PDUEXC = {"nso": "NoSuchObject", "nsi": "NoSuchInstance", "eomv": "EndOfMibView"}
_names = {}

def cls_of(kind):
    import snmp.smi, snmp.pdu
    if kind in SMICLASS:
        return getattr(snmp.smi, SMICLASS[kind])
    if kind in PDUEXC:
        return getattr(snmp.pdu, PDUEXC[kind])
    return getattr(snmp.pdu, PDUCLASS[kind])

def to_lib(v):
    c = cls_of(v[0])
    if v[0] in R.RANGE or v[0] in ("str", "opaque"):
        return c(v[1])
    if v[0] == "oid":
        return c(*v[1])
    if v[0] == "ip":
        return c(".".join(map(str, v[1])))
    return c()

def kind_of(obj):
    if not _names:
        for k in list(SMICLASS) + list(PDUEXC) + list(PDUCLASS):
            _names[cls_of(k)] = k
    return _names.get(type(obj)) or "?" + type(obj).__name__      # never what a reference expects

def from_lib(obj):
    k = kind_of(obj)
    if k in R.RANGE:
        return (k, obj.value)
    if k in ("str", "opaque"):
        return (k, bytes(obj.data))
    if k == "ip":
        d = bytes(obj.data)
        import socket
        assert socket.inet_aton(obj.addr) == d, (obj.addr, d)
        return (k, d)
    if k == "oid":
        return (k, tuple(obj))
    return (k,)

def vb_to_lib(vb):
    import snmp.pdu, snmp.smi
    return snmp.pdu.VarBind(snmp.smi.OID(*vb[0]), to_lib(vb[1]))

def vb_from_lib(vb):
    return (tuple(vb.name), from_lib(vb.value))

def vbs_from_lib(vbs):
    return [vb_from_lib(v) for v in vbs]

def pdu_to_lib(p):
    import snmp.pdu
    kind, reqid, a, b, vbs = p
    c = cls_of(kind)
    args = [vb_to_lib(v) for v in vbs]
    if kind == "getbulk":
        return c(*args, requestID=reqid, nonRepeaters=a, maxRepetitions=b)
    return c(*args, requestID=reqid, errorStatus=snmp.pdu.ErrorStatus(a), errorIndex=b)

def pdu_from_lib(p):
    kind = kind_of(p)
    if kind == "getbulk":
        a, b = p.nonRepeaters, p.maxRepetitions
    else:
        a, b = int(p.errorStatus), p.errorIndex
    return (kind, p.requestID, a, b, vbs_from_lib(p.variableBindings))

def enc_pdu(p):
    return R.enc_pdu(*p)
