"""C16: ciphertexts, IVs and refusals of the selected backend against block-cipher references."""
import os
from vlib.core import Group
from vlib import ref_usm as U, ref_ber as R, gen as G, agent as A, world as W
import snmp.security.usm.priv as P
from snmp.security.usm import DecryptionError

CLS = {"aes": P.AesCfb128, "des": P.DesCbc}
VARIANT = os.environ["VERIF_VARIANT"]
BACKEND = P.AesCfb128.__module__
SIZES = list(range(0, 70)) + [127, 128, 129, 255, 256, 257, 484, 1023, 1024, 1025, 1471, 1472, 1473, 4096, 65506, 65507, 70000]

def clock(rng):
    return G.nat31(rng)

def key_of(rng):
    return rng.choice([rng.randbytes(rng.choice([16, 20, 28, 32, 48, 64])), bytes(16), b"\xff" * 16])

def one(ctx, rng, proto, key, size):
    other = CLS[proto](key)
    obj = CLS[proto](key)
    data = rng.randbytes(size)
    for _ in range(3):
        boots, time = clock(rng), clock(rng)
        keep = bytes(bytearray(data))
        c, salt = obj.encrypt(data, boots, time)
        ctx.check_that(type(c) is bytes and type(salt) is bytes and len(salt) == 8, "salt", "salt is not 8 bytes", salt=salt)
        ctx.check_that(data == keep, "plaintext-altered", "encrypt() altered its input")
        if proto == "aes":
            want = U.encrypt("aes", key, boots, time, salt, data)
            ctx.check_that(c == want, "ciphertext", "AES ciphertext differs", key=key.hex(), boots=boots, time=time, salt=salt.hex(), data=data.hex()[:200], got=c.hex()[:200], want=want.hex()[:200])
        else:
            ctx.check_that(salt[:4] == boots.to_bytes(4, "big"), "des-salt", "the DES salt does not start with the engine boots", salt=salt.hex(), boots=boots)
            ctx.check_that(len(c) % 8 == 0 and size <= len(c) <= size + 8, "ciphertext", "DES ciphertext has a wrong length", size=size, got=len(c))
            plain = U.decrypt("des", key, boots, time, salt, c)
            ctx.check_that(plain[:size] == data, "ciphertext", "DES ciphertext differs", key=key.hex(), boots=boots, salt=salt.hex(), data=data.hex()[:200], got=c.hex()[:200])
            ctx.check_that(len(plain) - size == (-size) % 8 or len(plain) - size == (-size) % 8 + 8, "padding", "wrong padding", size=size, got=len(plain))
        ctx.count("encryptions:" + proto)
        back = other.decrypt(c, boots, time, salt)
        ctx.check_that(type(back) is bytes and (back == data if proto == "aes" else back[:size] == data and len(back) == len(c)), "roundtrip", "decrypting its own ciphertext gives something else", proto=proto, size=size)
        # a ciphertext of an independent implementation, with its own salt
        salt2 = rng.choice([rng.randbytes(8), bytes(8), b"\xff" * 8])
        c2 = U.encrypt(proto, key, boots, time, salt2, data)
        p2 = obj.decrypt(c2, boots, time, salt2)
        full = data if proto == "aes" else data + bytes(-size % 8)
        ctx.check_that(p2 == full, "decrypt", f"{proto}: plaintext of a reference ciphertext differs", key=key.hex(), boots=boots, time=time, salt=salt2.hex(), size=size, got=p2.hex()[:200], want=full.hex()[:200])
        raw = rng.randbytes(len(c2))
        ctx.check_that(obj.decrypt(raw, boots, time, salt2) == U.decrypt(proto, key, boots, time, salt2, raw), "decrypt", f"{proto}: plaintext of arbitrary ciphertext differs", size=len(raw))
        ctx.count("decryptions:" + proto, 3)
        ctx.distinct(proto, size, len(key), boots, time, salt2)

def sizes(ctx, rng, i):
    proto = ("aes", "des")[i % 2]
    one(ctx, rng, proto, key_of(rng), SIZES[i // 2])
    ctx.sample(dict(backend=BACKEND, proto=proto, size=SIZES[i // 2]))

def random_sizes(ctx, rng, i):
    for _ in range(10):
        one(ctx, rng, rng.choice(["aes", "des"]), key_of(rng), rng.choice([rng.randrange(0, 200), rng.randrange(0, 2000)]))

def refusals(ctx, rng, i):
    for proto in ("aes", "des"):
        obj = CLS[proto](rng.randbytes(rng.choice([16, 20, 64])))
        for n in list(range(0, 20)) + [64, 1000]:
            if n == 8:
                continue
            for size in (0, 8, 16, 24, 13, 1024):
                try:
                    got = obj.decrypt(rng.randbytes(size), clock(rng), clock(rng), rng.randbytes(n))
                except DecryptionError:
                    ctx.count("refused")
                else:
                    ctx.fail("salt-length", f"{proto}: a salt of {n} bytes is accepted", size=size, got=got)
        if proto == "des":
            for n in list(range(0, 70)) + [1471, 1473]:
                salt = rng.randbytes(8)
                try:
                    obj.decrypt(rng.randbytes(n), clock(rng), clock(rng), salt)
                except DecryptionError:
                    ctx.check_that(n % 8, "refused-valid", "a valid DES ciphertext is refused", size=n)
                    ctx.count("refused")
                else:
                    ctx.check_that(n % 8 == 0, "ciphertext-length", f"a DES ciphertext of {n} bytes is accepted")
        for n in range(0, 16):
            try:
                CLS[proto](rng.randbytes(n))
            except ValueError:
                ctx.count("refused")
            else:
                ctx.fail("short-key", f"{proto}: a key of {n} bytes is accepted")

def interop(ctx, rng, i):
    """Both backends in one process: what one encrypts the other decrypts."""
    if VARIANT != "native":
        return
    import snmp.security.usm.priv.pycryptodome.aes as pa, snmp.security.usm.priv.pycryptodome.des as pd
    for proto, alt in (("aes", pa.AesCfb128), ("des", pd.DesCbc)):
        key = key_of(rng)
        x, y = CLS[proto](key), alt(key)
        for a, b in ((x, y), (y, x)):
            data = rng.randbytes(rng.randrange(0, 300))
            boots, time = clock(rng), clock(rng)
            c, s = a.encrypt(data, boots, time)
            ctx.check_that(b.decrypt(c, boots, time, s)[:len(data)] == data, "interop", f"{proto}: the backends do not understand each other", size=len(data))
            ctx.count("interop")

def messages(ctx, rng, i):
    """Whole messages: the boots and time in the message, not the receiver's, belong to its ciphertext."""
    from snmp.message.v3 import SNMPv3Message, HeaderData, MessageFlags, ScopedPDU
    from snmp.pdu import GetRequestPDU
    from snmp.security import SecurityModel
    from snmp.security.usm import UserBasedSecurityModule
    engines = [b"\x80\0\0\0\5" + rng.randbytes(rng.choice([1, 7, 12, 27])) for _ in range(2)]
    users = [W.make_user(rng, b"u%d" % n, 2) for n in range(2)]
    m = UserBasedSecurityModule()
    for u in users:
        m.addUser(u.name.decode(), authProtocol=W.auth_class(u.auth[0]), authSecret=u.auth[1],
                  privProtocol=W.priv_class(u.priv[0]), privSecret=u.priv[1])
    for e in engines:
        m.registerRemoteEngine(e)
    ts = 1000.0
    clocks = {e: [rng.choice([0, 1, 300, 2**31 - 2]), rng.choice([200, 10**6, 2**31 - 5000])] for e in engines}
    for n in range(rng.choice([4, 10])):
        e, u = rng.choice(engines), rng.choice(users)
        c = clocks[e]
        dt = rng.choice([0, 1, 20, 100])
        ts += dt
        for x in clocks.values():
            x[1] += dt
        # late (but inside of the window), on time, or ahead of the estimate
        ahead = rng.choice([-140, -100, -1, 0, 0, 5, 200])
        time = c[1] + ahead
        c[1] = max(c[1], time)
        scoped = R.enc_scoped(e, b"", R.enc_pdu("response", 7, 0, 0, [((1, 3, 6, 1, 2, n), ("str", rng.randbytes(rng.randrange(60))))]))
        salt = rng.choice([rng.randbytes(8), bytes(8)])
        msg = SNMPv3Message.decode(A.seal(u, 2, e, c[0], time, 5, scoped, salt))
        m.processIncoming(msg, timestamp=ts)
        got = msg.scopedPDU.encode() if msg.scopedPDU is not None else None
        ctx.check_that(got == scoped, "message-plaintext", "the scoped PDU of a message is not what was encrypted", proto=u.priv[0], boots=c[0], time=time, ahead=ahead, got=got, want=scoped)
        ctx.count("messages-in")
        e, u = rng.choice(engines), rng.choice(users)
        text = b"" if rng.random() < .2 else rng.randbytes(rng.randrange(50))
        out = ScopedPDU(GetRequestPDU("1.3.6.1.2.%d" % n), e, text)
        data = m.prepareOutgoing(SNMPv3Message(HeaderData(7, 65507, MessageFlags(W.level_obj(2), True), SecurityModel.USM), out), e, u.name, timestamp=ts)
        o = A.Opened(data, {u.name: u}, e)
        ctx.check_that(not o.problem and o.plain.startswith(out.encode()), "message-ciphertext", f"a message went out that its receiver cannot decrypt: {o.problem}", proto=u.priv[0])
        ctx.count("messages-out")

def backend(ctx, rng, i):
    want = "openssl" if VARIANT == "native" else "pycryptodome"
    ctx.check_that(want in BACKEND, "backend", f"the {want} backend is not the one in use", got=BACKEND)
    ctx.check_that(set(P.__all__) >= {"AesCfb128", "DesCbc"}, "backend", "the privacy package does not export both protocols")
    ctx.count("backend:" + want)
    # RFC 3826 / FIPS vectors keep the reference honest
    k = bytes.fromhex("2b7e151628aed2a6abf7158809cf4f3c")
    iv = bytes.fromhex("000102030405060708090a0b0c0d0e0f")
    p = bytes.fromhex("6bc1bee22e409f96e93d7e117393172aae2d8a571e03ac9c9eb76fac45af8e51")
    c = bytes.fromhex("3b3fd92eb72dad20333449f8e83cfb4ac8a64537a0b3a93fcde3cdad9f1ce58b")
    assert U.aes_encrypt(k, iv, p) == c and U.aes_decrypt(k, iv, c) == p
    got = CLS["aes"](k).decrypt(c, 0x00010203, 0x04050607, iv[8:])
    ctx.check_that(got == p, "nist-vector", "the SP 800-38A CFB128 vector is decrypted differently", got=got.hex())

GROUPS = [Group("backend", backend, 8, 8), Group("sizes", sizes, 2 * len(SIZES), 2 * len(SIZES)), Group("random", random_sizes, 150, 4000),
          Group("refusals", refusals, 16, 200), Group("interop", interop, 200, 4000),
          Group("messages", messages, 200, 6000)]
