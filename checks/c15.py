"""C15: password-to-key, localization and digests against an independent implementation."""
from vlib.core import Group
from vlib import ref_usm as U, gen as G
import snmp.security.usm.auth as A
from snmp.security.usm.credentials import Credentials

CLS = {p: getattr(A, n) for p, n in U.AUTHCLASS.items()}
PROTOS = list(CLS)
# lengths around the block sizes of the hashes, 1 MiB and its divisors, and past it
LENGTHS = sorted({1, 2, 3, 4, 5, 7, 8, 9, 10, 12, 15, 16, 17, 20, 28, 31, 32, 33, 47, 48, 55, 56, 63, 64, 65, 71, 100, 111, 112, 127, 128, 129,
                  255, 256, 257, 511, 512, 513, 1000, 1023, 1024, 1025, 4095, 4096, 4097, 65535, 65536, 65537, 99999, (1 << 19) - 1, 1 << 19,
                  (1 << 19) + 1, (1 << 20) - 1, 1 << 20, (1 << 20) + 1, (1 << 20) + 100, 3 << 19, (1 << 21) + 7})

def engine_id(rng):
    return rng.choice([b"", rng.randbytes(5), rng.randbytes(12), rng.randbytes(17), rng.randbytes(32), b"\0" * 12, b"\xff" * 12, rng.randbytes(rng.randrange(0, 70))])

def key_case(ctx, rng, proto, secret):
    c = CLS[proto]
    want = U.password_to_key(proto, secret)
    got = c.computeKey(secret)
    ctx.check_that(got == want, "password-to-key", f"{proto}: derived key differs", secret=secret[:200], length=len(secret), got=got.hex(), want=want.hex())
    ctx.count("keys")
    ctx.count("keys:" + proto)
    for _ in range(3):
        e = engine_id(rng)
        loc = U.localize_key(proto, want, e)
        ctx.check_that(c.localizeKey(want, e) == loc, "localization", f"{proto}: localized key differs", engine=e.hex())
        ctx.distinct(proto, secret, e)
    ctx.check_that(c.localize(secret, e) == loc, "localization", f"{proto}: localize() differs", engine=e.hex(), length=len(secret))
    digests(ctx, rng, proto, loc)

def digests(ctx, rng, proto, key):
    auth = CLS[proto](key)
    n = U.digest_len(proto)
    ctx.check_that(auth.msgAuthenticationParameters == bytes(n), "digest-length", f"{proto}: placeholder is not {n} zero bytes", got=auth.msgAuthenticationParameters)
    for _ in range(8):
        m = rng.randbytes(rng.choice([0, 1, 63, 64, 65, 127, 128, 129, 484, 1472, rng.randrange(0, 3000), 65507]))
        for _ in range(2):  # signing has no memory
            d = auth.sign(m)
            ctx.check_that(d == U.digest(proto, key, m), "digest", f"{proto}: digest differs", key=key.hex(), message_hex=m.hex()[:400], got=d.hex())
        ctx.check_that(len(d) == n, "digest-length", f"{proto}: digest of {len(d)} bytes")
        ctx.count("digests")

def lengths(ctx, rng, i):
    proto, n = PROTOS[i % 6], LENGTHS[i // 6]
    key_case(ctx, rng, proto, rng.choice([rng.randbytes(n), bytes([rng.randrange(256)]) * n]))
    ctx.sample(dict(proto=proto, length=n))

def randoms(ctx, rng, i):
    proto = PROTOS[i % 6]
    n = rng.choice([rng.randrange(1, 80), rng.randrange(80, 5000)])
    key_case(ctx, rng, proto, rng.randbytes(n))
    for k in (b"", rng.randbytes(1), rng.randbytes(200), rng.randbytes(64), rng.randbytes(65)):
        digests(ctx, rng, proto, k)

def vectors(ctx, rng, i):
    """RFC 3414 A.3 (reference sanity as well)."""
    e = bytes.fromhex("000000000000000000000002")
    for proto, ku, kul in (("md5", "9faf3283884e92834ebc9847d8edd963", "526f5eed9fcce26f8964c2930787d82b"),
                           ("sha", "9fb5cc0381497b3793528939ff788d5d79145211", "6695febc9288e36282235fc7151f128497b38f3f")):
        assert U.password_to_key(proto, b"maplesyrup").hex() == ku and U.localized(proto, b"maplesyrup", e).hex() == kul
        key_case(ctx, rng, proto, b"maplesyrup")
        ctx.check_that(CLS[proto].localize(b"maplesyrup", e).hex() == kul, "rfc-vector", f"{proto}: RFC 3414 A.3 vector differs")

def creds(ctx, rng, i):
    """Secrets reach the keys: authSecret and privSecret first, secret otherwise."""
    from snmp.security.usm.priv import AesCfb128, DesCbc
    for _ in range(4):
        proto = rng.choice(PROTOS)
        s = lambda: rng.randbytes(rng.choice([64, 100, 1000]))
        sec, a, p = s(), rng.choice([None, s()]), rng.choice([None, s()])
        priv = rng.choice([AesCfb128, DesCbc])
        e = engine_id(rng)
        loc = Credentials(CLS[proto], a, priv, p, sec).localize(e)
        m = rng.randbytes(200)
        ctx.check_that(loc.auth.sign(m) == U.digest(proto, U.localized(proto, a or sec, e), m), "credentials",
                       "the authentication key is not the one of the configured secret", proto=proto)
        pk = "aes" if priv is AesCfb128 else "des"
        c, salt = loc.priv.encrypt(m, 5, 6)
        ctx.check_that(U.decrypt(pk, U.localized(proto, p or sec, e), 5, 6, salt, c)[:len(m)] == m, "credentials",
                       "the privacy key is not the one of the configured secret", proto=proto, priv=pk)
        ctx.count("credentials")

GROUPS = [Group("vectors", vectors, 1, 1), Group("lengths", lengths, 6 * len(LENGTHS), 6 * len(LENGTHS)), Group("randoms", randoms, 600, 12000), Group("creds", creds, 150, 2000)]
