"""C18: the calls into libcrypto, watched by AddressSanitizer, a checking layer in between, and memcheck."""
import ctypes, gc, os, threading, time
from vlib.core import Group
from vlib import ref_usm as U, ref_ber as R, gen as G, agent as A, world as W
import snmp.security.usm.priv as P

CLS = {"aes": P.AesCfb128, "des": P.DesCbc}
NEW, FREE, INIT, UPDATE = range(4)

class Shim:
    """The layer between the extension and libcrypto; without it (under memcheck) nothing is counted or made to fail."""
    def __init__(self, path):
        self.lib = ctypes.CDLL(path) if path else None
        if path:
            for f in ("live", "created", "released", "peak", "calls", "written"):
                getattr(self.lib, "shim_" + f).restype = ctypes.c_long
            self.lib.shim_errors.restype = ctypes.c_char_p
            if not self.lib.shim_watching():
                raise RuntimeError("AddressSanitizer is not active")
    def __getattr__(self, name):
        if self.lib is None:
            return lambda *a: 0
        return getattr(self.lib, "shim_" + name)

SHIM = Shim(os.environ.get("VERIF_SHIM"))
SIZES = list(range(0, 70)) + [127, 128, 129, 255, 256, 257, 484, 1023, 1024, 1025, 1471, 1472, 1473, 4096, 65506, 65507]

def look(ctx, **detail):
    """What the layer has noticed since the last look."""
    if SHIM.nerrors():
        text = SHIM.errors().decode()
        SHIM.reset()
        ctx.fail("memory", "the extension was called wrongly: " + text, **detail)

def over(ctx, **detail):
    """Everything has been let go: no context is left."""
    gc.collect()
    look(ctx, **detail)
    n = SHIM.live()
    if n:
        ctx.fail("leak", f"{n} native contexts were never released", **detail)
    if SHIM.lib is not None:
        ctx.maximum("contexts-at-once", SHIM.peak())

def clock(rng):
    return G.nat31(rng)

def full(proto, data):
    return data if proto == "aes" else data + bytes(-len(data) % 8)

def enc(ctx, obj, proto, key, data, boots, t):
    try:
        c, salt = obj.encrypt(data, boots, t)
    finally:
        look(ctx, proto=proto, size=len(data))
    plain = U.decrypt(proto, key, boots, t, salt, c)
    if plain[:len(data)] != data or len(plain) > len(data) + 8:
        ctx.fail("content", "a ciphertext holds something else than the plaintext", proto=proto, size=len(data), got=c.hex()[:400])
    if proto == "aes" and len(c) != len(data):
        ctx.fail("content", "a ciphertext has bytes that were never written", size=len(data), got=len(c))
    ctx.count("encryptions")
    return c, salt

def dec(ctx, obj, proto, key, c, boots, t, salt):
    try:
        p = obj.decrypt(c, boots, t, salt)
    except Exception as e:
        look(ctx, proto=proto, size=len(c), salt=salt)
        if len(salt) == 8 and (proto == "aes" or len(c) % 8 == 0):
            raise
        ctx.count("refused")
        return None
    look(ctx, proto=proto, size=len(c), salt=salt)
    if len(p) > len(c):
        ctx.fail("content", "a plaintext is longer than its ciphertext", proto=proto, size=len(c), got=len(p), salt=salt)
    if len(salt) == 8 and (proto == "aes" or len(c) % 8 == 0) and p != U.decrypt(proto, key, boots, t, salt, c):
        ctx.fail("content", "a plaintext holds something else than was decrypted", proto=proto, size=len(c), got=p.hex()[:400])
    ctx.count("decryptions")
    return p

def begin():
    SHIM.reset()
    return SHIM.created()

def end(ctx, before, **detail):
    over(ctx, **detail)
    ctx.count("contexts", SHIM.created() - before)

def lengths(ctx, rng, i):
    """Every length, with salts of every length."""
    n = begin()
    proto, size = ("aes", "des")[i % 2], SIZES[i // 2 % len(SIZES)]
    key = rng.randbytes(rng.choice([16, 16, 20, 32, 64]))
    obj = CLS[proto](key)
    data = rng.randbytes(size)
    for _ in range(2):
        boots, t = clock(rng), clock(rng)
        c, salt = enc(ctx, obj, proto, key, data, boots, t)
        dec(ctx, obj, proto, key, c, boots, t, salt)
        dec(ctx, obj, proto, key, rng.randbytes(size), boots, t, rng.randbytes(8))
        for k in rng.sample(range(0, 24), 4) + [rng.choice([7, 9, 15, 16, 17, 100])]:
            dec(ctx, obj, proto, key, rng.randbytes(rng.choice([size, size, size // 8 * 8])), boots, t, rng.randbytes(k))
            ctx.distinct(proto, size, len(key), k)
    del obj
    end(ctx, n, proto=proto, size=size)

def keys(ctx, rng, i):
    """Keys of every length are refused or used within their bounds."""
    n = begin()
    proto = ("aes", "des")[i % 2]
    for k in range(0, 34):
        key = rng.randbytes(k)
        try:
            obj = CLS[proto](key)
        except ValueError:
            ctx.count("keys-refused")
            continue
        finally:
            look(ctx, key=k)
        if k < 16:
            # accepted all the same: nothing may be read past its end
            try:
                obj.encrypt(bytes(20), 1, 2)
                obj.decrypt(bytes(24), 1, 2, bytes(8))
            except Exception:
                pass
            look(ctx, key=k)
            continue
        c, salt = enc(ctx, obj, proto, key, rng.randbytes(rng.randrange(60)), 1, 2)
        dec(ctx, obj, proto, key, c, 1, 2, salt)
        ctx.distinct(proto, k)
    obj = None
    end(ctx, n)

def histories(ctx, rng, i):
    """Operations on several objects, some of which fail inside libcrypto or come with impossible arguments."""
    n = begin()
    objs = []
    for _ in range(rng.choice([1, 2, 4])):
        proto, key = rng.choice(["aes", "des"]), rng.randbytes(16)
        objs.append((CLS[proto](key), proto, key))
    log, sent = [], []
    for k in range(rng.choice([10, 40])):
        obj, proto, key = rng.choice(objs)
        what = None
        boots, t = clock(rng), clock(rng)
        if rng.random() < .4 and SHIM.lib is not None:
            what = rng.choice([NEW, INIT, UPDATE])
            SHIM.fail(what, 1, rng.choice([-1, 0, 0x41]))
        x = rng.random()
        log.append((proto, what, round(x, 2)))
        if x < .1:
            try:
                obj.encrypt(b"abc", rng.choice([-1, 2**32, boots]), rng.choice([-1, 2**32, t]))
            except Exception:
                pass
        elif x < .2:
            try:
                obj.decrypt(rng.randbytes(rng.randrange(40)), boots, t, rng.randbytes(rng.randrange(20)))
            except Exception:
                pass
        else:
            size = rng.choice([rng.randrange(0, 64), rng.randrange(0, 2000)])
            try:
                if rng.random() < .5:
                    c, salt = obj.encrypt(rng.randbytes(size), boots, t)
                    sent.append((proto, key, c, boots, t, salt))
                    got = (c, salt)
                else:
                    c = rng.randbytes(size // 8 * 8)
                    got = obj.decrypt(c, boots, t, rng.randbytes(8))
            except Exception as e:
                look(ctx, history=log[-10:])
                if what is None:
                    raise
                ctx.count("failed:" + ("new", "free", "init", "update")[what])
            else:
                if what is not None and not SHIM.pending():
                    ctx.fail("ignored", "an operation that failed in libcrypto returned a result", operation=("new", "free", "init", "update")[what], got=got, history=log[-10:])
        look(ctx, history=log[-10:])
        SHIM.reset()
        if SHIM.live() > 2 * len(objs):
            gc.collect()
            if SHIM.live() > 2 * len(objs):
                ctx.fail("leak", f"{SHIM.live()} native contexts are held by {len(objs)} objects", history=log[-10:])
        ctx.count("operations")
    # nothing that failed has left anything behind
    for proto, key, c, boots, t, salt in sent[:5]:
        dec(ctx, CLS[proto](key), proto, key, c, boots, t, salt)
    for obj, proto, key in objs:
        enc(ctx, obj, proto, key, rng.randbytes(rng.randrange(100)), 5, 6)
    ctx.distinct(log)
    del objs, obj
    end(ctx, n, history=log[-10:])

def threads(ctx, rng, i):
    """The interpreter is released during native calls: threads are in them at the same time."""
    n = begin()
    SHIM.delay(rng.choice([0, 50, 300]))
    proto, key = rng.choice(["aes", "des"]), rng.randbytes(16)
    obj = CLS[proto](key)
    jobs = [[(rng.randbytes(rng.randrange(0, 300)), clock(rng), clock(rng), rng.random() < .5) for _ in range(8)] for _ in range(rng.choice([2, 4, 6]))]
    bad = []
    def work(todo):
        try:
            for data, boots, t, e in todo:
                if e:
                    c, salt = obj.encrypt(data, boots, t)
                    if U.decrypt(proto, key, boots, t, salt, c)[:len(data)] != data:
                        bad.append(f"a ciphertext of {len(data)} bytes is wrong")
                else:
                    salt = bytes(8)
                    c = U.encrypt(proto, key, boots, t, salt, data)
                    if obj.decrypt(c, boots, t, salt) != full(proto, data):
                        bad.append(f"a plaintext of {len(data)} bytes is wrong")
                ctx.count("concurrent")
        except Exception as x:
            bad.append(f"{type(x).__name__}: {x}")
    ts = [threading.Thread(target=work, args=(j,)) for j in jobs]
    for t in ts:
        t.start()
    for t in ts:
        t.join()
    SHIM.delay(0)
    look(ctx, proto=proto, threads=len(ts))
    if bad:
        ctx.fail("content", "threads that share a key got wrong results: " + bad[0], proto=proto)
    ctx.distinct(proto, jobs[0][0][1:])
    del obj, work
    end(ctx, n)

def messages(ctx, rng, i):
    """Whole messages: encrypted parts and privacy parameters of any length reach the native code from the wire."""
    from snmp.security.usm import UserBasedSecurityModule
    from snmp.message.v3 import SNMPv3Message
    n = begin()
    m = UserBasedSecurityModule()
    engine = b"\x80\0\1\2" + rng.randbytes(8)
    user = A.User(b"u", ("md5", W.SECRETS[0]), (rng.choice(["aes", "des"]), W.SECRETS[1]))
    class E:
        usm = m
    W.add_user(E, user)
    m.registerRemoteEngine(engine, "")
    boots, t = rng.choice([1, 2**31 - 2, 70000]), rng.choice([0, 1000, 2**31 - 1])
    now = time.time()
    k = user.authkey(engine)
    for _ in range(12):
        size, salt = rng.choice([rng.randrange(0, 40), rng.randrange(0, 600)]), rng.choice([8, 8, rng.randrange(0, 30), 100])
        sound = rng.random() < .3
        if sound:
            body = R.enc_scoped(engine, b"", R.enc_pdu("response", 1, 0, 0, [(W.BASE + (1,), ("str", rng.randbytes(rng.randrange(200))))]))
            s = rng.randbytes(8)
            c = U.encrypt(user.priv[0], user.privkey(engine), boots, t, s, body)
        else:
            s, c = rng.randbytes(salt), rng.randbytes(size)
        msg = R.enc_v3(5, 65507, 3, 3, R.enc_usm(engine, boots, t, b"u", bytes(12), s), R.enc_str(c))
        msg = A.sign(msg, "md5", k)
        message = SNMPv3Message.decode(msg)
        what = None
        if SHIM.lib is not None and rng.random() < .2:
            what = rng.choice([NEW, INIT, UPDATE])
            SHIM.fail(what, 1, 0x30)
        try:
            m.processIncoming(message, timestamp=now)
        except Exception as x:
            if sound and what is None:
                ctx.fail("refused", f"a sound message was refused: {type(x).__name__}: {x}")
            ctx.count("messages-refused")
        else:
            if what is not None and not SHIM.pending():
                ctx.fail("ignored", "a message whose decryption failed in libcrypto was accepted")
            ctx.count("messages-accepted")
        look(ctx, size=len(c), salt=len(s), protocol=user.priv[0])
        SHIM.reset()
        ctx.distinct(len(c), len(s), user.priv[0])
    del m, E.usm, message
    end(ctx, n)

def memcheck(ctx, rng, i):
    """The same under valgrind, which also follows what was never initialized."""
    if i % 2:
        lengths(ctx, rng, i // 2 * 37)
    else:
        (keys, histories, threads, messages, histories)[i // 2 % 5](ctx, rng, i)
    ctx.count("memcheck-cases")

GROUPS = [Group("lengths", lengths, 4 * len(SIZES), 40 * len(SIZES)), Group("keys", keys, 16, 200), Group("histories", histories, 400, 20000),
          Group("threads", threads, 160, 4000), Group("messages", messages, 300, 10000), Group("memcheck", memcheck, 120, 3000)]
