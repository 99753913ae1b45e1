"""Independent USM: RFC 3414, 3826 and 7860 from hashlib/hmac and single-block ciphers."""
import functools, hashlib, hmac
from Crypto.Cipher import AES as _AES, DES as _DES

AUTH = {"md5": ("md5", 12), "sha": ("sha1", 12), "sha224": ("sha224", 16),
        "sha256": ("sha256", 24), "sha384": ("sha384", 32), "sha512": ("sha512", 48)}
AUTHCLASS = {"md5": "HmacMd5", "sha": "HmacSha", "sha224": "HmacSha224",
             "sha256": "HmacSha256", "sha384": "HmacSha384", "sha512": "HmacSha512"}
PRIVCLASS = {"aes": "AesCfb128", "des": "DesCbc"}

@functools.lru_cache(maxsize=4096)
def password_to_key(proto, secret):
    h = hashlib.new(AUTH[proto][0])
    n = 1 << 20
    reps = n // len(secret) + 1  # 1 MiB of the repeated secret
    h.update((secret * reps)[:n])
    return h.digest()

def localize_key(proto, key, engine):
    return hashlib.new(AUTH[proto][0], key + engine + key).digest()

@functools.lru_cache(maxsize=65536)
def localized(proto, secret, engine):
    return localize_key(proto, password_to_key(proto, secret), engine)

def digest(proto, key, message):
    name, n = AUTH[proto]
    return hmac.new(key, message, name).digest()[:n]

def digest_len(proto):
    return AUTH[proto][1]

def xor(a, b):
    return bytes(x ^ y for x, y in zip(a, b))

def aes_iv(boots, time, salt):
    return boots.to_bytes(4, "big") + time.to_bytes(4, "big") + salt

def aes_encrypt(key, iv, data):
    ecb = _AES.new(key[:16], _AES.MODE_ECB)
    out, reg = b"", iv
    for i in range(0, len(data), 16):
        c = xor(data[i:i + 16], ecb.encrypt(reg))
        out += c
        reg = c.ljust(16, b"\0")
    return out

def aes_decrypt(key, iv, data):
    ecb = _AES.new(key[:16], _AES.MODE_ECB)
    out, reg = b"", iv
    for i in range(0, len(data), 16):
        c = data[i:i + 16]
        out += xor(c, ecb.encrypt(reg))
        reg = c.ljust(16, b"\0")
    return out

def des_encrypt(key, salt, data):
    """data already a multiple of 8"""
    ecb = _DES.new(key[:8], _DES.MODE_ECB)
    out, reg = b"", xor(key[8:16], salt)
    for i in range(0, len(data), 8):
        reg = ecb.encrypt(xor(data[i:i + 8], reg))
        out += reg
    return out

def des_decrypt(key, salt, data):
    ecb = _DES.new(key[:8], _DES.MODE_ECB)
    out, reg = b"", xor(key[8:16], salt)
    for i in range(0, len(data), 8):
        c = data[i:i + 8]
        out += xor(ecb.decrypt(c), reg)
        reg = c
    return out

def encrypt(proto, key, boots, time, salt, data):
    if proto == "aes":
        return aes_encrypt(key, aes_iv(boots, time, salt), data)
    if len(data) % 8:
        data += bytes(8 - len(data) % 8)
    return des_encrypt(key, salt, data)

def decrypt(proto, key, boots, time, salt, data):
    if proto == "aes":
        return aes_decrypt(key, aes_iv(boots, time, salt), data)
    if len(data) % 8:
        raise ValueError("DES data length")
    return des_decrypt(key, salt, data)

class TimeModel:
    """RFC 3414 section 3.2 step 7b for a non-authoritative engine, as a set of
    admissible answers where the library may legitimately round differently."""
    MAX = 2**31 - 1
