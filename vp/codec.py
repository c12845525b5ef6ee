"""An independent implementation of pizauth's 1.x dump format (12 byte nonce, ChaCha20-Poly1305, bincode 1)."""
import os, struct

KEY = bytes.fromhex("66a247a85e48cfecaaed9b36eba97d5350d4286375097a44eeffb9c4546b65a3")
M = 0xFFFFFFFF


def _block(key, ctr, nonce):
    st = [0x61707865, 0x3320646E, 0x79622D32, 0x6B206574] + list(struct.unpack("<8I", key)) + [ctr] + list(struct.unpack("<3I", nonce))
    x = list(st)

    def qr(a, b, c, d):
        x[a] = (x[a] + x[b]) & M; x[d] ^= x[a]; x[d] = ((x[d] << 16) | (x[d] >> 16)) & M
        x[c] = (x[c] + x[d]) & M; x[b] ^= x[c]; x[b] = ((x[b] << 12) | (x[b] >> 20)) & M
        x[a] = (x[a] + x[b]) & M; x[d] ^= x[a]; x[d] = ((x[d] << 8) | (x[d] >> 24)) & M
        x[c] = (x[c] + x[d]) & M; x[b] ^= x[c]; x[b] = ((x[b] << 7) | (x[b] >> 25)) & M

    for _ in range(10):
        qr(0, 4, 8, 12); qr(1, 5, 9, 13); qr(2, 6, 10, 14); qr(3, 7, 11, 15)
        qr(0, 5, 10, 15); qr(1, 6, 11, 12); qr(2, 7, 8, 13); qr(3, 4, 9, 14)
    return struct.pack("<16I", *[(a + b) & M for a, b in zip(x, st)])


def chacha(key, nonce, data, ctr=1):
    out = bytearray()
    for i in range(0, len(data), 64):
        k = _block(key, ctr, nonce)
        ctr += 1
        ch = data[i:i + 64]
        out += bytes(a ^ b for a, b in zip(ch, k))
    return bytes(out)


def _poly(key, msg):
    r = int.from_bytes(key[:16], "little") & 0x0FFFFFFC0FFFFFFC0FFFFFFC0FFFFFFF
    s = int.from_bytes(key[16:32], "little")
    a, p = 0, (1 << 130) - 5
    for i in range(0, len(msg), 16):
        b = msg[i:i + 16] + b"\x01"
        a = (a + int.from_bytes(b, "little")) * r % p
    return ((a + s) & ((1 << 128) - 1)).to_bytes(16, "little")


def _tag(nonce, ct):
    pk = _block(KEY, 0, nonce)[:32]
    pad = b"\0" * (-len(ct) % 16)
    return _poly(pk, ct + pad + struct.pack("<QQ", 0, len(ct)))


class BadDump(Exception):
    pass


def decrypt(d):
    if len(d) < 28:
        raise BadDump("too short (%d bytes)" % len(d))
    nonce, ct, tag = d[:12], d[12:-16], d[-16:]
    if _tag(nonce, ct) != tag:
        raise BadDump("authentication failed")
    return chacha(KEY, nonce, ct)


def encrypt(pt, nonce=None):
    nonce = nonce or os.urandom(12)
    ct = chacha(KEY, nonce, pt)
    return nonce + ct + _tag(nonce, ct)


class _R:
    def __init__(self, b):
        self.b, self.i = b, 0

    def take(self, n):
        if self.i + n > len(self.b):
            raise BadDump("truncated plaintext")
        r = self.b[self.i:self.i + n]
        self.i += n
        return r

    def u8(self):
        return self.take(1)[0]

    def u32(self):
        return struct.unpack("<I", self.take(4))[0]

    def u64(self):
        return struct.unpack("<Q", self.take(8))[0]

    def s(self):
        return self.take(self.u64()).decode("utf8")

    def opt(self, f):
        t = self.u8()
        if t > 1:
            raise BadDump("bad option tag")
        return f() if t else None

    def vec(self, f):
        return [f() for _ in range(self.u64())]


def decode(d):
    """-> {account: (fields dict, None | dict(access, obtained, expiry, refresh))}; times are unix seconds (float)."""
    r = _R(decrypt(d))
    v = r.u64()
    if v != 1:
        raise BadDump("version %d" % v)
    out = {}
    for _ in range(r.u64()):
        name = r.s()
        f = dict(auth_uri=r.s(), auth_uri_fields=r.vec(lambda: (r.s(), r.s())), client_id=r.s(), client_secret=r.opt(r.s),
                 redirect_uri=r.s(), scopes=r.vec(r.s), token_uri=r.s())
        k = r.u32()
        if k == 0:
            ts = None
        elif k == 1:
            at = r.s()
            ob = r.u64() + r.u32() / 1e9
            ex = r.u64() + r.u32() / 1e9
            ts = dict(access=at, obtained=ob, expiry=ex, refresh=r.opt(r.s))
        else:
            raise BadDump("bad token state %d" % k)
        if name in out:
            raise BadDump("repeated account")
        out[name] = (f, ts)
    if r.i != len(r.b):
        raise BadDump("trailing bytes")
    return out


def _s(x):
    b = x.encode("utf8")
    return struct.pack("<Q", len(b)) + b


def _opt(x):
    return b"\0" if x is None else b"\1" + _s(x)


def encode_plain(accts, version=1):
    b = struct.pack("<QQ", version, len(accts))
    for name, (f, ts) in accts.items():
        b += _s(name) + _s(f["auth_uri"])
        b += struct.pack("<Q", len(f["auth_uri_fields"])) + b"".join(_s(k) + _s(v) for k, v in f["auth_uri_fields"])
        b += _s(f["client_id"]) + _opt(f["client_secret"]) + _s(f["redirect_uri"])
        b += struct.pack("<Q", len(f["scopes"])) + b"".join(map(_s, f["scopes"])) + _s(f["token_uri"])
        if ts is None:
            b += struct.pack("<I", 0)
        else:
            b += struct.pack("<I", 1) + _s(ts["access"])
            for k in ("obtained", "expiry"):
                t = int(ts[k] * 1000000) * 1000
                b += struct.pack("<QI", t // 10**9, t % 10**9)
            b += _opt(ts["refresh"])
    return b


def encode(accts, version=1):
    return encrypt(encode_plain(accts, version))
