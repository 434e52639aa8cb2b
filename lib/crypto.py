"""Independent pure-Python DES-CBC, AES-128-CFB, HMAC-96 and RFC 3414 key derivation.

`selftest()` validates against FIPS/NIST/RFC vectors.
"""

from __future__ import annotations

import hashlib
import hmac as _hmac
from functools import lru_cache

# ---------------------------------------------------------------- DES ----
_IP = [58, 50, 42, 34, 26, 18, 10, 2, 60, 52, 44, 36, 28, 20, 12, 4, 62, 54, 46, 38, 30, 22, 14, 6, 64, 56, 48, 40, 32, 24, 16, 8,
       57, 49, 41, 33, 25, 17, 9, 1, 59, 51, 43, 35, 27, 19, 11, 3, 61, 53, 45, 37, 29, 21, 13, 5, 63, 55, 47, 39, 31, 23, 15, 7]
_FP = [40, 8, 48, 16, 56, 24, 64, 32, 39, 7, 47, 15, 55, 23, 63, 31, 38, 6, 46, 14, 54, 22, 62, 30, 37, 5, 45, 13, 53, 21, 61, 29,
       36, 4, 44, 12, 52, 20, 60, 28, 35, 3, 43, 11, 51, 19, 59, 27, 34, 2, 42, 10, 50, 18, 58, 26, 33, 1, 41, 9, 49, 17, 57, 25]
_P = [16, 7, 20, 21, 29, 12, 28, 17, 1, 15, 23, 26, 5, 18, 31, 10, 2, 8, 24, 14, 32, 27, 3, 9, 19, 13, 30, 6, 22, 11, 4, 25]
_PC1 = [57, 49, 41, 33, 25, 17, 9, 1, 58, 50, 42, 34, 26, 18, 10, 2, 59, 51, 43, 35, 27, 19, 11, 3, 60, 52, 44, 36,
        63, 55, 47, 39, 31, 23, 15, 7, 62, 54, 46, 38, 30, 22, 14, 6, 61, 53, 45, 37, 29, 21, 13, 5, 28, 20, 12, 4]
_PC2 = [14, 17, 11, 24, 1, 5, 3, 28, 15, 6, 21, 10, 23, 19, 12, 4, 26, 8, 16, 7, 27, 20, 13, 2, 41, 52, 31, 37, 47, 55, 30, 40,
        51, 45, 33, 48, 44, 49, 39, 56, 34, 53, 46, 42, 50, 36, 29, 32]
_SH = [1, 1, 2, 2, 2, 2, 2, 2, 1, 2, 2, 2, 2, 2, 2, 1]
_S = [
    [14, 4, 13, 1, 2, 15, 11, 8, 3, 10, 6, 12, 5, 9, 0, 7, 0, 15, 7, 4, 14, 2, 13, 1, 10, 6, 12, 11, 9, 5, 3, 8,
     4, 1, 14, 8, 13, 6, 2, 11, 15, 12, 9, 7, 3, 10, 5, 0, 15, 12, 8, 2, 4, 9, 1, 7, 5, 11, 3, 14, 10, 0, 6, 13],
    [15, 1, 8, 14, 6, 11, 3, 4, 9, 7, 2, 13, 12, 0, 5, 10, 3, 13, 4, 7, 15, 2, 8, 14, 12, 0, 1, 10, 6, 9, 11, 5,
     0, 14, 7, 11, 10, 4, 13, 1, 5, 8, 12, 6, 9, 3, 2, 15, 13, 8, 10, 1, 3, 15, 4, 2, 11, 6, 7, 12, 0, 5, 14, 9],
    [10, 0, 9, 14, 6, 3, 15, 5, 1, 13, 12, 7, 11, 4, 2, 8, 13, 7, 0, 9, 3, 4, 6, 10, 2, 8, 5, 14, 12, 11, 15, 1,
     13, 6, 4, 9, 8, 15, 3, 0, 11, 1, 2, 12, 5, 10, 14, 7, 1, 10, 13, 0, 6, 9, 8, 7, 4, 15, 14, 3, 11, 5, 2, 12],
    [7, 13, 14, 3, 0, 6, 9, 10, 1, 2, 8, 5, 11, 12, 4, 15, 13, 8, 11, 5, 6, 15, 0, 3, 4, 7, 2, 12, 1, 10, 14, 9,
     10, 6, 9, 0, 12, 11, 7, 13, 15, 1, 3, 14, 5, 2, 8, 4, 3, 15, 0, 6, 10, 1, 13, 8, 9, 4, 5, 11, 12, 7, 2, 14],
    [2, 12, 4, 1, 7, 10, 11, 6, 8, 5, 3, 15, 13, 0, 14, 9, 14, 11, 2, 12, 4, 7, 13, 1, 5, 0, 15, 10, 3, 9, 8, 6,
     4, 2, 1, 11, 10, 13, 7, 8, 15, 9, 12, 5, 6, 3, 0, 14, 11, 8, 12, 7, 1, 14, 2, 13, 6, 15, 0, 9, 10, 4, 5, 3],
    [12, 1, 10, 15, 9, 2, 6, 8, 0, 13, 3, 4, 14, 7, 5, 11, 10, 15, 4, 2, 7, 12, 9, 5, 6, 1, 13, 14, 0, 11, 3, 8,
     9, 14, 15, 5, 2, 8, 12, 3, 7, 0, 4, 10, 1, 13, 11, 6, 4, 3, 2, 12, 9, 5, 15, 10, 11, 14, 1, 7, 6, 0, 8, 13],
    [4, 11, 2, 14, 15, 0, 8, 13, 3, 12, 9, 7, 5, 10, 6, 1, 13, 0, 11, 7, 4, 9, 1, 10, 14, 3, 5, 12, 2, 15, 8, 6,
     1, 4, 11, 13, 12, 3, 7, 14, 10, 15, 6, 8, 0, 5, 9, 2, 6, 11, 13, 8, 1, 4, 10, 7, 9, 5, 0, 15, 14, 2, 3, 12],
    [13, 2, 8, 4, 6, 15, 11, 1, 10, 9, 3, 14, 5, 0, 12, 7, 1, 15, 13, 8, 10, 3, 7, 4, 12, 5, 6, 11, 0, 14, 9, 2,
     7, 11, 4, 1, 9, 12, 14, 2, 0, 6, 10, 13, 15, 3, 5, 8, 2, 1, 14, 7, 4, 10, 8, 13, 15, 12, 9, 0, 3, 5, 6, 11],
]


def _perm(v: int, width: int, table) -> int:
    r = 0
    for t in table:
        r = (r << 1) | ((v >> (width - t)) & 1)
    return r


# Combined S-box + P permutation tables, and bytewise tables for IP / FP
_SP = []
for _i, _box in enumerate(_S):
    _t = []
    for _x in range(64):
        _row = ((_x >> 4) & 2) | (_x & 1)
        _col = (_x >> 1) & 15
        _t.append(_perm(_box[_row * 16 + _col] << (4 * (7 - _i)), 32, _P))
    _SP.append(_t)
_IPT = [[_perm(b << (8 * (7 - i)), 64, _IP) for b in range(256)] for i in range(8)]
_FPT = [[_perm(b << (8 * (7 - i)), 64, _FP) for b in range(256)] for i in range(8)]


@lru_cache(maxsize=4096)
def _des_keys(key: bytes):
    k = _perm(int.from_bytes(key, "big"), 64, _PC1)
    c, d = k >> 28, k & 0xFFFFFFF
    out = []
    for s in _SH:
        c = ((c << s) | (c >> (28 - s))) & 0xFFFFFFF
        d = ((d << s) | (d >> (28 - s))) & 0xFFFFFFF
        k48 = _perm((c << 28) | d, 56, _PC2)
        out.append(tuple((k48 >> (42 - 6 * i)) & 63 for i in range(8)))
    return tuple(out)


def _des_block(block: bytes, keys) -> bytes:
    v = 0
    for i in range(8):
        v |= _IPT[i][block[i]]
    lo, hi = v >> 32, v & 0xFFFFFFFF
    s0, s1, s2, s3, s4, s5, s6, s7 = _SP
    for k in keys:
        # E-expansion: 6-bit windows of hi rotated
        e = ((hi & 1) << 33) | (hi << 1) | (hi >> 31)
        f = (
            s0[((e >> 28) & 63) ^ k[0]]
            | s1[((e >> 24) & 63) ^ k[1]]
            | s2[((e >> 20) & 63) ^ k[2]]
            | s3[((e >> 16) & 63) ^ k[3]]
            | s4[((e >> 12) & 63) ^ k[4]]
            | s5[((e >> 8) & 63) ^ k[5]]
            | s6[((e >> 4) & 63) ^ k[6]]
            | s7[(e & 63) ^ k[7]]
        )
        lo, hi = hi, lo ^ f
    v = ((hi << 32) | lo).to_bytes(8, "big")
    r = 0
    for i in range(8):
        r |= _FPT[i][v[i]]
    return r.to_bytes(8, "big")


def des_cbc_encrypt(key: bytes, iv: bytes, data: bytes) -> bytes:
    ks = _des_keys(key)
    out = []
    prev = int.from_bytes(iv, "big")
    for i in range(0, len(data), 8):
        x = int.from_bytes(data[i : i + 8], "big") ^ prev
        c = _des_block(x.to_bytes(8, "big"), ks)
        out.append(c)
        prev = int.from_bytes(c, "big")
    return b"".join(out)


def des_cbc_decrypt(key: bytes, iv: bytes, data: bytes) -> bytes:
    ks = tuple(reversed(_des_keys(key)))
    out = []
    prev = int.from_bytes(iv, "big")
    for i in range(0, len(data), 8):
        c = data[i : i + 8]
        p = int.from_bytes(_des_block(c, ks), "big") ^ prev
        out.append(p.to_bytes(8, "big"))
        prev = int.from_bytes(c, "big")
    return b"".join(out)


# ---------------------------------------------------------------- AES ----


def _mul(a: int, b: int) -> int:
    r = 0
    while b:
        if b & 1:
            r ^= a
        a <<= 1
        if a & 0x100:
            a ^= 0x11B
        b >>= 1
    return r


_SB = None
_T = None


def _aes_init():
    global _SB, _T
    if _SB is not None:
        return
    # generate via 3-powers: fast
    exp, log = [0] * 256, [0] * 256
    x = 1
    for i in range(255):
        exp[i] = x
        log[x] = i
        x ^= (x << 1) ^ (0x11B if x & 0x80 else 0)
        x &= 0xFF if x < 0x100 else 0x1FF
        x &= 0xFF
    sb = []
    for a in range(256):
        v = 0 if a == 0 else exp[(255 - log[a]) % 255]
        r = 0
        for i in range(8):
            bit = (v >> i) ^ (v >> ((i + 4) % 8)) ^ (v >> ((i + 5) % 8)) ^ (v >> ((i + 6) % 8)) ^ (v >> ((i + 7) % 8)) ^ (0x63 >> i)
            r |= (bit & 1) << i
        sb.append(r)
    t0 = []
    for a in range(256):
        s = sb[a]
        s2 = _mul(s, 2)
        s3 = s2 ^ s
        t0.append((s2 << 24) | (s << 16) | (s << 8) | s3)
    ts = [t0]
    for k in (8, 16, 24):
        ts.append([((v >> k) | (v << (32 - k))) & 0xFFFFFFFF for v in t0])
    _SB, _T = sb, ts


@lru_cache(maxsize=4096)
def _aes_keys(key: bytes):
    _aes_init()
    w = [int.from_bytes(key[4 * i : 4 * i + 4], "big") for i in range(4)]
    rcon = 1
    for i in range(4, 44):
        t = w[i - 1]
        if i % 4 == 0:
            t = ((t << 8) | (t >> 24)) & 0xFFFFFFFF
            t = (_SB[t >> 24] << 24) | (_SB[(t >> 16) & 255] << 16) | (_SB[(t >> 8) & 255] << 8) | _SB[t & 255]
            t ^= rcon << 24
            rcon = _mul(rcon, 2)
        w.append(w[i - 4] ^ t)
    return tuple(w)


def _aes_block(v: int, w) -> int:
    t0, t1, t2, t3 = _T
    sb = _SB
    a, b, c, d = (v >> 96) ^ w[0], ((v >> 64) & 0xFFFFFFFF) ^ w[1], ((v >> 32) & 0xFFFFFFFF) ^ w[2], (v & 0xFFFFFFFF) ^ w[3]
    for r in range(4, 40, 4):
        a, b, c, d = (
            t0[a >> 24] ^ t1[(b >> 16) & 255] ^ t2[(c >> 8) & 255] ^ t3[d & 255] ^ w[r],
            t0[b >> 24] ^ t1[(c >> 16) & 255] ^ t2[(d >> 8) & 255] ^ t3[a & 255] ^ w[r + 1],
            t0[c >> 24] ^ t1[(d >> 16) & 255] ^ t2[(a >> 8) & 255] ^ t3[b & 255] ^ w[r + 2],
            t0[d >> 24] ^ t1[(a >> 16) & 255] ^ t2[(b >> 8) & 255] ^ t3[c & 255] ^ w[r + 3],
        )
    o = []
    for i, (p, q, r_, s) in enumerate(((a, b, c, d), (b, c, d, a), (c, d, a, b), (d, a, b, c))):
        o.append(((sb[p >> 24] << 24) | (sb[(q >> 16) & 255] << 16) | (sb[(r_ >> 8) & 255] << 8) | sb[s & 255]) ^ w[40 + i])
    return (o[0] << 96) | (o[1] << 64) | (o[2] << 32) | o[3]


def aes_cfb_encrypt(key: bytes, iv: bytes, data: bytes) -> bytes:
    w = _aes_keys(key)
    prev = int.from_bytes(iv, "big")
    out = []
    for i in range(0, len(data), 16):
        p = data[i : i + 16]
        n = len(p)
        ks = _aes_block(prev, w) >> (8 * (16 - n))
        c = (int.from_bytes(p, "big") ^ ks).to_bytes(n, "big")
        out.append(c)
        prev = int.from_bytes(c, "big")
    return b"".join(out)


def aes_cfb_decrypt(key: bytes, iv: bytes, data: bytes) -> bytes:
    w = _aes_keys(key)
    prev = int.from_bytes(iv, "big")
    out = []
    for i in range(0, len(data), 16):
        c = data[i : i + 16]
        n = len(c)
        ks = _aes_block(prev, w) >> (8 * (16 - n))
        out.append((int.from_bytes(c, "big") ^ ks).to_bytes(n, "big"))
        prev = int.from_bytes(c, "big")
    return b"".join(out)


# ------------------------------------------------------- RFC 3414 keys ----
HASH = {"md5": hashlib.md5, "sha1": hashlib.sha1}
KEY_SIZE = {"md5": 16, "sha1": 20}


@lru_cache(maxsize=4096)
def master_key(alg: str, password: bytes) -> bytes:
    """RFC 3414 A.2: hash of 1048576 octets of the repeated password."""
    n = 1 << 20
    reps = n // len(password) + 1
    return HASH[alg]((password * reps)[:n]).digest()


@lru_cache(maxsize=65536)
def localize(alg: str, master: bytes, engine_id: bytes) -> bytes:
    return HASH[alg](master + engine_id + master).digest()


def hmac96(alg: str, key: bytes, data: bytes) -> bytes:
    return _hmac.new(key, data, HASH[alg]).digest()[:12]


# ------------------------------------------------------------ privacy ----


def priv_encrypt(alg: str, key: bytes, salt: bytes, boots: int, time: int, data: bytes, pad: bytes = b"") -> bytes:
    if alg == "des":
        iv = bytes(a ^ b for a, b in zip(key[8:16], salt))
        data = data + pad
        data += b"\0" * (-len(data) % 8)
        return des_cbc_encrypt(key[:8], iv, data)
    iv = (boots & 0xFFFFFFFF).to_bytes(4, "big") + (time & 0xFFFFFFFF).to_bytes(4, "big") + salt
    return aes_cfb_encrypt(key[:16], iv, data + pad)


def priv_decrypt(alg: str, key: bytes, salt: bytes, boots: int, time: int, data: bytes) -> bytes:
    if alg == "des":
        iv = bytes(a ^ b for a, b in zip(key[8:16], salt))
        return des_cbc_decrypt(key[:8], iv, data)
    iv = (boots & 0xFFFFFFFF).to_bytes(4, "big") + (time & 0xFFFFFFFF).to_bytes(4, "big") + salt
    return aes_cfb_decrypt(key[:16], iv, data)


def selftest() -> None:
    h = bytes.fromhex
    # FIPS 46-3 / NBS SP 500-20 vectors
    assert _des_block(h("0123456789abcde7"), _des_keys(h("0123456789abcdef"))) == h("c95744256a5ed31d")
    assert _des_block(h("0000000000000000"), _des_keys(h("0000000000000000"))) == h("8ca64de9c1b123a7")
    assert _des_block(h("1111111111111111"), _des_keys(h("0123456789abcdef"))) == h("17668dfc7292532d")
    assert _des_block(h("8000000000000000"), _des_keys(h("0101010101010101"))) == h("95f8a5e5dd31d900")
    # FIPS 81 CBC
    k, iv = h("0123456789abcdef"), h("1234567890abcdef")
    p = b"Now is the time for all "
    c = h("e5c7cdde872bf27c43e934008c389c0f683788499a7c05f6")
    assert des_cbc_encrypt(k, iv, p) == c
    assert des_cbc_decrypt(k, iv, c) == p
    # FIPS 197 C.1
    assert _aes_block(int("00112233445566778899aabbccddeeff", 16), _aes_keys(h("000102030405060708090a0b0c0d0e0f"))) == int(
        "69c4e0d86a7b0430d8cdb78070b4c55a", 16
    )
    # NIST SP 800-38A F.3.13 CFB128-AES128
    k = h("2b7e151628aed2a6abf7158809cf4f3c")
    iv = h("000102030405060708090a0b0c0d0e0f")
    p = h("6bc1bee22e409f96e93d7e117393172aae2d8a571e03ac9c9eb76fac45af8e5130c81c46a35ce411e5fbc1191a0a52eff69f2445df4f9b17ad2b417be66c3710")
    c = h("3b3fd92eb72dad20333449f8e83cfb4ac8a64537a0b3a93fcde3cdad9f1ce58b26751f67a3cbb140b1808cf187a4f4dfc04b05357c5d1c0eeac4c66f9ff7f2e6")
    assert aes_cfb_encrypt(k, iv, p) == c
    assert aes_cfb_decrypt(k, iv, c) == p
    assert aes_cfb_decrypt(k, iv, c[:37]) == p[:37]
    # RFC 3414 A.3
    e = h("000000000000000000000002")
    m = master_key("md5", b"maplesyrup")
    assert m == h("9faf3283884e92834ebc9847d8edd963")
    assert localize("md5", m, e) == h("526f5eed9fcce26f8964c2930787d82b")
    m = master_key("sha1", b"maplesyrup")
    assert m == h("9fb5cc0381497b3793528939ff788d5d79145211")
    assert localize("sha1", m, e) == h("6695febc9288e36282235fc7151f128497b38f3f")
    # RFC 2202
    assert hmac96("md5", b"\x0b" * 16, b"Hi There") == h("9294727a3638bb1c13f48ef8158bfc9d")[:12]
    assert hmac96("sha1", b"\x0b" * 20, b"Hi There") == h("b617318655057264e28bc0b6fb378c8ef146be00")[:12]


if __name__ == "__main__":
    selftest()
    import time

    t = time.time()
    for _ in range(2000):
        des_cbc_encrypt(b"abcdefgh", b"\0" * 8, b"x" * 64)
    print("des us/block", (time.time() - t) / 16000 * 1e6)
    t = time.time()
    for _ in range(2000):
        aes_cfb_encrypt(b"abcdefghabcdefgh", b"\0" * 16, b"x" * 64)
    print("aes us/block", (time.time() - t) / 8000 * 1e6)
