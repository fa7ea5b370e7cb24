"""Encoding methods of RFC 8017, and what decoding must accept."""

from .numth import der, der_oid, der_seq
from .oracle import HASHES

_NIST = (2, 16, 840, 1, 101, 3, 4, 2)
_B2 = (1, 3, 6, 1, 4, 1, 1722, 12, 2)
OIDS = {
    "BLAKE2B_160": _B2 + (1, 5), "BLAKE2B_256": _B2 + (1, 8),
    "BLAKE2B_384": _B2 + (1, 12), "BLAKE2B_512": _B2 + (1, 16),
    "BLAKE2S_128": _B2 + (2, 4), "BLAKE2S_160": _B2 + (2, 5),
    "BLAKE2S_224": _B2 + (2, 7), "BLAKE2S_256": _B2 + (2, 8),
    # the identifier this library and its siblings use for GOST 94
    "GOST94": (1, 2, 643, 2, 2, 20),
    "MD2": (1, 2, 840, 113549, 2, 2), "MD4": (1, 2, 840, 113549, 2, 4),
    "MD5": (1, 2, 840, 113549, 2, 5),
    "RIPEMD160": (1, 3, 36, 3, 2, 1), "SHA1": (1, 3, 14, 3, 2, 26),
    "SHA224": _NIST + (4,), "SHA256": _NIST + (1,), "SHA384": _NIST + (2,),
    "SHA512": _NIST + (3,), "SHA3_224": _NIST + (7,),
    "SHA3_256": _NIST + (8,), "SHA3_384": _NIST + (9,),
    "SHA3_512": _NIST + (10,), "SHAKE128": _NIST + (11,),
    "SHAKE256": _NIST + (12,), "WHIRLPOOL": (1, 0, 10118, 3, 0, 55),
}


def digest_info(name, h):
    if name not in OIDS:
        return h
    return der_seq(der_seq(der_oid(*OIDS[name]), der(5, b"")), der(4, h))


def type1(t, k):
    """EMSA-PKCS1-v1_5; None if it does not fit."""
    if k < len(t) + 11:
        return None
    return b"\0\1" + b"\xff" * (k - len(t) - 3) + b"\0" + t


def type2_decode(em):
    """message or None"""
    if em[:2] != b"\0\2":
        return None
    i = em.find(b"\0", 2)
    return None if i < 10 else em[i + 1:]


def mgf1(name, seed, n):
    h = HASHES[name][2]
    out = b""
    i = 0
    while len(out) < n:
        out += h(seed + i.to_bytes(4, "big"))
        i += 1
    return out[:n]


def xor(a, b):
    return (int.from_bytes(a, "big") ^ int.from_bytes(b, "big")).to_bytes(
        len(a), "big")


def pss_encode(name, mh, embits, salt, ps=None, sep=1, bc=0xbc, top=0):
    """EMSA-PSS, with hooks to build near misses."""
    hl = HASHES[name][0]
    n = (embits + 7) // 8
    if n < hl + len(salt) + 2:
        return None
    h = HASHES[name][2](b"\0" * 8 + mh + salt)
    if ps is None:
        ps = b"\0" * (n - hl - len(salt) - 2)
    db = bytearray(xor(ps + bytes([sep]) + salt, mgf1(name, h, n - hl - 1)))
    db[0] &= 0xff >> (8 * n - embits)
    db[0] |= top
    return bytes(db) + h + bytes([bc])


def pss_verify(name, mh, em, embits, slen):
    """slen None: recover the salt length"""
    hl = HASHES[name][0]
    n = len(em)
    if n < hl + (slen or 0) + 2 or em[-1] != 0xbc:
        return False
    keep = 0xff >> (8 * n - embits)
    if em[0] & ~keep & 0xff:
        return False
    h = em[n - hl - 1:n - 1]
    db = bytearray(xor(em[:n - hl - 1], mgf1(name, h, n - hl - 1)))
    db[0] &= keep
    i = 0
    while i < len(db) and db[i] == 0:
        i += 1
    if i == len(db) or db[i] != 1:
        return False
    salt = bytes(db[i + 1:])
    if slen is not None and len(salt) != slen:
        return False
    return HASHES[name][2](b"\0" * 8 + mh + salt) == h


def oaep_encode(name, k, msg, label, seed):
    hl, _, h = HASHES[name]
    if len(msg) > k - 2 * hl - 2:
        return None
    db = h(label) + b"\0" * (k - len(msg) - 2 * hl - 2) + b"\1" + msg
    return oaep_mask(name, b"\0", seed, db)


def oaep_mask(name, first, seed, db):
    db = xor(db, mgf1(name, seed, len(db)))
    return first + xor(seed, mgf1(name, db, len(seed))) + db


def oaep_open(name, em, label):
    """(first byte, seed, db)"""
    hl = HASHES[name][0]
    seed, db = em[1:1 + hl], em[1 + hl:]
    seed = xor(seed, mgf1(name, db, hl))
    return em[:1], seed, xor(db, mgf1(name, seed, len(db)))


def oaep_decode(name, em, label):
    hl, _, h = HASHES[name]
    if len(em) < 2 * hl + 2:
        return None
    y, _, db = oaep_open(name, em, label)
    if y != b"\0" or db[:hl] != h(label):
        return None
    rest = db[hl:].lstrip(b"\0")
    return rest[1:] if rest[:1] == b"\1" else None
