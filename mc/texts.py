"""Text encodings from their definitions: base16/32/58/64, Bech32, CashAddr."""

B32 = "abcdefghijklmnopqrstuvwxyz234567"
B32HEX = "0123456789abcdefghijklmnopqrstuv"
B58 = "123456789ABCDEFGHJKLMNPQRSTUVWXYZabcdefghijkmnopqrstuvwxyz"
B64 = "ABCDEFGHIJKLMNOPQRSTUVWXYZabcdefghijklmnopqrstuvwxyz0123456789+/"
B64URL = B64[:-2] + "-_"
BECH = "qpzry9x8gf2tvdw0s3jn54khce6mua7l"


def group(data, frm, to, pad):
    """Regroup bits; None if the padding rules of decoding are broken."""
    n = frm * len(data)
    v = 0
    for d in data:
        v = (v << frm) | d
    full = n // to
    rest = n % to
    out = [(v >> (n - to * (i + 1))) & ((1 << to) - 1) for i in range(full)]
    tail = v & ((1 << rest) - 1)
    if pad:
        if rest:
            out.append(tail << (to - rest))
    elif tail or rest >= frm:
        return None
    return out


def b_enc(data, chars, bits, pad):
    s = "".join(chars[i] for i in group(data, 8, bits, True))
    if pad:
        while len(s) * bits % 8:
            s += "="
    return s.encode()


def b_dec(s, chars, bits, pad, fold):
    """None unless s is the text of some byte string."""
    if fold:
        # ASCII only
        s = bytes(c + 32 if 65 <= c <= 90 else c for c in s)
    t = s.rstrip(b"=") if pad else s
    try:
        v = [chars.index(chr(c)) for c in t]
    except ValueError:
        return None
    out = group(v, bits, 8, False)
    if out is None:
        return None
    out = bytes(out)
    return out if b_enc(out, chars, bits, pad) == s else None


def b58_enc(data):
    n = int.from_bytes(data, "big")
    s = ""
    while n:
        s = B58[n % 58] + s
        n //= 58
    return ("1" * (len(data) - len(data.lstrip(b"\0"))) + s).encode()


def b58_dec(s):
    n = 0
    for c in s:
        i = B58.find(chr(c))
        if i < 0:
            return None
        n = n * 58 + i
    z = len(s) - len(s.lstrip(b"1"))
    return bytes(z) + n.to_bytes((n.bit_length() + 7) // 8, "big")


def bech_polymod(values):
    gen = (0x3b6a57b2, 0x26508e6d, 0x1ea119fa, 0x3d4233dd, 0x2a1462b3)
    chk = 1
    for v in values:
        b = chk >> 25
        chk = (chk & 0x1ffffff) << 5 ^ v
        for i in range(5):
            if (b >> i) & 1:
                chk ^= gen[i]
    return chk


def hrp_expand(hrp):
    return [c >> 5 for c in hrp] + [0] + [c & 31 for c in hrp]


def bech_ser(hrp, data, const):
    """None when BIP 173 does not admit the arguments."""
    if not 1 <= len(hrp) <= 83 or any(c < 33 or c > 126 for c in hrp):
        return None
    if any(65 <= c <= 90 for c in hrp) or any(d > 31 for d in data):
        return None
    if len(hrp) + 1 + len(data) + 6 > 90:
        return None
    pm = bech_polymod(hrp_expand(hrp) + list(data) + [0] * 6) ^ const
    chk = [(pm >> 5 * (5 - i)) & 31 for i in range(6)]
    return hrp + b"1" + "".join(BECH[d] for d in list(data) + chk).encode()


def bech_des(s, const):
    if len(s) > 90 or any(c < 33 or c > 126 for c in s):
        return None
    low, up = s.lower(), s.upper()
    if s != low and s != up:
        return None
    pos = low.rfind(b"1")
    if pos < 1 or pos + 7 > len(s):
        return None
    try:
        data = [BECH.index(chr(c)) for c in low[pos + 1:]]
    except ValueError:
        return None
    hrp = low[:pos]
    # The checksum covers the lower-case prefix.
    if bech_polymod(hrp_expand(hrp) + data) != const:
        return None
    return hrp, bytes(data[:-6])


def bech_enc(hrp, ver, h, const):
    if not 0 <= ver <= 31 or not 2 <= len(h) <= 40:
        return None
    return bech_ser(hrp, [ver] + group(h, 8, 5, True), const)


def bech_dec(s, const):
    r = bech_des(s, const)
    if r is None or not r[1]:
        return None
    h = group(r[1][1:], 5, 8, False)
    if h is None or not 2 <= len(h) <= 40:
        return None
    return r[0], r[1][0], bytes(h)


def cash_polymod(values):
    gen = (0x98f2bc8e61, 0x79b76d99e2, 0xf33e5fb3c4, 0xae2eabe2a8,
           0x1e4f43e470)
    c = 1
    for d in values:
        c0 = c >> 35
        c = ((c & 0x07ffffffff) << 5) ^ d
        for i in range(5):
            if (c0 >> i) & 1:
                c ^= gen[i]
    return c ^ 1


def cash_ser(prefix, data):
    if not 1 <= len(prefix) <= 83 or any(c < 97 or c > 122 for c in prefix):
        return None
    if len(data) > 104 or any(d > 31 for d in data):
        return None
    pm = cash_polymod([c & 31 for c in prefix] + [0] + list(data) + [0] * 8)
    chk = [(pm >> 5 * (7 - i)) & 31 for i in range(8)]
    return prefix + b":" + "".join(BECH[d] for d in list(data) + chk).encode()


def cash_des(s, fallback):
    if s != s.lower() and s != s.upper():
        return None
    s = s.lower()
    if s.count(b":") > 1:
        return None
    if b":" in s:
        prefix, body = s.split(b":")
    else:
        prefix, body = fallback, s
    if not 1 <= len(prefix) <= 83 or any(c < 97 or c > 122 for c in prefix):
        return None
    if not 8 <= len(body) <= 112:
        return None
    try:
        data = [BECH.index(chr(c)) for c in body]
    except ValueError:
        return None
    if cash_polymod([c & 31 for c in prefix] + [0] + data):
        return None
    return prefix, bytes(data[:-8])


CASH_SIZES = (20, 24, 28, 32, 40, 48, 56, 64)


def cash_enc(prefix, typ, h):
    if not 0 <= typ <= 15 or len(h) not in CASH_SIZES:
        return None
    v = typ << 3 | CASH_SIZES.index(len(h))
    return cash_ser(prefix, group(bytes([v]) + h, 8, 5, True))


def cash_dec(s, expect):
    r = cash_des(s, expect)
    if r is None or r[0] != expect:
        return None
    d = group(r[1], 5, 8, False)
    if not d or d[0] & 0x80:
        return None
    if len(d) - 1 != CASH_SIZES[d[0] & 7]:
        return None
    return d[0] >> 3, bytes(d[1:])


def selftest():
    import base64
    for n in range(12):
        b = bytes(range(200, 200 + n))
        assert b_enc(b, B64, 6, True) == base64.b64encode(b)
        assert b_enc(b, B32, 5, True).upper() == base64.b32encode(b)
        assert b_dec(base64.b64encode(b), B64, 6, True, False) == b
    assert b58_enc(bytes.fromhex("0000287fb4cd")) == b"11233QC4"
    prog = bytes.fromhex("751e76e8199196d454941c45d1b3a323f1433bd6")
    assert bech_enc(b"bc", 0, prog, 1) == \
        b"bc1qw508d6qejxtdg4y5r3zarvary0c5xw7kv8f3t4"
    assert bech_des(b"A1LQFN3A", 0x2bc830a3) == (b"a", b"")
    assert cash_enc(b"bitcoincash", 0, bytes.fromhex(
        "F5BF48B397DAE70BE82B3CCA4793F8EB2B6CDAC9")) == \
        b"bitcoincash:qr6m7j9njldwwzlg9v7v53unlr4jkmx6eylep8ekg2"
