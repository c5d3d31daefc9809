"""Bech32 (BIP-173 without the length limit), written from the specification."""
CHARSET = "qpzry9x8gf2tvdw0s3jn54khce6mua7l"
GEN = (0x3B6A57B2, 0x26508E6D, 0x1EA119FA, 0x3D4233DD, 0x2A1462B3)


def polymod(values):
    c = 1
    for v in values:
        b = c >> 25
        c = ((c & 0x1FFFFFF) << 5) ^ v
        for i, g in enumerate(GEN):
            if b >> i & 1:
                c ^= g
    return c


def expand(hrp):
    return [ord(x) >> 5 for x in hrp] + [0] + [ord(x) & 31 for x in hrp]


def checksum(hrp, data):
    m = polymod(expand(hrp) + list(data) + [0] * 6) ^ 1
    return [m >> (25 - 5 * i) & 31 for i in range(6)]


def to5(data):
    n = len(data) * 8
    v = int.from_bytes(data, "big")
    pad = -n % 5
    v <<= pad
    count = (n + pad) // 5
    return [v >> 5 * (count - 1 - i) & 31 for i in range(count)]


def encode_words(hrp, words):
    return hrp + "1" + "".join(CHARSET[w] for w in list(words) + checksum(hrp, words))


def encode(hrp, data):
    return encode_words(hrp, to5(data))


def decode(s):
    """(hrp, bytes) or ValueError"""
    if any(not 33 <= ord(c) <= 126 for c in s):
        raise ValueError("character")
    if any(c.islower() for c in s) and any(c.isupper() for c in s):
        raise ValueError("mixed case")
    s = s.lower()
    i = s.rfind("1")
    if i < 1 or i > 83 or len(s) - i - 1 < 6:
        raise ValueError("separator")
    hrp, rest = s[:i], s[i + 1:]
    if any(c not in CHARSET for c in rest):
        raise ValueError("charset")
    words = [CHARSET.index(c) for c in rest]
    if polymod(expand(hrp) + words) != 1:
        raise ValueError("checksum")
    words = words[:-6]
    v = 0
    for w in words:
        v = v << 5 | w
    bits = 5 * len(words)
    pad = bits % 8
    if pad >= 5 or v & ((1 << pad) - 1):
        raise ValueError("padding")
    return hrp, (v >> pad).to_bytes(bits // 8, "big")
