"""Curve25519 in plain integers (RFC 7748, RFC 8032), independent of libsodium and OpenSSL."""
import hashlib

P = 2**255 - 19
L = 2**252 + 27742317777372353535851937790883648493
D = (-121665 * pow(121666, P - 2, P)) % P
SQRT_M1 = pow(2, (P - 1) // 4, P)


def clamp(k):
    k = bytearray(k)
    k[0] &= 248
    k[31] &= 127
    k[31] |= 64
    return bytes(k)


def x25519(k, u):
    """RFC 7748 X25519(k, u); returns 32 bytes (possibly all zero)."""
    n = int.from_bytes(clamp(k), "little")
    x1 = (int.from_bytes(u, "little") & (2**255 - 1)) % P
    x2, z2, x3, z3, swap = 1, 0, x1, 1, 0
    for t in range(254, -1, -1):
        kt = (n >> t) & 1
        if swap ^ kt:
            x2, x3, z2, z3 = x3, x2, z3, z2
        swap = kt
        a = x2 + z2
        aa = a * a % P
        b = x2 - z2
        bb = b * b % P
        e = aa - bb
        c = x3 + z3
        d = x3 - z3
        da = d * a % P
        cb = c * b % P
        x3 = (da + cb) ** 2 % P
        z3 = x1 * (da - cb) ** 2 % P
        x2 = aa * bb % P
        z2 = e * (aa + 121665 * e) % P
    if swap:
        x2, x3, z2, z3 = x3, x2, z3, z2
    return (x2 * pow(z2, P - 2, P) % P).to_bytes(32, "little")


BASE_U = (9).to_bytes(32, "little")


def x25519_base(k):
    return x25519(k, BASE_U)


# --- Ed25519 (extended coordinates)
def _recover_x(y, sign):
    x2 = (y * y - 1) * pow(D * y * y + 1, P - 2, P) % P
    x = pow(x2, (P + 3) // 8, P)
    if (x * x - x2) % P:
        x = x * SQRT_M1 % P
    if (x * x - x2) % P:
        return None
    if x == 0 and sign:
        return None
    if x & 1 != sign:
        x = P - x
    return x


_BY = 4 * pow(5, P - 2, P) % P
_BX = _recover_x(_BY, 0)
_B = (_BX, _BY, 1, _BX * _BY % P)


def _add(p, q):
    a = (p[1] - p[0]) * (q[1] - q[0]) % P
    b = (p[1] + p[0]) * (q[1] + q[0]) % P
    c = 2 * p[3] * q[3] * D % P
    d = 2 * p[2] * q[2] % P
    e, f, g, h = b - a, d - c, d + c, b + a
    return (e * f % P, g * h % P, f * g % P, e * h % P)


def _mul(s, p):
    q = (0, 1, 1, 0)
    while s:
        if s & 1:
            q = _add(q, p)
        p = _add(p, p)
        s >>= 1
    return q


def ed25519_public(seed):
    h = hashlib.sha512(seed).digest()
    a = int.from_bytes(clamp(h[:32]), "little")
    x, y, z, _ = _mul(a, _B)
    zi = pow(z, P - 2, P)
    x, y = x * zi % P, y * zi % P
    return (y | ((x & 1) << 255)).to_bytes(32, "little")


def ed25519_sk_to_x25519(seed):
    return clamp(hashlib.sha512(seed).digest()[:32])


def ed25519_pk_to_x25519(pk):
    y = int.from_bytes(pk, "little") & (2**255 - 1)
    return ((1 + y) * pow(1 - y, P - 2, P) % P).to_bytes(32, "little")


# all u-coordinates of points of small order on the curve and its twist
_O8A = int.from_bytes(bytes.fromhex("e0eb7a7c3b41b8ae1656e3faf19fc46ada098deb9c32b1fd866205165f49b800"), "little")
_O8B = int.from_bytes(bytes.fromhex("5f9c95bca3508c24b1d0b1559c83ef5b04445cc4581c8e86d8224eddd09f1157"), "little")
LOW_ORDER_U = [0, 1, _O8A, _O8B, P - 1]


def low_order_encodings():
    out = []
    for u in LOW_ORDER_U:
        for v in (u, u + P, u + 2 * P):
            if v < 2**256:
                for w in (v, v ^ (1 << 255)):
                    if (w & (2**255 - 1)) % P == u % P:
                        out.append(w.to_bytes(32, "little"))
    return sorted(set(out))
