"""Independent implementation of the age-encryption.org/v1 format (strict parser, writer),
plus the ssh-ed25519 construction and the legacy body layout of earlier pyage versions."""
import base64
import hashlib
import hmac as _hmac
import re

from nacl.bindings import (
    crypto_aead_chacha20poly1305_ietf_decrypt as _aead_dec,
    crypto_aead_chacha20poly1305_ietf_encrypt as _aead_enc,
)
from nacl.exceptions import CryptoError

from ref import curve

CHUNK = 65536


class FormatError(Exception):
    pass


class AuthError(Exception):
    pass


# ---------------------------------------------------------------- primitives
def b64(data):
    return base64.b64encode(data).decode().rstrip("=")


def unb64(s):
    """strict, canonical, unpadded"""
    if not re.fullmatch(r"[A-Za-z0-9+/]*", s) or len(s) % 4 == 1:
        raise FormatError("base64")
    d = base64.b64decode(s + "=" * (-len(s) % 4))
    if b64(d) != s:
        raise FormatError("non-canonical base64")
    return d


def hmac256(key, msg):
    """RFC 2104 by hand"""
    if len(key) > 64:
        key = hashlib.sha256(key).digest()
    key = key.ljust(64, b"\0")
    inner = hashlib.sha256(bytes(k ^ 0x36 for k in key) + msg).digest()
    return hashlib.sha256(bytes(k ^ 0x5C for k in key) + inner).digest()


def hkdf(salt, info, ikm, length):
    prk = hmac256(salt or b"\0" * 32, ikm)
    out, t, i = b"", b"", 1
    while len(out) < length:
        t = hmac256(prk, t + info + bytes([i]))
        out += t
        i += 1
    return out[:length]


def aead_seal(key, nonce, data):
    return _aead_enc(bytes(data), None, nonce, key)


def aead_open(key, nonce, data):
    if len(data) < 16:
        raise AuthError("short ciphertext")
    try:
        return _aead_dec(bytes(data), None, nonce, key)
    except CryptoError:
        raise AuthError("AEAD")


def scrypt(password, salt, logn):
    return hashlib.scrypt(password, salt=salt, n=1 << logn, r=8, p=1, dklen=32, maxmem=(1 << logn) * 1024 * 2 + (1 << 24))


# ---------------------------------------------------------------- RSA-OAEP(SHA-256) by hand
def _mgf1(seed, n):
    out, i = b"", 0
    while len(out) < n:
        out += hashlib.sha256(seed + i.to_bytes(4, "big")).digest()
        i += 1
    return out[:n]


def _xor(a, b):
    return bytes(x ^ y for x, y in zip(a, b))


def oaep_encrypt(n, e, label, msg, seed):
    k = (n.bit_length() + 7) // 8
    h = hashlib.sha256(label).digest()
    if len(msg) > k - 66:
        raise FormatError("message too long")
    db = h + b"\0" * (k - len(msg) - 66) + b"\1" + msg
    mdb = _xor(db, _mgf1(seed, k - 33))
    ms = _xor(seed, _mgf1(mdb, 32))
    return pow(int.from_bytes(b"\0" + ms + mdb, "big"), e, n).to_bytes(k, "big")


def _power(c, n, d, primes):
    if not primes:
        return pow(c, d, n)
    p, q = primes
    a, b = pow(c % p, d % (p - 1), p), pow(c % q, d % (q - 1), q)
    return b + (a - b) * pow(q, -1, p) % p * q


def oaep_decrypt(n, d, label, ct, primes=None):
    k = (n.bit_length() + 7) // 8
    c = int.from_bytes(ct, "big")
    if len(ct) != k or c >= n:
        raise AuthError("OAEP length")
    em = _power(c, n, d, primes).to_bytes(k, "big")
    seed = _xor(em[1:33], _mgf1(em[33:], 32))
    db = _xor(em[33:], _mgf1(seed, k - 33))
    rest = db[32:].lstrip(b"\0")
    if em[0] or db[:32] != hashlib.sha256(label).digest() or not rest.startswith(b"\1"):
        raise AuthError("OAEP")
    return rest[1:]


def sshstr(b):
    return len(b).to_bytes(4, "big") + b


def mpint(n):
    b = n.to_bytes((n.bit_length() + 7) // 8, "big")
    if b and b[0] & 0x80:
        b = b"\0" + b
    return sshstr(b)


def rsa_blob(n, e):
    return sshstr(b"ssh-rsa") + mpint(e) + mpint(n)


def ed_blob(pk):
    return sshstr(b"ssh-ed25519") + sshstr(pk)


# ---------------------------------------------------------------- stanzas: (args, body bytes)
X_LABEL = b"age-encryption.org/v1/X25519"
S_LABEL = b"age-encryption.org/v1/scrypt"
R_LABEL = b"age-encryption.org/v1/ssh-rsa"
E_LABEL = b"age-encryption.org/v1/ssh-ed25519"
Z12 = b"\0" * 12


def wrap_x25519(pk, fk, eph):
    share = curve.x25519_base(eph)
    key = hkdf(share + pk, X_LABEL, curve.x25519(eph, pk), 32)
    return ["X25519", b64(share)], aead_seal(key, Z12, fk)


def unwrap_x25519(sk, stanza):
    args, body = stanza
    if len(args) != 2:
        raise FormatError("X25519 args")
    share = unb64(args[1])
    if len(share) != 32 or len(body) != 32:
        raise FormatError("X25519 sizes")
    shared = curve.x25519(sk, share)
    if not any(shared):
        raise FormatError("low order share")
    return aead_open(hkdf(share + curve.x25519_base(sk), X_LABEL, shared, 32), Z12, body)


def wrap_scrypt(pw, fk, salt, logn):
    return ["scrypt", b64(salt), str(logn)], aead_seal(scrypt(pw, S_LABEL + salt, logn), Z12, fk)


def unwrap_scrypt(pw, stanza, kdf=scrypt):
    args, body = stanza
    if len(args) != 3 or not re.fullmatch("[1-9][0-9]?", args[2]):
        raise FormatError("scrypt args")
    salt = unb64(args[1])
    if len(salt) != 16 or len(body) != 32:
        raise FormatError("scrypt sizes")
    return aead_open(kdf(pw, S_LABEL + salt, int(args[2])), Z12, body)


def wrap_rsa(n, e, fk, seed):
    tag = hashlib.sha256(rsa_blob(n, e)).digest()[:4]
    return ["ssh-rsa", b64(tag)], oaep_encrypt(n, e, R_LABEL, fk, seed)


def unwrap_rsa(n, e, d, stanza, primes=None):
    args, body = stanza
    if len(args) != 2 or unb64(args[1]) != hashlib.sha256(rsa_blob(n, e)).digest()[:4]:
        raise AuthError("tag")
    return oaep_decrypt(n, d, R_LABEL, body, primes)


def _tweak(pk):
    t = int.from_bytes(hkdf(ed_blob(pk), E_LABEL, b"", 64), "little") % curve.L
    return t.to_bytes(32, "little")


def wrap_ed25519_pyage(pk, fk, eph):
    """the construction pyage has always written (an early draft of the age format)"""
    target = curve.x25519(_tweak(pk), curve.ed25519_pk_to_x25519(pk))
    share = curve.x25519_base(eph)
    key = hkdf(share + target, X_LABEL, curve.x25519(eph, target), 32)
    return (["ssh-ed25519", b64(hashlib.sha256(ed_blob(pk)).digest()[:4]), b64(share)],
            aead_seal(key, Z12, fk))


def unwrap_ed25519_pyage(seed, stanza):
    args, body = stanza
    pk = curve.ed25519_public(seed)
    if len(args) != 3 or unb64(args[1]) != hashlib.sha256(ed_blob(pk)).digest()[:4]:
        raise AuthError("tag")
    share = unb64(args[2])
    if len(share) != 32 or len(body) != 32:
        raise FormatError("ssh-ed25519 sizes")
    tw = _tweak(pk)
    target = curve.x25519(tw, curve.ed25519_pk_to_x25519(pk))
    shared = curve.x25519(curve.ed25519_sk_to_x25519(seed), curve.x25519(tw, share))
    return aead_open(hkdf(share + target, X_LABEL, shared, 32), Z12, body)


# ---------------------------------------------------------------- header
INTRO = b"age-encryption.org/v1\n"


def body_lines(body, legacy=False):
    s = b64(body)
    lines = [s[i:i + 64] for i in range(0, len(s), 64)]
    if not legacy and len(s) % 64 == 0:
        lines.append("")
    return lines


def write_header(stanzas, fk, legacy=False):
    """returns (authenticated part up to and including '---', full header incl. newline)"""
    h = INTRO
    for args, body in stanzas:
        h += ("-> " + " ".join(args) + "\n").encode()
        for line in body_lines(body, legacy):
            h += line.encode() + b"\n"
    h += b"---"
    return h, h + b" " + b64(header_mac(fk, h)).encode() + b"\n"


def header_mac(fk, authenticated):
    return hmac256(hkdf(b"", b"header", fk, 32), authenticated)


_VCHARS = re.compile(r"[\x21-\x7e]+")


def parse_header(data):
    """strict parser: returns (stanzas, authenticated bytes, mac, offset of the payload)"""
    pos = 0

    def line():
        nonlocal pos
        i = data.find(b"\n", pos)
        if i < 0:
            raise FormatError("unterminated line")
        s = data[pos:i]
        pos = i + 1
        try:
            return s.decode("ascii")
        except UnicodeDecodeError:
            raise FormatError("non-ASCII header")

    if line() != INTRO.decode()[:-1]:
        raise FormatError("intro")
    stanzas = []
    while True:
        start = pos
        cur = line()
        if cur.startswith("---"):
            if not stanzas:
                raise FormatError("no stanzas")
            m = re.fullmatch(r"--- ([A-Za-z0-9+/]{43})", cur)
            if not m:
                raise FormatError("MAC line %r" % cur)
            return stanzas, data[:start + 3], unb64(m.group(1)), pos
        if not cur.startswith("-> "):
            raise FormatError("stanza line %r" % cur)
        args = cur[3:].split(" ")
        if not all(_VCHARS.fullmatch(a) for a in args):
            raise FormatError("arguments %r" % cur)
        body = ""
        while True:
            cur = line()
            if len(cur) > 64:
                raise FormatError("body line too long")
            if cur.startswith("-"):
                raise FormatError("body not terminated by a short line")
            body += cur
            if len(cur) < 64:
                break
        stanzas.append((args, unb64(body)))


# ---------------------------------------------------------------- payload
def stream_seal(key, data, chunk=CHUNK):
    out = []
    n = max(1, -(-len(data) // chunk))
    for i in range(n):
        out.append(aead_seal(key, i.to_bytes(11, "big") + (b"\1" if i == n - 1 else b"\0"),
                             data[i * chunk:(i + 1) * chunk]))
    return b"".join(out)


def stream_open(key, data, chunk=CHUNK):
    out = []
    c = chunk + 16
    n = max(1, -(-len(data) // c))
    for i in range(n):
        out.append(aead_open(key, i.to_bytes(11, "big") + (b"\1" if i == n - 1 else b"\0"),
                             data[i * c:(i + 1) * c]))
    if n > 1 and not out[-1]:
        raise AuthError("empty final chunk")
    return b"".join(out)


def payload_key(fk, nonce):
    return hkdf(nonce, b"payload", fk, 32)


def write_file(stanzas, fk, nonce, plaintext, legacy=False):
    _, h = write_header(stanzas, fk, legacy)
    return h + nonce + stream_seal(payload_key(fk, nonce), plaintext)


def open_with_key(data, fk):
    """strictly parse and authenticate everything under file key fk; returns the plaintext"""
    stanzas, auth, mac, pos = parse_header(data)
    if len(fk) != 16:
        raise FormatError("file key size")
    if not _hmac.compare_digest(header_mac(fk, auth), mac):
        raise AuthError("header MAC")
    if len(data) < pos + 16:
        raise FormatError("nonce")
    return stream_open(payload_key(fk, data[pos:pos + 16]), data[pos + 16:])
