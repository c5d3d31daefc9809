"""Pairs of different keys that look alike: they agree in two or three bytes or characters of one of their
representations (found by birthday search over some thousand keys)."""
import base64
import collections
import functools
import hashlib
import zlib

from cryptography.hazmat.primitives.asymmetric.ed25519 import Ed25519PrivateKey
from cryptography.hazmat.primitives.asymmetric.x25519 import X25519PrivateKey
from cryptography.hazmat.primitives.serialization import Encoding, PublicFormat

from ref import bech32
from vf import kit


def views(raw, blob, text=None):
    """the representations: (name, value) with few enough bits to collide"""
    md5, sha = hashlib.md5(blob).digest(), hashlib.sha256(blob).digest()
    b64 = base64.b64encode(sha)
    yield "first bytes", raw[:2]
    yield "last bytes", raw[-2:]
    yield "middle bytes", raw[len(raw) // 2:][:2]
    yield "md5 first", md5[:2]
    yield "md5 last", md5[-2:]
    yield "sha256 first", sha[:2]
    yield "sha256 last", sha[-2:]
    yield "fingerprint first", b64[:3]
    yield "fingerprint last", b64[-4:-1]
    yield "crc32", zlib.crc32(blob) & 0xFFFF
    yield "adler32", zlib.adler32(raw)
    yield "sum", sum(raw)
    yield "sorted", bytes(sorted(raw))[:6]
    yield "number modulo 2^16-15", int.from_bytes(raw, "big") % 65521
    if text is not None:
        yield "string first", text[:7]
        yield "string last", text[-3:]
        yield "string before the checksum", text[-9:-6]


def pairs_of(items, per_view):
    """items: list of (spec, raw, blob, text) -> list of (view, spec, spec)"""
    seen = collections.defaultdict(dict)
    found = collections.Counter()
    out = []
    for spec, raw, blob, text in items:
        for name, value in views(raw, blob, text):
            if found[name] >= per_view:
                continue
            other = seen[name].setdefault(value, spec)
            if other is not spec:
                found[name] += 1
                out.append((name, other, spec))
    return out


@functools.lru_cache(None)
def secret_pairs(t, n=1500, per_view=4):
    items = []
    for i in range(n):
        sk = kit.bseed("alike", t, i)
        if t == "age":
            raw = X25519PrivateKey.from_private_bytes(sk).public_key().public_bytes(Encoding.Raw, PublicFormat.Raw)
            items.append(({"t": "age", "sk": sk}, raw, raw, bech32.encode("age", raw)))
        elif t == "age-secret":
            raw = sk
            items.append(({"t": "age", "sk": sk}, raw, raw, bech32.encode("age-secret-key-", raw)))
        else:
            raw = Ed25519PrivateKey.from_private_bytes(sk).public_key().public_bytes(Encoding.Raw, PublicFormat.Raw)
            blob = b"\0\0\0\x0bssh-ed25519\0\0\0\x20" + raw
            items.append(({"t": "ed", "seed": sk}, raw, blob, base64.b64encode(blob).decode()))
    return pairs_of(items, per_view)


@functools.lru_cache(None)
def rsa_pairs(n=1500, per_view=4):
    """public keys of one modulus and of neighbouring moduli"""
    items = []
    mod = kit.RSA[0]["n"]
    for i in range(n):
        k = {"t": "rsa", "n": mod + ((i % 3) << 40), "e": 3 + 2 * i}

        def mp(x):
            b = x.to_bytes(x.bit_length() // 8 + 1, "big")
            return len(b).to_bytes(4, "big") + b
        blob = b"\0\0\0\x07ssh-rsa" + mp(k["e"]) + mp(k["n"])
        items.append((k, blob[11:], blob, base64.b64encode(blob).decode()))
    return pairs_of(items, per_view)


PASSPHRASES = [
    (b"correct horse battery staple", b"correct horse battery stapler"), (b"x" * 72 + b"a", b"x" * 72 + b"b"),
    (b"x" * 72, b"x" * 73), (b"y" * 55, b"y" * 56), (b"abc", b"ABC"), (b"abc", b"abc "), (b"abc", b" abc"), (b"abc", b"abc\n"),
    (b"abc", b"abc\0"), (b"abc\0d", b"abc\0e"), ("\u00e4".encode(), "a\u0308".encode()), ("\uff41".encode(), b"a"), (b"a b", b"a  b"),
    (b"a" * 1024 + b"b", b"a" * 1024 + b"c"), (b"1", b"01"), (b"abc", b"cba"), (b"a\tb", b"a b"), (b"\xe4", "\u00e4".encode()),
    (b"z" * 128 + b"1", b"z" * 128 + b"2"), (b"q" * 63, b"q" * 63 + b"\1")]
