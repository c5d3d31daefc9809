"""Helpers around the public API of the code under test."""
import contextlib
import functools
import hashlib
import io
import json
import os
import sys

from cryptography.hazmat.primitives import serialization as c_ser
from cryptography.hazmat.primitives.asymmetric import rsa as c_rsa
from cryptography.hazmat.primitives.asymmetric.ed25519 import Ed25519PrivateKey as CEd
from cryptography.hazmat.primitives.kdf.scrypt import Scrypt as CScrypt

from ref import agev1, curve
from vf.core import VERIF, HarnessError, Violation

from age.file import Decryptor, Encryptor
from age.keys.agekey import AgePrivateKey, AgePublicKey
from age.keys.ed25519 import Ed25519PrivateKey, Ed25519PublicKey
from age.keys.password import PasswordKey
from age.keys.rsa import RSAPrivateKey, RSAPublicKey

with open(os.path.join(VERIF, "fixtures", "keys.json")) as _f:
    _FX = json.load(_f)
RSA = [{k: int(v, 16) if isinstance(v, str) else v for k, v in r.items()} for r in _FX["pool"] + _FX["rsa_collision"] + _FX["extra"]]
RSA_COLLIDING = (len(_FX["pool"]), len(_FX["pool"]) + 1)
ED_COLLIDING = tuple(bytes.fromhex(x) for x in _FX["ed_collision"])


# ---------------------------------------------------------------- data
ENDS = {"zeros": b"\0" * 40, "newline": b"\n", "crlf": b"\r\n", "cr": b"\r", "blank": b" \t \n\n", "eof": b"\x1a", "eot": b"\x04",
        "bom": b"\xef\xbb\xbf", "bom16": b"\xff\xfe", "gzip": b"\x1f\x8b\x08\0", "intro": b"age-encryption.org/v1\n",
        "footer": b"--- " + b"A" * 43 + b"\n", "entry": b"\n-> X25519 abc\n", "begin": b"-----BEGIN AGE ENCRYPTED FILE-----\n",
        "end": b"\n-----END AGE ENCRYPTED FILE-----\n", "padding": bytes(range(1, 17)), "pkcs": b"\x10" * 16, "iso": b"\x80" + b"\0" * 20,
        "zerochunk": b"\0" * 65536, "zerochunks": b"\0" * 131072}


def material(spec):
    """expand a plaintext spec {"len", "pat", "seed"} to bytes"""
    if isinstance(spec, (bytes, bytearray)):
        return bytes(spec)
    n, pat = spec["len"], spec.get("pat", "rand")
    if pat == "zero":
        return b"\0" * n
    if pat == "text":
        return (b"-> X25519 abc\n--- def\nage-encryption.org/v1\n\r\n-----BEGIN AGE ENCRYPTED FILE-----\n" * (n // 80 + 1))[:n]
    if pat == "ff":
        return b"\xff" * n
    if pat == "chunk":
        # every chunk is the same
        return (hashlib.shake_128(b"c%d" % spec.get("seed", 0)).digest(65536) * (n // 65536 + 1))[:n]
    edge, _, end = pat.partition(":")
    if end:
        # "head:NAME", "tail:NAME", "both:NAME": random bytes with something special at one end or both
        special = ENDS[end]
        data = bytearray(hashlib.shake_128(b"e%d" % spec.get("seed", 0)).digest(n))
        special = special[:n]
        if edge in ("head", "both"):
            data[:len(special)] = special
        if edge in ("tail", "both"):
            data[n - len(special):] = special
        return bytes(data)
    return hashlib.shake_128(b"m%d" % spec.get("seed", 0)).digest(n)


def bseed(*parts):
    return hashlib.sha256(repr(parts).encode()).digest()


# ---------------------------------------------------------------- identities
@functools.lru_cache(None)
def _rsa_der(i):
    r = RSA[i]
    p, q, d = r["p"], r["q"], r["d"]
    return c_rsa.RSAPrivateNumbers(
        p=p, q=q, d=d, dmp1=d % (p - 1), dmq1=d % (q - 1), iqmp=pow(q, -1, p),
        public_numbers=c_rsa.RSAPublicNumbers(r["e"], r["n"])).private_key(unsafe_skip_rsa_key_validation=r["n"].bit_length() > 10000).private_bytes(
            c_ser.Encoding.DER, c_ser.PrivateFormat.TraditionalOpenSSL, c_ser.NoEncryption())


def crypto_private(spec):
    if spec["t"] == "rsa":
        # an object of its own each time, as in a program which loads its keys when it needs them
        return c_ser.load_der_private_key(_rsa_der(spec["i"]), None, unsafe_skip_rsa_key_validation=True)
    return CEd.from_private_bytes(spec["seed"])


def dec_key(spec):
    t = spec["t"]
    if t == "age":
        return AgePrivateKey.from_private_bytes(spec["sk"])
    if t == "ed":
        return Ed25519PrivateKey(crypto_private(spec))
    if t == "rsa":
        return RSAPrivateKey(crypto_private(spec))
    return PasswordKey(spec["pw"])


def enc_key(spec):
    if spec["t"] == "pw":
        return PasswordKey(spec["pw"])
    return dec_key(spec).public_key()


class Pool:
    """key objects which live on: one per identity"""

    def __init__(self):
        self.enc, self.dec = {}, {}

    def dec_key(self, spec):
        i = ident_id(spec)
        if i not in self.dec:
            self.dec[i] = dec_key(spec)
        return self.dec[i]

    def enc_key(self, spec):
        i = ident_id(spec)
        if i not in self.enc:
            # a password is one object for both purposes
            self.enc[i] = self.dec_key(spec) if spec["t"] == "pw" else self.dec_key(spec).public_key()
        return self.enc[i]


def ident_id(spec):
    """what makes two identities the same one"""
    t = spec["t"]
    if t == "age":
        return (t, curve.clamp(spec["sk"]))
    if t == "ed":
        return (t, spec["seed"])
    if t == "rsa":
        return (t, RSA[spec["i"]]["n"], RSA[spec["i"]]["e"])
    return (t, spec["pw"])


def ref_wrap(spec, fk, rnd, logn=1):
    """stanza written by the independent implementation; rnd: 32 bytes of randomness"""
    t = spec["t"]
    if t == "age":
        return agev1.wrap_x25519(curve.x25519_base(spec["sk"]), fk, rnd)
    if t == "ed":
        return agev1.wrap_ed25519_pyage(curve.ed25519_public(spec["seed"]), fk, rnd)
    if t == "rsa":
        r = RSA[spec["i"]]
        return agev1.wrap_rsa(r["n"], r["e"], fk, rnd)
    return agev1.wrap_scrypt(spec["pw"], fk, rnd[:16], spec.get("logn", logn))


def ref_unwrap(spec, stanza, kdf=agev1.scrypt):
    t = spec["t"]
    if t == "age":
        return agev1.unwrap_x25519(spec["sk"], stanza)
    if t == "ed":
        return agev1.unwrap_ed25519_pyage(spec["seed"], stanza)
    if t == "rsa":
        r = RSA[spec["i"]]
        return agev1.unwrap_rsa(r["n"], r["e"], r["d"], stanza, (r["p"], r["q"]) if r["n"].bit_length() > 4000 else None)
    return agev1.unwrap_scrypt(spec["pw"], stanza, kdf)


STANZA_TAG = {"age": "X25519", "ed": "ssh-ed25519", "rsa": "ssh-rsa", "pw": "scrypt"}


# ---------------------------------------------------------------- controlled environment
class Drbg:
    def __init__(self, spec):
        self.spec = spec
        self.n = 0

    def __call__(self, size):
        self.n += 1
        mode = self.spec["mode"]
        if mode == "const":
            return bytes([self.spec["byte"]]) * size
        body = hashlib.shake_128(b"%d/%d" % (self.spec.get("seed", 0), self.n)).digest(size)
        if mode == "prefix":
            return (self.spec["pre"] + body)[:size]
        return body


@contextlib.contextmanager
def randomness(spec):
    """let the operating system's random source return chosen values"""
    if not spec or spec["mode"] == "os":
        yield
        return
    orig = os.urandom
    os.urandom = Drbg(spec)
    try:
        yield
    finally:
        os.urandom = orig


class FakeScrypt:
    """stand-in for the scrypt KDF: a keyed hash over exactly (password, salt, n, r, p, length);
    the recorded calls also tell which parameters were requested"""

    def __init__(self):
        self.calls = []

    def derive(self, password, salt, n, r, p, length):
        self.calls.append({"n": n, "r": r, "p": p, "salt": bytes(salt), "length": length, "pw": bytes(password)})
        return hashlib.shake_256(repr((bytes(password), bytes(salt), n, r, p, length)).encode()).digest(length)

    def ref(self, password, salt, logn):
        return hashlib.shake_256(repr((bytes(password), bytes(salt), 1 << logn, 8, 1, 32)).encode()).digest(32)


@contextlib.contextmanager
def fake_scrypt():
    """replaces scrypt at the library boundary; yields a recorder.  `recorder.ref` is the
    matching KDF for the independent implementation (the real one if the code under test does
    not go through a boundary we know)."""
    fake = FakeScrypt()
    o_init, o_derive, o_hash = CScrypt.__init__, CScrypt.derive, hashlib.scrypt

    def init(self, salt, length, n, r, p, backend=None):
        self._vf = (salt, length, n, r, p)

    def derive(self, key_material):
        salt, length, n, r, p = self._vf
        return fake.derive(key_material, salt, n, r, p, length)

    def hscrypt(password, *, salt, n, r, p, maxmem=0, dklen=64):
        # the limits of OpenSSL
        if not 0 <= maxmem < 2**31:
            raise ValueError("maxmem must be positive and smaller than 2147483647")
        if 128 * r * (n + p + 2) > (maxmem or 32 << 20):
            raise ValueError("memory limit exceeded")
        return fake.derive(password, salt, n, r, p, dklen)

    CScrypt.__init__, CScrypt.derive, hashlib.scrypt = init, derive, hscrypt
    try:
        from age.primitives.scrypt import scrypt
        try:
            scrypt(b"probe", 2, b"probe")
        except Exception:
            pass
        fake.effective = bool(fake.calls)
        del fake.calls[:]
        if not fake.effective:
            CScrypt.__init__, CScrypt.derive, hashlib.scrypt = o_init, o_derive, o_hash
            fake.ref = agev1.scrypt
        yield fake
    finally:
        CScrypt.__init__, CScrypt.derive, hashlib.scrypt = o_init, o_derive, o_hash


@contextlib.contextmanager
def quiet():
    old = sys.stderr
    sys.stderr = io.StringIO()
    try:
        yield sys.stderr
    finally:
        sys.stderr = old


# ---------------------------------------------------------------- encrypt / decrypt
def pieces(data, cuts):
    """split data at the given fractions (0..1000)"""
    pos = sorted(len(data) * c // 1000 for c in cuts)
    out, last = [], 0
    for p in pos + [len(data)]:
        out.append(data[last:p])
        last = p
    return out


def encrypt(keys, data, cuts=(), rng=None):
    out = io.BytesIO()
    with randomness(rng):
        with Encryptor(keys, out) as e:
            for piece in pieces(data, cuts):
                e.write(piece)
    return out.getvalue()


def try_decrypt(idents, data, sizes=(1,)):
    """-> ("ok", plaintext) or ("err", exception, bytes released before the error)"""
    released = b""
    try:
        with quiet():
            stream = data if hasattr(data, "read") else io.BytesIO(data)
            d = Decryptor(idents, stream)
            for s in sizes:
                released += d.read(s)
            while True:
                b = d.read()
                if not b:
                    break
                released += b
    except Exception as e:
        if isinstance(e, (MemoryError, RecursionError)):
            raise Violation("decryption ended with %r" % e)
        return ("err", e, released)
    return ("ok", released)


def must_decrypt(idents, data, expected, what, sizes=()):
    r = try_decrypt(idents, data, sizes)
    if r[0] != "ok":
        raise Violation("%s: decryption failed with %s: %s" % (what, type(r[1]).__name__, r[1]))
    if r[1] != expected:
        raise Violation("%s: decrypted %d bytes differ from the %d original ones (first difference at %s)" % (
            what, len(r[1]), len(expected), first_diff(r[1], expected)))


def must_fail(idents, data, what, sizes=(1,)):
    r = try_decrypt(idents, data, sizes)
    if r[0] == "ok":
        raise Violation("%s: accepted, returned %d bytes %r" % (what, len(r[1]), r[1][:40]))
    if r[2]:
        raise Violation("%s: %d plaintext bytes released before the error %r" % (what, len(r[2]), r[1]))
    return r[1]


def first_diff(a, b):
    for i, (x, y) in enumerate(zip(a, b)):
        if x != y:
            return i
    return min(len(a), len(b))


def raises(fn, *args):
    """the exception fn raises, or None"""
    try:
        with quiet():
            fn(*args)
    except Exception as e:
        return e
    return None


def raw_key(key):
    """the key object of the cryptography library inside a key of the program, wherever it is kept (None if nowhere)"""
    values = list(vars(key).values()) if hasattr(key, "__dict__") else []
    for c in type(key).__mro__:
        values += [getattr(key, n) for n in getattr(c, "__slots__", ()) if hasattr(key, n)]
    for v in values:
        if type(v).__module__.startswith("cryptography.") and (hasattr(v, "public_key") or hasattr(v, "public_bytes")):
            return v
    return None
