import base64
import hashlib
import hmac as std_hmac

from cryptography.hazmat.primitives import hashes as chashes
from hypothesis import strategies as st

from age.primitives.encode import decode, encode
from age.primitives.encrypt import decrypt, encrypt
from age.primitives.hashes import sha256
from age.primitives.hkdf import hkdf
from age.primitives.hmac import HMAC
from age.primitives.random import random as age_random
from age.primitives.rsa_oaep import rsa_decrypt, rsa_encrypt
from age.primitives.scrypt import scrypt
from age.primitives.x25519 import x25519_reduce, x25519_scalarmult, x25519_scalarmult_base
from ref import agev1, curve
from vf import gen, kit
from vf.core import Sub, Violation

PID = "P23"
RULE = ("One search per primitive, differential against an independent implementation (plain-integer Curve25519, hand-written "
        "HMAC/HKDF/OAEP, stdlib, libsodium AEAD); keys, salts, labels and lengths are biased to block and limit boundaries; the "
        "verifying side gets the correct value and a value changed in one random place. Non-trivial: every case.")
ASSUMPTIONS = ["hashlib, libsodium's AEAD and Python's integers are correct"]


def eq(got, want, what):
    if bytes(got) != want:
        raise Violation("%s: %s instead of %s" % (what, bytes(got).hex()[:80], want.hex()[:80]))


def altered(data, pos, how):
    """data changed in one place (bit flip, removed byte, added byte)"""
    data = bytearray(data)
    how %= 6
    if how < 3 and data:
        data[(pos // 8) % len(data)] ^= 1 << pos % 8
    elif how == 3 and data:
        del data[-1]
    elif how == 4:
        data.append(pos % 256)
    elif data:
        data[-1] ^= 1
    else:
        data.append(0)
    return bytes(data)


def blob(*edges, maxlen=300):
    edges = [e for n in edges for e in (n - 1, n, n + 1) if e >= 0]
    return st.one_of(
        st.binary(max_size=20),
        st.tuples(st.one_of(st.sampled_from(edges or [0, 1]), st.integers(0, maxlen)), st.integers(0, 10**6),
                  st.sampled_from(["rand", "rand", "zero", "ff"])).map(
            lambda t: kit.material({"len": t[0], "seed": t[1], "pat": t[2]})))


def c_hmac(c):
    key, msg = c["key"], c["msg"]
    want = agev1.hmac256(key, msg)
    eq(want, std_hmac.new(key, msg, hashlib.sha256).digest(), "internal")
    eq(HMAC(key).generate(msg), want, "HMAC with a %d byte key" % len(key))
    HMAC(key).verify(msg, want)
    if HMAC(key).is_valid(msg, want) is not True:
        raise Violation("is_valid is not True for the correct tag")
    for k, m, t, what in ((key, msg, altered(want, c["pos"], c["how"]), "tag"), (key, altered(msg, c["pos"], c["how"]), want, "message"),
                          (altered(key, c["pos"], c["how"]), msg, want, "key"), (key, msg, b"", "empty tag"), (key, msg, want[:16], "half tag")):
        if what == "key" and len(k) <= 64 and len(key) <= 64 and k.rstrip(b"\0") == key.rstrip(b"\0"):
            continue  # the same key by RFC 2104
        if HMAC(k).is_valid(m, t) is not False:
            raise Violation("accepted with wrong %s" % what)
        if kit.raises(HMAC(k).verify, m, t) is None:
            raise Violation("verify accepts wrong %s" % what)
    return ["key<=32" if len(key) <= 32 else "key<=64" if len(key) <= 64 else "key>64"]


def s_hmac():
    return st.fixed_dictionaries({"key": blob(32, 64, 128), "msg": blob(55, 64, 128), "pos": gen.position(), "how": st.integers(0, 5)})


def c_hkdf(c):
    salt, label, key, n = c["salt"], c["label"], c["key"], c["n"]
    eq(hkdf(salt, label, key, n), agev1.hkdf(salt, label, key, n), "HKDF of %d bytes" % n)
    if kit.raises(hkdf, salt, label, key, 255 * 32 + c["over"]) is None:
        raise Violation("HKDF output beyond the maximum of RFC 5869")
    return ["n>32" if n > 32 else "n<=32"]


def s_hkdf():
    return st.fixed_dictionaries({
        "salt": blob(32, 64), "label": blob(), "key": blob(16, 32, 64), "over": st.integers(1, 40),
        "n": st.one_of(st.sampled_from([1, 16, 31, 32, 33, 63, 64, 65, 8159, 8160]), st.integers(1, 200), st.integers(1, 8160))})


def c_hash(c):
    h = chashes.Hash(chashes.SHA256())
    h.update(c["msg"])
    eq(sha256(c["msg"]), h.finalize(), "SHA-256")
    n = c["pos"] % 300
    r = age_random(n)
    if len(r) != n:
        raise Violation("random(%d) returned %d bytes" % (n, len(r)))
    if n >= 16 and age_random(n) == r:
        raise Violation("random repeats")
    return []


def s_hash():
    return st.fixed_dictionaries({"msg": blob(55, 56, 64, 119, 128, 1000, maxlen=5000), "pos": gen.position()})


def c_scrypt(c):
    pw, salt, n = c["pw"], c["salt"], 1 << c["logn"]
    eq(scrypt(salt, n, pw), hashlib.scrypt(pw, salt=salt, n=n, r=8, p=1, dklen=32, maxmem=1 << 28), "scrypt N=%d" % n)
    return ["logn:%d" % c["logn"]]


def s_scrypt():
    return st.fixed_dictionaries({"pw": blob(64), "salt": blob(16, 44), "logn": st.integers(1, 12)})


def c_x25519(c):
    k, u = c["k"], c["u"]
    want = curve.x25519(k, u)
    if not any(want):
        if kit.raises(x25519_scalarmult, k, u) is None:
            raise Violation("all-zero result returned")
    else:
        eq(x25519_scalarmult(k, u), want, "X25519")
    eq(x25519_scalarmult_base(k), curve.x25519_base(k), "X25519 of the base point")
    wide = c["wide"]
    eq(x25519_reduce(wide), (int.from_bytes(wide, "little") % curve.L).to_bytes(32, "little"), "scalar reduction")
    return ["u>=p" if int.from_bytes(u, "little") >= curve.P else "u<p"]


def s_x25519():
    L = curve.L
    b32 = st.one_of(gen.bytes32(), st.integers(0, 2**256 - 1).map(lambda v: v.to_bytes(32, "little")),
                    st.integers(-40, 40).map(lambda d: ((curve.P + d) % 2**256).to_bytes(32, "little")),
                    st.integers(0, 40).map(lambda d: (2**256 - 1 - d).to_bytes(32, "little")))
    wide = st.one_of(
        st.binary(min_size=64, max_size=64), st.integers(0, 2**512 - 1).map(lambda v: v.to_bytes(64, "little")),
        st.tuples(st.integers(0, 2**512 // L), st.integers(-2, 2)).map(lambda t: (max(0, t[0] * L + t[1]) % 2**512).to_bytes(64, "little")),
        st.sampled_from([b"\xff" * 64, b"\0" * 64]))
    return st.fixed_dictionaries({"k": b32, "u": b32, "wide": wide})


def c_aead(c):
    key, msg = c["key"], c["msg"]
    want = agev1.aead_seal(key, agev1.Z12, msg)
    eq(encrypt(key, msg), want, "ChaCha20-Poly1305")
    eq(decrypt(key, want), msg, "decryption")
    for k, d, what in ((key, altered(want, c["pos"], c["how"]), "ciphertext"), (altered(key, c["pos"], 0), want, "key"),
                       (key, want[:c["pos"] % len(want)], "prefix"), (key, b"", "nothing")):
        if kit.raises(decrypt, k, d) is None:
            raise Violation("accepted with altered %s" % what)
    for bad in (key[:31], key + b"\0", key[:16], b""):
        if kit.raises(encrypt, bad, msg) is None:
            raise Violation("key of %d bytes accepted" % len(bad))
    return []


def s_aead():
    return st.fixed_dictionaries({"key": gen.bytes32(), "msg": blob(16, 64, maxlen=3000), "pos": gen.position(), "how": st.integers(0, 5)})


def c_oaep(c):
    r = kit.RSA[c["key"]["i"]]
    priv = kit.dec_key(c["key"])
    pub = priv.public_key()
    k = (r["n"].bit_length() + 7) // 8
    room = k - 66
    label, msg = c["label"], c["msg"][:room]
    ct = rsa_encrypt(pub, label, msg)
    if len(ct) != k or agev1.oaep_decrypt(r["n"], r["d"], label, ct) != msg:
        raise Violation("RSA-OAEP ciphertext does not open with the standard")
    eq(rsa_decrypt(priv, label, ct), msg, "own ciphertext")
    ct2 = agev1.oaep_encrypt(r["n"], r["e"], label, msg, c["seed"])
    eq(rsa_decrypt(priv, label, ct2), msg, "independent ciphertext")
    if kit.raises(rsa_encrypt, pub, label, b"x" * (room + 1)) is None:
        raise Violation("message longer than RSA-OAEP permits accepted")
    other = kit.RSA[c["other"]["i"]]
    tests = [(priv, altered(label, c["pos"], c["how"]), ct2, "label"), (priv, label, altered(ct2, c["pos"], c["how"]), "ciphertext"),
             (priv, label, ct2[:-1], "short"), (priv, label, b"\0" + ct2, "long"), (priv, label, b"", "empty")]
    if other["n"] != r["n"]:
        tests.append((kit.dec_key(c["other"]), label, ct2, "key"))
    for p, l, t, what in tests:
        e = kit.raises(rsa_decrypt, p, l, t)
        if e is None:
            if what == "long":
                continue  # a leading zero byte does not change the number (OpenSSL strictness varies)
            raise Violation("accepted with altered %s" % what)
    # the types are told apart
    for bad in (kit.dec_key({"t": "ed", "seed": c["seed"]}), None, kit.raw_key(priv)):
        if kit.raises(rsa_decrypt, bad, label, ct2) is None or kit.raises(rsa_encrypt, bad, label, msg) is None:
            raise Violation("%r used as an RSA key" % type(bad))
    return ["%d bits" % r["n"].bit_length()]


def s_oaep():
    small = st.sampled_from([0, 1, 2, 3, 4, 5, 6, 13, 14]).map(lambda i: {"t": "rsa", "i": i})
    return st.fixed_dictionaries({
        "key": gen.weighted((6, small), (1, gen.rsa_ident())), "other": small, "label": blob(32, 64),
        "msg": blob(16, 62, 63, 64), "seed": gen.bytes32(), "pos": gen.position(), "how": st.integers(0, 5)})


def c_base64(c):
    d = c["data"]
    want = base64.b64encode(d).decode().rstrip("=")
    got = encode(d)
    if got != want:
        raise Violation("encoded as %r" % got)
    eq(decode(got), d, "decoded")
    for bad in (d.hex() + "!" if len(d) % 2 else None, None, 5, [d]):
        if bad is None:
            continue
        if not isinstance(bad, (str, bytes)) and (kit.raises(encode, bad) is None or kit.raises(decode, bad) is None):
            raise Violation("%r accepted" % (bad,))
    if kit.raises(decode, d) is None:
        raise Violation("decode accepts bytes")
    if kit.raises(encode, got) is None:
        raise Violation("encode accepts text")
    return ["len%%3:%d" % (len(d) % 3)] + (["trivial"] if not d else [])


def s_base64():
    return st.fixed_dictionaries({"data": blob(48, maxlen=2000)})


def all_lengths(kind):
    """every length up to a few hundred bytes, contents of several kinds"""
    def enum(tier):
        top = 200 if tier == "quick" else 1100
        for n in range(top):
            for m, pat in enumerate(["rand", "rand", "ff", "zero", "tail:zeros", "head:zeros"]):
                data = kit.material({"len": n, "pat": pat, "seed": 1000 * n + m})
                b32 = kit.bseed("b", n, m)
                if kind == "base64":
                    yield {"data": data}
                    if n < 40:
                        # all 64 characters at all places
                        yield {"data": bytes((v * 85 + n) % 256 for v in range(m, m + n))}
                elif kind == "hash":
                    yield {"msg": data, "pos": n}
                elif kind == "hmac":
                    yield {"key": data, "msg": b32[:n % 33], "pos": n * 7, "how": m}
                    yield {"key": b32, "msg": data, "pos": n * 7, "how": m}
                elif kind == "hkdf":
                    yield {"salt": data if m % 3 == 0 else b32[:n % 17], "label": data if m % 3 == 1 else b"label", "key": data if m % 3 == 2 else b32, "over": 1, "n": n + 1}
                else:
                    yield {"key": b32, "msg": data, "pos": n * 7, "how": m}
    return enum


SUBS = [
    Sub("base64-lengths", c_base64, enum=all_lengths("base64"), tshards=2),
    Sub("hash-lengths", c_hash, enum=all_lengths("hash"), tshards=2),
    Sub("hmac-lengths", c_hmac, enum=all_lengths("hmac"), tshards=2),
    Sub("hkdf-lengths", c_hkdf, enum=all_lengths("hkdf"), tshards=2),
    Sub("aead-lengths", c_aead, enum=all_lengths("aead"), tshards=2),
    Sub("hmac", c_hmac, s_hmac, quick=4000, thorough=300000),
    Sub("hkdf", c_hkdf, s_hkdf, quick=2500, thorough=200000),
    Sub("sha256", c_hash, s_hash, quick=4000, thorough=200000),
    Sub("scrypt", c_scrypt, s_scrypt, quick=1200, thorough=60000),
    Sub("x25519", c_x25519, s_x25519, quick=1500, thorough=150000, qshards=2),
    Sub("aead", c_aead, s_aead, quick=4000, thorough=300000),
    Sub("rsa-oaep", c_oaep, s_oaep, quick=800, thorough=60000, qshards=2),
    Sub("base64", c_base64, s_base64, quick=5000, thorough=300000),
]
