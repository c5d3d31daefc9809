import io
import json
import os
import re

from hypothesis import strategies as st

from age.algorithms.scrypt import scrypt_decrypt_file_key, scrypt_encrypt_file_key
from age.file import Encryptor
from age.keys.password import PasswordKey
from age.recipients.helpers import generate_recipient_from_key, get_recipient
from ref import agev1
from vf import gen, kit
from vf.core import VERIF, Sub, Violation

PID = "P24"
RULE = ("'from-file': conforming file whose scrypt entry records a random exponent or exponent text, opened with a recording "
        "stand-in for the KDF: work requested must be exactly that recorded (1-22), or nothing at all and an error. 'write': the "
        "writing side over all exponents. 'passphrase': near-miss passphrases over the stand-in (exact bytes) and the real KDF. "
        "'real-cost': real scrypt at exponents 1-14 against files of the independent writer, 'real-large' at 14-22 against keys computed in advance. Non-trivial: every case.")
ASSUMPTIONS = ["the KDF is reached through cryptography's Scrypt or hashlib.scrypt (else the stand-in is inactive and only results are compared)",
               "scrypt itself (via HMAC) does not distinguish a short passphrase from the same one padded with NUL bytes"]

NON_NUMERIC = ["abc", "1.5", "0x10", "1e1", "--1", "1,0", "18x", "x18", "\u00b2", "1/2", "NaN", "-", "+", "0b1", "\u221e", "1-", "''"]
LENIENT = ["+5", "05", "0018", "1_0", "\u0665", "-0"]  # texts some integer parsers accept


NONCE = b"payload nonce 16"


def check_calls(fake, salt, logn, pw, what):
    if not fake.effective:
        return
    if len(fake.calls) != 1:
        raise Violation("%s: %d key derivations" % (what, len(fake.calls)))
    c = fake.calls[0]
    want = {"n": 1 << logn, "r": 8, "p": 1, "salt": agev1.S_LABEL + salt, "length": 32, "pw": pw}
    if c != want:
        raise Violation("%s: KDF asked for %r instead of %r" % (what, c, want))


def from_file(case):
    pw, cost, salt, fk = case["pw"], case["cost"], case["salt"], case["fk"]
    data = kit.material(case["pt"])
    numeric = re.fullmatch(r"-?(0|[1-9][0-9]*)", cost) is not None and cost != "-0"
    value = int(cost) if numeric and len(cost) < 100 else (10**9 if numeric else None)
    with kit.fake_scrypt() as fake:
        lg = value if value is not None and 0 <= value <= 22 else 5
        if not fake.effective:
            lg = min(lg, 12)
            if value is not None and 12 < value <= 22:
                return ["trivial"]
        body = agev1.aead_seal(fake.ref(pw, agev1.S_LABEL + salt, lg), agev1.Z12, fk)
        blob = agev1.write_file([(["scrypt", agev1.b64(salt), cost], body)], fk, NONCE, data)
        r = kit.try_decrypt([PasswordKey(pw)], blob)
        if cost in LENIENT or cost == "0":
            if any(c["n"] > 1 << 22 for c in fake.calls):
                raise Violation("KDF with N=%d started" % max(c["n"] for c in fake.calls))
            if cost == "0" and any(c["n"] != 1 for c in fake.calls):  # libraries refuse N=1; no other work in any case
                raise Violation("exponent 0: %s, key derivations %r" % (r[0], fake.calls))
            return ["unspecified", "trivial"]
        if value is not None and 1 <= value <= 22:
            if r[0] != "ok" or r[1] != data:
                raise Violation("exponent %s: not decrypted: %r" % (cost, r[1]))
            check_calls(fake, salt, value, pw, "exponent " + cost)
            return ["accepted:%d" % value]
        if r[0] == "ok":
            raise Violation("exponent %r accepted" % cost[:40])
        if fake.calls:
            raise Violation("exponent %r: key derivation with N=%d started before the refusal" % (cost[:40], fake.calls[0]["n"]))
        # at the algorithm and entry level as well
        if value is not None:
            if kit.raises(scrypt_decrypt_file_key, PasswordKey(pw), salt, value, body) is None or fake.calls:
                raise Violation("exponent %d not refused by the algorithm" % value)
        return ["refused", "numeric" if value is not None else "text"]


def write(case):
    pw, n, fk = case["pw"], case["n"], case["fk"]
    with kit.fake_scrypt() as fake:
        if not fake.effective and 12 < n <= 22:
            return ["trivial"]
        if n < 0 or n > 22:
            if kit.raises(scrypt_encrypt_file_key, PasswordKey(pw), fk, n) is None:
                raise Violation("writing with exponent %d accepted" % n)
            if fake.calls:
                raise Violation("writing with exponent %d: key derivation started before the refusal" % n)
            return ["refused"]
        if n == 0:
            return ["trivial"]
        with kit.randomness(case["rng"]):
            salt, cost, body = scrypt_encrypt_file_key(PasswordKey(pw), fk, n)
        if cost != n or len(salt) != 16:
            raise Violation("recorded exponent %r, salt of %d bytes" % (cost, len(salt)))
        check_calls(fake, salt, n, pw, "writing with exponent %d" % n)
        if agev1.aead_open(fake.ref(pw, agev1.S_LABEL + salt, n), agev1.Z12, body) != fk:
            raise Violation("entry does not open")
        # what a file records is what was used
        del fake.calls[:]
        if fake.effective:
            out = io.BytesIO()
            with kit.randomness(case["rng"]):
                with Encryptor([PasswordKey(pw)], out) as e:
                    e.write(b"x")
            stz = agev1.parse_header(out.getvalue())[0]
            args, sbody = stz[0]
            check_calls(fake, agev1.unb64(args[1]), int(args[2]), pw, "file")
    return ["written:%d" % n]


def near(pw, how, n):
    if how == "append":
        return pw + bytes([n % 255 + 1])
    if how == "nl":
        return pw + b"\n"
    if how == "space":
        return b" " + pw
    if how == "cut":
        return pw[:-1]
    if how == "bit":
        if not pw:
            return b"\x01"
        b = bytearray(pw)
        b[(n // 8) % len(b)] ^= 1 << n % 8
        return bytes(b)
    if how == "case":
        return pw.swapcase()
    if how == "nul-cut":
        return pw.split(b"\0")[0]
    if how == "72":
        return pw[:72]
    if how == "nul":
        return pw + b"\0"
    if how == "strip":
        return pw.strip()
    if how == "utf8":
        return pw.decode("utf-8", "replace").encode()
    if how == "empty":
        return b""
    return b"other %d" % n


def hmac_key(pw):
    return (kit.hashlib.sha256(pw).digest() if len(pw) > 64 else pw).rstrip(b"\0")


def passphrase(case):
    pw, fk, salt = case["pw"], case["fk"], case["salt"]
    other = near(pw, case["how"], case["n"])
    if other == pw:
        return ["trivial"]

    def both(kdf, label):
        body = agev1.aead_seal(kdf(pw, agev1.S_LABEL + salt, 2), agev1.Z12, fk)
        blob = agev1.write_file([(["scrypt", agev1.b64(salt), "2"], body)], fk, NONCE, b"data")
        kit.must_decrypt([PasswordKey(pw)], blob, b"data", "right passphrase (%s)" % label)
        kit.must_fail([PasswordKey(other)], blob, "passphrase %r instead of %r (%s)" % (other, pw, label))
    with kit.fake_scrypt() as fake:
        if fake.effective:
            both(fake.ref, "stand-in")
    if hmac_key(other) != hmac_key(pw):
        both(agev1.scrypt, "real")
    return [case["how"]]


def real_cost(case):
    pw, fk, salt, n = case["pw"], case["fk"], case["salt"], case["n"]
    key = agev1.scrypt(pw, agev1.S_LABEL + salt, n)
    body = agev1.aead_seal(key, agev1.Z12, fk)
    rec = get_recipient("scrypt", [agev1.b64(salt), str(n)], agev1.b64(body))
    if bytes(rec.decrypt(PasswordKey(pw))) != fk:
        raise Violation("entry of exponent %d opens to something else" % n)
    for m in (n - 1, n + 1):
        if m >= 1 and kit.raises(get_recipient("scrypt", [agev1.b64(salt), str(m)], agev1.b64(body)).decrypt, PasswordKey(pw)) is None:
            raise Violation("entry of exponent %d opens with exponent %d" % (n, m))
    s2, c2, b2 = scrypt_encrypt_file_key(PasswordKey(pw), fk, n)
    if c2 != n or agev1.aead_open(agev1.scrypt(pw, agev1.S_LABEL + s2, n), agev1.Z12, b2) != fk:
        raise Violation("own entry of exponent %d does not open" % n)
    return ["exponent:%d" % n]


with open(os.path.join(VERIF, "fixtures", "scrypt.json")) as _f:
    LARGE = {int(n): {k: bytes.fromhex(x) for k, x in v.items()} for n, v in json.load(_f).items()}


def large(case):
    """large exponents with the real key derivation (keys computed in advance by two other libraries)"""
    n, fk, pw = case["n"], case["fk"], b"large exponent"
    v = LARGE[n]
    args, body = [agev1.b64(v["salt"]), str(n)], agev1.aead_seal(v["key"], agev1.Z12, fk)
    blob = agev1.write_file([(["scrypt"] + args, body)], fk, v["salt"], b"data")
    kit.must_decrypt([PasswordKey(pw)], blob, b"data", "exponent %d with the real key derivation" % n)
    return ["exponent:%d" % n]


def enum_large(tier):
    for n in ([22, 21, 20, 17, 19, 18, 16] if tier == "quick" else sorted(LARGE, reverse=True)):
        yield {"n": n, "fk": kit.bseed("large", n)[:16]}


def pwst():
    return st.one_of(gen.password(), st.integers(60, 80).map(lambda n: b"p" * n),
                     st.sampled_from([b"a\0b", b"Pass Word ", "\u00e9".encode(), "e\u0301".encode(), b"\xff\xfe\xfd", b"\0\0"]))


B16 = st.binary(min_size=16, max_size=16)
SALT = st.one_of(B16, B16, st.binary(min_size=1, max_size=64), st.sampled_from([b"s" * n for n in (8, 15, 17, 24, 32, 33, 44, 64)]))


def s_file():
    num = st.one_of(st.integers(1, 22), st.integers(1, 22), st.integers(23, 70), st.integers(-30, -1),
                    st.sampled_from([23, 24, 31, 32, 63, 64, 1000, 2**31, 2**63, 2**64 + 5, 2**64, -2**63, 10**50, 22 + 2**32, 5 - 256, 256 + 5])).map(str)
    return st.fixed_dictionaries({
        "pw": pwst(), "salt": SALT, "fk": B16, "pt": gen.small_plaintext(40),
        "cost": gen.weighted((8, num), (2, st.sampled_from(NON_NUMERIC)), (1, st.sampled_from(LENIENT + ["0", "9" * 5000])),
                             (1, st.text(alphabet="abcxyz!.", min_size=1, max_size=4)))})


def s_write():
    return st.fixed_dictionaries({"pw": pwst(), "fk": B16, "rng": gen.rng(),
                                  "n": st.one_of(st.integers(1, 22), st.integers(-5, 40), st.sampled_from([23, -1, 64, 2**32 + 5]))})


def s_pass():
    return st.fixed_dictionaries({"pw": pwst(), "fk": B16, "salt": SALT, "n": gen.position(), "how": st.sampled_from([
        "append", "nl", "space", "cut", "bit", "bit", "case", "nul-cut", "72", "nul", "strip", "utf8", "empty", "other"])})


def s_real():
    return st.fixed_dictionaries({"pw": pwst(), "fk": B16, "salt": SALT, "n": gen.weighted((8, st.integers(1, 9)), (2, st.integers(1, 13)))})


SUBS = [
    Sub("from-file", from_file, s_file, quick=4000, thorough=250000, qshards=2),
    Sub("write", write, s_write, quick=2000, thorough=120000),
    Sub("passphrase", passphrase, s_pass, quick=2000, thorough=100000, qshards=2),
    Sub("real-large", large, enum=enum_large, qshards=3, tshards=3, budget=(120, 1500)),
    Sub("real-cost", real_cost, s_real, quick=600, thorough=30000, qshards=2),
]
