import base64
import hashlib
import os
import subprocess

from hypothesis import strategies as st

from age.keys.agekey import AgePrivateKey, AgePublicKey
from age.keys.ed25519 import Ed25519PrivateKey, Ed25519PublicKey
from age.keys.rsa import RSAPrivateKey, RSAPublicKey
from ref import curve, sshkey
from vf import alike, gen, kit, sshkeys
from vf.core import HarnessError, Sub, Violation

PID = "P21"
RULE = ("'lines': random RSA (17 sizes/exponents) and Ed25519 public key lines with random comments and white space: blob, MD5 and "
        "SHA256 fingerprints, fingerprint lines against hashlib, equality with the key derived from the private half, refusal by "
        "the class of the other type. 'ssh-keygen': the same lines in batches against ssh-keygen -l. 'pairs': equality and hash "
        "over random pairs; 'near': keys that differ in one bit (or in the exponent) are different; 'look-alike': keys which agree in a few bytes of one representation. Non-trivial: every case.")
ASSUMPTIONS = []


def cls_of(k):
    return RSAPublicKey if k["t"] == "rsa" else Ed25519PublicKey


def make_line(k, c):
    return sshkey.type_name(k) + c["sep"] + base64.b64encode(sshkey.pub_blob(k)) + (b" " + c["comment"] if c["comment"] else b"")


def fps(blob):
    return ("MD5:" + ":".join("%02x" % b for b in hashlib.md5(blob).digest()),
            "SHA256:" + base64.b64encode(hashlib.sha256(blob).digest()).decode().rstrip("="))


def lines(case):
    k = sshkeys.expand(case["key"])
    blob = sshkey.pub_blob(k)
    line = make_line(k, case)
    pub = cls_of(k).from_ssh_public_key(line)
    if pub.binary_encoding() != blob:
        raise Violation("binary encoding differs from the blob in %r" % line[:60])
    md5, sha = fps(blob)
    bits = k["n"].bit_length() if k["t"] == "rsa" else 256
    name = "RSA" if k["t"] == "rsa" else "ED25519"
    lc = case["lcomment"]
    for got, want in (
            (pub.fingerprint(), md5), (pub.fingerprint("MD5"), md5), (pub.fingerprint("SHA256"), sha),
            (pub.fingerprint_line(), "%d %s age (%s)" % (bits, md5, name)),
            (pub.fingerprint_line("SHA256", lc), "%d %s %s (%s)" % (bits, sha, lc, name)),
            (pub.fingerprint_line(algorithm="MD5", comment=lc), "%d %s %s (%s)" % (bits, md5, lc, name))):
        if got != want:
            raise Violation("%r instead of %r" % (got, want))
    if kit.raises(pub.fingerprint, case["badalg"]) is None:
        raise Violation("unknown fingerprint algorithm %r accepted" % case["badalg"])
    other = Ed25519PublicKey if k["t"] == "rsa" else RSAPublicKey
    if kit.raises(other.from_ssh_public_key, line) is None:
        raise Violation("%s accepted a %s line" % (other.__name__, k["t"]))
    priv = kit.dec_key(case["key"]).public_key()
    if not (priv == pub and pub == priv) or priv != pub or hash(priv) != hash(pub) or priv.binary_encoding() != blob:
        raise Violation("public half of the private key is not equal to the key in the line")
    for c in (RSAPublicKey, Ed25519PublicKey):
        e = sshkeys.expand(case["ec"])
        if kit.raises(c.from_ssh_public_key, sshkey.pub_line(e)) is None:
            raise Violation("%s accepted a %s line" % (c.__name__, e["t"]))
    return [k["t"] + (str(bits) if k["t"] == "rsa" else "")]


def keygen(case):
    text, want = b"", []
    for c in case:
        k = sshkeys.expand(c["key"])
        text += make_line(k, dict(c, sep=b" ")) + b"\n"
    path = os.path.join(os.environ["HOME"], "keys.pub")
    with open(path, "wb") as f:
        f.write(text)
    for alg in ("MD5", "SHA256"):
        out = subprocess.run(["ssh-keygen", "-l", "-E", alg.lower(), "-f", path], stdin=subprocess.DEVNULL, stdout=subprocess.PIPE,
                             check=True, timeout=60).stdout.decode().splitlines()
        if len(out) != len(case):
            raise HarnessError("ssh-keygen printed %d lines for %d keys" % (len(out), len(case)))
        for c, want in zip(case, out):
            k = sshkeys.expand(c["key"])
            pub = cls_of(k).from_ssh_public_key(make_line(k, c))
            got = pub.fingerprint_line(alg, c["comment"].decode() or "no comment")
            if got != want:
                raise Violation("%r, ssh-keygen prints %r" % (got, want))
    return ["%d-keys" % len(case)]


def pairs(case):
    objs = []
    for s in case["keys"]:
        if s["t"] == "rsa" or s["t"] == "ed":
            k = sshkeys.expand(s)
            a = cls_of(k).from_ssh_public_key(sshkey.pub_line(k, b"c%d" % len(objs)))
            objs.append((sshkey.pub_blob(k), a))
        else:
            pk = curve.x25519_base(s["sk"])
            objs.append((b"age" + pk, AgePublicKey.from_public_bytes(pk)))
    for b1, k1 in objs:
        for b2, k2 in objs:
            if (k1 == k2) != (b1 == b2) or (k1 != k2) == (b1 == b2):
                raise Violation("equality of %r and %r is %r" % (k1, k2, k1 == k2))
            if b1 == b2 and hash(k1) != hash(k2):
                raise Violation("equal keys hash differently")
        for x in (None, b1, 1):
            if k1 == x:
                raise Violation("%r equals %r" % (k1, x))
    n = len({k for _, k in objs})
    if n != len({b for b, _ in objs}):
        raise Violation("a set of %d different keys has %d elements" % (len({b for b, _ in objs}), n))
    return ["distinct:%d" % n]


def near(case):
    """keys which differ in one bit or in one number"""
    k = dict(case["k"])
    bit = case["bit"]
    if k["t"] == "rsa":
        other = dict(k, n=k["n"] ^ 1 << bit) if bit >= 0 else dict(k, e=case["e"])
        if other["n"].bit_length() != k["n"].bit_length() and bit >= 0 and other["n"].bit_length() < 1000:
            return ["trivial"]
    else:
        b = bytearray(k["pk"])
        b[bit // 8] ^= 1 << bit % 8
        other = dict(k, pk=bytes(b))

    def load(x):
        return AgePublicKey.from_public_bytes(x["pk"]) if x["t"] == "age" else cls_of(x).from_ssh_public_key(sshkey.pub_line(x))

    one, two = load(k), load(k)
    try:
        dif = load(other)
    except Exception:
        return ["trivial"]  # not a key
    if one != two or not one == two or hash(one) != hash(two):
        raise Violation("the same key loaded twice is not equal")
    if one == dif or dif == one or not one != dif:
        raise Violation("%r equals another key, which differs in %s" % (one, "bit %d" % bit if bit >= 0 else "the exponent"))
    if len({one, two, dif}) != 2 or [one, dif].index(dif) != 1:
        raise Violation("a set of two keys which differ in one bit")
    if k["t"] != "age" and (one.fingerprint("SHA256") == dif.fingerprint("SHA256") or one.fingerprint("MD5") == dif.fingerprint("MD5")):
        raise Violation("the fingerprints of keys which differ in one bit agree")
    return [k["t"]]


def enum_near(tier):
    for bit in range(256):
        for i in range(1 if tier == "quick" else 8):
            yield {"k": {"t": "age", "pk": curve.x25519_base(gen.sk_pool(i))}, "bit": bit}
            yield {"k": sshkeys.expand({"t": "ed", "seed": gen.ed_pool(i)}), "bit": bit}
    for i in (0, 4) if tier == "quick" else range(10):
        k = {f: kit.RSA[i][f] for f in ("n", "e")}
        k["t"] = "rsa"
        for bit in range(1, k["n"].bit_length(), 1 if tier != "quick" else 3):
            yield {"k": k, "bit": bit}
        for e in (3, 5, 17, 257, 65537, 65539, k["e"] + 2, k["e"] + 65536, k["e"] + 256):
            if e != k["e"]:
                yield {"k": k, "bit": -1, "e": e}


def look_alike(case):
    """different keys which agree in a few bytes of one representation"""
    def load(x):
        return AgePublicKey.from_public_bytes(x["pk"]) if x["t"] == "age" else cls_of(x).from_ssh_public_key(sshkey.pub_line(x))
    one, again, two = load(case["a"]), load(case["a"]), load(case["b"])
    if one != again or hash(one) != hash(again):
        raise Violation("the same key loaded twice is not equal")
    if one == two or two == one or not one != two or len({one, two, again}) != 2 or {one: 1, two: 2}[again] != 1:
        raise Violation("different keys (%s agree) are equal" % case["view"])
    return [case["view"], case["a"]["t"]]


def enum_alike(tier):
    n, per = (1500, 3) if tier == "quick" else (20000, 60)
    for view, a, b in alike.secret_pairs("age", n, per):
        yield {"view": view, "a": {"t": "age", "pk": curve.x25519_base(a["sk"])}, "b": {"t": "age", "pk": curve.x25519_base(b["sk"])}}
    for view, a, b in alike.secret_pairs("ed", n, per):
        yield {"view": view, "a": sshkeys.expand(a), "b": sshkeys.expand(b)}
    for view, a, b in alike.rsa_pairs(n, per):
        yield {"view": view, "a": a, "b": b}


def private_pairs(case):
    """age private keys: equal exactly if they are the same 32 bytes"""
    a, b = AgePrivateKey.from_private_bytes(case["a"]), AgePrivateKey.from_private_bytes(case["a"])
    x = bytearray(case["a"])
    x[case["bit"] // 8] ^= 1 << case["bit"] % 8
    c = AgePrivateKey.from_private_bytes(bytes(x))
    if a != b or hash(a) != hash(b) or not a == b:
        raise Violation("the same private key loaded twice is not equal")
    if a == a.public_key() or a.public_key() == a or a == case["a"] or a == None:  # noqa: E711
        raise Violation("a private key equals something else")
    if a.public_key() != b.public_key():
        raise Violation("equal private keys with different public keys")
    if a == c and a.public_key() != c.public_key():
        raise Violation("private keys of different public keys are equal")
    return []


def comment():
    return st.one_of(st.just(b""), st.sampled_from([b"user@host", b"a b c", b"comment with = and #", "p\u00e4\u00e4".encode()]),
                     st.text(alphabet="abc xyz@=#-", min_size=1, max_size=30).map(lambda s: s.strip().encode()))


def key():
    return st.one_of(gen.rsa_ident(), gen.ed_ident())


def strat_lines():
    return st.fixed_dictionaries({
        "key": key(), "comment": comment(), "sep": st.just(b" "),
        "lcomment": st.text(max_size=15), "badalg": st.sampled_from(["", "md5", "SHA1", "sha256", "SHA512"]),
        "ec": st.one_of(sshkeys.ecdsa(), sshkeys.dsa())})


def strat_keygen():
    c = st.one_of(st.just(b""), st.sampled_from([b"user@host", b"a b c", b"x"]))
    return st.lists(st.fixed_dictionaries({"key": key(), "comment": c, "sep": st.just(b" ")}), min_size=1, max_size=30)


def strat_pairs():
    return st.fixed_dictionaries({"keys": st.lists(st.one_of(
        gen.rsa_ident(True), gen.ed_ident(True), gen.age_ident(True), st.sampled_from(kit.ED_COLLIDING).map(lambda s: {"t": "ed", "seed": s}),
        st.sampled_from(kit.RSA_COLLIDING).map(lambda i: {"t": "rsa", "i": i})), min_size=2, max_size=6)})


SUBS = [
    Sub("lines", lines, strat_lines, quick=2000, thorough=60000, qshards=4),
    Sub("ssh-keygen", keygen, strat_keygen, quick=150, thorough=4000, qshards=2),
    Sub("near", near, enum=enum_near, qshards=2),
    Sub("look-alike", look_alike, enum=enum_alike, qshards=2, tshards=4),
    Sub("private-pairs", private_pairs, lambda: st.fixed_dictionaries({"a": st.binary(min_size=32, max_size=32), "bit": st.integers(0, 255)}), quick=300, thorough=10000),
    Sub("pairs", pairs, strat_pairs, quick=1000, thorough=30000, qshards=2),
]
