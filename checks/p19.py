import json
import os
import subprocess

from cryptography.hazmat.primitives import serialization as ser
from hypothesis import strategies as st

from age.keyloader import load_ssh_private_key
from age.keys.ed25519 import Ed25519PrivateKey
from age.keys.rsa import RSAPrivateKey
from age.openssh_keys import load_openssh_private_key
from ref import sshkey
from vf import gen, kit, sshkeys
from vf.core import VERIF, Sub, Violation

PID = "P19"
RULE = ("'writer': random key (RSA of 17 sizes/exponents, DSA, ECDSA on three curves, Ed25519), comment, check value, cipher, "
        "salt, rounds, passphrase and line width written by an independent writer; 'pem': PKCS#1/PKCS#8 by a hand-written DER "
        "encoder or by the cryptography library with a passphrase; 'ssh-keygen': files written by OpenSSH itself. The loaded "
        "private numbers are compared. Non-trivial: every case except Ed25519 without comment and cipher.")
ASSUMPTIONS = ["CRLF line ends are not generated (OpenSSH does not write them)"]


def comment():
    return st.one_of(st.binary(max_size=40), st.integers(0, 20).map(lambda n: b"c" * n), st.just(b"user@host"),
                     st.integers(0, 300).map(lambda n: b"x" * n))


def load_via(data, pw, k, what):
    """the three entry points agree"""
    key = load_openssh_private_key(data, passphrase=pw)
    sshkeys.same_private(key, k)
    if k["t"] in ("rsa", "ed"):
        cls = RSAPrivateKey if k["t"] == "rsa" else Ed25519PrivateKey
        sshkeys.same_key(cls.from_pem(data, password=pw), k)
        path = os.path.join(os.environ["HOME"], "id_k")
        with open(path, "wb") as f:
            f.write(data)
        got = load_ssh_private_key(path, password=pw)
        if not isinstance(got, cls):
            raise Violation("%s: load_ssh_private_key returned %r" % (what, type(got)))
        sshkeys.same_key(got, k)


def writer(case):
    k = sshkeys.expand(case["key"])
    enc = case["enc"]
    pre = b"".join(l + b"\n" for l in case["pre"])
    if enc is None:
        data = sshkey.write(k, case["comment"], case["check"], width=case["width"], final=case["final"])
        # a passphrase for an unencrypted key does no harm
        load_via(pre + data, case["pw"], k, "unencrypted")
    else:
        data = sshkey.write(k, case["comment"], case["check"], enc["cipher"], enc["pw"], enc["salt"], enc["rounds"],
                            case["width"], case["final"])
        load_via(pre + data, enc["pw"], k, enc["cipher"])
    return [k["t"] + (":" + k["curve"] if "curve" in k else ""), enc["cipher"] if enc else "plain"] + (
        ["trivial"] if k["t"] == "ed" and not enc and not case["comment"] else [])


def strat_writer():
    enc = st.fixed_dictionaries({
        "cipher": st.sampled_from(sorted(sshkey.KEYLEN)), "pw": sshkeys.passphrase(),
        "salt": st.one_of(st.binary(min_size=16, max_size=16), st.binary(min_size=1, max_size=64)),
        "rounds": gen.weighted((12, st.integers(1, 3)), (1, st.sampled_from([16, 17])))})
    return st.fixed_dictionaries({
        "key": gen.weighted((9, sshkeys.any_key(False)), (1, sshkeys.any_key())), "comment": comment(), "check": st.integers(0, 2**32 - 1), "enc": st.one_of(st.none(), enc),
        "width": st.one_of(st.sampled_from([64, 70, 76, 4, 1, 10000]), st.integers(1, 200)), "final": st.booleans(),
        "pw": st.sampled_from([None, b"unused"]),
        "pre": st.lists(st.sampled_from([b"", b"# comment", b"text before"]), max_size=2)})


def pem(case):
    k = sshkeys.expand(case["key"])
    form = case["form"]
    pw = case["pw"]
    if pw is None:
        data = sshkey.write_pem(k, "pkcs1" if form == "pkcs1" and k["t"] == "rsa" else "pkcs8")
    else:
        src = kit.crypto_private(case["key"])
        fmt = ser.PrivateFormat.TraditionalOpenSSL if form == "pkcs1" and k["t"] == "rsa" else ser.PrivateFormat.PKCS8
        data = src.private_bytes(ser.Encoding.PEM, fmt, ser.BestAvailableEncryption(pw))
    cls = RSAPrivateKey if k["t"] == "rsa" else Ed25519PrivateKey
    other = Ed25519PrivateKey if k["t"] == "rsa" else RSAPrivateKey
    sshkeys.same_key(cls.from_pem(data, password=pw), k)
    path = os.path.join(os.environ["HOME"], "id_k")
    with open(path, "wb") as f:
        f.write(data)
    got = load_ssh_private_key(path, password=pw)
    if not isinstance(got, cls):
        raise Violation("load_ssh_private_key returned %r" % type(got))
    sshkeys.same_key(got, k)
    if kit.raises(lambda: other.from_pem(data, password=pw)) is None:
        raise Violation("%s.from_pem accepted a %s key" % (other.__name__, k["t"]))
    return [k["t"], form, "encrypted" if pw else "plain"]


def strat_pem():
    return st.fixed_dictionaries({
        "key": st.one_of(sshkeys.rsa(False), sshkeys.ed(), sshkeys.rsa(False), sshkeys.ed(), sshkeys.rsa()), "form": st.sampled_from(["pkcs1", "pkcs8"]),
        "pw": gen.weighted((3, st.none()), (1, st.sampled_from([b"pw", "p\u00e4ss".encode(), b"x" * 40])))})


def keygen(case):
    """OpenSSH writes the file; what it contains is read back by the cryptography library"""
    path = os.path.join(os.environ["HOME"], "kg")
    for p in (path, path + ".pub"):
        if os.path.exists(p):
            os.remove(p)
    cmd = ["ssh-keygen", "-q", "-f", path, "-N", case["pw"], "-C", case["comment"], "-t", case["type"]]
    if case["bits"]:
        cmd += ["-b", str(case["bits"])]
    if case["cipher"]:
        cmd += ["-Z", case["cipher"]]
    if case["pw"]:
        cmd += ["-a", "2"]
    if case["form"]:
        cmd += ["-m", case["form"]]
    subprocess.run(cmd, check=True, stdin=subprocess.DEVNULL, stdout=subprocess.DEVNULL, timeout=120)
    data = open(path, "rb").read()
    pw = case["pw"].encode() or None
    if case["form"]:
        want = ser.load_pem_private_key(data, pw)
        key = kit.raw_key(RSAPrivateKey.from_pem(data, password=pw))
        if key is None:
            return ["trivial"]
    else:
        plain = data
        if pw:
            # let OpenSSH itself remove the passphrase
            with open(path + ".plain", "wb") as f:
                f.write(data)
            os.chmod(path + ".plain", 0o600)
            subprocess.run(["ssh-keygen", "-q", "-p", "-P", case["pw"], "-N", "", "-f", path + ".plain"], check=True,
                           stdin=subprocess.DEVNULL, stdout=subprocess.DEVNULL, timeout=120)
            plain = open(path + ".plain", "rb").read()
        want = ser.load_ssh_private_key(plain, None)
        key = load_openssh_private_key(data, passphrase=pw)

    def raw(x):
        if case["type"] == "ed25519":
            return x.private_bytes(ser.Encoding.Raw, ser.PrivateFormat.Raw, ser.NoEncryption())
        return x.private_numbers()
    if raw(key) != raw(want):
        raise Violation("key written by ssh-keygen loads to something else")
    pub = open(path + ".pub", "rb").read().split()[:2]
    got = key.public_key().public_bytes(ser.Encoding.OpenSSH, ser.PublicFormat.OpenSSH).split()[:2]
    if pub != got:
        raise Violation("public key differs from the one ssh-keygen wrote")
    return [case["type"], case["cipher"] or ("default-cipher" if pw else "plain")]


def enum_keygen(tier):
    types = [("ed25519", None), ("ecdsa", 256), ("ecdsa", 384), ("ecdsa", 521), ("rsa", 1024), ("dsa", None)]
    if tier == "thorough":
        types += [("rsa", 2048), ("rsa", 3072), ("rsa", 1029)] + types * 6
    k = 0
    for t, b in types:
        for pw, cipher in (("", None), ("secret pw", "aes256-ctr"), ("x", "aes192-ctr"), ("p\u00e4ss", "aes128-ctr"), ("dflt", None)):
            k += 1
            yield {"type": t, "bits": b, "pw": pw, "cipher": cipher, "comment": "c" * (k % 23), "form": None}
    for form in ("PEM", "PKCS8"):
        for pw in ("", "secret"):
            yield {"type": "rsa", "bits": 1024, "pw": pw, "cipher": None, "comment": "", "form": form}


def enum_rounds(tier):
    for i, r in enumerate([4, 8, 24, 63, 64, 65, 100, 127, 128, 129, 200, 255, 256, 257] + ([300, 500, 512, 513, 1000, 1025] if tier == "thorough" else [])):
        yield {"key": {"t": "ed", "seed": kit.bseed("rounds", i)}, "comment": b"c" * i, "check": i, "width": 70, "final": True, "pw": None, "pre": [],
               "enc": {"cipher": sorted(sshkey.KEYLEN)[i % len(sshkey.KEYLEN)], "pw": b"rounds", "salt": kit.bseed("salt", i)[:16], "rounds": r}}


with open(os.path.join(VERIF, "fixtures", "rounds.json")) as _f:
    ROUNDS = json.load(_f)


def many_rounds(case):
    """files OpenSSH encrypted with many rounds"""
    r = ROUNDS[case["i"]]
    key = Ed25519PrivateKey.from_pem(r["file"].encode(), password=r["pw"].encode())
    sshkeys.same_key(key, sshkeys.expand({"t": "ed", "seed": bytes.fromhex(r["seed"])}))
    return ["rounds:%d" % r["rounds"]]


def enum_many(tier):
    for i, r in enumerate(ROUNDS):
        if r["rounds"] < 2000 or tier == "thorough":
            yield {"i": i}


def enum_large(tier):
    """large keys, long comments, text in front"""
    k = 0
    for i in (12, 18) if tier == "quick" else (12, 18, 17, 19):
        for n in (0, 5000, 9000, 20000, 70000) + (() if tier == "quick" else (10 ** 6,)):
            for enc in (None, "aes256-ctr"):
                k += 1
                yield {"key": {"t": "rsa", "i": i if n < 9000 or tier != "quick" else 12}, "comment": b"c" * n, "check": k, "width": [70, 64, 76, 100000][k % 4], "final": True, "pw": None, "pre": [b"text"] * [0, 500, 4000][k % 3],
                       "enc": enc and {"cipher": enc, "pw": b"large", "salt": kit.bseed("salt", i)[:16], "rounds": 1}}


SUBS = [
    Sub("large", writer, enum=enum_large, qshards=2),
    Sub("many-rounds", many_rounds, enum=enum_many, qshards=3),
    Sub("rounds", writer, enum=enum_rounds, qshards=2),
    Sub("writer", writer, strat_writer, quick=1600, thorough=120000, qshards=5),
    Sub("pem", pem, strat_pem, quick=600, thorough=20000, qshards=2),
    Sub("ssh-keygen", keygen, enum=enum_keygen, qshards=2),
]
