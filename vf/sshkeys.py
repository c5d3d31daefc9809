"""Private key specs for the OpenSSH checks (plain data) and what they denote."""
import functools
import json
import os

from cryptography.hazmat.primitives import serialization as ser
from cryptography.hazmat.primitives.asymmetric import ec
from hypothesis import strategies as st

from ref import curve, sshkey
from vf import gen, kit
from vf.core import VERIF, Violation

with open(os.path.join(VERIF, "fixtures", "dsa.json")) as _f:
    DSA = [{k: int(v, 16) for k, v in d.items()} for d in json.load(_f)]
CURVES = {"nistp256": ec.SECP256R1, "nistp384": ec.SECP384R1, "nistp521": ec.SECP521R1}


@functools.lru_cache(4096)
def _q(name, d):
    pub = ec.derive_private_key(d, CURVES[name]()).public_key()
    return pub.public_bytes(ser.Encoding.X962, ser.PublicFormat.UncompressedPoint)


def expand(spec):
    """spec -> dict for ref.sshkey"""
    t = spec["t"]
    if t == "rsa":
        r = kit.RSA[spec["i"]]
        p, q = (r["q"], r["p"]) if spec.get("swap") else (r["p"], r["q"])
        return {"t": "rsa", "n": r["n"], "e": r["e"], "d": r["d"], "p": p, "q": q}
    if t == "ed":
        return {"t": "ed", "seed": spec["seed"], "pk": curve.ed25519_public(spec["seed"])}
    if t == "dsa":
        pr = DSA[spec["i"]]
        x = 1 + int.from_bytes(spec["x"], "big") % (pr["q"] - 1)
        return dict(pr, t="dsa", x=x, y=pow(pr["g"], x, pr["p"]))
    d = 1 + int.from_bytes(spec["d"], "big") % (sshkey.ORDER[spec["curve"]] - 1)
    return {"t": "ecdsa", "curve": spec["curve"], "d": d, "Q": _q(spec["curve"], d)}


def rsa(slow=True):
    return st.tuples(gen.rsa_ident(False, slow), st.booleans()).map(lambda t: dict(t[0], swap=t[1]))


def ed():
    return gen.ed_ident()


def dsa():
    return st.fixed_dictionaries({"t": st.just("dsa"), "i": st.integers(0, len(DSA) - 1),
                                  "x": st.one_of(st.binary(max_size=2), st.binary(min_size=40, max_size=40))})


def ecdsa():
    return st.fixed_dictionaries({
        "t": st.just("ecdsa"), "curve": st.sampled_from(sorted(CURVES)),
        "d": st.one_of(st.binary(min_size=70, max_size=70), st.binary(min_size=0, max_size=3),
                       st.binary(min_size=40, max_size=66))})


def any_key(slow=True):
    return st.one_of(rsa(slow), ed(), dsa(), ecdsa())


def same_private(key, k):
    """raise unless the loaded cryptography key is exactly k"""
    t = k["t"]
    if t == "ed":
        got = key.private_bytes(ser.Encoding.Raw, ser.PrivateFormat.Raw, ser.NoEncryption())
        want = k["seed"]
    elif t == "rsa":
        n = key.private_numbers()
        got = (n.public_numbers.n, n.public_numbers.e, n.d, {n.p, n.q},
               n.dmp1 == n.d % (n.p - 1), n.dmq1 == n.d % (n.q - 1), n.iqmp * n.q % n.p)
        want = (k["n"], k["e"], k["d"], {k["p"], k["q"]}, True, True, 1)
    elif t == "dsa":
        n = key.private_numbers()
        pn = n.public_numbers
        got = (n.x, pn.y, pn.parameter_numbers.p, pn.parameter_numbers.q, pn.parameter_numbers.g)
        want = (k["x"], k["y"], k["p"], k["q"], k["g"])
    else:
        n = key.private_numbers()
        got = (n.private_value, key.curve.key_size, key.public_key().public_bytes(
            ser.Encoding.X962, ser.PublicFormat.UncompressedPoint))
        want = (k["d"], int(k["curve"][-3:]), k["Q"])
    if got != want:
        raise Violation("loaded %s key differs from the one in the file" % t)


def same_key(key, k):
    """the same for a key object of the program"""
    raw = kit.raw_key(key)
    if raw is not None:
        same_private(raw, k)
    if bytes(key.public_key().binary_encoding()) != sshkey.pub_blob(k):
        raise Violation("public part of the loaded %s key differs from the one in the file" % k["t"])


def passphrase():
    return st.one_of(st.sampled_from([b"a", b"password", b"pass word", "p\u00e4ss".encode(), b"x" * 100]),
                     st.binary(min_size=1, max_size=30).filter(lambda b: b.strip(b"\0") != b""),
                     st.text(min_size=1, max_size=12).map(lambda s: s.encode("utf-8", "surrogatepass")).filter(
                         lambda b: b.strip(b"\0") != b""))
