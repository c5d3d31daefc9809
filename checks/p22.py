from hypothesis import strategies as st

from ref import curve
from vf import gen, kit
from vf.core import Sub, Violation

PID = "P22"
RULE = ("Random and extreme 32-byte Ed25519 seeds; converted secret key and public key compared with big-integer arithmetic "
        "(birational map, clamped SHA-512), and with each other. Non-trivial: every case.")
ASSUMPTIONS = []


def check(case):
    seed = case["seed"]
    key = kit.dec_key({"t": "ed", "seed": seed})
    pub = key.public_key()
    pk = curve.ed25519_public(seed)
    apub = bytes(pub.to_age_public_key().public_bytes())
    want = curve.ed25519_pk_to_x25519(pk)
    if apub != want:
        raise Violation("converted public key %s instead of %s" % (apub.hex(), want.hex()))
    apriv = key.to_age_private_key()
    got = bytes(apriv.private_bytes())
    wants = curve.ed25519_sk_to_x25519(seed)
    if got != wants:
        raise Violation("converted secret key differs from the clamped SHA-512 of the seed")
    if bytes(apriv.public_key().public_bytes()) != apub or apriv.public_key() != pub.to_age_public_key():
        raise Violation("public key of the converted secret key differs from the converted public key")
    if curve.x25519_base(wants) != want:
        raise Violation("internal: reference inconsistent")
    # conversion does not depend on having been made before
    if bytes(key.to_age_private_key().private_bytes()) != got or bytes(key.public_key().to_age_public_key().public_bytes()) != apub:
        raise Violation("second conversion differs")
    return ["sign:%d" % (pk[31] >> 7)]


def strat():
    return st.fixed_dictionaries({"seed": st.one_of(
        st.binary(min_size=32, max_size=32), st.integers(0, 2**256 - 1).map(lambda v: v.to_bytes(32, "little")),
        gen.bytes32(), st.integers(0, 10**9).map(lambda i: kit.bseed("p22", i)))})


def many(case):
    """a block of seeds, compared by the relation between the two conversions only (no slow reference)"""
    for i in range(case["n"]):
        key = kit.dec_key({"t": "ed", "seed": kit.bseed("p22m", case["block"], i)})
        if key.to_age_private_key().public_key() != key.public_key().to_age_public_key():
            raise Violation("conversions inconsistent for seed %d of block %d" % (i, case["block"]))
    return []


def enum_many(tier):
    for b in range(24 if tier == "quick" else 2000):
        yield {"block": b, "n": 1000}


SUBS = [
    Sub("conversion", check, strat, quick=2400, thorough=120000, qshards=6),
    Sub("consistency", many, enum=enum_many, qshards=4),
]
