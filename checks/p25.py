import base64
import gc
import io

from hypothesis import strategies as st

from age.algorithms.ssh_ed25519 import ssh_ed25519_decrypt_file_key, ssh_ed25519_encrypt_file_key
from age.algorithms.x25519 import x25519_decrypt_file_key, x25519_encrypt_file_key
from age.file import Encryptor
from age.keys.agekey import AgePublicKey
from age.keys.ed25519 import Ed25519PublicKey
from age.keyloader import resolve_public_key
from age.primitives.x25519 import x25519_scalarmult
from ref import agev1, bech32, curve
from vf import gen, kit
from vf.core import Sub, Violation

PID = "P25"
RULE = ("Every encoding of the points of small order (14 X25519 encodings with and without top bit and reduction; all Ed25519 "
        "encodings of small order) with random scalars and keys through every entry point: scalar multiplication, public key "
        "string, library encryption, X25519 and ssh-ed25519 entries of an otherwise perfectly valid file sealed under the "
        "predictable secret. 'control': other points near them and random ones must work and give the independent result. "
        "Non-trivial: every case.")
ASSUMPTIONS = []
LOW = curve.low_order_encodings()


def ed_low():
    """encodings of Ed25519 points of small order, canonical or not, both signs"""
    P = curve.P
    ys = [1, P - 1, 0]
    for u in curve.LOW_ORDER_U[2:4]:
        y = (u - 1) * pow(u + 1, P - 2, P) % P
        ys += [y, P - y]
    out = []
    for y in ys:
        for v in (y, y + P):
            if v < 2**255:
                for s in (0, 1):
                    out.append((v | s << 255).to_bytes(32, "little"))
    return sorted(set(out))


ED_LOW = ed_low()


def failing(fn, what):
    refused = kit.raises(fn) is not None
    gc.collect()  # leftover objects may not write anything either
    if not refused:
        raise Violation("%s accepted" % what)


def low(case):
    u = LOW[case["i"] % len(LOW)]
    sk, fk, nonce = case["sk"], case["fk"], case["nonce"]
    data = kit.material(case["pt"])
    via = case["via"]
    lab = [via]
    if via == "scalarmult":
        failing(lambda: x25519_scalarmult(sk, u), "scalar multiplication of %s" % u.hex())
    elif via == "pubkey":
        out = io.BytesIO()
        s = bech32.encode("age", u)

        def enc():
            keys = resolve_public_key(s)
            with kit.randomness(case["rng"]):
                with Encryptor(keys, out) as e:
                    e.write(data)
        failing(enc, "public key " + s)
        failing(lambda: x25519_encrypt_file_key(AgePublicKey.from_public_bytes(u), fk), "wrapping for " + s)
        if len(out.getvalue()) > 0:
            raise Violation("output written for the degenerate recipient")
    elif via == "share":
        ident = {"t": "age", "sk": sk}
        key = agev1.hkdf(u + curve.x25519_base(sk), agev1.X_LABEL, b"\0" * 32, 32)
        body = agev1.aead_seal(key, agev1.Z12, fk)
        failing(lambda: x25519_decrypt_file_key(kit.dec_key(ident), u, body), "unwrapping with share " + u.hex())
        blob = agev1.write_file([(["X25519", agev1.b64(u)], body)], fk, nonce, data)
        kit.must_fail([kit.dec_key(ident)], blob, "file with degenerate share " + u.hex())
    elif via == "ed-share":
        seed = sk
        pk = curve.ed25519_public(seed)
        target = curve.x25519(agev1._tweak(pk), curve.ed25519_pk_to_x25519(pk))
        key = agev1.hkdf(u + target, agev1.X_LABEL, b"\0" * 32, 32)
        body = agev1.aead_seal(key, agev1.Z12, fk)
        tag = kit.hashlib.sha256(agev1.ed_blob(pk)).digest()[:4]
        priv = kit.dec_key({"t": "ed", "seed": seed})
        failing(lambda: ssh_ed25519_decrypt_file_key(priv, tag, u, body), "unwrapping with share " + u.hex())
        blob = agev1.write_file([(["ssh-ed25519", agev1.b64(tag), agev1.b64(u)], body)], fk, nonce, data)
        kit.must_fail([priv], blob, "ssh-ed25519 file with degenerate share " + u.hex())
    else:
        pk = ED_LOW[case["i"] % len(ED_LOW)]
        line = b"ssh-ed25519 " + base64.b64encode(agev1.ed_blob(pk)) + b" c"

        def enc2():
            key = Ed25519PublicKey.from_ssh_public_key(line)
            ssh_ed25519_encrypt_file_key(key, fk)
        failing(enc2, "Ed25519 key " + pk.hex())
        out = io.BytesIO()

        def enc3():
            with Encryptor(resolve_public_key(line.decode()), out) as e:
                e.write(data)
        failing(enc3, "Ed25519 key " + pk.hex())
        if out.getvalue():
            raise Violation("output written for the degenerate recipient")
    return lab


def control(case):
    u, eph, fk = case["u"], case["sk"], case["fk"]
    want = curve.x25519(eph, u)
    if not any(want):
        return ["degenerate", "trivial"]
    got = bytes(x25519_scalarmult(eph, u))
    if got != want:
        raise Violation("scalar multiplication wrong for %s" % u.hex())
    blob = kit.encrypt([AgePublicKey.from_public_bytes(u)], b"data", (), case["rng"])
    if not blob.startswith(b"age-encryption.org/v1\n-> X25519 "):
        raise Violation("no file written")
    share, body = x25519_encrypt_file_key(AgePublicKey.from_public_bytes(u), fk)
    # as recipient's peer: a share that is any point, opened with a real key
    ident = {"t": "age", "sk": eph}
    key = agev1.hkdf(u + curve.x25519_base(eph), agev1.X_LABEL, want, 32)
    f = agev1.write_file([(["X25519", agev1.b64(u)], agev1.aead_seal(key, agev1.Z12, fk))], fk, fk, b"payload")
    kit.must_decrypt([kit.dec_key(ident)], f, b"payload", "share " + u.hex())
    return ["control"]


def enum_low(tier):
    reps = 12 if tier == "quick" else 1500
    vias = ["scalarmult", "pubkey", "share", "ed-share", "ed-key"]
    for r in range(reps):
        for via in vias:
            for i in range(len(ED_LOW) if via == "ed-key" else len(LOW)):
                rnd = kit.bseed("p25", r, via, i)
                sk = [rnd, b"\0" * 32, b"\xff" * 32][0 if r > 2 else r]
                yield {"i": i, "via": via, "sk": sk, "fk": kit.bseed("fk", r, i)[:16], "nonce": rnd[:16],
                       "rng": {"mode": "drbg", "seed": r}, "pt": {"len": [0, 5, 70000][r % 3], "seed": r}}


def s_control():
    P = curve.P
    u = st.one_of(gen.bytes32(), st.integers(0, 2**256 - 1).map(lambda v: v.to_bytes(32, "little")),
                  st.tuples(st.sampled_from(LOW), st.integers(-3, 3)).map(
                      lambda t: ((int.from_bytes(t[0], "little") + t[1]) % 2**256).to_bytes(32, "little")),
                  st.integers(0, 18).map(lambda d: (P + d).to_bytes(32, "little")))
    return st.fixed_dictionaries({"u": u, "sk": gen.bytes32(), "fk": st.binary(min_size=16, max_size=16), "rng": gen.rng()})


SUBS = [
    Sub("low-order", low, enum=enum_low, qshards=4),
    Sub("control", control, s_control, quick=1500, thorough=100000, qshards=3),
]
