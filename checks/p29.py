from hypothesis import strategies as st

from age.keys.base import DecryptionKey, EncryptionKey
from age.recipients.helpers import decrypt_file_key, generate_recipient_from_key, get_recipient
from ref import agev1
from vf import gen, kit
from vf.core import Sub, Violation

PID = "P29"
RULE = ("Random key of each type and random 16-byte file key: wrap, dump, load, unwrap must return it, and the independent "
        "implementation must open the entry. 'altered': one field of the entry changed (bit, byte removed / added, emptied, "
        "value exchanged with another entry for the same or another key) must fail for the owner. 'foreign': another identity, "
        "colliding tags included, must fail. 'types': tags and key objects that are none. Non-trivial: every case.")
ASSUMPTIONS = ["scrypt is replaced by a keyed-hash stand-in (P24 exercises the real one)"]


def wrap(spec, fk, rng):
    with kit.randomness(rng):
        rec = generate_recipient_from_key(kit.enc_key(spec), fk)
    args, body = rec.dump()
    if rec.TAG != kit.STANZA_TAG[spec["t"]]:
        raise Violation("%s key made a %s entry" % (spec["t"], rec.TAG))
    return rec.TAG, list(args), body


def raw(s):
    return agev1.unb64(s)


def b64(b):
    return agev1.b64(b)


def roundtrip(case):
    spec, fk = case["key"], case["fk"]
    with kit.fake_scrypt() as fake:
        tag, args, body = wrap(spec, fk, case["rng"])
        for a in args + [body]:
            if not isinstance(a, str) or any(c in a for c in " \n\r\t="):
                raise Violation("entry field %r not serialisable" % (a,))
        got = get_recipient(tag, args, body).decrypt(kit.dec_key(spec))
        if bytes(got) != fk:
            raise Violation("unwrapped %s instead of %s" % (bytes(got).hex(), fk.hex()))
        if bytes(decrypt_file_key([get_recipient(tag, args, body)], [kit.dec_key(spec)])) != fk:
            raise Violation("decrypt_file_key returned another key")
        want = kit.ref_unwrap(spec, ([tag] + args, raw(body)), fake.ref)
        if want != fk:
            raise Violation("independent implementation unwraps another key")
        # entries of the independent writer
        ra, rb = ref_wrap(spec, fk, case["seed"], fake)
        rec = get_recipient(ra[0], ra[1:], b64(rb))
        if bytes(rec.decrypt(kit.dec_key(spec))) != fk:
            raise Violation("independent entry unwraps to another key")
        # loading and dumping again keeps the entry
        a2, b2 = rec.dump()
        if list(a2) != ra[1:] or b2 != b64(rb):
            raise Violation("dump of a loaded entry differs: %r %r" % (a2, b2))
    return [spec["t"]]


def ref_wrap(spec, fk, seed, fake):
    rnd = kit.bseed("w", seed)
    if spec["t"] != "pw":
        return kit.ref_wrap(spec, fk, rnd)
    lg = 1 + seed % 20 if fake.effective else 1 + seed % 4
    return ["scrypt", b64(rnd[:16]), str(lg)], agev1.aead_seal(fake.ref(spec["pw"], agev1.S_LABEL + rnd[:16], lg), agev1.Z12, fk)


def change(b, pos, how):
    b = bytearray(b)
    how %= 18
    if how < 4 and b:
        b[(pos // 8) % len(b)] ^= 1 << pos % 8
    elif how == 4 and b:
        del b[-1]
    elif how == 5:
        b.append(pos % 256)
    elif how == 6:
        b = bytearray()
    elif how == 7:
        b = bytearray(len(b))
    elif how == 8:
        b = bytearray(b[1:] + b[:1])
    elif how == 9:
        b = bytearray(b[::-1])
    elif how == 10:
        b = bytearray(x ^ 255 for x in b)
    elif how == 11:
        b = bytearray(b[len(b) // 2:] + b[:len(b) // 2])
    elif how == 12:
        b = bytearray(b"\xff" * len(b))
    elif how == 13 and b:
        i = pos % len(b)
        b[i], b[-1 - i] = b[-1 - i], b[i]
    elif how == 14:
        b = b + b
    elif how == 15:
        b = bytearray(b"".join(b[i:i + 4][::-1] for i in range(0, len(b), 4)))
    elif how == 16:
        b = bytearray(b"\0" + b)
    else:
        b = bytearray(b[-1:] + b[:-1])
    return bytes(b)


def must_refuse(tag, args, body, key, what):
    def go():
        r = get_recipient(tag, args, body).decrypt(key)
        return r
    try:
        got = go()
    except Exception:
        return
    raise Violation("%s: unwrapped %s" % (what, bytes(got).hex()))


def altered(case):
    spec, fk = case["key"], case["fk"]
    key = kit.dec_key(spec)
    with kit.fake_scrypt() as fake:
        tag, args, body = wrap(spec, fk, case["rng"])
        i = case["field"] % (len(args) + 1)
        what = "%s field %d" % (tag, i)
        how = case["how"]
        if how == "change":
            fields = args + [body]
            if tag == "scrypt" and i == 1:
                v = int(args[1]) + [1, -1, 2, -2, 4][case["n"] % 5]
                if v > 22 or not fake.effective and v > 12:
                    return ["trivial"]
                args = [args[0], str(v)]
            else:
                new = b64(change(raw(fields[i]), case["pos"], case["n"]))
                if new == fields[i]:
                    return ["trivial"]
                if i == len(args):
                    body = new
                else:
                    args = args[:i] + [new] + args[i + 1:]
            must_refuse(tag, args, body, key, what + " changed")
        elif how == "plus-n" and spec["t"] == "rsa":
            r = kit.RSA[spec["i"]]
            c = int.from_bytes(raw(body), "big") + r["n"]
            k = (r["n"].bit_length() + 7) // 8
            if c >> 8 * k:
                return ["trivial"]
            must_refuse(tag, args, b64(c.to_bytes(k, "big")), key, "RSA ciphertext plus modulus")
        else:
            # exchange a field with another entry of the same type
            spec2 = spec if case["same"] else dict(case["other"])
            if spec2["t"] != spec["t"]:
                return ["trivial"]
            fk2 = case["fk2"]
            tag2, args2, body2 = wrap(spec2, fk2, dict(case["rng2"]))
            if spec["t"] == "rsa":
                # tag and ciphertext of two entries for one key combine to a valid entry
                if kit.ident_id(spec2) == kit.ident_id(spec):
                    return ["trivial"]
                i = 1
            if spec["t"] == "ed" and i == 0:
                i = 1
            if i == len(args):
                new = (args, body2)
            else:
                new = (args[:i] + [args2[i]] + args[i + 1:], body)
            if new in ((args, body), (args2, body2)):
                return ["trivial"]
            must_refuse(tag, new[0], new[1], key, what + " exchanged")
            must_refuse(tag, new[0], new[1], kit.dec_key(spec2), what + " exchanged, other owner")
    return [spec["t"], how]


def foreign(case):
    spec, other, fk = case["key"], case["other"], case["fk"]
    if kit.ident_id(spec) == kit.ident_id(other):
        return ["trivial"]
    with kit.fake_scrypt():
        tag, args, body = wrap(spec, fk, case["rng"])
        must_refuse(tag, args, body, kit.dec_key(other), "%s identity on %s entry" % (other["t"], spec["t"]))
        if kit.raises(lambda: decrypt_file_key([get_recipient(tag, args, body)], [kit.dec_key(other)])) is None:
            raise Violation("decrypt_file_key accepted another identity")
    return [spec["t"] + "/" + other["t"]]


KNOWN = ("X25519", "scrypt", "ssh-rsa", "ssh-ed25519")


def types(case):
    tag = case["tag"]
    if tag not in KNOWN:
        e = kit.raises(get_recipient, tag, case["args"], b64(case["body"]))
        if e is None:
            raise Violation("entry type %r loaded" % tag)
    fk = case["fk"]
    for bad in (None, "age1xyz", b"key", 5, object(), EncryptionKey(), DecryptionKey(), kit.dec_key(case["key"]) if case["key"]["t"] != "pw" else None,
                kit.crypto_private({"t": "ed", "seed": fk * 2})):
        if kit.raises(generate_recipient_from_key, bad, fk) is None:
            raise Violation("entry generated for %r" % (bad,))
    return []


FK = st.one_of(st.binary(min_size=16, max_size=16), st.sampled_from([b"\0" * 16, b"\xff" * 16]))


def keys():
    return st.one_of(gen.age_ident(), gen.ed_ident(), gen.rsa_ident(False, False), gen.pw_ident())


def s_round():
    return st.fixed_dictionaries({"key": st.one_of(keys(), keys(), gen.ident()), "fk": FK, "rng": gen.rng(), "seed": st.integers(0, 10**6)})


def two():
    return st.one_of(st.tuples(keys(), keys()), st.tuples(gen.age_ident(), gen.age_ident()), st.tuples(gen.ed_ident(), gen.ed_ident()),
                     st.tuples(gen.pw_ident(), gen.pw_ident()), st.tuples(gen.rsa_ident(False, False), gen.rsa_ident(False, False)),
                     st.just(tuple({"t": "ed", "seed": s} for s in kit.ED_COLLIDING)),
                     st.just(tuple({"t": "rsa", "i": i} for i in kit.RSA_COLLIDING)))


def s_alt():
    return st.fixed_dictionaries({
        "pair": two(), "fk": FK, "fk2": FK, "rng": gen.rng(),
        "rng2": st.integers(0, 10**6).map(lambda s: {"mode": "drbg", "seed": s + 10**7}), "field": st.integers(0, 5), "n": st.integers(0, 255),
        "pos": gen.position(), "same": st.booleans(), "how": st.sampled_from(["change", "change", "change", "swap", "swap", "plus-n"])}).map(
            lambda c: dict(c, key=c["pair"][0], other=c["pair"][1]))


def s_foreign():
    return st.fixed_dictionaries({"pair": two(), "fk": FK, "rng": gen.rng()}).map(lambda c: dict(c, key=c["pair"][0], other=c["pair"][1]))


def s_types():
    return st.fixed_dictionaries({
        "tag": st.one_of(st.sampled_from(["x25519", "X25519 ", "", "SCRYPT", "ssh-rsa2", "ssh-", "ed25519", "ssh-dss", "X2551", "X255199", "None"]), st.text(max_size=12)),
        "args": st.lists(st.sampled_from(["AAAA", "18", ""]), max_size=3), "body": st.binary(max_size=40), "fk": FK, "key": keys()})


SUBS = [
    Sub("roundtrip", roundtrip, s_round, quick=2500, thorough=120000, qshards=3),
    Sub("altered", altered, s_alt, quick=5000, thorough=300000, qshards=3),
    Sub("foreign", foreign, s_foreign, quick=2500, thorough=120000, qshards=2),
    Sub("types", types, s_types, quick=1000, thorough=50000),
]
