import io

from hypothesis import strategies as st

from age.exceptions import NoIdentity
from ref import agev1
from vf import alike, gen, kit
from vf.core import Sub, Violation

PID = "P02"
RULE = ("Random pair (recipient list, identity list) over a small pool of keys of the four types, several per type, "
        "including different keys whose 4-byte SSH tags collide, with unknown entries at random positions; expected "
        "outcome computed from the key material. 'many': up to 2100 (thorough 5000) recipients or identities, the match last. 'look-alike': two identities which agree in a few bytes of one representation (public string, fingerprints, checksums; similar passphrases). Non-trivial: at least two identities or recipients besides the match.")
ASSUMPTIONS = ["scrypt replaced by a keyed-hash stand-in in 'own-files'; entries of cost 1-3 in 'conforming-files'"]

TYPES = ("age", "ed", "rsa", "pw")


def pool_ident():
    return st.one_of(
        gen.age_ident(True), gen.ed_ident(True), gen.rsa_ident(True), gen.pw_ident(True),
        st.sampled_from(kit.ED_COLLIDING).map(lambda s: {"t": "ed", "seed": s}),
        st.sampled_from(kit.RSA_COLLIDING).map(lambda i: {"t": "rsa", "i": i}))


def expect(case, blob, data, has_unknown, pool=kit):
    have = {kit.ident_id(s) for s in case["recips"]}
    match = any(kit.ident_id(s) in have for s in case["idents"])
    keys = [pool.dec_key(s) for s in case["idents"]]
    # the outcome may not depend on the kind of collection either
    coll = {"list": list, "tuple": tuple, "set": set}[case["coll"]](keys)
    r = kit.try_decrypt(coll, blob)
    if match:
        if r[0] != "ok":
            raise Violation("an identity matches, but decryption fails with %s: %s" % (type(r[1]).__name__, r[1]))
        if r[1] != data:
            raise Violation("wrong plaintext")
    else:
        if r[0] == "ok":
            raise Violation("no identity matches, but decryption returned %r" % r[1][:40])
        if not isinstance(r[1], NoIdentity):
            raise Violation("no identity matches: expected the no-identity error, got %s: %s" % (type(r[1]).__name__, r[1]))
        if r[2]:
            raise Violation("data released without a matching identity")
    tcount = {t: sum(s["t"] == t for s in case["idents"]) for t in TYPES}
    labels = ["match" if match else "no-match", "types:%d" % sum(bool(v) for v in tcount.values())]
    if any(v > 1 for v in tcount.values()):
        labels.append("several-identities-of-one-type")
    if has_unknown:
        labels.append("unknown-entry")
    if len(case["recips"]) + len(case["idents"]) < 4:
        labels.append("trivial")
    return labels


def own(case):
    data = kit.material(case["pt"])
    with kit.fake_scrypt():
        blob = kit.encrypt([kit.enc_key(s) for s in case["recips"]], data, (), case["rng"])
        return expect(case, blob, data, False)


def conforming(case):
    data = kit.material(case["pt"])
    fk = kit.bseed("fk", case["seed"])[:16]
    stanzas = [kit.ref_wrap(s, fk, kit.bseed("w", case["seed"], i), 1 + i % 3) for i, s in enumerate(case["recips"])]
    for pos, g in case["grease"]:
        stanzas.insert(pos * (len(stanzas) + 1) // 1000, (g["args"], g["body"]))
    blob = agev1.write_file(stanzas, fk, kit.bseed("n", case["seed"])[:16], data)
    return expect(case, blob, data, bool(case["grease"]))


def reuse(case):
    """a program that loads its keys once: the same key objects encrypt and decrypt many files, also damaged ones"""
    pool, files, labels = kit.Pool(), [], set()
    ids = case["ids"]
    with kit.fake_scrypt() as fs:
        for n, op in enumerate(case["ops"]):
            some = [ids[i % len(ids)] for i in op["some"]]
            data = kit.bseed("data", n)[:n + 1]
            if op["op"] in ("own", "other"):
                if op["op"] == "own":
                    blob = kit.encrypt([pool.enc_key(s) for s in some], data, (), {"mode": "drbg", "seed": n})
                else:
                    fk = kit.bseed("fk", n)[:16]
                    blob = agev1.write_file([kit.ref_wrap(s, fk, kit.bseed("w", n, i), 1 + i % 3) for i, s in enumerate(some)],
                                            fk, kit.bseed("n", n)[:16], data) if not fs.effective or not any(
                                                s["t"] == "pw" for s in some) else None
                if blob:
                    files.append((some, blob, data))
                continue
            if not files:
                continue
            recips, blob, data = files[op["which"] % len(files)]
            if op["op"] == "damaged":
                at = len(blob) - 1 - op["at"] % 200 % len(blob)
                kit.try_decrypt([pool.dec_key(s) for s in some], blob[:at] + bytes([blob[at] ^ 1]) + blob[at + 1:])
                continue
            try:
                labels.update(expect({"recips": recips, "idents": some, "coll": "list"}, blob, data, False, pool))
            except Violation as e:
                raise Violation("operation %d with key objects used before: %s" % (n, e))
    return sorted(labels - {"trivial"}) + ["files:%d" % min(len(files), 5)] + ([] if files and len(case["ops"]) > 3 else ["trivial"])


def strat_reuse():
    return st.fixed_dictionaries({
        "ids": st.lists(pool_ident(), min_size=1, max_size=5, unique_by=kit.ident_id),
        "ops": st.lists(st.fixed_dictionaries({
            "op": st.sampled_from(["own", "own", "other", "open", "open", "open", "damaged"]), "which": st.integers(0, 20),
            "some": st.lists(st.integers(0, 4), min_size=1, max_size=3), "at": st.integers(0, 10**6)}), min_size=2, max_size=20)})


def many_ident(t, i):
    if t == "age":
        return {"t": "age", "sk": kit.bseed("many", i)}
    if t == "ed":
        return {"t": "ed", "seed": kit.bseed("many", i)}
    return {"t": "pw", "pw": b"many %d" % i}


def many(case):
    """long lists: n recipients and m identities of one type (or mixed), at most one in common at the given places"""
    types = {"mix": ["age", "ed", "pw"]}.get(case["t"], [case["t"]])
    recips = [many_ident(types[i % len(types)], i) for i in range(case["n"])]
    idents = [many_ident(types[i % len(types)], 10**6 + i) for i in range(case["m"])]
    if case["match"]:
        idents[-1 if case["last"] else 0] = recips[case["at"] % case["n"]]
    return own({"recips": recips, "idents": idents, "pt": {"len": 10}, "rng": {"mode": "drbg", "seed": 1}, "coll": "list"}) + ["many"]


def enum_many(tier):
    sizes = [(7, 7), (17, 9), (33, 33), (1, 130), (130, 1), (70, 20)] + ([(300, 2), (2, 300), (1, 2100), (1100, 1)] if tier == "quick" else [(300, 20), (20, 300), (1030, 3), (3, 1030), (130, 130), (1, 5000), (5000, 1)])
    for t in ("age", "ed", "pw", "mix"):
        for n, m in sizes:
            if t == "ed":
                n, m = min(n, 70), min(m, 70)
            for match, last, at in ((True, True, -1), (True, False, n // 2), (False, True, 0)):
                yield {"t": t, "n": n, "m": m, "match": match, "last": last, "at": at}


def look_alike(case):
    """two identities which agree in a few bytes of one representation: each opens its own files only, in any company"""
    a, b = case["a"], case["b"]
    for recips, idents in (([a], [a, b]), ([a], [b, a]), ([b], [a, b]), ([b], [b, a]), ([a], [b]), ([b], [a]), ([a, b], [a]), ([a, b], [b]),
                           ([b, a], [a]), ([b, a], [b])):
        for coll in ("list", "set"):
            own({"recips": recips, "idents": idents, "pt": {"len": 5}, "rng": {"mode": "drbg", "seed": 2}, "coll": coll})
    return [case["view"], a["t"]]


def enum_alike(tier):
    n, per = (1500, 3) if tier == "quick" else (20000, 40)
    for t in ("age", "age-secret", "ed"):
        for view, a, b in alike.secret_pairs(t, n, per):
            yield {"view": view, "a": a, "b": b}
    for a, b in alike.PASSPHRASES:
        yield {"view": "passphrases", "a": {"t": "pw", "pw": a}, "b": {"t": "pw", "pw": b}}


BASE = dict(
    pt=gen.small_plaintext(100), recips=st.lists(pool_ident(), min_size=1, max_size=5),
    idents=st.lists(pool_ident(), min_size=0, max_size=5), coll=st.sampled_from(["list", "tuple", "set"]))


def strat_own():
    return st.fixed_dictionaries(dict(BASE, rng=gen.rng()))


def strat_conf():
    return st.fixed_dictionaries(dict(
        BASE, seed=st.integers(0, 10**6),
        grease=st.lists(st.tuples(gen.position().map(lambda x: x // 1000), gen.grease()), max_size=3)))


SUBS = [
    Sub("reused-keys", reuse, strat_reuse, quick=500, thorough=12000, qshards=2, tshards=4),
    Sub("look-alike", look_alike, enum=enum_alike, qshards=2, tshards=4),
    Sub("many", many, enum=enum_many, qshards=4, tshards=4),
    Sub("own-files", own, strat_own, quick=1200, thorough=60000, qshards=3),
    Sub("conforming-files", conforming, strat_conf, quick=1600, thorough=80000, qshards=4),
]
