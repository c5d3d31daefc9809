from hypothesis import strategies as st

from ref import agev1
from vf import gen, kit
from vf.core import Sub, Violation

PID = "P05"
RULE = ("'outbound': random plaintext and recipients are encrypted by the code under test; the file must pass the strict "
        "reference parser (v1 grammar, canonical base64, sizes, short final body line) and every recipient's entry must be "
        "opened by the reference implementation, which authenticates header and payload and returns the plaintext. "
        "'inbound': files of the reference writer over random recipients, unknown entries with arbitrary arguments and body "
        "lengths, random file keys and nonces must decrypt in the code under test. 'unknown-entries': many and large unknown entries around a known one. 'large-rsa': both for RSA keys of 3072 to 16384 bits. Non-trivial: at least 2 entries, or an "
        "exact 64-column body, or more than one chunk.")
ASSUMPTIONS = ["the reference implementation in ref/agev1.py is a correct reading of the age v1 format",
               "ssh-ed25519 entries of pyage follow an older draft and are excluded here (see P06)"]


def outbound(case, real=False):
    data = kit.material(case["pt"])
    idents = case["ids"]

    def go(kdf):
        return kit.encrypt([kit.enc_key(s) for s in idents], data, case["cuts"], case["rng"]), kdf
    if real:
        blob, kdf = go(agev1.scrypt)
    else:
        with kit.fake_scrypt() as fs:
            blob, kdf = go(fs.ref)
    try:
        stanzas, auth, mac, pos = agev1.parse_header(blob)
    except agev1.FormatError as e:
        raise Violation("header is not strictly valid: %s\n%r" % (e, blob[:600]))
    if len(stanzas) != len(idents):
        raise Violation("%d entries for %d recipients" % (len(stanzas), len(idents)))
    keys = set()
    for i, (s, stanza) in enumerate(zip(idents, stanzas)):
        if stanza[0][0] != kit.STANZA_TAG[s["t"]]:
            raise Violation("entry %d has type %r" % (i, stanza[0][0]))
        try:
            fk = kit.ref_unwrap(s, stanza, kdf)
        except (agev1.FormatError, agev1.AuthError) as e:
            raise Violation("entry %d (%s) cannot be opened by the reference implementation: %s" % (i, s["t"], e))
        keys.add(fk)
        try:
            got = agev1.open_with_key(blob, fk)
        except (agev1.FormatError, agev1.AuthError) as e:
            raise Violation("reference implementation rejects the file: %r" % e)
        if got != data:
            raise Violation("reference implementation decrypts to other bytes")
    if s["t"] == "pw" and int(stanza[0][2]) not in range(1, 23):
        raise Violation("work factor")
    labels = ["types:" + "+".join(sorted({s["t"] for s in idents})), "entries:%d" % len(idents)]
    if any(len(agev1.b64(b)) % 64 == 0 for _, b in stanzas):
        labels.append("full-last-line")
    elif len(idents) == 1 and len(data) <= 65536:
        labels.append("trivial")
    return labels


def inbound(case):
    data = kit.material(case["pt"])
    fk = kit.material({"len": 16, "seed": case["fkseed"], "pat": case["fkpat"]})
    ids = case["ids"]
    stanzas = [kit.ref_wrap(s, fk, kit.bseed("w", case["fkseed"], i), 1) for i, s in enumerate(ids)]
    for pos, g in case["grease"]:
        stanzas.insert(pos * (len(stanzas) + 1) // 1000, (g["args"], g["body"]))
    nonce = case["nonce"]
    blob = agev1.write_file(stanzas, fk, nonce, data)
    assert agev1.open_with_key(blob, fk) == data
    for i, s in enumerate(ids):
        kit.must_decrypt([kit.dec_key(s)], blob, data, "conforming file, recipient %d (%s)" % (i, s["t"]),
                         case["reads"] if not i else ())
    labels = ["entries:%d" % len(stanzas), "types:" + "+".join(sorted({s["t"] for s in ids}))]
    if case["grease"]:
        labels.append("unknown-entries")
    if any(len(agev1.b64(b)) % 64 == 0 for _, b in stanzas):
        labels.append("full-last-line")
    elif len(stanzas) == 1 and len(data) <= 65536:
        labels.append("trivial")
    return labels


def interop_ident(pw):
    alts = [gen.age_ident(), gen.rsa_ident(slow=False)]
    return st.one_of(*alts)


def strat_out():
    return st.fixed_dictionaries({
        "pt": gen.plaintext(3),
        "ids": gen.weighted((5, st.lists(interop_ident(False), min_size=1, max_size=4)), (1, gen.pw_ident().map(lambda i: [i]))),
        "cuts": gen.cuts(), "rng": gen.rng()})


def strat_real():
    return st.fixed_dictionaries({"pt": gen.small_plaintext(), "ids": gen.pw_ident().map(lambda i: [i]),
                                  "cuts": gen.cuts(), "rng": st.just({"mode": "os"})})


def strat_in():
    pw = st.tuples(gen.pw_ident(), st.integers(1, 5)).map(lambda t: [dict(t[0], logn=t[1])])
    return st.fixed_dictionaries({
        "pt": gen.plaintext(3),
        "ids": gen.weighted((4, st.lists(interop_ident(False), min_size=1, max_size=4)), (1, pw)),
        "grease": st.lists(st.tuples(gen.position().map(lambda x: x // 1000), gen.grease()), max_size=4),
        "fkseed": st.integers(0, 10**6), "fkpat": st.sampled_from(["rand", "zero", "ff"]),
        "nonce": st.one_of(st.binary(min_size=16, max_size=16),
                           st.sampled_from([b"\n" * 16, b"--- aaaaaaaaaaa\n", b"-> X25519 abcde\n", b"\0" * 16, b"\xff" * 16])),
        "reads": gen.read_sizes()})


def strat_in_slow():
    return st.fixed_dictionaries({
        "pt": gen.small_plaintext(), "ids": st.lists(gen.rsa_ident(), min_size=1, max_size=2),
        "grease": st.lists(st.tuples(gen.position().map(lambda x: x // 1000), gen.grease()), max_size=2),
        "fkseed": st.integers(0, 10**6), "fkpat": st.just("rand"), "nonce": st.binary(min_size=16, max_size=16),
        "reads": gen.read_sizes()})


def bodies(tier):
    """an unknown entry of every body length, before and after the real one"""
    for n in range(0, 300 if tier == "quick" else 2000):
        g = {"args": ["grease", "x"], "body": kit.material({"len": n, "seed": n})}
        yield {"pt": {"len": 20, "seed": n}, "ids": [{"t": "age", "sk": gen.sk_pool(0)}],
               "grease": [(0 if n % 2 else 999, g)], "fkseed": n, "fkpat": "rand", "nonce": bytes(range(16)), "reads": []}


def large_rsa(case):
    return outbound(case) + inbound(case)


def enum_large_rsa(tier):
    """keys up to the size where the underlying libraries end"""
    for i in [18, 17, 19, 12, 11] * (1 if tier == "quick" else 10):
        for pos in range(2):
            ids = [{"t": "age", "sk": gen.sk_pool(1)}]
            ids.insert(pos, {"t": "rsa", "i": i})
            yield {"pt": {"len": 30 * i, "seed": i}, "ids": ids, "cuts": [], "rng": {"mode": "os"}, "grease": [], "fkseed": i, "fkpat": "rand", "nonce": bytes(range(16)), "reads": []}


def enum_unknown(tier):
    """unknown entries with many or long arguments, long bodies, many of them"""
    k = 0
    for args in ([5, 16, 31, 32, 33, 64, 65, 100, 128, 256, 1000] if tier == "quick" else list(range(5, 130)) + [255, 256, 257, 1000, 10000]):
        for length in (1, 30):
            k += 1
            yield {"args": ["many"] + ["a" * length] * args, "size": k % 100, "n": 1}
    for length in (60, 100, 128, 255, 256, 1000, 1024, 4095, 4096, 4097, 8192, 20000, 65536, 100000) + (() if tier == "quick" else (10 ** 6, 4 * 10 ** 6)):
        for args in (["x" * length], ["t", "y" * length], ["t", "z" * length, "z"]):
            k += 1
            yield {"args": args, "size": k % 100, "n": 1 + k % 3}
    for n in (2, 10, 16, 17, 20, 32, 33, 50, 64, 65, 100, 128, 129, 256, 257, 1000) + (() if tier == "quick" else (1024, 1025, 5000, 20000)):
        yield {"args": ["t", "x"], "size": n % 97, "n": n}
    for size in (300, 512, 513, 1000, 1024, 2048, 4096, 10000, 65536, 10 ** 6) + (() if tier == "quick" else (10 ** 7,)):
        yield {"args": ["t", "x"], "size": size, "n": 1}


def unknown(case):
    spec = {"t": "age", "sk": gen.sk_pool(1)}
    for at in range(2):
        c = {"pt": {"len": 20, "seed": 1}, "ids": [spec], "fkseed": case["size"], "fkpat": "rand", "nonce": bytes(range(16)), "reads": [],
             "grease": [(at * 999, {"args": case["args"], "body": kit.material({"len": case["size"], "seed": i})}) for i in range(case["n"])]}
        inbound(c)
    return ["entries:%d" % case["n"]]


SUBS = [
    Sub("unknown-entries", unknown, enum=enum_unknown),
    Sub("large-rsa", large_rsa, enum=enum_large_rsa, tshards=4),
    Sub("outbound", outbound, strat_out, quick=1200, thorough=60000, qshards=4),
    Sub("outbound-real-scrypt", lambda c: outbound(c, True), strat_real, quick=6, thorough=200, qshards=2, tshards=4),
    Sub("inbound", inbound, strat_in, quick=1500, thorough=80000, qshards=5),
    Sub("inbound-rsa", inbound, strat_in_slow, quick=60, thorough=3000),
    Sub("every-body-length", inbound, enum=bodies, qshards=2),
]
