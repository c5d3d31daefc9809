from hypothesis import strategies as st

from vf import gen, kit
from vf.core import Sub, Violation

PID = "P01"
RULE = ("Random plaintext spec (length biased to chunk boundaries, pattern), list of 1-6 recipients over the four key "
        "types (duplicates allowed), write cuts, read sizes and outputs of the random source; the file is decrypted once "
        "per recipient with that identity alone and compared with the plaintext. Non-trivial: non-empty plaintext, or "
        "several recipients, or a chosen random-source output. scrypt is replaced by a keyed-hash stand-in in search "
        "'roundtrip' and real in 'real-scrypt'.")
ASSUMPTIONS = ["cryptography/libsodium primitives work", "the KDF stand-in is a function of all scrypt parameters"]


def check(case, real=False):
    data = kit.material(case["pt"])
    idents = case["ids"]

    def body():
        blob = kit.encrypt([kit.enc_key(s) for s in idents], data, case["cuts"], case["rng"])
        for i, s in enumerate(idents):
            kit.must_decrypt([kit.dec_key(s)], blob, data, "recipient %d of %d (%s)" % (i + 1, len(idents), s["t"]),
                             case["reads"] if i == 0 else ())
    if real:
        body()
    else:
        with kit.fake_scrypt():
            body()
    labels = ["t:" + "+".join(sorted(set(s["t"] for s in idents))), "n:%d" % len(idents),
              "chunks:%s" % (min(5, -(-len(data) // 65536)) if data else "empty"), "rng:" + case["rng"]["mode"]]
    if len(data) % 65536 == 0 and data:
        labels.append("exact-chunk-multiple")
    if not data and len(idents) == 1 and case["rng"]["mode"] == "drbg":
        labels.append("trivial")
    return labels


def strat():
    return st.fixed_dictionaries({
        "pt": gen.plaintext(4),
        "ids": st.lists(gen.ident(slow=False), min_size=1, max_size=6),
        "cuts": gen.cuts(), "reads": gen.read_sizes(), "rng": gen.rng()})


def strat_slow():
    return st.fixed_dictionaries({
        "pt": gen.plaintext(2), "ids": st.lists(gen.rsa_ident(), min_size=1, max_size=2),
        "cuts": st.just([]), "reads": gen.read_sizes(), "rng": gen.rng()})


def strat_real():
    return st.fixed_dictionaries({
        "pt": gen.plaintext(2),
        "ids": st.tuples(gen.pw_ident(), st.lists(gen.ident(small=True, pw=False), max_size=2)).map(lambda t: [t[0]] + t[1]),
        "cuts": gen.cuts(), "reads": gen.read_sizes(), "rng": gen.rng()})


def big(tier):
    for k in ([255, 256, 257] if tier == "quick" else [100, 255, 256, 257, 300, 511, 512, 513, 700]):
        for d in ([1] if tier == "quick" else [-1, 0, 1]):
            yield {"pt": {"len": 65536 * k + d, "pat": "rand", "seed": k}, "ids": [{"t": "age", "sk": gen.sk_pool(1)}],
                   "cuts": [333], "reads": [65536, 1 << 20], "rng": {"mode": "drbg", "seed": k}}


def lengths(tier):
    """every length 0..300 and every length around the first chunk boundaries, one recipient"""
    ls = list(range(0, 300)) + [65536 * k + d for k in (1, 2, 3) for d in range(-40, 41)]
    if tier != "quick":
        ls += list(range(300, 5000)) + [65536 * k + d for k in range(4, 20) for d in range(-20, 21)]
    for n in ls:
        yield {"pt": {"len": n, "pat": "rand", "seed": n}, "ids": [{"t": "age", "sk": gen.sk_pool(n % 5)}],
               "cuts": [], "reads": [], "rng": {"mode": "drbg", "seed": n}}


def contents(tier):
    """plaintexts which begin or end with something special, at lengths up to beyond many chunks"""
    ns = [1, 2, 3, 17, 40, 1000, 65535, 65536, 65537, 131072, 4 * 65536 + 1, 6 * 65536, 17 * 65536 + 5]
    ns += [] if tier == "quick" else [5 * 65536, 33 * 65536, 33 * 65536 + 9, 100 * 65536 + 77]
    for n in ns:
        for pat in ["zero", "ff", "text"] + gen.CONTENTS:
            if pat.startswith("both") and tier == "quick":
                continue
            yield {"pt": {"len": n, "pat": pat, "seed": n}, "ids": [{"t": "age", "sk": gen.sk_pool(n % 5)}],
                   "cuts": [500], "reads": [65536], "rng": {"mode": "drbg", "seed": n}}


SUBS = [
    Sub("roundtrip", check, strat, quick=700, thorough=60000, qshards=4, tshards=8),
    Sub("large-rsa", check, strat_slow, quick=60, thorough=3000, tshards=4),
    Sub("real-scrypt", lambda c: check(c, True), strat_real, quick=12, thorough=400, qshards=2, tshards=4),
    Sub("many-chunks", check, enum=big, qshards=1, tshards=3),
    Sub("contents", check, enum=contents, qshards=2, tshards=4),
    Sub("all-lengths", check, enum=lengths, qshards=1, tshards=4),
]
