"""Shared Hypothesis strategies (cases are plain data)."""
import hashlib

from hypothesis import strategies as st

from vf import kit

CH = 65536


def weighted(*pairs):
    """one_of with integer weights"""
    total = sum(w for w, _ in pairs)

    def pick(k):
        for w, s in pairs:
            if k < w:
                return s
            k -= w
    return st.integers(0, total - 1).flatmap(pick)


def sk_pool(i):
    return hashlib.sha256(b"age-sk-%d" % i).digest()


def ed_pool(i):
    return hashlib.sha256(b"ed-seed-%d" % i).digest()


def bytes32():
    return st.one_of(
        st.integers(0, 7).map(sk_pool),
        st.binary(min_size=32, max_size=32),
        st.sampled_from([b"\0" * 32, b"\xff" * 32, b"\x01" + b"\0" * 31, b"\0" * 31 + b"\x80"]),
    )


def age_ident(small=False):
    s = st.integers(0, 3).map(sk_pool) if small else bytes32()
    return s.map(lambda b: {"t": "age", "sk": b})


def ed_ident(small=False):
    s = st.integers(0, 3).map(ed_pool) if small else st.one_of(
        st.integers(0, 7).map(ed_pool), st.binary(min_size=32, max_size=32),
        st.sampled_from(kit.ED_COLLIDING))
    return s.map(lambda b: {"t": "ed", "seed": b})


def rsa_ident(small=False, slow=True):
    pool = [0, 13, 14, 1] if small else (list(range(15)) + [17] if slow else [0, 1, 2, 3, 4, 5, 6, 13, 14])
    if not small:
        pool = pool + list(kit.RSA_COLLIDING)
    return st.sampled_from(pool).map(lambda i: {"t": "rsa", "i": i})


def password():
    return st.one_of(
        st.sampled_from([b"", b"a", b"password", b"\0", b"pass\0word", b"\xff\xfe", "p\u00e4ss".encode(), b"x" * 200]),
        st.binary(max_size=40), st.text(max_size=12).map(lambda s: s.encode("utf-8", "surrogatepass")))


def pw_ident(small=False):
    return (st.sampled_from([b"", b"a", b"b", b"pw"]) if small else password()).map(lambda b: {"t": "pw", "pw": b})


def ident(small=False, pw=True, slow=True):
    alts = [age_ident(small), ed_ident(small), rsa_ident(small, slow)]
    if pw:
        alts.append(pw_ident(small))
    return st.one_of(*alts)


def length(maxchunks=4):
    edges = [0, 1, 2, 15, 16, 17, 31, 32, 33, 63, 64, 65, 255, 256]
    for k in range(1, maxchunks + 1):
        edges += [CH * k + d for d in (-17, -16, -15, -1, 0, 1, 15, 16, 17)]
    return st.one_of(st.integers(0, 70), st.sampled_from(edges), st.integers(0, 2000),
                     st.integers(0, CH * maxchunks + 100))


CONTENTS = ["chunk"] + [a + ":" + b for b in sorted(kit.ENDS) for a in ("head", "tail", "both")]


def plaintext(maxchunks=4):
    return st.fixed_dictionaries({"len": length(maxchunks),
                                  "pat": st.sampled_from(["rand"] * 8 + ["zero", "text", "ff"] * 2 + CONTENTS),
                                  "seed": st.integers(0, 1000)})


def small_plaintext(maxlen=200):
    return st.fixed_dictionaries({"len": st.integers(0, maxlen), "pat": st.sampled_from(["rand", "zero", "text"]),
                                  "seed": st.integers(0, 1000)})


def rng():
    return st.one_of(
        st.integers(0, 10**6).map(lambda s: {"mode": "drbg", "seed": s}),
        st.sampled_from([0, 255, 10, 45, 0xAA]).map(lambda b: {"mode": "const", "byte": b}),
        st.tuples(st.sampled_from([b"\n", b"\r\n", b"--- ", b"---", b"-> ", b"\n--- ", b"\0", b"\xff\xff", b" ", b"\xe2\x80\xa8",
                                   b"-----BEGIN ", b"\x1a", b"age-encryption.org/v1\n"]),
                  st.integers(0, 10**6)).map(lambda t: {"mode": "prefix", "pre": t[0], "seed": t[1]}),
    )


def cuts():
    return st.lists(st.integers(0, 1000), max_size=5)


def read_sizes():
    return st.lists(st.one_of(st.sampled_from([0, 1, 2, 16, CH, CH - 1, CH + 1, -1]), st.integers(0, 200000)), max_size=6)


VCHAR = "".join(chr(c) for c in range(33, 127))


def vword(min_size=1, max_size=30):
    return st.text(alphabet=VCHAR, min_size=min_size, max_size=max_size)


def grease():
    """unknown recipient entry: (args, body)"""
    typ = st.one_of(
        vword(), st.sampled_from(["x25519", "X25519x", "piv-p256", "ssh-rsa2", "--- ", "->", "---", "SCRYPT", "grease-x"])
        .map(lambda s: s.strip())).filter(lambda s: s not in ("X25519", "scrypt", "ssh-rsa", "ssh-ed25519"))
    body = st.one_of(
        st.integers(0, 300).map(lambda n: kit.material({"len": n, "seed": n})),
        st.sampled_from([0, 1, 47, 48, 49, 95, 96, 97, 144, 192, 480]).map(lambda n: kit.material({"len": n, "seed": n})),
        st.binary(max_size=60))
    args = weighted((12, st.lists(vword(), max_size=4)), (1, st.integers(5, 70).map(lambda n: ["a%d" % i for i in range(n)])),
                    (1, st.sampled_from([100, 255, 1000, 4096, 8192, 70000]).map(lambda n: ["x" * n])))
    return st.tuples(typ, args, body).map(lambda t: {"args": [t[0]] + t[1], "body": t[2]})


def position():
    """0..999999, spread evenly although Hypothesis prefers small integers"""
    return st.integers(0, 999999).map(lambda x: (x * 617283 + 424242) % 1000000)
