import age.stream
from age.stream import stream_decrypt, stream_encrypt
from hypothesis import strategies as st

from ref import agev1
from vf import gen, kit
from vf.core import Sub, Violation

PID = "P10"
RULE = ("Random keys and data lengths (biased to chunk boundaries, up to hundreds of chunks): output must equal the independent "
        "STREAM construction, decryption must invert it; a different key, every kind of prefix, extension, chunk permutation, "
        "wrong counter or wrong last-chunk flag must raise. 'counters' shrinks the chunk size (a module constant) to reach "
        "counters beyond 65536 with little data; it is skipped, and counted as such, if the constant has no effect. "
        "Non-trivial: more than one chunk, or a refused variant.")
ASSUMPTIONS = ["libsodium's ChaCha20-Poly1305 is correct"]
CH = 65536


def differential(case):
    key, data = case["key"], kit.material(case["pt"])
    got = bytes(stream_encrypt(key, data))
    want = agev1.stream_seal(key, data)
    if got != want:
        raise Violation("ciphertext differs from STREAM at offset %d (lengths %d, %d)" % (kit.first_diff(got, want), len(got), len(want)))
    back = bytes(stream_decrypt(key, want))
    if back != data:
        raise Violation("decryption does not invert")
    n = -(-len(data) // CH)
    return ["chunks:%s" % (n if n < 6 else "6+")] + ([] if n > 1 else ["trivial"])


def fails(key, data, what):
    try:
        r = stream_decrypt(key, data)
    except Exception:
        return
    raise Violation("%s: decrypted to %d bytes" % (what, len(r)))


def variants(case):
    key, data = case["key"], kit.material(case["pt"])
    enc = agev1.stream_seal(key, data)
    k, p, a = case["kind"], case["pos"], case["arg"]
    cc = CH + 16
    if k == "key":
        k2 = bytearray(key)
        k2[p % 32] ^= 1 << a % 8
        fails(bytes(k2), enc, "other key")
    elif k == "prefix":
        q = p * len(enc) // 1000000
        fails(key, enc[:q], "prefix of %d bytes" % q)
    elif k == "chunk-prefix":
        q = (p % (len(enc) // cc + 1)) * cc + [0, 1, -1, 15, 16, 17, -16][a % 7]
        q = max(0, q)
        if q >= len(enc):
            return ["trivial"]
        fails(key, enc[:q], "prefix of %d bytes" % q)
    elif k == "extend":
        fails(key, enc + [b"\0", b"x" * 16, b"\0" * 17, enc[-16:], enc, enc[:cc]][a % 6], "extension")
    elif k == "flip":
        q = p * len(enc) // 1000000
        b = bytearray(enc)
        b[q] ^= 1 << a % 8
        fails(key, bytes(b), "bit flip at %d" % q)
    elif k == "structure":
        # chunks sealed under the right key with a wrong counter or flag
        n = max(1, -(-len(data) // CH))
        spec = [(i, int(i == n - 1)) for i in range(n)]
        i, j = p % n, a % n
        m = a % 6
        if m == 0:
            spec[i] = (spec[i][0] + 1 + a, spec[i][1])
        elif m == 1:
            spec[i] = (spec[i][0], 1 - spec[i][1])
        elif m == 2 and i != j:
            spec[i], spec[j] = (spec[j][0], spec[i][1]), (spec[i][0], spec[j][1])
        elif m == 3:
            spec = [(c + 1, f) for c, f in spec]
        elif m == 4:
            spec = [(int.from_bytes(c.to_bytes(11, "little"), "big"), f) for c, f in spec]
        elif m == 5:
            spec[i] = (spec[i][0], 2)
        if spec == [(x, int(x == n - 1)) for x in range(n)]:
            return ["trivial"]
        out = b"".join(agev1.aead_seal(key, c.to_bytes(11, "big") + bytes([f]), data[x * CH:(x + 1) * CH]) for x, (c, f) in enumerate(spec))
        fails(key, out, "wrong counters/flags %r" % (spec,))
    return ["kind:" + k]


def counters(case):
    bs = case["block"]
    names = ("PLAINTEXT_BLOCK_SIZE", "CIPHERTEXT_BLOCK_SIZE")
    saved = {n: getattr(age.stream, n) for n in names if hasattr(age.stream, n)}
    try:
        # the size of a chunk is a constant of the module; where changing it has no effect on both
        # directions (another way of writing the code), only the searches with real chunks apply
        for n, v in zip(names, (bs, bs + 16)):
            if n in saved:
                setattr(age.stream, n, v)
        try:
            probe = stream_encrypt(b"k" * 32, b"x" * (2 * bs + 1))
            back = stream_decrypt(b"k" * 32, agev1.stream_seal(b"k" * 32, b"x" * (2 * bs + 1), bs))
        except Exception:
            return ["trivial", "chunk-size-constant-has-no-effect"]
        if len(probe) != 2 * bs + 1 + 48 or len(back) != 2 * bs + 1:
            return ["trivial", "chunk-size-constant-has-no-effect"]
        key = kit.bseed("c", case["seed"])
        data = kit.material({"len": case["len"], "seed": case["seed"]})
        want = agev1.stream_seal(key, data, bs)
        got = bytes(stream_encrypt(key, data))
        if got != want:
            d = kit.first_diff(got, want)
            raise Violation("chunk %d of %d differs from STREAM" % (d // (bs + 16), -(-len(data) // bs)))
        if bytes(stream_decrypt(key, want)) != data:
            raise Violation("decryption does not invert")
        if case["cut"]:
            fails(key, want[:len(want) - case["cut"] * (bs + 16)], "chunks cut off")
    finally:
        for n, v in saved.items():
            setattr(age.stream, n, v)
    n = -(-case["len"] // bs)
    return ["chunks:%s" % ("<256" if n <= 256 else "<65536" if n <= 65536 else ">65536")] + (["trivial"] if n < 2 else [])


def keys():
    return st.one_of(st.binary(min_size=32, max_size=32), st.sampled_from([b"\0" * 32, b"\xff" * 32]))


def strat():
    return st.fixed_dictionaries({"key": keys(), "pt": st.one_of(gen.plaintext(3), gen.plaintext(12))})


def strat_var():
    return st.fixed_dictionaries({
        "key": keys(), "pt": st.one_of(gen.small_plaintext(50), gen.plaintext(3), st.integers(1, 4).map(lambda k: {"len": k * CH, "pat": "rand", "seed": k})),
        "pos": gen.position(), "arg": st.integers(0, 60),
        "kind": st.sampled_from(["key", "prefix", "chunk-prefix", "extend", "flip", "structure", "structure"])})


def strat_cnt():
    return st.fixed_dictionaries({"block": st.sampled_from([1, 2, 16, 64]), "len": st.integers(0, 3000), "seed": st.integers(0, 1000),
                                  "cut": st.integers(0, 2)})


def enum_cnt(tier):
    for n in ([256, 257, 65540] if tier == "quick" else [255, 256, 257, 511, 512, 513, 65535, 65536, 65537, 65538, 66000, 131080]):
        yield {"block": 1, "len": n, "seed": n, "cut": 1}


def enum_big(tier):
    for n in ([256, 257] if tier == "quick" else [64, 128, 255, 256, 257, 258, 300, 511, 512, 513, 768, 1000]):
        for d in ([0, 1] if tier == "quick" else [-1, 0, 1]):
            yield {"key": kit.bseed(n), "pt": {"len": CH * n + d, "seed": n}}


SUBS = [
    Sub("differential", differential, strat, quick=800, thorough=60000, qshards=3),
    Sub("variants", variants, strat_var, quick=1500, thorough=100000, qshards=3),
    Sub("counters", counters, strat_cnt, quick=500, thorough=20000, qshards=1),
    Sub("counters-large", counters, enum=enum_cnt, qshards=3, tshards=8),
    Sub("hundreds-of-chunks", differential, enum=enum_big, qshards=4, tshards=4),
]
