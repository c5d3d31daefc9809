from hypothesis import strategies as st

from age.keys.agekey import AgePrivateKey, AgePublicKey
from ref import bech32, curve
from vf import gen, kit
from vf.core import Sub, Violation

PID = "P18"
RULE = ("'roundtrip': random and extreme 32-byte keys; strings equal the independent encoding, both cases decode to the same key, "
        "the public key equals independent scalar multiplication. 'errors': 1-4 substitutions anywhere, truncation, extension, "
        "adjacent transposition, lookalike characters for every occurrence, blanks and foreign characters inside, other prefix (every one with one character changed, added or removed in 'prefixes'), other data length (both with correct checksum) must raise. Non-trivial: all.")
ASSUMPTIONS = []
SEC = "age-secret-key-"
LOOK = [("0", "o"), ("l", "1"), ("l", "i"), ("l", "|"), ("1", "l"), ("1", "i"), ("8", "b"), ("6", "b"), ("0", "\u00f8"), ("5", "\uff15"), ("a", "\u0430"), ("e", "\u0435"), ("c", "\u0441"), ("3", "\u0663"), ("2", "\u00b2"), ("s", "\u017f"), ("k", "\u212a"),
        ("x", "\u0445"), ("j", "\u0458"), ("9", "\uff19"), ("m", "\uff4d"), ("u", "\u00fc"), ("g", "\u0261")]


def roundtrip(case):
    sk = case["sk"]
    k = AgePrivateKey.from_private_bytes(sk)
    s = k.private_string()
    if s != bech32.encode(SEC, sk).upper():
        raise Violation("secret key string %r differs from the independent encoding" % s)
    pk = curve.x25519_base(sk)
    if bytes(k.public_key().public_bytes()) != pk:
        raise Violation("public key is not the image of the secret key")
    p = k.public_key().public_string()
    if p != bech32.encode("age", pk):
        raise Violation("public key string differs from the independent encoding")
    for form in (s, s.lower()):
        k2 = AgePrivateKey.from_private_string(form)
        if bytes(k2.private_bytes()) != sk or k2 != k or hash(k2) != hash(k):
            raise Violation("%r decodes to another key" % form)
        if k2.public_key().public_string() != p:
            raise Violation("decoded key has another public key")
    any_pk = case["pk"]
    q = AgePublicKey.from_public_bytes(any_pk)
    ps = q.public_string()
    if ps != bech32.encode("age", any_pk):
        raise Violation("public key string of %s differs" % any_pk.hex())
    for form in (ps, ps.upper()):
        q2 = AgePublicKey.from_public_string(form)
        if bytes(q2.public_bytes()) != any_pk or q2 != q or hash(q2) != hash(q):
            raise Violation("%r decodes to another key" % form)
    if (q == k.public_key()) != (any_pk == pk):
        raise Violation("equality of public keys wrong")
    return []


def errors(case):
    key, secret, upper = case["key"], case["secret"], case["upper"]
    hrp = SEC if secret else "age"
    load = AgePrivateKey.from_private_string if secret else AgePublicKey.from_public_string
    good = bech32.encode(hrp, key)
    how = case["how"]
    if how == "sub":
        s = list(good.upper() if upper else good)
        orig = "".join(s)
        for pos, ch in case["subs"]:
            i = pos % len(s)
            s[i] = ch
        s = "".join(s)
        if s == orig:
            return ["trivial"]
    elif how == "case":
        s = list(good.upper() if upper else good)
        orig = "".join(s)
        for pos, _ in case["subs"]:
            i = pos % len(s)
            s[i] = s[i].swapcase()
        s = "".join(s)
        if s == orig:
            return ["trivial"]
    elif how == "lookalike":  # every occurrence typed as another character
        a, b = LOOK[case["n"] % len(LOOK)]
        s = good.upper() if upper else good
        orig = s
        s = s.replace(a.upper(), b.upper() if b.isascii() else b) if upper else s.replace(a, b)
        if s == orig:
            return ["trivial"]
    elif how == "insert":  # characters which belong in no key string, inside it
        s = good.upper() if upper else good
        orig = s
        for pos, ch in case["subs"]:
            i = 1 + pos % (len(s) - 1)
            c = ch if ch not in bech32.CHARSET + bech32.CHARSET.upper() else " \n\t-_\r\0.:/\u200b\u00ad"[case["n"] % 12]
            s = s[:i] + c + s[i:]
        if secret and s.replace("-", "") == orig.replace("-", "") and s.count("-") == 3:
            return ["trivial"]
    elif how == "kelvin":
        s = good.upper() if upper else good
        idx = [i for i, c in enumerate(s) if c in "kK"]
        if not idx:
            return ["trivial"]
        i = idx[case["n"] % len(idx)]
        s = s[:i] + "\u212a" + s[i + 1:]
    elif how == "prefix":
        h = (["age", "age-", "agf", "ag", "age-public-key-", "bc", "age-secret-key", "a"] if secret else
             [SEC, "age-", "agf", "ag", "age-secret-key", "bc", "age1", "pubkey"])[case["n"] % 8]
        s = bech32.encode(h, key)
    elif how == "hrp":
        s = bech32.encode(case["hrp"], key)
    elif how == "length":
        body = case["body"]
        if len(body) == 32:
            body += b"\0"
        s = bech32.encode(hrp, body)
    elif how == "truncate":
        s = good[:case["n"] % len(good)]
    elif how == "extend":
        n = case["n"]
        s = [good + bech32.CHARSET[n % 32], good + "qqq"[:1 + n % 3], bech32.CHARSET[n % 32] + good, good + good, good + " x",
             good[:-1] + "q" + good[-1]][n % 6]
        if s == good or bech32_valid(s):
            return ["trivial"]
    else:
        i = case["n"] % (len(good) - 1)
        s = good[:i] + good[i + 1] + good[i] + good[i + 2:]
        if s == good:
            return ["trivial"]
    if upper and how not in ("sub", "kelvin", "case", "insert", "lookalike"):
        s = s.upper()
    try:
        k = load(s)
    except Exception:
        return [how, "secret" if secret else "public"]
    raise Violation("%s: %r accepted (%r)" % (how, s, k))


def bech32_valid(s):
    # Bech32 does not promise to detect insertions of q before a final p
    try:
        return bech32.decode(s)[0] is not None
    except ValueError:
        return False


def key32():
    return st.one_of(gen.bytes32(), st.integers(0, 2**256 - 1).map(lambda v: v.to_bytes(32, "little")))


def strat_errors():
    ch = st.one_of(st.sampled_from(bech32.CHARSET), st.sampled_from(bech32.CHARSET.upper()), st.sampled_from("1bio -_\u212a\u017f\u00e9\n"),
                   st.characters(min_codepoint=33, max_codepoint=126))
    return st.fixed_dictionaries({
        "key": key32(), "secret": st.booleans(), "upper": st.booleans(), "n": gen.position(),
        "subs": st.lists(st.tuples(gen.position(), ch), min_size=1, max_size=4),
        "body": st.one_of(st.binary(max_size=31), st.binary(min_size=33, max_size=65), st.just(b"")),
        "how": st.sampled_from(["sub", "sub", "sub", "sub", "case", "kelvin", "lookalike", "insert", "prefix", "length", "truncate", "extend", "swap"])})


def enum_hrp(tier):
    """every prefix which is close to the right one, with a correct checksum"""
    key = kit.bseed("hrp")
    for secret, hrp in ((True, SEC), (False, "age")):
        other = set()
        for c in map(chr, range(33, 127)):
            if c.isupper():
                continue
            for i in range(len(hrp) + 1):
                other |= {hrp[:i] + c + hrp[i:], hrp[:i] + c + hrp[i + 1:]}
        for i in range(len(hrp)):
            other |= {hrp[:i], hrp[i:], hrp[:i] + hrp[i + 1:]}
        for x in ("age", SEC, "1", "age1", "key-", "-age", "public-key", "x" * 20):
            other |= {hrp + x, x + hrp}
        for h in sorted(other - {hrp, ""}):
            for upper in (False, True):
                yield {"key": key, "secret": secret, "upper": upper, "how": "hrp", "hrp": h, "n": 0}


SUBS = [
    Sub("prefixes", errors, enum=enum_hrp),
    Sub("roundtrip", roundtrip, lambda: st.fixed_dictionaries({"sk": key32(), "pk": key32()}), quick=2400, thorough=100000, qshards=4),
    Sub("errors", errors, strat_errors, quick=12000, thorough=1000000, qshards=4),
]
