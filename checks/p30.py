from hypothesis import strategies as st

from age.primitives.bech32 import bech32_decode, bech32_encode
from ref import bech32
from vf import gen
from vf.core import Sub, Violation

PID = "P30"
RULE = ("'bijection': random lower-case prefix (1-83 printable characters, '1' included) and bytes: encoding equals the "
        "independent one, both case forms decode to it. 'strings': a valid string with 0-4 random edits (substitution, "
        "insertion, deletion, case, non-ASCII look-alikes), a string with correct checksum over random words (any padding), "
        "prefix of illegal length or character with correct checksum, a checksum of another kind (Bech32m, other constants, other prefix expansions), or random text: accepted exactly if the independent "
        "decoder accepts, with the same result. 'every-character': each character of valid strings replaced by every other one. Non-trivial: non-empty data, or an edited string.")
ASSUMPTIONS = []
LOWER = "".join(chr(c) for c in range(33, 127) if not chr(c).isupper())


def hrp():
    return st.one_of(st.sampled_from(["age", "age-secret-key-", "a", "1", "11", "~!1", "bc", "x" * 83]),
                     st.text(alphabet=LOWER, min_size=1, max_size=83), st.text(alphabet="ab1-", min_size=1, max_size=10))


def data():
    return st.one_of(st.binary(max_size=40), st.binary(min_size=32, max_size=32), st.integers(0, 200).map(lambda n: b"\0" * n),
                     st.integers(0, 200).map(lambda n: b"\xff" * n), st.binary(max_size=300))


def bijection(case):
    h, d = case["hrp"], case["data"]
    s = bech32_encode(h, d)
    want = bech32.encode(h, d)
    if s != want:
        raise Violation("encoded as %r instead of %r" % (s, want))
    for form, t in (("lower", s), ("upper", s.upper())):
        got = bech32_decode(t)
        if got[0] != h or bytes(got[1]) != d:
            raise Violation("%s case form decodes to %r" % (form, got))
    return [] if d else ["trivial"]


def compare(s):
    try:
        want = bech32.decode(s)
    except ValueError as e:
        want = None
        why = str(e)
    try:
        got = bech32_decode(s)
    except Exception:
        got = None
    if want is None and got is not None:
        raise Violation("invalid string (%s) %r decoded to %r" % (why, s, got))
    if want is not None and got is None:
        raise Violation("valid string %r refused" % s)
    if want is not None and (got[0], bytes(got[1])) != want:
        raise Violation("%r decoded to %r instead of %r" % (s, got, want))
    return "valid" if want is not None else "invalid:" + why


SPECIAL = "\u212a\u017f\u0130\u0131 \x7f\x80\x1f\t\nK1bioSs-_0O=AQ\u0660\uff11\xdf\u00b9"


# (description, start value of the checksum, constant, hrp expansion): only the first is Bech32
EXPAND = {"bip173": bech32.expand, "plain": lambda h: [ord(c) for c in h] + [0], "low": lambda h: [ord(c) & 31 for c in h],
          "nosep": lambda h: [ord(c) >> 5 for c in h] + [ord(c) & 31 for c in h], "upper": lambda h: bech32.expand(h.upper()),
          "none": lambda h: [], "byte5": lambda h: bech32.to5(h.encode()), "lowhigh": lambda h: [ord(c) & 31 for c in h] + [0] + [ord(c) >> 5 for c in h]}


def variant(h, words, const, expand):
    """the string with a checksum of another kind"""
    m = bech32.polymod(EXPAND[expand](h) + list(words) + [0] * 6) ^ const
    return h + "1" + "".join(bech32.CHARSET[w] for w in list(words) + [m >> (25 - 5 * i) & 31 for i in range(6)])


def strings(case):
    words = case["words"] if case["words"] is not None else bech32.to5(case["data"])
    const, expand = case.get("kind", (1, "bip173"))
    s = variant(case["hrp"], words, const, expand)
    if case["upper"]:
        s = s.upper()
    for op, pos, ch in case["edits"]:
        if not s:
            break
        i = pos % len(s)
        if op == "sub":
            s = s[:i] + ch + s[i + 1:]
        elif op == "ins":
            s = s[:i] + ch + s[i:]
        elif op == "del":
            s = s[:i] + s[i + 1:]
        elif op == "case":
            s = s[:i] + s[i].swapcase() + s[i + 1:]
        elif op == "kelvin":
            j = [k for k, c in enumerate(s) if c in "kK"]
            if j:
                i = j[pos % len(j)]
                s = s[:i] + "\u212a" + s[i + 1:]
        elif op == "strip":
            s = s[:len(s) - pos % 8]
        elif op == "append":
            s += ch
        elif op == "longs":
            s = s.replace("s", "\u017f").replace("S", "\u017f")
    return [compare(s)] + (["edited"] if case["edits"] else []) + (["other checksum"] if (const, expand) != (1, "bip173") else [])


def strat_strings():
    ch = st.one_of(st.sampled_from(bech32.CHARSET), st.sampled_from(SPECIAL), st.characters(min_codepoint=33, max_codepoint=126))
    edit = st.tuples(st.sampled_from(["sub", "sub", "sub", "ins", "del", "case", "kelvin", "strip", "append", "longs"]), gen.position(), ch)
    bad_hrp = st.one_of(st.sampled_from(["", "x" * 84, "x" * 90, " a", "a b", "\x7f", "a\x80", "\x1f"]), st.text(max_size=4))
    return st.fixed_dictionaries({
        "hrp": gen.weighted((5, hrp()), (1, bad_hrp)), "data": data(),
        "words": st.one_of(st.none(), st.lists(st.integers(0, 31), max_size=20),
                           st.integers(0, 10).map(lambda n: [0] * n), st.integers(0, 10).map(lambda n: [31] * n)),
        "upper": st.booleans(),
        "kind": gen.weighted((6, st.just((1, "bip173"))), (1, st.tuples(
            st.one_of(st.sampled_from([0x2BC830A3, 0, 2, 0x3FFFFFFF, 0x3FFFFFFE, 0x20000001]), st.integers(0, 2**30 - 1),
                      st.integers(0, 29).map(lambda i: 1 ^ 1 << i)), st.just("bip173"))),
            (1, st.tuples(st.just(1), st.sampled_from(sorted(EXPAND))))),
        "edits": gen.weighted((1, st.just([])), (3, st.lists(edit, min_size=1, max_size=4)))}).filter(
            lambda c: all(ord(x) < 128 for x in c["hrp"]) or c["words"] is None or True)


LOOK = {"6": "bG", "8": "B", "0": "oO", "l": "1iI|", "q": "9", "9": "gq", "5": "sS", "2": "zZ", "u": "vU", "v": "u", "m": "rn", "n": "h", "a": "\u0430", "e": "\u0435", "c": "\u0441", "p": "\u0440"}


def every(case):
    """every character at one place of a valid string replaced by every other one"""
    s = bech32.encode(case["hrp"], case["data"])
    if case["upper"]:
        s = s.upper()
    i = case["pos"]
    for c in [chr(x) for x in range(256)] + list("\u212a\u017f\u0130\u0131") + [x for x in LOOK.get(s[i].lower(), "")] + [s[i] * 2, ""]:
        compare(s[:i] + c + s[i + 1:])
        for j in (i + 1, len(s) - 1):
            # look-alikes at two places
            if j < len(s) and s[j].lower() in LOOK and c in LOOK.get(s[i].lower(), ""):
                compare(s[:i] + c + s[i + 1:j] + LOOK[s[j].lower()][0] + s[j + 1:])
    return []


def enum_every(tier):
    for h, d in (("age", bytes(range(32))), ("age-secret-key-", b"\xd0\xb4" * 16), ("b1", bytes(range(7, 200, 9))), ("x", b"")):
        for upper in (False, True):
            for pos in range(len(bech32.encode(h, d))):
                yield {"hrp": h, "data": d, "upper": upper, "pos": pos}


def text(case):
    return [compare(case)]


def strat_text():
    return st.one_of(st.text(max_size=30), st.text(alphabet="1" + bech32.CHARSET, max_size=40), st.text(alphabet="1qQ ~", max_size=12))


SUBS = [
    Sub("bijection", bijection, lambda: st.fixed_dictionaries({"hrp": hrp(), "data": data()}), quick=6000, thorough=400000, qshards=2),
    Sub("strings", strings, strat_strings, quick=16000, thorough=1200000, qshards=4),
    Sub("every-character", every, enum=enum_every, qshards=2),
    Sub("text", text, strat_text, quick=6000, thorough=300000, qshards=2),
]
