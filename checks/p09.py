import io
import re

from hypothesis import strategies as st

from age.format import Header, Recipient, dump_header, load_header
from ref import agev1
from vf import fuzz, gen, kit
from vf.core import Sub, Violation

PID = "P09"
RULE = ("'fuzz': coverage-guided mutation (atheris) of headers: what is parsed has the version and an authentication line and "
        "survives writing and parsing again, non-trivial when new coverage is reached; 'roundtrip': random headers (entry types/arguments of printable ASCII, base64 bodies of 0-400 bytes incl. exact 64-column "
        "multiples, 0-6 entries, any MAC) are written with a payload of marker-like or random bytes behind and parsed back: "
        "same entries, MAC, stream position; body lines <= 64 columns. 'reference': headers of the reference writer parse to "
        "the reference's entries. 'sizes': few very long types, arguments, bodies and lists; 'reject': damaged version line / no authentication line raises. Non-trivial: at least one "
        "entry with body, or a rejected input.")
ASSUMPTIONS = []

TRAIL = [b"", b"\n", b"\n\n", b"--- abc\n", b"---", b"-> X25519 x\n", b"\r\n", b"\0" * 20, b"\xff\xfe", b" ", b"age-encryption.org/v1\n",
         b"\x85\n", b"\n--- AAAA\n"]


def parse(data):
    s = io.BytesIO(data)
    try:
        header, mac = load_header(s)
    except Exception as e:
        raise Violation("well-formed header rejected: %s: %s\n%r" % (type(e).__name__, e, data[:400]))
    return header, mac, s.read()


def same(header, mac, rest, want, wmac, trail, data):
    got = [(r.type, list(r.arguments), r.body) for r in header.recipients]
    if got != want:
        raise Violation("entries differ:\n got %r\nwant %r\n in %r" % (got, want, data[:500]))
    if bytes(mac) != wmac:
        raise Violation("authentication code differs")
    if rest != trail:
        raise Violation("stream is not at the first byte after the header: %r instead of %r" % (rest[:40], trail[:40]))


def roundtrip(case):
    want = [(e["args"][0], list(e["args"][1:]), agev1.b64(e["body"])) for e in case["entries"]]
    out = io.BytesIO()
    dump_header(Header([Recipient(t, list(a), b) for t, a, b in want]), out, case["mac"])
    text = out.getvalue()
    for line in text.split(b"\n"):
        if not line.startswith((b"->", b"---", b"age-encryption")) and len(line) > 64:
            raise Violation("body line of %d columns" % len(line))
    # what is written is the format: every body ends with a line shorter than 64 columns, an empty one if need be
    auth = agev1.write_header([(e["args"], e["body"]) for e in case["entries"]], b"k" * 16)[0]
    if text != auth + b" " + agev1.b64(case["mac"]).encode():
        raise Violation("written header differs from the reference writer's:\n got %r\nwant %r" % (text[:500], auth[:500]))
    trail = case["trail"]
    data = text + b"\n" + trail
    same(*parse(data), want, case["mac"], trail, data)
    labels = ["entries:%d" % len(want)]
    if any(b and len(b) % 64 == 0 for _, _, b in want):
        labels.append("full-last-line")
    if not any(b for _, _, b in want):
        labels.append("trivial")
    return labels


def reference(case):
    stanzas = [(e["args"], e["body"]) for e in case["entries"]]
    auth, full = agev1.write_header(stanzas, b"k" * 16)
    data = full + case["trail"]
    want = [(a[0], list(a[1:]), agev1.b64(b)) for a, b in stanzas]
    same(*parse(data), want, agev1.header_mac(b"k" * 16, auth), case["trail"], data)
    return ["reference"] if stanzas else ["trivial"]


INTROS = [b"", b"age-encryption.org/v2\n", b"age-encryption.org/v10\n", b"age-encryption.org\n", b"AGE-encryption.org/v1\n", b"\n",
          b"age-encryption.org/v1x\n", b"xage-encryption.org/v1\n", b"age-encryption.org/v1-> X25519\n", b"age encryption.org/v1\n",
          b"\xff\xfe\n", b"-> X25519 AAAA\n", b"age-encryption.org/v1\0\n", b"age-encryption\xfforg/v1\n", b"age-encryption.org/v\n",
          b"age-encryption.org/V1\n"]


def reject(case):
    stanzas = [(e["args"], e["body"]) for e in case["entries"]]
    auth, full = agev1.write_header(stanzas, b"k" * 16)
    k = case["kind"]
    if k == "intro":
        data = INTROS[case["arg"] % len(INTROS)] + full[len(agev1.INTRO):] + case["trail"]
    elif k == "no-footer":
        data = auth[:-3]
    elif k == "cut":
        p = case["pos"] * len(auth[:-2]) // 1000000
        data = auth[:p]
    elif k == "empty-mac":
        data = auth + [b"\n", b"", b" \n", b" "][case["arg"] % 4]
    else:
        data = auth + b"x " + full[len(auth):]
    try:
        with kit.quiet():
            load_header(io.BytesIO(data))
    except Exception:
        return ["reject:" + k]
    raise Violation("%s: accepted %r" % (k, data[:300]))


def entries():
    return st.lists(gen.grease(), max_size=6)


def trail():
    return st.one_of(st.sampled_from(TRAIL), st.binary(max_size=40))


def strat():
    return st.fixed_dictionaries({"entries": entries(), "mac": st.one_of(st.binary(min_size=32, max_size=32), st.binary(min_size=1, max_size=40)),
                                  "trail": trail()})


def strat_ref():
    return st.fixed_dictionaries({"entries": entries(), "trail": trail()})


def strat_rej():
    return st.fixed_dictionaries({"entries": entries(), "trail": trail(), "pos": gen.position(), "arg": st.integers(0, 31),
                                  "kind": st.sampled_from(["intro", "intro", "no-footer", "cut", "empty-mac", "footer-x"])})


def body_lengths(tier):
    for n in range(0, 400 if tier == "quick" else 5000):
        b = kit.material({"len": n, "seed": n})
        e = {"args": ["t%d" % n, "a"], "body": b}
        yield {"entries": [e], "mac": b"m" * 32, "trail": b"\n"}
        yield {"entries": [e, e, {"args": ["u"], "body": b""}], "mac": b"m" * 32, "trail": b"---"}


def sizes(tier):
    """few but very long arguments, bodies and lists"""
    for n in [900, 1024, 4097, 8193, 70000] + ([] if tier == "quick" else [10**6, 5 * 10**6]):
        word = agev1.b64(kit.material({"len": n, "seed": n}))
        body = kit.material({"len": n, "seed": n + 1})
        last = {"args": ["end"], "body": b"body"}
        for e in ([word, "a"], ["t", word], ["t", word, word], ["t"] + ["x"] * n, ["t"] + [word[i:i + 9] for i in range(0, min(len(word), 90000), 9)]):
            yield {"entries": [{"args": e, "body": b"x" * 48}, last], "mac": b"m" * 32, "trail": b"\n"}
        yield {"entries": [{"args": ["t", "a"], "body": body}, last], "mac": b"m" * 32, "trail": b"-"}
        if n <= 70000:
            yield {"entries": [{"args": ["t%d" % i], "body": b"x" * (i % 60)} for i in range(n // 10)], "mac": b"m" * 32, "trail": b"->"}


# ---------------------------------------------------------------- coverage-guided
def fuzz_header(case):
    s = io.BytesIO(case["data"])
    try:
        header, mac = load_header(s)
    except Exception as e:
        return ["refused", type(e).__name__]
    pos = s.tell()
    head = case["data"][:pos]
    if head.split(b"\n")[0].strip() != agev1.INTRO.strip():
        raise Violation("accepted without the version line: %r" % head[:60])
    last = head.split(b"\n")[-2 if head.endswith(b"\n") else -1]
    if not last.startswith(b"---"):
        raise Violation("the header does not end with an authentication line: %r" % last)
    if case["data"][:pos].count(b"\n---") != 1:
        raise Violation("went past the first authentication line")
    if not all(r.type and r.type in head.decode() for r in header.recipients):
        raise Violation("entry type that is not in the text")
    clean = all(not re.search(r"[^A-Za-z0-9+/]", r.body) for r in header.recipients)
    if clean and mac:
        out = io.BytesIO()
        dump_header(header, out, mac)
        want = [(r.type, list(r.arguments), r.body) for r in header.recipients]
        data = out.getvalue() + b"\n"
        same(*parse(data), want, bytes(mac), b"", data)
    return ["accepted"]


def fuzz_seeds():
    for n in (0, 1, 48, 49, 100):
        yield agev1.write_header([(["X25519", "abc"], b"x" * n), (["g", "a", "b"], b"")], b"k" * 16)[1] + b"payload"
    yield agev1.write_header([], b"k" * 16)[1]


FWORDS = [b"-> ", b"->", b"--- ", b"---", b"\n", b"\n\n", b"age-encryption.org/v1\n", b" ", b"\r\n", b"\xe2\x80\xa8", b"=", b"A" * 64 + b"\n", b"-", b"X25519"]


SUBS = [
    Sub("roundtrip", roundtrip, strat, quick=4000, thorough=200000, qshards=3),
    Sub("reference", reference, strat_ref, quick=2000, thorough=100000, qshards=2),
    Sub("reject", reject, strat_rej, quick=2000, thorough=100000, qshards=2),
    Sub("every-body-length", roundtrip, enum=body_lengths, qshards=1),
    Sub("sizes", roundtrip, enum=sizes, qshards=4),
    Sub("sizes-reference", reference, enum=sizes, qshards=2),
    Sub("fuzz", fuzz_header, to_case=lambda d: {"data": d},
        custom=fuzz.searcher("P09", lambda d: {"data": d}, fuzz_seeds, FWORDS, runs=(20000, 2000000), max_len=800)),
]
