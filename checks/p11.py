import base64
import io
import re

from age.utils.asciiarmor import AsciiArmoredInput, AsciiArmoredOutput, read_ascii_armored, write_ascii_armored
from hypothesis import strategies as st

from vf import fuzz, gen, kit
from vf.core import Sub, Violation

PID = "P11"
RULE = ("'fuzz': coverage-guided mutation (atheris) of armored texts: data is returned only for exactly one well-formed section and "
        "equals its decoded body, non-trivial when new coverage is reached; 'functions' and 'streams': random bytes and valid labels are armored (any write split) and read back (any read sizes) "
        "amid random surrounding text, other sections, CRLF line ends; text checked line by line. 'reject': one structural "
        "damage per case (END missing / other label, bad label, inner line short or long, illegal character, wrong length, "
        "no or two sections) must raise. 'insertions' and 'labels' enumerate one character put at critical places and labels with one character changed. Non-trivial: more than one body line, or surrounding text, or a damage.")
ASSUMPTIONS = []


def labels_st():
    return st.one_of(
        st.sampled_from(["AGE ENCRYPTED FILE", "X", "", "PRIVATE KEY", "A1 B2", "Z_/+=.", "OPENSSH PRIVATE KEY"]),
        st.text(alphabet="ABCDEFGHIJKLMNOPQRSTUVWXYZ0123456789 .,:;_+/=()", max_size=30).map(str.strip))


def garbage_line():
    return st.one_of(
        st.sampled_from(["", "hello", "-----END AGE ENCRYPTED FILE-----", "----BEGIN AGE ENCRYPTED FILE-----", "AAAA", "-----",
                         "> -----BEGIN AGE ENCRYPTED FILE-----", " -----BEGIN X-----", "-----BEGIN A-B-----", "-----BEGIN AGE ENCRYPTED FILE----",
                         "\u00e4\u20ac", "x" * 200, "Version: 1", "\t"]),
        st.text(alphabet="abc -=\u00fc.", max_size=80)).filter(lambda s: not re.match(r"^-----BEGIN [^-]*-----$", s))


def ref_armor(label, data):
    s = base64.b64encode(data).decode()
    return "-----BEGIN %s-----\n" % label + "".join(s[i:i + 64] + "\n" for i in range(0, len(s), 64)) + "-----END %s-----\n" % label


def check_text(text, label, data):
    lines = text.split("\n")
    if lines[0] != "-----BEGIN %s-----" % label or lines[-1] != "" or lines[-2] != "-----END %s-----" % label:
        raise Violation("boundary lines wrong: %r ... %r" % (lines[0], lines[-2:]))
    body = lines[1:-2]
    for i, l in enumerate(body):
        if len(l) > 64 or (i < len(body) - 1 and len(l) != 64) or not l:
            raise Violation("body line %d of %d has %d characters" % (i, len(body), len(l)))
    s = "".join(body)
    if not re.fullmatch(r"[A-Za-z0-9+/]*={0,2}", s) or len(s) % 4 or base64.b64decode(s) != data:
        raise Violation("body is not the base64 of the data")


def functions(case):
    data, label = kit.material(case["pt"]), case["label"]
    out = io.StringIO()
    write_ascii_armored(out, label, data)
    check_text(out.getvalue(), label, data)
    pre, mid, post = (("".join(l + "\n" for l in case[k])) for k in ("pre", "mid", "post"))
    doc = pre + out.getvalue() + mid
    want = [(label, data)]
    for ol, od in case["others"]:
        doc += ref_armor(ol, od) + mid
        want.append((ol, od))
    doc += post
    if case["nonl"] and not post and not mid:
        doc = doc[:-1]
    got = [(l, bytes(d)) for l, d in read_ascii_armored(io.StringIO(doc))]
    if got != want:
        raise Violation("sections read back differ: %r instead of %r" % ([(l, len(d)) for l, d in got], [(l, len(d)) for l, d in want]))
    return (["other-sections"] if case["others"] else []) + (["surrounded"] if pre or mid or post else []) + (
        ["trivial"] if len(data) <= 48 and not (pre or mid or post or case["others"]) else [])


def streams(case):
    data, label = kit.material(case["pt"]), case["label"]
    under = io.BytesIO()
    under.write(b"before\n")
    out = AsciiArmoredOutput(label, under)
    for p in kit.pieces(data, case["cuts"]):
        n = out.write(p)
        if n != len(p):
            raise Violation("write of %d bytes reported %r" % (len(p), n))
    out.close()
    if under.closed:
        raise Violation("underlying stream was closed")
    raw = under.getvalue()
    if not raw.startswith(b"before\n"):
        raise Violation("bytes written before were changed")
    text = raw[7:].decode("ascii")
    check_text(text, label, data)
    pre, post = (("".join(l + "\n" for l in case[k])) for k in ("pre", "post"))
    doc = pre + text + "".join(ref_armor(ol, od) for ol, od in case["others"] if ol != label) + post
    if case["nl"] == "crlf":
        doc = doc.replace("\n", "\r\n")
    try:
        inp = AsciiArmoredInput(label, io.BytesIO(doc.encode("utf-8")))
        got = b""
        for s in case["reads"]:
            got += inp.read(s)
        while True:
            b = inp.read()
            if not b:
                break
            got += b
    except Exception as e:
        raise Violation("own armor (line ends: %s) rejected: %s: %s" % (case["nl"], type(e).__name__, e))
    if got != data:
        raise Violation("read back %d bytes instead of %d" % (len(got), len(data)))
    return ["nl:" + case["nl"]] + (["trivial"] if len(data) <= 48 and not pre else [])


BADCHARS = "!-_.*\u00e9,:@~"


def reject(case):
    data, label = kit.material(case["pt"]), "AGE ENCRYPTED FILE"
    lines = ref_armor(label, data).split("\n")[:-1]
    body = lines[1:-1]
    k, i, a = case["kind"], case["pos"], case["arg"]
    begin, end = [lines[0]], [lines[-1]]
    extra = []
    if k == "no-end":
        end = []
    elif k == "end-cut":
        end = [lines[-1][:-1 - a % 30]]
    elif k == "end-label":
        end = ["-----END %s-----" % ["AGE ENCRYPTED FIL", "age encrypted file", "", "AGE ENCRYPTED FILE ", "OTHER"][a % 5]]
    elif k == "bad-label":
        bad = ["age encrypted file", " AGE ENCRYPTED FILE", "AGE ENCRYPTED FILE ", "AGE ENCRYPTED FILe"][a % 4]
        begin, end = ["-----BEGIN %s-----" % bad], ["-----END %s-----" % bad]
    elif k == "no-section":
        begin, body, end = [], [], []
    elif k == "other-only":
        begin, end = ["-----BEGIN OTHER-----"], ["-----END OTHER-----"]
    elif k == "two-sections":
        extra = ref_armor(label, data if a % 2 else data + b"x").split("\n")[:-1]
    elif k == "begin-again":
        body.insert(i % (len(body) + 1), lines[0])
    elif k == "long":
        if len(body) < 2:
            return ["trivial"]
        j = i % (len(body) - 1)
        body[j:j + 2] = [body[j] + body[j + 1]]
    elif k == "shift":
        # move characters between neighbouring lines: total unchanged
        if len(body) < 2:
            return ["trivial"]
        j = i % (len(body) - 1)
        c = 1 + a % 8
        if a % 2 and len(body[j + 1]) >= c:
            body[j], body[j + 1] = body[j] + body[j + 1][:c], body[j + 1][c:]
        else:
            body[j], body[j + 1] = body[j][:-c], body[j][-c:] + body[j + 1]
        if not body[j + 1] and j + 2 == len(body):
            pass
    elif k == "rewrap":
        w = [60, 63, 65, 76, 48, 32, 128, 10 ** 6][a % 8]
        s = "".join(body)
        if len(s) <= min(64, w):
            return ["trivial"]
        body = [s[q:q + w] for q in range(0, len(s), w)]
    elif k == "blank-inside":
        if len(body) < 1:
            return ["trivial"]
        body.insert(i % len(body), ["", " ", "\t"][a % 3])
    elif k == "char":
        if not body:
            return ["trivial"]
        j = i % len(body)
        q = a * 7 % len(body[j])
        body[j] = body[j][:q] + BADCHARS[a % len(BADCHARS)] + body[j][q + 1:]
    elif k == "drop-char":
        if not body:
            return ["trivial"]
        body[-1] = body[-1][:-1 - a % 3]
        s = "".join(body)
        if len(s) % 4 == 0:
            return ["trivial"]
    elif k == "space-inside":
        if not body or len(body[-1]) < 3:
            return ["trivial"]
        q = 1 + a % (len(body[-1]) - 2)
        body[-1] = body[-1][:q] + " " + body[-1][q + 1:]
    elif k == "other-damaged":
        # the wanted section is fine, another one is not
        s = base64.b64encode(b"other section" * 20).decode()
        other = ["-----BEGIN OTHER-----"] + [s[q:q + 64] for q in range(0, len(s), 64)] + ["-----END OTHER-----"]
        how = a % 9
        if how < 4:
            bad = ["other", " OTHER", "OTHER ", "OTHeR"][how]
            other[0], other[-1] = "-----BEGIN %s-----" % bad, "-----END %s-----" % bad
        elif how == 4:
            other[-1] = "-----END OTHERS-----"
        elif how == 5:
            other[1] = other[1][:30] + "!" + other[1][31:]
        elif how == 6:
            other[1:3] = [other[1] + other[2]]
        elif how == 7:
            other[1:3] = [other[1][:40], other[1][40:] + other[2]]
        else:
            other[-2] = other[-2][:-1]
        if i % 2:
            extra = other
        else:
            begin = other + begin
    doc = "\n".join(case["pre"] + begin + body + end + extra) + "\n"
    if case["crlf"]:
        doc = doc.replace("\n", "\r\n")
    try:
        got = AsciiArmoredInput(label, io.BytesIO(doc.encode())).read()
    except ValueError as e:
        labels = ["damage:" + k]
        after()
    except Exception as e:
        labels = ["damage:" + k, "error:" + type(e).__name__]
        after()
    else:
        raise Violation("%s accepted, %d bytes returned:\n%s" % (k, len(got), doc[:600]))
    return labels


KINDS = ["no-end", "end-cut", "end-label", "bad-label", "no-section", "other-only", "two-sections", "begin-again", "long", "shift", "rewrap",
         "blank-inside", "char", "drop-char", "space-inside", "other-damaged"]


def lens():
    return st.one_of(st.integers(0, 60), st.sampled_from([47, 48, 49, 95, 96, 97, 144, 480, 481]), st.integers(0, 3000)).flatmap(
        lambda n: st.fixed_dictionaries({"len": st.just(n), "pat": st.sampled_from(["rand", "zero", "text", "ff"]), "seed": st.integers(0, 99)}))


def others():
    return st.lists(st.tuples(labels_st(), st.binary(max_size=100)), max_size=2)


def garbage():
    return st.lists(garbage_line(), max_size=3)


def strat_f():
    return st.fixed_dictionaries({"pt": lens(), "label": labels_st(), "pre": garbage(), "mid": garbage(), "post": garbage(), "others": others(),
                                  "nonl": st.booleans()})


def strat_s():
    return st.fixed_dictionaries({"pt": st.one_of(lens(), gen.plaintext(2)), "label": labels_st(), "pre": garbage(), "post": garbage(), "others": others(),
                                  "cuts": gen.cuts(), "reads": gen.read_sizes(), "nl": st.sampled_from(["lf", "crlf"])})


def strat_r():
    return st.fixed_dictionaries({"pt": lens(), "kind": st.sampled_from(KINDS), "pos": gen.position(), "arg": st.integers(0, 60),
                                  "pre": garbage(), "crlf": st.booleans()})


def enum_len(tier):
    for n in range(0, 300 if tier == "quick" else 3000):
        yield {"pt": {"len": n, "seed": n}, "label": "AGE ENCRYPTED FILE", "pre": [], "post": [], "others": [], "cuts": [], "reads": [],
               "nl": "lf" if n % 2 else "crlf"}


# ---------------------------------------------------------------- coverage-guided
LABEL = "AGE ENCRYPTED FILE"
AFTER = ref_armor(LABEL, b"fine" * 20).encode()


def after():
    """what was refused before has no influence on what is read now"""
    try:
        got = AsciiArmoredInput(LABEL, io.BytesIO(AFTER)).read()
    except Exception as e:
        raise Violation("a good armor is refused after a damaged one: %s: %s" % (type(e).__name__, e))
    if got != b"fine" * 20:
        raise Violation("a good armor reads wrong after a damaged one")


def fuzz_armor(case):
    try:
        got = AsciiArmoredInput(LABEL, io.BytesIO(case["text"])).read()
    except Exception as e:
        after()
        return ["refused", type(e).__name__]
    try:
        text = case["text"].decode("utf-8")
    except UnicodeDecodeError:
        raise Violation("accepted a text that is not UTF-8, %d bytes returned" % len(got))
    lines = text.replace("\r\n", "\n").replace("\r", "\n").split("\n")
    begins = [i for i, l in enumerate(lines) if l == "-----BEGIN %s-----" % LABEL]
    ends = [i for i, l in enumerate(lines) if l == "-----END %s-----" % LABEL]
    if len(begins) != 1 or not any(e > begins[0] for e in ends):
        raise Violation("accepted with %d begin and %d end lines" % (len(begins), len(ends)))
    end = min(e for e in ends if e > begins[0])
    body = [l.strip() for l in lines[begins[0] + 1:end]]
    for i, l in enumerate(body):
        if len(l) > 64 or (len(l) < 64 and i < len(body) - 1):
            raise Violation("accepted with body line %d of %d of %d characters" % (i + 1, len(body), len(l)))
    s = "".join(body)
    m = re.fullmatch(r"([A-Za-z0-9+/]*)=*", s)  # padding that is not needed is tolerated
    if not m or len(m.group(1)) % 4 == 1:
        raise Violation("accepted a body that is not base64: %r" % s[:200])
    if got != base64.b64decode(m.group(1) + "=" * (-len(m.group(1)) % 4)):
        raise Violation("returned %d bytes that are not the decoded body" % len(got))
    return ["accepted"]


def fuzz_armor_seeds():
    for n in (0, 1, 47, 48, 49, 100):
        yield ref_armor(LABEL, b"x" * n).encode()
    yield (ref_armor("OTHER", b"abc") + "text\n" + ref_armor(LABEL, b"yy" * 50)).replace("\n", "\r\n").encode()


FWORDS = [b"-----BEGIN AGE ENCRYPTED FILE-----\n", b"-----END AGE ENCRYPTED FILE-----\n", b"-----BEGIN ", b"-----END ", b"-----", b"\r\n", b"\r", b"=", b"==",
          b"A" * 64 + b"\n", b"\xe2\x80\xa8", b"\xc2\x85", b"\x0c", b" ", b"\t", b"age encrypted file"]


def enum_insert(tier):
    """one character put in front of, into and behind a body line"""
    chars = [bytes([c]) for c in range(128)] + [x.encode() for x in "\u0085\u00a0\u00ad\u1680\u180e\u2003\u200b\u2028\u2029\u202f\u205f\u3000\ufeff\uff21\u0661\u2115"] + [b"\\\\", b"==", b"= ", b" \\"]
    for size in (5, 60, 48, 96):
        lines = ref_armor(LABEL, kit.material({"len": size, "seed": size})).encode().split(b"\n")
        for j in {1, len(lines) - 3}:
            for at in (0, 1, 4, len(lines[j]) - 1, len(lines[j])):
                for c in chars:
                    yield {"text": b"\n".join(lines[:j] + [lines[j][:at] + c + lines[j][at:]] + lines[j + 1:])}
                    yield {"text": b"\n".join(lines[:j] + [lines[j][:at] + c + lines[j][at + 1:]] + lines[j + 1:])}
    # and around the boundary lines
    lines = ref_armor(LABEL, b"x" * 60).encode().split(b"\n")
    for j in (0, len(lines) - 2):
        for at in range(len(lines[j]) + 1):
            for c in chars + [b"-", b""]:
                yield {"text": b"\n".join(lines[:j] + [lines[j][:at] + c + lines[j][at + 1:]] + lines[j + 1:])}
                yield {"text": b"\n".join(lines[:j] + [lines[j][:at] + c + lines[j][at:]] + lines[j + 1:])}


def label(case):
    """a label is either refused or comes back as it is"""
    l, data = case["label"], case["data"]
    out = io.StringIO()
    try:
        write_ascii_armored(out, l, data)
    except ValueError:
        if out.getvalue():
            raise Violation("label %r: refused after %r was written" % (l, out.getvalue()))
        if re.fullmatch(r"[A-Z0-9_/+.=()]([A-Z0-9 _/+.=()]*[A-Z0-9_/+.=()])?", l):
            raise Violation("valid label %r refused" % l)
        return ["refused"]
    try:
        got = [(x, bytes(d)) for x, d in read_ascii_armored(io.StringIO(out.getvalue()))]
    except ValueError as e:
        raise Violation("armor under the label %r is written but refused on reading: %s" % (l, e))
    if got != [(l, data)]:
        raise Violation("armor under the label %r reads back as %r" % (l, got))
    return ["accepted"]


def enum_label(tier):
    for base in ("AGE ENCRYPTED FILE", "X", ""):
        for c in map(chr, list(range(32, 127)) + [9, 0xe4, 0xc4, 0x20ac]):
            for i in range(len(base) + 1):
                for s in {base[:i] + c + base[i:], base[:i] + c + base[i + 1:]}:
                    yield {"label": s, "data": b"data" * (i + 1)}


SUBS = [
    Sub("insertions", fuzz_armor, enum=enum_insert),
    Sub("labels", label, enum=enum_label),
    Sub("functions", functions, strat_f, quick=2500, thorough=150000, qshards=2),
    Sub("streams", streams, strat_s, quick=2500, thorough=150000, qshards=2),
    Sub("reject", reject, strat_r, quick=3000, thorough=200000, qshards=3),
    Sub("every-length", streams, enum=enum_len, qshards=1),
    Sub("fuzz", fuzz_armor, to_case=lambda d: {"text": d},
        custom=fuzz.searcher("P11", lambda d: {"text": d}, fuzz_armor_seeds, FWORDS, runs=(20000, 2000000), max_len=600)),
]
