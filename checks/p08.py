import base64
import re

from hypothesis import strategies as st

from age.utils.asciiarmor import AGE_PEM_LABEL, AsciiArmoredInput
from ref import agev1
from vf import fuzz, gen, kit
from vf.core import Sub, Violation

import io

PID = "P08"
RULE = ("'fuzz-raw' and 'fuzz-header': coverage-guided byte mutation (atheris) of whole files and of headers that get a fitting "
        "authentication code, counted as non-trivial when they reach new coverage; 'havoc': 1-6 byte-level mutations and splices of valid binary files; 'armored': the same applied to the armored text "
        "or to its binary content; 'insider': grammar-shaped headers and payload chunk structures with a correct "
        "authentication code for the file key (a hostile sender); 'several-chunks': mutated payloads of three-chunk files, read in parts; 'many-entries': headers of up to 300 (thorough 5000) entries or entries of up to 100 KB, changed at 24 places each; 'random': arbitrary bytes and grammar-shaped text. Oracle: "
        "if anything is returned, header-up-to-the-authentication-line and payload must be byte-identical to an authentic file "
        "(resp. authenticate under the reference implementation) and the plaintext must be the right one; otherwise an "
        "ordinary exception. Non-trivial: the input differs from every base file.")
ASSUMPTIONS = ["entries of scrypt cost 1 in the base files; work factors up to 22 that mutations produce are real work"]

IDS = [{"t": "age", "sk": gen.sk_pool(0)}, {"t": "ed", "seed": gen.ed_pool(0)}, {"t": "rsa", "i": 0}, {"t": "pw", "pw": b"pw"}]
KEYS = [kit.dec_key(i) for i in IDS]


class Base:
    def __init__(self, ids, size, k, grease=()):
        self.fk = kit.bseed("fk8", k)[:16]
        self.plain = kit.material({"len": size, "seed": k})
        st_ = [kit.ref_wrap(s, self.fk, kit.bseed("w8", k, i), 1) for i, s in enumerate(ids)]
        st_[:0] = list(grease)
        self.auth, full = agev1.write_header(st_, self.fk)
        nonce = kit.bseed("n8", k)[:16]
        self.payload = nonce + agev1.stream_seal(agev1.payload_key(self.fk, nonce), self.plain)
        self.blob = full + self.payload


_BASES = None


def bases():
    global _BASES
    if _BASES is None:
        _BASES = [Base([i], n, k * 10 + n) for k, i in enumerate(IDS) for n in (0, 7)]
        _BASES.append(Base(IDS[:3], 30, 100, [(["grease", "a", "b"], b"x" * 48), (["g"], b"")]))
        _BASES.append(Base(IDS[:1], 65536 + 20, 101))
        _BASES.append(Base([{"t": "age", "sk": gen.sk_pool(5)}], 9, 102))  # for nobody here
    return _BASES


def judge(data, result, what, bs=None):
    if result[0] != "ok":
        if result[2]:
            raise Violation("%s: %d bytes released before the error" % (what, len(result[2])))
        return "refused"
    for b in bs or bases():
        if data.startswith(b.auth) and b"\n" in data[len(b.auth):]:
            rest = data[len(b.auth):].split(b"\n", 1)
            if rest[1] == b.payload and result[1] == b.plain:
                return "authentic"
    raise Violation("%s: accepted a file that is not authentic, returned %d bytes %r" % (what, len(result[1]), result[1][:60]))


DICT = [b"\n", b"-> ", b"--- ", b"---", b"->", b"age-encryption.org/v1\n", b"X25519", b"scrypt", b"ssh-rsa", b"ssh-ed25519", b" ", b"=",
        b"\0", b"\xff", b"\r\n", b"18", b"-1", b"AAAA", b"-----BEGIN AGE ENCRYPTED FILE-----\n", b"-----END AGE ENCRYPTED FILE-----\n",
        b"\n\n", b"-> X25519 AAAAAAAAAAAAAAAAAAAAAAAAAAAAAAAAAAAAAAAAAAA\n", b"\xe2\x80\xa8", b"22", b"1e3", b"\x85"]


def mutate(data, ops, pool):
    for op in ops:
        n = len(data)
        p = op["p"] * n // 1000000
        k = op["k"]
        if k == "flip" and n:
            b = bytearray(data)
            b[min(p, n - 1)] ^= 1 << op["a"] % 8
            data = bytes(b)
        elif k == "set" and n:
            b = bytearray(data)
            b[min(p, n - 1)] = op["a"] % 256
            data = bytes(b)
        elif k == "ins":
            data = data[:p] + DICT[op["a"] % len(DICT)] + data[p:]
        elif k == "over":
            d = DICT[op["a"] % len(DICT)]
            data = data[:p] + d + data[p + len(d):]
        elif k == "del":
            data = data[:p] + data[p + 1 + op["a"] % 40:]
        elif k == "trunc":
            data = data[:p]
        elif k == "dup":
            ln = 1 + op["a"]
            data = data[:p] + data[p:p + ln] + data[p:]
        elif k == "splice":
            o = pool[op["a"] % len(pool)]
            q = op["q"] * len(o) // 1000000
            data = data[:p] + o[q:]
        elif k == "line-splice":
            o = pool[op["a"] % len(pool)].split(b"\n")
            ls = data.split(b"\n")
            i, j = op["p"] % len(ls), op["q"] % len(o)
            if op["a"] % 3 == 0:
                ls[i] = o[j]
            elif op["a"] % 3 == 1:
                ls.insert(i, o[j])
            else:
                ls[i:] = o[j:]
            data = b"\n".join(ls)
        elif k == "line-del":
            ls = data.split(b"\n")
            del ls[op["p"] % len(ls)]
            data = b"\n".join(ls)
    return data


OPK = ["flip", "set", "ins", "over", "del", "trunc", "dup", "splice", "line-splice", "line-splice", "line-del"]


def has_costly_scrypt(data):
    """entries asking for real work above 2^16 slow the search down without adding anything"""
    for m in re.finditer(rb"scrypt[^\n]*", data):
        for t in m.group(0).split():
            try:
                if 14 < int(t.decode("utf-8", "replace")) <= 22:
                    return True
            except ValueError:
                pass
    return False


def havoc(case):
    pool = [b.blob for b in bases()]
    data = mutate(pool[case["base"] % len(pool)], case["ops"], pool)
    if has_costly_scrypt(data):
        return ["trivial", "costly-scrypt-skipped"]
    r = kit.try_decrypt(KEYS, data, case["reads"] or [1])
    out = judge(data, r, "mutated file")
    return [out] + (["trivial"] if data in pool else []) + (["error:" + type(r[1]).__name__] if r[0] == "err" else [])


def armor(data, w=64, nl="\n"):
    s = base64.b64encode(data).decode()
    return (nl.join(["-----BEGIN AGE ENCRYPTED FILE-----"] + [s[i:i + w] for i in range(0, len(s), w)] +
                    ["-----END AGE ENCRYPTED FILE-----"]) + nl).encode()


def armored(case):
    pool = [b.blob for b in bases() if len(b.blob) < 5000]
    inner = mutate(pool[case["base"] % len(pool)], case["inner"], pool)
    text = armor(inner, nl=case["nl"])
    data = mutate(text, case["ops"], [armor(p) for p in pool])
    if has_costly_scrypt(inner):
        return ["trivial"]
    try:
        with kit.quiet():
            stream = AsciiArmoredInput(AGE_PEM_LABEL, io.BytesIO(data))
            content = stream.read()
    except Exception as e:
        return ["armor-refused", "error:" + type(e).__name__]
    if has_costly_scrypt(content):
        return ["trivial"]
    # whatever the armor yields must be what the text between the markers encodes
    m = re.search(rb"-----BEGIN AGE ENCRYPTED FILE-----\r?\n(.*?)-----END AGE ENCRYPTED FILE-----", data.replace(b"\r\n", b"\n").replace(b"\r", b"\n"), re.S)
    if m is None:
        raise Violation("armor without a section accepted")
    r = kit.try_decrypt(KEYS, content)
    return ["armor-ok", judge(content, r, "mutated armored file")]


LINES = ["-> X25519", "-> ", "->", "-> g", "-> g a  b", "->g", "", " ", "AAAA", "A" * 64, "A" * 65, "=", "--", "-", "-> scrypt AAAA 1",
         "-> scrypt", "-> ssh-rsa", "-> ssh-ed25519 AAAA", "\t", "-> \u00e4", "->\u2028x", "-> X25519 AAAA\r", "# x", "-> scrypt AAAAAAAAAAAAAAAAAAAAAA 99",
         "-> scrypt AAAAAAAAAAAAAAAAAAAAAA -1", "-> scrypt AAAAAAAAAAAAAAAAAAAAAA x", "-> ssh-rsa AAAA", "-> X25519 " + "A" * 43,
         "\u2028", "\x85", "-> X25519 CQAAAAAAAAAAAAAAAAAAAAAAAAAAAAAAAAAAAAAAAAA"]


def insider(case):
    fk = kit.material({"len": 16, "seed": case["seed"]})
    lines = []
    own = {}
    for kind, v in case["lines"]:
        if kind == "own":
            args, body = kit.ref_wrap(IDS[v % 4], fk, kit.bseed("i", case["seed"], v), 1)
            lines.append("-> " + " ".join(args))
            lines += agev1.body_lines(body, legacy=case["legacy"])
        elif kind == "foreign":  # a well-formed entry of the reader that wraps another file key
            args, body = kit.ref_wrap(IDS[v % 4], kit.bseed("other", v)[:16], kit.bseed("f", case["seed"], v), 1)
            lines.append("-> " + " ".join(args))
            lines += agev1.body_lines(body)
        else:
            lines.append(LINES[v % len(LINES)])
    head = (case["intro"] + "\n").encode() + "".join(x + case["nl"] for x in lines).encode("utf-8", "surrogatepass") + b"---"
    mac = agev1.header_mac(fk, head)
    return judge_insider(case, head, mac, fk)


def judge_insider(case, head, mac, fk):
    key = agev1.payload_key(fk, b"N" * 16)
    unit = {0: 40, 1: 20, 2: 65536}[case["chunked"]]
    plain = kit.material({"len": 40 if unit < 65536 else 65536 * len(case["chunknum"]) + 20, "seed": case["seed"]})
    chunks = [plain[i:i + unit] for i in range(0, len(plain), unit)]
    body = b""
    for i, c in enumerate(chunks):
        num, last = case["chunknum"][i % len(case["chunknum"])]
        num = i if num is None else num
        flag = int(i == len(chunks) - 1) if last is None else last
        body += agev1.aead_seal(key, num.to_bytes(11, "big") + bytes([flag]), c)
    data = head + b" " + agev1.b64(mac).encode() + b"\n" + b"N" * 16 + body
    r = kit.try_decrypt(KEYS, data, case["reads"] or [1])
    if r[0] != "ok":
        if r[2]:
            raise Violation("%d bytes released before the error" % len(r[2]))
        return ["refused", "error:" + type(r[1]).__name__]
    try:
        want = agev1.stream_open(key, body)
    except agev1.AuthError:
        raise Violation("payload does not authenticate but %r was returned" % r[1][:40])
    if r[1] != want:
        raise Violation("wrong plaintext %r" % r[1][:40])
    if not any(k == "own" for k, _ in case["lines"]):
        raise Violation("accepted without an entry for the reader")
    return ["accepted"]


def rand(case):
    data = case["data"] if isinstance(case["data"], bytes) else case["data"].encode("utf-8", "surrogatepass")
    if has_costly_scrypt(data):
        return ["trivial"]
    if case["armor"]:
        try:
            with kit.quiet():
                data = AsciiArmoredInput(AGE_PEM_LABEL, io.BytesIO(data)).read()
        except Exception as e:
            return ["armor-refused"]
    r = kit.try_decrypt(KEYS, data)
    return [judge(data, r, "random input"), "error:" + type(r[1]).__name__ if r[0] == "err" else "ok"]


def op():
    return st.fixed_dictionaries({"k": st.sampled_from(OPK), "p": gen.position(), "q": gen.position(),
                                  "a": st.integers(0, 255)})


def strat_havoc():
    return st.fixed_dictionaries({"base": st.integers(0, 20), "ops": st.lists(op(), min_size=1, max_size=6), "reads": gen.read_sizes()})


def strat_armored():
    return st.fixed_dictionaries({"base": st.integers(0, 20), "inner": st.lists(op(), max_size=2), "ops": st.lists(op(), max_size=3),
                                  "nl": st.sampled_from(["\n", "\r\n"])})


def strat_insider():
    line = gen.weighted((2, st.tuples(st.just("own"), st.integers(0, 3))), (1, st.tuples(st.just("foreign"), st.integers(0, 3))),
                        (2, st.tuples(st.just("line"), st.integers(0, len(LINES) - 1))))
    return st.fixed_dictionaries({
        "lines": st.lists(line, min_size=1, max_size=6), "seed": st.integers(0, 1000), "legacy": st.booleans(),
        "intro": st.sampled_from(["age-encryption.org/v1"] * 6 + ["age-encryption.org/v2", "age-encryption.org/v1 ", " age-encryption.org/v1\r"]),
        "nl": st.sampled_from(["\n"] * 5 + ["\r\n"]), "chunked": st.sampled_from([0, 0, 1, 2, 2]), "reads": gen.read_sizes(),
        "chunknum": st.lists(st.tuples(st.sampled_from([None] * 4 + [0, 1, 2, 256, 2**88 - 1]), st.sampled_from([None] * 4 + [0, 1, 2])),
                             min_size=1, max_size=3)})


def strat_random():
    frag = st.one_of(st.sampled_from(DICT), st.binary(max_size=30), st.sampled_from([(x + "\n").encode() for x in LINES]),
                     st.just(b"AGE ENCRYPTED FILE"), st.binary(max_size=60).map(base64.b64encode))
    return st.fixed_dictionaries({
        "data": st.one_of(st.binary(max_size=300),
                          st.lists(frag, max_size=12).map(b"".join),
                          st.lists(frag, max_size=12).map(lambda l: b"age-encryption.org/v1\n" + b"".join(l)),
                          st.lists(frag, max_size=6).map(lambda l: b"-----BEGIN AGE ENCRYPTED FILE-----\n" + b"".join(l) + b"-----END AGE ENCRYPTED FILE-----\n")),
        "armor": st.booleans()})


# ---------------------------------------------------------------- several chunks, read in parts
_BIG = []


def big(case):
    """damage anywhere in the payload of a file of several chunks, which is then read in parts"""
    if not _BIG:
        _BIG.append(Base(IDS[:1], 2 * 65536 + 20, 110))
        _BIG.append(Base(IDS[:1], 2 * 65536, 111))
    b = _BIG[case["base"] % 2]
    payload = mutate(b.payload, case["ops"], [x.payload for x in _BIG])
    data = b.blob[:-len(b.payload)] + payload
    r = kit.try_decrypt(KEYS, data, case["reads"] or [1])
    return [judge(data, r, "several chunks", _BIG), "ops:%d" % len(case["ops"])] + (["trivial"] if payload == b.payload else [])


# ---------------------------------------------------------------- many and large entries
def many(case):
    """a header of many or large entries around the reader's, changed at one place"""
    fk = kit.bseed("many8", case["n"])[:16]
    ents = [(["t%d" % i, "x" * case["arg"]], kit.material({"len": case["size"], "seed": i})) for i in range(case["n"])]
    ents.insert(case["at"] * case["n"] // 2, kit.ref_wrap(IDS[case["n"] % 3], fk, kit.bseed("w"), 1))
    b = Base(IDS[:1], 0, 1)
    b.plain = b"many"
    b.auth, full = agev1.write_header(ents, fk)
    b.payload = b"N" * 16 + agev1.stream_seal(agev1.payload_key(fk, b"N" * 16), b.plain)
    b.blob = full + b.payload
    if kit.try_decrypt(KEYS[:3], b.blob)[:2] != ("ok", b.plain):
        raise Violation("%d entries of %d bytes: not decrypted" % (len(ents), case["size"]))
    for i in range(24):
        p = kit.bseed("p8", i, case["n"])
        k = i % 3
        at = int.from_bytes(p[:4], "big") % (len(full) - 44) if i > 2 else [21, len(full) // 2, len(full) - 52][i]
        data = bytearray(b.blob)
        if k == 0:
            data[at] ^= 1 << p[4] % 7
        elif k == 1:
            data[at:at] = p[5:6]
        else:
            del data[at:at + 1 + p[4] % 60]
        if bytes(data) != b.blob:
            judge(bytes(data), kit.try_decrypt(KEYS[:3], bytes(data)), "%d entries of %d bytes, change %d at %d" % (len(ents), case["size"], k, at), [b])
    return ["entries>=%d" % max(x for x in (0, 20, 100, 1000) if x <= case["n"])]


def enum_many(tier):
    for at in range(3):
        for n in (10, 16, 20, 31, 50, 64, 99, 100, 128, 255, 256, 300) + (() if tier == "quick" else (1000, 1024, 5000)):
            yield {"n": n, "size": 32, "arg": 3, "at": at}
        for size in (1000, 4096, 20000, 100000) + (() if tier == "quick" else (10 ** 6,)):
            yield {"n": 1, "size": size, "arg": 3, "at": at}
            yield {"n": 1, "size": 5, "arg": size, "at": at}


# ---------------------------------------------------------------- coverage-guided
def fuzz_raw_case(data):
    return {"data": data[1:], "armor": bool(data[:1] and data[0] & 1)}


def fuzz_raw_seeds():
    for b in bases():
        if len(b.blob) < 2000:
            yield b"\0" + b.blob
            yield b"\1" + armor(b.blob)


def fuzz_head(case):
    """the header text is the fuzzer's; authentication code and payload fit it"""
    fk = kit.bseed("fk8", 0)[:16]
    if has_costly_scrypt(case["head"]):
        return ["trivial"]
    data = case["head"] + b"---"
    mac = agev1.header_mac(fk, data)
    body = agev1.stream_seal(agev1.payload_key(fk, b"N" * 16), b"plain")
    data += b" " + agev1.b64(mac).encode() + b"\n" + b"N" * 16 + body
    r = kit.try_decrypt(KEYS, data)
    if r[0] != "ok":
        if r[2]:
            raise Violation("bytes released before the error")
        return ["refused", "error:" + type(r[1]).__name__]
    if r[1] != b"plain":
        raise Violation("wrong plaintext %r" % r[1][:40])
    if not case["head"].startswith(b"age-encryption.org/v1"):
        raise Violation("accepted without the version line")
    joined = re.sub(rb"[^A-Za-z0-9+/]", b"", case["head"])  # the base64 decoder skips other characters
    if not any(w in joined for w in wrapped_keys()):
        raise Violation("accepted without an entry that wraps the file key for the reader")
    return ["accepted"]


_WRAPPED = []


def wrapped_keys():
    if not _WRAPPED:
        fk = kit.bseed("fk8", 0)[:16]
        for i, s in enumerate(IDS):
            args, body = kit.ref_wrap(s, fk, kit.bseed("fz", i), 1)
            # base64 without its last characters, which have more than one spelling
            _WRAPPED.append(agev1.b64(body).encode()[:-2])
    return _WRAPPED


def fuzz_head_seeds():
    fk = kit.bseed("fk8", 0)[:16]
    entries = [kit.ref_wrap(s, fk, kit.bseed("fz", i), 1) for i, s in enumerate(IDS)]
    for e in entries:
        yield agev1.write_header([e], fk)[0][:-3]
    yield agev1.write_header(entries[:1] + [(["g", "a"], b"x" * 48)], fk)[0][:-3]
    yield agev1.write_header([(["g"], b"")] + entries[1:3], fk)[0][:-3]


SUBS = [
    Sub("many-entries", many, enum=enum_many),
    Sub("havoc", havoc, strat_havoc, quick=5000, thorough=400000, qshards=3),
    Sub("armored", armored, strat_armored, quick=3000, thorough=150000, qshards=2),
    Sub("insider", insider, strat_insider, quick=3000, thorough=150000, qshards=2),
    Sub("several-chunks", big, lambda: st.fixed_dictionaries({"base": st.integers(0, 1), "ops": st.lists(op(), min_size=1, max_size=3),
                                                              "reads": gen.read_sizes()}), quick=1500, thorough=60000, qshards=2),
    Sub("random", rand, strat_random, quick=4000, thorough=200000, qshards=1),
    Sub("fuzz-raw", rand, to_case=fuzz_raw_case, custom=fuzz.searcher("P08", fuzz_raw_case, fuzz_raw_seeds, DICT)),
    Sub("fuzz-header", fuzz_head, to_case=lambda d: {"head": d},
        custom=fuzz.searcher("P08", lambda d: {"head": d}, fuzz_head_seeds, DICT)),
]
