import base64
import contextlib
import functools
import gc
import hashlib
import io
import time
import tracemalloc

from hypothesis import strategies as st

from ref import agev1, bech32, sshkey
from vf import gen, kit, sshkeys, world
from vf.core import HarnessError, Sub, Violation

from age.exceptions import NoIdentity, ParserError
from age.file import Decryptor, Encryptor
from age.format import load_header
from age.keyloader import load_aliases, load_keys_txt, load_ssh_private_key, resolve_public_key
from age.primitives.bech32 import bech32_decode, bech32_encode
from age.stream import stream_decrypt, stream_encrypt
from age.utils.asciiarmor import AsciiArmoredInput, AsciiArmoredOutput, read_ascii_armored, write_ascii_armored
from age.utils.write_all import write_all

PID = "P35"
RULE = ("one operation of 25 (encrypting, decrypting, armor, headers, key files, key strings; accepted and refused input) with a generated shape (sizes of the writes, "
        "of what the output accepts, of the lines, where the bulk of the input is) at sizes growing 16 and 64 fold: CPU time and peak memory per byte must not grow. 'shapes' enumerates all operations and shapes. "
        "Non-trivial: the largest size was reached with a time the comparison can be made for.")
ASSUMPTIONS = ["growth is judged at sizes of up to 64 MiB or some hundred thousand lines; costs growing more slowly than by the factor 8 over the range are not seen"]

SK = kit.bseed("p35")
FK = kit.bseed("p35", "fk")[:16]
KEY = kit.bseed("p35", "key")
LABEL = "AGE ENCRYPTED FILE"
MAX_GROWTH = 8        # of the time per byte, over the whole range of sizes (a linear operation: 1 to 3)
FLOOR = 0.002         # times below this one are not compared
MEM_GROWTH = 3
OPS = {}


def op(base, **shape):
    def register(f):
        OPS[f.__name__] = (f, base, shape)
        return f
    return register


def blob(n, what=0):
    block = hashlib.shake_128(b"p35/%d" % what).digest(65536)
    return (block * (n // 65536 + 1))[:n]


def ident():
    return kit.dec_key({"t": "age", "sk": SK})


def stanza():
    return kit.ref_wrap({"t": "age", "sk": SK}, FK, kit.bseed("p35", "eph"))


def nothing(*a, **k):
    pass


@contextlib.contextmanager
def quiet():
    with contextlib.redirect_stderr(io.StringIO()), contextlib.redirect_stdout(io.StringIO()):
        yield


def refused(f, *exceptions):
    """the input must be refused"""
    try:
        f()
    except (exceptions or (ValueError, ParserError)):
        return
    raise Violation("accepted")


def same(a, b, what):
    if a != b:
        raise Violation("wrong result of " + what)


class Narrow(io.RawIOBase):
    """accepts (or delivers) a limited number of bytes at a time"""

    def __init__(self, limit, data=None):
        self.limit, self.n, self.data, self.pos = limit, 0, data, 0

    def writable(self):
        return self.data is None

    def write(self, b):
        k = min(self.limit, len(b))
        self.n += k
        return k

    def readable(self):
        return self.data is not None

    def readinto(self, b):
        part = memoryview(self.data)[self.pos:self.pos + min(self.limit, len(b))]
        b[:len(part)] = part
        self.pos += len(part)
        return len(part)


# every operation: (shape, size) -> function to be measured; it may be called several times
@op(1 << 20, odd=[0, 1, 777])
def seal(c, n):
    data = blob(n + c["odd"])
    return lambda: same(len(stream_encrypt(KEY, data)) - len(data), (len(data) + 65535) // 65536 * 16, "stream_encrypt")


@op(1 << 20, odd=[0, 1, 777])
def unseal(c, n):
    data = blob(n + c["odd"])
    sealed = agev1.stream_seal(KEY, data)
    return lambda: same(stream_decrypt(KEY, sealed), data, "stream_decrypt")


@op(1 << 18, size=[1 << 22, 4096, 100, 7], kind=["bytes", "memoryview", "bytearray"])
def encrypt_writes(c, n):
    step = c["size"]
    part = {"bytes": bytes, "memoryview": memoryview, "bytearray": bytearray}[c["kind"]](blob(step))
    count = max(n // max(step, 64), 1) if step < 64 else max(n // step, 1)

    def run():
        out = io.BytesIO()
        with Encryptor([ident().public_key()], out) as e:
            for _ in range(count):
                e.write(part)
        if len(out.getbuffer()) < count * step:
            raise Violation("output too short")
    return run


@op(1 << 18, size=[1 << 22, 4096, 100, 7])
def armor_writes(c, n):
    step = c["size"]
    part = blob(step)
    count = max(n // max(step, 64), 1) if step < 64 else max(n // step, 1)

    def run():
        out = io.BytesIO()
        a = AsciiArmoredOutput(LABEL, out)
        for _ in range(count):
            a.write(part)
        a.close()
        if len(out.getbuffer()) < count * step * 4 // 3:
            raise Violation("output too short")
    return run


@op(1 << 19, limit=[65536, 8192, 1000])
def narrow_output(c, n):
    data = blob(n)

    def run():
        out = Narrow(c["limit"])
        with Encryptor([ident().public_key()], out) as e:
            e.write(data)
        if out.n < n:
            raise Violation("output too short")
    return run


@op(1 << 19, limit=[65536, 8192, 1000])
def narrow_armor(c, n):
    data = blob(n)

    def run():
        out = Narrow(c["limit"])
        a = AsciiArmoredOutput(LABEL, out)
        a.write(data)
        a.close()
        if out.n < n * 4 // 3:
            raise Violation("output too short")
    return run


@op(1 << 18, limit=[65536, 1000, 10])
def narrow_write(c, n):
    data = blob(n)

    def run():
        out = Narrow(c["limit"])
        write_all(out, data)
        same(out.n, n, "write_all")
    return run


@op(1 << 19, limit=[0, 65536, 1000], buffered=[False, True], read=[-1, 65536, 100])
def decrypt_payload(c, n):
    data = blob(n)
    file = agev1.write_file([stanza()], FK, b"n" * 16, data)

    def run():
        stream = Narrow(c["limit"], file) if c["limit"] else io.BytesIO(file)
        if c["buffered"] and c["limit"]:
            stream = io.BufferedReader(stream)
        elif c["limit"]:
            # line by line without a buffer takes a call per byte: only the payload in pieces
            class Front(io.RawIOBase):
                def readable(self):
                    return True

                def readline(self, size=-1):
                    end = file.index(b"\n", self.pos) + 1
                    line, self.pos = file[self.pos:end], end
                    stream.pos = end
                    return line

                def readinto(self, b):
                    return stream.readinto(b)
            front = Front()
            front.pos = 0
            d = Decryptor([ident()], front)
            return finish(d)
        return finish(Decryptor([ident()], stream))

    def finish(d):
        got = 0
        while True:
            part = d.read(c["read"])
            if not part:
                break
            got += len(part)
        same(got, n, "decryption")
    return run


@op(1 << 19, where=["last", "first", "cut", "tail"])
def damaged_payload(c, n):
    file = bytearray(agev1.write_file([stanza()], FK, b"n" * 16, blob(n)))
    head = len(file) - n - (n + 65535) // 65536 * 16
    if c["where"] == "last":
        file[-1] ^= 1
    elif c["where"] == "first":
        file[head] ^= 1
    elif c["where"] == "cut":
        del file[-5:]
    else:
        file += blob(100)
    file = bytes(file)
    from cryptography.exceptions import InvalidTag
    return lambda: refused(lambda: Decryptor([ident()], io.BytesIO(file)), InvalidTag)


def armored(data, width=64, nl=b"\n", label=LABEL):
    b = base64.b64encode(data)
    return b"".join([b"-----BEGIN %s-----" % label.encode(), nl] + [b[i:i + width] + nl for i in range(0, len(b), width)] + [b"-----END %s-----" % label.encode(), nl])


@op(1 << 18, nl=[b"\n", b"\r\n"], around=["none", "before", "after", "sections"])
def armored_input(c, n):
    small = blob(3000)
    if c["around"] == "none":
        want, text = blob(n), armored(blob(n), nl=c["nl"])
    elif c["around"] == "before":
        want, text = small, b"some other line" * 2 * (n // 30) + c["nl"] + (b"line" + c["nl"]) * (n // 50) + armored(small, nl=c["nl"])
    elif c["around"] == "after":
        want, text = small, armored(small, nl=c["nl"]) + (b"some other line" + c["nl"]) * (n // 20)
    else:
        want, text = small, armored(b"other", nl=c["nl"], label="OTHER") * (n // 60) + armored(small, nl=c["nl"])

    def run():
        a = AsciiArmoredInput(LABEL, io.BytesIO(text))
        same(a.read(), want, "armored input")
    return run


HOSTILE_ARMOR = {
    "one-line": lambda n: b"-----BEGIN %s-----\n" % LABEL.encode() + b"A" * n + b"\n-----END %s-----\n" % LABEL.encode(),
    "no-end": lambda n: b"-----BEGIN %s-----\n" % LABEL.encode() + (b"A" * 64 + b"\n") * (n // 65),
    "short-lines": lambda n: b"-----BEGIN %s-----\n" % LABEL.encode() + b"A\n" * (n // 4) + b"-----END %s-----\n" % LABEL.encode(),
    "empty-lines": lambda n: b"-----BEGIN %s-----\n" % LABEL.encode() + b"\n" * (n // 4) + b"-----END %s-----\n" % LABEL.encode(),
    "dashes": lambda n: b"-" * n,
    "begins": lambda n: b"-----BEGIN " * (n // 11),
    "begin-lines": lambda n: b"-----BEGIN \n" * (n // 24),
    "label": lambda n: b"-----BEGIN " + b"A" * n + b"-----\n",
    "label-spaces": lambda n: b"-----BEGIN " + b" " * n + b"A-----\n",
    "blank": lambda n: b" " * n + b"\n",
    "blank-inside": lambda n: b"-----BEGIN %s-----\n" % LABEL.encode() + b"AAAA" + b" " * n + b"AAAA\n-----END %s-----\n" % LABEL.encode(),
    "padding": lambda n: b"-----BEGIN %s-----\n" % LABEL.encode() + (b"=" * 64 + b"\n") * (n // 65) + b"-----END %s-----\n" % LABEL.encode(),
    "twice": lambda n: armored(b"A" * 30) * (n // 100),
}


@op(1 << 18, kind=sorted(HOSTILE_ARMOR))
def hostile_armor(c, n):
    text = HOSTILE_ARMOR[c["kind"]](n)

    def run():
        try:
            AsciiArmoredInput(LABEL, io.BytesIO(text)).read()
        except ValueError:
            return
        if c["kind"] != "empty-lines":
            raise Violation("accepted " + c["kind"])
    return run


@op(1 << 18, width=[64, 70, 4])
def loose_armor(c, n):
    data = blob(n // (8 if c["width"] == 4 else 1))
    text = armored(data, c["width"], label="X").decode()

    def run():
        same(list(read_ascii_armored(io.StringIO(text), strict_line_length=False)), [("X", data)], "read_ascii_armored")
    return run


@op(1 << 18, odd=[0, 1, 48])
def armor_text(c, n):
    data = blob(n + c["odd"])

    def run():
        out = io.StringIO()
        write_ascii_armored(out, "X", data)
        same(out.tell() > n * 4 // 3, True, "write_ascii_armored")
    return run


def header(kind, n):
    """beginning of a header with n bytes of something in it"""
    other = "-> other %s\n"
    if kind == "body":
        front = other % "a" + ("A" * 64 + "\n") * (n // 65) + "\n"
    elif kind == "long-line":
        front = other % "a" + "A" * n + "\n"
    elif kind == "short-lines":
        front = other % "a" + "AAAA\n" * (n // 12)
    elif kind == "empty-lines":
        front = other % "a" + "\n" * (n // 8)
    elif kind == "blank":
        front = other % "a" + " " * n + "\n"
    elif kind == "stanzas":
        front = (other % "a" + "AAAA\n") * (n // 120)
    elif kind == "arguments":
        front = other % ("a " * (n // 8))
    elif kind == "argument":
        front = other % ("a" * n)
    elif kind == "type":
        front = "-> " + "t" * n + " a\n"
    elif kind == "foreign":
        front = "-> X25519 " + agev1.b64(kit.bseed("x")) + "\n" + agev1.b64(b"x" * 32) + "\n"
        front *= max(n // 8000, 1)
    else:
        raise HarnessError(kind)
    return ("age-encryption.org/v1\n" + front).encode()


HEADERS = ["body", "long-line", "short-lines", "empty-lines", "blank", "stanzas", "arguments", "argument", "type", "foreign"]


def with_own(kind, n):
    authenticated, _ = agev1.write_header([stanza()], FK)
    authenticated = header(kind, n) + authenticated.split(b"\n", 1)[1]
    nonce = b"n" * 16
    return authenticated + b" " + agev1.b64(agev1.header_mac(FK, authenticated)).encode() + b"\n" + nonce + agev1.stream_seal(agev1.payload_key(FK, nonce), b"hello")


@op(1 << 18, kind=HEADERS)
def long_header(c, n):
    file = with_own(c["kind"], n)

    def run():
        with quiet():
            same(Decryptor([ident()], io.BytesIO(file)).read(), b"hello", "decryption")
    return run


@op(1 << 18, kind=HEADERS, end=["none", "footer", "mac"])
def hostile_header(c, n):
    head = header(c["kind"], n)
    data = {"none": head, "footer": head + b"---\n", "mac": head + b"--- " + b"A" * n + b"\n"}[c["end"]]

    def run():
        try:
            h, mac = load_header(io.BytesIO(data))
        except ValueError:
            return
        except ParserError:
            return
        if c["end"] != "mac" or len(h.recipients) < 1:
            raise Violation("accepted")
    return run


@op(1 << 18, kind=["one-line", "lines", "intro", "footers", "binary"])
def no_header(c, n):
    data = {"one-line": b"A" * n, "lines": b"A\n" * (n // 8), "intro": b"age-encryption.org/v1" + b" " * n,
            "footers": b"age-encryption.org/v1\n" + b"--\n" * (n // 10), "binary": b"age-encryption.org/v1\n" + b"\xff" * n}[c["kind"]]
    return lambda: refused(lambda: load_header(io.BytesIO(data)))


@op(8, kind=["age", "same"])
def many_recipients(c, n):
    keys = [kit.dec_key({"t": "age", "sk": kit.bseed("r", i if c["kind"] == "age" else 0)}).public_key() for i in range(n)]

    def run():
        out = io.BytesIO()
        with Encryptor(keys, out) as e:
            e.write(b"x")
        same(out.getvalue().count(b"-> X25519"), n, "encryption")
    return run


@op(16, kind=["list", "tuple"], place=["last", "absent"])
def many_identities(c, n):
    keys = [kit.dec_key({"t": "age", "sk": kit.bseed("r", i)}) for i in range(n)]
    if c["place"] == "last":
        keys[-1] = ident()
    keys = {"list": list, "tuple": tuple}[c["kind"]](keys)
    file = agev1.write_file([stanza()], FK, b"n" * 16, b"hello")

    def run():
        if c["place"] == "absent":
            return refused(lambda: Decryptor(keys, io.BytesIO(file)), NoIdentity)
        same(Decryptor(keys, io.BytesIO(file)).read(), b"hello", "decryption")
    return run


PUBLIC = world.age_public(SK)
SECRET = world.age_secret(SK)


@functools.lru_cache(None)
def distinct(n, key):
    """n different key strings of the kind"""
    hrp = key[:key.rindex("1")]
    out = [bech32.encode(hrp.lower(), b"\x11" * 24 + i.to_bytes(4, "big") + b"\x12" * 4) for i in range(n)]
    return [x.upper() for x in out] if hrp.isupper() else out


def text_lines(kind, n, key):
    if kind == "keys":
        return "".join(x + "\n" for x in distinct(max(n // 400, 1), key))
    if kind == "comments":
        return "# a comment\n" * (n // 12) + key + "\n"
    if kind == "blank":
        return "\n" * (n // 4) + key + "\n"
    if kind == "indent":
        return " " * n + key + "\n"
    return "# " + "c" * n + "\n" + key + "\n"


@op(1 << 17, kind=["keys", "comments", "blank", "indent", "comment"])
def keys_file(c, n):
    world.put(".", "keys-%d.txt" % n, text_lines(c["kind"], n, SECRET))

    def run():
        keys = load_keys_txt("keys-%d.txt" % n)
        same(len(keys), max(n // 400, 1) if c["kind"] == "keys" else 1, "load_keys_txt")
    return run


@op(1 << 17, kind=["keys", "comments", "blank", "indent", "comment"])
def recipients_file(c, n):
    world.put(".", "list-%d.txt" % n, text_lines(c["kind"], n, PUBLIC))

    def run():
        keys = resolve_public_key("./list-%d.txt" % n)
        same(len(keys), max(n // 400, 1) if c["kind"] == "keys" else 1, "resolve_public_key")
    return run


@op(1 << 16, kind=["labels", "one-label", "values", "comments", "colons"])
def alias_file(c, n):
    count = n // 32
    text = {"labels": lambda: "".join("name%d: %s\n" % (i, PUBLIC) for i in range(count)), "one-label": lambda: "".join("name: key%d\n" % i for i in range(count)),
            "values": lambda: "name: " + "".join("key%d " % i for i in range(count)) + "\n", "comments": lambda: "# c\n" * count + "name: x\n", "colons": lambda: ":" * n + "\nname: x\n"}[c["kind"]]()
    world.put(".", "aliases-%d.txt" % n, text)

    def run():
        aliases = load_aliases("aliases-%d.txt" % n)
        if not any(k.startswith("name") for k in aliases):
            raise Violation("alias missing")
        if c["kind"] in ("one-label", "values"):
            same(len(aliases["name"]), count, "load_aliases")
    return run


@op(8, kind=["list"])
def alias_values(c, n):
    aliases = {"team": list(distinct(4 * n, PUBLIC))}
    return lambda: same(len(resolve_public_key("team", aliases=aliases)), 4 * n, "resolve_public_key")


def words_of(data):
    # the reference converts one huge number, which takes quadratic time; 5 bytes are 8 words
    out = []
    for i in range(0, len(data), 5):
        out += bech32.to5(data[i:i + 5])
    return out


@op(1000, kind=["valid", "checksum", "prefix", "upper"])
def key_string(c, n):
    words = words_of(blob(n * 5))
    text = "hrp" + "1" + "".join("qpzry9x8gf2tvdw0s3jn54khce6mua7l"[w] for w in words + bech32.checksum("hrp", words))
    if c["kind"] == "upper":
        text = text.upper()
    elif c["kind"] == "checksum":
        text = text[:-1] + ("q" if text[-1] != "q" else "p")
    elif c["kind"] == "prefix":
        text = "1" * (8 * n) + text

    def run():
        if c["kind"] in ("checksum", "prefix"):
            refused(lambda: bech32_decode(text))
        else:
            same(bech32_decode(text), ("hrp", blob(n * 5)), "bech32_decode")
    return run


@op(1000, kind=["any"])
def key_string_encode(c, n):
    data = blob(n * 5)
    return lambda: same(len(bech32_encode("hrp", data)), 4 + 8 * n + 6, "bech32_encode")


@op(1 << 17, kind=["comment", "before", "after", "magic", "blank"])
def ssh_key_file(c, n):
    k = sshkeys.expand({"t": "ed", "seed": SK})
    text = sshkey.write(k, b"c" * (n if c["kind"] == "comment" else 5))
    ok = c["kind"] in ("comment", "before", "after", "blank")
    if c["kind"] == "before":
        text = b"# a line before\n" * (n // 16) + text
    elif c["kind"] == "after":
        text = text + b"a line after\n" * (n // 13)
    elif c["kind"] == "blank":
        text = b"\n" * (n // 4) + text
    elif c["kind"] == "magic":
        text = armored(b"openssh-key-v0\0" + blob(n), label="OPENSSH PRIVATE KEY")
    world.put(".", "id-%d" % n, text)

    def run():
        key = load_ssh_private_key("id-%d" % n)
        if ok and key is None:
            raise Violation("key not read")
        if not ok and key is not None:
            raise Violation("accepted")
    return run


# ---------------------------------------------------------------- measuring
def cpu(f, repeat):
    best = []
    for _ in range(repeat):
        gc.collect()
        t = time.process_time()
        f()
        best.append(time.process_time() - t)
    return best


def peak(f):
    gc.collect()
    tracemalloc.start()
    try:
        f()
        return tracemalloc.get_traced_memory()[1]
    finally:
        tracemalloc.stop()


def check(c):
    f, base, shape = OPS[c["op"]]
    base = base * c["scale"] // 4
    small = f(c, base)
    small()  # caches and imports
    times = cpu(small, 3)
    reference = max(max(times), FLOOR)
    labels = [c["op"]]
    for k in (16, 64):
        big = f(c, base * k)
        t = min(cpu(big, 1))
        if t > MAX_GROWTH * k * reference:
            # measure again: the machine may have been busy
            times = sorted(times + cpu(small, 12))
            reference = max(times[len(times) * 2 // 3], FLOOR)
            t = min(cpu(big, 4) + [t])
        if t > MAX_GROWTH * k * reference:
            raise Violation("%s: %.4f s of CPU time for size %d, but %.4f s for a size %d times as large" % (c["op"], reference, base, t, k))
    if t < 2 * FLOOR:
        labels.append("trivial")
    return labels


def check_memory(c):
    f, base, shape = OPS[c["op"]]
    base = base * c["scale"] // 4
    small = f(c, base)
    small()
    reference = max(peak(small), 1 << 20)
    p = peak(f(c, base * 16))
    if p > MEM_GROWTH * 16 * reference:
        raise Violation("%s: %d bytes of memory for size %d, but %d for a size 16 times as large" % (c["op"], reference, base, p))
    return [c["op"]]


def cases():
    """every shape of every operation"""
    for name in sorted(OPS):
        f, base, shape = OPS[name]
        combos = [{}]
        for k in sorted(shape):
            combos = [dict(c, **{k: v}) for c in combos for v in shape[k]]
        for c in combos:
            yield dict(c, op=name)


ALL = list(cases())


def enum_shapes(tier):
    for i, c in enumerate(ALL):
        if tier != "quick":
            for scale in (1, 4, 6):
                yield dict(c, scale=scale)
        else:
            yield dict(c, scale=2 + i % 4)


def s_case():
    # operations of equal weight, then their shapes
    return st.one_of([st.fixed_dictionaries(dict({k: st.sampled_from(v) for k, v in OPS[name][2].items()}, op=st.just(name), scale=st.integers(1, 6))) for name in sorted(OPS)])


SUBS = [
    Sub("shapes", check, enum=enum_shapes, qshards=6, tshards=4, budget=(200, 3000), case_cpu=100),
    Sub("time", check, strategy=s_case, quick=60, thorough=3000, qshards=2, tshards=4, budget=(100, 3000), case_cpu=100),
    Sub("memory", check_memory, strategy=s_case, quick=100, thorough=2000, qshards=2, tshards=4, budget=(60, 1500), case_cpu=100),
]
