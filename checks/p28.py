import array
import base64
import gc
import io
import os
import sys
import tempfile
import threading

from hypothesis import strategies as st

from age.file import Decryptor, Encryptor
from age.utils.asciiarmor import AsciiArmoredInput, AsciiArmoredOutput
from ref import agev1
from vf import gen, kit
from vf.core import HarnessError, Sub, Violation

PID = "P28"
RULE = ("Operation sequences over several slots holding encryption objects (plain or armored, in memory or on a real file, behind a prefix), decryption "
        "objects and byte-queue models of them: writes of bytes, bytearrays (changed afterwards), memoryviews and lists, empty writes, flush, close, "
        "with blocks, collection, writes after close, reads of any size and lines, input from buffered streams and from unbuffered ones that deliver pieces; compared after every step, and each file opened by an independent "
        "implementation at the end. 'large': several MiB read and written in steps around powers of two. 'threads' runs one sequence per thread at a tiny switch interval. Non-trivial: at least two writes or two reads.")
ASSUMPTIONS = ["one object is used by one thread at a time", "write accepts bytes-like objects"]

IDENT = {"t": "age", "sk": gen.sk_pool(2)}
LABEL = "AGE ENCRYPTED FILE"


def fail(msg, *a):
    raise Violation(msg % a)


class Pieces(io.RawIOBase):
    """unbuffered input which delivers only a few bytes at a time, like a pipe or a socket"""

    def __init__(self, data, n):
        self.data, self.n, self.pos, self.i = data, n, 0, 0

    def readable(self):
        return True

    def readinto(self, b):
        self.i += 1
        k = min(len(b), self.n if self.n > 0 else 1 + self.i * 7 % 23, len(self.data) - self.pos)
        b[:k] = self.data[self.pos:self.pos + k]
        self.pos += k
        return k


class Enc:
    def __init__(self, op, i):
        self.armor, self.prefix = op["armor"], kit.material({"len": op["n"] % 50, "seed": i}) if op["n"] % 3 else b""
        self.kind = "armored writer" if op["armor"] else "encryptor"
        if op["n"] % 4 == 1:
            self.under = tempfile.TemporaryFile(dir=os.environ["HOME"])
        elif op["n"] % 4 == 2:
            self.under = tempfile.TemporaryFile(dir=os.environ["HOME"], buffering=0)
        else:
            self.under = io.BytesIO()
        self.under.write(self.prefix)
        self.recips = 1 + op["n"] % 2
        keys = [kit.enc_key(IDENT)] * self.recips
        self.arm = AsciiArmoredOutput(LABEL, self.under) if op["armor"] else None
        self.obj = Encryptor(keys if op["n"] % 5 else tuple(keys), self.arm or self.under)
        self.model, self.closed = bytearray(), False

    def write(self, data, form):
        buf = data
        if form == 1:
            buf = bytearray(data)
        elif form == 2:
            buf = memoryview(data)
        elif form == 3:
            buf = memoryview(bytearray(b"xx" + data + b"yy"))[2:2 + len(data)]
        elif form == 5 and len(data) % 4 == 0:
            # items of several bytes
            buf = array.array("I", data) if len(data) % 8 else memoryview(data).cast("H")
        if self.closed:
            for target in [self.obj] + ([self.arm] if self.arm and self.arm.closed else []):
                e = kit.raises(target.write, buf)
                if e is None:
                    fail("write of %d bytes to a closed %s was accepted", len(data), type(target).__name__)
            return
        if form == 4:
            third = len(data) // 3
            self.obj.writelines([data[:third], data[third:third], data[third:]])
        else:
            n = self.obj.write(buf)
            if n != len(data):
                fail("write of %d bytes returned %r", len(data), n)
        self.model += data
        if form == 1:
            for i in range(len(buf)):
                buf[i] ^= 0xFF
            buf += b"more"
        elif form == 3:
            buf[:] = bytes(len(buf))

    def close(self, how):
        if how == 1 and not self.closed:
            with self.obj as o:
                if o is not self.obj:
                    fail("with yields another object")
        elif how == 2 and not self.closed:
            with self.obj as o:
                o.write(b"in with")
                self.model += b"in with"
        else:
            self.obj.close()
        self.closed = True
        if not self.obj.closed:
            fail("%s not closed after close", self.kind)
        if self.arm:
            if self.under.closed:
                fail("output stream closed together with the encryptor")
            self.arm.close()

    def check(self):
        if self.under.closed:
            fail("the output stream of the %s is closed", self.kind)
        if not self.closed:
            return
        self.under.flush()
        pos = self.under.tell()
        self.under.seek(0)
        raw = self.under.read()
        self.under.seek(pos)
        if raw[:len(self.prefix)] != self.prefix:
            fail("data in front of the output was changed")
        out = raw[len(self.prefix):]
        if self.armor:
            lines = out.split(b"\n")
            if lines[0] != b"-----BEGIN %s-----" % LABEL.encode() or lines[-2:] != [b"-----END %s-----" % LABEL.encode(), b""]:
                fail("armored output is %r...", out[:60])
            try:
                out = base64.b64decode(b"".join(lines[1:-2]), validate=True)
            except ValueError as e:
                fail("armored output: %s", e)
        try:
            stanzas = agev1.parse_header(out)[0]
            got = agev1.open_with_key(out, agev1.unwrap_x25519(IDENT["sk"], stanzas[0]))
        except Exception as e:
            fail("output of the %s (%d bytes) cannot be opened: %r", self.kind, len(out), e)
        if got != self.model:
            fail("%s was given %d bytes but its file holds %d, difference at %d", self.kind, len(self.model), len(got), kit.first_diff(got, self.model))
        if len(stanzas) != self.recips:
            fail("%d recipient entries instead of %d", len(stanzas), self.recips)


class Dec:
    def __init__(self, op, enc, i):
        if enc is not None and enc.closed and not enc.armor:
            self.model = bytes(enc.model)
            enc.under.flush()
            self.under = enc.under
            self.under.seek(len(enc.prefix))
        else:
            self.model = kit.material({"len": [0, 1, 100, 65535, 65536, 65537, 140000, 3000][op["n"] % 8], "seed": i, "pat": ["rand", "text"][op["n"] % 2]})
            blob = agev1.write_file([agev1.wrap_x25519(agev1.curve.x25519_base(IDENT["sk"]), b"k" * 16, kit.bseed(i))], b"k" * 16, b"n" * 16, self.model)
            if op["armor"]:
                b = base64.b64encode(blob)
                blob = b"-----BEGIN %s-----\n" % LABEL.encode() + b"\n".join(b[j:j + 64] for j in range(0, len(b), 64)) + b"\n-----END %s-----\n" % LABEL.encode()
            # 0 means changing sizes
            self.under = Pieces(blob, op["pieces"] or 0) if op.get("pieces") is not None else io.BytesIO(blob)
        source = AsciiArmoredInput(LABEL, self.under) if op["armor"] and not (enc is not None and enc.closed and not enc.armor) else self.under
        self.obj = Decryptor([kit.dec_key(IDENT)], source)
        self.pos = 0

    def read(self, size, how):
        rest = self.model[self.pos:]
        if how == 1:
            got = self.obj.readline()
            want = rest[:rest.index(b"\n") + 1] if b"\n" in rest else rest
            if len(want) > 20000:
                self.pos += len(got)
                if rest[:len(got)] != got:
                    fail("readline returned %d bytes that are not next in the plaintext", len(got))
                return
            if got != want:
                fail("readline returned %d bytes instead of %d", len(got), len(want))
        else:
            got = self.obj.read() if how == 2 else self.obj.read(size)
            if not isinstance(got, bytes):
                fail("read returned a %s", type(got).__name__)
            everything = how == 2 or size is None or size < 0
            if rest[:len(got)] != got:
                fail("read(%r) after %d bytes returned %d bytes that are not next in the plaintext", size, self.pos, len(got))
            if everything and len(got) != len(rest):
                fail("read of everything returned %d of %d bytes", len(got), len(rest))
            if not everything and (len(got) > size or size and rest and not got):
                fail("read(%r) with %d bytes left returned %d", size, len(rest), len(got))
        self.pos += len(got)


def play(ops, nslots):
    encs, decs = [None] * nslots, [None] * nslots
    done = []
    writes = reads = 0
    for i, op in enumerate(ops):
        k = op["slot"] % nslots
        what = op["op"]
        if what == "enc" or (what in ("write", "flush", "close") and encs[k] is None):
            if encs[k] is not None:
                encs[k].close(0)
                done.append(encs[k])
            encs[k] = Enc(op, i)
        if what == "dec" or (what == "read" and decs[k] is None):
            decs[k] = Dec(op, encs[k], i)
        e, d = encs[k], decs[k]
        if what == "write":
            e.write(kit.material({"len": op["len"] if op["len"] <= 200000 else 7, "seed": i}), op["n"] % 6)
            writes += 1
        elif what == "flush":
            if not e.closed:
                e.obj.flush()
        elif what == "close":
            e.close(op["n"] % 3)
            e.check()
            if op["n"] % 7 == 0:
                e.close(0)
        elif what == "read":
            d.read([None, -1, 0, op["len"], op["len"], op["len"]][op["n"] % 6], op["n"] % 5)
            reads += 1
        elif what == "gc":
            gc.collect()
        for x in encs:
            if x is not None and x.under.closed:
                fail("after %s: the output stream of an encryption object is closed", what)
    for e in encs:
        if e is not None:
            e.close(0)
            done.append(e)
    unders = [e.under for e in done]
    for e in done:
        e.check()
    for d in decs:
        if d is not None:
            d.read(None, 2)
            if d.obj.read(10) != b"" or d.obj.read() != b"":
                fail("data after the end of the plaintext")
    # objects gone: their output streams must stay usable
    for e in done:
        e.obj = e.arm = None
    encs[:] = []
    del d, e, x
    gc.collect()
    for u in unders:
        if u.closed:
            fail("the output stream was closed when the object was discarded")
        u.seek(0, 2)
        u.write(b"after")
        u.close()
    return writes, reads


def sequence(case):
    d = e = x = None
    try:
        w, r = play([dict(op="enc", slot=0, n=1, len=0, armor=False)] + case["ops"], case["slots"])
    except (ValueError, OSError, AttributeError) as e:
        # raised by the io base classes the objects are built on
        fail("unexpected %s: %s", type(e).__name__, e)
    return ["slots:%d" % case["slots"], "ops:%d" % (len(case["ops"]) // 10 * 10)] + ([] if w > 1 or r > 1 else ["trivial"])


def threads(case):
    errors = []
    barrier = threading.Barrier(len(case["threads"]))

    def work(ops):
        try:
            barrier.wait(30)
            play([dict(op="enc", slot=0, n=1, len=0, armor=False)] + ops, 2)
        except Exception as e:
            errors.append(e)

    old = sys.getswitchinterval()
    sys.setswitchinterval(1e-6)
    try:
        ts = [threading.Thread(target=work, args=(ops,)) for ops in case["threads"]]
        for t in ts:
            t.start()
        for t in ts:
            t.join()
    finally:
        sys.setswitchinterval(old)
    for e in errors:
        if isinstance(e, (ValueError, OSError, AttributeError)):
            fail("unexpected %s: %s", type(e).__name__, e)
        raise e
    return ["threads:%d" % len(case["threads"])]


def ops(max_size):
    op = st.fixed_dictionaries({"op": st.sampled_from(["write"] * 6 + ["read"] * 6 + ["close", "flush", "enc", "dec", "gc"]), "slot": st.integers(0, 3), "n": gen.position(),
                                "len": st.one_of(st.integers(0, 20), st.sampled_from([0, 1, 4096, 65535, 65536, 65537, 0, 1, 4096, 65535, 65536, 65537, 2**31 - 1, 2**31, 2**32 + 1, 2**40, sys.maxsize]), st.integers(0, 3000), st.integers(0, 140000)), "armor": st.booleans(),
                                "pieces": st.one_of(st.none(), st.none(), st.sampled_from([0, 5, 15, 16, 17, 100, 65536, 70000]))})
    return st.lists(op, min_size=1, max_size=max_size)


def large(case):
    """reads of any size while much is left"""
    size, step = case["size"], case["step"]
    model = kit.material({"len": size, "seed": step % 97})
    blob = agev1.write_file([agev1.wrap_x25519(agev1.curve.x25519_base(IDENT["sk"]), b"k" * 16, kit.bseed(1))], b"k" * 16, b"n" * 16, model)
    d = Decryptor([kit.dec_key(IDENT)], io.BytesIO(blob) if case["pieces"] is None else Pieces(blob, case["pieces"]))
    pos = i = 0
    while pos < size:
        n = [step, step, 1, step + 1][i % 4]
        got = d.read(n)
        if not got or len(got) > n or model[pos:pos + len(got)] != got:
            fail("read(%d) after %d of %d bytes returned %d bytes%s", n, pos, size, len(got), ", not the next ones" if got and len(got) <= n else "")
        pos += len(got)
        i += 1
    if d.read(step) or d.read():
        fail("data after the end of the plaintext")
    out = io.BytesIO()
    e = Encryptor([kit.enc_key(IDENT)], out)
    pos = 0
    while pos < size:
        part = model[pos:pos + step]
        n = e.write(part)
        if n != len(part):
            fail("write of %d bytes after %d returned %r", len(part), pos, n)
        pos += n
    e.close()
    raw = out.getvalue()
    try:
        got = agev1.open_with_key(raw, agev1.unwrap_x25519(IDENT["sk"], agev1.parse_header(raw)[0][0]))
    except Exception as x:
        fail("%d bytes written %d at a time: file cannot be opened: %r", size, step, x)
    if got != model:
        fail("%d bytes written %d at a time: file holds %d bytes, difference at %d", size, step, len(got), kit.first_diff(got, model))
    return ["step:%d" % step.bit_length()]


def enum_large(tier):
    top = 22 if tier == "quick" else 26
    for size in (17, 33) if tier == "quick" else (17, 33, 65, 129, 257):
        yield {"size": (size << 20) - size % 3, "step": size << 20, "pieces": None}
    for k in range(15, top):
        for d in (-1, 0, 1):
            yield {"size": 5 << 20 if k < 22 else (1 << k) * 2 + 77, "step": (1 << k) + d, "pieces": [None, None, 65536, 1 << 20][(k + d) % 4]}


SUBS = [
    Sub("large", large, enum=enum_large, qshards=3),
    Sub("sequences", sequence, lambda: st.fixed_dictionaries({"ops": ops(40), "slots": st.integers(1, 4)}), quick=1500, thorough=80000, qshards=5),
    Sub("threads", threads, lambda: st.fixed_dictionaries({"threads": st.lists(ops(12), min_size=2, max_size=4)}), quick=120, thorough=4000, qshards=2),
]
