import base64
import errno
import fcntl
import io
import os
import tempfile

from hypothesis import strategies as st

import age.cli
from age.file import Encryptor
from age.utils.asciiarmor import AsciiArmoredOutput
from ref import agev1
from vf import cli, gen, kit, world
from vf.core import HarnessError, Sub, Violation

PID = "P14"
LEVEL = "fault_enumeration"
RULE = ("'calls': encryption objects and armored writers on a stream that fails at one byte offset or one call (every call enumerated, then "
        "random plaintexts, offsets, error types, transient or lasting, partial acceptance, short writes, or accepts nothing more without an error); whenever the stream raised, the "
        "caller must see an exception, otherwise the output must be complete. 'functions': the same for the functions encrypt and decrypt of the command module. 'nonblocking': the same on real non-blocking pipes nobody empties "
        "(unbuffered, buffered, partly filled) and on stand-ins that accept parts or nothing. 'limits': encrypt, decrypt and generate commands under a file "
        "size limit at every byte of a small output and around buffer boundaries of large ones, named file or standard output, plain and "
        "armored; status not 0 exactly below the full size. 'devices': /dev/full and pipes without reader. 'fresh': a sample of both in a "
        "freshly started interpreter, with and without PYTHONUNBUFFERED. Non-trivial: a fault was injected or possible.")
ASSUMPTIONS = ["a file size limit (RLIMIT_FSIZE) and /dev/full represent full disks"]


class Boom(Exception):
    pass


ERRORS = {"enospc": lambda: OSError(errno.ENOSPC, "No space left on device"), "eio": lambda: OSError(errno.EIO, "Input/output error"),
          "epipe": lambda: BrokenPipeError(errno.EPIPE, "Broken pipe"), "boom": lambda: Boom("stream failed"), "value": lambda: ValueError("I/O operation on closed file"),
          "eof": lambda: EOFError("end"), "timeout": lambda: TimeoutError("timed out"), "interrupted": lambda: BlockingIOError(errno.EAGAIN, "would block", 0),
          "eintr": lambda: InterruptedError(errno.EINTR, "Interrupted system call"), "reset": lambda: ConnectionResetError(errno.ECONNRESET, "reset"), "memory": lambda: MemoryError(),
          "denied": lambda: PermissionError(errno.EACCES, "denied"), "unsupported": lambda: io.UnsupportedOperation("write"), "type": lambda: TypeError("bad"), "stop": lambda: StopIteration(),
          "attr": lambda: AttributeError("no buffer"), "unicode": lambda: UnicodeEncodeError("ascii", "x", 0, 1, "bad"), "edquot": lambda: OSError(errno.EDQUOT, "quota"), "plain": lambda: OSError("no number")}


class Faulty(io.BytesIO):
    """fails at call number `call` (of write and flush) or at byte `byte`; transient or for good; may accept a part before"""

    def __init__(self, spec):
        super().__init__()
        self.spec = spec
        self.calls = self.raised = self.zeros = 0
        self.accepted = bytearray()
        self.failed_once = False

    def _fail(self):
        self.raised += 1
        self.failed_once = True
        raise ERRORS[self.spec["err"]]()

    def write(self, data):
        data = bytes(data)
        s = self.spec
        n = self.calls
        self.calls += 1
        active = not (self.failed_once and s["transient"])
        if active and s.get("call") is not None and (n == s["call"] or n > s["call"] and not s["transient"]):
            if s["partial"]:
                self.accepted += data[:len(data) // 2]
            self._fail()
        room = s["byte"] - len(self.accepted) if s.get("byte") is not None and active else None
        if room is not None and len(data) > room and s.get("zero"):
            # never accepts more, without an error
            self.zeros += room == 0
            self.raised += room == 0
            if self.zeros > 5000:
                raise Boom("endless loop")
            self.accepted += data[:room]
            return room
        if room is not None and len(data) > room:
            if s["partial"]:
                self.accepted += data[:room]
            self._fail()
        if s.get("short"):
            data = data[:max(1, s["short"])]
        self.accepted += data
        return len(data)

    def flush(self):
        s = self.spec
        if s.get("flush") and not (self.failed_once and s["transient"]):
            self._fail()

    def getvalue(self):
        return bytes(self.accepted)


IDENT = {"t": "age", "sk": gen.sk_pool(1)}
PW = {"t": "pw", "pw": b"pw"}


def steps(case, stream, objs=None, at=None):
    """encrypt and / or armor the plaintext into the stream; `at` receives the names of the steps"""
    objs = [] if objs is None else objs
    at = [] if at is None else at
    data = kit.material(case["pt"])
    keys = [kit.enc_key(IDENT)] * case["recips"]
    at.append("creation")
    e = a = None
    if case["obj"] != "enc":
        a = AsciiArmoredOutput("AGE ENCRYPTED FILE", stream)
        objs.append(a)
    if case["obj"] != "armor":
        e = Encryptor(keys, a or stream)
        objs.append(e)
    top = e or a
    for p in kit.pieces(data, case["cuts"]):
        at.append("write")
        top.write(p)
        if case["flush"]:
            at.append("flush")
            top.flush()
    if e is not None and case["ctx"]:
        at.append("with")
        with e:
            pass
    else:
        at.append("close")
        top.close()
    if case["obj"] == "both":
        at.append("close of the armor")
        a.close()


def produce(case, stream):
    """-> name of the step that raised, or None; the error; the objects"""
    objs, at = [], []
    try:
        steps(case, stream, objs, at)
    except Exception as e:
        if not stream.raised:
            raise
        return at[-1], e, objs  # a translated error is fine, too
    return None, None, objs


def calls(case):
    data = kit.material(case["pt"])
    stream = Faulty(case["fault"])
    where, err, objs = produce(case, stream)
    if stream.zeros > 5000:
        raise Violation("%s writes for ever to a stream which accepts nothing more (%s)" % (case["obj"], case["fault"]))
    if stream.raised and err is None:
        raise Violation("the output stream failed (%s) but %s reported nothing; %d bytes arrived" % (case["fault"], case["obj"], len(stream.getvalue())))
    if err is None:
        complete(stream.getvalue(), data, case["obj"], case["recips"])
    else:
        # closing again must not succeed silently while writing more
        before = len(stream.getvalue())
        for o in objs:
            if where.startswith("close") or where == "with":
                try:
                    o.close()
                except Exception:
                    continue
        if where == "close of the armor" or case["obj"] != "both" and where in ("close", "with"):
            if len(stream.getvalue()) != before and not whole(stream.getvalue(), data, case["obj"], case["recips"]):
                raise Violation("after a failed close, another close succeeded and left a damaged output of %d bytes" % len(stream.getvalue()))
    return [case["obj"], "failed" if stream.raised else "complete", "at:%s" % where] + ([] if stream.raised or case["fault"].get("short") else ["trivial"])


def functions(case):
    """the functions of the command module, called with a stream of the caller"""
    data = kit.material(case["pt"])
    stream = Faulty(case["fault"])
    armored = case["armored"]
    old = os.environ.get("HOME")
    with tempfile.TemporaryDirectory(prefix="vf-p14-") as home, kit.quiet():
        os.environ["HOME"] = home
        try:
            if case["what"] == "encrypt":
                call = lambda: age.cli.encrypt([world.public_string(IDENT)] * case["recips"], io.BytesIO(data), stream, False, armored)  # noqa: E731
            else:
                world.put(home, "k", world.keys_file([IDENT["sk"]]))
                blob = agev1.write_file([kit.ref_wrap(IDENT, b"f" * 16, b"e" * 32)] * case["recips"], b"f" * 16, b"n" * 16, data)
                if armored:
                    text = base64.b64encode(blob)
                    blob = b"\n".join([b"-----BEGIN AGE ENCRYPTED FILE-----"] + [text[i:i + 64] for i in range(0, len(text), 64)] + [b"-----END AGE ENCRYPTED FILE-----", b""])
                call = lambda: age.cli.decrypt(io.BytesIO(blob), stream, False, [os.path.join(home, "k")], armored)  # noqa: E731
            err = None
            try:
                call()
            except SystemExit as e:
                if e.code in (0, None):
                    raise Violation("%s ended with status 0" % case["what"])
                err = e
            except Exception as e:
                if not stream.raised:
                    raise
                err = e
        finally:
            if old is None:
                del os.environ["HOME"]
            else:
                os.environ["HOME"] = old
    if stream.zeros > 5000:
        raise Violation("%s writes for ever to a stream which accepts nothing more (%s)" % (case["what"], case["fault"]))
    if stream.raised and err is None:
        raise Violation("the output stream failed (%s) but %s reported nothing; %d bytes arrived" % (case["fault"], case["what"], len(stream.getvalue())))
    if err is None and case["what"] == "encrypt":
        complete(stream.getvalue(), data, "both" if armored else "enc", case["recips"])
    elif err is None and stream.getvalue() != data:
        raise Violation("decrypt returned without error, %d of %d bytes arrived" % (len(stream.getvalue()), len(data)))
    return [case["what"], "armored" if armored else "plain", "failed" if stream.raised else "complete"] + (
        [] if stream.raised or case["fault"].get("short") else ["trivial"])


def s_functions():
    return st.fixed_dictionaries({
        "what": st.sampled_from(["encrypt", "decrypt"]), "armored": st.booleans(), "recips": st.integers(1, 3), "pt": gen.plaintext(),
        "fault": st.one_of(
            st.fixed_dictionaries({"short": st.one_of(st.integers(1000, 70000), st.sampled_from([8192, 65536, 65535, 4096])), "err": st.just("boom"), "transient": st.just(False), "partial": st.just(False)}),
            st.fixed_dictionaries({"byte": st.integers(0, 100000), "err": st.sampled_from(sorted(ERRORS)), "transient": st.booleans(),
                                   "partial": st.booleans(), "zero": st.booleans()}),
            st.fixed_dictionaries({"call": st.integers(0, 2), "err": st.sampled_from(sorted(ERRORS)), "transient": st.booleans(), "partial": st.booleans()}))})


def enum_functions(tier):
    for what in ("encrypt", "decrypt"):
        for armored in (False, True):
            for n in (0, 1, 100, 9000, 70000, 200000):
                base = {"what": what, "armored": armored, "recips": 1, "pt": {"len": n, "seed": n}}
                for short in (1, 7, 1000, 8192, 65536):
                    if short > n // 300:
                        yield dict(base, fault={"short": short, "err": "boom", "transient": False, "partial": False})
                for byte in sorted({0, 1, n // 2, n - 1, n} - {-1}):
                    for zero in (False, True):
                        yield dict(base, fault={"byte": byte, "err": "enospc", "transient": False, "partial": True, "zero": zero})


def whole(out, data, obj, recips):
    try:
        complete(out, data, obj, recips)
    except Violation:
        return False
    return True


def complete(out, data, obj, recips):
    if obj in ("armor", "both"):
        lines = out.split(b"\n")
        if lines[0] != b"-----BEGIN AGE ENCRYPTED FILE-----" or lines[-2:] != [b"-----END AGE ENCRYPTED FILE-----", b""]:
            raise Violation("closed without error but the armor is incomplete: %r ... %r" % (out[:50], out[-50:]))
        try:
            out = base64.b64decode(b"".join(lines[1:-2]), validate=True)
        except ValueError as e:
            raise Violation("closed without error but the armor is damaged: %s" % e)
    if obj == "armor":
        if out != data:
            raise Violation("armored %d bytes, %d arrived" % (len(data), len(out)))
        return
    try:
        stanzas = agev1.parse_header(out)[0]
        fk = agev1.unwrap_x25519(IDENT["sk"], stanzas[0])
        got = agev1.open_with_key(out, fk)
    except Exception as e:
        raise Violation("closed without error but the file is incomplete (%d bytes): %r" % (len(out), e))
    if got != data or len(stanzas) != recips:
        raise Violation("closed without error but the file holds %d of %d bytes" % (len(got), len(data)))


def enum_calls(tier):
    for obj in ("enc", "armor", "both"):
        for n in (0, 1, 100, 3000, 70000):
            for recips in (1, 3):
                base = {"obj": obj, "pt": {"len": n, "seed": n}, "recips": recips, "cuts": [500], "flush": n % 3 == 0, "ctx": n % 2 == 0}
                stream = Faulty({"err": "boom", "transient": False, "partial": False})
                _, err, _ = produce(base, stream)
                if err:
                    raise HarnessError(repr(err))
                # further calls than the unharmed run makes: covers writers that split their output differently
                for call in range(stream.calls + 2):
                    for transient in (False, True):
                        for partial in (False, True):
                            for err in sorted(ERRORS):
                                yield dict(base, fault={"call": call, "err": err, "transient": transient, "partial": partial})
                yield dict(base, fault={"flush": True, "err": "enospc", "transient": False, "partial": False})
                for short in (1, 7, 1000, 65536):
                    if short > 1 or n < 200:
                        yield dict(base, fault={"short": short, "err": "boom", "transient": False, "partial": False})
                total = len(stream.getvalue())
                for byte in range(0, total, 1 + total // (40 if tier == "quick" else 400)):
                    yield dict(base, fault={"byte": byte, "zero": True, "err": "boom", "transient": False, "partial": False})
                for byte in range(0, total + 1, 1 if total < 1200 else 1 + total // (400 if tier == "quick" else 6000)):
                    yield dict(base, fault={"byte": byte, "err": "enospc", "transient": byte % 2 == 0, "partial": byte % 3 != 0})


def s_calls():
    fault = st.one_of(
        st.fixed_dictionaries({"byte": st.one_of(st.integers(0, 800), st.integers(0, 200000)), "err": st.sampled_from(sorted(ERRORS)), "transient": st.booleans(), "partial": st.booleans(),
                               "short": st.one_of(st.none(), st.none(), st.integers(1, 70000))}),
        st.fixed_dictionaries({"byte": st.one_of(st.integers(0, 800), st.integers(0, 200000)), "zero": st.just(True), "err": st.just("boom"), "transient": st.just(False), "partial": st.just(False)}),
        st.fixed_dictionaries({"call": st.integers(0, 12), "err": st.sampled_from(sorted(ERRORS)), "transient": st.booleans(), "partial": st.booleans(),
                               "short": st.one_of(st.none(), st.none(), st.integers(30, 70000))}),
        st.fixed_dictionaries({"flush": st.just(True), "err": st.sampled_from(sorted(ERRORS)), "transient": st.booleans(), "partial": st.booleans()}))
    return st.fixed_dictionaries({"obj": st.sampled_from(["enc", "armor", "both"]), "pt": gen.plaintext(2), "recips": st.integers(1, 4), "cuts": gen.cuts(), "flush": st.booleans(),
                                  "ctx": st.booleans(), "fault": fault})


# ---------------------------------------------------------------- commands
def setup(case, home):
    """-> (args, stdin, expected plaintext)"""
    data = kit.material({"len": case["n"], "seed": 3})
    world.put(home, ".config/age/keys.txt", world.keys_file([IDENT["sk"]]))
    if case["cmd"] == "encrypt":
        return ["encrypt", world.age_public(IDENT["sk"])] + (["-a"] if case["armor"] else []), data, data
    if case["cmd"] == "decrypt":
        blob = agev1.write_file([agev1.wrap_x25519(__import__("ref.curve").curve.x25519_base(IDENT["sk"]), b"k" * 16, b"e" * 32)], b"k" * 16, b"n" * 16, data)
        if case["armor"]:
            b = base64.encodebytes(blob).replace(b"\n", b"")
            blob = b"-----BEGIN AGE ENCRYPTED FILE-----\n" + b"\n".join(b[i:i + 64] for i in range(0, len(b), 64)) + b"\n-----END AGE ENCRYPTED FILE-----\n"
        return ["decrypt"] + (["-a"] if case["armor"] else []), blob, data
    return ["generate"], b"", None


def size(cmd, armor, n):
    if cmd == "decrypt":
        return n
    if cmd == "generate":
        return len("# created: 2020-01-01T00:00:00\n") + len("# \n") + 62 + len("AGE-SECRET-KEY-1") + 58 + 1
    # one X25519 entry
    bare = len("age-encryption.org/v1\n-> X25519 \n\n--- \n") + 43 * 3 + 16 + n + 16 * max(1, -(-n // 65536))
    if not armor:
        return bare
    b = (bare + 2) // 3 * 4
    return b + -(-b // 64) + len("-----BEGIN AGE ENCRYPTED FILE-----\n-----END AGE ENCRYPTED FILE-----\n")


def verify(case, data, out):
    if case["cmd"] == "encrypt":
        complete(out, data, "both" if case["armor"] else "enc", 1)
    elif case["cmd"] == "decrypt":
        if out != data:
            raise Violation("exit status 0 but %d of %d bytes were written" % (len(out), len(data)))
    elif len(out) != size("generate", False, 0) or out.count(b"\n") != 3:
        raise Violation("exit status 0 but %d bytes of key file were written" % len(out))


def limits(case):
    home = os.environ["HOME"]
    world.clean(home)
    args, stdin, data = setup(case, home)
    target = os.path.join(home, "target")
    kw = {"stdin": stdin}
    if case["old"]:
        world.put(home, "target", b"old" * 1000)
    if case["via"] == "file":
        args += ["-o", target]
    else:
        if case["via"] == "dash":
            args += ["-o", "-"]
        kw["stdout"] = target
    if case.get("mode"):
        kw.update(mode="exec", env={"PYTHONUNBUFFERED": "1" if case["mode"] == "unbuffered" else ""})
    r = cli.run(args, home, fsize=case["limit"], **kw)
    out = open(target, "rb").read() if os.path.exists(target) else b""
    full = size(case["cmd"], case["armor"], case["n"])
    what = "%s%s to %s of %d bytes, limited to %d" % (case["cmd"], " -a" if case["armor"] else "", case["via"], full, case["limit"])
    if r.rc == 0:
        if data is not None and not data and case["cmd"] == "decrypt" and not os.path.exists(target):
            return ["trivial"]
        try:
            verify(case, data, out)
        except Violation as e:
            raise Violation("%s: %s" % (what, e))
        if case["limit"] < len(out):
            raise HarnessError("the limit has no effect: %s %r" % (what, r))
    elif case["limit"] >= full:
        raise Violation("%s: failed although there is room: %r" % (what, r))
    return [case["cmd"], case["via"], "armor" if case["armor"] else "binary", "fails" if r.rc else "succeeds"]


def enum_limits(tier):
    combos = [(c, a) for c in ("encrypt", "decrypt") for a in (False, True)] + [("generate", False)]
    k = 0
    for cmd, armor in combos:
        for via in ("file", "stdout", "dash"):
            if via == "dash" and cmd == "generate":
                pass
            n = 100
            full = size(cmd, armor, n)
            step = (1 if via != "dash" else 5) * (2 if tier == "quick" and full > 250 else 1)
            for limit in sorted(set(list(range(0, full, step)) + [full - 2, full - 1, full, full + 1])):
                k += 1
                yield {"cmd": cmd, "armor": armor, "via": via, "n": n, "limit": limit, "old": k % 3 == 0}
        if cmd == "generate":
            continue
        for n in ((70000,) if tier == "quick" else (8000, 70000, 200000)):
            full = size(cmd, armor, n)
            marks = {0, 1, full - 1, full, full + 1, full - 17, full - 16}
            for b in (4096, 8192, 65536, full // 2):
                marks |= {m + d for m in range(b, full, b if tier != "quick" else max(b, full // 4)) for d in (-1, 0, 1)}
            for limit in sorted(m for m in marks if 0 <= m):
                for via in ("file", "stdout"):
                    k += 1
                    yield {"cmd": cmd, "armor": armor, "via": via, "n": n, "limit": limit, "old": k % 3 == 0}


def enum_fresh(tier):
    for i, c in enumerate(enum_limits("quick")):
        full = size(c["cmd"], c["armor"], c["n"])
        near = full - c["limit"] in (1, 2, 0, full, full - 1)
        if near or i % (60 if tier == "quick" else 7) == 0:
            yield dict(c, mode="unbuffered" if i % 2 else "normal")


def devices(case):
    home = os.environ["HOME"]
    world.clean(home)
    args, stdin, data = setup(case, home)
    kw = {"stdin": stdin}
    if case["via"] == "devfull-file":
        args += ["-o", "/dev/full"]
    elif case["via"] == "devfull-link":
        os.symlink("/dev/full", os.path.join(home, "out"))
        args += ["-o", "out"]
    elif case["via"] == "devfull":
        kw["stdout"] = "/dev/full"
    elif case["via"] == "devfull-dash":
        kw["stdout"] = "/dev/full"
        args += ["-o", "-"]
    else:
        kw["stdout"] = "broken"
    if case["mode"] != "fork":
        kw.update(mode="exec", env={"PYTHONUNBUFFERED": "1" if case["mode"] == "unbuffered" else ""})
    if not os.path.exists("/dev/full"):
        return ["trivial"]
    r = cli.run(args, home, **kw)
    if r.rc == 0 and size(case["cmd"], case["armor"], case["n"]):
        raise Violation("%s%s of %d bytes to %s: exit status 0" % (case["cmd"], " -a" if case["armor"] else "", case["n"], case["via"]))
    return [case["cmd"], case["via"], "armor" if case["armor"] else "binary"]


def enum_devices(tier):
    for cmd in ("encrypt", "decrypt", "generate"):
        for armor in (False, True):
            if armor and cmd == "generate":
                continue
            for n in (1, 100, 5000, 9000, 70000) if cmd != "generate" else (0,):
                for via in ("devfull-file", "devfull-link", "devfull", "devfull-dash", "broken"):
                    yield {"cmd": cmd, "armor": armor, "n": n, "via": via, "mode": "fork"}
                    if n in (0, 100, 9000):
                        yield {"cmd": cmd, "armor": armor, "n": n, "via": via, "mode": "normal"}
                        yield {"cmd": cmd, "armor": armor, "n": n, "via": via, "mode": "unbuffered"}


# ---------------------------------------------------------------- streams that do not wait
class Reluctant(io.RawIOBase):
    """an unbuffered stream in non-blocking mode: some calls accept a part or, saying None, nothing"""

    def __init__(self, plan):
        super().__init__()
        self.plan = plan
        self.n = 0
        self.refused = 0
        self.accepted = bytearray()

    def writable(self):
        return True

    def write(self, data):
        data = bytes(data)
        step = self.plan[self.n] if self.n < len(self.plan) else 0
        self.n += 1
        if step is None and data:
            self.refused += 1
            return None
        if step:
            data = data[:step]
        self.accepted += data
        return len(data)


def nonblocking(case):
    """the output is a real pipe nobody empties (unbuffered or buffered), or a stand-in refusing single calls"""
    data = kit.material(case["pt"])
    case = dict(case, fault={"err": "interrupted"})
    fds = []
    try:
        if case["kind"] == "standin":
            stream = Reluctant(case["plan"])
        else:
            r, w = os.pipe()
            fds = [r]
            try:
                fcntl.fcntl(w, 1031, case["capacity"])  # F_SETPIPE_SZ
            except OSError:
                pass
            os.set_blocking(w, False)
            os.set_blocking(r, False)
            stream = open(w, "wb", buffering=0 if case["kind"] == "raw" else case["buffer"])
            if case["filled"]:
                os.write(w, bytes(case["filled"]))
        err = None
        try:
            try:
                steps(case, stream)
            finally:
                if case["kind"] != "standin":
                    stream.close()  # a buffered stream reports what is left here
        except Exception as e:
            err = e
        if case["kind"] == "standin":
            out = bytes(stream.accepted)
        else:
            out = b""
            while True:
                try:
                    part = os.read(r, 1 << 20)
                except BlockingIOError:
                    break
                if not part:
                    break
                out += part
            out = out[case["filled"]:]
        if err is None:
            complete(out, data, case["obj"], case["recips"])
        elif whole(out, data, case["obj"], case["recips"]) and not (case["kind"] == "standin" and stream.refused):
            raise Violation("%r although everything was accepted" % err)
        return [case["obj"], case["kind"], "refused" if err else "complete"] + ([] if err else ["trivial"])
    finally:
        for fd in fds:
            os.close(fd)


def s_nonblocking():
    common = {"obj": st.sampled_from(["enc", "armor", "both"]), "recips": st.integers(1, 3), "cuts": gen.cuts(), "flush": st.booleans(), "ctx": st.booleans()}
    n = st.one_of(st.integers(0, 300), st.integers(3000, 9000), st.integers(60000, 140000))
    pt = st.fixed_dictionaries({"len": n, "seed": st.integers(0, 1000)})
    pipe = {"capacity": st.sampled_from([4096, 8192, 65536]), "filled": st.one_of(st.just(0), st.integers(0, 4096)), "pt": pt}
    return st.one_of(
        st.fixed_dictionaries(dict(common, kind=st.just("raw"), **pipe)),
        st.fixed_dictionaries(dict(common, kind=st.just("buffered"), buffer=st.sampled_from([16, 512, 8192, 65536]), **pipe)),
        st.fixed_dictionaries(dict(common, kind=st.just("standin"), pt=pt,
                                   plan=st.lists(st.one_of(st.none(), st.just(0), st.integers(1, 300)), max_size=8))))


SUBS = [
    Sub("calls-all", calls, enum=enum_calls, qshards=2),
    Sub("calls", calls, s_calls, quick=3000, thorough=150000, qshards=2),
    Sub("functions-all", functions, enum=enum_functions, qshards=2),
    Sub("functions", functions, s_functions, quick=600, thorough=30000, qshards=2),
    Sub("nonblocking", nonblocking, s_nonblocking, quick=1500, thorough=60000),
    Sub("limits", limits, enum=enum_limits, qshards=4, budget=(90, 1500)),
    Sub("devices", devices, enum=enum_devices, qshards=4, budget=(90, 1500)),
    Sub("fresh", limits, enum=enum_fresh, qshards=4, budget=(90, 1500)),
]
