import base64
import json
import os
import sys

from hypothesis import strategies as st

from ref import agev1, bech32, curve
from vf import cli, gen, kit, steps, world
from vf.core import HarnessError, Sub, Violation

PID = "P33"
RULE = ("encrypt, decrypt and generate commands with a generated configuration (recipient and identity kinds, armor, input and output places, decryptable input or "
        "not) are interrupted - by a KeyboardInterrupt as after Ctrl-C, or by MemoryError - at a generated step: the n-th line of the program executed. 'all-steps' enumerates every "
        "step of eight small commands (quick: every 299th, and the last 420 at which a line is executed for the first or the last time). Afterwards: status 0 only with the whole correct output; otherwise the output is untouched, whole, or recognisably incomplete. "
        "Non-trivial: the interruption took place.")
ASSUMPTIONS = ["interruptions take place between two lines of the program's own code"]
LABEL = b"AGE ENCRYPTED FILE"
SK = [kit.bseed("p33", i) for i in range(3)]
SSH = {"t": "ed", "seed": kit.bseed("p33", "s")}
OLD = b"old content, to be kept\n" * 9
_steps = {}


def setup(home, c):
    """-> arguments, run keywords, path of the output or None, recipients"""
    world.clean(home)
    data = kit.material({"len": c["len"], "seed": 5})
    who = [[{"t": "age", "sk": SK[0]}], [{"t": "age", "sk": s} for s in SK], [SSH, {"t": "age", "sk": SK[1]}], [{"t": "rsa", "i": 1}, SSH]][c["who"]]
    args, kw, target = [c["cmd"]], {}, None
    if c["cmd"] == "encrypt":
        world.put(home, ".config/age/aliases.txt", "team: %s\n" % " ".join(world.age_public(s) for s in SK))
        stdin = data
        if c["who"] == 0:
            args += [world.age_public(SK[0])]
        elif c["who"] == 1:
            args += ["team"]
        else:
            world.put(home, "list.txt", world.recipients_file(who, 1))
            args += ["list.txt"]
        if not c["good"]:
            args += ["nobody"]
    elif c["cmd"] == "decrypt":
        stdin = kit.encrypt([kit.enc_key(w) for w in who], data)
        world.put(home, ".config/age/keys.txt", world.keys_file([SK[2], SK[1], SK[0]]))
        world.put(home, ".ssh/id_1", world.private_file(SSH))
        world.put(home, ".ssh/id_2", world.private_file({"t": "rsa", "i": 1}))
        world.put(home, ".ssh/id_3", b"damaged")
        if not c["good"]:
            stdin = stdin[:-1] + bytes([stdin[-1] ^ 1])
        if c["armor"]:
            b = base64.b64encode(stdin)
            stdin = b"-----BEGIN %s-----\n" % LABEL + b"".join(b[i:i + 64] + b"\n" for i in range(0, len(b), 64)) + b"-----END %s-----\n" % LABEL
    else:
        stdin = b""
    if c["armor"] and c["cmd"] != "generate":
        args += ["-a"]
    if c["file"] and c["cmd"] != "generate":
        world.put(home, "input.bin", stdin)
        args += ["-i", "input.bin"]
    else:
        kw["stdin"] = stdin
    if c["out"] != "stdout":
        target = os.path.join(home, "result.bin")
        if c["out"] == "old":
            world.put(home, "result.bin", OLD)
        args += ["-o", "result.bin"]
    return args, kw, target, who, data


def execute(home, c, args, kw, at, exc):
    """run the command, raising exc at the given step; -> result, steps done, whether it took place"""
    fd = os.memfd_create("steps")
    os.write(fd, b"\0" * 16)

    def patch():
        n = [0]
        first, last = {}, {}

        def where(frame):
            key = (frame.f_code.co_filename, frame.f_lineno)
            first.setdefault(key, n[0] + 1)
            last[key] = n[0] + 1

        def step():
            n[0] += 1
            if at is None:
                os.pwrite(fd, b"%-15d" % n[0], 0)
            elif n[0] == at:
                os.pwrite(fd, b"%-15d" % n[0], 0)
                raise exc("injected")
        if at is None:
            end, write = os._exit, os.pwrite

            def leave(code):  # report the steps at which a line was executed for the first and the last time
                sys.settrace(None)
                write(fd, json.dumps(sorted(set(first.values()) | set(last.values()))).encode(), 16)
                end(code)
            os._exit = leave
        sys.settrace(steps.tracer(step, where=where if at is None else None))
    try:
        r = cli.run(args, home, patch=patch, **kw)
        done = int(os.pread(fd, 15, 0).strip(b"\0 ") or b"0")
        lines = json.loads(os.pread(fd, 10**6, 16) or b"[]") if at is None else []
    finally:
        os.close(fd)
    return r, done, lines


def judge_cipher(out, who, data, armor):
    """"whole" / "part" (recognisably incomplete) or a description of what is wrong"""
    raw = out
    if armor:
        lines = out.split(b"\n")
        if lines[-2:] != [b"-----END %s-----" % LABEL, b""]:
            return "part"
        try:
            raw = base64.b64decode(b"".join(lines[1:-2]), validate=True)
        except ValueError:
            return "a closed armor section with wrong content"
        if not raw:
            return "an empty armored file"
    try:
        stanzas = agev1.parse_header(raw)[0]
    except Exception:
        return "part"
    opened = []
    for w in who:
        for s in stanzas:
            try:
                fk = kit.ref_unwrap(w, s)
            except Exception:
                continue
            try:
                opened.append(agev1.open_with_key(raw, fk))
            except Exception:
                return "part"
            break
    if not opened:
        return "part" if len(stanzas) == len(who) else "a file without the recipients"
    if any(o != data for o in opened):
        return "a valid file holding %d other bytes instead of the %d given" % (len(opened[0]), len(data))
    if len(opened) != len(who):
        return "a valid file for %d of %d recipients" % (len(opened), len(who))
    return "whole"


def run(case):
    home = os.environ["HOME"]
    c = case["c"]
    key = json.dumps(c, sort_keys=True)
    if key not in _steps:
        args, kw, target, who, data = setup(home, c)
        r, n, lines = execute(home, c, args, kw, None, None)
        if (r.rc == 0) != bool(c["good"] or c["cmd"] == "generate"):
            raise Violation("%r: %r" % (args, r))
        if n < 5:
            raise HarnessError("%r: only %d steps" % (args, n))
        _steps[key] = n, lines
    total, lines = _steps[key]
    at = 1 + case["at"] * total // 1000000 if case["from"] == "start" else max(1, total - case["at"] % 60)
    if case["from"] == "step":
        at = case["at"]
    if case["from"] == "line" and lines:
        at = lines[case["at"] % len(lines)]
    if case["from"] == "each":
        if case["at"] >= len(lines):
            return ["trivial"]
        at = lines[-1 - case["at"]]
    args, kw, target, who, data = setup(home, c)
    r, done, _ = execute(home, c, args, kw, at, {"ctrl-c": KeyboardInterrupt, "memory": MemoryError}[case["exc"]])
    what = "%r interrupted (%s) at step %d of %d" % (args, case["exc"], at, total)
    if r.rc < 0:
        raise Violation("%s: died from signal %d" % (what, -r.rc))
    out = r.out
    if target:
        if r.out:
            raise Violation("%s: wrote %d bytes to standard output" % (what, len(r.out)))
        out = open(target, "rb").read() if os.path.exists(target) else b""
    untouched = out == (OLD if c["out"] == "old" else b"")
    if c["out"] == "new" and os.path.exists(target) and not out and at < total * 0.6:
        raise Violation("%s: left an empty output file" % what)
    if c["out"] == "old" and not out and at < total * 0.6:
        raise Violation("%s: emptied the output file" % what)
    if untouched:
        verdict = "untouched"
    elif not c["good"] and c["cmd"] != "generate":
        raise Violation("%s: output of %d bytes, although the command cannot succeed" % (what, len(out)))
    elif c["cmd"] == "encrypt":
        verdict = judge_cipher(out, who, data, c["armor"])
    elif c["cmd"] == "decrypt":
        verdict = "whole" if out == data else "part" if data.startswith(out) else "%d bytes which are no part of the plaintext" % len(out)
    else:
        verdict = judge_key(out)
    if verdict not in ("untouched", "whole", "part"):
        raise Violation("%s (exit status %d): left %s" % (what, r.rc, verdict))
    whole = verdict == "whole" or (c["cmd"] == "decrypt" and out == data and (not target or os.path.exists(target)))
    if r.rc == 0 and done and not whole:
        raise Violation("%s: exit status 0 although the output is %s (%d bytes)" % (what, {"part": "incomplete"}.get(verdict, verdict), len(out)))
    if r.rc == 0 and not done and not whole and c["good"]:
        raise Violation("%s: exit status 0 and output %s" % (what, verdict))
    return [c["cmd"], "exc:" + case["exc"], verdict, "rc:%d" % r.rc] + ([] if done else ["trivial"])


def judge_key(out):
    text = out.decode("ascii", "replace")
    lines = text.split("\n")
    if len(lines) == 4 and lines[3] == "" and lines[2].startswith("AGE-SECRET-KEY-1"):
        try:
            hrp, raw = bech32.decode(lines[2].lower())
            if lines[1] == "# " + bech32.encode("age", curve.x25519_base(bytes(raw))):
                return "whole"
        except Exception:
            pass
        return "a key file with a wrong key"
    if len(lines) > 3:
        return "other text"
    return "part"


def config():
    return st.fixed_dictionaries({"cmd": st.sampled_from(["encrypt", "encrypt", "decrypt", "decrypt", "generate"]), "who": st.integers(0, 3), "len": st.sampled_from([0, 1, 100, 70000, 140000]), "armor": st.booleans(),
                                  "good": st.sampled_from([True, True, True, False]), "file": st.booleans(), "out": st.sampled_from(["stdout", "new", "old"])})


def strategy():
    return st.fixed_dictionaries({"c": config(), "at": gen.position(), "from": st.sampled_from(["start", "end", "line", "line", "line"]), "exc": st.sampled_from(["ctrl-c", "ctrl-c", "memory"])})


SMALL = [dict(cmd="encrypt", who=0, len=100, armor=False, good=True, file=False, out="stdout"), dict(cmd="encrypt", who=1, len=10, armor=True, good=True, file=True, out="old"),
         dict(cmd="decrypt", who=0, len=100, armor=False, good=True, file=False, out="stdout"), dict(cmd="decrypt", who=3, len=10, armor=True, good=True, file=True, out="old"),
         dict(cmd="generate", who=0, len=0, armor=False, good=True, file=False, out="old"), dict(cmd="encrypt", who=2, len=70000, armor=True, good=True, file=False, out="new"),
         dict(cmd="encrypt", who=0, len=140000, armor=False, good=True, file=False, out="stdout"), dict(cmd="decrypt", who=1, len=10, armor=False, good=False, file=False, out="new")]


def enum_all(tier):
    for k in range(1100 if tier != "quick" else 420):
        for c in SMALL:
            # the commands of a kind share most of their lines
            for exc in ("ctrl-c", "memory") if tier != "quick" else (["ctrl-c", "memory"][(k + sum(x["cmd"] == c["cmd"] for x in SMALL[:SMALL.index(c)])) % 2],):
                yield {"c": c, "at": k, "from": "each", "exc": exc}
    for at in range(1, 9000, 1 if tier != "quick" else 299):
        for i, c in enumerate(SMALL):
            yield {"c": c, "at": at + i, "from": "step", "exc": "ctrl-c"}


SUBS = [Sub("interruptions", run, strategy, quick=1500, thorough=40000, qshards=4),
        Sub("all-steps", run, enum=enum_all, qshards=6, tshards=8, budget=(90, 1500))]
