import base64
import os

from hypothesis import strategies as st

from ref import agev1, bech32, curve, sshkey
from vf import cli, gen, kit, ordinary, sshkeys, world
from vf.core import HarnessError, Sub, Violation

PID = "P13"
RULE = ("Commands in a process of their own that cannot succeed, for a generated cause (recipient, identity, passphrase, input, damage at a "
        "generated place) and output target; afterwards: status not 0, nothing on standard output, an existing output file unchanged, a new one "
        "not created. Every seventh case is run again without the cause and has to succeed. Non-trivial: every case.")
ASSUMPTIONS = ["'fail' runs as root, unreadable input there is a directory or a file whose reads fail with EIO; 'ordinary-user' enumerates what permissions close with an unprivileged user (skipped where the check may not become one)",
               "an authentication code whose text differs but decodes to the same value counts as unchanged"]

MARK = b"-----"


def low_order(i):
    pts = [b"\0" * 32, b"\x01" + b"\0" * 31, bytes.fromhex("ecffffffffffffffffffffffffffffffffffffffffffffffffffffffffffff7f"),
           bytes.fromhex("e0eb7a7c3b41b8ae1656e3faf19fc46ada098deb9c32b1fd866205165f49b800")]
    return bech32.encode("age", pts[i % len(pts)])


def bad_recipient(case, home):
    """-> arguments (one of them bad)"""
    n, kind = case["n"], case["what"]
    good = world.age_public(kit.bseed("p13", n % 5))
    i = n % len(good)
    if case.get("listed"):  # a line of a list which does not start like a key is none
        i = 3 + n % (len(good) - 3)
    if kind == "unknown":
        return ["bob" + str(n % 3), "unknown alias", "pubkey:" + good, "missing.txt", "ssh-dss AAAA", "", "# c", "ecdsa-sha2-nistp256 AAAA"][n % 8]
    if kind == "mistyped":
        c = "q" if good[i] != "q" else "p"
        bad = good[:i] + c + good[i + 1:]
        return [bad, good[:i] + good[i + 1:], good + good[i], good[:i] + good[i:].upper() + "Q", bech32.encode("age", kit.bseed(n)[:31]),
                bech32.encode("age", kit.bseed(n) + b"x"), bech32.encode("age1", kit.bseed(n))][n % 7]
    if kind == "secret":
        return world.age_secret(kit.bseed(n))[::1].lower() if n % 2 else world.age_secret(kit.bseed(n))
    if kind == "ssh":
        k = sshkeys.expand({"t": "ed", "seed": kit.bseed(n)} if n % 2 else {"t": "rsa", "i": n % 3})
        line = sshkey.pub_line(k).decode()
        t, b = line.split(" ")[:2]
        j = 20 + n % (len(b) // 2)
        return [t, t + " " + b[:j], t + " " + b[:j] + "!" * 4 + b[j + 4:], t + " " + b[:-8], t + " %%%"][n % 5]
    if kind == "file":
        lines = [good, bad_recipient(dict(case, what="mistyped", n=n // 7, listed=True), home), world.age_public(kit.bseed(1))]
        k = n % 3
        return world.put(home, "list.txt", "\n".join(lines[k:] + lines[:k]) + "\n")
    if kind == "empty-file":
        return world.put(home, "list.txt", ["", "# only a comment\n", "\n\n"][n % 3])
    if kind == "binary-file":
        return world.put(home, "list.bin", b"\xff\xfe\x80" + kit.bseed(n))
    if kind == "directory":
        os.makedirs(os.path.join(home, "dir"), exist_ok=True)
        return "dir"
    if kind == "alias":
        vals = [good, ["bob", "missing.txt", good[:-1], "other", "ssh-rsa"][n % 5], world.age_public(kit.bseed(2))]
        k = n // 5 % 3
        world.put(home, ".config/age/aliases.txt", "x: %s\nother: %s\n" % (" ".join(vals[k:] + vals[:k]), good))
        return "x"
    if kind == "url":
        return "http://127.0.0.1:1/keys"
    if kind == "low-order":
        return low_order(n)
    raise HarnessError(kind)


RECIPIENT = ["unknown", "mistyped", "secret", "ssh", "file", "empty-file", "binary-file", "directory", "alias", "url", "low-order"]
ENCRYPT = ["recipient"] * 4 + ["none", "input", "prompt", "tty", "option", "outdir", "terminal"]
DECRYPT = ["damage"] * 5 + ["armor"] * 3 + ["nokey", "nomatch", "nomatch", "passphrase", "passphrase", "keyfile", "input", "prompt", "option", "outdir", "garbage", "terminal"]


def bad_input(case, home):
    n = case["n"] % 4
    if n == 0:
        return "missing.bin"
    if n == 1:
        os.makedirs(os.path.join(home, "adir"), exist_ok=True)
        return "adir"
    return "/proc/self/mem"


def damage(blob, n, m):
    """an altered file that must not decrypt"""
    mac_at = blob.index(b"\n--- ") + 1
    body_at = blob.index(b"\n", mac_at) + 1
    how = m % 6
    if how <= 1:  # one bit anywhere outside the authentication code
        i = n % len(blob)
        if mac_at <= i < body_at:
            i = body_at + n % (len(blob) - body_at)
        return blob[:i] + bytes([blob[i] ^ 1 << m // 6 % 8]) + blob[i + 1:]
    if how == 2:
        return blob[:n % len(blob)]
    if how == 3:
        return blob + [b"\0", b"\n", blob[-16:], blob][m // 6 % 4]
    if how == 4:  # the authentication code itself
        line = blob[mac_at:body_at]
        raw = bytearray(base64.b64decode(line[4:-1] + b"="))
        raw[n % 32] ^= 1 << m // 6 % 8
        return blob[:mac_at] + b"--- " + base64.b64encode(raw).rstrip(b"=") + b"\n" + blob[body_at:]
    i = body_at + n % (len(blob) - body_at)
    return blob[:i] + blob[i + 1:]


def armored(blob, label="AGE ENCRYPTED FILE"):
    b = base64.b64encode(blob)
    return b"-----BEGIN %s-----\n" % label.encode() + b"\n".join(b[i:i + 64] for i in range(0, len(b), 64)) + b"\n-----END %s-----\n" % label.encode()


def bad_armor(blob, n, m):
    good = armored(blob)
    lines = good.split(b"\n")[:-1]
    k = 1 + n % (len(lines) - 2)
    how = m % 8
    if how == 0:
        return blob
    if how == 1:
        return good[:n % (len(good) - 2)]
    if how == 2:
        return good + good
    if how == 3:
        return armored(blob, ["PGP MESSAGE", "AGE ENCRYPTED FIL", "age encrypted file"][n % 3])
    if how == 4:
        c = n % len(lines[k])
        return b"\n".join(lines[:k] + [lines[k][:c] + b"*" + lines[k][c + 1:]] + lines[k + 1:]) + b"\n"
    if how == 5 and len(lines) > 3:
        return b"\n".join(lines[:k] + lines[k + 1:]) + b"\n"
    if how == 6:
        return b"\n".join(lines[:-1] + [b"-----END OTHER-----"]) + b"\n"
    return armored(damage(blob, n, m))


def run(case):
    home = os.environ["HOME"]
    cmd, cause, n, m = case["cmd"], case["cause"], case["n"], case["m"]
    results = []
    for faulty in ((True, False) if n % 7 == 3 else (True,)):
        world.clean(home)
        data = b"PLAINTEXT" + kit.material(case["pt"])
        args, kw, pos = [cmd], {}, []
        out = case["out"]
        armor = case["armor"]
        if cmd == "encrypt":
            good = [world.age_public(kit.bseed(9)), world.public_string({"t": "ed", "seed": kit.bseed(8)}), world.put(home, "g.txt", world.age_public(kit.bseed(7)) + "\n")]
            pos = good[:case["good"]]
            stdin, src = data, None
            if cause == "recipient":
                bad = bad_recipient(case, home)
                if faulty:
                    pos.insert(m % (len(pos) + 1), bad)
                elif not pos:
                    pos = good[:1]
            elif cause == "none":
                pos = [] if faulty else good[:1]
            else:
                pos = pos or good[:1]
            if cause == "input" and faulty:
                src = bad_input(case, home)
            if cause in ("prompt", "terminal") or (case["pw"] and cause in ("recipient", "input")):
                args += ["-p"]
                kw["passphrases"] = ["secret"] if not (cause == "prompt" and faulty) else ["\x04", "\x03"][n % 2:][:1]
            if cause == "tty":
                if faulty:
                    out, kw["stdout"] = "stdout", "tty"
        else:
            mine = {"t": "age", "sk": kit.bseed("mine", n % 3)}
            ssh = {"t": "ed", "seed": kit.bseed("mine", 3)} if n % 2 else {"t": "rsa", "i": 3}
            who = [mine, ssh][m % 2]
            if cause == "passphrase" or (cause in ("damage", "prompt", "terminal") and case["pw"]):
                who = {"t": "pw", "pw": b"the right one"}
                if case["good"] == 2 and cause == "passphrase":
                    world.put(home, ".config/age/keys.txt", world.age_secret(kit.bseed("other")) + "\n")
            with kit.fake_scrypt():
                blob = kit.encrypt([kit.enc_key(who)] + [kit.enc_key(world.FOREIGN)] * (case["good"] % 2 if who["t"] != "pw" else 0), data)
            src = None
            if who["t"] == "pw":
                typed = "the right one"
                if cause == "passphrase" and faulty:
                    typed = ["the right on", "The right one", "the right one ", "the  right one", "x", "the right one\\0"][n % 6]
                if cause == "prompt" and faulty:
                    typed = ["\x04", "\x03"][n % 2]
                args += ["-p"]
                kw["passphrases"] = [typed]
            elif cause in ("prompt", "terminal"):
                args += ["-p"]
                kw["passphrases"] = [["\x04", "\x03"][n % 2] if faulty and cause == "prompt" else "some pass"]
            give = not (faulty and cause in ("nokey", "nomatch"))
            if give:
                if who["t"] == "age":
                    if case["good"] == 1:
                        pos.append(world.put(home, "kf.txt", world.keys_file([who["sk"]])))
                    else:
                        world.put(home, ".config/age/keys.txt", world.keys_file([who["sk"]]))
                elif who["t"] != "pw":
                    world.put(home, ".ssh/id_k", world.private_file(who, n))
            if cause == "nomatch" and faulty:
                world.put(home, ".config/age/keys.txt", world.keys_file([kit.bseed("no", i) for i in range(1 + n % 3)]))
                world.put(home, ".ssh/id_rsa", world.private_file({"t": "rsa", "i": 5}, n))
            if cause == "nokey" and faulty:
                k = n % 5
                if k == 1:
                    pos.append("missing-key.txt")
                elif k == 2:
                    world.put(home, ".config/age/keys.txt", "# nothing\n\n")
                elif k == 3:
                    world.put(home, ".ssh/id_rsa.pub", world.public_string({"t": "rsa", "i": 3}) + "\n")
                    world.put(home, ".ssh/id_broken", b"broken")
                elif k == 4:
                    pos.append(world.put(home, "empty.txt", ""))
            if cause == "keyfile" and faulty:
                s = world.age_secret(kit.bseed(n))
                i = n % len(s)
                bad = [s[:i] + ("Q" if s[i] != "Q" else "P") + s[i + 1:], s[:i] + s[i + 1:], world.age_public(kit.bseed(n)), "garbage", s[:-6].lower() + s[-6:],
                       bech32.encode("age-secret-key-", b"x" * 31).upper()][m % 6]
                content = [bad + "\n", world.age_secret(kit.bseed(3)) + "\n" + bad + "\n", bad + "\n" + world.age_secret(kit.bseed(3))][n % 3]
                if m % 7 == 1:
                    content = b"\xff\xfe\x00" + kit.bseed(n)
                if n % 2 or who["t"] == "age" and case["good"] != 1:
                    pos.append(world.put(home, "bad.txt", content))
                else:
                    world.put(home, ".config/age/keys.txt", content)
            if faulty and cause == "damage":
                blob = damage(blob, n, m)
            if faulty and cause == "garbage":
                blob = [b"", b"\n", kit.bseed(n) * (n % 9), b"age-encryption.org/v1\n", b"age-encryption.org/v2" + blob[21:], b"age-encryption.org/v1\n" + blob[blob.index(b"\n--- ") + 1:],
                        data, b"\xef\xbb\xbf" + blob, b"\n" + blob, blob.replace(b"\n", b"\r\n", 2)][n % 10]
            stdin = armored(blob) if armor else blob
            if faulty and cause == "armor":
                stdin = bad_armor(blob, n, m) if armor else armored(blob)
            if cause == "input" and faulty:
                src = bad_input(case, home)
        if armor:
            args += ["-a"]
        if cause == "terminal" and faulty:
            # nobody can be asked: standard input holds the data (and no terminal belongs to the process)
            kw.pop("passphrases", None)
            stdin = [b"", b"the right one\n", b"some pass\n"][m % 3] * (cmd == "encrypt") + stdin
            if m % 5 == 1:
                args += ["-i", "-"]
            elif m % 5 == 2:
                src = "/dev/stdin"
        elif src is None and case["file_in"]:
            src = world.put(home, "input.bin", stdin)
        if src is not None:
            args += ["-i", src]
            if src != "/dev/stdin":
                stdin = b""
        target, before = None, None
        if out == "new":
            target = os.path.join(home, "result.bin")
        elif out in ("old", "link"):
            before = b"precious content\n" * 20
            target = world.put(home, "result.bin", before)
            if out == "link":
                os.symlink(target, os.path.join(home, "ln"))
        if cause == "outdir" and faulty:
            target = os.path.join(home, "no-such-dir", "result.bin")
            out = "new"
            before = None
        if out == "dash":
            args += ["-o", "-"]
        elif target:
            args += ["-o", os.path.join(home, "ln") if out == "link" else target]
        if faulty and cause == "option":
            args += [["-x"], ["--armor"], ["-i", "nope.bin"], ["--no-such-option"], ["-z"]][n % 5]
        r = world.run(args + pos, home, stdin=stdin, **kw)
        if not faulty:
            if r.rc != 0:
                raise HarnessError("case without its cause fails too: %r %r" % (args + pos, r))
            continue
        text = "%s that cannot succeed (%s)" % (cmd, cause + ("/" + case["what"] if cause == "recipient" else ""))
        if r.rc == 0:
            raise Violation("%s: exit status 0: %r %r" % (text, args + pos, r))
        if r.rc < 0:
            raise Violation("%s: died from signal %d: %r" % (text, -r.rc, r))
        if r.out:
            raise Violation("%s: wrote to standard output: %r" % (text, r.out[:100]))
        if kw.get("stdout") == "tty" and ("age" in r.tty or r.tty.strip()):
            raise Violation("%s: wrote to the terminal: %r" % (text, r.tty[:100]))
        if target:
            if before is None:
                if os.path.lexists(target):
                    raise Violation("%s: created the output file with %d bytes" % (text, os.path.getsize(target)))
            else:
                after = open(target, "rb").read()
                if after != before:
                    raise Violation("%s: existing output file changed, now %d bytes: %r" % (text, len(after), after[:60]))
        if not r.err.strip():
            raise Violation("%s: no message on standard error" % text)
    return [cmd + ":" + cause + (":" + case["what"] if cause == "recipient" else ""), "out:" + out, "armor" if armor else "binary"]


def strategy():
    base = {"what": st.sampled_from(RECIPIENT), "n": gen.position(), "m": gen.position(), "good": st.integers(0, 2), "pw": st.booleans(),
            "armor": st.booleans(), "file_in": st.booleans(), "pt": gen.small_plaintext(80000),
            "out": st.sampled_from(["stdout", "stdout", "dash", "new", "new", "old", "old", "link"])}
    return st.one_of(st.fixed_dictionaries(dict(base, cmd=st.just("encrypt"), cause=st.sampled_from(ENCRYPT))),
                     st.fixed_dictionaries(dict(base, cmd=st.just("decrypt"), cause=st.sampled_from(DECRYPT))))


SUBS = [Sub("ordinary-user", lambda c: ordinary.run(c, False), enum=lambda tier: ordinary.cases(ordinary.FAILS, tier)),
        Sub("fail", run, strategy, quick=1600, thorough=60000, qshards=8, budget=(60, 1500))]
