"""Commands of an ordinary user: files and directories that permissions close (the checks themselves run as root, to whom nothing is closed)."""
import base64
import os

from ref import agev1
from vf import cli, kit, world
from vf.core import Violation

ME = {"t": "age", "sk": kit.bseed("ordinary")}
SSH = {"t": "ed", "seed": kit.bseed("ordinary ssh")}
DATA = b"something " * 50
OLD = b"precious content\n" * 20

# name -> commands it applies to
WORKS = {
    "plain": "ed", "output-in-read-only-dir": "ed", "read-only-input": "ed", "input-in-unlistable-dir": "ed", "unlistable-cwd": "ed", "read-only-home": "ed",
    "config-closed": "e", "ssh-closed": "ed", "ssh-unlistable": "ed", "ssh-unsearchable": "ed", "ssh-key-unreadable": "d", "ssh-key-dir-closed": "d", "umask-all": "ed",
    "link-to-closed": "d", "foreign-owner": "ed", "key-list-read-only": "ed", "generate": "g", "generate-over": "g"}
FAILS = {
    "input-unreadable": "ed", "input-dir-closed": "ed", "list-unreadable": "e", "keyfile-unreadable": "d", "default-keys-unreadable": "d", "only-ssh-unreadable": "d",
    "ssh-closed-only": "d", "config-closed-only": "d", "output-read-only": "edg", "output-unreadable-dir": "edg", "output-dir-read-only": "edg", "second-list-unreadable": "e",
    "alias-list-unreadable": "e"}


def armored(blob):
    b = base64.b64encode(blob)
    return b"-----BEGIN AGE ENCRYPTED FILE-----\n" + b"\n".join(b[i:i + 64] for i in range(0, len(b), 64)) + b"\n-----END AGE ENCRYPTED FILE-----\n"


def cases(table, tier, only="edg", prefix=""):
    k = 0
    for name, cmds in table.items():
        for cmd in cmds if name.startswith(prefix) else "":
            if cmd not in only:
                continue
            for i in range(4 if tier == "quick" else 24):
                k += 1
                yield {"what": name, "cmd": {"e": "encrypt", "d": "decrypt", "g": "generate"}[cmd], "armor": i & 1 == 1, "n": i, "real": k % 6 == 0}


def run(case, good):
    if not cli.can_drop():
        return ["trivial", "no-unprivileged-user"]
    base = os.environ["HOME"]
    world.clean(base)
    home = os.path.join(base, "home")
    os.mkdir(home)
    what, cmd, n = case["what"], case["cmd"], case["n"]
    closed = []  # (path, mode), set after everything is in place
    kw = {"cwd": home, "umask": 0o022}
    pub, args, pos, stdin = world.age_public(ME["sk"]), [cmd], [], b""
    if cmd != "generate":
        args += ["-a"] * case["armor"]
    blob = None
    if cmd == "encrypt":
        src = DATA
        pos = [pub] if n % 2 else [world.put(home, "list.txt", "# mine\n%s\n" % pub)]
    elif cmd == "decrypt":
        blob = kit.encrypt([kit.enc_key(ME if what not in ("ssh-key-unreadable", "ssh-key-dir-closed", "only-ssh-unreadable", "ssh-closed-only", "link-to-closed") else SSH)], DATA)
        src = armored(blob) if case["armor"] else blob
        if what.startswith("keyfile") or n % 2 and what not in ("default-keys-unreadable", "config-closed-only"):
            pos = [world.put(home, "key.txt", world.age_secret(ME["sk"]) + "\n")]
        else:
            world.put(home, ".config/age/keys.txt", world.age_secret(ME["sk"]) + "\n")
    ssh = os.path.join(home, ".ssh")
    target = None
    if cmd == "generate":
        target = os.path.join(home, "out/key.txt")
        os.mkdir(os.path.join(home, "out"))
    elif n % 3 == 0 or what.startswith("output") or what == "umask-all":
        target = os.path.join(home, "out/result")
        os.mkdir(os.path.join(home, "out"))
    infile = None
    if n % 4 >= 2 or what in ("read-only-input", "input-in-unlistable-dir", "input-unreadable", "input-dir-closed"):
        infile = cmd != "generate" and world.put(home, "in/data", src)
    before = None

    def old():
        nonlocal before
        before = OLD
        world.put(home, os.path.relpath(target, home), OLD)

    def keys(mode):
        world.put(home, ".ssh/id_ed25519", world.private_file(SSH, n))
        closed.append((os.path.join(ssh, "id_ed25519"), mode))

    if what == "output-in-read-only-dir":
        old()
        closed.append((os.path.dirname(target), 0o555))
    elif what == "read-only-input":
        closed += [(infile, 0o444), (os.path.dirname(infile), 0o555)]
    elif what == "input-in-unlistable-dir":
        closed.append((os.path.dirname(infile), 0o111))
    elif what == "unlistable-cwd":
        kw["cwd"] = os.path.join(home, "cwd")
        os.mkdir(kw["cwd"])
        closed.append((kw["cwd"], 0o111))
        pos = [os.path.join(home, p) if p == "list.txt" else p for p in pos]
    elif what == "read-only-home":
        closed.append((home, 0o555))
    elif what == "config-closed":
        world.put(home, ".config/age/aliases.txt", "x: %s\n" % pub)
        closed.append((os.path.join(home, ".config"), 0))
    elif what in ("ssh-closed", "ssh-unlistable", "ssh-unsearchable"):
        keys(0o600)
        closed.append((ssh, {"ssh-closed": 0, "ssh-unlistable": 0o111, "ssh-unsearchable": 0o444}[what]))
    elif what == "ssh-key-unreadable":
        for i, name in enumerate(("id_a", "id_rsa", "id_z")):
            world.put(home, ".ssh/" + name, world.private_file({"t": "rsa", "i": i}, n + i))
            closed.append((os.path.join(ssh, name), [0, 0o200, 0o100][(n + i) % 3]))
        keys(0o400)
    elif what == "ssh-key-dir-closed":
        world.put(home, ".ssh/id_dir/id_x", b"x")
        closed.append((os.path.join(ssh, "id_dir"), 0))
        keys(0o400)
    elif what == "link-to-closed":
        world.put(home, "closed/key", world.private_file({"t": "rsa", "i": 0}, n))
        keys(0o400)
        os.symlink(os.path.join(home, "closed/key"), os.path.join(ssh, "id_linked"))
        closed.append((os.path.join(home, "closed"), 0))
    elif what == "umask-all":
        old()
        kw["umask"] = 0o777
    elif what == "foreign-owner":
        pass
    elif what == "key-list-read-only":
        closed += [(p, 0o444) for p in pos if os.path.isfile(p)]
    elif what in ("generate-over", "output-read-only"):
        old()
        closed.append((target, 0o600 if what == "generate-over" else [0o444, 0, 0o555, 0o400][n % 4]))
    elif what == "input-unreadable":
        closed.append((infile, [0, 0o200, 0o111][n % 3]))
    elif what == "input-dir-closed":
        closed.append((os.path.dirname(infile), [0, 0o444][n % 2]))
    elif what in ("list-unreadable", "second-list-unreadable"):
        bad = world.put(home, "closed.txt", world.age_public(kit.bseed("other")) + "\n")
        closed.append((bad, [0, 0o200][n % 2]))
        pos = [bad] if what == "list-unreadable" else [[pub, bad], [bad, pub]][n % 2]
    elif what == "alias-list-unreadable":
        bad = world.put(home, "closed.txt", world.age_public(kit.bseed("other")) + "\n")
        closed.append((bad, 0))
        world.put(home, ".config/age/aliases.txt", "team: %s\n" % " ".join([pub, "closed.txt"][::1 - n % 2 * 2]))
        pos = ["team"]
    elif what == "keyfile-unreadable":
        closed.append((pos[0], [0, 0o200, 0o111][n % 3]))
    elif what == "default-keys-unreadable":
        closed.append((os.path.join(home, ".config/age/keys.txt"), 0))
    elif what == "only-ssh-unreadable":
        keys(0)
    elif what == "ssh-closed-only":
        keys(0o600)
        closed.append((ssh, [0, 0o444][n % 2]))
    elif what == "config-closed-only":
        closed.append((os.path.join(home, ".config"), 0))
    elif what in ("output-unreadable-dir", "output-dir-read-only"):
        closed.append((os.path.dirname(target), 0o555 if what == "output-dir-read-only" else [0, 0o444][n % 2]))
        if n % 4 == 3:
            old()
            closed.append((target, 0o444))
    cli.give_home(home)
    if what == "foreign-owner":
        for d, _, fs in os.walk(home):
            for f in fs:
                os.chown(os.path.join(d, f), 0, 0)
                os.chmod(os.path.join(d, f), 0o644)
    for path, mode in closed:
        os.chmod(path, mode)
    if target:
        args += ["-o", target]
    if infile:
        args += ["-i", infile]
    elif cmd != "generate":
        stdin = src
    r = world.run(args + pos, home, real=case["real"], stdin=stdin, drop=True, **kw)
    text = "%s as an ordinary user, %s, %r" % (cmd, what, args + pos)
    there = open(target, "rb").read() if target and os.path.lexists(target) else None
    if good:
        if r.rc:
            raise Violation("%s: failed: %r" % (text, r))
        got = there if target else r.out
        if cmd == "decrypt":
            if got != DATA:
                raise Violation("%s: wrong output of %d bytes" % (text, len(got or b"")))
        elif cmd == "encrypt":
            raw = base64.b64decode(b"".join(got.split(b"\n")[1:-2])) if case["armor"] else got
            stanzas = agev1.parse_header(raw)[0]
            if len(stanzas) != 1 or agev1.open_with_key(raw, kit.ref_unwrap(ME, stanzas[0])) != DATA:
                raise Violation("%s: other content" % text)
        elif b"AGE-SECRET-KEY-1" not in got:
            raise Violation("%s: no key in the file" % text)
    else:
        if r.rc <= 0:
            raise Violation("%s: exit status %r: %r" % (text, r.rc, r))
        if r.out:
            raise Violation("%s: wrote to standard output: %r" % (text, r.out[:100]))
        if there != before:
            raise Violation("%s: output file %s" % (text, "created" if before is None else "changed"))
        if not r.err.strip():
            raise Violation("%s: no message" % text)
    return [cmd + ":" + what]
