import datetime
import os
import re

from hypothesis import strategies as st

from age.keyloader import load_keys_txt
from age.keys.agekey import AgePrivateKey
from ref import bech32, curve
from vf import cli, gen, kit, ordinary
from vf.core import Sub, Violation

PID = "P26"
RULE = ("The generate command in a process of its own: 'modes' runs it on an existing file of each of the 512 permission modes "
        "(and through standard output redirected to such a file, and through symbolic links); 'files' generates under random "
        "umasks to new, existing and longer files, pipes and terminals, concatenates outputs with comments and loads, decrypts "
        "with them. Non-trivial: every case.")
ASSUMPTIONS = ["runs as root, so that every mode can be written to"]

LINE1 = re.compile(r"# created: (\d{4}-\d\d-\d\dT\d\d:\d\d:\d\d)$")


def parse(text, what):
    """-> secret bytes; raises unless text is exactly one generated key file"""
    lines = text.split("\n")
    if len(lines) != 4 or lines[3] != "":
        raise Violation("%s: %d lines instead of 3: %r" % (what, len(lines) - 1, [l[:20] for l in lines]))
    m = LINE1.match(lines[0])
    if not m:
        raise Violation("%s: first line %r" % (what, lines[0]))
    t = datetime.datetime.fromisoformat(m.group(1))
    if abs((datetime.datetime.now() - t).total_seconds()) > 3700:
        raise Violation("%s: creation time %s is wrong" % (what, t))
    try:
        hrp, sk = bech32.decode(lines[2])
    except ValueError as e:
        raise Violation("%s: secret key line is no Bech32 string: %s" % (what, e))
    if hrp != "age-secret-key-" or len(sk) != 32 or lines[2] != lines[2].upper():
        raise Violation("%s: secret key line %r" % (what, lines[2][:20]))
    pub = bech32.encode("age", curve.x25519_base(sk))
    if lines[1] != "# " + pub:
        raise Violation("%s: public key comment %r does not belong to the secret key (%s)" % (what, lines[1], pub))
    return sk, pub, lines[2]


def check_err(r, secret, pub, warn, show_pub, what):
    for text in (r.err, r.tty if show_pub else ""):
        if secret.lower() in text.lower():
            raise Violation("%s: secret key on standard error" % what)
    warned = "permission" in r.err.lower()
    if warned != warn:
        raise Violation("%s: permission warning %s: %r" % (what, "missing" if warn else "without reason", r.err.replace(pub, "PUB")))
    if show_pub and pub not in r.err:
        raise Violation("%s: public key not shown on standard error: %r" % (what, r.err))


def loads(path, sks, what):
    got = load_keys_txt(path)
    if [bytes(k.private_bytes()) for k in got] != list(sks):
        raise Violation("%s: %d keys loaded instead of %d, or others" % (what, len(got), len(sks)))
    return got


def mode(case):
    m, via = case["mode"], case["via"]
    home = os.environ["HOME"]
    path = os.path.join(home, "key.txt")
    if os.path.lexists(path):
        os.remove(path)
    with open(path, "w") as f:
        f.write(case["old"])
    os.chmod(path, m)
    what = "mode %03o via %s" % (m, via)
    if via == "stdout":
        r = cli.run(["generate"], home, stdout=path)
    elif via == "link":
        link = os.path.join(home, "link.txt")
        if os.path.lexists(link):
            os.remove(link)
        os.symlink(path, link)
        r = cli.run(["generate", "-o", link], home)
    else:
        r = cli.run(["generate", "-o" if via == "o" else "--outfile", path], home)
    if r.rc != 0:
        raise Violation("%s: exit status %d: %s" % (what, r.rc, r.err[-300:]))
    if r.out:
        raise Violation("%s: standard output not empty" % what)
    if os.stat(path).st_mode & 0o7777 != m:
        raise Violation("%s: mode changed to %03o" % (what, os.stat(path).st_mode & 0o7777))
    sk, pub, line = parse(open(path).read(), what)
    check_err(r, line, pub, bool(m & 0o077), True, what)
    loads(path, [sk], what)
    return ["warn" if m & 0o077 else "quiet", via]


def enum_modes(tier):
    vias = ["o", "outfile", "stdout", "link"]
    for m in range(512):
        for i, via in enumerate(vias):
            if tier == "thorough" or (m + m // 8 + m // 64) % 4 == i:
                yield {"mode": m, "via": via, "old": ["", "old content\n" * 40][(m + i) % 2]}


def files(case):
    home = os.environ["HOME"]
    text, sks = "", []
    for j, g in enumerate(case["gens"]):
        what = "%s umask %03o" % (g["to"], g["umask"])
        path = os.path.join(home, "new.txt")
        if os.path.exists(path):
            os.remove(path)
        um = g["umask"]
        if g["to"] == "new":
            r = cli.run(["generate", "-o", path], home, umask=um)
            body = open(path).read() if r.rc == 0 else ""
            warn = bool(0o666 & ~um & 0o077)
        elif g["to"] == "pipe":
            r = cli.run(["generate"], home, umask=um)
            body, warn = r.out.decode(), False
        elif g["to"] == "dash":
            r = cli.run(["generate", "-o", "-"], home, umask=um)
            body, warn = r.out.decode(), False
        else:
            r = cli.run(["generate"], home, stdout="tty", umask=um)
            body, warn = r.tty.replace("\r\n", "\n"), False
        if r.rc != 0:
            raise Violation("%s: exit status %d: %s" % (what, r.rc, r.err[-300:]))
        sk, pub, line = parse(body, what)
        check_err(r, line, pub, warn, g["to"] != "tty", what)
        if g["to"] == "new" and r.out:
            raise Violation("%s: output both to the file and to standard output" % what)
        if sk in sks:
            raise Violation("the same key was generated twice")
        sks.append(sk)
        text += case["between"][j % len(case["between"])] + body
    conf = os.path.join(home, ".config", "age")
    os.makedirs(conf, exist_ok=True)
    path = os.path.join(conf, "keys.txt")
    with open(path, "w") as f:
        f.write(text)
    loads(path, sks, "concatenation")
    loads("~/.config/age/keys.txt", sks, "concatenation")
    got = load_keys_txt()
    if [bytes(k.private_bytes()) for k in got] != sks:
        raise Violation("default key file not loaded")
    for sk in sks:
        blob = kit.encrypt([AgePrivateKey.from_private_bytes(sk).public_key()], b"to " + sk[:4])
        kit.must_decrypt(got, blob, b"to " + sk[:4], "generated key")
    return ["keys:%d" % len(sks)]


def strat_files():
    g = st.fixed_dictionaries({"to": st.sampled_from(["new", "new", "pipe", "dash", "tty"]),
                               "umask": st.one_of(st.sampled_from([0o022, 0o077, 0, 0o027, 0o177, 0o066]), st.integers(0, 0o177))})
    return st.fixed_dictionaries({"gens": st.lists(g, min_size=1, max_size=5),
                                  "between": st.lists(st.sampled_from(["", "\n", "# comment\n", "   \n\n", "  # AGE-SECRET-KEY-1 comment\n"]), min_size=1, max_size=3)})


def exec_mode(case):
    """in a fresh interpreter"""
    home = os.environ["HOME"]
    path = os.path.join(home, "key-%03o" % case["umask"])
    r = cli.run(["generate", "-o", path], home, umask=case["umask"], mode="exec")
    if r.rc != 0:
        raise Violation("exit status %d: %s" % (r.rc, r.err[-300:]))
    sk, pub, line = parse(open(path).read(), "generate")
    check_err(r, line, pub, bool(0o666 & ~case["umask"] & 0o077), True, "umask %03o" % case["umask"])
    loads(path, [sk], "generate")
    os.remove(path)
    return []


SUBS = [
    Sub("ordinary-user", lambda c: ordinary.run(c, True), enum=lambda tier: ordinary.cases(ordinary.WORKS, tier, "g")),
    Sub("modes", mode, enum=enum_modes, qshards=4),
    Sub("files", files, strat_files, quick=120, thorough=4000, qshards=3),
    Sub("fresh-interpreter", exec_mode, enum=lambda tier: ({"umask": u} for u in ((0o022, 0o077) if tier == "quick" else range(0, 0o200))), qshards=1),
]
