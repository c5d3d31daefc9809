"""A home directory for command line cases: recipients, alias file, identities (plain data in, files out)."""
import os
import shutil

from hypothesis import strategies as st

from ref import bech32, curve, sshkey
from vf import cli, gen, kit, sshkeys

FOREIGN = {"t": "age", "sk": kit.bseed("nobody")}


def clean(home):
    for name in os.listdir(home):
        p = os.path.join(home, name)
        if os.path.isdir(p) and not os.path.islink(p):
            shutil.rmtree(p)
        else:
            os.remove(p)


def put(home, name, data, mode=None):
    path = os.path.join(home, name)
    os.makedirs(os.path.dirname(path), exist_ok=True)
    with open(path, "wb") as f:
        f.write(data if isinstance(data, bytes) else data.encode("utf-8"))
    if mode is not None:
        os.chmod(path, mode)
    return path


def age_public(sk):
    return bech32.encode("age", curve.x25519_base(sk))


def age_secret(sk):
    return bech32.encode("age-secret-key-", sk).upper()


def public_string(spec, comment=""):
    if spec["t"] == "age":
        return age_public(spec["sk"])
    return sshkey.pub_line(sshkeys.expand(spec)).decode().strip() + (" " + comment if comment else "")


def keys_file(sks, style=0):
    """text of a secret key file"""
    lines = []
    for i, sk in enumerate(sks):
        s = age_secret(sk)
        if style % 3 == 0:
            lines += ["# created: 2020-01-0%dT00:00:00" % (i % 9 + 1), "# " + age_public(sk), s]
        elif style % 3 == 1:
            lines += ["", "  " + s + "\t", "   # another"]
        else:
            lines += [s]
    nl = "\r\n" if style % 5 == 4 else "\n"
    return nl.join(lines) + ("" if style % 2 else nl)


def private_file(spec, style=0):
    k = sshkeys.expand(spec)
    if style % 3 == 1:
        return sshkey.write_pem(k, "pkcs1" if spec["t"] == "rsa" else "pkcs8")
    if style % 3 == 2:
        return sshkey.write_pem(k, "pkcs8")
    return sshkey.write(k, [b"user@host", b"", b"c" * 5000, b"j\xf6@host"][style // 3 % 4])


def recipients_file(specs, style=0):
    lines = []
    for i, s in enumerate(specs):
        p = public_string(s, ["", "user@host", "a comment with spaces"][(style + i) % 3])
        if (style + i) % 4 == 1:
            lines += ["# comment", p]
        elif (style + i) % 4 == 2:
            lines += ["", "\t " + p + "  ", ""]
        else:
            lines += [p]
    nl = "\r\n" if style % 7 == 3 else "\n"
    return nl.join(lines) + ("" if style % 2 else nl)


def fast_kdf():
    """run in the command's process: scrypt replaced by a fast stand-in"""
    cm = kit.fake_scrypt()
    cm.__enter__()
    fast_kdf.keep = cm  # a collected generator would undo it


def passphrase_text():
    # typed on a terminal: no control characters, no line editing characters
    return st.one_of(st.sampled_from(["a", "pw", "correct horse battery staple", "p\u00e4\u00df", " lead", "trail ", "\U0001f511", "x" * 300, "'\"$`\\",
                                      "PassWord", "e\u0301 A\u030a", "\ufb01\u212b\u1e9b\u0323", "\ufeffx\u200b", "\u0130\u017f", "\u00e9" * 150, "01234567" * 160,
                                      "a  b", "-p", "~", "%s{0}\\n", "\u00a0nb\u3000"]),
                     st.text(alphabet=st.characters(min_codepoint=33, max_codepoint=0x2fff, exclude_categories=("Cc", "Cs", "Cn", "Zl", "Zp", "Zs")),
                             min_size=1, max_size=20))


def option(names, value, how):
    """spellings of an option with a value"""
    short, long_ = names
    return [[short, value], [short + value], [long_, value], [long_ + "=" + value]][how % 4]


def run(args, home, real=False, **kw):
    if real:
        return cli.run(args, home, mode="exec", **kw)
    return cli.run(args, home, patch=fast_kdf if kw.pop("kdf", True) else None, **kw)


def pub_ident(slow=False):
    """identity kinds with a public key"""
    return st.one_of(gen.age_ident(), gen.age_ident(True), gen.ed_ident(), gen.ed_ident(True), gen.rsa_ident(False, slow), gen.rsa_ident(True))
