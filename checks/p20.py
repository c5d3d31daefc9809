import os
import struct

from hypothesis import strategies as st

from age.keyloader import load_ssh_private_key
from age.openssh_keys import WrongPassphrase, load_openssh_private_key
from ref import curve, sshkey
from ref.agev1 import mpint, sshstr
from vf import fuzz, gen, kit, sshkeys
from vf.core import Sub, Violation

PID = "P20"
RULE = ("'fuzz': coverage-guided mutation (atheris) of unencrypted containers: loaded only if the independent strict reader accepts "
        "them as the same key, non-trivial when new coverage is reached; 'passphrase': random encrypted key and a passphrase different from the right one (none, empty, one bit, one character "
        "more or less, other case, unrelated): the wrong-passphrase error must be raised. 'damage': a valid file with exactly "
        "one structural damage (position and value random), plain or encrypted (damage below the encryption), must be refused. "
        "Non-trivial: every case.")
ASSUMPTIONS = ["a wrong passphrase passes the 32-bit check value with probability 2^-32",
               "bit flips are generated only where the format carries redundancy"]


def refuse(data, pw, what, exc=Exception):
    try:
        key = load_openssh_private_key(data, passphrase=pw)
    except exc:
        pass
    except Exception as e:
        raise Violation("%s: reported as %s: %s" % (what, type(e).__name__, e))
    else:
        raise Violation("%s: accepted, loaded %r" % (what, type(key).__name__))
    path = os.path.join(os.environ["HOME"], "id_k")
    with open(path, "wb") as f:
        f.write(data)
    try:
        if load_ssh_private_key(path, password=pw) is not None:
            raise Violation("%s: load_ssh_private_key returned a key" % what)
    except Violation:
        raise
    except exc:
        pass
    except Exception as e:
        raise Violation("%s: reported as %s: %s by load_ssh_private_key" % (what, type(e).__name__, e))
    else:
        if exc is WrongPassphrase:
            raise Violation("%s: not reported by load_ssh_private_key" % what)


def wrong_pw(pw, how, n):
    if how == "none":
        return None
    if how == "empty":
        return b""
    if how == "bit":
        i = n % (8 * len(pw))
        b = bytearray(pw)
        b[i // 8] ^= 1 << i % 8
        return bytes(b)
    if how == "more":
        return pw + bytes([n % 256])
    if how == "less":
        return pw[:-1]
    if how == "case":
        return pw.swapcase()
    if how == "space":
        return pw + b" "
    if how == "nl":
        return pw + b"\n"
    return b"unrelated %d" % n


def passphrase(case):
    k = sshkeys.expand(case["key"])
    data = sshkey.write(k, case["comment"], case["check"], case["cipher"], case["pw"], case["salt"], case["rounds"])
    sshkeys.same_private(load_openssh_private_key(data, passphrase=case["pw"]), k)
    wrong = wrong_pw(case["pw"], case["how"], case["n"])
    if wrong == case["pw"]:
        return ["trivial"]
    refuse(data, wrong, "wrong passphrase (%s)" % case["how"], WrongPassphrase)
    return [case["how"], case["cipher"]]


def strat_pass():
    return st.fixed_dictionaries({
        "key": sshkeys.any_key(False), "comment": st.binary(max_size=20), "check": st.integers(0, 2**32 - 1),
        "cipher": st.sampled_from(sorted(sshkey.KEYLEN)), "pw": sshkeys.passphrase(), "salt": st.binary(min_size=16, max_size=16),
        "rounds": st.integers(1, 2), "n": gen.position(),
        "how": st.sampled_from(["none", "empty", "bit", "more", "less", "case", "space", "nl", "unrelated"])})


DAMAGES = ["truncate", "trailing", "magic", "nkeys", "twokeys", "check", "cipher", "kdf", "type", "padding", "public", "inner-truncate",
           "no-end", "fields", "seclen", "bare-type", "negative"]


def damage(case):
    k = sshkeys.expand(case["key"])
    kind, n, m = case["kind"], case["n"], case["m"]
    cipher, pw, salt, rounds = case["cipher"], b"pw", b"0123456789abcdef", 1
    what = kind
    sec_kw, cont_kw = {}, {}
    cname = b"none" if cipher == "none" else cipher.encode()
    kname = b"none" if cipher == "none" else b"bcrypt"
    kopts = b"" if cipher == "none" else sshstr(salt) + struct.pack(">I", rounds)
    block = 8 if cipher == "none" else 16
    blob = sshkey.pub_blob(k)
    pubs = [blob]
    fields = sshkey.priv_fields(k)
    comment = case["comment"]
    post_section = lambda s: s  # noqa: E731
    if kind == "magic":
        b = bytearray(sshkey.MAGIC)
        b[n % len(b)] ^= 1 << m % 8
        cont_kw["magic"] = bytes(b)
    elif kind == "nkeys":
        cont_kw["nkeys"] = [0, 2, 3, 256, 2**31, 2**32 - 1][m % 6]
    elif kind == "twokeys":
        pubs = [blob, blob]
    elif kind == "check":
        sec_kw["check2"] = case["check"] ^ (1 << n % 32)
    elif kind == "cipher":
        cname = [b"aes256-cbc", b"chacha20-poly1305@openssh.com", b"aes256-gcm@openssh.com", b"", b"AES256-CTR", b"3des-cbc",
                 b"aes512-ctr", b"aes256-ctr2", b"None"][m % 9]
        kname, kopts = b"bcrypt", sshstr(salt) + struct.pack(">I", rounds)
    elif kind == "kdf":
        if cipher == "none":
            cname = b"aes256-ctr"
        kname = [b"none", b"", b"scrypt", b"bcrypt2", b"pbkdf2", b"BCRYPT"][m % 6]
    elif kind == "type":
        name = sshkey.type_name(k)
        if k["t"] == "ecdsa" and m % 2:
            fields[0] = sshstr([b"nistp192", b"nistk163", b"curve25519", b"", b"NISTP256"][n % 5])
        else:
            sec_kw["tname"] = [b"sk-ssh-ed25519@openssh.com", b"ssh-ed448", b"", b"ssh-xmss@openssh.com", name.upper(), name[:-1],
                               name + b"-cert-v01@openssh.com", b"sk-" + name][n % 8]
            if sec_kw["tname"].startswith(b"ecdsa-"):
                return ["trivial"]  # the curve is named again in the key
    elif kind == "bare-type":
        # nothing left to find fault with but the type
        sec_kw["tname"] = [b"sk-ssh-ed25519@openssh.com", b"ssh-ed448", b"", b"ssh-ed25519-cert-v01@openssh.com", b"null"][n % 5]
        fields = []
    elif kind == "negative":
        # a number with the sign bit set, which means a negative one
        able = [i for i, f in enumerate(fields) if k["t"] in ("rsa", "dsa") and f[4:6] >= b"\0\x80" and f[4:5] == b"\0"]
        if k["t"] == "ecdsa" and fields[2][4:5] == b"\0":
            able = [2]
        if not able:
            return ["trivial"]
        i = able[n % len(able)]
        fields[i] = sshstr(fields[i][5:])
        what += " number %d" % i
    elif kind == "padding":
        total = len(sshkey.private_section(k, case["check"], comment, block))
        bare = len(sshkey.private_section(k, case["check"], comment, 1))
        size = total - bare
        if not size:
            comment += b"x"
            size = block - 1
        # more padding than needed is no fault, a wrong byte in it is
        more = [0, 0, 0, 1, 2, 5, 20, 40][m % 8]
        sec_kw["extra_pad"] = more
        size += more * block
        pos = n % size

        def pad(count, pos=pos):
            p = bytearray((i + 1) & 255 for i in range(count))
            p[pos] = (p[pos] + 1 + m % 255) % 256
            return bytes(p)
        sec_kw["pad"] = pad
        what += " byte %d of %d" % (pos + 1, size)
    elif kind == "public":
        i, bad = bad_public(k, n, m)
        fields = bad
        what += " " + i
    elif kind == "fields":
        # a length prefix that does not fit
        i = n % len(fields)
        body = fields[i][4:]
        delta = [1, -1, 2**31, 255][m % 4]
        fields[i] = struct.pack(">I", (len(body) + delta) % 2**32) + body
        comment = b""
    section = sshkey.private_section(k, case["check"], comment, block, fields=fields, **sec_kw)
    if kind == "inner-truncate":
        bare = len(sshkey.private_section(k, case["check"], comment, 1))
        cut = (n * 7919) % bare if m % 2 else max(0, bare - 1 - n % (len(comment) + 8))
        section = section[:cut]
        what += " at %d of %d" % (cut, bare)
    if cipher != "none" and kind != "check-plain":
        section = sshkey.crypt(cipher, pw, salt, rounds, section)
    if kind == "trailing":
        cont_kw["trailing"] = bytes([m % 256]) * (1 + n % 20)
    if kind == "seclen":
        cont_kw["seclen"] = len(section) + [1, -1, 8, -8, 2**31][m % 5]
    data = sshkey.container(cname, kname, kopts, pubs, section, **cont_kw)
    if kind == "truncate":
        cut = n % len(data)
        data = data[:cut]
        what += " at %d" % cut
    text = sshkey.pem("OPENSSH PRIVATE KEY", data, 70)
    if kind == "no-end":
        lines = text.splitlines(True)
        text = b"".join(lines[:1 + n % (len(lines) - 1)])
    refuse(text, pw if cname != b"none" or m % 2 else None, what + " (" + k["t"] + ", " + cipher + ")")
    return [kind, k["t"], "plain" if cipher == "none" else "encrypted"]


def bad_public(k, n, m):
    f = sshkey.priv_fields(k)
    t = k["t"]
    if t == "rsa":
        if m % 2:
            v = k["e"] + 2 * (1 + n % 50)
            f[1] = mpint(v)
            return "exponent", f
        f[0] = mpint(k["n"] + 2 * (1 + n % 1000))
        return "modulus", f
    if t == "dsa":
        y = k["y"] * k["g"] % k["p"] if m % 2 else k["p"] - k["y"]
        f[3] = mpint(y)
        return "y", f
    if t == "ecdsa":
        q = bytearray(k["Q"])
        if m % 3 == 0:
            other = sshkeys.expand({"t": "ecdsa", "curve": k["curve"], "d": b"other%d" % n})
            q = other["Q"] if other["d"] != k["d"] else k["Q"][:-1]
        elif m % 3 == 1:
            q[1 + n % (len(q) - 1)] ^= 1 << m % 8
        else:
            half = len(q) // 2
            q = q[:1 + half] + bytes(half)
        f[1] = sshstr(bytes(q))
        return "point", f
    pk, seed = k["pk"], k["seed"]
    bad = bytearray(pk)
    bad[n % 32] ^= 1 << m % 8
    bad = [bytes(bad), bytes(bad), bytes(32), b"\xff" * 32, seed][m // 5 % 5]
    if m % 5 == 0:
        return "first copy", [sshstr(bad), sshstr(seed + pk)]
    if m % 5 == 1:
        return "second copy", [sshstr(pk), sshstr(seed + bad)]
    if m % 5 == 2:
        return "both copies", [sshstr(bad), sshstr(seed + bad)]
    if m % 5 == 3:
        return "seed", [sshstr(pk), sshstr(bytes([seed[0] ^ 1]) + seed[1:] + pk)]
    return "short", [sshstr(pk[:-1]), sshstr(seed + pk[:-1])]


def strat_damage():
    return st.fixed_dictionaries({
        "key": sshkeys.any_key(False), "kind": st.sampled_from(DAMAGES), "n": gen.position(), "m": st.integers(0, 255),
        "comment": st.integers(0, 30).map(lambda n: b"user@host-%d-abcdefghijklmnopqr" % n).map(lambda b: b[:b[10] % 30 + len(b) % 3]),
        "check": st.integers(0, 2**32 - 1), "cipher": st.sampled_from(["none", "none", "aes256-ctr", "aes128-ctr", "aes192-ctr"])})


def enum_damage(tier):
    """every kind of damage to one key of each type, with all variants"""
    keys = [{"t": "ed", "seed": gen.ed_pool(1)}, {"t": "rsa", "i": 1}, {"t": "dsa", "i": 0, "x": b"p20"}] + [{"t": "ecdsa", "curve": c, "d": b"p20" * 20} for c in ("nistp256", "nistp384", "nistp521")]
    for kind in DAMAGES:
        for i in range(50 if tier == "quick" else 400):
            for j, key in enumerate(keys):
                if i < 10 or j == i % len(keys) or (kind == "public" and j == 0) or tier != "quick":
                    yield {"key": key, "kind": kind, "n": i * 7919 + j, "m": i, "comment": b"user@host"[:i % 10], "check": i * 65537, "cipher": ["none", "aes256-ctr", "aes128-ctr", "aes192-ctr"][(i // 5 + j) % 4]}


# ---------------------------------------------------------------- coverage-guided
def fuzz_key(case):
    data = case["data"]
    text = sshkey.pem("OPENSSH PRIVATE KEY", data, 70)
    try:
        key = load_openssh_private_key(text, passphrase=case["pw"])
    except Exception as e:
        return ["refused", type(e).__name__]
    try:
        k = sshkey.read_plain(data)
    except sshkey.BadKey as e:
        raise Violation("broken key file (%s) loaded as %s" % (e, type(key).__name__))
    if k["t"] == "ed":
        if curve.ed25519_public(k["seed"]) != k["pk"]:
            raise Violation("Ed25519 key with a foreign public key loaded")
    elif k["t"] == "ecdsa":
        if k["curve"] not in sshkeys.CURVES:
            return ["accepted", "other-curve"]
        if key.public_key().public_numbers() != key.private_numbers().public_numbers or sshkeys._q(k["curve"], k["d"])[1:] != k["Q"][1:]:
            if k["Q"][:1] == b"\4":
                raise Violation("ECDSA key with a foreign public key loaded")
        k["Q"] = sshkeys._q(k["curve"], k["d"])
    sshkeys.same_private(key, k)
    return ["accepted"]


def fuzz_seeds():
    for spec in ({"t": "ed", "seed": gen.ed_pool(0)}, {"t": "rsa", "i": 0}, {"t": "dsa", "i": 0, "x": b"12"}, {"t": "ecdsa", "curve": "nistp256", "d": b"x" * 40}):
        k = sshkeys.expand(spec)
        for comment in (b"", b"user@host"):
            yield sshkey.container(b"none", b"none", b"", [b"skipped"], sshkey.private_section(k, 7, comment, 8))


WORDS = [b"none", b"ssh-ed25519", b"ssh-rsa", b"ssh-dss", b"ecdsa-sha2-nistp256", b"nistp256", b"nistp384", b"nistp521", b"nistp224", b"aes256-ctr", b"bcrypt",
         b"\0\0\0\1", b"\0\0\0\0", b"\1\2\3\4\5\6\7", b"\x7f\xff\xff\xff", b"\xff\xff\xff\xff", b"\0\0\0\x20", b"\0\0\0\x40"]


def fuzz_case(data):
    return {"data": sshkey.MAGIC + data, "pw": None} if not data.startswith(sshkey.MAGIC) else {"data": data, "pw": None}


SUBS = [
    Sub("passphrase", passphrase, strat_pass, quick=1200, thorough=60000, qshards=3),
    Sub("damage", damage, strat_damage, quick=4000, thorough=200000, qshards=4),
    Sub("every-damage", damage, enum=enum_damage, qshards=2),
    Sub("fuzz", fuzz_key, to_case=fuzz_case, custom=fuzz.searcher("P20", fuzz_case, fuzz_seeds, WORDS, runs=(20000, 1500000))),
]
