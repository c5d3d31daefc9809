import base64
import functools
import io
import os
import re
import traceback

from cryptography.hazmat.primitives import serialization as ser
from hypothesis import strategies as st

from age.file import Decryptor, Encryptor
from age.keyloader import load_keys_txt, load_ssh_keys, load_ssh_private_key, resolve_public_key
from age.keys.agekey import AgePrivateKey, AgePublicKey
from age.keys.password import PasswordKey
from age.openssh_keys import load_openssh_private_key
from age.recipients.helpers import decrypt_file_key, generate_recipient_from_key, get_recipient
from age.utils.asciiarmor import AsciiArmoredInput, AsciiArmoredOutput
from ref import agev1, bech32, curve, sshkey
from vf import cli, gen, kit, sshkeys
from vf.core import Sub, Violation

PID = "P27"
RULE = ("Secrets (keys, passphrases, file keys, ephemeral secrets, plaintext) are random and known to the harness; every text and "
        "file the code produces is searched for them as raw bytes, hex, decimal, base64 in any alignment and key string. "
        "'ciphertext': output for random recipients; 'repr': debug representations; 'errors': texts of exceptions (whole chain) of "
        "operations made to fail; 'damaged-keys' / 'damaged-more': private key files with every bit of an Ed25519 / ECDSA / DSA / RSA key changed; 'commands': standard error and terminal of succeeding and failing commands. Non-trivial: all.")
ASSUMPTIONS = ["secrets shorter than 8 bytes are not searched for (chance matches)",
               "str() of a PasswordKey returns the passphrase by design; arguments of the command line are not secret"]


def forms(secret):
    """byte strings to search for"""
    out = [secret, secret.hex().encode(), secret.hex().upper().encode(), ":".join("%02x" % b for b in secret).encode()]
    for pad in range(3):
        # alignment: characters that depend on the secret only
        enc = base64.b64encode(b"\0" * pad + secret)
        lo = 0 if pad == 0 else 2 if pad == 1 else 3
        hi = len(enc) - (4 if (pad + len(secret)) % 3 else 0)
        out.append(enc[lo:hi])
        out.append(enc[lo:hi].replace(b"+", b"-").replace(b"/", b"_"))
    out.append(repr(secret)[2:-1].encode())
    out.append(repr(list(secret))[1:-1].encode())
    if len(secret) == 32:
        s = bech32.encode("age-secret-key-", secret)
        out += [s.encode(), s.upper().encode(), s[16:40].encode(), s[16:40].upper().encode()]
        out += [str(int.from_bytes(secret, e)).encode() for e in ("little", "big")]
    return [f for f in out if len(f) >= 8]


def int_forms(n):
    b = n.to_bytes((n.bit_length() + 7) // 8, "big")
    return [str(n).encode(), hex(n)[2:].encode(), hex(n)[2:].upper().encode()] + forms(b)


def key_forms(spec):
    t = spec["t"]
    if t == "age":
        return forms(spec["sk"]) + forms(curve.clamp(spec["sk"]))
    if t == "ed":
        return forms(spec["seed"]) + forms(curve.ed25519_sk_to_x25519(spec["seed"]))
    if t == "rsa":
        r = kit.RSA[spec["i"]]
        return int_forms(r["p"]) + int_forms(r["q"]) + int_forms(r["d"])
    pw = spec["pw"]
    out = forms(pw) if len(pw) >= 8 else []
    try:
        if len(pw) >= 8:
            out += [repr(pw.decode())[1:-1].encode(), pw.decode().encode("utf-16-le")]
    except UnicodeDecodeError:
        pass
    return out


HEX, HEXONLY = re.compile(b"[0-9a-fA-F]{14,}"), re.compile(b"[0-9a-fA-F]{24,}$")
DEC, DECONLY = re.compile(b"[0-9]{18,}"), re.compile(b"[0-9]{30,}$")


def search(text, needles, what):
    if isinstance(text, str):
        text = text.encode("utf-8", "surrogatepass")
    for f in needles:
        if f in text:
            i = text.index(f)
            raise Violation("%s contains a secret: ...%r..." % (what, text[max(0, i - 30):i + len(f) + 10]))
    # parts of secrets: 14 hexadecimal or 18 decimal digits in a row
    for pattern, n, whole in ((HEX, 14, HEXONLY), (DEC, 18, DECONLY)):
        runs = pattern.findall(text)
        if runs:
            secrets = b" ".join(f.lower() for f in needles if whole.match(f))
            for r in runs:
                for i in range(len(r) - n + 1):
                    if r[i:i + n].lower() in secrets:
                        raise Violation("%s contains a part of a secret: %r" % (what, r[:200]))


class Recorder(kit.Drbg):
    def __init__(self, seed):
        super().__init__({"mode": "drbg", "seed": seed})
        self.out = []

    def __call__(self, n):
        b = super().__call__(n)
        self.out.append(b)
        return b


# ---------------------------------------------------------------- ciphertext
def ciphertext(case):
    recips, data = case["recips"], kit.material(dict(case["pt"], pat="rand"))
    rec = Recorder(case["seed"])
    orig, os.urandom = os.urandom, rec
    try:
        with kit.fake_scrypt():
            under = io.BytesIO()
            target = AsciiArmoredOutput("AGE ENCRYPTED FILE", under) if case["armor"] else under
            with Encryptor([kit.enc_key(s) for s in recips], target) as e:
                for p in kit.pieces(data, case["cuts"]):
                    e.write(p)
                shown = repr(e) + str(e) + repr(getattr(e, "__dict__", {}).keys())
            if case["armor"]:
                target.close()
            blob = under.getvalue()
    finally:
        os.urandom = orig
    text = blob
    if case["armor"]:
        blob = base64.b64decode(b"".join(blob.split(b"\n")[1:-2]))
    needles = []
    for s in recips:
        needles += key_forms(s)
    for r in rec.out:
        if len(r) >= 32:
            needles += forms(r)  # ephemeral secrets
    # the file key, found independently where possible
    for s in recips:
        if s["t"] in ("age", "ed", "rsa"):
            for stanza in agev1.parse_header(blob)[0]:
                try:
                    fk = kit.ref_unwrap(s, stanza)
                except Exception:
                    continue
                needles += forms(fk)
                nonce_at = len(blob) - len(agev1.stream_seal(b"k" * 32, data)) - 16
                needles += forms(agev1.payload_key(fk, blob[nonce_at:nonce_at + 16]))
                break
    for i in range(0, len(data) - 15, max(16, len(data) // 40)):
        needles += forms(data[i:i + 16])
    search(blob, needles, "encrypted output")
    bodies = b"\0".join(base64.b64decode(l + b"=" * (-len(l) % 4)) for l in blob.split(b"\n--- ")[0].split(b"\n")[1:] if not l.startswith(b"->"))
    search(bodies, needles, "recipient entry")
    if case["armor"]:
        search(text, [f for f in needles if len(f) < 60], "armored output")
    search(shown, needles, "repr of the encryptor")
    return ["recips:%d" % len(recips), "armored" if case["armor"] else "binary"]


# ---------------------------------------------------------------- repr
def reprs(case):
    spec = case["key"]
    needles = key_forms(spec)
    k = kit.dec_key(spec)
    objs = [k, kit.enc_key(spec)]
    texts = [repr(o) for o in objs] + ["%r %r" % (objs, tuple(objs)), repr({"k": k}), "{!r}".format(k)]
    if spec["t"] != "pw":
        texts += [str(k), "%s" % (k,), format(k), str(objs[1])]
    if spec["t"] == "ed":
        texts += [repr(k.to_age_private_key()), str(k.to_age_private_key()), repr(k.public_key().to_age_public_key())]
    fk = case["fk"]
    with kit.fake_scrypt():
        r = generate_recipient_from_key(objs[1], fk)
        texts += [repr(r), str(r)]
        search(repr(r.dump()), needles + forms(fk), "dump of the entry")
        blob = kit.encrypt([objs[1]], fk * 4)
        with kit.quiet():
            d = Decryptor([k], io.BytesIO(blob))
        texts += [repr(d), str(d)]
    for t in texts:
        search(t, needles + forms(fk), "representation")
    return [spec["t"]]


# ---------------------------------------------------------------- errors
def chain(e):
    seen, out = set(), []
    while e is not None and id(e) not in seen:
        seen.add(id(e))
        out.append("%s %r %s" % (type(e).__name__, e.args, e))
        out += [str(n) for n in getattr(e, "__notes__", [])]
        e = e.__cause__ or e.__context__
    return "\n".join(out)


def expect_error(fn, needles, what, may_succeed=False):
    with kit.quiet() as err:
        try:
            fn()
        except Exception as e:
            text = chain(e) + "".join(traceback.format_exception(type(e), e, e.__traceback__))
            search(text, needles, "error of " + what)
        else:
            if not may_succeed:
                raise Violation("%s succeeded" % what)
    search(err.getvalue(), needles, "standard error of " + what)


def mangle(s, how, n):
    """a damaged version of a secret string, most of it still there"""
    i = n % len(s)
    c = s[i]
    if how == "sub":
        return s[:i] + ("q" if c.lower() != "q" else "p") + s[i + 1:]
    if how == "del":
        return s[:i] + s[i + 1:]
    if how == "ins":
        return s[:i] + " " + s[i:]
    if how == "bad":
        return s[:i] + "b" + s[i + 1:] if c.lower() != "b" else s[:i] + "i" + s[i + 1:]
    if how == "extra":
        return s + " comment"
    if how == "length":
        # a correct checksum, but not a key
        sk = bech32.decode(s)[1]
        return bech32.encode("age-secret-key-", [sk[:31], sk + b"\0", sk[:16], sk[1:], sk + sk, sk[:30]][n % 6]).upper()
    if how == "prefix":
        return bech32.encode(["age-secret-kex-", "age-secret-key", "bc", "age-", "age-secret-key-1"][n % 5], bech32.decode(s)[1]).upper()
    if how == "case":
        return s[:len(s) // 2].lower() + s[len(s) // 2:].upper()
    if how == "hrp":
        return "AGE-SECRET-KEX-" + s[15:]
    return s + "Q"


def parts(s):
    """pieces of a secret text that may not show up"""
    s = s.strip()
    return [p.encode() for p in (s[20:36], s[36:52]) if len(p) >= 12] + [p.lower().encode() for p in (s[20:36], s[36:52]) if len(p) >= 12]


def errors(case):
    home = os.environ["HOME"]
    sk, n = case["sk"], case["n"]
    kind = case["kind"]
    needles = forms(sk) + forms(sk[:16]) + forms(sk[14:30])
    good = bech32.encode("age-secret-key-", sk).upper()
    if kind == "key-string":
        bad = mangle(good, case["how"], n)
        expect_error(lambda: AgePrivateKey.from_private_string(bad), needles + parts(good), "a mistyped key string", True)
        expect_error(lambda: AgePublicKey.from_public_string(bad), needles + parts(good), "a key string in place of a public key")
        expect_error(lambda: AgePublicKey.from_public_string(good), needles + parts(good), "a secret key in place of a public key")
    elif kind == "key-file":
        bad = mangle(good, case["how"], n)
        path = os.path.join(home, "k.txt")
        with open(path, "w") as f:
            f.write("# c\n%s\n%s\n" % (good, bad))
        expect_error(lambda: load_keys_txt(path), needles + parts(good), "loading a damaged key file", True)
        # a key file given where a recipient list is expected
        expect_error(lambda: resolve_public_key(path), needles + parts(good), "a key file as recipient list", True)
        with open(path, "w") as f:
            f.write(good.lower() + "\n")
        expect_error(lambda: resolve_public_key(path), needles + parts(good), "a lower case key file as recipient list", True)
    elif kind == "decrypt":
        ident = case["ident"]
        nd = key_forms(ident) + key_forms(case["other"])
        with kit.fake_scrypt():
            data = kit.material({"len": 64, "seed": n})
            blob = bytearray(kit.encrypt([kit.enc_key(ident)], data))
            nd += [f for f in forms(data[:16]) + forms(data[16:48])]
            expect_error(lambda: Decryptor([kit.dec_key(case["other"])], io.BytesIO(bytes(blob))).read(), nd, "decryption with another key",
                         kit.ident_id(ident) == kit.ident_id(case["other"]))
            blob[n % len(blob)] ^= 1 << n % 7
            expect_error(lambda: Decryptor([kit.dec_key(ident)], io.BytesIO(bytes(blob))).read(), nd, "decryption of a damaged file", True)
            expect_error(lambda: Decryptor([kit.dec_key(ident)], io.BytesIO(bytes(blob[:n % len(blob)]))).read(), nd, "decryption of a truncated file", True)
    elif kind == "ssh":
        k = sshkeys.expand(case["ssh"])
        pw = b"correct horse %d battery" % n
        nd = [f for f in ((int_forms(k["p"]) + int_forms(k["q"]) + int_forms(k["d"])) if k["t"] == "rsa" else forms(k["seed"]))]
        nd += forms(pw)
        plain = sshkey.write(k, b"c")
        enc = sshkey.write(k, b"c", cipher="aes256-ctr", pw=pw, rounds=1)
        wrong = pw[:-1] + b"?"
        expect_error(lambda: load_openssh_private_key(enc, wrong), nd + forms(wrong), "a wrong passphrase")
        expect_error(lambda: kit.dec_key(case["ssh"]).__class__.from_pem(enc, wrong), nd + forms(wrong), "a wrong passphrase")
        expect_error(lambda: load_openssh_private_key(enc), nd, "a missing passphrase")
        lines = plain.splitlines(True)
        i = n % len(lines)
        b64lines = [l.strip() for l in lines[2:-2]]
        variants = [b"".join(lines[:i] + lines[i + 1:]), b"".join(lines[:i] + [b"?" + lines[i]] + lines[i + 1:]), b"".join(lines[:-1]),
                    b"".join(lines[:-1]) + b"-----END RSA PRIVATE KEY-----\n", plain.replace(b"OPENSSH", b"openssh"),
                    b"".join(lines[:i] + [lines[i][:-2] + b"\n"] + lines[i + 1:])]
        ssh = os.path.join(home, ".ssh")
        os.makedirs(ssh, exist_ok=True)
        path = os.path.join(ssh, "id_x")
        for j, v in enumerate(variants):
            for fn in (lambda: load_openssh_private_key(v), lambda: kit.dec_key(case["ssh"]).__class__.from_pem(v)):
                expect_error(fn, nd + b64lines, "a damaged key file", True)
            with open(path, "wb") as f:
                f.write(v)
            expect_error(load_ssh_keys, nd + b64lines, "discovery of a damaged key", True)
        with open(path, "wb") as f:
            f.write(enc)
        expect_error(load_ssh_keys, nd, "discovery of an encrypted key", True)
        # a private key given as the encrypted file
        for width in (64, 70, 76, 10 + n % 200, 10**6):
            t = sshkey.write(k, b"c", width=width)
            expect_error(lambda: AsciiArmoredInput("AGE ENCRYPTED FILE", io.BytesIO(t)), nd, "a private key as armored file")
            expect_error(lambda: AsciiArmoredInput("OPENSSH PRIVATE KEY", io.BytesIO(t + t)), nd, "two private keys as armored file")
            expect_error(lambda: Decryptor([kit.dec_key(case["ssh"])], io.BytesIO(t)), nd, "a private key as encrypted file")
        os.remove(path)
    else:
        pw = b"correct horse %d battery staple" % n
        spec = {"t": "pw", "pw": pw}
        other = b"incorrect horse %d" % n
        with kit.fake_scrypt():
            blob = kit.encrypt([kit.enc_key(spec)], b"x" * 30)
            nd = forms(pw) + forms(other)
            expect_error(lambda: Decryptor([PasswordKey(other)], io.BytesIO(blob)).read(), nd, "a wrong passphrase")
            fk = kit.bseed("fk", n)[:16]
            rec = generate_recipient_from_key(PasswordKey(pw), fk)
            expect_error(lambda: rec.decrypt(PasswordKey(other)), nd + forms(fk), "a wrong passphrase")
            expect_error(lambda: decrypt_file_key([rec], [PasswordKey(other)]), nd + forms(fk), "a wrong passphrase")
            expect_error(lambda: generate_recipient_from_key(kit.dec_key({"t": "age", "sk": sk}), fk), needles + forms(fk), "a private key as recipient")
            expect_error(lambda: get_recipient("scrypt", ["x"], "y").decrypt(PasswordKey(pw)), nd, "a malformed entry")
    return [kind]


# ---------------------------------------------------------------- damaged private keys
DAMAGED = [{"t": "ed", "seed": kit.bseed("p27d", 0)[:32]}, {"t": "ecdsa", "curve": "nistp256", "d": kit.bseed("p27d", 1)}, {"t": "ecdsa", "curve": "nistp521", "d": kit.bseed("p27d", 2) * 3},
           {"t": "dsa", "i": 0, "x": kit.bseed("p27d", 3)}, {"t": "rsa", "i": 1}]
COMMENT = b"somebody@a-computer-with-a-long-name.example.org (the key of somebody, made in the year 2019) " * 3


@functools.lru_cache(16)
def damaged_needles(i):
    k = sshkeys.expand(DAMAGED[i])
    nums = [k["seed"]] if k["t"] == "ed" else [k[x].to_bytes((k[x].bit_length() + 7) // 8, "big") for x in ("d", "x", "p", "q") if x in k and not (k["t"] == "dsa" and x != "x")]
    out = []
    for b in nums:
        out += forms(b) + [str(int.from_bytes(b, "big")).encode()]
        for j in range(0, len(b) - 9, 5):
            out += [f for f in (b[j:j + 10], repr(b[j:j + 10])[2:-1].encode(), repr(list(b[j:j + 10]))[1:-1].encode(), b[j:j + 10].hex().encode(), base64.b64encode(b[j:j + 10])[:13])]
    return out


def damaged(case):
    """private key files with a few bytes changed: what is reported does not quote what stands in them"""
    k = sshkeys.expand(DAMAGED[case["key"]])
    needles = damaged_needles(case["key"])
    section = bytearray(sshkey.private_section(k, 0x01020304, COMMENT[:case["comment"]], 16))
    plain, pw = case["plain"], b"correct horse battery"
    hits = 0
    for pos, mask in case["flips"]:
        s, c = bytearray(section), bytearray(sshkey.container(b"none", b"none", b"", [sshkey.pub_blob(k)], b""))
        c[-4:] = len(section).to_bytes(4, "big")
        if pos < len(s):
            s[pos] ^= mask
        else:
            if not plain or pos - len(s) >= len(c):
                continue
            c[pos - len(s)] ^= mask
        if plain:
            data = bytes(c) + bytes(s)
        else:
            data = sshkey.container(b"aes128-ctr", b"bcrypt", agev1.sshstr(b"s" * 16) + b"\0\0\0\1", [sshkey.pub_blob(k)], sshkey.crypt("aes128-ctr", pw, b"s" * 16, 1, bytes(s)))
        text = sshkey.pem("OPENSSH PRIVATE KEY", data)
        hits += 1
        expect_error(lambda: load_openssh_private_key(text, pw), needles, "a key file with byte %d changed by %02x" % (pos, mask), True)
    if case["discover"] and hits:
        ssh = os.path.join(os.environ["HOME"], ".ssh")
        os.makedirs(ssh, exist_ok=True)
        path = os.path.join(ssh, "id_damaged")
        with open(path, "wb") as f:
            f.write(text)
        try:
            expect_error(load_ssh_keys, needles, "discovery of a key file with byte %d changed by %02x" % (pos, mask), True)
        finally:
            os.remove(path)
    return [k["t"], "plain" if plain else "encrypted"] if hits else ["trivial"]


def enum_damaged(tier):
    for i in range(len(DAMAGED)):
        size = len(sshkey.private_section(sshkeys.expand(DAMAGED[i]), 0, COMMENT[:200], 16))
        lengths = len(sshkey.container(b"none", b"none", b"", [sshkey.pub_blob(sshkeys.expand(DAMAGED[i]))], b""))
        for pos in range(size + lengths):
            if tier == "quick" and i > 2 and pos % 3 and 40 < pos < size:
                continue
            for comment in (0, 200) if tier != "quick" or i == 0 else (200,):
                yield {"key": i, "plain": True, "comment": comment, "flips": [[pos, 1 << b] for b in range(8)] + [[pos, 255]], "discover": pos % 4 == 0}


def s_damaged():
    return st.fixed_dictionaries({"key": st.integers(0, len(DAMAGED) - 1), "plain": st.booleans(), "comment": st.integers(0, 250),
                                  "flips": st.lists(st.tuples(st.one_of(st.integers(0, 40), st.integers(0, 1200)), st.integers(1, 255)).map(list), min_size=1, max_size=3), "discover": st.booleans()})


# ---------------------------------------------------------------- commands
def commands(case):
    home = os.environ["HOME"]
    conf = os.path.join(home, ".config", "age")
    ssh = os.path.join(home, ".ssh")
    for d in (conf, ssh):
        os.makedirs(d, exist_ok=True)
    for d in (conf, ssh):
        for f in os.listdir(d):
            os.remove(os.path.join(d, f))
    n, sk, sk2 = case["n"], case["sk"], case["sk2"]
    data = b"PLAINTEXT-" + kit.material({"len": 200, "seed": n})
    keyline = bech32.encode("age-secret-key-", sk).upper()
    with open(os.path.join(conf, "keys.txt"), "w") as f:
        f.write(keyline + "\n")
    ed = sshkeys.expand({"t": "ed", "seed": sk2})
    with open(os.path.join(ssh, "id_ed25519"), "wb") as f:
        f.write(sshkey.write(ed, b"c") if case["sshok"] else sshkey.write(ed, b"c", cipher="aes128-ctr", pw=b"very secret phrase", rounds=1))
    with open(os.path.join(ssh, "id_broken"), "wb") as f:
        f.write(sshkey.write(ed, b"c")[:-60])
    pub = bech32.encode("age", curve.x25519_base(sk))
    pw = case["pw"]
    needles = forms(sk) + forms(sk[:16]) + forms(sk[14:30]) + forms(sk2) + forms(data[10:26]) + forms(data[26:58]) + parts(keyline) + key_forms({"t": "pw", "pw": pw.encode()}) + [b"PLAINTEXT-"]
    blob = kit.encrypt([AgePublicKey.from_public_string(pub)], data)
    scen = case["scenario"]
    kw, ok = {}, True
    if scen == "encrypt":
        args, kw["stdin"] = ["encrypt", pub], data
    elif scen == "encrypt-bad":
        args, kw["stdin"], ok = ["encrypt", pub, "no-such-alias"], data, False
    elif scen == "encrypt-pw":
        args, kw = ["encrypt", "-p"], {"stdin": data, "passphrases": [pw]}
    elif scen == "decrypt":
        args, kw["stdin"] = ["decrypt"], blob
    elif scen == "decrypt-damaged":
        b = bytearray(blob)
        b[len(b) - 1 - n % 100] ^= 4
        args, kw["stdin"], ok = ["decrypt"], bytes(b), False
    elif scen == "decrypt-nokey":
        other = kit.encrypt([AgePrivateKey.from_private_bytes(kit.bseed("o", n)).public_key()], data)
        args, kw["stdin"], ok = ["decrypt"], other, False
    elif scen == "decrypt-badfile":
        bad = os.path.join(home, "bad.txt")
        with open(bad, "w") as f:
            f.write(mangle(keyline, case["how"], n) + "\n")
        args, kw["stdin"], ok = ["decrypt", bad], blob, None
    elif scen == "decrypt-pw":
        other = kit.encrypt([AgePrivateKey.from_private_bytes(kit.bseed("o", n)).public_key()], data)
        args, kw, ok = ["decrypt", "-p"], {"stdin": other, "passphrases": [pw]}, False
    elif scen == "keyfile-as-recipient":
        args, kw["stdin"], ok = ["encrypt", os.path.join(conf, "keys.txt")], data, None
    else:
        args, ok = ["generate", "-o", os.path.join(home, "new.txt")], True
    r = cli.run(args, home, **kw)
    if ok is True and r.rc != 0 or ok is False and r.rc == 0:
        raise Violation("%s: %r" % (scen, r))
    if scen == "generate":
        line = open(os.path.join(home, "new.txt")).read().splitlines()[2]
        needles += parts(line)
    search(r.err, needles, "standard error of " + scen)
    search(r.tty, needles, "terminal of " + scen)
    if scen.startswith("encrypt") or scen == "generate":
        search(r.out, needles, "standard output of " + scen)
    return [scen]


SK = st.integers(0, 10**9).map(lambda i: kit.bseed("p27", i))
HOW = st.sampled_from(["sub", "sub", "del", "ins", "bad", "extra", "case", "hrp", "add", "length", "prefix"])


def secret_ident(slow=False):
    return st.one_of(SK.map(lambda b: {"t": "age", "sk": b}), SK.map(lambda b: {"t": "ed", "seed": b}), gen.rsa_ident(False, slow),
                     st.one_of(SK.map(lambda b: b.hex()[:20].encode()), SK.map(lambda b: b[:16]), SK.map(lambda b: ("p\u00e4\u00df" + b.hex()[:9]).encode())).map(
                         lambda b: {"t": "pw", "pw": b}))


def s_ct():
    return st.fixed_dictionaries({"recips": st.lists(secret_ident(), min_size=1, max_size=3), "pt": gen.plaintext(2), "seed": st.integers(0, 10**6),
                                  "armor": st.booleans(), "cuts": gen.cuts()})


def s_repr():
    return st.fixed_dictionaries({"key": secret_ident(True), "fk": SK.map(lambda b: b[:16])})


def s_err():
    return st.fixed_dictionaries({
        "kind": st.sampled_from(["key-string", "key-string", "key-file", "decrypt", "ssh", "password"]), "sk": SK, "n": gen.position(), "how": HOW,
        "ident": secret_ident(), "other": secret_ident(), "ssh": st.one_of(SK.map(lambda b: {"t": "ed", "seed": b}), gen.rsa_ident(True))})


def s_cmd():
    return st.fixed_dictionaries({
        "scenario": st.sampled_from(["encrypt", "encrypt-bad", "decrypt", "decrypt", "decrypt-damaged", "decrypt-nokey", "decrypt-badfile", "decrypt-badfile",
                                     "keyfile-as-recipient", "generate", "encrypt-pw", "decrypt-pw"]),
        "sk": SK, "sk2": SK, "n": gen.position(), "how": HOW, "sshok": st.booleans(), "pw": SK.map(lambda b: "pass " + b.hex()[:12])})


SUBS = [
    Sub("ciphertext", ciphertext, s_ct, quick=500, thorough=30000, qshards=3),
    Sub("repr", reprs, s_repr, quick=600, thorough=30000),
    Sub("errors", errors, s_err, quick=1200, thorough=60000, qshards=3),
    Sub("damaged-keys", damaged, enum=enum_damaged, qshards=3),
    Sub("damaged-more", damaged, s_damaged, quick=1500, thorough=100000, qshards=1),
    Sub("commands", commands, s_cmd, quick=300, thorough=10000, qshards=3),
]
