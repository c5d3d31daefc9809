"""Independent writer for private key files: the OpenSSH format (PROTOCOL.key) and PKCS#1 / PKCS#8 PEM."""
import base64
import struct

import bcrypt
from cryptography.hazmat.primitives.ciphers import Cipher, algorithms, modes

from ref.agev1 import mpint, sshstr

MAGIC = b"openssh-key-v1\0"
KEYLEN = {"aes128-ctr": 16, "aes192-ctr": 24, "aes256-ctr": 32}
ORDER = {
    "nistp256": 0xFFFFFFFF00000000FFFFFFFFFFFFFFFFBCE6FAADA7179E84F3B9CAC2FC632551,
    "nistp384": 0xFFFFFFFFFFFFFFFFFFFFFFFFFFFFFFFFFFFFFFFFFFFFFFFFC7634D81F4372DDF581A0DB248B0A77AECEC196ACCC52973,
    "nistp521": 0x1FFFFFFFFFFFFFFFFFFFFFFFFFFFFFFFFFFFFFFFFFFFFFFFFFFFFFFFFFFFFFFFFFFFA51868783BF2F966B7FCC0148F709A5D03BB5C9B8899C47AEBB6FB71E91386409,
}


def pub_fields(k):
    """list of encoded public fields after the type string"""
    t = k["t"]
    if t == "rsa":
        return [mpint(k["e"]), mpint(k["n"])]
    if t == "dsa":
        return [mpint(k["p"]), mpint(k["q"]), mpint(k["g"]), mpint(k["y"])]
    if t == "ecdsa":
        return [sshstr(k["curve"].encode()), sshstr(k["Q"])]
    return [sshstr(k["pk"])]


def type_name(k):
    return {"rsa": b"ssh-rsa", "dsa": b"ssh-dss", "ed": b"ssh-ed25519"}.get(k["t"]) or b"ecdsa-sha2-" + k["curve"].encode()


def pub_blob(k):
    return sshstr(type_name(k)) + b"".join(pub_fields(k))


def priv_fields(k):
    t = k["t"]
    if t == "rsa":
        p, q = k["p"], k["q"]
        return [mpint(k["n"]), mpint(k["e"]), mpint(k["d"]), mpint(pow(q, -1, p)), mpint(p), mpint(q)]
    if t == "dsa":
        return pub_fields(k) + [mpint(k["x"])]
    if t == "ecdsa":
        return pub_fields(k) + [mpint(k["d"])]
    return [sshstr(k["pk"]), sshstr(k["seed"] + k["pk2"] if "pk2" in k else k["seed"] + k["pk"])]


def private_section(k, check, comment, block, extra_pad=0, pad=None, check2=None, fields=None, tname=None):
    body = struct.pack(">II", check, check if check2 is None else check2)
    body += sshstr(type_name(k) if tname is None else tname)
    body += b"".join(priv_fields(k) if fields is None else fields) + sshstr(comment)
    n = -len(body) % block + extra_pad * block
    return body + (bytes((i + 1) & 0xFF for i in range(n)) if pad is None else pad(n))


def crypt(cipher, pw, salt, rounds, data):
    kl = KEYLEN[cipher]
    ki = bcrypt.kdf(pw, salt, kl + 16, rounds, ignore_few_rounds=True)
    c = Cipher(algorithms.AES(ki[:kl]), modes.CTR(ki[kl:])).encryptor()
    return c.update(data) + c.finalize()


def container(cipher, kdf, kdfopts, pubs, section, magic=MAGIC, nkeys=None, seclen=None, trailing=b""):
    out = magic + sshstr(cipher) + sshstr(kdf) + sshstr(kdfopts)
    out += struct.pack(">I", len(pubs) if nkeys is None else nkeys)
    for p in pubs:
        out += sshstr(p)
    return out + struct.pack(">I", len(section) if seclen is None else seclen) + section + trailing


def pem(label, data, width=70, nl="\n", final=True):
    s = base64.b64encode(data).decode()
    lines = [s[i:i + width] for i in range(0, len(s), width)]
    t = nl.join(["-----BEGIN %s-----" % label] + lines + ["-----END %s-----" % label])
    return (t + (nl if final else "")).encode()


def write(k, comment=b"", check=0x12345678, cipher="none", pw=b"", salt=b"s" * 16, rounds=16, width=70, final=True):
    """a complete, valid file"""
    if cipher == "none":
        sec = private_section(k, check, comment, 8)
        data = container(b"none", b"none", b"", [pub_blob(k)], sec)
    else:
        sec = crypt(cipher, pw, salt, rounds, private_section(k, check, comment, 16))
        data = container(cipher.encode(), b"bcrypt", sshstr(salt) + struct.pack(">I", rounds), [pub_blob(k)], sec)
    return pem("OPENSSH PRIVATE KEY", data, width, final=final)


# ---------------------------------------------------------------- DER
def _tlv(tag, body):
    n = len(body)
    if n < 128:
        ln = bytes([n])
    else:
        b = n.to_bytes((n.bit_length() + 7) // 8, "big")
        ln = bytes([0x80 | len(b)]) + b
    return bytes([tag]) + ln + body


def _int(v):
    return _tlv(2, v.to_bytes(v.bit_length() // 8 + 1, "big"))


def _seq(*parts):
    return _tlv(0x30, b"".join(parts))


def rsa_pkcs1(k):
    p, q, d = k["p"], k["q"], k["d"]
    return _seq(_int(0), _int(k["n"]), _int(k["e"]), _int(d), _int(p), _int(q), _int(d % (p - 1)), _int(d % (q - 1)),
                _int(pow(q, -1, p)))


OID_RSA = bytes.fromhex("06092a864886f70d010101")
OID_ED = bytes.fromhex("06032b6570")


def pkcs8(k):
    if k["t"] == "rsa":
        return _seq(_int(0), _seq(OID_RSA, _tlv(5, b"")), _tlv(4, rsa_pkcs1(k)))
    return _seq(_int(0), _seq(OID_ED), _tlv(4, _tlv(4, k["seed"])))


def write_pem(k, form):
    if form == "pkcs1":
        return pem("RSA PRIVATE KEY", rsa_pkcs1(k), 64)
    return pem("PRIVATE KEY", pkcs8(k), 64)


def pub_line(k, comment=b""):
    line = type_name(k) + b" " + base64.b64encode(pub_blob(k))
    return line + (b" " + comment if comment else b"")


# ---------------------------------------------------------------- strict reader of unencrypted keys
class BadKey(Exception):
    pass


class _Buf:
    def __init__(self, data):
        self.data, self.pos = data, 0

    def take(self, n):
        if self.pos + n > len(self.data):
            raise BadKey("truncated")
        b = self.data[self.pos:self.pos + n]
        self.pos += n
        return b

    def u32(self):
        return struct.unpack(">I", self.take(4))[0]

    def string(self):
        return self.take(self.u32())

    def num(self):
        b = self.string()
        if b[:1] >= b"\x80":
            raise BadKey("negative number")
        return int.from_bytes(b, "big")


def read_plain(data):
    """container without encryption -> key fields; BadKey for anything inconsistent"""
    if not data.startswith(MAGIC):
        raise BadKey("magic")
    b = _Buf(data[len(MAGIC):])
    if b.string() != b"none":
        raise BadKey("encrypted")
    b.string(), b.string()
    if b.u32() != 1:
        raise BadKey("number of keys")
    b.string()
    n = b.u32()
    if n != len(b.data) - b.pos:
        raise BadKey("section length")
    b = _Buf(b.take(n))
    if b.u32() != b.u32():
        raise BadKey("check")
    t = b.string()
    if t == b"ssh-rsa":
        k = dict(zip(("n", "e", "d", "iqmp", "p", "q"), [b.num() for _ in range(6)]), t="rsa")
        if k["p"] < 3 or k["q"] < 3 or k["p"] * k["q"] != k["n"]:
            raise BadKey("factors")
        for f in (k["p"], k["q"]):
            if k["e"] * k["d"] % (f - 1) != 1:
                raise BadKey("exponents")
    elif t == b"ssh-dss":
        k = dict(zip(("p", "q", "g", "y", "x"), [b.num() for _ in range(5)]), t="dsa")
        if k["p"] < 3 or pow(k["g"], k["x"], k["p"]) != k["y"]:
            raise BadKey("public value")
    elif t.startswith(b"ecdsa-"):
        k = {"t": "ecdsa", "curve": b.string().decode("latin-1"), "Q": b.string(), "d": b.num()}
    elif t == b"ssh-ed25519":
        pk, sk = b.string(), b.string()
        k = {"t": "ed", "pk": pk, "seed": sk[:32]}
        if len(pk) != 32 or len(sk) != 64 or sk[32:] != pk:
            raise BadKey("public value")
    else:
        raise BadKey("type")
    b.string()
    pad = b.data[b.pos:]
    if any(x != (i + 1) & 255 for i, x in enumerate(pad)):
        raise BadKey("padding")
    return k
