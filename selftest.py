#!/opt/venv/bin/python
"""setup_cmd: nothing has to be built.  Checks that the tools are there and that the independent
implementations in ref/ agree with published test vectors, with files written by the original
commit (fixtures/golden.json) and with ssh-keygen.  Does not import the code under test."""
import hashlib
import json
import os
import shutil
import subprocess
import sys
import tempfile

sys.dont_write_bytecode = True
HERE = os.path.dirname(os.path.abspath(__file__))
sys.path.insert(0, HERE)
sys.path.append("/opt/veriftools/pyvenv/lib/python3.12/site-packages")

import hypothesis  # noqa: E402,F401
import nacl.bindings as nb  # noqa: E402

from ref import agev1, bech32, curve, sshkey  # noqa: E402

H = bytes.fromhex


def eq(what, a, b):
    if a != b:
        sys.exit("selftest: %s: %r != %r" % (what, a, b))


# RFC 7748, 5.2
eq("x25519", curve.x25519(H("a546e36bf0527c9d3b16154b82465edd62144c0ac1fc5a18506a2244ba449ac4"),
                          H("e6db6867583030db3594c1a424b15f7c726624ec26b3353b10a903a6d0ab1c4c")),
   H("c3da55379de9c6908e94ea4df28d084f32eccf03491c71f754b4075577a28552"))
eq("x25519 iterated", curve.x25519_base(b"\x09" + b"\0" * 31),
   H("422c8e7a6227d7bca1350b3e2bb7279f7897b87bb6854b783c60e80311ae3079"))
# RFC 8032, 7.1
eq("ed25519", curve.ed25519_public(H("9d61b19deffd5a60ba844af492ec2cc44449c5697b326919703bac031cae7f60")),
   H("d75a980182b10ab7d54bfed3c964073a0ee172f3daa62325af021a68f707511a"))
for i in range(8):
    seed = hashlib.sha256(b"%d" % i).digest()
    pk, sk = nb.crypto_sign_seed_keypair(seed)
    eq("ed25519 public", curve.ed25519_public(seed), pk)
    eq("ed25519 to x25519", curve.ed25519_pk_to_x25519(pk), nb.crypto_sign_ed25519_pk_to_curve25519(pk))
    eq("x25519", curve.x25519_base(seed), nb.crypto_scalarmult_base(seed))
# RFC 5869, A.1 and RFC 4231, 4.2
eq("hkdf", agev1.hkdf(H("000102030405060708090a0b0c"), H("f0f1f2f3f4f5f6f7f8f9"), b"\x0b" * 22, 42),
   H("3cb25f25faacd57a90434f64d0362f2a2d2d0a90cf1a5a4c5db02d56ecc4c5bf34007208d5b887185865"))
eq("hmac", agev1.hmac256(b"\x0b" * 20, b"Hi There"),
   H("b0344c61d8db38535ca8afceaf0bf12b881dc200c9833da726e9376c2e32cff7"))
# BIP 173
eq("bech32", bech32.decode("A12UEL5L"), ("a", b""))
for s in ("a12uel5m", "A12uEL5L", "1nwldj5", "10a06t8", "\u212a1axkwrx", "x1b4n0q5v", "li1dgmt3"):
    try:
        bech32.decode(s)
    except ValueError:
        continue
    sys.exit("selftest: Bech32 accepts %r" % s)
eq("bech32 round trip", bech32.decode(bech32.encode("age", bytes(range(32)))), ("age", bytes(range(32))))

# files written by the original commit
pool = json.load(open(os.path.join(HERE, "fixtures", "keys.json")))["pool"]
rsa = [{k: int(v, 16) if isinstance(v, str) else v for k, v in r.items()} for r in pool]
golden = json.load(open(os.path.join(HERE, "fixtures", "golden.json")))
kinds = set()
for g in golden:
    data, ident = H(g["file"]), g["id"]
    kinds.add(ident["t"])
    # the original layout has no short final body line: rewrite every entry for the strict parser
    head, rest = data.split(b"\n--- ", 1)
    lines, entries = head.split(b"\n")[1:], []
    for line in lines:
        if line.startswith(b"-> "):
            entries.append((line.decode()[3:].split(" "), ""))
        else:
            entries[-1] = (entries[-1][0], entries[-1][1] + line.decode())
    mac, payload = rest.split(b"\n", 1)
    fk = None
    for args, body in entries:
        st = (args, agev1.unb64(body))
        tag = {"age": "X25519", "ed": "ssh-ed25519", "rsa": "ssh-rsa", "pw": "scrypt"}[ident["t"]]
        if args[0] != tag:
            continue
        try:
            if ident["t"] == "age":
                fk = agev1.unwrap_x25519(H(ident["sk"]["$b"]), st)
            elif ident["t"] == "ed":
                fk = agev1.unwrap_ed25519_pyage(H(ident["seed"]["$b"]), st)
            elif ident["t"] == "rsa":
                r = rsa[ident["i"]]
                fk = agev1.unwrap_rsa(r["n"], r["e"], r["d"], st)
            else:
                fk = agev1.unwrap_scrypt(H(ident["pw"]["$b"]), st)
            break
        except agev1.AuthError:
            pass
    if fk is None:
        sys.exit("selftest: no entry of a golden file opens")
    eq("golden header", agev1.header_mac(fk, head + b"\n---"), agev1.unb64(mac.decode()))
    pt = hashlib.shake_128(b"m%d" % g["pt"].get("seed", 0)).digest(g["pt"]["len"])
    eq("golden payload", agev1.stream_open(agev1.payload_key(fk, payload[:16]), payload[16:]), pt)
if kinds != {"age", "ed", "rsa", "pw"}:
    sys.exit("selftest: golden files cover only %r" % kinds)

# private key files of the independent writer, read by OpenSSH
if shutil.which("ssh-keygen"):
    d = tempfile.mkdtemp(prefix="vf-self-", dir="/tmp")
    try:
        seed = hashlib.sha256(b"self").digest()
        key = {"t": "ed", "seed": seed, "pk": curve.ed25519_public(seed)}
        for cipher, pw in (("none", b""), ("aes256-ctr", b"secret")):
            path = os.path.join(d, "k")
            with open(path, "wb") as f:
                f.write(sshkey.write(key, b"c", cipher=cipher, pw=pw))
            os.chmod(path, 0o600)
            r = subprocess.run(["ssh-keygen", "-y", "-P", pw.decode(), "-f", path], capture_output=True, timeout=60)
            eq("ssh-keygen " + r.stderr.decode(), r.stdout.split()[:2], sshkey.pub_line(key).split()[:2])
    finally:
        shutil.rmtree(d, ignore_errors=True)
print("selftest ok")
