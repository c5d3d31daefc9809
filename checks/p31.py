import base64
import io
import os
import random

from hypothesis import strategies as st

import age.stream
from age.file import Decryptor, Encryptor
from age.keyloader import load_aliases, load_keys_txt, load_ssh_keys, resolve_public_key
from age.keys.agekey import AgePrivateKey, AgePublicKey
from age.openssh_keys import load_openssh_private_key
from age.utils.asciiarmor import AsciiArmoredInput, AsciiArmoredOutput
from ref import agev1, bech32, curve, sshkey
from vf import gen, kit, resolver, sshkeys, steps, world
from vf.core import HarnessError, Sub, Violation

PID = "P31"
RULE = ("Two to four operations - encryptions, decryptions (also of damaged files), armoring, key, recipient and OpenSSH key loading, STREAM - over one pool of key "
        "objects and files. 'schedules': each runs in a thread of its own and a generated deterministic schedule switches threads between lines or byte code "
        "instructions of the code under test; 'nested': each runs within a read or write call of the stream of another one. Each result is compared with "
        "what the operation has to give alone (independent implementation). Non-trivial: at least five switches, or a nested operation ran.")
ASSUMPTIONS = ["one stream object is used by one thread at a time"]
LABEL = "AGE ENCRYPTED FILE"


def pool(case):
    specs = [dict(s) for s in case["idents"]]
    enc = [kit.enc_key(s) for s in specs]
    dec = [kit.dec_key(s) for s in specs]
    return specs, enc, dec


class Out(io.BytesIO):
    """collects output; calls back at the first write"""

    def __init__(self, cb=None):
        super().__init__()
        self.cb = cb

    def write(self, b):
        n = super().write(b)
        if self.cb:
            cb, self.cb = self.cb, None
            cb()
        return n


class In(io.BytesIO):
    def __init__(self, data, cb, after=1):
        super().__init__(data)
        self.cb, self.n = cb, after

    def _tick(self):
        self.n -= 1
        if self.cb and self.n <= 0:
            cb, self.cb = self.cb, None
            cb()

    def read(self, *a):
        r = super().read(*a)
        self._tick()
        return r

    def readline(self, *a):
        r = super().readline(*a)
        self._tick()
        return r

    def read1(self, *a):
        r = super().read1(*a)
        self._tick()
        return r


def op_encrypt(op, i, env, cb):
    specs, enc, dec = env
    who = [x % len(specs) for x in op["who"]]
    data = kit.material({"len": op["len"], "seed": 1000 + i})
    keys = [enc[w] for w in who]

    def run():
        out = Out(cb)
        target = AsciiArmoredOutput(LABEL, out) if op["armor"] else out
        with Encryptor(keys, target) as e:
            for p in kit.pieces(data, op["cuts"]):
                e.write(p)
        if op["armor"]:
            target.close()
        return out.getvalue()

    def check(r):
        raw = r
        if op["armor"]:
            lines = r.split(b"\n")
            if lines[0] != b"-----BEGIN %s-----" % LABEL.encode() or lines[-2:] != [b"-----END %s-----" % LABEL.encode(), b""]:
                raise Violation("armored output is %r..." % r[:60])
            raw = base64.b64decode(b"".join(lines[1:-2]), validate=True)
        stanzas = agev1.parse_header(raw)[0]
        if [s[0][0] for s in stanzas] != [kit.STANZA_TAG[specs[w]["t"]] for w in who]:
            raise Violation("encrypted to %r instead of %r" % ([s[0][0] for s in stanzas], [specs[w]["t"] for w in who]))
        for w, s in zip(who, stanzas):
            fk = kit.ref_unwrap(specs[w], s, env_kdf(env))
            got = agev1.open_with_key(raw, fk)
            if got != data:
                raise Violation("file of %d bytes holds %d other bytes" % (len(data), len(got)))
    return "encrypt", run, check


def env_kdf(env):
    return KDF[0]


KDF = [agev1.scrypt]


def op_decrypt(op, i, env, cb):
    specs, enc, dec = env
    who = [x % len(specs) for x in op["who"]]
    data = kit.material({"len": op["len"], "seed": 2000 + i})
    fk = kit.bseed("fk", i)[:16]
    stanzas = []
    for j, w in enumerate(who):
        s = specs[w]
        if s["t"] == "pw":
            stanzas.append(wrap_pw(s["pw"], fk, kit.bseed("s", i, j)[:16]))
        else:
            stanzas.append(kit.ref_wrap(s, fk, kit.bseed("w", i, j)))
    blob = agev1.write_file(stanzas, fk, kit.bseed("n", i)[:16], data)
    bad = op["bad"]
    if bad == 1:
        blob = blob[:-1] + bytes([blob[-1] ^ 1])
    elif bad == 2:
        blob = blob[:-1]
    mine = [x % len(specs) for x in op["mine"]]
    keys = [dec[m] for m in mine]
    ok = not bad and any(kit.ident_id(specs[m]) == kit.ident_id(specs[w]) for m in mine for w in who)
    src = blob
    if op["armor"]:
        b = base64.b64encode(blob).decode()
        src = ("-----BEGIN %s-----\n" % LABEL + "".join(b[k:k + 64] + "\n" for k in range(0, len(b), 64)) + "-----END %s-----\n" % LABEL).encode()

    def run():
        s = In(src, cb, 1 + op["len"] % 3)
        if op["armor"]:
            s = AsciiArmoredInput(LABEL, s)
        try:
            d = Decryptor(keys, s)
            first = d.read(7)
            return first + d.read()
        except Exception as e:
            return e

    def check(r):
        if ok and r != data:
            raise Violation("%s instead of %d bytes" % ("%s: %s" % (type(r).__name__, r) if isinstance(r, Exception) else "%d other bytes" % len(r), len(data)))
        if not ok and not isinstance(r, Exception):
            raise Violation("a file which is damaged or for others was decrypted")
    return "decrypt", run, check


def wrap_pw(pw, fk, salt, logn=1):
    k = KDF[0](pw, b"age-encryption.org/v1/scrypt" + salt, logn)
    return (["scrypt", agev1.b64(salt), str(logn)], agev1.aead_seal(k, b"\0" * 12, fk))


def op_keys(op, i, env, cb):
    """key file, recipient file and aliases shared by all"""
    home = os.environ["HOME"] if op["armor"] else ""  # the current directory
    how = op["len"] % 4
    sks = [kit.bseed("file", k) for k in range(4)]
    pubs = [("age", curve.x25519_base(s)) for s in sks]

    def run():
        if how == 0:
            return [("age", bytes(k.public_key().public_bytes())) for k in load_keys_txt(os.path.join(home, "keys.txt"))]
        if how == 1:
            return [resolver.key_id(k) for k in resolve_public_key(os.path.join(home, "recipients.txt"))]
        if how == 2:
            al = load_aliases(os.path.join(home, "aliases.txt"))
            return [resolver.key_id(k) for k in resolve_public_key("team", aliases=al)]
        return sorted(resolver.key_id(k.public_key()) for k in load_ssh_keys(os.path.join(home, "ssh")))

    def check(r):
        want = pubs if how < 3 else sorted(resolver.spec_id(s) for s in SSH)
        if r != want:
            raise Violation("%d keys instead of %d" % (len(r), len(want)) if len(r) != len(want) else "other keys than those in the file")
    return ["key file", "recipient file", "aliases", "ssh keys"][how], run, check


SSH = [{"t": "ed", "seed": kit.bseed("ssh", 1)}, {"t": "rsa", "i": 1}, {"t": "ed", "seed": kit.bseed("ssh", 2)}]


def world_files():
    home = os.environ["HOME"]
    os.chdir(home)
    if os.path.exists(os.path.join(home, "ssh")):
        return
    sks = [kit.bseed("file", k) for k in range(4)]
    world.put(home, "keys.txt", world.keys_file(sks))
    world.put(home, "recipients.txt", "# c\n" + "\n".join(world.age_public(s) for s in sks) + "\n")
    world.put(home, "aliases.txt", "team: %s %s\nother: %s\nteam: %s\nteam: %s\n" % tuple(world.age_public(sks[k]) for k in (0, 1, 3, 2, 3)))
    os.makedirs(os.path.join(home, "ssh"))
    for k, s in enumerate(SSH):
        world.put(home, "ssh/id_%d" % k, world.private_file(s, k))
    world.put(home, "ssh/id_x.pub", "ssh-rsa AAAA\n")


def op_openssh(op, i, env, cb):
    spec = [{"t": "ed", "seed": kit.bseed("o", i)}, {"t": "rsa", "i": (op["len"] + i) % 4}][op["len"] % 2]
    k = sshkeys.expand(spec)
    pw = b"pass%d" % i
    data = sshkey.write(k, b"c", cipher="aes256-ctr", pw=pw, rounds=1) if op["armor"] else sshkey.write(k, b"c")
    bad = op["bad"] == 1 and op["armor"]

    def run():
        try:
            return load_openssh_private_key(data, passphrase=(b"wrong" if bad else pw) if op["armor"] else None)
        except Exception as e:
            return e

    def check(r):
        if bad != isinstance(r, Exception):
            raise Violation("loading an OpenSSH key gave %r" % (r,))
        if not bad:
            sshkeys.same_private(r, k)
    return "openssh", run, check


def op_strings(op, i, env, cb):
    sk = kit.bseed("str", i, op["len"])

    def run():
        k = AgePrivateKey.from_private_string(world.age_secret(sk))
        return k.private_string(), k.public_key().public_string(), AgePublicKey.from_public_string(world.age_public(sk)).public_string(), AgePrivateKey.generate().private_string()

    def check(r):
        if r[:3] != (world.age_secret(sk), world.age_public(sk), world.age_public(sk)):
            raise Violation("key strings %r" % (r[:3],))
        bech32.decode(r[3])
    return "strings", run, check


def op_stream(op, i, env, cb):
    key, data = kit.bseed("k", i), kit.material({"len": op["len"] % 3500 * 40, "seed": i})
    sealed = agev1.stream_seal(key, data)

    def run():
        return bytes(age.stream.stream_encrypt(key, data)), bytes(age.stream.stream_decrypt(key, sealed))

    def check(r):
        if r != (sealed, data):
            raise Violation("STREAM result differs")
    return "stream", run, check


OPS = {"encrypt": op_encrypt, "decrypt": op_decrypt, "keys": op_keys, "openssh": op_openssh, "strings": op_strings, "stream": op_stream}


def verify(name, check, res, what):
    if res is None:
        raise Violation("%s: %s did not finish" % (what, name))
    if res[0] == "err":
        raise Violation("%s: %s ended with %s: %s" % (what, name, type(res[1]).__name__, res[1]))
    try:
        check(res[1])
    except Violation as e:
        raise Violation("%s: %s: %s" % (what, name, e))
    except Exception as e:
        raise Violation("%s: result of %s: %s: %s" % (what, name, type(e).__name__, e))


def schedules(case):
    world_files()
    with kit.fake_scrypt() as fake, kit.quiet():
        KDF[0] = fake.ref
        env = pool(case)
        ops = [OPS[o["op"]](o, i, env, None) for i, o in enumerate(case["ops"])]
        s = steps.Scheduler(random.Random(case["seed"]), case["every"], case["opcodes"])
        results = s.run([o[1] for o in ops])
    names = " | ".join(o[0] for o in ops)
    for (name, _, check), r in zip(ops, results):
        verify(name, check, r, "threads %s" % names)
    return ["threads:%d" % len(ops)] + sorted({o[0] for o in ops}) + (["free-running"] if s.free else []) + (["trivial"] if s.switches < 5 else [])


def nested(case):
    world_files()
    with kit.fake_scrypt() as fake, kit.quiet():
        KDF[0] = fake.ref
        env = pool(case)
        results, done = {}, []
        built = []

        def callback(i):
            def cb():
                if i + 1 < len(built):
                    go(i + 1)
            return cb

        def go(i):
            if i in results:
                return
            results[i] = None
            try:
                results[i] = ("ok", built[i][1]())
            except Exception as e:
                results[i] = ("err", e)
            done.append(i)

        for i, o in enumerate(case["ops"]):
            built.append(OPS[o["op"]](o, i, env, callback(i)))
        go(0)
        inner = len(done) - 1
        for i in range(len(built)):
            go(i)
    names = " within ".join(o[0] for o in reversed(built))
    for i, (name, _, check) in enumerate(built):
        verify(name, check, results[i], "nested %s" % names)
    return ["nested:%d" % inner] + sorted({o[0] for o in built}) + ([] if inner else ["trivial"])


def op(kinds):
    return st.fixed_dictionaries({
        "op": st.sampled_from(kinds), "who": st.lists(st.integers(0, 3), min_size=1, max_size=3), "mine": st.lists(st.integers(0, 3), min_size=1, max_size=3),
        "len": gen.weighted((5, st.integers(0, 200)), (1, st.sampled_from([65535, 65536, 65537, 70000]))), "cuts": gen.cuts(), "armor": gen.weighted((2, st.just(False)), (1, st.just(True))),
        "bad": st.sampled_from([0, 0, 0, 0, 1, 2])})


KINDS = ["encrypt"] * 4 + ["decrypt"] * 4 + ["keys", "keys", "openssh", "strings", "stream"]


def idents():
    return st.lists(gen.ident(True), min_size=1, max_size=4)


def strat_schedules():
    return st.fixed_dictionaries({"idents": idents(), "ops": st.lists(op(KINDS), min_size=2, max_size=4), "seed": gen.position(),
                                  "every": st.sampled_from([1, 2, 3, 5, 10, 30, 100]), "opcodes": gen.weighted((3, st.just(False)), (1, st.just(True)))})


def strat_nested():
    return st.fixed_dictionaries({"idents": idents(), "ops": st.tuples(st.lists(op(["encrypt", "decrypt"]), min_size=1, max_size=3), op(KINDS)).map(lambda t: t[0] + [t[1]])})


SUBS = [Sub("schedules", schedules, strat_schedules, quick=2000, thorough=120000, qshards=5), Sub("nested", nested, strat_nested, quick=2000, thorough=80000, qshards=3)]
