import base64
import functools
import os

from hypothesis import strategies as st

from checks import p12
from ref import agev1
from vf import gen, kit, world
from vf.core import Sub, Violation

PID = "P36"
RULE = ("Real commands as in P12, against the independent implementation instead of each other. 'recipients': what encrypt writes is taken "
        "apart: every entry is opened by exactly one of the named recipients or by the exact UTF-8 bytes of the typed passphrase, none is "
        "missing, all give the one file key, and the payload is the input. 'foreign': files written by the reference, with unknown and "
        "foreign entries around, are decrypted with every kind of identity. 'many': up to 257 (thorough 2000) recipients. 'typed': passphrases that differ only in case, normal form, "
        "blanks, or the last of very many characters are different passphrases. Non-trivial: non-empty plaintext.")
ASSUMPTIONS = ["passphrases are non-empty and without control characters, as typed on a terminal"]


def kdf(password, salt, logn):
    return kit.FakeScrypt().ref(password, salt, logn)


@functools.lru_cache(None)
def standin():
    """does the code under test go through the replaced function?"""
    with kit.fake_scrypt() as fake:
        return fake.effective


def dearmor(blob, armor):
    if not armor:
        return blob
    return base64.b64decode(b"".join(blob.strip().split(b"\n")[1:-1]), validate=True)


def opened(spec, stanza, real):
    """the file key, or None"""
    if stanza[0][0] != kit.STANZA_TAG[spec["t"]]:
        return None
    for f in ((agev1.scrypt,) if real else (kdf, agev1.scrypt)) if spec["t"] == "pw" else (None,):
        try:
            return kit.ref_unwrap(spec, stanza, f)
        except (agev1.AuthError, agev1.FormatError):
            pass
    return None


def recipients(case, real=False):
    home = os.environ["HOME"]
    world.clean(home)
    blob, data, used, pw = p12.encryption(case, home, real)
    specs = [case["keys"][i] for i in used] + ([{"t": "pw", "pw": pw.encode("utf-8")}] if pw else [])
    try:
        raw = dearmor(blob, case["armor"])
        stanzas, auth, mac, pos = agev1.parse_header(raw)
    except (agev1.FormatError, ValueError) as e:
        raise Violation("the file cannot be read: %r" % e)
    rest, keys = list(specs), set()
    for n, stanza in enumerate(stanzas):
        for i, s in enumerate(rest):
            fk = opened(s, stanza, real)
            if fk is not None:
                keys.add(fk)
                del rest[i]
                break
        else:
            # a recipient named once may still have several entries
            twice = [s for s in specs if opened(s, stanza, real) is not None]
            raise Violation("entry %d of %d (%s) belongs to no %srecipient" % (n, len(stanzas), stanza[0][0], "further " if twice else ""))
    # recipients named several times need not be there several times
    missing = [s for s in rest if not any(opened(s, z, real) is not None for z in stanzas)]
    if missing:
        raise Violation("%d of %d recipients have no entry: %s" % (len(missing), len(specs), sorted({s["t"] for s in missing})))
    if len(keys) != 1:
        raise Violation("the entries hold %d file keys" % len(keys))
    try:
        got = agev1.open_with_key(raw, keys.pop())
    except (agev1.AuthError, agev1.FormatError) as e:
        raise Violation("the reference implementation cannot decrypt the file: %r" % e)
    if got != data:
        raise Violation("the file holds %d other bytes than the input of %d" % (len(got), len(data)))
    return (["trivial"] if not data else []) + ["entries:%d" % min(len(stanzas), 6), "armored" if case["armor"] else "binary"] + sorted({s["t"] for s in specs})


def armored(raw, how):
    text = base64.b64encode(raw).decode()
    lines = [text[i:i + 64] for i in range(0, len(text), 64)]
    nl = "\r\n" if how % 5 == 4 else "\n"
    return (nl.join(["-----BEGIN AGE ENCRYPTED FILE-----"] + lines + ["-----END AGE ENCRYPTED FILE-----"]) + ("" if how % 3 == 1 else nl)).encode()


def foreign(case):
    home = os.environ["HOME"]
    world.clean(home)
    keys, pw, how = case["keys"], case["pw"], case["how"]
    data = kit.material(case["pt"])
    seed = kit.bseed("foreign", how)
    fk, nonce = seed[:16], seed[16:]
    used = [i % len(keys) for r in case["recips"] for i in r["keys"]][:6] or ([] if pw else [0])
    stanzas = [kit.ref_wrap(keys[i], fk, kit.bseed("rnd", how, n)) for n, i in enumerate(used)]
    if pw:
        salt, logn, k = kit.bseed("salt", how)[:16], 18 if standin() else 9, kdf if standin() else agev1.scrypt
        stanzas.append((["scrypt", agev1.b64(salt), str(logn)], agev1.aead_seal(k(pw.encode("utf-8"), agev1.S_LABEL + salt, logn), agev1.Z12, fk)))
    for g in case["grease"]:
        stanzas.insert(how % (len(stanzas) + 1), (g["args"], g["body"]))
    for n in range(case["others"]):
        stranger = [{"t": "age", "sk": kit.bseed("stranger", n)}, {"t": "ed", "seed": kit.bseed("stranger", n)}, {"t": "rsa", "i": 3}][n % 3]
        if all(kit.ident_id(stranger) != kit.ident_id(k) for k in keys):
            stanzas.insert(how // 7 % (len(stanzas) + 1), kit.ref_wrap(stranger, fk, kit.bseed("rnd2", n)))
    raw = agev1.write_file(stanzas, fk, nonce, data)
    blob = armored(raw, how) if case["armor"] else raw
    got, other, who = p12.decryption(case, home, blob, used, pw)
    if got != data:
        raise Violation("decrypted %d bytes differ from the %d written by the reference at %d" % (len(got), len(data), kit.first_diff(got, data)))
    if other:
        raise Violation("decrypt with an output file wrote to standard output: %r" % other[:80])
    return (["trivial"] if not data else []) + ["identity:" + ("pw" if who == len(used) else keys[used[who]]["t"]), "entries:%d" % min(len(stanzas), 8)]


PAIRS = [("e\u0301", "\u00e9"), ("\ufb01x", "fix"), ("PassWord", "password"), ("stra\u00dfe", "strasse"), ("\u212b", "\u00c5"), ("x", "x "), ("x", " x"), ("a b", "a  b"), ("x", "x\u00a0"),
         ("x", "\ufeffx"), ("x", "x\u200b"), ("\u0130", "i"), ("1", "\u0661"), ("\uff41", "a"), ("'x'", "x"), ("\\n", "n"), ("~", "/root"), ("$HOME", "~"), ("\U0001f511", "\U0001f512"),
         ("x\u00e4", "x\u00e5"), ("x?", "x\u00e4")] + \
    [("y" * n, "y" * n + "z") for n in (7, 8, 15, 16, 31, 32, 55, 56, 63, 64, 71, 72, 99, 100, 127, 128, 254, 255, 256, 511, 512, 1023, 1024, 2047, 2048, 4000)]


def typed(case):
    """a passphrase that is not quite the same does not open the file"""
    home = os.environ["HOME"]
    world.clean(home)
    pair = PAIRS[case["pair"]]
    pair = pair[::-1] if case["swap"] else pair
    data = b"secret %d" % case["pair"]
    r = world.run(["encrypt", "-p"] + (["-a"] if case["armor"] else []) + ["-o", "f.age"], home, stdin=data, passphrases=[pair[0]])
    if r.rc != 0:
        raise Violation("encrypt with the passphrase %r failed: %r" % (pair[0][:30], r))
    args = ["decrypt", "-p"] + (["-a"] if case["armor"] else []) + ["-i", "f.age"]
    r = world.run(args, home, passphrases=[pair[1]])
    if r.rc == 0 or r.out:
        raise Violation("a file for the passphrase %s was decrypted with %s: %r" % (show(pair[0]), show(pair[1]), r))
    r = world.run(args, home, passphrases=[pair[0]])
    if r.rc != 0 or r.out != data:
        raise Violation("the passphrase %s does not open its file: %r" % (show(pair[0]), r))
    return ["length:%d" % min(x for x in (1, 10, 100, 1000, 5000) if len(pair[0]) <= x)]


def show(s):
    return ascii(s if len(s) < 40 else s[:10] + "..%d.." % len(s) + s[-3:])


def enum_typed(tier):
    for n in range(len(PAIRS)):
        for swap in (False, True):
            yield {"pair": n, "swap": swap, "armor": (n + swap) % 2 == 1}


def strategy(foreign):
    s = p12.strategy(gen.plaintext(2))
    if not foreign:
        return s
    return st.tuples(s, st.lists(gen.grease(), max_size=3), st.integers(0, 3)).map(lambda t: dict(t[0], grease=t[1], others=t[2]))


def many(case):
    """every key of a long list, alias or command line is a recipient"""
    home = os.environ["HOME"]
    world.clean(home)
    n, how = case["n"], case["how"]
    sks = [kit.bseed("p36 many", i) for i in range(n)]
    pubs = [world.age_public(s) for s in sks]
    args = ["encrypt"]
    if how == "file":
        args.append(world.put(home, "list.txt", "".join(p + "\n" for p in pubs)))
    elif how == "files":
        args += [world.put(home, "l%d" % i, p + "\n") for i, p in enumerate(pubs)]
    elif how == "alias":
        world.put(home, ".config/age/aliases.txt", "team: %s\n" % " ".join(pubs))
        args.append("team")
    elif how == "alias-lines":
        world.put(home, ".config/age/aliases.txt", "".join("team: %s\n" % p for p in pubs))
        args.append("team")
    else:
        args += pubs
    pw = case.get("pw")
    if pw:
        world.put(home, "in.txt", "for all")
        r = world.run(args[:1] + ["-p", "-i", "in.txt"] + args[1:], home, passphrases=["many and one"])
    else:
        r = world.run(args, home, stdin=b"for all")
    if r.rc:
        raise Violation("encrypt for %d recipients (%s): %r" % (n, how, r))
    stanzas, auth, mac, pos = agev1.parse_header(r.out)
    if len(stanzas) != n + bool(pw):
        raise Violation("encrypt for %d recipients (%s) %s: %d entries" % (n, how, "and a passphrase" * bool(pw), len(stanzas)))
    if pw:
        own = [z for z in stanzas if z[0][0] == "scrypt"]
        fk = opened({"t": "pw", "pw": b"many and one"}, own[0], False) if len(own) == 1 else None
        if fk is None or agev1.open_with_key(r.out, fk) != b"for all":
            raise Violation("encrypt for %d recipients (%s): the passphrase does not open the file (%d entries)" % (n, how, len(own)))
        stanzas.remove(own[0])
    for i in sorted({0, 1, n // 3, n // 2, n - 2, n - 1}):
        fk = next((f for f in (opened({"t": "age", "sk": sks[i]}, s, False) for s in stanzas[i:] + stanzas[:i]) if f), None)
        if fk is None or agev1.open_with_key(r.out, fk) != b"for all":
            raise Violation("recipient %d of %d (%s) cannot decrypt" % (i, n, how))
    return [how]


def enum_many(tier):
    for n in (10, 17, 33, 65, 101, 129, 257) + (() if tier == "quick" else (513, 1025, 2000)):
        for how in ("file", "files", "alias", "alias-lines", "args"):
            yield {"n": n, "how": how}
        yield {"n": n, "how": ("file", "args", "alias")[n % 3], "pw": True}


SUBS = [
    Sub("many", many, enum=enum_many),
    Sub("recipients", recipients, lambda: strategy(False), quick=600, thorough=15000, qshards=3, budget=(45, 1200)),
    Sub("foreign", foreign, lambda: strategy(True), quick=700, thorough=15000, qshards=3, budget=(45, 1200)),
    Sub("typed", typed, enum=enum_typed, qshards=2, budget=(60, 600)),
    Sub("fresh", lambda c: recipients(c, True), lambda: strategy(False), quick=25, thorough=600, budget=(40, 1200)),
]
