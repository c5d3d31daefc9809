import os

from hypothesis import strategies as st

from vf import cli, gen, kit, ordinary, world
from vf.core import Sub, Violation

PID = "P12"
RULE = ("'large' takes inputs of 16 to 64 MiB. Real encrypt and decrypt commands, each in a process of its own and a generated home directory: recipients as strings, files and "
        "aliases, passphrases typed on a pseudo terminal, every place for input, output and identities, every option spelling, decoy keys "
        "around. 'pipeline' forks a loaded interpreter (scrypt replaced by a stand-in), 'fresh' starts the program and uses the real scrypt. "
        "Non-trivial: non-empty plaintext.")
ASSUMPTIONS = ["aliases hold age keys and file names (values are split at blanks, so SSH keys cannot be written there)",
               "passphrases are non-empty and without control characters, as typed on a terminal"]


def targets(home, case, which, data):
    """-> (input args, run keywords, output args, function fetching the output)"""
    src, dst, how = case[which + "_in"], case[which + "_out"], case["how"]
    args, kw = [], {}
    name = {"enc": ("plain.bin", "out.age"), "dec": ("out2.age", "plain2.bin")}[which]
    if src == "file":
        args += world.option(("-i", "--infile"), name[0], how)
        world.put(home, name[0], data)
        kw["stdin"] = b"not this"
    elif src == "abs":
        args += world.option(("-i", "--infile"), world.put(home, "sub dir/" + name[0], data), how + 1)
    else:
        if src == "dev":
            args += world.option(("-i", "--infile"), "/dev/stdin", how)
        if src == "dash":
            args += world.option(("-i", "--infile"), "-", how)
        kw["stdin"] = data
        kw["stdin_kind"] = "file" if how % 5 == 1 else "pipe"
    out_args = []
    if dst == "same" and src in ("file", "abs"):
        # the output replaces the input
        same = name[0] if src == "file" else os.path.join(home, "sub dir", name[0])
        out_args = world.option(("-o", "--outfile"), same, how // 4)
        fetch = lambda r: (open(os.path.join(home, same), "rb").read(), r.out)
    elif dst in ("file", "over", "same"):
        out_args = world.option(("-o", "--outfile"), name[1], how // 4)
        if dst == "over":
            world.put(home, name[1], b"old content " * (how * 50 + 1))
        fetch = lambda r: (open(os.path.join(home, name[1]), "rb").read(), r.out)
    elif dst == "redirect":
        kw["stdout"] = os.path.join(home, name[1])
        fetch = lambda r: (open(os.path.join(home, name[1]), "rb").read(), b"")
    else:
        if dst == "dash":
            out_args = world.option(("-o", "--outfile"), "-", how // 4)
        fetch = lambda r: (r.out, b"")
    return args, kw, out_args, fetch


def ask(kw, passphrase, case, src):
    """the passphrase is typed on the terminal; without one, given on standard input (then free, the data has its own file)"""
    if case.get("terminal", True) or src not in ("file", "abs"):
        kw["passphrases"] = [passphrase]
    else:
        kw["stdin"] = passphrase.encode("utf-8") + b"\n"


def shuffle(groups, positional, how):
    """options before, after or between positional arguments"""
    opts = groups[how % len(groups):] + groups[:how % len(groups)] if groups else []
    cut = how % (len(opts) + 1)
    out = [a for g in opts[:cut] for a in g]
    pos = list(positional)
    if how % 7 == 3:
        return out + [a for g in opts[cut:] for a in g] + (["--"] if pos else []) + pos
    return out + pos[:how % 2 + 1] + [a for g in opts[cut:] for a in g] + pos[how % 2 + 1:]


def flags(case, pw):
    how = case["how"]
    a = ["-a", "--ascii"][how % 2] if case["armor"] else None
    p = ["-p", "--password"][how // 2 % 2] if pw else None
    if a and p and how % 3 == 0:
        return [["-ap" if how % 2 else "-pa"]]
    return [[x] for x in (a, p) if x]


def encryption(case, home, real=False):
    """the encrypt command -> (its output, plaintext, indices of the recipient keys, passphrase)"""
    world.clean(home)
    keys, recips, how = case["keys"], case["recips"], case["how"]
    data = kit.material(case["pt"])
    alias, args, used = [], [], []
    for n, r in enumerate(recips):
        sel = [i % len(keys) for i in r["keys"]]
        specs = [keys[i] for i in sel]
        kind = r["kind"]
        if kind == "alias" and all(s["t"] == "age" for s in specs):
            label = "alias%d" % n if how % 3 else "%s %d.x" % (r["label"], n)
            cut = r["style"] % (len(specs) + 1)
            vals = [world.public_string(s) for s in specs]
            alias += ["# " + label, "%s: %s" % (label, " ".join(vals[:cut])), "", " %s:\t%s " % (label, "  ".join(vals[cut:]))]
            args.append(label)
        elif kind in ("file", "alias", "aliasfile"):
            path = world.put(home, "r %d.pub" % n if kind == "file" else "r%d.pub" % n, world.recipients_file(specs, r["style"]))
            if kind == "aliasfile" or kind == "alias":
                alias += ["f%d: %s" % (n, path)]
                args.append("f%d" % n)
            else:
                args.append(path if r["style"] % 2 else os.path.basename(path))
        else:
            sel, specs = sel[:1], specs[:1]
            s = world.public_string(specs[0], ["", "me@there", "two words"][r["style"] % 3])
            args.append(["%s", " %s ", "%s\n"][r["style"] % 5 % 3] % s)
        used += sel
    alias += ["unused: " + world.age_public(kit.bseed("unused"))]
    if how % 4:
        world.put(home, ".config/age/aliases.txt", "\n".join(alias) + "\n" * (how % 2))
    elif any(r["kind"].startswith("alias") for r in recips):
        world.put(home, ".config/age/aliases.txt", "\r\n".join(alias) + "\n")
    pw = case["pw"]
    if not args and not pw:
        pw = "default passphrase"

    # ---- encrypt
    ins, kw, outs, fetch = targets(home, case, "enc", data)
    if pw:
        ask(kw, pw, case, case["enc_in"])
    r = world.run(["encrypt"] + shuffle([g for g in (ins, outs) if g] + flags(case, pw), args, how), home, real, **kw)
    if r.rc != 0:
        raise Violation("encrypt failed: %r" % r)
    blob, other = fetch(r)
    if other:
        raise Violation("encrypt with an output file wrote to standard output: %r" % other[:80])
    if case["armor"]:
        if not blob.startswith(b"-----BEGIN AGE ENCRYPTED FILE-----\n") or not blob.endswith(b"-----END AGE ENCRYPTED FILE-----\n"):
            raise Violation("armored output starts %r and ends %r" % (blob[:50], blob[-50:]))
    elif not blob.startswith(b"age-encryption.org/v1\n"):
        raise Violation("output starts %r" % blob[:40])
    if case["enc_in"] == "file" and case["enc_out"] != "same" and open(os.path.join(home, "plain.bin"), "rb").read() != data:
        raise Violation("encrypt changed its input file")
    return blob, data, used, pw


def decryption(case, home, blob, used, pw, real=False):
    """the decrypt command with one identity, decoys around it -> (its output, what went to standard output, who)"""
    keys, how = case["keys"], case["how"]
    world.clean(home)
    who = case["who"] % (len(used) + bool(pw))
    where = case["where"]
    typed, keyfile_args = None, []
    lines = [kit.bseed("decoy", i) for i in range(case["decoys"] % 4)]
    if who == len(used):
        typed = pw
        if how % 3 == 0:
            world.put(home, ".config/age/keys.txt", world.keys_file(lines, how))
    else:
        spec = keys[used[who]]
        if spec["t"] == "age":
            lines.insert(case["pos"] % (len(lines) + 1), spec["sk"])
            text = world.keys_file(lines, case["style"])
            if where % 2:
                world.put(home, ".config/age/keys.txt", text)
                if how % 3 == 1:
                    keyfile_args = [world.put(home, "more.txt", world.keys_file([kit.bseed("d", 1)], how))]
            else:
                keyfile_args = [os.path.basename(world.put(home, "k1.txt", world.keys_file([kit.bseed("d", 2)], how))),
                                world.put(home, "k 2.txt", text)][how % 2:]
                if how % 4 == 2:
                    world.put(home, ".config/age/keys.txt", "# none yet\n")
        else:
            world.put(home, ".ssh/id_" + ["rsa", "ed25519", "mine", "x.y"][where % 4], world.private_file(spec, case["style"]), 0o600)
            world.put(home, ".ssh/id_%s.pub" % ["rsa", "ed25519", "mine", "x.y"][where % 4], world.public_string(spec, "c") + "\n")
            if how % 2:
                world.put(home, ".config/age/keys.txt", world.keys_file(lines, how))
        if pw and how % 3 == 1:
            typed = "wrong " + pw  # another matching identity is there
    for d in range(case["decoys"] // 4):
        spec = {"t": "ed", "seed": kit.bseed("sshdecoy", d)} if d % 2 else {"t": "rsa", "i": 5 + d}
        if all(kit.ident_id(k) != kit.ident_id(spec) for k in keys):
            world.put(home, ".ssh/id_decoy%d" % d, world.private_file(spec, case["style"] + d))

    ins, kw, outs, fetch = targets(home, case, "dec", blob)
    if typed:
        ask(kw, typed, case, case["dec_in"])
    r = world.run(["decrypt"] + shuffle([g for g in (ins, outs) if g] + flags(case, typed), keyfile_args, how // 3), home, real, **kw)
    if r.rc != 0:
        raise Violation("decrypt failed: %r" % r)
    return fetch(r) + (who,)


def pipeline(case, real=False):
    home = os.environ["HOME"]
    world.clean(home)
    blob, data, used, pw = encryption(case, home, real)
    got, other, who = decryption(case, home, blob, used, pw, real)
    keys = case["keys"]
    if got != data:
        raise Violation("decrypted %d bytes differ from the %d encrypted ones at %d" % (len(got), len(data), kit.first_diff(got, data)))
    if other:
        raise Violation("decrypt with an output file wrote to standard output: %r" % other[:80])
    return (["trivial"] if not data else []) + ["in:" + case["enc_in"], "out:" + case["enc_out"], "armored" if case["armor"] else "binary",
                                               "identity:" + ("pw" if who == len(used) else keys[used[who]]["t"]), "recipients:%d" % len(case["recips"])] + \
        (["passphrase"] if pw else [])


def strategy(pt):
    recip = st.fixed_dictionaries({"kind": st.sampled_from(["string", "string", "file", "alias", "aliasfile"]),
                                   "keys": st.lists(st.integers(0, 5), min_size=1, max_size=4),
                                   "label": st.sampled_from(["bob", "age1x", "ssh-rsa", "a@b", "#x".strip("#")]), "style": st.integers(0, 41)})
    src = st.sampled_from(["stdin", "stdin", "dash", "file", "abs", "file", "dev"])
    dst = st.sampled_from(["stdout", "stdout", "dash", "file", "over", "redirect", "same", "same"])
    return st.fixed_dictionaries({
        "keys": st.lists(world.pub_ident(), min_size=1, max_size=4, unique_by=kit.ident_id), "recips": st.lists(recip, max_size=3),
        "pw": st.one_of(st.none(), st.none(), world.passphrase_text()), "pt": pt, "armor": st.booleans(), "terminal": st.booleans(), "enc_in": src, "enc_out": dst, "dec_in": src, "dec_out": dst,
        "how": gen.position(), "who": gen.position(), "where": st.integers(0, 7), "decoys": st.integers(0, 11), "pos": st.integers(0, 5), "style": st.integers(0, 41)})


LARGE = (2**24 - 1, 2**24 + 1, 20_000_003, 2**25 + 12345)


def large(tier):
    """inputs of many megabytes, every way in and out"""
    n = 0
    for size in LARGE + ((2**26 + 1,) if tier == "quick" else (2**26 + 1, 2**27 + 65536, 150_000_000)):
        for armor in (False, True):
            src = ["stdin", "file", "dev", "abs", "dash"]
            dst = ["stdout", "file", "redirect", "over", "same"]
            yield {"keys": [{"t": "age", "sk": kit.bseed("large", n)}], "recips": [{"kind": "string", "keys": [0], "label": "x", "style": 1}],
                   "pw": None, "pt": {"len": size, "pat": ["rand", "zero"][n % 2], "seed": n}, "armor": armor, "terminal": True,
                   "enc_in": src[n % 5], "enc_out": dst[n // 2 % 5], "dec_in": src[(n + 1) % 5], "dec_out": dst[(n // 3 + 1) % 5],
                   "how": n * 7919 % 1000, "who": 0, "where": n, "decoys": 0, "pos": 0, "style": n}
            n += 1


def contents(tier):
    """plaintexts which begin or end with something special (line ends, byte order marks, parts of age files, zeros)"""
    n = 0
    src, dst = ["stdin", "file", "dev", "abs", "dash"], ["stdout", "file", "redirect", "over", "same"]
    for size in [3, 300] if tier == "quick" else [1, 2, 3, 40, 300, 65536, 65600, 200000]:
        for pat in ["zero", "ff", "text"] + [c for c in gen.CONTENTS if tier != "quick" or not c.startswith("both")]:
            for armor in (False, True) if tier != "quick" else (n % 3 == 0,):
                yield {"keys": [{"t": "age", "sk": kit.bseed("contents", n)}], "recips": [{"kind": "string", "keys": [0], "label": "x", "style": 1}],
                       "pw": None, "pt": {"len": size, "pat": pat, "seed": n}, "armor": armor, "terminal": True,
                       "enc_in": src[n % 5], "enc_out": dst[n // 2 % 5], "dec_in": src[(n + 1) % 5], "dec_out": dst[(n // 3 + 1) % 5],
                       "how": n * 7919 % 1000, "who": 0, "where": n, "decoys": 0, "pos": 0, "style": n}
            n += 1


SUBS = [
    Sub("contents", pipeline, enum=contents, qshards=2, tshards=4),
    Sub("ordinary-user", lambda c: ordinary.run(c, True), enum=lambda tier: ordinary.cases(ordinary.WORKS, tier, "ed")),
    Sub("large", pipeline, enum=large, qshards=2, budget=(60, 1500)),
    Sub("pipeline", pipeline, lambda: strategy(gen.plaintext(3)), quick=1000, thorough=30000, qshards=6, budget=(60, 1500)),
    Sub("fresh", lambda c: pipeline(c, True), lambda: strategy(gen.plaintext(2)), quick=60, thorough=1500, qshards=2, budget=(40, 1200)),
]
