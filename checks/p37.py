import os
import re

from hypothesis import strategies as st

from checks import p36
from ref import agev1
from vf import gen, kit, world
from vf.core import Sub, Violation

PID = "P37"
RULE = ("A generated request (command, input, output, flags, recipients or key files, also ones that look like options) is spelled in a generated way: short and "
        "long options, values attached or not, clusters of flags, repeated options, options before, between and after the arguments, '--', "
        "environment variables named like options set. The outcome has to be that of the request. The same with one usage mistake or a "
        "request for help or the version put at a generated place: nothing is read, written or created then. Non-trivial: more than two arguments.")
ASSUMPTIONS = ["of a repeated option with a value the last counts, a repeated flag counts once"]

SKS = [kit.bseed("argv", i) for i in range(4)]
LABELS = ["team", "-p", "--help", "-a", "--", "-", "--outfile=x", "two words", "\u00e4", "-i"]
ENV = ["PYAGE_ENCRYPT_INFILE", "PYAGE_ENCRYPT_OUTFILE", "PYAGE_OUTFILE", "AGE_OUTFILE", "AGE_PASSWORD", "AGE_ASCII", "PYAGE_ENCRYPT_ASCII", "PYAGE_ENCRYPT_PASSWORD", "PYAGE_DECRYPT_PASSWORD",
       "PYAGE_DECRYPT_ASCII", "AGE_ENCRYPT_ASCII", "AGE_DECRYPT_OUTFILE", "AGE_GENERATE_OUTFILE", "PYAGE_GENERATE_OUTFILE", "INFILE", "OUTFILE", "PASSWORD", "ASCII", "RECIPIENTS", "KEYFILES",
       "AGE_RECIPIENTS", "PYAGE_ENCRYPT_RECIPIENTS", "PYAGE_DECRYPT_KEYFILES", "AGE_KEYFILES", "AGE_PASSPHRASE", "AGE_DEBUG", "DEBUG", "VERBOSE"]


def spell(case, cmd, infile, outfile, pw, armor, positional):
    """-> the arguments"""
    how = iter(case["how"] * 20)
    groups = []

    def valued(names, value, decoys):
        for d in decoys + [value]:
            groups.append(world.option(names, d, next(how)))

    if outfile:
        valued(("-o", "--outfile"), outfile, [])
    if infile:
        valued(("-i", "--infile"), infile, [["other.bin"], ["other.bin", "other.bin"], []][next(how) % 3] if case["repeat"] else [])
    letters = ("a" if armor else "") + ("p" if pw else "")
    if case["repeat"]:
        letters = letters + letters[:next(how) % 3]
    n = next(how)
    if letters and n % 4 == 0:
        groups.append(["-" + letters])
    elif letters and n % 4 == 1:
        groups.append(["-" + letters[::-1]])
    elif letters and n % 4 == 2 and infile and not case["repeat"]:
        # flags, then an option with its value
        groups = [g for g in groups if not (g[0].startswith("-i") or g[0].startswith("--infile"))]
        groups.append(["-" + letters + "i", infile] if n % 8 < 4 else ["-" + letters + "i" + infile])
    else:
        groups += [[{"a": ["-a", "--ascii"], "p": ["-p", "--password"]}[c][next(how) % 2]] for c in letters]
    n = next(how)
    if not case["repeat"]:
        groups = groups[n % (len(groups) + 1):] + groups[:n % (len(groups) + 1)]
    dashed = any(p.startswith("-") and p != "-" for p in positional)
    if dashed or n % 5 == 1:
        front, back = [], list(positional)
        while back and not back[0].startswith("-") and next(how) % 2:
            front.append([back.pop(0)])
        return merge(front, groups, how) + ([["--"] + back] if back else [["--"]])
    return merge([[p] for p in positional], groups, how)


def merge(a, b, how):
    a, b, out = list(a), list(b), []
    while a or b:
        out.append((a if a and (not b or next(how) % 2) else b).pop(0))
    return out


MISTAKES = {"unknown": ["--recipient", "-x", "--pass", "--in", "--output", "-z5", "--no-ascii", "-h", "--armor", "--infil=plain.bin", "--passwordx", "--ascii=1", "-e"], "help": ["--help"],
            "novalue": ["-i", "--infile", "-o", "--outfile"], "missing": ["-imissing", "--infile=missing/x", "-i."]}


def tree(home):
    out = {}
    for root, dirs, files in os.walk(home):
        for f in files:
            p = os.path.join(root, f)
            out[os.path.relpath(p, home)] = (open(p, "rb").read(), os.stat(p).st_mode)
        for d in dirs:
            out[os.path.relpath(os.path.join(root, d), home)] = None
    out.pop(".vf-stdin", None)
    return out


def check(case):
    home = os.environ["HOME"]
    world.clean(home)
    cmd = case["cmd"]
    data = kit.material(case["pt"])
    label = LABELS[case["label"] % len(LABELS)]
    # ":" ends a label
    world.put(home, ".config/age/aliases.txt", "%s: %s %s\nother: %s\n" % (label, world.age_public(SKS[0]), world.age_public(SKS[1]), world.age_public(SKS[3])))
    world.put(home, "other.bin", b"another file")
    world.put(home, "kept.out", b"old content")
    pw = "typed phrase" if case["pw"] and cmd != "generate" else None
    armor = case["armor"] and cmd != "generate"
    infile = {"file": "plain.bin", "odd": "-in put=.bin", "std": None, "dash": "-"}[case["infile"]]
    outfile = {"file": "res.out", "over": "kept.out", "std": None, "dash": "-"}[case["outfile"]]
    kw = {"passphrases": [pw]} if pw else {}
    positional, specs = [], []
    fk, nonce = kit.bseed("fk", 1)[:16], kit.bseed("fk", 2)[:16]
    content = data
    if cmd == "encrypt":
        for n in case["args"]:
            positional.append([label, label, world.age_public(SKS[2])][n % 3])
        if not pw and not positional:
            positional = [label]
        specs = [{"t": "age", "sk": k} for k in ([SKS[0], SKS[1]] if label in positional else []) + ([SKS[2]] if len(set(positional) - {label}) else [])] + \
            ([{"t": "pw", "pw": pw.encode()}] if pw else [])
    elif cmd == "decrypt":
        spec = {"t": "age", "sk": SKS[case["label"] % 2]}
        stanzas = [kit.ref_wrap(spec, fk, kit.bseed("rnd"))]
        content = agev1.write_file(stanzas, fk, nonce, data)
        if armor:
            content = p36.armored(content, 0)
        for n in case["args"]:
            name = ["k1.txt", "-k 2.txt", "--help"][n % 3]
            world.put(home, name, world.keys_file([kit.bseed("decoy", n)]))
            positional.append(name)
        if positional:
            world.put(home, positional[case["label"] % len(positional)], world.keys_file([spec["sk"]]))
        else:
            world.put(home, ".config/age/keys.txt", world.keys_file([spec["sk"]]))
    if cmd == "generate":
        infile = None
    elif infile in ("plain.bin", "-in put=.bin"):
        world.put(home, infile, content)
    else:
        kw["stdin"] = content
    env = {ENV[i % len(ENV)]: v for i, v in case["env"]}
    groups = spell(case, cmd, infile, outfile, pw, armor, positional)
    mistake = case["mistake"]
    expect = "done"
    argv = [cmd]
    if mistake:
        kind, n = mistake
        if cmd == "generate" and kind == "missing":
            kind = "unknown"
        before = tree(home)
        cut = n % (len(groups) + 1)
        if ["--"] == [g[0] for g in groups[-1:]] and cut == len(groups):
            cut -= 1
        expect = "error"
        if kind == "version":
            argv, expect = ["--version"] + argv, "version"
        elif kind == "help0":
            argv, expect = ["--help"] + argv, "help0"
        elif kind == "command":
            argv = [["encrypt2", "Decrypt", "enc", "", "age1xyz", "-i", "keygen"][n % 7]]
        elif kind == "extra" and cmd == "generate":
            groups.insert(cut, ["extra"])
        else:
            kind = kind if kind in MISTAKES else "unknown"
            tok = MISTAKES[kind][n // 7 % len(MISTAKES[kind])]
            if kind == "novalue":
                if cmd == "generate":
                    tok = "-o"
                # last of all, before a "--" it would take that as its value
                cut = len(groups)
                if groups and groups[-1][0] == "--":
                    groups = [g for g in groups if g[0] != "--"]
                    cut = len(groups)
            elif kind == "missing":
                # the last one counts
                groups = [g for g in groups if not re.match("-[ap]*i|--infile", g[0]) or g[0] == "--"]
                cut = min(cut, len(groups) - (groups[-1:] != [] and groups[-1][0] == "--"))
            elif kind == "help":
                expect = "help"
            groups.insert(cut, [tok])
    argv += [a for g in groups for a in g]
    if mistake:
        kw.pop("passphrases", None)
    r = world.run(argv, home, env=env, **kw)
    what = "pyage %s" % " ".join(ascii(a) for a in argv)
    if expect != "done":
        if tree(home) != before:
            changed = sorted(k for k in set(before) | set(tree(home)) if before.get(k) != tree(home).get(k))
            raise Violation("%s (%s) changed %s" % (what, expect, changed))
        if expect == "error":
            if r.rc == 0 or r.out or not r.err.strip():
                raise Violation("%s: a mistake is not refused with a message: %r" % (what, r))
        elif r.rc != 0:
            raise Violation("%s: %r" % (what, r))
        else:
            text = r.out.decode("utf-8")
            want = {"version": ["version"], "help0": ["encrypt", "decrypt", "generate", "--version"],
                    "help": ["--outfile"] + {"encrypt": ["--infile", "--password", "--ascii", "-p", "-a", "-i", "-o", "RECIPIENTS", "aliases.txt", "ssh-rsa", "age1"],
                                             "decrypt": ["--infile", "--password", "--ascii", "-p", "-a", "-i", "-o", "KEYFILES", "keys.txt", ".ssh"], "generate": ["-o", "permissions"]}[cmd]}[expect]
            lost = [w for w in want if w not in text]
            if lost:
                raise Violation("%s does not mention %s: %r" % (what, lost, text[:300]))
        return [expect, cmd] + (["trivial"] if len(argv) < 3 else [])
    if r.rc != 0:
        raise Violation("%s failed: %r" % (what, r))
    if outfile in (None, "-"):
        got = r.out
        left = open(os.path.join(home, "kept.out"), "rb").read()
        if left != b"old content":
            raise Violation("%s changed a file that was not named" % what)
    else:
        got = open(os.path.join(home, outfile), "rb").read()
        if r.out:
            raise Violation("%s wrote to standard output too: %r" % (what, r))
    if cmd == "decrypt":
        if got != data:
            raise Violation("%s: %d bytes instead of the %d encrypted ones" % (what, len(got), len(data)))
    elif cmd == "generate":
        if not re.search(rb"^AGE-SECRET-KEY-1[0-9A-Z]{58}$", got, re.M):
            raise Violation("%s wrote no key: %r" % (what, got[:200]))
    else:
        if got.startswith(b"-----BEGIN") != armor:
            raise Violation("%s: %r" % (what, got[:60]))
        try:
            raw = p36.dearmor(got, armor)
            stanzas = agev1.parse_header(raw)[0]
        except (ValueError, agev1.FormatError) as e:
            raise Violation("%s: the output cannot be read: %r" % (what, e))
        fks = set()
        for s in specs:
            found = [fk for fk in (p36.opened(s, z, False) for z in stanzas) if fk is not None]
            if not found:
                raise Violation("%s: a recipient (%s) has no entry" % (what, s["t"]))
            fks.update(found)
        if len(stanzas) != len(specs) + sum(2 if p == label else 1 for p in positional) - len([s for s in specs if s["t"] == "age"]) and len(stanzas) != len(specs):
            raise Violation("%s: %d entries for %d recipients" % (what, len(stanzas), len(specs)))
        try:
            if agev1.open_with_key(raw, fks.pop()) != data:
                raise Violation("%s: the file holds another input" % what)
        except (agev1.AuthError, agev1.FormatError) as e:
            raise Violation("%s: the output cannot be decrypted: %r" % (what, e))
    return ["done", cmd] + (["trivial"] if len(argv) < 3 else []) + (["dashed"] if "--" in argv else [])


def strategy():
    return st.fixed_dictionaries({
        "cmd": st.sampled_from(["encrypt", "encrypt", "encrypt", "decrypt", "decrypt", "generate"]), "pt": gen.small_plaintext(300), "label": st.integers(0, 29), "pw": st.booleans(), "armor": st.booleans(),
        "infile": st.sampled_from(["file", "file", "odd", "std", "dash"]), "outfile": st.sampled_from(["file", "file", "over", "std", "dash"]),
        "args": st.lists(st.integers(0, 5), max_size=4), "repeat": st.booleans(), "how": st.lists(gen.position(), min_size=12, max_size=16),
        "env": st.lists(st.tuples(gen.position(), st.sampled_from(["1", "other.bin", "kept.out", "x", "", "true", "other"])), max_size=8),
        "mistake": gen.weighted((3, st.none()), (4, st.tuples(st.sampled_from(["unknown", "help", "novalue", "missing", "version", "help0", "command", "extra", "help", "unknown"]), gen.position())))})


SUBS = [
    Sub("spellings", check, strategy, quick=1600, thorough=40000, qshards=6, budget=(60, 1200)),
]
