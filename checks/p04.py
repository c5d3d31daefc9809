from hypothesis import strategies as st

from ref import agev1
from vf import gen, kit
from vf.core import Sub, Violation

PID = "P04"
LEVEL = "fault_enumeration"
RULE = ("A file over random recipients (four types, unknown entries), written by the code under test or by the reference "
        "writer, then 1-3 header edits: byte and bit edits, line edits (drop, duplicate, swap, blank or white-space lines, "
        "trailing blanks, CR, case, re-wrapping, joining, splitting), entry edits (add unknown, copy from another file for "
        "the same reader, drop, swap), alternative encodings (padding, trailing bits, number forms) and authentication-code "
        "edits (bits, truncation, extension, removal, the code of another file). Enumeration: every bit of the header of "
        "small files of each type, every byte deleted or replaced by white space and look-alikes (separators: by every other byte). 'large-headers': headers of up to 1100 (thorough 5000) entries or 400 KB, changed at one place. Non-trivial: the header bytes before the authentication "
        "line, or the decoded authentication code, actually changed.")
ASSUMPTIONS = ["scrypt replaced by a keyed-hash stand-in for files written by the code under test"]


def build(case, k=0):
    """-> (head: bytes up to and including '---', mac, payload)"""
    data = kit.material({"len": case["len"], "seed": 3})
    if case["own"]:
        blob = kit.encrypt([kit.enc_key(s) for s in case["recips"]], data, (), {"mode": "drbg", "seed": case["seed"] + k})
        try:
            _, auth, mac, pos = agev1.parse_header(blob)
        except agev1.FormatError as e:
            raise Violation("file written is not parseable: %s" % e)
        return auth, mac, blob[pos:]
    fk = kit.bseed("fk", case["seed"], k)[:16]
    stanzas = [kit.ref_wrap(s, fk, kit.bseed("w", case["seed"], k, i), 1) for i, s in enumerate(case["recips"])]
    for pos, g in case["grease"]:
        stanzas.insert(pos * (len(stanzas) + 1) // 1000, (g["args"], g["body"]))
    auth, full = agev1.write_header(stanzas, fk)
    nonce = kit.bseed("n", case["seed"], k)[:16]
    return auth, agev1.header_mac(fk, auth), nonce + agev1.stream_seal(agev1.payload_key(fk, nonce), data)


SPECIAL = [b" ", b"\t", b"\r", b"\n", b"\0", b"\xff", b"=", b"-", b"_", b">", b"\x0b", b"\x85", b"\xc2\xa0", b"A", b"\n\n", b"\r\n",
           b"\xe2\x80\xa8", b"#", b"\x1c"]


def edit(head, op, other):
    k, pos, arg = op["op"], op["pos"], op["arg"]
    body = head[:-3]  # up to the '---'
    p = pos * len(body) // 1000000
    if k == "flip":
        b = bytearray(body)
        b[p] ^= 1 << arg % 8
        return bytes(b) + b"---"
    if k == "setbyte":
        s = SPECIAL[arg % len(SPECIAL)]
        return body[:p] + s + body[p + 1:] + b"---"
    if k == "insert":
        return body[:p] + SPECIAL[arg % len(SPECIAL)] + body[p:] + b"---"
    if k == "delete":
        return body[:p] + body[p + 1 + arg % 4:] + b"---"
    lines = body.split(b"\n")[:-1]
    n = len(lines)
    i, j = pos % n, arg % n
    if k == "line-drop":
        del lines[i]
    elif k == "line-dup":
        lines.insert(i, lines[i])
    elif k == "line-swap":
        lines[i], lines[j] = lines[j], lines[i]
    elif k == "blank-line":
        lines.insert(pos % (n + 1), [b"", b" ", b"\t", b"\r", b"  "][arg % 5])
    elif k == "trail":
        lines[i] += [b" ", b"\t", b"\r", b"  ", b"\x0c"][arg % 5]
    elif k == "lead":
        lines[i] = [b" ", b"\t", b"\r", b"  ", b"\xef\xbb\xbf"][arg % 5] + lines[i]
    elif k == "case":
        lines[i] = lines[i].swapcase() if arg % 2 else lines[i].upper()
    elif k == "spaces":
        lines[i] = lines[i].replace(b" ", [b"  ", b"\t", b" \t", b""][arg % 4])
    elif k == "join" and n > 1:
        i = min(i, n - 2)
        lines[i:i + 2] = [lines[i] + lines[i + 1]]
    elif k == "split":
        c = arg * 2 % (len(lines[i]) + 1)
        lines[i:i + 1] = [lines[i][:c], lines[i][c:]]
    elif k == "crlf":
        lines = [x + b"\r" for x in lines]
    elif k == "rewrap":
        w = [32, 63, 65, 76, 10, 1000][arg % 6]
        out, body_ = [], b""
        for x in lines + [b"->"]:
            if x.startswith(b"->") or x == lines[0]:
                out += [body_[q:q + w] for q in range(0, len(body_), w)]
                body_ = b""
                out.append(x)
            else:
                body_ += x
        lines = out[:-1]
    elif k == "no-final-blank":
        lines = [x for q, x in enumerate(lines) if x or q == 0]
    elif k == "pad":
        lines[i] += b"=" * (1 + arg % 3)
    elif k == "trailing-bits" and not lines[i].startswith(b"->") and i:
        alphabet = b"ABCDEFGHIJKLMNOPQRSTUVWXYZabcdefghijklmnopqrstuvwxyz0123456789+/"
        if lines[i] and lines[i][-1:] in [bytes([c]) for c in alphabet]:
            v = alphabet.index(lines[i][-1:])
            lines[i] = lines[i][:-1] + bytes([alphabet[v ^ (1 + arg % 3)]])
    elif k == "number" and lines[i].startswith(b"-> scrypt"):
        parts = lines[i].split(b" ")
        parts[-1] = [b"0" + parts[-1], b"+" + parts[-1], parts[-1] + b"_0", b" " + parts[-1], "\u0661".encode(), b"18"][arg % 6]
        lines[i] = b" ".join(parts)
    elif k == "add-unknown":
        lines[max(1, i):max(1, i)] = [[b"-> grease x", b"AAAA"], [b"-> g"], [b"-> X25519x", b""], [b"-> a b c d", b"", b""]][arg % 4]
    elif k in ("copy-entry", "entry-drop", "entry-swap", "entry-dup"):
        def entries(ls):
            out = []
            for x in ls[1:]:
                if x.startswith(b"->"):
                    out.append([x])
                elif out:
                    out[-1].append(x)
            return out
        ents = entries(lines)
        if not ents or not lines[0].startswith(b"age"):
            return head
        a, b = pos % len(ents), arg % len(ents)
        if k == "copy-entry":
            oe = entries(other.split(b"\n")[:-1])
            if not oe:
                return head
            if arg % 2:
                ents.insert(pos % (len(ents) + 1), oe[arg // 2 % len(oe)])
            else:
                ents[a] = oe[arg // 2 % len(oe)]
        elif k == "entry-drop":
            del ents[a]
        elif k == "entry-dup":
            ents.insert(b, ents[a])
        else:
            ents[a], ents[b] = ents[b], ents[a]
        lines = lines[:1] + [x for e in ents for x in e]
    elif k == "intro":
        lines[0] = [b"age-encryption.org/v2", b"age-encryption.org/v1 ", b"AGE-ENCRYPTION.ORG/v1", b"age-encryption.org/v1\r",
                    b" age-encryption.org/v1", b"age-encryption.org/v1.0", b"", b"age-encryption.org/v1\xff"][arg % 8]
    else:
        return head
    return b"\n".join(lines) + b"\n---" if lines else b"---"


def mac_line(mac, othermac, op):
    """footer line with another authentication code"""
    k, pos, arg = op["mac"], op["pos"], op["arg"]
    if k == "flip":
        b = bytearray(mac)
        b[pos % 32] ^= 1 << arg % 8
        return b" " + agev1.b64(bytes(b)).encode() + b"\n"
    if k == "truncate":
        return b" " + agev1.b64(mac[:pos % 32]).encode() + b"\n"
    if k == "extend":
        return b" " + agev1.b64(mac + kit.material({"len": 1 + arg, "seed": pos})).encode() + b"\n"
    if k == "other":
        return b" " + agev1.b64(othermac).encode() + b"\n"
    if k == "zero":
        return b" " + agev1.b64(b"\0" * 32).encode() + b"\n"
    if k == "none":
        return [b"\n", b" \n", b"", b" =\n"][arg % 4]
    raise AssertionError(k)


def check(case):
    with kit.fake_scrypt():
        head, mac, payload = build(case)
        ohead, omac, opayload = build(case, 1)
        reader = kit.dec_key(case["recips"][case["reader"] % len(case["recips"])])
        good = b" " + agev1.b64(mac).encode() + b"\n"
        data = kit.material({"len": case["len"], "seed": 3})
        kit.must_decrypt([reader], head + good + payload, data, "unmodified file")
        new = head
        for op in case["ops"]:
            new = edit(new, op, ohead)
        footer = good
        if case["macop"]:
            footer = mac_line(mac, omac, case["macop"])
        if new == head and footer == good:
            return ["trivial", "no-change"]
        if new + footer + payload == ohead + b" " + agev1.b64(omac).encode() + b"\n" + payload:
            payload = payload[:-1]
        kit.must_fail([reader], new + footer + payload, "header edited (%s)" % "+".join(
            [o["op"] for o in case["ops"]] + ([("mac-" + case["macop"]["mac"])] if case["macop"] else [])))
    return ["op:" + o["op"] for o in case["ops"]] + (["mac:" + case["macop"]["mac"]] if case["macop"] else []) + [
        "types:" + "+".join(sorted({s["t"] for s in case["recips"]}))]


OPS = ["flip", "setbyte", "insert", "delete", "line-drop", "line-dup", "line-swap", "blank-line", "trail", "lead", "case", "spaces",
       "join", "split", "crlf", "rewrap", "no-final-blank", "pad", "trailing-bits", "number", "add-unknown", "copy-entry",
       "entry-drop", "entry-swap", "entry-dup", "intro"]


def strat():
    op = st.fixed_dictionaries({"op": st.sampled_from(OPS), "pos": gen.position(), "arg": st.integers(0, 60)})
    macop = st.fixed_dictionaries({"mac": st.sampled_from(["flip", "truncate", "extend", "other", "zero", "none"]),
                                   "pos": st.integers(0, 1000), "arg": st.integers(0, 60)})
    return st.tuples(
        st.fixed_dictionaries({
            "own": st.booleans(), "len": st.sampled_from([0, 1, 20]), "seed": st.integers(0, 10**6),
            "recips": st.lists(gen.ident(small=True), min_size=1, max_size=4),
            "grease": st.lists(st.tuples(gen.position().map(lambda x: x // 1000), gen.grease()), max_size=2),
            "reader": st.integers(0, 3)}),
        st.one_of(
            st.tuples(op.map(lambda o: [o]), st.none()), st.tuples(op.map(lambda o: [o]), st.none()),
            st.tuples(st.just([]), macop),
            st.tuples(st.lists(op, min_size=1, max_size=3), st.one_of(st.none(), macop)))
    ).map(lambda t: dict(t[0], ops=t[1][0], macop=t[1][1]))


ENUM_RECIPS = [
    [{"t": "age", "sk": gen.sk_pool(0)}], [{"t": "ed", "seed": gen.ed_pool(0)}], [{"t": "rsa", "i": 0}],
    [{"t": "pw", "pw": b"pw"}], [{"t": "age", "sk": gen.sk_pool(0)}, {"t": "rsa", "i": 4}, {"t": "age", "sk": gen.sk_pool(1)}]]


def enum_check(case):
    base = {"own": case["own"], "len": 5, "seed": 7, "recips": ENUM_RECIPS[case["r"]], "grease": []}
    with kit.fake_scrypt():
        head, mac, payload = build(base)
        footer = b" " + agev1.b64(mac).encode() + b"\n"
        p, k = case["p"], case["k"]
        if p >= len(head):
            return ["trivial"]
        keys = [kit.dec_key(ENUM_RECIPS[case["r"]][-1])]
        if k == "set":
            # other bytes that read like the one there: every byte for a separator, white space and look-alikes elsewhere
            old = head[p:p + 1]
            for new in [bytes([v]) for v in range(256)] if old in b" \n" else [b"\t", b"\v", b"\x1c", b"\xa0", b"\xc2\xa0", b"\0"] + LOOK.get(old, []):
                if new != old:
                    kit.must_fail(keys, head[:p] + new + head[p + 1:] + footer + payload, "%r instead of %r at header offset %d" % (new, old, p))
            return [k]
        if k == "flip":
            b = bytearray(head)
            b[p] ^= 1 << case["bit"]
            new = bytes(b)
        elif k == "del":
            new = head[:p] + head[p + 1:]
        else:
            new = head[:p] + case["ins"] + head[p:]
        if new == head or (k == "ins" and new.startswith(head)):
            return ["trivial"]
        kit.must_fail(keys, new + footer + payload, "%s at header offset %d" % (k, p))
    return [k]


LOOK = {b"+": [b"-", b"*"], b"/": [b"_", b","], b"0": [b"O", b"o"], b"O": [b"0"], b"l": [b"1", b"I"], b"1": [b"l", b"I"], b"I": [b"l", b"1"], b"-": [b"+", b"\xe2\x80\x90"],
        b"A": [b"=", b"\xef\xbc\xa1"], b"=": [b"A"], b">": [b"\xef\xbc\x9e"]}


def enum(tier):
    sizes = [150, 200, 300, 170, 560]
    for r in range(5):
        for own in ((True,) if tier == "quick" else (True, False)):
            for p in range(sizes[r]):
                for bit in range(8):
                    yield {"r": r, "own": own, "p": p, "k": "flip", "bit": bit}
                yield {"r": r, "own": own, "p": p, "k": "del"}
                yield {"r": r, "own": own, "p": p, "k": "set"}
                for ins in (b"\n", b" ") if tier == "quick" else SPECIAL:
                    yield {"r": r, "own": own, "p": p, "k": "ins", "ins": ins}


def more(case, reader, ents, fk, payload):
    """something else on the authentication line"""
    head, mac = agev1.write_header(ents, fk)[0], agev1.b64(agev1.header_mac(fk, agev1.write_header(ents, fk)[0])).encode()
    for line in (b" " + mac + b" x", b" " + mac + b" " + mac, b" x " + mac, b" " + mac + b"\tx", b" " + mac + b" ---", b"  " + mac + b" -> X25519", b" " + mac[:-1], b" " + mac + b"A", b" " + mac[:20] + b" " + mac[20:], b""):
        kit.must_fail(reader, head + line + b"\n" + payload, "authentication line '---%s'" % line.decode())
    return ["mac-more"]


BIG = ["mac-more", "first", "middle", "last", "args", "drop-first", "drop-last", "append", "copy-reader", "swap", "mac", "mac-other", "none"]


def big(case):
    """headers of many or of large entries, changed at one place"""
    how, n = case["how"], case["n"]
    fk = kit.bseed("big", n)[:16]
    spec = {"t": "age", "sk": gen.sk_pool(1)}
    own = kit.ref_wrap(spec, fk, kit.bseed("w", n))
    ents = [(["unknown", "n%d" % i], kit.material({"len": case["size"], "seed": i})) for i in range(n - 1)]
    if case["kind"] == "keys":
        ents = [kit.ref_wrap({"t": "age", "sk": gen.sk_pool(2)}, fk, kit.bseed("w", n, i)) for i in range(n - 1)]
    at = {0: 0, 1: len(ents) // 2, 2: len(ents)}[case["at"]]
    ents.insert(at, own)
    auth, _ = agev1.write_header(ents, fk)
    mac = agev1.header_mac(fk, auth)
    payload = b"N" * 16 + agev1.stream_seal(agev1.payload_key(fk, b"N" * 16), b"large header")
    reader = [kit.dec_key(spec)]

    def whole(entries, mac):
        return agev1.write_header(entries, fk)[0] + b" " + agev1.b64(mac).encode() + b"\n" + payload

    kit.must_decrypt(reader, whole(ents, mac), b"large header", "unmodified file with %d entries" % n)
    new, others = list(ents), [i for i in range(n) if i != at]
    other = others[{"first": 0, "middle": len(others) // 2, "last": -1}.get(how, len(others) // 3)]
    if how in ("first", "middle", "last"):
        b = bytearray(new[other][1])
        b[len(b) * 2 // 3] ^= 4
        new[other] = (new[other][0], bytes(b))
    elif how == "args":
        new[other] = (new[other][0][:1] + ["x"] + new[other][0][1:], new[other][1]) if case["kind"] != "keys" else (["x"] + new[other][0][1:], new[other][1])
    elif how == "drop-first":
        del new[others[0]]
    elif how == "drop-last":
        del new[others[-1]]
    elif how == "append":
        new.append((["more"], b"x"))
    elif how == "copy-reader":
        new.append(own)
    elif how == "swap":
        new[others[0]], new[at] = new[at], new[others[0]]
    elif how == "mac":
        mac = bytes([mac[0] ^ 128]) + mac[1:]
    elif how == "mac-more":
        return more(case, reader, ents, fk, payload)
    elif how == "mac-other":
        mac = agev1.header_mac(fk, auth + b"-")
    else:
        return ["trivial"]
    kit.must_fail(reader, whole(new, mac), "header of %d entries of %s bytes (%s), changed: %s" % (n, case["size"], case["kind"], how))
    return [how, "entries:%d" % min(x for x in (2, 10, 100, 1000, 5000) if n <= x)]


def enum_big(tier):
    k = 0
    for kind, n, size in [("keys", 2, 0), ("keys", 9, 0), ("keys", 33, 0), ("keys", 100, 0), ("unknown", 17, 10), ("unknown", 20, 100), ("unknown", 65, 30), ("unknown", 129, 60), ("unknown", 257, 0), ("unknown", 600, 3),
                          ("unknown", 1100, 20), ("unknown", 2, 3000), ("unknown", 2, 50000), ("unknown", 3, 200000), ("unknown", 130, 3000)] + (
                              [] if tier == "quick" else [("keys", 1000, 0), ("unknown", 5000, 30), ("unknown", 2, 3000000)]):
        for how in BIG:
            if kind == "unknown" and not size and how in ("first", "middle", "last"):
                continue
            for at in (0, 1, 2) if tier != "quick" else (k % 3,):
                k += 1
                yield {"kind": kind, "n": n, "size": size, "how": how, "at": at}


SUBS = [
    Sub("large-headers", big, enum=enum_big, qshards=2),
    Sub("edits", check, strat, quick=4000, thorough=200000, qshards=5),
    Sub("every-byte", enum_check, enum=enum, qshards=8, tshards=8),
]
