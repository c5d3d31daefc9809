from hypothesis import strategies as st

from ref import agev1
from vf import gen, kit
from vf.core import Sub, Violation

PID = "P03"
RULE = ("A file written by the code under test (0-4 chunks, exact multiples included), then one payload modification "
        "drawn from: bit flips, byte edits, deletions, insertions, appends, truncation at a random point, chunk drop / "
        "duplicate / swap / reverse / zero, transplants from a second file (other file key, same recipient), payload "
        "replaced. Enumerations: bytes and strings put behind, in front of and between complete chunks, every truncation point and every single-bit flip, byte deletion and duplication of "
        "the payload of small files. Every modified file must be refused with no plaintext released. Non-trivial: the "
        "modified file differs from the original (all others are discarded and labelled).")
ASSUMPTIONS = ["a 2^-128 forgery does not happen by chance"]
CH = 65536
CC = CH + 16
IDENT = {"t": "age", "sk": gen.sk_pool(0)}
KEY = kit.dec_key(IDENT)


def make(spec, seed):
    data = kit.material(spec)
    blob = kit.encrypt([KEY.public_key()], data, (), {"mode": "drbg", "seed": seed})
    pos = header_end(blob)
    return data, blob[:pos], blob[pos:pos + 16], blob[pos + 16:]


def header_end(blob):
    try:
        return agev1.parse_header(blob)[3]
    except agev1.FormatError as e:
        raise Violation("file written is not parseable: %s" % e)


def chunks(body):
    return [body[i:i + CC] for i in range(0, len(body), CC)]


def apply(op, head, nonce, body, other, plain):
    k = op["op"]
    pay = nonce + body
    pos = op["pos"] * len(pay) // 1000000
    if op.get("edge"):
        # positions near a chunk boundary or the ends
        edges = [0, 16, len(pay)] + [16 + CC * i + d for i in range(len(body) // CC + 1) for d in (0, 1, -1, -16, 16)]
        pos = max(0, min(len(pay), edges[op["pos"] % len(edges)]))
    if k == "flip":
        if not pay:
            return None
        p = min(pos, len(pay) - 1)
        b = bytearray(pay)
        b[p] ^= 1 << (op["arg"] % 8)
        return head + bytes(b)
    if k == "delete":
        return head + pay[:pos] + pay[pos + 1 + op["arg"]:]
    if k == "insert":
        return head + pay[:pos] + kit.material({"len": 1 + op["arg"], "seed": op["pos"]}) + pay[pos:]
    if k == "append":
        return head + pay + [b"\n", b"\0", b"x" * 16, body[:CC], b"\0" * 16, body][op["arg"] % 6]
    if k == "truncate":
        return head + pay[:pos]
    cs = chunks(body)
    n = len(cs)
    i, j = op["pos"] % n, op["arg"] % n
    if k == "drop":
        del cs[i]
    elif k == "droplast":
        del cs[-1 - op["arg"] % n:]
    elif k == "dup":
        cs.insert(j, cs[i])
    elif k == "swap":
        cs[i], cs[j] = cs[j], cs[i]
    elif k == "reverse":
        cs.reverse()
    elif k == "zero":
        cs[i] = b"\0" * len(cs[i])
    elif k == "rawplain":
        # plaintext in place of a chunk
        cs[i] = plain[i * CH:(i + 1) * CH]
    elif k == "transplant":
        oc = chunks(other[3])
        cs[i] = oc[j % len(oc)]
    elif k == "transplant-all":
        cs = chunks(other[3])
    elif k == "transplant-payload":
        return head + other[2] + other[3]
    elif k == "transplant-nonce":
        return head + other[2] + body
    elif k == "transplant-header":
        return other[1] + nonce + body
    elif k == "shift-tag":
        # move the tag of a chunk onto another one
        cs[i] = cs[i][:-16] + cs[j][-16:]
    elif k == "cut-at-chunk":
        cs = cs[:i]
    elif k == "short-chunk":
        cs[i] = cs[i][:-1 - op["arg"] % 20]
    return head + nonce + b"".join(cs)


OPS = ["flip", "delete", "insert", "append", "truncate", "drop", "droplast", "dup", "swap", "reverse", "zero", "rawplain",
       "transplant", "transplant-all", "transplant-payload", "transplant-nonce", "transplant-header", "shift-tag",
       "cut-at-chunk", "short-chunk"]


def check(case):
    a = make(case["pt"], case["seed"])
    other = make(case["pt2"], case["seed"] + 1)
    orig = a[1] + a[2] + a[3]
    kit.must_decrypt([KEY], orig, a[0], "unmodified file")
    cur = orig
    head, nonce, body = a[1], a[2], a[3]
    for op in case["ops"]:
        r = apply(op, head, nonce, body, other, a[0]) if body else apply(dict(op, op="append"), head, nonce, body, other, a[0])
        if r is None:
            continue
        cur = r
        if not cur.startswith(head) or len(cur) < len(head) + 17:
            break
        nonce, body = cur[len(head):len(head) + 16], cur[len(head) + 16:]
    if cur == orig or cur == other[1] + other[2] + other[3]:
        return ["trivial", "no-change"]
    kit.must_fail([KEY], cur, "modified by %s" % "+".join(o["op"] for o in case["ops"]), case["reads"] or [1])
    return ["op:" + case["ops"][0]["op"], "chunks:%d" % len(chunks(a[3])), "ops:%d" % len(case["ops"])]


def strat():
    op = st.fixed_dictionaries({"op": st.sampled_from(OPS), "pos": gen.position(), "arg": st.integers(0, 40),
                                "edge": st.booleans()})
    pt = st.one_of(gen.plaintext(3), st.integers(1, 4).map(lambda k: {"len": CH * k, "pat": "rand", "seed": k}),
                   st.integers(0, 40).map(lambda k: {"len": k, "pat": "rand", "seed": k}))
    return st.fixed_dictionaries({"pt": pt, "pt2": pt, "seed": st.integers(0, 10**6),
                                  "ops": st.one_of(op.map(lambda o: [o]), st.lists(op, min_size=1, max_size=3)),
                                  "reads": gen.read_sizes()})


def enum_case(case):
    a = make(case["pt"], 5)
    pay = a[2] + a[3]
    k, p = case["k"], case["p"]
    if k not in ("app", "ins") and p >= len(pay) + (k == "trunc-header") * 10**9:
        return ["trivial"]
    if k == "trunc":
        cur = a[1] + pay[:p]
    elif k == "trunc-header":
        cur = (a[1] + pay)[:p]
        if p >= len(a[1]):
            return ["trivial"]
    elif k == "del":
        cur = a[1] + pay[:p] + pay[p + 1:]
    elif k == "app":
        cur = a[1] + pay + case["what"]
    elif k == "ins":
        cur = a[1] + pay[:p] + case["what"] + pay[p:]
    elif k == "dup":
        cur = a[1] + pay[:p] + pay[p:p + 1] + pay[p:]
    else:
        b = bytearray(pay)
        b[p] ^= 1 << case["bit"]
        cur = a[1] + bytes(b)
    if cur == a[1] + pay:
        return ["trivial"]
    kit.must_fail([KEY], cur, "%s at payload offset %d" % (k, p))
    return [k]


def enum(tier):
    lens = [0, 1, 12, 40] if tier == "quick" else [0, 1, 2, 12, 15, 16, 17, 40, 100, 300]
    for n in lens:
        pt = {"len": n, "pat": "rand", "seed": n}
        for p in range(n + 32):
            yield {"k": "trunc", "pt": pt, "p": p}
            yield {"k": "del", "pt": pt, "p": p}
            yield {"k": "dup", "pt": pt, "p": p}
            for bit in range(8):
                yield {"k": "flip", "pt": pt, "p": p, "bit": bit}
        for p in range(260):
            yield {"k": "trunc-header", "pt": pt, "p": p}
    big = [65536, 65537, 131072] if tier == "quick" else [65535, 65536, 65537, 131071, 131072, 131073, 196608, 300000]
    for n in big:
        pt = {"len": n, "pat": "rand", "seed": n}
        total = 16 + n + 16 * (-(-n // CH))
        pts = set()
        for c in range(0, total // CC + 2):
            for d in range(-33, 34):
                pts.add(16 + c * CC + d)
        for d in range(0, 40):
            pts.add(d)
            pts.add(total - d)
        if tier != "quick":
            pts.update(range(0, total, 997))
        for p in sorted(pts):
            if 0 <= p < total:
                yield {"k": "trunc", "pt": pt, "p": p}
    # something after the end, also after one or several complete last chunks; in front of the first and between chunks
    extra = [bytes([c]) for c in ((0, 1, 9, 10, 13, 26, 32, 61, 127, 128, 255) if tier == "quick" else range(256))]
    extra += [b"\n\n", b"\r\n", b"\0\0", b"\n" * 16, b"--- x\n", b"-> X\n", b"-----END AGE ENCRYPTED FILE-----\n"] + [b"\0" * n for n in (3, 4, 7, 8, 15, 16, 17, 32, 512, 65536, CC)]
    extra += [kit.bseed("x", n)[:1 + n % 32] for n in range(4, 20)]
    for n in [0, 1, 15, 16, 17, 65535, 65536, 65537, 131072] + ([] if tier == "quick" else [196608, 262144]):
        pt = {"len": n, "pat": "rand", "seed": n}
        total = 16 + n + 16 * max(1, -(-n // CH))
        for x in extra:
            yield {"k": "app", "pt": pt, "p": 0, "what": x}
        for x in extra[:14] if n in (17, 65537, 131072) or tier != "quick" else []:
            for p in {0, 15, 16, 16 + CC, total - 16, total - 1}:
                yield {"k": "ins", "pt": pt, "p": min(p, total), "what": x}
    # bit flips in each position class of a multi-chunk file
    for n in big[:2]:
        pt = {"len": n, "pat": "rand", "seed": n}
        for p in list(range(0, 48)) + list(range(CC, CC + 34)):
            yield {"k": "flip", "pt": pt, "p": p, "bit": p % 8}


SUBS = [
    Sub("modify", check, strat, quick=1800, thorough=80000, qshards=4),
    Sub("every-point", enum_case, enum=enum, qshards=4, tshards=8),
]
LEVEL = "fault_enumeration"
