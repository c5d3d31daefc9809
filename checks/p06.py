import json
import os

from hypothesis import strategies as st

from ref import agev1
from vf import gen, kit
from vf.core import VERIF, Sub, Violation

PID = "P06"
RULE = ("Frozen model of the on-disk format earlier pyage versions wrote (all four types, the old ssh-ed25519 construction, "
        "layout without the short final body line) generates files over random plaintexts, keys, recipients and random "
        "values; the code under test must decrypt them for every recipient. Entries written now for ssh-ed25519 must be "
        "opened by the frozen model. Golden files made by the original version are replayed. Non-trivial: an ssh-ed25519 "
        "entry or an entry whose last line is full or several recipients.")
ASSUMPTIONS = ["ref/agev1.py models the format of the original version (cross-checked by golden files made with it)"]


def old_files(case):
    data = kit.material(case["pt"])
    fk = kit.bseed("fk", case["seed"])[:16]
    stanzas = [kit.ref_wrap(s, fk, kit.bseed("w", case["seed"], i), 1) for i, s in enumerate(case["ids"])]
    blob = agev1.write_file(stanzas, fk, kit.bseed("n", case["seed"])[:16], data, legacy=case["legacy"])
    for i, s in enumerate(case["ids"]):
        kit.must_decrypt([kit.dec_key(s)], blob, data, "old file, recipient %d (%s)" % (i, s["t"]), case["reads"] if not i else ())
    labels = ["types:" + "+".join(sorted({s["t"] for s in case["ids"]})), "legacy" if case["legacy"] else "new-layout"]
    full = any(len(agev1.b64(b)) % 64 == 0 for _, b in stanzas)
    if full:
        labels.append("full-last-line")
    elif len(stanzas) == 1 and case["ids"][0]["t"] != "ed":
        labels.append("trivial")
    return labels


def new_entries(case):
    data = kit.material(case["pt"])
    with kit.fake_scrypt() as fs:
        blob = kit.encrypt([kit.enc_key(s) for s in case["ids"]], data, (), case["rng"])
        try:
            stanzas, auth, mac, pos = agev1.parse_header(blob)
        except agev1.FormatError as e:
            raise Violation("header: %s" % e)
        for s, stanza in zip(case["ids"], stanzas):
            try:
                fk = kit.ref_unwrap(s, stanza, fs.ref)
                got = agev1.open_with_key(blob, fk)
            except (agev1.FormatError, agev1.AuthError) as e:
                raise Violation("%s entry written now cannot be read by earlier versions: %r" % (s["t"], e))
            if got != data:
                raise Violation("wrong plaintext")
    return ["types:" + "+".join(sorted({s["t"] for s in case["ids"]}))]


def golden(case):
    blob = bytes.fromhex(case["file"])
    kit.must_decrypt([kit.dec_key(case["id"])], blob, kit.material(case["pt"]), "golden file of the original version (%s)" % case["id"]["t"])
    return ["golden:" + case["id"]["t"]]


def goldens(tier):
    from vf.core import _dec
    with open(os.path.join(VERIF, "fixtures", "golden.json")) as f:
        for c in _dec(json.load(f)):
            yield c


def strat_old():
    pt = gen.plaintext(3).filter(lambda p: p["len"] > 0)
    return st.fixed_dictionaries({"pt": pt, "ids": st.lists(gen.ident(slow=False), min_size=1, max_size=4),
                                  "seed": st.integers(0, 10**6), "legacy": st.sampled_from([True, True, False]),
                                  "reads": gen.read_sizes()})


def strat_new():
    return st.fixed_dictionaries({"pt": gen.small_plaintext(),
                                  "ids": st.tuples(gen.ed_ident(), st.lists(gen.ident(small=True), max_size=2)).map(lambda t: [t[0]] + t[1]),
                                  "rng": gen.rng()})


SUBS = [
    Sub("old-files", old_files, strat_old, quick=1000, thorough=60000, qshards=5),
    Sub("new-ed25519-entries", new_entries, strat_new, quick=400, thorough=30000, qshards=2),
    Sub("golden", golden, enum=goldens, qshards=1, tshards=1),
]
