import importlib

from hypothesis import strategies as st

from vf import remote
from vf.core import Sub

PID = "P34"
LEVEL = "exploration"
RULE = ("the generated cases and oracles of the other properties' searches, evaluated by workers running in an interpreter started with other options: "
        "one search each with assertions disabled (-O), and the search 'modes' with -OO, -bb, other hash seeds, C and POSIX locale, isolated, unbuffered, "
        "development mode, warnings as errors, integer conversion limit, other time zone. Non-trivial as the search the case belongs to says.")
ASSUMPTIONS = ["only options an interpreter of version 3.12 offers here; no other interpreter is installed with the dependencies"]

# property, search, part of that search's quick effort which is repeated with -O
SOURCES = [
    ("P01", "roundtrip", 8), ("P02", "own-files", 8), ("P03", "modify", 8), ("P04", "edits", 6), ("P05", "inbound", 8), ("P06", "old-files", 8),
    ("P08", "havoc", 10), ("P08", "armored", 10), ("P08", "insider", 8), ("P08", "several-chunks", 8), ("P09", "roundtrip", 8), ("P09", "reject", 2),
    ("P09", "reference", 8), ("P10", "variants", 6), ("P11", "functions", 8), ("P11", "streams", 8), ("P11", "reject", 6), ("P12", "pipeline", 12),
    ("P13", "fail", 6), ("P14", "calls", 8), ("P15", "resolve", 8), ("P16", "lists", 10), ("P17", "homes", 10), ("P18", "roundtrip", 8),
    ("P18", "errors", 8), ("P19", "writer", 8), ("P19", "pem", 3), ("P20", "passphrase", 6), ("P20", "damage", 2), ("P21", "lines", 3), ("P21", "pairs", 6),
    ("P22", "conversion", 10), ("P23", "hmac", 10), ("P23", "x25519", 6), ("P23", "aead", 10), ("P23", "rsa-oaep", 8), ("P23", "base64", 10),
    ("P24", "from-file", 4), ("P24", "write", 6), ("P25", "control", 4), ("P27", "errors", 8), ("P28", "sequences", 8), ("P29", "roundtrip", 10), ("P29", "altered", 6),
    ("P29", "foreign", 6), ("P30", "strings", 10), ("P30", "bijection", 10), ("P32", "library", 10),
]


def source(pid, name):
    return {s.name: s for s in importlib.import_module("checks." + pid.lower()).SUBS}[name]


def search(pid, name, part):
    src = source(pid, name)

    def check(case):
        return remote.evaluate("O", pid, name, case, src.case_cpu)
    return Sub("O-%s-%s" % (pid, name), check, src.strategy, quick=max(30, src.n["quick"] // part), thorough=src.n["thorough"] // part, qshards=2 if part <= 3 else 1, tshards=2,
               case_cpu=2 * src.case_cpu + 30)


def modes(case):
    return remote.evaluate(case["mode"], case["pid"], case["search"], case["case"]) + [case["mode"], case["pid"]]


def s_modes():
    names = [m for m in remote.MODES if m != "O"]
    # of equal weight: Hypothesis prefers nothing here
    return st.one_of([st.fixed_dictionaries({"mode": st.sampled_from(names), "pid": st.just(p), "search": st.just(n), "case": source(p, n).strategy()})
                      for p, n, _ in SOURCES])


def low_order(case):
    return remote.evaluate(case["mode"], "P25", "low-order", case["case"]) + [case["mode"]]


def enum_low_order(tier):
    for i, c in enumerate(source("P25", "low-order").enum(tier)):
        if tier != "quick" or i % 5 == 0:
            yield {"mode": "O", "case": c}


SUBS = [search(*s) for s in SOURCES] + [
    Sub("O-P25-low-order", low_order, enum=enum_low_order),
    Sub("modes", modes, s_modes, quick=2400, thorough=100000, qshards=4),
]
