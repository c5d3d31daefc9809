#!/usr/bin/env python3
"""Writes MANIFEST.json (run by hand after adding a check)."""
import json
import os

HERE = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
PBT = "property-based testing (Hypothesis, shrinking)"
T = {
    "P01": (PBT + ", round trip", "Random recipient mixes, plaintexts (0 to hundreds of chunks), write/read splits and random-source outputs; trusts nothing but equality."),
    "P02": (PBT + ", reference decision", "Recipient/identity matrix against a set-intersection model; unknown entries at any place, independent writer included."),
    "P03": (PBT + " plus exhaustive single-bit, deletion and truncation enumeration of small payloads", "All truncation points and bit flips of small files enumerated, structured modifications of large ones sampled; assumes no 2^-128 accident."),
    "P04": (PBT + " plus exhaustive bit, deletion, truncation and line edits of small headers", "Header edits on byte, line and entry level; edits of the authentication code text that decode to the same value count as no change."),
    "P05": (PBT + ", differential against an independent age v1 implementation in both directions", "Trusts ref/agev1.py (checked against published vectors and golden files); SSH-Ed25519 entries are excluded, see DESIGN.md."),
    "P06": (PBT + ", files from a frozen model of the on-disk format", "Trusts the frozen model (fixtures/golden.json holds files written by the original commit)."),
    "P07": (PBT + " over histories of encryptions, forks and reseeded generators", "Collision freedom over recorded histories with an instrumented and with the real random source, and dependence of every secret on enough random bytes; secrets recovered independently."),
    "P08": (PBT + " with grammar, splice and mutation generators, plus coverage-guided fuzzing (atheris) in the thorough tier; authenticity oracle", "Every accepted input must be authenticated by the independent implementation; finite search."),
    "P09": (PBT + ", round trip", "Random headers and trailing bytes; damaged version and footer lines; coverage-guided fuzzing (atheris) in the thorough tier."),
    "P10": (PBT + ", differential against an independent STREAM, small chunk boundaries enumerated", "Lengths to hundreds of chunks; trusts the ChaCha20-Poly1305 of the cryptography library, cross-checked against PyNaCl in P23."),
    "P11": (PBT + ", round trip and structural edits with a reference reader", "Random bytes, labels, surroundings and splits; every single edit class."),
    "P12": (PBT + " on real processes with generated home directories and pseudo terminals", "Option and identity combinations sampled; most runs fork a loaded interpreter with a stand-in for scrypt, a sample is entirely real."),
    "P13": (PBT + " with injected failure causes on real processes", "Failure causes x output targets sampled; controls without the cause have to succeed."),
    "P14": ("fault enumeration: every failing call and byte offset of small outputs, plus random faults (Hypothesis); commands under file size limits and on full devices", "Enumerates fault points of small outputs completely and samples larger ones; RLIMIT_FSIZE and /dev/full stand for full disks."),
    "P15": (PBT + ", reference resolver", "Generated files, pages and alias files against a reference model; web access replaced at the HTTP adapter."),
    "P16": (PBT + " with bait lines, monitored by audit events", "Every file opened and every request made while resolving is observed; finite set of bait targets in random spellings."),
    "P17": (PBT + " over generated home directories", "Mixtures of usable and unusable entries; each usable key must decrypt."),
    "P18": (PBT + ", round trip, differential and mutation", "Key strings against an independent Bech32; 1 to 4 substitutions sampled."),
    "P19": (PBT + ", files written by an independent OpenSSH writer, and by ssh-keygen where present", "All key types, ciphers, line widths and passphrases sampled; KDF rounds small to moderate."),
    "P20": (PBT + " with structural damage of generated key files", "Wrong passphrases and damages of every structural field sampled."),
    "P21": (PBT + ", differential against the key blob and ssh-keygen", "Random keys; fingerprints recomputed and compared with OpenSSH's."),
    "P22": (PBT + ", differential against independent curve arithmetic", "Random and edge-case seeds; trusts ref/curve.py (checked against RFC vectors)."),
    "P23": (PBT + ", differential against independent implementations", "Primitives over their domains; trusts the standard library, PyNaCl and ref/."),
    "P24": (PBT + ", reference scrypt and recorded KDF parameters", "All exponents enumerated around the limits; expensive ones are observed through a recording KDF."),
    "P25": ("enumeration of all low-order points and encodings, and property-based testing for all other points", "All encodings of the low-order points, random valid points."),
    "P26": ("enumeration of all 512 file modes, and property-based testing of generated key files on real processes", "Modes exhaustive; umasks, targets and concatenations sampled."),
    "P27": (PBT + ", search for known secrets in every output and message", "Looks for raw, hex, base64 (any alignment), decimal and key string forms; other encodings would be missed."),
    "P28": ("stateful model-based testing (Hypothesis operation sequences against byte queues), threads with a tiny switch interval", "Sequences up to 40 operations on up to 4 slots; thread schedules are sampled."),
    "P29": (PBT + ", round trip and single-field alterations", "Every bit of small entries enumerated for cheap types, sampled for RSA and scrypt."),
    "P30": (PBT + ", differential against an independent Bech32", "Random strings, valid ones mutated, correct checksums with bad padding, checksums of other variants."),
    "P31": ("schedule search: operations interleaved by a deterministic line / byte code level scheduler with generated schedules (Hypothesis), and nested in each other's stream calls; independent oracle per operation",
            "Schedules are sampled, switches take place only within the program's own code."),
    "P32": (PBT + ": snapshots of generated homes and of arguments before and after, monitored by audit events", "Commands and library operations sampled; access times are ignored."),
    "P33": ("fault injection at generated steps (Hypothesis) and enumeration of all steps of small commands (thorough)", "An interruption is injected between any two lines of the program's own code, not within libraries."),
    "P34": ("the generators and oracles of the other properties, evaluated in interpreters started with other options (Hypothesis)", "Options of Python 3.12 only."),
    "P35": ("enumeration of operations and shapes, and property-based testing (Hypothesis) with sizes growing 64 fold; metamorphic relation between the CPU times and peak memory of the sizes", "Growth by less than a factor of 8 per byte over a 64 fold range of sizes is not seen; CPU times are measured again before an alarm."),
    "P36": (PBT + " on real processes, differential against the independent implementation in both directions", "Option and recipient combinations sampled; near-equal passphrase pairs enumerated; SSH-Ed25519 entries are read by the model of pyage's own variant."),
    "P37": (PBT + " on real processes: generated spellings of generated requests, and mistakes put into them", "Spellings and mistakes sampled; the outcome is judged by the independent implementation and snapshots."),
}
checks = []
for pid in sorted(T):
    if not os.path.exists(os.path.join(HERE, "checks", pid.lower() + ".py")):
        continue
    checks.append({
        "property": pid,
        "quick_cmd": "/opt/venv/bin/python -B run.py %s quick" % pid,
        "thorough_cmd": "/opt/venv/bin/python -B run.py %s thorough" % pid,
        "technique": T[pid][0],
        "level": "fault_enumeration" if pid in ("P03", "P04", "P14", "P33") else "exploration",
        "level_note": T[pid][1],
    })
with open(os.path.join(HERE, "MANIFEST.json"), "w") as f:
    json.dump({"version": 1, "setup_cmd": "/opt/venv/bin/python -B selftest.py", "checks": checks, "not_applicable": []}, f, indent=1)
    f.write("\n")
