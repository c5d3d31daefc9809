"""Coverage-guided search (atheris / libFuzzer) of one Sub, in an interpreter of its own whose
copy of the code under test is instrumented.

A fuzzed search is declared by a function from bytes to a case (the same plain-data case the
oracle of the search takes), seed inputs and a dictionary.  A failing input is minimised here and
reported as an ordinary case, so that its replay does not need the fuzzer."""
import hashlib
import json
import os
import subprocess
import sys

sys.dont_write_bytecode = True

if __name__ == "__main__":
    sys.path.insert(0, os.path.dirname(os.path.dirname(os.path.abspath(__file__))))

from vf import core


def searcher(pid, to_case, seeds, words=(), runs=(4000, 400000), max_len=2048, seconds=(20, 900)):
    """the `custom` of a Sub"""

    def custom(st, tier, seed, shard, n):
        k = 0 if tier == "quick" else 1
        corpus = os.path.abspath("corpus")
        os.mkdir(corpus)
        for i, s in enumerate(seeds()):
            with open(os.path.join(corpus, "seed%d" % i), "wb") as f:
                f.write(s)
        with open("words", "w") as f:
            for w in words:
                f.write('"%s"\n' % "".join("\\x%02x" % b for b in w))
        num = int.from_bytes(hashlib.sha256(("%s/%s/%d/%d" % (pid, st.sub.name, seed, shard)).encode()).digest()[:4], "big") % 2**31
        r = subprocess.run(
            [sys.executable, "-B", os.path.abspath(__file__), pid, st.sub.name, "corpus", "-runs=%d" % runs[k],
             "-seed=%d" % (num or 1), "-max_total_time=%d" % seconds[k], "-max_len=%d" % max_len, "-timeout=%d" % st.sub.case_cpu,
             "-rss_limit_mb=8000", "-print_final_stats=1", "-dict=words", "-artifact_prefix=./found-"],
            stdin=subprocess.DEVNULL, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, env=dict(os.environ, PYTHONHASHSEED="0"))
        text = r.stdout.decode("utf-8", "replace")
        found = sorted(x for x in os.listdir(".") if x.startswith("found-"))
        for x in found:
            data = open(x, "rb").read()
            data = minimise(st, to_case, data)
            st.run(to_case(data))  # reports if it still fails
        executed = 0
        for line in text.splitlines():
            if line.startswith("stat::number_of_executed_units:"):
                executed = int(line.split(":")[-1])
        st.evals += executed
        st.labels["executed-by-fuzzer"] += executed
        if found or r.returncode != 0 or not executed:
            raise core.HarnessError("fuzzer ended with %r, artifacts %r\n%s" % (r.returncode, found, text[-3000:]))
        # inputs that reached new coverage, beyond the seeds
        for name in sorted(os.listdir(corpus)):
            if name.startswith("seed"):
                continue
            data = open(os.path.join(corpus, name), "rb").read()
            st.nontrivial.add(hashlib.sha256(data).digest()[:8])
            st.labels["new-coverage"] += 1
            if len(st.samples) < 3:
                st.samples.append({"sub": st.sub.name, "case": core._short(core._enc(to_case(data))), "labels": ["new-coverage"]})

    return custom


def minimise(st, to_case, data):
    def fails(d):
        try:
            core.run_case(st.sub, core._dec(core._enc(to_case(d))))
        except core.Violation:
            return True
        except Exception:
            return False
        return False

    if not fails(data):
        return data
    size, tries = max(1, len(data) // 2), 0
    while tries < 600:
        i, changed = 0, False
        while i < len(data) and tries < 600:
            tries += 1
            shorter = data[:i] + data[i + size:]
            if fails(shorter):
                data, changed = shorter, True
            else:
                i += size
        if size == 1 and not changed:
            break
        if not changed:
            size = max(1, size // 2)
    return data


def child(argv):
    pid, name = argv[1:3]
    if core.TOOLS not in sys.path:
        sys.path.append(core.TOOLS)
    import atheris

    src = os.path.join(core.REPO, "src")
    sys.path.insert(0, src)
    with atheris.instrument_imports(include=["age"]):
        import age.cli  # noqa
        import age.file  # noqa
        import age.utils.asciiarmor  # noqa
    core.setup_paths()
    import importlib

    mod = importlib.import_module("checks." + pid.lower())
    sub = {s.name: s for s in mod.SUBS}[name]
    to_case = sub.to_case

    def one(data):
        try:
            sub.check(core._dec(core._enc(to_case(data))))
        except core.HarnessError:
            raise
        except Exception as e:
            # the oracle's verdict, or something that comes out of the code under test
            if isinstance(e, core.Violation) or core.passes_through_age(e):
                raise
            raise

    atheris.Setup([argv[0]] + argv[3:], one)
    atheris.Fuzz()


if __name__ == "__main__":
    child(sys.argv)
