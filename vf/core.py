"""Driver: runs the generated-input searches of one property and reports.

A check module (checks/pNN.py) exposes PID, RULE, SUBS (list of Sub).  Every Sub is
either a Hypothesis strategy (random search with shrinking) or a deterministic
enumeration, plus an oracle `check(case)` which raises Violation.  Cases are plain data
(JSON-able, bytes allowed), so a failing case is written out as a replay file and can be
run again without Hypothesis.
"""
import collections
import contextlib
import hashlib
import importlib
import json
import os
import re
import resource
import shutil
import signal
import sys
import tempfile
import time
import traceback

REPO = os.environ.get("VERIF_REPO", "/repo")
VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
TOOLS = "/opt/veriftools/pyvenv/lib/python3.12/site-packages"
AGE_SRC = os.path.join(REPO, "src", "age") + os.sep


def setup_paths():
    sys.dont_write_bytecode = True
    if VERIF not in sys.path:
        sys.path.insert(0, VERIF)
    if TOOLS not in sys.path:
        sys.path.append(TOOLS)  # last: cryptography & co. must come from the venv of the project
    src = os.path.join(REPO, "src")
    sys.path[:] = [p for p in sys.path if p != src]
    sys.path.insert(0, src)
    # third party modules first (with their bytecode caches) ...
    import bcrypt  # noqa
    import click.testing  # noqa
    import cryptography.hazmat.primitives.asymmetric.rsa  # noqa
    import cryptography.hazmat.primitives.serialization  # noqa
    import hypothesis  # noqa
    import hypothesis.strategies  # noqa
    import nacl.bindings  # noqa
    import requests  # noqa

    import warnings
    from cryptography.utils import CryptographyDeprecationWarning
    warnings.simplefilter("ignore", CryptographyDeprecationWarning)

    # ... then the code under test, never from a cached .pyc
    sys.pycache_prefix = "/nonexistent"
    import age.cli  # noqa
    import age.file  # noqa

    if not age.file.__file__.startswith(AGE_SRC):
        raise HarnessError("age imported from " + age.file.__file__)
    sys.pycache_prefix = None


class Violation(Exception):
    """The property does not hold for the current case."""


class HarnessError(Exception):
    pass


class CaseTimeout(BaseException):
    pass


class _Found(Exception):
    pass


def violation(msg):
    raise Violation(msg)


# ---------------------------------------------------------------- case (de)serialisation
def _enc(o):
    if isinstance(o, (bytes, bytearray)):
        return {"$b": bytes(o).hex()}
    if isinstance(o, dict):
        return {k: _enc(v) for k, v in o.items()}
    if isinstance(o, (list, tuple)):
        return [_enc(v) for v in o]
    return o


def _dec(o):
    if isinstance(o, dict):
        if set(o) == {"$b"}:
            return bytes.fromhex(o["$b"])
        return {k: _dec(v) for k, v in o.items()}
    if isinstance(o, list):
        return [_dec(v) for v in o]
    return o


def dumps(case):
    return json.dumps(_enc(case), sort_keys=True)


def loads(text):
    return _dec(json.loads(text))


class Sub:
    """One search.

    strategy: callable returning a Hypothesis strategy    } one of the two
    enum:     callable(tier) returning an iterable of cases }
    check:    callable(case) -> labels (list of str) or None; raises Violation.
              the label "trivial" marks a case as not non-trivial.
    """

    def __init__(self, name, check, strategy=None, enum=None, quick=200, thorough=None,
                 qshards=1, tshards=8, budget=(45, 1500), case_cpu=150, custom=None, to_case=None):
        self.name = name
        self.check = check
        self.strategy = strategy
        self.enum = enum
        self.custom = custom
        self.to_case = to_case  # fuzzed searches: bytes -> case
        self.n = {"quick": quick, "thorough": thorough if thorough is not None else quick * 25}
        self.shards = {"quick": qshards, "thorough": tshards}
        self.budget = {"quick": budget[0], "thorough": budget[1]}
        self.case_cpu = case_cpu


# ---------------------------------------------------------------- one job
class JobState:
    def __init__(self, sub, tier, known):
        self.sub = sub
        self.tier = tier
        self.known = known
        self.t0 = time.monotonic()
        self.evals = 0
        self.skipped = 0
        self.nontrivial = set()
        self.labels = collections.Counter()
        self.samples = []
        self.failing = {}
        self.first_fail = None
        self.best = None
        self.known_hits = {}
        self.error = None
        self.shrink_s = 20 if tier == "quick" else 60

    def run(self, case):
        text = dumps(case)
        now = time.monotonic()
        if self.first_fail is not None and now - self.first_fail > self.shrink_s:
            if text in self.failing:
                raise _Found(self.failing[text])
            return
        if self.first_fail is None and now - self.t0 > self.sub.budget[self.tier]:
            self.skipped += 1
            return
        self.evals += 1
        try:
            labels = run_case(self.sub, _dec(_enc(case)))
        except Violation as e:
            msg = str(e)
            hit = self.known(self.sub.name, text, msg)
            if hit:
                self.known_hits[hit] = self.known_hits.get(hit, 0) + 1
                self.labels["known-finding"] += 1
                return
            self.failing[text] = msg
            if self.first_fail is None:
                self.first_fail = time.monotonic()
            self.best = (text, msg)
            raise _Found(msg)
        labels = list(labels or [])
        for label in labels:
            self.labels[label] += 1
        if "trivial" not in labels:
            h = hashlib.sha256(text.encode()).digest()[:8]
            if h not in self.nontrivial:
                self.nontrivial.add(h)
                if len(self.samples) < 2 or (len(self.samples) < 4 and self.evals % 37 == 0):
                    self.samples.append({"sub": self.sub.name, "case": _short(_enc(case)), "labels": labels})

    def result(self):
        return {
            "sub": self.sub.name,
            "evals": self.evals,
            "skipped": self.skipped,
            "nontrivial": [h.hex() for h in self.nontrivial],
            "labels": dict(self.labels),
            "samples": self.samples,
            "violation": self.best if self.first_fail is not None else None,
            "known": self.known_hits,
            "error": self.error,
            "seconds": round(time.monotonic() - self.t0, 2),
        }


def _short(o, limit=160):
    if isinstance(o, dict):
        return {k: _short(v, limit) for k, v in o.items()}
    if isinstance(o, list):
        return [_short(v, limit) for v in o[:12]] + (["..."] if len(o) > 12 else [])
    if isinstance(o, str) and len(o) > limit:
        return o[:limit] + "...(%d)" % len(o)
    return o


def _alarm(signum, frame):
    raise CaseTimeout()


def run_case(sub, case):
    """Run the oracle once; only Violation leaves it for a broken property."""
    signal.signal(signal.SIGPROF, _alarm)
    signal.setitimer(signal.ITIMER_PROF, sub.case_cpu)
    try:
        return sub.check(case)
    except (Violation, HarnessError, KeyboardInterrupt):
        raise
    except CaseTimeout:
        raise Violation("no result after %d s of CPU time" % sub.case_cpu)
    except MemoryError:
        raise HarnessError("out of memory")
    except (Exception, SystemExit) as e:
        if passes_through_age(e):
            raise Violation("unexpected %s: %s\n%s" % (
                type(e).__name__, e, "".join(traceback.format_tb(e.__traceback__)[-6:])))
        raise
    finally:
        signal.setitimer(signal.ITIMER_PROF, 0)


def passes_through_age(exc):
    tb = exc.__traceback__
    while tb is not None:
        if tb.tb_frame.f_code.co_filename.startswith(AGE_SRC):
            return True
        tb = tb.tb_next
    return False


def run_job(pid, sub, tier, seed, shard, nshards, known):
    st = JobState(sub, tier, known)
    n = max(1, sub.n[tier] // nshards)
    try:
        if sub.enum is not None:
            for i, case in enumerate(sub.enum(tier)):
                if i % nshards == shard:
                    st.run(case)
        elif sub.custom is not None:
            sub.custom(st, tier, seed, shard, n)
        else:
            import hypothesis
            from hypothesis import HealthCheck, Phase, Verbosity, given, settings

            @hypothesis.seed(int.from_bytes(hashlib.sha256(
                ("%s/%s/%d/%d" % (pid, sub.name, seed, shard)).encode()).digest()[:8], "big"))
            @settings(max_examples=n, database=None, deadline=None, report_multiple_bugs=False,
                      suppress_health_check=list(HealthCheck), print_blob=False,
                      phases=[Phase.generate, Phase.shrink], verbosity=Verbosity.quiet)
            @given(sub.strategy())
            def t(case):
                st.run(case)

            t()
    except _Found:
        pass
    except BaseException as e:
        if st.first_fail is None:
            st.error = "".join(traceback.format_exception(type(e), e, e.__traceback__))[-4000:]
        # otherwise e.g. Flaky raised while shrinking: st.best holds the failing case
    return st.result()


# ---------------------------------------------------------------- known findings
def load_known(pid):
    """known_findings.txt: 'finding: property=<id> sub=<sub> case=<regex>|msg=<regex> :: <text>'.
    'fixed:' lines are a record only and suppress nothing."""
    out = []
    path = os.path.join(VERIF, "known_findings.txt")
    if os.path.exists(path):
        for line in open(path):
            m = re.match(r"finding: property=(\S+) sub=(\S+) match=(\S+) :: (.*)$", line.strip())
            if m and m.group(1) == pid:
                out.append((m.group(2), re.compile(m.group(3)), m.group(4)))

    def match(sub, text, msg):
        for fsub, rx, desc in out:
            if fsub == sub and rx.search(text):
                return desc
        return None

    return match


# ---------------------------------------------------------------- parent
@contextlib.contextmanager
def scratch(prefix="vf-"):
    d = tempfile.mkdtemp(prefix=prefix, dir="/tmp")
    try:
        yield d
    finally:
        shutil.rmtree(d, ignore_errors=True)


def _child_setup(home):
    os.setsid()
    # a shell starts background jobs with SIGINT ignored, which all commands would inherit
    signal.signal(signal.SIGINT, signal.default_int_handler)
    signal.signal(signal.SIGQUIT, signal.SIG_DFL)
    os.makedirs(home, exist_ok=True)
    os.environ["HOME"] = home
    os.environ["HYPOTHESIS_STORAGE_DIRECTORY"] = home + ".hyp"
    os.environ.pop("XDG_CONFIG_HOME", None)
    for k in list(os.environ):
        if k.lower().endswith("_proxy"):
            del os.environ[k]
    os.chdir(home)
    os.umask(0o022)
    resource.setrlimit(resource.RLIMIT_CORE, (0, 0))
    resource.setrlimit(resource.RLIMIT_AS, (12 << 30, 12 << 30))


def main(argv):
    args = list(argv)
    replay = None
    if "--replay" in args:
        i = args.index("--replay")
        replay = args[i + 1]
        del args[i:i + 2]
    only = None
    if "--sub" in args:
        i = args.index("--sub")
        only = args[i + 1]
        del args[i:i + 2]
    pid = args[0]
    tier = args[1] if len(args) > 1 else os.environ.get("VERIF_TIER", "quick")
    seed = int(os.environ.get("VERIF_SEED", "1"))
    t0 = time.monotonic()
    setup_paths()
    mod = importlib.import_module("checks." + pid.lower())
    if replay:
        return run_replay(mod, pid, replay)
    known = load_known(pid)
    subs = {s.name: s for s in mod.SUBS}
    if hasattr(mod, "prepare"):
        mod.prepare()

    jobs = []
    # regression cases first: minimal inputs of defects that were repaired
    regdir = os.path.join(VERIF, "regressions", pid)
    regs = sorted(os.listdir(regdir)) if os.path.isdir(regdir) else []
    for name in regs:
        r = json.load(open(os.path.join(regdir, name)))
        if r["sub"] in subs and only in (None, r["sub"]):
            jobs.append(("reg", r["sub"], _dec(r["case"]), 1))
    for s in mod.SUBS:
        if only and s.name != only:
            continue
        for k in range(s.shards[tier]):
            jobs.append(("sub", s.name, k, s.shards[tier]))

    deadline = t0 + (780 if tier == "quick" else 6 * 3600)
    with scratch("vf-%s-" % pid) as work:
        results = run_parallel(jobs, subs, pid, tier, seed, known, work, deadline)

    merged = {s: {"evaluations": 0, "nontrivial": set(), "labels": collections.Counter(), "skipped": 0,
                  "job_seconds": 0.0} for s in subs}
    samples, errors, violations, known_hits = [], [], [], {}
    for r in results:
        m = merged[r["sub"]]
        m["evaluations"] += r["evals"]
        m["skipped"] += r["skipped"]
        m["nontrivial"].update(r["nontrivial"])
        m["labels"].update(r["labels"])
        m["job_seconds"] += r["seconds"]
        if len([x for x in samples if x["sub"] == r["sub"]]) < 3:
            samples += r["samples"][:2]
        if r["error"]:
            errors.append((r["sub"], r["error"]))
        if r["violation"]:
            violations.append((r["sub"],) + tuple(r["violation"]))
        for k, v in r["known"].items():
            known_hits[k] = known_hits.get(k, 0) + v

    evidence = {
        "property": pid,
        "tier": tier,
        "seed": seed,
        "level": getattr(mod, "LEVEL", "exploration"),
        "coverage": {
            "evaluations": sum(m["evaluations"] for m in merged.values()),
            "distinct_nontrivial": sum(len(m["nontrivial"]) for m in merged.values()),
            "rule": mod.RULE,
            "samples": samples[:24],
            "per_search": {
                s: {"evaluations": m["evaluations"], "distinct_nontrivial": len(m["nontrivial"]),
                    "skipped_over_time_budget": m["skipped"], "job_seconds": round(m["job_seconds"], 1),
                    "labels": dict(sorted(m["labels"].items()))}
                for s, m in merged.items()},
            "regression_cases": len(regs),
            "known_findings_hit": known_hits,
        },
        "assumptions": getattr(mod, "ASSUMPTIONS", []),
        "wall_s": round(time.monotonic() - t0, 2),
        "violations": len(violations),
    }
    if not only:
        os.makedirs(os.path.join(VERIF, "evidence"), exist_ok=True)
        with open(os.path.join(VERIF, "evidence", pid + ".json"), "w") as f:
            json.dump(evidence, f, indent=1)
            f.write("\n")

    for k in known_hits:
        print("KNOWN-FINDING: property=%s %s" % (pid, k))
    if violations:
        os.makedirs(os.path.join(VERIF, "replays"), exist_ok=True)
        sub, text, msg = min(violations, key=lambda v: len(v[1]))
        path = os.path.join(VERIF, "replays", "%s-%s.json" % (
            pid, hashlib.sha256((sub + text).encode()).hexdigest()[:12]))
        with open(path, "w") as f:
            json.dump({"property": pid, "sub": sub, "case": json.loads(text), "message": msg}, f, indent=1)
        print("search %s: %s" % (sub, msg[:1500]))
        print("case: %s" % text[:1500])
        print("VIOLATION property=%s replay=%s" % (pid, path))
        return 1
    if errors:
        for s, e in errors[:3]:
            print("HARNESS ERROR in search %s:\n%s" % (s, e), file=sys.stderr)
        return 2
    print("OK property=%s tier=%s seed=%d evaluations=%d distinct_nontrivial=%d wall=%.1fs" % (
        pid, tier, seed, evidence["coverage"]["evaluations"],
        evidence["coverage"]["distinct_nontrivial"], evidence["wall_s"]))
    return 0


def run_replay(mod, pid, path):
    r = json.load(open(path))
    sub = {s.name: s for s in mod.SUBS}[r["sub"]]
    if hasattr(mod, "prepare"):
        mod.prepare()
    with scratch("vf-%s-" % pid) as work:
        _child_setup_noset(work)
        try:
            run_case(sub, _dec(r["case"]))
        except Violation as e:
            print(str(e)[:3000])
            print("VIOLATION property=%s replay=%s" % (pid, path))
            return 1
        finally:
            os.chdir("/")
    print("OK replay %s" % path)
    return 0


def _child_setup_noset(home):
    signal.signal(signal.SIGINT, signal.default_int_handler)
    os.environ["HOME"] = home
    os.chdir(home)


def run_parallel(jobs, subs, pid, tier, seed, known, work, deadline):
    ncpu = min(8, os.cpu_count() or 1)
    pending = list(enumerate(jobs))
    running = {}
    results = []
    stop = False
    while (pending and not stop) or running:
        while pending and not stop and len(running) < ncpu:
            idx, job = pending.pop(0)
            out = os.path.join(work, "r%d.json" % idx)
            sys.stdout.flush()
            sys.stderr.flush()
            child = os.fork()
            if child == 0:
                code = 1
                try:
                    home = os.path.join(work, "h%d" % idx)
                    _child_setup(home)
                    dn = os.open("/dev/null", os.O_RDONLY)
                    os.dup2(dn, 0)
                    kind, sname, arg, nsh = job
                    if kind == "reg":
                        res = run_reg(subs[sname], arg, tier, known)
                    else:
                        res = run_job(pid, subs[sname], tier, seed, arg, nsh, known)
                    with open(out + ".tmp", "w") as f:
                        json.dump(res, f)
                    os.rename(out + ".tmp", out)
                    code = 0
                except BaseException:
                    traceback.print_exc()
                finally:
                    os._exit(code)
            running[child] = (out, job)
        p, status = os.waitpid(-1, os.WNOHANG)
        if p == 0:
            if time.monotonic() > deadline:
                for c in running:
                    _killpg(c)
                    results.append(_errres(running[c][1][1], "check ran out of time"))
                    os.waitpid(c, 0)
                running.clear()
                break
            time.sleep(0.02)
            continue
        if p not in running:
            continue
        out, job = running.pop(p)
        _killpg(p)
        if os.path.exists(out):
            r = json.load(open(out))
            if r["error"]:
                r["error"] = "%s %s\n" % (job[0], job[1]) + r["error"]
            if r["violation"]:
                stop = True
        else:
            r = _errres(job[1], "job died with status %r" % status)
        results.append(r)
        if stop:
            for c in running:
                _killpg(c)
            for c in list(running):
                os.waitpid(c, 0)
            running.clear()
    return results


def _errres(sub, msg):
    return {"sub": sub, "evals": 0, "skipped": 0, "nontrivial": [], "labels": {}, "samples": [],
            "violation": None, "known": {}, "error": msg, "seconds": 0}


def run_reg(sub, case, tier, known):
    st = JobState(sub, tier, known)
    try:
        st.run(case)
        st.labels["regression"] += 1
    except _Found:
        pass
    except BaseException as e:
        st.error = "".join(traceback.format_exception(type(e), e, e.__traceback__))[-4000:]
    return st.result()


def _killpg(pid):
    try:
        os.killpg(pid, signal.SIGKILL)
    except OSError:
        pass
