#!/usr/bin/env python3
"""try_bug.py [ID...] [--checks] [--all-checks]: for each seeded/<ID>: patch applies to /repo's HEAD, changes
lines of the original commit, stable tests pass, demo 0/nonzero; with --checks also runs the property's quick
check against the patched copy."""
import json, os, re, threading, shutil, subprocess, sys, tempfile
from concurrent.futures import ThreadPoolExecutor

V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
BASE = "dfc30c0"
LOCK = threading.Lock()  # the tests use fixed names in /tmp
STABLE = set(json.load(open("/opt/vp/BASELINE.json"))["stable"])


def sh(cmd, **kw):
    return subprocess.run(cmd, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True, **kw)


def tests(tree, tmp):
    script = open("/opt/vp/test.sh").read().replace("/repo", tree)
    p = os.path.join(tmp, "test.sh")
    open(p, "w").write(script)
    out = os.path.join(tmp, "t.json")
    with LOCK:
        r = sh(["bash", p, out])
    passed = set(json.load(open(out))["passed"])
    return sorted(STABLE - passed), r.stdout[-1500:]


def demo(tree, d):
    tmp = tempfile.mkdtemp(prefix="demo-")
    try:
        for n in os.listdir(d):
            if not n.endswith((".diff", ".patch")) and n != "meta.json":
                shutil.copy(os.path.join(d, n), tmp)
        try:
            return sh(["bash", os.path.join(tmp, "demo.sh")], cwd=tree, timeout=300)
        except subprocess.TimeoutExpired:
            return subprocess.CompletedProcess([], 124, "timeout")
    finally:
        shutil.rmtree(tmp)


def one(i, checks):
    d = os.path.join(V, "seeded", i)
    meta = json.load(open(os.path.join(d, "meta.json")))
    patch = os.path.join(d, "patch.diff")
    res = []
    tmp = tempfile.mkdtemp(prefix="try-")
    os.chmod(tmp, 0o755)
    try:
        tree = os.path.join(tmp, "repo")
        shutil.copytree("/repo", tree, symlinks=True)
        r = sh(["git", "-C", tree, "apply", patch])
        if r.returncode:
            return i, meta, ["APPLY " + r.stdout]
        minus = [l[1:] for l in open(patch) if l.startswith("-") and not l.startswith("---")]
        files = re.findall(r"^\+\+\+ b/(\S+)", open(patch).read(), re.M)
        orig = set()
        for f in files:
            orig |= set(sh(["git", "-C", "/repo", "show", BASE + ":" + f]).stdout.splitlines(True))
            if f.endswith("_test.py"):
                res.append("TOUCHES TEST " + f)
        if not [l for l in minus if l.strip() and l in orig]:
            res.append("NO ORIGINAL LINE CHANGED")
        bad = [l for l in minus if l.strip() and l not in orig]
        if bad:
            res.append("changes non-original lines: %r" % bad)
        for k in range(2):
            missing, out = tests(tree, tmp)
            if missing:
                res.append("TESTS FAIL %s\n%s" % (missing, out))
                break
        r0 = demo("/repo", d)
        if r0.returncode:
            res.append("DEMO FAILS UNPATCHED\n" + r0.stdout[-1500:])
        r1 = demo(tree, d)
        if not r1.returncode:
            res.append("DEMO PASSES PATCHED\n" + r1.stdout[-800:])
        for pid in checks(meta):
            env = dict(os.environ, VERIF_REPO=tree, VERIF_SEED=os.environ.get("VERIF_SEED", "1"), VERIF_TIER="quick")
            rc = sh([os.path.join(V, "run.py"), pid], cwd=V, env=env)
            lines = [l for l in rc.stdout.splitlines() if l.startswith(("search ", "VIOLATION", "OK", "HARNESS"))]
            verdict = {0: "MISSED", 1: "caught"}.get(rc.returncode, "NOANSWER %d" % rc.returncode)
            res.append("%s %s %s" % (pid, verdict, (lines or [rc.stdout[-600:]])[0][:150]))
        return i, meta, res
    finally:
        shutil.rmtree(tmp)


def main():
    args = sys.argv[1:]
    ids = [a for a in args if not a.startswith("--")] or sorted(os.listdir(os.path.join(V, "seeded")))
    if "--all-checks" in args:
        checks = lambda m: ["P%02d" % k for k in range(1, 31)]  # noqa
    elif "--checks" in args:
        checks = lambda m: [m["property"]]  # noqa
    else:
        checks = lambda m: []  # noqa
    with ThreadPoolExecutor(2 if "--checks" in args or "--all-checks" in args else 4) as ex:
        for i, meta, res in ex.map(lambda i: one(i, checks), ids):
            print("%-28s %s  %s" % (i, meta["property"], " | ".join(res) or "ok"), flush=True)


main()
