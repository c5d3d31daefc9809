"""Which planted bugs change lines of the original repository (as git blame sees it)?"""
import os
import re
import subprocess

HERE = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
REPO = os.environ.get("VERIF_REPO", "/repo")


def git(*a):
    return subprocess.run(["git", "-C", REPO] + list(a), capture_output=True, text=True, check=True).stdout


ROOT = git("rev-list", "--max-parents=0", "HEAD").split()[0]
OWN = {l.split()[0] for l in git("log", "--format=%H %s").splitlines() if l.split(" ", 1)[1].startswith("fix:")}
blame = {}
for d in sorted(os.listdir(os.path.join(HERE, "seeded"))):
    path = os.path.join(HERE, "seeded", d, "patch.diff")
    old = own = 0
    for l in open(path):
        if l.startswith("--- a/"):
            f = l[6:].strip()
            if f not in blame:
                blame[f] = [x.split()[0].lstrip("^") for x in git("blame", "-l", "-s", "HEAD", "--", f).splitlines()]
        elif l.startswith("@@"):
            n = int(re.match(r"@@ -(\d+)", l).group(1))
        elif l.startswith("-") and not l.startswith("---"):
            if l[1:].strip() and not l[1:].strip().startswith("#"):
                if any(c.startswith(blame[f][n - 1]) for c in OWN):
                    own += 1
                else:
                    old += 1
            n += 1
        elif l.startswith(" "):
            n += 1
    print("%-28s original %d own %d%s" % (d, old, own, "" if old else "   <-----"))
