"""Ed25519 keys of known seeds in files which OpenSSH encrypted with many bcrypt rounds (writes rounds.json)"""
import json
import os
import subprocess
import sys
import tempfile

HERE = os.path.dirname(os.path.abspath(__file__))
sys.path[:0] = [os.path.dirname(HERE)]
from vf import core
core.setup_paths()
from ref import sshkey
from vf import kit, sshkeys

out = []
with tempfile.TemporaryDirectory() as d:
    for rounds in (300, 600, 1100, 2100):
        path = os.path.join(d, "k%d" % rounds)
        seed = kit.bseed("rounds-file", rounds)[:32]
        with open(os.open(path, os.O_CREAT | os.O_WRONLY, 0o600), "wb") as f:
            f.write(sshkey.write(sshkeys.expand({"t": "ed", "seed": seed}), b"rounds"))
        subprocess.run(["ssh-keygen", "-q", "-p", "-P", "", "-N", "many rounds", "-a", str(rounds), "-f", path], check=True, stdout=subprocess.DEVNULL)
        out.append({"rounds": rounds, "pw": "many rounds", "seed": seed.hex(), "file": open(path).read()})
with open(os.path.join(HERE, "rounds.json"), "w") as f:
    json.dump(out, f, indent=1)
    f.write("\n")
