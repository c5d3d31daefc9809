"""Makes golden.json with the original version: VERIF_REPO=<checkout of the base commit> python make_golden.py"""
import json, os, sys
sys.path.insert(0, os.path.dirname(os.path.dirname(os.path.abspath(__file__))))
from vf import core
core.setup_paths()
from vf import gen, kit
out = []
ids = [{"t": "age", "sk": gen.sk_pool(0)}, {"t": "ed", "seed": gen.ed_pool(0)}, {"t": "rsa", "i": 0}, {"t": "rsa", "i": 4},
       {"t": "rsa", "i": 11}, {"t": "pw", "pw": b"golden"}]
for k, (i, n) in enumerate([(i, n) for i in ids for n in (1, 100)] + [(ids[0], 65536), (ids[1], 65537), (ids[1], 131072)]):
    pt = {"len": n, "seed": k}
    rec = [i] if k % 2 else [ids[0], i, ids[1]]
    blob = kit.encrypt([kit.enc_key(s) for s in rec], kit.material(pt))
    out.append({"pt": pt, "id": core._enc(i), "file": blob.hex()})
json.dump(out, open(os.path.join(os.path.dirname(os.path.abspath(__file__)), "golden.json"), "w"), indent=0)
