"""Regenerates dsa.json (DSA domain parameters; random, run once, output is committed)."""
import json, os
from cryptography.hazmat.primitives.asymmetric import dsa
out = []
for bits in (1024, 1024, 2048, 3072):
    n = dsa.generate_parameters(bits).parameter_numbers()
    out.append({"p": hex(n.p), "q": hex(n.q), "g": hex(n.g)})
json.dump(out, open(os.path.join(os.path.dirname(os.path.abspath(__file__)), "dsa.json"), "w"), indent=0)
