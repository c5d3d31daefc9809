"""Regenerates rsa_pool.json and collisions.json (deterministic; run once, outputs are committed)."""
import hashlib, json, os, random, sys
sys.path.insert(0, os.path.dirname(os.path.dirname(os.path.abspath(__file__))))
from ref import agev1, curve
from math import gcd
R = random.Random(20240601)

def is_prime(n):
    if n < 4: return n in (2, 3)
    for p in (2,3,5,7,11,13,17,19,23,29,31,37):
        if n % p == 0: return n == p
    d, s = n-1, 0
    while d % 2 == 0: d//=2; s+=1
    for _ in range(24):
        a = R.randrange(2, n-1); x = pow(a,d,n)
        if x in (1,n-1): continue
        for _ in range(s-1):
            x = x*x % n
            if x == n-1: break
        else: return False
    return True

def prime(bits, e):
    while True:
        p = R.getrandbits(bits) | 1 | (3 << (bits-2))
        if gcd(p-1, e) == 1 and is_prime(p): return p

def rsa(bits, e):
    while True:
        p, q = prime((bits+1)//2, e), prime(bits//2, e)
        if bits % 2:
            # make the product exactly `bits` bits long
            if (p*q).bit_length() != bits: p = prime(bits - q.bit_length() + (0 if R.random()<.5 else 1), e)
        n = p*q
        if n.bit_length() == bits and p != q:
            d = pow(e, -1, (p-1)*(q-1)//gcd(p-1,q-1))
            if R.random() < .5: d = pow(e, -1, (p-1)*(q-1))
            return {"n":hex(n),"e":e,"d":hex(d),"p":hex(max(p,q)),"q":hex(min(p,q)),"bits":bits}

spec = [(1024,65537),(1024,3),(1025,17),(1031,65537),(1152,65537),(1536,35),(1279,65537),(2047,65537),
        (2048,65537),(2048,3),(2048,4294967291),(3072,65537),(4096,65537),(1024,65537),(1024,65537)]
pool = [rsa(b,e) for b,e in spec]
# same modulus, different exponents, colliding 4-byte tag
base = pool[0]; p,q,n = (int(base[k],16) for k in "pqn"); lam=(p-1)*(q-1)//gcd(p-1,q-1)
seen={}; e=3
while True:
    if gcd(e,lam)==1:
        t=hashlib.sha256(agev1.rsa_blob(n,e)).digest()[:4]
        if t in seen: break
        seen[t]=e
    e+=2
pair=[]
for x in (seen[t],e):
    pair.append({"n":base["n"],"e":x,"d":hex(pow(x,-1,lam)),"p":base["p"],"q":base["q"],"bits":1024})
from nacl.bindings import crypto_sign_seed_keypair
seen={}; i=0
while True:
    s=hashlib.sha256(b"ed%d"%i).digest(); pk=crypto_sign_seed_keypair(s)[0]
    t=hashlib.sha256(agev1.ed_blob(pk)).digest()[:4]
    if t in seen: break
    seen[t]=s; i+=1
json.dump({"pool":pool,"rsa_collision":pair,"ed_collision":[seen[t].hex(),s.hex()]}, open(os.path.join(os.path.dirname(os.path.abspath(__file__)),"keys.json"),"w"), indent=0)
