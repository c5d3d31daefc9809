import hashlib
import io
import os
import pickle
import random
import subprocess
import sys
import time

from hypothesis import strategies as st

from age.keys.agekey import AgePrivateKey
from age.keys.ed25519 import Ed25519PrivateKey
from ref import agev1
from vf import core, gen, kit
from vf.core import HarnessError, Sub, Violation

PID = "P07"
RULE = ("Histories of encryptions with the operating system's real entropy: same plaintext and recipients again and again "
        "(duplicate recipients in one file included), the non-cryptographic generator reseeded to a constant and the clock "
        "and process id frozen before each, across forked children of one state and across fresh processes. The reference "
        "implementation recovers every file key, nonce, share, salt and wrapped key: all must be distinct, and over long "
        "histories the bits of file key, nonce and salt must be linearly independent over GF(2) (no constant, copied or "
        "combined bits). Same for generated keys. 'entropy': with a known os.urandom, every secret is recomputed with each drawn "
        "byte or bit changed: it has to depend on as many bytes as it is long, and on other ones than the other secrets; 'injective': each of the 256 values of a drawn byte makes another secret. Non-trivial: at least two encryptions compared.")
ASSUMPTIONS = ["false-alarm probability below 2^-60 per run", "randomness is real, so cases are not a function of VERIF_SEED alone"]


class frozen:
    """process state that must not influence the output"""

    def __init__(self, seed):
        self.seed = seed

    def __enter__(self):
        random.seed(self.seed)
        self.saved = (time.time, time.time_ns, time.monotonic, time.monotonic_ns, time.perf_counter, os.getpid)
        time.time, time.time_ns = (lambda: 1700000000.0), (lambda: 1700000000 * 10**9)
        time.monotonic, time.monotonic_ns = (lambda: 1000.0), (lambda: 1000 * 10**9)
        time.perf_counter, os.getpid = (lambda: 1000.0), (lambda: 4242)

    def __exit__(self, *a):
        time.time, time.time_ns, time.monotonic, time.monotonic_ns, time.perf_counter, os.getpid = self.saved


def one(recips, data, pool=kit):
    """pool: kit (new key objects for each recipient) or a kit.Pool (the same objects again and again)"""
    with frozen(1):
        return kit.encrypt([pool.enc_key(s) for s in recips], data)


def explore(blobs, recips, kdf):
    """-> list of {name: value} of random values in the files"""
    out = []
    for b in blobs:
        try:
            stanzas, auth, mac, pos = agev1.parse_header(b)
            vals = {"nonce": b[pos:pos + 16]}
            if len(stanzas) != len(recips):
                raise Violation("number of entries")
            fks = set()
            for k, (s, stz) in enumerate(zip(recips, stanzas)):
                if k == 0:
                    fks.add(kit.ref_unwrap(s, stz, kdf))
                if s["t"] == "age":
                    vals["share%d" % k] = agev1.unb64(stz[0][1])
                elif s["t"] == "ed":
                    vals["share%d" % k] = agev1.unb64(stz[0][2])
                elif s["t"] == "pw":
                    vals["salt%d" % k] = agev1.unb64(stz[0][1])
                vals["body%d" % k] = stz[1]
            (vals["filekey"],) = fks
            agev1.open_with_key(b, vals["filekey"])
        except (agev1.FormatError, agev1.AuthError) as e:
            raise Violation("reference implementation cannot read the file: %r" % e)
        out.append(vals)
    return out


def distinct(valss, what):
    for cls in ("filekey", "nonce", "share", "salt", "body"):
        seen = {}
        for i, vals in enumerate(valss):
            for name, v in vals.items():
                if name.rstrip("0123456789") == cls:
                    if v in seen:
                        raise Violation("%s: the same %s in encryption %d (%s) and %d (%s): %s" % (
                            what, cls, seen[v][0], seen[v][1], i, name, v.hex()[:64]))
                    seen[v] = (i, name)
    for i, vals in enumerate(valss):
        if vals["filekey"] == vals["nonce"]:
            raise Violation("%s: payload nonce equals the file key" % what)


def independent(rows, nbits, what):
    """rows: ints of nbits random bits; more rows than columns are required"""
    if len(rows) < nbits + 64:
        raise HarnessError("too few rows")
    # column space rank: affine independence, so XOR with the first row and add a constant column
    basis = {}
    rank = 0
    for r in rows:
        r = r << 1 | 1
        while r:
            h = r.bit_length()
            if h not in basis:
                basis[h] = r
                rank += 1
                break
            r ^= basis[h]
    if rank < nbits + 1:
        raise Violation("%s: the bits of %d values span only %d of %d dimensions" % (what, len(rows), rank - 1, nbits))


def history(case):
    recips = case["recips"]
    data = kit.material(case["pt"])
    pool = kit.Pool() if case.get("keep") else kit
    with kit.fake_scrypt() as fs:
        blobs = []
        for i in range(case["n"]):
            blobs.append(one(recips, data, pool))
            if case.get("keep") and i % 3 == 1:
                # the objects are also used for decryption
                with kit.quiet():
                    kit.try_decrypt([pool.dec_key(s) for s in recips], blobs[-1])
        valss = explore(blobs, recips, fs.ref)
    distinct(valss, "history of %d" % case["n"])
    labels = ["objects:" + ("kept" if case.get("keep") else "new"), "types:" + "+".join(sorted({s["t"] for s in recips})), "n:%d" % case["n"]]
    if case["n"] >= 330:
        independent([int.from_bytes(v["filekey"] + v["nonce"], "big") for v in valss], 256, "file key and nonce")
        for name in valss[0]:
            if name.startswith("salt"):
                independent([int.from_bytes(v[name], "big") for v in valss], 128, "scrypt salt")
            if name.startswith("share"):
                cols = [sum((v[name][i // 8] >> i % 8 & 1) for v in valss) for i in range(255)]
                if any(c in (0, len(valss)) for c in cols):
                    raise Violation("constant bit in ephemeral shares")
        labels.append("bits-independent")
    return labels


def forks(case):
    recips = case["recips"]
    data = kit.material(case["pt"])
    pool = kit.Pool() if case.get("keep") else kit
    with kit.fake_scrypt() as fs:
        blobs = [one(recips, data, pool) for _ in range(case["pre"])]
        keys = [AgePrivateKey.generate().private_bytes() for _ in range(case["pre"])]
        for _ in range(case["children"]):
            r, w = os.pipe()
            pid = os.fork()
            if pid == 0:
                try:
                    os.close(r)
                    with frozen(1):
                        ks = [AgePrivateKey.generate().private_bytes(), Ed25519PrivateKey.generate().public_key().binary_encoding()]
                    res = pickle.dumps(([one(recips, data, pool) for _ in range(2)], ks))
                    with os.fdopen(w, "wb") as f:
                        f.write(res)
                finally:
                    os._exit(0)
            os.close(w)
            with os.fdopen(r, "rb") as f:
                raw = f.read()
            os.waitpid(pid, 0)
            if not raw:
                raise HarnessError("child gave no result")
            bs, ks = pickle.loads(raw)
            blobs += bs
            keys += ks
        blobs += [one(recips, data, pool)]
        valss = explore(blobs, recips, fs.ref)
    distinct(valss, "%d encryptions across %d forked processes" % (len(blobs), case["children"]))
    if len(set(keys)) != len(keys):
        raise Violation("the same key pair was generated twice across forked processes")
    return ["children:%d" % case["children"], "pre:%d" % case["pre"]]


FRESH = r"""
import sys
sys.path.insert(0, %r)
from vf import core
core.setup_paths()
import pickle
from checks import p07
from vf import kit
case = pickle.loads(sys.stdin.buffer.read())
with p07.frozen(1):
    k = p07.AgePrivateKey.generate().private_bytes()
with kit.fake_scrypt():
    sys.stdout.buffer.write(pickle.dumps(([p07.one(case["recips"], b"same") for _ in range(2)], k)))
"""


def fresh(case):
    blobs, keys = [], []
    for _ in range(case["n"]):
        p = subprocess.run([sys.executable, "-B", "-c", FRESH % core.VERIF], input=pickle.dumps(case), capture_output=True,
                           env={"PATH": "/usr/bin:/bin", "PYTHONHASHSEED": "0", "VERIF_REPO": core.REPO, "HOME": os.getcwd()})
        if p.returncode:
            raise HarnessError(p.stderr.decode()[-2000:])
        b, k = pickle.loads(p.stdout)
        blobs += b
        keys.append(k)
    with kit.fake_scrypt() as fs:
        valss = explore(blobs, case["recips"], fs.ref)
    distinct(valss, "fresh processes")
    if len(set(keys)) != len(keys):
        raise Violation("the same key pair was generated by two processes")
    return ["fresh"]


def keygen(case):
    def gen_one(kind):
        with frozen(case["seed"]):
            if kind == "age":
                return AgePrivateKey.generate().private_bytes()
            if kind == "ed":
                return Ed25519PrivateKey.generate().public_key().binary_encoding()
            from age import cli
            out = io.StringIO()
            out.fileno = lambda: _raise(io.UnsupportedOperation())
            with kit.quiet():
                cli.generate(out)
            return out.getvalue().strip().splitlines()[-1]
    vals = [gen_one(case["kind"]) for _ in range(case["n"])]
    if len(set(vals)) != len(vals):
        raise Violation("%d generated keys, only %d distinct" % (len(vals), len(set(vals))))
    if case["kind"] == "age":
        vals2 = [int.from_bytes(v, "little") >> 3 & (2**251 - 1) for v in vals]
        if len(vals2) >= 251 + 64:
            independent(vals2, 251, "generated secret keys")
    return ["kind:" + case["kind"]]


def _raise(e):
    raise e


class Source:
    """os.urandom with a known output in which single bytes can be changed"""

    def __init__(self, seed, flip=None, put=None):
        self.seed, self.flip, self.put, self.pos = seed, flip, put, 0

    def __call__(self, n):
        out = bytearray()
        for i in range(self.pos, self.pos + n):
            b = hashlib.sha256(b"%d/%d" % (self.seed, i)).digest()[0]
            if self.put and self.put[0] == i:
                b = self.put[1]
            out.append(b ^ self.flip[1] if self.flip and self.flip[0] == i else b)
        self.pos += n
        return bytes(out)

    def __enter__(self):
        self.saved = os.urandom, random._urandom
        os.urandom = random._urandom = self
        return self

    def __exit__(self, *a):
        os.urandom, random._urandom = self.saved


NEED = {"filekey": (16, 8), "nonce": (16, 8), "salt": (16, 8), "share": (32, 1), "key": (32, 1)}


def entropy(case):
    """which drawn bytes does each secret depend on? (values from a source other than os.urandom differ between equal runs)"""
    recips = case["recips"]

    def run(flip):
        with Source(case["seed"], flip) as src:
            if recips is None:
                with frozen(1):
                    return {"key": AgePrivateKey.generate().private_bytes()}, src.pos
            blob = one(recips, b"data")
        return explore([blob], recips, fs.ref)[0], src.pos

    with kit.fake_scrypt() as fs:
        first, total = run(None)
        again, total2 = run(None)
        if total != total2 or total > 2000:
            return ["trivial", "stateful source"]
        fixed = [n for n in first if first[n] == again[n] and n.rstrip("0123456789") in NEED]
        depends = {n: {} for n in fixed}
        for i in range(total if fixed else 0):
            masks = (0xFF,) if case["bits"] == 0 else (1 << (i + case["bits"]) % 8,) if case["bits"] < 8 else [1 << b for b in range(8)]
            for m in masks:
                got = run((i, m))[0]
                for n in fixed:
                    if got[n] != first[n]:
                        depends[n][i] = depends[n].get(i, 0) + 1
    for n, d in depends.items():
        count, _ = NEED[n.rstrip("0123456789")]
        # clamping makes five bits of a curve scalar ineffective
        slack = 2 if case["bits"] and count == 32 else 0
        if len(d) < count - slack:
            raise Violation("%s depends on only %d random bytes (of %d drawn)" % (n, len(d), total))
        if case["bits"] == 8 and count == 16 and sum(d.values()) < 128:
            raise Violation("%s depends on only %d random bits" % (n, sum(d.values())))
    names = sorted(depends)
    for i, a in enumerate(names):
        for b in names[i + 1:]:
            both = set(depends[a]) & set(depends[b])
            if both:
                raise Violation("%s and %s are made of the same random bytes" % (a, b))
    return ["deterministic:%d" % len(fixed)] + (["trivial"] if not fixed else [])


def injective(case):
    """each value of a drawn byte makes another secret"""
    recips = case["recips"]

    def run(put):
        with Source(case["seed"], put=put) as src:
            if recips is None:
                with frozen(1):
                    return {"key": AgePrivateKey.generate().private_bytes()}, src.pos
            blob = one(recips, b"data")
        return explore([blob], recips, fs.ref)[0], src.pos

    tested = 0
    with kit.fake_scrypt() as fs:
        first, total = run(None)
        again, total2 = run(None)
        if total != total2 or total > 2000:
            return ["trivial", "stateful source"]
        fixed = [n for n in first if first[n] == again[n] and n.rstrip("0123456789") in NEED]
        for i in range(case["first"], total if fixed else 0, case["step"]):
            got = [run((i, v)) for v in range(256)]
            if len({t for _, t in got}) > 1:
                continue  # some values are drawn again
            for n in fixed:
                vals = {g[n] for g, _ in got}
                # of a curve scalar, three bits of the first and two bits of the last byte do not count
                if len(vals) not in ((1, 256) if NEED[n.rstrip("0123456789")][0] == 16 or n == "key" else (1, 32, 64, 256)):
                    raise Violation("the 256 values of byte %d of the entropy make only %d different values of %s" % (i, len(vals), n))
                tested += len(vals) > 1
    return ["bytes:%d" % min(tested, 10)] if tested else ["trivial"]


def enum_injective(tier):
    age, ed, pw = {"t": "age", "sk": gen.sk_pool(0)}, {"t": "ed", "seed": gen.ed_pool(0)}, {"t": "pw", "pw": b"x"}
    for r in ([age], [ed], [pw], None):
        for seed in range(2 if tier == "quick" else 16):
            yield {"recips": r, "seed": seed, "first": seed % 11, "step": 11}


def strat_entropy():
    return st.fixed_dictionaries({
        "recips": gen.weighted((8, st.lists(gen.ident(small=True), min_size=1, max_size=2)), (1, st.none())),
        "seed": st.integers(0, 10**6), "bits": gen.weighted((4, st.integers(0, 7)), (1, st.just(8)))})


def strat_hist():
    ids = st.lists(gen.ident(small=True), min_size=1, max_size=3)
    return st.fixed_dictionaries({
        "keep": st.booleans(), "recips": st.one_of(ids, ids.map(lambda l: l + l)), "pt": gen.small_plaintext(60), "n": st.integers(2, 12)})


def long_hist(tier):
    age, ed, pw, rsa = ({"t": "age", "sk": gen.sk_pool(0)}, {"t": "ed", "seed": gen.ed_pool(0)}, {"t": "pw", "pw": b"x"},
                        {"t": "rsa", "i": 0})
    n = 340 if tier == "quick" else 3000
    for r in ([age], [ed], [pw], [age, age], [pw, pw], [rsa, age]):
        for keep in (False, True):
            yield {"recips": r, "pt": {"len": 5}, "n": n, "keep": keep}


def strat_forks():
    return st.fixed_dictionaries({
        "keep": st.booleans(), "recips": st.lists(gen.ident(small=True), min_size=1, max_size=2), "pt": gen.small_plaintext(20),
        "pre": st.integers(0, 3), "children": st.integers(2, 3)})


def enum_fresh(tier):
    age, pw = {"t": "age", "sk": gen.sk_pool(0)}, {"t": "pw", "pw": b"x"}
    for r in ([age], [pw, age]):
        yield {"recips": r, "n": 2 if tier == "quick" else 10}


def enum_keygen(tier):
    for seed in range(1 if tier == "quick" else 10):
        yield {"kind": "age", "n": 400, "seed": seed}
        yield {"kind": "ed", "n": 300, "seed": seed}
        yield {"kind": "cli", "n": 150, "seed": seed}


SUBS = [
    Sub("short-histories", history, strat_hist, quick=150, thorough=8000, qshards=3),
    Sub("long-histories", history, enum=long_hist, qshards=6, tshards=6),
    Sub("forks", forks, strat_forks, quick=40, thorough=2000, qshards=2),
    Sub("fresh-processes", fresh, enum=enum_fresh, qshards=2, tshards=2),
    Sub("entropy", entropy, strat_entropy, quick=60, thorough=2500, qshards=4),
    Sub("injective", injective, enum=enum_injective, qshards=3),
    Sub("key-generation", keygen, enum=enum_keygen, qshards=3, tshards=3),
]
