import base64
import copy
import gc
import hashlib
import io
import locale
import logging
import os
import resource
import signal
import socket
import stat
import sys
import threading
import warnings

import bcrypt  # noqa: F401 - everything that sets warning filters when imported
import click  # noqa: F401
import cryptography.hazmat.primitives.serialization  # noqa: F401
import nacl.bindings  # noqa: F401
import requests  # noqa: F401
from hypothesis import strategies as st

import age.cli
import age.stream
from age.file import Decryptor, Encryptor
from age.keyloader import load_aliases, load_keys_txt, load_ssh_keys, load_ssh_private_key, resolve_public_key
from age.utils.asciiarmor import AsciiArmoredInput, AsciiArmoredOutput
from vf import cli, gen, kit, resolver, sshkeys, world
from vf.core import HarnessError, Sub, Violation

PID = "P32"
RULE = ("'commands': encrypt, decrypt and generate commands, succeeding and failing, in a generated home with key files, SSH keys, aliases, recipient lists and "
        "bystanders (names near the output's among them); every file and directory (type, mode, owner, size, times, content, link target) is compared before and "
        "after, and audit events are watched for changes elsewhere, started programs and network contacts. 'library': operations on lists, dictionaries, byte "
        "arrays and key objects, all compared before and after together with the working directory, environment, umask, signal handlers, socket timeout, warning filters, threads, standard streams "
        "and open descriptors. Non-trivial: every case.")
ASSUMPTIONS = ["access times may change", "recipients at URLs are left to P15 and P16"]

MAYBE = ["result.bin.tmp", "result.bin~", "result.bin.bak", ".result.bin.swp", "result", "result.bin.age", "tmp", "input.bin.tmp", "keys.txt.bak", ".config/age/keys.txt~", ".cache/age/x", "age.log", ".ssh/known_hosts", ".ssh/config"]


def snapshot(root):
    out = {}
    for d, dirs, files in os.walk(root):
        for name in [""] + dirs + files if d == root else dirs + files:
            p = os.path.join(d, name) if name else d
            s = os.lstat(p)
            content = None
            if stat.S_ISLNK(s.st_mode):
                content = os.readlink(p)
            elif stat.S_ISREG(s.st_mode):
                with open(p, "rb") as f:
                    content = hashlib.sha256(f.read()).hexdigest()
            out[os.path.relpath(p, root)] = (s.st_mode, s.st_uid, s.st_gid, s.st_nlink, s.st_size if not stat.S_ISDIR(s.st_mode) else 0, s.st_mtime_ns, s.st_ctime_ns, s.st_ino, content)
    return out


FIELDS = ["mode", "owner", "group", "links", "size", "modification time", "change time", "inode", "content"]
WRITES = os.O_WRONLY | os.O_RDWR | os.O_CREAT | os.O_TRUNC | os.O_APPEND
CHANGES = {"os.remove": 1, "os.rename": 2, "os.rmdir": 1, "os.mkdir": 1, "os.chmod": 1, "os.chown": 1, "os.link": 2, "os.symlink": 2, "os.truncate": 1, "os.utime": 1, "os.setxattr": 1, "os.removexattr": 1,
           "shutil.rmtree": 1, "shutil.move": 2, "shutil.copyfile": 2}
STARTS = ("subprocess.Popen", "os.exec", "os.posix_spawn", "os.fork", "os.forkpty", "os.system", "os.spawn", "pty.spawn", "os.kill", "os.killpg")
NETWORK = ("socket.connect", "socket.getaddrinfo", "socket.gethostbyname", "socket.sendto", "socket.bind", "urllib.Request", "smtplib.connect", "ftplib.connect", "http.client.connect")


def watch(root, fd):
    """audit hook reporting to a descriptor"""
    root = os.path.realpath(root) + os.sep

    def elsewhere(p):
        if isinstance(p, int) or p is None:
            return False
        p = os.path.realpath(os.fsdecode(p))
        return not p.startswith(root) and not p.startswith("/dev/") and not p.startswith("/proc/self/") and p + os.sep != root

    def hook(event, args):
        if event == "open":
            bad = isinstance(args[2], int) and args[2] & WRITES and elsewhere(args[0])
        elif event in CHANGES:
            bad = any(elsewhere(p) for p in args[:CHANGES[event]])
        else:
            bad = event in STARTS or event in NETWORK
        if bad:
            os.write(fd, ("%s %r\n" % (event, args[:2])).encode("utf-8", "replace"))
    sys.addaudithook(hook)


def commands(case):
    base = os.environ["HOME"]
    world.clean(base)
    home = os.path.join(base, "home")
    cwd = [home, os.path.join(base, "work")][case["n"] % 2]
    tmp = os.path.join(base, "tmpdir")
    for d in (home, os.path.join(base, "work"), tmp):
        os.makedirs(d, exist_ok=True)
    n, cmd, how = case["n"], case["cmd"], case["how"]
    sks = [kit.bseed("p32", i) for i in range(3)]
    bare = case["bare"] and cmd != "encrypt"  # no ~/.config, perhaps no ~/.ssh
    mine, ssh = {"t": "age", "sk": sks[n % 3]}, {"t": "ed", "seed": kit.bseed("p32", "s")} if n % 3 else {"t": "rsa", "i": 2}
    if case["keys"] % 4 and not bare:
        world.put(home, ".config/age/keys.txt", world.keys_file(sks, case["style"]), 0o600)
    if case["keys"] % 3:
        world.put(home, ".ssh/id_k", world.private_file(ssh, case["style"]), [0o600, 0o644, 0o400][n % 3])
        world.put(home, ".ssh/id_k.pub", world.public_string(ssh) + "\n")
        world.put(home, ".ssh/id_broken", b"broken")
    if not bare:
        world.put(home, ".config/age/aliases.txt", "team: %s\nbad: nobody\n" % " ".join(world.age_public(s) for s in sks))
    lst = world.put(cwd, "list.txt", world.recipients_file([mine, ssh], case["style"]))
    for i, m in enumerate(MAYBE):
        if case["near"] >> i & 1 and not (bare and m.startswith(".")):
            world.put(cwd if i < 9 else home, m, "bystander %d\n" % i)
    target = None
    out = []
    if case["out"] == "stdout":
        pass
    else:
        target = os.path.join(cwd, "result.bin")
        if case["out"] in ("old", "link"):
            world.put(cwd, "result.bin", b"old" * 100, [0o644, 0o600, 0o660][n % 3])
        if case["out"] == "link":
            os.symlink("result.bin", os.path.join(cwd, "ln"))
        out = ["-o", "ln" if case["out"] == "link" else "result.bin"]
    data = kit.material({"len": case["len"], "seed": n})
    args, kw = [cmd] + out, {"passphrases": []}
    if cmd == "encrypt":
        args += [["team"], ["list.txt"], [world.age_public(sks[0])], [world.public_string(ssh), "team"], ["bad"], ["nobody"], [], ["list.txt", "missing"]][how % 8]
    elif cmd == "decrypt":
        with kit.fake_scrypt():
            data = kit.encrypt([kit.enc_key([mine, ssh, {"t": "pw", "pw": b"the pass"}, world.FOREIGN][how % 4])], data)
        if how // 4 % 4 == 3:
            data = data[:-1] + bytes([data[-1] ^ 1])
        if how % 4 == 2:
            args += ["-p"]
            kw["passphrases"] = [["the pass", "another"][how // 16 % 2]]
        if how % 3 == 1:
            args += [world.put(cwd, "more.txt", world.keys_file([mine["sk"]], case["style"]))]
    if case["armor"] and cmd != "generate":
        args += ["-a"]
        if cmd == "decrypt":
            b = base64.b64encode(data)
            data = b"-----BEGIN AGE ENCRYPTED FILE-----\n" + b"".join(b[i:i + 64] + b"\n" for i in range(0, len(b), 64)) + b"-----END AGE ENCRYPTED FILE-----\n"
    same = False
    if cmd != "generate":
        same = case["file"] == 2 and case["out"] == "old"
        if same:
            world.put(cwd, "result.bin", data)
            args += ["-i", "result.bin"]
        elif case["file"]:
            world.put(cwd, "input.bin", data, [0o644, 0o400, 0o600][n % 3])
            args += ["-i", "input.bin"]
        else:
            kw["stdin"] = data
    before = snapshot(base)
    fd = os.memfd_create("audit")
    try:
        def patch():
            if cmd != "generate":
                world.fast_kdf()
            watch(base, fd)
        r = cli.run(args, home, cwd=cwd, patch=patch, env={"TMPDIR": tmp}, stdout="pipe", **kw)
        os.lseek(fd, 0, 0)
        events = os.read(fd, 100000).decode("utf-8", "replace").splitlines()
    finally:
        os.close(fd)
    after = snapshot(base)
    what = "%r (exit status %r)" % (args, r.rc)
    if events:
        raise Violation("%s: %s" % (what, "; ".join(events[:5])))
    t = os.path.relpath(target, base) if target else None
    parent = os.path.dirname(t) if t else None
    for p in sorted(set(before) | set(after)):
        b, a = before.get(p), after.get(p)
        if p == t:
            if b is not None and (a is None or a[:3] != b[:3]):
                raise Violation("%s: type, permissions or owner of the output file changed" % what)
            continue
        if b is None:
            raise Violation("%s: created %s" % (what, p))
        if a is None:
            raise Violation("%s: removed %s" % (what, p))
        if p == parent:
            a, b = a[:3], b[:3]
        if a != b:
            raise Violation("%s: changed %s of %s" % (what, ", ".join(f for f, x, y in zip(FIELDS, a, b) if x != y), p))
    if cmd == "generate" and r.rc != 0:
        raise Violation("%s failed: %r" % (what, r))
    return [cmd, "rc:%d" % r.rc, "out:" + case["out"]] + (["in-place"] if same else [])


# ---------------------------------------------------------------- library
SIGNALS = (signal.SIGINT, signal.SIGTERM, signal.SIGPIPE, signal.SIGXFSZ, signal.SIGHUP, signal.SIGCHLD)


def state():
    u = os.umask(0)
    os.umask(u)
    return {"working directory": os.getcwd(), "environment": dict(os.environ), "umask": u,
            "signal handlers": [signal.getsignal(s) for s in SIGNALS],
            "standard streams": (id(sys.stdin), id(sys.stdout), id(sys.stderr)), "arguments": list(sys.argv), "module path": list(sys.path),
            "time zone and locale": (os.environ.get("TZ"), locale.setlocale(locale.LC_ALL)), "socket timeout": socket.getdefaulttimeout(), "warning filters": list(warnings.filters), "logging": (logging.root.level, len(logging.root.handlers), logging.root.manager.disable),
            "limits": (sys.getrecursionlimit(), sys.getswitchinterval(), resource.getrlimit(resource.RLIMIT_CORE), resource.getrlimit(resource.RLIMIT_NOFILE), resource.getrlimit(resource.RLIMIT_AS)),
            "hooks": (sys.excepthook, threading.excepthook, sys.unraisablehook), "tracing": (sys.gettrace(), sys.getprofile()), "garbage collection": gc.isenabled(), "threads": threading.active_count()}


def restore(s):
    os.umask(s["umask"])
    os.chdir(s["working directory"])
    os.environ.clear()
    os.environ.update(s["environment"])
    for sig, h in zip(SIGNALS, s["signal handlers"]):
        signal.signal(sig, h)
    sys.argv[:], sys.path[:] = s["arguments"], s["module path"]
    socket.setdefaulttimeout(s["socket timeout"])
    sys.excepthook, threading.excepthook, sys.unraisablehook = s["hooks"]
    warnings.filters[:] = s["warning filters"]
    gc.enable() if s["garbage collection"] else gc.disable()


SK0 = kit.bseed("warm")


def descriptors():
    gc.collect()
    return sorted(x for x in os.listdir("/proc/self/fd"))


def key_state(k):
    """what can be seen of a key object"""
    out = [type(k)]
    for name in ("public_string", "private_string", "public_bytes", "private_bytes", "binary_encoding", "fingerprint_line", "fingerprint"):
        f = getattr(k, name, None)
        if callable(f):
            try:
                out.append((name, f()))
            except TypeError:
                pass
    if hasattr(k, "public_key"):
        out.append(key_state(k.public_key()))
    return out


_warm = []


def library(case):
    if not _warm:  # what libraries open once and keep
        _warm.append(1)
        try:
            library({"warm": 1, "idents": [{"t": t, "sk": SK0, "seed": SK0, "i": 1, "pw": b"x"} for t in ("age", "ed", "rsa", "pw")], "style": 0, "len": 10,
                     "ops": [{"op": o, "n": n, "who": [0, 1, 2, 3]} for o in ("encrypt", "decrypt", "resolve", "load", "stream", "armor", "command") for n in range(9)]})
        except Violation:
            _warm.clear()
            raise
    home = os.environ["HOME"]
    world.clean(home)
    os.chdir(home)
    specs = [dict(s) for s in case["idents"]]
    enc, dec = [kit.enc_key(s) for s in specs], [kit.dec_key(s) for s in specs]
    sks = [kit.bseed("lib", i) for i in range(3)]
    world.put(home, "keys.txt", world.keys_file(sks, case["style"]))
    world.put(home, "list.txt", "\n".join(world.age_public(s) for s in sks))
    world.put(home, "aliases.txt", "team: %s\nfile: list.txt\nweb: https://h.example/k\nbad: nobody\n" % world.age_public(sks[0]))
    world.put(home, "ssh/id_1", world.private_file({"t": "ed", "seed": sks[1]}, case["style"]))
    world.put(home, "ssh/id_2", sshkeys_locked())
    world.put(home, "ssh/id_3", b"damaged")
    aliases = {"team": [world.age_public(sks[0]), "list.txt"], "bad": [world.age_public(sks[1]), "nobody"], "empty": [], "web": ["https://h.example/k"]}
    pages = {"https://h.example/k": (200, world.age_public(sks[2]).encode(), "text/plain"), "https://github.com/u.keys": (404, b"x", None)}
    data = bytearray(kit.material({"len": case["len"], "seed": 3}))
    key = bytearray(kit.bseed("key"))
    before_files = snapshot(home)
    bad, done = [], []

    def same(name, x, y):
        if x != y:
            bad.append(name)

    with kit.fake_scrypt(), kit.quiet() as err, resolver.web(pages):
        fds = descriptors()
        so, sys.stdout = sys.stdout, io.TextIOWrapper(io.BytesIO(), encoding="utf-8", write_through=True)
        s0 = state()
        env_keys = [key_state(k) for k in enc + dec]
        blob = kit.encrypt(enc, bytes(data))
        try:
            for op in case["ops"]:
                n = op["n"]
                bad_before = len(bad)
                try:
                    if op["op"] == "encrypt":
                        keys = [enc[i % len(enc)] for i in op["who"]]
                        keep, dkeep = list(keys), bytes(data)
                        out = io.BytesIO()
                        with Encryptor(keys, out) as e:
                            e.write(data)
                            e.write(memoryview(data)[: n % 50])
                        same("recipient list", [id(k) for k in keys], [id(k) for k in keep])
                        same("written byte array", bytes(data), dkeep)
                    elif op["op"] == "decrypt":
                        keys = [dec[i % len(dec)] for i in op["who"]]
                        keep = list(keys)
                        src = io.BytesIO(blob if n % 4 else blob[:-1])
                        content = src.getvalue()
                        try:
                            Decryptor(keys, src).read()
                        except Exception:
                            pass
                        same("identity list", [id(k) for k in keys], [id(k) for k in keep])
                        if not src.closed:
                            same("encrypted input", src.getvalue(), content)
                    elif op["op"] == "resolve":
                        keep = copy.deepcopy(aliases)
                        arg = ["team", "bad", "empty", "web", "list.txt", world.age_public(sks[0]), "nobody", "github:u", "https://h.example/k"][n % 9]
                        try:
                            resolve_public_key(arg, aliases=aliases)
                        except Exception:
                            pass
                        same("alias dictionary", aliases, keep)
                        same("order of the alias dictionary", list(aliases), list(keep))
                    elif op["op"] == "load":
                        [lambda: load_keys_txt("keys.txt"), lambda: load_keys_txt("missing"), lambda: load_ssh_keys("ssh"), lambda: load_ssh_private_key("ssh/id_1"), lambda: load_aliases("aliases.txt"),
                         lambda: load_aliases("missing"), lambda: kit.raises(load_keys_txt, "list.txt"), lambda: kit.raises(load_ssh_private_key, "ssh/id_2", b"x"), lambda: kit.raises(load_ssh_private_key, "ssh/id_3")][n % 9]()
                    elif op["op"] == "stream":
                        k, d = bytes(key), bytes(data)
                        c = bytearray(age.stream.stream_encrypt(key, data))
                        keep = bytes(c)
                        age.stream.stream_decrypt(key, c)
                        kit.raises(age.stream.stream_decrypt, key, c[:-1])
                        same("key byte array", bytes(key), k)
                        same("data byte array", bytes(data), d)
                        same("encrypted byte array", bytes(c), keep)
                    elif op["op"] == "command":
                        # the functions behind the commands
                        out = io.BytesIO()
                        try:
                            if n % 3 == 0:
                                age.cli.generate(io.StringIO())
                            elif n % 3 == 1:
                                arg = [[world.age_public(sks[0])], ["list.txt"], ["nobody"], []][n // 3 % 4]
                                keep = list(arg)
                                age.cli.encrypt(arg, io.BytesIO(bytes(data)), out, False, n // 12 % 2 == 1)
                                same("list of recipients", arg, keep)
                            else:
                                arg = [["keys.txt"], ["keys.txt", "list.txt"], []][n // 3 % 3]
                                keep = list(arg)
                                age.cli.decrypt(io.BytesIO(blob), out, False, arg, n // 12 % 2 == 1)
                                same("list of key files", arg, keep)
                            done.append("command")
                        except (Exception, SystemExit):
                            done.append("command failed")
                    else:
                        under = io.BytesIO()
                        a = AsciiArmoredOutput("X", under)
                        keep = bytes(data)
                        a.write(data)
                        a.close()
                        same("armored byte array", bytes(data), keep)
                        AsciiArmoredInput("X", io.BytesIO(under.getvalue())).read()
                except Violation:
                    raise
                if len(bad) > bad_before:
                    break
            s1 = state()
            restore(s0)
            printed = sys.stdout.buffer.getvalue() if hasattr(sys.stdout, "buffer") and isinstance(sys.stdout.buffer, io.BytesIO) else b""
        finally:
            sys.stdout = so
        for name in s0:
            same(name, s0[name], s1[name])
        if printed:
            bad.append("standard output (%r)" % printed[:80])
        same("key objects", env_keys, [key_state(k) for k in enc + dec])
        fds2 = descriptors()
        if "warm" not in case:
            same("open descriptors (%d, then %d)" % (len(fds), len(fds2)), fds, fds2)
    same("files", before_files, snapshot(home))
    if bad:
        raise Violation("operations %s changed: %s" % (" ".join(o["op"] for o in case["ops"]), ", ".join(bad)))
    return sorted({o["op"] for o in case["ops"] if o["op"] != "command"} | set(done))


def sshkeys_locked():
    from ref import sshkey
    k = sshkeys.expand({"t": "ed", "seed": kit.bseed("locked")})
    return sshkey.write(k, b"c", cipher="aes256-ctr", pw=b"secret", rounds=1)


def strat_commands():
    return st.fixed_dictionaries({
        "cmd": gen.weighted((4, st.just("encrypt")), (4, st.just("decrypt")), (2, st.just("generate"))), "how": gen.position(), "n": gen.position(), "keys": st.integers(0, 11), "style": st.integers(0, 11), "bare": st.booleans(),
        "near": st.integers(0, 2 ** len(MAYBE) - 1), "out": st.sampled_from(["stdout", "new", "old", "link"]), "len": gen.weighted((4, st.integers(0, 300)), (1, st.just(70000))), "armor": st.booleans(), "file": st.integers(0, 2)})


def strat_library():
    op = st.fixed_dictionaries({"op": st.sampled_from(["encrypt", "decrypt", "resolve", "resolve", "load", "load", "stream", "armor", "command", "command"]), "n": gen.position(), "who": st.lists(st.integers(0, 3), min_size=1, max_size=5)})
    return st.fixed_dictionaries({"idents": st.lists(gen.ident(True), min_size=1, max_size=4), "ops": st.lists(op, min_size=1, max_size=8), "style": st.integers(0, 11),
                                  "len": gen.weighted((5, st.integers(0, 300)), (1, st.just(70000)))})


SUBS = [Sub("commands", commands, strat_commands, quick=1500, thorough=40000, qshards=5), Sub("library", library, strat_library, quick=2000, thorough=60000, qshards=3)]
