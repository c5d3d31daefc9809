"""Runs the command line of the code under test in a process of its own.

mode "fork": a fork of this process (all modules already imported) with its own standard
streams, home and working directory; mode "exec": a fresh interpreter.
A pseudo terminal becomes the controlling terminal when passphrases are to be typed."""
import fcntl
import gc
import io
import os
import pty
import resource
import selectors
import signal
import struct
import sys
import termios
import time
import traceback

from vf.core import AGE_SRC, REPO, HarnessError, Violation

LAUNCH = """
import sys
sys.dont_write_bytecode = True
sys.path.insert(0, %r)
import bcrypt, click, requests, nacl.bindings, cryptography.hazmat.primitives.serialization
sys.pycache_prefix = "/nonexistent"
import age.cli
assert age.cli.__file__.startswith(%r), age.cli.__file__
sys.argv[0] = "pyage"
age.cli.main(prog_name="pyage")
""" % (os.path.join(REPO, "src"), AGE_SRC)

PROMPT = b"assphrase"


class Result:
    def __init__(self, rc, out, err, tty):
        self.rc, self.out, self.err, self.tty = rc, out, err, tty

    def __repr__(self):
        return "exit status %r, %d bytes on stdout %r, stderr %r" % (
            self.rc, len(self.out), self.out[:60], self.err[-300:])


def _limits(fsize):
    resource.setrlimit(resource.RLIMIT_CORE, (0, 0))
    resource.setrlimit(resource.RLIMIT_CPU, (100, 110))
    resource.setrlimit(resource.RLIMIT_AS, (12 << 30, 12 << 30))
    if fsize is not None:
        signal.signal(signal.SIGXFSZ, signal.SIG_IGN)
        resource.setrlimit(resource.RLIMIT_FSIZE, (fsize, fsize))


NOBODY = 65534


def can_drop(cache=[]):
    """may this process become an unprivileged user, and can that one read what the commands need?"""
    if not cache:
        pid = os.fork()
        if pid == 0:
            try:
                _drop()
                import click
                import cryptography

                files = [os.path.join(d, f) for d, _, fs in os.walk(AGE_SRC) for f in fs if f.endswith(".py")]
                readable = files and all(os.access(f, os.R_OK) for f in files + [click.__file__, cryptography.__file__])
                os._exit(0 if readable and os.access(sys.executable, os.X_OK) else 1)
            except BaseException:
                os._exit(1)
        cache.append(os.waitpid(pid, 0)[1] == 0)
    return cache[0]


def _drop():
    os.setgroups([])
    os.setresgid(NOBODY, NOBODY, NOBODY)
    os.setresuid(NOBODY, NOBODY, NOBODY)


def give_home(home):
    """the home and everything in it belongs to the unprivileged user, the way to it is open (scratch directories only)"""
    p = os.path.dirname(os.path.realpath(home))
    while p.startswith("/tmp/"):
        os.chmod(p, os.stat(p).st_mode & 0o7777 | 0o111)
        p = os.path.dirname(p)
    for d, _, fs in os.walk(home):
        for f in [d] + [os.path.join(d, x) for x in fs]:
            os.chown(f, NOBODY, NOBODY, follow_symlinks=False)


def _child_main(args, mode, home, cwd, umask, patch, env, drop):
    os.environ["HOME"] = home
    if env:
        os.environ.update(env)
    os.chdir(cwd)
    os.umask(umask)
    if drop:
        _drop()
    if mode == "exec":
        e = {k: v for k, v in os.environ.items() if not k.lower().endswith("_proxy") and k != "PYTHONPATH"}
        e["PYTHONDONTWRITEBYTECODE"] = "1"
        os.execve(sys.executable, [sys.executable, "-B", "-c", LAUNCH] + list(args), e)
    sys.stdin = io.TextIOWrapper(io.BufferedReader(io.FileIO(0, "r", closefd=False)), "utf-8", "strict")
    tty = os.isatty(1)
    sys.stdout = io.TextIOWrapper(io.BufferedWriter(io.FileIO(1, "w", closefd=False)), "utf-8", "strict", line_buffering=tty)
    sys.stderr = io.TextIOWrapper(io.BufferedWriter(io.FileIO(2, "w", closefd=False)), "utf-8", "backslashreplace",
                                  line_buffering=True)
    sys.__stdin__, sys.__stdout__, sys.__stderr__ = sys.stdin, sys.stdout, sys.stderr
    sys.argv = ["pyage"] + list(args)
    code = 0
    try:
        if patch:
            patch()
        import age.cli

        age.cli.main(args=list(args), prog_name="pyage")
    except SystemExit as e:
        code = e.code
        if code is None:
            code = 0
        elif not isinstance(code, int):
            print(code, file=sys.stderr)
            code = 1
        code &= 255
    except BaseException:
        traceback.print_exc()
        code = 1
    # what the end of an interpreter does: finalise leftover objects, flush standard output
    gc.collect()
    try:
        if sys.stdout is not None and not sys.stdout.closed:
            sys.stdout.flush()
    except BaseException:
        if code == 0:
            code = 120
    try:
        sys.stderr.flush()
    except BaseException:
        pass
    os._exit(code)


def run(args, home, cwd=None, stdin=b"", mode="fork", stdout="pipe", passphrases=(), use_tty=None, tty_size=None,
        fsize=None, umask=0o022, patch=None, env=None, timeout=60, stdin_kind="pipe", drop=False):
    """-> Result.  stdout: "pipe", "tty", "broken" or a path opened for writing by the harness.
    passphrases: typed one after another whenever the terminal is switched to hidden input."""
    cwd = cwd or home
    use_tty = bool(passphrases) or stdout == "tty" if use_tty is None else use_tty
    close_parent, close_child = [], []

    def pipe():
        return os.pipe2(os.O_CLOEXEC)

    master = slave = None
    if use_tty:
        # the parent keeps the slave open until the end: a terminal without one hangs up
        master, slave = pty.openpty()
    if stdin_kind == "pipe":
        in_r, in_w = pipe()
    elif stdin_kind == "null":
        in_r, in_w = os.open("/dev/null", os.O_RDONLY | os.O_CLOEXEC), None
    else:  # a regular file
        path = os.path.join(home, ".vf-stdin")
        with open(path, "wb") as f:
            f.write(stdin)
        in_r, in_w = os.open(path, os.O_RDONLY | os.O_CLOEXEC), None
    close_parent.append(in_r)
    err_r, err_w = pipe()
    close_parent.append(err_w)
    out_r = None
    if stdout == "pipe":
        out_r, out_w = pipe()
        close_parent.append(out_w)
    elif stdout == "tty":
        out_w = slave
    elif stdout == "broken":  # a pipe nobody reads
        r, out_w = pipe()
        os.close(r)
        close_parent.append(out_w)
    else:
        out_w = os.open(stdout, os.O_WRONLY | os.O_CREAT | os.O_TRUNC | os.O_CLOEXEC, 0o644)
        close_parent.append(out_w)

    sys.stdout.flush()
    sys.stderr.flush()
    pid = os.fork()
    if pid == 0:
        try:
            signal.signal(signal.SIGPROF, signal.SIG_DFL)
            signal.setitimer(signal.ITIMER_PROF, 0)
            os.setsid()
            if slave is not None:
                fcntl.ioctl(slave, termios.TIOCSCTTY, 0)
            os.dup2(in_r, 0)
            os.dup2(out_w, 1)
            os.dup2(err_w, 2)
            if master is not None:
                os.close(master)
                if slave > 2:
                    os.close(slave)
            for fd in (in_w, out_r, err_r):
                if fd is not None and fd > 2:
                    os.close(fd)
            _limits(fsize)
            _child_main(args, mode, home, cwd, umask, patch, env, drop)
        except BaseException:
            traceback.print_exc()
        finally:
            os._exit(99)
    for fd in close_parent:
        os.close(fd)

    sel = selectors.DefaultSelector()
    bufs = {"out": bytearray(), "err": bytearray(), "tty": bytearray()}
    typed = 0
    if in_w is not None:
        os.set_blocking(in_w, False)
        sel.register(in_w, selectors.EVENT_WRITE, "in")
    sel.register(err_r, selectors.EVENT_READ, "err")
    if out_r is not None:
        sel.register(out_r, selectors.EVENT_READ, "out")
    if master is not None:
        sel.register(master, selectors.EVENT_READ, "tty")
    todo = memoryview(bytes(stdin))
    t0 = progress = time.monotonic()
    status = None
    open_fds = {fd for fd in (in_w, err_r, out_r, master, slave) if fd is not None}

    def drop(fd):
        sel.unregister(fd)
        os.close(fd)
        open_fds.discard(fd)

    try:
        while True:
            need = [k for k in sel.get_map().values() if k.data in ("out", "err")]
            if not need and status is None:
                _, status, _ = os.wait4(pid, 0)
            if status is not None and not need:
                # drain the terminal
                if master in open_fds:
                    os.set_blocking(master, False)
                    try:
                        while True:
                            b = os.read(master, 65536)
                            if not b:
                                break
                            bufs["tty"] += b
                    except OSError:
                        pass
                break
            waiting = typed < len(passphrases)
            if waiting and bufs["tty"].count(b"\n") >= typed and status is None:
                # a prompt turns echoing off, after discarding what was typed before that
                hidden = not termios.tcgetattr(slave)[3] & termios.ECHO
                stuck = time.monotonic() - progress > 3 and any(PROMPT in b for b in bufs.values())
                if hidden or stuck:
                    os.write(master, passphrases[typed].encode("utf-8") + b"\n")
                    typed += 1
            for key, _ in sel.select(0.005 if waiting else 1.0):
                progress = time.monotonic()
                fd, what = key.fd, key.data
                if what == "in":
                    try:
                        if todo:
                            n = os.write(fd, todo[:65536])
                            todo = todo[n:]
                        if not todo:
                            drop(fd)
                    except BlockingIOError:
                        pass
                    except BrokenPipeError:
                        drop(fd)
                else:
                    try:
                        b = os.read(fd, 65536)
                    except OSError:
                        b = b""
                    if not b:
                        drop(fd)
                        continue
                    bufs[what] += b
            if time.monotonic() - t0 > timeout:
                raise Violation("command %r did not finish within %d s" % (list(args), timeout))
    finally:
        if status is None:
            try:
                os.killpg(pid, signal.SIGKILL)
            except OSError:
                try:
                    os.kill(pid, signal.SIGKILL)
                except OSError:
                    pass
            _, status, _ = os.wait4(pid, 0)
        for fd in list(open_fds):
            try:
                os.close(fd)
            except OSError:
                pass
        sel.close()
    rc = os.waitstatus_to_exitcode(status)
    if rc == 99 and b"Traceback" in bufs["err"] and b"vf/cli.py" in bufs["err"] and b"age.cli" not in bufs["err"]:
        raise HarnessError("launcher failed: %s" % bufs["err"].decode("utf-8", "replace")[-2000:])
    return Result(rc, bytes(bufs["out"]), bytes(bufs["err"]).decode("utf-8", "replace"),
                  bytes(bufs["tty"]).decode("utf-8", "replace"))
