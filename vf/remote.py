"""Evaluates cases of other checks in an interpreter started with other options.

A worker is started on first use, gets one case per line and answers with labels, a violation or
an error.  It belongs to the process group of the search, which is ended with the search."""
import atexit
import importlib
import json
import os
import select
import shutil
import subprocess
import sys
import tempfile
import traceback

from vf import core
from vf.core import HarnessError, Violation

MODES = {
    "O": (["-O"], {}),
    "OO": (["-OO"], {}),
    "bb": (["-bb"], {}),
    "hash1": ([], {"PYTHONHASHSEED": "1"}),
    "hash2": ([], {"PYTHONHASHSEED": "2000000000"}),
    "hash3": ([], {"PYTHONHASHSEED": "random"}),
    "c-locale": ([], {"LC_ALL": "C", "LANG": "C"}),
    "posix-locale": ([], {"LC_ALL": "POSIX", "LANG": "POSIX", "PYTHONCOERCECLOCALE": "0"}),
    "isolated": (["-I"], {}),
    "unbuffered": (["-u"], {}),
    "dev": (["-X", "dev"], {}),
    "warnings": (["-W", "error::BytesWarning", "-W", "error::SyntaxWarning", "-W", "error::RuntimeWarning"], {}),
    "int-limit": (["-X", "int_max_str_digits=640"], {}),
    "timezone": ([], {"TZ": "Asia/Kathmandu"}),
    "no-home": ([], {"LOGNAME": "", "USER": ""}),
}

_workers = {}


class Worker:
    def __init__(self, mode):
        flags, env = MODES[mode]
        e = {k: v for k, v in os.environ.items() if k not in ("PYTHONHASHSEED", "PYTHONOPTIMIZE")}
        e.update({"PYTHONHASHSEED": "0", "PYTHONDONTWRITEBYTECODE": "1", "VERIF_REPO": core.REPO}, **env)
        self.mode = mode
        self.dir = tempfile.mkdtemp(prefix="worker-", dir=os.path.dirname(os.environ["HOME"]))
        code = "import sys; sys.dont_write_bytecode = True; sys.path.insert(0, %r); from vf import remote; remote.serve()" % core.VERIF
        e["HOME"] = self.dir
        self.p = subprocess.Popen([sys.executable, "-B"] + flags + ["-c", code], stdin=subprocess.PIPE, stdout=subprocess.PIPE, stderr=subprocess.DEVNULL, env=e, cwd=self.dir)
        self.buffer = b""

    def ask(self, request, timeout):
        try:
            self.p.stdin.write(json.dumps(request).encode() + b"\n")
            self.p.stdin.flush()
        except OSError:
            raise HarnessError("the worker %s ended with %r" % (self.mode, self.p.wait()))
        while b"\n" not in self.buffer:
            if not select.select([self.p.stdout], [], [], timeout)[0]:
                self.p.kill()
                raise HarnessError("the worker %s does not answer" % self.mode)
            data = os.read(self.p.stdout.fileno(), 1 << 16)
            if not data:
                raise HarnessError("the worker %s ended with %r" % (self.mode, self.p.wait()))
            self.buffer += data
        line, _, self.buffer = self.buffer.partition(b"\n")
        return json.loads(line)


def evaluate(mode, pid, sub, case, cpu=150):
    w = _workers.get(mode)
    if w is None:
        if not _workers:
            atexit.register(stop)
        w = _workers[mode] = Worker(mode)
    try:
        answer = w.ask({"pid": pid, "sub": sub, "case": core._enc(case)}, 2 * cpu + 60)
    except BaseException:
        w.p.kill()
        _workers.pop(mode, None)
        raise
    if answer.get("violation") is not None:
        raise Violation("[python %s] %s %s: %s" % (mode, pid, sub, answer["violation"]))
    if answer.get("error"):
        raise HarnessError("[python %s] %s %s: %s" % (mode, pid, sub, answer["error"]))
    return answer["labels"]


def stop():
    for w in _workers.values():
        w.p.kill()
        w.p.wait()
        shutil.rmtree(w.dir, ignore_errors=True)
    _workers.clear()


def serve():
    """the worker"""
    fin = os.fdopen(os.dup(0), "rb")
    fout = os.fdopen(os.dup(1), "wb")
    null = os.open("/dev/null", os.O_RDWR)
    os.dup2(null, 0)
    os.dup2(null, 1)
    for k in list(os.environ):
        if k.lower().endswith("_proxy"):
            del os.environ[k]
    core.setup_paths()
    os.umask(0o022)
    home = os.environ["HOME"]
    subs = {}
    for line in fin:
        r = json.loads(line)
        key = r["pid"], r["sub"]
        try:
            if key not in subs:
                mod = importlib.import_module("checks." + r["pid"].lower())
                subs[key] = {s.name: s for s in mod.SUBS}[r["sub"]]
            os.environ["HOME"] = home
            os.chdir(home)
            answer = {"labels": list(core.run_case(subs[key], core._dec(r["case"])) or [])}
        except Violation as e:
            answer = {"violation": str(e)[:4000]}
        except BaseException as e:
            answer = {"error": "".join(traceback.format_exception(type(e), e, e.__traceback__))[-3000:]}
        fout.write(json.dumps(answer).encode() + b"\n")
        fout.flush()
