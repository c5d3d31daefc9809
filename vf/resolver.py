"""Recipient resolution: a reference model, generated worlds, and a guard recording file and network access."""
import contextlib
import os
import re
import socket
import sys

import requests
from hypothesis import strategies as st
from requests.adapters import HTTPAdapter
from requests.structures import CaseInsensitiveDict

from age.keys.agekey import AgePublicKey
from age.keys.ed25519 import Ed25519PublicKey
from age.keys.rsa import RSAPublicKey
from ref import bech32, curve, sshkey
from vf import gen, kit, sshkeys, world
from vf.core import Violation


class Unresolvable(Exception):
    pass


# ---------------------------------------------------------------- identity of a loaded key
def key_id(k):
    if isinstance(k, AgePublicKey):
        return ("age", bytes(k.public_bytes()))
    if isinstance(k, Ed25519PublicKey):
        return ("ed", bytes(k.binary_encoding())[-32:])
    if isinstance(k, RSAPublicKey):
        return ("rsa", bytes(k.binary_encoding()))
    return (type(k).__name__,)


def spec_id(spec):
    if spec["t"] == "age":
        return ("age", curve.x25519_base(spec["sk"]))
    k = sshkeys.expand(spec)
    return ("ed", k["pk"]) if spec["t"] == "ed" else ("rsa", sshkey.pub_blob(k))


# ---------------------------------------------------------------- guard
class Guard:
    """records opened files and network contacts while active"""

    def __init__(self):
        self.active = False
        self.opened, self.contacts = [], []

    def hook(self, event, args):
        if not self.active:
            return
        if event == "open":
            p = args[0]
            if isinstance(p, (bytes, str)):
                self.opened.append(os.fsdecode(p))
        elif event in ("os.listdir", "os.scandir", "glob.glob"):
            pass
        elif event in ("socket.connect", "socket.getaddrinfo", "socket.gethostbyname", "socket.sendto", "subprocess.Popen", "os.system", "urllib.Request"):
            self.contacts.append("%s %r" % (event, args[1:] if event.startswith("socket.c") else args[:2]))
            if event.startswith("socket") or event == "urllib.Request":
                raise OSError("no network")


GUARD = Guard()
_installed = []


@contextlib.contextmanager
def web(pages):
    """pages: url -> (status, body bytes, content type[, location[, headers]]) or None (connection error); yields list of requested urls"""
    if not _installed:
        sys.addaudithook(GUARD.hook)
        _installed.append(1)
    urls = []

    def send(self, request, **kw):
        urls.append(request.url)
        page = pages.get(request.url)
        if page is None:
            raise requests.exceptions.ConnectionError("no such host: %s" % request.url)
        r = requests.Response()
        r.status_code, r._content, r.url, r.request = page[0], page[1] if request.method == "GET" else b"", request.url, request
        r.headers = CaseInsensitiveDict({"Content-Type": page[2]} if page[2] else {})
        if len(page) > 4:
            r.headers.update(page[4])
        if len(page) > 3 and page[3]:
            r.headers["Location"] = page[3]
        r.encoding = requests.utils.get_encoding_from_headers(r.headers)
        r.reason = "Reason"
        import io
        r.raw = io.BytesIO(r._content)
        r._content_consumed = True
        return r

    orig, HTTPAdapter.send = HTTPAdapter.send, send
    GUARD.opened, GUARD.contacts, GUARD.active = [], [], True
    try:
        yield urls
    finally:
        GUARD.active = False
        HTTPAdapter.send = orig


def opened_under(home):
    home = os.path.realpath(home) + os.sep
    return sorted({os.path.realpath(p) for p in GUARD.opened if os.path.realpath(p).startswith(home)})


# ---------------------------------------------------------------- generated lines
UNSUPPORTED = ["ssh-dss AAAAB3NzaC1kc3MAAAAA x", "ecdsa-sha2-nistp256 AAAAE2VjZHNhLXNoYTItbmlzdHAyNTYAAAAI", "sk-ssh-ed25519@openssh.com AAAAGnNr", "sk-ecdsa-sha2-nistp256@openssh.com AAAA"]


def junk():
    """lines that contribute nothing"""
    return st.one_of(
        st.sampled_from(["", "   ", "\t", "#", "# comment", "  # indented", "#age1qqqq", "# \u00c5ngstr\u00f6m \u0105 \u2026", "#\u2028age1x", "# \x85age1 \x0c ssh-rsa AAAA", "# x: age1"] + UNSUPPORTED),
        st.text(alphabet=st.characters(min_codepoint=32, max_codepoint=0x2fff, exclude_categories=("Cs",)), max_size=30).map(lambda s: "#" + s))


def broken(spec, n):
    """a key line that is malformed"""
    if spec["t"] == "age":
        good = world.age_public(spec["sk"])
        i = 4 + n % (len(good) - 4)
        return [good[:i] + ("q" if good[i] != "q" else "p") + good[i + 1:], good[:-1], good[:i] + good[i + 1:], good[:i] + " " + good[i:], good + " comment",
                good[:30] + good[30:].upper(), "age1", bech32.encode("age", curve.x25519_base(spec["sk"])[:-1]), bech32.encode("age", curve.x25519_base(spec["sk"]) + b"\0"), good[:i] + "\u00e9" + good[i:], good[:i] + "\u200b" + good[i:],
                good + "\u0131"][n % 12]
    k = sshkeys.expand(spec)
    line = sshkey.pub_line(k).decode()
    t, b = line.split()[:2]
    other = "ssh-rsa" if t == "ssh-ed25519" else "ssh-ed25519"
    j = 24 + n % (len(b) - 28)
    return [t, t + " " + b[:j // 4 * 4], other + " " + b, t + " " + b[:j] + "*" + b[j + 1:], t + " " + b[4:], t + b][n % 6]


def line():
    key = st.tuples(world.pub_ident(), st.sampled_from(["", "", " ", "\t"]), st.sampled_from(["", "", "me@host", "two words", "caf\u00e9 \u0105\u00c5"]), st.sampled_from(["", "", "  ", "\t"])).map(
        lambda t: {"k": t[0], "text": t[1] + world.public_string(t[0], t[2] if t[0]["t"] != "age" else "") + t[3]})
    return gen.weighted((6, key), (3, junk().map(lambda s: {"k": None, "text": s})))


def lines(bad=True):
    good = gen.weighted((1, st.just([])), (8, st.lists(line(), min_size=1, max_size=7)))
    if not bad:
        return good
    mal = st.tuples(good, world.pub_ident(), gen.position(), st.integers(0, 5)).map(
        lambda t: t[0][:t[3]] + [{"k": None, "text": broken(t[1], t[2]), "bad": True}] + t[0][t[3]:])
    return gen.weighted((6, good), (1, mal))


def text(ls, nl, final):
    return nl.join(l["text"] for l in ls) + (nl if final and ls else "")


def denoted(ls):
    if any(l.get("bad") for l in ls):
        raise Unresolvable("malformed key")
    return [spec_id(l["k"]) for l in ls if l["k"]]
