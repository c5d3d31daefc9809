import io
import os

from hypothesis import strategies as st

import age.cli
from age.file import Decryptor
from age.keyloader import load_aliases, resolve_public_key
from ref import agev1
from vf import gen, kit, resolver, world
from vf.core import HarnessError, Sub, Violation

PID = "P16"
RULE = ("A recipient file, served page or published key list mixes key lines, junk and bait lines: names of existing files, URLs and github: accounts "
        "that serve other keys (also named in the headers of the page, which may have an error status), alias labels, in many spellings. Resolving it (alone, through an alias, or in an encrypt command) is watched at "
        "every file opened (audit events), request and socket: only the list itself may be touched and only its own keys may come out; key "
        "strings touch nothing. Non-trivial: at least one bait line, or a key string in a baited directory.")
ASSUMPTIONS = ["a bait line may be ignored or refused with an error"]

FORMS = ["%s", " %s ", "\t%s", "%s #", "@%s", "file:%s", "file://%s", "include %s", "<%s", "$(cat %s)", "`%s`", "age1%s", "ssh-rsa %s", "ssh-ed25519 %s", "-r %s", "-R %s", "'%s'", "\"%s\"", "%s\x00", "~/%s", "./%s",
         "pubkey:%s", "# %s", "keys: %s", "github:%s", "https://%s", "%s,%s", "ALIAS:%s", "\ufeff%s",
         '<meta http-equiv="refresh" content="0;url=%s">', '<a rel="next" href="%s">', "Location: %s", "Link: <%s>; rel=next", "\n%s"]

# what a server may say besides the page
HEADERS = [("Link", "<%s>; rel=\"next\""), ("Refresh", "0; url=%s"), ("Content-Location", "%s"), ("Location", "%s"), ("X-Next", "%s"), ("X-Accel-Redirect", "%s"), ("Link", "<%s>"),
           ("Link", "<%s>; rel=\"last\", <%s>; rel=\"alternate\""), ("Alt-Svc", "h2=\"%s\""), ("WWW-Authenticate", "Basic realm=\"%s\""), ("Retry-After", "0"), ("ETag", "%s")]
STATUS = [200] * 12 + [300, 304, 401, 403, 404, 407, 410, 429, 500, 503]


def bait(b, home):
    target = ["other.txt", os.path.join(home, "other.txt"), "~/other.txt", "dir/../other.txt", "https://evil.example/x.keys", "http://evil.example/x.keys", "github:mallory", "mallory", "alias", "HTTPS://evil.example/x.keys", "GitHub:mallory",
              "$HOME/other.txt", "/proc/self/environ", "list.txt", "age1file", "ssh-rsa", "https://github.com/mallory.keys", "http:evil.example", "github:", "keys", "fifo", "$VF_KEY", "${VF_KEY}", "%VF_KEY%", "$VF_FILE"][b["what"]]
    f = FORMS[b["form"]]
    return f.replace("%s", target)


def run(case):
    home = os.environ["HOME"]
    world.clean(home)
    os.chdir(home)
    evil = world.age_public(kit.bseed("evil"))
    os.environ["VF_KEY"], os.environ["VF_FILE"] = evil, os.path.join(home, "other.txt")
    evil_id = resolver.spec_id({"t": "age", "sk": kit.bseed("evil")})
    world.put(home, "other.txt", evil + "\n")
    world.put(home, "keys", evil + "\n")
    world.put(home, "mallory", evil + "\n")
    world.put(home, "age1file", evil + "\n")
    world.put(home, "ssh-rsa", evil + "\n")
    world.put(home, "list.txt", evil + "\n")
    os.makedirs(os.path.join(home, "dir"))
    pages = {u: (200, evil.encode() + b"\n", "text/plain") for u in (
        "https://evil.example/x.keys", "http://evil.example/x.keys", "https://github.com/mallory.keys", "https://github.com/.keys", "https://github.com/alias.keys", "https://github.com/keys.keys")}
    rows = [l if "what" not in l else {"k": None, "text": bait(l, home), "bait": True} for l in case["lines"]]
    body = resolver.text(rows, case["nl"], case["final"]).encode("utf-8")
    allowed_files, allowed_urls = [], []
    status = STATUS[case.get("status", 0)] if case["how"] in ("url", "github") else 200
    extra = {n: f.replace("%s", ["https://evil.example/x.keys", "http://evil.example/x.keys", "https://github.com/mallory.keys", "/x.keys"][i % 4])
             for i, (n, f) in enumerate(HEADERS[h] for h in case.get("headers", []))}
    if status == 300:
        extra.pop("Location", None)  # not a page but a redirection
    for ext in (".txt", ".pub", "/"):
        for u in ("https://github.com/victim.keys", "https://github.com/victim", "https://victim.example/list?a=b", "http://victim.example/list?a=b", "https://victim.example/list", "http://victim.example/list"):
            pages[u + ext] = (200, evil.encode() + b"\n", "text/plain")
    pages["https://victim.example/x.keys"] = pages["http://victim.example/x.keys"] = pages["https://github.com/x.keys"] = (200, evil.encode() + b"\n", "text/plain")
    how = case["how"]
    if how == "file":
        arg = world.put(home, "list.txt", body)
        allowed_files = [arg]
        arg = [arg, "list.txt"][case["n"] % 2]
    elif how == "github":
        arg = "github:victim"
        pages["https://github.com/victim.keys"] = (status, body, "text/plain; charset=utf-8", None, extra)
        allowed_urls = ["https://github.com/victim.keys"]
    elif how == "url":
        arg = ["https", "http"][case["n"] % 2] + "://victim.example/list?a=b"
        pages[arg] = (status, body, "text/plain; charset=utf-8", None, extra)
        allowed_urls = [arg]
    else:
        rows = [{"k": case["key"]}]
        arg = world.public_string(case["key"], ["", "me", "github:mallory", "other.txt", "https://evil.example/x.keys"][case["n"] % 5])
    via_alias = case["via"] and len(arg.split()) == 1
    alias_lines = ["alias: " + evil, "mallory: " + evil]
    if via_alias:
        alias_lines.append("team: " + arg)
        arg = "team"
    alias_path = world.put(home, ".config/age/aliases.txt", "\n".join(alias_lines) + "\n")
    expect = [resolver.spec_id(r["k"]) for r in rows if r["k"]]

    guard = resolver.GUARD
    if case["command"]:
        out = io.BytesIO()
        with resolver.web(pages) as urls, kit.quiet():
            try:
                age.cli.encrypt(recipients=[arg], infile=io.BytesIO(b"x"), outfile=out)
                err = None
            except (Exception, SystemExit) as e:
                err = e
        allowed_files = allowed_files + [alias_path]
        ids = None
        if err is None:
            n = len(agev1.parse_header(out.getvalue())[0])
            if n != len(expect):
                raise Violation("list with %d keys encrypted to %d recipients" % (len(expect), n))
            if kit.try_decrypt([kit.dec_key({"t": "age", "sk": kit.bseed("evil")})], out.getvalue())[0] == "ok":
                raise Violation("encrypted to a key from another list")
    else:
        aliases = load_aliases(alias_path)
        with resolver.web(pages) as urls, kit.quiet():
            try:
                ids = [resolver.key_id(k) for k in resolve_public_key(arg, aliases=aliases)]
                err = None
            except (Exception, SystemExit) as e:
                ids, err = None, e
    what = "%s containing %r" % (how, [r.get("text") for r in rows if r.get("bait")][:6]) if how != "key" else "key string %r" % arg[:60]
    if urls != allowed_urls and not (err is not None and urls == []):
        raise Violation("%s: requested %r instead of %r" % (what, urls, allowed_urls))
    if guard.contacts:
        raise Violation("%s: contacted %r" % (what, guard.contacts))
    opened = [p for p in resolver.opened_under(home) if p not in [os.path.realpath(a) for a in allowed_files]]
    opened += [p for p in guard.opened if p.startswith("/proc/self/environ")]
    if opened:
        raise Violation("%s: opened %r" % (what, opened))
    if ids is not None:
        if evil_id in ids and evil_id not in expect:
            raise Violation("%s: resolved to a key from another list" % what)
        if ids != expect:
            raise Violation("%s: resolved to %d keys instead of %d" % (what, len(ids), len(expect)))
    if status >= 400 and err is None and expect:
        raise Violation("%s: a page with status %d was taken for a list" % (what, status))
    if err is not None and status == 200 and not any(r.get("bait") for r in rows) and expect:
        raise Violation("%s: %d keys but %s: %s" % (what, len(expect), type(err).__name__, err))
    return [how, "alias" if via_alias else "direct", "command" if case["command"] else "resolve", "refused" if err else "resolved"] + \
        ([] if how == "key" or any(r.get("bait") for r in rows) else ["trivial"])


def strategy():
    b = st.fixed_dictionaries({"what": st.integers(0, 24), "form": st.one_of(st.just(0), st.integers(0, len(FORMS) - 1))})
    return st.fixed_dictionaries({
        "lines": st.lists(gen.weighted((3, resolver.line()), (4, b)), min_size=1, max_size=7), "nl": st.sampled_from(["\n", "\n", "\r\n"]), "final": st.booleans(),
        "how": st.sampled_from(["file", "file", "url", "github", "key"]), "n": gen.position(), "via": st.booleans(), "status": st.integers(0, len(STATUS) - 1), "headers": st.lists(st.integers(0, len(HEADERS) - 1), max_size=2), "command": gen.weighted((3, st.just(False)), (1, st.just(True))), "key": world.pub_ident()})


SUBS = [Sub("lists", run, strategy, quick=5000, thorough=250000, qshards=4)]
