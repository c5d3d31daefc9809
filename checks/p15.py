import os

from hypothesis import strategies as st

from age.keyloader import load_aliases, resolve_public_key
from vf import gen, kit, resolver, world
from vf.core import Sub, Violation
from vf.resolver import Unresolvable

PID = "P15"
RULE = ("A generated world - recipient files, served pages (status, character set, line ends), GitHub accounts and an alias file whose labels are "
        "spread over several lines - and a generated recipient string; the resolved keys are compared with a reference resolver, in order, and "
        "the requests made with the expected ones; 'near-names' enumerates words which only resemble file names, addresses and aliases; 'long-lists' enumerates lists, pages and alias files of up to 520 (thorough 2100) keys and over 64 KiB. Web access is replaced at the HTTP adapter. Non-trivial: the string denotes at least one key "
        "or has to be refused.")
ASSUMPTIONS = ["alias labels contain no colon, are not followed by blanks, and alias entries contain no blanks", "files and pages are UTF-8 (pages also ISO-8859-1)",
               "an alias without any entry may resolve to nothing or be refused"]

URLS = ["host%d.example/a/keys.txt", "host%d.example/a/keys.txt", "host.example/keys?user=%d&format=raw", "host.example:8443/~bob/k%d", "10.0.0.%d/k.pub", "[::1]:8080/%d",
        "localhost/%d", "github.com/user-x%d.keys", "host.example/" + "d/" * 150 + "%d", "host.example/A%%20b/%d;v=1,2", "xn--bcher-kva.example/%d/", "host.example/github:bob/%d/=?a=b?c",
        "host.example//age1x/%d/ssh-rsa"]
NLS = ["\n", "\n", "\r\n"]


def build(case, home):
    """write the world; -> (sources by name, pages, alias model)"""
    sources, pages = {}, {}
    for n, f in enumerate(case["files"]):
        name = ["keys%d.txt", "k %d", "age1%dx", "ssh-rsa%d", "dir/bob%d", "$HOME-%d", "${HOME}%d", "a*[%d]", "%%41%d", "~%d", "k#%d", "k%d:x", "http:%d", "\u00e9%d", "-%d", "k?%d=",
                "CON%d", "d..%d", "k\\%d"][f["name"] % 19] % n
        path = world.put(home, name, resolver.text(f["lines"], f["nl"], f["final"]))
        sources["file%d" % n] = (path if f["name"] % 2 else name, f["lines"], None)
    for n, p in enumerate(case["pages"]):
        status = p["status"]
        body = resolver.text(p["lines"], p["nl"], p["final"])
        ctype = ["text/plain", "text/plain; charset=utf-8", "application/octet-stream", "text/plain; charset=ISO-8859-1", None][p["ctype"]]
        raw = body.encode("utf-8")
        if p["github"]:
            user = ["user-%d", "User%dX", "UPPER-%d", "%d", "-%d", "a.b_%d", "@u%d", "%d@x"][(p["ctype"] + 4 * (case["n"] % 2)) % 8] % n
            arg, url = "github:" + user, "https://github.com/%s.keys" % user
        else:
            url = arg = ["http", "https"][p["ctype"] % 2] + "://" + URLS[case["n"] // 11 % len(URLS)] % n
        pages[url] = (status, raw, ctype) if status else None
        if status == 200 and p.get("hops"):
            # the server redirects some times
            hops = [url] + ["https://moved.example/%d/%d" % (n, h) for h in range(p["hops"])]
            for h in range(p["hops"]):
                pages[hops[h]] = ([301, 302, 307, 308, 303][(n + h + len(raw)) % 5], b"# moved\n", "text/html", hops[h + 1])
            pages[hops[-1]] = (status, raw, ctype)
            sources["page%d" % n] = (arg, p["lines"], hops)
            continue
        sources["page%d" % n] = (arg, p["lines"] if status == 200 else None, url)
    for n, k in enumerate(case["keys"]):
        sources["key%d" % n] = (world.public_string(k), [{"k": k}], None)
    for n, (k, i) in enumerate(case["badkeys"]):
        sources["badkey%d" % n] = (resolver.broken(k, i), [{"k": None, "bad": True}], None)
    for n, w in enumerate(case["words"]):
        if w % 3 == 0:
            w = ["nobody", "missing.txt", "pubkey:x", "/nonexistent/x"][w // 3 % 4]
        else:  # close to the name of a file with keys
            world.put(home, "readable", world.age_public(kit.bseed("readable")))
            near = ["@%s", "file:%s", "file://%s", "<%s", "%s/", "%s.", "\"%s\"", "'%s'", "-r%s", "path:%s", "%s#", "%s?", "FILE:%s", "%s\0", "~/%s", "$HOME/%s", "%s*", "=%s", "rea[d]able"][w // 6 % 19]
            w = near.replace("%s", [os.path.join(home, "readable"), "readable"][w % 2])
        sources["word%d" % n] = (w, [], None)
    return sources, pages


def resolve(case):
    home = os.environ["HOME"]
    world.clean(home)
    os.chdir(home)
    sources, pages = build(case, home)
    names = sorted(sources)
    # aliases: label -> list of source names, over several lines
    model, out = {}, []
    for a in case["alias"]:
        label = a["label"]
        if label.startswith("@"):  # the label equals another source's string
            label = sources[names[a["n"] % len(names)]][0]
            if ":" in label or label.startswith("#") or label != label.strip() or not label:
                continue
        entries = [names[i % len(names)] for i in a["entries"]]
        entries = [e for e in entries if len(sources[e][0].split()) == 1]
        model.setdefault(label, []).extend(entries)
        out.append([" ", "", "\t"][a["n"] % 3] + label + ":" + [" ", "  ", "\t", ""][a["n"] % 4] + [" ", "\t", "   "][a["n"] % 3].join(sources[e][0] for e in entries) + ["", " "][a["n"] % 2])
        if a["n"] % 4 == 1:
            out += ["# %s: nothing" % label, ""]
    with open(os.path.join(home, "al"), "w", newline="", encoding="utf-8") as f:
        f.write(case["nl"].join(out) + (case["nl"] if case["n"] % 2 else ""))

    def value(src):
        arg, ls, url = sources[src]
        requested = url if isinstance(url, list) else [url] if url else []
        if ls is None:
            return None, requested
        try:
            return resolver.denoted(ls), requested
        except Unresolvable:
            return None, requested

    # what to resolve, and what it denotes
    target = case["target"]
    labels = sorted(model)
    if target == "alias" and labels:
        arg = labels[case["n"] % len(labels)]
    elif target == "unknown":
        arg = ["no such", "bob", "x" * 300, "", "keys", "pubkey:", "#"][case["n"] % 7]
    else:
        arg = sources[names[case["n"] % len(names)]][0]
    arg_stripped = arg.strip()
    expect, maybe_empty = None, False
    if arg_stripped in model:
        expect, reqs = [], []
        for e in model[arg_stripped]:
            v, r = value(e)
            reqs += r
            if not v:
                expect = None
                break
            expect += v
        maybe_empty = not model[arg_stripped]
    else:
        src = next((s for s in names if sources[s][0].strip() == arg_stripped), None)
        expect, reqs = value(src) if src else ([], [])
    pad = ["", " ", "\n"][case["n"] // 7 % 3]

    with resolver.web(pages) as urls:
        with kit.quiet():
            aliases = load_aliases(os.path.join(home, "al"))
            try:
                got = list(resolve_public_key(pad + arg + pad, aliases=aliases))
                err = None
            except (Exception, SystemExit) as e:
                got, err = None, e
    if resolver.GUARD.contacts:
        raise Violation("resolving %r contacted %s" % (arg, resolver.GUARD.contacts))
    if err is not None:
        if expect is not None and not (maybe_empty and not expect):
            raise Violation("resolving %r raised %s: %s instead of returning %d keys" % (arg, type(err).__name__, err, len(expect)))
        return ["refused", target]
    ids = [resolver.key_id(k) for k in got]
    if expect is None:
        raise Violation("resolving %r returned %d keys instead of an error" % (arg, len(ids)))
    if ids != expect:
        raise Violation("resolving %r returned %d keys, expected %d: %s" % (arg, len(ids), len(expect), describe(ids, expect)))
    if urls != reqs:
        raise Violation("resolving %r requested %r instead of %r" % (arg, urls, reqs))
    return [target, "keys:%d" % min(len(ids), 5)] + (["trivial"] if not expect else [])


def describe(a, b):
    return " ".join("%s" % x[0] for x in a) + " instead of " + " ".join("%s" % x[0] for x in b)


def strategy():
    file = st.fixed_dictionaries({"name": st.one_of(st.integers(0, 9), st.integers(0, 75)), "lines": resolver.lines(), "nl": st.sampled_from(NLS), "final": st.booleans()})
    page = st.fixed_dictionaries({"lines": resolver.lines(), "nl": st.sampled_from(NLS), "final": st.booleans(), "github": st.booleans(), "ctype": st.integers(0, 4),
                          "hops": st.sampled_from([0, 0, 0, 0, 1, 2]), "status": st.sampled_from([200, 200, 200, 200, 404, 500, 403, 503, 0])})
    alias = st.fixed_dictionaries({"label": st.sampled_from(["bob", "alice", "bob", "a b", "b\u00f6b", "@", "@", "age1bob", "ssh-rsa", "github", "https", "BOB", "~", "team"]),
                                   "entries": gen.weighted((9, st.lists(st.integers(0, 20), min_size=1, max_size=4)), (1, st.just([]))), "n": gen.position()})
    return st.fixed_dictionaries({
        "files": st.lists(file, min_size=1, max_size=3), "pages": gen.weighted((1, st.just([])), (3, st.lists(page, min_size=1, max_size=2))), "keys": st.lists(world.pub_ident(), min_size=1, max_size=3),
        "badkeys": gen.weighted((5, st.just([])), (1, st.lists(st.tuples(world.pub_ident(), gen.position()), min_size=1, max_size=1))), "words": gen.weighted((5, st.just([])), (1, st.just(1))).flatmap(lambda x: st.just([]) if not x else st.lists(st.integers(0, 3 * 19 * 4), min_size=1, max_size=1)),
        "alias": gen.weighted((1, st.just([])), (6, st.lists(alias, min_size=1, max_size=6))), "target": st.sampled_from(["alias", "alias", "alias", "source", "source", "source", "source", "unknown"]), "n": gen.position(), "nl": st.sampled_from(NLS)})


def filler(rows, size, at):
    """comment lines of about the given size in total or per line, at one place"""
    if not size:
        return rows
    pad = [{"k": None, "text": "# " + "x" * size}] if size % 2 else [{"k": None, "text": "# %s" % ("y" * 77)} for _ in range(size // 80)]
    i = [0, len(rows) // 2, len(rows)][at]
    return rows[:i] + pad + rows[i:]


RSA_SIZES = [0, 8, 11, 12, 18, 17, 19]


def long_lists(case):
    """large lists, pages and alias files denote all of their keys"""
    home = os.environ["HOME"]
    world.clean(home)
    os.chdir(home)
    n, how = case["n"], case["how"]
    specs = [{"t": "age", "sk": kit.bseed("long", i)} if (i + case["mix"]) % 3 else {"t": "rsa", "i": RSA_SIZES[(i // 3 + case["filler"]) % len(RSA_SIZES)] if n < 40 else i % 4} for i in range(n)]
    if how == "string":  # the key itself
        specs = [{"t": "rsa", "i": n}]
    rows = filler([{"k": s, "text": world.public_string(s, "c" * case["comment"] if s["t"] != "age" else "")} for s in specs], case["filler"], case["at"])
    body = resolver.text(rows, case["nl"], n % 2)
    pages, requested, alias, arg = {}, [], "", None
    if how == "string":
        arg = world.public_string(specs[0], "c" * case["comment"])
    elif how == "file":
        arg = world.put(home, "list.txt", body)
    elif how == "url":
        arg = "https://host.example/list.txt"
        pages[arg] = (200, body.encode(), "text/plain")
        requested = [arg]
    else:
        # an alias: one line, or one entry per line; the entries are key strings or files of one key
        entries = [world.public_string(s) if s["t"] == "age" else world.put(home, "k%d" % i, world.public_string(s)) for i, s in enumerate(specs)]
        other = ["other%d: %s" % (i, world.age_public(kit.bseed("other", i % 5))) for i in range(case["filler"] // 100)]
        out = ["team: " + " ".join(entries)] if how == "alias-line" else ["team:%s" % e for e in entries]
        alias = case["nl"].join(other[:len(other) // 2] + out + other[len(other) // 2:])
        arg = "team"
    world.put(home, "al", alias)
    with resolver.web(pages) as urls, kit.quiet():
        try:
            got = list(resolve_public_key(arg, aliases=load_aliases(os.path.join(home, "al"))))
        except (Exception, SystemExit) as e:
            raise Violation("%s with %d keys, %d characters: %s: %s" % (how, n, len(body), type(e).__name__, str(e)[:200]))
    ids, expect = [resolver.key_id(k) for k in got], [resolver.spec_id(s) for s in specs]
    if ids != expect:
        same = next((i for i, (a, b) in enumerate(zip(ids, expect)) if a != b), min(len(ids), len(expect)))
        raise Violation("%s with %d keys, %d characters, gave %d keys, as expected up to %d" % (how, n, len(body), len(ids), same))
    if urls != requested:
        raise Violation("%s requested %r" % (how, urls))
    return [how, "keys>=%d" % max(x for x in (1, 10, 100, 500) if x <= len(specs)), "large" if len(body) > 65536 else "small"]


def enum_long(tier):
    k = 0
    for i in RSA_SIZES:
        for comment in (0, 1, 500, 10000):
            yield {"how": "string", "n": i, "mix": 0, "filler": 0, "at": 0, "nl": "\n", "comment": comment}
    for how in ("file", "url", "alias-line", "alias-lines"):
        for n in (1, 2, 9, 17, 33, 65, 101, 129, 257, 520) + ((1030, 2100) if tier != "quick" else ()):
            for size in (0, 1025, 5000, 9001, 70001, 140000) if how in ("file", "url") or n < 40 else (0,):
                k += 1
                yield {"how": how, "n": n, "mix": k % 3, "filler": size, "at": k % 3, "nl": ["\n", "\r\n"][k % 2], "comment": [0, 8, 300, 9000][k % 4] if n < 70 else 3}


NEAR = ["@%s", "file:%s", "file://%s", "FILE:%s", "<%s", "%s/", "%s.", '"%s"', "'%s'", "-r%s", "-R %s", "path:%s", "%s#", "%s?", "%s\0", "~/%s", "$HOME/%s", "${HOME}/%s", "%s*", "=%s", "%s,%s", "%s %s", "%s:", ":%s", "(%s)", "`cat %s`", "|cat %s",
        "ftp://%s", "http:%s", "https:/%s", "Github:%s", "GITHUB:%s", "HTTPS://host.example/%s", "Http://host.example/%s", "gitlab:%s", "gh:%s", "github %s", "github=%s", "//host.example/%s", "host.example/%s", "AGE1%s", "Ssh-rsa %s",
        "%s.txt", "%s.pub", ".%s", "x/../%s", "%s%%20", "readabl?", "rea[d]able", "READABLE", "read", "TEAM", "team:", "@team", "team,team", "team team", "tea", "teams", "~team", "other: team", "team#", "data:,%s"]


def near_names(case):
    """what only resembles a file name, an address or an alias denotes nothing"""
    home = os.environ["HOME"]
    world.clean(home)
    os.chdir(home)
    key = world.age_public(kit.bseed("readable"))
    world.put(home, "readable", key + "\n")
    world.put(home, ".config/age/aliases.txt", "team: readable\n")
    world.put(home, "al", "team: readable\nnested: team\nnear: %s\n" % case["near"].replace("%s", "readable").replace(" ", ""))
    name = os.path.join(home, "readable") if case["abs"] else "readable"
    arg = case["near"].replace("%%", "%").replace("%s", name)
    if os.path.isfile(arg.replace("\0", "")) and "\0" not in arg or arg.strip() in ("team", "readable"):
        return ["trivial"]
    with resolver.web({}) as urls, kit.quiet():
        aliases = load_aliases(os.path.join(home, "al"))
        try:
            got = list(resolve_public_key(arg, aliases=aliases))
        except (Exception, SystemExit):
            got = []
        for entry in ("nested", "near"):
            if entry == "near" and (case["near"].startswith("x/..") or ":" in case["near"] or os.path.isfile(case["near"].replace("%s", "readable").replace(" ", "")) or case["near"] in ("%s %s", "team team")):
                continue
            try:
                got += list(resolve_public_key(entry, aliases=aliases))
            except (Exception, SystemExit):
                pass
    if got:
        raise Violation("%r (or an alias of it) denotes nothing but resolved to %d keys" % (arg, len(got)))
    if urls and not case["near"].lower().startswith("http"):
        raise Violation("%r requested %r" % (arg, urls))
    return ["near-name"]


SUBS = [Sub("near-names", near_names, enum=lambda tier: ({"near": n, "abs": a} for n in NEAR for a in (0, 1))),
        Sub("resolve", resolve, strategy, quick=4000, thorough=200000, qshards=4),
        Sub("long-lists", long_lists, enum=enum_long, qshards=3, tshards=4)]
