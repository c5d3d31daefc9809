#!/usr/bin/env python3
"""Mutation testing of the checks (development only).

mutation.py list OUT.json            all mutants of the sources, those that survive the stable tests marked
mutation.py check OUT.json RES.jsonl [k/n]  quick checks against the survivors, most likely ones first
"""
import ast, copy, json, os, shutil, subprocess, sys, time
from concurrent.futures import ThreadPoolExecutor

V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
REPO = "/repo"
SRC = REPO + "/src/age"
WORK = "/dev/shm/mut"
STABLE = set(json.load(open("/opt/vp/BASELINE.json"))["stable"])
MAP = [
    ("file.py", "P01 P28 P03 P08 P04 P02 P14 P05 P07"), ("format.py", "P09 P04 P05 P08 P06 P02"), ("stream.py", "P10 P03 P05"),
    ("cli.py", "P12 P13 P26 P14 P27"), ("keyloader.py", "P15 P16 P17 P13 P19 P12"), ("openssh_keys.py", "P20 P19 P17"),
    ("algorithms/scrypt.py", "P24 P29 P07 P05"), ("algorithms/", "P29 P06 P25 P05 P07 P02"), ("keys/agekey.py", "P18 P25 P27 P21"),
    ("keys/", "P21 P22 P19 P27 P17 P26"), ("primitives/bech32.py", "P30 P18"), ("primitives/", "P23 P25 P10 P29"),
    ("recipients/", "P29 P02 P05 P24 P06 P09"), ("utils/asciiarmor.py", "P11 P14 P28 P08"), ("utils/", "P14 P28 P26 P12"),
    ("exceptions.py", "P02 P13"), ("", "P12 P13"),
]
ALL = ["P%02d" % i for i in range(1, 38)]


def order(f):
    first = next(m for k, m in MAP if k in f).split()
    return first, [p for p in ALL if p not in first]


CMP = {ast.Eq: [ast.NotEq], ast.NotEq: [ast.Eq], ast.Lt: [ast.LtE, ast.GtE], ast.LtE: [ast.Lt, ast.Gt], ast.Gt: [ast.GtE, ast.LtE],
       ast.GtE: [ast.Gt, ast.Lt], ast.In: [ast.NotIn], ast.NotIn: [ast.In], ast.Is: [ast.IsNot], ast.IsNot: [ast.Is]}
BIN = {ast.Add: ast.Sub, ast.Sub: ast.Add, ast.Mult: ast.FloorDiv, ast.FloorDiv: ast.Mult, ast.Div: ast.FloorDiv, ast.Mod: ast.FloorDiv,
       ast.LShift: ast.RShift, ast.RShift: ast.LShift, ast.BitAnd: ast.BitOr, ast.BitOr: ast.BitAnd, ast.BitXor: ast.BitOr, ast.Pow: ast.Mult}


def docstrings(tree):
    out = set()
    for n in ast.walk(tree):
        if isinstance(n, (ast.Module, ast.ClassDef, ast.FunctionDef)) and n.body and isinstance(n.body[0], ast.Expr) and isinstance(
                n.body[0].value, ast.Constant):
            out.add(id(n.body[0].value))
            out.add(id(n.body[0]))
    return out


def annotations(tree):
    out = set()
    for n in ast.walk(tree):
        for a in ("annotation", "returns"):
            x = getattr(n, a, None)
            if isinstance(x, ast.AST):
                out |= {id(y) for y in ast.walk(x)}
    return out


def variants(node):
    """replacement nodes (or 'delete') for one node, with a description"""
    c = copy.deepcopy
    if isinstance(node, ast.Compare):
        for i, op in enumerate(node.ops):
            for r in CMP.get(type(op), []):
                m = c(node)
                m.ops[i] = r()
                yield m
    elif isinstance(node, ast.BoolOp):
        m = c(node)
        m.op = ast.Or() if isinstance(node.op, ast.And) else ast.And()
        yield m
        for i in range(len(node.values)):
            if len(node.values) == 2:
                yield c(node.values[1 - i])
            else:
                m = c(node)
                del m.values[i]
                yield m
    elif isinstance(node, ast.UnaryOp) and isinstance(node.op, ast.Not):
        yield c(node.operand)
    elif isinstance(node, ast.BinOp) and type(node.op) in BIN:
        m = c(node)
        m.op = BIN[type(node.op)]()
        yield m
    elif isinstance(node, ast.AugAssign) and type(node.op) in BIN:
        m = c(node)
        m.op = BIN[type(node.op)]()
        yield m
        yield ast.Assign(targets=[c(node.target)], value=c(node.value), lineno=0)
        yield ast.Pass()
    elif isinstance(node, ast.Constant):
        v = node.value
        if isinstance(v, bool):
            yield ast.Constant(not v)
        elif isinstance(v, int):
            yield ast.Constant(v + 1)
            yield ast.Constant(v - 1)
        elif isinstance(v, str):
            yield ast.Constant(v + "X")
            if v:
                yield ast.Constant(v[:-1])
        elif isinstance(v, bytes):
            yield ast.Constant(v + b"X")
            if v:
                yield ast.Constant(v[:-1])
        elif v is None:
            pass
    elif isinstance(node, (ast.If, ast.IfExp)):
        for v in (True, False):
            m = c(node)
            m.test = ast.Constant(v)
            yield m
    elif isinstance(node, ast.While):
        m = c(node)
        m.test = ast.Constant(False)
        yield m
    elif isinstance(node, ast.Return) and node.value is not None:
        m = c(node)
        m.value = ast.Constant(None)
        yield m
    elif isinstance(node, (ast.Raise, ast.Assert, ast.Expr, ast.Assign)):
        yield ast.Pass()
    elif isinstance(node, ast.Continue):
        yield ast.Break()
        yield ast.Pass()
    elif isinstance(node, ast.Break):
        yield ast.Continue()
        yield ast.Pass()
    elif isinstance(node, ast.Slice):
        for a in ("lower", "upper", "step"):
            if getattr(node, a) is not None:
                m = c(node)
                setattr(m, a, None)
                yield m
    elif isinstance(node, ast.ExceptHandler):
        if isinstance(node.type, ast.Tuple):
            for i in range(len(node.type.elts)):
                m = c(node)
                del m.type.elts[i]
                yield m
        elif node.type is not None:
            m = c(node)
            m.type = ast.Name("Exception", ast.Load())
            yield m
    elif isinstance(node, ast.Try):
        if node.finalbody:
            m = c(node)
            m.finalbody = []
            if not m.handlers:
                yield ast.If(ast.Constant(True), m.body, [])
            else:
                yield m
            yield ast.If(ast.Constant(True), c(node.body) + c(node.finalbody), [])
        if node.handlers and not node.finalbody:
            yield ast.If(ast.Constant(True), c(node.body) + c(node.orelse), [])
    elif isinstance(node, ast.Call):
        if isinstance(node.func, ast.Attribute):
            yield c(node.func.value)
        for i in range(len(node.args)):
            m = c(node)
            del m.args[i]
            yield m
        if len(node.args) >= 2:
            m = c(node)
            m.args[0], m.args[1] = m.args[1], m.args[0]
            yield m
        elif len(node.args) == 1 and not node.keywords:
            yield c(node.args[0])
        for i in range(len(node.keywords)):
            m = c(node)
            del m.keywords[i]
            yield m
    elif isinstance(node, ast.comprehension) and node.ifs:
        m = c(node)
        m.ifs = []
        yield m
    elif isinstance(node, ast.JoinedStr):
        yield ast.Constant("")
    elif isinstance(node, ast.FunctionDef):
        for i, d in enumerate(node.decorator_list):
            if not (isinstance(d, ast.Name) and d.id in ("classmethod",)):
                pass
        for i, d in enumerate(node.args.defaults):
            pass


class Replace(ast.NodeTransformer):
    def __init__(self, target, new):
        self.target, self.new = target, new

    def visit(self, node):
        if node is self.target:
            return self.new
        return super().generic_visit(node)


def mutants():
    seen = set()
    for root, _, files in sorted(os.walk(SRC)):
        for f in sorted(files):
            if not f.endswith(".py") or f.endswith("_test.py") or f == "_version.py":
                continue
            path = os.path.join(root, f)
            rel = os.path.relpath(path, SRC)
            src = open(path).read()
            tree = ast.parse(src)
            skip = docstrings(tree) | annotations(tree)
            for n in ast.walk(tree):
                # texts of messages, __all__, debugging helpers
                if isinstance(n, ast.Raise) or isinstance(n, ast.Call) and isinstance(n.func, ast.Name) and n.func.id == "print":
                    skip |= {id(x) for x in ast.walk(n) if x is not n}
                if isinstance(n, ast.Assert) and n.msg:
                    skip |= {id(x) for x in ast.walk(n.msg)}
                if isinstance(n, ast.Assign) and ast.unparse(n.targets[0]) == "__all__" or isinstance(n, ast.FunctionDef) and n.name.startswith("_debug"):
                    skip |= {id(x) for x in ast.walk(n)}
            base = ast.unparse(tree)
            for node in list(ast.walk(tree)):
                if id(node) in skip:
                    continue
                for new in variants(node):
                    if new is None:
                        continue
                    t = Replace(node, new).visit(tree)
                    try:
                        text = ast.unparse(ast.fix_missing_locations(t))
                        compile(text, rel, "exec")
                    except Exception:
                        text = None
                    # undo
                    tree = Replace(new, node).visit(tree) if text is not None or True else tree
                    if text is None or text == base or (rel, text) in seen:
                        continue
                    seen.add((rel, text))
                    yield rel, text, getattr(node, "lineno", 0)


def diffline(rel, text):
    import difflib
    a = ast.unparse(ast.parse(open(os.path.join(SRC, rel)).read())).splitlines()
    return [l for l in difflib.unified_diff(a, text.splitlines(), n=0, lineterm="") if not l.startswith(("---", "+++", "@@"))]


def make(i, rel, text):
    d = os.path.join(WORK, str(i))
    shutil.rmtree(d, ignore_errors=True)
    os.makedirs(d)
    for n in os.listdir(REPO):
        if n not in (".git",):
            s = os.path.join(REPO, n)
            (shutil.copytree if os.path.isdir(s) else shutil.copy2)(s, os.path.join(d, n))
    open(os.path.join(d, "src/age", rel), "w").write(text)
    return d


def stable(i, rel, text):
    d = make(i, rel, text)
    try:
        s = open("/opt/vp/test.sh").read().replace("/repo", d).replace("--timeout=300", "--timeout=60 -x --deselect " + " --deselect ".join(DESELECT) if DESELECT else "--timeout=60")
        open(d + "/t.sh", "w").write(s)
        out = d + "/o.json"
        try:
            subprocess.run(["unshare", "-Urm", "sh", "-c", "mount -t tmpfs none /tmp; exec bash %s/t.sh %s" % (d, out)],
                           stdin=subprocess.DEVNULL, stdout=subprocess.DEVNULL, stderr=subprocess.DEVNULL, timeout=120)
            return STABLE <= set(json.load(open(out))["passed"])
        except Exception:
            return False
    finally:
        shutil.rmtree(d, ignore_errors=True)


# fail without network on the unchanged tree
DESELECT = ["src/age/cli_test.py::test_decrypt", "src/age/cli_test.py::test_decrypt_from_file", "src/age/cli_test.py::test_decrypt_to_file"]


def cmd_list(out):
    ms = list(mutants())
    print(len(ms), "mutants", flush=True)
    with ThreadPoolExecutor(8) as ex:
        ok = list(ex.map(lambda t: stable(t[0], t[1][0], t[1][1]), enumerate(ms)))
    res = [{"i": i, "file": r, "line": n, "text": t, "diff": diffline(r, t)} for i, ((r, t, n), o) in enumerate(zip(ms, ok)) if o]
    json.dump(res, open(out, "w"))
    print(len(res), "pass the stable tests")


def cmd_check(inp, out, part, ids=None, pids=None):
    k, n = map(int, part.split("/"))
    done = {json.loads(l)["i"] for l in open(out)} if os.path.exists(out) else set()
    for m in json.load(open(inp)):
        if m["i"] % n != k or m["i"] in done or ids and m["i"] not in ids:
            continue
        d = make("c%d" % m["i"], m["file"], m["text"])
        first, rest = order(m["file"])
        caught, odd, t0 = None, [], time.time()
        try:
            for p in pids or (first if os.environ.get("MUT_FIRST") else first + rest):
                try:
                    r = subprocess.run(["/opt/venv/bin/python", "-B", "run.py", p, "quick"], cwd=V, env=dict(os.environ, VERIF_REPO=d, VERIF_SEED="1"),
                                       stdin=subprocess.DEVNULL, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True, timeout=900)
                except subprocess.TimeoutExpired:
                    odd.append(p + " timeout")
                    continue
                if r.returncode == 1:
                    caught = p
                    break
                if r.returncode:
                    odd.append("%s rc=%d %s" % (p, r.returncode, r.stdout[-300:]))
        finally:
            shutil.rmtree(d, ignore_errors=True)
        with open(out, "a") as f:
            f.write(json.dumps({"i": m["i"], "file": m["file"], "line": m["line"], "diff": m["diff"], "caught": caught, "odd": odd, "s": round(time.time() - t0)}) + "\n")


if __name__ == "__main__":
    if sys.argv[1] == "list":
        cmd_list(sys.argv[2])
    else:
        cmd_check(sys.argv[2], sys.argv[3], sys.argv[4] if len(sys.argv) > 4 else "0/1")
